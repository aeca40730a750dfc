use crate::am::*;
use crate::ensure;
use crate::props::merge::{canon, lc};
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::shapes::{HasTraits, ShapeKind, TopLevelShape};
use atelier_core::model::{HasIdentity, ShapeID};
use std::collections::BTreeSet;

macro_rules! eq {
    ($got:expr, $want:expr, $what:expr, $m:expr) => {
        match (&$got, &$want) {
            (g, w) => ensure!(*g == *w, format!("{} on {:?}", $what, $m), format!("{:?}", w), format!("{:?}", g)),
        }
    };
}
pub const PRELUDE_QUERIES: [(&str, fn(&dyn HasTraits) -> bool); 23] = [
    ("documentation", |s| s.has_documentation()),
    ("externalDocumentation", |s| s.has_external_documentation()),
    ("length", |s| s.has_length()),
    ("pattern", |s| s.has_pattern()),
    ("requiresLength", |s| s.has_required_length()),
    ("box", |s| s.is_boxed()),
    ("deprecated", |s| s.is_deprecated()),
    ("error", |s| s.is_error()),
    ("idempotent", |s| s.is_idempotent()),
    ("noReplace", |s| s.is_no_replace()),
    ("paginated", |s| s.is_paginated()),
    ("private", |s| s.is_private()),
    ("readonly", |s| s.is_readonly()),
    ("references", |s| s.is_references()),
    ("required", |s| s.is_required()),
    ("sensitive", |s| s.is_sensitive()),
    ("streaming", |s| s.is_streaming()),
    ("since", |s| s.is_since()),
    ("tags", |s| s.is_tagged()),
    ("title", |s| s.is_titled()),
    ("trait", |s| s.is_trait()),
    ("uniqueItems", |s| s.has_unique_items()),
    ("unstable", |s| s.is_unstable()),
];
fn probes(m: &AModel) -> Vec<String> {
    let mut v: Vec<String> = m.shapes.keys().cloned().collect();
    v.extend(m.shapes.keys().map(|k| k.to_uppercase()));
    v.extend(["nope#Nope", "smithy.api#String", "a#Thing", "example.alpha#City"].iter().map(|s| s.to_string()));
    v
}
fn model_queries(_case: u64, r: &mut Rng) -> Res {
    let a = Gen::new(r, GenCfg { shapes: 8, ..GenCfg::default() }).model();
    let m = a.to();
    eq!(m.has_shapes(), !a.shapes.is_empty(), "has_shapes", a);
    eq!(m.has_metadata(), !a.metadata.is_empty(), "has_metadata", a);
    eq!(m.shapes().count(), a.shapes.len(), "shapes().count()", a);
    eq!(m.metadata().count(), a.metadata.len(), "metadata().count()", a);
    for k in a.metadata.keys().cloned().chain(["zz".to_string(), "".to_string(), "K".to_string()]) {
        let want = a.metadata.get(&k);
        eq!(m.has_metadata_value(&k), want.is_some(), format!("has_metadata_value({:?})", k), a);
        eq!(m.metadata_value(&k).map(AV::from).as_ref(), want, format!("metadata_value({:?})", k), a);
    }
    for p in probes(&a) {
        let want = a.shapes.iter().find(|(k, _)| lc(k) == lc(&p));
        eq!(m.has_shape(&sid(&p)), want.is_some(), format!("has_shape({})", p), a);
        match (m.shape(&sid(&p)), want) {
            (None, None) => {}
            (Some(s), Some((k, w))) => {
                eq!(s.id().to_string(), *k, format!("shape({}).id", p), a);
                eq!(AS::from(s), *w, format!("shape({})", p), a);
            }
            (g, w) => ensure!(false, format!("shape({}) on {:?}", p, a), format!("{:?}", w), format!("{:?}", g)),
        }
        let mut m2 = m.clone();
        eq!(m2.shape_mut(&sid(&p)).map(|s| AS::from(s)).as_ref(), want.map(|x| x.1), format!("shape_mut({})", p), a);
        let gone = m2.remove_shape(&sid(&p));
        eq!(gone.as_ref().map(AS::from).as_ref(), want.map(|x| x.1), format!("remove_shape({})", p), a);
        let mut rest = a.clone();
        if let Some((k, _)) = want {
            rest.shapes.remove(&k.clone());
        }
        eq!(AModel::from(&m2), rest, format!("the rest after remove_shape({})", p), a);
    }
    let mut m3 = m.clone();
    for k in a.metadata.keys() {
        let x = m3.remove_metadata(k);
        eq!(x.as_ref().map(AV::from).as_ref(), a.metadata.get(k), format!("remove_metadata({:?})", k), a);
        eq!(m3.has_metadata_value(k), false, format!("has_metadata_value({:?}) after removal", k), a);
    }
    eq!(m3.has_metadata(), false, "has_metadata after removing every key", a);
    Ok(format!("{:?}", a))
}
fn shape_queries(case: u64, r: &mut Rng) -> Res {
    let kind = KINDS[(case % 10) as usize];
    let c = GenCfg::default();
    let mut g = Gen::new(r, c.clone());
    let b = g.body_of(kind);
    let ns = *r.pick(&["smithy.api", "example.alpha", "smithy.apix", "smithy", "SMITHY.api"]);
    let a = AS { traits: gen_traits(r, &c), body: b.clone() };
    let id = format!("{}#Thing", ns);
    let s: TopLevelShape = a.to(&id);
    let body = s.body();
    let flags: [(bool, bool, &str); 10] = [
        (s.is_simple(), body.is_simple(), "simple"),
        (s.is_list(), body.is_list(), "list"),
        (s.is_set(), body.is_set(), "set"),
        (s.is_map(), body.is_map(), "map"),
        (s.is_structure(), body.is_structure(), "structure"),
        (s.is_union(), body.is_union(), "union"),
        (s.is_service(), body.is_service(), "service"),
        (s.is_operation(), body.is_operation(), "operation"),
        (s.is_resource(), body.is_resource(), "resource"),
        (s.is_unresolved(), body.is_unresolved(), "unresolved"),
    ];
    for (x, y, k) in &flags {
        eq!((*x, *y), (*k == kind, *k == kind), format!("is_{}", k), b);
    }
    let some = [
        body.as_simple().is_some(), body.as_list().is_some(), body.as_set().is_some(), body.as_map().is_some(), body.as_structure().is_some(),
        body.as_union().is_some(), body.as_service().is_some(), body.as_operation().is_some(), body.as_resource().is_some(),
    ];
    for (i, x) in some.iter().enumerate() {
        eq!(*x, KINDS[i] == kind, format!("as_{} is some", KINDS[i]), b);
    }
    if ns.to_ascii_lowercase() != "smithy.api" || ns == "smithy.api" {
        eq!(s.is_prelude_shape(), ns == "smithy.api", format!("is_prelude_shape of {}", id), b);
    }
    eq!(s.has_members(), kind != "simple" && kind != "unresolved", "has_members", b);
    let members = b.members();
    let mut names: Vec<String> = members.iter().map(|m| m.name.clone()).collect();
    names.extend(["member", "key", "value", "Member", "KEY", "nothing", "input", "version", "operations"].iter().map(|s| s.to_string()));
    for n in names {
        let want = members.iter().find(|m| lc(&m.name) == lc(&n));
        eq!(s.has_member(&ident(&n)), want.is_some(), format!("has_member({})", n), b);
        eq!(s.member(&ident(&n)).map(AM::from).as_ref(), want.map(|m| *m), format!("member({})", n), b);
        if let ShapeKind::Structure(st) | ShapeKind::Union(st) = body {
            eq!(st.has_member(&ident(&n)), want.is_some(), format!("structure has_member({})", n), b);
            eq!(st.member(&ident(&n)).map(AM::from).as_ref(), want.map(|m| *m), format!("structure member({})", n), b);
        }
    }
    match body {
        ShapeKind::Structure(st) | ShapeKind::Union(st) => {
            eq!(st.has_members(), !members.is_empty(), "structure has_members", b);
            eq!(st.members().count(), members.len(), "members().count()", b);
        }
        ShapeKind::Service(x) => {
            if let AB::Service { operations, resources, renames, version } = &b {
                eq!(x.version(), version, "version", b);
                eq!(x.has_operations(), !operations.is_empty(), "has_operations", b);
                eq!(x.has_resources(), !resources.is_empty(), "has_resources", b);
                eq!(x.has_renames(), !renames.is_empty(), "has_renames", b);
                for p in renames.keys().map(|k| k.to_uppercase()).chain(["none#None".to_string()]) {
                    let want = renames.iter().find(|(k, _)| lc(k) == lc(&p)).map(|x| x.1.clone());
                    eq!(x.has_rename_shape(&sid(&p)), want.is_some(), format!("has_rename_shape({})", p), b);
                    eq!(x.contains_rename_shape(&sid(&p)).map(|i| i.to_string()), want, format!("contains_rename_shape({})", p), b);
                }
            }
        }
        ShapeKind::Operation(x) => {
            if let AB::Operation { input, output, errors } = &b {
                eq!((x.has_input(), x.has_output(), x.has_errors()), (input.is_some(), output.is_some(), !errors.is_empty()), "has_input, has_output, has_errors", b);
            }
        }
        ShapeKind::Resource(x) => {
            if let AB::Resource { identifiers, life, operations, collection_operations, resources } = &b {
                eq!(x.has_identifiers(), !identifiers.is_empty(), "has_identifiers", b);
                for p in identifiers.keys().map(|k| k.to_uppercase()).chain(["none".to_string()]) {
                    let want = identifiers.iter().find(|(k, _)| lc(k) == lc(&p)).map(|x| x.1.clone());
                    eq!(x.has_identifier(&ident(&p)), want.is_some(), format!("has_identifier({})", p), b);
                    eq!(x.identifier(&ident(&p)).map(|i| i.to_string()), want, format!("identifier({})", p), b);
                }
                let got = [x.has_create(), x.has_put(), x.has_read(), x.has_update(), x.has_delete(), x.has_list()];
                let want: Vec<bool> = life.iter().map(|l| l.is_some()).collect();
                eq!(got.to_vec(), want, "has_create, put, read, update, delete, list", b);
                eq!(x.has_any_resource_operation(), life.iter().any(|l| l.is_some()), "has_any_resource_operation", b);
                eq!((x.has_operations(), x.has_collection_operations(), x.has_resources()), (!operations.is_empty(), !collection_operations.is_empty(), !resources.is_empty()), "has_operations, has_collection_operations, has_resources", b);
            }
        }
        _ => {}
    }
    Ok(format!("{} {:?}", id, b))
}
fn trait_queries(case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let mut t = gen_traits(r, &c);
    // one prelude trait exactly, then mixtures
    let n = PRELUDE_QUERIES.len() as u64;
    if case < n {
        t.clear();
        t.insert(format!("smithy.api#{}", PRELUDE_QUERIES[case as usize].0), None);
    } else if case < 2 * n {
        t.clear();
        t.insert(format!("other.api#{}", PRELUDE_QUERIES[(case - n) as usize].0), Some(AV::Bool(true)));
    } else {
        for _ in 0..r.below(4) {
            let q = r.pick(&PRELUDE_QUERIES).0;
            let ns = r.pick(&["smithy.api", "smithy.api", "com.other"]);
            insert_ci(&mut t, format!("{}#{}", ns, q), Some(AV::Bool(false)));
        }
    }
    let mem = AM { name: "m".into(), target: "x#Y".into(), traits: t.clone() }.to();
    let top = AS { traits: t.clone(), body: AB::Struct(Default::default()) }.to("x#Y");
    let both: [&dyn HasTraits; 2] = [&mem, &top];
    for h in both.iter() {
        eq!(h.has_traits(), !t.is_empty(), "has_traits", t);
        for (name, q) in PRELUDE_QUERIES.iter() {
            let id = format!("smithy.api#{}", name);
            let want = t.keys().any(|k| lc(k) == lc(&id));
            eq!(q(*h), want, format!("the query for {}", id), t);
        }
        for p in t.keys().cloned().chain(t.keys().map(|k| k.to_uppercase())).chain(["x#none".to_string()]) {
            let want = t.iter().find(|(k, _)| lc(k) == lc(&p)).map(|x| x.1.clone());
            eq!(h.has_trait(&sid(&p)), want.is_some(), format!("has_trait({})", p), t);
            eq!(h.trait_named(&sid(&p)).map(|v| v.as_ref().map(AV::from)), want, format!("trait_named({})", p), t);
        }
    }
    let mut top2 = top.clone();
    for k in t.keys() {
        top2.remove_trait(&sid(k));
        eq!(top2.has_trait(&sid(k)), false, format!("has_trait({}) after removal", k), t);
    }
    eq!(top2.has_traits(), false, "has_traits after removing all", t);
    Ok(format!("{:?}", t))
}
pub fn c03() -> Vec<Sub> {
    vec![
        Sub { name: "model", cases: (3000, 60_000), what: "queries on a model, its shapes and its metadata", run: model_queries },
        Sub { name: "shape", cases: (5000, 120_000), what: "queries on shapes of every kind", run: shape_queries },
        Sub { name: "traits", cases: (4000, 100_000), what: "queries on applied traits, the 23 prelude trait queries included", run: trait_queries },
    ]
}

// ---------------------------------------------------------------- C08
fn strs<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<String> {
    let mut v: Vec<String> = i.map(|s| s.to_string()).collect();
    v.sort();
    v
}
fn completeness(_case: u64, r: &mut Rng) -> Res {
    let mut c = GenCfg { shapes: 8, ..GenCfg::default() };
    c.unresolved = r.chance(2, 3);
    let mut a = Gen::new(r, c).model();
    if r.chance(1, 4) {
        a.shapes.insert("a#Thing$member".into(), AS::new(AB::Unresolved));
    }
    if r.chance(1, 8) {
        // nothing but unresolved shapes
        for s in a.shapes.values_mut() {
            s.body = AB::Unresolved;
        }
    }
    let keys: Vec<String> = {
        let mut k: Vec<String> = a.shapes.keys().cloned().collect();
        r.shuffle(&mut k);
        k
    };
    let mut m = a.to_in_order(&keys);
    let check = |m: &atelier_core::model::Model, a: &AModel| -> Res {
        let un: Vec<String> = a.shapes.iter().filter(|(_, s)| s.body == AB::Unresolved).map(|x| x.0.clone()).collect();
        let def: Vec<String> = a.shapes.iter().filter(|(_, s)| s.body != AB::Unresolved).map(|x| x.0.clone()).collect();
        eq!(m.is_complete(), un.is_empty(), "is_complete", a);
        eq!(strs(m.shape_names()), def, "shape_names", a);
        eq!(strs(m.unresolved_shape_names()), un, "unresolved_shape_names", a);
        let ns: BTreeSet<String> = def.iter().map(|d| lc(d.split('#').next().unwrap())).collect();
        let got: Vec<String> = m.namespaces().iter().map(|n| lc(&n.to_string())).collect();
        eq!(got.len(), ns.len(), "the number of namespaces", a);
        eq!(got.into_iter().collect::<BTreeSet<_>>(), ns, "namespaces", a);
        Ok(String::new())
    };
    check(&m, &a)?;
    // resolving one shape after the other
    let un: Vec<String> = a.shapes.iter().filter(|(k, s)| s.body == AB::Unresolved && !k.contains('$')).map(|x| x.0.clone()).collect();
    for k in un {
        let b = AB::Simple("string".into());
        let res = m.add_shape(AS::new(b.clone()).to(&k));
        ensure!(res.is_ok(), format!("define {} in {:?}", k, a), "ok", format!("{:?}", res));
        a.shapes.get_mut(&k).unwrap().body = b;
        check(&m, &a)?;
        // a later reference does not undo it
        let res = m.add_shape(AS::new(AB::Unresolved).to(&k));
        ensure!(res.is_ok(), format!("refer to {} in {:?}", k, a), "ok", format!("{:?}", res));
        check(&m, &a)?;
    }
    let _ = canon(&a);
    Ok(format!("{:?}", a))
}
pub fn c08() -> Vec<Sub> {
    vec![Sub { name: "completeness", cases: (8000, 200_000), what: "models with defined and unresolved shapes, resolved one after the other", run: completeness }]
}
