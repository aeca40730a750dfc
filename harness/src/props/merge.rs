//! C04 metadata merging, C05 trait conflicts, C06 shape conflicts, C07 model merging.
use crate::am::*;
use crate::ensure;
use crate::rng::Rng;
use crate::{fail, Res, Sub};
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::{AppliedTraits, HasTraits, NonTraitEq};
use atelier_core::model::values::{Value, ValueMap};
use atelier_core::model::Model;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- the oracle: Smithy's merge rules over plain data

pub fn lc(s: &str) -> String {
    s.to_ascii_lowercase()
}
fn lct(t: &ATraits) -> ATraits {
    t.iter().map(|(k, v)| (lc(k), v.clone())).collect()
}
fn lcm(m: &AM) -> AM {
    AM { name: lc(&m.name), target: lc(&m.target), traits: lct(&m.traits) }
}
fn lcv(v: &[String]) -> Vec<String> {
    v.iter().map(|s| lc(s)).collect()
}
fn lco(v: &Option<String>) -> Option<String> {
    v.as_ref().map(|s| lc(s))
}
/// identities compare without case: the canonical spelling
pub fn canon_body(b: &AB) -> AB {
    match b {
        AB::Simple(_) | AB::Unresolved => b.clone(),
        AB::List(m) => AB::List(lcm(m)),
        AB::Set(m) => AB::Set(lcm(m)),
        AB::Map(k, v) => AB::Map(lcm(k), lcm(v)),
        AB::Struct(ms) => AB::Struct(ms.iter().map(|(k, m)| (lc(k), lcm(m))).collect()),
        AB::Union(ms) => AB::Union(ms.iter().map(|(k, m)| (lc(k), lcm(m))).collect()),
        AB::Service { version, operations, resources, renames } => AB::Service {
            version: version.clone(),
            operations: lcv(operations),
            resources: lcv(resources),
            renames: renames.iter().map(|(k, v)| (lc(k), lc(v))).collect(),
        },
        AB::Operation { input, output, errors } => AB::Operation { input: lco(input), output: lco(output), errors: lcv(errors) },
        AB::Resource { identifiers, life, operations, collection_operations, resources } => AB::Resource {
            identifiers: identifiers.iter().map(|(k, v)| (lc(k), lc(v))).collect(),
            life: [lco(&life[0]), lco(&life[1]), lco(&life[2]), lco(&life[3]), lco(&life[4]), lco(&life[5])],
            operations: lcv(operations),
            collection_operations: lcv(collection_operations),
            resources: lcv(resources),
        },
    }
}
pub fn canon(m: &AModel) -> AModel {
    AModel {
        metadata: m.metadata.clone(),
        shapes: m.shapes.iter().map(|(k, s)| (lc(k), AS { traits: lct(&s.traits), body: canon_body(&s.body) })).collect(),
    }
}
pub fn merge_value(a: &Option<AV>, b: &Option<AV>) -> Option<Option<AV>> {
    match (a, b) {
        (Some(AV::Arr(x)), Some(AV::Arr(y))) => Some(Some(AV::Arr(x.iter().chain(y.iter()).cloned().collect()))),
        (a, b) if a == b => Some(a.clone()),
        _ => None,
    }
}
/// canonical inputs; None: conflict
pub fn merge_traits(a: &ATraits, b: &ATraits) -> Option<ATraits> {
    let mut r = a.clone();
    for (k, v) in b {
        let n = match a.get(k) {
            Some(o) => merge_value(o, v)?,
            None => v.clone(),
        };
        r.insert(k.clone(), n);
    }
    Some(r)
}
pub fn same_structure(a: &AB, b: &AB) -> bool {
    a.without_traits() == b.without_traits()
}
fn merge_shape(a: &AS, b: &AS) -> Option<AS> {
    let traits = merge_traits(&a.traits, &b.traits)?;
    let body = match (&a.body, &b.body) {
        (AB::Unresolved, x) => x.clone(),
        (x, AB::Unresolved) => x.clone(),
        (x, y) => {
            if !same_structure(x, y) {
                return None;
            }
            let mut r = x.clone();
            let other: BTreeMap<String, ATraits> = y.members().into_iter().map(|m| (m.name.clone(), m.traits.clone())).collect();
            for m in r.members_mut() {
                m.traits = merge_traits(&m.traits, &other[&m.name])?;
            }
            r
        }
    };
    Some(AS { traits, body })
}
pub fn merge_models(a: &AModel, b: &AModel) -> Option<AModel> {
    let mut r = a.clone();
    for (k, v) in &b.metadata {
        let n = match a.metadata.get(k) {
            Some(o) => merge_value(&Some(o.clone()), &Some(v.clone()))?.unwrap(),
            None => v.clone(),
        };
        r.metadata.insert(k.clone(), n);
    }
    for (k, v) in &b.shapes {
        let n = match a.shapes.get(k) {
            Some(o) => merge_shape(o, v)?,
            None => v.clone(),
        };
        r.shapes.insert(k.clone(), n);
    }
    Some(r)
}

// ---------------------------------------------------------------- values that matter for conflicts

fn corner_values() -> Vec<Option<AV>> {
    let s = |x: &str| AV::Str(x.to_string());
    let mut o1 = BTreeMap::new();
    o1.insert("k".to_string(), AV::Int(1));
    let mut o2 = o1.clone();
    o2.insert("l".to_string(), AV::Arr(vec![]));
    let mut v: Vec<Option<AV>> = vec![
        AV::Null, AV::Arr(vec![]), AV::Arr(vec![AV::Int(1)]), AV::Arr(vec![AV::Int(1), AV::Int(2)]), AV::Arr(vec![AV::Int(2), AV::Int(1)]),
        AV::Arr(vec![s("a"), AV::Null]), AV::Arr(vec![AV::Arr(vec![])]), AV::Obj(BTreeMap::new()), AV::Obj(o1), AV::Obj(o2), AV::Int(0), AV::Int(1),
        AV::Int(-1), AV::Int(i64::MAX), AV::Flt(0.0), AV::Flt(1.0), AV::Flt(1.5), AV::Bool(true), AV::Bool(false), s(""), s("a"), s("A"), s("1"), s("true"),
    ]
    .into_iter()
    .map(Some)
    .collect();
    v.push(None);
    v
}
fn near(r: &mut Rng, c: &GenCfg, v: &AV) -> AV {
    match (v, r.below(4)) {
        (AV::Arr(x), 0) if !x.is_empty() => AV::Arr(x[1..].to_vec()),
        (AV::Arr(x), 1) => {
            let mut y = x.clone();
            y.push(AV::Bool(true));
            AV::Arr(y)
        }
        (AV::Obj(m), 0) => {
            let mut m = m.clone();
            m.insert("extra".to_string(), AV::Null);
            AV::Obj(m)
        }
        (AV::Str(s), 0) => AV::Str(format!("{} ", s)),
        (AV::Int(i), 0) => AV::Int(i.wrapping_add(1)),
        (AV::Bool(b), 0) => AV::Bool(!b),
        (_, 3) => gen_value(r, c, 2),
        _ => v.clone(),
    }
}
fn val_pair(case: u64, r: &mut Rng) -> (Option<AV>, Option<AV>) {
    let cv = corner_values();
    let n = cv.len() as u64;
    if case < n * n {
        return (cv[(case / n) as usize].clone(), cv[(case % n) as usize].clone());
    }
    let c = GenCfg::default();
    let a = if r.chance(1, 8) { None } else { Some(gen_value(r, &c, 3)) };
    let b = match &a {
        Some(v) => Some(near(r, &c, v)),
        None => if r.chance(1, 2) { None } else { Some(gen_value(r, &c, 2)) },
    };
    (a, b)
}
fn recase(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 3) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}

// ---------------------------------------------------------------- C05

const IDS: [&str; 4] = ["smithy.api#tags", "example.alpha#tr", "smithy.api#documentation", "a#b"];

fn apply_pair(case: u64, r: &mut Rng) -> Res {
    let (a, b) = val_pair(case, r);
    let id = r.pick(&IDS).to_string();
    let id2 = if r.chance(1, 3) { recase(r, &id) } else { id.clone() };
    let other = if r.chance(1, 2) { Some(("example.other#t".to_string(), Some(AV::Int(7)))) } else { None };
    let input = format!("apply {} = {:?}, then {} = {:?} (other trait: {:?})", id, a, id2, b, other);
    let want = merge_value(&a, &b);
    let member = r.chance(1, 2);
    let mut t0 = ATraits::new();
    if let Some((k, v)) = &other {
        t0.insert(k.clone(), v.clone());
    }
    let mut top = AS { traits: t0.clone(), body: AB::Unresolved }.to("x#Y");
    let mut mem = AM { name: "m".into(), target: "x#Y".into(), traits: t0.clone() }.to();
    let target: &mut dyn HasTraits = if member { &mut mem } else { &mut top };
    let r1 = if a.is_none() && r.chance(1, 2) { target.apply(sid(&id)) } else { target.apply_with_value(sid(&id), a.as_ref().map(|v| v.to())) };
    ensure!(r1.is_ok(), input, "the first application succeeds", format!("{:?}", r1));
    ensure!(target.trait_named(&sid(&id2)) == Some(&a.as_ref().map(|v| v.to())), input, "the trait has the value given", format!("{:?}", target.trait_named(&sid(&id2))));
    let before = traits_from(target.traits());
    let r2 = if b.is_none() && r.chance(1, 2) { target.apply(sid(&id2)) } else { target.apply_with_value(sid(&id2), b.as_ref().map(|v| v.to())) };
    let after = traits_from(target.traits());
    match &want {
        Some(v) => {
            ensure!(r2.is_ok(), input, format!("merged value {:?}", v), format!("{:?}", r2));
            let mut e = lct(&before);
            e.insert(lc(&id), v.clone());
            ensure!(lct(&after) == e && after.len() == before.len(), input, format!("{:?}", e), format!("{:?}", after));
        }
        None => {
            ensure!(matches!(&r2, Err(e) if matches!(e.kind(), ErrorKind::MergeTraitConflict(i) if *i == sid(&id))), input, "a trait conflict error naming the trait", format!("{:?}", r2));
            ensure!(after == before, input, format!("the traits stay {:?}", before), format!("{:?}", after));
        }
    }
    Ok(format!("{} {:?} {:?}", member, a, b))
}
fn apply_member_id(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let t0 = gen_traits(r, &c);
    let id = format!("{}$m", r.pick(&IDS));
    let v = if r.chance(1, 2) { None } else { Some(gen_value(r, &c, 2)) };
    let member = r.chance(1, 2);
    let mut top = AS { traits: t0.clone(), body: AB::Unresolved }.to("x#Y");
    let mut mem = AM { name: "m".into(), target: "x#Y".into(), traits: t0.clone() }.to();
    let target: &mut dyn HasTraits = if member { &mut mem } else { &mut top };
    let res = target.apply_with_value(sid(&id), v.as_ref().map(|v| v.to()));
    let input = format!("apply {} = {:?} to {:?}", id, v, t0);
    ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::ShapeIDExpected(i) if *i == sid(&id))), input, "an error: a trait id is not a member id", format!("{:?}", res));
    ensure!(traits_from(target.traits()) == t0, input, "the traits are unchanged", format!("{:?}", target.traits()));
    Ok(format!("{:?} {:?} {}", t0, v, member))
}
fn gen_trait_maps(r: &mut Rng, c: &GenCfg) -> (ATraits, ATraits) {
    let mut a = ATraits::new();
    for _ in 0..r.below(4) {
        let id = format!("t#{}", ["a", "b", "c", "d"][r.below(4)]);
        let v = if r.chance(1, 4) { None } else { Some(gen_value(r, c, 2)) };
        a.insert(id, v);
    }
    let mut b = ATraits::new();
    let agree = r.chance(2, 3);
    for (k, v) in &a {
        if r.chance(1, 2) {
            let w = match v {
                Some(AV::Arr(_)) => Some(AV::Arr((0..r.below(3)).map(|_| gen_value(r, c, 1)).collect())),
                Some(v) if !agree => Some(near(r, c, v)),
                v => v.clone(),
            };
            b.insert(k.clone(), w);
        }
    }
    for _ in 0..r.below(3) {
        let k = format!("t#{}", ["e", "f", "g"][r.below(3)]);
        let v = if r.chance(1, 4) { None } else { Some(gen_value(r, c, 2)) };
        b.insert(k, v);
    }
    (a, b)
}
fn append(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let (a, b) = gen_trait_maps(r, &c);
    let member = r.chance(1, 2);
    let mut top = AS { traits: a.clone(), body: AB::Unresolved }.to("x#Y");
    let mut mem = AM { name: "m".into(), target: "x#Y".into(), traits: a.clone() }.to();
    let other: AppliedTraits = traits_to(&b);
    let (res, after) = if member {
        let x = mem.append_traits(&other);
        (x, traits_from(mem.traits()))
    } else {
        let x = top.append_traits(&other);
        (x, traits_from(top.traits()))
    };
    let input = format!("traits {:?}; append {:?}", a, b);
    match merge_traits(&a, &b) {
        Some(e) => {
            ensure!(res.is_ok(), input, format!("{:?}", e), format!("{:?}", res));
            ensure!(after == e, input, format!("{:?}", e), format!("{:?}", after));
        }
        None => {
            ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::MergeTraitConflict(_))), input, "a trait conflict error", format!("{:?}", res));
            // what is there was there before, or is the merge of one of the two values
            for (k, v) in &after {
                let ok = match (a.get(k), b.get(k)) {
                    (Some(x), None) => v == x,
                    (None, Some(y)) => v == y,
                    (Some(x), Some(y)) => v == x || merge_value(x, y).as_ref() == Some(v),
                    _ => false,
                };
                ensure!(ok, input, format!("no other value for {}", k), format!("{:?}", v));
            }
            for (k, v) in &a {
                ensure!(after.contains_key(k), input, format!("{} = {:?} is kept", k, v), format!("{:?}", after));
            }
        }
    }
    Ok(format!("{:?} {:?}", a, b))
}
fn shape_traits(_case: u64, r: &mut Rng) -> Res {
    // two definitions of a shape that differ only in their traits, of the shape or of a member
    let c = GenCfg { unresolved: false, ..GenCfg::default() };
    let (ta, tb) = gen_trait_maps(r, &c);
    let (ma, mb) = gen_trait_maps(r, &c);
    let mut g = Gen::new(r, c.clone());
    let mut body = g.body();
    for m in body.members_mut() {
        m.traits.clear();
    }
    let (mut ba, mut bb) = (body.clone(), body.clone());
    let n = body.members().len();
    if n > 0 {
        let i = r.below(n);
        ba.members_mut()[i].traits = ma.clone();
        bb.members_mut()[i].traits = mb.clone();
    }
    let a = AModel { metadata: BTreeMap::new(), shapes: vec![("x#Y".to_string(), AS { traits: ta, body: ba })].into_iter().collect() };
    let b = AModel { metadata: BTreeMap::new(), shapes: vec![("x#Y".to_string(), AS { traits: tb, body: bb })].into_iter().collect() };
    let mut m = a.to();
    let res = m.add_shape(b.shapes["x#Y"].to("x#Y"));
    let input = format!("{:?}\nadd {:?}", a.shapes["x#Y"], b.shapes["x#Y"]);
    match merge_models(&canon(&a), &canon(&b)) {
        Some(e) => {
            ensure!(res.is_ok(), input, format!("{:?}", e), format!("{:?}", res));
            ensure!(canon(&AModel::from(&m)) == e, input, format!("{:?}", e), format!("{:?}", AModel::from(&m)));
        }
        None => ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::MergeTraitConflict(_))), input, "a trait conflict error", format!("{:?}", res)),
    }
    Ok(input)
}
pub fn c05() -> Vec<Sub> {
    vec![
        Sub { name: "apply-pair", cases: (6000, 200_000), what: "one trait applied twice: every pair of 25 corner values, then random pairs", run: apply_pair },
        Sub { name: "apply-member-id", cases: (300, 3000), what: "a member id as trait id", run: apply_member_id },
        Sub { name: "append", cases: (4000, 150_000), what: "a whole trait map appended to another", run: append },
        Sub { name: "shape-traits", cases: (4000, 100_000), what: "two definitions of a shape that differ in traits only", run: shape_traits },
    ]
}

// ---------------------------------------------------------------- C04

fn metadata_pair(case: u64, r: &mut Rng) -> Res {
    let (a, b) = val_pair(case, r);
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(String::new()),
    };
    let key = r.pick(&["k", "", "K k", "suppressions"]).to_string();
    let mut m = Model::default();
    let others: Vec<(String, AV)> = vec![("other".into(), AV::Arr(vec![AV::Int(1)])), (format!("{}x", key), AV::Null)];
    for (k, v) in &others {
        let _ = m.add_metadata(k.clone(), v.to());
    }
    let input = format!("metadata {:?} = {:?}, then {:?}", key, a, b);
    let r1 = m.add_metadata(key.clone(), a.to());
    ensure!(matches!(r1, Ok(None)), input, "a new key is added", format!("{:?}", r1));
    let r2 = m.add_metadata(key.clone(), b.to());
    let mut e: BTreeMap<String, AV> = others.into_iter().collect();
    e.insert(key.clone(), a.clone());
    match merge_value(&Some(a.clone()), &Some(b.clone())) {
        Some(v) => {
            ensure!(r2.is_ok(), input, format!("{:?}", v), format!("{:?}", r2));
            e.insert(key.clone(), v.unwrap());
        }
        None => ensure!(matches!(&r2, Err(x) if matches!(x.kind(), ErrorKind::MergeMetadataConflict(k) if *k == key)), input, "a metadata conflict naming the key", format!("{:?}", r2)),
    }
    let after = AModel::from(&m).metadata;
    ensure!(after == e, input, format!("{:?}", e), format!("{:?}", after));
    Ok(format!("{:?} {:?}", a, b))
}
fn metadata_history(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let mut m = Model::default();
    let mut e: BTreeMap<String, AV> = BTreeMap::new();
    let mut log = String::new();
    for _ in 0..2 + r.below(12) {
        let k = r.pick(&["a", "b", "A", "c d"]).to_string();
        if r.chance(1, 6) {
            let x = m.remove_metadata(&k);
            log += &format!("remove {:?}; ", k);
            let y = e.remove(&k);
            ensure!(x.as_ref().map(AV::from) == y, log, format!("removes {:?}", y), format!("{:?}", x));
        } else {
            let v = match e.get(&k) {
                Some(v) if r.chance(1, 3) => v.clone(),
                Some(AV::Arr(_)) if r.chance(2, 3) => AV::Arr((0..r.below(4)).map(|_| gen_value(r, &c, 1)).collect()),
                _ => gen_value(r, &c, 2),
            };
            log += &format!("add {:?} = {:?}; ", k, v);
            let x = if r.chance(1, 3) {
                let mut o = Model::default();
                let _ = o.add_metadata(k.clone(), v.to());
                m.merge(o)
            } else {
                m.add_metadata(k.clone(), v.to()).map(|_| ())
            };
            let want = match e.get(&k) {
                Some(o) => merge_value(&Some(o.clone()), &Some(v)).map(|x| x.unwrap()),
                None => Some(v),
            };
            match want {
                Some(v) => {
                    ensure!(x.is_ok(), log, format!("{:?}", v), format!("{:?}", x));
                    e.insert(k, v);
                }
                None => ensure!(matches!(&x, Err(x) if matches!(x.kind(), ErrorKind::MergeMetadataConflict(i) if *i == k)), log, "a metadata conflict", format!("{:?}", x)),
            }
        }
        let after = AModel::from(&m).metadata;
        ensure!(after == e, log, format!("{:?}", e), format!("{:?}", after));
        ensure!(m.has_metadata() == !e.is_empty(), log, format!("has_metadata {}", !e.is_empty()), m.has_metadata());
    }
    Ok(log)
}
fn metadata_merge(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg { shapes: 0, ..GenCfg::default() };
    let mut a: BTreeMap<String, AV> = BTreeMap::new();
    let mut b: BTreeMap<String, AV> = BTreeMap::new();
    let agree = r.chance(2, 3);
    for k in &["p", "q", "r", "s", "t"] {
        let v = gen_value(r, &c, 2);
        match r.below(4) {
            0 => { a.insert(k.to_string(), v); }
            1 => { b.insert(k.to_string(), v); }
            2 => {
                let w = match &v {
                    AV::Arr(_) => AV::Arr((0..r.below(3)).map(|_| gen_value(r, &c, 1)).collect()),
                    v if agree => v.clone(),
                    v => near(r, &c, v),
                };
                a.insert(k.to_string(), v);
                b.insert(k.to_string(), w);
            }
            _ => {}
        }
    }
    let (a, b) = (AModel { metadata: a, shapes: BTreeMap::new() }, AModel { metadata: b, shapes: BTreeMap::new() });
    let mut m = a.to();
    let res = m.merge(b.to());
    let input = format!("{:?} merge {:?}", a.metadata, b.metadata);
    match merge_models(&a, &b) {
        Some(e) => {
            ensure!(res.is_ok(), input, format!("{:?}", e.metadata), format!("{:?}", res));
            ensure!(AModel::from(&m) == e, input, format!("{:?}", e.metadata), format!("{:?}", AModel::from(&m).metadata));
        }
        None => ensure!(matches!(&res, Err(x) if matches!(x.kind(), ErrorKind::MergeMetadataConflict(_))), input, "a metadata conflict", format!("{:?}", res)),
    }
    Ok(input)
}
pub fn c04() -> Vec<Sub> {
    vec![
        Sub { name: "pair", cases: (4000, 150_000), what: "one key added twice: every pair of 24 corner values, then random pairs", run: metadata_pair },
        Sub { name: "history", cases: (3000, 80_000), what: "sequences of add, remove and merge", run: metadata_history },
        Sub { name: "merge", cases: (3000, 80_000), what: "two models with overlapping metadata", run: metadata_merge },
    ]
}

// ---------------------------------------------------------------- C06

/// a small structural change
fn mutate_body(r: &mut Rng, b: &AB) -> AB {
    let mut b = b.clone();
    let t = "changed#Target".to_string();
    match &mut b {
        AB::Simple(s) => *s = r.pick(&SIMPLE).to_string(),
        AB::List(m) | AB::Set(m) => m.target = t,
        AB::Map(k, v) => {
            if r.chance(1, 2) {
                k.target = t
            } else {
                v.target = t
            }
        }
        AB::Struct(ms) | AB::Union(ms) => {
            let keys: Vec<String> = ms.keys().cloned().collect();
            match r.below(4) {
                0 => insert_ci(ms, "brandNew".into(), AM::new("brandNew", &t)),
                1 if !keys.is_empty() => {
                    ms.remove(r.pick(&keys));
                }
                2 if !keys.is_empty() => {
                    // rename: the same number of members
                    let k = r.pick(&keys).clone();
                    let m = ms.remove(&k).unwrap();
                    insert_ci(ms, "renamed9".into(), AM { name: "renamed9".into(), ..m });
                }
                _ if !keys.is_empty() => ms.get_mut(r.pick(&keys)).unwrap().target = t,
                _ => insert_ci(ms, "brandNew".into(), AM::new("brandNew", &t)),
            }
        }
        AB::Service { version, operations, resources, renames } => match r.below(4) {
            0 => version.push('9'),
            1 => operations.push(t),
            2 => resources.push(t),
            _ => insert_ci(renames, t, "Renamed".into()),
        },
        AB::Operation { input, output, errors } => match r.below(3) {
            0 => *input = Some(t),
            1 => *output = Some(t),
            _ => errors.push(t),
        },
        AB::Resource { identifiers, life, operations, collection_operations, resources } => match r.below(5) {
            0 => insert_ci(identifiers, "brandNew".into(), t),
            1 => operations.push(t),
            2 => collection_operations.push(t),
            3 => resources.push(t),
            _ => life[r.below(6)] = Some(t),
        },
        AB::Unresolved => {}
    }
    b
}
fn recase_body(r: &mut Rng, b: &AB) -> AB {
    // identities keep their meaning when their case changes (member names of lists and maps are fixed)
    let mut b = b.clone();
    match &mut b {
        AB::Struct(ms) | AB::Union(ms) => {
            let v: Vec<AM> = ms.values().cloned().collect();
            ms.clear();
            for mut m in v {
                m.name = recase(r, &m.name);
                m.target = recase(r, &m.target);
                ms.insert(m.name.clone(), m);
            }
        }
        AB::List(m) | AB::Set(m) => m.target = recase(r, &m.target),
        AB::Operation { input, .. } => {
            if let Some(i) = input {
                *i = recase(r, i)
            }
        }
        _ => {}
    }
    b
}
fn second(r: &mut Rng, c: &GenCfg, b: &AB) -> AB {
    match r.below(6) {
        0 | 1 => mutate_body(r, b),
        2 => AB::Unresolved,
        3 => Gen::new(r, c.clone()).body(),
        4 => match (b, r.below(2)) {
            // the same content under another kind
            (AB::List(m), _) => AB::Set(m.clone()),
            (AB::Set(m), _) => AB::List(m.clone()),
            (AB::Struct(m), _) => AB::Union(m.clone()),
            (AB::Union(m), _) => AB::Struct(m.clone()),
            (b, _) => recase_body(r, b),
        },
        _ => b.clone(),
    }
}
fn reconcile(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let k = KINDS[r.below(10)];
    let mut a = Gen::new(r, c.clone()).body_of(k);
    for m in a.members_mut() {
        if r.chance(2, 3) {
            m.traits.clear();
        }
    }
    let b = second(r, &c, &a);
    let id = "example.alpha#Thing".to_string();
    let id2 = if r.chance(1, 4) { recase(r, &id) } else { id.clone() };
    let (sa, sb) = (AS { traits: gen_traits(r, &c), body: a }, AS { traits: gen_traits(r, &c), body: b });
    let ma = AModel { metadata: BTreeMap::new(), shapes: vec![(id.clone(), sa.clone()), ("z#Bystander".to_string(), AS::new(AB::Simple("blob".into())))].into_iter().collect() };
    let mb = AModel { metadata: BTreeMap::new(), shapes: vec![(id2.clone(), sb.clone())].into_iter().collect() };
    let input = format!("define {} as {:?}\nthen {} as {:?}", id, sa, id2, sb);
    let mut m = ma.to();
    let res = m.add_shape(sb.to(&id2));
    let (ca, cb) = (canon(&ma), canon(&mb));
    let (xa, xb) = (&ca.shapes[&lc(&id)], &cb.shapes[&lc(&id)]);
    let resolved = xa.body != AB::Unresolved && xb.body != AB::Unresolved;
    let outcome;
    if resolved && !same_structure(&xa.body, &xb.body) {
        ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::MergeShapeConflict(i) if *i == sid(&id))), input, "a shape conflict naming the shape", format!("{:?}", res));
        ensure!(canon(&AModel::from(&m)) == ca, input, "the model is unchanged", format!("{:?}", AModel::from(&m)));
        outcome = "conflict";
    } else {
        match merge_models(&ca, &cb) {
            Some(e) => {
                ensure!(res.is_ok(), input, format!("{:?}", e), format!("{:?}", res));
                ensure!(canon(&AModel::from(&m)) == e, input, format!("{:?}", e), format!("{:?}", AModel::from(&m)));
                outcome = "merged";
            }
            None => {
                ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::MergeTraitConflict(_))), input, "a trait conflict", format!("{:?}", res));
                outcome = "trait conflict";
            }
        }
    }
    Ok(format!("{} {}", outcome, input))
}
fn structural_equality(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg::default();
    let k = KINDS[r.below(10)];
    let a = Gen::new(r, c.clone()).body_of(k);
    let mut b = second(r, &c, &a);
    for m in b.members_mut() {
        if r.chance(1, 2) {
            m.traits = gen_traits(r, &c);
        }
    }
    let id = "example.alpha#Thing";
    let id2 = match r.below(4) { 0 => recase(r, id), 1 => "example.beta#Thing".to_string(), _ => id.to_string() };
    let (x, y) = (AS { traits: gen_traits(r, &c), body: a.clone() }.to(id), AS { traits: gen_traits(r, &c), body: b.clone() }.to(&id2));
    let want = lc(id) == lc(&id2) && same_structure(&canon_body(&a), &canon_body(&b));
    let input = format!("{} {:?}\n{} {:?}", id, a, id2, b);
    ensure!(x.equal_without_traits(&y) == want, input, want, !want);
    ensure!(y.equal_without_traits(&x) == want, format!("(swapped) {}", input), want, !want);
    ensure!(x.equal_without_traits(&x) && y.equal_without_traits(&y), input, "a shape equals itself", "it does not");
    Ok(input)
}
fn member_id(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg { unresolved: false, ..GenCfg::default() };
    let b = Gen::new(r, c.clone()).body();
    let mut m = AModel { metadata: BTreeMap::new(), shapes: vec![("z#Bystander".to_string(), AS::new(AB::Simple("blob".into())))].into_iter().collect() }.to();
    let res = m.add_shape(AS::new(b.clone()).to("x#Y$z"));
    let input = format!("add x#Y$z as {:?}", b);
    ensure!(matches!(&res, Err(e) if matches!(e.kind(), ErrorKind::ShapeIDExpected(i) if *i == sid("x#Y$z"))), input, "an error: a shape id is expected", format!("{:?}", res));
    ensure!(AModel::from(&m).shapes.len() == 1, input, "the model is unchanged", format!("{:?}", m));
    let res = m.add_shape(AS::new(AB::Unresolved).to("x#Y$z"));
    ensure!(res.is_ok() && m.has_shape(&sid("x#Y$z")), "add x#Y$z as an unresolved shape", "it is added", format!("{:?}", res));
    Ok(input)
}
pub fn c06() -> Vec<Sub> {
    vec![
        Sub { name: "reconcile", cases: (12_000, 300_000), what: "two definitions of one shape: equal, slightly different, of another kind, unresolved, or unrelated", run: reconcile },
        Sub { name: "structural-equality", cases: (12_000, 300_000), what: "equality without traits against the oracle, both ways round", run: structural_equality },
        Sub { name: "member-id", cases: (500, 5000), what: "a member id as the id of a top-level shape", run: member_id },
    ]
}

// ---------------------------------------------------------------- C07

/// Splits a model over `n` parts: every part defines some of the shapes, traits are spread over the parts that define the
/// shape, and shapes only referred to may appear as unresolved.
fn split(r: &mut Rng, m: &AModel, n: usize) -> Vec<AModel> {
    let mut parts = vec![AModel::default(); n];
    for (k, v) in &m.metadata {
        let i = r.below(n);
        match v {
            AV::Arr(_) => {
                // arrays are concatenated, so an array lives in exactly one part
                parts[i].metadata.insert(k.clone(), v.clone());
            }
            _ => {
                parts[i].metadata.insert(k.clone(), v.clone());
                let j = r.below(n);
                parts[j].metadata.insert(k.clone(), v.clone());
            }
        }
    }
    for (k, s) in &m.shapes {
        let i = r.below(n);
        let spread = r.chance(1, 2);
        for p in 0..n {
            let body = if p == i || (spread && r.chance(1, 2)) {
                let mut b = s.body.clone();
                for x in b.members_mut() {
                    x.traits.clear();
                }
                Some(b)
            } else if r.chance(1, 3) {
                Some(AB::Unresolved)
            } else {
                None
            };
            if let Some(b) = body {
                parts[p].shapes.insert(k.clone(), AS::new(b));
            }
        }
        for (t, v) in &s.traits {
            let homes: Vec<usize> = (0..n).filter(|p| parts[*p].shapes.contains_key(k)).collect();
            let h = *r.pick(&homes);
            parts[h].shapes.get_mut(k).unwrap().traits.insert(t.clone(), v.clone());
            if !matches!(v, Some(AV::Arr(_))) {
                let h = *r.pick(&homes);
                parts[h].shapes.get_mut(k).unwrap().traits.insert(t.clone(), v.clone());
            }
        }
        for (mi, mem) in s.body.members().iter().enumerate() {
            for (t, v) in &mem.traits {
                let homes: Vec<usize> = (0..n).filter(|p| parts[*p].shapes.get(k).map(|s| s.body != AB::Unresolved).unwrap_or(false)).collect();
                let h = *r.pick(&homes);
                parts[h].shapes.get_mut(k).unwrap().body.members_mut()[mi].traits.insert(t.clone(), v.clone());
            }
        }
    }
    parts
}
fn reassemble(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg { shapes: 5, ..GenCfg::default() };
    let whole = Gen::new(r, c).model();
    let n = 1 + r.below(4);
    let parts = split(r, &whole, n);
    let input = format!("parts {:#?}", parts);
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut m = Model::default();
    for i in &order {
        if let Err(e) = m.merge(parts[*i].to()) {
            return fail(input, "the parts of one model merge", format!("{} (order {:?})", e, order));
        }
    }
    let got = AModel::from(&m);
    ensure!(got == whole, input, format!("{:#?}", whole), format!("{:#?} (order {:?})", got, order));
    Ok(format!("{} {:?}", n, whole))
}
fn bag(v: &AV) -> AV {
    // arrays as bags
    match v {
        AV::Arr(x) => {
            let mut y: Vec<AV> = x.clone();
            y.sort_by_key(|v| format!("{:?}", v));
            AV::Arr(y)
        }
        v => v.clone(),
    }
}
fn bags(m: &AModel) -> AModel {
    let mut m = m.clone();
    for v in m.metadata.values_mut() {
        *v = bag(v)
    }
    for s in m.shapes.values_mut() {
        for v in s.traits.values_mut() {
            *v = v.as_ref().map(bag)
        }
        for x in s.body.members_mut() {
            for v in x.traits.values_mut() {
                *v = v.as_ref().map(bag)
            }
        }
    }
    m
}
fn order(_case: u64, r: &mut Rng) -> Res {
    let c = GenCfg { shapes: 4, ..GenCfg::default() };
    let a = Gen::new(r, c.clone()).model();
    // the second model redefines some shapes of the first, mostly compatibly
    let mut b = Gen::new(r, GenCfg { shapes: 2, ..c.clone() }).model();
    for (k, s) in &a.shapes {
        if r.chance(1, 2) {
            let body = if r.chance(1, 8) { second(r, &c, &s.body) } else if r.chance(1, 4) { AB::Unresolved } else { s.body.without_traits() };
            let traits = if r.chance(1, 2) { ATraits::new() } else { gen_traits(r, &c) };
            b.shapes.retain(|x, _| !x.eq_ignore_ascii_case(k));
            b.shapes.insert(k.clone(), AS { traits, body });
        }
    }
    if r.chance(3, 4) {
        for (k, v) in &a.metadata {
            if b.metadata.contains_key(k) {
                b.metadata.insert(k.clone(), v.clone());
            }
        }
    }
    let input = format!("{:#?}\n{:#?}", a, b);
    let (mut x, mut y) = (a.to(), b.to());
    let (rx, ry) = (x.merge(b.to()), y.merge(a.to()));
    let want = merge_models(&canon(&a), &canon(&b));
    ensure!(rx.is_ok() == want.is_some(), input, format!("{:#?}", want), format!("{:?}", rx));
    ensure!(ry.is_ok() == want.is_some(), format!("(in the other order) {}", input), format!("{:#?}", want), format!("{:?}", ry));
    if let Some(e) = &want {
        let (gx, gy) = (canon(&AModel::from(&x)), canon(&AModel::from(&y)));
        ensure!(gx == *e, input, format!("{:#?}", e), format!("{:#?}", gx));
        ensure!(bags(&gy) == bags(e), format!("(in the other order) {}", input), format!("{:#?}", e), format!("{:#?}", gy));
    }
    Ok(format!("{} {:?} {:?}", want.is_some(), a, b))
}
fn identity_merge(_case: u64, r: &mut Rng) -> Res {
    let a = Gen::new(r, GenCfg { shapes: 8, ..GenCfg::default() }).model();
    let mut m = a.to();
    let res = m.merge(Model::default());
    ensure!(res.is_ok() && AModel::from(&m) == a, format!("{:?} merged with the empty model", a), "no change", format!("{:?} {:?}", res, AModel::from(&m)));
    let mut m = Model::default();
    let res = m.merge(a.to());
    ensure!(res.is_ok() && AModel::from(&m) == a, format!("the empty model merged with {:?}", a), format!("{:?}", a), format!("{:?} {:?}", res, AModel::from(&m)));
    Ok(format!("{:?}", a))
}
#[allow(dead_code)]
fn unused(_: &ValueMap, _: &Value) {}
pub fn c07() -> Vec<Sub> {
    vec![
        Sub { name: "reassemble", cases: (5000, 150_000), what: "a model split over one to four parts, merged in any order", run: reassemble },
        Sub { name: "order", cases: (6000, 150_000), what: "two overlapping models merged both ways round", run: order },
        Sub { name: "identity", cases: (1000, 30_000), what: "merging with the empty model", run: identity_merge },
    ]
}
