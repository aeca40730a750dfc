//! C15: visitors.
use crate::am::*;
use crate::ensure;
use crate::props::merge::lc;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::shapes::*;
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, ShapeID};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Meta(String, AV),
    Shape(String, String, ATraits, AB),
    Member(String, String, String, Option<ATraits>),
}
struct Rec {
    calls: RefCell<Vec<Ev>>,
    refuse: Option<usize>,
    members: bool,
}
impl Rec {
    fn put(&self, e: Ev) -> Result<(), usize> {
        let mut c = self.calls.borrow_mut();
        c.push(e);
        if self.refuse == Some(c.len() - 1) {
            Err(c.len() - 1)
        } else {
            Ok(())
        }
    }
    fn shape(&self, m: &str, id: &ShapeID, t: &AppliedTraits, k: ShapeKind) -> Result<(), usize> {
        self.put(Ev::Shape(m.to_string(), id.to_string(), traits_from(t), AB::from(&k)))
    }
}
impl ModelVisitor for Rec {
    type Error = usize;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), usize> {
        self.put(Ev::Meta(key.to_string(), AV::from(value)))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, s: &Simple) -> Result<(), usize> {
        self.shape("simple", id, t, ShapeKind::Simple(s.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), usize> {
        self.shape("list", id, t, ShapeKind::List(s.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), usize> {
        self.shape("set", id, t, ShapeKind::Set(s.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, s: &Map) -> Result<(), usize> {
        self.shape("map", id, t, ShapeKind::Map(s.clone()))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), usize> {
        self.shape("structure", id, t, ShapeKind::Structure(s.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), usize> {
        self.shape("union", id, t, ShapeKind::Union(s.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, s: &Service) -> Result<(), usize> {
        self.shape("service", id, t, ShapeKind::Service(s.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), usize> {
        self.shape("operation", id, t, ShapeKind::Operation(s.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, s: &Resource) -> Result<(), usize> {
        self.shape("resource", id, t, ShapeKind::Resource(s.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), usize> {
        self.shape("unresolved", id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = usize>> {
        if self.members {
            Some(self)
        } else {
            None
        }
    }
}
impl MemberVisitor for Rec {
    type Error = usize;
    fn member(&self, parent: &ShapeID, name: &Identifier, target: &ShapeID, t: Option<&AppliedTraits>) -> Result<(), usize> {
        self.put(Ev::Member(parent.to_string(), name.to_string(), target.to_string(), t.map(traits_from)))
    }
}
/// the calls for one shape; members of a structure or union in the order of their names
fn group(id: &str, s: &AS, members: bool) -> Vec<Ev> {
    let mut v = vec![Ev::Shape(s.body.kind().to_string(), id.to_string(), s.traits.clone(), s.body.clone())];
    if members {
        let mut t = |name: &str, ids: &mut dyn Iterator<Item = &String>| {
            for i in ids {
                v.push(Ev::Member(id.to_string(), name.to_string(), i.clone(), None));
            }
        };
        match &s.body {
            AB::Service { operations, resources, .. } => {
                t("operations", &mut operations.iter());
                t("resources", &mut resources.iter());
            }
            AB::Operation { input, output, errors } => {
                t("input", &mut input.iter());
                t("output", &mut output.iter());
                t("errors", &mut errors.iter());
            }
            AB::Resource { life, operations, collection_operations, resources, .. } => {
                for (n, l) in ["create", "put", "read", "update", "delete", "list"].iter().zip(life.iter()) {
                    t(n, &mut l.iter());
                }
                t("operations", &mut operations.iter());
                t("collectionOperations", &mut collection_operations.iter());
                t("resources", &mut resources.iter());
            }
            b => v.extend(b.members().iter().map(|m| Ev::Member(id.to_string(), m.name.clone(), m.target.clone(), Some(m.traits.clone())))),
        }
    }
    v
}
/// the groups of a log, in a canonical order: metadata by key, shapes by id
fn canonical(log: &[Ev]) -> Result<(BTreeMap<String, Vec<AV>>, BTreeMap<String, Vec<Vec<Ev>>>), String> {
    let mut meta: BTreeMap<String, Vec<AV>> = BTreeMap::new();
    let mut shapes: BTreeMap<String, Vec<Vec<Ev>>> = BTreeMap::new();
    let mut cur: Option<String> = None;
    for e in log {
        match e {
            Ev::Meta(k, v) => {
                if cur.is_some() {
                    return Err(format!("metadata {} after a shape", k));
                }
                meta.entry(k.clone()).or_default().push(v.clone());
            }
            Ev::Shape(_, id, _, _) => {
                shapes.entry(lc(id)).or_default().push(vec![e.clone()]);
                cur = Some(lc(id));
            }
            Ev::Member(p, ..) => match &cur {
                Some(c) if *c == lc(p) => shapes.get_mut(c).unwrap().last_mut().unwrap().push(e.clone()),
                _ => return Err(format!("{:?} outside its shape", e)),
            },
        }
    }
    for g in shapes.values_mut().flatten() {
        if let Ev::Shape(k, ..) = &g[0] {
            if k == "structure" || k == "union" {
                g[1..].sort_by_key(|e| if let Ev::Member(_, n, ..) = e { n.clone() } else { String::new() });
            }
        }
    }
    Ok((meta, shapes))
}
fn walk(_case: u64, r: &mut Rng) -> Res {
    let a = Gen::new(r, GenCfg { shapes: 7, ..GenCfg::default() }).model();
    let m = a.to();
    let members = r.chance(2, 3);
    let v = Rec { calls: RefCell::new(vec![]), refuse: None, members };
    let res = walk_model(&m, &v);
    let input = format!("walk_model, {} members, {:?}", if members { "with" } else { "without" }, a);
    ensure!(res == Ok(()), input, "Ok", format!("{:?}", res));
    let all = v.calls.into_inner();
    let mut want: Vec<Ev> = a.metadata.iter().map(|(k, v)| Ev::Meta(k.clone(), v.clone())).collect();
    for (id, s) in &a.shapes {
        want.extend(group(id, s, members));
    }
    let (g, w) = (canonical(&all), canonical(&want));
    ensure!(g == w, input, format!("{:?}", w), format!("{:?}", g));
    // the first error ends the walk
    if !all.is_empty() {
        let k = r.below(all.len());
        let v = Rec { calls: RefCell::new(vec![]), refuse: Some(k), members };
        let res = walk_model(&m, &v);
        let got = v.calls.into_inner();
        ensure!(
            res == Err(k) && got[..] == all[..k + 1],
            format!("{}; call {} refused", input, k),
            format!("Err({}) and the calls {:?}", k, &all[..k + 1]),
            format!("{:?} and the calls {:?}", res, got)
        );
    }
    Ok(format!("{} {}", members, all.len().min(12)))
}
/// a visitor that overrides nothing accepts everything
fn default_visitor(_case: u64, r: &mut Rng) -> Res {
    struct D;
    impl ModelVisitor for D {
        type Error = ();
    }
    let a = Gen::new(r, GenCfg::default()).model();
    let res = walk_model(&a.to(), &D);
    ensure!(res == Ok(()), format!("{:?}", a), "Ok", format!("{:?}", res));
    Ok("default".to_string())
}
pub fn c15() -> Vec<Sub> {
    vec![
        Sub { name: "walk", cases: (15000, 200000), what: "the calls a recording visitor gets, and where it refuses one", run: walk },
        Sub { name: "default", cases: (300, 3000), what: "a visitor of default methods", run: default_visitor },
    ]
}
