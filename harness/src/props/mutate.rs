//! C25: histories of changes to the collections of shapes.
use crate::am::*;
use crate::ensure;
use crate::props::merge::lc;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::shapes::*;
use atelier_core::model::{HasIdentity, Identifier, ShapeID};
use std::collections::{BTreeMap, HashMap};

const IDS: [&str; 6] = ["a#One", "a#Two", "b#One", "A#ONE", "a#Three", "b.c#Two"];
const NAMES: [&str; 5] = ["one", "two", "One", "three", "TWO"];

fn step(log: &mut Vec<String>, s: String) {
    log.push(s)
}
fn find<V: Clone>(m: &BTreeMap<String, V>, k: &str) -> Option<(String, V)> {
    m.iter().find(|(x, _)| lc(x) == lc(k)).map(|(a, b)| (a.clone(), b.clone()))
}
/// what a hash map does on insert: the key first stored stays, the value is replaced
fn put<V: Clone>(m: &mut BTreeMap<String, V>, k: &str, v: V) -> Option<V> {
    match find(m, k) {
        Some((old, o)) => {
            m.insert(old, v);
            Some(o)
        }
        None => {
            m.insert(k.to_string(), v);
            None
        }
    }
}
fn del<V: Clone>(m: &mut BTreeMap<String, V>, k: &str) -> Option<V> {
    let f = find(m, k)?;
    m.remove(&f.0)
}
fn list(r: &mut Rng) -> Vec<String> {
    (0..r.below(4)).map(|_| r.pick(&IDS).to_string()).collect()
}
fn sids(v: &[String]) -> Vec<ShapeID> {
    v.iter().map(|s| sid(s)).collect()
}
macro_rules! array_ops {
    ($f:ident, $ty:ty, $set:ident, $add:ident, $append:ident, $remove:ident) => {
        fn $f(r: &mut Rng, x: &mut $ty, v: &mut Vec<String>, log: &mut Vec<String>) {
            match r.below(5) {
                0 => {
                    let l = list(r);
                    x.$set(&sids(&l));
                    step(log, format!("{}({:?})", stringify!($set), l));
                    *v = l;
                }
                1 | 4 => {
                    let i = r.pick(&IDS).to_string();
                    x.$add(sid(&i));
                    step(log, format!("{}({})", stringify!($add), i));
                    v.push(i);
                }
                2 => {
                    let l = list(r);
                    x.$append(&sids(&l));
                    step(log, format!("{}({:?})", stringify!($append), l));
                    v.extend(l);
                }
                _ => {
                    let i = r.pick(&IDS).to_string();
                    x.$remove(&sid(&i));
                    step(log, format!("{}({})", stringify!($remove), i));
                    v.retain(|y| lc(y) != lc(&i));
                }
            }
        }
    };
}
array_ops!(svc_operations, Service, set_operations, add_operation, append_operations, remove_operation);
array_ops!(svc_resources, Service, set_resources, add_resource, append_resources, remove_resource);
array_ops!(op_errors, Operation, set_errors, add_error, append_errors, remove_error);
array_ops!(res_operations, Resource, set_operations, add_operation, append_operations, remove_operation);
array_ops!(res_collection_operations, Resource, set_collection_operations, add_collection_operation, append_collection_operations, remove_collection_operation);
array_ops!(res_resources, Resource, set_resources, add_resource, append_resources, remove_resource);

fn any_shape(r: &mut Rng) -> (String, &'static str, TopLevelShape) {
    let k = *r.pick(&KINDS);
    let c = GenCfg::default();
    let b = Gen::new(r, c).body_of(k);
    let id = r.pick(&IDS).to_string();
    let s = AS::new(b).to(&id);
    (id, k, s)
}
fn targetable(k: &str) -> bool {
    !["operation", "resource", "service", "unresolved"].contains(&k)
}
macro_rules! same {
    ($x:expr, $want:expr, $log:expr, $start:expr) => {
        let got = AB::from(&$x);
        ensure!(got == $want, format!("{:?} then {:?}", $start, $log), format!("{:?}", $want), format!("{:?}", got));
    };
}
fn service(_c: u64, r: &mut Rng) -> Res {
    let start = Gen::new(r, GenCfg::default()).body_of("service");
    let mut x = match start.to() {
        ShapeKind::Service(s) => s,
        _ => unreachable!(),
    };
    let mut log = vec![];
    let (mut version, mut ops, mut res, mut ren) = match start.clone() {
        AB::Service { version, operations, resources, renames } => (version, operations, resources, renames),
        _ => unreachable!(),
    };
    for _ in 0..2 + r.below(10) {
        match r.below(9) {
            0 | 1 => svc_operations(r, &mut x, &mut ops, &mut log),
            2 | 3 => svc_resources(r, &mut x, &mut res, &mut log),
            4 => {
                let (id, k, s) = any_shape(r);
                if r.chance(1, 2) {
                    x.add_operation_shape(&s);
                    if k == "operation" {
                        ops.push(id.clone());
                    }
                    step(&mut log, format!("add_operation_shape({} {})", k, id));
                } else {
                    x.add_resource_shape(&s);
                    if k == "resource" {
                        res.push(id.clone());
                    }
                    step(&mut log, format!("add_resource_shape({} {})", k, id));
                }
            }
            5 => {
                version = r.pick(&["1", "2", "2.0-x"]).to_string();
                x.set_version(&version);
                step(&mut log, format!("set_version({})", version));
            }
            6 => {
                let mut m: BTreeMap<String, String> = BTreeMap::new();
                for _ in 0..r.below(4) {
                    let (i, n) = (r.pick(&IDS).to_string(), r.pick(&NAMES).to_string());
                    put(&mut m, &i, n);
                }
                x.set_renames(m.iter().map(|(k, v)| (sid(k), ident(v))).collect::<HashMap<_, _>>());
                step(&mut log, format!("set_renames({:?})", m));
                ren = m;
            }
            7 => {
                let (i, n) = (r.pick(&IDS).to_string(), r.pick(&NAMES).to_string());
                let got = x.insert_rename_shape(sid(&i), ident(&n));
                step(&mut log, format!("insert_rename_shape({}, {})", i, n));
                let want = put(&mut ren, &i, n);
                ensure!(got.as_ref().map(|i| i.to_string()) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
            _ => {
                let i = r.pick(&IDS).to_string();
                let got = x.remove_rename_shape(&sid(&i));
                step(&mut log, format!("remove_rename_shape({})", i));
                let want = del(&mut ren, &i);
                ensure!(got.as_ref().map(|i| i.to_string()) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
        }
        let want = AB::Service { version: version.clone(), operations: ops.clone(), resources: res.clone(), renames: ren.clone() };
        same!(ShapeKind::Service(x.clone()), want, log, start);
    }
    Ok(format!("{:?} {:?}", start, log))
}
fn operation(_c: u64, r: &mut Rng) -> Res {
    let start = Gen::new(r, GenCfg::default()).body_of("operation");
    let mut x = match start.to() {
        ShapeKind::Operation(s) => s,
        _ => unreachable!(),
    };
    let mut log = vec![];
    let (mut i, mut o, mut e) = match start.clone() {
        AB::Operation { input, output, errors } => (input, output, errors),
        _ => unreachable!(),
    };
    for _ in 0..2 + r.below(10) {
        match r.below(8) {
            0 | 1 => op_errors(r, &mut x, &mut e, &mut log),
            2 => {
                let t = r.pick(&IDS).to_string();
                step(&mut log, format!("set_input({})", t));
                x.set_input(sid(&t));
                i = Some(t);
            }
            3 => {
                let t = r.pick(&IDS).to_string();
                step(&mut log, format!("set_output({})", t));
                x.set_output(sid(&t));
                o = Some(t);
            }
            4 => {
                if r.chance(1, 2) {
                    x.unset_input();
                    i = None;
                    step(&mut log, "unset_input".into());
                } else {
                    x.unset_output();
                    o = None;
                    step(&mut log, "unset_output".into());
                }
            }
            n => {
                let (id, k, s) = any_shape(r);
                step(&mut log, format!("{}({} {})", ["set_input_shape", "set_output_shape", "add_error_shape"][n - 5], k, id));
                match n {
                    5 => {
                        x.set_input_shape(&s);
                        if targetable(k) {
                            i = Some(id);
                        }
                    }
                    6 => {
                        x.set_output_shape(&s);
                        if targetable(k) {
                            o = Some(id);
                        }
                    }
                    _ => {
                        x.add_error_shape(&s);
                        if targetable(k) {
                            e.push(id);
                        }
                    }
                }
            }
        }
        let want = AB::Operation { input: i.clone(), output: o.clone(), errors: e.clone() };
        same!(ShapeKind::Operation(x.clone()), want, log, start);
    }
    Ok(format!("{:?} {:?}", start, log))
}
type Set = fn(&mut Resource, ShapeID);
type Unset = fn(&mut Resource);
type SetShape = fn(&mut Resource, &TopLevelShape);
const LIFE: [(&str, Set, Unset, SetShape); 6] = [
    ("create", |r, s| r.set_create(s), |r| r.unset_create(), |r, s| r.set_create_operation_shape(s)),
    ("put", |r, s| r.set_put(s), |r| r.unset_put(), |r, s| r.set_put_operation_shape(s)),
    ("read", |r, s| r.set_read(s), |r| r.unset_read(), |r, s| r.set_read_operation_shape(s)),
    ("update", |r, s| r.set_update(s), |r| r.unset_update(), |r, s| r.set_update_operation_shape(s)),
    ("delete", |r, s| r.set_delete(s), |r| r.unset_delete(), |r, s| r.set_delete_operation_shape(s)),
    ("list", |r, s| r.set_list(s), |r| r.unset_list(), |r, s| r.set_list_operation_shape(s)),
];
fn resource(_c: u64, r: &mut Rng) -> Res {
    let start = Gen::new(r, GenCfg::default()).body_of("resource");
    let mut x = match start.to() {
        ShapeKind::Resource(s) => s,
        _ => unreachable!(),
    };
    let mut log = vec![];
    let (mut ids, mut life, mut ops, mut cops, mut res) = match start.clone() {
        AB::Resource { identifiers, life, operations, collection_operations, resources } => (identifiers, life, operations, collection_operations, resources),
        _ => unreachable!(),
    };
    for _ in 0..2 + r.below(12) {
        match r.below(11) {
            0 => res_operations(r, &mut x, &mut ops, &mut log),
            1 => res_collection_operations(r, &mut x, &mut cops, &mut log),
            2 => res_resources(r, &mut x, &mut res, &mut log),
            3 => {
                let (id, k, s) = any_shape(r);
                let n = r.below(3);
                step(&mut log, format!("{}({} {})", ["add_operation_shape", "add_collection_operation_shape", "add_resource_shape"][n], k, id));
                match n {
                    0 => {
                        x.add_operation_shape(&s);
                        if k == "operation" {
                            ops.push(id)
                        }
                    }
                    1 => {
                        x.add_collection_operation_shape(&s);
                        if k == "operation" {
                            cops.push(id)
                        }
                    }
                    _ => {
                        x.add_resource_shape(&s);
                        if k == "resource" {
                            res.push(id)
                        }
                    }
                }
            }
            4 | 5 | 6 => {
                let n = r.below(6);
                let l = LIFE[n];
                match r.below(3) {
                    0 => {
                        let t = r.pick(&IDS).to_string();
                        l.1(&mut x, sid(&t));
                        step(&mut log, format!("set_{}({})", l.0, t));
                        life[n] = Some(t);
                    }
                    1 => {
                        l.2(&mut x);
                        step(&mut log, format!("unset_{}", l.0));
                        life[n] = None;
                    }
                    _ => {
                        let (id, k, s) = if r.chance(1, 2) {
                            any_shape(r)
                        } else {
                            let id = r.pick(&IDS).to_string();
                            (id.clone(), "operation", AS::new(AB::Operation { input: None, output: None, errors: vec![] }).to(&id))
                        };
                        l.3(&mut x, &s);
                        step(&mut log, format!("set_{}_operation_shape({} {})", l.0, k, id));
                        if k == "operation" {
                            life[n] = Some(id);
                        }
                    }
                }
            }
            7 => {
                let mut m: BTreeMap<String, String> = BTreeMap::new();
                for _ in 0..r.below(4) {
                    let (n, i) = (r.pick(&NAMES).to_string(), r.pick(&IDS).to_string());
                    put(&mut m, &n, i);
                }
                x.set_identifiers(m.iter().map(|(k, v)| (ident(k), sid(v))).collect::<HashMap<_, _>>());
                step(&mut log, format!("set_identifiers({:?})", m));
                ids = m;
            }
            8 | 9 => {
                let (n, i) = (r.pick(&NAMES).to_string(), r.pick(&IDS).to_string());
                let got = x.add_identifier(ident(&n), sid(&i));
                step(&mut log, format!("add_identifier({}, {})", n, i));
                let want = put(&mut ids, &n, i);
                ensure!(got.as_ref().map(|i| i.to_string()) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
            _ => {
                let n = r.pick(&NAMES).to_string();
                let got = x.remove_identifier(&ident(&n));
                step(&mut log, format!("remove_identifier({})", n));
                let want = del(&mut ids, &n);
                ensure!(got.as_ref().map(|i| i.to_string()) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
        }
        let want = AB::Resource { identifiers: ids.clone(), life: life.clone(), operations: ops.clone(), collection_operations: cops.clone(), resources: res.clone() };
        same!(ShapeKind::Resource(x.clone()), want, log, start);
        let mut got: Vec<(String, String)> = x.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        got.sort();
        let w: Vec<(String, String)> = ids.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(got == w, format!("identifiers() after {:?} then {:?}", start, log), format!("{:?}", w), format!("{:?}", got));
    }
    Ok(format!("{:?} {:?}", start, log))
}
fn structure(case: u64, r: &mut Rng) -> Res {
    let union = case % 2 == 1;
    let start = Gen::new(r, GenCfg::default()).body_of(if union { "union" } else { "structure" });
    let mut x = match start.to() {
        ShapeKind::Structure(s) | ShapeKind::Union(s) => s,
        _ => unreachable!(),
    };
    // key under which the member is stored -> the member
    let mut ms: BTreeMap<String, AM> = match &start {
        AB::Struct(m) | AB::Union(m) => m.clone(),
        _ => unreachable!(),
    };
    let mut log = vec![];
    for _ in 0..2 + r.below(10) {
        let n = if r.chance(1, 2) && !ms.is_empty() {
            let k: Vec<String> = ms.keys().cloned().collect();
            let k = r.pick(&k).clone();
            if r.chance(1, 3) {
                k.to_uppercase()
            } else {
                k
            }
        } else {
            r.pick(&NAMES).to_string()
        };
        match r.below(3) {
            0 => {
                let t = r.pick(&IDS).to_string();
                x.add_member(ident(&n), sid(&t));
                step(&mut log, format!("add_member({}, {})", n, t));
                put(&mut ms, &n, AM::new(&n, &t));
            }
            1 => {
                let m = Gen::new(r, GenCfg::default()).member(&n);
                let got = x.add_a_member(m.to());
                step(&mut log, format!("add_a_member({:?})", m));
                let want = put(&mut ms, &n, m);
                ensure!(got.as_ref().map(AM::from) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
            _ => {
                let got = x.remove_member(&ident(&n));
                step(&mut log, format!("remove_member({})", n));
                let want = del(&mut ms, &n);
                ensure!(got.as_ref().map(AM::from) == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
            }
        }
        let mut got: Vec<AM> = x.members().map(AM::from).collect();
        got.sort_by(|a, b| a.name.cmp(&b.name));
        let mut want: Vec<AM> = ms.values().cloned().collect();
        want.sort_by(|a, b| a.name.cmp(&b.name));
        ensure!(got == want, format!("{:?} then {:?}", start, log), format!("{:?}", want), format!("{:?}", got));
    }
    let all: Vec<MemberShape> = ms.values().map(|m| m.to()).collect();
    let y = StructureOrUnion::with_members(&all);
    let mut got: Vec<AM> = y.members().map(AM::from).collect();
    got.sort_by(|a, b| a.name.cmp(&b.name));
    let mut want: Vec<AM> = ms.values().cloned().collect();
    want.sort_by(|a, b| a.name.cmp(&b.name));
    ensure!(got == want, format!("with_members({:?})", all), format!("{:?}", want), format!("{:?}", got));
    Ok(format!("{:?} {:?}", start, log))
}
fn members(_c: u64, r: &mut Rng) -> Res {
    let mut g = Gen::new(r, GenCfg::default());
    let (a, b, k, v, k2, v2) = (g.member("member"), g.member("member"), g.member("key"), g.member("value"), g.member("key"), g.member("value"));
    let name = g.r.pick(&NAMES).to_string();
    let t = g.r.pick(&IDS).to_string();
    let case = format!("{:?} {:?} {:?} {:?} {:?} {:?}", a, b, k, v, k2, v2);
    let mut l = ListOrSet::from(a.to());
    ensure!(AM::from(l.member()) == a, case, "ListOrSet::from keeps the member", format!("{:?}", l));
    l.set_member(b.to());
    ensure!(AM::from(l.member()) == b, case, "set_member replaces the member", format!("{:?}", l));
    let l = ListOrSet::new(sid(&t));
    ensure!(AM::from(l.member()) == AM::new("member", &t), t, "ListOrSet::new targets its argument", format!("{:?}", l));
    let mut m = Map::from(k.to(), v.to());
    ensure!(AM::from(m.key()) == k && AM::from(m.value()) == v, case, "Map::from keeps both members", format!("{:?}", m));
    m.set_key(k2.to());
    ensure!(AM::from(m.key()) == k2 && AM::from(m.value()) == v, case, "set_key replaces the key only", format!("{:?}", m));
    m.set_value(v2.to());
    ensure!(AM::from(m.key()) == k2 && AM::from(m.value()) == v2, case, "set_value replaces the value only", format!("{:?}", m));
    let m = Map::new(sid(&k.target), sid(&v.target));
    ensure!(AM::from(m.key()) == AM::new("key", &k.target) && AM::from(m.value()) == AM::new("value", &v.target), case, "Map::new", format!("{:?}", m));
    let mut x = a.to();
    x.set_target(sid(&t));
    ensure!(AM::from(&x) == AM { target: t.clone(), ..a.clone() }, case, "set_target replaces the target only", format!("{:?}", x));
    x.set_id(ident(&name));
    ensure!(AM::from(&x) == AM { target: t.clone(), name: name.clone(), ..a.clone() }, case, "set_id replaces the id only", format!("{:?}", x));
    let body = g.body();
    let body2 = g.body();
    let traits = a.traits.clone();
    let s = AS { traits: traits.clone(), body };
    let mut top = s.to("a#One");
    top.set_body(body2.to());
    ensure!(AS::from(&top) == AS { traits: traits.clone(), body: body2.clone() } && top.id() == &sid("a#One"), format!("{:?} set_body {:?}", s, body2), "the body replaced only", format!("{:?}", top));
    *top.body_mut() = s.body.to();
    ensure!(AS::from(&top) == s, format!("{:?} body_mut", s), "the body replaced only", format!("{:?}", top));
    top.set_id(sid(&t));
    ensure!(AS::from(&top) == s && top.id().to_string() == t, format!("{:?} set_id {}", s, t), "the id replaced only", format!("{:?}", top));
    let _: Option<Identifier> = None;
    Ok(case)
}
pub fn c25() -> Vec<Sub> {
    vec![
        Sub { name: "service", cases: (6000, 200_000), what: "histories of changes to a service's operations, resources, renames and version", run: service },
        Sub { name: "operation", cases: (6000, 200_000), what: "histories of changes to an operation's input, output and errors", run: operation },
        Sub { name: "resource", cases: (10_000, 300_000), what: "histories of changes to a resource's identifiers, lifecycle operations and collections", run: resource },
        Sub { name: "structure", cases: (8000, 200_000), what: "histories of member changes of structures and unions", run: structure },
        Sub { name: "members", cases: (4000, 100_000), what: "members of lists, sets and maps, bodies, targets and ids", run: members },
    ]
}
