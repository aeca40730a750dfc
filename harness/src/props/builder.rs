//! C09, C10: programs of builder calls against an abstract builder.
use crate::am::*;
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::builder::*;
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Model};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::TryFrom;

const P_SHAPES: &str = "BigDecimal BigInteger Blob Boolean Byte Document Double Float Integer Long PrimitiveBoolean PrimitiveByte PrimitiveDouble \
    PrimitiveFloat PrimitiveInteger PrimitiveLong PrimitiveShort Short String Timestamp";
const P_TRAITS: &str = "AuthTraitReference EnumConstantBodyName EnumDefinition Example HttpApiKeyLocations NonEmptyString NonEmptyStringList \
    NonEmptyStringMap Reference StructurallyExclusive TraitShapeId TraitShapeIdList auth authDefinition box cors deprecated documentation endpoint \
    enum error eventHeader eventPayload examples externalDocumentation hostLabel http httpApiKeyAuth httpBasicAuth httpBearerAuth \
    httpChecksumRequired httpDigestAuth httpError httpHeader httpLabel httpPayload httpPrefixHeaders httpQuery idRef idempotencyToken idempotent \
    jsonName length mediaType noReplace optionalAuth paginated pattern private protocolDefinition range readonly recommended references required \
    requiresLength resourceIdentifier retryable sensitive since streaming suppress tags timestampFormat title trait uniqueItems unstable \
    xmlAttribute xmlFlattened xmlName xmlNamespace";
fn prelude(is_trait: bool) -> Vec<&'static str> {
    if is_trait { P_TRAITS } else { P_SHAPES }.split_whitespace().collect()
}
const NS: &str = "example.ns";

type Tr = (String, Option<AV>);
/// A definition as given: names are not resolved; `dups` are members given before one of the same name.
#[derive(Clone, Debug)]
struct D {
    name: String,
    body: AB,
    traits: Vec<Tr>,
    /// (member name, traits), in the order of the calls
    mtraits: BTreeMap<String, Vec<Tr>>,
    dups: Vec<(String, String, Vec<Tr>)>,
    set: bool,
}
#[derive(Clone, Debug)]
enum Op {
    Def(D),
    Uses(String),
    Ref(String, Vec<Tr>),
    Apply(String, Tr),
    Meta(String, AV),
    MetaFrom(Vec<(String, AV)>),
}
#[derive(Clone, Debug)]
enum Ent {
    Def(D),
    Ref(String, Vec<Tr>),
}
fn absolute(n: &str) -> bool {
    n.contains('#')
}
fn local(n: &str) -> &str {
    n.split('#').last().unwrap().split('$').next().unwrap()
}
fn lc(n: &str) -> String {
    n.to_ascii_lowercase()
}
/// The abstract builder.
#[derive(Clone, Debug, Default)]
struct B {
    shapes: BTreeMap<String, Ent>,
    metadata: BTreeMap<String, AV>,
}
enum R {
    Is(String),
    New(String),
    Bad,
}
impl B {
    fn resolve(&self, n: &str, is_trait: bool) -> R {
        if absolute(n) {
            return if n.contains('$') { R::Bad } else { R::Is(n.to_string()) };
        }
        let imports: Vec<&String> = self
            .shapes
            .values()
            .filter_map(|e| match e {
                Ent::Ref(id, _) if lc(local(id)) == lc(n) => Some(id),
                _ => None,
            })
            .collect();
        let own = format!("{}#{}", NS, n);
        match imports.len() {
            1 => {
                if imports[0].contains('$') {
                    R::Is(imports[0].clone())
                } else {
                    R::Is(imports[0].clone())
                }
            }
            0 => {
                if self.shapes.contains_key(&lc(n)) || self.shapes.contains_key(&lc(&own)) {
                    R::Is(own)
                } else if prelude(is_trait).contains(&n) {
                    R::Is(format!("smithy.api#{}", n))
                } else {
                    R::New(own)
                }
            }
            _ => R::Bad,
        }
    }
    fn reference(&mut self, id: &str, ts: Vec<Tr>) {
        match self.shapes.get_mut(&lc(id)) {
            Some(Ent::Def(d)) => d.traits.extend(ts),
            Some(Ent::Ref(_, t)) => t.extend(ts),
            None => {
                self.shapes.insert(lc(id), Ent::Ref(id.to_string(), ts));
            }
        }
    }
    /// false: the call would panic
    fn apply(&mut self, n: &str, t: &Tr) -> bool {
        let id = if absolute(n) {
            n.to_string()
        } else {
            match self.resolve(n, false) {
                R::Is(x) => x,
                R::New(x) => {
                    self.reference(&x, vec![]);
                    x
                }
                R::Bad => return false,
            }
        };
        if let Some(i) = id.find('$') {
            let (shape, member) = (&id[..i], &id[i + 1..]);
            let mut key = lc(shape);
            if !self.shapes.contains_key(&key) && lc(shape.split('#').next().unwrap()) == NS {
                key = lc(local(shape));
            }
            match self.shapes.get_mut(&key) {
                Some(Ent::Def(d)) => {
                    let names: Vec<String> = d.body.members().iter().map(|m| m.name.clone()).collect();
                    let aggregate = matches!(d.body, AB::Struct(_) | AB::Union(_));
                    let hit = names.iter().find(|x| if aggregate { lc(x) == lc(member) } else { *x == member });
                    match hit {
                        Some(x) if d.dups.iter().all(|d| d.0 != *x) => {
                            d.mtraits.entry(x.clone()).or_default().push(t.clone());
                            true
                        }
                        _ => false,
                    }
                }
                _ => false,
            }
        } else {
            self.reference(&id, vec![t.clone()]);
            true
        }
    }
    fn step(&mut self, op: &Op) -> bool {
        match op {
            Op::Def(d) => {
                let mut d = d.clone();
                if let Some(Ent::Ref(_, ts)) = self.shapes.get(&lc(&d.name)) {
                    d.traits.extend(ts.clone());
                }
                self.shapes.insert(lc(&d.name), Ent::Def(d));
                true
            }
            Op::Uses(id) => {
                self.reference(id, vec![]);
                true
            }
            Op::Ref(id, ts) => {
                self.reference(id, ts.clone());
                true
            }
            Op::Apply(n, t) => self.apply(n, t),
            Op::Meta(k, v) => {
                self.metadata.insert(k.clone(), v.clone());
                true
            }
            Op::MetaFrom(kv) => {
                self.metadata.extend(kv.iter().cloned());
                true
            }
        }
    }
    /// the model, or None for an error; the second part are names known to be unresolved
    fn finish(&self) -> Option<(Vec<(String, AS)>, BTreeMap<String, String>)> {
        let mut new = BTreeMap::new();
        let mut out = vec![];
        for e in self.shapes.values() {
            match e {
                Ent::Ref(id, ts) => {
                    let traits = self.traits(ts, &mut new)?;
                    out.push((id.clone(), AS { traits, body: AB::Unresolved }));
                }
                Ent::Def(d) => {
                    let id = self.name(&d.name, false, &mut new)?;
                    let body = self.body(d, &mut new)?;
                    let traits = self.traits(&d.traits, &mut new)?;
                    out.push((id, AS { traits, body }));
                }
            }
        }
        Some((out, new))
    }
    fn name(&self, n: &str, is_trait: bool, new: &mut BTreeMap<String, String>) -> Option<String> {
        match self.resolve(n, is_trait) {
            R::Is(x) => Some(x),
            R::New(x) => {
                new.insert(lc(&x), x.clone());
                Some(x)
            }
            R::Bad => None,
        }
    }
    fn traits(&self, ts: &[Tr], new: &mut BTreeMap<String, String>) -> Option<ATraits> {
        let mut out = ATraits::new();
        for (n, v) in ts {
            let id = self.name(n, true, new)?;
            let key = out.keys().find(|k| lc(k) == lc(&id)).cloned();
            match key {
                None => {
                    out.insert(id, v.clone());
                }
                Some(k) => {
                    let old = out[&k].clone();
                    let merged = match (&old, v) {
                        (Some(AV::Arr(a)), Some(AV::Arr(b))) => Some(AV::Arr(a.iter().chain(b.iter()).cloned().collect())),
                        (a, b) if a == b => old.clone(),
                        _ => return None,
                    };
                    out.insert(k, merged);
                }
            }
        }
        Some(out)
    }
    fn body(&self, d: &D, new: &mut BTreeMap<String, String>) -> Option<AB> {
        let mut b = d.body.clone();
        for (_, t, ts) in &d.dups {
            self.name(t, false, new)?;
            self.traits(ts, new)?;
        }
        for m in b.members_mut() {
            m.target = self.name(&m.target, false, new)?;
            m.traits = self.traits(d.mtraits.get(&m.name).map(|v| v.as_slice()).unwrap_or(&[]), new)?;
        }
        let mut all = |v: &mut Vec<String>| -> Option<()> {
            for x in v.iter_mut() {
                *x = self.name(x, false, new)?;
            }
            Some(())
        };
        match &mut b {
            AB::Service { operations, resources, .. } => {
                all(operations)?;
                all(resources)?;
            }
            AB::Operation { input, output, errors } => {
                for o in [input, output] {
                    let mut v: Vec<String> = o.iter().cloned().collect();
                    all(&mut v)?;
                    *o = v.pop();
                }
                all(errors)?;
            }
            AB::Resource { identifiers, life, operations, collection_operations, resources } => {
                for x in identifiers.values_mut() {
                    let mut v = vec![x.clone()];
                    all(&mut v)?;
                    *x = v.pop().unwrap();
                }
                for o in life.iter_mut() {
                    let mut v: Vec<String> = o.iter().cloned().collect();
                    all(&mut v)?;
                    *o = v.pop();
                }
                all(operations)?;
                all(collection_operations)?;
                all(resources)?;
            }
            _ => {}
        }
        Some(b)
    }
}

// ------------------------------------------------------------------------------------------------
// The real builder

fn tb(t: &Tr, r: &mut Rng) -> TraitBuilder {
    match &t.1 {
        None => TraitBuilder::new(&t.0),
        Some(AV::Obj(m)) if m.is_empty() && r.chance(1, 2) => TraitBuilder::annotation(&t.0),
        Some(v) if r.chance(1, 2) => TraitBuilder::with_value(&t.0, v.to()),
        Some(v) => {
            let mut b = TraitBuilder::new(&t.0);
            match v.to() {
                Value::Array(a) => b.array(a),
                Value::Object(o) => b.object(o),
                Value::Number(Number::Integer(i)) => b.integer(i),
                Value::Number(Number::Float(f)) => b.float(f),
                Value::Boolean(x) => b.boolean(x),
                Value::String(s) => b.string(&s),
                v => b.value(v),
            };
            b
        }
    }
}
fn apply_all<T: ShapeTraits>(b: &mut T, ts: &[Tr], r: &mut Rng) {
    for t in ts {
        let t = tb(t, r);
        b.apply_trait(t);
    }
}
fn mb(name: &str, target: &str, ts: &[Tr], r: &mut Rng) -> MemberBuilder {
    let mut m = MemberBuilder::new(name, target);
    apply_all(&mut m, ts, r);
    m
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn define(b: &mut ModelBuilder, d: &D, r: &mut Rng) {
    let ts = |m: &AM| d.mtraits.get(&m.name).cloned().unwrap_or_default();
    match &d.body {
        AB::Simple(s) => {
            let mut x = SimpleShapeBuilder::new(&d.name, simple(s));
            apply_all(&mut x, &d.traits, r);
            b.simple_shape(x);
        }
        AB::List(m) | AB::Set(m) => {
            let mut x = if r.chance(1, 2) {
                let mut x = ListBuilder::new(&d.name, "Decoy");
                x.target(mb("member", &m.target, &ts(m), r));
                x
            } else if ts(m).is_empty() {
                ListBuilder::new(&d.name, &m.target)
            } else {
                let mut x = ListBuilder::new(&d.name, &m.target);
                x.target(mb("member", &m.target, &ts(m), r));
                x
            };
            apply_all(&mut x, &d.traits, r);
            if d.body.kind() == "set" {
                b.set(x);
            } else {
                b.list(x);
            }
        }
        AB::Map(k, v) => {
            let mut x = MapBuilder::new(&d.name, &k.target, &v.target);
            if !ts(k).is_empty() || r.chance(1, 3) {
                x.key(mb("key", &k.target, &ts(k), r));
            }
            if !ts(v).is_empty() || r.chance(1, 3) {
                x.value(mb("value", &v.target, &ts(v), r));
            }
            apply_all(&mut x, &d.traits, r);
            b.map(x);
        }
        AB::Struct(ms) | AB::Union(ms) => {
            let mut x = StructureBuilder::new(&d.name);
            for (n, t, ts) in &d.dups {
                x.add_member(mb(n, t, ts, r));
            }
            for m in ms.values() {
                if ts(m).is_empty() && r.chance(1, 2) {
                    x.member(&m.name, &m.target);
                } else {
                    x.add_member(mb(&m.name, &m.target, &ts(m), r));
                }
            }
            apply_all(&mut x, &d.traits, r);
            if d.body.kind() == "union" {
                b.union(x);
            } else {
                b.structure(x);
            }
        }
        AB::Service { version, operations, resources, renames } => {
            let mut x = ServiceBuilder::new(&d.name, if r.chance(1, 2) { version } else { "decoy" });
            x.version(version);
            if r.chance(1, 2) {
                x.operations(&strs(operations));
                x.resources(&strs(resources));
            } else {
                for o in operations {
                    x.operation(o);
                }
                for o in resources {
                    x.resource(o);
                }
            }
            for (k, v) in renames {
                if r.chance(1, 4) {
                    x.rename(k, "decoy");
                }
                x.rename(k, v);
            }
            apply_all(&mut x, &d.traits, r);
            b.service(x);
        }
        AB::Operation { input, output, errors } => {
            let mut x = OperationBuilder::new(&d.name);
            if let Some(i) = input {
                if r.chance(1, 4) {
                    x.input("Decoy");
                }
                x.input(i);
            }
            if let Some(i) = output {
                x.output(i);
            }
            if r.chance(1, 2) {
                x.errors(&strs(errors));
            } else {
                for e in errors {
                    x.error(e);
                }
            }
            apply_all(&mut x, &d.traits, r);
            b.operation(x);
        }
        AB::Resource { identifiers, life, operations, collection_operations, resources } => {
            let mut x = ResourceBuilder::new(&d.name);
            for (k, v) in identifiers {
                if r.chance(1, 4) {
                    x.identifier(k, "Decoy");
                }
                x.identifier(k, v);
            }
            for (i, l) in life.iter().enumerate() {
                if let Some(l) = l {
                    match i {
                        0 => x.create(l),
                        1 => x.put(l),
                        2 => x.read(l),
                        3 => x.update(l),
                        4 => x.delete(l),
                        _ => x.list(l),
                    };
                }
            }
            if r.chance(1, 2) {
                x.operations(&strs(operations));
                x.collection_operations(&strs(collection_operations));
                x.resources(&strs(resources));
            } else {
                for o in operations {
                    x.operation(o);
                }
                for o in collection_operations {
                    x.collection_operation(o);
                }
                for o in resources {
                    x.resource(o);
                }
            }
            apply_all(&mut x, &d.traits, r);
            b.resource(x);
        }
        AB::Unresolved => unreachable!(),
    }
}
fn call(b: &mut ModelBuilder, op: &Op, r: &mut Rng) {
    match op {
        Op::Def(d) => define(b, d, r),
        Op::Uses(id) => {
            b.uses(id);
        }
        Op::Ref(id, ts) => {
            let mut x = ReferenceBuilder::new(id);
            apply_all(&mut x, ts, r);
            b.reference(x);
        }
        Op::Apply(n, t) => {
            let t = tb(t, r);
            b.apply(n, t);
        }
        Op::Meta(k, v) => {
            b.meta_data(k.clone(), v.to());
        }
        Op::MetaFrom(kv) => {
            b.meta_data_from(kv.iter().map(|(k, v)| (k.clone(), v.to())).collect::<HashMap<_, _>>());
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generation

struct Names {
    pool: Vec<&'static str>,
    spaces: Vec<&'static str>,
    bad: bool,
}
impl Names {
    fn name(&self, r: &mut Rng) -> String {
        let n = r.pick(&self.pool);
        match r.below(4) {
            0 => format!("{}#{}", r.pick(&self.spaces), n),
            1 if self.bad && r.chance(1, 12) => format!("{}#{}$member", r.pick(&self.spaces), n),
            _ => n.to_string(),
        }
    }
    fn id(&self, r: &mut Rng) -> String {
        format!("{}#{}", r.pick(&self.spaces), r.pick(&self.pool))
    }
    fn traits(&self, r: &mut Rng) -> Vec<Tr> {
        if r.chance(1, 2) {
            return vec![];
        }
        (0..1 + r.below(3)).map(|_| self.tr(r)).collect()
    }
    fn tr(&self, r: &mut Rng) -> Tr {
        let v = match r.below(5) {
            0 => None,
            1 => Some(AV::Arr((0..r.below(3)).map(|i| AV::Int(i as i64)).collect())),
            2 => Some(AV::Obj(BTreeMap::new())),
            3 => Some(AV::Arr(vec![AV::Str("a".into())])),
            _ => Some(gen_value(r, &GenCfg::default(), 1)),
        };
        (self.name(r), v)
    }
}
fn def(r: &mut Rng, ns: &Names, kinds: &[&str]) -> D {
    let mut body = {
        let mut g = Gen::new(r, GenCfg { unresolved: false, ..Default::default() });
        g.pool = vec!["x.y#Z".to_string()];
        let k = *g.r.pick(kinds);
        g.body_of(k)
    };
    let mut mtraits = BTreeMap::new();
    let mut dups = vec![];
    for m in body.members_mut() {
        m.traits.clear();
        m.target = ns.name(r);
        let t = ns.traits(r);
        if !t.is_empty() {
            mtraits.insert(m.name.clone(), t);
        }
    }
    let mut v = vec![];
    match &mut body {
        AB::Struct(ms) | AB::Union(ms) => {
            for m in ms.values() {
                if r.chance(1, 8) {
                    dups.push((m.name.clone(), ns.name(r), ns.traits(r)));
                }
            }
        }
        AB::Service { operations, resources, .. } => {
            v.extend(operations.iter_mut());
            v.extend(resources.iter_mut());
        }
        AB::Operation { input, output, errors } => {
            v.extend(input.iter_mut());
            v.extend(output.iter_mut());
            v.extend(errors.iter_mut());
        }
        AB::Resource { identifiers, life, operations, collection_operations, resources } => {
            v.extend(identifiers.values_mut());
            v.extend(life.iter_mut().flatten());
            v.extend(operations.iter_mut());
            v.extend(collection_operations.iter_mut());
            v.extend(resources.iter_mut());
        }
        _ => {}
    }
    for x in v {
        *x = ns.name(r);
    }
    D { name: ns.name(r), body, traits: ns.traits(r), mtraits, dups, set: false }
}
fn program(r: &mut Rng, ns: &Names, kinds: &[&str], metas: bool) -> (Vec<Op>, B) {
    let mut b = B::default();
    let mut ops = vec![];
    for _ in 0..1 + r.below(7) {
        let op = match r.below(if metas { 9 } else { 7 }) {
            0 => Op::Uses(ns.id(r)),
            1 => Op::Ref(ns.id(r), ns.traits(r)),
            2 => Op::Apply(ns.name(r), ns.tr(r)),
            3 => {
                // a member of something that is there
                let ds: Vec<&D> = b
                    .shapes
                    .values()
                    .filter_map(|e| match e {
                        Ent::Def(d) if !d.body.members().is_empty() => Some(d),
                        _ => None,
                    })
                    .collect();
                if ds.is_empty() {
                    continue;
                }
                let d = *r.pick(&ds);
                let m = r.pick(&d.body.members()).name.clone();
                let id = if absolute(&d.name) { d.name.clone() } else { format!("{}#{}", NS, d.name) };
                if id.contains('$') {
                    continue;
                }
                Op::Apply(format!("{}${}", id, m), ns.tr(r))
            }
            7 => Op::Meta(r.pick(&["a", "b", "A"]).to_string(), gen_value(r, &GenCfg::default(), 2)),
            8 => Op::MetaFrom((0..r.below(3)).map(|i| (["a", "c", "d"][i].to_string(), gen_value(r, &GenCfg::default(), 1))).collect()),
            _ => Op::Def(def(r, ns, kinds)),
        };
        let mut next = b.clone();
        if next.step(&op) {
            b = next;
            ops.push(op);
        }
    }
    (ops, b)
}
fn check(ops: &[Op], b: &B, r: &mut Rng) -> Res {
    let mut builder = ModelBuilder::new(Version::V10, NS);
    for o in ops {
        call(&mut builder, o, r);
    }
    let got = match r.below(3) {
        0 => Model::try_from(builder.clone()),
        1 => Model::try_from(&mut builder),
        _ => Model::try_from(builder),
    };
    let what = format!("{:?}", ops);
    let (want, new) = match b.finish() {
        None => {
            ensure!(got.is_err(), what, "an error", format!("{:?}", got.map(|m| AModel::from(&m))));
            return Ok("error".to_string());
        }
        Some(x) => x,
    };
    // which ids are given to more than one shape
    let mut by: BTreeMap<String, Vec<(String, AS)>> = BTreeMap::new();
    for (id, s) in &want {
        by.entry(lc(id)).or_default().push((id.clone(), s.clone()));
    }
    for (k, id) in &new {
        by.entry(k.clone()).or_default().push((id.clone(), AS::new(AB::Unresolved)));
    }
    let clash = by.values().any(|v| v.len() > 1);
    if clash {
        // the rules for these are those of adding shapes to a model (C06, C07): the order in which they are added is free
        let conflict = by.values().any(|v| {
            v.iter().any(|a| {
                v.iter().any(|b| {
                    let both = a.1.body != AB::Unresolved && b.1.body != AB::Unresolved;
                    both && a.1.body.kind() != b.1.body.kind()
                })
            })
        });
        if conflict {
            ensure!(got.is_err(), what, "a conflict", format!("{:?}", got.map(|m| AModel::from(&m))));
            return Ok("conflict".to_string());
        }
        if let Ok(m) = got {
            let ids: BTreeSet<String> = AModel::from(&m).shapes.keys().map(|k| lc(k)).collect();
            ensure!(ids.iter().eq(by.keys()), what, format!("{:?}", by.keys()), format!("{:?}", ids));
            for (k, v) in AModel::from(&m).shapes {
                // every trait given is there
                for (_, s) in &by[&lc(&k)] {
                    for t in s.traits.keys() {
                        ensure!(v.traits.keys().any(|x| lc(x) == lc(t)), what, format!("{} on {}", t, k), format!("{:?}", v));
                    }
                }
            }
        }
        return Ok("clash".to_string());
    }
    let m = match got {
        Err(e) => return crate::fail(what, format!("{:?}", want), format!("{:?}", e)),
        Ok(m) => m,
    };
    ensure!(*m.smithy_version() == Version::V10, what, "version 1.0", m.smithy_version());
    let got = AModel::from(&m);
    ensure!(got.metadata == b.metadata, what, format!("{:?}", b.metadata), format!("{:?}", got.metadata));
    let mut exp: BTreeMap<String, AS> = want.into_iter().collect();
    let mut got = got.shapes;
    for (k, id) in new {
        // one placeholder, under some spelling of the name
        let x: Vec<String> = got.keys().filter(|g| lc(g) == k).cloned().collect();
        ensure!(x.len() == 1, what, format!("{} recorded as unresolved", id), format!("{:?}", got.keys()));
        let s = got.remove(&x[0]).unwrap();
        exp.insert(id.clone(), AS::new(AB::Unresolved));
        got.insert(id, s);
    }
    ensure!(exp == got, what, format!("{:?}", exp), format!("{:?}", got));
    Ok(format!("{} shapes {:?}", exp.len(), exp.keys()))
}
const ADVERSE: [&str; 14] = [
    "Foo", "foo", "FOO", "Bar", "bar", "String", "string", "STRING", "documentation", "Documentation", "tags", "PrimitiveLong", "required", "Thing",
];
const ALL: [&str; 9] = ["simple", "list", "set", "map", "structure", "union", "service", "operation", "resource"];
fn resolution(_case: u64, r: &mut Rng) -> Res {
    let n = 2 + r.below(4);
    let ns = Names {
        pool: (0..n).map(|_| *r.pick(&ADVERSE)).collect(),
        spaces: vec!["example.ns", "Example.NS", "imp.a", "imp.b", "smithy.api"],
        bad: true,
    };
    // one kind of shape, so that shapes that turn out to have the same name rarely conflict
    let k = *r.pick(&ALL);
    let (ops, b) = program(r, &ns, &[k], false);
    check(&ops, &b, r)
}
fn building(_case: u64, r: &mut Rng) -> Res {
    let ns = Names {
        pool: vec![
            "City", "Weather", "Forecast", "List", "Thing", "Other", "One", "Two", "Three", "Four", "String", "Integer", "Blob", "tags", "documentation", "box", "Value", "Number", "Item",
        ],
        spaces: vec!["example.ns", "other.one", "other.two", "smithy.api"],
        bad: false,
    };
    let (ops, b) = program(r, &ns, &ALL, true);
    check(&ops, &b, r)
}
/// every prelude name, in several spellings, as a shape and as a trait
fn preludes(case: u64, _r: &mut Rng) -> Res {
    let mut names: Vec<String> = prelude(false).iter().chain(prelude(true).iter()).map(|s| s.to_string()).collect();
    names.extend(["Smithy", "any", "Unit", "PrimitiveString", "PrimitiveBlob", "Struct", "List", "BigInt", "documentations", "tag"].iter().map(|s| s.to_string()));
    let c = case as usize;
    let n = &names[c % names.len()];
    let n = match c / names.len() % 8 {
        0 => n.clone(),
        1 => n.to_lowercase(),
        2 => n.to_uppercase(),
        3 => format!("{}{}", n[..1].to_uppercase(), &n[1..]),
        4 => format!("{}{}", n[..1].to_lowercase(), &n[1..]),
        5 => format!("{}s", n),
        6 => n[..n.len() - 1].to_string(),
        _ => format!("_{}", n),
    };
    let d = D {
        name: "probe.x#Probe".to_string(),
        body: AB::List(AM::new("member", &n)),
        traits: vec![(n.clone(), None)],
        mtraits: BTreeMap::new(),
        dups: vec![],
        set: false,
    };
    let mut b = B::default();
    b.step(&Op::Def(d.clone()));
    check(&[Op::Def(d)], &b, &mut Rng::new(case)).map(|_| n)
}
/// the shorthands: each is the long form it stands for
fn shorthands(case: u64, _r: &mut Rng) -> Res {
    let c = case as usize % 3;
    type S = (fn(&str) -> SimpleShapeBuilder, fn(&mut StructureBuilder, &str), fn(&str) -> MemberBuilder, Simple, &'static str);
    let all: [S; 13] = [
        (SimpleShapeBuilder::blob, |s, n| drop(s.blob(n)), MemberBuilder::blob, Simple::Blob, "Blob"),
        (SimpleShapeBuilder::boolean, |s, n| drop(s.boolean(n)), MemberBuilder::boolean, Simple::Boolean, "Boolean"),
        (SimpleShapeBuilder::document, |s, n| drop(s.document(n)), MemberBuilder::document, Simple::Document, "Document"),
        (SimpleShapeBuilder::string, |s, n| drop(s.string(n)), MemberBuilder::string, Simple::String, "String"),
        (SimpleShapeBuilder::byte, |s, n| drop(s.byte(n)), MemberBuilder::byte, Simple::Byte, "Byte"),
        (SimpleShapeBuilder::short, |s, n| drop(s.short(n)), MemberBuilder::short, Simple::Short, "Short"),
        (SimpleShapeBuilder::integer, |s, n| drop(s.integer(n)), MemberBuilder::integer, Simple::Integer, "Integer"),
        (SimpleShapeBuilder::long, |s, n| drop(s.long(n)), MemberBuilder::long, Simple::Long, "Long"),
        (SimpleShapeBuilder::float, |s, n| drop(s.float(n)), MemberBuilder::float, Simple::Float, "Float"),
        (SimpleShapeBuilder::double, |s, n| drop(s.double(n)), MemberBuilder::double, Simple::Double, "Double"),
        (SimpleShapeBuilder::big_integer, |s, n| drop(s.big_integer(n)), MemberBuilder::big_integer, Simple::BigInteger, "BigInteger"),
        (SimpleShapeBuilder::big_decimal, |s, n| drop(s.big_decimal(n)), MemberBuilder::big_decimal, Simple::BigDecimal, "BigDecimal"),
        (SimpleShapeBuilder::timestamp, |s, n| drop(s.timestamp(n)), MemberBuilder::timestamp, Simple::Timestamp, "Timestamp"),
    ];
    let mut b = ModelBuilder::new(Version::V10, NS);
    let mut st = StructureBuilder::new("All");
    let mut un = StructureBuilder::new("other.ns#All");
    let mut exp = BTreeMap::new();
    let mut ms = BTreeMap::new();
    for (s, m, u, k, n) in all.iter() {
        let name = format!("S{}", n);
        b.simple_shape(s(&name));
        exp.insert(format!("{}#{}", NS, name), AS::new(AB::Simple(simple_name(k).to_string())));
        m(&mut st, &lc(n));
        un.add_member(u(&lc(n)));
        ms.insert(lc(n), AM::new(&lc(n), &format!("smithy.api#{}", n)));
    }
    exp.insert(format!("{}#All", NS), AS::new(if c == 0 { AB::Struct(ms.clone()) } else { AB::Union(ms.clone()) }));
    exp.insert("other.ns#All".to_string(), AS::new(AB::Struct(ms)));
    if c == 0 {
        b.structure(st);
    } else {
        b.union(st);
    }
    b.structure(un);
    let got = AModel::from(&Model::try_from(b).map_err(|e| crate::Fail { key: String::new(), input: "shorthands".into(), expected: "a model".into(), observed: e.to_string() })?);
    ensure!(got.shapes == exp, "shorthands", format!("{:?}", exp), format!("{:?}", got.shapes));
    // traits
    let obj = |kv: &[(&str, AV)]| Some(AV::Obj(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()));
    let s = |x: &str| AV::Str(x.to_string());
    let table: Vec<(TraitBuilder, &str, Option<AV>)> = vec![
        (traits::boxed(), "box", obj(&[])),
        (traits::deprecated(None, None), "deprecated", obj(&[])),
        (traits::deprecated(Some("m"), Some("s")), "deprecated", obj(&[("message", s("m")), ("since", s("s"))])),
        (traits::deprecated(None, Some("s")), "deprecated", obj(&[("since", s("s"))])),
        (traits::documentation("d"), "documentation", Some(s("d"))),
        (traits::error_source(traits::ErrorSource::Client), "error", Some(s("client"))),
        (traits::error_source(traits::ErrorSource::Server), "error", Some(s("server"))),
        (traits::external_documentation(&[("a", "b"), ("c", "d")]), "externalDocumentation", obj(&[("a", s("b")), ("c", s("d"))])),
        (traits::idempotent(), "idempotent", obj(&[])),
        (traits::length(Some(1), Some(2)), "length", obj(&[("min", AV::Int(1)), ("max", AV::Int(2))])),
        (traits::length_max(3), "length", obj(&[("max", AV::Int(3))])),
        (traits::length_min(3), "length", obj(&[("min", AV::Int(3))])),
        (traits::no_replace(), "noReplace", obj(&[])),
        (
            traits::paginated(Some("a"), Some("b"), Some("c"), Some("d")),
            "paginated",
            obj(&[("inputToken", s("a")), ("outputToken", s("b")), ("items", s("c")), ("pageSize", s("d"))]),
        ),
        (traits::paginated(None, None, Some("c"), None), "paginated", obj(&[("items", s("c"))])),
        (traits::pattern("p"), "pattern", Some(s("p"))),
        (traits::private(), "private", obj(&[])),
        (traits::range(Some(1), Some(2)), "range", obj(&[("min", AV::Int(1)), ("max", AV::Int(2))])),
        (traits::range_max(3), "range", obj(&[("max", AV::Int(3))])),
        (traits::range_min(3), "range", obj(&[("min", AV::Int(3))])),
        (traits::readonly(), "readonly", obj(&[])),
        (traits::references(Value::Array(vec![Value::Boolean(true)])), "references", Some(AV::Arr(vec![AV::Bool(true)]))),
        (traits::required(), "required", obj(&[])),
        (traits::requires_length(), "requiresLength", obj(&[])),
        (traits::sensitive(), "sensitive", obj(&[])),
        (traits::streaming(), "streaming", obj(&[])),
        (traits::since("x"), "since", Some(s("x"))),
        (traits::tagged(&["b", "a"]), "tags", Some(AV::Arr(vec![s("b"), s("a")]))),
        (traits::title("t"), "title", Some(s("t"))),
        (traits::a_trait(), "trait", None),
        (traits::unique_items(), "uniqueItems", obj(&[])),
        (traits::unstable(), "unstable", None),
    ];
    for (t, n, v) in table {
        let mut b = ModelBuilder::new(Version::V10, NS);
        let mut x = SimpleShapeBuilder::string("X");
        x.apply_trait(t);
        b.simple_shape(x);
        let m = Model::try_from(b).unwrap();
        let got = AModel::from(&m).shapes.remove("example.ns#X").unwrap().traits;
        let mut want = ATraits::new();
        want.insert(format!("smithy.api#{}", n), v);
        ensure!(got == want, format!("the trait {}", n), format!("{:?}", want), format!("{:?}", got));
    }
    // the shorthands on the builders
    let mut b = ModelBuilder::new(Version::V10, NS);
    let mut want: BTreeMap<String, AS> = BTreeMap::new();
    let t = |v: &[(&str, Option<AV>)]| -> ATraits { v.iter().map(|(k, v)| (format!("smithy.api#{}", k), v.clone())).collect() };
    let e = || Some(AV::Obj(BTreeMap::new()));
    let mut x = SimpleShapeBuilder::string("A");
    x.boxed().sensitive().streaming().documentation("d").external_documentation(&[("a", "b")]).deprecated(None, None).private().since("s").tagged(&["t"]).unstable();
    b.simple_shape(x);
    let common = |k: &[(&str, Option<AV>)]| {
        let mut x = t(&[
            ("documentation", Some(s("d"))),
            ("externalDocumentation", obj(&[("a", s("b"))])),
            ("deprecated", e()),
            ("private", e()),
            ("since", Some(s("s"))),
            ("tags", Some(AV::Arr(vec![s("t")]))),
            ("unstable", None),
        ]);
        x.extend(t(k));
        x
    };
    want.insert("example.ns#A".into(), AS { traits: common(&[("box", e()), ("sensitive", e()), ("streaming", e())]), body: AB::Simple("string".into()) });
    let mut x = ListBuilder::new("B", "String");
    x.sensitive().unique_items();
    b.list(x);
    want.insert("example.ns#B".into(), AS { traits: t(&[("sensitive", e()), ("uniqueItems", e())]), body: AB::List(AM::new("member", "smithy.api#String")) });
    let mut x = StructureBuilder::new("C");
    x.error_source(traits::ErrorSource::Server).sensitive();
    let mut m = MemberBuilder::string("m");
    m.required();
    x.add_member(m);
    b.structure(x);
    let mut am = AM::new("m", "smithy.api#String");
    am.traits = t(&[("required", e())]);
    want.insert(
        "example.ns#C".into(),
        AS { traits: t(&[("error", Some(s("server"))), ("sensitive", e())]), body: AB::Struct(Some(("m".to_string(), am)).into_iter().collect()) },
    );
    let mut x = ServiceBuilder::new("D", "1");
    x.sensitive().paginated(Some("i"), None, None, Some("p")).title("t");
    b.service(x);
    want.insert(
        "example.ns#D".into(),
        AS {
            traits: t(&[("sensitive", e()), ("paginated", obj(&[("inputToken", s("i")), ("pageSize", s("p"))])), ("title", Some(s("t")))]),
            body: AB::Service { version: "1".into(), operations: vec![], resources: vec![], renames: BTreeMap::new() },
        },
    );
    let mut x = OperationBuilder::new("E");
    x.idempotent().readonly().sensitive().paginated(None, Some("o"), Some("i"), None);
    b.operation(x);
    want.insert(
        "example.ns#E".into(),
        AS {
            traits: t(&[("idempotent", e()), ("readonly", e()), ("sensitive", e()), ("paginated", obj(&[("outputToken", s("o")), ("items", s("i"))]))]),
            body: AB::Operation { input: None, output: None, errors: vec![] },
        },
    );
    let mut x = ResourceBuilder::new("F");
    x.sensitive().no_replace().title("t");
    b.resource(x);
    want.insert(
        "example.ns#F".into(),
        AS {
            traits: t(&[("sensitive", e()), ("noReplace", e()), ("title", Some(s("t")))]),
            body: AB::Resource { identifiers: BTreeMap::new(), life: [None, None, None, None, None, None], operations: vec![], collection_operations: vec![], resources: vec![] },
        },
    );
    let got = AModel::from(&Model::try_from(b).unwrap()).shapes;
    ensure!(got == want, "trait shorthands of the builders", format!("{:?}", want), format!("{:?}", got));
    Ok(format!("{}", c))
}
pub fn c09() -> Vec<Sub> {
    vec![
        Sub { name: "building", cases: (60_000, 1_000_000), what: "programs of builder calls against an abstract builder", run: building },
        Sub { name: "shorthands", cases: (3, 3), what: "every shorthand for a simple shape, a member or a trait", run: shorthands },
    ]
}
pub fn c10() -> Vec<Sub> {
    vec![
        Sub { name: "resolution", cases: (60_000, 1_000_000), what: "programs of builder calls over few names in several spellings and namespaces", run: resolution },
        Sub { name: "prelude", cases: (1_000, 1_000), what: "every name of the prelude, and others like it, as a shape and as a trait", run: preludes },
    ]
}
