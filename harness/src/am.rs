//! The abstract model the oracles work on: plain data, independent of the code under check, with conversions through the
//! public API in both directions.
use crate::rng::Rng;
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum AV {
    Null,
    Arr(Vec<AV>),
    Obj(BTreeMap<String, AV>),
    Int(i64),
    Flt(f64),
    Bool(bool),
    Str(String),
}
pub type ATraits = BTreeMap<String, Option<AV>>;
#[derive(Clone, Debug, PartialEq)]
pub struct AM {
    pub name: String,
    pub target: String,
    pub traits: ATraits,
}
#[derive(Clone, Debug, PartialEq)]
pub enum AB {
    Simple(String),
    List(AM),
    Set(AM),
    Map(AM, AM),
    Struct(BTreeMap<String, AM>),
    Union(BTreeMap<String, AM>),
    Service { version: String, operations: Vec<String>, resources: Vec<String>, renames: BTreeMap<String, String> },
    Operation { input: Option<String>, output: Option<String>, errors: Vec<String> },
    Resource {
        identifiers: BTreeMap<String, String>,
        life: [Option<String>; 6], // create put read update delete list
        operations: Vec<String>,
        collection_operations: Vec<String>,
        resources: Vec<String>,
    },
    Unresolved,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AS {
    pub traits: ATraits,
    pub body: AB,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AModel {
    pub metadata: BTreeMap<String, AV>,
    pub shapes: BTreeMap<String, AS>,
}

pub const SIMPLE: [&str; 13] = [
    "blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "timestamp",
];
pub const KINDS: [&str; 10] = ["simple", "list", "set", "map", "structure", "union", "service", "operation", "resource", "unresolved"];

pub fn sid(s: &str) -> ShapeID {
    ShapeID::from_str(s).unwrap_or_else(|e| panic!("harness: {} is not a shape id: {}", s, e))
}
pub fn ident(s: &str) -> Identifier {
    Identifier::from_str(s).unwrap_or_else(|e| panic!("harness: {} is not an identifier: {}", s, e))
}

impl AV {
    pub fn to(&self) -> Value {
        match self {
            AV::Null => Value::None,
            AV::Arr(v) => Value::Array(v.iter().map(|x| x.to()).collect()),
            AV::Obj(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), v.to())).collect()),
            AV::Int(i) => Value::Number(Number::Integer(*i)),
            AV::Flt(f) => Value::Number(Number::Float(*f)),
            AV::Bool(b) => Value::Boolean(*b),
            AV::Str(s) => Value::String(s.clone()),
        }
    }
    pub fn from(v: &Value) -> AV {
        match v {
            Value::None => AV::Null,
            Value::Array(v) => AV::Arr(v.iter().map(AV::from).collect()),
            Value::Object(m) => AV::Obj(m.iter().map(|(k, v)| (k.clone(), AV::from(v))).collect()),
            Value::Number(Number::Integer(i)) => AV::Int(*i),
            Value::Number(Number::Float(f)) => AV::Flt(*f),
            Value::Boolean(b) => AV::Bool(*b),
            Value::String(s) => AV::Str(s.clone()),
        }
    }
}

pub fn traits_to(t: &ATraits) -> HashMap<ShapeID, Option<Value>> {
    t.iter().map(|(k, v)| (sid(k), v.as_ref().map(|v| v.to()))).collect()
}
pub fn traits_from(t: &AppliedTraits) -> ATraits {
    t.iter().map(|(k, v)| (k.to_string(), v.as_ref().map(AV::from))).collect()
}
impl AM {
    pub fn new(name: &str, target: &str) -> AM {
        AM { name: name.to_string(), target: target.to_string(), traits: ATraits::new() }
    }
    pub fn to(&self) -> MemberShape {
        MemberShape::with_traits(ident(&self.name), sid(&self.target), traits_to(&self.traits))
    }
    pub fn from(m: &MemberShape) -> AM {
        AM { name: m.id().to_string(), target: m.target().to_string(), traits: traits_from(m.traits()) }
    }
}
fn ids(v: &[String]) -> Vec<ShapeID> {
    v.iter().map(|s| sid(s)).collect()
}
impl AB {
    pub fn kind(&self) -> &'static str {
        match self {
            AB::Simple(_) => "simple",
            AB::List(_) => "list",
            AB::Set(_) => "set",
            AB::Map(..) => "map",
            AB::Struct(_) => "structure",
            AB::Union(_) => "union",
            AB::Service { .. } => "service",
            AB::Operation { .. } => "operation",
            AB::Resource { .. } => "resource",
            AB::Unresolved => "unresolved",
        }
    }
    pub fn to(&self) -> ShapeKind {
        match self {
            AB::Simple(s) => ShapeKind::Simple(simple(s)),
            AB::List(m) => ShapeKind::List(ListOrSet::from(m.to())),
            AB::Set(m) => ShapeKind::Set(ListOrSet::from(m.to())),
            AB::Map(k, v) => ShapeKind::Map(Map::from(k.to(), v.to())),
            AB::Struct(ms) => ShapeKind::Structure(StructureOrUnion::with_members(&ms.values().map(|m| m.to()).collect::<Vec<_>>())),
            AB::Union(ms) => ShapeKind::Union(StructureOrUnion::with_members(&ms.values().map(|m| m.to()).collect::<Vec<_>>())),
            AB::Service { version, operations, resources, renames } => {
                let mut s = Service::new(version);
                s.set_operations(&ids(operations));
                s.set_resources(&ids(resources));
                s.set_renames(renames.iter().map(|(k, v)| (sid(k), ident(v))).collect());
                ShapeKind::Service(s)
            }
            AB::Operation { input, output, errors } => {
                let mut o = Operation::default();
                if let Some(i) = input {
                    o.set_input(sid(i));
                }
                if let Some(i) = output {
                    o.set_output(sid(i));
                }
                o.set_errors(&ids(errors));
                ShapeKind::Operation(o)
            }
            AB::Resource { identifiers, life, operations, collection_operations, resources } => {
                let mut r = Resource::default();
                r.set_identifiers(identifiers.iter().map(|(k, v)| (ident(k), sid(v))).collect());
                if let Some(x) = &life[0] {
                    r.set_create(sid(x));
                }
                if let Some(x) = &life[1] {
                    r.set_put(sid(x));
                }
                if let Some(x) = &life[2] {
                    r.set_read(sid(x));
                }
                if let Some(x) = &life[3] {
                    r.set_update(sid(x));
                }
                if let Some(x) = &life[4] {
                    r.set_delete(sid(x));
                }
                if let Some(x) = &life[5] {
                    r.set_list(sid(x));
                }
                r.set_operations(&ids(operations));
                r.set_collection_operations(&ids(collection_operations));
                r.set_resources(&ids(resources));
                ShapeKind::Resource(r)
            }
            AB::Unresolved => ShapeKind::Unresolved,
        }
    }
    pub fn from(k: &ShapeKind) -> AB {
        fn strs<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<String> {
            i.map(|s| s.to_string()).collect()
        }
        fn opt(o: &Option<ShapeID>) -> Option<String> {
            o.as_ref().map(|s| s.to_string())
        }
        match k {
            ShapeKind::Simple(s) => AB::Simple(simple_name(s).to_string()),
            ShapeKind::List(l) => AB::List(AM::from(l.member())),
            ShapeKind::Set(l) => AB::Set(AM::from(l.member())),
            ShapeKind::Map(m) => AB::Map(AM::from(m.key()), AM::from(m.value())),
            ShapeKind::Structure(s) => AB::Struct(s.members().map(|m| (m.id().to_string(), AM::from(m))).collect()),
            ShapeKind::Union(s) => AB::Union(s.members().map(|m| (m.id().to_string(), AM::from(m))).collect()),
            ShapeKind::Service(s) => AB::Service {
                version: s.version().clone(),
                operations: strs(s.operations()),
                resources: strs(s.resources()),
                renames: s.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            },
            ShapeKind::Operation(o) => AB::Operation { input: opt(o.input()), output: opt(o.output()), errors: strs(o.errors()) },
            ShapeKind::Resource(r) => AB::Resource {
                identifiers: r.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                life: [opt(r.create()), opt(r.put()), opt(r.read()), opt(r.update()), opt(r.delete()), opt(r.list())],
                operations: strs(r.operations()),
                collection_operations: strs(r.collection_operations()),
                resources: strs(r.resources()),
            },
            ShapeKind::Unresolved => AB::Unresolved,
        }
    }
    /// (name, member) pairs
    pub fn members(&self) -> Vec<&AM> {
        match self {
            AB::List(m) | AB::Set(m) => vec![m],
            AB::Map(k, v) => vec![k, v],
            AB::Struct(ms) | AB::Union(ms) => ms.values().collect(),
            _ => vec![],
        }
    }
    pub fn members_mut(&mut self) -> Vec<&mut AM> {
        match self {
            AB::List(m) | AB::Set(m) => vec![m],
            AB::Map(k, v) => vec![k, v],
            AB::Struct(ms) | AB::Union(ms) => ms.values_mut().collect(),
            _ => vec![],
        }
    }
    pub fn without_traits(&self) -> AB {
        let mut b = self.clone();
        for m in b.members_mut() {
            m.traits.clear();
        }
        b
    }
}
pub fn simple(s: &str) -> Simple {
    match s {
        "blob" => Simple::Blob,
        "boolean" => Simple::Boolean,
        "document" => Simple::Document,
        "string" => Simple::String,
        "byte" => Simple::Byte,
        "short" => Simple::Short,
        "integer" => Simple::Integer,
        "long" => Simple::Long,
        "float" => Simple::Float,
        "double" => Simple::Double,
        "bigInteger" => Simple::BigInteger,
        "bigDecimal" => Simple::BigDecimal,
        "timestamp" => Simple::Timestamp,
        _ => panic!("harness: no simple shape {}", s),
    }
}
pub fn simple_name(s: &Simple) -> &'static str {
    match s {
        Simple::Blob => "blob",
        Simple::Boolean => "boolean",
        Simple::Document => "document",
        Simple::String => "string",
        Simple::Byte => "byte",
        Simple::Short => "short",
        Simple::Integer => "integer",
        Simple::Long => "long",
        Simple::Float => "float",
        Simple::Double => "double",
        Simple::BigInteger => "bigInteger",
        Simple::BigDecimal => "bigDecimal",
        Simple::Timestamp => "timestamp",
    }
}
impl AS {
    pub fn new(body: AB) -> AS {
        AS { traits: ATraits::new(), body }
    }
    pub fn to(&self, id: &str) -> TopLevelShape {
        TopLevelShape::with_traits(sid(id), self.body.to(), traits_to(&self.traits))
    }
    pub fn from(s: &TopLevelShape) -> AS {
        AS { traits: traits_from(s.traits()), body: AB::from(s.body()) }
    }
}
impl AModel {
    /// Builds the model; the shapes of an `AModel` have pairwise different ids, so no conflict resolution takes place.
    pub fn to(&self) -> Model {
        self.to_in_order(&self.shapes.keys().cloned().collect::<Vec<_>>())
    }
    pub fn to_in_order(&self, order: &[String]) -> Model {
        let mut m = Model::new(Version::current());
        for (k, v) in &self.metadata {
            m.add_metadata(k.clone(), v.to()).expect("harness: add_metadata to an empty key");
        }
        for k in order {
            m.add_shape(self.shapes[k].to(k)).expect("harness: add_shape with a fresh id");
        }
        m
    }
    pub fn from(m: &Model) -> AModel {
        AModel {
            metadata: m.metadata().map(|(k, v)| (k.clone(), AV::from(v))).collect(),
            shapes: m.shapes().map(|s| (s.id().to_string(), AS::from(s))).collect(),
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generation

/// What the generator may produce.
#[derive(Clone, Debug)]
pub struct GenCfg {
    pub shapes: usize,
    pub namespaces: Vec<&'static str>,
    pub floats: bool,
    pub nulls: bool,
    pub none_traits: bool,
    pub weird_strings: bool,
    pub unresolved: bool,
    pub metadata: bool,
    pub depth: usize,
    pub reuse: usize,
}
impl Default for GenCfg {
    fn default() -> GenCfg {
        GenCfg {
            shapes: 6,
            namespaces: vec!["example.alpha", "example.beta", "a"],
            floats: true,
            nulls: true,
            none_traits: true,
            weird_strings: true,
            unresolved: true,
            metadata: true,
            depth: 3,
            reuse: 3,
        }
    }
}

pub const STRINGS: [&str; 14] = [
    "", "a", "hello world", "\"quoted\"", "back\\slash", "line\nbreak", "tab\there", "snow\u{2603}man", "'single'", "{\"k\": 1}", "true", "12", "smithy.api#String", "a,b;c=d",
];

pub fn gen_name(r: &mut Rng, upper: bool) -> String {
    const W: [&str; 12] = ["city", "weather", "list", "forecast", "name", "id", "thing", "item", "value", "x", "structure", "number"];
    let mut s = String::new();
    for i in 0..1 + r.below(2) {
        let w = *r.pick(&W);
        if i > 0 || upper {
            s.push_str(&w[..1].to_uppercase());
            s.push_str(&w[1..]);
        } else {
            s.push_str(w);
        }
    }
    if r.chance(1, 6) {
        s.push_str(&format!("{}", r.below(10)));
    }
    if r.chance(1, 12) {
        s = format!("_{}", s);
    }
    if r.chance(1, 12) {
        s.push('_');
    }
    s
}
pub fn gen_string(r: &mut Rng, c: &GenCfg) -> String {
    if c.weird_strings && r.chance(1, 3) {
        r.pick(&STRINGS).to_string()
    } else {
        gen_name(r, false)
    }
}
pub fn gen_int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i64::MAX - r.below(3) as i64,
        4 => i64::MIN + r.below(3) as i64,
        _ => r.next() as i64 >> r.below(63),
    }
}
pub fn gen_float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => 0.5,
        1 => -1.25e10,
        2 => 1.0,
        3 => 0.1 + 0.2,
        _ => (r.below(2_000_000) as f64 - 1_000_000.0) / 1024.0,
    }
}
pub fn gen_value(r: &mut Rng, c: &GenCfg, depth: usize) -> AV {
    let n = if depth == 0 { 5 } else { 7 };
    match r.below(n) {
        0 => AV::Int(gen_int(r)),
        1 if c.floats => AV::Flt(gen_float(r)),
        2 => AV::Bool(r.chance(1, 2)),
        3 if c.nulls => AV::Null,
        5 => AV::Arr((0..r.below(4)).map(|_| gen_value(r, c, depth - 1)).collect()),
        6 => AV::Obj((0..r.below(4)).map(|_| (gen_string(r, c), gen_value(r, c, depth - 1))).collect()),
        _ => AV::Str(gen_string(r, c)),
    }
}
/// distinct even when compared without case
pub fn insert_ci<V>(m: &mut BTreeMap<String, V>, k: String, v: V) {
    if !m.keys().any(|x| x.eq_ignore_ascii_case(&k)) {
        m.insert(k, v);
    }
}
pub const PRELUDE_TRAITS: [&str; 12] = [
    "documentation", "deprecated", "required", "sensitive", "tags", "box", "length", "pattern", "readonly", "private", "title", "since",
];
pub fn gen_traits(r: &mut Rng, c: &GenCfg) -> ATraits {
    let mut t = ATraits::new();
    if r.chance(1, 2) {
        return t;
    }
    for _ in 0..r.below(4) {
        let id = if r.chance(2, 3) {
            format!("smithy.api#{}", r.pick(&PRELUDE_TRAITS))
        } else {
            format!("{}#{}", r.pick(&c.namespaces), gen_name(r, false))
        };
        let v = if c.none_traits && r.chance(1, 3) { None } else { Some(gen_value(r, c, c.depth.saturating_sub(1))) };
        insert_ci(&mut t, id, v);
    }
    t
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: GenCfg,
    pub pool: Vec<String>,
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: GenCfg) -> Gen<'a> {
        Gen { r, c, pool: vec![] }
    }
    pub fn shape_id(&mut self) -> String {
        format!("{}#{}", self.r.pick(&self.c.namespaces.clone()), gen_name(self.r, true))
    }
    /// some shape id: of this model, of the prelude, or dangling
    pub fn target(&mut self) -> String {
        match self.r.below(6) {
            0 => format!("smithy.api#{}", self.r.pick(&["String", "Integer", "Blob", "Boolean", "Timestamp", "PrimitiveLong"])),
            1 => self.shape_id(),
            _ if !self.pool.is_empty() => self.r.pick(&self.pool.clone()).clone(),
            _ => "smithy.api#String".to_string(),
        }
    }
    pub fn member(&mut self, name: &str) -> AM {
        AM { name: name.to_string(), target: self.target(), traits: gen_traits(self.r, &self.c.clone()) }
    }
    pub fn members(&mut self) -> BTreeMap<String, AM> {
        let mut ms = BTreeMap::new();
        for _ in 0..self.r.below(5) {
            let n = gen_name(self.r, false);
            let m = self.member(&n);
            insert_ci(&mut ms, n, m);
        }
        ms
    }
    pub fn targets(&mut self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for _ in 0..self.r.below(4) {
            let t = self.target();
            if !v.contains(&t) {
                v.push(t);
            }
        }
        v
    }
    pub fn opt(&mut self) -> Option<String> {
        if self.r.chance(1, 2) {
            Some(self.target())
        } else {
            None
        }
    }
    pub fn body(&mut self) -> AB {
        let n = if self.c.unresolved { 10 } else { 9 };
        let k = KINDS[self.r.below(n)];
        self.body_of(k)
    }
    pub fn body_of(&mut self, kind: &str) -> AB {
        match kind {
            "simple" => AB::Simple(self.r.pick(&SIMPLE).to_string()),
            "list" => AB::List(self.member("member")),
            "set" => AB::Set(self.member("member")),
            "map" => AB::Map(self.member("key"), self.member("value")),
            "structure" => AB::Struct(self.members()),
            "union" => AB::Union(self.members()),
            "service" => {
                let mut renames = BTreeMap::new();
                for _ in 0..self.r.below(3) {
                    let t = self.target();
                    let n = gen_name(self.r, true);
                    insert_ci(&mut renames, t, n);
                }
                AB::Service {
                    version: self.r.pick(&["1.0", "2020-01-01", "v", "2020-01-01", "1.0", " 1", "1 \n", "\"é\\", "v::1<=", "A"]).to_string(),
                    operations: self.targets(),
                    resources: self.targets(),
                    renames,
                }
            }
            "operation" => AB::Operation { input: self.opt(), output: self.opt(), errors: self.targets() },
            "resource" => {
                let mut identifiers = BTreeMap::new();
                for _ in 0..self.r.below(3) {
                    let n = gen_name(self.r, false);
                    let t = self.target();
                    insert_ci(&mut identifiers, n, t);
                }
                AB::Resource {
                    identifiers,
                    life: [self.opt(), self.opt(), self.opt(), self.opt(), self.opt(), self.opt()],
                    operations: self.targets(),
                    collection_operations: self.targets(),
                    resources: self.targets(),
                }
            }
            _ => AB::Unresolved,
        }
    }
    pub fn shape(&mut self) -> AS {
        let body = self.body();
        AS { traits: gen_traits(self.r, &self.c.clone()), body }
    }
    pub fn model(&mut self) -> AModel {
        let mut m = AModel::default();
        if self.c.metadata {
            for _ in 0..self.r.below(4) {
                let k = gen_string(self.r, &self.c.clone());
                let v = gen_value(self.r, &self.c.clone(), self.c.depth);
                m.metadata.insert(k, v);
            }
        }
        let n = self.r.below(self.c.shapes + 1);
        for _ in 0..n {
            let id = self.shape_id();
            self.pool.push(id);
        }
        for id in self.pool.clone() {
            let s = self.shape();
            insert_ci(&mut m.shapes, id, s);
        }
        m
    }
}
