//! C11 JSON AST round trip, C12 the JSON reader.
use super::identity::{ident_ok, shape_parts};
use crate::am::*;
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::io::{ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_json::{model_to_json, JsonReader, JsonWriter};
use serde_json::{json, Map, Number, Value};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- the JSON AST, written from its specification

fn val(v: &AV) -> Value {
    match v {
        AV::Null => Value::Null,
        AV::Arr(v) => Value::Array(v.iter().map(val).collect()),
        AV::Obj(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), val(v))).collect()),
        AV::Int(i) => Value::Number(Number::from(*i)),
        AV::Flt(f) => Value::Number(Number::from_f64(*f).unwrap()),
        AV::Bool(b) => Value::Bool(*b),
        AV::Str(s) => Value::String(s.clone()),
    }
}
fn put_traits(m: &mut Map<String, Value>, t: &ATraits) {
    if !t.is_empty() {
        let o = t.iter().map(|(k, v)| (k.clone(), v.as_ref().map(val).unwrap_or(json!({})))).collect();
        m.insert("traits".to_string(), Value::Object(o));
    }
}
fn member(m: &AM) -> Value {
    let mut o = Map::new();
    o.insert("target".to_string(), json!(m.target));
    put_traits(&mut o, &m.traits);
    Value::Object(o)
}
fn list(o: &mut Map<String, Value>, k: &str, v: &[String]) {
    if !v.is_empty() {
        o.insert(k.to_string(), Value::Array(v.iter().map(|t| json!({ "target": t })).collect()));
    }
}
fn one(o: &mut Map<String, Value>, k: &str, v: &Option<String>) {
    if let Some(t) = v {
        o.insert(k.to_string(), json!({ "target": t }));
    }
}
const LIFE: [&str; 6] = ["create", "put", "read", "update", "delete", "list"];
fn shape(s: &AS) -> Value {
    let mut o = Map::new();
    put_traits(&mut o, &s.traits);
    let kind = match &s.body {
        AB::Simple(k) => k.as_str(),
        AB::Unresolved => "apply",
        b => b.kind(),
    };
    o.insert("type".to_string(), json!(kind));
    match &s.body {
        AB::Simple(_) | AB::Unresolved => {}
        AB::List(m) | AB::Set(m) => {
            o.insert("member".to_string(), member(m));
        }
        AB::Map(k, v) => {
            o.insert("key".to_string(), member(k));
            o.insert("value".to_string(), member(v));
        }
        AB::Struct(ms) | AB::Union(ms) => {
            if !ms.is_empty() {
                o.insert("members".to_string(), Value::Object(ms.iter().map(|(k, m)| (k.clone(), member(m))).collect()));
            }
        }
        AB::Service { version, operations, resources, renames } => {
            o.insert("version".to_string(), json!(version));
            list(&mut o, "operations", operations);
            list(&mut o, "resources", resources);
            if !renames.is_empty() {
                o.insert("rename".to_string(), json!(renames));
            }
        }
        AB::Operation { input, output, errors } => {
            one(&mut o, "input", input);
            one(&mut o, "output", output);
            list(&mut o, "errors", errors);
        }
        AB::Resource { identifiers, life, operations, collection_operations, resources } => {
            if !identifiers.is_empty() {
                o.insert("identifiers".to_string(), Value::Object(identifiers.iter().map(|(k, t)| (k.clone(), json!({ "target": t }))).collect()));
            }
            for (k, t) in LIFE.iter().zip(life.iter()) {
                one(&mut o, k, t);
            }
            list(&mut o, "operations", operations);
            list(&mut o, "collectionOperations", collection_operations);
            list(&mut o, "resources", resources);
        }
    }
    Value::Object(o)
}
fn doc(m: &AModel) -> Value {
    let mut o = Map::new();
    o.insert("smithy".to_string(), json!("1.0"));
    if !m.metadata.is_empty() {
        o.insert("metadata".to_string(), Value::Object(m.metadata.iter().map(|(k, v)| (k.clone(), val(v))).collect()));
    }
    o.insert("shapes".to_string(), Value::Object(m.shapes.iter().map(|(k, s)| (k.clone(), shape(s))).collect()));
    Value::Object(o)
}
/// what a document says, if it says anything; the flag: ids or names that differ only in case, of which either may win
struct Reading {
    clash: bool,
}
impl Reading {
    fn value(&mut self, j: &Value) -> AV {
        match j {
            Value::Null => AV::Null,
            Value::Bool(b) => AV::Bool(*b),
            Value::Number(n) => match n.as_i64() {
                Some(i) => AV::Int(i),
                None => AV::Flt(n.as_f64().unwrap()),
            },
            Value::String(s) => AV::Str(s.clone()),
            Value::Array(v) => AV::Arr(v.iter().map(|x| self.value(x)).collect()),
            Value::Object(o) => AV::Obj(o.iter().map(|(k, v)| (k.clone(), self.value(v))).collect()),
        }
    }
    fn note<'a>(&mut self, keys: impl Iterator<Item = &'a String>) {
        let mut v: Vec<String> = keys.map(|k| k.to_ascii_lowercase()).collect();
        v.sort();
        let n = v.len();
        v.dedup();
        self.clash = self.clash || v.len() != n;
    }
    /// the traits of a shape or member; a trait is not the member of a shape
    fn traits(&mut self, j: Option<&Value>) -> Option<ATraits> {
        let mut t = ATraits::new();
        if let Some(Value::Object(o)) = j {
            self.note(o.keys());
            for (k, v) in o {
                if shape_parts(k)?.2.is_some() {
                    return None;
                }
                t.insert(k.clone(), Some(self.value(v)));
            }
        }
        Some(t)
    }
    fn id(&self, s: &str) -> Option<String> {
        shape_parts(s).map(|_| s.to_string())
    }
    fn target(&self, j: &Value) -> Option<String> {
        self.id(j.get("target")?.as_str()?)
    }
    fn opt(&self, j: Option<&Value>) -> Option<Option<String>> {
        match j {
            None => Some(None),
            Some(j) => self.target(j).map(Some),
        }
    }
    fn list(&self, j: Option<&Value>) -> Option<Vec<String>> {
        match j {
            None => Some(vec![]),
            Some(Value::Array(v)) => v.iter().map(|x| self.target(x)).collect(),
            Some(_) => None,
        }
    }
    fn object<'a>(&self, j: Option<&'a Value>) -> Option<Option<&'a Map<String, Value>>> {
        match j {
            None => Some(None),
            Some(Value::Object(o)) => Some(Some(o)),
            Some(_) => None,
        }
    }
    fn member(&mut self, name: &str, j: Option<&Value>) -> Option<AM> {
        let j = j?;
        Some(AM { name: name.to_string(), target: self.target(j)?, traits: self.traits(j.get("traits"))? })
    }
    fn members(&mut self, j: Option<&Value>) -> Option<BTreeMap<String, AM>> {
        let mut ms = BTreeMap::new();
        if let Some(Value::Object(o)) = j {
            self.note(o.keys());
            for (k, v) in o {
                if !ident_ok(k) {
                    return None;
                }
                ms.insert(k.clone(), self.member(k, Some(v))?);
            }
        }
        Some(ms)
    }
    fn body(&mut self, j: &Value) -> Option<AB> {
        let kind = j.get("type")?.as_str()?;
        if SIMPLE.contains(&kind) {
            return Some(AB::Simple(kind.to_string()));
        }
        Some(match kind {
            "apply" => AB::Unresolved,
            "list" => AB::List(self.member("member", j.get("member"))?),
            "set" => AB::Set(self.member("member", j.get("member"))?),
            "map" => AB::Map(self.member("key", j.get("key"))?, self.member("value", j.get("value"))?),
            "structure" => AB::Struct(self.members(j.get("members"))?),
            "union" => AB::Union(self.members(j.get("members"))?),
            "service" => {
                let version = j.get("version")?.as_str()?.to_string();
                if version.is_empty() {
                    return None;
                }
                let mut renames = BTreeMap::new();
                if let Some(o) = self.object(j.get("rename"))? {
                    self.note(o.keys());
                    for (k, v) in o {
                        let v = v.as_str()?;
                        if !ident_ok(v) {
                            return None;
                        }
                        renames.insert(self.id(k)?, v.to_string());
                    }
                }
                AB::Service { version, operations: self.list(j.get("operations"))?, resources: self.list(j.get("resources"))?, renames }
            }
            "operation" => AB::Operation { input: self.opt(j.get("input"))?, output: self.opt(j.get("output"))?, errors: self.list(j.get("errors"))? },
            "resource" => {
                let mut identifiers = BTreeMap::new();
                if let Some(o) = self.object(j.get("identifiers"))? {
                    self.note(o.keys());
                    for (k, v) in o {
                        if !ident_ok(k) {
                            return None;
                        }
                        identifiers.insert(k.clone(), self.target(v)?);
                    }
                }
                let mut life: [Option<String>; 6] = Default::default();
                for (k, l) in LIFE.iter().zip(life.iter_mut()) {
                    *l = self.opt(j.get(*k))?;
                }
                AB::Resource {
                    identifiers,
                    life,
                    operations: self.list(j.get("operations"))?,
                    collection_operations: self.list(j.get("collectionOperations"))?,
                    resources: self.list(j.get("resources"))?,
                }
            }
            _ => return None,
        })
    }
    fn model(&mut self, j: &Value) -> Option<AModel> {
        let o = j.as_object()?;
        if !["1", "1.0"].contains(&o.get("smithy")?.as_str()?) {
            return None;
        }
        let mut m = AModel::default();
        if let Some(Value::Object(o)) = o.get("metadata") {
            m.metadata = o.iter().map(|(k, v)| (k.clone(), self.value(v))).collect();
        }
        if let Some(Value::Object(o)) = o.get("shapes") {
            self.note(o.keys());
            for (k, v) in o {
                let member = shape_parts(k)?.2.is_some();
                let s = AS { traits: self.traits(v.get("traits"))?, body: self.body(v)? };
                if member && s.body != AB::Unresolved {
                    return None;
                }
                m.shapes.insert(k.clone(), s);
            }
        }
        Some(m)
    }
}

// ---------------------------------------------------------------- C11

/// JSON has no trait without a value
fn with_values(t: &mut ATraits) {
    for v in t.values_mut() {
        if v.is_none() {
            *v = Some(AV::Obj(BTreeMap::new()));
        }
    }
}
fn expressed(m: &AModel) -> AModel {
    let mut m = m.clone();
    for s in m.shapes.values_mut() {
        with_values(&mut s.traits);
        for x in s.body.members_mut() {
            with_values(&mut x.traits);
        }
    }
    m
}
fn read(text: &[u8]) -> Result<Model, String> {
    JsonReader::default().read(&mut &text[..]).map_err(|e| e.to_string())
}
fn written(m: &Model, pretty: bool) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut w = if pretty { JsonWriter::new(true) } else { JsonWriter::default() };
    w.write(&mut out, m).map_err(|e| e.to_string())?;
    Ok(out)
}
fn trip(a: &AModel) -> Res {
    let q = format!("{:?}", a);
    let m = a.to();
    let j = model_to_json(&m);
    ensure!(j == doc(a), &q, doc(a), j);
    for pretty in [false, true].iter() {
        let text = match written(&m, *pretty) {
            Ok(t) => t,
            Err(e) => return crate::fail(&q, "the model is written", e),
        };
        let s = String::from_utf8_lossy(&text).to_string();
        ensure!(serde_json::from_slice::<Value>(&text).ok() == Some(doc(a)), &q, doc(a), s);
        match read(&text) {
            Ok(n) => {
                let got = AModel::from(&n);
                ensure!(got == expressed(a), &q, format!("{:?}", expressed(a)), format!("{:?} from {}", got, s));
                ensure!(written(&n, *pretty).ok() == Some(text), &q, "the same text when written again", "another");
            }
            Err(e) => return crate::fail(&q, "a model that can be read", format!("{} from {}", e, s)),
        }
    }
    Ok(format!("{} shapes", a.shapes.len()))
}
fn gen(r: &mut Rng) -> AModel {
    let shapes = if r.chance(1, 20) { 60 } else { 7 };
    let mut g = Gen::new(r, GenCfg { shapes, depth: 4, ..GenCfg::default() });
    let mut a = g.model();
    if g.r.chance(1, 4) {
        let id = format!("{}${}", g.shape_id(), gen_name(g.r, false));
        let c = g.c.namespaces.clone();
        let t = gen_traits(g.r, &GenCfg { namespaces: c, ..GenCfg::default() });
        insert_ci(&mut a.shapes, id, AS { traits: t, body: AB::Unresolved });
    }
    a
}
fn round(_c: u64, r: &mut Rng) -> Res {
    trip(&gen(r))
}
/// every combination of present and absent parts of every kind of shape
fn parts(c: u64, r: &mut Rng) -> Res {
    let mut a = AModel::default();
    let mut bit = 0;
    let mut on = || {
        bit += 1;
        c >> (bit - 1) & 1 == 1
    };
    let t = |s: &str| format!("ns.x#{}", s);
    let l = |b: bool, n: usize, s: &str| (0..if b { n } else { 0 }).map(|i| format!("ns.x#{}{}", s, i)).collect::<Vec<_>>();
    let body = AB::Resource {
        identifiers: if on() { vec![("id".to_string(), t("I")), ("_id2".to_string(), t("J"))].into_iter().collect() } else { BTreeMap::new() },
        life: [
            if on() { Some(t("C")) } else { None },
            if on() { Some(t("P")) } else { None },
            if on() { Some(t("R")) } else { None },
            if on() { Some(t("U")) } else { None },
            if on() { Some(t("D")) } else { None },
            if on() { Some(t("L")) } else { None },
        ],
        operations: l(on(), 2, "O"),
        collection_operations: l(on(), 1, "K"),
        resources: l(on(), 3, "S"),
    };
    a.shapes.insert(t("Res"), AS::new(body));
    let body = AB::Service {
        version: r.pick(&["1", "2020-01-01", "\"", " "]).to_string(),
        operations: l(on(), 2, "O"),
        resources: l(on(), 1, "S"),
        renames: if on() { vec![(t("X"), "Y".to_string()), (t("X$m"), "_z".to_string())].into_iter().collect() } else { BTreeMap::new() },
    };
    a.shapes.insert(t("Ser"), AS::new(body));
    let body = AB::Operation { input: if on() { Some(t("In")) } else { None }, output: if on() { Some(t("Out")) } else { None }, errors: l(on(), 2, "E") };
    a.shapes.insert(t("Op"), AS::new(body));
    let all = on();
    for k in &SIMPLE {
        a.shapes.insert(t(&format!("s_{}", k)), AS::new(AB::Simple(k.to_string())));
    }
    let mut m = AM::new("member", &t("M"));
    let (mut k, mut v) = (AM::new("key", &t("K")), AM::new("value", "smithy.api#String$x"));
    let mut ms = BTreeMap::new();
    if all {
        m.traits.insert(t("tr"), None);
        k.traits.insert(t("tr"), Some(AV::Arr(vec![AV::Null])));
        v.traits.insert(t("tr"), Some(AV::Obj(BTreeMap::new())));
        for n in &["target", "traits", "type", "members", "_a1"] {
            let mut x = AM::new(n, &t(n));
            x.traits.insert(t(n), Some(AV::Null));
            ms.insert(n.to_string(), x);
        }
    }
    a.shapes.insert(t("L"), AS::new(AB::List(m.clone())));
    a.shapes.insert(t("Se"), AS::new(AB::Set(m)));
    a.shapes.insert(t("M"), AS::new(AB::Map(k, v)));
    a.shapes.insert(t("St"), AS::new(AB::Struct(ms.clone())));
    a.shapes.insert(t("Un"), AS::new(AB::Union(ms)));
    a.shapes.insert(t("Ap"), AS::new(AB::Unresolved));
    if all {
        for s in a.shapes.values_mut() {
            s.traits.insert(t("tr"), if r.chance(1, 2) { None } else { Some(AV::Str(String::new())) });
        }
    }
    trip(&a)
}
/// values at the edges, in metadata, in the traits of shapes and of members
fn values(_c: u64, r: &mut Rng) -> Res {
    let mut a = AModel::default();
    let c = GenCfg { depth: 6, ..GenCfg::default() };
    let v = match r.below(6) {
        0 => AV::Int(*r.pick(&[i64::MIN, i64::MAX, 0, -1, 1 << 53, (1 << 53) + 1])),
        1 => AV::Flt(*r.pick(&[0.0, -0.0, 1.0, 1e15, 1e16, 9007199254740993.0, 1e-7, 9.3e18, 1.8e19, 1e300, -2.5e-300])),
        2 => AV::Str((0..r.below(6)).map(|_| *r.pick(&['\0', '"', '\\', '/', '\u{7f}', '\u{2028}', '\u{10ffff}', 'a', '\u{e9}', '\n'])).collect()),
        3 => (0..r.below(100)).fold(gen_value(r, &c, 0), |x, i| if i % 2 == 0 { AV::Arr(vec![x]) } else { AV::Obj(vec![(format!("k{}", i), x)].into_iter().collect()) }),
        _ => gen_value(r, &c, 6),
    };
    a.metadata.insert(r.pick(&["k", "", "K", "\u{e9}\"", "shapes"]).to_string(), v.clone());
    a.metadata.insert("k2".to_string(), gen_value(r, &c, 2));
    let mut s = AS::new(AB::Simple("string".to_string()));
    s.traits.insert("a#t".to_string(), Some(v.clone()));
    a.shapes.insert("a#S".to_string(), s);
    let mut m = AM::new("member", "a#S");
    m.traits.insert("a#t".to_string(), Some(v));
    a.shapes.insert("a#L".to_string(), AS::new(AB::List(m)));
    trip(&a)
}
/// floats of any bits: the text is exact, serde_json reads it back to within the last digits (a finding, listed for the first of these)
fn floats(c: u64, r: &mut Rng) -> Res {
    let f = match c {
        0 => 5.3393698134882195e265,
        _ => Some(f64::from_bits(r.next())).filter(|f| f.is_finite()).unwrap_or(f64::MIN_POSITIVE),
    };
    let mut a = AModel::default();
    a.metadata.insert("k".to_string(), AV::Flt(f));
    let text = written(&a.to(), r.chance(1, 2)).unwrap_or_default();
    let q = format!("metadata k = {:e}", f);
    let s = String::from_utf8_lossy(&text).to_string();
    let n: String = s.chars().skip_while(|c| *c != 'k').skip(1).skip_while(|c| !"-0123456789".contains(*c)).take_while(|c| "+-.eE0123456789".contains(*c)).collect();
    ensure!(n.parse::<f64>().map(|g| g.to_bits()) == Ok(f.to_bits()), &q, f, s);
    match read(&text).map(|m| AModel::from(&m).metadata.remove("k")) {
        Ok(Some(AV::Flt(g))) if g.to_bits() == f.to_bits() => Ok("exact".to_string()),
        Ok(Some(AV::Flt(g))) if (g - f).abs() <= f.abs() * 1e-14 + 1e-320 => {
            if c == 0 {
                return Err(crate::Fail { key: "float-text".to_string(), input: q, expected: format!("{:e}", f), observed: format!("{:e} read back from {}", g, s) });
            }
            Ok("close".to_string())
        }
        x => crate::fail(&q, f, format!("{:?} read back from {}", x, s)),
    }
}
pub fn c11() -> Vec<Sub> {
    vec![
        Sub { name: "round", cases: (6_000, 300_000), what: "generated models: the document written, and what is read from its text, compact and pretty", run: round },
        Sub { name: "parts", cases: (1 << 13, 1 << 17), what: "every combination of present and absent parts of every kind of shape", run: parts },
        Sub { name: "values", cases: (10_000, 400_000), what: "values at the edges in metadata and traits", run: values },
        Sub { name: "floats", cases: (3_000, 300_000), what: "floats of any bits, read back to within 1e-14", run: floats },
    ]
}

// ---------------------------------------------------------------- C12

fn answer(text: &[u8]) -> Res {
    let q = String::from_utf8_lossy(text).to_string();
    let got = read(text).map(|m| AModel::from(&m));
    match serde_json::from_slice::<Value>(text) {
        Ok(j) => {
            let mut g = Reading { clash: false };
            match (g.model(&j), got) {
                (Some(_), Ok(_)) if g.clash => Ok("clash".to_string()),
                (Some(want), Ok(got)) => {
                    ensure!(got == want, &q, format!("{:?}", want), format!("{:?}", got));
                    Ok("accepted".to_string())
                }
                (None, Err(_)) => Ok("refused".to_string()),
                (Some(_), Err(_)) if g.clash => Ok("clash".to_string()),
                (None, Ok(_)) if g.clash => Ok("clash".to_string()),
                (Some(_), Err(e)) => crate::fail(&q, "accepted", e),
                (None, Ok(m)) => crate::fail(&q, "refused", format!("{:?}", m)),
            }
        }
        Err(_) => {
            ensure!(got.is_err(), &q, "refused: not JSON", "accepted");
            Ok(String::new())
        }
    }
}
fn count(j: &Value) -> usize {
    1 + match j {
        Value::Array(v) => v.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn nth<'a>(j: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        Value::Array(v) => v.iter_mut().find_map(|x| nth(x, n)),
        Value::Object(o) => o.values_mut().find_map(|x| nth(x, n)),
        _ => None,
    }
}
const KEYS: [&str; 34] = [
    "smithy", "metadata", "shapes", "traits", "type", "target", "members", "member", "key", "value", "version", "operations", "resources", "rename", "input", "output", "errors",
    "identifiers", "create", "put", "read", "update", "delete", "list", "collectionOperations", "example.alpha#City", "example.alpha#city", "a#B$c", "a#B$c$d", "#", "1x", "Type", "", "a b",
];
const TEXTS: [&str; 22] = [
    "list", "set", "map", "structure", "union", "service", "operation", "resource", "apply", "string", "bigInteger", "String", "member", "", "1.0", "1", "2.0", "smithy.api#String", "a#B$c",
    "a#", "x", "simple",
];
fn edit(r: &mut Rng, j: &mut Value) {
    let mut n = r.below(count(j));
    let x = nth(j, &mut n).unwrap();
    match x {
        Value::Object(o) if !o.is_empty() && r.chance(4, 5) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&keys).clone();
            match r.below(4) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let v = o.remove(&k).unwrap();
                    o.insert(r.pick(&KEYS).to_string(), v);
                }
                2 => {
                    let v = o[&k].clone();
                    o.insert(if r.chance(1, 2) { k.to_uppercase() } else { r.pick(&KEYS).to_string() }, v);
                }
                _ => {
                    o.insert(k, small(r));
                }
            }
        }
        Value::Array(v) if r.chance(1, 2) => {
            let s = small(r);
            v.push(s);
        }
        _ => *x = small(r),
    }
}
fn small(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(gen_int(r)),
        3 => json!(u64::MAX - r.below(5) as u64),
        4 => json!(gen_float(r)),
        5 => json!([]),
        6 => json!({}),
        7 => json!({ "target": r.pick(&TEXTS) }),
        8 => json!([{ "target": r.pick(&TEXTS) }]),
        _ => json!(r.pick(&TEXTS)),
    }
}
fn documents(_c: u64, r: &mut Rng) -> Res {
    let mut j = doc(&gen(r));
    for _ in 0..r.below(4) {
        edit(r, &mut j);
    }
    answer(serde_json::to_string(&j).unwrap().as_bytes())
}
/// one shape with every kind of value, or none, at every key its type knows
fn fields(_c: u64, r: &mut Rng) -> Res {
    let mut o = Map::new();
    if r.chance(19, 20) {
        o.insert("type".to_string(), json!(r.pick(&TEXTS)));
    }
    for k in KEYS[3..25].iter() {
        match r.below(7) {
            0 => {
                o.insert(k.to_string(), small(r));
            }
            1 => {
                o.insert(k.to_string(), json!({ "target": "a#B" }));
            }
            2 if !["type", "target", "version"].contains(k) => {
                o.insert(k.to_string(), json!([{ "target": "a#B" }, { "target": "a#C" }]));
            }
            3 if ["rename", "traits", "members", "identifiers"].contains(k) => {
                let v = r.pick(&[json!("B"), json!("1"), json!({ "target": "a#B" }), json!({ "target": "a#B", "traits": { "a#t": 1 } }), json!(null)]).clone();
                let key = *r.pick(&["a#B", "b", "a#B$c", "", "_"]);
                o.insert(k.to_string(), json!({ key: v }));
            }
            _ => {}
        }
    }
    if r.chance(1, 2) {
        o.insert("version".to_string(), json!("1"));
    }
    let key = *r.pick(&["a#X", "a#X", "a#X", "a#X$y", "X"]);
    answer(json!({ "smithy": "1.0", "shapes": { key: Value::Object(o) } }).to_string().as_bytes())
}
fn bytes(_c: u64, r: &mut Rng) -> Res {
    let j = doc(&gen(r));
    let mut t = if r.chance(1, 2) { serde_json::to_vec(&j).unwrap() } else { serde_json::to_vec_pretty(&j).unwrap() };
    for _ in 0..1 + r.below(3) {
        let i = r.below(t.len() + 1);
        match r.below(4) {
            0 => t.truncate(i),
            1 if i < t.len() => t[i] = *r.pick(&[b'"', b'{', b'}', b'[', b',', b':', b'0', b'-', b'e', b' ', 0, 0xff, 0xc3, b'\\']),
            2 if i < t.len() => {
                t.remove(i);
            }
            _ => t.insert(i, *r.pick(&[b'"', b'{', b'}', b']', b',', b'1', b'.', b'#', b'$', 0xe2])),
        }
    }
    answer(&t)
}
fn deep(c: u64, _r: &mut Rng) -> Res {
    let n = [1, 100, 120, 127, 128, 129, 1000, 100_000][(c % 8) as usize];
    let (open, close) = [("[", "]"), ("{\"a\":", "}")][(c / 8 % 2) as usize];
    let v = open.repeat(n) + "1" + &close.repeat(n);
    let text = match c / 16 % 3 {
        0 => v,
        1 => format!("{{\"smithy\":\"1.0\",\"metadata\":{{\"k\":{}}}}}", v),
        _ => format!("{{\"smithy\":\"1.0\",\"shapes\":{{\"a#B\":{{\"type\":\"string\",\"traits\":{{\"a#t\":{}}}}}}}}}", v),
    };
    answer(text.as_bytes()).map_err(|mut f| {
        f.input = f.input.chars().take(200).collect();
        f
    })
}
pub fn c12() -> Vec<Sub> {
    vec![
        Sub { name: "documents", cases: (20_000, 1_000_000), what: "documents of generated models with up to three edits of keys and values", run: documents },
        Sub { name: "fields", cases: (30_000, 1_500_000), what: "one shape with values of every kind, or none, at every key", run: fields },
        Sub { name: "bytes", cases: (15_000, 700_000), what: "the text of documents with bytes changed, added, removed or cut off", run: bytes },
        Sub { name: "deep", cases: (48, 48), what: "values nested up to 100000 deep", run: deep },
    ]
}
