//! C14: the line-oriented form, against the lines the documentation of the format prescribes.
use crate::am::*;
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::io::ModelWriter;
use std::io::Write;

fn value(p: &str, v: &AV, out: &mut Vec<String>) {
    match v {
        AV::Null => out.push(p.to_string() + "()"),
        AV::Arr(x) if x.is_empty() => out.push(p.to_string() + "[]"),
        AV::Obj(x) if x.is_empty() => out.push(p.to_string() + "{}"),
        AV::Arr(x) => {
            for (i, y) in x.iter().enumerate() {
                value(&(p.to_string() + "[" + &i.to_string() + "]="), y, out);
            }
        }
        AV::Obj(x) => {
            for (k, y) in x {
                value(&(p.to_string() + "{" + k + "}="), y, out);
            }
        }
        AV::Int(i) => out.push(p.to_string() + &i.to_string()),
        AV::Flt(f) => out.push(p.to_string() + &f.to_string()),
        AV::Bool(b) => out.push(p.to_string() + if *b { "true" } else { "false" }),
        AV::Str(s) => out.push(p.to_string() + "\"" + s + "\""),
    }
}
fn traits(p: &str, t: &ATraits, out: &mut Vec<String>) {
    for (k, v) in t {
        let q = p.to_string() + "::trait::" + k;
        match v {
            None => out.push(q),
            Some(v) => value(&(q + "<="), v, out),
        }
    }
}
fn member(p: &str, m: &AM, out: &mut Vec<String>) {
    let q = p.to_string() + "::" + &m.name;
    out.push(q.clone() + "=>" + &m.target);
    traits(&q, &m.traits, out);
}
pub fn lines(m: &AModel) -> Vec<String> {
    let mut out = vec![];
    for (k, v) in &m.metadata {
        value(&("meta::".to_string() + k + "<="), v, &mut out);
    }
    for (id, s) in &m.shapes {
        let p = match &s.body {
            AB::Simple(k) => k.clone(),
            b => b.kind().to_string(),
        } + "::"
            + id;
        out.push(p.clone());
        let mut target = |n: &str, t: &str| out.push(p.clone() + "::" + n + "=>" + t);
        match &s.body {
            AB::Simple(_) | AB::Unresolved => {}
            AB::List(x) | AB::Set(x) => member(&p, x, &mut out),
            AB::Map(k, v) => {
                member(&p, k, &mut out);
                member(&p, v, &mut out);
            }
            AB::Struct(ms) | AB::Union(ms) => ms.values().for_each(|x| member(&p, x, &mut out)),
            AB::Service { version, operations, resources, renames } => {
                operations.iter().for_each(|t| target("operation", t));
                resources.iter().for_each(|t| target("resource", t));
                out.push(p.clone() + "::version<=" + &format!("{:?}", version));
                for (k, v) in renames {
                    out.push(p.clone() + "::rename::" + k + "<=" + v);
                }
            }
            AB::Operation { input, output, errors } => {
                input.iter().for_each(|t| target("input", t));
                output.iter().for_each(|t| target("output", t));
                errors.iter().for_each(|t| target("error", t));
            }
            AB::Resource { identifiers, life, operations, collection_operations, resources } => {
                for (k, v) in identifiers {
                    target(&("identifier::".to_string() + k), v);
                }
                for (n, t) in ["create", "put", "read", "update", "delete", "list"].iter().zip(life) {
                    t.iter().for_each(|t| target(n, t));
                }
                operations.iter().for_each(|t| target("operation", t));
                collection_operations.iter().for_each(|t| target("collection_operation", t));
                resources.iter().for_each(|t| target("resource", t));
            }
        }
        traits(&p, &s.traits, &mut out);
    }
    out.sort_by(|a, b| a.chars().cmp(b.chars()));
    out
}
fn gen(r: &mut Rng) -> AModel {
    let shapes = if r.chance(1, 20) { 60 } else { 7 };
    let mut g = Gen::new(r, GenCfg { shapes, depth: 4, ..GenCfg::default() });
    let mut a = g.model();
    // a rename of what is not a shape
    for s in a.shapes.values_mut() {
        if let AB::Service { renames, .. } = &mut s.body {
            if g.r.chance(1, 4) {
                renames.insert(format!("{}$m{}", g.target().split('$').next().unwrap(), g.r.below(3)), "other".to_string());
            }
        }
    }
    if g.r.chance(1, 8) {
        let n = 10 + g.r.below(110);
        let v = AV::Arr((0..n).map(|i| AV::Int(i as i64 % 7)).collect());
        a.metadata.insert("long".to_string(), v);
    }
    a
}
fn form(_c: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let (want, got) = (lines(&a), make_line_oriented_form(&a.to()));
    ensure!(want == got, format!("{:?}", a), format!("{:#?}", want), format!("{:#?}", got));
    Ok(want.join("\n"))
}
fn order(_c: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let mut o: Vec<String> = a.shapes.keys().cloned().collect();
    for i in (1..o.len()).rev() {
        let j = r.below(i + 1);
        o.swap(i, j);
    }
    let (x, y) = (make_line_oriented_form(&a.to()), make_line_oriented_form(&a.to_in_order(&o)));
    ensure!(x == y, format!("{:?} built in the order {:?}", a, o), format!("{:#?}", x), format!("{:#?}", y));
    Ok(format!("{:?}", a))
}
/// takes `left` bytes, a few at a time, then fails
struct Sink {
    got: Vec<u8>,
    left: usize,
    step: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left).min(self.step);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.got.extend(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn written(_c: u64, r: &mut Rng) -> Res {
    let a = gen(r);
    let want: Vec<u8> = lines(&a).iter().map(|l| l.clone() + "\n").collect::<String>().into_bytes();
    let q = format!("{:?}", a);
    let mut s = Sink { got: vec![], left: want.len(), step: 1 + r.below(40) };
    let x = LineOrientedWriter::default().write(&mut s, &a.to());
    ensure!(x.is_ok() && s.got == want, q, String::from_utf8_lossy(&want), format!("{:?}: {}", x, String::from_utf8_lossy(&s.got)));
    if !want.is_empty() {
        let left = r.below(want.len());
        let mut s = Sink { got: vec![], left, step: 1 + r.below(40) };
        let x = LineOrientedWriter::default().write(&mut s, &a.to());
        ensure!(x.is_err() && s.got == want[..left], format!("{} into a writer that fails after {} bytes", q, left), "an error, after these bytes", format!("{:?}: {}", x, String::from_utf8_lossy(&s.got)));
    }
    Ok(format!("{:?}", want))
}
pub fn c14() -> Vec<Sub> {
    vec![
        Sub { name: "form", cases: (20_000, 600_000), what: "the line-oriented form of generated models of every kind of shape, with traits, values and metadata of every shape", run: form },
        Sub { name: "order", cases: (5_000, 100_000), what: "the same model built in two orders", run: order },
        Sub { name: "writer", cases: (5_000, 100_000), what: "what the writer writes, into a writer that takes a few bytes at a time, and into one that fails", run: written },
    ]
}
