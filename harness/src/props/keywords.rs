//! C26: the keyword vocabularies (simple shapes, selector shape types, comparators, error sources, versions).
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::builder::traits::ErrorSource;
use atelier_core::model::selector::{Comparator, ShapeType};
use atelier_core::model::shapes::Simple;
use atelier_core::Version;
use std::str::FromStr;

const SIMPLE: &[(Simple, &str)] = &[
    (Simple::Blob, "blob"),
    (Simple::Boolean, "boolean"),
    (Simple::Document, "document"),
    (Simple::String, "string"),
    (Simple::Byte, "byte"),
    (Simple::Short, "short"),
    (Simple::Integer, "integer"),
    (Simple::Long, "long"),
    (Simple::Float, "float"),
    (Simple::Double, "double"),
    (Simple::BigInteger, "bigInteger"),
    (Simple::BigDecimal, "bigDecimal"),
    (Simple::Timestamp, "timestamp"),
];
const TYPES: &[(ShapeType, &str)] = &[
    (ShapeType::Any, "*"),
    (ShapeType::Number, "number"),
    (ShapeType::SimpleType, "simpleType"),
    (ShapeType::Collection, "collection"),
    (ShapeType::Blob, "blob"),
    (ShapeType::Boolean, "boolean"),
    (ShapeType::Document, "document"),
    (ShapeType::String, "string"),
    (ShapeType::Integer, "integer"),
    (ShapeType::Byte, "byte"),
    (ShapeType::Short, "short"),
    (ShapeType::Long, "long"),
    (ShapeType::Float, "float"),
    (ShapeType::Double, "double"),
    (ShapeType::BigDecimal, "bigDecimal"),
    (ShapeType::BigInteger, "bigInteger"),
    (ShapeType::Timestamp, "timestamp"),
    (ShapeType::List, "list"),
    (ShapeType::Set, "set"),
    (ShapeType::Map, "map"),
    (ShapeType::Structure, "structure"),
    (ShapeType::Union, "union"),
    (ShapeType::Service, "service"),
    (ShapeType::Operation, "operation"),
    (ShapeType::Resource, "resource"),
    (ShapeType::Member, "member"),
];
const COMPARATORS: &[(Comparator, &str)] = &[
    (Comparator::StringEqual, "="),
    (Comparator::StringNotEqual, "!="),
    (Comparator::StringStartsWith, "^="),
    (Comparator::StringEndsWith, "$="),
    (Comparator::StringContains, "*="),
    (Comparator::StringExists, "?="),
    (Comparator::NumberGreaterThan, ">"),
    (Comparator::NumberGreaterOrEqual, ">="),
    (Comparator::NumberLessThan, "<"),
    (Comparator::NumberLessOrEqual, "<="),
    (Comparator::ProjectionEqual, "{=}"),
    (Comparator::ProjectionNotEqual, "{!=}"),
    (Comparator::ProjectionSubset, "{<}"),
    (Comparator::ProjectionProperSubset, "{<<}"),
];

/// Every text read in every vocabulary.
fn read(s: &str) -> Res {
    let q = format!("{:?}", s);
    let want = SIMPLE.iter().find(|x| x.1 == s).map(|x| x.0.clone());
    let got = Simple::from_str(s).ok();
    ensure!(got == want, q, format!("as a simple shape: {:?}", want), format!("{:?}", got));
    let want = TYPES.iter().find(|x| x.1 == s).map(|x| x.0.clone());
    let got = ShapeType::from_str(s).ok();
    ensure!(got == want, q, format!("as a shape type: {:?}", want), format!("{:?}", got));
    let want = COMPARATORS.iter().find(|x| x.1 == s).map(|x| x.0.clone());
    let got = Comparator::from_str(s).ok();
    ensure!(got == want, q, format!("as a comparator: {:?}", want), format!("{:?}", got));
    let got = ErrorSource::from_str(s).ok().map(|e| e.to_string());
    let want = if s == "client" || s == "server" { Some(s.to_string()) } else { None };
    ensure!(got == want, q, format!("as an error source: {:?}", want), format!("{:?}", got));
    let got = Version::from_str(s).is_ok();
    ensure!(got == (s == "1" || s == "1.0"), q, format!("as a version: {}", !got), got);
    Ok(q)
}
fn print() -> Res {
    for (k, s) in SIMPLE {
        ensure!(k.to_string() == *s, format!("{:?}", k), s, k.to_string());
    }
    for (k, s) in TYPES {
        ensure!(k.to_string() == *s, format!("{:?}", k), s, k.to_string());
    }
    for (k, s) in COMPARATORS {
        ensure!(k.to_string() == *s, format!("{:?}", k), s, k.to_string());
    }
    ensure!(ErrorSource::Client.to_string() == "client", "ErrorSource::Client", "client", ErrorSource::Client);
    ensure!(ErrorSource::Server.to_string() == "server", "ErrorSource::Server", "server", ErrorSource::Server);
    ensure!(Version::V10.to_string() == "1.0", "Version::V10", "1.0", Version::V10);
    Ok("every kind printed".into())
}
fn words() -> Vec<&'static str> {
    let mut v: Vec<&str> = SIMPLE.iter().map(|x| x.1).collect();
    v.extend(TYPES.iter().map(|x| x.1));
    v.extend(COMPARATORS.iter().map(|x| x.1));
    v.extend(["client", "server", "1", "1.0", "2.0", "0.5", "1.0.0", "01", "apply", "namespace", "use", "bigdecimal", "int", "bool", "", " ", "\u{130}", "any", "shape", "id"]);
    v
}
const SMALL: &[char] = &['=', '!', '<', '>', '{', '}', '*', '1'];
fn each(case: u64, _r: &mut Rng) -> Res {
    let w = words();
    let n = case as usize;
    if n == 0 {
        return print();
    }
    let n = n - 1;
    if n < w.len() {
        return read(w[n]);
    }
    // every string of up to 4 characters over the comparators' alphabet
    let mut n = n - w.len();
    let mut s = String::new();
    while n > 0 {
        s.push(SMALL[(n - 1) % SMALL.len()]);
        n = (n - 1) / SMALL.len();
    }
    read(&s)
}
fn edited(_c: u64, r: &mut Rng) -> Res {
    let w = words();
    let mut s: Vec<char> = r.pick(&w).chars().collect();
    for _ in 0..1 + r.below(2) {
        match r.below(7) {
            0 => {
                let i = r.below(s.len() + 1);
                s.insert(i, *r.pick(&['a', 'E', '=', '1', ' ', '\u{e9}', '\t', '_', '0', '.']));
            }
            1 if !s.is_empty() => {
                let i = r.below(s.len());
                s.remove(i);
            }
            2 if !s.is_empty() => {
                let i = r.below(s.len());
                s[i] = if s[i].is_ascii_lowercase() { s[i].to_ascii_uppercase() } else { s[i].to_ascii_lowercase() };
            }
            3 => s = s.iter().map(|c| c.to_ascii_uppercase()).collect(),
            4 => s = s.iter().map(|c| c.to_ascii_lowercase()).collect(),
            5 => {
                let t: Vec<char> = r.pick(&w).chars().collect();
                s.extend(t);
            }
            _ => s.insert(0, *r.pick(&[' ', '\u{feff}', '"', '{', '!'])),
        }
    }
    read(&s.into_iter().collect::<String>())
}
pub fn c26() -> Vec<Sub> {
    vec![
        Sub { name: "keywords", cases: (4800, 4800), what: "every keyword, and every string of up to 4 characters over the comparators' alphabet", run: each },
        Sub { name: "edited", cases: (40000, 400000), what: "keywords with one or two edits", run: edited },
    ]
}
