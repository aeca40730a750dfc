//! C19: shape ids as URNs.
use super::identity::{gen_id, ident_ok, ns_ok};
use crate::ensure;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::ShapeID;
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use rdftk_iri::IRI;
use std::str::FromStr;
use std::sync::Arc;

/// the id a text is the URN of
fn meaning(s: &str) -> Option<String> {
    if s.len() < 4 || !s.is_char_boundary(4) || !s[..4].eq_ignore_ascii_case("urn:") {
        return None;
    }
    let rest = s[4..].strip_prefix("smithy:")?;
    let i = rest.find(':')?;
    let (ns, rest) = (&rest[..i], &rest[i + 1..]);
    let (name, member) = match rest.find('/') {
        Some(j) => (&rest[..j], Some(&rest[j + 1..])),
        None => (rest, None),
    };
    if ns_ok(ns) && ident_ok(name) && member.map(ident_ok).unwrap_or(true) {
        Some(format!("{}#{}{}", ns, name, member.map(|m| format!("${}", m)).unwrap_or_default()))
    } else {
        None
    }
}
fn one(s: &str) -> Res {
    let q = format!("{:?}", s);
    let iri = match IRI::from_str(s) {
        Ok(i) => Arc::new(i),
        Err(_) => {
            ensure!(meaning(s).is_none(), q, "an IRI", "none");
            return Ok(String::new());
        }
    };
    let want = meaning(s);
    let got = iri_to_shape(iri.clone());
    ensure!(is_shape_iri(iri.clone()) == want.is_some(), q, format!("is_shape_iri is {}", want.is_some()), want.is_none());
    match (&got, &want) {
        (Ok(id), Some(w)) => {
            ensure!(&id.to_string() == w && *id == ShapeID::from_str(w).unwrap(), q, w, id);
            ensure!(shape_to_iri(id) == iri, q, "the same IRI back", shape_to_iri(id));
        }
        (Err(_), None) => {}
        _ => ensure!(false, q, format!("{:?}", want), format!("{:?}", got)),
    }
    Ok(q)
}
fn round(_c: u64, r: &mut Rng) -> Res {
    let s = gen_id(r);
    let id = ShapeID::from_str(&s).unwrap();
    let iri = shape_to_iri(&id);
    let text = format!("urn:smithy:{}", s.replace('#', ":").replace('$', "/"));
    ensure!(iri.to_string() == text, s, text, iri);
    ensure!(iri_to_shape(iri.clone()).map(|i| i.to_string()) == Ok(s.clone()), &s, &s, format!("{:?}", iri_to_shape(iri.clone())));
    let t = gen_id(r);
    ensure!((shape_to_iri(&ShapeID::from_str(&t).unwrap()) == iri) == (s == t), format!("{} {}", s, t), "equal URNs exactly for equal texts", "otherwise");
    Ok(s)
}
fn edited(_c: u64, r: &mut Rng) -> Res {
    let s = gen_id(r);
    let s = format!("{}smithy:{}", r.pick(&["urn:", "URN:", "uRn:", "urm:", "", "urn://"]), s.replace('#', ":").replace('$', "/"));
    one(&s)?;
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        let x = *r.pick(&['_', '.', '#', '$', '0', 'a', ' ', '?', '\u{e9}', ':', '-', '/', ':', '@', '%', '/', '?', ';', '+', '~']);
        let i = if r.chance(1, 3) { c.len() } else { r.below(c.len() + 1) };
        match r.below(3) {
            0 => c.insert(i, x),
            1 if i < c.len() => c[i] = x,
            _ if i < c.len() => {
                c.remove(i);
            }
            _ => c.push(x),
        }
    }
    one(&c.iter().collect::<String>())
}
pub fn c19() -> Vec<Sub> {
    vec![
        Sub { name: "round", cases: (20_000, 1_000_000), what: "shape ids: their URN, back, and pairs", run: round },
        Sub { name: "edited", cases: (40_000, 2_000_000), what: "IRIs that are URNs of shape ids or one or two edits away", run: edited },
    ]
}
