//! C22: selectors made of shape types.
use crate::am::*;
use crate::ensure;
use crate::props::merge::lc;
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::model::selector::{Selector, SelectorExpression, ShapeType};
use atelier_query::Projection;
use std::str::FromStr;

pub const TYPES: [&str; 26] = [
    "*", "number", "simpleType", "collection", "blob", "boolean", "document", "string", "integer", "byte", "short", "long", "float", "double", "bigDecimal",
    "bigInteger", "timestamp", "list", "set", "map", "structure", "union", "service", "operation", "resource", "member",
];
/// the table of section 14 of the Smithy specification
fn matches(t: &str, b: &AB) -> bool {
    let s = if let AB::Simple(s) = b { s.as_str() } else { "" };
    match t {
        "*" => true,
        "number" => ["byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal"].contains(&s),
        "simpleType" => s != "",
        "collection" => b.kind() == "list" || b.kind() == "set",
        "member" => false,
        _ => s == t || b.kind() == t,
    }
}
fn shape_types(case: u64, r: &mut Rng) -> Res {
    let mut a = Gen::new(r, GenCfg { shapes: 10, ..GenCfg::default() }).model();
    if case % 3 == 0 {
        // every simple kind
        for s in SIMPLE.iter() {
            a.shapes.insert(format!("kinds#A{}", s), AS::new(AB::Simple(s.to_string())));
        }
    }
    let keys: Vec<String> = {
        let mut k: Vec<String> = a.shapes.keys().cloned().collect();
        r.shuffle(&mut k);
        k
    };
    let m = a.to_in_order(&keys);
    let n = if case < 26 { 1 } else { [1, 1, 2, 2, 3, 0][r.below(6)] };
    let q: Vec<&str> = (0..n).map(|i| if case < 26 && i == 0 { TYPES[case as usize] } else { *r.pick(&TYPES) }).collect();
    let mut sel = Selector::default();
    for t in &q {
        match ShapeType::from_str(t) {
            Ok(t) => sel.add_expression(SelectorExpression::ShapeType(t)),
            Err(e) => ensure!(false, format!("ShapeType::from_str({:?})", t), "a shape type", format!("{:?}", e)),
        }
    }
    let before = AModel::from(&m);
    let got = atelier_query::evaluate::query(&sel, &m);
    let mut want: Vec<String> =
        a.shapes.iter().filter(|(_, s)| s.body != AB::Unresolved && q.iter().all(|t| matches(t, &s.body))).map(|x| x.0.clone()).collect();
    want.sort();
    let what = format!("{:?} over {:?}", q, a.shapes.iter().map(|(k, s)| (k, &s.body)).collect::<Vec<_>>());
    match &got {
        Projection::Shapes(v) => {
            let mut g: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            g.sort();
            ensure!(g.iter().map(|x| lc(x)).collect::<Vec<_>>() == want.iter().map(|x| lc(x)).collect::<Vec<_>>(), what, format!("{:?}", want), format!("{:?}", g));
        }
        _ => ensure!(false, what, format!("shapes {:?}", want), format!("{:?}", got)),
    }
    ensure!(AModel::from(&m) == before, what, "the model as it was", format!("{:?}", m));
    Ok(format!("{} matches of {:?} in {:?}", want.len(), q, keys))
}
pub fn c22() -> Vec<Sub> {
    vec![Sub { name: "shape_types", cases: (6000, 200_000), what: "selectors of up to three shape types over models with every kind of shape", run: shape_types }]
}
