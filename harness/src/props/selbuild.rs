//! C24: the builders of selectors, against selectors put together from the model's own constructors.
use crate::ensure;
use crate::props::seltext::{comparator, generator, G};
use crate::rng::Rng;
use crate::{Res, Sub};
use atelier_core::builder::selector::*;
use atelier_core::model::selector::*;
use atelier_core::model::values::Number;
use atelier_core::model::Identifier;

/// equal, and spelled alike: ids are equal whatever the case of their letters
fn same<A: PartialEq + std::fmt::Debug>(a: &A, b: &A) -> bool {
    a == b && format!("{:?}", a) == format!("{:?}", b)
}
macro_rules! kinds {
    ($m:ident, $($x:expr),*) => {
        $m!($($x),*; (any_shape, add_any_shape, Any) (any_number, add_any_number, Number) (any_simple_type, add_any_simple_type, SimpleType) (any_collection, add_any_collection, Collection)
            (blob, add_blob, Blob) (boolean, add_boolean, Boolean) (document, add_document, Document) (string, add_string, String) (integer, add_integer, Integer) (byte, add_byte, Byte)
            (short, add_short, Short) (long, add_long, Long) (float, add_float, Float) (double, add_double, Double) (big_decimal, add_big_decimal, BigDecimal)
            (big_integer, add_big_integer, BigInteger) (timestamp, add_timestamp, Timestamp) (list, add_list, List) (set, add_set, Set) (map, add_map, Map)
            (structure, add_structure, Structure) (union, add_union, Union) (service, add_service, Service) (operation, add_operation, Operation) (resource, add_resource, Resource) (member, add_member, Member))
    };
}
/// a builder of one selector, and the expressions it should hold
fn builder(g: &mut G, depth: usize, trace: &mut Vec<String>) -> (SelectorBuilder, Vec<SelectorExpression>) {
    let n = 1 + g.r.below(3);
    let mut b: Option<SelectorBuilder> = None;
    let mut want = vec![];
    for _ in 0..n {
        // the argument, then the call that makes a builder or adds to it
        macro_rules! call {
            ($e:expr, $new:ident($($a:expr),*), $add:ident($($c:expr),*)) => {{
                let ex: SelectorExpression = $e;
                trace.push(if b.is_none() { stringify!($new) } else { stringify!($add) }.to_string());
                match &mut b {
                    None => b = Some(SelectorBuilder::$new($($a),*)),
                    Some(b) => { let _ = b.$add($($c),*); }
                }
                want.push(ex);
            }};
        }
        macro_rules! kind {
            ($k:expr; $(($f:ident, $a:ident, $t:ident))*) => {{
                let names = [$(stringify!($f)),*];
                let k: &str = *$k.pick(&names);
                $(if k == stringify!($f) { call!(ShapeType::$t.into(), $f(), $a()); })*
            }};
        }
        match g.r.below(if depth > 1 { 16 } else { 20 }) {
            0..=2 => kinds!(kind, g.r),
            3 => {
                let (e, _) = g.expression();
                call!(e.clone(), from(e), add(e));
            }
            4 => {
                let t = g.r.pick(&[ShapeType::Any, ShapeType::Map, ShapeType::Member, ShapeType::Number]).clone();
                call!(t.clone().into(), shape(t), add_shape(t));
            }
            5 => call!(NeighborSelector::ForwardUndirected.into(), forward_undirected(), add_forward_undirected()),
            6 => call!(NeighborSelector::ReverseUndirected.into(), reverse_undirected(), add_reverse_undirected()),
            7 => call!(NeighborSelector::ForwardRecursiveDirected.into(), forward_recursive_directed(), add_forward_recursive_directed()),
            8 | 9 => {
                let ids: Vec<Identifier> = (0..1 + g.r.below(3)).map(|_| g.id().0).collect();
                match g.r.below(3) {
                    0 => call!(NeighborSelector::ForwardDirected(ids.clone()).into(), forward_directed(&ids), add_forward_directed(&ids)),
                    1 => call!(NeighborSelector::ReverseDirected(ids.clone()).into(), reverse_directed(&ids), add_reverse_directed(&ids)),
                    _ => {
                        let n = NeighborSelector::ReverseDirected(ids);
                        call!(n.clone().into(), neighbor(n), add_neighbor(n))
                    }
                }
            }
            10 => {
                let (i, _) = g.id();
                call!(VariableReference::new(i.clone()).into(), variable_reference_from(i), add_variable_reference_from(i));
            }
            11 => {
                let v = VariableReference::new(g.id().0);
                call!(v.clone().into(), variable_reference(v), add_variable_reference(v));
            }
            12 => {
                let (a, _) = g.attribute();
                call!(a.clone().into(), attribute(a), add_attribute(a));
            }
            13 => {
                let (k, _) = g.key();
                let c = if g.r.chance(1, 2) { None } else { Some(AttributeComparison::new(Comparator::StringEqual, &[g.value().0])) };
                let a = match &c {
                    None => AttributeSelector::new(k.clone()),
                    Some(c) => AttributeSelector::with_comparison(k.clone(), c.clone()),
                };
                if b.is_none() {
                    call!(a.clone().into(), attribute(a), add_attribute(a));
                } else {
                    call!(a.clone().into(), attribute(a), add_attribute_from(k, c));
                }
            }
            14 => {
                let (x, w) = attribute(g, trace);
                // by value, by reference, as an expression
                if b.is_none() && g.r.chance(1, 2) {
                    let mut x = x;
                    b = Some(if g.r.chance(1, 2) { x.into() } else { (&mut x).into() });
                    want.push(w.into());
                } else {
                    let mut x = x;
                    let got: AttributeSelector = if g.r.chance(1, 2) { (&mut x).into() } else { x.into() };
                    call!(w.into(), attribute(got), add_attribute(got));
                }
            }
            15 => {
                let (x, w) = scoped(g, trace);
                let mut x = x;
                if b.is_none() && g.r.chance(1, 2) {
                    b = Some(if g.r.chance(1, 2) { x.into() } else { (&mut x).into() });
                    want.push(w.into());
                } else if g.r.chance(1, 3) {
                    let got: SelectorExpression = x.into();
                    call!(w.into(), from(got), add(got));
                } else {
                    let got: ScopedAttributeSelector = if g.r.chance(1, 2) { (&mut x).into() } else { x.into() };
                    call!(w.into(), scoped_attribute(got), add_scoped_attribute(got));
                }
            }
            16 => {
                let (i, _) = g.id();
                let (x, w) = builder(g, depth + 1, trace);
                let d = VariableDefinition::new(i.clone(), Selector::from(w));
                if g.r.chance(1, 2) {
                    call!(d.into(), variable_definition_from(i, x), add_variable_definition_from(i, x));
                } else {
                    call!(d.clone().into(), variable_definition(d), add_variable_definition(d));
                }
            }
            k => {
                let (args, ws): (Vec<_>, Vec<_>) = (0..1 + g.r.below(3)).map(|_| builder(g, depth + 1, trace)).map(|(b, w)| (b, Selector::from(w))).unzip();
                let (i, _) = g.id();
                let f = |n: &str| -> SelectorExpression { Function::new(Identifier::new_unchecked(n), &ws).into() };
                match (k, g.r.below(2)) {
                    (17, 0) => call!(f("test"), fn_test(&args), add_test_function(&args)),
                    (17, _) => call!(f("is"), fn_is(&args), add_is_function(&args)),
                    (18, 0) => call!(f("not"), fn_not(&args), add_not_function(&args)),
                    (18, _) => call!(f("topdown"), fn_topdown(&args), add_topdown_function(&args)),
                    (_, 0) => call!(f(&i.to_string()), function_from(i.clone(), &args), add_function_from(i.clone(), &args)),
                    _ => {
                        let f = Function::new(i, &ws);
                        call!(f.clone().into(), function(f), add_function(f))
                    }
                }
            }
        }
    }
    (b.unwrap(), want)
}
fn segments(g: &mut G) -> Vec<KeyPathSegment> {
    (0..1 + g.r.below(3)).map(|_| g.segment().0).collect()
}
/// calls that lead along a path: the path that results
macro_rules! lead {
    ($g:expr, $b:expr, $path:expr, $trace:expr) => {
        for _ in 0..$g.r.below(4) {
            let (s, _) = $g.segment();
            $trace.push(format!("path {}", s));
            match s {
                s if $g.r.chance(1, 4) => {
                    let _ = $b.path_segment(s.clone());
                    $path.push(s);
                }
                _ if $g.r.chance(1, 5) => {
                    $path = segments($g);
                    $trace.push("set".to_string());
                    let _ = $b.path(&$path);
                }
                KeyPathSegment::FunctionProperty(i) => {
                    $path.push(KeyPathSegment::FunctionProperty(i.clone()));
                    let _ = $b.path_segment_for_function(i);
                }
                KeyPathSegment::Value(v) => {
                    $path.push(KeyPathSegment::Value(v.clone()));
                    let _ = match v {
                        Value::Text(t) => $b.path_segment_for_text(&t),
                        Value::Number(n) => $b.path_segment_for_number(n),
                        Value::RootShapeIdentifier(i) => $b.path_segment_for_id(i),
                        Value::AbsoluteRootShapeIdentifier(i) => $b.path_segment_for_shape(i),
                    };
                }
            }
        }
    };
}
fn key(name: &str, path: &[KeyPathSegment]) -> Key {
    let mut k = Key::new(Identifier::new_unchecked(name));
    for s in path {
        k.add_path_segment(s.clone());
    }
    k
}
fn numbers(g: &mut G) -> Vec<Number> {
    (0..1 + g.r.below(3)).map(|_| if g.r.chance(1, 2) { Number::Integer(g.r.next() as i64) } else { Number::Float(g.r.below(1000) as f64 + 0.5) }).collect()
}
fn attribute(g: &mut G, trace: &mut Vec<String>) -> (AttributeBuilder, AttributeSelector) {
    let (i, _) = g.id();
    let (mut b, name) = match g.r.below(5) {
        0 => (AttributeBuilder::named_id(), "id".to_string()),
        1 => (AttributeBuilder::named_service(), "service".to_string()),
        2 => (AttributeBuilder::named_trait(), "trait".to_string()),
        3 => (AttributeBuilder::named_var(), "var".to_string()),
        _ => (AttributeBuilder::named(i.clone()), i.to_string()),
    };
    trace.push(format!("attribute {}", name));
    let mut path = vec![];
    let mut comparison = None;
    lead!(g, b, path, trace);
    for _ in 0..g.r.below(3) {
        let vs: Vec<Value> = (0..1 + g.r.below(3)).map(|_| g.value().0).collect();
        let ns = numbers(g);
        let nv: Vec<Value> = ns.iter().map(|n| Value::Number(n.clone())).collect();
        let i = g.r.chance(1, 2);
        let bit = g.r.chance(1, 2);
        let bits = vec![Value::Text(bit.to_string())];
        let k = g.r.below(16);
        trace.push(format!("compare {} {}", k, i));
        let (op, values, i) = match k {
            0 => { let _ = b.string_equal(&vs, i); ("=", vs, i) }
            1 => { let _ = b.string_not_equal(&vs, i); ("!=", vs, i) }
            2 => { let _ = b.string_starts_with(&vs, i); ("^=", vs, i) }
            3 => { let _ = b.string_ends_with(&vs, i); ("$=", vs, i) }
            4 => { let _ = b.string_contains(&vs, i); ("*=", vs, i) }
            5 => { let _ = b.string_exists(bit, i); ("?=", bits, i) }
            6 => { let _ = b.number_greater(&ns); (">", nv, false) }
            7 => { let _ = b.number_greater_or_equal(&ns); (">=", nv, false) }
            8 => { let _ = b.number_less(&ns); ("<", nv, false) }
            9 => { let _ = b.number_less_or_equal(&ns); ("<=", nv, false) }
            10 => { let _ = b.projection_equal(&vs); ("{=}", vs, false) }
            11 => { let _ = b.projection_not_equal(&vs); ("{!=}", vs, false) }
            12 => { let _ = b.projection_subset(&vs); ("{<}", vs, false) }
            13 => { let _ = b.projection_proper_subset(&vs); ("{<<}", vs, false) }
            14 => { let _ = b.string_compare(comparator("^="), &vs, i); ("^=", vs, i) }
            _ => {
                let c = if i { AttributeComparison::new_case_insensitive(comparator("*="), &vs) } else { AttributeComparison::new(comparator("*="), &vs) };
                let _ = b.compare(c);
                ("*=", vs, i)
            }
        };
        comparison = Some(if i { AttributeComparison::new_case_insensitive(comparator(op), &values) } else { AttributeComparison::new(comparator(op), &values) });
    }
    // a path added after the comparison leaves that alone
    lead!(g, b, path, trace);
    let k = key(&name, &path);
    (b, match comparison { None => AttributeSelector::new(k), Some(c) => AttributeSelector::with_comparison(k, c) })
}
fn scoped(g: &mut G, trace: &mut Vec<String>) -> (ScopedAttributeBuilder, ScopedAttributeSelector) {
    let (i, _) = g.id();
    let (mut b, name) = match g.r.below(6) {
        0 => (ScopedAttributeBuilder::new_id(), Some("id".to_string())),
        1 => (ScopedAttributeBuilder::new_service(), Some("service".to_string())),
        2 => (ScopedAttributeBuilder::new_trait(), Some("trait".to_string())),
        3 => (ScopedAttributeBuilder::new_var(), Some("var".to_string())),
        4 => (ScopedAttributeBuilder::default(), None),
        _ => (ScopedAttributeBuilder::named(i.clone()), Some(i.to_string())),
    };
    trace.push(format!("scoped {:?}", name));
    let mut path = vec![];
    if name.is_some() {
        lead!(g, b, path, trace);
    }
    let mut want = vec![];
    for _ in 0..1 + g.r.below(3) {
        let (l, _) = g.scoped_value();
        let vs: Vec<ScopedValue> = (0..1 + g.r.below(3)).map(|_| g.scoped_value().0).collect();
        let v = vs[0].clone();
        let one = vec![v.clone()];
        let n = numbers(g)[0].clone();
        let nv = vec![ScopedValue::Value(Value::Number(n.clone()))];
        let i = g.r.chance(1, 2);
        let bit = g.r.chance(1, 2);
        let bits = vec![ScopedValue::Value(Value::Text(bit.to_string()))];
        let k = g.r.below(16);
        trace.push(format!("assert {} {}", k, i));
        let m = l.clone();
        let (op, values, i) = match k {
            0 => { let _ = b.string_equal(m, v, i); ("=", one, i) }
            1 => { let _ = b.string_not_equal(m, v, i); ("!=", one, i) }
            2 => { let _ = b.string_starts_with(m, v, i); ("^=", one, i) }
            3 => { let _ = b.string_ends_with(m, v, i); ("$=", one, i) }
            4 => { let _ = b.string_contains(m, v, i); ("*=", one, i) }
            5 => { let _ = b.string_exists(m, bit); ("?=", bits, false) }
            6 => { let _ = b.number_greater(m, n); (">", nv, false) }
            7 => { let _ = b.number_greater_or_equal(m, n); (">=", nv, false) }
            8 => { let _ = b.number_less(m, n); ("<", nv, false) }
            9 => { let _ = b.number_less_or_equal(m, n); ("<=", nv, false) }
            10 => { let _ = b.projection_equal(m, v); ("{=}", one, false) }
            11 => { let _ = b.projection_not_equal(m, v); ("{!=}", one, false) }
            12 => { let _ = b.projection_subset(m, &vs); ("{<}", vs, false) }
            13 => { let _ = b.projection_proper_subset(m, &vs); ("{<<}", vs, false) }
            14 => { let _ = b.string_assertion(m, comparator("$="), &vs, i); ("$=", vs, i) }
            _ => {
                let a = if i { ScopedAttributeAssertion::new_case_insensitive(m, comparator("!="), &vs) } else { ScopedAttributeAssertion::new(m, comparator("!="), &vs) };
                let _ = b.assertion(a);
                ("!=", vs, i)
            }
        };
        want.push(if i { ScopedAttributeAssertion::new_case_insensitive(l, comparator(op), &values) } else { ScopedAttributeAssertion::new(l, comparator(op), &values) });
    }
    if name.is_some() {
        lead!(g, b, path, trace);
    }
    (b, match name { None => ScopedAttributeSelector::new(&want), Some(n) => ScopedAttributeSelector::with_key(key(&n, &path), &want) })
}
fn programs(_c: u64, r: &mut Rng) -> Res {
    let mut g = generator(r);
    let mut trace = vec![];
    let (b, want) = builder(&mut g, 0, &mut trace);
    let want = Selector::from(want);
    let mut b = b;
    let text = format!("{:?}", trace);
    ensure!(!b.is_empty(), text, "not empty", "empty");
    let (got, how): (Selector, &str) = match g.r.below(4) {
        0 => (Selector::from(&mut b), "Selector::from(&mut)"),
        1 => (SelectorBuilder::from((&mut b).clone().into_expression()).into_selector(b.clone()), "twice"),
        2 => {
            let mut v: Vec<Selector> = (&mut b).into();
            ensure!(v.len() == 1, text, "one selector", v.len());
            (v.remove(0), "Vec::from(&mut)")
        }
        _ => (b.clone().into(), "Selector::from"),
    };
    ensure!(same(&got, &want), format!("{} then {}", text, how), format!("{:?}", want), format!("{:?}", got));
    // the conversion takes nothing out of the builder
    let again = Selector::from(&mut b);
    ensure!(same(&again, &want), format!("{} after {}", text, how), format!("{:?}", want), format!("{:?}", again));
    Ok(text)
}
trait Twice {
    fn into_expression(self) -> SelectorExpression;
    fn into_selector(self, b: SelectorBuilder) -> Selector;
}
impl Twice for SelectorBuilder {
    fn into_expression(self) -> SelectorExpression {
        Selector::from(self).expressions().next().unwrap().clone()
    }
    /// the first expression of `self` followed by the other expressions of `b`
    fn into_selector(mut self, b: SelectorBuilder) -> Selector {
        for e in Selector::from(b).expressions().skip(1) {
            let _ = self.add(e.clone());
        }
        self.into()
    }
}
/// a single attribute, converted in each way
fn attributes(_c: u64, r: &mut Rng) -> Res {
    let mut g = generator(r);
    let mut trace = vec![];
    if g.r.chance(1, 2) {
        let (mut b, w) = attribute(&mut g, &mut trace);
        let e: SelectorExpression = w.clone().into();
        let s: Selector = e.clone().into();
        let t = format!("{:?}", trace);
        let a: AttributeSelector = (&mut b).into();
        ensure!(same(&a, &w), t, format!("{:?}", w), format!("{:?}", a));
        let a: Selector = (&mut b).into();
        ensure!(same(&a, &s), t, format!("{:?}", s), format!("{:?}", a));
        let mut a: SelectorBuilder = (&mut b).into();
        ensure!(same(&Selector::from(&mut a), &s), t, format!("{:?}", s), format!("{:?}", a));
        let a: Selector = b.clone().into();
        ensure!(same(&a, &s), t, format!("{:?}", s), format!("{:?}", a));
        let a: SelectorExpression = b.clone().into();
        ensure!(same(&a, &e), t, format!("{:?}", e), format!("{:?}", a));
        let a: AttributeSelector = b.into();
        ensure!(same(&a, &w), t, format!("{:?}", w), format!("{:?}", a));
        Ok(t)
    } else {
        let (mut b, w) = scoped(&mut g, &mut trace);
        let e: SelectorExpression = w.clone().into();
        let s: Selector = e.clone().into();
        let t = format!("{:?}", trace);
        let a: ScopedAttributeSelector = (&mut b).into();
        ensure!(same(&a, &w), t, format!("{:?}", w), format!("{:?}", a));
        let a: Selector = (&mut b).into();
        ensure!(same(&a, &s), t, format!("{:?}", s), format!("{:?}", a));
        let mut a: SelectorBuilder = (&mut b).into();
        ensure!(same(&Selector::from(&mut a), &s), t, format!("{:?}", s), format!("{:?}", a));
        let a: Selector = b.clone().into();
        ensure!(same(&a, &s), t, format!("{:?}", s), format!("{:?}", a));
        let a: SelectorExpression = b.clone().into();
        ensure!(same(&a, &e), t, format!("{:?}", e), format!("{:?}", a));
        let a: ScopedAttributeSelector = b.into();
        ensure!(same(&a, &w), t, format!("{:?}", w), format!("{:?}", a));
        Ok(t)
    }
}
/// the named constructors of comparisons and assertions in the model
fn constructors(_c: u64, r: &mut Rng) -> Res {
    let mut g = generator(r);
    let (l, _) = g.scoped_value();
    let vs: Vec<ScopedValue> = (0..1 + g.r.below(3)).map(|_| g.scoped_value().0).collect();
    let ws: Vec<Value> = (0..1 + g.r.below(3)).map(|_| g.value().0).collect();
    let (v, w) = (vs[0].clone(), ws[0].clone());
    let n = numbers(&mut g)[0].clone();
    let bit = g.r.chance(1, 2);
    let (nv, bv) = (Value::Number(n.clone()), Value::Text(bit.to_string()));
    let (ns, bs) = (vec![ScopedValue::Value(nv.clone())], vec![ScopedValue::Value(bv.clone())]);
    let (one, wone) = (vec![v.clone()], vec![w.clone()]);
    let (nw, bw) = (vec![nv], vec![bv]);
    let k = g.r.below(14);
    use {AttributeComparison as C, ScopedAttributeAssertion as S};
    let m = l.clone();
    let (got, op, values, got2, values2) = match k {
        0 => (S::string_equal(m, v), "=", one, C::string_equal(w), wone),
        1 => (S::string_not_equal(m, v), "!=", one, C::string_not_equal(w), wone),
        2 => (S::string_starts_with(m, v), "^=", one, C::string_starts_with(w), wone),
        3 => (S::string_ends_with(m, v), "$=", one, C::string_ends_with(w), wone),
        4 => (S::string_contains(m, v), "*=", one, C::string_contains(w), wone),
        5 => (S::string_exists(m, bit), "?=", bs, C::string_exists(bit), bw),
        6 => (S::number_greater(m, n.clone()), ">", ns, C::number_greater(n), nw),
        7 => (S::number_greater_or_equal(m, n.clone()), ">=", ns, C::number_greater_or_equal(n), nw),
        8 => (S::number_less(m, n.clone()), "<", ns, C::number_less(n), nw),
        9 => (S::number_less_or_equal(m, n.clone()), "<=", ns, C::number_less_or_equal(n), nw),
        10 => (S::projection_equal(m, v), "{=}", one, C::projection_equal(w), wone),
        11 => (S::projection_not_equal(m, v), "{!=}", one, C::projection_not_equal(w), wone),
        12 => (S::projection_subset(m, &vs), "{<}", vs, C::projection_subset(&ws), ws),
        _ => (S::projection_proper_subset(m, &vs), "{<<}", vs, C::projection_proper_subset(&ws), ws),
    };
    let want = S::new(l, comparator(op), &values);
    let want2 = C::new(comparator(op), &values2);
    let t = format!("constructor {} of {:?} and {:?}", op, values, values2);
    ensure!(same(&got, &want), t, format!("{:?}", want), format!("{:?}", got));
    ensure!(same(&got2, &want2), t, format!("{:?}", want2), format!("{:?}", got2));
    Ok(t)
}
pub fn c24() -> Vec<Sub> {
    vec![
        Sub { name: "programs", cases: (40000, 600000), what: "sequences of calls of the selector builder, nested, converted in each way", run: programs },
        Sub { name: "attributes", cases: (20000, 300000), what: "sequences of calls of the attribute builders, converted in each way", run: attributes },
        Sub { name: "constructors", cases: (10000, 100000), what: "the named constructors of comparisons and assertions", run: constructors },
    ]
}
