## atelier_query over the contracts of atelier_core (selectors.vc), which are imported as Verus exports them.
@rename cloned vx_cloned_all
@rename fold vx_fold
@crate
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
pub use ::atelier_core::vstdx::*;
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
/// `s` are the values the fold goes through
pub open spec fn folded<A, B, F: Fn(B, A) -> B>(x: Seq<A>, init: B, f: F, s: Seq<B>) -> bool {
    &&& s.len() == x.len() + 1
    &&& s[0] == init
    &&& forall|k: int| 0 <= k < x.len() ==> f.ensures((s[k], #[trigger] x[k]), s[k + 1])
}
/// `E.cloned()` and `E.fold(a, f)` over an opaque iterator are verified as these loops.
pub trait VxIter2: Iterator + Sized {
    fn vx_cloned_all<'a, T: Clone + 'a>(self) -> (r: std::vec::IntoIter<T>)
        where Self: Iterator<Item = &'a T>
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, self.will_return_none(),
            r.remaining().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> cloned::<T>(*self.remaining()[i], #[trigger] r.remaining()[i]),
            (forall|a: T, b: T| #[trigger] cloned::<T>(a, b) ==> a == b) ==> r.remaining() == self.remaining().unref();
    fn vx_fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
            forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((init, #[trigger] self.remaining()[i])),
            forall|b: B, i: int, r: B, j: int| 0 <= i < self.remaining().len() && 0 <= j < self.remaining().len()
                && f.requires((b, self.remaining()[i])) && #[trigger] f.ensures((b, self.remaining()[i]), r) ==> f.requires((r, #[trigger] self.remaining()[j])),
        ensures exists|s: Seq<B>| #[trigger] folded(self.remaining(), init, f, s) && s.last() == r;
}
impl<I: Iterator> VxIter2 for I {
    fn vx_cloned_all<'a, T: Clone + 'a>(self) -> std::vec::IntoIter<T>
        where Self: Iterator<Item = &'a T>
    {
        let ghost all = self.remaining();
        let mut r = Vec::new();
        for x in it: vx_items(self)
            invariant it.seq() == all, r.len() == it.index(), forall|k: int| 0 <= k < r.len() ==> cloned::<T>(*it.seq()[k], #[trigger] r[k]),
        {
            r.push(x.clone());
        }
        proof { if forall|a: T, b: T| #[trigger] cloned::<T>(a, b) ==> a == b { assert(r@ =~= all.unref()); } }
        r.into_iter()
    }
    fn vx_fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> B {
        let ghost x = self.remaining();
        let ghost mut s: Seq<B> = seq![init];
        let mut b = init;
        for v in it: vx_items(self)
            invariant it.seq() == x, s.len() == it.index() + 1, s.last() == b, s[0] == init,
                forall|k: int| 0 <= k < it.index() ==> f.ensures((s[k], #[trigger] x[k]), s[k + 1]),
                forall|i: int| 0 <= i < x.len() ==> f.requires((b, #[trigger] x[i])),
                forall|b: B, i: int, r: B, j: int| 0 <= i < x.len() && 0 <= j < x.len()
                    && f.requires((b, x[i])) && #[trigger] f.ensures((b, x[i]), r) ==> f.requires((r, #[trigger] x[j])),
        {
            let n = f(b, v);
            proof { s = s.push(n); }
            b = n;
        }
        proof { assert(folded(x, init, f, s)); }
        b
    }
}
}
}
@for C22
@item projection::Projection
#[verus_verify]
@fn projection::[Default for Projection]::default
#[verus_verify]
#[verus_spec(r => ensures r is Empty)]
@fn projection::Projection::from
#[verus_spec(r => ensures r matches Projection::Shapes(v) && names(*model, v@))]
@@entry
proof! { broadcast use crate::vstdx::group_slice_iters; }
@mod projection
verus!{
use ::atelier_core::model::{named, well_keyed};
/// `v` lists the names of the shapes of the model that are defined
pub open spec fn names(m: Model, v: Seq<ShapeID>) -> bool {
    &&& forall|id: ShapeID| v.contains(id) <==> #[trigger] named(m.sp_shapes(), id, false)
    &&& well_keyed(m.sp_shapes()) ==> v.no_duplicates()
}
}
@fn evaluate::query_one
#[verus_spec(r => requires handled(*query), !(previously_selected is Members)
    ensures selected(*query, *over_model, previously_selected, r))]
@fn evaluate::query_by_shape_type
#[verus_spec(r => requires !(previously_selected is Members)
    ensures of_type(*query, *over_model, previously_selected, r))]
@@entry
proof! { broadcast use crate::vstdx::group_str_keys; }
@@closure 0
#[verus_spec(b: bool => requires false)]
@@closure 1
#[verus_spec(b: bool => ensures b == kept(*query, *over_model, *shape_id))]
@foreach F : query_by_attribute ; query_by_scoped_attribute ; query_by_neighbor ; query_by_function .
@fn evaluate::$F
#[verus_spec(r => requires false)]
@end
@fn evaluate::match_by_shape_type
#[verus_spec(r => ensures r == matches_type(*shape_type, shape.sp_body()))]
@fn evaluate::query
#[verus_spec(r => requires forall|i: int| 0 <= i < q.sp_expressions().len() ==> handled(#[trigger] q.sp_expressions()[i])
    ensures exists|v: Seq<ShapeID>| #[trigger] crate::projection::names(*over_model, v) && answer(*q, *over_model, v, r))]
@@param query q
@@entry
proof! { broadcast use crate::vstdx::group_slice_iters, lemma_answer; }
@@closure 0
#[verus_spec(r: Projection => requires handled(*expression), !(projected is Members)
    ensures !(r is Members), selected(*expression, *over_model, projected, r))]
@mod evaluate
verus!{
use ::atelier_core::model::shapes::ShapeKind;
use ::atelier_core::model::ShapeID;
/// the meaning of a shape type, by the table of the Smithy specification
pub open spec fn matches_type(t: ShapeType, b: ShapeKind) -> bool {
    match t {
        ShapeType::Any => true,
        ShapeType::Number => b matches ShapeKind::Simple(s) && (s is Byte || s is Short || s is Integer || s is Long || s is Float || s is Double || s is BigInteger || s is BigDecimal),
        ShapeType::SimpleType => b is Simple,
        ShapeType::Collection => b is List || b is Set,
        ShapeType::Blob => b == ShapeKind::Simple(Simple::Blob),
        ShapeType::Boolean => b == ShapeKind::Simple(Simple::Boolean),
        ShapeType::Document => b == ShapeKind::Simple(Simple::Document),
        ShapeType::String => b == ShapeKind::Simple(Simple::String),
        ShapeType::Integer => b == ShapeKind::Simple(Simple::Integer),
        ShapeType::Byte => b == ShapeKind::Simple(Simple::Byte),
        ShapeType::Short => b == ShapeKind::Simple(Simple::Short),
        ShapeType::Long => b == ShapeKind::Simple(Simple::Long),
        ShapeType::Float => b == ShapeKind::Simple(Simple::Float),
        ShapeType::Double => b == ShapeKind::Simple(Simple::Double),
        ShapeType::BigDecimal => b == ShapeKind::Simple(Simple::BigDecimal),
        ShapeType::BigInteger => b == ShapeKind::Simple(Simple::BigInteger),
        ShapeType::Timestamp => b == ShapeKind::Simple(Simple::Timestamp),
        ShapeType::List => b is List,
        ShapeType::Set => b is Set,
        ShapeType::Map => b is Map,
        ShapeType::Structure => b is Structure,
        ShapeType::Union => b is Union,
        ShapeType::Service => b is Service,
        ShapeType::Operation => b is Operation,
        ShapeType::Resource => b is Resource,
        ShapeType::Member => false,
    }
}
/// the expressions evaluation is implemented for (variables are passed over, which is not what they mean)
pub open spec fn handled(e: SelectorExpression) -> bool { e is ShapeType }
pub open spec fn kept(t: ShapeType, m: Model, id: ShapeID) -> bool { m.sp_shapes().contains_key(id) && matches_type(t, m.sp_shapes()[id].sp_body()) }
/// `r` is what the expression leaves of `p`
pub open spec fn selected(e: SelectorExpression, m: Model, p: Projection, r: Projection) -> bool {
    match e { SelectorExpression::ShapeType(t) => of_type(t, m, p, r), _ => r == p }
}
pub open spec fn of_type(t: ShapeType, m: Model, p: Projection, r: Projection) -> bool {
    match p {
        Projection::Shapes(v) => r matches Projection::Shapes(w) && w@ == v@.filter(|id: ShapeID| kept(t, m, id)),
        _ => r is Empty,
    }
}
/// the shape matches the first `n` expressions
pub open spec fn passes(e: Seq<SelectorExpression>, n: int, m: Model, id: ShapeID) -> bool {
    forall|i: int| 0 <= i < n ==> match #[trigger] e[i] { SelectorExpression::ShapeType(t) => kept(t, m, id), _ => true }
}
proof fn lemma_filters(s: Seq<ShapeID>, p: spec_fn(ShapeID) -> bool, q: spec_fn(ShapeID) -> bool, r: spec_fn(ShapeID) -> bool)
    requires forall|x: ShapeID| #[trigger] r(x) == (p(x) && q(x)),
    ensures s.filter(p).filter(q) == s.filter(r)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filters(s.drop_last(), p, q, r);
        let t = s.drop_last().filter(p);
        if p(s.last()) { assert(t.push(s.last()).drop_last() =~= t); }
    }
}
proof fn lemma_steps<F: Fn(Projection, &SelectorExpression) -> Projection>(x: Seq<&SelectorExpression>, init: Projection, f: F, s: Seq<Projection>, m: Model, v: Seq<ShapeID>, n: int)
    requires crate::vstdx::folded(x, init, f, s), crate::projection::names(m, v),
        init matches Projection::Shapes(w) && w@ == v,
        forall|k: int, b: Projection, r: Projection| 0 <= k < x.len() && #[trigger] f.ensures((b, x[k]), r) ==> selected(*x[k], m, b, r),
        0 <= n <= x.len(),
    ensures s[n] matches Projection::Shapes(w) && w@ == v.filter(|id: ShapeID| passes(x.unref(), n, m, id))
    decreases n
{
    let pn = |id: ShapeID| passes(x.unref(), n, m, id);
    if n == 0 {
        lemma_all(v, pn);
    } else {
        lemma_steps(x, init, f, s, m, v, n - 1);
        assert(f.ensures((s[n - 1], x[n - 1]), s[n - 1 + 1]));
        assert(x.unref()[n - 1] == *x[n - 1]);
        let pm = |id: ShapeID| passes(x.unref(), n - 1, m, id);
        let e = *x[n - 1];
        assert forall|id: ShapeID| #[trigger] pn(id) == (pm(id) && (e matches SelectorExpression::ShapeType(t) ==> kept(t, m, id))) by {
            if pm(id) && (e matches SelectorExpression::ShapeType(t) ==> kept(t, m, id)) {
                assert forall|i: int| 0 <= i < n implies match #[trigger] x.unref()[i] { SelectorExpression::ShapeType(t) => kept(t, m, id), _ => true } by {}
            }
        }
        match e {
            SelectorExpression::ShapeType(t) => { lemma_filters(v, pm, |id: ShapeID| kept(t, m, id), pn); }
            _ => { assert(pn =~= pm); }
        }
    }
}
proof fn lemma_all(s: Seq<ShapeID>, p: spec_fn(ShapeID) -> bool)
    requires forall|x: ShapeID| #[trigger] p(x),
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_all(s.drop_last(), p); assert(s.drop_last().push(s.last()) =~= s); }
    else { assert(s.filter(p) =~= s); }
}
broadcast proof fn lemma_answer<F: Fn(Projection, &SelectorExpression) -> Projection>(x: Seq<&SelectorExpression>, init: Projection, f: F, s: Seq<Projection>, m: Model, v: Seq<ShapeID>)
    requires #[trigger] crate::vstdx::folded(x, init, f, s), #[trigger] crate::projection::names(m, v),
        init matches Projection::Shapes(w) && w@ == v,
        forall|k: int, b: Projection, r: Projection| 0 <= k < x.len() && #[trigger] f.ensures((b, x[k]), r) ==> selected(*x[k], m, b, r),
    ensures s.last() matches Projection::Shapes(w) && w@ == v.filter(|id: ShapeID| passes(x.unref(), x.len() as int, m, id))
{
    lemma_steps(x, init, f, s, m, v, x.len() as int);
}
pub open spec fn answer(q: Selector, m: Model, v: Seq<ShapeID>, r: Projection) -> bool {
    r matches Projection::Shapes(w) && w@ == v.filter(|id: ShapeID| passes(q.sp_expressions(), q.sp_expressions().len() as int, m, id))
}/// What the answer means: each defined shape that matches every shape type of the selector, once, and nothing else.
proof fn lemma_meaning(q: Selector, m: Model, v: Seq<ShapeID>, r: Projection)
    requires crate::projection::names(m, v), answer(q, m, v, r), ::atelier_core::model::well_keyed(m.sp_shapes()),
    ensures r matches Projection::Shapes(w) && w@.no_duplicates() && forall|id: ShapeID| #[trigger] w@.contains(id) <==> {
        &&& m.sp_shapes().contains_key(id)
        &&& !(m.sp_shapes()[id].sp_body() is Unresolved)
        &&& forall|i: int| 0 <= i < q.sp_expressions().len() ==> match #[trigger] q.sp_expressions()[i] {
            SelectorExpression::ShapeType(t) => matches_type(t, m.sp_shapes()[id].sp_body()), _ => true } }
{
    let p = |id: ShapeID| passes(q.sp_expressions(), q.sp_expressions().len() as int, m, id);
    assert forall|id: ShapeID| #[trigger] v.filter(p).contains(id) <==> v.contains(id) && p(id) by {
        v.filter_lemma(p);
        if v.contains(id) && p(id) {
            let i = choose|i: int| 0 <= i < v.len() && v[i] == id;
            assert(v.filter(p).contains(v[i]));
        }
        if v.filter(p).contains(id) {
            let i = choose|i: int| 0 <= i < v.filter(p).len() && v.filter(p)[i] == id;
            assert(p(v.filter(p)[i]));
            lemma_filter_from(v, p, id);
        }
    }
    lemma_filter_once(v, p);
    assert forall|id: ShapeID| #[trigger] v.contains(id) <==> m.sp_shapes().contains_key(id) && !(m.sp_shapes()[id].sp_body() is Unresolved) by {
        assert(v.contains(id) <==> ::atelier_core::model::named(m.sp_shapes(), id, false));
    }
    let e = q.sp_expressions();
    assert forall|id: ShapeID| m.sp_shapes().contains_key(id) implies #[trigger] p(id) == (forall|i: int| 0 <= i < e.len() ==> match #[trigger] e[i] {
            SelectorExpression::ShapeType(t) => matches_type(t, m.sp_shapes()[id].sp_body()), _ => true }) by {
        if p(id) {
            assert forall|i: int| 0 <= i < e.len() implies match #[trigger] e[i] { SelectorExpression::ShapeType(t) => matches_type(t, m.sp_shapes()[id].sp_body()), _ => true } by {
                assert(match e[i] { SelectorExpression::ShapeType(t) => kept(t, m, id), _ => true });
            }
        }
    }
}
proof fn lemma_filter_from(v: Seq<ShapeID>, p: spec_fn(ShapeID) -> bool, id: ShapeID)
    requires v.filter(p).contains(id),
    ensures v.contains(id)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let t = v.drop_last();
        let i = choose|i: int| 0 <= i < v.filter(p).len() && v.filter(p)[i] == id;
        if i < t.filter(p).len() {
            assert(t.filter(p)[i] == id);
            lemma_filter_from(t, p, id);
            let j = choose|j: int| 0 <= j < t.len() && t[j] == id;
            assert(v[j] == id);
        } else { assert(v[v.len() - 1] == id); }
    }
}
proof fn lemma_filter_once(v: Seq<ShapeID>, p: spec_fn(ShapeID) -> bool)
    requires v.no_duplicates(),
    ensures v.filter(p).no_duplicates()
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() > 0 {
        let t = v.drop_last();
        lemma_filter_once(t, p);
        if p(v.last()) {
            assert forall|i: int| 0 <= i < t.filter(p).len() implies #[trigger] t.filter(p)[i] != v.last() by {
                if t.filter(p)[i] == v.last() {
                    assert(t.filter(p).contains(v.last()));
                    lemma_filter_from(t, p, v.last());
                    let j = choose|j: int| 0 <= j < t.len() && t[j] == v.last();
                    assert(v[j] == v[v.len() - 1]);
                }
            }
        }
    }
}
}
