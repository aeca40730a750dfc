@include merge.vc
@for C08
@mod model
verus!{
/// `id` is the id of a shape of `m` that is (un)resolved.
pub open spec fn named(m: SMap<ShapeID, TopLevelShape>, id: ShapeID, unresolved: bool) -> bool {
    exists|k: ShapeID| #[trigger] m.contains_key(k) && m[k].sp_id() == id && (m[k].sp_body() is Unresolved) == unresolved
}
/// Every shape is stored under its own id: the case unless someone changes the id of a stored shape.
pub open spec fn well_keyed(m: SMap<ShapeID, TopLevelShape>) -> bool { forall|k: ShapeID| #[trigger] m.contains_key(k) ==> m[k].sp_id() == k }
proof fn lemma_picked(s: Seq<&TopLevelShape>, p: spec_fn(int) -> bool)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].sp_id() != #[trigger] s[j].sp_id(),
    ensures forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() ==> #[trigger] s.filter_index(p)[i].sp_id() != #[trigger] s.filter_index(p)[j].sp_id()
    decreases s.len()
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i].sp_id() != #[trigger] t[j].sp_id() by { assert(t[i] == s[i] && t[j] == s[j]); }
        lemma_picked(t, p);
        t.lemma_filter_index(p);
        assert forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() implies #[trigger] s.filter_index(p)[i].sp_id() != #[trigger] s.filter_index(p)[j].sp_id() by {
            if j == t.filter_index(p).len() {
                let k = choose|k: int| 0 <= k < t.len() && p(k) && t[k] == t.filter_index(p)[i];
                assert(s[k].sp_id() != s[s.len() - 1].sp_id());
            }
        }
    }
}
broadcast proof fn lemma_names_distinct(m: SMap<ShapeID, TopLevelShape>, s: Seq<&TopLevelShape>, p: spec_fn(int) -> bool)
    requires s.unref().to_set() == m.values(), s.len() == m.dom().len(), well_keyed(m),
    ensures #![trigger s.unref().to_set(), m.values(), s.filter_index(p)]
        forall|i: int, j: int| 0 <= i < j < s.filter_index(p).len() ==> #[trigger] s.filter_index(p)[i].sp_id() != #[trigger] s.filter_index(p)[j].sp_id(),
{
    let t = s.map_values(|x: &TopLevelShape| x.sp_id());
    crate::vstdx::lemma_values_seq(m, s);
    assert forall|k: ShapeID| t.to_set().contains(k) <==> m.dom().contains(k) by {
        if t.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
            assert(crate::vstdx::map_has_value(m, *s[i]));
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == m[k];
            assert(t[i] == k);
        }
    }
    assert(t.to_set() =~= m.dom());
    t.lemma_no_dup_set_cardinality();
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].sp_id() != #[trigger] s[j].sp_id() by { assert(t[i] != t[j]); }
    lemma_picked(s, p);
}
}
@foreach F U : shape_names false ; unresolved_shape_names true .
@fn model::Model::$F
#[verus_spec(r => ensures
    r.obeys_prophetic_iter_laws(),
    r.decrease() is Some,
    forall|i: int| 0 <= i < r.remaining().len() ==> named(self.sp_shapes(), *#[trigger] r.remaining()[i], $U),
    r.will_return_none() ==> forall|id: ShapeID| #[trigger] named(self.sp_shapes(), id, $U) ==>
        exists|i: int| 0 <= i < r.remaining().len() && *#[trigger] r.remaining()[i] == id,
    r.will_return_none() && well_keyed(self.sp_shapes()) ==> r.remaining().unref().no_duplicates())]
@@entry
proof! { broadcast use crate::vstdx::group_iters, lemma_names_distinct; }
@@closure 0
#[verus_spec(b: bool => ensures b == ((shape.sp_body() is Unresolved) == $U))]
@@closure 1
#[verus_spec(x: (&ShapeID) => ensures *x == shape.sp_id())]
@end
@fn model::Model::namespaces
#[verus_spec(r => ensures forall|n: NamespaceID| #[trigger] nsset(r, n) <==>
    exists|id: ShapeID| #[trigger] named(self.sp_shapes(), id, false) && id.sp_namespace() == n)]
@@entry
proof! { broadcast use crate::vstdx::group_iters; }
@@closure 0
#[verus_spec(x: (&NamespaceID) => ensures *x == id.sp_namespace())]
@mod model
verus!{
pub open spec fn nsset(s: HashSet<&NamespaceID>, n: NamespaceID) -> bool { s@.contains(&n) }
}
