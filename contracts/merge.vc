@include model.vc
@for C06 C07
@mod model::shapes::service
verus!{
impl Service { pub closed spec fn sp_version(self) -> Seq<char> { self.version@ } }
pub open spec fn same_service(a: Service, b: Service) -> bool {
    a.sp_version() =~= b.sp_version() && a.sp_operations() =~= b.sp_operations() && a.sp_resources() =~= b.sp_resources() && a.sp_renames() =~= b.sp_renames()
}
pub open spec fn same_operation(a: Operation, b: Operation) -> bool {
    a.sp_input() == b.sp_input() && a.sp_output() == b.sp_output() && a.sp_errors() =~= b.sp_errors()
}
pub open spec fn same_resource(a: Resource, b: Resource) -> bool {
    &&& a.sp_create() == b.sp_create() && a.sp_put() == b.sp_put() && a.sp_read() == b.sp_read() && a.sp_update() == b.sp_update()
    &&& a.sp_delete() == b.sp_delete() && a.sp_list() == b.sp_list() && a.sp_identifiers() =~= b.sp_identifiers()
    &&& a.sp_operations() =~= b.sp_operations() && a.sp_collection_operations() =~= b.sp_collection_operations() && a.sp_resources() =~= b.sp_resources()
}
}
@foreach T F : Service service ; Operation operation ; Resource resource .
@mod model::shapes::service
verus!{
impl vstd::std_specs::cmp::PartialEqSpecImpl for $T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &$T) -> bool { same_$F(*self, *other) }
}
}
@end
@fn model::shapes::service::[PartialEq for Service]::eq
#[verus_verify]
@@entry
proof! {
    assert(self.version == other.version ==> self.version@ == other.version@);
}
@foreach T : Operation ; Resource .
@fn model::shapes::service::[PartialEq for $T]::eq
#[verus_verify]
@end
@trait model::shapes::NonTraitEq
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_same(&self, other: &Self) -> bool; }
@fn model::shapes::NonTraitEq::equal_without_traits
#[verus_spec(r => ensures r == self.spec_same(other))]
@impl model::shapes::aggregate::[NonTraitEq for MemberShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{ open spec fn spec_same(&self, other: &Self) -> bool { same_member(*self, *other) } }
@fn model::shapes::aggregate::[NonTraitEq for MemberShape]::equal_without_traits
@mod model::shapes::aggregate
verus!{
pub open spec fn same_member(a: MemberShape, b: MemberShape) -> bool { a.sp_id() == b.sp_id() && a.sp_target() == b.sp_target() }
pub open spec fn same_members(a: SMap<Identifier, MemberShape>, b: SMap<Identifier, MemberShape>) -> bool {
    a.dom() =~= b.dom() && forall|k: Identifier| #[trigger] a.contains_key(k) ==> same_member(a[k], b[k])
}
}
@impl model::shapes::[NonTraitEq for TopLevelShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{ open spec fn spec_same(&self, other: &Self) -> bool { self.sp_id() == other.sp_id() && same_body(self.sp_body(), other.sp_body()) } }
@mod model::shapes
verus!{
pub open spec fn same_body(a: ShapeKind, b: ShapeKind) -> bool {
    match (a, b) {
        (ShapeKind::Simple(x), ShapeKind::Simple(y)) => x == y,
        (ShapeKind::List(x), ShapeKind::List(y)) => crate::model::shapes::aggregate::same_member(x.sp_member(), y.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y)) => crate::model::shapes::aggregate::same_member(x.sp_member(), y.sp_member()),
        (ShapeKind::Map(x), ShapeKind::Map(y)) => crate::model::shapes::aggregate::same_member(x.sp_key(), y.sp_key())
            && crate::model::shapes::aggregate::same_member(x.sp_value(), y.sp_value()),
        (ShapeKind::Structure(x), ShapeKind::Structure(y)) => crate::model::shapes::aggregate::same_members(x.sp_members(), y.sp_members()),
        (ShapeKind::Union(x), ShapeKind::Union(y)) => crate::model::shapes::aggregate::same_members(x.sp_members(), y.sp_members()),
        (ShapeKind::Service(x), ShapeKind::Service(y)) => crate::model::shapes::service::same_service(x, y),
        (ShapeKind::Operation(x), ShapeKind::Operation(y)) => crate::model::shapes::service::same_operation(x, y),
        (ShapeKind::Resource(x), ShapeKind::Resource(y)) => crate::model::shapes::service::same_resource(x, y),
        (ShapeKind::Unresolved, ShapeKind::Unresolved) => true,
        _ => false,
    }
}
}
@fn model::shapes::[NonTraitEq for TopLevelShape]::equal_without_traits
@foreach N : 0 ; 1 .
@@closure $N
#[verus_spec(b: bool => ensures b == (r.sp_members().contains_key(*vx_p0.0)
    && crate::model::shapes::aggregate::same_member(*vx_p0.1, r.sp_members()[*vx_p0.0])))]
@end
@mod model
verus!{
use crate::model::shapes::aggregate::MemberShape;
use crate::model::shapes::{traits_merged, traits_conflict, same_body};
pub open spec fn member_merged(a: MemberShape, b: MemberShape, r: MemberShape) -> bool {
    r.sp_id() == a.sp_id() && r.sp_target() == a.sp_target() && traits_merged(a.sp_traits()@, b.sp_traits()@, r.sp_traits()@)
}
pub open spec fn member_conflict(a: MemberShape, b: MemberShape) -> bool { traits_conflict(a.sp_traits()@, b.sp_traits()@) }
pub open spec fn members_merged(a: SMap<Identifier, MemberShape>, b: SMap<Identifier, MemberShape>, r: SMap<Identifier, MemberShape>) -> bool {
    &&& r.dom() =~= a.dom()
    &&& forall|k: Identifier| #[trigger] r.contains_key(k) ==> if b.contains_key(k) { member_merged(a[k], b[k], r[k]) } else { r[k] == a[k] }
}
pub open spec fn members_conflict(a: SMap<Identifier, MemberShape>, b: SMap<Identifier, MemberShape>) -> bool {
    exists|k: Identifier| #[trigger] b.contains_key(k) && a.contains_key(k) && member_conflict(a[k], b[k])
}
pub open spec fn body_merged(a: ShapeKind, b: ShapeKind, r: ShapeKind) -> bool {
    match (a, b) {
        (ShapeKind::List(x), ShapeKind::List(y)) => r matches ShapeKind::List(z) && member_merged(x.sp_member(), y.sp_member(), z.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y)) => r matches ShapeKind::Set(z) && member_merged(x.sp_member(), y.sp_member(), z.sp_member()),
        (ShapeKind::Map(x), ShapeKind::Map(y)) => r matches ShapeKind::Map(z) && member_merged(x.sp_key(), y.sp_key(), z.sp_key())
            && member_merged(x.sp_value(), y.sp_value(), z.sp_value()),
        (ShapeKind::Structure(x), ShapeKind::Structure(y)) => r matches ShapeKind::Structure(z) && members_merged(x.sp_members(), y.sp_members(), z.sp_members()),
        (ShapeKind::Union(x), ShapeKind::Union(y)) => r matches ShapeKind::Union(z) && members_merged(x.sp_members(), y.sp_members(), z.sp_members()),
        _ => r == a,
    }
}
pub open spec fn body_conflict(a: ShapeKind, b: ShapeKind) -> bool {
    match (a, b) {
        (ShapeKind::List(x), ShapeKind::List(y)) => member_conflict(x.sp_member(), y.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y)) => member_conflict(x.sp_member(), y.sp_member()),
        (ShapeKind::Map(x), ShapeKind::Map(y)) => member_conflict(x.sp_key(), y.sp_key()) || member_conflict(x.sp_value(), y.sp_value()),
        (ShapeKind::Structure(x), ShapeKind::Structure(y)) => members_conflict(x.sp_members(), y.sp_members()),
        (ShapeKind::Union(x), ShapeKind::Union(y)) => members_conflict(x.sp_members(), y.sp_members()),
        _ => false,
    }
}
}
@for C06 C07
@fn model::copy_traits
#[verus_spec(r => ensures
    final(to_shape).spec_rest() == old(to_shape).spec_rest(),
    r is Ok ==> traits_merged(old(to_shape).spec_traits(), from_shape.spec_traits(), final(to_shape).spec_traits()),
    r is Err <==> traits_conflict(old(to_shape).spec_traits(), from_shape.spec_traits()))]
@@iter 0 vx_iter
@@loop 0
#[verus_spec(it => invariant
    to_shape.spec_rest() == old(to_shape).spec_rest(),
    entries_of(from_shape.spec_traits(), unref2(it.seq())),
    !traits_conflict(old(to_shape).spec_traits(), prefix(unref2(it.seq()), it.index() as int)),
    traits_merged(old(to_shape).spec_traits(), prefix(unref2(it.seq()), it.index() as int), to_shape.spec_traits()))]
@@loopbody 0
proof! {
    assert(from_shape.spec_traits().contains_key(*id) && from_shape.spec_traits()[*id] == *value);
}
@fn model::copy_member_traits
#[verus_spec(r => ensures
    r is Ok ==> body_merged(*old(to_body), *from_body, *final(to_body)),
    r is Err <==> body_conflict(*old(to_body), *from_body))]
@@splitarms
@foreach N K : 0 Structure ; 1 Union .
@@iter $N vx_iter
@@loop $N
#[verus_spec(it => invariant
    *from_body == ShapeKind::$K(*from), *old(to_body) is $K,
    entries_of(from.sp_members(), unref2(it.seq())),
    !members_conflict(old(to_body).sp_members_of(), prefix(unref2(it.seq()), it.index() as int)),
    members_merged(old(to_body).sp_members_of(), prefix(unref2(it.seq()), it.index() as int), to.sp_members()))]
@end
@mod model::shapes
verus!{
impl ShapeKind {
    pub open spec fn sp_members_of(self) -> SMap<Identifier, crate::model::shapes::aggregate::MemberShape> {
        match self { ShapeKind::Structure(s) => s.sp_members(), ShapeKind::Union(s) => s.sp_members(), _ => arbitrary() }
    }
}
}
@for C06 C07
@foreach T : ListOrSet ; Map .
@fn model::shapes::aggregate::[Clone for $T]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]
@end
@fn model::shapes::aggregate::[Clone for StructureOrUnion]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@foreach T : Service ; Operation ; Resource .
@fn model::shapes::service::[Clone for $T]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@end
@fn model::shapes::[Clone for ShapeKind]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]
@mod model
verus!{
pub open spec fn shape_conflict(a: TopLevelShape, b: TopLevelShape) -> bool {
    ||| traits_conflict(a.sp_traits()@, b.sp_traits()@)
    ||| !(a.sp_body() is Unresolved) && !(b.sp_body() is Unresolved)
        && (a.sp_id() != b.sp_id() || !same_body(a.sp_body(), b.sp_body()) || body_conflict(a.sp_body(), b.sp_body()))
}
pub open spec fn shape_merged(a: TopLevelShape, b: TopLevelShape, r: TopLevelShape) -> bool {
    &&& r.sp_id() == a.sp_id()
    &&& traits_merged(a.sp_traits()@, b.sp_traits()@, r.sp_traits()@)
    &&& if a.sp_body() is Unresolved { r.sp_body() == b.sp_body() }
        else if b.sp_body() is Unresolved { r.sp_body() == a.sp_body() }
        else { body_merged(a.sp_body(), b.sp_body(), r.sp_body()) }
}
pub open spec fn bad_id(s: TopLevelShape) -> bool { s.sp_id().sp_member() is Some && !(s.sp_body() is Unresolved) }
pub open spec fn shapes_merged(a: SMap<ShapeID, TopLevelShape>, b: SMap<ShapeID, TopLevelShape>, r: SMap<ShapeID, TopLevelShape>) -> bool {
    &&& r.dom() =~= a.dom().union(b.dom())
    &&& forall|k: ShapeID| #[trigger] r.contains_key(k) ==>
        if !b.contains_key(k) { r[k] == a[k] } else if !a.contains_key(k) { r[k] == b[k] } else { shape_merged(a[k], b[k], r[k]) }
}
pub open spec fn shapes_conflict(a: SMap<ShapeID, TopLevelShape>, b: SMap<ShapeID, TopLevelShape>) -> bool {
    exists|k: ShapeID| #[trigger] b.contains_key(k) && (bad_id(b[k]) || a.contains_key(k) && shape_conflict(a[k], b[k]))
}
}
@fn model::Model::add_shape
#[verus_spec(r => ensures
    final(self).sp_metadata() == old(self).sp_metadata(), final(self).sp_version() == old(self).sp_version(),
    r is Ok ==> shapes_merged(old(self).sp_shapes(), SMap::<ShapeID, TopLevelShape>::empty().insert(shape.sp_id(), shape), final(self).sp_shapes()),
    r is Err <==> bad_id(shape) || old(self).sp_shapes().contains_key(shape.sp_id()) && shape_conflict(old(self).sp_shapes()[shape.sp_id()], shape),
    r is Err ==> forall|k: ShapeID| k != shape.sp_id() ==> old(self).sp_shapes().contains_key(k) == #[trigger] final(self).sp_shapes().contains_key(k)
        && (old(self).sp_shapes().contains_key(k) ==> final(self).sp_shapes()[k] == old(self).sp_shapes()[k]))]
@for C04 C06 C07
@fn [PartialEq for Version]::eq
#[verus_verify]
@mod model
verus!{
impl vstd::std_specs::cmp::PartialEqSpecImpl for crate::Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &crate::Version) -> bool { *self == *other }
}
impl Model {
    /// Every shape is stored under its own id.
    pub open spec fn sp_wf(self) -> bool { forall|k: ShapeID| #[trigger] self.sp_shapes().contains_key(k) ==> self.sp_shapes()[k].sp_id() == k }
}
pub open spec fn meta_conflicts(a: SMap<String, Value>, b: SMap<String, Value>) -> bool {
    exists|k: String| #[trigger] b.contains_key(k) && a.contains_key(k) && meta_conflict(a[k], b[k])
}
}
@fn model::Model::merge
#[verus_spec(r =>
    requires other.sp_wf(),
    ensures
    r is Ok ==> meta_merged(old(self).sp_metadata(), other.sp_metadata(), final(self).sp_metadata()),
    r is Ok ==> shapes_merged(old(self).sp_shapes(), other.sp_shapes(), final(self).sp_shapes()),
    r is Err <==> other.sp_version() != old(self).sp_version() || meta_conflicts(old(self).sp_metadata(), other.sp_metadata())
        || shapes_conflict(old(self).sp_shapes(), other.sp_shapes()))]
@@iter 0 vx_entries
@@loop 0
#[verus_spec(it => invariant
    other.sp_wf(),
    entries_of(other.sp_metadata(), it.seq()),
    self.sp_shapes() == old(self).sp_shapes(),
    !meta_conflicts(old(self).sp_metadata(), prefix(it.seq(), it.index() as int)),
    meta_merged(old(self).sp_metadata(), prefix(it.seq(), it.index() as int), self.sp_metadata()))]
@@loopbody 0
proof! {
    assert(other.sp_metadata().contains_key(key) && other.sp_metadata()[key] == value);
    assert(old(self).sp_metadata().contains_key(key) <==> self.sp_metadata().contains_key(key));
    assert(old(self).sp_metadata().contains_key(key) ==> self.sp_metadata()[key] == old(self).sp_metadata()[key]);
}
@@iter 1 vx_entries
@@loop 1
#[verus_spec(it => invariant
    other.sp_wf(),
    entries_of(other.sp_shapes(), it.seq()),
    meta_merged(old(self).sp_metadata(), other.sp_metadata(), self.sp_metadata()),
    !shapes_conflict(old(self).sp_shapes(), prefix(it.seq(), it.index() as int)),
    shapes_merged(old(self).sp_shapes(), prefix(it.seq(), it.index() as int), self.sp_shapes()))]
@for C07
@mod model::values
verus!{
/// The derived `==` of values is symmetric and transitive (not reflexive: NaN), and never holds between an array and another kind.
pub broadcast axiom fn axiom_value_eq_sym(a: Value, b: Value) ensures #[trigger] value_eq(a, b) == value_eq(b, a);
pub axiom fn axiom_value_eq_trans(a: Value, b: Value, c: Value) requires value_eq(a, b), value_eq(b, c) ensures value_eq(a, c);
pub broadcast axiom fn axiom_value_eq_array(a: Value, b: Value) ensures #[trigger] value_eq(a, b) ==> (a is Array) == (b is Array);
}
@mod model::shapes
verus!{
/// Equal up to the order of the elements of an array.
pub open spec fn tv_similar(a: TraitValue, b: TraitValue) -> bool {
    ||| a == b
    ||| tv_eq(a, b)
    ||| (a matches Some(Value::Array(x)) && b matches Some(Value::Array(y)) && x@.to_multiset() =~= y@.to_multiset())
}
pub open spec fn traits_similar(a: SMap<ShapeID, TraitValue>, b: SMap<ShapeID, TraitValue>) -> bool {
    a.dom() =~= b.dom() && forall|k: ShapeID| #[trigger] a.contains_key(k) ==> tv_similar(a[k], b[k])
}
/// No member id is applied as a trait (`apply_with_value` never lets one in).
pub open spec fn traits_wf(a: SMap<ShapeID, TraitValue>) -> bool { forall|k: ShapeID| #[trigger] a.contains_key(k) ==> k.sp_member() is None }
pub proof fn lemma_tv_sym(a: TraitValue, b: TraitValue, r: TraitValue, s: TraitValue)
    ensures
        tv_conflict(a, b) == tv_conflict(b, a),
        !tv_conflict(a, b) && tv_merge(a, b, r) && tv_merge(b, a, s) ==> tv_similar(r, s),
{
    broadcast use {crate::model::values::axiom_value_eq_sym, crate::model::values::axiom_value_eq_array};
    match (a, b, r, s) {
        (Some(Value::Array(x)), Some(Value::Array(y)), Some(Value::Array(z)), Some(Value::Array(w))) => {
            if z@ =~= x@ + y@ && w@ =~= y@ + x@ {
                vstd::seq_lib::lemma_multiset_commutative(x@, y@);
                vstd::seq_lib::lemma_multiset_commutative(y@, x@);
                assert(z@.to_multiset() =~= w@.to_multiset());
            }
        }
        _ => { }
    }
}
pub proof fn lemma_traits_sym(a: SMap<ShapeID, TraitValue>, b: SMap<ShapeID, TraitValue>, r: SMap<ShapeID, TraitValue>, s: SMap<ShapeID, TraitValue>)
    requires traits_wf(a), traits_wf(b),
    ensures
        traits_conflict(a, b) == traits_conflict(b, a),
        !traits_conflict(a, b) && traits_merged(a, b, r) && traits_merged(b, a, s) ==> traits_similar(r, s),
{
    assert forall|k: ShapeID| a.contains_key(k) && b.contains_key(k) implies #[trigger] tv_conflict(a[k], b[k]) == tv_conflict(b[k], a[k]) by {
        lemma_tv_sym(a[k], b[k], None, None);
    }
    if traits_conflict(a, b) {
        let k = choose|k: ShapeID| #[trigger] b.contains_key(k) && (k.sp_member() is Some || a.contains_key(k) && tv_conflict(a[k], b[k]));
        assert(a.contains_key(k) && tv_conflict(b[k], a[k]));
    }
    if traits_conflict(b, a) {
        let k = choose|k: ShapeID| #[trigger] a.contains_key(k) && (k.sp_member() is Some || b.contains_key(k) && tv_conflict(b[k], a[k]));
        assert(b.contains_key(k) && tv_conflict(a[k], b[k]));
    }
    if !traits_conflict(a, b) && traits_merged(a, b, r) && traits_merged(b, a, s) {
        assert forall|k: ShapeID| #[trigger] r.contains_key(k) implies tv_similar(r[k], s[k]) by {
            assert(s.contains_key(k));
            if a.contains_key(k) && b.contains_key(k) {
                lemma_tv_sym(a[k], b[k], r[k], s[k]);
            }
        }
    }
}
}
@mod model
verus!{
use crate::model::shapes::{traits_similar, traits_wf, lemma_traits_sym};
use crate::model::shapes::aggregate::{same_member, same_members};
pub open spec fn member_similar(a: MemberShape, b: MemberShape) -> bool { same_member(a, b) && traits_similar(a.sp_traits()@, b.sp_traits()@) }
pub open spec fn members_similar(a: SMap<Identifier, MemberShape>, b: SMap<Identifier, MemberShape>) -> bool {
    a.dom() =~= b.dom() && forall|k: Identifier| #[trigger] a.contains_key(k) ==> member_similar(a[k], b[k])
}
pub open spec fn body_similar(a: ShapeKind, b: ShapeKind) -> bool {
    match (a, b) {
        (ShapeKind::List(x), ShapeKind::List(y)) => member_similar(x.sp_member(), y.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y)) => member_similar(x.sp_member(), y.sp_member()),
        (ShapeKind::Map(x), ShapeKind::Map(y)) => member_similar(x.sp_key(), y.sp_key()) && member_similar(x.sp_value(), y.sp_value()),
        (ShapeKind::Structure(x), ShapeKind::Structure(y)) => members_similar(x.sp_members(), y.sp_members()),
        (ShapeKind::Union(x), ShapeKind::Union(y)) => members_similar(x.sp_members(), y.sp_members()),
        _ => same_body(a, b),
    }
}
pub open spec fn shape_similar(a: TopLevelShape, b: TopLevelShape) -> bool {
    a.sp_id() == b.sp_id() && traits_similar(a.sp_traits()@, b.sp_traits()@) && body_similar(a.sp_body(), b.sp_body())
}
pub open spec fn shapes_similar(a: SMap<ShapeID, TopLevelShape>, b: SMap<ShapeID, TopLevelShape>) -> bool {
    a.dom() =~= b.dom() && forall|k: ShapeID| #[trigger] a.contains_key(k) ==> shape_similar(a[k], b[k])
}
pub open spec fn members_wf(a: SMap<Identifier, MemberShape>) -> bool { forall|k: Identifier| #[trigger] a.contains_key(k) ==> traits_wf(a[k].sp_traits()@) }
pub open spec fn body_wf(a: ShapeKind) -> bool {
    match a {
        ShapeKind::List(x) => traits_wf(x.sp_member().sp_traits()@),
        ShapeKind::Set(x) => traits_wf(x.sp_member().sp_traits()@),
        ShapeKind::Map(x) => traits_wf(x.sp_key().sp_traits()@) && traits_wf(x.sp_value().sp_traits()@),
        ShapeKind::Structure(x) => members_wf(x.sp_members()),
        ShapeKind::Union(x) => members_wf(x.sp_members()),
        _ => true,
    }
}
/// Shapes under their own ids, defined ones under shape ids; no member id applied as a trait.
pub open spec fn shapes_wf(a: SMap<ShapeID, TopLevelShape>) -> bool {
    forall|k: ShapeID| #[trigger] a.contains_key(k) ==> a[k].sp_id() == k && !bad_id(a[k]) && traits_wf(a[k].sp_traits()@) && body_wf(a[k].sp_body())
}
pub proof fn lemma_member_sym(a: MemberShape, b: MemberShape, r: MemberShape, s: MemberShape)
    requires traits_wf(a.sp_traits()@), traits_wf(b.sp_traits()@),
    ensures
        member_conflict(a, b) == member_conflict(b, a),
        same_member(a, b) && !member_conflict(a, b) && member_merged(a, b, r) && member_merged(b, a, s) ==> member_similar(r, s),
{
    lemma_traits_sym(a.sp_traits()@, b.sp_traits()@, r.sp_traits()@, s.sp_traits()@);
}
pub proof fn lemma_members_sym(a: SMap<Identifier, MemberShape>, b: SMap<Identifier, MemberShape>, r: SMap<Identifier, MemberShape>, s: SMap<Identifier, MemberShape>)
    requires members_wf(a), members_wf(b), same_members(a, b),
    ensures
        members_conflict(a, b) == members_conflict(b, a),
        !members_conflict(a, b) && members_merged(a, b, r) && members_merged(b, a, s) ==> members_similar(r, s),
{
    assert forall|k: Identifier| #[trigger] a.contains_key(k) implies member_conflict(a[k], b[k]) == member_conflict(b[k], a[k]) by {
        lemma_member_sym(a[k], b[k], a[k], b[k]);
    }
    if members_conflict(a, b) {
        let k = choose|k: Identifier| #[trigger] b.contains_key(k) && a.contains_key(k) && member_conflict(a[k], b[k]);
        assert(a.contains_key(k) && b.contains_key(k) && member_conflict(b[k], a[k]));
    }
    if members_conflict(b, a) {
        let k = choose|k: Identifier| #[trigger] a.contains_key(k) && b.contains_key(k) && member_conflict(b[k], a[k]);
        assert(b.contains_key(k) && a.contains_key(k) && member_conflict(a[k], b[k]));
    }
    if !members_conflict(a, b) && members_merged(a, b, r) && members_merged(b, a, s) {
        assert forall|k: Identifier| #[trigger] r.contains_key(k) implies member_similar(r[k], s[k]) by {
            assert(a.contains_key(k) && b.contains_key(k) && s.contains_key(k));
            lemma_member_sym(a[k], b[k], r[k], s[k]);
        }
    }
}
pub proof fn lemma_body_sym(a: ShapeKind, b: ShapeKind, r: ShapeKind, s: ShapeKind)
    requires body_wf(a), body_wf(b),
    ensures
        same_body(a, b) == same_body(b, a),
        same_body(a, b) ==> body_conflict(a, b) == body_conflict(b, a),
        same_body(a, b) && !body_conflict(a, b) && body_merged(a, b, r) && body_merged(b, a, s) ==> body_similar(r, s),
{
    match (a, b, r, s) {
        (ShapeKind::List(x), ShapeKind::List(y), ShapeKind::List(z), ShapeKind::List(w)) => lemma_member_sym(x.sp_member(), y.sp_member(), z.sp_member(), w.sp_member()),
        (ShapeKind::List(x), ShapeKind::List(y), _, _) => lemma_member_sym(x.sp_member(), y.sp_member(), x.sp_member(), y.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y), ShapeKind::Set(z), ShapeKind::Set(w)) => lemma_member_sym(x.sp_member(), y.sp_member(), z.sp_member(), w.sp_member()),
        (ShapeKind::Set(x), ShapeKind::Set(y), _, _) => lemma_member_sym(x.sp_member(), y.sp_member(), x.sp_member(), y.sp_member()),
        (ShapeKind::Map(x), ShapeKind::Map(y), ShapeKind::Map(z), ShapeKind::Map(w)) => {
            lemma_member_sym(x.sp_key(), y.sp_key(), z.sp_key(), w.sp_key());
            lemma_member_sym(x.sp_value(), y.sp_value(), z.sp_value(), w.sp_value());
        }
        (ShapeKind::Map(x), ShapeKind::Map(y), _, _) => {
            lemma_member_sym(x.sp_key(), y.sp_key(), x.sp_key(), y.sp_key());
            lemma_member_sym(x.sp_value(), y.sp_value(), x.sp_value(), y.sp_value());
        }
        (ShapeKind::Structure(x), ShapeKind::Structure(y), ShapeKind::Structure(z), ShapeKind::Structure(w)) => {
            if same_body(a, b) { lemma_members_sym(x.sp_members(), y.sp_members(), z.sp_members(), w.sp_members()); }
        }
        (ShapeKind::Structure(x), ShapeKind::Structure(y), _, _) => {
            if same_body(a, b) { lemma_members_sym(x.sp_members(), y.sp_members(), x.sp_members(), y.sp_members()); }
        }
        (ShapeKind::Union(x), ShapeKind::Union(y), ShapeKind::Union(z), ShapeKind::Union(w)) => {
            if same_body(a, b) { lemma_members_sym(x.sp_members(), y.sp_members(), z.sp_members(), w.sp_members()); }
        }
        (ShapeKind::Union(x), ShapeKind::Union(y), _, _) => {
            if same_body(a, b) { lemma_members_sym(x.sp_members(), y.sp_members(), x.sp_members(), y.sp_members()); }
        }
        _ => { }
    }
}
pub proof fn lemma_similar_refl(a: TopLevelShape) ensures shape_similar(a, a) { }
pub proof fn lemma_shape_sym(a: TopLevelShape, b: TopLevelShape, r: TopLevelShape, s: TopLevelShape)
    requires a.sp_id() == b.sp_id(), traits_wf(a.sp_traits()@), traits_wf(b.sp_traits()@), body_wf(a.sp_body()), body_wf(b.sp_body()),
    ensures
        shape_conflict(a, b) == shape_conflict(b, a),
        !shape_conflict(a, b) && shape_merged(a, b, r) && shape_merged(b, a, s) ==> shape_similar(r, s),
{
    lemma_traits_sym(a.sp_traits()@, b.sp_traits()@, r.sp_traits()@, s.sp_traits()@);
    lemma_body_sym(a.sp_body(), b.sp_body(), r.sp_body(), s.sp_body());
}
/// C07: whether two models merge, and what they merge to up to the order within concatenated arrays, is independent of their order.
pub proof fn lemma_merge_commutes(a: Model, b: Model, r: Model, s: Model)
    requires shapes_wf(a.sp_shapes()), shapes_wf(b.sp_shapes()),
    ensures
        shapes_conflict(a.sp_shapes(), b.sp_shapes()) == shapes_conflict(b.sp_shapes(), a.sp_shapes()),
        meta_conflicts(a.sp_metadata(), b.sp_metadata()) == meta_conflicts(b.sp_metadata(), a.sp_metadata()),
        !shapes_conflict(a.sp_shapes(), b.sp_shapes()) && shapes_merged(a.sp_shapes(), b.sp_shapes(), r.sp_shapes())
            && shapes_merged(b.sp_shapes(), a.sp_shapes(), s.sp_shapes()) ==> shapes_similar(r.sp_shapes(), s.sp_shapes()),
        !meta_conflicts(a.sp_metadata(), b.sp_metadata()) && meta_merged(a.sp_metadata(), b.sp_metadata(), r.sp_metadata())
            && meta_merged(b.sp_metadata(), a.sp_metadata(), s.sp_metadata()) ==> meta_similar(r.sp_metadata(), s.sp_metadata()),
{
    let (x, y) = (a.sp_shapes(), b.sp_shapes());
    assert forall|k: ShapeID| #[trigger] x.contains_key(k) && y.contains_key(k) implies shape_conflict(x[k], y[k]) == shape_conflict(y[k], x[k]) by {
        lemma_shape_sym(x[k], y[k], x[k], y[k]);
    }
    if shapes_conflict(x, y) {
        let k = choose|k: ShapeID| #[trigger] y.contains_key(k) && (bad_id(y[k]) || x.contains_key(k) && shape_conflict(x[k], y[k]));
        assert(x.contains_key(k) && y.contains_key(k));
    }
    if shapes_conflict(y, x) {
        let k = choose|k: ShapeID| #[trigger] x.contains_key(k) && (bad_id(x[k]) || y.contains_key(k) && shape_conflict(y[k], x[k]));
        assert(x.contains_key(k) && y.contains_key(k));
    }
    let (m, n) = (r.sp_shapes(), s.sp_shapes());
    if !shapes_conflict(x, y) && shapes_merged(x, y, m) && shapes_merged(y, x, n) {
        assert forall|k: ShapeID| #[trigger] m.contains_key(k) implies shape_similar(m[k], n[k]) by {
            assert(n.contains_key(k));
            if x.contains_key(k) && y.contains_key(k) { lemma_shape_sym(x[k], y[k], m[k], n[k]); } else { lemma_similar_refl(m[k]); }
        }
    }
    lemma_meta_sym(a.sp_metadata(), b.sp_metadata(), r.sp_metadata(), s.sp_metadata());
}
pub open spec fn meta_similar(a: SMap<String, Value>, b: SMap<String, Value>) -> bool {
    a.dom() =~= b.dom() && forall|k: String| #[trigger] a.contains_key(k) ==> crate::model::shapes::tv_similar(Some(a[k]), Some(b[k]))
}
pub proof fn lemma_meta_sym(a: SMap<String, Value>, b: SMap<String, Value>, r: SMap<String, Value>, s: SMap<String, Value>)
    ensures
        meta_conflicts(a, b) == meta_conflicts(b, a),
        !meta_conflicts(a, b) && meta_merged(a, b, r) && meta_merged(b, a, s) ==> meta_similar(r, s),
{
    assert forall|k: String| #[trigger] a.contains_key(k) && b.contains_key(k) implies meta_conflict(a[k], b[k]) == meta_conflict(b[k], a[k]) by {
        crate::model::shapes::lemma_tv_sym(Some(a[k]), Some(b[k]), None, None);
    }
    if meta_conflicts(a, b) {
        let k = choose|k: String| #[trigger] b.contains_key(k) && a.contains_key(k) && meta_conflict(a[k], b[k]);
        assert(a.contains_key(k) && b.contains_key(k));
    }
    if meta_conflicts(b, a) {
        let k = choose|k: String| #[trigger] a.contains_key(k) && b.contains_key(k) && meta_conflict(b[k], a[k]);
        assert(a.contains_key(k) && b.contains_key(k));
    }
    if !meta_conflicts(a, b) && meta_merged(a, b, r) && meta_merged(b, a, s) {
        assert forall|k: String| #[trigger] r.contains_key(k) implies crate::model::shapes::tv_similar(Some(r[k]), Some(s[k])) by {
            assert(s.contains_key(k));
            if a.contains_key(k) && b.contains_key(k) { crate::model::shapes::lemma_tv_sym(Some(a[k]), Some(b[k]), Some(r[k]), Some(s[k])); }
        }
    }
}
}
