@include ids_opaque.vc
@include errors.vc
@include values.vc
@item model::shapes::TopLevelShape
#[verus_verify]
@item model::shapes::ShapeKind
#[verus_verify]
@item model::shapes::simple::Simple
#[verus_verify]
@foreach T : MemberShape; ListOrSet; Map; StructureOrUnion.
@item model::shapes::aggregate::$T
#[verus_verify]
@end
@foreach T : Service; Operation; Resource.
@item model::shapes::service::$T
#[verus_verify]
@end

@mod model::shapes::simple
verus!{
impl vstd::std_specs::cmp::PartialEqSpecImpl for Simple {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Simple) -> bool { *self == *other }
}
}
@fn model::shapes::simple::[PartialEq for Simple]::eq
#[verus_verify(external_body)]
@fn model::shapes::simple::[Clone for Simple]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]

@mod model::shapes
verus!{
broadcast use {crate::model::identity::group_keys, crate::vstdx::group_str_keys};
pub open spec fn tv_eq(a: TraitValue, b: TraitValue) -> bool {
    match (a, b) { (Some(x), Some(y)) => crate::model::values::value_eq(x, y), (None, None) => true, _ => false }
}
pub open spec fn tv_conflict(a: TraitValue, b: TraitValue) -> bool {
    !(a matches Some(Value::Array(_)) && b matches Some(Value::Array(_))) && !tv_eq(a, b)
}
pub open spec fn tv_merge(a: TraitValue, b: TraitValue, r: TraitValue) -> bool {
    match (a, b) {
        (Some(Value::Array(x)), Some(Value::Array(y))) => r matches Some(Value::Array(z)) && z@ =~= x@ + y@,
        _ => r == a,
    }
}
impl TopLevelShape {
    pub closed spec fn sp_id(self) -> ShapeID { self.id }
    pub closed spec fn sp_traits(self) -> AppliedTraits { self.traits }
    pub closed spec fn sp_body(self) -> ShapeKind { self.body }
}
/// Everything but the traits.
pub enum Rest { Shape(ShapeID, ShapeKind), Member(Identifier, ShapeID) }
/// The effect of applying trait `id` with value `v` to the trait map `m`.
pub open spec fn trait_applied(m: SMap<ShapeID, TraitValue>, id: ShapeID, v: TraitValue, n: SMap<ShapeID, TraitValue>) -> bool {
    if m.contains_key(id) {
        &&& !tv_conflict(m[id], v)
        &&& n.dom() =~= m.dom()
        &&& tv_merge(m[id], v, n[id])
        &&& forall|k: ShapeID| k != id && m.contains_key(k) ==> #[trigger] n[k] == m[k]
    } else {
        n == m.insert(id, v)
    }
}
}
@for C05
@fn model::shapes::merge_traits
#[verus_spec(r => ensures
    r is Err <==> tv_conflict(*left, *right),
    r is Err ==> r->Err_0.0 == crate::error::ErrorKind::MergeTraitConflict(*id),
    r is Ok ==> tv_merge(*left, *right, r->Ok_0))]
@trait model::shapes::HasTraits
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_traits(&self) -> SMap<ShapeID, TraitValue>; spec fn spec_rest(&self) -> Rest; }
@fn model::shapes::HasTraits::traits
#[verus_spec(r => ensures r@ == self.spec_traits())]
@fn model::shapes::HasTraits::has_trait
#[verus_spec(r => ensures r == self.spec_traits().contains_key(*id))]

@fn model::shapes::HasTraits::traits_mut
#[verus_spec(r => ensures r@ == old(self).spec_traits(), final(self).spec_traits() == final(r)@, final(self).spec_rest() == old(self).spec_rest())]
@fn model::shapes::HasTraits::apply_with_value
#[verus_spec(r => ensures
    final(self).spec_rest() == old(self).spec_rest(),
    r is Ok ==> trait_applied(old(self).spec_traits(), a_trait, value, final(self).spec_traits()),
    r is Err ==> final(self).spec_traits() == old(self).spec_traits(),
    r is Err <==> a_trait.sp_member() is Some
        || old(self).spec_traits().contains_key(a_trait) && tv_conflict(old(self).spec_traits()[a_trait], value))]
@fn model::shapes::HasTraits::trait_named
#[verus_spec(r => ensures match r {
    Some(v) => self.spec_traits().contains_key(*id) && *v == self.spec_traits()[*id],
    None => !self.spec_traits().contains_key(*id) })]
@trait model::identity::HasIdentity
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_id(&self) -> T; spec fn spec_same_but_id(&self, other: &Self) -> bool; }
@fn model::identity::HasIdentity::id
#[verus_spec(r => ensures *r == self.spec_id())]
@fn model::identity::HasIdentity::set_id
#[verus_spec(r => ensures final(self).spec_id() == id, final(self).spec_same_but_id(old(self)))]
@impl model::shapes::[HasIdentity<ShapeID> for TopLevelShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{
    open spec fn spec_id(&self) -> ShapeID { self.sp_id() }
    open spec fn spec_same_but_id(&self, other: &Self) -> bool { self.sp_body() == other.sp_body() && self.sp_traits() == other.sp_traits() }
}
@fn model::shapes::[HasIdentity<ShapeID> for TopLevelShape]::id
@fn model::shapes::[HasIdentity<ShapeID> for TopLevelShape]::set_id
@impl model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{
    open spec fn spec_id(&self) -> Identifier { self.sp_id() }
    open spec fn spec_same_but_id(&self, other: &Self) -> bool { self.sp_target() == other.sp_target() && self.sp_traits() == other.sp_traits() }
}
@fn model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]::id
@fn model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]::set_id

@foreach P X R : model::shapes::[HasTraits.for.TopLevelShape] TopLevelShape Rest::Shape(self.sp_id(),self.sp_body()) ; model::shapes::aggregate::[HasTraits.for.MemberShape] MemberShape Rest::Member(self.sp_id(),self.sp_target()) .
@impl $P
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{
    open spec fn spec_traits(&self) -> SMap<ShapeID, Option<Value>> { self.sp_traits()@ }
    open spec fn spec_rest(&self) -> crate::model::shapes::Rest { crate::model::shapes::$R }
}
@fn $P::traits

@fn $P::traits_mut

@fn $P::apply_with_value

@end

@mod model::shapes::aggregate
verus!{
broadcast use {crate::model::identity::group_keys, crate::vstdx::group_str_keys};
impl MemberShape {
    pub closed spec fn sp_id(self) -> Identifier { self.id }
    pub closed spec fn sp_traits(self) -> AppliedTraits { self.traits }
    pub closed spec fn sp_target(self) -> ShapeID { self.target }
}
}
