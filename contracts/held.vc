@include grammar.vc
## Hash maps whose keys are identities with their text.  The keys of such a map are equal up to case, so a map is the list of its
## entries, in the order in which it yields them.  `m.keys()`, `m.values()`, `m.contains_key(k)` are verified as `m.vx_keys()` .. below,
## whose bodies are these calls.
@rename keys vx_keys
@rename values vx_values
@rename contains_key vx_contains_key
@crate
pub mod vxheld {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::collections::HashMap;
use vstd::std_specs::iter::IteratorSpec;
verus!{
/// the entries of a map
pub uninterp spec fn held<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub open spec fn held_keys<K, V>(m: HashMap<K, V>) -> Seq<K> { held(m).map_values(|e: (K, V)| e.0) }
pub open spec fn held_values<K, V>(m: HashMap<K, V>) -> Seq<V> { held(m).map_values(|e: (K, V)| e.1) }
/// one of the keys is `==` to `k`
pub uninterp spec fn holds<K, V>(m: HashMap<K, V>, k: K) -> bool;
pub trait VxHeld<K, V>: Sized {
    spec fn vx_map(self) -> HashMap<K, V>;
    fn vx_keys(&self) -> (r: std::collections::hash_map::Keys<'_, K, V>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == held_keys(self.vx_map());
    fn vx_values(&self) -> (r: std::collections::hash_map::Values<'_, K, V>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == held_values(self.vx_map());
    fn vx_contains_key(&self, k: &K) -> (r: bool)
        ensures r == holds(self.vx_map(), *k);
}
impl<K, V> VxHeld<K, V> for HashMap<K, V> {
    open spec fn vx_map(self) -> HashMap<K, V> { self }
    #[verifier::external_body]
    fn vx_keys(&self) -> std::collections::hash_map::Keys<'_, K, V> { self.keys() }
    #[verifier::external_body]
    fn vx_values(&self) -> std::collections::hash_map::Values<'_, K, V> { self.values() }
    #[verifier::external_body]
    // `self.contains_key(k)`: the bounds `K: Eq + Hash` it needs would make the contract of `==` depend on itself
    fn vx_contains_key(&self, k: &K) -> bool { unimplemented!() }
}
}
}
@for C14 C18 C27
@item Version
#[verus_verify]
@item model::Model
#[verus_verify]
@item model::shapes::TopLevelShape
#[verus_verify]
@item model::shapes::ShapeKind
#[verus_verify]
@item model::shapes::simple::Simple
#[verus_verify]
@foreach T : MemberShape; ListOrSet; Map; StructureOrUnion.
@item model::shapes::aggregate::$T
#[verus_verify]
@end
@foreach T : Service; Operation; Resource.
@item model::shapes::service::$T
#[verus_verify]
@end
@include values.vc
@for C14 C18 C27
@mod model
verus!{
use crate::vxheld::VxHeld;
impl Model { pub closed spec fn sp_shapes(self) -> Seq<TopLevelShape> { crate::vxheld::held_values(self.shapes) } }
}
@mod model::shapes
verus!{
use crate::vxheld::VxHeld;
impl TopLevelShape {
    pub closed spec fn sp_id(self) -> ShapeID { self.id }
    pub closed spec fn sp_traits(self) -> AppliedTraits { self.traits }
    pub closed spec fn sp_body(self) -> ShapeKind { self.body }
}
}
@mod model::shapes::aggregate
verus!{
use crate::vxheld::VxHeld;
impl MemberShape {
    pub closed spec fn sp_id(self) -> Identifier { self.id }
    pub closed spec fn sp_traits(self) -> AppliedTraits { self.traits }
    pub closed spec fn sp_target(self) -> ShapeID { self.target }
}
impl StructureOrUnion { pub closed spec fn sp_members(self) -> Seq<MemberShape> { crate::vxheld::held_values(self.members) } }
}
@fn model::Model::shapes
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_shapes())]
@fn model::shapes::aggregate::StructureOrUnion::members
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_members())]
@fn model::shapes::TopLevelShape::body
#[verus_spec(r => ensures *r == self.sp_body())]
@fn model::shapes::aggregate::MemberShape::target
#[verus_spec(r => ensures *r == self.sp_target())]
@trait model::shapes::HasTraits
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_traits(&self) -> AppliedTraits; }
@fn model::shapes::HasTraits::traits
#[verus_spec(r => ensures *r == self.spec_traits())]
@fn model::shapes::HasTraits::traits_mut
@fn model::shapes::HasTraits::apply_with_value
@fn model::shapes::HasTraits::has_trait
#[verus_spec(r => ensures r == crate::vxheld::holds(self.spec_traits(), *id))]
@trait model::identity::HasIdentity
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn spec_id(&self) -> T; }
@fn model::identity::HasIdentity::id
#[verus_spec(r => ensures *r == self.spec_id())]
@fn model::identity::HasIdentity::set_id
@impl model::shapes::[HasIdentity<ShapeID> for TopLevelShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{ open spec fn spec_id(&self) -> ShapeID { self.sp_id() } }
@fn model::shapes::[HasIdentity<ShapeID> for TopLevelShape]::id
@fn model::shapes::[HasIdentity<ShapeID> for TopLevelShape]::set_id
@impl model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{ open spec fn spec_id(&self) -> Identifier { self.sp_id() } }
@fn model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]::id
@fn model::shapes::aggregate::[HasIdentity<Identifier> for MemberShape]::set_id
@foreach P X : model::shapes::[HasTraits.for.TopLevelShape] TopLevelShape ; model::shapes::aggregate::[HasTraits.for.MemberShape] MemberShape .
@impl $P
#[verus_verify]
@@body
verus_builtin_macros::verus_impl!{ open spec fn spec_traits(&self) -> AppliedTraits { self.sp_traits() } }
@fn $P::traits
@fn $P::traits_mut
@fn $P::apply_with_value
#[verus_verify(external_body)]
@end

