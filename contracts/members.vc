@include shapes.vc
@for C03 C25
## ---- kinds
@foreach M V : simple Simple ; list List ; set Set ; map Map ; structure Structure ; union Union ; service Service ; operation Operation ; resource Resource .
@fn model::shapes::ShapeKind::is_$M
#[verus_spec(r => ensures r == (self is $V))]
@fn model::shapes::ShapeKind::as_$M
#[verus_spec(r => ensures match r { Some(v) => *self == ShapeKind::$V(*v), None => !(self is $V) })]
@fn model::shapes::TopLevelShape::is_$M
#[verus_spec(r => ensures r == (self.sp_body() is $V))]
@end
@fn model::shapes::ShapeKind::is_unresolved
#[verus_spec(r => ensures r == (self is Unresolved))]
@fn model::shapes::TopLevelShape::is_unresolved
#[verus_spec(r => ensures r == (self.sp_body() is Unresolved))]
@foreach V T M : Simple Simple simple ; Service Service service ; Operation Operation operation ; Resource Resource resource .
@fn model::shapes::[From<$T> for ShapeKind]::from
#[verus_verify]
#[verus_spec(r => ensures r == ShapeKind::$V(body))]
@mod model::shapes
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for ShapeKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> ShapeKind { ShapeKind::$V(v) }
}
}
@end
@fn model::shapes::TopLevelShape::new
#[verus_spec(r => ensures r.sp_id() == id, r.sp_body() == body, r.sp_traits()@ =~= SMap::<_, _>::empty())]
@fn model::shapes::TopLevelShape::with_traits
#[verus_spec(r => ensures r.sp_id() == id, r.sp_body() == body, r.sp_traits() == traits)]
@fn model::shapes::TopLevelShape::body
#[verus_spec(r => ensures *r == self.sp_body())]
@fn model::shapes::TopLevelShape::body_mut
#[verus_spec(r => ensures *r == old(self).sp_body(), final(self).sp_body() == *final(r),
    final(self).sp_id() == old(self).sp_id(), final(self).sp_traits() == old(self).sp_traits())]
@fn model::shapes::TopLevelShape::set_body
#[verus_spec(ensures final(self).sp_body() == body, final(self).sp_id() == old(self).sp_id(), final(self).sp_traits() == old(self).sp_traits())]
@fn model::shapes::TopLevelShape::has_members
#[verus_spec(r => ensures r == !(self.sp_body() is Simple || self.sp_body() is Unresolved))]

## ---- members
@fn model::shapes::aggregate::MemberShape::new
#[verus_spec(r => ensures r.sp_id() == id, r.sp_target() == target, r.sp_traits()@ =~= SMap::<_, _>::empty())]
@fn model::shapes::aggregate::MemberShape::with_traits
#[verus_spec(r => ensures r.sp_id() == id, r.sp_target() == target, r.sp_traits() == traits)]
@fn model::shapes::aggregate::MemberShape::target
#[verus_spec(r => ensures *r == self.sp_target())]
@fn model::shapes::aggregate::MemberShape::set_target
#[verus_spec(ensures final(self).sp_target() == target, final(self).sp_id() == old(self).sp_id(), final(self).sp_traits() == old(self).sp_traits())]
@fn model::shapes::aggregate::[Clone for MemberShape]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@fn model::shapes::aggregate::ListOrSet::new
#[verus_spec(r => ensures r.sp_member().sp_id() == crate::model::identity::id_of("member"@), r.sp_member().sp_target() == member_target, r.sp_member().sp_traits()@ =~= SMap::<_, _>::empty())]
@fn model::shapes::aggregate::ListOrSet::member
#[verus_spec(r => ensures *r == self.sp_member())]
@fn model::shapes::aggregate::Map::new
#[verus_spec(r => ensures r.sp_key().sp_id() == crate::model::identity::id_of("key"@), r.sp_value().sp_id() == crate::model::identity::id_of("value"@), r.sp_key().sp_target() == key_target, r.sp_value().sp_target() == value_target,
    r.sp_key().sp_traits()@ =~= SMap::<_, _>::empty(), r.sp_value().sp_traits()@ =~= SMap::<_, _>::empty())]
@fn model::shapes::aggregate::Map::from
#[verus_spec(r => ensures r.sp_key() == key, r.sp_value() == value)]
@fn model::shapes::aggregate::Map::key
#[verus_spec(r => ensures *r == self.sp_key())]
@fn model::shapes::aggregate::Map::value
#[verus_spec(r => ensures *r == self.sp_value())]
@mod model::shapes::aggregate
verus!{
impl ListOrSet {
    pub open(crate) spec fn sp_member(self) -> MemberShape { self.member }
}
impl Map {
    pub open(crate) spec fn sp_key(self) -> MemberShape { self.key }
    pub open(crate) spec fn sp_value(self) -> MemberShape { self.value }
}
impl StructureOrUnion {
    pub open(crate) spec fn sp_members(self) -> SMap<Identifier, MemberShape> { self.members@ }
}
}
@impl model::shapes::aggregate::[Default for StructureOrUnion]
#[verus_verify]
@fn model::shapes::aggregate::[Default for StructureOrUnion]::default
#[verus_spec(r => ensures r.sp_members() =~= SMap::<Identifier, MemberShape>::empty())]
@fn model::shapes::aggregate::StructureOrUnion::new
#[verus_spec(r => ensures r.sp_members() =~= SMap::<Identifier, MemberShape>::empty())]
@fn model::shapes::aggregate::StructureOrUnion::has_members
#[verus_spec(r => ensures r == !(self.sp_members().dom() =~= SSet::<Identifier>::empty()))]
@fn model::shapes::aggregate::StructureOrUnion::has_member
#[verus_spec(r => ensures r == self.sp_members().contains_key(*member_name))]
@fn model::shapes::aggregate::StructureOrUnion::member
#[verus_spec(r => ensures match r {
    Some(m) => self.sp_members().contains_key(*member_name) && *m == self.sp_members()[*member_name],
    None => !self.sp_members().contains_key(*member_name) })]
@fn model::shapes::aggregate::StructureOrUnion::remove_member
#[verus_spec(r => ensures final(self).sp_members() =~= old(self).sp_members().remove(*member_name),
    match r {
        Some(m) => old(self).sp_members().contains_key(*member_name) && m == old(self).sp_members()[*member_name],
        None => !old(self).sp_members().contains_key(*member_name) })]
@fn model::shapes::aggregate::StructureOrUnion::members
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref().to_set() == self.sp_members().values(), r.remaining().len() == self.sp_members().dom().len())]
@fn model::shapes::aggregate::StructureOrUnion::add_member
#[verus_spec(ensures
    final(self).sp_members().dom() =~= old(self).sp_members().dom().insert(member_name),
    forall|k: Identifier| k != member_name && old(self).sp_members().contains_key(k) ==> #[trigger] final(self).sp_members()[k] == old(self).sp_members()[k],
    final(self).sp_members()[member_name].sp_id() == member_name,
    final(self).sp_members()[member_name].sp_target() == target,
    final(self).sp_members()[member_name].sp_traits()@ =~= SMap::<_, _>::empty())]
@fn model::shapes::aggregate::StructureOrUnion::add_a_member
#[verus_spec(r => ensures final(self).sp_members() =~= old(self).sp_members().insert(member.sp_id(), member),
    match r {
        Some(m) => old(self).sp_members().contains_key(member.sp_id()) && m == old(self).sp_members()[member.sp_id()],
        None => !old(self).sp_members().contains_key(member.sp_id()) })]

## ---- service shapes
@mod model::shapes::service
verus!{
broadcast use {crate::model::identity::group_keys, crate::vstdx::group_str_keys};
}
@foreach T C M : Service operations operation ; Service resources resource ; Operation errors error ; Resource operations operation ; Resource collection_operations collection_operation ; Resource resources resource .
@mod model::shapes::service
verus!{
impl $T {
    pub closed spec fn sp_$C(self) -> Seq<ShapeID> { self.$C@ }
    pub closed spec fn only_$C(a: Self, b: Self) -> bool { b == ($T { $C: b.$C, ..a }) }
}
}
@fn model::shapes::service::$T::has_$C
#[verus_spec(r => ensures r == (self.sp_$C().len() != 0))]
@fn model::shapes::service::$T::$C
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_$C())]
@fn model::shapes::service::$T::set_$C
#[verus_spec(ensures final(self).sp_$C() =~= $C@, $T::only_$C(*old(self), *final(self)))]
@fn model::shapes::service::$T::add_$M
#[verus_spec(ensures final(self).sp_$C() =~= old(self).sp_$C().push($M), $T::only_$C(*old(self), *final(self)))]
@fn model::shapes::service::$T::append_$C
#[verus_spec(ensures final(self).sp_$C() =~= old(self).sp_$C() + $C@, $T::only_$C(*old(self), *final(self)))]
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == $C@,
    self.sp_$C() =~= old(self).sp_$C() + it.seq().unref().take(it.index() as int),
    $T::only_$C(*old(self), *self))]
@fn model::shapes::service::$T::remove_$M
#[verus_spec(ensures final(self).sp_$C() =~= old(self).sp_$C().filter(|x: ShapeID| x != *$M), $T::only_$C(*old(self), *final(self)))]
@@closure 0
#[verus_spec(b: bool => ensures b == (*item != *$M))]
@end
@foreach T F : Operation input ; Operation output ; Resource create ; Resource put ; Resource read ; Resource update ; Resource delete ; Resource list .
@mod model::shapes::service
verus!{
impl $T {
    pub closed spec fn sp_$F(self) -> Option<ShapeID> { self.$F }
    pub closed spec fn only_$F(a: Self, b: Self) -> bool { b == ($T { $F: b.$F, ..a }) }
}
}
@fn model::shapes::service::$T::has_$F
#[verus_spec(r => ensures r == (self.sp_$F() is Some))]
@fn model::shapes::service::$T::$F
#[verus_spec(r => ensures *r == self.sp_$F())]
@fn model::shapes::service::$T::set_$F
#[verus_spec(ensures final(self).sp_$F() == Some($F), $T::only_$F(*old(self), *final(self)))]
@fn model::shapes::service::$T::unset_$F
#[verus_spec(ensures final(self).sp_$F() is None, $T::only_$F(*old(self), *final(self)))]
@end
@foreach T C M K V : Service renames rename_shape ShapeID Identifier .
@mod model::shapes::service
verus!{
impl $T {
    pub closed spec fn sp_$C(self) -> SMap<$K, $V> { self.$C@ }
    pub closed spec fn only_$C(a: Self, b: Self) -> bool { b == ($T { $C: b.$C, ..a }) }
}
}
@fn model::shapes::service::$T::has_$C
#[verus_spec(r => ensures r == !(self.sp_$C().dom() =~= SSet::<$K>::empty()))]
@fn model::shapes::service::$T::set_$C
#[verus_spec(ensures final(self).sp_$C() == $C@, $T::only_$C(*old(self), *final(self)))]
@fn model::shapes::service::$T::has_$M
#[verus_spec(r => ensures r == self.sp_$C().contains_key(*$M))]
@fn model::shapes::service::$T::contains_$M
#[verus_spec(r => ensures match r {
    Some(v) => self.sp_$C().contains_key(*$M) && *v == self.sp_$C()[*$M],
    None => !self.sp_$C().contains_key(*$M) })]
@fn model::shapes::service::$T::insert_$M
#[verus_spec(r => ensures final(self).sp_$C() =~= old(self).sp_$C().insert($M, local_name), $T::only_$C(*old(self), *final(self)),
    match r { Some(v) => old(self).sp_$C().contains_key($M) && v == old(self).sp_$C()[$M], None => !old(self).sp_$C().contains_key($M) })]
@fn model::shapes::service::$T::remove_$M
#[verus_spec(r => ensures final(self).sp_$C() =~= old(self).sp_$C().remove(*$M), $T::only_$C(*old(self), *final(self)),
    match r { Some(v) => old(self).sp_$C().contains_key(*$M) && v == old(self).sp_$C()[*$M], None => !old(self).sp_$C().contains_key(*$M) })]
@end
@mod model::shapes::service
verus!{
impl Resource {
    pub closed spec fn sp_identifiers(self) -> SMap<Identifier, ShapeID> { self.identifiers@ }
    pub closed spec fn only_identifiers(a: Self, b: Self) -> bool { b == (Resource { identifiers: b.identifiers, ..a }) }
}
}
@fn model::shapes::service::Resource::has_identifiers
#[verus_spec(r => ensures r == !(self.sp_identifiers().dom() =~= SSet::<Identifier>::empty()))]
@fn model::shapes::service::Resource::has_identifier
#[verus_spec(r => ensures r == self.sp_identifiers().contains_key(*name))]
@fn model::shapes::service::Resource::identifier
#[verus_spec(r => ensures match r {
    Some(v) => self.sp_identifiers().contains_key(*name) && *v == self.sp_identifiers()[*name],
    None => !self.sp_identifiers().contains_key(*name) })]
@fn model::shapes::service::Resource::add_identifier
#[verus_spec(r => ensures final(self).sp_identifiers() =~= old(self).sp_identifiers().insert(name, target), Resource::only_identifiers(*old(self), *final(self)),
    match r { Some(v) => old(self).sp_identifiers().contains_key(name) && v == old(self).sp_identifiers()[name], None => !old(self).sp_identifiers().contains_key(name) })]
@fn model::shapes::service::Resource::remove_identifier
#[verus_spec(r => ensures final(self).sp_identifiers() =~= old(self).sp_identifiers().remove(*name), Resource::only_identifiers(*old(self), *final(self)),
    match r { Some(v) => old(self).sp_identifiers().contains_key(*name) && v == old(self).sp_identifiers()[*name], None => !old(self).sp_identifiers().contains_key(*name) })]
@fn model::shapes::service::Resource::set_identifiers
#[verus_spec(ensures final(self).sp_identifiers() == identifiers@, Resource::only_identifiers(*old(self), *final(self)))]
@fn model::shapes::service::Resource::has_any_resource_operation
#[verus_spec(r => ensures r == (self.sp_create() is Some || self.sp_put() is Some || self.sp_read() is Some || self.sp_update() is Some
    || self.sp_delete() is Some || self.sp_list() is Some))]
@foreach T F K : Operation set_input_shape input ; Operation set_output_shape output .
@fn model::shapes::service::$T::$F
#[verus_spec(ensures $T::only_$K(*old(self), *final(self)),
    final(self).sp_$K() == if shape.sp_body() is Operation || shape.sp_body() is Resource || shape.sp_body() is Service || shape.sp_body() is Unresolved
        { old(self).sp_$K() } else { Some(shape.sp_id()) })]
@end
@fn model::shapes::service::Operation::add_error_shape
#[verus_spec(ensures Operation::only_errors(*old(self), *final(self)),
    final(self).sp_errors() =~= if shape.sp_body() is Operation || shape.sp_body() is Resource || shape.sp_body() is Service || shape.sp_body() is Unresolved
        { old(self).sp_errors() } else { old(self).sp_errors().push(shape.sp_id()) })]
@foreach K : create ; put ; read ; update ; delete ; list .
@fn model::shapes::service::Resource::set_$K_operation_shape
#[verus_spec(ensures Resource::only_$K(*old(self), *final(self)),
    final(self).sp_$K() == if shape.sp_body() is Operation { Some(shape.sp_id()) } else { old(self).sp_$K() })]
@end
@foreach T C F V : Service operations add_operation_shape Operation ; Service resources add_resource_shape Resource ; Resource operations add_operation_shape Operation ; Resource collection_operations add_collection_operation_shape Operation ; Resource resources add_resource_shape Resource .
@fn model::shapes::service::$T::$F
#[verus_spec(ensures $T::only_$C(*old(self), *final(self)),
    final(self).sp_$C() =~= if shape.sp_body() is $V { old(self).sp_$C().push(shape.sp_id()) } else { old(self).sp_$C() })]
@end
@foreach T : Operation ; Resource .
@impl model::shapes::service::[Default for $T]
#[verus_verify]
@end
@fn model::shapes::service::[Default for Operation]::default
#[verus_spec(r => ensures r.sp_input() is None, r.sp_output() is None, r.sp_errors() =~= Seq::<ShapeID>::empty())]
@fn model::shapes::service::[Default for Resource]::default
#[verus_spec(r => ensures r.sp_create() is None, r.sp_put() is None, r.sp_read() is None, r.sp_update() is None, r.sp_delete() is None, r.sp_list() is None,
    r.sp_identifiers() =~= SMap::<Identifier, ShapeID>::empty(), r.sp_operations() =~= Seq::<ShapeID>::empty(),
    r.sp_collection_operations() =~= Seq::<ShapeID>::empty(), r.sp_resources() =~= Seq::<ShapeID>::empty())]
