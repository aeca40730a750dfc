@include queries.vc
@for C03
@fn model::shapes::HasTraits::has_traits
#[verus_spec(r => ensures r == !(self.spec_traits().dom() =~= SSet::<ShapeID>::empty()))]
@fn model::shapes::HasTraits::remove_trait
#[verus_spec(ensures final(self).spec_rest() == old(self).spec_rest(), final(self).spec_traits() =~= old(self).spec_traits().remove(*id))]
@for C05
@fn model::shapes::HasTraits::apply
#[verus_spec(r => ensures
    final(self).spec_rest() == old(self).spec_rest(),
    r is Ok ==> trait_applied(old(self).spec_traits(), id, None, final(self).spec_traits()),
    r is Err ==> final(self).spec_traits() == old(self).spec_traits(),
    r is Err <==> id.sp_member() is Some
        || old(self).spec_traits().contains_key(id) && tv_conflict(old(self).spec_traits()[id], None))]
@for C03
@fn model::identity::NamespaceID::new_unchecked
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == ns_of(s@))]
@mod model::identity
verus!{
pub uninterp spec fn ns_of(s: Seq<char>) -> NamespaceID;
}
@fn model::identity::ShapeID::new_unchecked
#[verus_spec(r => ensures r.sp_namespace() == ns_of(namespace@), r.sp_name() == id_of(shape_name@),
    r.sp_member() == (match member_name { Some(m) => Some(id_of(m@)), None => None }), member_name is None ==> r == ShapeID::sp_make(ns_of(namespace@), id_of(shape_name@), None))]
@@closure 0
#[verus_spec(i: Identifier => ensures i == id_of(member_name@))]
@mod model::shapes
verus!{
/// the id of the prelude trait with this name
pub open spec fn prelude_id(name: Seq<char>) -> ShapeID {
    ShapeID::sp_make(crate::model::identity::ns_of("smithy.api"@), crate::model::identity::id_of(name), None)
}
}
@mod model::identity
verus!{
impl ShapeID {
    pub closed spec fn sp_make(n: NamespaceID, s: Identifier, m: Option<Identifier>) -> ShapeID { ShapeID { namespace: n, shape_name: s, member_name: m } }
    pub broadcast proof fn lemma_make(n: NamespaceID, s: Identifier, m: Option<Identifier>)
        ensures (#[trigger] Self::sp_make(n, s, m)).sp_namespace() == n, Self::sp_make(n, s, m).sp_name() == s, Self::sp_make(n, s, m).sp_member() == m
    {}
    pub broadcast proof fn lemma_parts(a: ShapeID)
        ensures a == Self::sp_make(#[trigger] a.sp_namespace(), a.sp_name(), a.sp_member())
    {}
}
}
@const prelude::PRELUDE_NAMESPACE
#[verus_verify]
@fn model::shapes::prelude_name
#[verus_spec(r => ensures r == prelude_id(name@))]
@@entry
proof! { broadcast use ShapeID::lemma_make, ShapeID::lemma_parts; }
@foreach F C T : has_documentation DOCUMENTATION documentation ; has_external_documentation EXTERNALDOCUMENTATION externalDocumentation ; has_length LENGTH length ; has_pattern PATTERN pattern ; has_required_length REQUIRESLENGTH requiresLength ; is_boxed BOX box ; is_deprecated DEPRECATED deprecated ; is_error ERROR error ; is_idempotent IDEMPOTENT idempotent ; is_no_replace NOREPLACE noReplace ; is_paginated PAGINATED paginated ; is_private PRIVATE private ; is_readonly READONLY readonly ; is_references REFERENCES references ; is_required REQUIRED required ; is_sensitive SENSITIVE sensitive ; is_streaming STREAMING streaming ; is_since SINCE since ; is_tagged TAGS tags ; is_titled TITLE title ; is_trait TRAIT trait ; has_unique_items UNIQUEITEMS uniqueItems ; is_unstable UNSTABLE unstable .
@const prelude::TRAIT_$C
#[verus_verify]
@fn model::shapes::HasTraits::$F
#[verus_spec(r => ensures r == self.spec_traits().contains_key(prelude_id("$T"@)))]
@end
@for C25
@fn model::shapes::aggregate::StructureOrUnion::with_members
#[verus_spec(r => ensures r.sp_members() == members_of(members@))]
@@loop 0
#[verus_spec(it => invariant it.seq().unref() == members@, new.sp_members() == members_of(members@.take(it.index() as int)))]
@@loopbody 0
proof! { assert(members@.take(it.index() + 1).drop_last() =~= members@.take(it.index() as int)); assert(members@.take(it.index() + 1).last() == *member); }
@@afterloop 0
proof! { assert(members@.take(members@.len() as int) =~= members@); }
@mod model::shapes::aggregate
verus!{
/// the members of a list by name; a later one replaces an earlier one of the same name
pub open spec fn members_of(s: Seq<MemberShape>) -> SMap<Identifier, MemberShape> decreases s.len() {
    if s.len() == 0 { SMap::empty() } else { members_of(s.drop_last()).insert(s.last().sp_id(), s.last()) }
}
}
@for C03 C25
@fn model::shapes::service::Service::version
#[verus_spec(r => ensures r@ == self.sp_version())]
@fn model::shapes::service::Service::set_version
#[verus_spec(requires version@.len() != 0, ensures final(self).sp_version() == version@, Service::only_version(*old(self), *final(self)))]
@fn model::shapes::service::Service::new
#[verus_spec(r => requires version@.len() != 0, ensures r.sp_version() == version@, r.sp_operations() =~= Seq::<ShapeID>::empty(),
    r.sp_resources() =~= Seq::<ShapeID>::empty(), r.sp_renames() =~= SMap::<ShapeID, Identifier>::empty())]
@mod model::shapes::service
verus!{
impl Service {
    pub closed spec fn only_version(a: Self, b: Self) -> bool { b == (Service { version: b.version, ..a }) }
}
}
@fn model::identity::HasIdentity::is
#[verus_spec(r => ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.spec_id(), id))]
@fn model::shapes::aggregate::ListOrSet::set_member
#[verus_spec(requires member.sp_id() == old(self).sp_member().sp_id(), ensures final(self).sp_member() == member)]
@foreach F K V O : set_key key sp_key sp_value ; set_value value sp_value sp_key .
@fn model::shapes::aggregate::Map::$F
#[verus_spec(requires $K.sp_id() == old(self).$V().sp_id(), ensures final(self).$V() == $K, final(self).$O() == old(self).$O())]
@end
