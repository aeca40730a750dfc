## The calls that fill builders (C09): constructors, setters and shorthands of the builders of shapes, members and traits, and those of ModelBuilder.
@include builder.vc
@include id_text.vc
@include fmt.vc
@for C09
@fn model::identity::ShapeID::is_valid
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == reads_sid(s@))]
@fn model::identity::Identifier::is_valid
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == reads_id(s@))]
@mod model::identity
verus!{
/// Letters: these texts are identifiers, and shape ids with the prelude's namespace in front (decided, with the whole grammar, in grammar.vc).
pub open spec fn letters(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' || 'A' <= s[i] <= 'Z' }
pub broadcast axiom fn axiom_letters(s: Seq<char>) ensures letters(s) ==> #[trigger] reads_id(s);
pub open spec fn prelude_text(s: Seq<char>) -> Seq<char> { "smithy.api"@ + "#"@ + s }
pub broadcast axiom fn axiom_prelude_text(s: Seq<char>)
    requires letters(s)
    ensures reads_sid(#[trigger] prelude_text(s)), sid_of(prelude_text(s)) == crate::model::shapes::prelude_id(s);
}
@fn builder::id::[FromStr for ShapeName]::from_str
#[verus_spec(r => ensures match r { Ok(n) => reads_name(id@) && n == name_of(id@), Err(_) => !reads_name(id@) })]
@mod builder::id
verus!{
use crate::model::identity::{reads_id, reads_sid, sid_of, id_of};
/// an absolute id, or else an identifier
pub open spec fn reads_name(s: Seq<char>) -> bool { reads_sid(s) || reads_id(s) }
pub open spec fn name_of(s: Seq<char>) -> ShapeName { if reads_sid(s) { ShapeName::Qualified(sid_of(s)) } else { ShapeName::Local(id_of(s)) } }
}
@foreach C : BLOB ; BOOLEAN ; DOCUMENT ; STRING ; BYTE ; SHORT ; INTEGER ; LONG ; FLOAT ; DOUBLE ; BIGINTEGER ; BIGDECIMAL ; TIMESTAMP .
@const prelude::SHAPE_$C
#[verus_verify]
@end
@mod builder::shapes
verus!{
broadcast use crate::model::identity::group_keys;
use crate::builder::id::{reads_name, name_of};
use crate::model::identity::{reads_id, reads_sid, sid_of, id_of, letters, prelude_text};
use crate::model::shapes::prelude_id;
}
@mod builder::shapes
verus!{
impl SimpleShapeBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (SimpleShapeBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_simple_shape(self) -> Simple { self.simple_shape }
    pub open(in crate::builder) spec fn only_simple_shape(a: Self, b: Self) -> bool { b == (SimpleShapeBuilder { simple_shape: b.simple_shape, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (SimpleShapeBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl ListBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (ListBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_member(self) -> MemberBuilder { self.member }
    pub open(in crate::builder) spec fn only_member(a: Self, b: Self) -> bool { b == (ListBuilder { member: b.member, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (ListBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl MapBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (MapBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_key(self) -> MemberBuilder { self.key }
    pub open(in crate::builder) spec fn only_key(a: Self, b: Self) -> bool { b == (MapBuilder { key: b.key, ..a }) }
    pub open(in crate::builder) spec fn sp_value(self) -> MemberBuilder { self.value }
    pub open(in crate::builder) spec fn only_value(a: Self, b: Self) -> bool { b == (MapBuilder { value: b.value, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (MapBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl StructureBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (StructureBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_members(self) -> Seq<MemberBuilder> { self.members@ }
    pub open(in crate::builder) spec fn only_members(a: Self, b: Self) -> bool { b == (StructureBuilder { members: b.members, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (StructureBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl ServiceBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (ServiceBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_version(self) -> Seq<char> { self.version@ }
    pub open(in crate::builder) spec fn only_version(a: Self, b: Self) -> bool { b == (ServiceBuilder { version: b.version, ..a }) }
    pub open(in crate::builder) spec fn sp_operations(self) -> Seq<ShapeName> { self.operations@ }
    pub open(in crate::builder) spec fn only_operations(a: Self, b: Self) -> bool { b == (ServiceBuilder { operations: b.operations, ..a }) }
    pub open(in crate::builder) spec fn sp_resources(self) -> Seq<ShapeName> { self.resources@ }
    pub open(in crate::builder) spec fn only_resources(a: Self, b: Self) -> bool { b == (ServiceBuilder { resources: b.resources, ..a }) }
    pub open(in crate::builder) spec fn sp_rename_shapes(self) -> vstd::map::Map<ShapeID,Identifier> { self.rename_shapes@ }
    pub open(in crate::builder) spec fn only_rename_shapes(a: Self, b: Self) -> bool { b == (ServiceBuilder { rename_shapes: b.rename_shapes, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (ServiceBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl OperationBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (OperationBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_input(self) -> Option<ShapeName> { self.input }
    pub open(in crate::builder) spec fn only_input(a: Self, b: Self) -> bool { b == (OperationBuilder { input: b.input, ..a }) }
    pub open(in crate::builder) spec fn sp_output(self) -> Option<ShapeName> { self.output }
    pub open(in crate::builder) spec fn only_output(a: Self, b: Self) -> bool { b == (OperationBuilder { output: b.output, ..a }) }
    pub open(in crate::builder) spec fn sp_errors(self) -> Seq<ShapeName> { self.errors@ }
    pub open(in crate::builder) spec fn only_errors(a: Self, b: Self) -> bool { b == (OperationBuilder { errors: b.errors, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (OperationBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl ResourceBuilder {
    pub open(in crate::builder) spec fn sp_shape_name(self) -> ShapeName { self.shape_name }
    pub open(in crate::builder) spec fn only_shape_name(a: Self, b: Self) -> bool { b == (ResourceBuilder { shape_name: b.shape_name, ..a }) }
    pub open(in crate::builder) spec fn sp_identifiers(self) -> vstd::map::Map<Identifier,ShapeName> { self.identifiers@ }
    pub open(in crate::builder) spec fn only_identifiers(a: Self, b: Self) -> bool { b == (ResourceBuilder { identifiers: b.identifiers, ..a }) }
    pub open(in crate::builder) spec fn sp_create(self) -> Option<ShapeName> { self.create }
    pub open(in crate::builder) spec fn only_create(a: Self, b: Self) -> bool { b == (ResourceBuilder { create: b.create, ..a }) }
    pub open(in crate::builder) spec fn sp_put(self) -> Option<ShapeName> { self.put }
    pub open(in crate::builder) spec fn only_put(a: Self, b: Self) -> bool { b == (ResourceBuilder { put: b.put, ..a }) }
    pub open(in crate::builder) spec fn sp_read(self) -> Option<ShapeName> { self.read }
    pub open(in crate::builder) spec fn only_read(a: Self, b: Self) -> bool { b == (ResourceBuilder { read: b.read, ..a }) }
    pub open(in crate::builder) spec fn sp_update(self) -> Option<ShapeName> { self.update }
    pub open(in crate::builder) spec fn only_update(a: Self, b: Self) -> bool { b == (ResourceBuilder { update: b.update, ..a }) }
    pub open(in crate::builder) spec fn sp_delete(self) -> Option<ShapeName> { self.delete }
    pub open(in crate::builder) spec fn only_delete(a: Self, b: Self) -> bool { b == (ResourceBuilder { delete: b.delete, ..a }) }
    pub open(in crate::builder) spec fn sp_list(self) -> Option<ShapeName> { self.list }
    pub open(in crate::builder) spec fn only_list(a: Self, b: Self) -> bool { b == (ResourceBuilder { list: b.list, ..a }) }
    pub open(in crate::builder) spec fn sp_operations(self) -> Seq<ShapeName> { self.operations@ }
    pub open(in crate::builder) spec fn only_operations(a: Self, b: Self) -> bool { b == (ResourceBuilder { operations: b.operations, ..a }) }
    pub open(in crate::builder) spec fn sp_collection_operations(self) -> Seq<ShapeName> { self.collection_operations@ }
    pub open(in crate::builder) spec fn only_collection_operations(a: Self, b: Self) -> bool { b == (ResourceBuilder { collection_operations: b.collection_operations, ..a }) }
    pub open(in crate::builder) spec fn sp_resources(self) -> Seq<ShapeName> { self.resources@ }
    pub open(in crate::builder) spec fn only_resources(a: Self, b: Self) -> bool { b == (ResourceBuilder { resources: b.resources, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (ResourceBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl ReferenceBuilder {
    pub open(in crate::builder) spec fn sp_shape_id(self) -> ShapeName { self.shape_id }
    pub open(in crate::builder) spec fn only_shape_id(a: Self, b: Self) -> bool { b == (ReferenceBuilder { shape_id: b.shape_id, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (ReferenceBuilder { applied_traits: b.applied_traits, ..a }) }
}
impl MemberBuilder {
    pub open(in crate::builder) spec fn sp_member_name(self) -> Identifier { self.member_name }
    pub open(in crate::builder) spec fn only_member_name(a: Self, b: Self) -> bool { b == (MemberBuilder { member_name: b.member_name, ..a }) }
    pub open(in crate::builder) spec fn sp_target(self) -> ShapeName { self.target }
    pub open(in crate::builder) spec fn only_target(a: Self, b: Self) -> bool { b == (MemberBuilder { target: b.target, ..a }) }
    pub open(in crate::builder) spec fn sp_applied_traits(self) -> Seq<TraitBuilder> { self.applied_traits@ }
    pub open(in crate::builder) spec fn only_applied_traits(a: Self, b: Self) -> bool { b == (MemberBuilder { applied_traits: b.applied_traits, ..a }) }
}
}
@fn builder::shapes::SimpleShapeBuilder::new
#[verus_spec(r => requires reads_name(shape_name@) ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_simple_shape() == simple_shape)]
@foreach F V : blob Blob ; boolean Boolean ; document Document ; string String ; byte Byte ; short Short ; integer Integer ; long Long ; float Float ; double Double ; big_integer BigInteger ; big_decimal BigDecimal ; timestamp Timestamp .
@fn builder::shapes::SimpleShapeBuilder::$F
#[verus_spec(r => requires reads_name(shape_name@) ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_simple_shape() == Simple::$V)]
@fn builder::shapes::StructureBuilder::$F
#[verus_spec(r => requires reads_id(id@) ensures *final(self) == *final(r), with_member(*old(self), id_of(id@), name_of("$V"@), *r))]
@@entry
proof! { reveal_strlit("$V"); broadcast use crate::model::identity::axiom_letters; }
@fn builder::shapes::MemberBuilder::$F
#[verus_spec(r => requires reads_id(member_name@) ensures is_plain_member(r, id_of(member_name@), ShapeName::Qualified(prelude_id("$V"@))))]
@end
@fn builder::shapes::ListBuilder::new
#[verus_spec(r => requires reads_name(shape_name@), reads_name(member_target@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), is_plain_member(r.sp_member(), id_of("member"@), name_of(member_target@)))]
@@entry
proof! { reveal_strlit("member"); broadcast use crate::model::identity::axiom_letters; }
@fn builder::shapes::ListBuilder::with_target
#[verus_spec(r => requires reads_name(shape_name@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), is_plain_member(r.sp_member(), id_of("member"@), member_target))]
@@entry
proof! { reveal_strlit("member"); broadcast use crate::model::identity::axiom_letters; }
@fn builder::shapes::ListBuilder::target
#[verus_spec(ensures ListBuilder::only_member(*old(self), *final(self)), final(self).sp_member() == member)]
@fn builder::shapes::MapBuilder::new
#[verus_spec(r => requires reads_name(shape_name@), reads_name(key_target@), reads_name(value_target@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), is_plain_member(r.sp_key(), id_of("key"@), name_of(key_target@)), is_plain_member(r.sp_value(), id_of("value"@), name_of(value_target@)))]
@@entry
proof! { reveal_strlit("key"); reveal_strlit("value"); broadcast use crate::model::identity::axiom_letters; }
@fn builder::shapes::MapBuilder::key
#[verus_spec(ensures MapBuilder::only_key(*old(self), *final(self)), final(self).sp_key() == key)]
@fn builder::shapes::MapBuilder::value
#[verus_spec(ensures MapBuilder::only_value(*old(self), *final(self)), final(self).sp_value() == value)]
@fn builder::shapes::StructureBuilder::new
#[verus_spec(r => requires reads_name(shape_name@) ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_members() =~= Seq::<MemberBuilder>::empty())]
@fn builder::shapes::StructureBuilder::member
#[verus_spec(r => requires reads_id(member_name@), reads_name(member_target@) ensures *final(self) == *final(r), with_member(*old(self), id_of(member_name@), name_of(member_target@), *r))]
@fn builder::shapes::StructureBuilder::add_member
#[verus_spec(r => ensures *final(self) == *final(r), added_member(*old(self), member, *r))]
@fn builder::shapes::MemberBuilder::new
#[verus_spec(r => requires reads_id(member_name@), reads_name(target@) ensures is_plain_member(r, id_of(member_name@), name_of(target@)))]
@fn builder::shapes::MemberBuilder::with_target
#[verus_spec(r => requires reads_id(member_name@) ensures is_plain_member(r, id_of(member_name@), target))]
@fn builder::shapes::MemberBuilder::new_unchecked
#[verus_spec(r => requires reads_id(member_name@) ensures is_plain_member(r, id_of(member_name@),
    ShapeName::Qualified(ShapeID::sp_make(crate::model::identity::ns_of(target_namespace@), id_of(target_shape_name@), None))))]
@@entry
proof! { broadcast use ShapeID::lemma_make; }
@fn builder::shapes::MemberBuilder::name
#[verus_spec(r => ensures *r == self.sp_member_name())]
@fn builder::shapes::MemberBuilder::target
#[verus_spec(r => ensures *r == self.sp_target())]
@mod builder::shapes
verus!{
pub open(in crate::builder) spec fn is_plain_member(m: MemberBuilder, name: Identifier, target: ShapeName) -> bool { m.member_name == name && m.target == target && m.applied_traits@ =~= Seq::<TraitBuilder>::empty() }
pub open(in crate::builder) spec fn added_member(a: StructureBuilder, m: MemberBuilder, b: StructureBuilder) -> bool { b == (StructureBuilder { members: b.members, ..a }) && b.members@ =~= a.members@.push(m) }
pub open(in crate::builder) spec fn with_member(a: StructureBuilder, name: Identifier, target: ShapeName, b: StructureBuilder) -> bool {
    b == (StructureBuilder { members: b.members, ..a }) && b.members@.len() == a.members@.len() + 1 && b.members@.drop_last() =~= a.members@ && is_plain_member(b.members@.last(), name, target)
}
}
@fn builder::shapes::ServiceBuilder::new
#[verus_spec(r => requires reads_name(shape_name@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_version() == version@, r.sp_operations() =~= Seq::<ShapeName>::empty(), r.sp_resources() =~= Seq::<ShapeName>::empty(),
        r.sp_rename_shapes() =~= vstd::map::Map::<ShapeID, Identifier>::empty())]
@fn builder::shapes::ServiceBuilder::version
#[verus_spec(r => ensures *final(self) == *final(r), ServiceBuilder::only_version(*old(self), *r), r.sp_version() == version@)]
@fn builder::shapes::ServiceBuilder::rename
#[verus_spec(r => requires reads_sid(shape_id@), reads_id(local_name@)
    ensures *final(self) == *final(r), ServiceBuilder::only_rename_shapes(*old(self), *r), r.sp_rename_shapes() == old(self).sp_rename_shapes().insert(sid_of(shape_id@), id_of(local_name@)))]
@fn builder::shapes::OperationBuilder::new
#[verus_spec(r => requires reads_name(shape_name@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_input() is None, r.sp_output() is None, r.sp_errors() =~= Seq::<ShapeName>::empty())]
@fn builder::shapes::ResourceBuilder::new
#[verus_spec(r => requires reads_name(shape_name@)
    ensures r.sp_shape_name() == name_of(shape_name@), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty(), r.sp_identifiers() =~= vstd::map::Map::<Identifier, ShapeName>::empty(),
        r.sp_create() is None, r.sp_put() is None, r.sp_read() is None, r.sp_update() is None, r.sp_delete() is None, r.sp_list() is None,
        r.sp_operations() =~= Seq::<ShapeName>::empty(), r.sp_collection_operations() =~= Seq::<ShapeName>::empty(), r.sp_resources() =~= Seq::<ShapeName>::empty())]
@fn builder::shapes::ResourceBuilder::identifier
#[verus_spec(r => requires reads_id(id@), reads_name(shape_id@)
    ensures *final(self) == *final(r), ResourceBuilder::only_identifiers(*old(self), *r), r.sp_identifiers() == old(self).sp_identifiers().insert(id_of(id@), name_of(shape_id@)))]
@foreach B F : Operation input ; Operation output ; Resource create ; Resource put ; Resource read ; Resource update ; Resource delete ; Resource list .
@fn builder::shapes::$BBuilder::$F
#[verus_spec(r => requires reads_name(shape_id@) ensures *final(self) == *final(r), $BBuilder::only_$F(*old(self), *r), r.sp_$F() == Some(name_of(shape_id@)))]
@end
@foreach B F : Service operation ; Service resource ; Operation error ; Resource operation ; Resource collection_operation ; Resource resource .
@fn builder::shapes::$BBuilder::$F
#[verus_spec(r => requires reads_name(shape_id@) ensures *final(self) == *final(r), $BBuilder::only_$Fs(*old(self), *r), r.sp_$Fs() =~= old(self).sp_$Fs().push(name_of(shape_id@)))]
@fn builder::shapes::$BBuilder::$Fs
#[verus_spec(r => requires all_read(shape_ids@) ensures *final(self) == *final(r), $BBuilder::only_$Fs(*old(self), *r), r.sp_$Fs() =~= old(self).sp_$Fs() + names_of(shape_ids@))]
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == shape_ids@, all_read(shape_ids@),
    $BBuilder::only_$Fs(*old(self), *self), self.sp_$Fs() =~= old(self).sp_$Fs() + names_of(shape_ids@).take(it.index() as int))]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_slice_iters; assert(*shape_id == shape_ids@[it.index() as int]); }
@end
@mod builder::shapes
verus!{
pub open spec fn all_read(s: Seq<&str>) -> bool { forall|i: int| 0 <= i < s.len() ==> reads_name((#[trigger] s[i])@) }
pub open spec fn names_of(s: Seq<&str>) -> Seq<ShapeName> { s.map_values(|t: &str| name_of(t@)) }
}
@fn builder::shapes::ReferenceBuilder::new
#[verus_spec(r => requires reads_sid(shape_name@) ensures r.sp_shape_id() == ShapeName::Qualified(sid_of(shape_name@)), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty())]
@fn builder::shapes::[From<ShapeID> for ReferenceBuilder]::from
#[verus_verify]
#[verus_spec(r => ensures r.sp_shape_id() == ShapeName::Qualified(shape_id), r.sp_applied_traits() =~= Seq::<TraitBuilder>::empty())]
@mod builder::shapes
verus!{
impl vstd::std_specs::convert::FromSpecImpl<ShapeID> for ReferenceBuilder {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ShapeID) -> ReferenceBuilder { arbitrary() }
}
}
## ---- values
@include value_from.vc
@include source_text.vc
@for C09
@crate
pub mod vxpanic {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
verus!{
pub assume_specification<T: std::fmt::Display> [core::panicking::panic_display] (t: &T) -> ! requires false;
pub assume_specification<T> [<T as std::convert::From<T>>::from] (t: T) -> (r: T) ensures r == t;
}
}
@fn model::values::[From<&str> for Value]::from
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == crate::builder::traits::text(v@))]
@fn model::values::[From<ShapeID> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures exists|s: String| r == Value::String(s) && #[trigger] vstd::string::to_string_from_display_ensures(&v, s))]
@fn model::values::[From<Number> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Number(n))]
@mod model::values
verus!{
impl vstd::std_specs::convert::FromSpecImpl<&str> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &str) -> Value { crate::builder::traits::text(v@) }
}
impl vstd::std_specs::convert::FromSpecImpl<ShapeID> for Value {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ShapeID) -> Value { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Number> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Number) -> Value { Value::Number(v) }
}
}
@mod builder::traits
verus!{
use crate::vstdx::{SMap, str_key};
use crate::builder::id::{reads_name, name_of};
use crate::model::shapes::prelude_id;
broadcast use {crate::vstdx::axiom_str_key_of_view, crate::vstdx::axiom_str_key_view, crate::model::identity::axiom_prelude_text, crate::model::identity::axiom_string_key};
pub open spec fn text(s: Seq<char>) -> Value { Value::String(str_key(s)) }
pub open spec fn int(n: i64) -> Value { Value::Number(Number::Integer(n)) }
pub open spec fn is_object(v: Value, m: SMap<String, Value>) -> bool { v matches Value::Object(h) && h@ =~= m }
pub open spec fn is_texts(v: Value, s: Seq<&str>) -> bool { v matches Value::Array(h) && h@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] h@[i] == text(s[i]@) }
pub type Fields = SMap<String, Value>;
pub open spec fn no_fields() -> Fields { SMap::empty() }
/// the field `k`, where there is one
pub open spec fn text_field(m: Fields, k: Seq<char>, v: Option<&str>) -> Fields { match v { Some(v) => m.insert(str_key(k), text(v@)), None => m } }
pub open spec fn int_field(m: Fields, k: Seq<char>, v: Option<usize>) -> Fields { match v { Some(v) => m.insert(str_key(k), int(v as i64)), None => m } }
pub open spec fn fits(v: Option<usize>) -> bool { v matches Some(v) ==> v <= i64::MAX }
impl TraitBuilder {
    pub open(crate) spec fn sp_name(self) -> ShapeName { self.shape_id }
    pub open(crate) spec fn sp_value(self) -> Option<Value> { self.value }
    pub open(crate) spec fn only_value(a: Self, b: Self) -> bool { a.shape_id == b.shape_id }
    pub open(crate) spec fn is(self, n: ShapeName) -> bool { self.shape_id == n }
    pub open(crate) spec fn is_prelude(self, n: Seq<char>) -> bool { self.shape_id == ShapeName::Qualified(prelude_id(n)) }
    /// the prelude's trait of this name
    pub open(crate) spec fn annotates(self, n: Seq<char>) -> bool { self.is_prelude(n) && self.has_object(no_fields()) }
    pub open(crate) spec fn bare(self, n: Seq<char>) -> bool { self.is_prelude(n) && self.value is None }
    pub open(crate) spec fn says(self, n: Seq<char>, t: Seq<char>) -> bool { self.is_prelude(n) && self.value == Some(text(t)) }
    pub open(crate) spec fn has(self, n: Seq<char>, m: Fields) -> bool { self.is_prelude(n) && self.has_object(m) }
    pub open(crate) spec fn has_object(self, m: Fields) -> bool { self.value matches Some(v) && is_object(v, m) }
    pub open(crate) spec fn lists(self, n: Seq<char>, s: Seq<&str>) -> bool { self.is_prelude(n) && (self.value matches Some(v) && is_texts(v, s)) }
    pub open(crate) spec fn holds(self, n: Seq<char>, v: Value) -> bool { self.is_prelude(n) && self.value == Some(v) }
}
}
@const syntax::SHAPE_ID_ABSOLUTE_SEPARATOR
#[verus_verify]
@fn builder::traits::prelude_name
#[verus_spec(r => ensures r@ =~= crate::model::identity::prelude_text(name@))]
@@entry
proof! { reveal_strlit(""); reveal_strlit("#"); reveal_strlit("smithy.api"); }
@fn builder::traits::TraitBuilder::new
#[verus_spec(r => requires reads_name(id@) ensures r.sp_name() == name_of(id@), r.sp_value() is None)]
@fn builder::traits::TraitBuilder::annotation
#[verus_spec(r => requires reads_name(id@) ensures r.sp_name() == name_of(id@), r.has_object(no_fields()))]
@fn builder::traits::TraitBuilder::with_value
#[verus_spec(r => requires reads_name(id@) ensures r.sp_name() == name_of(id@), r.sp_value() == Some(value))]
@fn builder::traits::TraitBuilder::value
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_name() == old(self).sp_name(), r.sp_value() == Some(value))]
@foreach F V : array Array(value) ; object Object(value) ; number Number(value) ; integer Number(Number::Integer(value)) ; float Number(Number::Float(value)) ; boolean Boolean(value) .
@fn builder::traits::TraitBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_name() == old(self).sp_name(), r.sp_value() == Some(Value::$V))]
@end
@fn builder::traits::TraitBuilder::string
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_name() == old(self).sp_name(), r.sp_value() == Some(text(value@)))]
@fn builder::traits::TraitBuilder::reference
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_name() == old(self).sp_name(), exists|s: String| r.sp_value() == Some(Value::String(s)) && #[trigger] vstd::string::to_string_from_display_ensures(&value, s))]
## ---- ObjectBuilder
@item builder::values::ObjectBuilder
#[verus_verify]
@mod model::values
verus!{
impl vstd::std_specs::convert::FromSpecImpl<crate::builder::ObjectBuilder> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: crate::builder::ObjectBuilder) -> Value { Value::Object(v.sp_fields()) }
}
}
@mod builder::values
verus!{
use crate::builder::traits::{text, int};
use crate::vstdx::str_key;
broadcast use {crate::vstdx::axiom_str_key_of_view, crate::vstdx::axiom_str_key_view, crate::model::identity::axiom_string_key};
impl ObjectBuilder {
    pub closed spec fn sp_fields(self) -> HashMap<String, Value> { self.inner }
    pub open spec fn sp_inner(self) -> vstd::map::Map<String, Value> { self.sp_fields()@ }
}
}
@fn builder::values::[Default for ObjectBuilder]::default
#[verus_verify]
#[verus_spec(r => ensures r.sp_inner() =~= vstd::map::Map::<String, Value>::empty())]
@fn builder::values::[From<ObjectBuilder> for Value]::from
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == Value::Object(builder.sp_fields()))]
@@outline vx_object
(builder: ObjectBuilder) -> Value
vx_object(builder)
@fn builder::values::vx_object
#[verus_spec(r => ensures r == Value::Object(builder.sp_fields()))]
@foreach F T V : insert Value v ; number Number Value::Number(v) ; integer i64 int(v) ; float f64 Value::Number(Number::Float(v)) ; boolean bool Value::Boolean(v) ; string &str text(v@) ; reference &str text(v@) .
@fn builder::values::ObjectBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_inner() =~= old(self).sp_inner().insert(str_key(k@), $V))]
@end
@const prelude::TRAIT_RANGE
#[verus_verify]
## ---- the traits of the prelude
@fn builder::traits::boxed
#[verus_spec(r => ensures r.annotates("box"@))]
@@entry
proof! { reveal_strlit("box"); }
@fn builder::traits::idempotent
#[verus_spec(r => ensures r.annotates("idempotent"@))]
@@entry
proof! { reveal_strlit("idempotent"); }
@fn builder::traits::no_replace
#[verus_spec(r => ensures r.annotates("noReplace"@))]
@@entry
proof! { reveal_strlit("noReplace"); }
@fn builder::traits::private
#[verus_spec(r => ensures r.annotates("private"@))]
@@entry
proof! { reveal_strlit("private"); }
@fn builder::traits::readonly
#[verus_spec(r => ensures r.annotates("readonly"@))]
@@entry
proof! { reveal_strlit("readonly"); }
@fn builder::traits::required
#[verus_spec(r => ensures r.annotates("required"@))]
@@entry
proof! { reveal_strlit("required"); }
@fn builder::traits::requires_length
#[verus_spec(r => ensures r.annotates("requiresLength"@))]
@@entry
proof! { reveal_strlit("requiresLength"); }
@fn builder::traits::sensitive
#[verus_spec(r => ensures r.annotates("sensitive"@))]
@@entry
proof! { reveal_strlit("sensitive"); }
@fn builder::traits::streaming
#[verus_spec(r => ensures r.annotates("streaming"@))]
@@entry
proof! { reveal_strlit("streaming"); }
@fn builder::traits::unique_items
#[verus_spec(r => ensures r.annotates("uniqueItems"@))]
@@entry
proof! { reveal_strlit("uniqueItems"); }
@fn builder::traits::unstable
#[verus_spec(r => ensures r.bare("unstable"@))]
@@entry
proof! { reveal_strlit("unstable"); }
@fn builder::traits::a_trait
#[verus_spec(r => ensures r.bare("trait"@))]
@@entry
proof! { reveal_strlit("trait"); }
@fn builder::traits::documentation
#[verus_spec(r => ensures r.says("documentation"@, value@))]
@@entry
proof! { reveal_strlit("documentation"); }
@fn builder::traits::error_source
#[verus_spec(r => ensures r.says("error"@, source_text(src)))]
@@entry
proof! { reveal_strlit("error"); broadcast use crate::vstdf::axiom_to_string; }
@fn builder::traits::pattern
#[verus_spec(r => requires pat@.len() > 0 ensures r.says("pattern"@, pat@))]
@@entry
proof! { reveal_strlit("pattern"); }
@fn builder::traits::since
#[verus_spec(r => requires date@.len() > 0 ensures r.says("since"@, date@))]
@@entry
proof! { reveal_strlit("since"); }
@fn builder::traits::title
#[verus_spec(r => ensures r.says("title"@, title_text@))]
@@param title title_text
@@entry
proof! { reveal_strlit("title"); }
@fn builder::traits::tagged
#[verus_verify(external_body)]
#[verus_spec(r => ensures r.lists("tags"@, tags@))]
@fn builder::traits::references
#[verus_spec(r => requires reference_list is Array ensures r.holds("references"@, reference_list))]
@@entry
proof! { reveal_strlit("references"); }
@fn builder::traits::deprecated
#[verus_spec(r => ensures r.has("deprecated"@, text_field(text_field(no_fields(), "message"@, message), "since"@, since)))]
@@entry
proof! { reveal_strlit("deprecated"); }
@fn builder::traits::paginated
#[verus_spec(r => ensures r.has("paginated"@, text_field(text_field(text_field(text_field(no_fields(), "inputToken"@, input_token), "outputToken"@, output_token), "items"@, items), "pageSize"@, page_size)))]
@@entry
proof! { reveal_strlit("paginated"); }
@fn builder::traits::length
#[verus_spec(r => requires min is Some || max is Some, fits(min), fits(max) ensures r.has("length"@, int_field(int_field(no_fields(), "min"@, min), "max"@, max)))]
@@entry
proof! { reveal_strlit("length"); }
@fn builder::traits::length_max
#[verus_spec(r => requires value <= i64::MAX ensures r.has("length"@, int_field(no_fields(), "max"@, Some(value))))]
@fn builder::traits::length_min
#[verus_spec(r => requires value <= i64::MAX ensures r.has("length"@, int_field(no_fields(), "min"@, Some(value))))]
@fn builder::traits::range
#[verus_spec(r => requires min is Some || max is Some, fits(min), fits(max) ensures r.has("range"@, int_field(int_field(no_fields(), "min"@, min), "max"@, max)))]
@@entry
proof! { reveal_strlit("range"); }
@fn builder::traits::range_max
#[verus_spec(r => requires value <= i64::MAX ensures r.has("range"@, int_field(no_fields(), "max"@, Some(value))))]
@fn builder::traits::range_min
#[verus_spec(r => requires value <= i64::MAX ensures r.has("range"@, int_field(no_fields(), "min"@, Some(value))))]
@mod builder::shapes
verus!{
use crate::builder::traits::{text_field, int_field, no_fields, source_text};
}
@mod builder::shapes
verus!{
impl SimpleShapeBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl ListBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl MapBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl StructureBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl ServiceBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl OperationBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl ResourceBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl ReferenceBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@mod builder::shapes
verus!{
impl MemberBuilder {
    /// one more trait is applied
    pub open(in crate::builder) spec fn one_more(a: Self, b: Self) -> bool { Self::only_applied_traits(a, b) && b.applied_traits@.len() == a.applied_traits@.len() + 1 && b.applied_traits@.drop_last() =~= a.applied_traits@ }
}
}
@fn builder::shapes::SimpleShapeBuilder::boxed
#[verus_spec(r => ensures *final(self) == *final(r), SimpleShapeBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("box"@))]
@fn builder::shapes::SimpleShapeBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), SimpleShapeBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::SimpleShapeBuilder::streaming
#[verus_spec(r => ensures *final(self) == *final(r), SimpleShapeBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("streaming"@))]
@fn builder::shapes::ListBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), ListBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::ListBuilder::unique_items
#[verus_spec(r => ensures *final(self) == *final(r), ListBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("uniqueItems"@))]
@fn builder::shapes::StructureBuilder::error_source
#[verus_spec(r => ensures *final(self) == *final(r), StructureBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().says("error"@, source_text(src)))]
@fn builder::shapes::StructureBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), StructureBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::ServiceBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), ServiceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::ServiceBuilder::paginated
#[verus_spec(r => ensures *final(self) == *final(r), ServiceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().has("paginated"@, text_field(text_field(text_field(text_field(no_fields(), "inputToken"@, input_token), "outputToken"@, output_token), "items"@, items), "pageSize"@, page_size)))]
@fn builder::shapes::ServiceBuilder::title
#[verus_spec(r => ensures *final(self) == *final(r), ServiceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().says("title"@, title_text@))]
@@param title title_text
@fn builder::shapes::OperationBuilder::idempotent
#[verus_spec(r => ensures *final(self) == *final(r), OperationBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("idempotent"@))]
@fn builder::shapes::OperationBuilder::readonly
#[verus_spec(r => ensures *final(self) == *final(r), OperationBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("readonly"@))]
@fn builder::shapes::OperationBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), OperationBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::OperationBuilder::paginated
#[verus_spec(r => ensures *final(self) == *final(r), OperationBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().has("paginated"@, text_field(text_field(text_field(text_field(no_fields(), "inputToken"@, input_token), "outputToken"@, output_token), "items"@, items), "pageSize"@, page_size)))]
@fn builder::shapes::ResourceBuilder::sensitive
#[verus_spec(r => ensures *final(self) == *final(r), ResourceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("sensitive"@))]
@fn builder::shapes::ResourceBuilder::no_replace
#[verus_spec(r => ensures *final(self) == *final(r), ResourceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("noReplace"@))]
@fn builder::shapes::ResourceBuilder::title
#[verus_spec(r => ensures *final(self) == *final(r), ResourceBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().says("title"@, title_text@))]
@@param title title_text
@fn builder::shapes::MemberBuilder::required
#[verus_spec(r => ensures *final(self) == *final(r), MemberBuilder::one_more(*old(self), *r), r.sp_applied_traits().last().annotates("required"@))]
@fn builder::shapes::ShapeTraits::documentation
#[verus_spec(r => ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().says("documentation"@, text@))]
@fn builder::shapes::ShapeTraits::deprecated
#[verus_spec(r => ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().has("deprecated"@, text_field(text_field(no_fields(), "message"@, message), "since"@, since)))]
@fn builder::shapes::ShapeTraits::private
#[verus_spec(r => ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().annotates("private"@))]
@fn builder::shapes::ShapeTraits::since
#[verus_spec(r => requires date@.len() > 0 ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().says("since"@, date@))]
@fn builder::shapes::ShapeTraits::tagged
#[verus_spec(r => ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().lists("tags"@, tags@))]
@fn builder::shapes::ShapeTraits::unstable
#[verus_spec(r => ensures *final(self) == *final(r), old(self).spec_same(&*r), r.spec_applied().len() == old(self).spec_applied().len() + 1, r.spec_applied().drop_last() =~= old(self).spec_applied(), r.spec_applied().last().bare("unstable"@))]
## ---- the builder of models
@rename iter_mut vx_iter_mut
@rename find vx_find
@for C09
@crate
pub mod vxfind {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
verus!{
/// `v.iter_mut().find(f)`: the first item for which `f` says yes (it only reads the item).
pub trait VxFindMut<T>: View<V = Seq<T>> + Sized {
    fn vx_iter_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r);
    fn vx_find<F: Fn(&&T) -> bool>(&mut self, f: F) -> (r: Option<&mut T>)
        requires forall|x: &&T| f.requires((x,)),
        ensures match r {
            Some(x) => exists|i: int| #[trigger] first(old(self)@, f, i) && *x == old(self)@[i] && final(self)@ == old(self)@.update(i, *final(x)),
            None => *final(self) == *old(self) && forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&&#[trigger] old(self)@[i],), false) };
}
pub open spec fn first<T, F: Fn(&&T) -> bool>(s: Seq<T>, f: F, i: int) -> bool {
    0 <= i < s.len() && f.ensures((&&s[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&&#[trigger] s[j],), false)
}
impl<T> VxFindMut<T> for Vec<T> {
    fn vx_iter_mut(&mut self) -> &mut Self { self }
    #[verifier::external_body]
    fn vx_find<F: Fn(&&T) -> bool>(&mut self, f: F) -> Option<&mut T> { let mut f = f; self.iter_mut().find(|x| f(&&**x)) }
}
/// `==` of a `String` and a `&str`
pub broadcast axiom fn axiom_string_str_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'static str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_str_eq(a: &String, b: &&'static str)
    ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&'static str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast group group_string_str { axiom_string_str_obeys, axiom_string_str_eq }
}
}
@mod model::identity
verus!{
/// the text is read as a namespace
pub uninterp spec fn reads_ns(s: Seq<char>) -> bool;
pub broadcast axiom fn axiom_prelude_namespace() ensures #[trigger] reads_ns("smithy.api"@);
pub assume_specification<F: std::str::FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>) ensures call_ensures(F::from_str, (s,), r);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; fn from_str(s: &str) -> Result<Self, Self::Err>; }
}
@fn model::identity::[FromStr for NamespaceID]::from_str
#[verus_verify(external_body)]
#[verus_spec(r => ensures match r { Ok(i) => reads_ns(s@) && i == ns_of(s@), Err(_) => !reads_ns(s@) })]
@mod builder
verus!{
use crate::vxfind::*;
use crate::model::identity::{ns_of, id_of, reads_ns, reads_id, reads_sid, sid_of};
/// Every shape is kept under its name, references under absolute names, and each has what building needs.
spec fn well_kept(s: SBuilders) -> bool { refs_absolute(s) && named_right(s) && all_buildable(s) }
proof fn lemma_given(s: SBuilders, n: ShapeName, x: TopLevelShapeBuilder, r: SBuilders)
    requires given(s, n, x, r), sp_shape_name(x) == n, buildable(x),
    ensures well_kept(s) ==> well_kept(r)
{
    if well_kept(s) {
        assert(buildable(r[n]) && sp_shape_name(r[n]) == n);
        assert forall|k: ShapeName| #[trigger] imports(r, k) implies k is Qualified by { if k != n { assert(imports(s, k)); } }
        assert forall|k: ShapeName| #[trigger] r.contains_key(k) implies sp_shape_name(r[k]) == k && buildable(r[k]) by { if k != n { assert(s.contains_key(k)); } }
    }
}
impl ModelBuilder {
    pub open(in crate::builder) spec fn sp_made(self, version: Version, ns: NamespaceID) -> bool {
        self.smithy_version == version && self.default_namespace == ns && self.prelude_namespace == ns_of("smithy.api"@) && !self.make_references
            && self.metadata@ == SMap::<String, Value>::empty() && self.shapes@ == SMap::<ShapeName, TopLevelShapeBuilder>::empty()
    }
    pub open(in crate::builder) spec fn sp_well_kept(self) -> bool { well_kept(self.shapes@) }
    pub open(in crate::builder) spec fn sp_ns(self) -> NamespaceID { self.default_namespace }
    pub open(in crate::builder) spec fn sp_meta(self) -> SMap<String, Value> { self.metadata@ }
    pub open(in crate::builder) spec fn only_meta(a: Self, b: Self) -> bool { b == (ModelBuilder { metadata: b.metadata, ..a }) }
    spec fn gives(a: Self, x: TopLevelShapeBuilder, b: Self) -> bool { with_shapes(a, b) && given(a.shapes@, sp_shape_name(x), x, b.shapes@) }
}
}
@fn builder::ModelBuilder::new
#[verus_spec(r => requires reads_ns(default_namespace@) ensures r.sp_made(smithy_version, ns_of(default_namespace@)), r.sp_well_kept())]
@@entry
proof! { reveal_strlit("smithy.api"); broadcast use crate::model::identity::axiom_prelude_namespace; }
@fn builder::ModelBuilder::shape_name
#[verus_spec(r => requires reads_id(shape_name@) ensures r == ShapeID::sp_make(self.sp_ns(), id_of(shape_name@), None))]
@foreach F T V : simple_shape SimpleShapeBuilder SimpleShape ; list ListBuilder List ; set ListBuilder Set ; map MapBuilder Map ; structure StructureBuilder Structure ; union StructureBuilder Union ; operation OperationBuilder Operation ; resource ResourceBuilder Resource .
@mod builder
verus!{
impl ModelBuilder {
    pub open(in crate::builder) spec fn gives_$F(a: Self, x: $T, b: Self) -> bool { Self::gives(a, TopLevelShapeBuilder::$V(x), b) }
}
}
@fn builder::ModelBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), ModelBuilder::gives_$F(*old(self), builder, *r), old(self).sp_well_kept() ==> r.sp_well_kept())]
@@entry
proof! {
    assert forall|r: SBuilders| #[trigger] given(self.shapes@, builder.shape_name, TopLevelShapeBuilder::$V(builder), r) && well_kept(self.shapes@) implies well_kept(r) by {
        lemma_given(self.shapes@, builder.shape_name, TopLevelShapeBuilder::$V(builder), r); }
}
@end
@foreach F T V N : service ServiceBuilder Service shape_name ; reference ReferenceBuilder Reference shape_id .
@mod builder
verus!{
impl ModelBuilder {
    pub open(in crate::builder) spec fn gives_$F(a: Self, x: $T, b: Self) -> bool { Self::gives(a, TopLevelShapeBuilder::$V(x), b) }
    /// the builder has what building the shape needs
    pub open(in crate::builder) spec fn buildable_$F(x: $T) -> bool { buildable(TopLevelShapeBuilder::$V(x)) }
}
}
@fn builder::ModelBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), ModelBuilder::gives_$F(*old(self), builder, *r), old(self).sp_well_kept() && ModelBuilder::buildable_$F(builder) ==> r.sp_well_kept())]
@@entry
proof! {
    assert forall|r: SBuilders| #[trigger] given(self.shapes@, builder.$N, TopLevelShapeBuilder::$V(builder), r) && well_kept(self.shapes@) && buildable(TopLevelShapeBuilder::$V(builder)) implies well_kept(r) by {
        lemma_given(self.shapes@, builder.$N, TopLevelShapeBuilder::$V(builder), r); }
}
@end
@mod builder
verus!{
impl ModelBuilder {
    pub open(in crate::builder) spec fn gives_import(a: Self, id: ShapeID, b: Self) -> bool {
        exists|x: ReferenceBuilder| x.shape_id == ShapeName::Qualified(id) && x.applied_traits@ == Seq::<TraitBuilder>::empty() && #[trigger] ModelBuilder::gives_reference(a, x, b)
    }
}
}
@fn builder::ModelBuilder::uses
#[verus_spec(r => requires reads_sid(shape@)
    ensures *final(self) == *final(r), ModelBuilder::gives_import(*old(self), sid_of(shape@), *r), old(self).sp_well_kept() ==> r.sp_well_kept())]
@fn builder::ModelBuilder::meta_data
#[verus_spec(r => ensures *final(self) == *final(r), ModelBuilder::only_meta(*old(self), *r), r.sp_meta() == old(self).sp_meta().insert(key, value))]
@fn builder::ModelBuilder::meta_data_from
#[verus_spec(r => ensures *final(self) == *final(r), ModelBuilder::only_meta(*old(self), *r), r.sp_meta() =~= old(self).sp_meta().union_prefer_right(value_map@))]
@@entry
proof! { broadcast use crate::vstdx::lemma_prefix_all; }
@@iter 0 vx_entries
@@loop 0
#[verus_spec(it => invariant
    entries_of(value_map@, it.seq()), ModelBuilder::only_meta(*old(self), *self),
    self.metadata@ =~= old(self).metadata@.union_prefer_right(prefix(it.seq(), it.index() as int)))]
@@loopbody 0
proof! { crate::vstdx::lemma_prefix_sub(value_map@, it.seq(), it.index() as int); }
@mod builder
verus!{
/// the text of the identifier is `t`
spec fn may_show(i: &Identifier, t: Seq<char>) -> bool { exists|s: String| #[trigger] vstd::string::to_string_from_display_ensures(i, s) && s@ == t }
spec fn shows(i: &Identifier, t: Seq<char>) -> bool { forall|s: String| #[trigger] vstd::string::to_string_from_display_ensures(i, s) ==> s@ == t }
spec fn has_named(xs: Seq<MemberBuilder>, m: Identifier) -> bool { exists|i: int| 0 <= i < xs.len() && #[trigger] xs[i].member_name == m }
/// The shape has a member of this name which traits can be applied to.
spec fn has_member(x: TopLevelShapeBuilder, m: Identifier) -> bool {
    match x {
        TopLevelShapeBuilder::List(_) | TopLevelShapeBuilder::Set(_) => shows(&m, "member"@),
        TopLevelShapeBuilder::Map(_) => shows(&m, "key"@) || shows(&m, "value"@),
        TopLevelShapeBuilder::Structure(x) => has_named(x.members@, m),
        TopLevelShapeBuilder::Union(x) => has_named(x.members@, m),
        _ => false,
    }
}
spec fn member_with(x: MemberBuilder, t: TraitBuilder, y: MemberBuilder) -> bool { MemberBuilder::sp_same(x, y) && y.applied_traits@ =~= x.applied_traits@.push(t) }
spec fn list_with(x: ListBuilder, m: Identifier, t: TraitBuilder, y: ListBuilder) -> bool { may_show(&m, "member"@) && y == (ListBuilder { member: y.member, ..x }) && member_with(x.member, t, y.member) }
/// the trait is applied to the first member of this name
spec fn structure_with(x: StructureBuilder, m: Identifier, t: TraitBuilder, y: StructureBuilder) -> bool {
    y == (StructureBuilder { members: y.members, ..x })
        && exists|i: int| 0 <= i < x.members@.len() && (#[trigger] x.members@[i]).member_name == m && (forall|j: int| 0 <= j < i ==> (#[trigger] x.members@[j]).member_name != m)
            && y.members@ =~= x.members@.update(i, y.members@[i]) && member_with(x.members@[i], t, y.members@[i])
}
/// `y` is `x` with the trait applied to the member
spec fn with_member_trait(x: TopLevelShapeBuilder, m: Identifier, t: TraitBuilder, y: TopLevelShapeBuilder) -> bool {
    match (x, y) {
        (TopLevelShapeBuilder::List(x), TopLevelShapeBuilder::List(y)) => list_with(x, m, t, y),
        (TopLevelShapeBuilder::Set(x), TopLevelShapeBuilder::Set(y)) => list_with(x, m, t, y),
        (TopLevelShapeBuilder::Map(x), TopLevelShapeBuilder::Map(y)) => {
            ||| may_show(&m, "key"@) && y == (MapBuilder { key: y.key, ..x }) && member_with(x.key, t, y.key)
            ||| may_show(&m, "value"@) && y == (MapBuilder { value: y.value, ..x }) && member_with(x.value, t, y.value)
        }
        (TopLevelShapeBuilder::Structure(x), TopLevelShapeBuilder::Structure(y)) => structure_with(x, m, t, y),
        (TopLevelShapeBuilder::Union(x), TopLevelShapeBuilder::Union(y)) => structure_with(x, m, t, y),
        _ => false,
    }
}
}
@fn builder::apply_to_member
#[verus_spec(requires has_member(*old(shape), *member_name) ensures with_member_trait(*old(shape), *member_name, a_trait, *final(shape)))]
@@entry
proof! { broadcast use crate::vxfind::group_string_str; }
@@closure 0
#[verus_spec(b: bool => ensures b == (m.member_name == *member_name))]
@@closure 1
#[verus_spec(b: bool => ensures b == (m.member_name == *member_name))]
@mod builder
verus!{
/// where the shape of a member is kept
spec fn parent_of(b: ModelBuilder, id: ShapeID) -> ShapeName {
    let p = ShapeID::sp_make(id.sp_namespace(), id.sp_name(), None);
    if !b.shapes@.contains_key(ShapeName::Qualified(p)) && id.sp_namespace() == b.default_namespace { ShapeName::Local(id.sp_name()) } else { ShapeName::Qualified(p) }
}
/// The trait is applied to the shape of this id, which is imported if it is not known; or to the member.
spec fn applied_to(a: ModelBuilder, id: ShapeID, t: TraitBuilder, b: ModelBuilder) -> bool {
    let n = ShapeName::Qualified(id);
    with_shapes(a, b) && match id.sp_member() {
        Some(m) => a.shapes@.contains_key(parent_of(a, id)) && b.shapes@ =~= a.shapes@.insert(parent_of(a, id), b.shapes@[parent_of(a, id)])
            && with_member_trait(a.shapes@[parent_of(a, id)], m, t, b.shapes@[parent_of(a, id)]),
        None => b.shapes@ =~= a.shapes@.insert(n, b.shapes@[n]) && if a.shapes@.contains_key(n) { with_trait(a.shapes@[n], t, b.shapes@[n]) }
            else { b.shapes@[n] matches TopLevelShapeBuilder::Reference(x) && x.shape_id == n && x.applied_traits@ =~= seq![t] }
    }
}
/// `b` is `a`, with a reference to the shape if it is new
spec fn noticed(a: ModelBuilder, id: ShapeID, new: bool, b: ModelBuilder) -> bool { if new { ModelBuilder::gives_import(a, id, b) } else { b == a } }
spec fn applied_by_name(a: ModelBuilder, l: Identifier, t: TraitBuilder, b: ModelBuilder) -> bool {
    exists|id: ShapeID, new: bool, c: ModelBuilder| #[trigger] resolves(a, ShapeName::Local(l), false, (id, new)) && #[trigger] noticed(a, id, new, c) && applied_to(c, id, t, b)
}
spec fn can_apply(a: ModelBuilder, n: ShapeName) -> bool {
    match n {
        ShapeName::Qualified(id) => id.sp_member() matches Some(m) ==> a.shapes@.contains_key(parent_of(a, id)) && has_member(a.shapes@[parent_of(a, id)], m),
        ShapeName::Local(l) => refs_absolute(a.shapes@) && !unresolvable(a, n) && forall|r: (ShapeID, bool)| #[trigger] resolves(a, n, false, r) ==> r.0.sp_member() is None,
    }
}
}
@mod builder
verus!{
impl ModelBuilder {
    /// A trait can be applied to what this name means: a shape; or a member, of a shape that is known, which has traits.
    pub open(in crate::builder) spec fn sp_can_apply(self, n: ShapeName) -> bool { can_apply(self, n) }
    pub open(in crate::builder) spec fn sp_applied(a: Self, n: ShapeName, t: TraitBuilder, b: Self) -> bool {
        match n { ShapeName::Qualified(id) => applied_to(a, id, t, b), ShapeName::Local(l) => applied_by_name(a, l, t, b) }
    }
}
}
@fn builder::ModelBuilder::apply
#[verus_spec(r => requires crate::builder::id::reads_name(shape@), old(self).sp_can_apply(crate::builder::id::name_of(shape@))
    ensures *final(self) == *final(r), ModelBuilder::sp_applied(*old(self), crate::builder::id::name_of(shape@), a_trait, *r), old(self).sp_well_kept() ==> r.sp_well_kept())]
@fn builder::ModelBuilder::apply_to
#[verus_spec(r => requires can_apply(*old(self), *shape_name)
    ensures *final(self) == *final(r), match *shape_name { ShapeName::Qualified(id) => applied_to(*old(self), id, a_trait, *r), ShapeName::Local(l) => applied_by_name(*old(self), l, a_trait, *r) },
        well_kept(old(self).shapes@) ==> well_kept(r.shapes@)
    decreases (if *shape_name is Local { 1int } else { 0int }))]
@@entry
proof! { broadcast use {ShapeID::lemma_make, ShapeID::lemma_parts}; }
@@before 0 self.apply_to
proof! { assert(noticed(*old(self), shape_id, new_reference, *self)); }
