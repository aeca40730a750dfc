@include members.vc
@for C04 C05
@fn model::values::Value::is_array
#[verus_spec(r => ensures r == (self is Array))]
@fn model::values::Value::as_array
#[verus_spec(r => ensures match r { Some(v) => *self == Value::Array(*v), None => !(self is Array) })]
@for C03 C04
@item Version
#[verus_verify]
@item model::Model
#[verus_verify]
@fn model::Model::has_metadata
#[verus_spec(r => ensures r == !(self.sp_metadata().dom() =~= SSet::<_>::empty()))]
@fn model::Model::has_metadata_value
#[verus_spec(r => ensures r == self.sp_metadata().contains_key(str_key(key@)))]
@fn model::Model::metadata_value
#[verus_spec(r => ensures match r {
    Some(v) => self.sp_metadata().contains_key(str_key(key@)) && *v == self.sp_metadata()[str_key(key@)],
    None => !self.sp_metadata().contains_key(str_key(key@)) })]
@fn model::Model::add_metadata
#[verus_spec(r => ensures
    final(self).sp_shapes() == old(self).sp_shapes(), final(self).sp_version() == old(self).sp_version(),
    r is Err <==> old(self).sp_metadata().contains_key(key) && meta_conflict(old(self).sp_metadata()[key], value),
    r is Err ==> r->Err_0.0 == crate::error::ErrorKind::MergeMetadataConflict(key),
    r is Err ==> final(self).sp_metadata() == old(self).sp_metadata(),
    r is Ok ==> meta_merged(old(self).sp_metadata(), SMap::<String, Value>::empty().insert(key, value), final(self).sp_metadata()))]
@fn model::Model::remove_metadata
#[verus_spec(r => ensures
    final(self).sp_shapes() == old(self).sp_shapes(),
    final(self).sp_metadata() =~= old(self).sp_metadata().remove(str_key(key@)))]
@for C03 C08
@fn model::Model::has_shapes
#[verus_spec(r => ensures r == !(self.sp_shapes().dom() =~= SSet::<_>::empty()))]
@fn model::Model::has_shape
#[verus_spec(r => ensures r == self.sp_shapes().contains_key(*shape_id))]
@fn model::Model::shape
#[verus_spec(r => ensures match r {
    Some(s) => self.sp_shapes().contains_key(*shape_id) && *s == self.sp_shapes()[*shape_id],
    None => !self.sp_shapes().contains_key(*shape_id) })]
@fn model::Model::shape_mut
#[verus_spec(r => ensures final(self).sp_metadata() == old(self).sp_metadata(), match r {
    Some(s) => old(self).sp_shapes().contains_key(*shape_id) && *s == old(self).sp_shapes()[*shape_id]
        && final(self).sp_shapes() == old(self).sp_shapes().insert(*shape_id, *final(s)),
    None => !old(self).sp_shapes().contains_key(*shape_id) && final(self).sp_shapes() == old(self).sp_shapes() })]
@fn model::Model::remove_shape
#[verus_spec(r => ensures final(self).sp_metadata() == old(self).sp_metadata(),
    final(self).sp_shapes() =~= old(self).sp_shapes().remove(*shape_id),
    match r {
        Some(s) => old(self).sp_shapes().contains_key(*shape_id) && s == old(self).sp_shapes()[*shape_id],
        None => !old(self).sp_shapes().contains_key(*shape_id) })]
@fn model::Model::shapes
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref().to_set() == self.sp_shapes().values(), r.remaining().len() == self.sp_shapes().dom().len())]
@for C08
@fn model::Model::is_complete
#[verus_spec(r => ensures r == forall|k: ShapeID| #[trigger] self.sp_shapes().contains_key(k) ==> !(self.sp_shapes()[k].sp_body() is Unresolved))]
@@closure 0
#[verus_spec(b: bool => ensures b == (shape.sp_body() is Unresolved))]
@for C04 C05 C06 C07
@fn model::shapes::HasTraits::append_traits
#[verus_spec(r => ensures
    final(self).spec_rest() == old(self).spec_rest(),
    r is Ok ==> traits_merged(old(self).spec_traits(), traits@, final(self).spec_traits()),
    r is Err <==> traits_conflict(old(self).spec_traits(), traits@))]
@@iter 0 vx_iter
@@loop 0
#[verus_spec(it => invariant
    self.spec_rest() == old(self).spec_rest(),
    entries_of(traits@, unref2(it.seq())),
    !traits_conflict(old(self).spec_traits(), prefix(unref2(it.seq()), it.index() as int)),
    traits_merged(old(self).spec_traits(), prefix(unref2(it.seq()), it.index() as int), self.spec_traits()))]
@for C04 C06 C07
@mod model
verus!{
broadcast use {crate::model::identity::group_keys, crate::vstdx::group_str_keys};
impl Model {
    pub closed spec fn sp_shapes(self) -> SMap<ShapeID, TopLevelShape> { self.shapes@ }
    pub closed spec fn sp_version(self) -> crate::Version { self.smithy_version }
    pub closed spec fn sp_metadata(self) -> SMap<String, Value> { self.metadata@ }
}
pub open spec fn meta_conflict(a: Value, b: Value) -> bool { !(a is Array && b is Array) && !crate::model::values::value_eq(a, b) }
pub open spec fn value_merge(a: Value, b: Value, r: Value) -> bool {
    match (a, b) { (Value::Array(x), Value::Array(y)) => r matches Value::Array(z) && z@ =~= x@ + y@, _ => r == a }
}
pub open spec fn meta_merged(a: SMap<String, Value>, b: SMap<String, Value>, r: SMap<String, Value>) -> bool {
    &&& r.dom() =~= a.dom().union(b.dom())
    &&& forall|k: String| #[trigger] r.contains_key(k) ==>
        if !b.contains_key(k) { r[k] == a[k] } else if !a.contains_key(k) { r[k] == b[k] } else { value_merge(a[k], b[k], r[k]) }
}
}
@for C05 C06 C07
@mod model::shapes
verus!{
pub open spec fn traits_merged(a: SMap<ShapeID, TraitValue>, b: SMap<ShapeID, TraitValue>, r: SMap<ShapeID, TraitValue>) -> bool {
    &&& r.dom() =~= a.dom().union(b.dom())
    &&& forall|k: ShapeID| #[trigger] r.contains_key(k) ==>
        if !b.contains_key(k) { r[k] == a[k] } else if !a.contains_key(k) { r[k] == b[k] } else { tv_merge(a[k], b[k], r[k]) }
}
pub open spec fn traits_conflict(a: SMap<ShapeID, TraitValue>, b: SMap<ShapeID, TraitValue>) -> bool {
    exists|k: ShapeID| #[trigger] b.contains_key(k) && (k.sp_member() is Some || a.contains_key(k) && tv_conflict(a[k], b[k]))
}
}
