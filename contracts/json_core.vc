## What the JSON reader and writer use of atelier_core.
@include traitq.vc
@include fmt.vc
@include simple_text.vc
@include version_text.vc
@include only.vc
@include id_text.vc
@include value_from.vc
@for C11 C12
@foreach C : LIST ; SET ; MAP ; STRUCTURE ; UNION ; SERVICE ; OPERATION ; RESOURCE ; APPLY .
@const syntax::SHAPE_$C
#[verus_verify]
@end
@foreach C : OPERATIONS ; RESOURCES ; INPUT ; OUTPUT ; ERRORS ; CREATE ; PUT ; READ ; UPDATE ; DELETE ; LIST ; COLLECTION_OPERATIONS ; IDENTIFIERS ; RENAME ; VERSION .
@const syntax::MEMBER_$C
#[verus_verify]
@end
@foreach C : METADATA ; SHAPES .
@const syntax::MODEL_$C
#[verus_verify]
@end
@fn model::Model::new
#[verus_spec(r => ensures r.sp_version() == smithy_version, r.sp_metadata() =~= SMap::<String, Value>::empty(), r.sp_shapes() =~= SMap::<ShapeID, TopLevelShape>::empty())]
@fn model::Model::smithy_version
#[verus_spec(r => ensures *r == self.sp_version())]
@foreach P K V F S : model::Model String Value metadata sp_metadata ; model::shapes::service::Service ShapeID Identifier renames sp_renames ; model::shapes::service::Resource Identifier ShapeID identifiers sp_identifiers .
@fn $P::$F
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == self.$S().dom().len(),
    r.remaining().unref().to_set() == self.$S().kv_pairs())]
@end
@fn model::shapes::aggregate::ListOrSet::from
## the assertion about the text of the member's name is not modelled
#[verus_verify(external_body)]
#[verus_spec(r => requires member.sp_id() == crate::model::identity::id_of("member"@) ensures r.sp_member() == member)]
