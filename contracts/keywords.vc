@include fmt.vc
@include ids_opaque.vc
@include errors.vc
@for C26
@item model::shapes::simple::Simple
#[verus_verify]
@item Version
#[verus_verify]
@include simple_text.vc
@include version_text.vc
@for C26
@include selector_text.vc
@for C26
@const prelude::TRAIT_ERROR
#[verus_verify]
@include source_text.vc
