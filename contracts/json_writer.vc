## The writer of the JSON AST.
@mod writer
verus!{
use crate::vstdx::*;
use crate::vx_json::*;
broadcast use {::atelier_core::model::identity::group_keys, ::atelier_core::vstdx::axiom_str_key_of_view, ::atelier_core::vstdx::axiom_str_key_view, ::atelier_core::vstdx::lemma_prefix_all,
    ::atelier_core::model::identity::group_id_texts, crate::vstdf::axiom_to_string, lemma_opt_insert, lemma_opt_empty};
}
@for C11 C12
@fn writer::from_reference
#[verus_spec(r => requires valid_sid(*id) ensures is_target(*id, r))]
@fn writer::from_value
#[verifier::exec_allows_no_decreases_clause]
#[verus_spec(r => requires ok_value(*value) ensures is_value(*value, r, true))]
@@entry
proof! { broadcast use group_slice_iters; }
@@closure 0
#[verus_spec(r: Value => requires ok_value(*v) ensures is_value(*v, r, true))]
@@iter 0 vx_iter
@@loop 0
#[verus_spec(it => invariant entries_of(node_obj(*value)@, unref2(it.seq())), value is Object, ok_value(*value), is_object(prefix(unref2(it.seq()), it.index() as int), jmap(object), true))]
@@loopbody 0
proof! { lemma_object(prefix(unref2(it.seq()), it.index() as int), jmap(object), true); lemma_prefix_sub(node_obj(*value)@, unref2(it.seq()), it.index() as int); }
@fn writer::from_traits
#[verus_spec(r => requires ok_traits(traits@) ensures is_traits(traits@, fields(r), true), r is Object)]
@@iter 0 vx_iter
@@entry
proof! { lemma_traits_empty(true); }
@@loop 0
#[verus_spec(it => invariant ok_traits(traits@), entries_of(traits@, unref2(it.seq())), is_traits(prefix(unref2(it.seq()), it.index() as int), jmap(trait_map), true))]
@@loopbody 0
proof! { lemma_traits_written(prefix(unref2(it.seq()), it.index() as int), jmap(trait_map)); lemma_prefix_sub(traits@, unref2(it.seq()), it.index() as int); }
@fn writer::from_member
#[verus_spec(r => requires ok_member(*member) ensures is_member(*member, member.sp_id(), Some(r), true))]
@@entry
proof! { broadcast use lemma_traits_none; lemma_keys(); }
@fn writer::from_members
#[verus_spec(r => requires members.obeys_prophetic_iter_laws(), members.decrease() is Some, ok_member_list(members.remaining().unref()),
    ensures r is Object, is_members(prefix(keyed_members(members.remaining().unref()), members.remaining().len() as int), fields(r), true))]
@@iter 0 vx_items
@@entry
proof! { lemma_members_empty(true); }
@@loop 0
#[verus_spec(it => invariant ok_member_list(it.seq().unref()), is_members(prefix(keyed_members(it.seq().unref()), it.index() as int), jmap(members_map), true))]
@@loopbody 0
proof! { lemma_members_written(prefix(keyed_members(it.seq().unref()), it.index() as int), jmap(members_map)); lemma_next_member(it.seq().unref(), it.index() as int); }
@fn writer::from_shape
#[verifier::rlimit(200)]
#[verus_spec(r => requires ok_shape(*shape) ensures is_shape(*shape, shape.sp_id(), r, true))]
@@entry
proof! { broadcast use {lemma_traits_none, lemma_member_list, lemma_members_none, lemma_renames_none, lemma_identifiers_none, ::atelier_core::vstdx::lemma_iter_entries, lemma_ok_refs, lemma_written_targets, lemma_no_targets}; lemma_keys(); reveal(is_body); reveal(ok_body); lemma_renames_empty(true); lemma_identifiers_empty(true); }
@@iter 0 vx_items
@@iter 1 vx_items
@@loop 0
#[verus_spec(it => invariant entries_of(renames_in(shape.sp_body()), unref2(it.seq())), ok_renames(renames_in(shape.sp_body())), is_renames(prefix(unref2(it.seq()), it.index() as int), jmap(rename_map), true))]
@@loopbody 0
proof! { lemma_renames_written(prefix(unref2(it.seq()), it.index() as int), jmap(rename_map)); lemma_prefix_sub(renames_in(shape.sp_body()), unref2(it.seq()), it.index() as int); }
@@loop 1
#[verus_spec(it => invariant entries_of(identifiers_in(shape.sp_body()), unref2(it.seq())), ok_identifiers(identifiers_in(shape.sp_body())), is_identifiers(prefix(unref2(it.seq()), it.index() as int), jmap(id_map), true))]
@@loopbody 1
proof! { lemma_identifiers_written(prefix(unref2(it.seq()), it.index() as int), jmap(id_map)); lemma_prefix_sub(identifiers_in(shape.sp_body()), unref2(it.seq()), it.index() as int); }
@foreach N : 0 ; 1 ; 2 ; 3 ; 4 ; 5 .
@@closure $N
#[verus_spec(r: Value => requires valid_sid(*o) ensures is_target(*o, r))]
@end
@@armend 0
proof! { assert(is_body(shape.sp_body(), Value::Object(shape_map), true)); }
@fn writer::from_shapes
#[verus_spec(r => requires ok_shapes(model.sp_shapes()) ensures r is Object, is_shapes(model.sp_shapes(), fields(r), true))]
@@iter 0 vx_items
@@entry
proof! { broadcast use lemma_keyed_shapes; lemma_shapes_empty(true); }
@@loop 0
#[verus_spec(it => invariant ok_shapes(model.sp_shapes()), entries_of(model.sp_shapes(), keyed_shapes(it.seq().unref())), is_shapes(prefix(keyed_shapes(it.seq().unref()), it.index() as int), jmap(shape_map), true))]
@@loopbody 0
proof! { lemma_shapes_written(prefix(keyed_shapes(it.seq().unref()), it.index() as int), jmap(shape_map)); lemma_prefix_sub(model.sp_shapes(), keyed_shapes(it.seq().unref()), it.index() as int); }
@fn writer::model_to_json
#[verus_spec(r => requires ok_model(*model) ensures is_model(*model, r, true))]
@@entry
proof! { broadcast use ::atelier_core::vstdx::lemma_iter_entries; lemma_keys(); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant entries_of(model.sp_metadata(), unref2(it.seq())), ok_model(*model), is_object(prefix(unref2(it.seq()), it.index() as int), jmap(meta_map), true))]
@@loopbody 0
proof! { lemma_object(prefix(unref2(it.seq()), it.index() as int), jmap(meta_map), true); lemma_prefix_sub(model.sp_metadata(), unref2(it.seq()), it.index() as int); }
