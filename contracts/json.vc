## C11, C12: the JSON AST (atelier_json), over the contracts of atelier_core (json_core.vc), which are imported as Verus exports them.
@fmt
@rename get vx_get
@rename map vx_map
@rename collect vx_collect
@rename into vx_into
@crate
pub mod vstdf { pub use ::atelier_core::vstdf::*; }
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
pub use ::atelier_core::vstdx::*;
use ::atelier_core::vstdf::*;
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use serde_json::{Map, Number, Value};
verus!{
// ---- the JSON values of serde_json
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct ExMap<K, V>(serde_json::Map<K, V>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExNumber(serde_json::Number);
#[verifier::external_type_specification]
pub struct ExValue(serde_json::Value);
pub type JMap = SMap<Seq<char>, Value>;
/// the members of a JSON object
pub uninterp spec fn jmap(m: Map<String, Value>) -> JMap;
/// a JSON number that is not an integer, an integer that fits in an i64, another integer that fits in a u64: as serde_json holds them
pub enum JNum { F(f64), I(i64), U(u64) }
pub uninterp spec fn jnum(n: Number) -> JNum;
pub uninterp spec fn finite(f: f64) -> bool;
pub assume_specification[ Number::is_f64 ](n: &Number) -> (r: bool) ensures r == (jnum(*n) is F);
pub assume_specification[ Number::is_i64 ](n: &Number) -> (r: bool) ensures r == (jnum(*n) is I);
pub assume_specification[ Number::is_u64 ](n: &Number) -> (r: bool) ensures jnum(*n) is U ==> r, jnum(*n) is F ==> !r;
pub assume_specification[ Number::as_f64 ](n: &Number) -> (r: Option<f64>) ensures r is Some, jnum(*n) matches JNum::F(x) ==> r == Some(x);
pub assume_specification[ Number::as_i64 ](n: &Number) -> (r: Option<i64>) ensures jnum(*n) matches JNum::I(x) ==> r == Some(x);
pub assume_specification[ Number::as_u64 ](n: &Number) -> (r: Option<u64>) ensures jnum(*n) matches JNum::U(x) ==> r == Some(x);
pub assume_specification[ <Number as From<i64>>::from ](x: i64) -> (r: Number) ensures jnum(r) == JNum::I(x);
pub assume_specification[ <Value as From<f64>>::from ](x: f64) -> (r: Value) ensures finite(x) ==> (r matches Value::Number(n) && jnum(n) == JNum::F(x));
pub assume_specification[ <Map<String, Value> as Default>::default ]() -> (r: Map<String, Value>) ensures jmap(r) == JMap::empty();
pub assume_specification[ Map::<String, Value>::insert ](m: &mut Map<String, Value>, k: String, v: Value) -> (r: Option<Value>)
    ensures jmap(*final(m)) == jmap(*old(m)).insert(k@, v);
/// the members of a JSON object, none of anything else
pub open spec fn fields(j: Value) -> JMap { match j { Value::Object(m) => jmap(m), _ => JMap::empty() } }
#[verifier::opaque]
pub open spec fn opt(m: JMap, k: Seq<char>) -> Option<Value> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub broadcast proof fn lemma_opt_insert(m: JMap, k: Seq<char>, v: Value, q: Seq<char>)
    ensures #[trigger] opt(m.insert(k, v), q) == (if q == k { Some(v) } else { opt(m, q) })
{ reveal(opt); }
pub broadcast proof fn lemma_opt_empty(q: Seq<char>) ensures #[trigger] opt(JMap::empty(), q) == None::<Value> { reveal(opt); }
pub open spec fn opt_of(r: Option<&Value>) -> Option<Value> { match r { Some(v) => Some(*v), None => None } }
pub trait VxGet {
    spec fn vx_fields(&self) -> JMap;
    fn vx_get<'a>(&'a self, k: &str) -> (r: Option<&'a Value>) ensures opt_of(r) == opt(self.vx_fields(), k@);
}
impl VxGet for Map<String, Value> {
    open spec fn vx_fields(&self) -> JMap { jmap(*self) }
    #[verifier::external_body]
    fn vx_get<'a>(&'a self, k: &str) -> Option<&'a Value> { self.get(k) }
}
impl VxGet for Value {
    open spec fn vx_fields(&self) -> JMap { fields(*self) }
    #[verifier::external_body]
    fn vx_get<'a>(&'a self, k: &str) -> Option<&'a Value> { self.get(k) }
}
/// `for (k, v) in &map` is verified as a loop over `vx_members(&map)`
pub open spec fn jpairs(s: Seq<(&String, &Value)>) -> Seq<(Seq<char>, Value)> { s.map_values(|p: (&String, &Value)| (p.0@, *p.1)) }
#[verifier::external_body]
pub fn vx_members<'a>(m: &'a Map<String, Value>) -> (r: Vec<(&'a String, &'a Value)>)
    ensures entries_of(jmap(*m), jpairs(r@))
{ m.iter().collect() }
/// `E.map(f).collect()` is verified as the loop `vx_map` and what `collect` makes of its results
pub trait VxMapIter: Iterator + Sized {
    fn vx_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Vec<B>)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
            forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures r@.len() == self.remaining().len(), self.will_return_none(),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((self.remaining()[i],), #[trigger] r@[i]);
}
impl<I: Iterator> VxMapIter for I {
    fn vx_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> Vec<B> {
        let mut r = Vec::new();
        let ghost s = self.remaining();
        for x in it: vx_items(self)
            invariant it.seq() == s, r@.len() == it.index(),
                forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|i: int| 0 <= i < r@.len() ==> f.ensures((s[i],), #[trigger] r@[i]),
        { r.push(f(x)); }
        r
    }
}
/// `Some` as a function
pub fn vx_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
pub trait VxMapResult<T, E>: Sized {
    spec fn vx_self(self) -> Result<T, E>;
    fn vx_map<B, F: FnOnce(T) -> B>(self, f: F) -> (r: Result<B, E>)
        requires self.vx_self() matches Ok(x) ==> f.requires((x,)),
        ensures match self.vx_self() { Ok(x) => r matches Ok(y) && f.ensures((x,), y), Err(e) => r == Err::<B, E>(e) };
}
impl<T, E> VxMapResult<T, E> for Result<T, E> {
    open spec fn vx_self(self) -> Result<T, E> { self }
    fn vx_map<B, F: FnOnce(T) -> B>(self, f: F) -> Result<B, E> { match self { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
}
/// `into`
pub trait VxInto<U>: Sized { spec fn vx_made(self, r: U) -> bool; fn vx_into(self) -> (r: U) ensures self.vx_made(r); }
impl VxInto<Number> for i64 {
    open spec fn vx_made(self, r: Number) -> bool { jnum(r) == JNum::I(self) }
    fn vx_into(self) -> Number { Number::from(self) }
}
impl VxInto<::atelier_core::error::Error> for ::atelier_core::error::ErrorKind {
    open spec fn vx_made(self, r: ::atelier_core::error::Error) -> bool { true }
    #[verifier::external_body]
    fn vx_into(self) -> ::atelier_core::error::Error { self.into() }
}
pub trait VxCollect<B>: Sized {
    spec fn vx_collected(self, r: B) -> bool;
    fn vx_collect(self) -> (r: B) ensures self.vx_collected(r);
}
impl VxCollect<Vec<Value>> for Vec<Value> {
    open spec fn vx_collected(self, r: Vec<Value>) -> bool { r == self }
    fn vx_collect(self) -> Vec<Value> { self }
}
impl<T, E> VxCollect<Result<Vec<T>, E>> for Vec<Result<T, E>> {
    open spec fn vx_collected(self, r: Result<Vec<T>, E>) -> bool {
        match r {
            Ok(v) => v@.len() == self@.len() && forall|i: int| #![trigger self@[i]] #![trigger v@[i]] 0 <= i < self@.len() ==> (self@[i] matches Ok(x) && x == v@[i]),
            Err(e) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == Err::<T, E>(e),
        }
    }
    fn vx_collect(self) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        let ghost s = self@;
        for x in it: self
            invariant it.seq() == s, v@.len() == it.index(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] s[i] matches Ok(x) && x == v@[i]),
        {
            match x { Ok(y) => v.push(y), Err(e) => { return Err(e); } }
        }
        Ok(v)
    }
}
}
}
@include json_rel.vc
@mod reader
verus!{
use crate::vstdx::*;
use crate::vx_json::*;
broadcast use {::atelier_core::model::identity::group_keys, ::atelier_core::vstdx::axiom_str_key_of_view, ::atelier_core::vstdx::axiom_str_key_view, ::atelier_core::vstdx::lemma_prefix_all, lemma_opt_empty};
}
@for C11 C12
@item reader::JsonReader
#[verus_verify]
@const REPRESENTATION_NAME
#[verus_verify]
@foreach C : MODEL_SMITHY_VERSION ; SHAPE_KEY_TYPE ; SHAPE_KEY_MEMBERS ; SHAPE_KEY_TARGET ; SHAPE_KEY_TRAITS .
@const syntax::ADD_$C
#[verus_verify]
@end
@fn reader::JsonReader::value
#[verifier::exec_allows_no_decreases_clause]
#[verus_spec(r => ensures r matches Ok(x) && is_value(x, *json, false))]
@@entry
proof! { broadcast use crate::vstdf::axiom_to_string, group_slice_iters; }
@@closure 0
#[verus_spec(r: (ModelResult<NodeValue>) => ensures (r matches Ok(x) && is_value(x, *v, false)))]
@@iter 0 vx_members
@@loop 0
#[verus_spec(it => invariant entries_of(jmap(*vs), jpairs(it.seq())), is_object(object@, prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! { lemma_object(object@, prefix(jpairs(it.seq()), it.index() as int), false); lemma_entry(jmap(*vs), it.seq(), it.index() as int); }

@fn reader::JsonReader::traits
#[verus_spec(r => ensures match r { Ok(x) => is_traits(x@, jmap(*json), false), Err(_) => forall|x: SMap<_, _>| !#[trigger] is_traits(x, jmap(*json), false) })]
@@entry
proof! { lemma_traits_empty(false); }
@@iter 0 vx_members
@@loop 0
#[verus_spec(it => invariant entries_of(jmap(*json), jpairs(it.seq())), is_traits(traits@, prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! {
    broadcast use lemma_traits_unread;
    lemma_entry(jmap(*json), it.seq(), it.index() as int);
    lemma_traits_step(traits@, prefix(jpairs(it.seq()), it.index() as int), k@, *v, false);
}
@fn reader::JsonReader::version
#[verus_spec(r => ensures match r { Ok(v) => is_version(v, opt_of(json)), Err(_) => forall|v: Version| !#[trigger] is_version(v, opt_of(json)) })]
@fn reader::JsonReader::metadata
#[verus_spec(r => ensures r matches Ok(x) && is_object(x@, fields_in(opt_of(json)), false))]
@@iter 0 vx_members
@@loop 0
#[verus_spec(it => invariant entries_of(jmap(*vs), jpairs(it.seq())), is_object(metadata@, prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! { lemma_object(metadata@, prefix(jpairs(it.seq()), it.index() as int), false); lemma_entry(jmap(*vs), it.seq(), it.index() as int); }
@fn reader::JsonReader::string_value
#[verus_spec(r => ensures match r { Ok(s) => text_in(Some(*value)) == Some(s@), Err(_) => text_in(Some(*value)) is None })]
@fn reader::JsonReader::target
#[verus_spec(r => ensures match r { Ok(x) => member matches Some(j) && is_target(x, *j), Err(_) => member matches Some(j) ==> forall|x: ShapeID| !#[trigger] is_target(x, *j) })]
@fn reader::JsonReader::optional_target
#[verus_spec(r => ensures match r { Ok(x) => is_opt_target(x, opt_of(member)), Err(_) => forall|x: Option<ShapeID>| !#[trigger] is_opt_target(x, opt_of(member)) })]
@fn reader::JsonReader::target_list
#[verus_spec(r => ensures match r { Ok(x) => is_targets(x@, opt_of(member)), Err(_) => forall|x: Seq<ShapeID>| !#[trigger] is_targets(x, opt_of(member)) })]
@@entry
proof! { reveal(is_targets); }
@@loop 0
#[verifier::loop_isolation(false)]
#[verus_spec(it => invariant it.seq().unref() == ms@, targets@.len() == it.index(), forall|i: int| 0 <= i < targets@.len() ==> is_target(#[trigger] targets@[i], ms@[i]))]
@@loopbody 0
proof! { assert(ms@[it.index() as int] == *obj); }
@fn reader::JsonReader::member
#[verus_spec(r => ensures match r { Ok(x) => is_member(x, id_of(name@), opt_of(m), false), Err(_) => forall|x: MemberShape| !#[trigger] is_member(x, id_of(name@), opt_of(m), false) })]
@@param member m
@@entry
proof! { broadcast use {lemma_new_traits, lemma_traits_dom}; lemma_traits_empty(false); }
@fn reader::JsonReader::members
#[verus_spec(r => ensures match r { Ok(x) => is_members(members_of(x@), jmap(*json), false), Err(_) => forall|x: SMap<_, _>| !#[trigger] is_members(x, jmap(*json), false) })]
@@entry
proof! { lemma_members_empty(false); }
@@iter 0 vx_members
@@loop 0
#[verus_spec(it => invariant entries_of(jmap(*json), jpairs(it.seq())), is_members(members_of(members@), prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! {
    broadcast use {lemma_members_push, lemma_new_traits, lemma_traits_dom};
    lemma_traits_empty(false);
    broadcast use lemma_members_unread;
    lemma_entry(jmap(*json), it.seq(), it.index() as int);
    lemma_members_step(members_of(members@), prefix(jpairs(it.seq()), it.index() as int), k@, *v, false);
}
@fn reader::JsonReader::renames_hash
#[verus_spec(r => ensures match r {
    Ok(x) => is_renames(x@, fields_in(opt_of(member)), false) && !(opt_of(member) matches Some(o) && !(o is Object)),
    Err(_) => (opt_of(member) matches Some(o) && !(o is Object)) || forall|x: SMap<_, _>| !#[trigger] is_renames(x, fields_in(opt_of(member)), false) })]
@@entry
proof! { lemma_renames_empty(false); }
@@iter 0 vx_members
@@loop 0
#[verifier::loop_isolation(false)]
#[verus_spec(it => invariant entries_of(jmap(*ms), jpairs(it.seq())), is_renames(hash@, prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! {
    broadcast use lemma_renames_unread;
    lemma_entry(jmap(*ms), it.seq(), it.index() as int);
    lemma_renames_step(hash@, prefix(jpairs(it.seq()), it.index() as int), obj_key@, *obj, false);
}
@fn reader::JsonReader::identifiers_hash
#[verus_spec(r => ensures match r {
    Ok(x) => is_identifiers(x@, fields_in(opt_of(member)), false) && !(opt_of(member) matches Some(o) && !(o is Object)),
    Err(_) => (opt_of(member) matches Some(o) && !(o is Object)) || forall|x: SMap<_, _>| !#[trigger] is_identifiers(x, fields_in(opt_of(member)), false) })]
@@entry
proof! { lemma_identifiers_empty(false); }
@@iter 0 vx_members
@@loop 0
#[verifier::loop_isolation(false)]
#[verus_spec(it => invariant entries_of(jmap(*ms), jpairs(it.seq())), is_identifiers(hash@, prefix(jpairs(it.seq()), it.index() as int), false))]
@@loopbody 0
proof! {
    broadcast use lemma_identifiers_unread;
    lemma_entry(jmap(*ms), it.seq(), it.index() as int);
    lemma_identifiers_step(hash@, prefix(jpairs(it.seq()), it.index() as int), obj_key@, *obj, false);
}
@fn reader::JsonReader::shape
#[verus_spec(r => ensures match r { Ok(b) => is_body(b, *outer, false), Err(_) => forall|b: ShapeKind| !#[trigger] is_body(b, *outer, false) })]
@@entry
proof! { broadcast use {::atelier_core::vstdf::axiom_str_ext, ::atelier_core::model::shapes::service::group_only}; reveal(is_body); lemma_type_text(); lemma_members_empty(false); lemma_renames_empty(false); lemma_identifiers_empty(false); }
@@before 0 return if let
proof! {
    assert(s@ == SHAPE_APPLY@ ==> s == SHAPE_APPLY); assert(s@ == SHAPE_LIST@ ==> s == SHAPE_LIST); assert(s@ == SHAPE_SET@ ==> s == SHAPE_SET); assert(s@ == SHAPE_MAP@ ==> s == SHAPE_MAP); assert(s@ == SHAPE_STRUCTURE@ ==> s == SHAPE_STRUCTURE); assert(s@ == SHAPE_UNION@ ==> s == SHAPE_UNION); assert(s@ == SHAPE_SERVICE@ ==> s == SHAPE_SERVICE); assert(s@ == SHAPE_OPERATION@ ==> s == SHAPE_OPERATION); assert(s@ == SHAPE_RESOURCE@ ==> s == SHAPE_RESOURCE);
}
@fn reader::JsonReader::shapes
#[verus_spec(r => ensures match r { Ok(l) => is_listed(l@, fields_in(opt_of(json))), Err(_) => forall|x: SMap<_, _>| !#[trigger] is_shapes(x, fields_in(opt_of(json)), false) })]
@@entry
proof! { broadcast use lemma_take_all; lemma_none_listed(); }
@@iter 0 vx_members
@@loop 0
#[verifier::loop_isolation(false)]
#[verus_spec(it => invariant entries_of(jmap(*vs), jpairs(it.seq())), listed(shapes@, jpairs(it.seq()).take(it.index() as int)))]
@@loopbody 0
proof! {
    broadcast use {lemma_shapes_unread, lemma_new_traits, lemma_traits_dom};
    lemma_traits_empty(false);
    lemma_entry(jmap(*vs), it.seq(), it.index() as int);
    assert(jpairs(it.seq())[it.index() as int] == (k@, *v));
}
@fn reader::JsonReader::model
#[verus_spec(r => ensures match r {
    Ok(m) => readable(json) && (distinct_shapes(shapes_in(json)) ==> is_model(m, json, false)),
    Err(_) => distinct_shapes(shapes_in(json)) ==> forall|m: Model| !#[trigger] is_model(m, json, false) })]
@@entry
proof_decl!{ let ghost mut s: Seq<(Seq<char>, Value)> = Seq::empty(); let ghost mut l: Seq<TopLevelShape> = Seq::empty(); }
proof! { broadcast use {lemma_added_shape, lemma_added_metadata}; lemma_shapes_empty(false); }
@@closure 0
#[verus_spec(r: TopLevelShape => ensures r == vx_p0.1)]
@@iter 0 vx_entries
@@loop 0
#[verus_spec(it => invariant entries_of(metadata@, it.seq()), model.sp_metadata() == prefix(it.seq(), it.index() as int), model.sp_version() == version, model.sp_shapes() =~= SMap::<_, _>::empty())]
@@loopbody 0
proof! { lemma_prefix_sub(metadata@, it.seq(), it.index() as int); }
@@before 0 for shape in
proof! {
    s = choose|s: Seq<(Seq<char>, Value)>| entries_of(shapes_in(json), s) && #[trigger] listed(shapes@, s); lemma_listed(shapes@, s, shapes_in(json));
    l = shapes@.map_values(|p: (NamespaceID, TopLevelShape)| p.1);
}
@@loop 1
#[verus_spec(it => invariant it.seq() =~= l, all_shapes(l, s), l.len() == s.len(), entries_of(shapes_in(json), s), model.sp_version() == version, model.sp_metadata() == metadata@,
    distinct_shapes(shapes_in(json)) ==> no_bad_id(model.sp_shapes()) && is_shapes(model.sp_shapes(), prefix(s, it.index() as int), false),
    ensures distinct_shapes(shapes_in(json)) ==> no_bad_id(model.sp_shapes()) && is_shapes(model.sp_shapes(), shapes_in(json), false),
)]
@@before 0 return Ok(model)
proof! { lemma_read(model, json); }
@@loopbody 1
proof! {
    broadcast use lemma_added_shape;
    if distinct_shapes(shapes_in(json)) { lemma_next_shape(model.sp_shapes(), shapes_in(json), l, s, it.index() as int, shape); }
}
@include json_writer.vc
