## What a JSON AST document means: `is_X(x, j, strict)` says that the JSON value `j` stands for `x`; strict: and for nothing else.
@crate
pub mod vx_json {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use serde_json::Value;
use crate::vstdx::*;
use ::atelier_core::model::identity::*;
use ::atelier_core::model::shapes::*;
use ::atelier_core::model::shapes::simple::keyword;
use ::atelier_core::model::shapes::aggregate::{ListOrSet, Map, MemberShape, StructureOrUnion};
use ::atelier_core::model::shapes::service::*;
use ::atelier_core::model::values::Value as NodeValue;
use ::atelier_core::model::values::Number as NodeNumber;
use ::atelier_core::model::{meta_merged, shapes_merged, Model};
use ::atelier_core::vx_version::{is_version_text, version_text};
use ::atelier_core::Version;
verus!{
/// the entries of a map, one after the other
pub proof fn lemma_entry(m: JMap, s: Seq<(&String, &Value)>, i: int)
    requires entries_of(m, jpairs(s)), 0 <= i < s.len()
    ensures ({ let (k, v) = s[i]; m.contains_key(k@) && m[k@] == *v && !prefix(jpairs(s), i).contains_key(k@) && prefix(jpairs(s), i + 1) == prefix(jpairs(s), i).insert(k@, *v) })
{ lemma_prefix_sub(m, jpairs(s), i); assert(jpairs(s)[i] == (s[i].0@, *s[i].1)); }
pub use ::atelier_core::model::shapes::aggregate::members_of;
pub use ::atelier_core::model::identity::{id_of, sid_of, reads_id, reads_sid, valid_id, valid_sid};
pub use ::atelier_core::model::bad_id;
broadcast use {::atelier_core::model::identity::group_keys, ::atelier_core::vstdx::axiom_str_key_of_view, ::atelier_core::vstdx::axiom_str_key_view};
// ---- values
pub open spec fn arr(j: Value) -> Vec<Value> { match j { Value::Array(a) => a, _ => arbitrary() } }
pub open spec fn obj(j: Value) -> serde_json::Map<String, Value> { match j { Value::Object(o) => o, _ => arbitrary() } }
pub open spec fn node_arr(x: NodeValue) -> Vec<NodeValue> { match x { NodeValue::Array(a) => a, _ => arbitrary() } }
pub open spec fn node_obj(x: NodeValue) -> std::collections::HashMap<String, NodeValue> { match x { NodeValue::Object(o) => o, _ => arbitrary() } }
/// the JSON object that stands for a map of values
pub open spec fn is_object(x: SMap<String, NodeValue>, j: JMap, strict: bool) -> bool {
    (forall|k: String| #[trigger] x.contains_key(k) <==> j.contains_key(k@)) && (forall|t: Seq<char>| #[trigger] j.contains_key(t) ==> x.contains_key(str_key(t)))
        && forall|k: String| x.contains_key(k) ==> is_value(#[trigger] x[k], j[k@], strict)
}
pub proof fn lemma_object(x: SMap<String, NodeValue>, j: JMap, strict: bool)
    requires is_object(x, j, strict)
    ensures forall|k: String, v: NodeValue, jv: Value| is_value(v, jv, strict) ==> is_object(#[trigger] x.insert(k, v), #[trigger] j.insert(k@, jv), strict)
{
    assert forall|k: String, v: NodeValue, jv: Value| is_value(v, jv, strict) implies is_object(#[trigger] x.insert(k, v), #[trigger] j.insert(k@, jv), strict) by {
        let y = x.insert(k, v);
        let l = j.insert(k@, jv);
        assert forall|m: String| #[trigger] y.contains_key(m) <==> l.contains_key(m@) by { if m@ == k@ { assert(str_key(m@) == str_key(k@)); } }
        assert forall|m: String| y.contains_key(m) implies is_value(#[trigger] y[m], l[m@], strict) by { if m@ == k@ { assert(str_key(m@) == str_key(k@)); } }
    }
}
/// the JSON value that stands for a value
pub open spec fn is_value(x: NodeValue, j: Value, strict: bool) -> bool
    decreases x
{
    match x {
        NodeValue::None => j is Null,
        NodeValue::Boolean(b) => j == Value::Bool(b),
        NodeValue::Number(n) => j matches Value::Number(m) && match (n, jnum(m)) {
            (NodeNumber::Float(x), JNum::F(y)) => x == y,
            (NodeNumber::Integer(x), JNum::I(y)) => x == y,
            (NodeNumber::Float(_), JNum::U(_)) => !strict,
            _ => false,
        },
        NodeValue::String(s) => j matches Value::String(t) && s@ == t@,
        NodeValue::Array(v) => j matches Value::Array(a) && a@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> is_value(#[trigger] v@[i], a@[i], strict),
        NodeValue::Object(m) => j matches Value::Object(o) && (forall|k: String| #[trigger] m@.contains_key(k) <==> jmap(o).contains_key(k@))
            && (forall|t: Seq<char>| #[trigger] jmap(o).contains_key(t) ==> m@.contains_key(str_key(t)))
            && forall|k: String| m@.contains_key(k) ==> is_value(#[trigger] m@[k], jmap(o)[k@], strict),
    }
}
/// a value read as an object stands for the object
pub proof fn lemma_value_object(x: NodeValue, j: Value, strict: bool)
    requires x is Object, j is Object
    ensures is_value(x, j, strict) == is_object(node_obj(x)@, fields(j), strict)
{
    match x {
        NodeValue::Object(m) => match j {
            Value::Object(o) => {
                if is_value(x, j, strict) { assert forall|k: String| m@.contains_key(k) implies is_value(#[trigger] m@[k], jmap(o)[k@], strict) by {} }
            },
            _ => {},
        },
        _ => {},
    }
}
pub proof fn lemma_value_weak(x: NodeValue, j: Value)
    requires is_value(x, j, true)
    ensures is_value(x, j, false)
    decreases x
{
    match x {
        NodeValue::Array(v) => { let a = arr(j); assert forall|i: int| 0 <= i < v@.len() implies is_value(#[trigger] v@[i], a@[i], false) by { lemma_value_weak(v@[i], a@[i]); } },
        NodeValue::Object(m) => { let o = obj(j); assert forall|k: String| m@.contains_key(k) implies is_value(#[trigger] m@[k], jmap(o)[k@], false) by { lemma_value_weak(m@[k], jmap(o)[k@]); } },
        _ => {},
    }
}
/// values that no JSON value tells apart
pub open spec fn same_value(x: NodeValue, y: NodeValue) -> bool
    decreases x
{
    match (x, y) {
        (NodeValue::Array(v), NodeValue::Array(w)) => v@.len() == w@.len() && forall|i: int| 0 <= i < v@.len() ==> same_value(#[trigger] v@[i], w@[i]),
        (NodeValue::Object(m), NodeValue::Object(n)) => m@.dom() =~= n@.dom() && forall|k: String| m@.contains_key(k) ==> same_value(#[trigger] m@[k], n@[k]),
        _ => x == y,
    }
}
pub proof fn lemma_value_same(x: NodeValue, y: NodeValue, j: Value)
    requires is_value(x, j, true), is_value(y, j, false)
    ensures same_value(x, y)
    decreases x
{
    match x {
        NodeValue::Array(v) => {
            let a = arr(j);
            let w = node_arr(y);
            assert forall|i: int| 0 <= i < v@.len() implies same_value(#[trigger] v@[i], w@[i]) by { assert(is_value(w@[i], a@[i], false)); lemma_value_same(v@[i], w@[i], a@[i]); }
        },
        NodeValue::Object(m) => {
            let n = node_obj(y);
            let o = obj(j);
            assert forall|k: String| m@.contains_key(k) == n@.contains_key(k) by { assert(m@.contains_key(k) <==> jmap(o).contains_key(k@)); assert(n@.contains_key(k) <==> jmap(o).contains_key(k@)); }
            assert forall|k: String| m@.contains_key(k) implies same_value(#[trigger] m@[k], n@[k]) by { assert(n@.contains_key(k)); assert(is_value(n@[k], jmap(o)[k@], false)); lemma_value_same(m@[k], n@[k], jmap(o)[k@]); }
        },
        NodeValue::String(s) => { assert(str_key(s@) == s); },
        _ => {},
    }
}
/// a value that JSON can hold
pub open spec fn ok_value(x: NodeValue) -> bool
    decreases x
{
    match x {
        NodeValue::Number(NodeNumber::Float(f)) => finite(f),
        NodeValue::Array(v) => forall|i: int| 0 <= i < v@.len() ==> ok_value(#[trigger] v@[i]),
        NodeValue::Object(m) => forall|k: String| m@.contains_key(k) ==> ok_value(#[trigger] m@[k]),
        _ => true,
    }
}
// ---- parts of a shape
pub open spec fn text_in(oj: Option<Value>) -> Option<Seq<char>> { match oj { Some(Value::String(t)) => Some(t@), _ => None } }
pub open spec fn fields_in(oj: Option<Value>) -> JMap { match oj { Some(j) => fields(j), None => JMap::empty() } }
pub open spec fn field(j: Value, k: Seq<char>) -> Option<Value> { opt(fields(j), k) }
/// `{"target": "ns#Name"}`
pub open spec fn is_target(x: ShapeID, j: Value) -> bool { text_in(field(j, "target"@)) matches Some(t) && reads_sid(t) && sid_of(t) == x }
pub open spec fn is_opt_target(x: Option<ShapeID>, oj: Option<Value>) -> bool {
    match (x, oj) { (None, None) => true, (Some(x), Some(j)) => is_target(x, j), _ => false }
}
/// `[{"target": "ns#Name"}, ...]`, or nothing
#[verifier::opaque]
pub open spec fn is_targets(x: Seq<ShapeID>, oj: Option<Value>) -> bool {
    match oj {
        None => x.len() == 0,
        Some(Value::Array(a)) => x.len() == a@.len() && forall|i: int| #![trigger x[i]] #![trigger a@[i]] 0 <= i < x.len() ==> is_target(x[i], a@[i]),
        _ => false,
    }
}
pub open spec fn is_name(x: Identifier, j: Value) -> bool { text_in(Some(j)) matches Some(t) && reads_id(t) && id_of(t) == x }
pub open spec fn is_trait(x: TraitValue, j: Value, strict: bool) -> bool {
    match x { Some(v) => is_value(v, j, strict), None => j is Object && fields(j) =~= JMap::empty() }
}
/// JSON has no trait without a value
pub open spec fn same_trait(x: TraitValue, y: TraitValue) -> bool { same_value(value_in(x), value_in(y)) }
pub open spec fn value_in(x: TraitValue) -> NodeValue { match x { Some(v) => v, None => NodeValue::Object(empty_object()) } }
pub uninterp spec fn empty_object() -> std::collections::HashMap<String, NodeValue>;
pub broadcast axiom fn axiom_empty_object() ensures (#[trigger] empty_object()@) == SMap::<String, NodeValue>::empty();
pub open spec fn ok_trait(x: TraitValue) -> bool { match x { Some(v) => ok_value(v), None => true } }
pub proof fn lemma_trait(x: TraitValue, y: TraitValue, j: Value)
    requires is_trait(x, j, true)
    ensures is_trait(x, j, false), is_trait(y, j, false) ==> same_trait(x, y)
{
    broadcast use axiom_empty_object;
    assert forall|v: TraitValue, s: bool| #[trigger] is_trait(v, j, s) implies is_value(value_in(v), j, s) by {
        if v is None { lemma_value_object(value_in(v), j, s); }
    }
    lemma_value_weak(value_in(x), j);
    if is_trait(y, j, false) { lemma_value_same(value_in(x), value_in(y), j); }
}
/// is_member(m, id, j, strict): the JSON value that stands for the member of that name
pub open spec fn is_member(m: MemberShape, id: Identifier, oj: Option<Value>, strict: bool) -> bool {
    oj matches Some(j) && m.sp_id() == id && is_target(m.sp_target(), j) && is_opt_traits(m.sp_traits()@, field(j, "traits"@), strict)
}
pub open spec fn is_opt_traits(x: SMap<ShapeID, TraitValue>, oj: Option<Value>, strict: bool) -> bool {
    is_traits(x, fields_in(oj), strict) && traits_ok(x)
}
/// the traits of a new shape are those appended to it
pub broadcast proof fn lemma_new_traits(a: SMap<ShapeID, TraitValue>, b: SMap<ShapeID, TraitValue>, r: SMap<ShapeID, TraitValue>)
    requires #[trigger] traits_merged(a, b, r), a =~= SMap::<ShapeID, TraitValue>::empty()
    ensures r == b
{ assert(r =~= b); }
/// two readings have the same traits
pub broadcast proof fn lemma_traits_dom(x: SMap<ShapeID, TraitValue>, y: SMap<ShapeID, TraitValue>, j: JMap)
    requires #[trigger] is_traits(x, j, false), #[trigger] is_traits(y, j, false)
    ensures x.dom() == y.dom()
{
    reveal(is_traits);
    assert forall|k: ShapeID| x.contains_key(k) == y.contains_key(k) by {
        if x.contains_key(k) { let t = choose|t: Seq<char>| #[trigger] has_traits(x, j, k, t, false); }
        if y.contains_key(k) { let t = choose|t: Seq<char>| #[trigger] has_traits(y, j, k, t, false); }
    }
    assert(x.dom() =~= y.dom());
}
/// a trait is never the member of a shape
pub open spec fn traits_ok(x: SMap<ShapeID, TraitValue>) -> bool { forall|k: ShapeID| #[trigger] x.contains_key(k) ==> k.sp_member() is None }
pub open spec fn same_member(x: MemberShape, y: MemberShape) -> bool {
    x.sp_id() == y.sp_id() && x.sp_target() == y.sp_target() && same_traits(x.sp_traits()@, y.sp_traits()@)
}
pub proof fn lemma_opt_traits(x: SMap<ShapeID, TraitValue>, y: SMap<ShapeID, TraitValue>, oj: Option<Value>)
    requires is_opt_traits(x, oj, true)
    ensures is_opt_traits(x, oj, false), is_opt_traits(y, oj, false) ==> same_traits(x, y)
{ lemma_traits_both(x, y, fields_in(oj)); }
pub proof fn lemma_member(x: MemberShape, y: MemberShape, id: Identifier, oj: Option<Value>)
    requires is_member(x, id, oj, true)
    ensures is_member(x, id, oj, false), is_member(y, id, oj, false) ==> same_member(x, y)
{ lemma_opt_traits(x.sp_traits()@, y.sp_traits()@, field(oj->Some_0, "traits"@)); }
// ---- the bodies of shapes, by kind
/// the text of a shape's type
pub open spec fn type_text(b: ShapeKind) -> Seq<char> {
    match b {
        ShapeKind::Simple(k) => keyword(k), ShapeKind::List(_) => "list"@, ShapeKind::Set(_) => "set"@, ShapeKind::Map(_) => "map"@,
        ShapeKind::Structure(_) => "structure"@, ShapeKind::Union(_) => "union"@, ShapeKind::Service(_) => "service"@,
        ShapeKind::Operation(_) => "operation"@, ShapeKind::Resource(_) => "resource"@, ShapeKind::Unresolved => "apply"@,
    }
}
pub open spec fn kind_no(b: ShapeKind) -> int {
    match b {
        ShapeKind::Simple(_) => 0, ShapeKind::List(_) => 1, ShapeKind::Set(_) => 2, ShapeKind::Map(_) => 3, ShapeKind::Structure(_) => 4, ShapeKind::Union(_) => 5,
        ShapeKind::Service(_) => 6, ShapeKind::Operation(_) => 7, ShapeKind::Resource(_) => 8, ShapeKind::Unresolved => 9,
    }
}
pub open spec fn is_list(x: ListOrSet, j: Value, strict: bool) -> bool { is_member(x.sp_member(), id_of("member"@), field(j, "member"@), strict) }
pub open spec fn is_map(x: Map, j: Value, strict: bool) -> bool {
    is_member(x.sp_key(), id_of("key"@), field(j, "key"@), strict) && is_member(x.sp_value(), id_of("value"@), field(j, "value"@), strict)
}
pub open spec fn is_structure(x: StructureOrUnion, j: Value, strict: bool) -> bool { is_members(x.sp_members(), fields_in(field(j, "members"@)), strict) }
pub open spec fn is_service(x: Service, j: Value, strict: bool) -> bool {
    &&& text_in(field(j, "version"@)) == Some(x.sp_version()) && x.sp_version().len() != 0
    &&& is_targets(x.sp_operations(), field(j, "operations"@))
    &&& is_targets(x.sp_resources(), field(j, "resources"@))
    &&& is_renames(x.sp_renames(), fields_in(field(j, "rename"@)), strict) && !(field(j, "rename"@) matches Some(o) && !(o is Object))
}
pub open spec fn is_operation(x: Operation, j: Value) -> bool {
    is_opt_target(x.sp_input(), field(j, "input"@)) && is_opt_target(x.sp_output(), field(j, "output"@)) && is_targets(x.sp_errors(), field(j, "errors"@))
}
pub open spec fn is_resource(x: Resource, j: Value, strict: bool) -> bool {
    &&& is_identifiers(x.sp_identifiers(), fields_in(field(j, "identifiers"@)), strict) && !(field(j, "identifiers"@) matches Some(o) && !(o is Object))
    &&& is_opt_target(x.sp_create(), field(j, "create"@)) && is_opt_target(x.sp_put(), field(j, "put"@)) && is_opt_target(x.sp_read(), field(j, "read"@))
    &&& is_opt_target(x.sp_update(), field(j, "update"@)) && is_opt_target(x.sp_delete(), field(j, "delete"@)) && is_opt_target(x.sp_list(), field(j, "list"@))
    &&& is_targets(x.sp_operations(), field(j, "operations"@))
    &&& is_targets(x.sp_collection_operations(), field(j, "collectionOperations"@))
    &&& is_targets(x.sp_resources(), field(j, "resources"@))
}
#[verifier::opaque]
pub open spec fn is_body(b: ShapeKind, j: Value, strict: bool) -> bool {
    text_in(field(j, "type"@)) == Some(type_text(b)) && match b {
        ShapeKind::Simple(_) => true,
        ShapeKind::List(x) => is_list(x, j, strict),
        ShapeKind::Set(x) => is_list(x, j, strict),
        ShapeKind::Map(x) => is_map(x, j, strict),
        ShapeKind::Structure(x) => is_structure(x, j, strict),
        ShapeKind::Union(x) => is_structure(x, j, strict),
        ShapeKind::Service(x) => is_service(x, j, strict),
        ShapeKind::Operation(x) => is_operation(x, j),
        ShapeKind::Resource(x) => is_resource(x, j, strict),
        ShapeKind::Unresolved => true,
    }
}
/// distinct kinds have distinct text
pub proof fn lemma_type_text()
    ensures forall|a: ShapeKind, b: ShapeKind| #[trigger] type_text(a) == #[trigger] type_text(b) ==> kind_no(a) == kind_no(b) && (a is Simple ==> a == b)
{
    reveal_strlit("blob"); reveal_strlit("boolean"); reveal_strlit("document"); reveal_strlit("string"); reveal_strlit("byte"); reveal_strlit("short"); reveal_strlit("integer"); reveal_strlit("long"); reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("bigInteger"); reveal_strlit("bigDecimal"); reveal_strlit("timestamp");
    reveal_strlit("list"); reveal_strlit("set"); reveal_strlit("map"); reveal_strlit("structure"); reveal_strlit("union"); reveal_strlit("service"); reveal_strlit("operation"); reveal_strlit("resource"); reveal_strlit("apply");
    ::atelier_core::model::shapes::simple::lemma_keyword();
    assert forall|a: ShapeKind, b: ShapeKind| #[trigger] type_text(a) == #[trigger] type_text(b) implies kind_no(a) == kind_no(b) && (a is Simple ==> a == b) by {
        let s = type_text(a);
        let t = type_text(b);
        assert(s.len() == t.len());
        assert(s.len() > 0 ==> s[0] == t[0]); assert(s.len() > 1 ==> s[1] == t[1]); assert(s.len() > 2 ==> s[2] == t[2]); assert(s.len() > 3 ==> s[3] == t[3]);
    }
}
/// the same to whoever reads it
pub open spec fn same_body(x: ShapeKind, y: ShapeKind) -> bool {
    match (x, y) {
        (ShapeKind::Simple(a), ShapeKind::Simple(b)) => a == b,
        (ShapeKind::List(a), ShapeKind::List(b)) => same_member(a.sp_member(), b.sp_member()),
        (ShapeKind::Set(a), ShapeKind::Set(b)) => same_member(a.sp_member(), b.sp_member()),
        (ShapeKind::Map(a), ShapeKind::Map(b)) => same_member(a.sp_key(), b.sp_key()) && same_member(a.sp_value(), b.sp_value()),
        (ShapeKind::Structure(a), ShapeKind::Structure(b)) => same_members(a.sp_members(), b.sp_members()),
        (ShapeKind::Union(a), ShapeKind::Union(b)) => same_members(a.sp_members(), b.sp_members()),
        (ShapeKind::Service(a), ShapeKind::Service(b)) => a.sp_version() == b.sp_version() && a.sp_operations() == b.sp_operations()
            && a.sp_resources() == b.sp_resources() && a.sp_renames() == b.sp_renames(),
        (ShapeKind::Operation(a), ShapeKind::Operation(b)) => a.sp_input() == b.sp_input() && a.sp_output() == b.sp_output() && a.sp_errors() == b.sp_errors(),
        (ShapeKind::Resource(a), ShapeKind::Resource(b)) => a.sp_identifiers() == b.sp_identifiers() && a.sp_create() == b.sp_create() && a.sp_put() == b.sp_put()
            && a.sp_read() == b.sp_read() && a.sp_update() == b.sp_update() && a.sp_delete() == b.sp_delete() && a.sp_list() == b.sp_list()
            && a.sp_operations() == b.sp_operations() && a.sp_collection_operations() == b.sp_collection_operations() && a.sp_resources() == b.sp_resources(),
        (ShapeKind::Unresolved, ShapeKind::Unresolved) => true,
        _ => false,
    }
}
pub broadcast proof fn lemma_targets(x: Seq<ShapeID>, y: Seq<ShapeID>, oj: Option<Value>)
    requires #[trigger] is_targets(x, oj), #[trigger] is_targets(y, oj)
    ensures x == y
{ reveal(is_targets); assert(x =~= y); }
pub proof fn lemma_body(x: ShapeKind, y: ShapeKind, j: Value)
    requires is_body(x, j, true)
    ensures is_body(x, j, false), is_body(y, j, false) ==> same_body(x, y)
{
    reveal(is_body);
    broadcast use lemma_targets;
    lemma_type_text();
    match x {
        ShapeKind::List(a) => { lemma_member(a.sp_member(), match y { ShapeKind::List(b) => b.sp_member(), _ => a.sp_member() }, id_of("member"@), field(j, "member"@)); },
        ShapeKind::Set(a) => { lemma_member(a.sp_member(), match y { ShapeKind::Set(b) => b.sp_member(), _ => a.sp_member() }, id_of("member"@), field(j, "member"@)); },
        ShapeKind::Map(a) => {
            let b = match y { ShapeKind::Map(b) => b, _ => a };
            lemma_member(a.sp_key(), b.sp_key(), id_of("key"@), field(j, "key"@));
            lemma_member(a.sp_value(), b.sp_value(), id_of("value"@), field(j, "value"@));
        },
        ShapeKind::Structure(a) => { lemma_members_both(a.sp_members(), match y { ShapeKind::Structure(b) => b.sp_members(), _ => a.sp_members() }, fields_in(field(j, "members"@))); },
        ShapeKind::Union(a) => { lemma_members_both(a.sp_members(), match y { ShapeKind::Union(b) => b.sp_members(), _ => a.sp_members() }, fields_in(field(j, "members"@))); },
        ShapeKind::Service(a) => {
            let b = match y { ShapeKind::Service(b) => b, _ => a };
            lemma_renames_both(a.sp_renames(), b.sp_renames(), fields_in(field(j, "rename"@)));
            if is_body(y, j, false) { assert(a.sp_renames() =~= b.sp_renames()); }
        },
        ShapeKind::Resource(a) => {
            let b = match y { ShapeKind::Resource(b) => b, _ => a };
            lemma_identifiers_both(a.sp_identifiers(), b.sp_identifiers(), fields_in(field(j, "identifiers"@)));
            if is_body(y, j, false) { assert(a.sp_identifiers() =~= b.sp_identifiers()); }
        },
        _ => {},
    }
}
pub broadcast proof fn lemma_members_push(s: Seq<MemberShape>, m: MemberShape)
    ensures (#[trigger] members_of(s.push(m))) == members_of(s).insert(m.sp_id(), m)
{ assert(s.push(m).drop_last() =~= s); }
// ---- shapes and models
pub open spec fn is_shape(s: TopLevelShape, id: ShapeID, j: Value, strict: bool) -> bool {
    s.sp_id() == id && is_body(s.sp_body(), j, strict) && is_opt_traits(s.sp_traits()@, field(j, "traits"@), strict)
}
pub open spec fn same_shape(x: TopLevelShape, y: TopLevelShape) -> bool {
    x.sp_id() == y.sp_id() && same_traits(x.sp_traits()@, y.sp_traits()@) && same_body(x.sp_body(), y.sp_body())
}
pub proof fn lemma_shape(x: TopLevelShape, y: TopLevelShape, id: ShapeID, j: Value)
    requires is_shape(x, id, j, true)
    ensures is_shape(x, id, j, false), is_shape(y, id, j, false) ==> same_shape(x, y)
{
    lemma_body(x.sp_body(), y.sp_body(), j);
    lemma_opt_traits(x.sp_traits()@, y.sp_traits()@, field(j, "traits"@));
}
pub open spec fn is_version(v: Version, oj: Option<Value>) -> bool { text_in(oj) matches Some(t) && is_version_text(v, t) }
pub open spec fn metadata_in(j: Value) -> JMap { fields_in(field(j, "metadata"@)) }
pub open spec fn shapes_in(j: Value) -> JMap { fields_in(field(j, "shapes"@)) }
/// the document that stands for the model
pub open spec fn is_model(m: Model, j: Value, strict: bool) -> bool {
    &&& j is Object
    &&& is_version(m.sp_version(), field(j, "smithy"@))
    &&& is_object(m.sp_metadata(), metadata_in(j), strict)
    &&& is_shapes(m.sp_shapes(), shapes_in(j), strict)
    &&& no_bad_id(m.sp_shapes())
}
pub open spec fn no_bad_id(x: SMap<ShapeID, TopLevelShape>) -> bool { forall|k: ShapeID| #[trigger] x.contains_key(k) ==> !bad_id(x[k]) }
pub open spec fn same_object(x: SMap<String, NodeValue>, y: SMap<String, NodeValue>) -> bool {
    x.dom() =~= y.dom() && forall|k: String| #[trigger] x.contains_key(k) ==> same_value(x[k], y[k])
}
pub open spec fn same_model(x: Model, y: Model) -> bool {
    x.sp_version() == y.sp_version() && same_object(x.sp_metadata(), y.sp_metadata()) && same_shapes(x.sp_shapes(), y.sp_shapes())
}
/// C11: a document written for a model is one that can be read, and as no other model
pub proof fn C11_round_trip(x: Model, y: Model, j: Value)
    requires is_model(x, j, true)
    ensures is_model(x, j, false), distinct_shapes(shapes_in(j)), is_model(y, j, false) ==> same_model(x, y)
{
    let d = metadata_in(j);
    assert forall|k: String| x.sp_metadata().contains_key(k) implies is_value(#[trigger] x.sp_metadata()[k], d[k@], false) by { lemma_value_weak(x.sp_metadata()[k], d[k@]); }
    lemma_shapes_both(x.sp_shapes(), y.sp_shapes(), shapes_in(j));
    if is_model(y, j, false) {
        assert forall|k: String| x.sp_metadata().contains_key(k) == y.sp_metadata().contains_key(k) by { assert(x.sp_metadata().contains_key(k) <==> d.contains_key(k@)); assert(y.sp_metadata().contains_key(k) <==> d.contains_key(k@)); }
        assert forall|k: String| #[trigger] x.sp_metadata().contains_key(k) implies same_value(x.sp_metadata()[k], y.sp_metadata()[k]) by {
            assert(y.sp_metadata().contains_key(k)); assert(is_value(y.sp_metadata()[k], d[k@], false));
            lemma_value_same(x.sp_metadata()[k], y.sp_metadata()[k], d[k@]);
        }
    }
}
/// a document none of whose parts is unreadable
pub open spec fn readable(j: Value) -> bool {
    j is Object && (exists|v: Version| #[trigger] is_version(v, field(j, "smithy"@))) && all_read(shapes_in(j))
}
pub proof fn lemma_read(m: Model, j: Value)
    requires j is Object, all_read(shapes_in(j)), is_version(m.sp_version(), field(j, "smithy"@)), is_object(m.sp_metadata(), metadata_in(j), false),
        distinct_shapes(shapes_in(j)) ==> is_shapes(m.sp_shapes(), shapes_in(j), false) && no_bad_id(m.sp_shapes())
    ensures readable(j), distinct_shapes(shapes_in(j)) ==> is_model(m, j, false)
{}
/// the shapes read from the entries of a document
pub open spec fn listed(l: Seq<(NamespaceID, TopLevelShape)>, s: Seq<(Seq<char>, Value)>) -> bool {
    l.len() == s.len() && forall|i: int| #![trigger l[i]] #![trigger s[i]] 0 <= i < l.len() ==> reads_sid(s[i].0) && is_shape(l[i].1, sid_of(s[i].0), s[i].1, false)
}
pub open spec fn is_listed(l: Seq<(NamespaceID, TopLevelShape)>, j: JMap) -> bool { exists|s: Seq<(Seq<char>, Value)>| entries_of(j, s) && #[trigger] listed(l, s) }
pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub proof fn lemma_none_listed() ensures is_listed(Seq::empty(), JMap::empty()) {
    let s = Seq::<(Seq<char>, Value)>::empty();
    assert(entries_of(JMap::empty(), s) && listed(Seq::empty(), s));
}
/// every shape of the document has what its type requires
pub open spec fn all_read(j: JMap) -> bool { forall|t: Seq<char>| #[trigger] j.contains_key(t) ==> reads_shapes(t, j[t], false) }
pub proof fn lemma_listed(l: Seq<(NamespaceID, TopLevelShape)>, s: Seq<(Seq<char>, Value)>, j: JMap)
    requires entries_of(j, s), listed(l, s)
    ensures all_read(j), l.len() == s.len(), all_shapes(l.map_values(|p: (NamespaceID, TopLevelShape)| p.1), s)
{
    reveal(all_shapes);
    assert forall|t: Seq<char>| #[trigger] j.contains_key(t) implies reads_shapes(t, j[t], false) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t;
        assert(rel_shapes(sid_of(t), l[i].1, j[t], false));
    }
}
/// the id of a shape is that of a member in every reading or in none
pub proof fn lemma_bad_id(x: SMap<ShapeID, TopLevelShape>, j: JMap, t: Seq<char>, v: TopLevelShape)
    requires is_shapes(x, j, false), distinct_shapes(j), j.contains_key(t), is_shape(v, sid_of(t), j[t], false)
    ensures x.contains_key(sid_of(t)), bad_id(x[sid_of(t)]) == bad_id(v)
{
    reveal(is_shapes);
    reveal(is_body);
    lemma_type_text();
    let u = choose|u: Seq<char>| #[trigger] has_shapes(x, j, sid_of(t), u, false);
    assert(u == t);
}
#[verifier::opaque]
pub open spec fn all_shapes(l: Seq<TopLevelShape>, s: Seq<(Seq<char>, Value)>) -> bool {
    l.len() == s.len() && forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> reads_sid(s[i].0) && is_shape(l[i], sid_of(s[i].0), s[i].1, false)
}
pub proof fn lemma_next_shape(x: SMap<ShapeID, TopLevelShape>, j: JMap, l: Seq<TopLevelShape>, s: Seq<(Seq<char>, Value)>, i: int, v: TopLevelShape)
    requires entries_of(j, s), 0 <= i < s.len(), distinct_shapes(j), is_shapes(x, prefix(s, i), false), all_shapes(l, s), v == l[i]
    ensures !x.contains_key(v.sp_id()), is_shapes(x.insert(v.sp_id(), v), prefix(s, i + 1), false),
        forall|y: SMap<ShapeID, TopLevelShape>| #[trigger] is_shapes(y, j, false) ==> y.contains_key(v.sp_id()) && bad_id(y[v.sp_id()]) == bad_id(v)
{
    reveal(all_shapes);
    lemma_prefix_sub(j, s, i);
    let t = s[i].0;
    if x.contains_key(sid_of(t)) {
        reveal(is_shapes);
        let u = choose|u: Seq<char>| #[trigger] has_shapes(x, prefix(s, i), sid_of(t), u, false);
        assert(j.contains_key(u) && j.contains_key(t));
    }
    lemma_shapes(x, prefix(s, i), t, v, s[i].1, false);
    assert forall|y: SMap<ShapeID, TopLevelShape>| #[trigger] is_shapes(y, j, false) implies y.contains_key(v.sp_id()) && bad_id(y[v.sp_id()]) == bad_id(v) by { lemma_bad_id(y, j, t, v); }
}
/// a shape whose id is new is added as it is
pub broadcast proof fn lemma_added_shape(a: SMap<ShapeID, TopLevelShape>, s: TopLevelShape, r: SMap<ShapeID, TopLevelShape>)
    requires #[trigger] shapes_merged(a, SMap::<ShapeID, TopLevelShape>::empty().insert(s.sp_id(), s), r), !a.contains_key(s.sp_id())
    ensures r == a.insert(s.sp_id(), s)
{ assert(r =~= a.insert(s.sp_id(), s)); }
pub broadcast proof fn lemma_added_metadata(a: SMap<String, NodeValue>, k: String, v: NodeValue, r: SMap<String, NodeValue>)
    requires #[trigger] meta_merged(a, SMap::<String, NodeValue>::empty().insert(k, v), r), !a.contains_key(k)
    ensures r == a.insert(k, v)
{ assert(r =~= a.insert(k, v)); }
// ---- what JSON can hold
pub open spec fn ok_traits(x: SMap<ShapeID, TraitValue>) -> bool { forall|k: ShapeID| #[trigger] x.contains_key(k) ==> valid_sid(k) && k.sp_member() is None && ok_trait(x[k]) }
pub open spec fn ok_member(m: MemberShape) -> bool { valid_sid(m.sp_target()) && ok_traits(m.sp_traits()@) }
pub open spec fn ok_members(x: SMap<Identifier, MemberShape>) -> bool { forall|k: Identifier| #[trigger] x.contains_key(k) ==> valid_id(k) && x[k].sp_id() == k && ok_member(x[k]) }
pub open spec fn ok_renames(x: SMap<ShapeID, Identifier>) -> bool { forall|k: ShapeID| #[trigger] x.contains_key(k) ==> valid_sid(k) && valid_id(x[k]) }
pub open spec fn ok_identifiers(x: SMap<Identifier, ShapeID>) -> bool { forall|k: Identifier| #[trigger] x.contains_key(k) ==> valid_id(k) && valid_sid(x[k]) }
pub open spec fn renames_in(b: ShapeKind) -> SMap<ShapeID, Identifier> { match b { ShapeKind::Service(x) => x.sp_renames(), _ => SMap::empty() } }
pub open spec fn identifiers_in(b: ShapeKind) -> SMap<Identifier, ShapeID> { match b { ShapeKind::Resource(x) => x.sp_identifiers(), _ => SMap::empty() } }
#[verifier::opaque]
pub open spec fn ok_ids(s: Seq<ShapeID>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid_sid(#[trigger] s[i]) }
pub broadcast proof fn lemma_ok_refs(s: Seq<&ShapeID>)
    requires #[trigger] ok_ids(s.unref())
    ensures forall|i: int| 0 <= i < s.len() ==> valid_sid(*(#[trigger] s[i]))
{ reveal(ok_ids); assert forall|i: int| 0 <= i < s.len() implies valid_sid(*(#[trigger] s[i])) by { assert(s.unref()[i] == *s[i]); } }
pub broadcast proof fn lemma_written_targets(s: Seq<&ShapeID>, a: Vec<Value>)
    requires a@.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> is_target(*(#[trigger] s[i]), a@[i])
    ensures #[trigger] is_targets(s.unref(), Some(Value::Array(a)))
{
    reveal(is_targets);
    assert forall|i: int| #![trigger s.unref()[i]] #![trigger a@[i]] 0 <= i < s.len() implies is_target(s.unref()[i], a@[i]) by { assert(s.unref()[i] == *s[i]); }
}
pub broadcast proof fn lemma_no_targets(s: Seq<ShapeID>)
    requires s.len() == 0
    ensures #[trigger] is_targets(s, None)
{ reveal(is_targets); }
pub open spec fn ok_opt_id(o: Option<ShapeID>) -> bool { match o { Some(i) => valid_sid(i), None => true } }
#[verifier::opaque]
pub open spec fn ok_body(b: ShapeKind) -> bool {
    match b {
        ShapeKind::Simple(_) => true,
        ShapeKind::List(x) => x.sp_member().sp_id() == id_of("member"@) && ok_member(x.sp_member()),
        ShapeKind::Set(x) => x.sp_member().sp_id() == id_of("member"@) && ok_member(x.sp_member()),
        ShapeKind::Map(x) => x.sp_key().sp_id() == id_of("key"@) && x.sp_value().sp_id() == id_of("value"@) && ok_member(x.sp_key()) && ok_member(x.sp_value()),
        ShapeKind::Structure(x) => ok_members(x.sp_members()),
        ShapeKind::Union(x) => ok_members(x.sp_members()),
        ShapeKind::Service(x) => x.sp_version().len() != 0 && ok_ids(x.sp_operations()) && ok_ids(x.sp_resources())
            && ok_renames(x.sp_renames()),
        ShapeKind::Operation(x) => ok_opt_id(x.sp_input()) && ok_opt_id(x.sp_output()) && ok_ids(x.sp_errors()),
        ShapeKind::Resource(x) => ok_opt_id(x.sp_create()) && ok_opt_id(x.sp_put()) && ok_opt_id(x.sp_read()) && ok_opt_id(x.sp_update()) && ok_opt_id(x.sp_delete())
            && ok_opt_id(x.sp_list()) && ok_ids(x.sp_operations()) && ok_ids(x.sp_collection_operations()) && ok_ids(x.sp_resources())
            && ok_identifiers(x.sp_identifiers()),
        ShapeKind::Unresolved => true,
    }
}
pub open spec fn ok_shape(s: TopLevelShape) -> bool { valid_sid(s.sp_id()) && ok_traits(s.sp_traits()@) && ok_body(s.sp_body()) }
pub open spec fn ok_shapes(x: SMap<ShapeID, TopLevelShape>) -> bool { forall|k: ShapeID| #[trigger] x.contains_key(k) ==> x[k].sp_id() == k && ok_shape(x[k]) }
pub open spec fn ok_model(m: Model) -> bool {
    &&& forall|k: String| #[trigger] m.sp_metadata().contains_key(k) ==> ok_value(m.sp_metadata()[k])
    &&& ok_shapes(m.sp_shapes()) && no_bad_id(m.sp_shapes())
}
/// the keys of the JSON AST differ
#[verifier::opaque]
pub open spec fn key_no(s: Seq<char>) -> int { s.len() * 1_000_000_000 + (s[0] as int) * 10_000 + (s[1] as int) }
pub proof fn lemma_keys()
    ensures key_no("smithy"@) == 6001150109, key_no("metadata"@) == 8001090101, key_no("shapes"@) == 6001150104, key_no("traits"@) == 6001160114, key_no("type"@) == 4001160121, key_no("target"@) == 6001160097, key_no("members"@) == 7001090101, key_no("member"@) == 6001090101, key_no("key"@) == 3001070101, key_no("value"@) == 5001180097, key_no("version"@) == 7001180101, key_no("operations"@) == 10001110112, key_no("resources"@) == 9001140101, key_no("rename"@) == 6001140101, key_no("input"@) == 5001050110, key_no("output"@) == 6001110117, key_no("errors"@) == 6001010114, key_no("identifiers"@) == 11001050100, key_no("create"@) == 6000990114, key_no("put"@) == 3001120117, key_no("read"@) == 4001140101, key_no("update"@) == 6001170112, key_no("delete"@) == 6001000101, key_no("list"@) == 4001080105, key_no("collectionOperations"@) == 20000990111
{ reveal(key_no); reveal_strlit("smithy"); reveal_strlit("metadata"); reveal_strlit("shapes"); reveal_strlit("traits"); reveal_strlit("type"); reveal_strlit("target"); reveal_strlit("members"); reveal_strlit("member"); reveal_strlit("key"); reveal_strlit("value"); reveal_strlit("version"); reveal_strlit("operations"); reveal_strlit("resources"); reveal_strlit("rename"); reveal_strlit("input"); reveal_strlit("output"); reveal_strlit("errors"); reveal_strlit("identifiers"); reveal_strlit("create"); reveal_strlit("put"); reveal_strlit("read"); reveal_strlit("update"); reveal_strlit("delete"); reveal_strlit("list"); reveal_strlit("collectionOperations"); }
// ---- maps of things that bear their key
@foreach N K V : members Identifier MemberShape ; shapes ShapeID TopLevelShape .
pub open spec fn keyed_$N(s: Seq<$V>) -> Seq<($K, $V)> { s.map_values(|v: $V| (v.sp_id(), v)) }
pub broadcast proof fn lemma_keyed_$N(m: SMap<$K, $V>, s: Seq<$V>)
    requires #[trigger] s.to_set() == #[trigger] m.values(), s.len() == m.dom().len(), ok_$N(m)
    ensures entries_of(m, keyed_$N(s))
{
    let u = keyed_$N(s);
    let t = s.map_values(|v: $V| v.sp_id());
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] u[i]).0) && m[u[i].0] == u[i].1 by {
        assert(s.contains(s[i]));
        assert(s.to_set().contains(s[i]));
        assert(m.values().contains(s[i]));
    }
    assert forall|k: $K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k by {
        assert(m.values().contains(m[k]));
        assert(s.to_set().contains(m[k]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == m[k];
        assert(u[i].0 == k);
    }
    assert forall|k: $K| t.to_set().contains(k) <==> m.dom().contains(k) by {
        if t.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == k;
            assert(m.contains_key(u[i].0));
        }
        if m.contains_key(k) {
            let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0 == k;
            assert(t[i] == k);
        }
    }
    assert(t.to_set() =~= m.dom());
    t.lemma_no_dup_set_cardinality();
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0 != (#[trigger] u[j]).0 by { assert(t[i] != t[j]); }
}
@end
/// members with distinct names
pub open spec fn ok_member_list(s: Seq<MemberShape>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> valid_id((#[trigger] s[i]).sp_id()) && ok_member(s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).sp_id() != (#[trigger] s[j]).sp_id()
}
pub broadcast proof fn lemma_member_list(m: SMap<Identifier, MemberShape>, s: Seq<MemberShape>)
    requires #[trigger] s.to_set() == #[trigger] m.values(), s.len() == m.dom().len(), ok_members(m)
    ensures ok_member_list(s), prefix(keyed_members(s), s.len() as int) == m
{
    lemma_keyed_members(m, s);
    let u = keyed_members(s);
    lemma_prefix_sub(m, u, u.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies valid_id((#[trigger] s[i]).sp_id()) && ok_member(s[i]) by { assert(u[i].0 == s[i].sp_id()); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).sp_id() != (#[trigger] s[j]).sp_id() by { assert(u[i].0 != u[j].0); }
}
pub proof fn lemma_next_member(s: Seq<MemberShape>, i: int)
    requires ok_member_list(s), 0 <= i < s.len()
    ensures !prefix(keyed_members(s), i).contains_key(s[i].sp_id()),
        prefix(keyed_members(s), i + 1) == prefix(keyed_members(s), i).insert(s[i].sp_id(), s[i])
{
    lemma_prefix_dom(keyed_members(s), i, s[i].sp_id());
}
// ---- maps whose keys are ids
@foreach N K V KEY READS REL WEAK OTHER SAME LEMMA : traits ShapeID TraitValue sid_of reads_sid is_trait(v,jv,strict) is_trait(v,jv,false) is_trait(w,jv,false) same_trait(v,w) lemma_trait(v,w,jv) ; renames ShapeID Identifier sid_of reads_sid is_name(v,jv) is_name(v,jv) is_name(w,jv) v==w assert(true) ; identifiers Identifier ShapeID id_of reads_id is_target(v,jv) is_target(v,jv) is_target(w,jv) v==w assert(true) ; members Identifier MemberShape id_of reads_id is_member(v,k,Some(jv),strict) is_member(v,k,Some(jv),false) is_member(w,k,Some(jv),false) same_member(v,w) lemma_member(v,w,k,Some(jv)) ; shapes ShapeID TopLevelShape sid_of reads_sid is_shape(v,k,jv,strict) is_shape(v,k,jv,false) is_shape(w,k,jv,false) same_shape(v,w) lemma_shape(v,w,k,jv) .
/// no two of the texts are read as the same id
pub open spec fn distinct_$N(j: JMap) -> bool {
    forall|s: Seq<char>, t: Seq<char>| #[trigger] j.contains_key(s) && #[trigger] j.contains_key(t) && $KEY(s) == $KEY(t) ==> s == t
}
pub open spec fn rel_$N(k: $K, v: $V, jv: Value, strict: bool) -> bool { $REL }
pub open spec fn reads_$N(t: Seq<char>, jv: Value, strict: bool) -> bool { $READS(t) && exists|v: $V| #[trigger] rel_$N($KEY(t), v, jv, strict) }
pub open spec fn has_$N(x: SMap<$K, $V>, j: JMap, k: $K, t: Seq<char>, strict: bool) -> bool { j.contains_key(t) && $KEY(t) == k && rel_$N(k, x[k], j[t], strict) }
#[verifier::opaque]
pub open spec fn is_$N(x: SMap<$K, $V>, j: JMap, strict: bool) -> bool {
    &&& forall|t: Seq<char>| #[trigger] j.contains_key(t) ==> x.contains_key($KEY(t)) && reads_$N(t, j[t], strict)
    &&& forall|k: $K| #[trigger] x.contains_key(k) ==> exists|t: Seq<char>| #[trigger] has_$N(x, j, k, t, strict)
    &&& strict ==> distinct_$N(j)
}
pub open spec fn same_$N(x: SMap<$K, $V>, y: SMap<$K, $V>) -> bool {
    x.dom() =~= y.dom() && forall|k: $K| #[trigger] x.contains_key(k) ==> ({ let v = x[k]; let w = y[k]; $SAME })
}
pub proof fn lemma_$N(x: SMap<$K, $V>, j: JMap, t: Seq<char>, v: $V, jv: Value, strict: bool)
    requires is_$N(x, j, strict), $READS(t), rel_$N($KEY(t), v, jv, strict), !j.contains_key(t), strict ==> !x.contains_key($KEY(t))
    ensures is_$N(x.insert($KEY(t), v), j.insert(t, jv), strict)
{
    reveal(is_$N);
    let y = x.insert($KEY(t), v);
    let l = j.insert(t, jv);
    assert forall|k: $K| #[trigger] y.contains_key(k) implies exists|u: Seq<char>| #[trigger] has_$N(y, l, k, u, strict) by {
        if k == $KEY(t) { assert(has_$N(y, l, k, t, strict)); }
        else {
            let u = choose|u: Seq<char>| #[trigger] has_$N(x, j, k, u, strict);
            assert(has_$N(y, l, k, u, strict));
        }
    }
    assert forall|u: Seq<char>| #[trigger] l.contains_key(u) implies y.contains_key($KEY(u)) && reads_$N(u, l[u], strict) by {
        if u != t { assert(j.contains_key(u)); }
    }
    if strict {
        assert forall|s: Seq<char>, u: Seq<char>| #[trigger] l.contains_key(s) && #[trigger] l.contains_key(u) && $KEY(s) == $KEY(u) implies s == u by {
            if s != t { assert(j.contains_key(s)); }
            if u != t { assert(j.contains_key(u)); }
        }
    }
}
/// one more entry
pub proof fn lemma_$N_step(x: SMap<$K, $V>, j: JMap, t: Seq<char>, jv: Value, strict: bool)
    requires is_$N(x, j, strict), !j.contains_key(t)
    ensures forall|v: $V| $READS(t) && rel_$N($KEY(t), v, jv, strict) && (strict ==> !x.contains_key($KEY(t)))
        ==> is_$N(#[trigger] x.insert($KEY(t), v), j.insert(t, jv), strict)
{
    assert forall|v: $V| $READS(t) && rel_$N($KEY(t), v, jv, strict) && (strict ==> !x.contains_key($KEY(t)))
        implies is_$N(#[trigger] x.insert($KEY(t), v), j.insert(t, jv), strict) by { lemma_$N(x, j, t, v, jv, strict); }
}
/// an entry is written
pub proof fn lemma_$N_written(x: SMap<$K, $V>, j: JMap)
    requires is_$N(x, j, true)
    ensures forall|k: $K, v: $V, t: Seq<char>, jv: Value| !x.contains_key(k) && $READS(t) && $KEY(t) == k && rel_$N(k, v, jv, true)
        ==> is_$N(#[trigger] x.insert(k, v), #[trigger] j.insert(t, jv), true)
{
    assert forall|k: $K, v: $V, t: Seq<char>, jv: Value| !x.contains_key(k) && $READS(t) && $KEY(t) == k && rel_$N(k, v, jv, true)
        implies is_$N(#[trigger] x.insert(k, v), #[trigger] j.insert(t, jv), true) by {
        if j.contains_key(t) { reveal(is_$N); }
        lemma_$N(x, j, t, v, jv, true);
    }
}
pub broadcast proof fn lemma_$N_none(x: SMap<$K, $V>, strict: bool)
    requires x.dom() =~= SSet::<$K>::empty()
    ensures #[trigger] is_$N(x, JMap::empty(), strict)
{ assert(x =~= SMap::<$K, $V>::empty()); lemma_$N_empty(strict); }
pub proof fn lemma_$N_empty(strict: bool) ensures is_$N(SMap::<$K, $V>::empty(), JMap::empty(), strict) { reveal(is_$N); }
/// an entry that cannot be read
pub broadcast proof fn lemma_$N_unread(x: SMap<$K, $V>, j: JMap, t: Seq<char>, strict: bool)
    requires #[trigger] is_$N(x, j, strict), #[trigger] j.contains_key(t)
    ensures reads_$N(t, j[t], strict)
{ reveal(is_$N); }
pub proof fn lemma_$N_both(x: SMap<$K, $V>, y: SMap<$K, $V>, j: JMap)
    requires is_$N(x, j, true)
    ensures is_$N(x, j, false), distinct_$N(j), is_$N(y, j, false) ==> same_$N(x, y)
{
    reveal(is_$N);
    assert forall|t: Seq<char>| #[trigger] j.contains_key(t) implies x.contains_key($KEY(t)) && reads_$N(t, j[t], false) by {
        let v = choose|v: $V| #[trigger] rel_$N($KEY(t), v, j[t], true);
        let w = v;
        let jv = j[t];
        let k = $KEY(t);
        $LEMMA;
        assert(rel_$N(k, v, jv, false));
    }
    assert forall|k: $K| #[trigger] x.contains_key(k) implies exists|t: Seq<char>| #[trigger] has_$N(x, j, k, t, false) by {
        let t = choose|t: Seq<char>| #[trigger] has_$N(x, j, k, t, true);
        let v = x[k];
        let w = v;
        let jv = j[t];
        $LEMMA;
        assert(has_$N(x, j, k, t, false));
    }
    if is_$N(y, j, false) {
        assert forall|k: $K| x.contains_key(k) == y.contains_key(k) by {
            if x.contains_key(k) { let t = choose|t: Seq<char>| #[trigger] has_$N(x, j, k, t, true); }
            if y.contains_key(k) { let t = choose|t: Seq<char>| #[trigger] has_$N(y, j, k, t, false); }
        }
        assert forall|k: $K| #[trigger] x.contains_key(k) implies ({ let v = x[k]; let w = y[k]; $SAME }) by {
            let t = choose|t: Seq<char>| #[trigger] has_$N(x, j, k, t, true);
            assert(y.contains_key(k));
            let u = choose|u: Seq<char>| #[trigger] has_$N(y, j, k, u, false);
            assert(t == u);
            let v = x[k];
            let w = y[k];
            let jv = j[t];
            $LEMMA;
        }
    }
}
@end
}
}
