@for C26 C21
@item model::selector::ShapeType
#[verus_verify]
@mod model::selector
verus!{
use crate::vstdf::*;
/// the keyword of a shape type in a selector
pub open spec fn type_keyword(s: ShapeType) -> Seq<char> {
    match s {
        ShapeType::Number => "number"@, ShapeType::SimpleType => "simpleType"@, ShapeType::Collection => "collection"@, ShapeType::Blob => "blob"@, ShapeType::Boolean => "boolean"@,
        ShapeType::Document => "document"@, ShapeType::String => "string"@, ShapeType::Integer => "integer"@, ShapeType::Byte => "byte"@, ShapeType::Short => "short"@,
        ShapeType::Long => "long"@, ShapeType::Float => "float"@, ShapeType::Double => "double"@, ShapeType::BigDecimal => "bigDecimal"@, ShapeType::BigInteger => "bigInteger"@,
        ShapeType::Timestamp => "timestamp"@, ShapeType::List => "list"@, ShapeType::Set => "set"@, ShapeType::Map => "map"@, ShapeType::Structure => "structure"@,
        ShapeType::Union => "union"@, ShapeType::Service => "service"@, ShapeType::Operation => "operation"@, ShapeType::Resource => "resource"@, ShapeType::Member => "member"@,
        ShapeType::Any => "*"@,
    }
}
impl VxText for ShapeType { open spec fn vx_text(&self) -> Seq<char> { type_keyword(*self) } }
/// distinct kinds have distinct text
pub proof fn lemma_type_keyword()
    ensures forall|a: ShapeType, b: ShapeType| #[trigger] type_keyword(a) == #[trigger] type_keyword(b) ==> a == b
{
    reveal_strlit("number"); reveal_strlit("simpleType"); reveal_strlit("collection"); reveal_strlit("blob"); reveal_strlit("boolean"); reveal_strlit("document"); reveal_strlit("string"); reveal_strlit("integer"); reveal_strlit("byte"); reveal_strlit("short"); reveal_strlit("long"); reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("bigDecimal"); reveal_strlit("bigInteger"); reveal_strlit("timestamp"); reveal_strlit("list"); reveal_strlit("set"); reveal_strlit("map"); reveal_strlit("structure"); reveal_strlit("union"); reveal_strlit("service"); reveal_strlit("operation"); reveal_strlit("resource"); reveal_strlit("member"); reveal_strlit("*");
    assert forall|a: ShapeType, b: ShapeType| #[trigger] type_keyword(a) == #[trigger] type_keyword(b) implies a == b by {
        assert(type_keyword(a).len() == type_keyword(b).len());
        assert(type_keyword(a).len() > 0 ==> type_keyword(a)[0] == type_keyword(b)[0]); assert(type_keyword(a).len() > 1 ==> type_keyword(a)[1] == type_keyword(b)[1]); assert(type_keyword(a).len() > 2 ==> type_keyword(a)[2] == type_keyword(b)[2]); assert(type_keyword(a).len() > 3 ==> type_keyword(a)[3] == type_keyword(b)[3]);
    }
}
/// printing a kind and reading the text back gives that kind, and no other
pub proof fn C26_type_keyword_round_trip(k: ShapeType, j: ShapeType) ensures type_keyword(k) == type_keyword(j) <==> k == j { lemma_type_keyword(); }
/// the literals of the code are these texts and no others: a string slice is its text
pub proof fn lemma_type_keyword_slices(s: &str)
    ensures
        s@ == "number"@ ==> s == "number",
        s@ == "simpleType"@ ==> s == "simpleType",
        s@ == "collection"@ ==> s == "collection",
        s@ == "blob"@ ==> s == "blob",
        s@ == "boolean"@ ==> s == "boolean",
        s@ == "document"@ ==> s == "document",
        s@ == "string"@ ==> s == "string",
        s@ == "integer"@ ==> s == "integer",
        s@ == "byte"@ ==> s == "byte",
        s@ == "short"@ ==> s == "short",
        s@ == "long"@ ==> s == "long",
        s@ == "float"@ ==> s == "float",
        s@ == "double"@ ==> s == "double",
        s@ == "bigDecimal"@ ==> s == "bigDecimal",
        s@ == "bigInteger"@ ==> s == "bigInteger",
        s@ == "timestamp"@ ==> s == "timestamp",
        s@ == "list"@ ==> s == "list",
        s@ == "set"@ ==> s == "set",
        s@ == "map"@ ==> s == "map",
        s@ == "structure"@ ==> s == "structure",
        s@ == "union"@ ==> s == "union",
        s@ == "service"@ ==> s == "service",
        s@ == "operation"@ ==> s == "operation",
        s@ == "resource"@ ==> s == "resource",
        s@ == "member"@ ==> s == "member",
        s@ == "*"@ ==> s == "*",
{ broadcast use axiom_str_ext; }
}
@fn model::selector::[Display for ShapeType]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + type_keyword(*self))]
@@entry
proof! { reveal_strlit(""); }
@fn model::selector::[FromStr for ShapeType]::from_str
#[verus_spec(r => ensures match r { Ok(k) => type_keyword(k) == s@, Err(_) => forall|k: ShapeType| #[trigger] type_keyword(k) != s@ })]
@@entry
proof! { broadcast use axiom_str_ext; lemma_type_keyword(); lemma_type_keyword_slices(s);
}
@item model::selector::Comparator
#[verus_verify]
@mod model::selector
verus!{
/// the text of a selector comparator
pub open spec fn comparator_text(s: Comparator) -> Seq<char> {
    match s {
        Comparator::StringEqual => "="@, Comparator::StringNotEqual => "!="@, Comparator::StringStartsWith => "^="@, Comparator::StringEndsWith => "$="@, Comparator::StringContains => "*="@,
        Comparator::StringExists => "?="@, Comparator::NumberGreaterThan => ">"@, Comparator::NumberGreaterOrEqual => ">="@, Comparator::NumberLessThan => "<"@, Comparator::NumberLessOrEqual => "<="@,
        Comparator::ProjectionEqual => "{=}"@, Comparator::ProjectionNotEqual => "{!=}"@, Comparator::ProjectionSubset => "{<}"@, Comparator::ProjectionProperSubset => "{<<}"@,
    }
}
impl VxText for Comparator { open spec fn vx_text(&self) -> Seq<char> { comparator_text(*self) } }
/// distinct kinds have distinct text
pub proof fn lemma_comparator_text()
    ensures forall|a: Comparator, b: Comparator| #[trigger] comparator_text(a) == #[trigger] comparator_text(b) ==> a == b
{
    reveal_strlit("="); reveal_strlit("!="); reveal_strlit("^="); reveal_strlit("$="); reveal_strlit("*="); reveal_strlit("?="); reveal_strlit(">"); reveal_strlit(">="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit("{=}"); reveal_strlit("{!=}"); reveal_strlit("{<}"); reveal_strlit("{<<}");
    assert forall|a: Comparator, b: Comparator| #[trigger] comparator_text(a) == #[trigger] comparator_text(b) implies a == b by {
        assert(comparator_text(a).len() == comparator_text(b).len());
        assert(comparator_text(a).len() > 0 ==> comparator_text(a)[0] == comparator_text(b)[0]); assert(comparator_text(a).len() > 1 ==> comparator_text(a)[1] == comparator_text(b)[1]); assert(comparator_text(a).len() > 2 ==> comparator_text(a)[2] == comparator_text(b)[2]);
    }
}
/// printing a kind and reading the text back gives that kind, and no other
pub proof fn C26_comparator_text_round_trip(k: Comparator, j: Comparator) ensures comparator_text(k) == comparator_text(j) <==> k == j { lemma_comparator_text(); }
/// the literals of the code are these texts and no others: a string slice is its text
pub proof fn lemma_comparator_text_slices(s: &str)
    ensures
        s@ == "="@ ==> s == "=",
        s@ == "!="@ ==> s == "!=",
        s@ == "^="@ ==> s == "^=",
        s@ == "$="@ ==> s == "$=",
        s@ == "*="@ ==> s == "*=",
        s@ == "?="@ ==> s == "?=",
        s@ == ">"@ ==> s == ">",
        s@ == ">="@ ==> s == ">=",
        s@ == "<"@ ==> s == "<",
        s@ == "<="@ ==> s == "<=",
        s@ == "{=}"@ ==> s == "{=}",
        s@ == "{!=}"@ ==> s == "{!=}",
        s@ == "{<}"@ ==> s == "{<}",
        s@ == "{<<}"@ ==> s == "{<<}",
{ broadcast use axiom_str_ext; }
}
@fn model::selector::[Display for Comparator]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + comparator_text(*self))]
@@entry
proof! { reveal_strlit(""); }
@fn model::selector::[FromStr for Comparator]::from_str
#[verus_spec(r => ensures match r { Ok(k) => comparator_text(k) == s@, Err(_) => forall|k: Comparator| #[trigger] comparator_text(k) != s@ })]
@@entry
proof! { broadcast use axiom_str_ext; lemma_comparator_text(); lemma_comparator_text_slices(s);
}
