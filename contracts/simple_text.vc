## the text of the simple kinds
@for C26
@foreach C : BLOB ; BOOLEAN ; DOCUMENT ; STRING ; BYTE ; SHORT ; INTEGER ; LONG ; FLOAT ; DOUBLE ; BIG_INTEGER ; BIG_DECIMAL ; TIMESTAMP .
@const syntax::SHAPE_$C
#[verus_verify]
@end
@mod model::shapes::simple
verus!{
use crate::vstdf::*;
/// the Smithy keyword of a simple shape kind
pub open spec fn keyword(s: Simple) -> Seq<char> {
    match s {
        Simple::Blob => "blob"@, Simple::Boolean => "boolean"@, Simple::Document => "document"@, Simple::String => "string"@, Simple::Byte => "byte"@,
        Simple::Short => "short"@, Simple::Integer => "integer"@, Simple::Long => "long"@, Simple::Float => "float"@, Simple::Double => "double"@,
        Simple::BigInteger => "bigInteger"@, Simple::BigDecimal => "bigDecimal"@, Simple::Timestamp => "timestamp"@,
    }
}
impl VxText for Simple { open spec fn vx_text(&self) -> Seq<char> { keyword(*self) } }
/// distinct kinds have distinct text
pub proof fn lemma_keyword()
    ensures forall|a: Simple, b: Simple| #[trigger] keyword(a) == #[trigger] keyword(b) ==> a == b
{
    reveal_strlit("blob"); reveal_strlit("boolean"); reveal_strlit("document"); reveal_strlit("string"); reveal_strlit("byte"); reveal_strlit("short"); reveal_strlit("integer"); reveal_strlit("long"); reveal_strlit("float"); reveal_strlit("double"); reveal_strlit("bigInteger"); reveal_strlit("bigDecimal"); reveal_strlit("timestamp");
    assert forall|a: Simple, b: Simple| #[trigger] keyword(a) == #[trigger] keyword(b) implies a == b by {
        assert(keyword(a).len() == keyword(b).len());
        assert(keyword(a).len() > 0 ==> keyword(a)[0] == keyword(b)[0]); assert(keyword(a).len() > 1 ==> keyword(a)[1] == keyword(b)[1]); assert(keyword(a).len() > 2 ==> keyword(a)[2] == keyword(b)[2]); assert(keyword(a).len() > 3 ==> keyword(a)[3] == keyword(b)[3]);
    }
}
/// printing a kind and reading the text back gives that kind, and no other
pub proof fn C26_keyword_round_trip(k: Simple, j: Simple) ensures keyword(k) == keyword(j) <==> k == j { lemma_keyword(); }
/// the literals of the code are these texts and no others: a string slice is its text
pub proof fn lemma_keyword_slices(s: &str)
    ensures
        s@ == "blob"@ ==> s == "blob",
        s@ == "boolean"@ ==> s == "boolean",
        s@ == "document"@ ==> s == "document",
        s@ == "string"@ ==> s == "string",
        s@ == "byte"@ ==> s == "byte",
        s@ == "short"@ ==> s == "short",
        s@ == "integer"@ ==> s == "integer",
        s@ == "long"@ ==> s == "long",
        s@ == "float"@ ==> s == "float",
        s@ == "double"@ ==> s == "double",
        s@ == "bigInteger"@ ==> s == "bigInteger",
        s@ == "bigDecimal"@ ==> s == "bigDecimal",
        s@ == "timestamp"@ ==> s == "timestamp",
{ broadcast use axiom_str_ext; }
}
@fn model::shapes::simple::[Display for Simple]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + keyword(*self))]
@@entry
proof! { reveal_strlit(""); }
@fn model::shapes::simple::[FromStr for Simple]::from_str
#[verus_spec(r => ensures match r { Ok(k) => keyword(k) == s@, Err(_) => forall|k: Simple| #[trigger] keyword(k) != s@ })]
@@entry
proof! { broadcast use axiom_str_ext; lemma_keyword(); lemma_keyword_slices(s);
    assert(s@ == SHAPE_BLOB@ ==> s == SHAPE_BLOB); assert(s@ == SHAPE_BOOLEAN@ ==> s == SHAPE_BOOLEAN); assert(s@ == SHAPE_DOCUMENT@ ==> s == SHAPE_DOCUMENT); assert(s@ == SHAPE_STRING@ ==> s == SHAPE_STRING); assert(s@ == SHAPE_BYTE@ ==> s == SHAPE_BYTE); assert(s@ == SHAPE_SHORT@ ==> s == SHAPE_SHORT); assert(s@ == SHAPE_INTEGER@ ==> s == SHAPE_INTEGER); assert(s@ == SHAPE_LONG@ ==> s == SHAPE_LONG); assert(s@ == SHAPE_FLOAT@ ==> s == SHAPE_FLOAT); assert(s@ == SHAPE_DOUBLE@ ==> s == SHAPE_DOUBLE); assert(s@ == SHAPE_BIG_INTEGER@ ==> s == SHAPE_BIG_INTEGER); assert(s@ == SHAPE_BIG_DECIMAL@ ==> s == SHAPE_BIG_DECIMAL); assert(s@ == SHAPE_TIMESTAMP@ ==> s == SHAPE_TIMESTAMP);
}
