@include fmt.vc
@for C09 C26
@for C09 C26
@item builder::traits::ErrorSource
#[verus_verify]
@mod builder::traits
verus!{
use crate::vstdf::*;
/// the values of the `error` trait
pub open spec fn source_text(s: ErrorSource) -> Seq<char> {
    match s {
        ErrorSource::Client => "client"@, ErrorSource::Server => "server"@,
    }
}
impl VxText for ErrorSource { open spec fn vx_text(&self) -> Seq<char> { source_text(*self) } }
/// distinct kinds have distinct text
pub proof fn lemma_source_text()
    ensures forall|a: ErrorSource, b: ErrorSource| #[trigger] source_text(a) == #[trigger] source_text(b) ==> a == b
{
    reveal_strlit("client"); reveal_strlit("server");
    assert forall|a: ErrorSource, b: ErrorSource| #[trigger] source_text(a) == #[trigger] source_text(b) implies a == b by {
        assert(source_text(a).len() == source_text(b).len());
        assert(source_text(a).len() > 0 ==> source_text(a)[0] == source_text(b)[0]);
    }
}
/// printing a kind and reading the text back gives that kind, and no other
pub proof fn C26_source_text_round_trip(k: ErrorSource, j: ErrorSource) ensures source_text(k) == source_text(j) <==> k == j { lemma_source_text(); }
/// the literals of the code are these texts and no others: a string slice is its text
pub proof fn lemma_source_text_slices(s: &str)
    ensures
        s@ == "client"@ ==> s == "client",
        s@ == "server"@ ==> s == "server",
{ broadcast use axiom_str_ext; }
}
@fn builder::traits::[Display for ErrorSource]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + source_text(*self))]
@@entry
proof! { reveal_strlit(""); }
@fn builder::traits::[FromStr for ErrorSource]::from_str
#[verus_spec(r => ensures match r { Ok(k) => source_text(k) == s@, Err(_) => forall|k: ErrorSource| #[trigger] source_text(k) != s@ })]
@@entry
proof! { broadcast use axiom_str_ext; lemma_source_text(); lemma_source_text_slices(s);
}
