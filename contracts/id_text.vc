## The text of ids: which texts are read, and as what (decided with the whole grammar in grammar.vc)
@mod model::identity
verus!{
/// the text is read as an identifier, as a shape id
pub uninterp spec fn reads_id(s: Seq<char>) -> bool;
pub uninterp spec fn reads_sid(s: Seq<char>) -> bool;
pub uninterp spec fn sid_of(s: Seq<char>) -> ShapeID;
/// made of parts that follow the grammar
pub uninterp spec fn valid_id(i: Identifier) -> bool;
pub uninterp spec fn valid_sid(i: ShapeID) -> bool;
pub broadcast axiom fn axiom_valid_identifier_text(i: &Identifier, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(i, s) ==> (valid_id(*i) ==> reads_id(s@));
pub broadcast axiom fn axiom_shape_id_text(i: &ShapeID, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(i, s) ==> (valid_sid(*i) ==> reads_sid(s@) && sid_of(s@) == *i);
pub broadcast group group_id_texts { axiom_identifier_text, axiom_valid_identifier_text, axiom_shape_id_text }
}
@fn model::identity::[FromStr for Identifier]::from_str
#[verus_verify(external_body)]
#[verus_spec(r => ensures match r { Ok(i) => reads_id(s@) && i == id_of(s@), Err(_) => !reads_id(s@) })]
@fn model::identity::[FromStr for ShapeID]::from_str
#[verus_verify(external_body)]
#[verus_spec(r => ensures match r { Ok(i) => reads_sid(s@) && i == sid_of(s@), Err(_) => !reads_sid(s@) })]
