## C19: shape ids as URNs (atelier_rdf), over the contracts of atelier_core (grammar.vc), which are imported as Verus exports them.
@fmt
@rename all vx_all
@rename replace vx_replace
@rename strip_prefix vx_strip_prefix
@crate
pub mod vstdf { pub use ::atelier_core::vstdf::*; }
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use ::atelier_core::vstdx::*;
use ::atelier_core::vstdf::*;
use rdftk_iri::{IRI, Path, Scheme};
use std::str::FromStr;
verus!{
/// `E.all(f)` is verified as this loop.
pub trait VxAll: Iterator + Sized {
    fn vx_all<F: Fn(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
            forall|i: int| 0 <= i < self.remaining().len() ==> f.requires((#[trigger] self.remaining()[i],)),
        ensures r ==> forall|i: int| 0 <= i < self.remaining().len() ==> f.ensures((#[trigger] self.remaining()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.remaining().len() && f.ensures((#[trigger] self.remaining()[i],), false);
}
impl<I: Iterator> VxAll for I {
    fn vx_all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
        let ghost x = self.remaining();
        for v in it: vx_items(self)
            invariant it.seq() == x, forall|i: int| 0 <= i < x.len() ==> f.requires((#[trigger] x[i],)),
                forall|i: int| 0 <= i < it.index() ==> f.ensures((#[trigger] x[i],), true),
        {
            if !f(v) { return false; }
        }
        true
    }
}
/// `E.replace(c, "d")` and `E.strip_prefix(p)` of a text
pub open spec fn swapped(s: Seq<char>, from: char, to: char) -> Seq<char> { s.map_values(|c: char| if c == from { to } else { c }) }
pub trait VxReplace {
    spec fn vx_chars(&self) -> Seq<char>;
    fn vx_replace(&self, from: char, to: &str) -> (r: String) ensures to@.len() == 1 ==> r@ == swapped(self.vx_chars(), from, to@[0]);
    fn vx_strip_prefix<'a>(&'a self, p: &str) -> (r: Option<&'a str>)
        ensures match r { Some(t) => self.vx_chars() == p@ + t@ && t@ == self.vx_chars().skip(p@.len() as int), None => !p@.is_prefix_of(self.vx_chars()) };
}
impl VxReplace for str {
    open spec fn vx_chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace(&self, from: char, to: &str) -> String { self.replace(from, to) }
    #[verifier::external_body]
    fn vx_strip_prefix<'a>(&'a self, p: &str) -> Option<&'a str> { self.strip_prefix(p) }
}
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == ('a' <= *c <= 'z' || 'A' <= *c <= 'Z' || '0' <= *c <= '9');
pub assume_specification<T>[ <std::sync::Arc<T> as From<T>>::from ](t: T) -> (r: std::sync::Arc<T>) ensures *r == t;
// ---- the IRIs of rdftk_iri
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIri(IRI);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExScheme(Scheme);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIriError(rdftk_iri::error::Error);
pub uninterp spec fn scheme_of(i: IRI) -> Option<Scheme>;
pub uninterp spec fn path_of(i: IRI) -> Seq<char>;
/// it has an authority, a query or a fragment
pub uninterp spec fn has_authority(i: IRI) -> bool;
pub uninterp spec fn has_query(i: IRI) -> bool;
pub uninterp spec fn has_fragment(i: IRI) -> bool;
/// the scheme, whatever the case of its letters
pub uninterp spec fn scheme_name(s: Scheme) -> Seq<char>;
pub uninterp spec fn path_text(p: Path) -> Seq<char>;
pub broadcast axiom fn axiom_path_string(p: &Path, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(p, s) ==> s@ == path_text(*p);
pub assume_specification[ IRI::scheme ](i: &IRI) -> (r: &Option<Scheme>) ensures *r == scheme_of(*i);
pub assume_specification[ IRI::path ](i: &IRI) -> (r: &Path) ensures path_text(*r) == path_of(*i);
pub assume_specification[ IRI::has_authority ](i: &IRI) -> (r: bool) ensures r == has_authority(*i);
pub assume_specification[ IRI::has_query ](i: &IRI) -> (r: bool) ensures r == has_query(*i);
pub assume_specification[ IRI::has_fragment ](i: &IRI) -> (r: bool) ensures r == has_fragment(*i);
/// letters, digits, "_", ".", ":" and "/", not at the start
pub open spec fn iri_char(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' || c == '.' || c == ':' || c == '/' }
pub open spec fn iri_path(p: Seq<char>) -> bool { p.len() > 0 && p[0] != '/' && forall|i: int| 0 <= i < p.len() ==> iri_char(#[trigger] p[i]) }
pub open spec fn is_urn(i: IRI) -> bool { scheme_of(i) matches Some(s) && scheme_name(s) == "urn"@ && !has_authority(i) && !has_query(i) && !has_fragment(i) }
pub assume_specification[ <IRI as FromStr>::from_str ](s: &str) -> (r: Result<IRI, <IRI as FromStr>::Err>)
    ensures forall|p: Seq<char>| s@ == "urn:"@ + p && #[trigger] iri_path(p) ==> (r matches Ok(i) && is_urn(i) && path_of(i) == p);
pub assume_specification[ <Scheme as FromStr>::from_str ](s: &str) -> (r: Result<Scheme, <Scheme as FromStr>::Err>)
    ensures s@ == "urn"@ ==> (r matches Ok(x) && scheme_name(x) == "urn"@);
pub broadcast axiom fn axiom_scheme_obeys() ensures #[trigger] <Scheme as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_scheme_eq(a: Scheme, b: Scheme)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (scheme_name(a) == scheme_name(b));
}
}
@for C19
@const urn::SHAPE_URN_ABSOLUTE_SEPARATOR
#[verus_verify]
@const urn::SHAPE_URN_MEMBER_SEPARATOR
#[verus_verify]
@const urn::URN_NID
#[verus_verify]
@mod urn
verus!{
use crate::vstdx::*;
use ::atelier_core::vstdf::VxText;
use ::atelier_core::model::identity::{shape_text, opt_text, shape_ok, parts_ok};
/// NAMESPACE:NAME, NAMESPACE:NAME/MEMBER
pub open spec fn tail(n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>) -> Seq<char> {
    n + seq![':'] + name + match m { None => Seq::<char>::empty(), Some(m) => seq!['/'] + m }
}
/// urn:smithy:NAMESPACE:NAME, urn:smithy:NAMESPACE:NAME/MEMBER
pub open spec fn urn_of(id: ShapeID) -> Seq<char> { "smithy:"@ + tail(id.sp_namespace().text(), id.sp_name().text(), opt_text(id.sp_member())) }
pub open spec fn to_urn(s: Seq<char>) -> Seq<char> { swapped(swapped(s, '#', ':'), '$', '/') }
pub open spec fn to_id(s: Seq<char>) -> Seq<char> { swapped(swapped(s, ':', '#'), '/', '$') }
pub proof fn lemma_parts(n: Seq<char>, name: Seq<char>, m: Option<Seq<char>>)
    requires parts_ok(n, name, m)
    ensures to_urn(shape_text(n, name, m)) == tail(n, name, m), to_id(tail(n, name, m)) == shape_text(n, name, m),
        iri_path("smithy:"@ + tail(n, name, m)), forall|i: int| 0 <= i < tail(n, name, m).len() ==> iri_char(#[trigger] tail(n, name, m)[i])
{
    ::atelier_core::model::identity::lemma_ns_chars(n);
    ::atelier_core::model::identity::lemma_ident_chars(name);
    if m is Some { ::atelier_core::model::identity::lemma_ident_chars(m->0); }
    assert(to_urn(shape_text(n, name, m)) =~= tail(n, name, m));
    assert(to_id(tail(n, name, m)) =~= shape_text(n, name, m));
    reveal_strlit("smithy:");
}
pub proof fn lemma_back(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> iri_char(#[trigger] s[i])
    ensures to_urn(to_id(s)) == s
{ assert(to_urn(to_id(s)) =~= s); }
}
@mod urn
verus!{
pub open spec fn plain_text(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> iri_char(#[trigger] t[i]) }
pub proof fn lemma_urns()
    ensures
        forall|id: ShapeID| #[trigger] id.parts_valid() ==> {
            let t = urn_of(id).skip(7);
            &&& "smithy:"@.is_prefix_of(urn_of(id))
            &&& urn_of(id) == "smithy:"@ + t
            &&& plain_text(t)
            &&& to_id(t) == id.vx_text()
            &&& to_urn(id.vx_text()) == t
            &&& shape_ok(id.vx_text())
        },
        forall|t: Seq<char>| plain_text(t) ==> to_urn(swapped(#[trigger] swapped(t, ':', '#'), '/', '$')) == t,
        "smithy:"@.len() == 7,
{
    reveal_strlit("smithy:");
    assert forall|id: ShapeID| #[trigger] id.parts_valid() implies {
            let t = urn_of(id).skip(7);
            &&& "smithy:"@.is_prefix_of(urn_of(id))
            &&& urn_of(id) == "smithy:"@ + t
            &&& plain_text(t)
            &&& to_id(t) == id.vx_text()
            &&& to_urn(id.vx_text()) == t
            &&& shape_ok(id.vx_text())
        } by {
        lemma_parts(id.sp_namespace().text(), id.sp_name().text(), opt_text(id.sp_member()));
        let t = tail(id.sp_namespace().text(), id.sp_name().text(), opt_text(id.sp_member()));
        assert(urn_of(id).skip(7) =~= t);
        assert("smithy:"@ =~= urn_of(id).take(7));
        assert(id.vx_text() == shape_text(id.sp_namespace().text(), id.sp_name().text(), opt_text(id.sp_member())));
    }
    assert forall|t: Seq<char>| plain_text(t) implies to_urn(swapped(#[trigger] swapped(t, ':', '#'), '/', '$')) == t by { lemma_back(t); }
}
}
@fn urn::shape_to_iri
#[verus_spec(r => requires value.parts_valid() ensures is_urn(*r), path_of(*r) == urn_of(*value))]
@@entry
proof! {
    lemma_parts(value.sp_namespace().text(), value.sp_name().text(), opt_text(value.sp_member()));
    reveal_strlit("");
    reveal_strlit("urn:");
    broadcast use crate::vstdf::axiom_to_string;
    assert("urn:"@ + "smithy:"@ + tail(value.sp_namespace().text(), value.sp_name().text(), opt_text(value.sp_member())) =~= "urn:"@ + urn_of(*value));
}
@fn urn::iri_to_shape
#[verus_spec(r => ensures match r {
    Ok(id) => id.parts_valid() && is_urn(*iri) && path_of(*iri) == urn_of(id),
    Err(_) => forall|id: ShapeID| #[trigger] id.parts_valid() && is_urn(*iri) ==> path_of(*iri) != urn_of(id) })]
@@entry
proof! {
    lemma_urns();
    broadcast use crate::vstdf::axiom_to_string, axiom_path_string, axiom_scheme_eq, axiom_scheme_obeys;
}
@@closure 0
#[verus_spec(b: bool => ensures b == iri_char(c))]
@fn urn::is_shape_iri
#[verus_spec(r => ensures r == exists|id: ShapeID| #[trigger] id.parts_valid() && is_urn(*iri) && path_of(*iri) == urn_of(id))]
@mod urn
verus!{
/// C19: the URN decides the text of the id, and reading the URN of an id gives that id.
pub proof fn C19_bijection(a: ShapeID, b: ShapeID)
    requires a.parts_valid(), b.parts_valid()
    ensures urn_of(a) == urn_of(b) ==> a.same_text(b) && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)
{
    lemma_urns();
    if urn_of(a) == urn_of(b) { ::atelier_core::model::identity::lemma_text_parts(a, b); }
}
pub proof fn C19_round_trip(a: ShapeID, iri: IRI, r: Result<ShapeID, String>)
    requires a.parts_valid(), is_urn(iri), path_of(iri) == urn_of(a),
        match r {
            Ok(id) => id.parts_valid() && is_urn(iri) && path_of(iri) == urn_of(id),
            Err(_) => forall|id: ShapeID| #[trigger] id.parts_valid() && is_urn(iri) ==> path_of(iri) != urn_of(id) },
    ensures r matches Ok(b) && b.same_text(a)
{
    if r is Ok { C19_bijection(r->Ok_0, a); }
}
}
