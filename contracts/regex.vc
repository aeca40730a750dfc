## What the `regex` crate does.  $REGEX_SPECS: the specification functions made from the literals of the source.
@crate
/// Regular expressions: the text a `Regex` was made from decides what it accepts.
pub mod vxre {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use regex::{Regex, Captures, Match};
verus!{
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegex(Regex);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegexError(regex::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCaptures<'h>(Captures<'h>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExMatch<'h>(Match<'h>);
pub uninterp spec fn re_text(r: Regex) -> Seq<char>;
pub uninterp spec fn regex_valid(t: Seq<char>) -> bool;
pub uninterp spec fn regex_accepts(t: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn regex_captures(t: Seq<char>, s: Seq<char>, g: Map<int, Seq<char>>) -> bool;
/// the groups that took part, with their text
pub uninterp spec fn cap_groups(c: Captures<'_>) -> Map<int, Seq<char>>;
pub uninterp spec fn match_text(m: Match<'_>) -> Seq<char>;
pub assume_specification [Regex::new] (t: &str) -> (r: Result<Regex, regex::Error>)
    ensures regex_valid(t@) ==> r is Ok, r matches Ok(x) ==> re_text(x) == t@;
pub assume_specification [Regex::is_match] (x: &Regex, s: &str) -> (r: bool) ensures r == regex_accepts(re_text(*x), s@);
pub assume_specification<'h> [Regex::captures] (x: &Regex, s: &'h str) -> (r: Option<Captures<'h>>)
    ensures r is Some <==> regex_accepts(re_text(*x), s@), r matches Some(c) ==> regex_captures(re_text(*x), s@, cap_groups(c));
pub assume_specification<'h> [Captures::<'h>::get] (c: &Captures<'h>, i: usize) -> (r: Option<Match<'h>>)
    ensures r is Some <==> cap_groups(*c).dom().contains(i as int), r matches Some(m) ==> match_text(m) == cap_groups(*c)[i as int];
pub assume_specification<'h> [Match::<'h>::as_str] (m: &Match<'h>) -> (r: &'h str) ensures r@ == match_text(*m);
$REGEX_SPECS
}
}
