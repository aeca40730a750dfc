@include std.vc
@fmt
@crate
/// Formatting.  A formatter collects text; `vx_writeN`/`vx_formatN` stand for `write!`/`format!` with N plain pieces.
pub mod vstdf {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::fmt::{Display, Formatter};
verus!{
/// a string slice is its text
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;
/// the text written to a formatter so far
pub uninterp spec fn written(f: Formatter<'_>) -> Seq<char>;
/// what `Display` shows.  For the types of the crate it is tied to `Display::fmt` by the contract of that function.
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; }
impl VxText for str { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl VxText for char { open spec fn vx_text(&self) -> Seq<char> { seq![*self] } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn vx_text(&self) -> Seq<char> { (**self).vx_text() } }
pub broadcast axiom fn axiom_to_string<T: Display + VxText + ?Sized>(t: &T, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures(t, s) ==> s@ == t.vx_text();

#[verifier::external_body]
pub fn vx_format0(l0: &str) -> (r: String) ensures r@ == l0@ { format!("{}", l0) }
#[verifier::external_body]
pub fn vx_format1<A: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str) -> (r: String) ensures r@ == l0@ + a.vx_text() + l1@
{ format!("{}{}{}", l0, a, l1) }
#[verifier::external_body]
pub fn vx_format2<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@
{ format!("{}{}{}{}{}", l0, a, l1, b, l2) }
#[verifier::external_body]
pub fn vx_format3<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@
{ format!("{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3) }
#[verifier::external_body]
pub fn vx_format4<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized, D: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@ + d.vx_text() + l4@
{ format!("{}{}{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3, d, l4) }
#[verifier::external_body]
pub fn vx_format5<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized, D: Display + VxText + ?Sized, E: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str, e: &E, l5: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@ + d.vx_text() + l4@ + e.vx_text() + l5@
{ format!("{}{}{}{}{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3, d, l4, e, l5) }
#[verifier::external_body]
pub fn vx_format6<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized, D: Display + VxText + ?Sized, E: Display + VxText + ?Sized, F: Display + VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str, e: &E, l5: &str, f: &F, l6: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@ + d.vx_text() + l4@ + e.vx_text() + l5@ + f.vx_text() + l6@
{ format!("{}{}{}{}{}{}{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3, d, l4, e, l5, f, l6) }
/// a string as `{:?}` shows it: in double quotes, special characters escaped
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
pub trait VxQuoted: VxText {}
impl VxQuoted for str {}
impl VxQuoted for String {}
impl<T: VxQuoted + ?Sized> VxQuoted for &T {}
#[verifier::external_body]
pub fn vx_quoted<A: VxQuoted + ?Sized>(s: &A) -> (r: String) ensures r@ == quoted(s.vx_text()) { String::new() }

/// what `Debug` shows: any text
#[verifier::external_body]
pub fn vx_debug<A: ?Sized>(a: &A) -> (r: String) { String::new() }
pub trait VxWrite: Sized {
    spec fn vx_written(self) -> Seq<char>;
    fn vx_write0(&mut self, l0: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_written() == old(self).vx_written() + l0@;
    fn vx_write1<A: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_written() == old(self).vx_written() + l0@ + a.vx_text() + l1@;
    fn vx_write2<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_written() == old(self).vx_written() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@;
    fn vx_write3<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_written() == old(self).vx_written() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@;
    fn vx_write4<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized, D: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_written() == old(self).vx_written() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@ + d.vx_text() + l4@;
}
impl<'a> VxWrite for Formatter<'a> {
    open spec fn vx_written(self) -> Seq<char> { written(self) }
    #[verifier::external_body]
    fn vx_write0(&mut self, l0: &str) -> std::fmt::Result { self.write_fmt(format_args!("{}", l0)) }
    #[verifier::external_body]
    fn vx_write1<A: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str) -> std::fmt::Result { self.write_fmt(format_args!("{}{}{}", l0, a, l1)) }
    #[verifier::external_body]
    fn vx_write2<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> std::fmt::Result
    { self.write_fmt(format_args!("{}{}{}{}{}", l0, a, l1, b, l2)) }
    #[verifier::external_body]
    fn vx_write3<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> std::fmt::Result
    { self.write_fmt(format_args!("{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3)) }
    #[verifier::external_body]
    fn vx_write4<A: Display + VxText + ?Sized, B: Display + VxText + ?Sized, C: Display + VxText + ?Sized, D: Display + VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str) -> std::fmt::Result
    { self.write_fmt(format_args!("{}{}{}{}{}{}{}{}{}", l0, a, l1, b, l2, c, l3, d, l4)) }
}
}
}
