## C21: what a selector prints.  Every part of a selector has a text (`vx_text`), given by the part's fields alone; each `Display::fmt` writes that text.
@include grammar.vc
@include selector_text.vc
@for C21
@joined
@fmt untyped
@rename contains vx_has_char
@rename to_string vx_show
@crate
/// `write!`, `format!` and `to_string` of values that print through each other: as in vstdf, without the bound `Display`
/// (rustc has checked it in the source; the bodies are never run).
pub mod vstdt {
#![allow(unused_imports, missing_docs, dead_code, unused_variables)]
use vstd::prelude::*;
use std::fmt::Formatter;
use crate::vstdf::*;
verus!{
/// what `x.to_string()` gives: what `Display` shows
pub trait VxShow: VxText { fn vx_show(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl<T: VxText + ?Sized> VxShow for T { #[verifier::external_body] fn vx_show(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub fn vx_tformat0(l0: &str) -> (r: String)
    ensures r@ == l0@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_tformat1<A: VxText + ?Sized>(l0: &str, a: &A, l1: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_tformat2<A: VxText + ?Sized, B: VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_tformat3<A: VxText + ?Sized, B: VxText + ?Sized, C: VxText + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: String)
    ensures r@ == l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@
{ unimplemented!() }
pub trait VxTWrite: Sized {
    spec fn vx_twritten(self) -> Seq<char>;
    fn vx_twrite0(&mut self, l0: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_twritten() == old(self).vx_twritten() + l0@;
    fn vx_twrite1<A: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_twritten() == old(self).vx_twritten() + l0@ + a.vx_text() + l1@;
    fn vx_twrite2<A: VxText + ?Sized, B: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_twritten() == old(self).vx_twritten() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@;
    fn vx_twrite3<A: VxText + ?Sized, B: VxText + ?Sized, C: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_twritten() == old(self).vx_twritten() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@;
    fn vx_twrite4<A: VxText + ?Sized, B: VxText + ?Sized, C: VxText + ?Sized, D: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str) -> (r: std::fmt::Result)
        ensures r is Ok ==> final(self).vx_twritten() == old(self).vx_twritten() + l0@ + a.vx_text() + l1@ + b.vx_text() + l2@ + c.vx_text() + l3@ + d.vx_text() + l4@;
}
impl<'a> VxTWrite for Formatter<'a> {
    open spec fn vx_twritten(self) -> Seq<char> { written(self) }
    #[verifier::external_body]
    fn vx_twrite0(&mut self, l0: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn vx_twrite1<A: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn vx_twrite2<A: VxText + ?Sized, B: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn vx_twrite3<A: VxText + ?Sized, B: VxText + ?Sized, C: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn vx_twrite4<A: VxText + ?Sized, B: VxText + ?Sized, C: VxText + ?Sized, D: VxText + ?Sized>(&mut self, l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str, d: &D, l4: &str) -> std::fmt::Result { unimplemented!() }
}
}
}
@crate
/// Texts with a separator between them.
pub mod vxjoin {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vstdf::*;
use std::fmt::Display;
verus!{
/// the texts, with the separator between each two of them
pub open spec fn joined(t: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { seq![] } else if t.len() == 1 { t[0] } else { joined(t.drop_last(), sep) + sep + t.last() }
}
/// what the items of an iterator show
pub open spec fn texts<T: VxText>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].vx_text()) }
pub broadcast proof fn lemma_texts<T: VxText>(a: Seq<T>, b: Seq<T>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).vx_text() == b[i].vx_text()
    ensures #[trigger] texts(a) == #[trigger] texts(b)
{ assert(texts(a) =~= texts(b)); }
pub proof fn lemma_append<T: VxText>(a: Seq<T>, b: Seq<T>, s: Seq<T>, i: int)
    requires 0 <= i < s.len(), b.len() == a.len() + 1, b.drop_last() =~= a, b.last().vx_text() == s[i].vx_text()
    ensures texts(b) == texts(a).push(s[i].vx_text()), texts(s.take(i + 1)) == texts(s.take(i)).push(s[i].vx_text()),
        forall|p: Seq<Seq<char>>| #[trigger] (p + texts(s.take(i + 1))) == (p + texts(s.take(i))).push(s[i].vx_text())
{
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by { assert(b.drop_last()[k] == b[k]); }
    assert(texts(b) =~= texts(a).push(s[i].vx_text())); assert(texts(s.take(i + 1)) =~= texts(s.take(i)).push(s[i].vx_text()));
    assert forall|p: Seq<Seq<char>>| #[trigger] (p + texts(s.take(i + 1))) == (p + texts(s.take(i))).push(s[i].vx_text()) by { assert(p + texts(s.take(i + 1)) =~= (p + texts(s.take(i))).push(s[i].vx_text())); }
}
pub trait VxJoin: Iterator + Sized {
    #[verifier::prophetic] spec fn vx_items(&self) -> Seq<Self::Item>;
    spec fn vx_ends(&self) -> bool;
    /// `.map(T::to_string).collect::<Vec<String>>().join(sep)`
    fn vx_joined(self, sep: &str) -> (r: String) where Self::Item: VxText
        requires self.vx_ends()
        ensures forall|t: Seq<Seq<char>>| t.len() == self.vx_items().len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == self.vx_items()[i].vx_text()) ==> r@ == #[trigger] joined(t, sep@);
}
impl<I: Iterator> VxJoin for I {
    #[verifier::prophetic] open spec fn vx_items(&self) -> Seq<I::Item> { self.remaining() }
    open spec fn vx_ends(&self) -> bool { self.obeys_prophetic_iter_laws() && self.decrease() is Some }
    #[verifier::external_body]
    fn vx_joined(self, sep: &str) -> String where I::Item: VxText { unimplemented!() }
}
pub trait VxHasChar { spec fn vx_all(&self) -> Seq<char>; fn vx_has_char(&self, c: char) -> (r: bool) ensures r == self.vx_all().contains(c); }
impl VxHasChar for String {
    open spec fn vx_all(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_has_char(&self, c: char) -> bool { self.contains(c) }
}
/// the texts of numbers: std decides them
pub uninterp spec fn int_text(i: i64) -> Seq<char>;
pub uninterp spec fn float_text(f: f64) -> Seq<char>;
impl VxText for i64 { open spec fn vx_text(&self) -> Seq<char> { int_text(*self) } }
impl VxText for f64 { open spec fn vx_text(&self) -> Seq<char> { float_text(*self) } }
}
}
@mod model::identity
verus!{
use crate::vstdt::*;
}
@item model::values::Number
#[verus_verify]
@mod model::values
verus!{
use crate::vstdf::*;
use crate::vxjoin::*;
use crate::vstdt::*;
impl VxText for Number { open spec fn vx_text(&self) -> Seq<char> { match *self { Number::Integer(i) => int_text(i), Number::Float(f) => float_text(f) } } }
}
@fn model::values::[Display for Number]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + self.vx_text())]
@@entry
proof! { reveal_strlit(""); }
@foreach T : Value ; KeyPathSegment ; Key ; AttributeComparison ; AttributeSelector ; ScopedAttributeSelector ; ScopedValue ; ScopedAttributeAssertion ; NeighborSelector ; Function ; VariableDefinition ; VariableReference ; SelectorExpression ; Selector .
@item model::selector::$T
#[verus_verify]
@fn model::selector::[Display for $T]::fmt
#[verus_spec(r => ensures r is Ok ==> written(*final(f)) =~= written(*old(f)) + self.vx_text())]
@@entry
proof! { lemma_literals(); broadcast use {lemma_selector_text, lemma_function_text}; }
@end
## derived clones; those of the types that hold selectors are recursive through `Vec<T: Clone>`, which Verus does not take
@fn model::selector::[Clone for Key]::clone
#[verus_spec(r => ensures r.vx_text() == self.vx_text(), r.sp_identifier().vx_text() == self.sp_identifier().vx_text(), texts(r.sp_path()@) == texts(self.sp_path()@))]
@@entry
proof! { broadcast use lemma_texts; }
@foreach T : Value ; KeyPathSegment ; Comparator ; AttributeComparison ; AttributeSelector ; ScopedAttributeSelector ; ScopedValue ; ScopedAttributeAssertion ; NeighborSelector ; VariableReference .
@fn model::selector::[Clone for $T]::clone
#[verus_spec(r => ensures r.vx_text() == self.vx_text())]
@@entry
proof! { broadcast use lemma_texts; }
@end
@foreach T : Function ; VariableDefinition ; SelectorExpression ; Selector .
@fn model::selector::[Clone for $T]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r.vx_text() == self.vx_text())]
@end
@fn model::values::[Clone for Number]::clone
#[verus_spec(r => ensures r == *self)]
@mod model::selector
verus!{
use crate::vxjoin::*;
use crate::vstdt::*;
use crate::vstdf::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::iter::IteratorSpecImpl;
use vstd::std_specs::iter::*;
use crate::model::identity::*;
/// what the literals of the code say
pub proof fn lemma_literals()
    ensures ""@ == Seq::<char>::empty()
{ reveal_strlit(""); }
proof fn lemma_same_texts(t: Seq<Seq<char>>)
    ensures forall|u: Seq<Seq<char>>, sep: Seq<char>| u.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> u[i] == t[i]) ==> #[trigger] joined(u, sep) == joined(t, sep)
{
    assert forall|u: Seq<Seq<char>>, sep: Seq<char>| u.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> u[i] == t[i]) implies #[trigger] joined(u, sep) == joined(t, sep) by { assert(u =~= t); }
}
pub open spec fn value_text(v: Value) -> Seq<char> {
    match v {
        Value::Text(s) => if s@.contains('"') { "'"@ + s@ + "'"@ } else { "\""@ + s@ + "\""@ },
        Value::Number(n) => n.vx_text(),
        Value::RootShapeIdentifier(i) => i.vx_text(),
        Value::AbsoluteRootShapeIdentifier(i) => i.vx_text(),
    }
}
impl VxText for Value { open spec fn vx_text(&self) -> Seq<char> { value_text(*self) } }
pub open spec fn segment_text(v: KeyPathSegment) -> Seq<char> {
    match v { KeyPathSegment::Value(v) => v.vx_text(), KeyPathSegment::FunctionProperty(i) => "("@ + i.vx_text() + ")"@ }
}
impl VxText for KeyPathSegment { open spec fn vx_text(&self) -> Seq<char> { segment_text(*self) } }
pub open spec fn key_text(id: Seq<char>, path: Seq<Seq<char>>) -> Seq<char> { if path.len() == 0 { id } else { id + "|"@ + joined(path, "|"@) } }
impl Key {
    pub closed spec fn sp_identifier(self) -> Identifier { self.identifier }
    pub closed spec fn sp_path(self) -> Vec<KeyPathSegment> { self.path }
}
impl VxText for Key { open spec fn vx_text(&self) -> Seq<char> { key_text(self.sp_identifier().vx_text(), texts(self.sp_path()@)) } }
/// the end of a comparison that ignores case
pub open spec fn suffix_text(i: bool) -> Seq<char> { if i { " i"@ } else { seq![] } }
impl AttributeComparison {
    pub closed spec fn sp_comparator(self) -> Comparator { self.comparator }
    pub closed spec fn sp_rhs_values(self) -> Vec<Value> { self.rhs_values }
    pub closed spec fn sp_case_insensitive(self) -> bool { self.case_insensitive }
}
pub open spec fn comparison_text(c: Seq<char>, values: Seq<Seq<char>>, i: bool) -> Seq<char> { " "@ + c + " "@ + joined(values, ", "@) + suffix_text(i) }
impl VxText for AttributeComparison {
    open spec fn vx_text(&self) -> Seq<char> { comparison_text(self.sp_comparator().vx_text(), texts(self.sp_rhs_values()@), self.sp_case_insensitive()) }
}
impl AttributeSelector {
    pub closed spec fn sp_key(self) -> Key { self.key }
    pub closed spec fn sp_comparison(self) -> Option<AttributeComparison> { self.comparison }
}
pub open spec fn attribute_text(k: Seq<char>, c: Seq<char>) -> Seq<char> { "["@ + k + c + "]"@ }
impl VxText for AttributeSelector {
    open spec fn vx_text(&self) -> Seq<char> { attribute_text(self.sp_key().vx_text(), match self.sp_comparison() { None => seq![], Some(c) => c.vx_text() }) }
}
pub open spec fn scoped_value_text(v: ScopedValue) -> Seq<char> {
    match v { ScopedValue::Value(v) => v.vx_text(), ScopedValue::ContextValue(p) => "@{"@ + joined(texts(p@), "|"@) + "}"@ }
}
impl VxText for ScopedValue { open spec fn vx_text(&self) -> Seq<char> { scoped_value_text(*self) } }
impl ScopedAttributeAssertion {
    pub closed spec fn sp_lhs_value(self) -> ScopedValue { self.lhs_value }
    pub closed spec fn sp_comparator(self) -> Comparator { self.comparator }
    pub closed spec fn sp_rhs_values(self) -> Vec<ScopedValue> { self.rhs_values }
    pub closed spec fn sp_case_insensitive(self) -> bool { self.case_insensitive }
}
impl VxText for ScopedAttributeAssertion {
    open spec fn vx_text(&self) -> Seq<char> {
        self.sp_lhs_value().vx_text() + comparison_text(self.sp_comparator().vx_text(), texts(self.sp_rhs_values()@), self.sp_case_insensitive())
    }
}
impl ScopedAttributeSelector {
    pub closed spec fn sp_key(self) -> Option<Key> { self.key }
    pub closed spec fn sp_assertions(self) -> Vec<ScopedAttributeAssertion> { self.assertions }
}
pub open spec fn scoped_text(k: Seq<char>, a: Seq<Seq<char>>) -> Seq<char> { "[@"@ + k + ": "@ + joined(a, " && "@) + "]"@ }
impl VxText for ScopedAttributeSelector {
    open spec fn vx_text(&self) -> Seq<char> { scoped_text(match self.sp_key() { None => seq![], Some(k) => k.vx_text() }, texts(self.sp_assertions()@)) }
}
pub open spec fn neighbor_text(n: NeighborSelector) -> Seq<char> {
    match n {
        NeighborSelector::ForwardUndirected => ">"@,
        NeighborSelector::ReverseUndirected => "<"@,
        NeighborSelector::ForwardDirected(v) => "-["@ + joined(texts(v@), ", "@) + "]->"@,
        NeighborSelector::ReverseDirected(v) => "<-["@ + joined(texts(v@), ", "@) + "]-"@,
        NeighborSelector::ForwardRecursiveDirected => "~>"@,
    }
}
impl VxText for NeighborSelector { open spec fn vx_text(&self) -> Seq<char> { neighbor_text(*self) } }
impl VariableReference { pub closed spec fn sp_name(self) -> Identifier { self.name } }
impl VxText for VariableReference { open spec fn vx_text(&self) -> Seq<char> { "${"@ + self.sp_name().vx_text() + "}"@ } }
impl Function {
    pub closed spec fn sp_name(self) -> Identifier { self.name }
    pub closed spec fn sp_arguments(self) -> Vec<Selector> { self.arguments }
}
impl VariableDefinition {
    pub closed spec fn sp_name(self) -> Identifier { self.name }
    pub closed spec fn sp_selector(self) -> Selector { self.selector }
}
impl Selector { pub closed spec fn sp_expressions(self) -> Vec<SelectorExpression> { self.expressions } }
pub open spec fn function_text(f: Function) -> Seq<char> decreases f {
    let a = f.sp_arguments()@;
    ":"@ + f.sp_name().vx_text() + "("@ + joined(Seq::new(a.len(), |i: int| if 0 <= i < a.len() { selector_text(a[i]) } else { seq![] }), ", "@) + ")"@
}
pub open spec fn definition_text(d: VariableDefinition) -> Seq<char> decreases d { "$"@ + d.sp_name().vx_text() + "("@ + selector_text(d.sp_selector()) + ")"@ }
pub open spec fn expression_text(e: SelectorExpression) -> Seq<char> decreases e {
    match e {
        SelectorExpression::ShapeType(v) => v.vx_text(),
        SelectorExpression::AttributeSelector(v) => v.vx_text(),
        SelectorExpression::ScopedAttributeSelector(v) => v.vx_text(),
        SelectorExpression::NeighborSelector(v) => v.vx_text(),
        SelectorExpression::Function(v) => function_text(v),
        SelectorExpression::VariableDefinition(v) => definition_text(v),
        SelectorExpression::VariableReference(v) => v.vx_text(),
    }
}
pub open spec fn selector_text(s: Selector) -> Seq<char> decreases s {
    let e = s.sp_expressions()@;
    joined(Seq::new(e.len(), |i: int| if 0 <= i < e.len() { expression_text(e[i]) } else { seq![] }), " "@)
}
impl VxText for Function { open spec fn vx_text(&self) -> Seq<char> { function_text(*self) } }
impl VxText for VariableDefinition { open spec fn vx_text(&self) -> Seq<char> { definition_text(*self) } }
impl VxText for SelectorExpression { open spec fn vx_text(&self) -> Seq<char> { expression_text(*self) } }
impl VxText for Selector { open spec fn vx_text(&self) -> Seq<char> { selector_text(*self) } }
/// the text of a selector is that of its expressions; the text of a function that of its arguments
pub broadcast proof fn lemma_selector_text(s: Selector)
    ensures #[trigger] selector_text(s) == joined(texts(s.sp_expressions()@), " "@)
{ lemma_same_texts(texts(s.sp_expressions()@)); }
pub broadcast proof fn lemma_function_text(f: Function)
    ensures #[trigger] function_text(f) == ":"@ + f.sp_name().vx_text() + "("@ + joined(texts(f.sp_arguments()@), ", "@) + ")"@
{ lemma_same_texts(texts(f.sp_arguments()@)); }
}
## constructors, accessors and setters: each part is what it was given
@foreach E V A T : Value Number v Number ; Value RootShapeIdentifier v Identifier ; Value AbsoluteRootShapeIdentifier v ShapeID ; Value Text v String ; KeyPathSegment Value v Value ; KeyPathSegment FunctionProperty i Identifier ;
  ScopedValue Value v Value ; ScopedValue ContextValue v Vec<KeyPathSegment> ; SelectorExpression ShapeType v ShapeType ; SelectorExpression AttributeSelector v AttributeSelector ; SelectorExpression ScopedAttributeSelector v ScopedAttributeSelector ;
  SelectorExpression NeighborSelector v NeighborSelector ; SelectorExpression Function v Function ; SelectorExpression VariableDefinition v VariableDefinition ; SelectorExpression VariableReference v VariableReference .
@fn model::selector::[From<$T> for $E]::from
#[verus_verify]
#[verus_spec(r => ensures r == $E::$V($A))]
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for $E {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> $E { $E::$V(v) }
}
}
@end
@foreach T V : i64 Integer ; f64 Float .
@fn model::values::[From<$T> for Number]::from
#[verus_verify]
#[verus_spec(r => ensures r == Number::$V(n))]
@mod model::values
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for Number {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Number { Number::$V(v) }
}
}
@fn model::selector::[From<$T> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Number(Number::$V(v)))]
@fn model::selector::[From<$T> for ScopedValue]::from
#[verus_verify]
#[verus_spec(r => ensures r == ScopedValue::Value(Value::Number(Number::$V(v))))]
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Value { Value::Number(Number::$V(v)) }
}
}
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for ScopedValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> ScopedValue { ScopedValue::Value(Value::Number(Number::$V(v))) }
}
}
@end
@foreach V T : Number Number ; RootShapeIdentifier Identifier ; AbsoluteRootShapeIdentifier ShapeID ; Text String .
@fn model::selector::[From<$T> for ScopedValue]::from
#[verus_verify]
#[verus_spec(r => ensures r == ScopedValue::Value(Value::$V(v)))]
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for ScopedValue {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> ScopedValue { ScopedValue::Value(Value::$V(v)) }
}
}
@end
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<&str> for Value {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &str) -> Value { arbitrary() }
}
}
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<&str> for ScopedValue {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &str) -> ScopedValue { arbitrary() }
}
}
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<&[KeyPathSegment]> for ScopedValue {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &[KeyPathSegment]) -> ScopedValue { arbitrary() }
}
}
@fn model::selector::[From<&str> for Value]::from
#[verus_spec(r => ensures r matches Value::Text(s) && s@ == v@)]
@fn model::selector::[From<&str> for ScopedValue]::from
#[verus_spec(r => ensures r matches ScopedValue::Value(Value::Text(s)) && s@ == v@)]
@fn model::selector::[From<&[KeyPathSegment]> for ScopedValue]::from
#[verus_spec(r => ensures r matches ScopedValue::ContextValue(p) && texts(p@) == texts(v@))]
@@entry
proof! { broadcast use lemma_texts; }
@foreach E V M : Value Number number ; Value RootShapeIdentifier root_shape_id ; Value AbsoluteRootShapeIdentifier absolute_root_shape_id ; Value Text text ; KeyPathSegment Value value ; KeyPathSegment FunctionProperty function_property ;
  ScopedValue Value value ; SelectorExpression ShapeType shape_type ; SelectorExpression AttributeSelector attribute_selector ; SelectorExpression ScopedAttributeSelector scoped_attribute_selector ;
  SelectorExpression NeighborSelector neighbor_selector ; SelectorExpression Function function ; SelectorExpression VariableDefinition variable_definition ; SelectorExpression VariableReference variable_reference .
@fn model::selector::$E::is_$M
#[verus_spec(r => ensures r == (self is $V))]
@fn model::selector::$E::as_$M
#[verus_spec(r => ensures match r { Some(v) => *self == $E::$V(*v), None => !(self is $V) })]
@end
@foreach E V M : ScopedValue ContextValue context_value ; NeighborSelector ForwardDirected forward_directed ; NeighborSelector ReverseDirected reverse_directed .
@fn model::selector::$E::is_$M
#[verus_spec(r => ensures r == (self is $V))]
@fn model::selector::$E::as_$M
#[verus_spec(r => ensures match r { None => !(self is $V), Some(i) => i.obeys_prophetic_iter_laws() && i.decrease() is Some && (*self matches $E::$V(v) && i.remaining().unref() == v@) })]
@end
@foreach V M : ForwardUndirected forward_undirected ; ReverseUndirected reverse_undirected ; ForwardRecursiveDirected forward_recursive_directed .
@fn model::selector::NeighborSelector::is_$M
#[verus_spec(r => ensures r == (self is $V))]
@end
## fields that are values: T field type  and the other fields, which a setter leaves alone
@foreach T f O : Key identifier sp_path ; AttributeComparison comparator sp_rhs_values ; AttributeSelector key sp_comparison ; ScopedAttributeAssertion lhs_value sp_rhs_values ; ScopedAttributeAssertion comparator sp_lhs_value ;
  Function name sp_arguments ; VariableDefinition name sp_selector ; VariableDefinition selector sp_name ; VariableReference name sp_name .
@fn model::selector::$T::$f
#[verus_spec(r => ensures *r == self.sp_$f())]
@end
@foreach T f O : Key identifier sp_path ; AttributeSelector key sp_comparison ; Function name sp_arguments ; VariableDefinition name sp_selector ; VariableDefinition selector sp_name .
@fn model::selector::$T::set_$f
#[verus_spec(ensures final(self).sp_$f() == $f, final(self).$O() == old(self).$O())]
@end
@fn model::selector::VariableReference::set_name
#[verus_spec(ensures final(self).sp_name() == name)]
@fn model::selector::AttributeComparison::set_comparator
#[verus_spec(ensures final(self).sp_comparator() == comparator, final(self).sp_rhs_values() == old(self).sp_rhs_values(), final(self).sp_case_insensitive() == old(self).sp_case_insensitive())]
@foreach T r : AttributeComparison true ; ScopedAttributeAssertion final(self).sp_lhs_value()==old(self).sp_lhs_value() .
@fn model::selector::$T::is_case_insensitive
#[verus_spec(r => ensures r == self.sp_case_insensitive())]
@fn model::selector::$T::set_case_insensitive
#[verus_spec(ensures final(self).sp_case_insensitive() == case_insensitive, final(self).sp_comparator() == old(self).sp_comparator(), final(self).sp_rhs_values() == old(self).sp_rhs_values(), $r)]
@end
@foreach f o : lhs_value comparator ; comparator lhs_value .
@fn model::selector::ScopedAttributeAssertion::set_$f
#[verus_spec(ensures final(self).sp_$f() == $f, final(self).sp_$o() == old(self).sp_$o(), final(self).sp_rhs_values() == old(self).sp_rhs_values(), final(self).sp_case_insensitive() == old(self).sp_case_insensitive())]
@end
## optional fields
@foreach T f O : AttributeSelector comparison sp_key ; ScopedAttributeSelector key sp_assertions .
@fn model::selector::$T::has_$f
#[verus_spec(r => ensures r == (self.sp_$f() is Some))]
@fn model::selector::$T::$f
#[verus_spec(r => ensures *r == self.sp_$f())]
@fn model::selector::$T::set_$f
#[verus_spec(ensures final(self).sp_$f() == Some($f), final(self).$O() == old(self).$O())]
@fn model::selector::$T::unset_$f
#[verus_spec(ensures final(self).sp_$f() is None, final(self).$O() == old(self).$O())]
@end
## lists: T field item value-parameter, and what a setter leaves alone
@foreach T f i K L : Key path path_segment final(self).sp_identifier()==old(self).sp_identifier() self.sp_identifier()==old(self).sp_identifier() ;
  AttributeComparison rhs_values value final(self).sp_comparator()==old(self).sp_comparator(),final(self).sp_case_insensitive()==old(self).sp_case_insensitive() self.sp_comparator()==old(self).sp_comparator(),self.sp_case_insensitive()==old(self).sp_case_insensitive() ;
  ScopedAttributeAssertion rhs_values value final(self).sp_lhs_value()==old(self).sp_lhs_value(),final(self).sp_comparator()==old(self).sp_comparator(),final(self).sp_case_insensitive()==old(self).sp_case_insensitive() self.sp_lhs_value()==old(self).sp_lhs_value(),self.sp_comparator()==old(self).sp_comparator(),self.sp_case_insensitive()==old(self).sp_case_insensitive() ;
  ScopedAttributeSelector assertions assertion final(self).sp_key()==old(self).sp_key() self.sp_key()==old(self).sp_key() ;
  Function arguments argument final(self).sp_name()==old(self).sp_name() self.sp_name()==old(self).sp_name() ;
  Selector expressions expression true true .
@fn model::selector::$T::has_$f
#[verus_spec(r => ensures r == (self.sp_$f()@.len() > 0))]
@fn model::selector::$T::$f
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref() == self.sp_$f()@)]
@fn model::selector::$T::set_$f
#[verus_spec(ensures texts(final(self).sp_$f()@) == texts($f@), $K)]
@@entry
proof! { broadcast use lemma_texts; }
@fn model::selector::$T::add_$i
#[verus_spec(ensures final(self).sp_$f()@ == old(self).sp_$f()@.push($i), $K)]
@fn model::selector::$T::append_$f
#[verus_spec(ensures texts(final(self).sp_$f()@) == texts(old(self).sp_$f()@) + texts($f@), $K)]
@@entry
proof! { broadcast use lemma_texts; }
@@loop 0
#[verus_spec(it => invariant
    it.seq().unref() == $f@, texts(self.sp_$f()@) == texts(old(self).sp_$f()@) + texts($f@.take(it.index() as int)), $L)]
@@loopbody 0
proof_decl! { let ghost before = *self; }
@@loopend 0
proof! { lemma_append(before.sp_$f()@, self.sp_$f()@, $f@, it.index() as int); }
@end
## named constructors
@fn model::selector::[From<Identifier> for Key]::from
#[verus_spec(r => ensures r.sp_identifier() == v, r.sp_path()@.len() == 0)]
@fn model::selector::Key::new
#[verus_spec(r => ensures r.sp_identifier() == identifier, r.sp_path()@.len() == 0)]
@fn model::selector::Key::with_path
#[verus_spec(r => ensures r.sp_identifier() == identifier, texts(r.sp_path()@) == texts(path@))]
@@entry
proof! { broadcast use lemma_texts; }
@foreach F B : new false ; new_case_insensitive true .
@fn model::selector::AttributeComparison::$F
#[verus_spec(r => ensures r.sp_comparator() == comparator, texts(r.sp_rhs_values()@) == texts(values@), r.sp_case_insensitive() == $B)]
@@entry
proof! { broadcast use lemma_texts; }
@fn model::selector::ScopedAttributeAssertion::$F
#[verus_spec(r => ensures r.sp_lhs_value() == lhs_value, r.sp_comparator() == comparator, texts(r.sp_rhs_values()@) == texts(rhs_values@), r.sp_case_insensitive() == $B)]
@@entry
proof! { broadcast use lemma_texts; }
@end
@foreach F C : string_equal StringEqual ; string_not_equal StringNotEqual ; string_starts_with StringStartsWith ; string_ends_with StringEndsWith ; string_contains StringContains ; projection_equal ProjectionEqual ; projection_not_equal ProjectionNotEqual .
@fn model::selector::AttributeComparison::$F
#[verus_spec(r => ensures r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) =~= seq![rhs.vx_text()], !r.sp_case_insensitive())]
@fn model::selector::ScopedAttributeAssertion::$F
#[verus_spec(r => ensures r.sp_lhs_value() == lhs, r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) =~= seq![rhs.vx_text()], !r.sp_case_insensitive())]
@end
@foreach F C : number_greater NumberGreaterThan ; number_greater_or_equal NumberGreaterOrEqual ; number_less NumberLessThan ; number_less_or_equal NumberLessOrEqual .
@fn model::selector::AttributeComparison::$F
#[verus_spec(r => ensures r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) =~= seq![rhs.vx_text()], !r.sp_case_insensitive())]
@fn model::selector::ScopedAttributeAssertion::$F
#[verus_spec(r => ensures r.sp_lhs_value() == lhs, r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) =~= seq![rhs.vx_text()], !r.sp_case_insensitive())]
@end
@foreach F C : projection_subset ProjectionSubset ; projection_proper_subset ProjectionProperSubset .
@fn model::selector::AttributeComparison::$F
#[verus_spec(r => ensures r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) == texts(rhs@), !r.sp_case_insensitive())]
@fn model::selector::ScopedAttributeAssertion::$F
#[verus_spec(r => ensures r.sp_lhs_value() == lhs, r.sp_comparator() == Comparator::$C, texts(r.sp_rhs_values()@) == texts(rhs@), !r.sp_case_insensitive())]
@end
@fn model::selector::AttributeSelector::new
#[verus_spec(r => ensures r.sp_key() == key, r.sp_comparison() is None)]
@fn model::selector::[From<Key> for AttributeSelector]::from
#[verus_spec(r => ensures r.sp_key() == key, r.sp_comparison() is None)]
@fn model::selector::AttributeSelector::with_comparison
#[verus_spec(r => ensures r.sp_key() == key, r.sp_comparison() == Some(comparison))]
@fn model::selector::ScopedAttributeSelector::new
#[verus_spec(r => requires assertions@.len() > 0 ensures r.sp_key() is None, texts(r.sp_assertions()@) == texts(assertions@))]
@@entry
proof! { broadcast use lemma_texts; }
@fn model::selector::ScopedAttributeSelector::with_key
#[verus_spec(r => requires assertions@.len() > 0 ensures r.sp_key() == Some(key), texts(r.sp_assertions()@) == texts(assertions@))]
@@entry
proof! { broadcast use lemma_texts; }
@fn model::selector::Function::new
#[verus_spec(r => requires arguments@.len() > 0 ensures r.sp_name() == name, texts(r.sp_arguments()@) == texts(arguments@))]
@@entry
proof! { broadcast use lemma_texts; }
@fn model::selector::VariableDefinition::new
#[verus_spec(r => ensures r.sp_name() == name, r.sp_selector() == selector)]
@fn model::selector::VariableDefinition::new_reference
#[verus_spec(r => ensures r.sp_name().vx_text() == self.sp_name().vx_text())]
@fn model::selector::VariableReference::new
#[verus_spec(r => ensures r.sp_name() == name)]
@fn model::selector::[From<Identifier> for VariableReference]::from
#[verus_spec(r => ensures r.sp_name() == v)]
@fn model::selector::[Default for Selector]::default
#[verus_spec(r => ensures r.sp_expressions()@.len() == 0)]
@fn model::selector::[From<SelectorExpression> for Selector]::from
#[verus_spec(r => ensures r.sp_expressions()@ == seq![v])]
@fn model::selector::[From<Vec<SelectorExpression>> for Selector]::from
#[verus_spec(r => ensures r.sp_expressions() == v)]
@mod model::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<Identifier> for Key {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Identifier) -> Key { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Key> for AttributeSelector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Key) -> AttributeSelector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Identifier> for VariableReference {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Identifier) -> VariableReference { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<SelectorExpression> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: SelectorExpression) -> Selector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Vec<SelectorExpression>> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Vec<SelectorExpression>) -> Selector { arbitrary() }
}
}
