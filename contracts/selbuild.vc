## C24: the builders of selectors.  A builder holds the expressions its calls name, in the order of the calls.
@include seltext.vc
@for C24
@rename cloned vx_cloned_all
@path (Value::Number) vx_number_value
@crate
pub mod vxsel {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::vstdx::vx_items;
verus!{
impl crate::vstdf::VxText for bool { open spec fn vx_text(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } }
pub assume_specification<M: std::any::Any + Send>[ std::rt::begin_panic::<M> ](m: M) -> !
    requires false;
/// `E.cloned()` is verified as this loop
pub trait VxIter2: Iterator + Sized {
    fn vx_cloned_all<'a, T: Clone + 'a>(self) -> (r: std::vec::IntoIter<T>)
        where Self: Iterator<Item = &'a T>
        requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, self.will_return_none(),
            r.remaining().len() == self.remaining().len(),
            forall|i: int| 0 <= i < r.remaining().len() ==> cloned::<T>(*self.remaining()[i], #[trigger] r.remaining()[i]);
}
impl<I: Iterator> VxIter2 for I {
    fn vx_cloned_all<'a, T: Clone + 'a>(self) -> std::vec::IntoIter<T>
        where Self: Iterator<Item = &'a T>
    {
        let ghost all = self.remaining();
        let mut r = Vec::new();
        for x in it: vx_items(self)
            invariant it.seq() == all, r.len() == it.index(), forall|k: int| 0 <= k < r.len() ==> cloned::<T>(*it.seq()[k], #[trigger] r[k]),
        {
            r.push(x.clone());
        }
        r.into_iter()
    }
}
}
}
@foreach T : SelectorBuilder ; AttributeBuilder ; ScopedAttributeBuilder .
@item builder::selector::$T
#[verus_verify]
@end
@mod model::selector
verus!{
/// the text between the quotes it can stand in
pub open spec fn quoted_text(t: Seq<char>) -> Seq<char> { if t.contains('"') { "'"@ + t + "'"@ } else { "\""@ + t + "\""@ } }
}
@mod builder::selector
verus!{
use crate::vstdf::*;
use crate::vstdt::*;
use crate::vxjoin::*;
use crate::vxsel::*;
use crate::model::selector::*;
/// the constructor as a function
pub fn vx_number_value(n: Number) -> (r: Value) ensures r == Value::Number(n), r.vx_text() == n.vx_text() { Value::Number(n) }
impl SelectorBuilder {
    pub closed spec fn sp_exs(self) -> Vec<SelectorExpression> { self.exs }
}
/// `from` is the one function that makes a builder, and those that take one only add to it: see their contracts
pub axiom fn axiom_held(v: &SelectorBuilder) ensures v.sp_exs()@.len() > 0;
impl VxText for SelectorBuilder { open spec fn vx_text(&self) -> Seq<char> { joined(texts(self.sp_exs()@), " "@) } }
impl AttributeBuilder {
    pub closed spec fn sp_selector(self) -> AttributeSelector { self.selector }
    pub open spec fn name(self) -> Seq<char> { self.sp_selector().sp_key().sp_identifier().vx_text() }
    pub open spec fn path_texts(self) -> Seq<Seq<char>> { texts(self.sp_selector().sp_key().sp_path()@) }
    /// an attribute of that name, with no path and no comparison
    pub open spec fn fresh(self, name: Seq<char>) -> bool { self.name() == name && self.path_texts().len() == 0 && self.sp_selector().sp_comparison() is None }
    /// the path has become this one
    pub open spec fn led(a: Self, b: Self, path: Seq<Seq<char>>) -> bool {
        b.name() == a.name() && b.path_texts() =~= path && b.sp_selector().sp_comparison() == a.sp_selector().sp_comparison()
    }
    /// the comparison has become this one
    pub open spec fn compared(a: Self, b: Self, c: Comparator, values: Seq<Seq<char>>, i: bool) -> bool {
        b.sp_selector().sp_key() == a.sp_selector().sp_key()
            && (b.sp_selector().sp_comparison() matches Some(x) && x.sp_comparator() == c && texts(x.sp_rhs_values()@) =~= values && x.sp_case_insensitive() == i)
    }
}
impl ScopedAttributeBuilder {
    pub closed spec fn sp_key(self) -> Option<Key> { self.key }
    pub closed spec fn sp_assertions(self) -> Vec<ScopedAttributeAssertion> { self.assertions }
    pub open spec fn fresh(self, name: Seq<char>) -> bool {
        self.sp_assertions()@.len() == 0 && (self.sp_key() matches Some(k) && k.sp_identifier().vx_text() == name && k.sp_path()@.len() == 0)
    }
    pub open spec fn path_texts(self) -> Seq<Seq<char>> { texts(self.sp_key()->0.sp_path()@) }
    pub open spec fn led(a: Self, b: Self, path: Seq<Seq<char>>) -> bool {
        b.sp_assertions() == a.sp_assertions() && a.sp_key() is Some && (b.sp_key() matches Some(k) && k.sp_identifier() == a.sp_key()->0.sp_identifier() && texts(k.sp_path()@) =~= path)
    }
    /// one more assertion
    pub open spec fn asserted(a: Self, b: Self, lhs: ScopedValue, c: Comparator, values: Seq<Seq<char>>, i: bool) -> bool {
        b.sp_key() == a.sp_key() && b.sp_assertions()@.len() == a.sp_assertions()@.len() + 1 && b.sp_assertions()@.drop_last() =~= a.sp_assertions()@
            && ({ let x = b.sp_assertions()@.last();
                x.sp_lhs_value() == lhs && x.sp_comparator() == c && texts(x.sp_rhs_values()@) =~= values && x.sp_case_insensitive() == i })
    }
}
}
@fn builder::selector::[Clone for SelectorBuilder]::clone
#[verus_spec(r => ensures r.vx_text() == self.vx_text(), texts(r.sp_exs()@) == texts(self.sp_exs()@))]
@@entry
proof! { broadcast use lemma_texts; }
@fn builder::selector::SelectorBuilder::is_empty
#[verus_spec(r => ensures r == (self.sp_exs()@.len() == 0))]
@fn builder::selector::SelectorBuilder::add
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@ =~= old(self).sp_exs()@.push(ex))]
@fn builder::selector::SelectorBuilder::from
#[verus_spec(r => ensures r.sp_exs()@ =~= seq![v])]
@foreach F A T P : shape add_shape ShapeType v ; function add_function Function v ; neighbor add_neighbor NeighborSelector neighbor ; variable_reference add_variable_reference VariableReference v ;
  variable_definition add_variable_definition VariableDefinition v ; attribute add_attribute AttributeSelector attribute ; scoped_attribute add_scoped_attribute ScopedAttributeSelector attribute .
@fn builder::selector::SelectorBuilder::$F
#[verus_spec(r => ensures r.sp_exs()@ =~= seq![SelectorExpression::$T($P)])]
@fn builder::selector::SelectorBuilder::$A
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@ =~= old(self).sp_exs()@.push(SelectorExpression::$T($P)))]
@end
@foreach F K : any_shape Any ; any_number Number ; any_simple_type SimpleType ; any_collection Collection ; blob Blob ; boolean Boolean ; document Document ; string String ; integer Integer ; byte Byte ; short Short ; long Long ; float Float ; double Double ; big_decimal BigDecimal ; big_integer BigInteger ; timestamp Timestamp ; list List ; set Set ; map Map ; structure Structure ; union Union ; service Service ; operation Operation ; resource Resource ; member Member .
@fn builder::selector::SelectorBuilder::$F
#[verus_spec(r => ensures r.sp_exs()@ =~= seq![SelectorExpression::ShapeType(ShapeType::$K)])]
@fn builder::selector::SelectorBuilder::add_$F
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@ =~= old(self).sp_exs()@.push(SelectorExpression::ShapeType(ShapeType::$K)))]
@end
@foreach F K : forward_undirected ForwardUndirected ; reverse_undirected ReverseUndirected ; forward_recursive_directed ForwardRecursiveDirected .
@fn builder::selector::SelectorBuilder::$F
#[verus_spec(r => ensures r.sp_exs()@ =~= seq![SelectorExpression::NeighborSelector(NeighborSelector::$K)])]
@fn builder::selector::SelectorBuilder::add_$F
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@ =~= old(self).sp_exs()@.push(SelectorExpression::NeighborSelector(NeighborSelector::$K)))]
@end
@foreach F K : forward_directed ForwardDirected ; reverse_directed ReverseDirected .
@fn builder::selector::SelectorBuilder::$F
#[verus_spec(r => ensures r.sp_exs()@.len() == 1, r.sp_exs()@[0] matches SelectorExpression::NeighborSelector(NeighborSelector::$K(v)) && texts(v@) == texts(path@))]
@@entry
proof! { broadcast use lemma_texts; }
@fn builder::selector::SelectorBuilder::add_$F
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::NeighborSelector(NeighborSelector::$K(v)) && texts(v@) == texts(path@))]
@@entry
proof! { broadcast use lemma_texts; }
@end
@fn builder::selector::SelectorBuilder::variable_reference_from
#[verus_spec(r => ensures r.sp_exs()@.len() == 1, r.sp_exs()@[0] matches SelectorExpression::VariableReference(v) && v.sp_name() == name)]
@fn builder::selector::SelectorBuilder::add_variable_reference_from
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::VariableReference(v) && v.sp_name() == name)]
@mod builder::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<SelectorBuilder> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: SelectorBuilder) -> Selector { arbitrary() }
}
}
@mod builder::selector
verus!{
impl vstd::std_specs::convert::FromSpecImpl<&mut SelectorBuilder> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &mut SelectorBuilder) -> Selector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<&mut SelectorBuilder> for Vec<Selector> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &mut SelectorBuilder) -> Vec<Selector> { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<AttributeBuilder> for SelectorExpression {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: AttributeBuilder) -> SelectorExpression { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<&mut AttributeBuilder> for AttributeSelector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &mut AttributeBuilder) -> AttributeSelector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<AttributeBuilder> for AttributeSelector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: AttributeBuilder) -> AttributeSelector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<&mut AttributeBuilder> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &mut AttributeBuilder) -> Selector { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<AttributeBuilder> for Selector {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: AttributeBuilder) -> Selector { arbitrary() }
}
}
@fn builder::selector::[From<SelectorBuilder> for Selector]::from
#[verus_spec(r => ensures r.vx_text() == v.vx_text(), texts(r.sp_expressions()@) == texts(v.sp_exs()@))]
@fn builder::selector::[From<&mut SelectorBuilder> for Selector]::from
#[verus_spec(r => ensures r.vx_text() == old(v).vx_text(), texts(r.sp_expressions()@) == texts(old(v).sp_exs()@), *final(v) == *old(v))]
@@entry
proof! { axiom_held(&*v); broadcast use {lemma_selector_text, lemma_texts}; }
@fn builder::selector::[From<&mut SelectorBuilder> for Vec<Selector>]::from
#[verus_spec(r => ensures r@.len() == 1, r@[0].vx_text() == old(v).vx_text(), texts(r@[0].sp_expressions()@) == texts(old(v).sp_exs()@), *final(v) == *old(v))]
@fn builder::selector::SelectorBuilder::variable_definition_from
#[verus_spec(r => ensures r.sp_exs()@.len() == 1, r.sp_exs()@[0] matches SelectorExpression::VariableDefinition(v) && v.sp_name() == name && v.sp_selector().vx_text() == selector.vx_text())]
@fn builder::selector::SelectorBuilder::add_variable_definition_from
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::VariableDefinition(v) && v.sp_name() == name && v.sp_selector().vx_text() == selector.vx_text())]
@fn builder::selector::SelectorBuilder::function_from
#[verus_spec(r => requires arguments@.len() > 0 ensures r.sp_exs()@.len() == 1, r.sp_exs()@[0] matches SelectorExpression::Function(f) && f.sp_name() == name && texts(f.sp_arguments()@) == texts(arguments@))]
@@closure 0
#[verus_spec(r: Selector => ensures r.vx_text() == e.vx_text())]
@fn builder::selector::SelectorBuilder::add_function_from
#[verus_spec(r => requires arguments@.len() > 0 ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::Function(f) && f.sp_name() == name && texts(f.sp_arguments()@) == texts(arguments@))]
@@closure 0
#[verus_spec(r: Selector => ensures r.vx_text() == e.vx_text())]
@foreach F : test ; is ; not ; topdown .
@fn builder::selector::SelectorBuilder::fn_$F
#[verus_spec(r => requires arguments@.len() > 0 ensures r.sp_exs()@.len() == 1, r.sp_exs()@[0] matches SelectorExpression::Function(f) && f.sp_name().vx_text() == "$F"@ && texts(f.sp_arguments()@) == texts(arguments@))]
@fn builder::selector::SelectorBuilder::add_$F_function
#[verus_spec(r => requires arguments@.len() > 0 ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::Function(f) && f.sp_name().vx_text() == "$F"@ && texts(f.sp_arguments()@) == texts(arguments@))]
@end
@fn builder::selector::SelectorBuilder::add_attribute_from
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_exs()@.len() == old(self).sp_exs()@.len() + 1, r.sp_exs()@.drop_last() =~= old(self).sp_exs()@,
    r.sp_exs()@.last() matches SelectorExpression::AttributeSelector(a) && a.sp_key() == key && a.sp_comparison() == comparison)]

## ---- attributes
@fn builder::selector::AttributeBuilder::named
#[verus_spec(r => ensures r.fresh(identifier.vx_text()))]
@foreach N : id ; service ; trait ; var .
@fn builder::selector::AttributeBuilder::named_$N
#[verus_spec(r => ensures r.fresh("$N"@))]
@fn builder::selector::ScopedAttributeBuilder::new_$N
#[verus_spec(r => ensures r.fresh("$N"@))]
@end
@fn builder::selector::ScopedAttributeBuilder::named
#[verus_spec(r => ensures r.fresh(identifier.vx_text()))]
@fn builder::selector::[Default for ScopedAttributeBuilder]::default
#[verus_spec(r => ensures r.sp_key() is None, r.sp_assertions()@.len() == 0)]
@foreach B P : AttributeBuilder true ; ScopedAttributeBuilder old(self).sp_key().is_some() .
@fn builder::selector::$B::path
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, texts(path@)))]
@@entry
proof! { broadcast use lemma_texts; }
@fn builder::selector::$B::path_segment
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push(segment.vx_text())))]
@@entry
proof! { broadcast use lemma_texts; }
@fn builder::selector::$B::path_segment_for_id
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push(segment.vx_text())))]
@fn builder::selector::$B::path_segment_for_shape
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push(segment.vx_text())))]
@fn builder::selector::$B::path_segment_for_text
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push(quoted_text(segment@))))]
@fn builder::selector::$B::path_segment_for_number
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push(segment.vx_text())))]
@fn builder::selector::$B::path_segment_for_function
#[verus_spec(r => requires $P ensures *final(self) == *final(r), $B::led(*old(self), *r, old(self).path_texts().push("("@ + segment.vx_text() + ")"@)))]
@end
@fn builder::selector::AttributeBuilder::compare
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_selector().sp_key() == old(self).sp_selector().sp_key(), r.sp_selector().sp_comparison() == Some(comparison))]
@fn builder::selector::AttributeBuilder::string_compare
#[verus_spec(r => ensures *final(self) == *final(r), AttributeBuilder::compared(*old(self), *r, comparator, texts(rhs@), case_insensitive))]
@foreach F C : string_equal StringEqual ; string_not_equal StringNotEqual ; string_starts_with StringStartsWith ; string_ends_with StringEndsWith ; string_contains StringContains .
@fn builder::selector::AttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), AttributeBuilder::compared(*old(self), *r, Comparator::$C, texts(rhs@), case_insensitive))]
@fn builder::selector::ScopedAttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), ScopedAttributeBuilder::asserted(*old(self), *r, lhs, Comparator::$C, seq![rhs.vx_text()], case_insensitive))]
@end
@foreach F C : projection_equal ProjectionEqual ; projection_not_equal ProjectionNotEqual ; projection_subset ProjectionSubset ; projection_proper_subset ProjectionProperSubset .
@fn builder::selector::AttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), AttributeBuilder::compared(*old(self), *r, Comparator::$C, texts(rhs@), false))]
@end
@foreach F C T : projection_equal ProjectionEqual seq![rhs.vx_text()] ; projection_not_equal ProjectionNotEqual seq![rhs.vx_text()] ; projection_subset ProjectionSubset texts(rhs@) ; projection_proper_subset ProjectionProperSubset texts(rhs@) .
@fn builder::selector::ScopedAttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), ScopedAttributeBuilder::asserted(*old(self), *r, lhs, Comparator::$C, $T, false))]
@end
@foreach F C : number_greater NumberGreaterThan ; number_greater_or_equal NumberGreaterOrEqual ; number_less NumberLessThan ; number_less_or_equal NumberLessOrEqual .
@fn builder::selector::AttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), AttributeBuilder::compared(*old(self), *r, Comparator::$C, texts(rhs@), false))]
@fn builder::selector::ScopedAttributeBuilder::$F
#[verus_spec(r => ensures *final(self) == *final(r), ScopedAttributeBuilder::asserted(*old(self), *r, lhs, Comparator::$C, seq![rhs.vx_text()], false))]
@end
@fn builder::selector::AttributeBuilder::string_exists
#[verus_spec(r => ensures *final(self) == *final(r), AttributeBuilder::compared(*old(self), *r, Comparator::StringExists, seq![quoted_text(rhs.vx_text())], case_insensitive))]
@fn builder::selector::ScopedAttributeBuilder::string_exists
#[verus_spec(r => ensures *final(self) == *final(r), ScopedAttributeBuilder::asserted(*old(self), *r, lhs, Comparator::StringExists, seq![quoted_text(rhs.vx_text())], false))]
@fn builder::selector::ScopedAttributeBuilder::assertion
#[verus_spec(r => ensures *final(self) == *final(r), r.sp_key() == old(self).sp_key(), r.sp_assertions()@ =~= old(self).sp_assertions()@.push(assertion))]
@fn builder::selector::ScopedAttributeBuilder::string_assertion
#[verus_spec(r => ensures *final(self) == *final(r), ScopedAttributeBuilder::asserted(*old(self), *r, lhs, comparator, texts(rhs@), case_insensitive))]

## ---- from a builder of an attribute to the attribute, and to the selector of that one attribute
@fn builder::selector::[Clone for AttributeBuilder]::clone
#[verus_spec(r => ensures r.sp_selector().vx_text() == self.sp_selector().vx_text())]
@fn builder::selector::[From<AttributeBuilder> for SelectorExpression]::from
#[verus_spec(r => ensures r == SelectorExpression::AttributeSelector(v.sp_selector()))]
@fn builder::selector::[From<&mut AttributeBuilder> for AttributeSelector]::from
#[verus_spec(r => ensures *final(v) == *old(v), r.vx_text() == old(v).sp_selector().vx_text())]
@fn builder::selector::[From<AttributeBuilder> for AttributeSelector]::from
#[verus_spec(r => ensures r == v.sp_selector())]
@fn builder::selector::[From<&mut AttributeBuilder> for Selector]::from
#[verus_spec(r => ensures *final(v) == *old(v), r.vx_text() == old(v).sp_selector().vx_text())]
@fn builder::selector::[From<AttributeBuilder> for Selector]::from
#[verus_spec(r => ensures r.vx_text() == v.sp_selector().vx_text())]
@@entry
proof! { broadcast use {lemma_selector_text, lemma_texts}; }
## ---- the constructors of the model that take a boolean
@fn model::selector::AttributeComparison::string_exists
#[verus_spec(r => ensures r.sp_comparator() == Comparator::StringExists, texts(r.sp_rhs_values()@) =~= seq![quoted_text(rhs.vx_text())], !r.sp_case_insensitive())]
@fn model::selector::ScopedAttributeAssertion::string_exists
#[verus_spec(r => ensures r.sp_lhs_value() == lhs, r.sp_comparator() == Comparator::StringExists, texts(r.sp_rhs_values()@) =~= seq![quoted_text(rhs.vx_text())], !r.sp_case_insensitive())]
