## C21: reading a selector (atelier_smithy), over the contracts of atelier_core (seltext.vc), which are imported as Verus exports them.
## pest's parser is behind a tree: what `parse` yields for a text is a tree of the shape the grammar gives (assumed; see selector.pest).
## Proved: each parse_* function yields, for a tree of its shape, the part of a selector whose text is the canonical text of the tree; it
## fails only where the tree names a shape type that does not exist, and it does not panic.
@for C21
@slices
@path SelectorParser::parse vx_parse
@path ParserError::unexpected vx_unexpected
@path ParserError::new vx_error
@path i64::from_str vx_i64
@path f64::from_str vx_f64
@rename next vx_next
@rename as_rule vx_rule
@rename into_inner vx_inner
@rename as_str vx_str
@rename len vx_len
@rename to_string vx_show
@rename expecting vx_expecting
@crate
pub mod vstdf { pub use ::atelier_core::vstdf::*; }
pub mod vstdx {
#![allow(unused_imports, missing_docs, dead_code)]
pub use ::atelier_core::vstdx::*;
use vstd::prelude::*;
verus!{
/// how many bytes a text takes; one for each ASCII character
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub broadcast axiom fn axiom_byte_len(s: Seq<char>, c: char)
    ensures #[trigger] byte_len(s.push(c)) >= byte_len(s) + 1, c as u32 <= 127 ==> byte_len(s.push(c)) == byte_len(s) + 1;
pub axiom fn axiom_byte_len_empty() ensures byte_len(Seq::<char>::empty()) == 0;
pub trait VxLen { spec fn vx_bytes(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vx_bytes(); }
impl VxLen for &str {
    open spec fn vx_bytes(&self) -> nat { byte_len((**self)@) }
    #[verifier::external_body]
    fn vx_len(&self) -> usize { self.len() }
}
/// there is a boundary of characters at each of these bytes
pub open spec fn cut(s: Seq<char>, a: int, b: int, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && a == byte_len(s.take(i)) && b == byte_len(s.take(j)) }
#[verifier::external_body]
pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires exists|i: int, j: int| #[trigger] cut(s@, a as int, b as int, i, j)
    ensures forall|i: int, j: int| #[trigger] cut(s@, a as int, b as int, i, j) ==> r@ == s@.subrange(i, j)
{ &s[a..b] }
/// the first and the last character of a text, if ASCII, take a byte each
pub proof fn lemma_quoted(s: Seq<char>)
    requires s.len() >= 2, s[0] as u32 <= 127, s.last() as u32 <= 127
    ensures cut(s, 1, byte_len(s) - 1, 1, s.len() - 1), byte_len(s) >= 2
{
    broadcast use axiom_byte_len; axiom_byte_len_empty();
    assert(s.take(1) =~= Seq::<char>::empty().push(s[0]));
    assert(s =~= s.drop_last().push(s.last()));
    assert(s.drop_last() =~= s.take(s.len() - 1));
    lemma_longer(s, s.len() - 1);
}
proof fn lemma_longer(s: Seq<char>, n: int)
    requires 1 <= n <= s.len()
    ensures byte_len(s.take(n)) >= byte_len(s.take(1))
    decreases n
{
    broadcast use axiom_byte_len;
    if n > 1 { lemma_longer(s, n - 1); assert(s.take(n) =~= s.take(n - 1).push(s[n - 1])); }
}
}
}
@item parser::selector::Rule
#[verus_verify]
@fn parser::selector::[PartialEq for Rule]::eq
#[verus_verify(external_body)]
@fn parser::selector::from_pest_error
#[verus_verify(external_body)]
@mod parser::selector
verus!{
use crate::vstdx::*;
use crate::vstdf::*;
use atelier_core::vxjoin::*;
use atelier_core::vstdt::*;
use atelier_core::model::selector::*;
use atelier_core::model::identity::{ident_ok, shape_ok};
impl vstd::std_specs::cmp::PartialEqSpecImpl for Rule {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Rule) -> bool { *self == *other }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParserError(ParserError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(std::num::ParseFloatError);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExPair<'i, R>(Pair<'i, R>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExPairs<'i, R>(Pairs<'i, R>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExPestError<R>(PestError<R>);
/// what pest makes of a text: the rule, the text it matched, the rules within
pub enum Tree { Node(Rule, Seq<char>, Seq<Tree>) }
impl Tree {
    pub open spec fn rule(self) -> Rule { match self { Tree::Node(r, _, _) => r } }
    pub open spec fn text(self) -> Seq<char> { match self { Tree::Node(_, t, _) => t } }
    pub open spec fn kids(self) -> Seq<Tree> { match self { Tree::Node(_, _, k) => k } }
}
pub uninterp spec fn tree(p: Pair<'_, Rule>) -> Tree;
pub uninterp spec fn trees(p: Pairs<'_, Rule>) -> Seq<Tree>;
/// the tree of a text, if the grammar has it
pub uninterp spec fn grammar_tree(s: Seq<char>) -> Option<Tree>;
pub trait VxPair<'i>: Sized {
    spec fn vx_tree(self) -> Tree;
    fn vx_rule(&self) -> (r: Rule) ensures r == self.vx_tree().rule();
    fn vx_str(&self) -> (r: &'i str) ensures r@ == self.vx_tree().text();
    fn vx_inner(self) -> (r: Pairs<'i, Rule>) ensures trees(r) == self.vx_tree().kids();
}
impl<'i> VxPair<'i> for Pair<'i, Rule> {
    open spec fn vx_tree(self) -> Tree { tree(self) }
    #[verifier::external_body]
    fn vx_rule(&self) -> Rule { self.as_rule() }
    #[verifier::external_body]
    fn vx_str(&self) -> &'i str { self.as_str() }
    #[verifier::external_body]
    fn vx_inner(self) -> Pairs<'i, Rule> { self.into_inner() }
}
pub trait VxPairs<'i>: Sized {
    spec fn vx_trees(self) -> Seq<Tree>;
    fn vx_next(&mut self) -> (r: Option<Pair<'i, Rule>>)
        ensures match r {
            None => old(self).vx_trees().len() == 0 && final(self).vx_trees() == old(self).vx_trees(),
            Some(p) => old(self).vx_trees().len() > 0 && tree(p) == old(self).vx_trees()[0] && final(self).vx_trees() == old(self).vx_trees().skip(1) };
}
impl<'i> VxPairs<'i> for Pairs<'i, Rule> {
    open spec fn vx_trees(self) -> Seq<Tree> { trees(self) }
    #[verifier::external_body]
    fn vx_next(&mut self) -> Option<Pair<'i, Rule>> { self.next() }
}
/// the pairs one after another
#[verifier::external_body]
pub fn vx_pairs<'i>(p: Pairs<'i, Rule>) -> (r: Vec<Pair<'i, Rule>>)
    ensures r@.len() == trees(p).len(), forall|i: int| 0 <= i < r@.len() ==> tree(#[trigger] r@[i]) == trees(p)[i]
{ p.collect() }
#[verifier::external_body]
pub fn vx_parse<'i>(rule: Rule, input: &'i str) -> (r: Result<Pairs<'i, Rule>, PestError<Rule>>)
    requires rule is input
    ensures match r {
        Ok(p) => trees(p).len() == 1 && grammar_tree(input@) == Some(trees(p)[0]) && wf_input(trees(p)[0]),
        Err(_) => grammar_tree(input@) is None }
{ SelectorParser::parse(rule, input) }
/// the integer or the float that std reads
pub uninterp spec fn int_read(s: Seq<char>) -> Option<i64>;
pub uninterp spec fn float_read(s: Seq<char>) -> Option<f64>;
#[verifier::external_body]
pub fn vx_i64(s: &str) -> (r: Result<i64, std::num::ParseIntError>) ensures match r { Ok(v) => int_read(s@) == Some(v), Err(_) => int_read(s@) is None } { i64::from_str(s) }
#[verifier::external_body]
pub fn vx_f64(s: &str) -> (r: Result<f64, std::num::ParseFloatError>) ensures match r { Ok(v) => float_read(s@) == Some(v), Err(_) => float_read(s@) is None } { f64::from_str(s) }
// ---- errors: what they say does not matter here
pub uninterp spec fn error_of(e: ParserError) -> Error;
#[verifier::external_body]
pub fn vx_unexpected(f: &str, p: &Pair<'_, Rule>) -> ParserError { ParserError::unexpected(f, p) }
#[verifier::external_body]
pub fn vx_error(f: &str) -> ParserError { ParserError::new(f) }
pub trait VxExpecting { fn vx_expecting(self, s: &str) -> ParserError; }
impl VxExpecting for ParserError { #[verifier::external_body] fn vx_expecting(self, s: &str) -> ParserError { self } }
impl<T> vstd::std_specs::convert::FromSpecImpl<ParserError> for ModelResult<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParserError) -> ModelResult<T> { Err(error_of(v)) }
}
// ---- the trees of the grammar, and the canonical text of each
pub open spec fn is_ident(t: Tree) -> bool { t.rule() is identifier && ident_ok(t.text()) }
pub open spec fn is_quoted(s: Seq<char>) -> bool { s.len() >= 2 && (s[0] == '"' || s[0] == '\'') && s.last() == s[0] }
pub open spec fn wf_value(t: Tree) -> bool {
    t.rule() is selector_value && t.kids().len() == 1 && match t.kids()[0].rule() {
        Rule::selector_text => is_quoted(t.kids()[0].text()),
        Rule::number => int_read(t.kids()[0].text()) is Some || float_read(t.kids()[0].text()) is Some,
        Rule::root_shape_id => t.kids()[0].kids().len() == 1 && (is_ident(t.kids()[0].kids()[0])
            || t.kids()[0].kids()[0].rule() is absolute_root_shape_id && shape_ok(t.kids()[0].kids()[0].text())),
        _ => false,
    }
}
pub open spec fn value_t(t: Tree) -> Seq<char> {
    let k = t.kids()[0];
    match k.rule() {
        Rule::selector_text => { let s = k.text().subrange(1, k.text().len() - 1); if s.contains('"') { "'"@ + s + "'"@ } else { "\""@ + s + "\""@ } },
        Rule::number => match int_read(k.text()) { Some(i) => int_text(i), None => float_text(float_read(k.text())->0) },
        _ => k.kids()[0].text(),
    }
}
pub open spec fn wf_segment(t: Tree) -> bool {
    t.rule() is selector_path_segment && t.kids().len() == 1
        && (wf_value(t.kids()[0]) || t.kids()[0].rule() is selector_function_property && t.kids()[0].kids().len() == 1 && is_ident(t.kids()[0].kids()[0]))
}
pub open spec fn segment_t(t: Tree) -> Seq<char> { let k = t.kids()[0]; if k.rule() is selector_value { value_t(k) } else { "("@ + k.kids()[0].text() + ")"@ } }
pub open spec fn all(s: Seq<Tree>, p: spec_fn(Tree) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
pub open spec fn wf_path(t: Tree) -> bool { t.rule() is selector_path && t.kids().len() > 0 && all(t.kids(), |k: Tree| wf_segment(k)) }
pub open spec fn path_t(t: Tree) -> Seq<Seq<char>> { Seq::new(t.kids().len(), |i: int| segment_t(t.kids()[i])) }
pub open spec fn wf_key(t: Tree) -> bool { t.rule() is selector_key && 1 <= t.kids().len() <= 2 && is_ident(t.kids()[0]) && (t.kids().len() == 2 ==> wf_path(t.kids()[1])) }
pub open spec fn key_t(t: Tree) -> Seq<char> { key_text(t.kids()[0].text(), if t.kids().len() == 2 { path_t(t.kids()[1]) } else { seq![] }) }
pub open spec fn wf_comparator(t: Tree) -> bool { t.rule() is selector_comparator && exists|c: Comparator| #[trigger] comparator_text(c) == t.text() }
pub open spec fn wf_comparison(t: Tree) -> bool {
    t.rule() is selector_attr_comparison && 2 <= t.kids().len() <= 3 && wf_comparator(t.kids()[0]) && t.kids()[1].rule() is selector_attr_values && t.kids()[1].kids().len() > 0
        && all(t.kids()[1].kids(), |k: Tree| wf_value(k)) && (t.kids().len() == 3 ==> t.kids()[2].rule() is case_comparison_suffix)
}
pub open spec fn values_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| value_t(s[i])) }
pub open spec fn comparison_t(t: Tree) -> Seq<char> { comparison_text(t.kids()[0].text(), values_t(t.kids()[1].kids()), t.kids().len() == 3) }
pub open spec fn wf_attr(t: Tree) -> bool { t.rule() is selector_attr && 1 <= t.kids().len() <= 2 && wf_key(t.kids()[0]) && (t.kids().len() == 2 ==> wf_comparison(t.kids()[1])) }
pub open spec fn attr_t(t: Tree) -> Seq<char> { attribute_text(key_t(t.kids()[0]), if t.kids().len() == 2 { comparison_t(t.kids()[1]) } else { seq![] }) }
pub open spec fn wf_scoped_value(t: Tree) -> bool {
    t.rule() is selector_scoped_value && t.kids().len() == 1
        && (wf_value(t.kids()[0]) || t.kids()[0].rule() is selector_context_value && t.kids()[0].kids().len() == 1 && wf_path(t.kids()[0].kids()[0]))
}
pub open spec fn scoped_value_t(t: Tree) -> Seq<char> {
    let k = t.kids()[0];
    if k.rule() is selector_value { value_t(k) } else { "@{"@ + joined(path_t(k.kids()[0]), "|"@) + "}"@ }
}
pub open spec fn wf_assertion(t: Tree) -> bool {
    t.rule() is selector_scoped_assertion && 3 <= t.kids().len() <= 4 && wf_scoped_value(t.kids()[0]) && wf_comparator(t.kids()[1]) && t.kids()[2].rule() is selector_scoped_values
        && t.kids()[2].kids().len() > 0 && all(t.kids()[2].kids(), |k: Tree| wf_scoped_value(k)) && (t.kids().len() == 4 ==> t.kids()[3].rule() is case_comparison_suffix)
}
pub open spec fn scoped_values_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| scoped_value_t(s[i])) }
pub open spec fn assertion_t(t: Tree) -> Seq<char> { scoped_value_t(t.kids()[0]) + comparison_text(t.kids()[1].text(), scoped_values_t(t.kids()[2].kids()), t.kids().len() == 4) }
pub open spec fn wf_assertions(t: Tree) -> bool { t.rule() is selector_scoped_assertions && t.kids().len() > 0 && all(t.kids(), |k: Tree| wf_assertion(k)) }
pub open spec fn assertions_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| assertion_t(s[i])) }
pub open spec fn wf_scoped(t: Tree) -> bool {
    t.rule() is selector_scoped_attr && (t.kids().len() == 1 && wf_assertions(t.kids()[0]) || t.kids().len() == 2 && wf_key(t.kids()[0]) && wf_assertions(t.kids()[1]))
}
pub open spec fn scoped_t(t: Tree) -> Seq<char> { scoped_text(if t.kids().len() == 2 { key_t(t.kids()[0]) } else { seq![] }, assertions_t(t.kids().last().kids())) }
pub open spec fn wf_directed(t: Tree) -> bool { t.kids().len() == 1 && t.kids()[0].rule() is selector_directed_relationships && t.kids()[0].kids().len() > 0 && all(t.kids()[0].kids(), |k: Tree| is_ident(k)) }
pub open spec fn idents_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].text()) }
pub open spec fn wf_type(t: Tree) -> bool { t.rule() is selector_shape_types && t.kids().len() <= 1 && (t.kids().len() == 1 ==> is_ident(t.kids()[0])) }
pub open spec fn type_t(t: Tree) -> Seq<char> { if t.kids().len() == 0 { "*"@ } else { t.kids()[0].text() } }
/// it names a shape type that exists
pub open spec fn type_known(t: Tree) -> bool { exists|k: ShapeType| #[trigger] type_keyword(k) == type_t(t) }
pub open spec fn wf_get(t: Tree) -> bool { t.rule() is selector_variable_get && t.kids().len() == 1 && is_ident(t.kids()[0]) }
pub open spec fn wf_input(t: Tree) -> bool { t.rule() is input && t.kids().len() > 0 && wf_selector(t.kids()[0]) }
pub open spec fn wf_selector(t: Tree) -> bool decreases t {
    match t { Tree::Node(r, _, k) => r is selector && k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> wf_expression(#[trigger] k[i]) }
}
pub open spec fn wf_args(t: Tree) -> bool decreases t {
    match t { Tree::Node(r, _, k) => r is selector_function_args && k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> wf_selector(#[trigger] k[i]) }
}
pub open spec fn wf_function(t: Tree) -> bool decreases t {
    match t { Tree::Node(r, _, k) => r is selector_function && k.len() == 2 && is_ident(k[0]) && wf_args(k[1]) }
}
pub open spec fn wf_set(t: Tree) -> bool decreases t {
    match t { Tree::Node(r, _, k) => r is selector_variable_set && k.len() == 2 && is_ident(k[0]) && wf_selector(k[1]) }
}
pub open spec fn wf_expression(t: Tree) -> bool decreases t {
    match t { Tree::Node(r, _, k) => r is selector_expression && k.len() == 1 && match k[0].rule() {
        Rule::selector_shape_types => wf_type(k[0]),
        Rule::selector_attr => wf_attr(k[0]),
        Rule::selector_scoped_attr => wf_scoped(k[0]),
        Rule::selector_forward_undirected_neighbor => true,
        Rule::selector_reverse_undirected_neighbor => true,
        Rule::selector_forward_recursive_neighbor => true,
        Rule::selector_forward_directed_neighbor => wf_directed(k[0]),
        Rule::selector_reverse_directed_neighbor => wf_directed(k[0]),
        Rule::selector_function => wf_function(k[0]),
        Rule::selector_variable_set => wf_set(k[0]),
        Rule::selector_variable_get => wf_get(k[0]),
        _ => false,
    } }
}
pub open spec fn selector_t(t: Tree) -> Seq<char> decreases t {
    match t { Tree::Node(_, _, k) => joined(Seq::new(k.len(), |i: int| if 0 <= i < k.len() { expression_t(k[i]) } else { seq![] }), " "@) }
}
pub open spec fn args_t(t: Tree) -> Seq<char> decreases t {
    match t { Tree::Node(_, _, k) => joined(Seq::new(k.len(), |i: int| if 0 <= i < k.len() { selector_t(k[i]) } else { seq![] }), ", "@) }
}
pub open spec fn function_t(t: Tree) -> Seq<char> decreases t { match t { Tree::Node(_, _, k) => if k.len() == 2 { ":"@ + k[0].text() + "("@ + args_t(k[1]) + ")"@ } else { seq![] } } }
pub open spec fn set_t(t: Tree) -> Seq<char> decreases t { match t { Tree::Node(_, _, k) => if k.len() == 2 { "$"@ + k[0].text() + "("@ + selector_t(k[1]) + ")"@ } else { seq![] } } }
pub open spec fn expression_t(t: Tree) -> Seq<char> decreases t {
    match t { Tree::Node(_, _, k) => if k.len() != 1 { seq![] } else { match k[0].rule() {
        Rule::selector_shape_types => type_t(k[0]),
        Rule::selector_attr => attr_t(k[0]),
        Rule::selector_scoped_attr => scoped_t(k[0]),
        Rule::selector_forward_undirected_neighbor => ">"@,
        Rule::selector_reverse_undirected_neighbor => "<"@,
        Rule::selector_forward_recursive_neighbor => "~>"@,
        Rule::selector_forward_directed_neighbor => "-["@ + joined(idents_t(k[0].kids()[0].kids()), ", "@) + "]->"@,
        Rule::selector_reverse_directed_neighbor => "<-["@ + joined(idents_t(k[0].kids()[0].kids()), ", "@) + "]-"@,
        Rule::selector_function => function_t(k[0]),
        Rule::selector_variable_set => set_t(k[0]),
        _ => "${"@ + k[0].kids()[0].text() + "}"@,
    } } }
}
pub open spec fn expressions_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| expression_t(s[i])) }
pub open spec fn selectors_t(s: Seq<Tree>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| selector_t(s[i])) }
/// every shape type it names exists
pub open spec fn known_selector(t: Tree) -> bool decreases t {
    match t { Tree::Node(_, _, k) => forall|i: int| 0 <= i < k.len() ==> known_expression(#[trigger] k[i]) }
}
pub open spec fn known_args(t: Tree) -> bool decreases t {
    match t { Tree::Node(_, _, k) => forall|i: int| 0 <= i < k.len() ==> known_selector(#[trigger] k[i]) }
}
pub open spec fn known_second(t: Tree, args: bool) -> bool decreases t { match t { Tree::Node(_, _, k) => k.len() == 2 && if args { known_args(k[1]) } else { known_selector(k[1]) } } }
pub open spec fn known_expression(t: Tree) -> bool decreases t {
    match t { Tree::Node(_, _, k) => k.len() == 1 && match k[0].rule() {
        Rule::selector_shape_types => type_known(k[0]),
        Rule::selector_function => known_second(k[0], true),
        Rule::selector_variable_set => known_second(k[0], false),
        _ => true,
    } }
}
proof fn lemma_selector_t(t: Tree)
    ensures forall|u: Seq<Seq<char>>| u.len() == t.kids().len() && (forall|i: int| 0 <= i < u.len() ==> u[i] == expression_t(t.kids()[i])) ==> #[trigger] joined(u, " "@) == selector_t(t)
{
    assert forall|u: Seq<Seq<char>>| u.len() == t.kids().len() && (forall|i: int| 0 <= i < u.len() ==> u[i] == expression_t(t.kids()[i])) implies #[trigger] joined(u, " "@) == selector_t(t) by {
        lemma_same(u);
    }
}
proof fn lemma_args_t(t: Tree)
    ensures forall|u: Seq<Seq<char>>| u.len() == t.kids().len() && (forall|i: int| 0 <= i < u.len() ==> u[i] == selector_t(t.kids()[i])) ==> #[trigger] joined(u, ", "@) == args_t(t)
{
    assert forall|u: Seq<Seq<char>>| u.len() == t.kids().len() && (forall|i: int| 0 <= i < u.len() ==> u[i] == selector_t(t.kids()[i])) implies #[trigger] joined(u, ", "@) == args_t(t) by {
        lemma_same(u);
    }
}
proof fn lemma_same(t: Seq<Seq<char>>)
    ensures forall|u: Seq<Seq<char>>, sep: Seq<char>| u.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> u[i] == t[i]) ==> #[trigger] joined(u, sep) == joined(t, sep)
{
    assert forall|u: Seq<Seq<char>>, sep: Seq<char>| u.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> u[i] == t[i]) implies #[trigger] joined(u, sep) == joined(t, sep) by { assert(u =~= t); }
}
/// the trees within a tree are smaller than it
proof fn lemma_within(t: Tree)
    ensures forall|i: int| 0 <= i < t.kids().len() ==> decreases_to!(t => #[trigger] t.kids()[i])
{
    assert forall|i: int| 0 <= i < t.kids().len() implies decreases_to!(t => #[trigger] t.kids()[i]) by { match t { Tree::Node(_, _, k) => { assert(decreases_to!(t => k)); assert(decreases_to!(k => k[i])); } } }
}
/// the texts of parts that are built one after another
pub open spec fn built<T: VxText>(s: Seq<T>, t: Seq<Seq<char>>, n: int) -> bool { s.len() == n && n <= t.len() && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).vx_text() == t[i] }
proof fn lemma_built<T: VxText>(s: Seq<T>, t: Seq<Seq<char>>)
    requires built(s, t, t.len() as int)
    ensures texts(s) == t
{ assert(texts(s) =~= t); }
}
@fn parser::selector::parse_selector_value
#[verus_spec(r => requires wf_value(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == value_t(tree(input_pair)))]
@@before 0 Ok(Value::Text
proof! { lemma_quoted(text@); }
@fn parser::selector::parse_selector_path_segment
#[verus_spec(r => requires wf_segment(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == segment_t(tree(input_pair)))]
@fn parser::selector::parse_selector_path
#[verus_spec(r => requires trees(input_pairs).len() <= 1, trees(input_pairs).len() == 1 ==> wf_path(trees(input_pairs)[0])
    ensures r matches Ok(x) && texts(x@) == (if trees(input_pairs).len() == 1 { path_t(trees(input_pairs)[0]) } else { seq![] }))]
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    it.seq().len() == trees(input_pairs).len(), it.seq().len() <= 1, it.seq().len() == 1 ==> tree(it.seq()[0]) == trees(input_pairs)[0] && wf_path(trees(input_pairs)[0]),
    texts(path@) == (if it.index() == 1 { path_t(trees(input_pairs)[0]) } else { seq![] }))]
@@iter 1 vx_pairs
@@loop 1
#[verus_spec(it => invariant
    it.seq().len() == vx_path.kids().len(), wf_path(vx_path), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == vx_path.kids()[i],
    built(path@, path_t(vx_path), it.index() as int))]
@@loopbody 0
proof_decl! { let ghost vx_path = tree(inner); }
proof! { assert(texts(path@).len() == path@.len()); }
@@afterloop 1
proof! { lemma_built(path@, path_t(vx_path)); }
@fn parser::selector::parse_selector_key
#[verus_spec(r => requires wf_key(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == key_t(tree(input_pair)))]
@fn parser::selector::parse_selector_shape_types
#[verus_spec(r => requires wf_type(tree(input_pair)) ensures match r { Ok(x) => x.vx_text() == type_t(tree(input_pair)), Err(_) => !type_known(tree(input_pair)) })]
@fn parser::selector::parse_selector_attr
#[verus_spec(r => requires wf_attr(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == attr_t(tree(input_pair)))]
@fn parser::selector::parse_selector_attr_comparison
#[verus_spec(r => requires wf_comparison(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == comparison_t(tree(input_pair)))]
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_comparison(tree(input_pair)), it.seq().len() == tree(input_pair).kids().len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids()[i + 1],
    texts(values@) == (if it.index() == 0 { seq![] } else { values_t(tree(input_pair).kids()[1].kids()) }), case_insensitive == (it.index() == 2))]
@@loopbody 0
proof_decl! { let ghost vx_values = tree(next); }
proof! { assert(texts(values@).len() == values@.len()); }
@@iter 1 vx_pairs
@@loop 1
#[verus_spec(it => invariant
    wf_comparison(tree(input_pair)), vx_values == tree(input_pair).kids()[1],
    it.seq().len() == vx_values.kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == vx_values.kids()[i],
    built(values@, values_t(vx_values.kids()), it.index() as int))]
@@afterloop 1
proof! { lemma_built(values@, values_t(vx_values.kids())); }
@fn parser::selector::parse_selector_directed_relationships
#[verus_spec(r => requires wf_directed(tree(input_pair)) ensures r matches Ok(x) && texts(x@) == idents_t(tree(input_pair).kids()[0].kids()))]
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_directed(tree(input_pair)), it.seq().len() == tree(input_pair).kids()[0].kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids()[0].kids()[i],
    built(relationships@, idents_t(tree(input_pair).kids()[0].kids()), it.index() as int))]
@@afterloop 0
proof! { lemma_built(relationships@, idents_t(tree(input_pair).kids()[0].kids())); }
@fn parser::selector::parse_selector_scoped_value
#[verus_spec(r => requires wf_scoped_value(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == scoped_value_t(tree(input_pair)))]
@fn parser::selector::parse_selector_scoped_assertion
#[verus_spec(r => requires wf_assertion(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == assertion_t(tree(input_pair)))]
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_assertion(tree(input_pair)), it.seq().len() == tree(input_pair).kids().len() - 2, forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids()[i + 2],
    texts(values@) == (if it.index() == 0 { seq![] } else { scoped_values_t(tree(input_pair).kids()[2].kids()) }), case_insensitive == (it.index() == 2))]
@@loopbody 0
proof_decl! { let ghost vx_values = tree(next); }
proof! { assert(texts(values@).len() == values@.len()); }
@@iter 1 vx_pairs
@@loop 1
#[verus_spec(it => invariant
    wf_assertion(tree(input_pair)), vx_values == tree(input_pair).kids()[2],
    it.seq().len() == vx_values.kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == vx_values.kids()[i],
    built(values@, scoped_values_t(vx_values.kids()), it.index() as int))]
@@afterloop 1
proof! { lemma_built(values@, scoped_values_t(vx_values.kids())); }
@fn parser::selector::parse_selector_scoped_attr
#[verus_spec(r => requires wf_scoped(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == scoped_t(tree(input_pair)))]
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_scoped(tree(input_pair)), match key { None => tree(input_pair).kids().len() == 1, Some(k) => tree(input_pair).kids().len() == 2 && k.vx_text() == key_t(tree(input_pair).kids()[0]) },
    it.seq().len() == tree(input_pair).kids().last().kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids().last().kids()[i],
    built(assertions@, assertions_t(tree(input_pair).kids().last().kids()), it.index() as int))]
@@afterloop 0
proof! { lemma_built(assertions@, assertions_t(tree(input_pair).kids().last().kids())); }
@fn parser::selector::parse_selector_variable_get
#[verus_spec(r => requires wf_get(tree(input_pair)) ensures r matches Ok(x) && x.vx_text() == "${"@ + tree(input_pair).kids()[0].text() + "}"@)]
@fn parser::selector::parse_a_selector
#[verus_spec(r => requires wf_selector(tree(input_pair)) ensures match r { Ok(x) => known_selector(tree(input_pair)) && x.vx_text() == selector_t(tree(input_pair)), Err(_) => !known_selector(tree(input_pair)) }
    decreases tree(input_pair))]
@@entry
proof! { lemma_selector_t(tree(input_pair)); lemma_within(tree(input_pair)); broadcast use lemma_selector_text; }
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_selector(tree(input_pair)), it.seq().len() == tree(input_pair).kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids()[i],
    forall|i: int| 0 <= i < tree(input_pair).kids().len() ==> decreases_to!(tree(input_pair) => #[trigger] tree(input_pair).kids()[i]),
    forall|i: int| 0 <= i < it.index() ==> known_expression(#[trigger] tree(input_pair).kids()[i]),
    built(results.sp_expressions()@, expressions_t(tree(input_pair).kids()), it.index() as int))]
@@afterloop 0
proof! { lemma_built(results.sp_expressions()@, expressions_t(tree(input_pair).kids())); }
@fn parser::selector::parse_selector_expression
#[verus_spec(r => requires wf_expression(tree(input_pair)) ensures match r { Ok(x) => known_expression(tree(input_pair)) && x.vx_text() == expression_t(tree(input_pair)), Err(_) => !known_expression(tree(input_pair)) }
    decreases tree(input_pair))]
@@entry
proof! { lemma_within(tree(input_pair)); }
@fn parser::selector::parse_selector_function
#[verus_spec(r => requires wf_function(tree(input_pair)) ensures match r { Ok(x) => known_second(tree(input_pair), true) && x.vx_text() == function_t(tree(input_pair)), Err(_) => !known_second(tree(input_pair), true) }
    decreases tree(input_pair))]
@@entry
proof! { lemma_within(tree(input_pair)); lemma_within(tree(input_pair).kids()[1]); lemma_args_t(tree(input_pair).kids()[1]); broadcast use lemma_function_text; }
@@iter 0 vx_pairs
@@loop 0
#[verus_spec(it => invariant
    wf_function(tree(input_pair)), it.seq().len() == tree(input_pair).kids()[1].kids().len(), forall|i: int| 0 <= i < it.seq().len() ==> tree(#[trigger] it.seq()[i]) == tree(input_pair).kids()[1].kids()[i],
    forall|i: int| 0 <= i < it.seq().len() ==> decreases_to!(tree(input_pair) => tree(#[trigger] it.seq()[i])),
    forall|i: int| 0 <= i < it.index() ==> known_selector(#[trigger] tree(input_pair).kids()[1].kids()[i]),
    built(arguments@, selectors_t(tree(input_pair).kids()[1].kids()), it.index() as int))]
@@afterloop 0
proof! { lemma_built(arguments@, selectors_t(tree(input_pair).kids()[1].kids())); }
@fn parser::selector::parse_selector_variable_set
#[verus_spec(r => requires wf_set(tree(input_pair)) ensures match r { Ok(x) => known_second(tree(input_pair), false) && x.vx_text() == set_t(tree(input_pair)), Err(_) => !known_second(tree(input_pair), false) }
    decreases tree(input_pair))]
@@entry
proof! { lemma_within(tree(input_pair)); }
@fn parser::selector::parse_selector
#[verus_spec(r => ensures match r { Ok(x) => grammar_tree(input@) matches Some(t) && known_selector(t.kids()[0]) && x.vx_text() == selector_t(t.kids()[0]),
    Err(_) => grammar_tree(input@) matches Some(t) ==> !known_selector(t.kids()[0]) })]
@fn parser::error::[From<ParserError> for CoreResult<T>]::from
#[verus_verify(external_body)]
