@include held.vc
@include issues.vc
@rename to_camel_case vx_camel
@rename to_mixed_case vx_mixed
@crate
pub mod vxcase {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
verus!{
/// heck's conversions of a text, which define the two conventions
pub uninterp spec fn camel(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn mixed(s: Seq<char>) -> Seq<char>;
pub trait VxCase {
    spec fn vx_of(&self) -> Seq<char>;
    fn vx_camel(&self) -> (r: String) ensures r@ == camel(self.vx_of());
    fn vx_mixed(&self) -> (r: String) ensures r@ == mixed(self.vx_of());
}
impl VxCase for String {
    open spec fn vx_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_camel(&self) -> String { ::heck::CamelCase::to_camel_case(self.as_str()) }
    #[verifier::external_body]
    fn vx_mixed(&self) -> String { ::heck::MixedCase::to_mixed_case(self.as_str()) }
}
}
}
@for C18
@item action::lint::NamingConventions
#[verus_verify]
@fn action::lint::[Action for NamingConventions]::label
#[verus_verify]
@fn action::lint::[Action for NamingConventions]::issues
#[verus_verify]
@fn action::lint::[Action for NamingConventions]::issues_mut
#[verus_verify]
@impl action::lint::[Action for NamingConventions]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ closed spec fn sp_issues(&self) -> Seq<ActionIssue> { self.issues@ } open spec fn sp_label(&self) -> Seq<char> { "NamingConventions"@ } }
@mod action::lint
verus!{
use crate::vxheld::{VxHeld, held, held_keys, holds};
use crate::vxcase::{VxCase, camel, mixed};
use crate::vstdf::*;
use crate::model::identity::*;
use crate::model::shapes::{TopLevelShape, AppliedTraits};
use crate::model::shapes::aggregate::MemberShape;
use vstd::multiset::Multiset;
/// what an issue says: its level, who reports it, and where
pub struct Remark { pub level: IssueLevel, pub reporter: Seq<char>, pub at: Option<Seq<char>> }
pub open spec fn remark(i: ActionIssue) -> Remark {
    Remark { level: i.sp_level(), reporter: i.sp_reporter(), at: match i.sp_locus() { Some(id) => Some(id.vx_text()), None => None } }
}
pub open spec fn remarks(s: Seq<ActionIssue>) -> Multiset<Remark> { s.map_values(|i: ActionIssue| remark(i)).to_multiset() }
pub open spec fn found_at(id: ShapeID) -> Multiset<Remark> {
    Multiset::singleton(Remark { level: IssueLevel::Info, reporter: "NamingConventions"@, at: Some(id.vx_text()) })
}
/// the remarks about a name which should be in upper (lower) camel case
pub open spec fn upper_at(name: Seq<char>, at: ShapeID) -> Multiset<Remark> { if camel(name) == name { Multiset::empty() } else { found_at(at) } }
pub open spec fn lower_at(name: Seq<char>, at: ShapeID) -> Multiset<Remark> { if mixed(name) == name { Multiset::empty() } else { found_at(at) } }
pub open spec fn upper(id: ShapeID) -> Multiset<Remark> { upper_at(id.sp_name().text(), id) }
pub open spec fn lower(id: ShapeID) -> Multiset<Remark> { lower_at(id.sp_name().text(), id) }
/// the remarks about the first `n` of the things
pub open spec fn total<T>(s: Seq<T>, f: spec_fn(T) -> Multiset<Remark>, n: int) -> Multiset<Remark>
    decreases n
{
    if n <= 0 { Multiset::empty() } else { total(s, f, n - 1).add(f(s[n - 1])) }
}
pub open spec fn all<T>(s: Seq<T>, f: spec_fn(T) -> Multiset<Remark>) -> Multiset<Remark> { total(s, f, s.len() as int) }
pub open spec fn about_traits(t: AppliedTraits) -> Multiset<Remark> { all(held_keys(t), |id: ShapeID| lower(id)) }
pub open spec fn about_member(m: MemberShape, of: ShapeID) -> Multiset<Remark> {
    lower_at(m.sp_id().text(), of).add(upper(m.sp_target())).add(about_traits(m.sp_traits()))
}
/// the shape defines a trait
pub open spec fn is_trait(s: TopLevelShape) -> bool {
    exists|i: int| 0 <= i < held(s.sp_traits()).len() && (#[trigger] held(s.sp_traits())[i]).0.vx_names("smithy.api"@, "trait"@)
}
pub open spec fn about_members(s: TopLevelShape) -> Multiset<Remark> {
    match s.sp_body() {
        ShapeKind::Structure(b) => all(b.sp_members(), |m: MemberShape| about_member(m, s.sp_id())),
        ShapeKind::Union(b) => all(b.sp_members(), |m: MemberShape| about_member(m, s.sp_id())),
        _ => Multiset::empty(),
    }
}
pub open spec fn about_name(s: TopLevelShape) -> Multiset<Remark> { if is_trait(s) { lower(s.sp_id()) } else { upper(s.sp_id()) } }
pub open spec fn about_shape(s: TopLevelShape) -> Multiset<Remark> {
    about_name(s).add(about_traits(s.sp_traits())).add(about_members(s))
}
/// `new` is `old` and, in any order, the remarks `m`
pub open spec fn adds(old: Seq<ActionIssue>, new: Seq<ActionIssue>, m: Multiset<Remark>) -> bool {
    &&& old.len() <= new.len()
    &&& new.take(old.len() as int) == old
    &&& remarks(new.skip(old.len() as int)) == m
}
pub proof fn lemma_adds_none(a: Seq<ActionIssue>)
    ensures adds(a, a, Multiset::empty())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.take(a.len() as int) =~= a);
    assert(remarks(a.skip(a.len() as int)) =~= Multiset::empty());
}
pub proof fn lemma_adds_push(a: Seq<ActionIssue>, i: ActionIssue)
    ensures adds(a, a.push(i), Multiset::singleton(remark(i)))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let b = a.push(i);
    assert(b.take(a.len() as int) =~= a);
    let e = Seq::<Remark>::empty();
    assert(b.skip(a.len() as int).map_values(|i: ActionIssue| remark(i)) =~= e.push(remark(i)));
    assert(remarks(b.skip(a.len() as int)) =~= Multiset::singleton(remark(i)));
}
/// the text of an identifier
pub proof fn lemma_strings()
    ensures forall|t: &crate::model::Identifier, s: String| #[trigger] vstd::string::to_string_from_display_ensures(t, s) ==> s@ == t.text()
{
    assert forall|t: &crate::model::Identifier, s: String| #[trigger] vstd::string::to_string_from_display_ensures(t, s) implies s@ == t.text() by {
        axiom_to_string(t, s);
    }
}
/// what may follow `a`
pub proof fn lemma_adds(a: Seq<ActionIssue>)
    ensures adds(a, a, Multiset::empty()),
        forall|i: ActionIssue| adds(a, #[trigger] a.push(i), Multiset::singleton(remark(i))),
{
    lemma_adds_none(a);
    assert forall|i: ActionIssue| adds(a, #[trigger] a.push(i), Multiset::singleton(remark(i))) by { lemma_adds_push(a, i); }
}
pub proof fn lemma_adds_after(a: Seq<ActionIssue>, b: Seq<ActionIssue>, m: Multiset<Remark>)
    requires adds(a, b, m),
    ensures forall|c: Seq<ActionIssue>, n: Multiset<Remark>| #[trigger] adds(b, c, n) ==> adds(a, c, m.add(n))
{
    assert forall|c: Seq<ActionIssue>, n: Multiset<Remark>| #[trigger] adds(b, c, n) implies adds(a, c, m.add(n)) by { lemma_adds_more(a, b, c, m, n); }
}
pub proof fn lemma_adds_chain()
    ensures forall|a: Seq<ActionIssue>, b: Seq<ActionIssue>, c: Seq<ActionIssue>, m: Multiset<Remark>, n: Multiset<Remark>|
        #[trigger] adds(a, b, m) && #[trigger] adds(b, c, n) ==> adds(a, c, m.add(n)),
        forall|m: Multiset<Remark>| #[trigger] m.add(Multiset::empty()) == m,
{
    assert forall|m: Multiset<Remark>| #[trigger] m.add(Multiset::empty()) == m by { assert(m.add(Multiset::empty()) =~= m); }
    assert forall|a: Seq<ActionIssue>, b: Seq<ActionIssue>, c: Seq<ActionIssue>, m: Multiset<Remark>, n: Multiset<Remark>|
        #[trigger] adds(a, b, m) && #[trigger] adds(b, c, n) implies adds(a, c, m.add(n)) by { lemma_adds_more(a, b, c, m, n); }
}
pub proof fn lemma_adds_more(a: Seq<ActionIssue>, b: Seq<ActionIssue>, c: Seq<ActionIssue>, m: Multiset<Remark>, n: Multiset<Remark>)
    requires adds(a, b, m), adds(b, c, n),
    ensures adds(a, c, m.add(n))
{
    let f = |i: ActionIssue| remark(i);
    let (x, y, z) = (b.skip(a.len() as int), c.skip(b.len() as int), c.skip(a.len() as int));
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert(z =~= x + y) by {
        assert forall|i: int| 0 <= i < x.len() implies z[i] == x[i] by { assert(c.take(b.len() as int)[a.len() + i] == b[a.len() + i]); }
    }
    assert(z.map_values(f) =~= x.map_values(f) + y.map_values(f));
    vstd::seq_lib::lemma_multiset_commutative(x.map_values(f), y.map_values(f));
}
}
@mod model::identity
verus!{
/// `==` of identities, as decided of `ShapeID::eq`
pub open spec fn same_id(a: ShapeID, b: ShapeID) -> bool {
    lower(a.sp_namespace().text()) == lower(b.sp_namespace().text()) && lower(a.sp_name().text()) == lower(b.sp_name().text())
        && opt_key(a.sp_member()) == opt_key(b.sp_member())
}
pub broadcast axiom fn axiom_holds_id<V>(m: std::collections::HashMap<ShapeID, V>, k: ShapeID)
    ensures #[trigger] crate::vxheld::holds(m, k) == (exists|i: int| 0 <= i < crate::vxheld::held(m).len() && same_id((#[trigger] crate::vxheld::held(m)[i]).0, k));
impl ShapeID {
    /// the id of the shape with this name, whatever the case
    pub open spec fn vx_names(self, n: Seq<char>, name: Seq<char>) -> bool {
        lower(self.sp_namespace().text()) == lower(n) && lower(self.sp_name().text()) == lower(name) && self.sp_member() is None
    }
}
/// the text of the trait `trait` reads as its parts
pub proof fn lemma_trait_id()
    ensures shape_ok("smithy.api#trait"@),
        forall|id: ShapeID, m: crate::model::shapes::AppliedTraits| id.parts_valid() && id.vx_text() == "smithy.api#trait"@ ==>
            #[trigger] crate::vxheld::holds(m, id)
                == (exists|i: int| 0 <= i < crate::vxheld::held(m).len() && (#[trigger] crate::vxheld::held(m)[i]).0.vx_names("smithy.api"@, "trait"@))
{
    reveal_strlit("smithy.api#trait");
    reveal_strlit("smithy.api");
    reveal_strlit("trait");
    let (n, name) = ("smithy.api"@, "trait"@);
    assert("smithy.api#trait"@ =~= shape_text(n, name, None));
    assert(ident_at(n.take(6), 0));
    assert(ident_at(n.skip(7), 0));
    assert(ns_ok(n.skip(7)));
    assert(n[6] == '.' && ident_ok(n.take(6)) && ns_ok(n.skip((6 + 1) as int)));
    assert(ident_at(name, 0));
    assert(parts_ok(n, name, None));
    assert forall|id: ShapeID, m: crate::model::shapes::AppliedTraits| id.parts_valid() && id.vx_text() == "smithy.api#trait"@ implies
            #[trigger] crate::vxheld::holds(m, id)
                == (exists|i: int| 0 <= i < crate::vxheld::held(m).len() && (#[trigger] crate::vxheld::held(m)[i]).0.vx_names("smithy.api"@, "trait"@)) by {
        lemma_parts(id.sp_namespace().text(), id.sp_name().text(), opt_text(id.sp_member()), n, name, None);
        axiom_holds_id(m, id);
        assert forall|k: ShapeID| #[trigger] same_id(k, id) == k.vx_names("smithy.api"@, "trait"@) by { }
    }
}
}
@foreach F K C : check_shape_name upper camel ; check_trait_name lower mixed .
@fn action::lint::NamingConventions::$F
#[verus_spec(ensures adds(old(self).issues@, final(self).issues@, $K(*id)))]
@@entry
proof! { lemma_strings(); lemma_adds(self.issues@); if $C(id.sp_name().text()) == id.sp_name().text() { assert($K(*id) == Multiset::<Remark>::empty()); } else { assert($K(*id) == found_at(*id)); } }
@end
@fn action::lint::NamingConventions::check_member_name
#[verus_spec(ensures adds(old(self).issues@, final(self).issues@, lower_at(id.text(), *parent)))]
@@entry
proof! { lemma_strings(); lemma_adds(self.issues@); }
@fn action::lint::NamingConventions::check_applied_trait_names
#[verus_spec(ensures adds(old(self).issues@, final(self).issues@, about_traits(*ids)))]
@@entry
proof! { lemma_adds(self.issues@); }
@@loop 0
#[verus_spec(it => invariant it.seq().unref() == held_keys(*ids), adds(old(self).issues@, self.issues@, total(held_keys(*ids), |id: ShapeID| lower(id), it.index() as int)))]
@@loopbody 0
proof! { lemma_adds_after(old(self).issues@, self.issues@, total(held_keys(*ids), |id: ShapeID| lower(id), it.index() as int)); }
@impl action::lint::[Linter for NamingConventions]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{
    open spec fn sp_found(&self, model: &Model, found: Seq<ActionIssue>) -> bool { remarks(found) == all(model.sp_shapes(), |s: TopLevelShape| about_shape(s)) }
    open spec fn sp_fails(&self, model: &Model) -> bool { false }
}
@fn action::lint::[Linter for NamingConventions]::check
#[verus_verify]
@@splitarms
@@entry
proof! { lemma_trait_id(); lemma_adds_none(self.issues@); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant it.seq().unref() == model.sp_shapes(), adds(old(self).issues@, self.issues@, total(model.sp_shapes(), |s: TopLevelShape| about_shape(s), it.index() as int)))]
@@loopbody 0
proof_decl! { let ghost a = self.issues@; }
proof! { lemma_trait_id(); lemma_adds_chain(); }
@@loopend 0
proof! { assert(about_name(*shape).add(about_traits(shape.sp_traits())).add(about_members(*shape)) =~= about_shape(*shape)); }
@@iter 1 vx_items
@@loop 1
#[verus_spec(it => invariant it.seq().unref() == body.sp_members(), shape.sp_body() == ShapeKind::Structure(*body),
    adds(a, self.issues@, about_name(*shape).add(about_traits(shape.sp_traits())).add(total(body.sp_members(), |m: MemberShape| about_member(m, shape.sp_id()), it.index() as int))))]
@@loopbody 1
proof_decl! { let ghost p = self.issues@; }
proof! { lemma_adds_chain(); }
@@loopend 1
proof! { assert(remarks(self.issues@.skip(p.len() as int)) =~= about_member(*member, shape.sp_id())); 
   assert(adds(p, self.issues@, about_member(*member, shape.sp_id())));
   let t = total(body.sp_members(), |m: MemberShape| about_member(m, shape.sp_id()), it.index() as int);
   let n = about_name(*shape).add(about_traits(shape.sp_traits()));
   assert(n.add(t).add(about_member(*member, shape.sp_id())) =~= n.add(t.add(about_member(*member, shape.sp_id())))); }
@@iter 2 vx_items
@@loop 2
#[verus_spec(it => invariant it.seq().unref() == body.sp_members(), shape.sp_body() == ShapeKind::Union(*body),
    adds(a, self.issues@, about_name(*shape).add(about_traits(shape.sp_traits())).add(total(body.sp_members(), |m: MemberShape| about_member(m, shape.sp_id()), it.index() as int))))]
@@loopbody 2
proof_decl! { let ghost p = self.issues@; }
proof! { lemma_adds_chain(); }
@@loopend 2
proof! { assert(remarks(self.issues@.skip(p.len() as int)) =~= about_member(*member, shape.sp_id())); 
   assert(adds(p, self.issues@, about_member(*member, shape.sp_id())));
   let t = total(body.sp_members(), |m: MemberShape| about_member(m, shape.sp_id()), it.index() as int);
   let n = about_name(*shape).add(about_traits(shape.sp_traits()));
   assert(n.add(t).add(about_member(*member, shape.sp_id())) =~= n.add(t.add(about_member(*member, shape.sp_id())))); }
@@afterloop 0
proof! {
    let f = self.issues@.skip(old(self).issues@.len() as int);
    assert(self.issues@ =~= old(self).issues@ + f);
    assert(old(self).sp_found(model, f));
}
