@include naming.vc
## The terms linter.  The set of the identifiers it has examined is inside a `RefCell`; `borrow`, `borrow_mut` are verified as `vx_borrow`,
## `vx_borrow_mut`, which yield that set.  Its elements are compared as identifiers are: it is the set of their lower-case texts.
@rename borrow vx_borrow
@rename borrow_mut vx_borrow_mut
@crate
pub mod vxseen {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use std::cell::RefCell;
use std::collections::HashSet;
use crate::model::Identifier;
use crate::model::identity::lower;
verus!{
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExRefCell<T: ?Sized>(RefCell<T>);
pub uninterp spec fn seen(c: RefCell<HashSet<Identifier>>) -> Set<Seq<char>>;
#[verifier::external_body]
pub struct VxNames { s: HashSet<Identifier> }
impl VxNames {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, id: &Identifier) -> (r: bool) ensures r == self@.contains(lower(id.text())) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, id: Identifier) -> (r: bool) ensures r == !old(self)@.contains(lower(id.text())), final(self)@ == old(self)@.insert(lower(id.text())) { unimplemented!() }
}
pub trait VxCell: Sized {
    spec fn vx_seen(self) -> Set<Seq<char>>;
    fn vx_borrow(&self) -> (r: &VxNames) ensures r@ == self.vx_seen();
    fn vx_borrow_mut(&mut self) -> (r: &mut VxNames) ensures r@ == old(self).vx_seen(), final(self).vx_seen() == final(r)@;
}
impl VxCell for RefCell<HashSet<Identifier>> {
    open spec fn vx_seen(self) -> Set<Seq<char>> { seen(self) }
    #[verifier::external_body]
    fn vx_borrow(&self) -> &VxNames { unimplemented!() }
    #[verifier::external_body]
    fn vx_borrow_mut(&mut self) -> &mut VxNames { unimplemented!() }
}
/// heck's words of a text, and the list of unwelcome words
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn unwelcome(s: Seq<char>) -> bool;
}
}
@for C27
@mod model::identity
verus!{
impl NamespaceID {
    /// `split()`
    #[verifier::external_body]
    pub fn vx_split(&self) -> (r: Vec<Identifier>)
        ensures r@.len() == split_at(self.text(), '.').len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).text() == split_at(self.text(), '.')[i]
    { self.split().collect() }
}
}
@fn action::lint::terms::is_unwelcome_term
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == crate::vxseen::unwelcome(term@))]
@fn action::lint::terms::split_words
#[verus_verify(external_body)]
#[verus_spec(r => ensures r@.len() == crate::vxseen::words(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == crate::vxseen::words(s@)[i])]
@item action::lint::UnwelcomeTerms
#[verus_verify]
@fn action::lint::[Action for UnwelcomeTerms]::label
#[verus_verify]
@fn action::lint::[Action for UnwelcomeTerms]::issues
#[verus_verify]
@fn action::lint::[Action for UnwelcomeTerms]::issues_mut
#[verus_verify]
@impl action::lint::[Action for UnwelcomeTerms]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ closed spec fn sp_issues(&self) -> Seq<ActionIssue> { self.issues@ } open spec fn sp_label(&self) -> Seq<char> { "UnwelcomeTerms"@ } }
@mod action::lint
verus!{
use crate::vxtext::split_at;
use crate::vxseen::{VxCell, VxNames, seen, words, unwelcome};
/// an identifier, and the shape in whose id, or among whose members, it stands
pub struct Mention { pub name: Seq<char>, pub at: Seq<char> }
pub open spec fn of_ns(s: Seq<Seq<char>>, at: Seq<char>) -> Seq<Mention> { s.map_values(|t: Seq<char>| Mention { name: t, at }) }
pub open spec fn of_id(id: ShapeID) -> Seq<Mention> {
    of_ns(split_at(id.sp_namespace().text(), '.'), id.vx_text()).push(Mention { name: id.sp_name().text(), at: id.vx_text() })
        + match id.sp_member() { Some(m) => seq![Mention { name: m.text(), at: id.vx_text() }], None => Seq::empty() }
}
pub open spec fn flat<T>(s: Seq<T>, f: spec_fn(T) -> Seq<Mention>, n: int) -> Seq<Mention>
    decreases n
{
    if n <= 0 { Seq::empty() } else { flat(s, f, n - 1) + f(s[n - 1]) }
}
pub open spec fn of_ids(t: AppliedTraits, n: int) -> Seq<Mention> { flat(held_keys(t), |id: ShapeID| of_id(id), n) }
pub open spec fn of_traits(t: AppliedTraits) -> Seq<Mention> { of_ids(t, held_keys(t).len() as int) }
pub open spec fn of_member(m: MemberShape, at: ShapeID) -> Seq<Mention> {
    seq![Mention { name: m.sp_id().text(), at: at.vx_text() }] + of_id(m.sp_target()) + of_traits(m.sp_traits())
}
pub open spec fn of_members(s: TopLevelShape) -> Seq<Mention> {
    match s.sp_body() {
        ShapeKind::Structure(b) => flat(b.sp_members(), |m: MemberShape| of_member(m, s.sp_id()), b.sp_members().len() as int),
        ShapeKind::Union(b) => flat(b.sp_members(), |m: MemberShape| of_member(m, s.sp_id()), b.sp_members().len() as int),
        _ => Seq::empty(),
    }
}
pub open spec fn of_shape(s: TopLevelShape) -> Seq<Mention> { of_id(s.sp_id()) + of_traits(s.sp_traits()) + of_members(s) }
/// the warnings about the first `n` words of an identifier
pub open spec fn warn_words(w: Seq<Seq<char>>, at: Seq<char>, n: int) -> Multiset<Remark>
    decreases n
{
    if n <= 0 { Multiset::empty() } else {
        warn_words(w, at, n - 1).add(if unwelcome(w[n - 1]) {
            Multiset::singleton(Remark { level: IssueLevel::Warning, reporter: "UnwelcomeTerms"@, at: Some(at) })
        } else { Multiset::empty() })
    }
}
pub open spec fn warn(m: Mention) -> Multiset<Remark> { warn_words(words(m.name), m.at, words(m.name).len() as int) }
pub open spec fn keys_of(ms: Seq<Mention>) -> Set<Seq<char>> { ms.map_values(|m: Mention| crate::model::identity::lower(m.name)).to_set() }
/// the warnings about the mentions: about the first mention of each identifier that is not in `had`
pub open spec fn told(had: Set<Seq<char>>, ms: Seq<Mention>) -> Multiset<Remark>
    decreases ms.len()
{
    if ms.len() == 0 { Multiset::empty() } else {
        let p = ms.drop_last();
        told(had, p).add(if had.contains(crate::model::identity::lower(ms.last().name)) || keys_of(p).contains(crate::model::identity::lower(ms.last().name)) {
            Multiset::empty()
        } else { warn(ms.last()) })
    }
}
impl UnwelcomeTerms {
    pub closed spec fn sp_had(&self) -> Set<Seq<char>> { self.checked.vx_seen() }
}
/// `b` is `a` after the mentions `ms`
pub open spec fn met(a: UnwelcomeTerms, b: UnwelcomeTerms, ms: Seq<Mention>) -> bool {
    b.sp_had() == a.sp_had().union(keys_of(ms)) && adds(a.sp_issues(), b.sp_issues(), told(a.sp_had(), ms))
}
pub proof fn lemma_keys(a: Seq<Mention>, b: Seq<Mention>)
    ensures keys_of(a + b) == keys_of(a).union(keys_of(b))
{
    let f = |m: Mention| crate::model::identity::lower(m.name);
    let (x, y, z) = (a.map_values(f), b.map_values(f), (a + b).map_values(f));
    assert(z =~= x + y);
    assert forall|k: Seq<char>| (x + y).to_set().contains(k) == (x.to_set().contains(k) || y.to_set().contains(k)) by {
        if x.contains(k) { let i = choose|i: int| 0 <= i < x.len() && x[i] == k; assert((x + y)[i] == k); }
        if y.contains(k) { let i = choose|i: int| 0 <= i < y.len() && y[i] == k; assert((x + y)[x.len() + i] == k); }
    }
    assert(keys_of(a + b) =~= keys_of(a).union(keys_of(b)));
}
pub proof fn lemma_told(had: Set<Seq<char>>, a: Seq<Mention>, b: Seq<Mention>)
    ensures told(had, a + b) == told(had, a).add(told(had.union(keys_of(a)), b))
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(told(had, a).add(Multiset::empty()) =~= told(had, a));
    } else {
        let p = b.drop_last();
        assert((a + b).drop_last() =~= a + p);
        assert((a + b).last() == b.last());
        lemma_told(had, a, p);
        lemma_keys(a, p);
        assert(told(had, a + b) =~= told(had, a).add(told(had.union(keys_of(a)), b)));
    }
}
/// nothing is told of what was met
pub proof fn lemma_told_again(had: Set<Seq<char>>, ms: Seq<Mention>)
    requires keys_of(ms).subset_of(had),
    ensures told(had, ms) == Multiset::<Remark>::empty()
    decreases ms.len()
{
    if ms.len() > 0 {
        let p = ms.drop_last();
        assert(ms =~= p + seq![ms.last()]);
        lemma_keys(p, seq![ms.last()]);
        lemma_told_again(had, p);
        let f = |m: Mention| crate::model::identity::lower(m.name);
        assert(ms.map_values(f)[ms.len() - 1] == f(ms.last()));
        assert(keys_of(ms).contains(f(ms.last())));
        assert(told(had, ms) =~= Multiset::<Remark>::empty());
    }
}
pub proof fn lemma_met_more(a: UnwelcomeTerms, b: UnwelcomeTerms, c: UnwelcomeTerms, m: Seq<Mention>, n: Seq<Mention>)
    requires met(a, b, m), met(b, c, n)
    ensures met(a, c, m + n)
{
    lemma_keys(m, n);
    lemma_told(a.sp_had(), m, n);
    assert(a.sp_had().union(keys_of(m + n)) =~= a.sp_had().union(keys_of(m)).union(keys_of(n)));
    lemma_adds_more(a.sp_issues(), b.sp_issues(), c.sp_issues(), told(a.sp_had(), m), told(b.sp_had(), n));
}
pub proof fn lemma_met()
    ensures
        forall|a: UnwelcomeTerms| #[trigger] met(a, a, Seq::empty()),
        forall|a: UnwelcomeTerms, b: UnwelcomeTerms, c: UnwelcomeTerms, m: Seq<Mention>, n: Seq<Mention>|
            #[trigger] met(a, b, m) && #[trigger] met(b, c, n) ==> met(a, c, m + n),
{
    assert forall|a: UnwelcomeTerms| #[trigger] met(a, a, Seq::empty()) by {
        assert(keys_of(Seq::empty()) =~= Set::empty());
        assert(a.sp_had().union(keys_of(Seq::empty())) =~= a.sp_had());
        lemma_adds_none(a.sp_issues());
    }
    assert forall|a: UnwelcomeTerms, b: UnwelcomeTerms, c: UnwelcomeTerms, m: Seq<Mention>, n: Seq<Mention>|
            #[trigger] met(a, b, m) && #[trigger] met(b, c, n) implies met(a, c, m + n) by { lemma_met_more(a, b, c, m, n); }
}
/// meeting again what was met first changes nothing
pub proof fn lemma_met_again(n: Seq<Mention>, r: Seq<Mention>)
    ensures
        forall|a: UnwelcomeTerms, b: UnwelcomeTerms, c: UnwelcomeTerms| #[trigger] met(a, b, n + r) && #[trigger] met(b, c, n) ==> met(a, c, n + r),
{
    assert forall|a: UnwelcomeTerms, b: UnwelcomeTerms, c: UnwelcomeTerms| #[trigger] met(a, b, n + r) && #[trigger] met(b, c, n) implies met(a, c, n + r) by {
        lemma_keys(n, r);
        lemma_told_again(b.sp_had(), n);
        assert(c.sp_had() =~= b.sp_had());
        lemma_adds_more(a.sp_issues(), b.sp_issues(), c.sp_issues(), told(a.sp_had(), n + r), Multiset::empty());
        assert(told(a.sp_had(), n + r).add(Multiset::empty()) =~= told(a.sp_had(), n + r));
    }
}
/// one identifier
pub proof fn lemma_met_one(a: UnwelcomeTerms, b: UnwelcomeTerms, m: Mention)
    requires b.sp_had() == a.sp_had().insert(crate::model::identity::lower(m.name)),
        adds(a.sp_issues(), b.sp_issues(), if a.sp_had().contains(crate::model::identity::lower(m.name)) { Multiset::empty() } else { warn(m) }),
    ensures met(a, b, seq![m])
{
    let s = seq![m];
    let f = |m: Mention| crate::model::identity::lower(m.name);
    assert(s.drop_last() =~= Seq::empty());
    assert(keys_of(s.drop_last()) =~= Set::empty());
    assert(s.map_values(f) =~= seq![f(m)]);
    assert(keys_of(s) =~= set![f(m)]) by { assert(seq![f(m)][0] == f(m)); }
    assert(a.sp_had().union(keys_of(s)) =~= b.sp_had());
    let t = if a.sp_had().contains(f(m)) { Multiset::empty() } else { warn(m) };
    assert(told(a.sp_had(), s.drop_last()) == Multiset::<Remark>::empty());
    assert(told(a.sp_had(), s) =~= t);
}
}
@fn action::lint::UnwelcomeTerms::check_identifier
#[verus_spec(ensures in_shape is Some ==> met(*old(self), *final(self), seq![Mention { name: id.text(), at: in_shape->0.vx_text() }]))]
@@entry
proof_decl! { let ghost m = Mention { name: id.text(), at: in_shape->0.vx_text() }; let ghost s = *self; }
proof! {
    lemma_strings();
    lemma_adds(self.sp_issues());
    lemma_adds_chain();
    if s.sp_had().contains(crate::model::identity::lower(m.name)) {
        assert(s.sp_had().insert(crate::model::identity::lower(m.name)) =~= s.sp_had());
        lemma_adds_none(s.sp_issues());
        lemma_met_one(s, s, m);
    }
}
@@loop 0
#[verus_spec(it => invariant it.seq().len() == words(id.text()).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == words(id.text())[i],
    self.sp_had() == old(self).sp_had().insert(crate::model::identity::lower(id.text())),
    in_shape is Some ==> adds(old(self).sp_issues(), self.sp_issues(), warn_words(words(id.text()), in_shape->0.vx_text(), it.index() as int)))]
@@loopbody 0
proof! { lemma_adds(self.sp_issues()); lemma_adds_chain(); }
@@afterloop 0
proof! { if in_shape is Some { lemma_met_one(s, *self, m); } }
@fn action::lint::UnwelcomeTerms::check_shape_id
#[verus_spec(ensures met(*old(self), *final(self), of_id(*shape_id)))]
@@entry
proof! { lemma_met(); assert(of_ns(split_at(shape_id.sp_namespace().text(), '.').take(0), shape_id.vx_text()) =~= Seq::<Mention>::empty()); }
@@loop 0
#[verus_spec(it => invariant it.seq().len() == split_at(shape_id.sp_namespace().text(), '.').len(),
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).text() == split_at(shape_id.sp_namespace().text(), '.')[i],
    met(*old(self), *self, of_ns(split_at(shape_id.sp_namespace().text(), '.').take(it.index() as int), shape_id.vx_text())))]
@@loopbody 0
proof! {
    lemma_met();
    let s = split_at(shape_id.sp_namespace().text(), '.');
    let i = it.index() as int;
    assert(of_ns(s.take(i + 1), shape_id.vx_text()) =~= of_ns(s.take(i), shape_id.vx_text()) + seq![Mention { name: s[i], at: shape_id.vx_text() }]);
}
@@afterloop 0
proof! {
    let s = split_at(shape_id.sp_namespace().text(), '.');
    assert(s.take(s.len() as int) =~= s);
    assert(of_ns(s, shape_id.vx_text()) + seq![Mention { name: shape_id.sp_name().text(), at: shape_id.vx_text() }]
        =~= of_ns(s, shape_id.vx_text()).push(Mention { name: shape_id.sp_name().text(), at: shape_id.vx_text() }));
    assert(of_ns(s, shape_id.vx_text()).push(Mention { name: shape_id.sp_name().text(), at: shape_id.vx_text() }) + Seq::empty()
        =~= of_ns(s, shape_id.vx_text()).push(Mention { name: shape_id.sp_name().text(), at: shape_id.vx_text() }));
}
@impl action::lint::[Linter for UnwelcomeTerms]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{
    open spec fn sp_found(&self, model: &Model, found: Seq<ActionIssue>) -> bool {
        remarks(found) == told(self.sp_had(), flat(model.sp_shapes(), |s: TopLevelShape| of_shape(s), model.sp_shapes().len() as int))
    }
    open spec fn sp_fails(&self, model: &Model) -> bool { false }
}
@fn action::lint::[Linter for UnwelcomeTerms]::check
#[verus_verify]
@@splitarms
@@entry
proof! { lemma_met(); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant it.seq().unref() == model.sp_shapes(), met(*old(self), *self, flat(model.sp_shapes(), |s: TopLevelShape| of_shape(s), it.index() as int)))]
@@loopbody 0
proof_decl! { let ghost a = *self; }
proof! { lemma_met(); lemma_met_again(of_id(shape.sp_id()), of_traits(shape.sp_traits())); }
@@loopend 0
proof! {
    assert(met(a, *self, of_shape(*shape))) by {
        assert(of_id(shape.sp_id()) + of_traits(shape.sp_traits()) + Seq::empty() =~= of_id(shape.sp_id()) + of_traits(shape.sp_traits()));
    }
}
@@loop 1
#[verus_spec(it => invariant it.seq().unref() == held_keys(shape.sp_traits()), met(a, *self, of_id(shape.sp_id()) + of_ids(shape.sp_traits(), it.index() as int)))]
@@loopbody 1
proof! { lemma_met();
    let (x, y, z) = (of_id(shape.sp_id()), of_ids(shape.sp_traits(), it.index() as int), of_id(*id));
    assert(x + y + z =~= x + (y + z)); }
@@iter 2 vx_items
@@loop 2
#[verus_spec(it => invariant it.seq().unref() == body.sp_members(), shape.sp_body() == ShapeKind::Structure(*body),
    met(a, *self, of_id(shape.sp_id()) + of_traits(shape.sp_traits()) + flat(body.sp_members(), |m: MemberShape| of_member(m, shape.sp_id()), it.index() as int)))]
@@loopbody 2
proof_decl! { let ghost p = *self; }
proof! { lemma_met(); 
    let (x, y, z) = (of_id(shape.sp_id()) + of_traits(shape.sp_traits()), flat(body.sp_members(), |m: MemberShape| of_member(m, shape.sp_id()), it.index() as int), of_member(*member, shape.sp_id()));
    assert(x + y + z =~= x + (y + z)); }
@@loop 3
#[verus_spec(it => invariant it.seq().unref() == held_keys(member.sp_traits()),
    met(p, *self, seq![Mention { name: member.sp_id().text(), at: shape.sp_id().vx_text() }] + of_id(member.sp_target()) + of_ids(member.sp_traits(), it.index() as int)))]
@@loopbody 3
proof! { lemma_met();
    let (x, y, z) = (seq![Mention { name: member.sp_id().text(), at: shape.sp_id().vx_text() }] + of_id(member.sp_target()), of_ids(member.sp_traits(), it.index() as int), of_id(*id));
    assert(x + y + z =~= x + (y + z)); }
@@iter 4 vx_items
@@loop 4
#[verus_spec(it => invariant it.seq().unref() == body.sp_members(), shape.sp_body() == ShapeKind::Union(*body),
    met(a, *self, of_id(shape.sp_id()) + of_traits(shape.sp_traits()) + flat(body.sp_members(), |m: MemberShape| of_member(m, shape.sp_id()), it.index() as int)))]
@@loopbody 4
proof_decl! { let ghost p = *self; }
proof! { lemma_met(); 
    let (x, y, z) = (of_id(shape.sp_id()) + of_traits(shape.sp_traits()), flat(body.sp_members(), |m: MemberShape| of_member(m, shape.sp_id()), it.index() as int), of_member(*member, shape.sp_id()));
    assert(x + y + z =~= x + (y + z)); }
@@loop 5
#[verus_spec(it => invariant it.seq().unref() == held_keys(member.sp_traits()),
    met(p, *self, seq![Mention { name: member.sp_id().text(), at: shape.sp_id().vx_text() }] + of_id(member.sp_target()) + of_ids(member.sp_traits(), it.index() as int)))]
@@loopbody 5
proof! { lemma_met();
    let (x, y, z) = (seq![Mention { name: member.sp_id().text(), at: shape.sp_id().vx_text() }] + of_id(member.sp_target()), of_ids(member.sp_traits(), it.index() as int), of_id(*id));
    assert(x + y + z =~= x + (y + z)); }
@@afterloop 0
proof! {
    let f = self.issues@.skip(old(self).issues@.len() as int);
    assert(self.issues@ =~= old(self).issues@ + f);
    assert(old(self).sp_found(model, f));
}
