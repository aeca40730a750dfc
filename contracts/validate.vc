@include actions.vc
@for C16
@static prelude::PRELUDE_NAMESPACE_ID
ensures $R == crate::model::identity::ns_of("smithy.api"@)
@fn prelude::prelude_namespace_id
#[verus_spec(r => ensures *r == crate::model::identity::ns_of("smithy.api"@))]
@fn model::shapes::TopLevelShape::is_prelude_shape
#[verus_spec(r => ensures r == (self.sp_id().sp_namespace() == crate::model::identity::ns_of("smithy.api"@)))]
@fn model::shapes::service::Resource::identifiers
#[verus_spec(r => ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().unref().to_set() == self.sp_identifiers().kv_pairs(), r.remaining().len() == self.sp_identifiers().dom().len())]
@foreach C : MEMBER_INPUT ; MEMBER_OUTPUT ; MEMBER_ERRORS .
@const syntax::$C
#[verus_verify]
@end
@foreach V : CorrectTypeReferences ; NoUnresolvedReferences .
@item action::validate::$V
#[verus_verify]
@fn action::validate::[Action for $V]::label
#[verus_verify]
@fn action::validate::[Action for $V]::issues
#[verus_verify]
@fn action::validate::[Action for $V]::issues_mut
#[verus_verify]
@impl action::validate::[Action for $V]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ closed spec fn sp_issues(&self) -> Seq<ActionIssue> { self.issues@ } open spec fn sp_label(&self) -> Seq<char> { "$V"@ } }
@end
@mod action::validate
verus!{
use crate::action::{Note, notes};
use crate::model::shapes::{TopLevelShape, MemberShape};
pub open spec fn is_prelude(id: ShapeID) -> bool { id.sp_namespace() == crate::model::identity::ns_of("smithy.api"@) }
pub type Shapes = SMap<ShapeID, TopLevelShape>;
/// what is wrong with a member of type `target`
pub open spec fn type_defect(m: Shapes, target: ShapeID) -> Option<IssueLevel> {
    if m.contains_key(target) {
        if m[target].sp_body() is Service || m[target].sp_body() is Operation || m[target].sp_body() is Resource { Some(IssueLevel::Error) } else { None }
    } else if is_prelude(target) { None } else { Some(IssueLevel::Warning) }
}
/// what is wrong with `target` in the place of an operation
pub open spec fn operation_defect(m: Shapes, target: ShapeID) -> Option<IssueLevel> {
    if m.contains_key(target) { if m[target].sp_body() is Operation { None } else { Some(IssueLevel::Error) } }
    else if is_prelude(target) { None } else { Some(IssueLevel::Warning) }
}
/// what is wrong with `target` in the place of a resource
pub open spec fn resource_defect(m: Shapes, target: ShapeID) -> Option<IssueLevel> {
    if m.contains_key(target) { if m[target].sp_body() is Resource { None } else { Some(IssueLevel::Error) } }
    else if is_prelude(target) { None } else { Some(IssueLevel::Warning) }
}
pub enum Place { Type, Operation, Resource }
pub open spec fn defect(p: Place, m: Shapes, target: ShapeID) -> Option<IssueLevel> {
    match p { Place::Type => type_defect(m, target), Place::Operation => operation_defect(m, target), Place::Resource => resource_defect(m, target) }
}
/// the notes of the issues from the `k`-th on
pub open spec fn since(s: Seq<ActionIssue>, k: nat) -> Seq<Note> { notes(s.skip(k as int)) }
pub open spec fn starts(s: Seq<ActionIssue>, p: Seq<ActionIssue>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[i] == #[trigger] p[i] }
/// `new` is `old` and a note for the defect, if there is one
pub open spec fn noted(old: Seq<ActionIssue>, new: Seq<ActionIssue>, at: ShapeID, defect: Option<IssueLevel>) -> bool {
    starts(new, old) && forall|k: nat| k <= old.len() ==> #[trigger] since(new, k) == since(old, k) + note_of(at, defect)
}
pub open spec fn note_of(at: ShapeID, defect: Option<IssueLevel>) -> Seq<Note> {
    match defect { None => Seq::empty(), Some(level) => seq![Note { level, locus: Some(at), reporter: "CorrectTypeReferences"@ }] }
}
/// `acc` and a note for each of the first `n` targets which has a defect in its place
pub open spec fn notes_for(acc: Seq<Note>, p: Place, m: Shapes, at: ShapeID, ts: Seq<ShapeID>, n: int) -> Seq<Note>
    decreases n
{
    if n <= 0 { acc } else { notes_for(acc, p, m, at, ts, n - 1) + note_of(at, defect(p, m, ts[n - 1])) }
}
pub open spec fn all_for(acc: Seq<Note>, p: Place, m: Shapes, at: ShapeID, ts: Seq<ShapeID>) -> Seq<Note> { notes_for(acc, p, m, at, ts, ts.len() as int) }
pub open spec fn opt_for(acc: Seq<Note>, p: Place, m: Shapes, at: ShapeID, t: Option<ShapeID>) -> Seq<Note> {
    match t { None => acc, Some(t) => acc + note_of(at, defect(p, m, t)) }
}
pub open spec fn targets(s: Seq<MemberShape>) -> Seq<ShapeID> { s.map_values(|x: MemberShape| x.sp_target()) }
pub open spec fn seconds(s: Seq<(Identifier, ShapeID)>) -> Seq<ShapeID> { s.map_values(|x: (Identifier, ShapeID)| x.1) }
/// the notes for one shape, put after `acc`
pub open spec fn shape_noted(m: Shapes, s: TopLevelShape, acc: Seq<Note>, out: Seq<Note>) -> bool {
    let at = s.sp_id();
    match s.sp_body() {
        ShapeKind::Simple(_) => out == if s.sp_traits()@.dom() =~= SSet::<ShapeID>::empty() { acc + note_of(at, Some(IssueLevel::Info)) } else { acc },
        ShapeKind::List(l) => out == acc + note_of(at, type_defect(m, l.sp_member().sp_target())),
        ShapeKind::Set(l) => out == acc + note_of(at, type_defect(m, l.sp_member().sp_target())),
        ShapeKind::Map(l) => out == acc + note_of(at, type_defect(m, l.sp_key().sp_target())) + note_of(at, type_defect(m, l.sp_value().sp_target())),
        ShapeKind::Structure(b) => exists|e: Seq<MemberShape>| #[trigger] lists(b.sp_members(), e) && out == all_for(acc, Place::Type, m, at, targets(e)),
        ShapeKind::Union(b) => exists|e: Seq<MemberShape>| #[trigger] lists(b.sp_members(), e) && out == all_for(acc, Place::Type, m, at, targets(e)),
        ShapeKind::Service(b) => out == all_for(all_for(acc, Place::Operation, m, at, b.sp_operations()), Place::Resource, m, at, b.sp_resources()),
        ShapeKind::Operation(b) => out == all_for(opt_for(opt_for(acc, Place::Type, m, at, b.sp_input()), Place::Type, m, at, b.sp_output()), Place::Type, m, at, b.sp_errors()),
        ShapeKind::Resource(b) => exists|e: Seq<(Identifier, ShapeID)>| #[trigger] lists_pairs(b.sp_identifiers(), e) && {
            let a = all_for(acc, Place::Type, m, at, seconds(e));
            let b1 = opt_for(opt_for(opt_for(a, Place::Operation, m, at, b.sp_create()), Place::Operation, m, at, b.sp_put()), Place::Operation, m, at, b.sp_read());
            let b2 = opt_for(opt_for(opt_for(b1, Place::Operation, m, at, b.sp_update()), Place::Operation, m, at, b.sp_delete()), Place::Operation, m, at, b.sp_list());
            out == all_for(all_for(all_for(b2, Place::Operation, m, at, b.sp_operations()), Place::Operation, m, at, b.sp_collection_operations()), Place::Resource, m, at, b.sp_resources())
        },
        ShapeKind::Unresolved => out == acc,
    }
}
/// the notes for the first `n` shapes
pub open spec fn model_noted(m: Shapes, e: Seq<TopLevelShape>, n: int, out: Seq<Note>) -> bool {
    exists|steps: Seq<Seq<Note>>| #[trigger] steps_of(m, e, n, steps) && steps.last() == out
}
pub open spec fn steps_of(m: Shapes, e: Seq<TopLevelShape>, n: int, steps: Seq<Seq<Note>>) -> bool {
    steps.len() == n + 1 && steps[0] == Seq::<Note>::empty() && forall|i: int| 0 <= i < n ==> #[trigger] shape_noted(m, e[i], steps[i], steps[i + 1])
}
pub broadcast proof fn lemma_no_steps(m: Shapes, e: Seq<TopLevelShape>, out: Seq<Note>)
    requires out.len() == 0,
    ensures #[trigger] model_noted(m, e, 0, out)
{
    let steps = seq![Seq::<Note>::empty()];
    assert(steps_of(m, e, 0, steps));
    assert(out =~= Seq::<Note>::empty());
}
pub broadcast proof fn lemma_step(m: Shapes, e: Seq<TopLevelShape>, n: int, a: Seq<Note>, b: Seq<Note>)
    requires n >= 0, #[trigger] model_noted(m, e, n, a), #[trigger] shape_noted(m, e[n], a, b),
    ensures model_noted(m, e, n + 1, b)
{
    let steps = choose|steps: Seq<Seq<Note>>| #[trigger] steps_of(m, e, n, steps) && steps.last() == a;
    let t = steps.push(b);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] shape_noted(m, e[i], t[i], t[i + 1]) by {
        if i < n { assert(shape_noted(m, e[i], steps[i], steps[i + 1])); }
    }
    assert(steps_of(m, e, n + 1, t));
    assert(t.last() == b);
}
pub broadcast proof fn lemma_since_push(s: Seq<ActionIssue>, i: ActionIssue, k: nat)
    requires k <= s.len(),
    ensures #[trigger] since(s.push(i), k) == since(s, k) + seq![i.sp_note()]
{
    assert(since(s.push(i), k) =~= since(s, k) + seq![i.sp_note()]);
}
pub broadcast proof fn lemma_since_same(s: Seq<ActionIssue>, k: nat)
    requires k <= s.len(),
    ensures #[trigger] since(s, k) == since(s, k) + Seq::<Note>::empty(), k == s.len() ==> since(s, k) == Seq::<Note>::empty()
{
    assert(since(s, k) =~= since(s, k) + Seq::<Note>::empty());
    if k == s.len() { assert(since(s, k) =~= Seq::<Note>::empty()); }
}
}
@foreach F D T : check_type_only type_defect target_id ; check_operation_only operation_defect target ; check_resource_only resource_defect target .
@fn action::validate::CorrectTypeReferences::$F
#[verus_spec(ensures noted(old(self).issues@, final(self).issues@, *shape, $D(model.sp_shapes(), *$T)))]
@@entry
proof! { broadcast use lemma_since_push, lemma_since_same; }
@end
@impl action::validate::[Validator for CorrectTypeReferences]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{
    open spec fn sp_found(&self, model: &Model, found: Seq<ActionIssue>) -> bool {
        exists|e: Seq<TopLevelShape>| #[trigger] lists(model.sp_shapes(), e) && model_noted(model.sp_shapes(), e, e.len() as int, notes(found))
    }
    open spec fn sp_fails(&self, model: &Model) -> bool { false }
}
@fn action::validate::[Validator for CorrectTypeReferences]::validate
#[verus_verify]
@@entry
proof! { broadcast use lemma_since_push, lemma_since_same, lemma_no_steps; }
proof_decl! { let ghost n0 = self.issues@.len(); let ghost m = model.sp_shapes(); }
@@iter 0 vx_items
@@loop 0
#[verus_spec(it => invariant
    n0 == old(self).issues@.len(), m == model.sp_shapes(),
    starts(self.issues@, old(self).issues@),
    lists(m, it.seq().unref()),
    model_noted(m, it.seq().unref(), it.index() as int, since(self.issues@, n0)),
    ensures exists|e: Seq<TopLevelShape>| #[trigger] lists(m, e) && model_noted(m, e, e.len() as int, since(self.issues@, n0)))]
@@loopbody 0
proof! { broadcast use lemma_since_push, lemma_since_same, lemma_step; }
proof_decl! { let ghost a = since(self.issues@, n0); let ghost at = shape.sp_id(); }
@@iter 1 vx_items
@@loopend 0
proof! {
    assert(shape_noted(m, *shape, a, since(self.issues@, n0)));
    assert(it.seq().unref()[it.index() as int] == *shape);
    lemma_step(m, it.seq().unref(), it.index() as int, a, since(self.issues@, n0));
}
@@afterloop 0
proof! {
    let f = self.issues@.skip(n0 as int);
    assert(self.issues@ =~= old(self).issues@ + f);
    assert(old(self).sp_found(model, f));
}
@@loop 1
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    lists(structured.sp_members(), it.seq().unref()),
    since(self.issues@, n0) == notes_for(a, Place::Type, m, at, targets(it.seq().unref()), it.index() as int),
    ensures exists|e: Seq<MemberShape>| #[trigger] lists(structured.sp_members(), e) && since(self.issues@, n0) == all_for(a, Place::Type, m, at, targets(e)))]
@@iter 2 vx_items
@@loop 2
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(a, Place::Operation, m, at, it.seq().unref(), it.index() as int))]
@@iter 3 vx_items
@@loop 3
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(all_for(a, Place::Operation, m, at, service.sp_operations()), Place::Resource, m, at, it.seq().unref(), it.index() as int))]
@@iter 4 vx_items
@@loop 4
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(opt_for(opt_for(a, Place::Type, m, at, operation.sp_input()), Place::Type, m, at, operation.sp_output()), Place::Type, m, at, it.seq().unref(), it.index() as int))]
@@iter 5 vx_items
@@loop 5
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    lists_pairs(resource.sp_identifiers(), it.seq().unref()),
    since(self.issues@, n0) == notes_for(a, Place::Type, m, at, seconds(it.seq().unref()), it.index() as int),
    ensures exists|e: Seq<(Identifier, ShapeID)>| #[trigger] lists_pairs(resource.sp_identifiers(), e) && since(self.issues@, n0) == all_for(a, Place::Type, m, at, seconds(e)))]
@@afterloop 5
proof_decl! { let ghost b = since(self.issues@, n0); }
@@iter 6 vx_items
@@loop 6
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(opt_for(opt_for(opt_for(opt_for(opt_for(opt_for(b, Place::Operation, m, at, resource.sp_create()), Place::Operation, m, at, resource.sp_put()), Place::Operation, m, at, resource.sp_read()), Place::Operation, m, at, resource.sp_update()), Place::Operation, m, at, resource.sp_delete()), Place::Operation, m, at, resource.sp_list()), Place::Operation, m, at, it.seq().unref(), it.index() as int))]
@@iter 7 vx_items
@@loop 7
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(all_for(opt_for(opt_for(opt_for(opt_for(opt_for(opt_for(b, Place::Operation, m, at, resource.sp_create()), Place::Operation, m, at, resource.sp_put()), Place::Operation, m, at, resource.sp_read()), Place::Operation, m, at, resource.sp_update()), Place::Operation, m, at, resource.sp_delete()), Place::Operation, m, at, resource.sp_list()), Place::Operation, m, at, resource.sp_operations()), Place::Operation, m, at, it.seq().unref(), it.index() as int))]
@@iter 8 vx_items
@@loop 8
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), at == shape.sp_id(), starts(self.issues@, old(self).issues@),
    since(self.issues@, n0) == notes_for(all_for(all_for(opt_for(opt_for(opt_for(opt_for(opt_for(opt_for(b, Place::Operation, m, at, resource.sp_create()), Place::Operation, m, at, resource.sp_put()), Place::Operation, m, at, resource.sp_read()), Place::Operation, m, at, resource.sp_update()), Place::Operation, m, at, resource.sp_delete()), Place::Operation, m, at, resource.sp_list()), Place::Operation, m, at, resource.sp_operations()), Place::Operation, m, at, resource.sp_collection_operations()), Place::Resource, m, at, it.seq().unref(), it.index() as int))]

@impl action::validate::[Validator for NoUnresolvedReferences]
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{
    open spec fn sp_found(&self, model: &Model, found: Seq<ActionIssue>) -> bool {
        exists|e: Seq<TopLevelShape>| #[trigger] lists(model.sp_shapes(), e) && notes(found) == unresolved_notes(unresolved(e) as int)
    }
    open spec fn sp_fails(&self, model: &Model) -> bool { false }
}
@mod action::validate
verus!{
pub open spec fn unresolved(e: Seq<TopLevelShape>) -> nat { e.filter(|s: TopLevelShape| s.sp_body() is Unresolved).len() }
/// `n` times the same: an error, of the whole model
pub open spec fn unresolved_notes(n: int) -> Seq<Note> {
    Seq::new(n as nat, |i: int| Note { level: IssueLevel::Error, locus: None, reporter: "NoUnresolvedReferences"@ })
}
pub broadcast proof fn lemma_unresolved<B>(m: Shapes, s: Seq<&TopLevelShape>, o: Seq<Option<B>>)
    requires s.unref().to_set() == m.values(), s.len() == m.dom().len(), o.len() == s.len(),
        forall|k: int| 0 <= k < s.len() ==> (#[trigger] o[k] is Some) == (s[k].sp_body() is Unresolved),
    ensures #![trigger somes(o), s.unref().to_set(), m.values()]
        exists|e: Seq<TopLevelShape>| #[trigger] lists(m, e) && unresolved(e) == somes(o).len()
{
    let e = s.unref();
    let p = |s: TopLevelShape| s.sp_body() is Unresolved;
    assert forall|k: int| 0 <= k < e.len() implies (#[trigger] o[k] is Some) == p(e[k]) by {}
    crate::vstdx::lemma_somes_count(e, o, p);
    assert(lists(m, e));
    assert(unresolved(e) == somes(o).len());
}
pub broadcast proof fn lemma_unresolved_push(n: int)
    requires n >= 0,
    ensures #[trigger] unresolved_notes(n + 1) == unresolved_notes(n) + seq![Note { level: IssueLevel::Error, locus: None, reporter: "NoUnresolvedReferences"@ }]
{
    assert(unresolved_notes(n + 1) =~= unresolved_notes(n) + seq![Note { level: IssueLevel::Error, locus: None, reporter: "NoUnresolvedReferences"@ }]);
}
}
@fn action::validate::[Validator for NoUnresolvedReferences]::validate
#[verus_verify]
@@entry
proof! { broadcast use lemma_since_push, lemma_since_same, lemma_unresolved; }
proof_decl! { let ghost n0 = self.issues@.len(); let ghost m = model.sp_shapes(); }
@@closure 0
#[verus_spec(r: (Option<String>) => ensures r is Some == (shape.sp_body() is Unresolved))]
@@loop 0
#[verus_spec(it => invariant n0 == old(self).issues@.len(), m == model.sp_shapes(), starts(self.issues@, old(self).issues@),
    exists|e: Seq<TopLevelShape>| #[trigger] lists(m, e) && unresolved(e) == it.seq().len(),
    since(self.issues@, n0) == unresolved_notes(it.index() as int),
    ensures exists|e: Seq<TopLevelShape>| #[trigger] lists(m, e) && since(self.issues@, n0) == unresolved_notes(unresolved(e) as int))]
@@loopbody 0
proof! { broadcast use lemma_since_push, lemma_since_same, lemma_unresolved_push; }
@@afterloop 0
proof! {
    let f = self.issues@.skip(n0 as int);
    assert(self.issues@ =~= old(self).issues@ + f);
    assert(old(self).sp_found(model, f));
}
