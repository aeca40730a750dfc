@include traitq.vc
@include issues.vc
@for C17
@foreach M T F R P : validate Validator validate run_validation_actions validators ; lint Linter check run_linter_actions linters .
@mod action::$M
verus!{
/// one action's part of a report: what it held before and what it found
pub open spec fn reported<V: $T + ?Sized>(v: Box<V>, model: &Model, part: Seq<ActionIssue>) -> bool {
    !v.sp_fails(model) && exists|f: Seq<ActionIssue>| #[trigger] v.sp_found(model, f) && part == v.sp_issues() + f
}
pub open spec fn parts_of<V: $T + ?Sized>(vs: Seq<Box<V>>, n: int, model: &Model, fail_fast: bool, parts: Seq<Seq<ActionIssue>>) -> bool {
    parts.len() == n && forall|i: int| 0 <= i < n ==> reported(vs[i], model, #[trigger] parts[i]) && !(fail_fast && has_error(parts[i]))
}
/// `out` is what the first `n` actions report, in order, each once, and none of them makes the run stop
pub open spec fn ran<V: $T + ?Sized>(vs: Seq<Box<V>>, n: int, model: &Model, fail_fast: bool, out: Seq<ActionIssue>) -> bool {
    exists|parts: Seq<Seq<ActionIssue>>| #[trigger] parts_of(vs, n, model, fail_fast, parts) && parts.flatten() == out
}
pub broadcast proof fn lemma_ran_none<V: $T + ?Sized>(vs: Seq<Box<V>>, model: &Model, fail_fast: bool, out: Seq<ActionIssue>)
    requires out.len() == 0,
    ensures #[trigger] ran(vs, 0, model, fail_fast, out)
{
    let p = Seq::<Seq<ActionIssue>>::empty();
    assert(p.flatten() =~= out);
    assert(parts_of(vs, 0, model, fail_fast, p));
}
/// `v`, run after the others reported `prev`, made the run stop
pub open spec fn stops<V: $T + ?Sized>(v: Box<V>, model: &Model, fail_fast: bool, prev: Seq<ActionIssue>, out: Seq<ActionIssue>) -> bool {
    fail_fast && !v.sp_fails(model) && exists|f: Seq<ActionIssue>| #[trigger] v.sp_found(model, f) && out == prev + (v.sp_issues() + f) && has_error(v.sp_issues() + f)
}
pub broadcast proof fn lemma_ran_step<V: $T + ?Sized>(vs: Seq<Box<V>>, n: int, model: &Model, fail_fast: bool, prev: Seq<ActionIssue>, f: Seq<ActionIssue>)
    requires n >= 0, #[trigger] ran(vs, n, model, fail_fast, prev), #[trigger] vs[n].sp_found(model, f), !vs[n].sp_fails(model), !(fail_fast && has_error(vs[n].sp_issues() + f)),
    ensures ran(vs, n + 1, model, fail_fast, prev + (vs[n].sp_issues() + f))
{
    let parts = choose|parts: Seq<Seq<ActionIssue>>| #[trigger] parts_of(vs, n, model, fail_fast, parts) && parts.flatten() == prev;
    let p = vs[n].sp_issues() + f;
    parts.lemma_flatten_push(p);
    assert(parts_of(vs, n + 1, model, fail_fast, parts.push(p)));
}
pub open spec fn has_error(s: Seq<ActionIssue>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sp_level() is Error }
}
@fn action::$M::$R
#[verus_spec(r => ensures match r {
    Ok(found) => ran(old($P)@, old($P)@.len() as int, model, fail_fast, found@)
        || exists|n: int, prev: Seq<ActionIssue>| 0 <= n < old($P)@.len() && #[trigger] ran(old($P)@, n, model, fail_fast, prev)
            && stops(old($P)@[n], model, fail_fast, prev, found@),
    Err(_) => exists|n: int, prev: Seq<ActionIssue>| 0 <= n < old($P)@.len() && #[trigger] ran(old($P)@, n, model, fail_fast, prev) && old($P)@[n].sp_fails(model) })]
@@generic
@@entry
proof! { broadcast use lemma_ran_none; }
@@loop 0
#[verus_spec(it => invariant
    it.seq().len() == old($P)@.len(),
    forall|i: int| #![trigger it.seq()[i]] #![trigger old($P)@[i]] 0 <= i < old($P)@.len() ==> *it.seq()[i] == old($P)@[i],
  invariant_except_break
    ran(old($P)@, it.index() as int, model, fail_fast, issues@),
  ensures
    ran(old($P)@, old($P)@.len() as int, model, fail_fast, issues@)
        || exists|n: int, prev: Seq<ActionIssue>| 0 <= n < old($P)@.len() && #[trigger] ran(old($P)@, n, model, fail_fast, prev)
            && stops(old($P)@[n], model, fail_fast, prev, issues@))]
@@loopbody 0
proof! { broadcast use crate::vstdx::group_slice_iters, lemma_ran_step; }
@@closure 0
#[verus_spec(b: bool => ensures b == (issue.sp_level() is Error))]
@end
