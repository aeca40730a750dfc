@include message.vc
@for C16 C17 C18 C27
@item action::IssueLevel
#[verus_verify]
@item action::ActionIssue
#[verus_verify]
@fn action::[PartialOrd for IssueLevel]::partial_cmp
#[verus_verify(external_body)]
@mod action
verus!{
/// what an issue says: its level and where it is
pub struct Note { pub level: IssueLevel, pub locus: Option<ShapeID>, pub reporter: Seq<char> }
impl ActionIssue {
    pub closed spec fn sp_level(self) -> IssueLevel { self.level }
    pub closed spec fn sp_locus(self) -> Option<ShapeID> { self.locus }
    pub closed spec fn sp_reporter(self) -> Seq<char> { self.reporter@ }
    pub closed spec fn sp_message(self) -> Seq<char> { self.message@ }
    pub open spec fn sp_note(self) -> Note { Note { level: self.sp_level(), locus: self.sp_locus(), reporter: self.sp_reporter() } }
}
pub open spec fn notes(s: Seq<ActionIssue>) -> Seq<Note> { s.map_values(|i: ActionIssue| i.sp_note()) }
pub open spec fn rank(l: IssueLevel) -> int { match l { IssueLevel::Info => 0, IssueLevel::Warning => 1, IssueLevel::Error => 2 } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for IssueLevel {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &IssueLevel) -> Option<core::cmp::Ordering> {
        if rank(*self) < rank(*other) { Some(core::cmp::Ordering::Less) } else if rank(*self) > rank(*other) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for IssueLevel {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &IssueLevel) -> bool { *self == *other }
}
}
@fn action::[PartialEq for IssueLevel]::eq
#[verus_verify(external_body)]
@foreach F L : new None ; new_at Some(locus) .
@fn action::ActionIssue::$F
#[verus_spec(r => requires message@.len() > 0,
    ensures r.sp_level() == level, r.sp_reporter() == reporter@, r.sp_message() == message@, r.sp_locus() == $L)]
@end
@foreach F V L : info Info None ; info_at Info Some(locus) ; warning Warning None ; warning_at Warning Some(locus) ; error Error None ; error_at Error Some(locus) .
@fn action::ActionIssue::$F
#[verus_spec(r => requires message@.len() > 0,
    ensures r.sp_level() == IssueLevel::$V, r.sp_reporter() == reporter@, r.sp_message() == message@, r.sp_locus() == $L)]
@end
@fn action::ActionIssue::reporter
#[verus_spec(r => ensures r@ == self.sp_reporter())]
@fn action::ActionIssue::level
#[verus_spec(r => ensures *r == self.sp_level())]
@fn action::ActionIssue::message
#[verus_spec(r => ensures r@ == self.sp_message())]
@fn action::ActionIssue::locus
#[verus_spec(r => ensures *r == self.sp_locus())]
@for C17
@trait action::Action
#[verus_verify]
@@body
verus_builtin_macros::verus_trait_impl!{ spec fn sp_issues(&self) -> Seq<ActionIssue>; spec fn sp_label(&self) -> Seq<char>; }
@fn action::Action::label
#[verus_spec(r => ensures r@ == self.sp_label())]
@fn action::Action::issues
#[verus_spec(r => ensures r@ == self.sp_issues())]
@fn action::Action::issues_mut
#[verus_spec(r => ensures r@ == old(self).sp_issues(), final(self).sp_issues() == final(r)@)]
@foreach T F : Validator validate ; Linter check .
@trait action::$T
#[verus_verify]
@@body
/// `found` is what the action may find in the model; `fails`: the action itself fails.
verus_builtin_macros::verus_trait_impl!{ spec fn sp_found(&self, model: &Model, found: Seq<ActionIssue>) -> bool; spec fn sp_fails(&self, model: &Model) -> bool; }
@fn action::$T::$F
#[verus_spec(r => ensures
    r is Err <==> old(self).sp_fails(model),
    r is Ok ==> exists|f: Seq<ActionIssue>| #[trigger] old(self).sp_found(model, f) && final(self).sp_issues() == old(self).sp_issues() + f)]
@end
