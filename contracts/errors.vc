@item error::ErrorKind
#[verus_verify]
@item error::Error
#[verus_verify]
## error_chain's conversion: trusted to wrap the kind unchanged
@fn error::[From<ErrorKind> for Error]::from
#[verus_verify(external_body)]
#[verus_spec(r => ensures r.0 == e)]
@mod error
verus!{
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExState(::error_chain::State);
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: ErrorKind) -> Error;
}
}
@item action::ActionIssue
#[verus_verify]
@item action::IssueLevel
#[verus_verify]
