## the text of the version
@for C26
@crate
use crate::vstdf::VxWrite as _;
pub mod vx_version {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
use crate::Version;
verus!{
pub open spec fn version_text(v: Version) -> Seq<char> { "1.0"@ }
impl crate::vstdf::VxText for Version { open spec fn vx_text(&self) -> Seq<char> { version_text(*self) } }
/// the texts read as that version
pub open spec fn is_version_text(v: Version, s: Seq<char>) -> bool { s == "1"@ || s == "1.0"@ }
pub proof fn C26_version_round_trip(v: Version) ensures is_version_text(v, version_text(v)) {}
}
}
@fn [Display for Version]::fmt
#[verus_spec(r => ensures r is Ok ==> crate::vstdf::written(*final(f)) =~= crate::vstdf::written(*old(f)) + crate::vx_version::version_text(*self))]
@fn [FromStr for Version]::from_str
#[verus_spec(r => ensures match r { Ok(v) => crate::vx_version::is_version_text(v, s@), Err(_) => forall|v: Version| !#[trigger] crate::vx_version::is_version_text(v, s@) })]
