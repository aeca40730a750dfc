@fmt message action
@crate
/// Messages: `format!` with N plain pieces is verified as `vx_messageN`; only that the literals are in the text is used.
pub mod vstdm {
#![allow(unused_imports, missing_docs, dead_code)]
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub fn vx_message0(l0: &str) -> (r: String) ensures r@ == l0@ { l0.to_string() }
#[verifier::external_body]
pub fn vx_message1<A: VxShow + ?Sized>(l0: &str, a: &A, l1: &str) -> (r: String) ensures r@.len() >= l0@.len() + l1@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_message2<A: VxShow + ?Sized, B: VxShow + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str) -> (r: String)
    ensures r@.len() >= l0@.len() + l1@.len() + l2@.len()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_message3<A: VxShow + ?Sized, B: VxShow + ?Sized, C: VxShow + ?Sized>(l0: &str, a: &A, l1: &str, b: &B, l2: &str, c: &C, l3: &str) -> (r: String)
    ensures r@.len() >= l0@.len() + l1@.len() + l2@.len() + l3@.len()
{ unimplemented!() }
/// anything that is `Display`
pub trait VxShow {}
impl<T: ?Sized> VxShow for T {}
}
}
