@item model::values::Value
#[verus_verify]
@item model::values::Number
#[verus_verify]
## derived structural clone/equality of values: trusted (vstd has no Clone contract for HashMap); on floats `==` is IEEE
## equality, which is why equality of values is kept abstract
@fn model::values::[Clone for Value]::clone
#[verus_verify(external_body)]
#[verus_spec(r => ensures r == *self)]
@fn model::values::[Clone for Number]::clone
#[verus_verify]
#[verus_spec(r => ensures r == *self)]
@fn model::values::[PartialEq for Value]::eq
#[verus_verify(external_body)]
@mod model::values
verus!{
/// `==` on values.
pub uninterp spec fn value_eq(a: Value, b: Value) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Value) -> bool { value_eq(*self, *other) }
}
}
