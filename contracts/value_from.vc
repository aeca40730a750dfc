## Values of the kinds of data they hold.
@for C09 C11 C12
@foreach T V : i64 Integer ; f64 Float .
@fn model::values::[From<$T> for Number]::from
#[verus_verify]
#[verus_spec(r => ensures r == Number::$V(n))]
@fn model::values::[From<$T> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Number(Number::$V(n)))]
@mod model::values
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for Number {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Number { Number::$V(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<$T> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Value { Value::Number(Number::$V(v)) }
}
}
@end
@foreach T V : bool Boolean ; String String ; Vec<Value> Array ; HashMap<String,Value> Object .
@mod model::values
verus!{
impl vstd::std_specs::convert::FromSpecImpl<$T> for Value {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Value { Value::$V(v) }
}
}
@end
@fn model::values::[From<bool> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Boolean(b))]
@fn model::values::[From<String> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::String(v))]
@fn model::values::[From<Vec<Value>> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Array(v))]
@fn model::values::[From<HashMap<String,Value>> for Value]::from
#[verus_verify]
#[verus_spec(r => ensures r == Value::Object(v))]
