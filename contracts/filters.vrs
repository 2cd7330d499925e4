//@include prelude.vrs
//@use values.vrs
//@use ast.vrs
//@use paths.vrs
//@use iter.vrs
//@use stack.vrs
// C16: what a filter is called with, and what becomes of what it returns
verus! {
global size_of usize == 8;
//@include values_own.vrs
//@item src/render/core.rs FilterState
//@end
impl ValueCow<'_> {
//@fn src/value/cow.rs ValueCow::take
//@ret r
//@sub `v . clone ( )` => `vx_own(*v)`
//@sub `std :: mem :: take ( $v )` => `vx_take($v)`
//@spec
    ensures r == old(self).val()
//@end
}
impl Error {
    #[verifier::external_body]
    fn filter(reason: String) -> (r: Error) ensures r.v() == ev_filter() { unimplemented!() }
}
// an error a filter returned: it gets its place in the template from the interpreter
spec fn ev_filter() -> EV { EV { kind: EK::Filter, at: None, name: None } }

// ---------------------------------------------------------------- one argument
mod args {
use super::*;
//@item src/filters/args.rs Result
//@end
//@item src/filters/args.rs Error
//@end
//@item src/filters/args.rs Str
//@end
//@item src/filters/args.rs ListRef
//@end
//@item src/filters/args.rs MapRef
//@end
//@item src/filters/args.rs ValueRef
//@end
}
use ast::BaseExpr;
use vstd::std_specs::convert::*;
use args::{Str, ListRef, MapRef, ValueRef};
// the value cannot be passed, and the error says why: an integer that does not fit, or something of another type
spec fn refuses(fits: bool, too_big: Option<i64>, e: args::Error) -> bool {
    !fits && match too_big { Some(i) => e is TryFromInt && e->TryFromInt_1 == i, None => e is Type }
}
trait FilterArg: Sized {
    type Output<'a>;
    // the values that can be passed as this type
    spec fn fits(v: Value) -> bool;
    // an integer that would have to be of another width
    spec fn too_big(v: Value) -> Option<i64>;
    // whether the filter wants to borrow, which only works for what outlives the call
    spec fn borrows() -> bool;
    // o is v, as this type
    spec fn is<'a>(o: Self::Output<'a>, v: Value) -> bool;
    fn from_value<'a>(v: Value) -> (r: args::Result<Self::Output<'a>>)
        ensures match r {
            Ok(o) => !Self::borrows() && Self::fits(v) && Self::is(o, v),
            Err(e) => if Self::borrows() && Self::fits(v) { e is Reference } else { refuses(Self::fits(v), Self::too_big(v), e) } };
    fn from_value_ref(v: &Value) -> (r: args::Result<Self::Output<'_>>)
        ensures match r { Ok(o) => Self::fits(*v) && Self::is(o, *v), Err(e) => refuses(Self::fits(*v), Self::too_big(*v), e) };
    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> (r: args::Result<Self::Output<'a>>)
        ensures match r { Ok(o) => Self::fits(old(v).val()) && Self::is(o, old(v).val()), Err(e) => refuses(Self::fits(old(v).val()), Self::too_big(old(v).val()), e) };
}

impl FilterArg for () {
    type Output<'a> = ();
    spec fn fits(v: Value) -> bool { v is None }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: (), v: Value) -> bool { true }
//@fn src/filters/args.rs <FilterArg for ()>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ()>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ()>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for bool {
    type Output<'a> = bool;
    spec fn fits(v: Value) -> bool { v is Bool }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: bool, v: Value) -> bool { v == Value::Bool(o) }
//@fn src/filters/args.rs <FilterArg for bool>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for bool>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for bool>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for u8 {
    type Output<'a> = u8;
    spec fn fits(v: Value) -> bool { v is Integer && <u8 as VxInt>::lo() <= v->Integer_0 <= <u8 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: u8, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for u8>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u8>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u8>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for u16 {
    type Output<'a> = u16;
    spec fn fits(v: Value) -> bool { v is Integer && <u16 as VxInt>::lo() <= v->Integer_0 <= <u16 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: u16, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for u16>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u16>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u16>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for u32 {
    type Output<'a> = u32;
    spec fn fits(v: Value) -> bool { v is Integer && <u32 as VxInt>::lo() <= v->Integer_0 <= <u32 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: u32, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for u32>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u32>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u32>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for u64 {
    type Output<'a> = u64;
    spec fn fits(v: Value) -> bool { v is Integer && <u64 as VxInt>::lo() <= v->Integer_0 <= <u64 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: u64, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for u64>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u64>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u64>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for u128 {
    type Output<'a> = u128;
    spec fn fits(v: Value) -> bool { v is Integer && <u128 as VxInt>::lo() <= v->Integer_0 <= <u128 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: u128, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for u128>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u128>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for u128>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for usize {
    type Output<'a> = usize;
    spec fn fits(v: Value) -> bool { v is Integer && <usize as VxInt>::lo() <= v->Integer_0 <= <usize as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: usize, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for usize>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for usize>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for usize>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for i8 {
    type Output<'a> = i8;
    spec fn fits(v: Value) -> bool { v is Integer && <i8 as VxInt>::lo() <= v->Integer_0 <= <i8 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: i8, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for i8>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i8>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i8>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for i16 {
    type Output<'a> = i16;
    spec fn fits(v: Value) -> bool { v is Integer && <i16 as VxInt>::lo() <= v->Integer_0 <= <i16 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: i16, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for i16>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i16>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i16>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for i32 {
    type Output<'a> = i32;
    spec fn fits(v: Value) -> bool { v is Integer && <i32 as VxInt>::lo() <= v->Integer_0 <= <i32 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: i32, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for i32>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i32>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i32>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for i64 {
    type Output<'a> = i64;
    spec fn fits(v: Value) -> bool { v is Integer && <i64 as VxInt>::lo() <= v->Integer_0 <= <i64 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: i64, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for i64>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i64>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i64>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for isize {
    type Output<'a> = isize;
    spec fn fits(v: Value) -> bool { v is Integer && <isize as VxInt>::lo() <= v->Integer_0 <= <isize as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: isize, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for isize>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for isize>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for isize>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for i128 {
    type Output<'a> = i128;
    spec fn fits(v: Value) -> bool { v is Integer && <i128 as VxInt>::lo() <= v->Integer_0 <= <i128 as VxInt>::hi() }
    spec fn too_big(v: Value) -> Option<i64> { match v { Value::Integer(i) => Some(i), _ => None } }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: i128, v: Value) -> bool { v is Integer && v->Integer_0 as int == o as int }
//@fn src/filters/args.rs <FilterArg for i128>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i128>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for i128>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for f32 {
    type Output<'a> = f32;
    spec fn fits(v: Value) -> bool { v is Float }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: f32, v: Value) -> bool { o == f64_as_f32(v->Float_0) }
//@fn src/filters/args.rs <FilterArg for f32>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for f32>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for f32>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for f64 {
    type Output<'a> = f64;
    spec fn fits(v: Value) -> bool { v is Float }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: f64, v: Value) -> bool { v == Value::Float(o) }
//@fn src/filters/args.rs <FilterArg for f64>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for f64>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for f64>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for String {
    type Output<'a> = String;
    spec fn fits(v: Value) -> bool { v is String }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: String, v: Value) -> bool { v == Value::String(o) }
//@fn src/filters/args.rs <FilterArg for String>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for String>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for String>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for Str {
    type Output<'a> = &'a str;
    spec fn fits(v: Value) -> bool { v is String }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { true }
    spec fn is<'a>(o: &'a str, v: Value) -> bool { v is String && sbytes(v->String_0) == bs(o) }
//@fn src/filters/args.rs <FilterArg for Str>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Str>::from_value_ref
//@trait
//@sub `Ok ( s )` => `Ok(vx_as_str(s))`
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Str>::from_cow_mut
//@trait
//@sub `Ok ( s )` => `Ok(vx_as_str(s))`
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for Vec<Value> {
    type Output<'a> = Vec<Value>;
    spec fn fits(v: Value) -> bool { v is List }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: Vec<Value>, v: Value) -> bool { v == Value::List(o) }
//@fn src/filters/args.rs <FilterArg for Vec<Value>>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Vec<Value>>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Vec<Value>>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for ListRef {
    type Output<'a> = &'a [Value];
    spec fn fits(v: Value) -> bool { v is List }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { true }
    spec fn is<'a>(o: &'a [Value], v: Value) -> bool { v is List && v->List_0@ == o@ }
//@fn src/filters/args.rs <FilterArg for ListRef>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ListRef>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ListRef>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for BTreeMap<String, Value> {
    type Output<'a> = BTreeMap<String, Value>;
    spec fn fits(v: Value) -> bool { v is Map }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: BTreeMap<String, Value>, v: Value) -> bool { v == Value::Map(o) }
//@fn src/filters/args.rs <FilterArg for BTreeMap<String,Value>>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for BTreeMap<String,Value>>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for BTreeMap<String,Value>>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for MapRef {
    type Output<'a> = &'a BTreeMap<String, Value>;
    spec fn fits(v: Value) -> bool { v is Map }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { true }
    spec fn is<'a>(o: &'a BTreeMap<String, Value>, v: Value) -> bool { v == Value::Map(*o) }
//@fn src/filters/args.rs <FilterArg for MapRef>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for MapRef>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for MapRef>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for Value {
    type Output<'a> = Value;
    spec fn fits(v: Value) -> bool { true }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { false }
    spec fn is<'a>(o: Value, v: Value) -> bool { v == o }
//@fn src/filters/args.rs <FilterArg for Value>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Value>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for Value>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}
impl FilterArg for ValueRef {
    type Output<'a> = &'a Value;
    spec fn fits(v: Value) -> bool { true }
    spec fn too_big(v: Value) -> Option<i64> { None }
    spec fn borrows() -> bool { true }
    spec fn is<'a>(o: &'a Value, v: Value) -> bool { v == *o }
//@fn src/filters/args.rs <FilterArg for ValueRef>::from_value
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ValueRef>::from_value_ref
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
//@fn src/filters/args.rs <FilterArg for ValueRef>::from_cow_mut
//@trait
//@maperr
//@sub `( * $x_id ) . try_into ( )` => `vx_try_into(*$x_id)`
//@sub `$x_id . try_into ( )` => `vx_try_into($x_id)`
//@sub `$t_id :: try_from ( $x )` => `vx_try_into::<_, $t_id>($x)`
//@sub `* $x_id as f32` => `vx_f64_as_f32(*$x_id)`
//@sub `* $x_id as f64` => `vx_f64_as_f64(*$x_id)`
//@sub `$x_id . to_owned ( )` => `vx_own($x_id)`
//@sub `$x_id . clone ( )` => `vx_own($x_id)`
//@sub `( _ : Value )` => `(vx_x: Value)`
//@sub `Result <` => `args::Result<`
//@sub `Error ::` => `args::Error::`
//@end
}

// ---------------------------------------------------------------- the arguments of a call
// the value written as an argument
spec fn arg_value<'a>(st: Seq<AS<'a>>, s: Seq<u8>, e: ast::BaseExpr) -> std::result::Result<Value, EV> {
    match e { ast::BaseExpr::Var(v) => var_value(st, s, v), ast::BaseExpr::Literal(l) => Ok(l.value) }
}
// o is what was written, as a T
spec fn arg_is<'a, 'b, T: FilterArg>(st: Seq<AS<'a>>, s: Seq<u8>, e: ast::BaseExpr, o: T::Output<'b>) -> bool {
    arg_value(st, s, e) is Ok && T::fits(arg_value(st, s, e)->Ok_0) && T::is(o, arg_value(st, s, e)->Ok_0)
}
// x is what is wrong with what was written: it has no value, or one that cannot be passed as T
spec fn arg_wrong<'a, T: FilterArg>(st: Seq<AS<'a>>, s: Seq<u8>, e: ast::BaseExpr, x: EV) -> bool {
    match arg_value(st, s, e) {
        Err(y) => x == y,
        Ok(v) => x == ev(EK::Render, s, base_span(e)) && (!T::fits(v) || T::borrows() && e is Var),
    }
}
// nothing is wrong with it (what is borrowed may still not live long enough)
spec fn arg_fine<'a, T: FilterArg>(st: Seq<AS<'a>>, s: Seq<u8>, e: ast::BaseExpr) -> bool {
    arg_value(st, s, e) is Ok && T::fits(arg_value(st, s, e)->Ok_0)
}
//@fn src/filters/mod.rs check_args
//@ret r
//@spec
    requires span_ok(bs(state.source), state.filter.span)
    ensures state.args@.len() == exp ==> r is Ok, state.args@.len() != exp ==> err_at(r, EK::Render, bs(state.source), state.filter.span)
//@end
//@fn src/filters/mod.rs get_arg
//@ret r
//@maperr
//@try
//@spec
    requires i < args@.len(), wf_args(bs(source), args@)
    ensures match r { Ok(o) => arg_is::<T>(stack.av(), bs(source), args@[i as int], o), Err(e) => arg_wrong::<T>(stack.av(), bs(source), args@[i as int], e.v()) }
//@start
    proof { assert(wf_base(bs(source), args@[i as int])); if args@[i as int] is Var { lemma_combined_ok(bs(source), args@[i as int]->Var_0.path@[0].span, args@[i as int]->Var_0.path@.last().span); } }
//@end
//@fn src/filters/mod.rs err_expected_arg
//@ret r
//@spec
    requires span_ok(bs(source), span)
    ensures r.v() == ev(EK::Render, bs(source), span)
//@end
//@fn src/filters/mod.rs err_expected_val
//@ret r
//@spec
    requires span_ok(bs(source), span), !(err is Reference)
    ensures r.v() == ev(EK::Render, bs(source), span)
//@end

// what a call is made with
ghost struct Call<'a> { st: Seq<AS<'a>>, s: Seq<u8>, name: Span, v: Value, args: Seq<ast::BaseExpr> }
spec fn call_of<'a>(s: FilterState<'a>) -> Call<'a> { Call { st: s.stack.av(), s: bs(s.source), name: s.filter.span, v: s.value.val(), args: s.args@ } }
spec fn wf_call<'a>(s: FilterState<'a>) -> bool { span_ok(bs(s.source), s.filter.span) && wf_args(bs(s.source), s.args@) }
trait FilterArgs: Sized {
    type Output<'a>;
    // how many arguments are written
    spec fn arity() -> nat;
    // o is the piped value and the arguments, in the order written, each as its type
    spec fn are<'a, 'b>(c: Call<'a>, o: Self::Output<'b>) -> bool;
    // x is what is wrong with the value or an argument
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool;
    fn from_state(state: FilterState<'_>) -> (r: Result<Self::Output<'_>>)
        requires wf_call(state)
        ensures match r {
            Ok(o) => state.args@.len() == Self::arity() && Self::are(call_of(state), o),
            Err(e) => if state.args@.len() != Self::arity() { e.v() == ev(EK::Render, bs(state.source), state.filter.span) } else { Self::wrong(call_of(state), e.v()) } };
}

impl<V> FilterArgs for (V,) where V: FilterArg {
    type Output<'a> = (V::Output<'a>,);
    spec fn arity() -> nat { 0 }
    spec fn are<'a, 'b>(c: Call<'a>, o: (V::Output<'b>,)) -> bool { V::fits(c.v) && V::is(o.0, c.v) }
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool { (x == ev(EK::Render, c.s, c.name) && !V::fits(c.v)) }
//@fn src/filters/mod.rs <FilterArgs for (V,)>::from_state
//@trait
//@maperr
//@try
//@end
}
impl<V, A> FilterArgs for (V, A) where V: FilterArg, A: FilterArg {
    type Output<'a> = (V::Output<'a>, A::Output<'a>);
    spec fn arity() -> nat { 1 }
    spec fn are<'a, 'b>(c: Call<'a>, o: (V::Output<'b>, A::Output<'b>)) -> bool { V::fits(c.v) && V::is(o.0, c.v) && arg_is::<A>(c.st, c.s, c.args[0], o.1) }
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool { (x == ev(EK::Render, c.s, c.name) && !V::fits(c.v)) || (V::fits(c.v) && arg_wrong::<A>(c.st, c.s, c.args[0], x)) }
//@fn src/filters/mod.rs <FilterArgs for (V,A)>::from_state
//@trait
//@maperr
//@try
//@end
}
impl<V, A, B> FilterArgs for (V, A, B) where V: FilterArg, A: FilterArg, B: FilterArg {
    type Output<'a> = (V::Output<'a>, A::Output<'a>, B::Output<'a>);
    spec fn arity() -> nat { 2 }
    spec fn are<'a, 'b>(c: Call<'a>, o: (V::Output<'b>, A::Output<'b>, B::Output<'b>)) -> bool { V::fits(c.v) && V::is(o.0, c.v) && arg_is::<A>(c.st, c.s, c.args[0], o.1) && arg_is::<B>(c.st, c.s, c.args[1], o.2) }
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool { (x == ev(EK::Render, c.s, c.name) && !V::fits(c.v)) || (V::fits(c.v) && arg_wrong::<A>(c.st, c.s, c.args[0], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_wrong::<B>(c.st, c.s, c.args[1], x)) }
//@fn src/filters/mod.rs <FilterArgs for (V,A,B)>::from_state
//@trait
//@maperr
//@try
//@end
}
impl<V, A, B, C> FilterArgs for (V, A, B, C) where V: FilterArg, A: FilterArg, B: FilterArg, C: FilterArg {
    type Output<'a> = (V::Output<'a>, A::Output<'a>, B::Output<'a>, C::Output<'a>);
    spec fn arity() -> nat { 3 }
    spec fn are<'a, 'b>(c: Call<'a>, o: (V::Output<'b>, A::Output<'b>, B::Output<'b>, C::Output<'b>)) -> bool { V::fits(c.v) && V::is(o.0, c.v) && arg_is::<A>(c.st, c.s, c.args[0], o.1) && arg_is::<B>(c.st, c.s, c.args[1], o.2) && arg_is::<C>(c.st, c.s, c.args[2], o.3) }
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool { (x == ev(EK::Render, c.s, c.name) && !V::fits(c.v)) || (V::fits(c.v) && arg_wrong::<A>(c.st, c.s, c.args[0], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_wrong::<B>(c.st, c.s, c.args[1], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_fine::<B>(c.st, c.s, c.args[1]) && arg_wrong::<C>(c.st, c.s, c.args[2], x)) }
//@fn src/filters/mod.rs <FilterArgs for (V,A,B,C)>::from_state
//@trait
//@maperr
//@try
//@end
}
impl<V, A, B, C, D> FilterArgs for (V, A, B, C, D) where V: FilterArg, A: FilterArg, B: FilterArg, C: FilterArg, D: FilterArg {
    type Output<'a> = (V::Output<'a>, A::Output<'a>, B::Output<'a>, C::Output<'a>, D::Output<'a>);
    spec fn arity() -> nat { 4 }
    spec fn are<'a, 'b>(c: Call<'a>, o: (V::Output<'b>, A::Output<'b>, B::Output<'b>, C::Output<'b>, D::Output<'b>)) -> bool { V::fits(c.v) && V::is(o.0, c.v) && arg_is::<A>(c.st, c.s, c.args[0], o.1) && arg_is::<B>(c.st, c.s, c.args[1], o.2) && arg_is::<C>(c.st, c.s, c.args[2], o.3) && arg_is::<D>(c.st, c.s, c.args[3], o.4) }
    spec fn wrong<'a>(c: Call<'a>, x: EV) -> bool { (x == ev(EK::Render, c.s, c.name) && !V::fits(c.v)) || (V::fits(c.v) && arg_wrong::<A>(c.st, c.s, c.args[0], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_wrong::<B>(c.st, c.s, c.args[1], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_fine::<B>(c.st, c.s, c.args[1]) && arg_wrong::<C>(c.st, c.s, c.args[2], x)) || (V::fits(c.v) && arg_fine::<A>(c.st, c.s, c.args[0]) && arg_fine::<B>(c.st, c.s, c.args[1]) && arg_fine::<C>(c.st, c.s, c.args[2]) && arg_wrong::<D>(c.st, c.s, c.args[3], x)) }
//@fn src/filters/mod.rs <FilterArgs for (V,A,B,C,D)>::from_state
//@trait
//@maperr
//@try
//@end
}

// ---------------------------------------------------------------- the call
trait FilterReturn: Sized {
    // the value that continues, or the error
    spec fn gives(self) -> std::result::Result<Value, EV>;
    spec fn known() -> bool;
    fn to_value(self) -> (r: Result<Value>)
        ensures Self::known() ==> match self.gives() { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0.v() == e };
}
trait FilterError: Sized {
    fn to_error(self) -> (r: Error) ensures r.v() == ev_filter();
}
impl FilterError for String {
//@fn src/filters/mod.rs <FilterError for String>::to_error
//@trait
//@end
}
impl FilterError for &str {
//@fn src/filters/mod.rs <FilterError for &str>::to_error
//@trait
//@sub `Error :: filter ( self )` => `Error::filter(vx_to_owned(self))`
//@end
}
impl<T> FilterReturn for T where T: Into<Value> {
    spec fn gives(self) -> std::result::Result<Value, EV> { Ok(<T as IntoSpec<Value>>::into_spec(self)) }
    spec fn known() -> bool { <T as IntoSpec<Value>>::obeys_into_spec() }
//@fn src/filters/mod.rs <FilterReturn for T>::to_value
//@trait
//@end
}
impl<T, E> FilterReturn for std::result::Result<T, E> where T: Into<Value>, E: FilterError {
    spec fn gives(self) -> std::result::Result<Value, EV> { match self { Ok(t) => Ok(<T as IntoSpec<Value>>::into_spec(t)), Err(_) => Err(ev_filter()) } }
    spec fn known() -> bool { <T as IntoSpec<Value>>::obeys_into_spec() }
//@fn src/filters/mod.rs <FilterReturn for std::result::Result<T,E>>::to_value
//@trait
//@maperr
//@sub `self . map ( Into :: into )` => `(match self { Ok(vx_v) => Ok(vx_v.into()), Err(vx_e) => Err(vx_e) })`
//@end
}
trait Filter<R, A> where A: FilterArgs {
    // the function can be called with these arguments / may answer r
    spec fn may<'a>(&self, args: <A as FilterArgs>::Output<'a>) -> bool;
    spec fn says<'a>(&self, args: <A as FilterArgs>::Output<'a>, r: R) -> bool;
    fn filter(&self, args: <A as FilterArgs>::Output<'_>) -> (r: R) requires self.may(args) ensures self.says(args, r);
}
//@impls src/filters/mod.rs <Filter<.*> for Func>::filter
//@spec
    spec fn may<'a>(&self, args: $T) -> bool { self.requires(args) }
    spec fn says<'a>(&self, args: $T, r: R) -> bool { self.ensures(args, r) }
//@end
//@impls src/filters/impls.rs <Filter<.*> for Func>::filter
//@spec
    spec fn may<'a>(&self, args: $T) -> bool { self.requires(args) }
    spec fn says<'a>(&self, args: $T, r: R) -> bool { self.ensures(args, r) }
//@end

// a function is called with the value and the arguments, converted, and what it returns continues
spec fn continues<R: FilterReturn>(ret: R, r: Result<Value>) -> bool {
    R::known() ==> match ret.gives() { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0.v() == e }
}
//@fn src/filters/mod.rs new
//@name call_filter
//@sig fn call_filter<F, R, A>(f: F, state: FilterState<'_>) -> Result<Value> where F: Filter<R, A>, R: FilterReturn, A: FilterArgs
//@ret r
//@sub `Box :: new ( move | state : FilterState < '_ > | -> Result < Value > { $b } )` => `$b`
//@try
//@spec
    requires wf_call(state), forall|a: A::Output<'_>| f.may(a)
    ensures
        state.args@.len() != A::arity() ==> err_at(r, EK::Render, bs(state.source), state.filter.span),
        state.args@.len() == A::arity() ==>
            (r is Err && A::wrong(call_of(state), r->Err_0.v())) || (exists|o: A::Output<'_>, ret: R| #[trigger] f.says(o, ret) && A::are(call_of(state), o) && continues(ret, r))
//@end
} // verus!
//@include from.vrs
