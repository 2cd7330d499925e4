// TRUSTED: Clone of a value, string, list or map is equal to it
#[verifier::external_body]
fn vx_own<T>(v: &T) -> (r: T) ensures r == *v { unimplemented!() }
// TRUSTED: mem::take
#[verifier::external_body]
fn vx_take(v: &mut Value) -> (r: Value) ensures r == *old(v), *final(v) == Value::None { unimplemented!() }
// TRUSTED: From and TryFrom between the integer types keep the value, or refuse what does not fit
trait VxInt: Sized { spec fn int(self) -> int; spec fn lo() -> int; spec fn hi() -> int; }
impl VxInt for u8 { spec fn int(self) -> int { self as int } spec fn lo() -> int { u8::MIN as int } spec fn hi() -> int { u8::MAX as int } }
impl VxInt for u16 { spec fn int(self) -> int { self as int } spec fn lo() -> int { u16::MIN as int } spec fn hi() -> int { u16::MAX as int } }
impl VxInt for u32 { spec fn int(self) -> int { self as int } spec fn lo() -> int { u32::MIN as int } spec fn hi() -> int { u32::MAX as int } }
impl VxInt for u64 { spec fn int(self) -> int { self as int } spec fn lo() -> int { u64::MIN as int } spec fn hi() -> int { u64::MAX as int } }
impl VxInt for u128 { spec fn int(self) -> int { self as int } spec fn lo() -> int { u128::MIN as int } spec fn hi() -> int { u128::MAX as int } }
impl VxInt for usize { spec fn int(self) -> int { self as int } spec fn lo() -> int { usize::MIN as int } spec fn hi() -> int { usize::MAX as int } }
impl VxInt for i8 { spec fn int(self) -> int { self as int } spec fn lo() -> int { i8::MIN as int } spec fn hi() -> int { i8::MAX as int } }
impl VxInt for i16 { spec fn int(self) -> int { self as int } spec fn lo() -> int { i16::MIN as int } spec fn hi() -> int { i16::MAX as int } }
impl VxInt for i32 { spec fn int(self) -> int { self as int } spec fn lo() -> int { i32::MIN as int } spec fn hi() -> int { i32::MAX as int } }
impl VxInt for i64 { spec fn int(self) -> int { self as int } spec fn lo() -> int { i64::MIN as int } spec fn hi() -> int { i64::MAX as int } }
impl VxInt for isize { spec fn int(self) -> int { self as int } spec fn lo() -> int { isize::MIN as int } spec fn hi() -> int { isize::MAX as int } }
impl VxInt for i128 { spec fn int(self) -> int { self as int } spec fn lo() -> int { i128::MIN as int } spec fn hi() -> int { i128::MAX as int } }
struct VxTooBig;
#[verifier::external_body]
fn vx_try_into<A: VxInt, B: VxInt>(a: A) -> (r: std::result::Result<B, VxTooBig>)
    ensures r is Ok <==> B::lo() <= a.int() <= B::hi(), r is Ok ==> r->Ok_0.int() == a.int()
{ unimplemented!() }
#[verifier::external_body]
fn vx_i64_from<A: VxInt>(a: A) -> (r: i64) requires i64::MIN <= a.int() <= i64::MAX ensures r as int == a.int() { unimplemented!() }
// TRUSTED: the float casts
pub uninterp spec fn f64_as_f32(x: f64) -> f32;
#[verifier::external_body]
fn vx_f64_as_f32(x: f64) -> (r: f32) ensures r == f64_as_f32(x) { x as f32 }
#[verifier::external_body]
fn vx_f64_as_f64(x: f64) -> (r: f64) ensures r == x { x }
pub uninterp spec fn f32_as_f64(x: f32) -> f64;
#[verifier::external_body]
fn vx_f32_as_f64(x: f32) -> (r: f64) ensures r == f32_as_f64(x) { x as f64 }
// the String with this text (TRUSTED: Strings with the same text are equal)
pub uninterp spec fn string_of(s: &str) -> String;
#[verifier::external_body]
fn vx_string_of(s: &str) -> (r: String) ensures r == string_of(s), sbytes(r) == bs(s) { unimplemented!() }
