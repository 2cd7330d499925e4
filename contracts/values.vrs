// The value type, truthiness and the accessors shared by several units.
verus! {
//@item src/value/mod.rs Value
//@end
//@item src/value/cow.rs ValueCow
//@end

// TRUSTED contracts of the standard containers inside Value
uninterp spec fn vmap(m: BTreeMap<String, Value>) -> Map<Seq<u8>, Value>;
spec fn map_get(m: BTreeMap<String, Value>, k: Seq<u8>) -> Option<Value> { if vmap(m).contains_key(k) { Some(vmap(m)[k]) } else { None } }
spec fn map_len(m: BTreeMap<String, Value>) -> nat { vmap(m).len() }
#[verifier::external_body]
fn vx_map_new() -> (r: BTreeMap<String, Value>) ensures vmap(r) == Map::<Seq<u8>, Value>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_map_insert(m: &mut BTreeMap<String, Value>, k: String, v: Value) ensures vmap(*final(m)) == vmap(*old(m)).insert(sbytes(k), v) { unimplemented!() }
#[verifier::external_body]
fn vx_map_get<'a>(m: &'a BTreeMap<String, Value>, k: &str) -> (r: Option<&'a Value>)
    ensures r is Some <==> map_get(*m, bs(k)) is Some, r is Some ==> *r->Some_0 == map_get(*m, bs(k))->Some_0
{ m.get(k) }
#[verifier::external_body]
fn vx_map_is_empty(m: &BTreeMap<String, Value>) -> (r: bool) ensures r == (map_len(*m) == 0) { m.is_empty() }
uninterp spec fn f64_zero(x: f64) -> bool;
#[verifier::external_body]
fn vx_f64_is0(a: f64) -> (r: bool) ensures r == f64_zero(a) { a == 0.0 }
// TRUSTED: Value's derived Clone
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

impl<'a> ValueCow<'a> {
    pub open spec fn val(&self) -> Value { match self { ValueCow::Borrowed(v) => **v, ValueCow::Owned(v) => *v } }
}
impl<'a> std::ops::Deref for ValueCow<'a> {
    type Target = Value;
//@fn src/value/cow.rs <Deref for ValueCow>::deref
//@trait
//@ret r
//@spec
    ensures *r == self.val()
//@end
}

spec fn falsy(v: Value) -> bool {
    match v {
        Value::None => true,
        Value::Bool(b) => !b,
        Value::Integer(i) => i == 0,
        Value::Float(f) => f64_zero(f),
        Value::String(s) => sbytes(s).len() == 0,
        Value::List(l) => l@.len() == 0,
        Value::Map(m) => map_len(m) == 0,
    }
}
impl ValueCow<'_> {
//@fn src/render/value.rs ValueCow::as_bool
//@ret r
//@sub `l . is_empty ( )` => `(l.len() == 0)`
//@sub `m . is_empty ( )` => `vx_map_is_empty(m)`
//@sub `* n == 0.0` => `vx_f64_is0(*n)`
//@sub `* n != 0.0` => `!vx_f64_is0(*n)`
//@sub `0.0 == * n` => `vx_f64_is0(*n)`
//@weak `0.0`
//@weak `f64`
//@spec
    ensures r == !falsy(self.val())
//@end
}
} // verus!
