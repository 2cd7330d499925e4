// What becomes a value, and how (the conversions a filter's answer and user data go through)
verus! {
impl FromSpecImpl<u8> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u8) -> Value { Value::Integer(v as i64) } }
impl From<u8> for Value {
//@fn src/value/from.rs <From<u8> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<u16> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> Value { Value::Integer(v as i64) } }
impl From<u16> for Value {
//@fn src/value/from.rs <From<u16> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<u32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u32) -> Value { Value::Integer(v as i64) } }
impl From<u32> for Value {
//@fn src/value/from.rs <From<u32> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<i8> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i8) -> Value { Value::Integer(v as i64) } }
impl From<i8> for Value {
//@fn src/value/from.rs <From<i8> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<i16> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i16) -> Value { Value::Integer(v as i64) } }
impl From<i16> for Value {
//@fn src/value/from.rs <From<i16> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<i32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i32) -> Value { Value::Integer(v as i64) } }
impl From<i32> for Value {
//@fn src/value/from.rs <From<i32> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<i64> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: i64) -> Value { Value::Integer(v as i64) } }
impl From<i64> for Value {
//@fn src/value/from.rs <From<i64> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `i64 :: from ( $x )` => `vx_i64_from($x)`
//@end
}
impl FromSpecImpl<()> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ()) -> Value { Value::None } }
impl From<()> for Value {
//@fn src/value/from.rs <From<()> for Value>::from
//@trait
//@sub `( _ : ( ) )` => `(vx_x: ())`
//@sub `Self ::` => `Value::`
//@end
}
impl FromSpecImpl<bool> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: bool) -> Value { Value::Bool(v) } }
impl From<bool> for Value {
//@fn src/value/from.rs <From<bool> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@end
}
impl FromSpecImpl<f64> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f64) -> Value { Value::Float(v) } }
impl From<f64> for Value {
//@fn src/value/from.rs <From<f64> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `f64 :: from ( $x )` => `vx_f64_as_f64($x)`
//@end
}
impl FromSpecImpl<f32> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: f32) -> Value { Value::Float(f32_as_f64(v)) } }
impl From<f32> for Value {
//@fn src/value/from.rs <From<f32> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `f64 :: from ( $x )` => `vx_f32_as_f64($x)`
//@end
}
impl FromSpecImpl<String> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Value { Value::String(v) } }
impl From<String> for Value {
//@fn src/value/from.rs <From<String> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@end
}
impl<'a> FromSpecImpl<&'a str> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a str) -> Value { Value::String(string_of(v)) } }
impl<'a> From<&'a str> for Value {
//@fn src/value/from.rs <From<&str> for Value>::from
//@trait
//@sub `Self ::` => `Value::`
//@sub `String :: from ( $x )` => `vx_string_of($x)`
//@sub `$x_id . to_owned ( )` => `vx_string_of($x_id)`
//@sub `$x_id . to_string ( )` => `vx_string_of($x_id)`
//@end
}
// a Cow<str>, by its text
#[verifier::external_body]
struct CowStr<'a> { x: PhantomData<&'a u8> }
pub uninterp spec fn cow_string(c: CowStr<'_>) -> String;
impl<'a> CowStr<'a> { #[verifier::external_body] fn into_owned(self) -> (r: String) ensures r == cow_string(self) { unimplemented!() } }
impl<'a> FromSpecImpl<CowStr<'a>> for Value { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CowStr<'a>) -> Value { Value::String(cow_string(v)) } }
impl<'a> From<CowStr<'a>> for Value {
//@fn src/value/from.rs <From<Cow<str>> for Value>::from
//@trait
//@sub `Cow < 'a , str >` => `CowStr<'a>`
//@sub `Self ::` => `Value::`
//@end
}
impl<V> FromSpecImpl<Option<V>> for Value where V: Into<Value> {
    open spec fn obeys_from_spec() -> bool { <V as IntoSpec<Value>>::obeys_into_spec() }
    open spec fn from_spec(v: Option<V>) -> Value { match v { None => Value::None, Some(x) => <V as IntoSpec<Value>>::into_spec(x) } }
}
impl<V> From<Option<V>> for Value where V: Into<Value> {
//@fn src/value/from.rs <From<Option<V>> for Value>::from
//@trait
//@sub `Self :: None` => `Value::None`
//@end
}
// ---------------------------------------------------------------- containers
// every element, in order
spec fn list_is<V: Into<Value>>(r: Value, l: Seq<V>) -> bool {
    r is List && (<V as IntoSpec<Value>>::obeys_into_spec() ==> r->List_0@ == l.map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x)))
}
// every entry; where a key comes twice the last one stays
spec fn inserted<K: Into<String>, V: Into<Value>>(e: Seq<(K, V)>) -> Map<Seq<u8>, Value> decreases e.len() {
    if e.len() == 0 { Map::empty() } else { inserted(e.drop_last()).insert(sbytes(<K as IntoSpec<String>>::into_spec(e.last().0)), <V as IntoSpec<Value>>::into_spec(e.last().1)) }
}
spec fn map_is<K: Into<String>, V: Into<Value>>(r: Value, e: Seq<(K, V)>) -> bool {
    r is Map && (<V as IntoSpec<Value>>::obeys_into_spec() && <K as IntoSpec<String>>::obeys_into_spec() ==> vmap(r->Map_0) == inserted(e))
}
// TRUSTED: iteration over the standard containers, and BTreeMap's new and insert
trait VxItems<T>: Sized { spec fn items(self) -> Seq<T>; fn vx_items(self) -> (r: VecDeque<T>) ensures r@ == self.items(); }
impl<T> VxItems<T> for Vec<T> { spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_items(self) -> (r: VecDeque<T>) { unimplemented!() } }
impl<T, const N: usize> VxItems<T> for [T; N] { spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_items(self) -> (r: VecDeque<T>) { unimplemented!() } }
uninterp spec fn bentries<K, V>(m: BTreeMap<K, V>) -> Seq<(K, V)>;
uninterp spec fn hentries<K, V>(m: VxHashMap<K, V>) -> Seq<(K, V)>;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
struct VxHashMap<K, V> { x: PhantomData<(K, V)> }
impl<K, V> VxItems<(K, V)> for BTreeMap<K, V> { spec fn items(self) -> Seq<(K, V)> { bentries(self) } #[verifier::external_body] fn vx_items(self) -> (r: VecDeque<(K, V)>) { unimplemented!() } }
impl<K, V> VxItems<(K, V)> for VxHashMap<K, V> { spec fn items(self) -> Seq<(K, V)> { hentries(self) } #[verifier::external_body] fn vx_items(self) -> (r: VecDeque<(K, V)>) { unimplemented!() } }
//@fn src/value/from.rs <From<Vec<V>> for Value>::from
//@name from_vec
//@sig fn from_vec<V>(list: Vec<V>) -> Value where V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( Into :: into ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let mut vx_o: Vec<Value> = Vec::new(); let mut vx_l = vx_l; while vx_l.len() > 0 invariant vx_o@.len() + vx_l@.len() == vx_all.len(), vx_l@ == vx_all.skip(vx_o@.len() as int), <V as IntoSpec<Value>>::obeys_into_spec() ==> vx_o@ == vx_all.take(vx_o@.len() as int).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x)) decreases vx_l@.len() { proof { let k = vx_o@.len() as int; assert(vx_all.skip(k)[0] == vx_all[k]); assert(vx_all.skip(k).subrange(1, vx_all.len() - k) =~= vx_all.skip(k + 1)); } let ghost vx_k = vx_o@.len() as int; let vx_x = vx_l.pop_front().unwrap(); vx_o.push(vx_x.into()); proof { if <V as IntoSpec<Value>>::obeys_into_spec() { assert(vx_o@ =~= vx_all.take(vx_k + 1).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x))); } } } proof { assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures list_is(r, list.items())
//@end
//@fn src/value/from.rs <From<[V;N]> for Value>::from
//@name from_array
//@sig fn from_array<V, const N: usize>(list: [V; N]) -> Value where V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( Into :: into ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let mut vx_o: Vec<Value> = Vec::new(); let mut vx_l = vx_l; while vx_l.len() > 0 invariant vx_o@.len() + vx_l@.len() == vx_all.len(), vx_l@ == vx_all.skip(vx_o@.len() as int), <V as IntoSpec<Value>>::obeys_into_spec() ==> vx_o@ == vx_all.take(vx_o@.len() as int).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x)) decreases vx_l@.len() { proof { let k = vx_o@.len() as int; assert(vx_all.skip(k)[0] == vx_all[k]); assert(vx_all.skip(k).subrange(1, vx_all.len() - k) =~= vx_all.skip(k + 1)); } let ghost vx_k = vx_o@.len() as int; let vx_x = vx_l.pop_front().unwrap(); vx_o.push(vx_x.into()); proof { if <V as IntoSpec<Value>>::obeys_into_spec() { assert(vx_o@ =~= vx_all.take(vx_k + 1).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x))); } } } proof { assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures list_is(r, list.items())
//@end
//@fn src/value/from.rs <From<BTreeMap<K,V>> for Value>::from
//@name from_btree
//@sig fn from_btree<K, V>(map: BTreeMap<K, V>) -> Value where K: Into<String>, V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( | ( $k_id , $v_id ) | ( $a , $b ) ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let ghost mut vx_n: int = 0; let mut vx_o = vx_map_new(); let mut vx_l = vx_l; proof { assert(vx_all.take(0) =~= Seq::<(K, V)>::empty()); assert(vx_all.skip(0) =~= vx_all); } while vx_l.len() > 0 invariant 0 <= vx_n <= vx_all.len(), vx_l@ == vx_all.skip(vx_n), <V as IntoSpec<Value>>::obeys_into_spec() && <K as IntoSpec<String>>::obeys_into_spec() ==> vmap(vx_o) == inserted(vx_all.take(vx_n)) decreases vx_l@.len() { proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.skip(vx_n)[0] == vx_all[vx_n]); assert(vx_all.skip(vx_n).subrange(1, vx_all.len() - vx_n) =~= vx_all.skip(vx_n + 1)); assert(vx_all.take(vx_n + 1).drop_last() =~= vx_all.take(vx_n)); } let ($k_id, $v_id) = vx_l.pop_front().unwrap(); proof { vx_n = vx_n + 1; } vx_map_insert(&mut vx_o, $a, $b); } proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures map_is(r, map.items())
//@end
//@fn src/value/from.rs <From<HashMap<K,V>> for Value>::from
//@name from_hash
//@sig fn from_hash<K, V>(map: VxHashMap<K, V>) -> Value where K: Into<String>, V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( | ( $k_id , $v_id ) | ( $a , $b ) ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let ghost mut vx_n: int = 0; let mut vx_o = vx_map_new(); let mut vx_l = vx_l; proof { assert(vx_all.take(0) =~= Seq::<(K, V)>::empty()); assert(vx_all.skip(0) =~= vx_all); } while vx_l.len() > 0 invariant 0 <= vx_n <= vx_all.len(), vx_l@ == vx_all.skip(vx_n), <V as IntoSpec<Value>>::obeys_into_spec() && <K as IntoSpec<String>>::obeys_into_spec() ==> vmap(vx_o) == inserted(vx_all.take(vx_n)) decreases vx_l@.len() { proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.skip(vx_n)[0] == vx_all[vx_n]); assert(vx_all.skip(vx_n).subrange(1, vx_all.len() - vx_n) =~= vx_all.skip(vx_n + 1)); assert(vx_all.take(vx_n + 1).drop_last() =~= vx_all.take(vx_n)); } let ($k_id, $v_id) = vx_l.pop_front().unwrap(); proof { vx_n = vx_n + 1; } vx_map_insert(&mut vx_o, $a, $b); } proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures map_is(r, map.items())
//@end
//@fn src/value/from.rs <From<[(K,V);N]> for Value>::from
//@name from_pairs
//@sig fn from_pairs<K, V, const N: usize>(map: [(K, V); N]) -> Value where K: Into<String>, V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( | ( $k_id , $v_id ) | ( $a , $b ) ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let ghost mut vx_n: int = 0; let mut vx_o = vx_map_new(); let mut vx_l = vx_l; proof { assert(vx_all.take(0) =~= Seq::<(K, V)>::empty()); assert(vx_all.skip(0) =~= vx_all); } while vx_l.len() > 0 invariant 0 <= vx_n <= vx_all.len(), vx_l@ == vx_all.skip(vx_n), <V as IntoSpec<Value>>::obeys_into_spec() && <K as IntoSpec<String>>::obeys_into_spec() ==> vmap(vx_o) == inserted(vx_all.take(vx_n)) decreases vx_l@.len() { proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.skip(vx_n)[0] == vx_all[vx_n]); assert(vx_all.skip(vx_n).subrange(1, vx_all.len() - vx_n) =~= vx_all.skip(vx_n + 1)); assert(vx_all.take(vx_n + 1).drop_last() =~= vx_all.take(vx_n)); } let ($k_id, $v_id) = vx_l.pop_front().unwrap(); proof { vx_n = vx_n + 1; } vx_map_insert(&mut vx_o, $a, $b); } proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures map_is(r, map.items())
//@end
//@fn src/value/from.rs <FromIterator<V> for Value>::from_iter
//@name from_iter_list
//@sig fn from_iter_list<V, I>(iter: I) -> Value where I: VxItems<V>, V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( Into :: into ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let mut vx_o: Vec<Value> = Vec::new(); let mut vx_l = vx_l; while vx_l.len() > 0 invariant vx_o@.len() + vx_l@.len() == vx_all.len(), vx_l@ == vx_all.skip(vx_o@.len() as int), <V as IntoSpec<Value>>::obeys_into_spec() ==> vx_o@ == vx_all.take(vx_o@.len() as int).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x)) decreases vx_l@.len() { proof { let k = vx_o@.len() as int; assert(vx_all.skip(k)[0] == vx_all[k]); assert(vx_all.skip(k).subrange(1, vx_all.len() - k) =~= vx_all.skip(k + 1)); } let ghost vx_k = vx_o@.len() as int; let vx_x = vx_l.pop_front().unwrap(); vx_o.push(vx_x.into()); proof { if <V as IntoSpec<Value>>::obeys_into_spec() { assert(vx_o@ =~= vx_all.take(vx_k + 1).map_values(|x: V| <V as IntoSpec<Value>>::into_spec(x))); } } } proof { assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures list_is(r, iter.items())
//@end
//@fn src/value/from.rs <FromIterator<(K,V)> for Value>::from_iter
//@name from_iter_map
//@sig fn from_iter_map<K, V, I>(iter: I) -> Value where I: VxItems<(K, V)>, K: Into<String>, V: Into<Value>
//@ret r
//@sub `$x_id . into_iter ( ) . map ( | ( $k_id , $v_id ) | ( $a , $b ) ) . collect ( )` => `{ let vx_l = $x_id.vx_items(); let ghost vx_all = vx_l@; let ghost mut vx_n: int = 0; let mut vx_o = vx_map_new(); let mut vx_l = vx_l; proof { assert(vx_all.take(0) =~= Seq::<(K, V)>::empty()); assert(vx_all.skip(0) =~= vx_all); } while vx_l.len() > 0 invariant 0 <= vx_n <= vx_all.len(), vx_l@ == vx_all.skip(vx_n), <V as IntoSpec<Value>>::obeys_into_spec() && <K as IntoSpec<String>>::obeys_into_spec() ==> vmap(vx_o) == inserted(vx_all.take(vx_n)) decreases vx_l@.len() { proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.skip(vx_n)[0] == vx_all[vx_n]); assert(vx_all.skip(vx_n).subrange(1, vx_all.len() - vx_n) =~= vx_all.skip(vx_n + 1)); assert(vx_all.take(vx_n + 1).drop_last() =~= vx_all.take(vx_n)); } let ($k_id, $v_id) = vx_l.pop_front().unwrap(); proof { vx_n = vx_n + 1; } vx_map_insert(&mut vx_o, $a, $b); } proof { assert(vx_l@.len() == vx_all.len() - vx_n); assert(vx_all.take(vx_all.len() as int) =~= vx_all); } vx_o }`
//@sub `Self ::` => `Value::`
//@spec
    ensures map_is(r, iter.items())
//@end
} // verus!
