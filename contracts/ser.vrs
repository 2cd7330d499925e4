//@include prelude.vrs
//@use values.vrs
// C15: what a serializer makes of the data it is driven with
verus! {
global size_of usize == 8;
//@include values_own.vrs
//@include mapitems.vrs
// ---------------------------------------------------------------- the data model of serde
pub enum D {
    Bool(bool), Int(int), F32(f32), F64(f64), Char(char), Str(Seq<u8>), Bytes(Seq<u8>),
    Nothing, Unit, UnitStruct, UnitVariant(Seq<u8>),
    Present(Box<D>), NewtypeStruct(Box<D>), NewtypeVariant(Seq<u8>, Box<D>),
    List(Seq<D>), TupleVariant(Seq<u8>, Seq<D>),
    // keys and values side by side
    Map(Seq<D>, Seq<D>), Struct(Seq<Seq<u8>>, Seq<D>), StructVariant(Seq<u8>, Seq<Seq<u8>>, Seq<D>),
}
// the decimal digits of an integer
pub open spec fn dec(n: int) -> Seq<u8> decreases (if n < 0 { 1 - n } else { n }) {
    if n < 0 { seq![45u8] + dec(-n) } else if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}
// the string a map key becomes; None: it is rejected
spec fn key_text(d: D) -> Option<Seq<u8>> decreases d {
    match d {
        D::Int(i) => Some(dec(i)), D::Char(c) => Some(char_bytes(c)), D::Str(s) => Some(s), D::UnitVariant(n) => Some(n),
        D::NewtypeStruct(x) => key_text(*x),
        _ => None,
    }
}
spec fn key_texts(k: Seq<D>) -> Seq<Seq<u8>> { Seq::new(k.len(), |i: int| key_text(k[i])->Some_0) }
// the data that can be converted
spec fn fits(d: D) -> bool decreases d {
    match d {
        D::Int(i) => i64::MIN <= i <= i64::MAX,
        D::Present(x) => fits(*x), D::NewtypeStruct(x) => fits(*x), D::NewtypeVariant(_, x) => fits(*x),
        D::List(s) => forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]),
        D::TupleVariant(_, s) => forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]),
        D::Map(k, s) => k.len() == s.len() && (forall|i: int| 0 <= i < k.len() ==> key_text(#[trigger] k[i]) is Some) && forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]),
        D::Struct(k, s) => forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]),
        D::StructVariant(_, k, s) => forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]),
        _ => true,
    }
}
spec fn last_of(k: Seq<Seq<u8>>, i: int) -> bool { forall|j: int| i < j < k.len() ==> #[trigger] k[j] != k[i] }
// a map whose only entry is (n, x)
spec fn is_tagged(v: Value, n: Seq<u8>) -> bool { v is Map && vmap(v->Map_0).dom() == Set::<Seq<u8>>::empty().insert(n) }
spec fn tagged(v: Value, n: Seq<u8>) -> Value { vmap(v->Map_0)[n] }
// v is what d becomes
spec fn conv(d: D, v: Value) -> bool decreases d {
    match d {
        D::Bool(b) => v == Value::Bool(b),
        D::Int(i) => v is Integer && v->Integer_0 == i,
        D::F32(x) => v == Value::Float(f32_as_f64(x)),
        D::F64(x) => v == Value::Float(x),
        D::Char(c) => v is String && sbytes(v->String_0) == char_bytes(c),
        D::Str(s) => v is String && sbytes(v->String_0) == s,
        D::Bytes(b) => v is List && v->List_0@.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] v->List_0@[i] is Integer && v->List_0@[i]->Integer_0 == b[i],
        D::Nothing | D::Unit | D::UnitStruct => v is None,
        D::UnitVariant(n) => v is String && sbytes(v->String_0) == n,
        D::Present(x) => conv(*x, v),
        D::NewtypeStruct(x) => conv(*x, v),
        D::NewtypeVariant(n, x) => is_tagged(v, n) && conv(*x, tagged(v, n)),
        D::List(s) => v is List && v->List_0@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> conv(#[trigger] s[i], v->List_0@[i]),
        D::TupleVariant(n, s) => is_tagged(v, n) && tagged(v, n) is List && tagged(v, n)->List_0@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> conv(#[trigger] s[i], tagged(v, n)->List_0@[i]),
        D::Map(k, s) => v is Map && has_keys(vmap(v->Map_0), key_texts(k)) && forall|i: int| 0 <= i < s.len() && last_of(key_texts(k), i) ==> conv(#[trigger] s[i], vmap(v->Map_0)[key_texts(k)[i]]),
        D::Struct(k, s) => v is Map && has_keys(vmap(v->Map_0), k) && forall|i: int| 0 <= i < s.len() && last_of(k, i) ==> conv(#[trigger] s[i], vmap(v->Map_0)[k[i]]),
        D::StructVariant(n, k, s) => is_tagged(v, n) && tagged(v, n) is Map && has_keys(vmap(tagged(v, n)->Map_0), k) && forall|i: int| 0 <= i < s.len() && last_of(k, i) ==> conv(#[trigger] s[i], vmap(tagged(v, n)->Map_0)[k[i]]),
    }
}
// exactly these keys
spec fn has_keys(m: Map<Seq<u8>, Value>, k: Seq<Seq<u8>>) -> bool { forall|x: Seq<u8>| #[trigger] m.contains_key(x) <==> k.contains(x) }
// the values of lists and maps under construction
spec fn convs(s: Seq<D>, l: Seq<Value>) -> bool { l.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]) && conv(s[i], l[i]) }
spec fn table(k: Seq<Seq<u8>>, s: Seq<D>, m: Map<Seq<u8>, Value>) -> bool {
    k.len() == s.len() && has_keys(m, k) && (forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i])) && forall|i: int| 0 <= i < s.len() && last_of(k, i) ==> conv(#[trigger] s[i], m[k[i]])
}
spec fn keyed(k: Seq<D>) -> bool { forall|i: int| 0 <= i < k.len() ==> key_text(#[trigger] k[i]) is Some }
broadcast proof fn lemma_table(k: Seq<Seq<u8>>, s: Seq<D>, m: Map<Seq<u8>, Value>, x: Seq<u8>, d: D, v: Value)
    requires table(k, s, m), fits(d), #[trigger] conv(d, v)
    ensures #[trigger] table(k.push(x), s.push(d), m.insert(x, v))
{
    let k2 = k.push(x); let s2 = s.push(d); let m2 = m.insert(x, v);
    assert forall|y: Seq<u8>| #[trigger] m2.contains_key(y) <==> k2.contains(y) by {
        if k.contains(y) { let i = choose|i: int| 0 <= i < k.len() && k[i] == y; assert(k2[i] == y); }
        if y == x { assert(k2[k.len() as int] == y); }
        if k2.contains(y) { let i = choose|i: int| 0 <= i < k2.len() && k2[i] == y; if i < k.len() { assert(k[i] == y); } }
    }
    assert forall|i: int| 0 <= i < s2.len() && last_of(k2, i) implies conv(#[trigger] s2[i], m2[k2[i]]) by {
        if i < s.len() {
            assert(k2[k.len() as int] != k2[i]);
            assert forall|j: int| i < j < k.len() implies #[trigger] k[j] != k[i] by { assert(k2[j] != k2[i]); }
            assert(last_of(k, i)); assert(s2[i] == s[i]);
        }
    }
}
// ---------------------------------------------------------------- building the data up
// d2 continues d, which is a compound under construction
spec fn pre<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
spec fn extends(d: D, d2: D) -> bool {
    match (d, d2) {
        (D::List(s), D::List(s2)) => pre(s, s2),
        (D::TupleVariant(n, s), D::TupleVariant(n2, s2)) => n == n2 && pre(s, s2),
        (D::Map(k, s), D::Map(k2, s2)) => pre(k, k2) && pre(s, s2) && k2.len() == s2.len(),
        (D::Struct(k, s), D::Struct(k2, s2)) => pre(k, k2) && pre(s, s2) && k2.len() == s2.len(),
        (D::StructVariant(n, k, s), D::StructVariant(n2, k2, s2)) => n == n2 && pre(k, k2) && pre(s, s2) && k2.len() == s2.len(),
        _ => false,
    }
}
// (a struct is given its fields as entries whose keys are their names)
spec fn with_key(d: D, k: D) -> D { match d { D::Map(ks, s) => D::Map(ks.push(k), s), D::Struct(ks, s) if key_text(k) is Some => D::Struct(ks.push(key_text(k)->Some_0), s), _ => D::Unit } }
spec fn with_entry(d: D, k: D, x: D) -> D { match d { D::Map(ks, s) => D::Map(ks.push(k), s.push(x)), D::Struct(ks, s) if key_text(k) is Some => D::Struct(ks.push(key_text(k)->Some_0), s.push(x)), _ => D::Unit } }
spec fn with_elem(d: D, x: D) -> D { match d { D::List(s) => D::List(s.push(x)), D::TupleVariant(n, s) => D::TupleVariant(n, s.push(x)), _ => d } }
spec fn with_field(d: D, k: Seq<u8>, x: D) -> D {
    match d { D::Struct(ks, s) => D::Struct(ks.push(k), s.push(x)), D::StructVariant(n, ks, s) => D::StructVariant(n, ks.push(k), s.push(x)), _ => d }
}
spec fn takes_fields(d: D) -> bool { d is Struct || d is StructVariant }

broadcast proof fn lemma_key_texts(k: Seq<D>, x: D) ensures #[trigger] key_texts(k.push(x)) == key_texts(k).push(key_text(x)->Some_0), keyed(k.push(x)) <==> keyed(k) && key_text(x) is Some
{
    assert(key_texts(k.push(x)) =~= key_texts(k).push(key_text(x)->Some_0));
    if keyed(k.push(x)) {
        assert(k.push(x)[k.len() as int] == x);
        assert forall|i: int| 0 <= i < k.len() implies key_text(#[trigger] k[i]) is Some by { assert(k.push(x)[i] == k[i]); }
    }
}
// what was given a part that does not fit does not fit
broadcast proof fn lemma_unfit_elem(d: D, x: D, d2: D) requires #[trigger] extends(with_elem(d, x), d2), d is List || d is TupleVariant, !fits(x) ensures !fits(d2)
{
    if d is List { let i = d->List_0.len() as int; assert(d->List_0.push(x)[i] == x); assert(d2->List_0[i] == x); }
    else { let i = d->TupleVariant_1.len() as int; assert(d->TupleVariant_1.push(x)[i] == x); assert(d2->TupleVariant_1[i] == x); }
}
broadcast proof fn lemma_unfit_field(d: D, k: Seq<u8>, x: D, d2: D) requires #[trigger] extends(with_field(d, k, x), d2), d is Struct || d is StructVariant, !fits(x) ensures !fits(d2)
{
    if d is Struct { let i = d->Struct_1.len() as int; assert(d->Struct_1.push(x)[i] == x); assert(d2->Struct_1[i] == x); }
    else { let i = d->StructVariant_2.len() as int; assert(d->StructVariant_2.push(x)[i] == x); assert(d2->StructVariant_2[i] == x); }
}
broadcast proof fn lemma_unfit_entry(d: D, k: D, x: D, d2: D) requires #[trigger] extends(with_entry(d, k, x), d2), !fits(x) ensures !fits(d2)
{
    if d is Map { let i = d->Map_1.len() as int; assert(d->Map_1.push(x)[i] == x); assert(d2->Map_1[i] == x); }
    else { let i = d->Struct_1.len() as int; assert(d->Struct_1.push(x)[i] == x); assert(d2->Struct_1[i] == x); }
}
broadcast proof fn lemma_unfit_key(d: D, k: D, d2: D) requires #[trigger] extends(with_key(d, k), d2), key_text(k) is None ensures !fits(d2)
{ if d is Map { let i = d->Map_0.len() as int; assert(d->Map_0.push(k)[i] == k); assert(d2->Map_0[i] == k); } }
broadcast group group_ser { lemma_table, lemma_key_texts, lemma_unfit_elem, lemma_unfit_field, lemma_unfit_entry, lemma_unfit_key }
// ---------------------------------------------------------------- serde's traits
// takes(d, r): r is what comes of a serializer that was given d
trait VxSerializer: Sized {
    type Ok;
    spec fn takes(d: D, r: Result<Self::Ok>) -> bool;
}
// what a Serialize implementation does with a serializer: it describes one piece of data to it.
// TRUSTED of the caller's types (derived implementations); of the elements and entries a serializer is
// given, this is the induction hypothesis.
trait VxSerialize {
    spec fn data(&self) -> D;
    fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok>) ensures S::takes(self.data(), r);
}
// holds(d): d is what was given so far
trait VxHolds: Sized { spec fn holds(&self, d: D) -> bool; }
trait VxSeq<S: VxSerializer>: VxHolds {
    fn seq_element<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) ==> final(self).holds(with_elem(d, value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && extends(with_elem(d, value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn seq_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxTuple<S: VxSerializer>: VxHolds {
    fn tuple_element<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) ==> final(self).holds(with_elem(d, value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && extends(with_elem(d, value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn tuple_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxTupleStruct<S: VxSerializer>: VxHolds {
    fn tuple_struct_field<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) ==> final(self).holds(with_elem(d, value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && extends(with_elem(d, value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn tuple_struct_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxTupleVariant<S: VxSerializer>: VxHolds {
    fn tuple_variant_field<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) ==> final(self).holds(with_elem(d, value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && extends(with_elem(d, value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn tuple_variant_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxStruct<S: VxSerializer>: VxHolds {
    fn struct_field<T: ?Sized + VxSerialize>(&mut self, key: &'static str, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) && takes_fields(d) ==> final(self).holds(with_field(d, bs(key), value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && takes_fields(d) && extends(with_field(d, bs(key), value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn struct_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxStructVariant<S: VxSerializer>: VxHolds {
    fn struct_variant_field<T: ?Sized + VxSerialize>(&mut self, key: &'static str, value: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => forall|d: D| #[trigger] old(self).holds(d) && takes_fields(d) ==> final(self).holds(with_field(d, bs(key), value.data())),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && takes_fields(d) && extends(with_field(d, bs(key), value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn struct_variant_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
trait VxMap<S: VxSerializer>: VxHolds {
    // the key k was given, its value was not
    spec fn waits(&self, d: D, k: D) -> bool;
    spec fn key_waits(&self) -> bool;
    fn map_key<T: ?Sized + VxSerialize>(&mut self, key: &T) -> (r: Result<()>)
        ensures match r {
            Ok(_) => final(self).key_waits() && forall|d: D| #[trigger] old(self).holds(d) ==> final(self).waits(d, key.data()),
            Err(e) => forall|d: D, d2: D| #![trigger old(self).holds(d), S::takes(d2, Err(e))] old(self).holds(d) && extends(with_key(d, key.data()), d2) ==> S::takes(d2, Err(e)) };
    // serde: serialize_value is called after serialize_key
    fn map_value<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>)
        requires old(self).key_waits()
        ensures match r {
            Ok(_) => forall|d: D, k: D| #[trigger] old(self).waits(d, k) ==> final(self).holds(with_entry(d, k, value.data())),
            Err(e) => forall|d: D, k: D, d2: D| #![trigger old(self).waits(d, k), S::takes(d2, Err(e))] old(self).waits(d, k) && extends(with_entry(d, k, value.data()), d2) ==> S::takes(d2, Err(e)) };
    fn map_end(self) -> (r: Result<S::Ok>) ensures forall|d: D| #[trigger] self.holds(d) ==> S::takes(d, r);
}
// serde's default serialize_entry (an implementation that overrides it is not under contract: //@only below)
fn vx_entry<S: VxSerializer, M: VxMap<S>, K: ?Sized + VxSerialize, T: ?Sized + VxSerialize>(m: &mut M, key: &K, value: &T) -> (r: Result<()>)
    ensures match r {
        Ok(_) => forall|d: D| #[trigger] old(m).holds(d) ==> final(m).holds(with_entry(d, key.data(), value.data())),
        Err(e) => forall|d: D, d2: D| #![trigger old(m).holds(d), S::takes(d2, Err(e))] old(m).holds(d) && extends(with_entry(d, key.data(), value.data()), d2) ==> S::takes(d2, Err(e)) }
{
    match m.map_key(key) {
        Ok(_) => {}
        Err(e) => {
            proof { assert forall|d: D, d2: D| #![trigger old(m).holds(d), S::takes(d2, Err(e))] old(m).holds(d) && extends(with_entry(d, key.data(), value.data()), d2) implies S::takes(d2, Err(e)) by {
                lemma_with_key(d, key.data(), value.data(), d2); } }
            return Err(e);
        }
    }
    m.map_value(value)
}
proof fn lemma_with_key(d: D, k: D, x: D, d2: D) requires extends(with_entry(d, k, x), d2) ensures extends(with_key(d, k), d2)
{
    if d is Map { let s = d->Map_1; assert forall|i: int| 0 <= i < s.len() implies #[trigger] d2->Map_1[i] == s[i] by { assert(s.push(x)[i] == s[i]); } }
    if d is Struct { let s = d->Struct_1; assert forall|i: int| 0 <= i < s.len() implies #[trigger] d2->Struct_1[i] == s[i] by { assert(s.push(x)[i] == s[i]); } }
}
// a serializer: what it is given is what it takes
trait VxFull: VxSerializer {
    type SerializeSeq: VxSeq<Self>;
    type SerializeTuple: VxTuple<Self>;
    type SerializeTupleStruct: VxTupleStruct<Self>;
    type SerializeTupleVariant: VxTupleVariant<Self>;
    type SerializeMap: VxMap<Self>;
    type SerializeStruct: VxStruct<Self>;
    type SerializeStructVariant: VxStructVariant<Self>;
    fn serialize_bool(self, v: bool) -> (r: Result<Self::Ok>) ensures Self::takes(D::Bool(v), r);
    fn serialize_i8(self, v: i8) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_i16(self, v: i16) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_i32(self, v: i32) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_i64(self, v: i64) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_u8(self, v: u8) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_u16(self, v: u16) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_u32(self, v: u32) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok>) ensures Self::takes(D::Int(v as int), r);
    fn serialize_f32(self, v: f32) -> (r: Result<Self::Ok>) ensures Self::takes(D::F32(v), r);
    fn serialize_f64(self, v: f64) -> (r: Result<Self::Ok>) ensures Self::takes(D::F64(v), r);
    fn serialize_char(self, v: char) -> (r: Result<Self::Ok>) ensures Self::takes(D::Char(v), r);
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok>) ensures Self::takes(D::Str(bs(v)), r);
    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok>) ensures Self::takes(D::Bytes(v@), r);
    fn serialize_none(self) -> (r: Result<Self::Ok>) ensures Self::takes(D::Nothing, r);
    fn serialize_unit(self) -> (r: Result<Self::Ok>) ensures Self::takes(D::Unit, r);
    fn serialize_unit_struct(self, name: &'static str) -> (r: Result<Self::Ok>) ensures Self::takes(D::UnitStruct, r);
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> (r: Result<Self::Ok>) ensures Self::takes(D::UnitVariant(bs(variant)), r);
    fn serialize_some<T: ?Sized + VxSerialize>(self, value: &T) -> (r: Result<Self::Ok>) ensures Self::takes(D::Present(Box::new(value.data())), r);
    fn serialize_newtype_struct<T: ?Sized + VxSerialize>(self, name: &'static str, value: &T) -> (r: Result<Self::Ok>) ensures Self::takes(D::NewtypeStruct(Box::new(value.data())), r);
    fn serialize_newtype_variant<T: ?Sized + VxSerialize>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> (r: Result<Self::Ok>)
        ensures Self::takes(D::NewtypeVariant(bs(variant), Box::new(value.data())), r);
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq>)
        ensures match r { Ok(q) => q.holds(D::List(Seq::empty())), Err(e) => forall|d: D| extends(D::List(Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple>)
        ensures match r { Ok(q) => q.holds(D::List(Seq::empty())), Err(e) => forall|d: D| extends(D::List(Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_tuple_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeTupleStruct>)
        ensures match r { Ok(q) => q.holds(D::List(Seq::empty())), Err(e) => forall|d: D| extends(D::List(Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeTupleVariant>)
        ensures match r { Ok(q) => q.holds(D::TupleVariant(bs(variant), Seq::empty())), Err(e) => forall|d: D| extends(D::TupleVariant(bs(variant), Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap>)
        ensures match r { Ok(q) => q.holds(D::Map(Seq::empty(), Seq::empty())), Err(e) => forall|d: D| extends(D::Map(Seq::empty(), Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct>)
        ensures match r { Ok(q) => q.holds(D::Struct(Seq::empty(), Seq::empty())), Err(e) => forall|d: D| extends(D::Struct(Seq::empty(), Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeStructVariant>)
        ensures match r { Ok(q) => q.holds(D::StructVariant(bs(variant), Seq::empty(), Seq::empty())), Err(e) => forall|d: D| extends(D::StructVariant(bs(variant), Seq::empty(), Seq::empty()), d) ==> #[trigger] Self::takes(d, Err(e)) };
}
trait VxDisplay { spec fn shown(&self) -> Seq<u8>; }
// TRUSTED: ToString of what is shown so
#[verifier::external_body]
fn vx_to_string<T: VxDisplay + ?Sized>(v: &T) -> (r: String) ensures sbytes(r) == v.shown() { unimplemented!() }

impl VxDisplay for u8 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for u16 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for u32 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for u64 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for u128 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for usize { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for i8 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for i16 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for i32 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for i64 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for i128 { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for isize { spec fn shown(&self) -> Seq<u8> { dec(*self as int) } }
impl VxDisplay for char { spec fn shown(&self) -> Seq<u8> { char_bytes(*self) } }
impl VxDisplay for str { spec fn shown(&self) -> Seq<u8> { bs(self) } }
// String::from and Into<String>
trait VxText: Sized { spec fn text(self) -> Seq<u8>; fn vx_string(self) -> (r: String) ensures sbytes(r) == self.text(); }
impl<'a> VxText for &'a str { spec fn text(self) -> Seq<u8> { bs(self) } fn vx_string(self) -> (r: String) { vx_to_owned(self) } }
// TRUSTED: String::from(char)
impl VxText for char { spec fn text(self) -> Seq<u8> { char_bytes(self) } #[verifier::external_body] fn vx_string(self) -> (r: String) { String::from(self) } }
impl VxText for String { spec fn text(self) -> Seq<u8> { sbytes(self) } fn vx_string(self) -> (r: String) { self } }
fn vx_string<T: VxText>(t: T) -> (r: String) ensures sbytes(r) == t.text() { t.vx_string() }
impl Error { #[verifier::external_body] fn custom(m: &str) -> Error { unimplemented!() } }
// the elements of a slice, each converted
fn vx_bytes<F: Fn(u8) -> i64>(v: &[u8], f: F) -> (r: Vec<Value>)
    requires forall|b: u8| #[trigger] f.requires((b,)), forall|b: u8, o: i64| #[trigger] f.ensures((b,), o) ==> o as int == b as int
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] is Integer && r@[i]->Integer_0 == v@[i]
{
    let mut o: Vec<Value> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), o@.len() == i, forall|b: u8| #[trigger] f.requires((b,)), forall|b: u8, o: i64| #[trigger] f.ensures((b,), o) ==> o as int == b as int,
            forall|j: int| 0 <= j < i ==> #[trigger] o@[j] is Integer && o@[j]->Integer_0 == v@[j]
        decreases v@.len() - i
    { o.push(Value::Integer(f(v[i]))); i = i + 1; }
    o
}


//@all `T : ? Sized + Serialize` => `T: ?Sized + VxSerialize`
//@all `T : ? Sized + serde :: Serialize` => `T: ?Sized + VxSerialize`
//@all `T : ? Sized` => `T: ?Sized`
//@all `T : serde :: Serialize` => `T: VxSerialize`
//@all `T : Serialize` => `T: VxSerialize`
//@all `i64 :: from` => `vx_i64_from`
//@all `f64 :: from ( $x )` => `vx_f32_as_f64($x)`
//@all `i64 :: try_from ( $x )` => `vx_try_into::<_, i64>($x)`
//@all `map_err ( | _ | {` => `map_err(|vx_e: VxTooBig| -> Error {`
//@all `String :: from ( $x )` => `vx_string($x)`
//@all `$x_id . to_owned ( )` => `vx_string($x_id)`
//@all `$x_id . into ( )` => `vx_string($x_id)`
//@all `$x_id . to_string ( )` => `vx_to_string(&$x_id)`
//@all `BTreeMap :: new ( )` => `vx_map_new()`
//@all `Vec :: with_capacity ( $x )` => `Vec::new()`
//@all `self . map . insert ( $k , $v )` => `vx_map_insert(&mut self.map, $k, $v)`
//@all `map . insert ( $k , $v )` => `vx_map_insert(&mut map, $k, $v)`
//@all `v . iter ( ) . copied ( ) . map ( $f ) . map ( Value :: Integer ) . collect ( )` => `vx_bytes(v, $f)`
//@all `serde :: ser :: SerializeSeq :: serialize_element ( self , value )` => `<SerializeList as VxSeq<Serializer>>::seq_element(self, value)`
//@all `serde :: ser :: SerializeSeq :: end ( self )` => `<SerializeList as VxSeq<Serializer>>::seq_end(self)`
//@all `serde :: ser :: SerializeMap :: serialize_entry ( self , key , value )` => `vx_entry::<Serializer, SerializeMap, _, _>(self, key, value)`
//@all `serde :: ser :: SerializeMap :: end ( self )` => `<SerializeMap as VxMap<Serializer>>::map_end(self)`
// ---------------------------------------------------------------- lists and tuples
//@item src/value/ser/list.rs SerializeList
//@end
//@item src/value/ser/mod.rs Serializer
//@end
//@item src/value/ser/map.rs MapKeySerializer
//@end
impl VxSerializer for Serializer {
    type Ok = Value;
    spec fn takes(d: D, r: Result<Value>) -> bool { match r { Ok(v) => fits(d) && conv(d, v), Err(_) => !fits(d) } }
}
impl VxSerializer for MapKeySerializer {
    type Ok = String;
    spec fn takes(d: D, r: Result<String>) -> bool { match r { Ok(s) => key_text(d) == Some(sbytes(s)), Err(_) => key_text(d) is None } }
}
//@fn src/value/ser/mod.rs to_value
//@ret r
//@spec
    ensures Serializer::takes(value.data(), r)
//@end
impl<'a, T: ?Sized + VxSerialize> VxSerialize for &'a T {
    spec fn data(&self) -> D { (**self).data() }
    // TRUSTED: a reference describes what it refers to
    #[verifier::external_body]
    fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok>) { unimplemented!() }
}
// TRUSTED: a str, a String describes itself (serde's implementations)
impl VxSerialize for str { spec fn data(&self) -> D { D::Str(bs(self)) } #[verifier::external_body] fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok>) { unimplemented!() } }
impl VxSerialize for String { spec fn data(&self) -> D { D::Str(sbytes(*self)) } #[verifier::external_body] fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok>) { unimplemented!() } }
impl VxHolds for SerializeList { spec fn holds(&self, d: D) -> bool { d is List && convs(d->List_0, self.list@) } }
impl SerializeList {
//@fn src/value/ser/list.rs SerializeList::with_capacity
//@ret r
//@spec
    ensures r.list@.len() == 0
//@end
}
impl VxSeq<Serializer> for SerializeList {
//@fn src/value/ser/list.rs <serde::ser::SerializeSeq for SerializeList>::serialize_element
//@name seq_element
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/list.rs <serde::ser::SerializeSeq for SerializeList>::end
//@name seq_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@end
}
impl VxTuple<Serializer> for SerializeList {
//@fn src/value/ser/list.rs <serde::ser::SerializeTuple for SerializeList>::serialize_element
//@name tuple_element
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/list.rs <serde::ser::SerializeTuple for SerializeList>::end
//@name tuple_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@end
}
impl VxTupleStruct<Serializer> for SerializeList {
//@fn src/value/ser/list.rs <serde::ser::SerializeTupleStruct for SerializeList>::serialize_field
//@name tuple_struct_field
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/list.rs <serde::ser::SerializeTupleStruct for SerializeList>::end
//@name tuple_struct_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@end
}
// ---------------------------------------------------------------- maps and structs
//@item src/value/ser/map.rs SerializeMap
//@end
impl VxHolds for SerializeMap {
    spec fn holds(&self, d: D) -> bool {
        match d { D::Map(k, s) => keyed(k) && table(key_texts(k), s, vmap(self.map)), D::Struct(k, s) => table(k, s, vmap(self.map)), _ => false }
    }
}
impl SerializeMap {
//@fn src/value/ser/map.rs SerializeMap::new
//@ret r
//@spec
    ensures vmap(r.map) == Map::<Seq<u8>, Value>::empty()
//@end
}
impl VxMap<Serializer> for SerializeMap {
    spec fn waits(&self, d: D, k: D) -> bool { self.holds(d) && self.next_key is Some && key_text(k) == Some(sbytes(self.next_key->Some_0)) }
    spec fn key_waits(&self) -> bool { self.next_key is Some }
//@fn src/value/ser/map.rs <serde::ser::SerializeMap for SerializeMap>::serialize_key
//@name map_key
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::SerializeMap for SerializeMap>::serialize_value
//@name map_value
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::SerializeMap for SerializeMap>::end
//@name map_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@end
}
impl VxStruct<Serializer> for SerializeMap {
//@fn src/value/ser/map.rs <serde::ser::SerializeStruct for SerializeMap>::serialize_field
//@name struct_field
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::SerializeStruct for SerializeMap>::end
//@name struct_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@end
}
// ---------------------------------------------------------------- variants
//@item src/value/ser/variants.rs SerializeTupleVariant
//@end
//@item src/value/ser/variants.rs SerializeStructVariant
//@end
impl VxHolds for SerializeTupleVariant { spec fn holds(&self, d: D) -> bool { d is TupleVariant && d->TupleVariant_0 == sbytes(self.name) && convs(d->TupleVariant_1, self.list@) } }
impl VxTupleVariant<Serializer> for SerializeTupleVariant {
//@fn src/value/ser/variants.rs <serde::ser::SerializeTupleVariant for SerializeTupleVariant>::serialize_field
//@name tuple_variant_field
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/variants.rs <serde::ser::SerializeTupleVariant for SerializeTupleVariant>::end
//@name tuple_variant_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@tail
    proof { assert(vmap(vx_ret->Ok_0->Map_0).dom() =~= Set::<Seq<u8>>::empty().insert(sbytes(self.name))); }
//@end
}
impl VxHolds for SerializeStructVariant { spec fn holds(&self, d: D) -> bool { d is StructVariant && d->StructVariant_0 == sbytes(self.name) && table(d->StructVariant_1, d->StructVariant_2, vmap(self.map)) } }
impl VxStructVariant<Serializer> for SerializeStructVariant {
//@fn src/value/ser/variants.rs <serde::ser::SerializeStructVariant for SerializeStructVariant>::serialize_field
//@name struct_variant_field
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/variants.rs <serde::ser::SerializeStructVariant for SerializeStructVariant>::end
//@name struct_variant_end
//@trait
//@ret r
//@sub `Self :: Ok` => `Value`
//@start
    broadcast use group_ser;
//@tail
    proof { assert(vmap(vx_ret->Ok_0->Map_0).dom() =~= Set::<Seq<u8>>::empty().insert(sbytes(self.name))); }
//@end
}
// ---------------------------------------------------------------- the serializer of values
impl VxFull for Serializer {
    type SerializeSeq = SerializeList;
    type SerializeTuple = SerializeList;
    type SerializeTupleStruct = SerializeList;
    type SerializeTupleVariant = SerializeTupleVariant;
    type SerializeMap = SerializeMap;
    type SerializeStruct = SerializeMap;
    type SerializeStructVariant = SerializeStructVariant;
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_bool
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_i8
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_i16
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_i32
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_i64
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_u8
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_u16
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_u32
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_u64
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_f32
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_f64
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_char
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_str
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_bytes
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_none
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_unit
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_unit_struct
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_unit_variant
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_some
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_newtype_struct
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_newtype_variant
//@trait
//@ret r
//@tail
    proof { if vx_ret is Ok { assert(vmap(vx_ret->Ok_0->Map_0).dom() =~= Set::<Seq<u8>>::empty().insert(bs(variant))); } }
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_seq
//@trait
//@ret r
//@spec
    ensures r is Ok, r->Ok_0.holds(D::List(Seq::empty()))
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_tuple
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_tuple_struct
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_tuple_variant
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_map
//@trait
//@ret r
//@sub `_ : Option < usize >` => `vx_len: Option<usize>`
//@spec
    ensures r is Ok, r->Ok_0.holds(D::Struct(Seq::empty(), Seq::empty()))
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_struct
//@trait
//@ret r
//@end
//@fn src/value/ser/mod.rs <serde::Serializer for Serializer>::serialize_struct_variant
//@trait
//@ret r
//@end
}
// ---------------------------------------------------------------- the serializer of map keys
// serde's type without values
struct Impossible;
impl VxHolds for Impossible { spec fn holds(&self, d: D) -> bool { false } }
impl VxSeq<MapKeySerializer> for Impossible { fn seq_element<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>) { Ok(()) } fn seq_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxTuple<MapKeySerializer> for Impossible { fn tuple_element<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>) { Ok(()) } fn tuple_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxTupleStruct<MapKeySerializer> for Impossible { fn tuple_struct_field<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>) { Ok(()) } fn tuple_struct_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxTupleVariant<MapKeySerializer> for Impossible { fn tuple_variant_field<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>) { Ok(()) } fn tuple_variant_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxStruct<MapKeySerializer> for Impossible { fn struct_field<T: ?Sized + VxSerialize>(&mut self, key: &'static str, value: &T) -> (r: Result<()>) { Ok(()) } fn struct_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxStructVariant<MapKeySerializer> for Impossible { fn struct_variant_field<T: ?Sized + VxSerialize>(&mut self, key: &'static str, value: &T) -> (r: Result<()>) { Ok(()) } fn struct_variant_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
impl VxMap<MapKeySerializer> for Impossible { spec fn waits(&self, d: D, k: D) -> bool { false } spec fn key_waits(&self) -> bool { true }
    fn map_key<T: ?Sized + VxSerialize>(&mut self, key: &T) -> (r: Result<()>) { Ok(()) } fn map_value<T: ?Sized + VxSerialize>(&mut self, value: &T) -> (r: Result<()>) { Ok(()) } fn map_end(self) -> (r: Result<String>) { Err(err_not_string()) } }
//@fn src/value/ser/map.rs err_not_string
//@end
impl VxFull for MapKeySerializer {
    type SerializeSeq = Impossible;
    type SerializeTuple = Impossible;
    type SerializeTupleStruct = Impossible;
    type SerializeTupleVariant = Impossible;
    type SerializeMap = Impossible;
    type SerializeStruct = Impossible;
    type SerializeStructVariant = Impossible;
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_bool
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_i8
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_i16
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_i32
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_i64
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_u8
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_u16
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_u32
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_u64
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_f32
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_f64
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_char
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_str
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_bytes
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_none
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_unit
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_unit_struct
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_unit_variant
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_some
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_newtype_struct
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_newtype_variant
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_seq
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_tuple
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_tuple_struct
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_tuple_variant
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_map
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_struct
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::serialize_struct_variant
//@trait
//@ret r
//@start
    broadcast use group_ser;
//@end
}
//@fn src/value/ser/map.rs <serde::ser::Serializer for MapKeySerializer>::collect_str
//@sig fn key_collect_str<T: ?Sized + VxDisplay>(vx_self: MapKeySerializer, value: &T) -> Result<String>
//@ret r
//@sub `value . to_string ( )` => `vx_to_string(value)`
//@spec
    ensures MapKeySerializer::takes(D::Str(value.shown()), r)
//@end
// ---------------------------------------------------------------- a Value as data
// TRUSTED: what a map contains is smaller than the map
#[verifier::external_body]
broadcast proof fn ax_map_smaller(m: BTreeMap<String, Value>, i: int)
    requires 0 <= i < map_items(m).len() ensures #[trigger] decreases_to!(m => map_items(m)[i].1) {}
spec fn value_data(v: Value) -> D decreases v via value_data_dec {
    match v {
        Value::None => D::Unit,
        Value::Bool(b) => D::Bool(b),
        Value::Integer(i) => D::Int(i as int),
        Value::Float(f) => D::F64(f),
        Value::String(s) => D::Str(sbytes(s)),
        Value::List(l) => D::List(Seq::new(l@.len(), |i: int| if 0 <= i < l@.len() { value_data(l@[i]) } else { D::Unit })),
        Value::Map(m) => D::Map(Seq::new(map_items(m).len(), |i: int| D::Str(sbytes(map_items(m)[i].0))),
            Seq::new(map_items(m).len(), |i: int| if 0 <= i < map_items(m).len() { value_data(map_items(m)[i].1) } else { D::Unit })),
    }
}
#[via_fn]
proof fn value_data_dec(v: Value) { broadcast use ax_map_smaller; }
impl VxSerialize for Value { spec fn data(&self) -> D { value_data(*self) }
    // TRUSTED: what value_serialize below proves of the real method, for every serializer under contract
    #[verifier::external_body] fn serialize<S: VxSerializer>(&self, serializer: S) -> (r: Result<S::Ok>) { unimplemented!() } }
// ---------------------------------------------------------------- how serializers are driven
// serde's implementation for Vec and what derive generates for tuples, structs and variants. Not code of upon:
// these show that the contracts above are enough for such callers to get what they describe.
spec fn datas<T: VxSerialize>(l: Seq<T>) -> Seq<D> { Seq::new(l.len(), |i: int| l[i].data()) }
spec fn fnames<T>(l: Seq<(&'static str, T)>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| bs(l[i].0)) }
spec fn fdatas<T: VxSerialize>(l: Seq<(&'static str, T)>) -> Seq<D> { Seq::new(l.len(), |i: int| l[i].1.data()) }
fn vx_list<T: VxSerialize, S: VxFull>(l: &Vec<T>, serializer: S) -> (r: Result<S::Ok>) ensures S::takes(D::List(datas(l@)), r)
{
    let mut q = match serializer.serialize_seq(Some(l.len())) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(datas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::List(datas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(datas(l@).take(i as int).push(l@[i as int].data()) =~= datas(l@).take(i + 1)); assert(extends(with_elem(D::List(datas(l@).take(i as int)), l@[i as int].data()), D::List(datas(l@)))); }
        match q.seq_element(&l[i]) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(datas(l@).take(i as int) =~= datas(l@)); }
    q.seq_end()
}
fn vx_tuple<T: VxSerialize, S: VxFull>(l: &Vec<T>, serializer: S) -> (r: Result<S::Ok>) ensures S::takes(D::List(datas(l@)), r)
{
    let mut q = match serializer.serialize_tuple(l.len()) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(datas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::List(datas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(datas(l@).take(i as int).push(l@[i as int].data()) =~= datas(l@).take(i + 1)); assert(extends(with_elem(D::List(datas(l@).take(i as int)), l@[i as int].data()), D::List(datas(l@)))); }
        match q.tuple_element(&l[i]) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(datas(l@).take(i as int) =~= datas(l@)); }
    q.tuple_end()
}
fn vx_tuple_struct<T: VxSerialize, S: VxFull>(l: &Vec<T>, serializer: S, name: &'static str) -> (r: Result<S::Ok>) ensures S::takes(D::List(datas(l@)), r)
{
    let mut q = match serializer.serialize_tuple_struct(name, l.len()) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(datas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::List(datas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(datas(l@).take(i as int).push(l@[i as int].data()) =~= datas(l@).take(i + 1)); assert(extends(with_elem(D::List(datas(l@).take(i as int)), l@[i as int].data()), D::List(datas(l@)))); }
        match q.tuple_struct_field(&l[i]) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(datas(l@).take(i as int) =~= datas(l@)); }
    q.tuple_struct_end()
}
fn vx_tuple_variant<T: VxSerialize, S: VxFull>(l: &Vec<T>, serializer: S, name: &'static str, ix: u32, variant: &'static str) -> (r: Result<S::Ok>) ensures S::takes(D::TupleVariant(bs(variant), datas(l@)), r)
{
    let mut q = match serializer.serialize_tuple_variant(name, ix, variant, l.len()) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(datas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::TupleVariant(bs(variant), datas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(datas(l@).take(i as int).push(l@[i as int].data()) =~= datas(l@).take(i + 1)); assert(extends(with_elem(D::TupleVariant(bs(variant), datas(l@).take(i as int)), l@[i as int].data()), D::TupleVariant(bs(variant), datas(l@)))); }
        match q.tuple_variant_field(&l[i]) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(datas(l@).take(i as int) =~= datas(l@)); }
    q.tuple_variant_end()
}
fn vx_struct<T: VxSerialize, S: VxFull>(l: &Vec<(&'static str, T)>, serializer: S, name: &'static str) -> (r: Result<S::Ok>) ensures S::takes(D::Struct(fnames(l@), fdatas(l@)), r)
{
    let mut q = match serializer.serialize_struct(name, l.len()) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(fnames(l@).take(0) =~= Seq::empty()); assert(fdatas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::Struct(fnames(l@).take(i as int), fdatas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(fnames(l@).take(i as int).push(bs(l@[i as int].0)) =~= fnames(l@).take(i + 1)); assert(fdatas(l@).take(i as int).push(l@[i as int].1.data()) =~= fdatas(l@).take(i + 1));
            assert(extends(with_field(D::Struct(fnames(l@).take(i as int), fdatas(l@).take(i as int)), bs(l@[i as int].0), l@[i as int].1.data()), D::Struct(fnames(l@), fdatas(l@)))); }
        match q.struct_field(l[i].0, &l[i].1) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(fnames(l@).take(i as int) =~= fnames(l@)); assert(fdatas(l@).take(i as int) =~= fdatas(l@)); }
    q.struct_end()
}
fn vx_struct_variant<T: VxSerialize, S: VxFull>(l: &Vec<(&'static str, T)>, serializer: S, name: &'static str, ix: u32, variant: &'static str) -> (r: Result<S::Ok>) ensures S::takes(D::StructVariant(bs(variant), fnames(l@), fdatas(l@)), r)
{
    let mut q = match serializer.serialize_struct_variant(name, ix, variant, l.len()) { Ok(q) => q, Err(e) => return Err(e) };
    let mut i: usize = 0;
    proof { assert(fnames(l@).take(0) =~= Seq::empty()); assert(fdatas(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant i <= l@.len(), q.holds(D::StructVariant(bs(variant), fnames(l@).take(i as int), fdatas(l@).take(i as int))) decreases l@.len() - i
    {
        proof { assert(fnames(l@).take(i as int).push(bs(l@[i as int].0)) =~= fnames(l@).take(i + 1)); assert(fdatas(l@).take(i as int).push(l@[i as int].1.data()) =~= fdatas(l@).take(i + 1));
            assert(extends(with_field(D::StructVariant(bs(variant), fnames(l@).take(i as int), fdatas(l@).take(i as int)), bs(l@[i as int].0), l@[i as int].1.data()), D::StructVariant(bs(variant), fnames(l@), fdatas(l@)))); }
        match q.struct_variant_field(l[i].0, &l[i].1) { Ok(_) => {}, Err(e) => return Err(e) }
        i = i + 1;
    }
    proof { assert(fnames(l@).take(i as int) =~= fnames(l@)); assert(fdatas(l@).take(i as int) =~= fdatas(l@)); }
    q.struct_variant_end()
}
// ---------------------------------------------------------------- Value's own implementation
// TRUSTED: `for (k, v) in map` visits the entries in order; `len` is their number
#[verifier::external_body]
fn vx_entries<'a>(m: &'a BTreeMap<String, Value>) -> (r: Vec<(&'a String, &'a Value)>)
    ensures r@ == Seq::new(map_items(*m).len(), |i: int| (&map_items(*m)[i].0, &map_items(*m)[i].1)) { unimplemented!() }
#[verifier::external_body]
fn vx_map_len(m: &BTreeMap<String, Value>) -> (r: usize) ensures r == map_len(*m) { unimplemented!() }
spec fn map_keys(m: BTreeMap<String, Value>) -> Seq<D> { Seq::new(map_items(m).len(), |i: int| D::Str(sbytes(map_items(m)[i].0))) }
spec fn map_vals(m: BTreeMap<String, Value>) -> Seq<D> { Seq::new(map_items(m).len(), |i: int| value_data(map_items(m)[i].1)) }
proof fn lemma_value_data(v: Value)
    ensures v is List ==> value_data(v) == D::List(datas(v->List_0@)), v is Map ==> value_data(v) == D::Map(map_keys(v->Map_0), map_vals(v->Map_0))
{
    if v is List { assert(value_data(v)->List_0 =~= datas(v->List_0@)); }
    if v is Map { assert(value_data(v)->Map_0 =~= map_keys(v->Map_0)); assert(value_data(v)->Map_1 =~= map_vals(v->Map_0)); }
}
//@fn src/value/ser/mod.rs <Serialize for Value>::serialize
//@sig fn value_serialize<S: VxFull>(vx_self: &Value, serializer: S) -> Result<S::Ok>
//@ret r
//@sub `match self` => `match vx_self`
//@sub `use serde :: ser :: SerializeMap ;` => ` `
//@sub `serialize_str ( $x )` => `serialize_str(vx_as_str($x))`
//@sub `list . serialize ( serializer )` => `vx_list(list, serializer)`
//@sub `map . len ( )` => `vx_map_len(map)`
//@sub `for ( $k , $v ) in map {` => `let vx_e = vx_entries(map); let mut vx_i: usize = 0; proof { assert(map_keys(*map).take(0) =~= Seq::empty()); assert(map_vals(*map).take(0) =~= Seq::empty()); } while vx_i < vx_e.len() invariant vx_i <= vx_e@.len(), vx_e@.len() == map_items(*map).len(), *vx_self == Value::Map(*map), vx_e@ == Seq::new(map_items(*map).len(), |i: int| (&map_items(*map)[i].0, &map_items(*map)[i].1)), m.holds(D::Map(map_keys(*map).take(vx_i as int), map_vals(*map).take(vx_i as int))) decreases vx_e@.len() - vx_i { let ($k, $v) = vx_e[vx_i]; proof { lemma_value_data(*vx_self); assert(map_keys(*map).take(vx_i as int).push(D::Str(sbytes(map_items(*map)[vx_i as int].0))) =~= map_keys(*map).take(vx_i + 1)); assert(map_vals(*map).take(vx_i as int).push(value_data(map_items(*map)[vx_i as int].1)) =~= map_vals(*map).take(vx_i + 1)); assert(extends(with_entry(D::Map(map_keys(*map).take(vx_i as int), map_vals(*map).take(vx_i as int)), D::Str(sbytes(map_items(*map)[vx_i as int].0)), value_data(map_items(*map)[vx_i as int].1)), D::Map(map_keys(*map), map_vals(*map)))); } vx_i = vx_i + 1;`
//@sub `m . serialize_entry ( k , v )` => `vx_entry(&mut m, k, v)`
//@sub `m . end ( )` => `proof { assert(map_keys(*map).take(vx_i as int) =~= map_keys(*map)); assert(map_vals(*map).take(vx_i as int) =~= map_vals(*map)); } m.map_end()`
//@try
//@spec
    ensures S::takes(value_data(*vx_self), r)
//@start
    proof { lemma_value_data(*vx_self); }
//@end
// ---------------------------------------------------------------- the identity
// the same value, its strings, lists and maps compared by what they contain
spec fn same(v: Value, w: Value) -> bool decreases v via same_dec {
    match v {
        Value::None => w is None,
        Value::Bool(b) => w == Value::Bool(b),
        Value::Integer(i) => w == Value::Integer(i),
        Value::Float(f) => w == Value::Float(f),
        Value::String(s) => w is String && w->String_0@ == s@,
        Value::List(l) => w is List && w->List_0@.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> same(#[trigger] l@[i], w->List_0@[i]),
        Value::Map(m) => w is Map && vmap(w->Map_0).dom() == vmap(m).dom() && forall|i: int| 0 <= i < map_items(m).len() ==> same((#[trigger] map_items(m)[i]).1, vmap(w->Map_0)[sbytes(map_items(m)[i].0)]),
    }
}
#[via_fn]
proof fn same_dec(v: Value, w: Value) { broadcast use ax_map_smaller; }
// whatever a Value is converted to is that value, and it can be converted
proof fn lemma_identity(v: Value, r: Result<Value>)
    requires Serializer::takes(value_data(v), r)
    ensures r is Ok, same(v, r->Ok_0)
{
    lemma_value_fits(v);
    lemma_same(v, r->Ok_0);
}
proof fn lemma_value_fits(v: Value) ensures fits(value_data(v)) decreases v
{
    broadcast use ax_map_smaller;
    lemma_value_data(v);
    match v {
        Value::List(l) => { assert forall|i: int| 0 <= i < l@.len() implies fits(#[trigger] datas(l@)[i]) by { lemma_value_fits(l@[i]); } }
        Value::Map(m) => { assert forall|i: int| 0 <= i < map_items(m).len() implies fits(#[trigger] map_vals(m)[i]) by { lemma_value_fits(map_items(m)[i].1); } }
        _ => {}
    }
}
proof fn lemma_same_keys(m: BTreeMap<String, Value>, n: Map<Seq<u8>, Value>)
    requires has_keys(n, key_texts(map_keys(m)))
    ensures n.dom() == vmap(m).dom(), forall|i: int| 0 <= i < map_items(m).len() ==> #[trigger] last_of(key_texts(map_keys(m)), i)
{
    ax_map_items(m);
    let k = key_texts(map_keys(m));
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] == sbytes(map_items(m)[i].0) by { assert(map_keys(m)[i] == D::Str(sbytes(map_items(m)[i].0))); }
    assert forall|x: Seq<u8>| n.dom().contains(x) <==> vmap(m).dom().contains(x) by {
        if n.contains_key(x) { assert(k.contains(x)); let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(map_get(m, sbytes(map_items(m)[i].0)) is Some); }
        if vmap(m).contains_key(x) { assert(map_get(m, x) is Some); let i = choose|i: int| 0 <= i < map_items(m).len() && sbytes(map_items(m)[i].0) == x; assert(k[i] == x); assert(k.contains(x)); }
    }
    assert(n.dom() =~= vmap(m).dom());
    assert forall|i: int| 0 <= i < map_items(m).len() implies #[trigger] last_of(k, i) by {
        assert forall|j: int| i < j < k.len() implies #[trigger] k[j] != k[i] by {
            lemma_lt_irrefl(sbytes(map_items(m)[i].0)); assert(bytes_lt(sbytes(map_items(m)[i].0), sbytes(map_items(m)[j].0)));
        }
    }
}
proof fn lemma_same(v: Value, w: Value) requires conv(value_data(v), w) ensures same(v, w) decreases v
{
    broadcast use ax_map_smaller;
    lemma_value_data(v);
    match v {
        Value::String(s) => { lemma_string(s, w->String_0); }
        Value::List(l) => {
            assert forall|i: int| 0 <= i < l@.len() implies same(#[trigger] l@[i], w->List_0@[i]) by { assert(conv(datas(l@)[i], w->List_0@[i])); lemma_same(l@[i], w->List_0@[i]); }
        }
        Value::Map(m) => {
            assert(conv(D::Map(map_keys(m), map_vals(m)), w));
            lemma_same_keys(m, vmap(w->Map_0));
            assert forall|i: int| 0 <= i < map_items(m).len() implies same((#[trigger] map_items(m)[i]).1, vmap(w->Map_0)[sbytes(map_items(m)[i].0)]) by {
                assert(last_of(key_texts(map_keys(m)), i));
                assert(0 <= i < map_vals(m).len());
                let x = map_vals(m)[i];
                assert(conv(x, vmap(w->Map_0)[key_texts(map_keys(m))[i]]));
                assert(conv(map_vals(m)[i], vmap(w->Map_0)[key_texts(map_keys(m))[i]]));
                lemma_same(map_items(m)[i].1, vmap(w->Map_0)[key_texts(map_keys(m))[i]]);
            }
        }
        _ => {}
    }
}
proof fn lemma_lt_irrefl(a: Seq<u8>) ensures !bytes_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_lt_irrefl(a.skip(1)); } }
// to_value of a Value
fn vx_identity(v: &Value) -> (r: Result<Value>) ensures r is Ok, same(*v, r->Ok_0)
{ let r = to_value(v); proof { lemma_identity(*v, r); } r }
//@only src/value/ser/mod.rs <serde::Serializer for Serializer>::(serialize|collect|is)_
//@only src/value/ser/map.rs <.*>::(serialize|collect|is|end)
//@only src/value/ser/list.rs <.*>::(serialize|end)
//@only src/value/ser/variants.rs <.*>::(serialize|end)
} // verus!
