// Contracts of std functions that vstd says nothing about and that the tree does not use today:
// one is put into a unit only when the code under contract calls it (and the evidence then lists it).
//@std core::option::impl&%0::or
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { d });
//@std core::option::impl&%0::xor
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && d is None { o } else if o is None && d is Some { d } else { None });
//@std core::option::impl&%0::and
pub assume_specification<T, U> [Option::<T>::and::<U>] (o: Option<T>, d: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { d } else { None });
//@std core::option::impl&%0::zip
pub assume_specification<T, U> [Option::<T>::zip::<U>] (o: Option<T>, d: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && d is Some { Some((o->0, d->0)) } else { None });
//@std core::option::impl&%3::copied
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
//@std core::option::impl&%50::flatten
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
//@std core::option::impl&%5::transpose
pub assume_specification<T, E> [Option::<std::result::Result<T, E>>::transpose] (o: Option<std::result::Result<T, E>>) -> (r: std::result::Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
//@std core::result::impl&%0::unwrap_or
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: std::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
//@std core::bool::impl&%0::then_some
pub assume_specification<T> [bool::then_some::<T>] (b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None });
//@std core::num::impl&%11::abs_diff
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });
//@std core::num::impl&%3::is_negative
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool) ensures r == (a < 0);
//@std core::num::impl&%3::is_positive
pub assume_specification [i64::is_positive] (a: i64) -> (r: bool) ensures r == (a > 0);
//@std core::num::impl&%3::abs
pub assume_specification [i64::abs] (a: i64) -> (r: i64) requires a > i64::MIN ensures r == (if a < 0 { -a } else { a as int });
//@std core::num::impl&%3::unsigned_abs
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int });
//@std core::char::methods::impl&%0::is_ascii_digit
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
//@std core::char::methods::impl&%0::is_ascii_alphabetic
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z'));
//@std core::char::methods::impl&%0::is_ascii_alphanumeric
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
//@std core::char::methods::impl&%0::is_ascii_whitespace
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c == '\x0C');
//@std core::num::impl&%6::is_ascii_digit
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == (48 <= *c <= 57);
//@std alloc::string::impl&%0::with_capacity
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
//@std core::mem::replace
pub assume_specification<T> [std::mem::replace] (o: &mut T, v: T) -> (r: T) ensures r == *old(o), *final(o) == v;
