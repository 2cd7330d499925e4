#![feature(slice_index_methods)]
#![allow(unused, dead_code, non_snake_case, private_interfaces, unused_imports, unused_mut, unreachable_code, unused_parens)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;
use std::collections::{BTreeMap, VecDeque};
use std::marker::PhantomData;
use std::ops::Index;
use std::slice::SliceIndex;
use vstd::std_specs::core::*;
verus! {

// ---------------------------------------------------------------- panics
// assert!/debug_assert!/unreachable!/panic! in the code become proof obligations
fn vx_assert(c: bool) requires c {}
fn vx_unreachable<T>() -> (r: T) requires false { loop invariant false decreases 0int { } }

// text produced by format!: contents not modelled
#[verifier::external_body]
fn vx_format() -> (r: String) { String::new() }

// ---------------------------------------------------------------- text
// A str is its UTF-8 bytes. Boundaries are defined as in core::str::is_char_boundary.
mod strs {
use super::*;
#[verifier::opaque]
pub open spec fn bs(s: &str) -> Seq<u8> { s.spec_bytes() }
pub open spec fn cont_byte(b: u8) -> bool { 0x80 <= b < 0xC0 }
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || (0 < i < s.len() && !cont_byte(s[i])) }
pub open spec fn ascii_low(b: u8) -> u8 { if 0x41 <= b <= 0x5A { (b + 32) as u8 } else { b } }
// vstd's view of a str's bytes
pub broadcast proof fn lemma_bs(s: &str) ensures #[trigger] s.spec_bytes() == bs(s) { reveal(bs); }
// vstd's boundaries are those of the property
pub broadcast proof fn lemma_bnd(s: &str, i: int)
    requires 0 <= i <= bs(s).len()
    ensures #[trigger] vstd::utf8::is_char_boundary(s.spec_bytes(), i) == bnd(bs(s), i)
{
    reveal(bs);
    let b = s.spec_bytes();
    vstd::utf8::encode_utf8_valid_utf8(s@);
    vstd::utf8::is_char_boundary_start_end_of_seq(b);
    if 0 < i < b.len() {
        vstd::utf8::is_char_boundary_iff_not_is_continuation_byte(b, i);
        let c = b[i];
        assert((c & 0xC0u8 == 0x80u8) == (0x80 <= c && c < 0xC0)) by (bit_vector);
    }
}
pub broadcast proof fn lemma_no_chars(s: &str) ensures (#[trigger] s@.len() == 0) == (bs(s).len() == 0) {
    reveal(bs);
    if s@.len() > 0 { vstd::utf8::encode_utf8_first_scalar(s@); }
}
// TRUSTED: a str occupies at most isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn ax_str_len(s: &str) ensures #[trigger] bs(s).len() <= isize::MAX {}
// TRUSTED: str's Index is SliceIndex::index, which vstd specifies
pub assume_specification<I: SliceIndex<str>> [<str as Index<I>>::index] (s: &str, i: I) -> (r: &<I as SliceIndex<str>>::Output)
    ensures call_ensures(<I as SliceIndex<str>>::index, (i, s), r);
// TRUSTED: `==` on str compares the bytes
#[verifier::external_body]
pub broadcast proof fn ax_str_eq(a: &str, b: &str)
    ensures <str as PartialEqSpec<str>>::obeys_eq_spec(), #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (bs(a) == bs(b)) {}
#[verifier::external_body]
pub broadcast proof fn ax_str_eq_ref(a: &str, b: &str)
    ensures <&str as PartialEqSpec<&str>>::obeys_eq_spec(), #[trigger] <&str as PartialEqSpec<&str>>::eq_spec(&a, &b) == (bs(a) == bs(b)) {}
// TRUSTED: not called by upon; known so that a change which calls it can be judged
pub assume_specification [ str::eq_ignore_ascii_case ] (a: &str, b: &str) -> (r: bool)
    ensures r == (bs(a).len() == bs(b).len() && forall|i: int| 0 <= i < bs(a).len() ==> ascii_low(#[trigger] bs(a)[i]) == ascii_low(bs(b)[i]));
// TRUSTED: std functions vstd does not specify
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T> [std::mem::replace] (o: &mut T, v: T) -> (r: T) ensures r == *old(o), *final(o) == v;
pub assume_specification<T: Default> [std::mem::take] (o: &mut T) -> (r: T) ensures r == *old(o), call_ensures(T::default, (), *final(o));
pub broadcast group group_strs { lemma_no_chars, lemma_bs, lemma_bnd, ax_str_len, ax_str_eq, ax_str_eq_ref }
}
use strs::*;
broadcast use strs::group_strs;
spec fn range_ok(s: Seq<u8>, m: int, n: int) -> bool { 0 <= m <= n <= s.len() && bnd(s, m) && bnd(s, n) }

proof fn ax_str(s: &str) ensures bs(s).len() <= isize::MAX, bnd(bs(s), 0), bnd(bs(s), bs(s).len() as int),
    bs(s).len() > 0 ==> !cont_byte(bs(s)[0])
{
    reveal(bs);
    let b = s.spec_bytes();
    vstd::utf8::encode_utf8_valid_utf8(s@);
    vstd::utf8::is_char_boundary_start_end_of_seq(b);
    if b.len() > 0 {
        vstd::utf8::is_char_boundary_iff_not_is_continuation_byte(b, 0);
        let c = b[0];
        assert((c & 0xC0u8 == 0x80u8) == (0x80 <= c && c < 0xC0)) by (bit_vector);
    }
}
fn vx_len(s: &str) -> (r: usize) ensures r == bs(s).len(), r <= isize::MAX { s.len() }
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (bs(s).len() == 0) { s.len() == 0 }
fn vx_slice<'a>(s: &'a str, m: usize, n: usize) -> (r: &'a str)
    requires range_ok(bs(s), m as int, n as int)
    ensures bs(r) == bs(s).subrange(m as int, n as int)
{ &s[m..n] }
fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (bs(a) == bs(b)) { a == b }

// an ASCII literal's bytes are its characters
proof fn lemma_lit_ascii(t: &str)
    requires vstd::utf8::is_ascii_chars(t@)
    ensures bs(t).len() == t@.len(), forall|i: int| 0 <= i < t@.len() ==> #[trigger] bs(t)[i] == t@[i] as u8
{ reveal(bs); vstd::utf8::is_ascii_chars_encode_utf8(t@); }
// the bytes of a String
spec fn sbytes(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
fn vx_as_str(s: &String) -> (r: &str) ensures bs(r) == sbytes(*s) { proof { reveal(bs); } s.as_str() }
fn vx_str_empty(s: &String) -> (r: bool) ensures r == (sbytes(*s).len() == 0) { vx_as_str(s).len() == 0 }
fn vx_to_owned(s: &str) -> (r: String) ensures sbytes(r) == bs(s) { proof { reveal(bs); } s.to_owned() }
// two Strings with the same bytes are the same
proof fn lemma_string(a: String, b: String) requires sbytes(a) == sbytes(b) ensures a@ == b@
{ vstd::utf8::encode_utf8_decode_utf8(a@); vstd::utf8::encode_utf8_decode_utf8(b@); }

// the bytes of a character
uninterp spec fn char_bytes(c: char) -> Seq<u8>;

// ---------------------------------------------------------------- spans
//@item src/types/span.rs Span
//@attr #[derive(Clone, Copy)]
//@end
spec fn span_ok(s: Seq<u8>, sp: Span) -> bool { range_ok(s, sp.m as int, sp.n as int) }
pub closed spec fn span_text(s: Seq<u8>, sp: Span) -> Seq<u8> { s.subrange(sp.m as int, sp.n as int) }

impl IndexSpecImpl<Span> for str {
    closed spec fn index_req(&self, span: &Span) -> bool { span_ok(bs(self), *span) }
}
impl Index<Span> for str {
    type Output = str;
//@fn src/types/span.rs <Index<Span> for str>::index
//@trait
//@ret r
//@spec
    ensures bs(r) == span_text(bs(self), span)
//@end
}

// ---------------------------------------------------------------- errors
// an io::Error
#[verifier::external_body]
struct IoE { x: u8 }
enum EK { Syntax, Render, Format, Filter, Io(IoE), Other, IncludeDepth }
// what is known about an error: its kind, the template it names and, when it is about a place, the source and span
struct EV { kind: EK, at: Option<(Seq<u8>, Span)>, name: Option<Seq<u8>> }
spec fn ev(k: EK, src: Seq<u8>, sp: Span) -> EV { EV { kind: k, at: Some((src, sp)), name: None } }
spec fn named(e: EV, n: Option<Seq<u8>>) -> EV { if e.name is None { EV { name: n, ..e } } else { e } }
spec fn enriched(e: EV, s: Seq<u8>, sp: Span) -> EV { if e.at is None { EV { at: Some((s, sp)), ..e } } else { e } }
spec fn ev_write() -> EV { EV { kind: EK::Format, at: None, name: None } }
spec fn ev_depth() -> EV { EV { kind: EK::IncludeDepth, at: None, name: None } }

} // verus!
