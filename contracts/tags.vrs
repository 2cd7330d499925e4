// Characters, and what the delimiters in a text are
verus! {
// ---------------------------------------------------------------- characters
spec fn clen(b: u8) -> int { if b < 0x80 { 1 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else { 4 } }
spec fn char_len(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
// the character that starts at byte i
uninterp spec fn decode(b: Seq<u8>) -> char;
spec fn char_at(s: Seq<u8>, i: int) -> char { decode(s.subrange(i, i + clen(s[i]))) }
spec fn char_ok(s: Seq<u8>, i: int) -> bool {
    i + clen(s[i]) <= s.len() && bnd(s, i + clen(s[i])) && (forall|j: int| i < j < i + clen(s[i]) ==> cont_byte(#[trigger] s[j])) && clen(s[i]) == char_len(char_at(s, i))
    && char_bytes(char_at(s, i)) == s.subrange(i, i + clen(s[i]))
    && (s[i] < 128 ==> char_at(s, i) as u32 == s[i] as u32) && (s[i] >= 128 ==> char_at(s, i) as u32 >= 128)
}
spec fn utf8ok(s: Seq<u8>) -> bool {
    s.len() <= isize::MAX && (s.len() > 0 ==> !cont_byte(s[0])) && (forall|i: int| bnd(s, i) && 0 <= i < s.len() ==> #[trigger] char_ok(s, i))
}
// TRUSTED: a str is UTF-8: a character's first byte says how long it is, and an ASCII byte is that character
#[verifier::external_body]
proof fn ax_utf8(s: &str) ensures utf8ok(bs(s)) {}
#[verifier::external_body]
proof fn ax_utf8_string(s: String) ensures utf8ok(sbytes(s)) {}
proof fn lemma_char(s: Seq<u8>, i: int) requires utf8ok(s), bnd(s, i), 0 <= i < s.len() ensures char_ok(s, i), 1 <= clen(s[i]) {}
// a text that occurs in another starts and ends between characters
proof fn lemma_occurs_bnd(s: Seq<u8>, p: Seq<u8>, i: int)
    requires utf8ok(s), utf8ok(p), occurs(s, p, i), p.len() > 0
    ensures bnd(s, i), bnd(s, i + p.len())
{
    assert(s[i] == s.subrange(i, i + p.len())[0]);
    lemma_occurs_walk(s, p, i, 0);
}
proof fn lemma_occurs_walk(s: Seq<u8>, p: Seq<u8>, i: int, x: int)
    requires utf8ok(s), utf8ok(p), occurs(s, p, i), 0 <= x <= p.len(), bnd(p, x), bnd(s, i + x)
    ensures bnd(s, i + p.len())
    decreases p.len() - x
{
    if x < p.len() {
        lemma_char(p, x); 
        assert(p[x] == s.subrange(i, i + p.len())[x]);
        lemma_char(s, i + x);
        lemma_occurs_walk(s, p, i, x + clen(p[x]));
    }
}
spec fn left_of(s: Seq<u8>, i: int) -> int { if i >= s.len() { 0 } else { s.len() - i } }
spec fn spn(a: int, b: int) -> Span { Span { m: a as usize, n: b as usize } }

// TRUSTED: char_indices of a str
#[derive(Clone, Copy)]
struct VxChars<'a> { src: &'a str, pos: usize }
impl<'a> VxChars<'a> {
    spec fn ok(&self) -> bool { self.pos <= bs(self.src).len() && bnd(bs(self.src), self.pos as int) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).src == old(self).src,
            old(self).pos == bs(old(self).src).len() ==> r is None && final(self).pos == old(self).pos,
            old(self).pos < bs(old(self).src).len() ==> r == Some((old(self).pos, char_at(bs(old(self).src), old(self).pos as int)))
                && final(self).pos == old(self).pos + clen(bs(old(self).src)[old(self).pos as int])
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_chars<'a>(s: &'a str, i: usize) -> (r: VxChars<'a>)
    requires range_ok(bs(s), i as int, bs(s).len() as int)
    ensures r.src == s, r.pos == i, r.ok()
{ unimplemented!() }
#[verifier::external_body]
fn vx_len_utf8(c: char) -> (r: usize) ensures r == char_len(c) { c.len_utf8() }
spec fn digit(c: char) -> bool { '0' <= c <= '9' }
spec fn alnum(c: char) -> bool { digit(c) || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
#[verifier::external_body]
fn vx_digit(c: char) -> (r: bool) ensures r == digit(c) { c.is_ascii_digit() }
#[verifier::external_body]
fn vx_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_ascii_alphanumeric() }
// TRUSTED: the unicode-ident tables
uninterp spec fn xid_start(c: char) -> bool;
uninterp spec fn xid_continue(c: char) -> bool;
#[verifier::external_body]
fn vx_xid_start(c: char) -> (r: bool) ensures r == xid_start(c) { unimplemented!() }
#[verifier::external_body]
fn vx_xid_continue(c: char) -> (r: bool) ensures r == xid_continue(c) { unimplemented!() }
// TRUSTED: str::trim_end and str::trim_start
uninterp spec fn space(c: char) -> bool;
spec fn trim_start_at(s: Seq<u8>, i: int, j: int) -> int
    decreases left_of(s, i)
{ if 0 <= i < j <= s.len() && space(char_at(s, i)) { trim_start_at(s, i + clen(s[i]), j) } else { i } }
// the end of the last character of s[i..j] that is not white space
uninterp spec fn trim_end_at(s: Seq<u8>, i: int, j: int) -> int;
#[verifier::external_body]
proof fn ax_trim_end(s: Seq<u8>, i: int, j: int)
    requires range_ok(s, i, j)
    ensures i <= trim_end_at(s, i, j) <= j, bnd(s, trim_end_at(s, i, j)),
        trim_end_at(s, i, j) == j || trim_start_at(s, trim_end_at(s, i, j), j) == j,
        forall|k: int| i <= k < trim_end_at(s, i, j) && bnd(s, k) ==> trim_start_at(s, k, j) != j
{}
#[verifier::external_body]
fn vx_trim_end_len(s: &str, i: usize, j: usize) -> (r: usize)
    requires range_ok(bs(s), i as int, j as int)
    ensures i + r == trim_end_at(bs(s), i as int, j as int)
{ s[i..j].trim_end().len() }
#[verifier::external_body]
fn vx_trim_start_len(s: &str, i: usize, j: usize) -> (r: usize)
    requires range_ok(bs(s), i as int, j as int)
    ensures j - r == trim_start_at(bs(s), i as int, j as int)
{ s[i..j].trim_start().len() }
proof fn lemma_trim_start(s: Seq<u8>, i: int, j: int)
    requires utf8ok(s), range_ok(s, i, j)
    ensures i <= trim_start_at(s, i, j) <= j, bnd(s, trim_start_at(s, i, j))
    decreases j - i
{
    if i < j && space(char_at(s, i)) {
        lemma_char(s, i);
        lemma_no_bnd_inside(s, i, j);
        lemma_trim_start(s, i + clen(s[i]), j);
    }
}
proof fn lemma_no_bnd_inside(s: Seq<u8>, i: int, j: int)
    requires utf8ok(s), bnd(s, i), bnd(s, j), 0 <= i < j <= s.len()
    ensures i + clen(s[i]) <= j
{ lemma_char(s, i); if j < i + clen(s[i]) { assert(cont_byte(s[j])); } }

// ---------------------------------------------------------------- delimiters in a text
spec fn occurs(s: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
// among the first k patterns the longest that occurs at i, of equal ones the first
spec fn best(pats: Pats, s: Seq<u8>, i: int, k: nat) -> Option<int>
    decreases k
{
    if k == 0 || k > pats.len() { None } else {
        let b = best(pats, s, i, (k - 1) as nat);
        if occurs(s, pats[k - 1].1, i) && (b is None || pats[k - 1].1.len() > pats[b->Some_0].1.len()) { Some(k - 1) } else { b }
    }
}
// the tag that starts at i: its kind and where it ends
spec fn tag_at(pats: Pats, s: Seq<u8>, i: int) -> Option<(Kind, int)> {
    match best(pats, s, i, pats.len()) { Some(b) => Some((pats[b].0, i + pats[b].1.len())), None => None }
}
// the first tag that starts at or after i
spec fn next_tag(pats: Pats, s: Seq<u8>, i: int) -> Option<(Kind, int, int)>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None } else { match tag_at(pats, s, i) { Some((k, e)) => Some((k, i, e)), None => next_tag(pats, s, i + 1) } }
}
spec fn pats_utf8(p: Pats) -> bool { forall|i: int| 0 <= i < p.len() ==> utf8ok((#[trigger] p[i]).1) }
spec fn pats_good(p: Pats) -> bool { pats_ok(p) && pats_utf8(p) }
proof fn lemma_best(pats: Pats, s: Seq<u8>, i: int, k: nat)
    requires k <= pats.len()
    ensures match best(pats, s, i, k) {
        Some(b) => 0 <= b < k && occurs(s, pats[b].1, i) && (forall|q: int| 0 <= q < k && occurs(s, #[trigger] pats[q].1, i) ==> pats[q].1.len() < pats[b].1.len() || (pats[q].1.len() == pats[b].1.len() && b <= q)),
        None => forall|q: int| 0 <= q < k ==> !occurs(s, #[trigger] pats[q].1, i) }
    decreases k
{ if k > 0 { lemma_best(pats, s, i, (k - 1) as nat); } }
proof fn lemma_tag_at(pats: Pats, s: Seq<u8>, i: int)
    requires pats_good(pats), utf8ok(s)
    ensures tag_at(pats, s, i) is Some ==> { let e = tag_at(pats, s, i)->Some_0.1; 0 <= i < e <= s.len() && range_ok(s, i, e) }
{
    lemma_best(pats, s, i, pats.len());
    if let Some(b) = best(pats, s, i, pats.len()) { lemma_occurs_bnd(s, pats[b].1, i); }
}
proof fn lemma_next_tag(pats: Pats, s: Seq<u8>, i: int)
    requires pats_good(pats), utf8ok(s), 0 <= i
    ensures match next_tag(pats, s, i) {
        Some((k, j, e)) => i <= j < e <= s.len() && range_ok(s, j, e) && tag_at(pats, s, j) == Some((k, e)) && (forall|x: int| i <= x < j ==> tag_at(pats, s, x) is None),
        None => forall|x: int| i <= x < s.len() ==> tag_at(pats, s, x) is None }
    decreases s.len() - i
{
    if i < s.len() {
        lemma_tag_at(pats, s, i);
        if tag_at(pats, s, i) is None { lemma_next_tag(pats, s, i + 1); }
    }
}

} // verus!
