//@include prelude.vrs
//@include kinds.vrs
//@include tags.vrs
//@include searcher.vrs
//@include engine0.vrs
//@include lexer.vrs
// C03: of the text before the next tag everything is given out but white space next to a trimming tag
verus! {
spec fn blank(s: Seq<u8>, i: int, j: int) -> bool { trim_start_at(s, i, j) == j }
proof fn lemma_trim_start_blank(s: Seq<u8>, i: int, j: int)
    requires utf8ok(s), range_ok(s, i, j)
    ensures blank(s, i, trim_start_at(s, i, j)), trim_start_at(s, i, j) == j || !space(char_at(s, trim_start_at(s, i, j)))
    decreases j - i
{
    if i < j && space(char_at(s, i)) {
        lemma_char(s, i); lemma_no_bnd_inside(s, i, j);
        lemma_trim_start_blank(s, i + clen(s[i]), j);
        lemma_trim_start(s, i + clen(s[i]), j);
    }
}
proof fn thm_text(pats: Pats, s: Seq<u8>, x: LX)
    requires pats_good(pats), utf8ok(s), lx_ok(s, x), x.mode is Text, x.next is None, x.cursor < s.len()
    ensures ({
        let i = x.cursor;
        let r = lex_step(pats, s, x);
        match next_tag(pats, s, i) {
            // up to the next tag; the tag itself comes next
            Some((k, j, e)) => begins(tok_of(k)) && j > i ==> r.0 is Tok && r.0->Tok_0 is Raw && given_out(s, i, j, x.trim, trims(k), r.0->Tok_1)
                && r.1.next == Some((tok_of(k), spn(j, e))) && r.1.cursor == e && !r.1.trim,
            // up to the end
            None => r.0 is Tok && r.0->Tok_0 is Raw && given_out(s, i, s.len() as int, x.trim, false, r.0->Tok_1) && r.1.next is None && r.1.cursor == s.len(),
        } })
{
    let i = x.cursor;
    lemma_next_tag(pats, s, i);
    if let Some((k, j, e)) = next_tag(pats, s, i) { thm_given_out(s, i, j, x.trim, trims(k)); } else { thm_given_out(s, i, s.len() as int, x.trim, false); }
}
// all of s[i..j] but white space at its start (when left) and at its end (when right)
spec fn given_out(s: Seq<u8>, i: int, j: int, left: bool, right: bool, sp: Span) -> bool {
    &&& i <= sp.m <= sp.n <= j
    &&& !left ==> sp.m == i
    &&& !right ==> sp.n == j
    &&& blank(s, i, sp.m as int) && (left ==> sp.m == sp.n || !space(char_at(s, sp.m as int)))
    &&& blank(s, sp.n as int, j) && (right ==> forall|k: int| #![trigger bnd(s, k)] sp.m <= k < sp.n && bnd(s, k) ==> !blank(s, k, j))
}
proof fn lemma_blank_skip(s: Seq<u8>, i: int, m: int, j: int)
    requires utf8ok(s), range_ok(s, i, m), range_ok(s, m, j), blank(s, i, m)
    ensures trim_start_at(s, i, j) == trim_start_at(s, m, j)
    decreases m - i
{
    if i < m {
        lemma_trim_start(s, i, m);
        lemma_char(s, i); lemma_no_bnd_inside(s, i, m);
        lemma_blank_skip(s, i + clen(s[i]), m, j);
    }
}
proof fn thm_given_out(s: Seq<u8>, i: int, j: int, left: bool, right: bool)
    requires utf8ok(s), range_ok(s, i, j)
    ensures given_out(s, i, j, left, right, kept(s, i, j, left, right))
{
    ax_trim_end(s, i, j);
    let e = if right { trim_end_at(s, i, j) } else { j };
    lemma_trim_start(s, i, e);
    lemma_trim_start_blank(s, i, e);
}
// and only a tag that trims makes the text after it be trimmed
proof fn thm_trim(pats: Pats, s: Seq<u8>, x: LX)
    requires x.next is None, x.cursor < s.len(), !(x.mode is Text)
    ensures ({ let r = lex_step(pats, s, x);
        r.0 is Tok && r.1.mode is Text ==> match x.mode {
            Mode::Comment(..) => next_tag(pats, s, x.cursor) is Some && r.1.trim == trims(next_tag(pats, s, x.cursor)->Some_0.0),
            _ => tag_at(pats, s, x.cursor) is Some && r.1.trim == trims(tag_at(pats, s, x.cursor)->Some_0.0) } })
{}
} // verus!
