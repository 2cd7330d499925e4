// The parser's code against the grammar
verus! {
//@item src/compile/parse.rs Parser
//@end
//@item src/compile/parse.rs State
//@sub `enum State` => `enum PState`
//@end
//@item src/compile/parse.rs Block
//@sub `enum Block` => `enum PBlock`
//@end
// ---------------------------------------------------------------- the stream of tokens
spec fn good(s: Seq<u8>, r: Toks) -> bool
    decreases r.len()
{ r.len() == 0 || (tok_ok(s, r[0].0, r[0].1) && !(r[0].0 is Whitespace) && (r.len() > 1 ==> r[0].1.n <= r[1].1.m) && good(s, after(r))) }
// the tokens are those of a place and of where they lead from there
spec fn placed(r: Toks, p: Place) -> bool
    decreases r.len()
{ r.len() == 0 || (leads(p, r[0].0) is Some && placed(after(r), leads(p, r[0].0)->Some_0)) }
spec fn inside(r: Toks) -> bool { placed(r, Place::Tag(Token::EndExpr)) || placed(r, Place::Tag(Token::EndBlock)) }
proof fn lemma_stream(pats: Pats, s: Seq<u8>, x: LX)
    requires pats_good(pats), utf8ok(s), lx_ok(s, x)
    ensures good(s, toks(pats, s, x)), placed(toks(pats, s, x), place(x)), toks(pats, s, x).len() > 0 ==> lo(x) <= toks(pats, s, x)[0].1.m,
        match next_tok(pats, s, x).0 {
            LexOut::Tok(t, sp) => toks(pats, s, x).len() > 0 && toks(pats, s, x)[0] == (t, sp) && after(toks(pats, s, x)) == toks(pats, s, next_tok(pats, s, x).1) && stop(pats, s, x) == stop(pats, s, next_tok(pats, s, x).1),
            LexOut::Err(sp) => toks(pats, s, x).len() == 0 && stop(pats, s, x) == Some(sp) && span_ok(s, sp),
            LexOut::End => toks(pats, s, x).len() == 0 && stop(pats, s, x) is None && toks(pats, s, next_tok(pats, s, x).1).len() == 0 && stop(pats, s, next_tok(pats, s, x).1) is None,
        }
    decreases lx_size(s, x)
{
    lemma_next_tok(pats, s, x);
    let r = next_tok(pats, s, x);
    if let LexOut::Tok(t, sp) = r.0 {
        lemma_stream(pats, s, r.1);
        assert(after(toks(pats, s, x)) =~= toks(pats, s, r.1));
    }
    if r.0 is End { lemma_end_again(pats, s, x); }
}
proof fn lemma_end_again(pats: Pats, s: Seq<u8>, x: LX)
    requires pats_good(pats), utf8ok(s), lx_ok(s, x), next_tok(pats, s, x).0 is End
    ensures next_tok(pats, s, next_tok(pats, s, x).1).0 is End
    decreases lx_size(s, x)
{
    lemma_step(pats, s, x);
    let r = lex_step(pats, s, x);
    if r.0 is Tok && r.0->Tok_0 is Whitespace { lemma_end_again(pats, s, r.1); }
}
spec fn psrc(p: Parser) -> Seq<u8> { bs(p.tokens.source) }
spec fn lex_toks(l: Lexer) -> Toks { toks(lpats(l), bs(l.source), lv(l)) }
spec fn lex_stop(l: Lexer) -> Option<Span> { stop(lpats(l), bs(l.source), lv(l)) }
// the tokens the parser has not taken
spec fn ptoks(p: Parser) -> Toks { match p.peeked { Some(Some(t)) => seq![t] + lex_toks(p.tokens), _ => lex_toks(p.tokens) } }
spec fn pcx(p: Parser) -> Cx { Cx { s: psrc(p), err: lex_stop(p.tokens) } }
spec fn p_ok(p: Parser) -> bool {
    &&& lex_ok(p.tokens)
    &&& p.peeked == Some(None::<(Token, Span)>) ==> lex_toks(p.tokens).len() == 0 && lex_stop(p.tokens) is None
    &&& good(psrc(p), ptoks(p))
}
// the parser has gone on to rest
spec fn moved(a: Parser, b: Parser, rest: Toks) -> bool {
    b.tokens.source == a.tokens.source && b.tokens.engine == a.tokens.engine && pcx(b) == pcx(a) && p_ok(b) && ptoks(b) == rest && rest.len() <= ptoks(a).len()
        && (inside(ptoks(a)) ==> inside(rest))
}
spec fn bad<T>(r: Result<T>, p: Parser, sp: Span) -> bool { err_at(r, EK::Syntax, psrc(p), sp) }
proof fn lemma_pcx(p: Parser) ensures pcx(p).s == psrc(p) {}
proof fn lemma_peeked(p: Parser)
    requires p.peeked is Some, p.peeked->Some_0 is Some
    ensures after(ptoks(p)) == lex_toks(p.tokens)
{ assert(after(ptoks(p)) =~= lex_toks(p.tokens)); }

proof fn lemma_keywords()
    ensures kw_of(bs("if")) is If, kw_of(bs("not")) is Not, kw_of(bs("else")) is Else, kw_of(bs("endif")) is EndIf, kw_of(bs("for")) is For, kw_of(bs("in")) is In, kw_of(bs("endfor")) is EndFor,
        kw_of(bs("with")) is With, kw_of(bs("as")) is As, kw_of(bs("endwith")) is EndWith, kw_of(bs("include")) is Include, kw_of(bs("true")) is True, kw_of(bs("false")) is False
{
    reveal_strlit("if"); reveal_strlit("not"); reveal_strlit("else"); reveal_strlit("endif"); reveal_strlit("for"); reveal_strlit("in"); reveal_strlit("endfor");
    reveal_strlit("with"); reveal_strlit("as"); reveal_strlit("endwith"); reveal_strlit("include"); reveal_strlit("true"); reveal_strlit("false");
    lemma_lit_ascii("if"); lemma_lit_ascii("not"); lemma_lit_ascii("else"); lemma_lit_ascii("endif"); lemma_lit_ascii("for"); lemma_lit_ascii("in"); lemma_lit_ascii("endfor");
    lemma_lit_ascii("with"); lemma_lit_ascii("as"); lemma_lit_ascii("endwith"); lemma_lit_ascii("include"); lemma_lit_ascii("true"); lemma_lit_ascii("false");
    assert(bs("if")[1] == 102u8); assert(bs("in")[1] == 110u8); assert(bs("as")[0] == 97u8); assert(bs("if")[0] == 105u8);
    assert(bs("not")[0] == 110u8); assert(bs("for")[0] == 102u8);
    assert(bs("else")[0] == 101u8); assert(bs("with")[0] == 119u8); assert(bs("true")[0] == 116u8);
    assert(bs("endif")[0] == 101u8); assert(bs("false")[0] == 102u8);
    assert(bs("endwith")[0] == 101u8); assert(bs("include")[0] == 105u8);
}

impl Keyword {
//@fn src/compile/parse.rs Keyword::human
//@end
//@fn src/compile/parse.rs Keyword::from_str
//@ret r
//@strmatch
//@sub `Self ::` => `Keyword::`
//@spec
    requires is_keyword(bs(s))
    ensures r == kw_of(bs(s))
//@start
    proof { lemma_keywords(); }
//@end
}
// TRUSTED: reading numbers
#[verifier::external_body]
fn vx_parse_usize(t: &str) -> (r: std::result::Result<usize, ()>)
    requires bs(t).len() > 0, digits(bs(t), 0, bs(t).len() as int)
    ensures dec(bs(t)) <= usize::MAX ==> r is Ok && r->Ok_0 == dec(bs(t)), dec(bs(t)) > usize::MAX ==> r is Err
{ t.parse().map_err(|_| ()) }
#[verifier::external_body]
fn vx_parse_f64(t: &str) -> (r: Option<f64>) ensures r == f64_of(bs(t)) { t.parse().ok() }
#[verifier::external_body]
fn vx_f64_neg(f: f64) -> (r: f64) ensures r == f64_neg(f) { -f }
#[verifier::external_body]
fn vx_to_digit(d: u8, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures match digit_value(d, radix as int) { Some(v) => r is Some && r->Some_0 == v, None => r is None }
{ (d as char).to_digit(radix) }
#[verifier::external_body]
fn vx_bytes<'a>(t: &'a str) -> (r: &'a [u8]) ensures r@ == bs(t) { t.as_bytes() }
spec fn asc(c: char) -> bool { (c as u32) < 128 }
spec fn has_byte(t: Seq<u8>, c: char) -> bool { exists|k: int| 0 <= k < t.len() && #[trigger] t[k] == c as u8 }
// TRUSTED: str::contains of ASCII characters
#[verifier::external_body]
fn vx_contains1(t: &str, a: char) -> (r: bool) requires asc(a) ensures r == has_byte(bs(t), a) { t.contains(a) }
fn vx_contains3(t: &str, a: char, b: char, c: char) -> (r: bool)
    requires asc(a), asc(b), asc(c)
    ensures r == (has_byte(bs(t), a) || has_byte(bs(t), b) || has_byte(bs(t), c))
{ vx_contains1(t, a) || vx_contains1(t, b) || vx_contains1(t, c) }
#[verifier::external_body]
fn vx_new_string() -> (r: String) ensures sbytes(r) == Seq::<u8>::empty() { String::new() }
#[verifier::external_body]
fn vx_push(t: &mut String, c: char) ensures sbytes(*final(t)) == sbytes(*old(t)) + char_bytes(c) { t.push(c) }
// TRUSTED: an ASCII character is one byte
#[verifier::external_body]
proof fn ax_ascii_char(c: char) requires asc(c) ensures char_bytes(c) == seq![c as u8] {}
// characters with their offsets in a larger text
struct VxOff<'a> { it: VxChars<'a>, off: usize }
impl<'a> VxOff<'a> {
    spec fn ok(&self) -> bool { self.it.ok() && self.off + bs(self.it.src).len() <= isize::MAX }
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).off == old(self).off, final(self).it.src == old(self).it.src,
            old(self).it.pos == bs(old(self).it.src).len() ==> r is None && final(self).it.pos == old(self).it.pos,
            old(self).it.pos < bs(old(self).it.src).len() ==> r == Some(((old(self).off + old(self).it.pos) as usize, char_at(bs(old(self).it.src), old(self).it.pos as int)))
                && final(self).it.pos == old(self).it.pos + clen(bs(old(self).it.src)[old(self).it.pos as int])
    { match self.it.next() { Some((i, c)) => Some((self.off + i, c)), None => None } }
}
fn vx_chars_off<'a>(t: &'a str, off: usize) -> (r: VxOff<'a>)
    requires off + bs(t).len() <= isize::MAX
    ensures r.ok(), r.off == off, r.it.src == t, r.it.pos == 0
{ proof { ax_str(t); } VxOff { it: vx_chars(t, 0), off } }

impl<'engine, 'source> Parser<'engine, 'source> {
//@fn src/compile/parse.rs Parser::new
//@ret r
//@spec
    ensures searchable(engine.searcher) ==> p_ok(r), r.tokens.source == source, r.tokens.engine == engine,
        ptoks(r) == toks(spats(engine.searcher), bs(source), lx0()), pcx(r) == (Cx { s: bs(source), err: stop(spats(engine.searcher), bs(source), lx0()) }),
        searchable(engine.searcher) ==> placed(ptoks(r), Place::Text)
//@start
    proof { ax_utf8(source); ax_str(source); if searchable(engine.searcher) { lemma_stream(spats(engine.searcher), bs(source), lx0()); } }
//@end
//@fn src/compile/parse.rs Parser::source
//@ret r
//@spec
    ensures r == self.tokens.source
//@end
//@fn src/compile/parse.rs Parser::err_unexpected_eof
//@sig fn err_unexpected_eof<D>(&self, exp: D) -> Error
//@ret r
//@sub `Error :: syntax ( $m , self . source ( ) , $a .. $b )` => `Error::syntax($m, self.source(), span_from($a..$b))`
//@spec
    ensures r.v() == ev(EK::Syntax, psrc(*self), spn(psrc(*self).len() as int, psrc(*self).len() as int))
//@start
    proof { ax_str(self.tokens.source); }
//@end
//@fn src/compile/parse.rs Parser::err_unexpected_token
//@sig fn err_unexpected_token<D>(&self, exp: D, got: Token, span: Span) -> Error
//@ret r
//@spec
    requires span_ok(psrc(*self), span)
    ensures r.v() == ev(EK::Syntax, psrc(*self), span)
//@end
//@fn src/compile/parse.rs Parser::err_unexpected_keyword
//@sig fn err_unexpected_keyword<D>(&self, kw: D, span: Span) -> Error
//@ret r
//@spec
    requires span_ok(psrc(*self), span)
    ensures r.v() == ev(EK::Syntax, psrc(*self), span)
//@end
//@fn src/compile/parse.rs Parser::next
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_peek(pcx(*old(self)), ptoks(*old(self))) {
        Err(sp) => bad(r, *old(self), sp),
        Ok(None) => r is Ok && r->Ok_0 is None && moved(*old(self), *final(self), ptoks(*old(self))),
        Ok(Some(t)) => r is Ok && r->Ok_0 == Some(t) && taken(*old(self), *final(self)) }
//@start
    proof { if self.peeked is Some && self.peeked->Some_0 is Some { lemma_peeked(*self); } ax_utf8(self.tokens.source); ax_str(self.tokens.source); lemma_stream(lpats(self.tokens), psrc(*self), lv(self.tokens)); }
//@end
//@fn src/compile/parse.rs Parser::peek
//@ret r
//@try
//@sub `if let o @ None = & mut self . peeked { * o = Some ( $e ) ; }` => `if self.peeked.is_none() { self.peeked = Some($e); }`
//@spec
    requires p_ok(*old(self))
    ensures match g_peek(pcx(*old(self)), ptoks(*old(self))) {
        Err(sp) => bad(r, *old(self), sp),
        Ok(t) => r is Ok && r->Ok_0 == t && moved(*old(self), *final(self), ptoks(*old(self))) }
//@start
    let ghost a = *self;
    proof { ax_utf8(self.tokens.source); ax_str(self.tokens.source); lemma_stream(lpats(self.tokens), psrc(*self), lv(self.tokens)); }
//@before `Ok ( self . peeked . unwrap ( ) )`
    proof { assert(ptoks(*self) =~= ptoks(a)); }
//@end
//@fn src/compile/parse.rs Parser::is_next
//@ret r
//@try
//@sub `Ok ( self . peek ( ) ? . map ( | ( $t_id , $s_id ) | $b ) . unwrap_or ( $d ) )` => `Ok(match self.peek()? { Some(($t_id, $s_id)) => { $b } None => $d })`
//@spec
    requires p_ok(*old(self))
    ensures match g_is(pcx(*old(self)), ptoks(*old(self)), token) { Err(sp) => bad(r, *old(self), sp), Ok(b) => r is Ok && r->Ok_0 == b && moved(*old(self), *final(self), ptoks(*old(self))) }
//@end
//@fn src/compile/parse.rs Parser::is_next_keyword
//@ret r
//@try
//@sub `Ok ( self . peek ( ) ? . map ( | ( $t_id , $s_id ) | $b ) . unwrap_or ( $d ) )` => `Ok(match self.peek()? { Some(($t_id, $s_id)) => { $b } None => $d })`
//@spec
    requires p_ok(*old(self))
    ensures match g_is_kw(pcx(*old(self)), ptoks(*old(self)), exp) { Err(sp) => bad(r, *old(self), sp), Ok(b) => r is Ok && r->Ok_0 == b && moved(*old(self), *final(self), ptoks(*old(self))) }
//@end
//@fn src/compile/parse.rs Parser::expect
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_tok(pcx(*old(self)), ptoks(*old(self)), exp) { Err(sp) => bad(r, *old(self), sp), Ok((sp, rest)) => r is Ok && r->Ok_0 == sp && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) }
//@end
//@fn src/compile/parse.rs Parser::parse
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_any(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp), Ok((t, rest)) => r is Ok && r->Ok_0 == t && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) }
//@end
//@fn src/compile/parse.rs Parser::parse_ident
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_ident(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp), Ok((sp, rest)) => r is Ok && r->Ok_0.span == sp && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) }
//@end
//@fn src/compile/parse.rs Parser::parse_keyword
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_keyword(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp), Ok((k, rest)) => r is Ok && r->Ok_0 == k && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) && span_ok(psrc(*old(self)), k.1) }
//@end
//@fn src/compile/parse.rs Parser::expect_keyword
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_kw(pcx(*old(self)), ptoks(*old(self)), exp) { Err(sp) => bad(r, *old(self), sp), Ok((sp, rest)) => r is Ok && r->Ok_0 == sp && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) }
//@end
//@fn src/compile/parse.rs Parser::parse_access
//@ret r
//@try
//@sub `self . source ( ) [ span ] . parse ( )` => `vx_parse_usize(&self.source()[span])`
//@spec
    requires p_ok(*old(self))
    ensures match g_access(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp), Ok((a, rest)) => r is Ok && gacc(r->Ok_0) == a && rest == after(ptoks(*old(self))) && taken(*old(self), *final(self)) && span_ok(psrc(*old(self)), access_span(r->Ok_0)) }
//@end
//@fn src/compile/parse.rs Parser::parse_loop_vars
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_vars(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp), Ok((v, rest)) => r is Ok && gvars(r->Ok_0) == v && moved(*old(self), *final(self), rest) && wf_loop_vars(psrc(*old(self)), r->Ok_0) }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword);
//@end
}

// ---------------------------------------------------------------- strings
proof fn lemma_string_last(s: Seq<u8>, i: int, esc: bool)
    requires utf8ok(s), range_ok(s, i, s.len() as int), string_end(s, i, esc) is Ok
    ensures i < string_end(s, i, esc)->Ok_0 <= s.len(), s[string_end(s, i, esc)->Ok_0 - 1] == 34, bnd(s, string_end(s, i, esc)->Ok_0 - 1), bnd(s, string_end(s, i, esc)->Ok_0)
    decreases s.len() - i
{
    lemma_string_end(s, i, esc);
    if i < s.len() {
        lemma_char(s, i); let c = char_at(s, i);
        if !(c == '\r' || c == '\n' || (c == '"' && !esc)) { lemma_string_last(s, i + clen(s[i]), c == '\\' && !esc); }
    }
}
// a character of a part of a text is a character of the text
proof fn lemma_part_char(s: Seq<u8>, t: Seq<u8>, m: int, k: int)
    requires utf8ok(s), utf8ok(t), 0 <= m, m + t.len() <= s.len(), t == s.subrange(m, m + t.len()), 0 <= k < t.len(), bnd(t, k), bnd(s, m)
    ensures bnd(s, m + k), char_at(t, k) == char_at(s, m + k), t[k] == s[m + k], k + clen(t[k]) <= t.len(), bnd(t, k + clen(t[k])), bnd(s, m + k + clen(t[k])) || k + clen(t[k]) == t.len()
{
    lemma_char(t, k);
    assert(t[k] == s[m + k]);
    assert(t.subrange(k, k + clen(t[k])) =~= s.subrange(m + k, m + k + clen(t[k])));
    if k + clen(t[k]) < t.len() { assert(t[k + clen(t[k])] == s[m + k + clen(t[k])]); }
}
spec fn str_at(s: Seq<u8>, t: Seq<u8>, sp: Span, k: int) -> bool {
    1 <= k <= t.len() && bnd(t, k) && (k == t.len() || (bnd(s, sp.m + k) && string_end(s, sp.m + k, false) == Ok::<int, int>(sp.n as int)))
}
// without a backslash a string is what is between the quotes
proof fn lemma_plain_string(s: Seq<u8>, t: Seq<u8>, sp: Span, k: int, acc: Seq<u8>)
    requires utf8ok(s), utf8ok(t), span_ok(s, sp), t == span_text(s, sp), str_at(s, t, sp, k), k < t.len(), !has_byte(t, '\\')
    ensures str_from(t, k, acc) == Ok::<Seq<u8>, int>(acc + t.subrange(k, t.len() - 1))
    decreases t.len() - k
{
    lemma_part_char(s, t, sp.m as int, k); lemma_char(t, k); lemma_string_last(s, sp.m + k, false);
    let c = char_at(t, k);
    let n = k + clen(t[k]);
    assert(t[k] != '\\' as u8);
    if c == '"' { assert(acc + t.subrange(k, t.len() - 1) =~= acc); } else {
        assert(string_end(s, sp.m + n, false) == Ok::<int, int>(sp.n as int));
        lemma_string_last(s, sp.m + n, false);
        lemma_plain_string(s, t, sp, n, acc + t.subrange(k, n));
        assert(acc + t.subrange(k, n) + t.subrange(n, t.len() - 1) =~= acc + t.subrange(k, t.len() - 1));
    }
}
impl<'engine, 'source> Parser<'engine, 'source> {
//@fn src/compile/parse.rs Parser::parse_literal_bool
//@ret r
//@strmatch
//@spec
    requires p_ok(*old(self)), span_ok(psrc(*old(self)), span)
    ensures *final(self) == *old(self), match g_bool(psrc(*old(self)), span) { Err(sp) => bad(r, *old(self), sp), Ok((l, sp)) => r is Ok && lit_of(r->Ok_0.value) == l && r->Ok_0.span == sp }
//@start
    proof { lemma_keywords(); }
//@end
//@fn src/compile/parse.rs Parser::parse_literal_integer
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@inline err Error
//@sub `raw . as_bytes ( )` => `vx_bytes(raw)`
//@sub `[ $a_lit , $b_lit , .. ] =>` => `_ if digits.len() >= 2 && digits[0] == $a_lit && digits[1] == $b_lit =>`
//@sub `let $r_id = digits [ $from .. ] . iter ( ) . enumerate ( ) . filter ( | ( _ , & $f_id ) | $f ) . try_fold ( $init , | $acc_id , ( $j_id , & $d_id ) | { $body } ) ? ;` => `let mut vx_acc: i64 = $init; let mut vx_k: usize = $from; while vx_k < digits.len() { let $f_id = digits[vx_k]; let $j_id = vx_k - $from; vx_k = vx_k + 1; if $f { let $d_id = $f_id; let $acc_id = vx_acc; vx_acc = ({ $body })?; } } let $r_id = vx_acc;`
//@sub `let int =` => `let vx_int =`
//@sub `Value :: Integer ( int )` => `Value::Integer(vx_int)`
//@sub `( $d_id as char ) . to_digit ( $x )` => `vx_to_digit($d_id, $x)`
//@sub `. into ( )` => ` as i64`
//@sub `. ok_or_else ( || { $b } )` => `.ok_or({ $b })`
//@sub `Error :: syntax ( $m , self . source ( ) , $a .. $b , )` => `Error::syntax($m, self.source(), span_from($a..$b))`
//@spec
    requires span_ok(psrc(*self), span), number_at(psrc(*self), bs(raw), span)
    ensures match int_lit(bs(raw), sign is Neg) { Ok(i) => r is Ok && lit_of(r->Ok_0.value) == Lit::Int(i) && r->Ok_0.span == span, Err(e) => bad(r, *self, int_err(bs(raw), span, e)) }
//@start
    proof { ax_str(raw); ax_str(self.tokens.source); }
//@loop 0
    invariant i <= vx_k <= digits.len(), radix == radix_of(bs(raw)), i == prefix_of(bs(raw)), digits@ == bs(raw),
        int_from(bs(raw), vx_k as int, vx_acc as int, radix as int, sign is Neg) == int_lit(bs(raw), sign is Neg)
    decreases digits.len() - vx_k
//@end
//@fn src/compile/parse.rs Parser::parse_literal_float
//@ret r
//@sub `raw . parse ( ) . map_err ( | _ | $e ) ?` => `(match vx_parse_f64(raw) { Some(vx_f) => vx_f, None => return Err($e) })`
//@sub `- float` => `vx_f64_neg(float)`
//@spec
    requires span_ok(psrc(*self), span)
    ensures match f64_of(bs(raw)) { Some(f) => r is Ok && lit_of(r->Ok_0.value) == Lit::Float(if sign is Neg { f64_neg(f) } else { f }) && r->Ok_0.span == span, None => bad(r, *self, span) }
//@end
//@fn src/compile/parse.rs Parser::parse_literal_number
//@ret r
//@try
//@sub `raw . contains ( [ $a , $b , $c ] )` => `vx_contains3(raw, $a, $b, $c)`
//@spec
    requires span_ok(psrc(*self), span), number_at(psrc(*self), bs(raw), span)
    ensures match g_number(psrc(*self), bs(raw), span, sign is Neg) { Ok((l, sp)) => r is Ok && lit_of(r->Ok_0.value) == l && r->Ok_0.span == sp, Err(sp) => bad(r, *self, sp) }
//@end
//@fn src/compile/parse.rs Parser::parse_string
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `raw . contains ( $c_lit )` => `vx_contains1(raw, $c_lit)`
//@sub `raw . char_indices ( ) . map ( | ( i , c ) | ( span . m + i , c ) )` => `vx_chars_off(raw, span.m)`
//@sub `String :: new ( )` => `vx_new_string()`
//@sub `string . push ( $x )` => `vx_push(&mut string, $x)`
//@sub `while let Some ( $p ) = iter . next ( ) { $b }` => `loop { match iter.next() { None => { break; } Some($p) => { $b } } }`
//@sub `Error :: syntax ( $m , self . source ( ) , $a .. $b , )` => `Error::syntax($m, self.source(), span_from($a..$b))`
//@spec
    requires tok_ok(psrc(*self), Token::String, span)
    ensures match g_string(psrc(*self), span) { Ok(t) => r is Ok && sbytes(r->Ok_0) == t, Err(sp) => bad(r, *self, sp) }
//@start
    let ghost s = psrc(*self);
    let ghost t = span_text(s, span);
    proof { ax_utf8(self.tokens.source); ax_str(self.tokens.source); lemma_char(s, span.m as int); lemma_string_last(s, span.m + 1, false); }
//@after `let raw = & self . source ( ) [ span ] ;`
    proof {
        ax_utf8(raw); ax_str(raw); lemma_part_char(s, t, span.m as int, 0); lemma_char(t, 0);
        assert(str_at(s, t, span, 1));
        if !has_byte(t, '\\') { lemma_plain_string(s, t, span, 1, Seq::empty()); assert(Seq::<u8>::empty() + t.subrange(1, t.len() - 1) =~= t.subrange(1, t.len() - 1)); }
        if t[t.len() - 1] == s[span.n - 1] {}
        ax_ascii_char('\n'); ax_ascii_char('\r'); ax_ascii_char('\t'); ax_ascii_char('\\'); ax_ascii_char('"');
    }
//@loop 0
    invariant iter.ok(), iter.off == span.m, iter.it.src == raw,
        iter.it.pos == 0 ==> sbytes(string) == Seq::<u8>::empty(),
        iter.it.pos > 0 ==> str_at(s, t, span, iter.it.pos as int) && str_from(t, iter.it.pos as int, sbytes(string)) == str_from(t, 1, Seq::empty())
    decreases t.len() - iter.it.pos
//@loop_start 0
    let ghost acc0 = sbytes(string);
    proof {
        let k = iter.it.pos as int;
        assert(acc0 + seq![10u8] =~= acc0.push(10)); assert(acc0 + seq![13u8] =~= acc0.push(13)); assert(acc0 + seq![9u8] =~= acc0.push(9)); assert(acc0 + seq![92u8] =~= acc0.push(92)); assert(acc0 + seq![34u8] =~= acc0.push(34));
        if k < t.len() {
            lemma_part_char(s, t, span.m as int, k); lemma_char(t, k);
            if k > 0 { lemma_string_last(s, span.m + k, false); 
            let n = k + clen(t[k]);
            let c = char_at(t, k);
            if c == '\\' { lemma_string_last(s, span.m + n, true); lemma_part_char(s, t, span.m as int, n); lemma_char(t, n); 
                let n2 = n + clen(t[n]);
                assert(string_end(s, span.m + n2, false) == Ok::<int, int>(span.n as int));
                lemma_string_last(s, span.m + n2, false);
                lemma_part_char(s, t, span.m as int, n2); lemma_char(t, n2); }
            else if c != '"' { lemma_string_last(s, span.m + n, false); }
            }
        }
    }
//@end
//@fn src/compile/parse.rs Parser::parse_literal_string
//@ret r
//@spec
    requires tok_ok(psrc(*self), Token::String, span)
    ensures match g_string(psrc(*self), span) { Ok(t) => r is Ok && lit_of(r->Ok_0.value) == Lit::Str(t) && r->Ok_0.span == span, Err(sp) => bad(r, *self, sp) }
//@end
}
// raw is a number that ends where the span ends
spec fn number_at(s: Seq<u8>, raw: Seq<u8>, sp: Span) -> bool { 0 < raw.len() <= sp.n - sp.m && sp.n <= s.len() && ascii(s, sp.n - raw.len(), sp.n as int) && raw == s.subrange(sp.n - raw.len(), sp.n as int) }

// ---------------------------------------------------------------- expressions
broadcast proof fn lemma_gpath_push(p: Seq<ast::Member>, m: ast::Member) ensures #[trigger] gpath(p.push(m)) == gpath(p).push(gmem(m)) { assert(gpath(p.push(m)) =~= gpath(p).push(gmem(m))); }
proof fn lemma_gbases_push(p: Seq<ast::BaseExpr>, m: ast::BaseExpr) ensures gbases(p.push(m)) == gbases(p).push(gbase(m)) { assert(gbases(p.push(m)) =~= gbases(p).push(gbase(m))); }
proof fn lemma_gspan(s: Seq<u8>, b: ast::BaseExpr)
    requires wf_base(s, b)
    ensures gb_span(gbase(b)) == base_span(b), span_ok(s, base_span(b)), b is Var ==> b->Var_0.path@.len() >= 1
{ if let ast::BaseExpr::Var(v) = b { assert(gpath(v.path@).last() == gmem(v.path@.last())); assert(gpath(v.path@)[0] == gmem(v.path@[0])); } }
proof fn lemma_gespan(s: Seq<u8>, e: ast::Expr)
    requires wf_expr(s, e)
    ensures ge_span(gexpr(e)) == expr_span(e), span_ok(s, expr_span(e))
{ if let ast::Expr::Base(b) = e { lemma_gspan(s, b); } }
impl<'engine, 'source> Parser<'engine, 'source> {
//@fn src/compile/parse.rs Parser::parse_var
//@ret r
//@try
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires p_ok(*old(self)), first.access is Key, wf_member(psrc(*old(self)), first)
    ensures match g_path(pcx(*old(self)), ptoks(*old(self)), seq![gmem(first)]) { Err(sp) => bad(r, *old(self), sp),
        Ok((p, rest)) => r is Ok && gpath(r->Ok_0.path@) == p && wf_var(psrc(*old(self)), r->Ok_0) && moved(*old(self), *final(self), rest) }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword);
    let ghost a = *self;
    let ghost want = g_path(pcx(*self), ptoks(*self), seq![gmem(first)]);
    proof { assert(gpath(seq![first]) =~= seq![gmem(first)]); }
//@after `let mut path = vec ! [ first ] ;`
    proof { assert(path@ =~= seq![first]); }
//@loop 0
    invariant_except_break g_path(pcx(*self), ptoks(*self), gpath(path@)) == want
    invariant p_ok(*self), moved(a, *self, ptoks(*self)), path@.len() >= 1, path@[0].access is Key, wf_path(psrc(*self), path@)
    ensures want == Ok::<(Seq<GMember>, Toks), Span>((gpath(path@), ptoks(*self)))
    decreases ptoks(*self).len()
//@loop_start 0
    let ghost path0 = path@;
    broadcast use lemma_gpath_push;
//@end
//@fn src/compile/parse.rs Parser::parse_base_expr
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_base(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp),
        Ok((b, rest)) => r is Ok && gbase(r->Ok_0) == b && wf_base(psrc(*old(self)), r->Ok_0) && moved(*old(self), *final(self), rest) && rest.len() < ptoks(*old(self)).len() }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword);
    proof { lemma_pcx(*self); }
//@end
//@fn src/compile/parse.rs Parser::parse_args
//@ret r
//@try
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sub `values . last ( ) . unwrap ( ) . span ( )` => `values[values.len() - 1].span()`
//@spec
    requires p_ok(*old(self)), span_ok(psrc(*old(self)), span)
    ensures match g_args(pcx(*old(self)), ptoks(*old(self)), Seq::empty()) { Err(sp) => bad(r, *old(self), sp),
        Ok((b, rest)) => r is Ok && gbases(r->Ok_0.values@) == b && b.len() > 0 && wf_args(psrc(*old(self)), r->Ok_0.values@) && moved(*old(self), *final(self), rest) && rest.len() < ptoks(*old(self)).len()
            && r->Ok_0.span == combined(span, gb_span(b.last())) && span_ok(psrc(*old(self)), r->Ok_0.span) }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword); hide(g_base); hide(gbase); hide(wf_base); hide(gb_span); hide(base_span);
    let ghost a = *self;
    let ghost want = g_args(pcx(*self), ptoks(*self), Seq::empty());
    proof { assert(gbases(Seq::empty()) =~= Seq::empty()); }
//@loop 0
    invariant_except_break g_args(pcx(*self), ptoks(*self), gbases(values@)) == want
    invariant p_ok(*self), moved(a, *self, ptoks(*self)), wf_args(psrc(*self), values@)
    ensures want == Ok::<(Seq<GBase>, Toks), Span>((gbases(values@), ptoks(*self))), values@.len() > 0, ptoks(*self).len() < ptoks(a).len()
    decreases ptoks(*self).len()
//@loop_start 0
    let ghost values0 = values@;
//@before `if ! ( $c ) { $b }`
    proof { lemma_gbases_push(values0, values@.last()); assert(values@ =~= values0.push(values@.last())); }
//@loop_end 0
    proof { assert(g_args(pcx(*self), ptoks(*self), gbases(values@)) == want); }
//@before `let span = span . combine ( $x ) ;`
    proof { lemma_gspan(psrc(*self), values@.last()); assert(gbases(values@).last() == gbase(values@.last())); }
//@end
//@fn src/compile/parse.rs Parser::parse_expr
//@ret r
//@try
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@spec
    requires p_ok(*old(self))
    ensures match g_expr(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp),
        Ok((e, rest)) => r is Ok && gexpr(r->Ok_0) == e && wf_expr(psrc(*old(self)), r->Ok_0) && moved(*old(self), *final(self), rest) && rest.len() < ptoks(*old(self)).len() }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword); hide(g_base);
    let ghost a = *self;
    let ghost want = g_expr(pcx(*self), ptoks(*self));
//@loop 0
    invariant p_ok(*self), moved(a, *self, ptoks(*self)), ptoks(*self).len() < ptoks(a).len(), wf_expr(psrc(*self), expr), g_calls(pcx(*self), ptoks(*self), gexpr(expr)) == want
    ensures want == Ok::<(GExpr, Toks), Span>((gexpr(expr), ptoks(*self)))
    decreases ptoks(*self).len()
//@loop_start 0
    proof { lemma_gespan(psrc(*self), expr); }
//@end
//@fn src/compile/parse.rs Parser::parse_if_cond
//@ret r
//@try
//@spec
    requires p_ok(*old(self))
    ensures match g_cond(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp),
        Ok(((n, e), rest)) => r is Ok && r->Ok_0.0 == n && gexpr(r->Ok_0.1) == e && wf_expr(psrc(*old(self)), r->Ok_0.1) && moved(*old(self), *final(self), rest) && rest.len() < ptoks(*old(self)).len() }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword); hide(g_expr); hide(gexpr); hide(wf_expr);
//@end
//@fn src/compile/parse.rs Parser::parse_block
//@ret r
//@try
//@sub `Result < Block >` => `Result<PBlock>`
//@sub `Block ::` => `PBlock::`
//@spec
    requires p_ok(*old(self))
    ensures match g_block(pcx(*old(self)), ptoks(*old(self))) { Err(sp) => bad(r, *old(self), sp),
        Ok((b, rest)) => r is Ok && gblock(r->Ok_0) == b && wf_block(psrc(*old(self)), r->Ok_0) && moved(*old(self), *final(self), rest) && rest.len() < ptoks(*old(self)).len() }
//@start
    hide(p_ok); hide(ptoks); hide(lex_stop); hide(inside); hide(pcx); hide(kw_of); hide(is_keyword); hide(g_expr); hide(g_cond); hide(g_vars); hide(g_string); hide(wf_expr); hide(gexpr); hide(gvars); hide(wf_loop_vars);
    proof { lemma_pcx(*self); }
//@end
}
spec fn gblock(b: PBlock) -> GBlock {
    match b { PBlock::If(n, e) => GBlock::If(n, gexpr(e)), PBlock::Else => GBlock::Else, PBlock::ElseIf(n, e) => GBlock::ElseIf(n, gexpr(e)), PBlock::EndIf => GBlock::EndIf,
        PBlock::For(v, e) => GBlock::For(gvars(v), gexpr(e)), PBlock::EndFor => GBlock::EndFor, PBlock::With(e, n) => GBlock::With(gexpr(e), n.span), PBlock::EndWith => GBlock::EndWith,
        PBlock::Include(n, e) => GBlock::Include(sbytes(n.name), n.span, gopt(e)) }
}
spec fn wf_block(s: Seq<u8>, b: PBlock) -> bool {
    match b { PBlock::If(n, e) => wf_expr(s, e), PBlock::ElseIf(n, e) => wf_expr(s, e), PBlock::For(v, e) => wf_loop_vars(s, v) && wf_expr(s, e), PBlock::With(e, n) => wf_expr(s, e) && span_ok(s, n.span),
        PBlock::Include(n, e) => span_ok(s, n.span) && (e is Some ==> wf_expr(s, e->Some_0)), _ => true }
}
// the first token has been taken
spec fn taken(a: Parser, b: Parser) -> bool {
    let r = ptoks(a);
    r.len() > 0 && tok_ok(psrc(a), r[0].0, r[0].1) && !(r[0].0 is Whitespace) && (r.len() > 1 ==> r[0].1.n <= r[1].1.m)
    && b.tokens.source == a.tokens.source && b.tokens.engine == a.tokens.engine && pcx(b) == pcx(a) && p_ok(b) && ptoks(b) == after(r)
    && (plain(r[0].0) && inside(r) ==> inside(after(r)))
}
} // verus!
