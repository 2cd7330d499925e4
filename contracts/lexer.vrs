// How a template source is cut into tokens
verus! {
// ---------------------------------------------------------------- tokens
//@item src/compile/lex.rs Token
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/compile/lex.rs BlockState
//@attr #[derive(Clone, Copy)]
//@end
//@item src/compile/lex.rs State
//@sub `enum State` => `enum LexState`
//@end
//@item src/compile/lex.rs Lexer
//@sub `State` => `LexState`
//@end
spec fn tok_of(k: Kind) -> Token {
    match k {
        Kind::BeginExpr | Kind::BeginExprTrim => Token::BeginExpr, Kind::EndExpr | Kind::EndExprTrim => Token::EndExpr,
        Kind::BeginBlock | Kind::BeginBlockTrim => Token::BeginBlock, Kind::EndBlock | Kind::EndBlockTrim => Token::EndBlock,
        Kind::BeginComment | Kind::BeginCommentTrim => Token::BeginComment, Kind::EndComment | Kind::EndCommentTrim => Token::EndComment,
    }
}
spec fn trims(k: Kind) -> bool {
    k is BeginExprTrim || k is EndExprTrim || k is BeginBlockTrim || k is EndBlockTrim || k is BeginCommentTrim || k is EndCommentTrim
}
spec fn begins(t: Token) -> bool { t is BeginExpr || t is BeginBlock || t is BeginComment }
spec fn closer(t: Token) -> Token { match t { Token::BeginExpr => Token::EndExpr, Token::BeginBlock => Token::EndBlock, _ => Token::EndComment } }
// where the lexer is: in the text, inside a tag, inside a comment
ghost enum Mode { Text, Tag(Span, Token, bool), Comment(Span, Token) }
ghost struct LX { cursor: int, mode: Mode, trim: bool, next: Option<(Token, Span)> }
ghost enum LexOut { End, Tok(Token, Span), Err(Span) }
spec fn lx0() -> LX { LX { cursor: 0, mode: Mode::Text, trim: false, next: None } }
spec fn mode_for(t: Token, begin: Span) -> Mode { if t is BeginComment { Mode::Comment(begin, closer(t)) } else { Mode::Tag(begin, closer(t), false) } }
// the part of the text s[i..j] that is kept: white space next to a trimming tag is not
spec fn kept(s: Seq<u8>, i: int, j: int, left: bool, right: bool) -> Span {
    let e = if right { trim_end_at(s, i, j) } else { j };
    spn(if left { trim_start_at(s, i, e) } else { i }, e)
}
spec fn lex_text(pats: Pats, s: Seq<u8>, x: LX) -> (LexOut, LX) {
    let i = x.cursor;
    match next_tag(pats, s, i) {
        Some((k, j, e)) => if !begins(tok_of(k)) { (LexOut::Err(spn(j, e)), x) } else {
            let at = LX { cursor: e, mode: mode_for(tok_of(k), spn(j, e)), trim: x.trim, next: None };
            if i == j { (LexOut::Tok(tok_of(k), spn(j, e)), at) }
            else { (LexOut::Tok(Token::Raw, kept(s, i, j, x.trim, trims(k))), LX { trim: false, next: Some((tok_of(k), spn(j, e))), ..at }) }
        },
        None => (LexOut::Tok(Token::Raw, kept(s, i, s.len() as int, x.trim, false)), LX { cursor: s.len() as int, trim: false, ..x }),
    }
}
spec fn lex_comment(pats: Pats, s: Seq<u8>, x: LX, begin: Span, end: Token) -> (LexOut, LX) {
    let i = x.cursor;
    match next_tag(pats, s, i) {
        Some((k, j, e)) => if begins(tok_of(k)) { (LexOut::Err(begin), x) } else if tok_of(k) != end { (LexOut::Err(spn(j, e)), x) } else {
            let at = LX { cursor: e, mode: Mode::Text, trim: trims(k), next: None };
            if i == j { (LexOut::Tok(end, spn(j, e)), at) }
            else { (LexOut::Tok(Token::Raw, spn(i, j)), LX { next: Some((end, spn(j, e))), ..at }) }
        },
        None => (LexOut::Tok(Token::Raw, spn(i, s.len() as int)), LX { cursor: s.len() as int, ..x }),
    }
}
// as long as the characters are of a class
spec fn while_end(s: Seq<u8>, i: int, cls: spec_fn(char) -> bool) -> int
    decreases left_of(s, i)
{ if 0 <= i < s.len() && cls(char_at(s, i)) { while_end(s, i + clen(s[i]), cls) } else { i } }
spec fn c_ws() -> spec_fn(char) -> bool { |c: char| c == '\t' || c == ' ' }
spec fn c_index() -> spec_fn(char) -> bool { |c: char| digit(c) }
spec fn c_number() -> spec_fn(char) -> bool { |c: char| alnum(c) || c == '_' || c == '-' || c == '+' || c == '.' }
spec fn c_ident() -> spec_fn(char) -> bool { |c: char| xid_continue(c) }
// the end of a string, or the end of the place where it is broken off
spec fn string_end(s: Seq<u8>, i: int, escaped: bool) -> std::result::Result<int, int>
    decreases left_of(s, i)
{
    if i < 0 || i >= s.len() { Err(s.len() as int) } else {
        let c = char_at(s, i);
        if c == '\r' || c == '\n' { Err(i) } else if c == '"' && !escaped { Ok(i + 1) } else { string_end(s, i + clen(s[i]), c == '\\' && !escaped) }
    }
}
// a number ends where a tag starts with one of its signs
spec fn number_cut(pats: Pats, s: Seq<u8>, k: int, j: int) -> int
    decreases left_of(s, k)
{
    if k < 0 || k >= j || k >= s.len() { j } else if !alnum(char_at(s, k)) && tag_at(pats, s, k) is Some { k } else { number_cut(pats, s, k + clen(s[k]), j) }
}
spec fn number_end(pats: Pats, s: Seq<u8>, i: int) -> int { number_cut(pats, s, i, while_end(s, i, c_number())) }
spec fn is_keyword(t: Seq<u8>) -> bool { exists|k: int| 0 <= k < 13 && t == bs(#[trigger] keyword(k)) }
spec fn keyword(k: int) -> &'static str {
    if k == 0 { "if" } else if k == 1 { "not" } else if k == 2 { "else" } else if k == 3 { "endif" } else if k == 4 { "for" } else if k == 5 { "in" } else if k == 6 { "endfor" }
    else if k == 7 { "with" } else if k == 8 { "as" } else if k == 9 { "endwith" } else if k == 10 { "include" } else if k == 11 { "true" } else { "false" }
}
// the token that starts with a character of the tag's inside: itself and its end
ghost enum Word { Tok(Token, int), Err(Span) }
spec fn word(pats: Pats, s: Seq<u8>, i: int, path: bool) -> Word {
    let c = char_at(s, i);
    let n = i + clen(s[i]);
    if c == '.' { Word::Tok(Token::Dot, i + 1) } else if c == '|' { Word::Tok(Token::Pipe, i + 1) } else if c == ',' { Word::Tok(Token::Comma, i + 1) }
    else if c == ':' { Word::Tok(Token::Colon, i + 1) } else if c == '+' { Word::Tok(Token::Plus, i + 1) } else if c == '-' { Word::Tok(Token::Minus, i + 1) }
    else if c == '?' {
        if n >= s.len() { Word::Err(spn(i, s.len() as int)) } else if char_at(s, n) == '.' { Word::Tok(Token::QuestionDot, i + 2) } else { Word::Err(spn(i, n + clen(s[n]))) }
    }
    else if c == '"' { match string_end(s, n, false) { Ok(e) => Word::Tok(Token::String, e), Err(e) => Word::Err(spn(i, e)) } }
    else if digit(c) { if path { Word::Tok(Token::Index, while_end(s, n, c_index())) } else { Word::Tok(Token::Number, number_end(pats, s, n)) } }
    else if c == '\t' || c == ' ' { Word::Tok(Token::Whitespace, while_end(s, n, c_ws())) }
    else if c == '_' || xid_start(c) { let e = while_end(s, n, c_ident()); Word::Tok(if is_keyword(s.subrange(i, e)) { Token::Keyword } else { Token::Ident }, e) }
    else { Word::Err(spn(i, n)) }
}
// after an identifier digits are an index, until an operator or a keyword
spec fn path_after(path: bool, t: Token) -> bool {
    if !path { t is Ident } else { !(t is Pipe || t is Comma || t is Colon || t is Keyword) }
}
spec fn lex_tag(pats: Pats, s: Seq<u8>, x: LX, begin: Span, end: Token, path: bool) -> (LexOut, LX) {
    let i = x.cursor;
    match tag_at(pats, s, i) {
        Some((k, e)) => if begins(tok_of(k)) { (LexOut::Err(begin), x) } else if tok_of(k) != end { (LexOut::Err(spn(i, e)), x) }
            else { (LexOut::Tok(end, spn(i, e)), LX { cursor: e, mode: Mode::Text, trim: trims(k), next: None }) },
        None => match word(pats, s, i, path) {
            Word::Err(sp) => (LexOut::Err(sp), x),
            Word::Tok(t, e) => (LexOut::Tok(t, spn(i, e)), LX { cursor: e, mode: Mode::Tag(begin, end, path_after(path, t)), ..x }),
        },
    }
}
spec fn lex_step(pats: Pats, s: Seq<u8>, x: LX) -> (LexOut, LX) {
    match x.next {
        Some((t, sp)) => (LexOut::Tok(t, sp), LX { next: None, ..x }),
        None => if x.cursor >= s.len() { (LexOut::End, x) } else {
            match x.mode {
                Mode::Text => lex_text(pats, s, x),
                Mode::Tag(begin, end, path) => lex_tag(pats, s, x, begin, end, path),
                Mode::Comment(begin, end) => lex_comment(pats, s, x, begin, end),
            }
        },
    }
}
spec fn lx_ok(s: Seq<u8>, x: LX) -> bool {
    &&& range_ok(s, x.cursor, s.len() as int)
    &&& match x.mode {
        Mode::Text => true,
        Mode::Tag(b, e, _) => span_ok(s, b) && (e is EndExpr || e is EndBlock),
        Mode::Comment(b, e) => span_ok(s, b) && e is EndComment }
    &&& x.next is Some ==> { let (t, sp) = x.next->Some_0; span_ok(s, sp) && sp.n == x.cursor && match x.mode {
        Mode::Text => t is EndComment,
        Mode::Tag(b, e, p) => b == sp && !p && begins(t) && !(t is BeginComment) && e == closer(t),
        Mode::Comment(b, _) => b == sp && t is BeginComment } }
}
spec fn lx_size(s: Seq<u8>, x: LX) -> int { 2 * (s.len() - x.cursor) + (if x.next is Some { 1int } else { 0 }) }
// the next token that is not white space
spec fn next_tok(pats: Pats, s: Seq<u8>, x: LX) -> (LexOut, LX)
    decreases lx_size(s, x)
{
    let r = lex_step(pats, s, x);
    if r.0 is Tok && r.0->Tok_0 is Whitespace && lx_ok(s, r.1) && lx_size(s, r.1) < lx_size(s, x) { next_tok(pats, s, r.1) } else { r }
}

// ---------------------------------------------------------------- the steps keep to the text and make progress
proof fn lemma_while(s: Seq<u8>, i: int, cls: spec_fn(char) -> bool)
    requires utf8ok(s), range_ok(s, i, s.len() as int)
    ensures i <= while_end(s, i, cls) <= s.len(), bnd(s, while_end(s, i, cls))
    decreases s.len() - i
{ if i < s.len() && cls(char_at(s, i)) { lemma_char(s, i); lemma_while(s, i + clen(s[i]), cls); } }
proof fn lemma_string_end(s: Seq<u8>, i: int, esc: bool)
    requires utf8ok(s), range_ok(s, i, s.len() as int)
    ensures match string_end(s, i, esc) { Ok(e) => i < e <= s.len() && bnd(s, e), Err(e) => i <= e <= s.len() && bnd(s, e) }
    decreases s.len() - i
{ if i < s.len() { lemma_char(s, i); let c = char_at(s, i); if !(c == '\r' || c == '\n' || (c == '"' && !esc)) { lemma_string_end(s, i + clen(s[i]), c == '\\' && !esc); } } }
proof fn lemma_number_cut(pats: Pats, s: Seq<u8>, k: int, j: int)
    requires utf8ok(s), range_ok(s, k, j), range_ok(s, j, s.len() as int)
    ensures k <= number_cut(pats, s, k, j) <= j, bnd(s, number_cut(pats, s, k, j))
    decreases s.len() - k
{ if k < j { lemma_char(s, k); lemma_no_bnd_inside(s, k, j); if alnum(char_at(s, k)) || tag_at(pats, s, k) is None { lemma_number_cut(pats, s, k + clen(s[k]), j); } } }
proof fn lemma_kept(s: Seq<u8>, i: int, j: int, l: bool, r: bool)
    requires utf8ok(s), range_ok(s, i, j)
    ensures span_ok(s, kept(s, i, j, l, r)), i <= kept(s, i, j, l, r).m <= kept(s, i, j, l, r).n <= j
{
    ax_trim_end(s, i, j);
    let e = if r { trim_end_at(s, i, j) } else { j };
    lemma_trim_start(s, i, e);
}
proof fn lemma_word(pats: Pats, s: Seq<u8>, i: int, path: bool)
    requires utf8ok(s), 0 <= i < s.len(), bnd(s, i)
    ensures match word(pats, s, i, path) { Word::Tok(t, e) => i < e <= s.len() && range_ok(s, i, e) && plain(t) && tok_ok(s, t, spn(i, e)), Word::Err(sp) => span_ok(s, sp) }
{
    lemma_char(s, i);
    let n = i + clen(s[i]);
    lemma_while(s, n, c_index()); lemma_while(s, n, c_number()); lemma_while(s, n, c_ws()); lemma_while(s, n, c_ident());
    lemma_string_end(s, n, false);
    lemma_number_cut(pats, s, n, while_end(s, n, c_number()));
    if n < s.len() { lemma_char(s, n); }
    lemma_ascii(s, n);
    assert(n == i + 1 || s[i] >= 128);
}
// the tokens of the inside of a tag
spec fn plain(t: Token) -> bool {
    t is Dot || t is QuestionDot || t is Pipe || t is Comma || t is Colon || t is Plus || t is Minus || t is Whitespace || t is Keyword || t is Ident || t is Index || t is Number || t is String
}
// where the lexer is when the token it has already read has not been given out
ghost enum Place { Text, Tag(Token), Comment }
spec fn place(x: LX) -> Place {
    match x.next { Some((t, _)) => if begins(t) { Place::Text } else { Place::Comment },
        None => match x.mode { Mode::Text => Place::Text, Mode::Tag(_, e, _) => Place::Tag(e), Mode::Comment(..) => Place::Comment } }
}
// which tokens come from where, and where they lead
spec fn leads(p: Place, t: Token) -> Option<Place> {
    match p {
        Place::Text => match t { Token::Raw => Some(Place::Text), Token::BeginExpr => Some(Place::Tag(Token::EndExpr)), Token::BeginBlock => Some(Place::Tag(Token::EndBlock)), Token::BeginComment => Some(Place::Comment), _ => None },
        Place::Tag(e) => if t == e { Some(Place::Text) } else if plain(t) { Some(p) } else { None },
        Place::Comment => match t { Token::Raw => Some(p), Token::EndComment => Some(Place::Text), _ => None },
    }
}
// what a token is about
spec fn tok_ok(s: Seq<u8>, t: Token, sp: Span) -> bool {
    span_ok(s, sp) && match t {
        Token::Keyword => is_keyword(span_text(s, sp)),
        Token::String => sp.m < sp.n && s[sp.m as int] == 34 && string_end(s, sp.m + 1, false) == Ok::<int, int>(sp.n as int),
        Token::Number => sp.m < sp.n && ascii(s, sp.m as int, sp.n as int),
        Token::Index => sp.m < sp.n && digits(s, sp.m as int, sp.n as int),
        _ => true }
}
spec fn ascii(s: Seq<u8>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> #[trigger] s[k] < 128 }
spec fn digits(s: Seq<u8>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> 48 <= #[trigger] s[k] <= 57 }
proof fn lemma_ascii(s: Seq<u8>, i: int)
    requires utf8ok(s), range_ok(s, i, s.len() as int)
    ensures ascii(s, i, while_end(s, i, c_number())), digits(s, i, while_end(s, i, c_index()))
    decreases s.len() - i
{
    if i < s.len() { lemma_char(s, i); lemma_ascii(s, i + clen(s[i])); }
}
// from where on there is text that has not been given out
spec fn lo(x: LX) -> int { match x.next { Some((_, sp)) => sp.m as int, None => x.cursor } }
#[verifier::spinoff_prover]
proof fn lemma_step(pats: Pats, s: Seq<u8>, x: LX)
    requires pats_good(pats), utf8ok(s), lx_ok(s, x)
    ensures match lex_step(pats, s, x).0 {
        LexOut::End => true,
        LexOut::Err(sp) => span_ok(s, sp),
        LexOut::Tok(t, sp) => tok_ok(s, t, sp) && lx_ok(s, lex_step(pats, s, x).1) && lx_size(s, lex_step(pats, s, x).1) < lx_size(s, x)
            && leads(place(x), t) == Some(place(lex_step(pats, s, x).1)) && lo(x) <= sp.m && sp.n <= lo(lex_step(pats, s, x).1) }
{
    let i = x.cursor;
    if x.next is None && i < s.len() {
        lemma_next_tag(pats, s, i);
        lemma_tag_at(pats, s, i);
        lemma_word(pats, s, i, true); lemma_word(pats, s, i, false);
        lemma_kept(s, i, s.len() as int, x.trim, false);
        if let Some((k, j, e)) = next_tag(pats, s, i) { lemma_kept(s, i, j, x.trim, trims(k)); }
        lemma_char(s, i);
        lemma_ascii(s, i + clen(s[i]));
    }
}
proof fn lemma_next_tok(pats: Pats, s: Seq<u8>, x: LX)
    requires pats_good(pats), utf8ok(s), lx_ok(s, x)
    ensures match next_tok(pats, s, x).0 {
        LexOut::End => true,
        LexOut::Err(sp) => span_ok(s, sp),
        LexOut::Tok(t, sp) => tok_ok(s, t, sp) && !(t is Whitespace) && lx_ok(s, next_tok(pats, s, x).1) && lx_size(s, next_tok(pats, s, x).1) < lx_size(s, x)
            && leads(place(x), t) == Some(place(next_tok(pats, s, x).1)) && lo(x) <= sp.m && sp.n <= lo(next_tok(pats, s, x).1) }
    decreases lx_size(s, x)
{
    lemma_step(pats, s, x);
    let r = lex_step(pats, s, x);
    if r.0 is Tok && r.0->Tok_0 is Whitespace { lemma_next_tok(pats, s, r.1); }
}
// ---------------------------------------------------------------- the code
//@fn src/types/span.rs <From<Range<usize>> for Span>::from
//@sig fn span_from(r: std::ops::Range<usize>) -> Span
//@ret vx_r
//@sub `Self {` => `Span {`
//@spec
    ensures vx_r == (Span { m: r.start, n: r.end })
//@end
impl Searcher {
//@fn src/compile/search/mod.rs Searcher::starts_with
//@sig fn starts_with(&self, haystack: &str, at: usize) -> Option<(Kind, usize)>
//@ret r
//@spec
    requires searchable(*self)
    ensures at < bs(haystack).len() ==> match tag_at(spats(*self), bs(haystack), at as int) { Some((k, e)) => r == Some((k, e as usize)), None => r is None }
//@start
    proof { ax_utf8(haystack); lemma_next_tag(spats(*self), bs(haystack), at as int); if at < bs(haystack).len() { lemma_tag_at(spats(*self), bs(haystack), at as int); } }
//@end
}
impl Token {
//@fn src/compile/lex.rs Token::human
//@end
//@fn src/compile/lex.rs Token::pair
//@ret r
//@spec
    requires begins(*self) || *self is EndExpr || *self is EndBlock || *self is EndComment
    ensures begins(*self) ==> r == closer(*self), !begins(*self) ==> begins(r)
//@end
//@fn src/compile/lex.rs Token::is_begin_tag
//@ret r
//@spec
    ensures r == begins(*self)
//@end
//@fn src/compile/lex.rs Token::is_begin_comment
//@ret r
//@spec
    ensures r == (*self is BeginComment)
//@end
//@fn src/compile/lex.rs Token::is_whitespace
//@ret r
//@spec
    ensures r == (*self is Whitespace)
//@end
//@fn src/compile/lex.rs Token::from_kind
//@ret r
//@sub `syntax :: Kind` => `Kind`
//@spec
    ensures r == (tok_of(tk), trims(tk))
//@end
}
//@fn src/compile/lex.rs is_whitespace
//@ret r
//@spec
    ensures r == c_ws()(c)
//@end
//@fn src/compile/lex.rs is_ident_start
//@ret r
//@sub `unicode_ident :: is_xid_start (` => `vx_xid_start(`
//@spec
    ensures r == (c == '_' || xid_start(c))
//@end
//@fn src/compile/lex.rs is_ident
//@ret r
//@sub `unicode_ident :: is_xid_continue (` => `vx_xid_continue(`
//@spec
    ensures r == c_ident()(c)
//@end
//@fn src/compile/lex.rs is_index
//@ret r
//@sub `$c_id . is_ascii_digit ( )` => `vx_digit($c_id)`
//@spec
    ensures r == c_index()(c)
//@end
//@fn src/compile/lex.rs is_number
//@ret r
//@spec
    ensures r == c_number()(c)
//@end
spec fn lmode(st: LexState) -> Mode {
    match st {
        LexState::Template => Mode::Text, LexState::Block { begin, end } => Mode::Tag(begin, end, false),
        LexState::BlockPath { begin, end } => Mode::Tag(begin, end, true), LexState::Comment { begin, end } => Mode::Comment(begin, end),
    }
}
spec fn lv(l: Lexer) -> LX { LX { cursor: l.cursor as int, mode: lmode(l.state), trim: l.left_trim, next: l.next } }
spec fn lpats(l: Lexer) -> Pats { spats(l.engine.searcher) }
spec fn lex_ok(l: Lexer) -> bool { searchable(l.engine.searcher) && lx_ok(bs(l.source), lv(l)) }
// this is what the lexer says, and where it is then
spec fn lexed(r: Result<Option<(Token, Span)>>, out: (LexOut, LX), a: Lexer, b: Lexer) -> bool {
    b.source == a.source && b.engine == a.engine && match out.0 {
        LexOut::End => r is Ok && r->Ok_0 is None && lv(b) == out.1,
        LexOut::Tok(t, sp) => r is Ok && r->Ok_0 == Some((t, sp)) && lv(b) == out.1,
        LexOut::Err(sp) => err_at(r, EK::Syntax, bs(a.source), sp),
    }
}
spec fn describes<P: Fn(char) -> bool>(p: P, cls: spec_fn(char) -> bool) -> bool { forall|c: char, b: bool| call_ensures(p, (c,), b) ==> b == cls(c) }
// the rest of a word: the token or why there is none
spec fn worded(r: Result<(Token, usize)>, w: Word, s: Seq<u8>) -> bool {
    match w { Word::Tok(t, e) => r is Ok && r->Ok_0 == (t, e as usize), Word::Err(sp) => err_at(r, EK::Syntax, s, sp) }
}
//@fn src/compile/parse.rs Keyword::all
//@sig fn keywords() -> &'static [&'static str]
//@ret r
//@spec
    ensures forall|t: Seq<u8>| #[trigger] has_text(r@, t) == is_keyword(t)
//@tail
    proof { assert(forall|k: int| 0 <= k < 13 ==> #[trigger] vx_ret@[k] == keyword(k)); assert(forall|k: int| 0 <= k < 13 ==> vx_ret@[k] == #[trigger] keyword(k)); assert(vx_ret@.len() == 13); }
//@end
spec fn has_text(l: Seq<&str>, t: Seq<u8>) -> bool { exists|k: int| 0 <= k < l.len() && bs(#[trigger] l[k]) == t }
// TRUSTED: contains compares by content
#[verifier::external_body]
fn vx_has(l: &[&str], x: &str) -> (r: bool) ensures r == has_text(l@, bs(x)) { l.contains(&x) }
impl<'engine, 'source> Lexer<'engine, 'source> {
//@fn src/compile/lex.rs Lexer::new
//@ret r
//@sub `State ::` => `LexState::`
//@spec
    ensures lv(r) == lx0(), r.source == source, r.engine == engine
//@end
//@fn src/compile/lex.rs Lexer::next
//@ret r
//@spec
    requires lex_ok(*old(self))
    ensures lexed(r, next_tok(lpats(*old(self)), bs(old(self).source), lv(*old(self))), *old(self), *final(self)), r is Ok ==> lex_ok(*final(self))
//@start
    let ghost p0 = lpats(*self);
    let ghost s0 = bs(self.source);
    let ghost want = next_tok(p0, s0, lv(*self));
    proof { ax_utf8(self.source); }
//@loop 0
    invariant lex_ok(*self), self.source == old(self).source, self.engine == old(self).engine, p0 == lpats(*self), s0 == bs(self.source), utf8ok(s0),
        next_tok(p0, s0, lv(*self)) == want, want == next_tok(lpats(*old(self)), bs(old(self).source), lv(*old(self)))
    decreases lx_size(s0, lv(*self))
//@loop_start 0
    proof { lemma_step(p0, s0, lv(*self)); }
//@end
//@fn src/compile/lex.rs Lexer::lex
//@ret r
//@sub `State ::` => `LexState::`
//@spec
    requires lex_ok(*old(self))
    ensures lexed(r, lex_step(lpats(*old(self)), bs(old(self).source), lv(*old(self))), *old(self), *final(self)), r is Ok ==> lex_ok(*final(self))
//@start
    proof { ax_utf8(self.source); ax_str(self.source); lemma_step(lpats(*self), bs(self.source), lv(*self)); }
//@end
//@fn src/compile/lex.rs Lexer::lex_template
//@ret r
//@inline trim_raw_token Result<Option<(Token, Span)>>
//@inline lex Result<Option<(Token, Span)>>
//@sub `State ::` => `LexState::`
//@sub `self . source [ $a .. $b ] . trim_end ( ) . len ( )` => `vx_trim_end_len(self.source, $a, $b)`
//@sub `let s = & self . source [ $a .. $b ] ;` => ``
//@sub `s . len ( ) - s . trim_start ( ) . len ( )` => `(j - i) - vx_trim_start_len(self.source, i, j)`
//@sub `Span :: from (` => `span_from(`
//@sub `self . err_unexpected_token ( $t , $a .. $b )` => `self.err_unexpected_token($t, span_from($a..$b))`
//@spec
    requires lex_ok(*old(self)), old(self).next is None, lmode(old(self).state) is Text, i == old(self).cursor, i < bs(old(self).source).len()
    ensures lexed(r, lex_text(lpats(*old(self)), bs(old(self).source), lv(*old(self))), *old(self), *final(self))
//@start
    proof {
        let (p, s, x) = (lpats(*self), bs(self.source), lv(*self));
        ax_utf8(self.source); ax_str(self.source);
        lemma_next_tag(p, s, i as int);
        lemma_kept(s, i as int, s.len() as int, x.trim, false);
        if let Some((k, j, e)) = next_tag(p, s, i as int) { lemma_kept(s, i as int, j, x.trim, trims(k)); ax_trim_end(s, i as int, j); lemma_trim_start(s, i as int, trim_end_at(s, i as int, j)); lemma_trim_start(s, i as int, j); }
        lemma_trim_start(s, i as int, s.len() as int);
    }
//@end
//@fn src/compile/lex.rs Lexer::lex_comment
//@ret r
//@inline lex Result<Option<(Token, Span)>>
//@sub `State ::` => `LexState::`
//@sub `Span :: from (` => `span_from(`
//@sub `self . err_unexpected_token ( $t , $a .. $b )` => `self.err_unexpected_token($t, span_from($a..$b))`
//@spec
    requires lex_ok(*old(self)), old(self).next is None, lmode(old(self).state) == Mode::Comment(begin, end), i == old(self).cursor, i < bs(old(self).source).len()
    ensures lexed(r, lex_comment(lpats(*old(self)), bs(old(self).source), lv(*old(self)), begin, end), *old(self), *final(self))
//@start
    proof { ax_utf8(self.source); ax_str(self.source); lemma_next_tag(lpats(*self), bs(self.source), i as int); }
//@end
//@fn src/compile/lex.rs Lexer::lex_block
//@ret r
//@sub `State ::` => `LexState::`
//@sub `self . source [ i .. ] . char_indices ( ) . map ( | ( d , c ) | ( i + d , c ) )` => `vx_chars(self.source, i)`
//@sub `Span :: from (` => `span_from(`
//@sub `self . err_unexpected_token ( $t , $a .. $b )` => `self.err_unexpected_token($t, span_from($a..$b))`
//@sub `self . err_unexpected_character ( $a .. $b )` => `self.err_unexpected_character(span_from($a..$b))`
//@sub `$c_id . is_ascii_digit ( )` => `vx_digit($c_id)`
//@sub `$c_id . len_utf8 ( )` => `vx_len_utf8($c_id)`
//@spec
    requires lex_ok(*old(self)), old(self).next is None, lmode(old(self).state) == Mode::Tag(begin, end, block_state is Path), i == old(self).cursor, i < bs(old(self).source).len()
    ensures lexed(r, lex_tag(lpats(*old(self)), bs(old(self).source), lv(*old(self)), begin, end, block_state is Path), *old(self), *final(self))
//@start
    proof {
        let s = bs(self.source);
        ax_utf8(self.source); ax_str(self.source); lemma_tag_at(lpats(*self), s, i as int); lemma_char(s, i as int);
        lemma_word(lpats(*self), s, i as int, block_state is Path);
    }
//@end
//@fn src/compile/lex.rs Lexer::lex_question_dot
//@sig fn lex_question_dot<'c>(&mut self, mut iter: VxChars<'c>, i: usize) -> Result<(Token, usize)>
//@ret r
//@sub `self . err_unexpected_character ( $a .. $b )` => `self.err_unexpected_character(span_from($a..$b))`
//@sub `$c_id . len_utf8 ( )` => `vx_len_utf8($c_id)`
//@spec
    requires iter.ok(), iter.src == old(self).source, i < bs(iter.src).len(), bnd(bs(iter.src), i as int), char_at(bs(iter.src), i as int) == '?', iter.pos == i + clen(bs(iter.src)[i as int])
    ensures *final(self) == *old(self), worded(r, word(lpats(*old(self)), bs(iter.src), i as int, false), bs(iter.src))
//@start
    proof { ax_utf8(self.source); ax_str(self.source); lemma_char(bs(self.source), i as int); if iter.pos < bs(self.source).len() { lemma_char(bs(self.source), iter.pos as int); } }
//@end
//@fn src/compile/lex.rs Lexer::lex_string
//@attr #[verifier::loop_isolation(false)]
//@sig fn lex_string<'c>(&mut self, mut iter: VxChars<'c>, i: usize) -> Result<(Token, usize)>
//@ret r
//@sub `self . err_undelimited_string ( $a .. $b )` => `self.err_undelimited_string(span_from($a..$b))`
//@spec
    requires iter.ok(), iter.src == old(self).source, i <= iter.pos, bnd(bs(iter.src), i as int)
    ensures *final(self) == *old(self), match string_end(bs(iter.src), iter.pos as int, false) {
        Ok(e) => r is Ok && r->Ok_0 == (Token::String, e as usize), Err(e) => err_at(r, EK::Syntax, bs(iter.src), spn(i as int, e)) }
//@start
    let ghost s = bs(iter.src);
    let ghost pos0 = iter.pos as int;
    proof { ax_utf8(iter.src); ax_str(iter.src); }
//@loop 0
    invariant *self == *old(self), iter.ok(), iter.src == self.source, s == bs(iter.src), s.len() <= isize::MAX, i <= iter.pos, bnd(s, i as int), utf8ok(s), bnd(s, s.len() as int),
        string_end(s, iter.pos as int, escaped) == string_end(s, pos0, false)
    decreases s.len() - iter.pos
//@loop_start 0
    proof { if iter.pos < s.len() { lemma_char(s, iter.pos as int); } }
//@end
//@fn src/compile/lex.rs Lexer::lex_number
//@sig fn lex_number<'c>(&mut self, iter: VxChars<'c>) -> (Token, usize)
//@ret r
//@sub `iter . clone ( )` => `iter`
//@sub `iter . take_while ( | & ( $k_id , _ ) | $a ) . filter ( | ( _ , $c_id ) | $b ) . find ( | & ( $k2_id , _ ) | $p ) . map_or ( $d , | ( $k3_id , _ ) | $e )` => `{ let mut vx_it = iter; let mut vx_found: Option<usize> = None; loop { match vx_it.next() { None => break, Some(($k_id, $c_id)) => { if !($a) { break; } if ($b) { let $k2_id = $k_id; if ($p) { vx_found = Some($k_id); break; } } } } } match vx_found { None => $d, Some($k3_id) => $e } }`
//@sub `$c_id . is_ascii_alphanumeric ( )` => `vx_alnum($c_id)`
//@spec
    requires iter.ok(), iter.src == old(self).source, searchable(old(self).engine.searcher)
    ensures *final(self) == *old(self), r.0 is Number, r.1 == number_end(lpats(*old(self)), bs(iter.src), iter.pos as int)
//@start
    let ghost p = lpats(*self);
    let ghost s = bs(iter.src);
    proof { ax_utf8(iter.src); ax_str(iter.src); assert(describes(is_number, c_number())); lemma_while(s, iter.pos as int, c_number()); lemma_number_cut(p, s, iter.pos as int, while_end(s, iter.pos as int, c_number())); }
//@loop 0
    invariant_except_break vx_found is None, number_cut(p, s, vx_it.pos as int, j as int) == number_end(p, s, iter.pos as int), vx_it.pos <= j
    invariant vx_it.ok(), vx_it.src == self.source, iter.src == self.source, s == bs(iter.src), utf8ok(s), s.len() <= isize::MAX, range_ok(s, j as int, s.len() as int), p == lpats(*self), searchable(self.engine.searcher),
        *self == *old(self)
    ensures match vx_found { None => number_end(p, s, iter.pos as int) == j, Some(k) => number_end(p, s, iter.pos as int) == k }
    decreases s.len() - vx_it.pos
//@loop_start 0
    proof { if vx_it.pos < s.len() { lemma_char(s, vx_it.pos as int); if vx_it.pos < j { lemma_no_bnd_inside(s, vx_it.pos as int, j as int); } } }
//@end
//@fn src/compile/lex.rs Lexer::lex_index
//@sig fn lex_index<'c>(&mut self, iter: VxChars<'c>) -> (Token, usize)
//@ret r
//@spec
    requires iter.ok(), iter.src == old(self).source
    ensures *final(self) == *old(self), r.0 is Index, r.1 == while_end(bs(iter.src), iter.pos as int, c_index())
//@start
    proof { assert(describes(is_index, c_index())); }
//@end
//@fn src/compile/lex.rs Lexer::lex_whitespace
//@sig fn lex_whitespace<'c>(&mut self, iter: VxChars<'c>) -> (Token, usize)
//@ret r
//@spec
    requires iter.ok(), iter.src == old(self).source
    ensures *final(self) == *old(self), r.0 is Whitespace, r.1 == while_end(bs(iter.src), iter.pos as int, c_ws())
//@start
    proof { assert(describes(is_whitespace, c_ws())); }
//@end
//@fn src/compile/lex.rs Lexer::lex_ident_or_keyword
//@sig fn lex_ident_or_keyword<'c>(&mut self, iter: VxChars<'c>, i: usize) -> (Token, usize)
//@ret r
//@sub `Keyword :: all ( ) . contains ( $x )` => `vx_has(keywords(), $x)`
//@spec
    requires iter.ok(), iter.src == old(self).source, i <= iter.pos, bnd(bs(iter.src), i as int)
    ensures *final(self) == *old(self), ({ let e = while_end(bs(iter.src), iter.pos as int, c_ident());
        r == (if is_keyword(bs(iter.src).subrange(i as int, e)) { Token::Keyword } else { Token::Ident }, e as usize) })
//@start
    proof { ax_utf8(iter.src); ax_str(iter.src); assert(describes(is_ident, c_ident())); lemma_while(bs(iter.src), iter.pos as int, c_ident()); }
//@end
//@fn src/compile/lex.rs Lexer::lex_while
//@attr #[verifier::loop_isolation(false)]
//@sig fn lex_while<'c, P: Fn(char) -> bool>(&mut self, mut iter: VxChars<'c>, pred: P) -> usize
//@ret r
//@sub `iter . clone ( ) . next ( )` => `{ let mut vx_peek = iter; vx_peek.next() }`
//@spec
    requires iter.ok(), iter.src == old(self).source, forall|c: char| call_requires(pred, (c,))
    ensures *final(self) == *old(self), forall|cls: spec_fn(char) -> bool| #[trigger] describes(pred, cls) ==> r == while_end(bs(iter.src), iter.pos as int, cls)
//@start
    let ghost s = bs(iter.src);
    let ghost pos0 = iter.pos as int;
    proof { ax_utf8(iter.src); ax_str(iter.src); }
//@loop 0
    invariant *self == *old(self), iter.ok(), iter.src == self.source, s == bs(iter.src), s.len() <= isize::MAX, utf8ok(s), forall|c: char| call_requires(pred, (c,)),
        forall|cls: spec_fn(char) -> bool| #[trigger] describes(pred, cls) ==> while_end(s, pos0, cls) == while_end(s, iter.pos as int, cls)
    decreases s.len() - iter.pos
//@loop_start 0
    proof { if iter.pos < s.len() { lemma_char(s, iter.pos as int); } }
//@end
//@fn src/compile/lex.rs Lexer::err_unclosed
//@ret r
//@spec
    requires span_ok(bs(self.source), begin), end is EndExpr || end is EndBlock || end is EndComment
    ensures r.v() == ev(EK::Syntax, bs(self.source), begin)
//@end
//@fn src/compile/lex.rs Lexer::err_unexpected_token
//@sig fn err_unexpected_token(&self, tk: Token, span: Span) -> Error
//@ret r
//@spec
    requires span_ok(bs(self.source), span)
    ensures r.v() == ev(EK::Syntax, bs(self.source), span)
//@end
//@fn src/compile/lex.rs Lexer::err_unexpected_character
//@sig fn err_unexpected_character(&self, span: Span) -> Error
//@ret r
//@spec
    requires span_ok(bs(self.source), span)
    ensures r.v() == ev(EK::Syntax, bs(self.source), span)
//@end
//@fn src/compile/lex.rs Lexer::err_undelimited_string
//@sig fn err_undelimited_string(&self, span: Span) -> Error
//@ret r
//@spec
    requires span_ok(bs(self.source), span)
    ensures r.v() == ev(EK::Syntax, bs(self.source), span)
//@end
}
} // verus!
