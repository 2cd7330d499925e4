// What a sequence of tokens means: literals, expressions, tags, and blocks
verus! {
//@item src/compile/parse.rs Keyword
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item src/compile/parse.rs Sign
//@attr #[derive(Clone, Copy)]
//@end
type Toks = Seq<(Token, Span)>;
// the source, and where the lexer stops when it stops with an error
ghost struct Cx { s: Seq<u8>, err: Option<Span> }
spec fn after(r: Toks) -> Toks { r.skip(1) }
// where the text ends too early
spec fn end_span(c: Cx) -> Span { match c.err { Some(sp) => sp, None => spn(c.s.len() as int, c.s.len() as int) } }
type G<T> = std::result::Result<T, Span>;

spec fn g_any(c: Cx, r: Toks) -> G<((Token, Span), Toks)> { if r.len() == 0 { Err(end_span(c)) } else { Ok((r[0], after(r))) } }
spec fn g_tok(c: Cx, r: Toks, t: Token) -> G<(Span, Toks)> {
    if r.len() == 0 { Err(end_span(c)) } else if r[0].0 == t { Ok((r[0].1, after(r))) } else { Err(r[0].1) }
}
// the next token, without taking it
spec fn g_peek(c: Cx, r: Toks) -> G<Option<(Token, Span)>> {
    if r.len() > 0 { Ok(Some(r[0])) } else if c.err is Some { Err(c.err->Some_0) } else { Ok(None) }
}
spec fn g_is(c: Cx, r: Toks, t: Token) -> G<bool> { match g_peek(c, r) { Err(e) => Err(e), Ok(p) => Ok(p is Some && p->Some_0.0 == t) } }
spec fn kw_of(t: Seq<u8>) -> Keyword {
    if t == bs("if") { Keyword::If } else if t == bs("not") { Keyword::Not } else if t == bs("else") { Keyword::Else } else if t == bs("endif") { Keyword::EndIf }
    else if t == bs("for") { Keyword::For } else if t == bs("in") { Keyword::In } else if t == bs("endfor") { Keyword::EndFor } else if t == bs("with") { Keyword::With }
    else if t == bs("as") { Keyword::As } else if t == bs("endwith") { Keyword::EndWith } else if t == bs("include") { Keyword::Include } else if t == bs("true") { Keyword::True } else { Keyword::False }
}
spec fn g_keyword(c: Cx, r: Toks) -> G<((Keyword, Span), Toks)> {
    match g_tok(c, r, Token::Keyword) { Err(e) => Err(e), Ok((sp, r1)) => Ok(((kw_of(span_text(c.s, sp)), sp), r1)) }
}
spec fn g_kw(c: Cx, r: Toks, k: Keyword) -> G<(Span, Toks)> {
    match g_keyword(c, r) { Err(e) => Err(e), Ok(((got, sp), r1)) => if got == k { Ok((sp, r1)) } else { Err(sp) } }
}
spec fn g_is_kw(c: Cx, r: Toks, k: Keyword) -> G<bool> {
    match g_peek(c, r) { Err(e) => Err(e), Ok(p) => Ok(p is Some && p->Some_0.0 is Keyword && kw_of(span_text(c.s, p->Some_0.1)) == k) }
}

// ---------------------------------------------------------------- literals
ghost enum Lit { Other, Bool(bool), Int(int), Float(f64), Str(Seq<u8>) }
spec fn lit_is(v: Value, l: Lit) -> bool {
    match l { Lit::Bool(b) => v == Value::Bool(b), Lit::Int(i) => v is Integer && v->Integer_0 == i, Lit::Float(f) => v == Value::Float(f), Lit::Str(t) => v is String && sbytes(v->String_0) == t, Lit::Other => false }
}
spec fn radix_of(t: Seq<u8>) -> int { if t.len() >= 2 && t[0] == 48 { if t[1] == 98 { 2 } else if t[1] == 111 { 8 } else if t[1] == 120 { 16 } else { 10 } } else { 10 } }
spec fn prefix_of(t: Seq<u8>) -> int { if radix_of(t) == 10 { 0 } else { 2 } }
// the value of a digit
spec fn digit_value(b: u8, radix: int) -> Option<int> {
    let v = if 48 <= b <= 57 { b - 48 } else if 97 <= b <= 122 { b - 97 + 10 } else if 65 <= b <= 90 { b - 65 + 10 } else { 99int };
    if v < radix { Some(v) } else { None }
}
ghost enum IntErr { Digit(int), Range }
spec fn in_i64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
// the digits from k on, read on from acc
spec fn int_from(t: Seq<u8>, k: int, acc: int, radix: int, neg: bool) -> std::result::Result<int, IntErr>
    decreases t.len() - k
{
    if k < 0 || k >= t.len() { Ok(acc) }
    else if t[k] == 95 { int_from(t, k + 1, acc, radix, neg) }
    else { match digit_value(t[k], radix) {
        None => Err(IntErr::Digit(k)),
        Some(d) => if !in_i64(acc * radix) || !in_i64(if neg { acc * radix - d } else { acc * radix + d }) { Err(IntErr::Range) }
            else { int_from(t, k + 1, if neg { acc * radix - d } else { acc * radix + d }, radix, neg) } } }
}
spec fn int_lit(t: Seq<u8>, neg: bool) -> std::result::Result<int, IntErr> { int_from(t, prefix_of(t), 0, radix_of(t), neg) }
// TRUSTED: str::parse::<f64> and negation of floats
uninterp spec fn f64_of(t: Seq<u8>) -> Option<f64>;
uninterp spec fn f64_neg(f: f64) -> f64;
spec fn has_sign(t: Seq<u8>) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k] == 46 || t[k] == 45 || t[k] == 43) }
// raw is the text of the number, which ends where the whole literal (with its sign) ends
spec fn g_number(s: Seq<u8>, raw: Seq<u8>, sp: Span, neg: bool) -> G<(Lit, Span)> {
    match int_lit(raw, neg) {
        Ok(i) => Ok((Lit::Int(i), sp)),
        Err(e) => match f64_of(raw) {
            Some(f) => Ok((Lit::Float(if neg { f64_neg(f) } else { f }), sp)),
            None => Err(if has_sign(raw) { sp } else { int_err(raw, sp, e) }),
        },
    }
}
spec fn int_err(raw: Seq<u8>, sp: Span, e: IntErr) -> Span { match e { IntErr::Digit(k) => spn(sp.n - raw.len() + k, sp.n - raw.len() + k + 1), IntErr::Range => sp } }
// the characters of t[k..] up to the closing quote; an escape that is none is an error there
spec fn unescaped(c: char) -> Option<u8> {
    if c == 'n' { Some(10) } else if c == 'r' { Some(13) } else if c == 't' { Some(9) } else if c == '\\' { Some(92) } else if c == '"' { Some(34) } else { None }
}
spec fn str_from(t: Seq<u8>, k: int, acc: Seq<u8>) -> std::result::Result<Seq<u8>, int>
    decreases left_of(t, k)
{
    if k < 0 || k >= t.len() || char_at(t, k) == '"' { Ok(acc) }
    else if char_at(t, k) == '\\' {
        let n = k + 1;
        if n >= t.len() { Err(n) } else { match unescaped(char_at(t, n)) { Some(b) => str_from(t, n + clen(t[n]), acc.push(b)), None => Err(n) } }
    }
    else { str_from(t, k + clen(t[k]), acc + t.subrange(k, k + clen(t[k]))) }
}
spec fn g_string(s: Seq<u8>, sp: Span) -> G<Seq<u8>> {
    let t = span_text(s, sp);
    match str_from(t, 1, Seq::empty()) { Ok(x) => Ok(x), Err(n) => Err(spn(sp.m + n, sp.m + n + clen(t[n]))) }
}
spec fn g_bool(s: Seq<u8>, sp: Span) -> G<(Lit, Span)> {
    let t = span_text(s, sp);
    if t == bs("false") { Ok((Lit::Bool(false), sp)) } else if t == bs("true") { Ok((Lit::Bool(true), sp)) } else { Err(sp) }
}

// ---------------------------------------------------------------- expressions
ghost enum GAccess { Key(Span), Index(int, Span) }
ghost struct GMember { opt: bool, access: GAccess, span: Span }
ghost enum GBase { Var(Seq<GMember>), Lit(Lit, Span) }
ghost enum GExpr { Base(GBase), Call(Box<GExpr>, Span, Option<(Seq<GBase>, Span)>, Span) }
spec fn acc_span(a: GAccess) -> Span { match a { GAccess::Key(sp) => sp, GAccess::Index(_, sp) => sp } }
spec fn gb_span(b: GBase) -> Span { match b { GBase::Var(p) => combined(p[0].span, p.last().span), GBase::Lit(_, sp) => sp } }
spec fn ge_span(e: GExpr) -> Span { match e { GExpr::Base(b) => gb_span(b), GExpr::Call(_, _, _, sp) => sp } }

spec fn dec_from(t: Seq<u8>, k: int) -> int decreases k { if k <= 0 || k > t.len() { 0 } else { dec_from(t, k - 1) * 10 + (t[k - 1] - 48) } }
// the number a sequence of digits stands for
spec fn dec(t: Seq<u8>) -> int { dec_from(t, t.len() as int) }
spec fn g_access(c: Cx, r: Toks) -> G<(GAccess, Toks)> {
    match g_any(c, r) { Err(e) => Err(e), Ok(((t, sp), r1)) => match t {
        Token::Index => if dec(span_text(c.s, sp)) <= usize::MAX { Ok((GAccess::Index(dec(span_text(c.s, sp)), sp), r1)) } else { Err(sp) },
        Token::Ident => Ok((GAccess::Key(sp), r1)),
        _ => Err(sp) } }
}
spec fn g_path(c: Cx, r: Toks, p: Seq<GMember>) -> G<(Seq<GMember>, Toks)>
    decreases r.len()
{
    match g_peek(c, r) { Err(e) => Err(e),
        Ok(Some((t, sp))) => if t is Dot || t is QuestionDot {
            match g_access(c, after(r)) { Err(e) => Err(e),
                Ok((a, r2)) => if r2.len() < r.len() { g_path(c, r2, p.push(GMember { opt: t is QuestionDot, access: a, span: combined(sp, acc_span(a)) })) } else { Err(sp) } }
        } else { Ok((p, r)) },
        Ok(None) => Ok((p, r)) }
}
spec fn g_signed(c: Cx, r: Toks, sign: Span, neg: bool) -> G<(GBase, Toks)> {
    match g_tok(c, r, Token::Number) { Err(e) => Err(e),
        Ok((sp, r1)) => match g_number(c.s, span_text(c.s, sp), combined(sign, sp), neg) { Err(e) => Err(e), Ok((l, lsp)) => Ok((GBase::Lit(l, lsp), r1)) } }
}
spec fn g_base(c: Cx, r: Toks) -> G<(GBase, Toks)> {
    match g_any(c, r) { Err(e) => Err(e), Ok(((t, sp), r1)) => match t {
        Token::Keyword => match g_bool(c.s, sp) { Err(e) => Err(e), Ok((l, lsp)) => Ok((GBase::Lit(l, lsp), r1)) },
        Token::Minus => g_signed(c, r1, sp, true),
        Token::Plus => g_signed(c, r1, sp, false),
        Token::Number => match g_number(c.s, span_text(c.s, sp), sp, false) { Err(e) => Err(e), Ok((l, lsp)) => Ok((GBase::Lit(l, lsp), r1)) },
        Token::String => match g_string(c.s, sp) { Err(e) => Err(e), Ok(x) => Ok((GBase::Lit(Lit::Str(x), sp), r1)) },
        Token::Ident => match g_path(c, r1, seq![GMember { opt: false, access: GAccess::Key(sp), span: sp }]) { Err(e) => Err(e), Ok((p, r2)) => Ok((GBase::Var(p), r2)) },
        _ => Err(sp) } }
}
// comma separated, at least one
spec fn g_args(c: Cx, r: Toks, a: Seq<GBase>) -> G<(Seq<GBase>, Toks)>
    decreases r.len()
{
    match g_base(c, r) { Err(e) => Err(e), Ok((b, r1)) => match g_is(c, r1, Token::Comma) { Err(e) => Err(e),
        Ok(false) => Ok((a.push(b), r1)),
        Ok(true) => if after(r1).len() < r.len() { g_args(c, after(r1), a.push(b)) } else { Err(end_span(c)) } } }
}
spec fn g_ident(c: Cx, r: Toks) -> G<(Span, Toks)> { g_tok(c, r, Token::Ident) }
// `| name` or `| name: args`
spec fn g_call(c: Cx, r: Toks, e: GExpr) -> G<(GExpr, Toks)> {
    match g_ident(c, r) { Err(x) => Err(x), Ok((name, r1)) => match g_is(c, r1, Token::Colon) { Err(x) => Err(x),
        Ok(false) => Ok((GExpr::Call(Box::new(e), name, None, combined(ge_span(e), name)), r1)),
        Ok(true) => match g_args(c, after(r1), Seq::empty()) { Err(x) => Err(x), Ok((a, r2)) => {
            let sp = combined(r1[0].1, gb_span(a.last()));
            Ok((GExpr::Call(Box::new(e), name, Some((a, sp)), combined(ge_span(e), sp)), r2)) } } } }
}
spec fn g_calls(c: Cx, r: Toks, e: GExpr) -> G<(GExpr, Toks)>
    decreases r.len()
{
    match g_is(c, r, Token::Pipe) { Err(x) => Err(x), Ok(false) => Ok((e, r)),
        Ok(true) => match g_call(c, after(r), e) { Err(x) => Err(x), Ok((e1, r1)) => if r1.len() < r.len() { g_calls(c, r1, e1) } else { Err(end_span(c)) } } }
}
spec fn g_expr(c: Cx, r: Toks) -> G<(GExpr, Toks)> {
    match g_base(c, r) { Err(x) => Err(x), Ok((b, r1)) => g_calls(c, r1, GExpr::Base(b)) }
}

// ---------------------------------------------------------------- the inside of a block tag
ghost enum GVars { Item(Span), KeyValue(Span, Span, Span) }
ghost enum GBlock { If(bool, GExpr), Else, ElseIf(bool, GExpr), EndIf, For(GVars, GExpr), EndFor, With(GExpr, Span), EndWith, Include(Seq<u8>, Span, Option<GExpr>) }
spec fn g_vars(c: Cx, r: Toks) -> G<(GVars, Toks)> {
    match g_ident(c, r) { Err(x) => Err(x), Ok((k, r1)) => match g_is(c, r1, Token::Comma) { Err(x) => Err(x),
        Ok(false) => Ok((GVars::Item(k), r1)),
        Ok(true) => match g_ident(c, after(r1)) { Err(x) => Err(x), Ok((v, r2)) => Ok((GVars::KeyValue(k, v, combined(k, v)), r2)) } } }
}
spec fn g_cond(c: Cx, r: Toks) -> G<((bool, GExpr), Toks)> {
    match g_is_kw(c, r, Keyword::Not) { Err(x) => Err(x),
        Ok(not) => match g_expr(c, if not { after(r) } else { r }) { Err(x) => Err(x), Ok((e, r1)) => Ok(((not, e), r1)) } }
}
spec fn g_block(c: Cx, r: Toks) -> G<(GBlock, Toks)> {
    match g_keyword(c, r) { Err(x) => Err(x), Ok(((k, sp), r1)) => match k {
        Keyword::If => match g_cond(c, r1) { Err(x) => Err(x), Ok(((n, e), r2)) => Ok((GBlock::If(n, e), r2)) },
        Keyword::Else => match g_is_kw(c, r1, Keyword::If) { Err(x) => Err(x), Ok(false) => Ok((GBlock::Else, r1)),
            Ok(true) => match g_cond(c, after(r1)) { Err(x) => Err(x), Ok(((n, e), r2)) => Ok((GBlock::ElseIf(n, e), r2)) } },
        Keyword::EndIf => Ok((GBlock::EndIf, r1)),
        Keyword::For => match g_vars(c, r1) { Err(x) => Err(x), Ok((v, r2)) => match g_kw(c, r2, Keyword::In) { Err(x) => Err(x),
            Ok((_, r3)) => match g_expr(c, r3) { Err(x) => Err(x), Ok((e, r4)) => Ok((GBlock::For(v, e), r4)) } } },
        Keyword::EndFor => Ok((GBlock::EndFor, r1)),
        Keyword::With => match g_expr(c, r1) { Err(x) => Err(x), Ok((e, r2)) => match g_kw(c, r2, Keyword::As) { Err(x) => Err(x),
            Ok((_, r3)) => match g_ident(c, r3) { Err(x) => Err(x), Ok((n, r4)) => Ok((GBlock::With(e, n), r4)) } } },
        Keyword::EndWith => Ok((GBlock::EndWith, r1)),
        Keyword::Include => match g_tok(c, r1, Token::String) { Err(x) => Err(x), Ok((nsp, r2)) => match g_string(c.s, nsp) { Err(x) => Err(x),
            Ok(name) => match g_is_kw(c, r2, Keyword::With) { Err(x) => Err(x), Ok(false) => Ok((GBlock::Include(name, nsp, None), r2)),
                Ok(true) => match g_expr(c, after(r2)) { Err(x) => Err(x), Ok((e, r3)) => Ok((GBlock::Include(name, nsp, Some(e)), r3)) } } } },
        _ => Err(sp) } }
}

// ---------------------------------------------------------------- blocks
// what the template consists of, with `else if` spelt out as an if block inside the else branch
ghost enum GEv { Raw(Span), Expr(GExpr, Span), Include(Seq<u8>, Span, Option<GExpr>), If(bool, GExpr), Else, EndIf, For(GVars, GExpr), EndFor, With(GExpr, Span), EndWith }
// an open block: an if (the kind that stands in an else if, has it had its else), a for, a with
ghost enum Frame { If(bool, bool, Span), For(Span), With(Span) }
spec fn frame_span(f: Frame) -> Span { match f { Frame::If(_, _, sp) => sp, Frame::For(sp) => sp, Frame::With(sp) => sp } }
spec fn open_if(st: Seq<Frame>) -> bool { st.len() > 0 && st.last() is If && !st.last()->If_1 }
spec fn had_else(st: Seq<Frame>) -> Seq<Frame> { st.drop_last().push(Frame::If(st.last()->If_0, true, st.last()->If_2)) }
// endif ends the innermost if and with it the ifs it is an else if of
spec fn end_if(st: Seq<Frame>, evs: Seq<GEv>, sp: Span) -> G<(Seq<Frame>, Seq<GEv>)>
    decreases st.len()
{
    if st.len() == 0 || !(st.last() is If) { Err(sp) }
    else if st.last()->If_0 { end_if(st.drop_last(), evs.push(GEv::EndIf), sp) }
    else { Ok((st.drop_last(), evs.push(GEv::EndIf))) }
}
spec fn block_step(b: GBlock, sp: Span, st: Seq<Frame>, evs: Seq<GEv>) -> G<(Seq<Frame>, Seq<GEv>)> {
    match b {
        GBlock::If(n, e) => Ok((st.push(Frame::If(false, false, sp)), evs.push(GEv::If(n, e)))),
        GBlock::ElseIf(n, e) => if open_if(st) { Ok((had_else(st).push(Frame::If(true, false, sp)), evs.push(GEv::Else).push(GEv::If(n, e)))) } else { Err(sp) },
        GBlock::Else => if open_if(st) { Ok((had_else(st), evs.push(GEv::Else))) } else { Err(sp) },
        GBlock::EndIf => end_if(st, evs, sp),
        GBlock::For(v, e) => Ok((st.push(Frame::For(sp)), evs.push(GEv::For(v, e)))),
        GBlock::EndFor => if st.len() > 0 && st.last() is For { Ok((st.drop_last(), evs.push(GEv::EndFor))) } else { Err(sp) },
        GBlock::With(e, n) => Ok((st.push(Frame::With(sp)), evs.push(GEv::With(e, n)))),
        GBlock::EndWith => if st.len() > 0 && st.last() is With { Ok((st.drop_last(), evs.push(GEv::EndWith))) } else { Err(sp) },
        GBlock::Include(name, nsp, e) => Ok((st, evs.push(GEv::Include(name, nsp, e)))),
    }
}
// one piece of the template: text, a comment, an expression tag or a block tag
spec fn g_item(c: Cx, r: Toks, st: Seq<Frame>, evs: Seq<GEv>) -> G<((Seq<Frame>, Seq<GEv>), Toks)> {
    let r1 = after(r);
    let sp = r[0].1;
    match r[0].0 {
        Token::Raw => Ok(((st, evs.push(GEv::Raw(sp))), r1)),
        Token::BeginComment => match g_is(c, r1, Token::Raw) { Err(x) => Err(x),
            Ok(raw) => match g_tok(c, if raw { after(r1) } else { r1 }, Token::EndComment) { Err(x) => Err(x), Ok((_, r2)) => Ok(((st, evs), r2)) } },
        Token::BeginExpr => match g_expr(c, r1) { Err(x) => Err(x), Ok((e, r2)) => match g_tok(c, r2, Token::EndExpr) { Err(x) => Err(x),
            Ok((end, r3)) => Ok(((st, evs.push(GEv::Expr(e, combined(sp, end)))), r3)) } },
        Token::BeginBlock => match g_block(c, r1) { Err(x) => Err(x), Ok((b, r2)) => match g_tok(c, r2, Token::EndBlock) { Err(x) => Err(x),
            Ok((end, r3)) => match block_step(b, combined(sp, end), st, evs) { Err(x) => Err(x), Ok(n) => Ok((n, r3)) } } },
        _ => Err(sp),
    }
}
spec fn g_run(c: Cx, r: Toks, st: Seq<Frame>, evs: Seq<GEv>) -> G<Seq<GEv>>
    decreases r.len()
{
    if r.len() == 0 { match c.err { Some(sp) => Err(sp), None => if st.len() > 0 { Err(frame_span(st[0])) } else { Ok(evs) } } }
    else { match g_item(c, r, st, evs) { Err(x) => Err(x), Ok(((st1, evs1), r1)) => if r1.len() < r.len() { g_run(c, r1, st1, evs1) } else { Err(r[0].1) } } }
}
// the tokens of a source, up to its end or to where the lexer stops
spec fn toks(pats: Pats, s: Seq<u8>, x: LX) -> Toks
    decreases lx_size(s, x)
{
    let r = next_tok(pats, s, x);
    match r.0 { LexOut::Tok(t, sp) => if lx_ok(s, r.1) && lx_size(s, r.1) < lx_size(s, x) { seq![(t, sp)] + toks(pats, s, r.1) } else { Seq::empty() }, _ => Seq::empty() }
}
spec fn stop(pats: Pats, s: Seq<u8>, x: LX) -> Option<Span>
    decreases lx_size(s, x)
{
    let r = next_tok(pats, s, x);
    match r.0 { LexOut::Tok(t, sp) => if lx_ok(s, r.1) && lx_size(s, r.1) < lx_size(s, x) { stop(pats, s, r.1) } else { None }, LexOut::Err(sp) => Some(sp), LexOut::End => None }
}
// what a source is parsed to under these delimiters, or the place of the error
spec fn parses_to(pats: Pats, s: Seq<u8>) -> G<Seq<GEv>> { g_run(Cx { s, err: stop(pats, s, lx0()) }, toks(pats, s, lx0()), Seq::empty(), Seq::empty()) }

// ---------------------------------------------------------------- what a tree consists of
spec fn gacc(a: ast::Access) -> GAccess { match a { ast::Access::Index(i) => GAccess::Index(i.value as int, i.span), ast::Access::Key(k) => GAccess::Key(k.span) } }
spec fn gmem(m: ast::Member) -> GMember { GMember { opt: m.op is Optional, access: gacc(m.access), span: m.span } }
spec fn lit_of(v: Value) -> Lit {
    match v { Value::Bool(b) => Lit::Bool(b), Value::Integer(i) => Lit::Int(i as int), Value::Float(f) => Lit::Float(f), Value::String(t) => Lit::Str(sbytes(t)), _ => Lit::Other }
}
spec fn gpath(p: Seq<ast::Member>) -> Seq<GMember> { p.map_values(|m: ast::Member| gmem(m)) }
spec fn gbase(b: ast::BaseExpr) -> GBase {
    match b { ast::BaseExpr::Var(v) => GBase::Var(gpath(v.path@)), ast::BaseExpr::Literal(l) => GBase::Lit(lit_of(l.value), l.span) }
}
spec fn gbases(a: Seq<ast::BaseExpr>) -> Seq<GBase> { a.map_values(|b: ast::BaseExpr| gbase(b)) }
spec fn gexpr(e: ast::Expr) -> GExpr
    decreases e
{
    match e { ast::Expr::Base(b) => GExpr::Base(gbase(b)),
        ast::Expr::Call(c) => GExpr::Call(Box::new(gexpr(*c.receiver)), c.name.span, match c.args { Some(a) => Some((gbases(a.values@), a.span)), None => None }, c.span) }
}
spec fn gvars(v: ast::LoopVars) -> GVars { match v { ast::LoopVars::Item(i) => GVars::Item(i.span), ast::LoopVars::KeyValue(kv) => GVars::KeyValue(kv.key.span, kv.value.span, kv.span) } }
spec fn gopt(e: Option<ast::Expr>) -> Option<GExpr> { match e { Some(x) => Some(gexpr(x)), None => None } }
spec fn flat_stmt(st: ast::Stmt) -> Seq<GEv>
    decreases st, 0nat
{
    match st {
        ast::Stmt::Raw(sp) => seq![GEv::Raw(sp)],
        ast::Stmt::InlineExpr(ie) => seq![GEv::Expr(gexpr(ie.expr), ie.span)],
        ast::Stmt::Include(i) => seq![GEv::Include(sbytes(i.name.name), i.name.span, gopt(i.globals))],
        ast::Stmt::IfElse(ie) => seq![GEv::If(ie.not, gexpr(ie.cond))] + flat_scope(ie.then_branch, ie.then_branch.stmts@.len())
            + (match ie.else_branch { Some(e) => seq![GEv::Else] + flat_scope(e, e.stmts@.len()), None => Seq::empty() }) + seq![GEv::EndIf],
        ast::Stmt::ForLoop(f) => seq![GEv::For(gvars(f.vars), gexpr(f.iterable))] + flat_scope(f.body, f.body.stmts@.len()) + seq![GEv::EndFor],
        ast::Stmt::With(w) => seq![GEv::With(gexpr(w.expr), w.name.span)] + flat_scope(w.body, w.body.stmts@.len()) + seq![GEv::EndWith],
    }
}
spec fn flat_scope(sc: ast::Scope, k: nat) -> Seq<GEv>
    decreases sc, k
{ if k == 0 || k > sc.stmts@.len() { Seq::empty() } else { flat_scope(sc, (k - 1) as nat) + flat_stmt(sc.stmts@[k - 1]) } }
spec fn flat(sc: ast::Scope) -> Seq<GEv> { flat_scope(sc, sc.stmts@.len()) }
} // verus!
