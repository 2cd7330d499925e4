//@include text.vrs
// C13: what an error reports is computed from the span it was made with
verus! {
//@item src/error.rs Error
//@end
//@item src/error.rs ErrorKind
//@sub `std :: io :: Error` => `IoE`
//@end
//@item src/error.rs Pretty
//@end
//@item src/fmt.rs Error
//@sub `struct Error` => `struct FmtError`
//@end
// ---------------------------------------------------------------- lines and columns
spec fn nl() -> u8 { 10 }
// newlines before offset m
spec fn newlines(s: Seq<u8>, m: int) -> nat decreases m { if m <= 0 { 0 } else { newlines(s, m - 1) + if s[m - 1] == nl() { 1nat } else { 0 } } }
// where the line holding offset m starts, and where it ends
spec fn line_start(s: Seq<u8>, m: int) -> int decreases m { if m <= 0 { 0 } else if s[m - 1] == nl() { m } else { line_start(s, m - 1) } }
spec fn line_end(s: Seq<u8>, m: int) -> int decreases s.len() - m { if m < 0 || m >= s.len() || s[m] == nl() { m } else { line_end(s, m + 1) } }
// TRUSTED: the display width of a text (crate unicode-width); of no text it is 0
uninterp spec fn width(s: Seq<u8>) -> nat;
#[verifier::external_body]
proof fn ax_width() ensures width(Seq::empty()) == 0 {}
#[verifier::external_body]
fn vx_width(s: &str) -> (r: usize) ensures r == width(bs(s)) { unimplemented!() }
#[verifier::external_body]
fn vx_chars_count(s: &str) -> (r: usize) { s.chars().count() }
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
// TRUSTED: str::split_terminator('\n') gives the pieces between newlines, without a last empty one
spec fn lines_of(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let e = line_end(s, 0);
        if e < 0 || e >= s.len() { seq![s] } else { seq![s.take(e)] + lines_of(s.skip(e + 1)) }
    }
}
spec fn views(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|x: &str| bs(x)) }
#[verifier::external_body]
fn vx_lines<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures views(r@) == lines_of(bs(s)) { s.split_terminator('\n').collect() }
#[verifier::external_body]
fn vx_line<'a>(v: &Vec<&'a str>, i: usize) -> (r: &'a str) ensures bs(r) == (if i < v@.len() { bs(v@[i as int]) } else { Seq::empty() }) { v.get(i).copied().unwrap_or_default() }
proof fn lemma_line_end(s: Seq<u8>, m: int)
    requires 0 <= m <= s.len()
    ensures m <= line_end(s, m) <= s.len(), forall|i: int| m <= i < line_end(s, m) ==> s[i] != nl(), line_end(s, m) < s.len() ==> s[line_end(s, m)] == nl()
    decreases s.len() - m
{ if m < s.len() && s[m] != nl() { lemma_line_end(s, m + 1); } }
proof fn lemma_end_by(s: Seq<u8>, m: int, e: int)
    requires 0 <= m <= e <= s.len(), forall|i: int| m <= i < e ==> s[i] != nl(), e < s.len() ==> s[e] == nl()
    ensures line_end(s, m) == e
    decreases e - m
{ if m < e { lemma_end_by(s, m + 1, e); } }
// no newline from n, where a line starts, to m
proof fn lemma_same_line(s: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m <= s.len(), line_start(s, n) == n, forall|i: int| n <= i < m ==> s[i] != nl()
    ensures line_start(s, m) == n, newlines(s, m) == newlines(s, n)
    decreases m - n
{ if n < m { lemma_same_line(s, n, m - 1); } }
// the pieces are the lines: piece k holds offset m when there are k newlines before m
proof fn lemma_piece(s: Seq<u8>, n: int, k: nat, m: int)
    requires 0 <= n <= m <= s.len(), line_start(s, n) == n, newlines(s, n) == k
    ensures ({
        let j = newlines(s, m) - k;
        let l = lines_of(s.skip(n));
        &&& 0 <= j <= l.len()
        &&& (if j < l.len() { l[j] } else { Seq::empty() }) == s.subrange(line_start(s, m), line_end(s, m))
        &&& line_start(s, m) <= m <= line_end(s, m) <= s.len()
    })
    decreases s.len() - n
{
    let t = s.skip(n);
    lemma_line_end(s, m);
    if t.len() > 0 {
        lemma_line_end(t, 0);
        let e = line_end(t, 0);
        if m <= n + e {
            assert forall|i: int| n <= i < m implies s[i] != nl() by { assert(s[i] == t[i - n]); }
            lemma_same_line(s, n, m);
            assert forall|i: int| m <= i < n + e implies s[i] != nl() by { assert(s[i] == t[i - n]); }
            if e < t.len() { assert(s[n + e] == t[e]); }
            lemma_end_by(s, m, n + e);
            if e < t.len() { assert(t.take(e) =~= s.subrange(n, n + e)); } else { assert(t =~= s.subrange(n, n + e)); }
        } else {
            assert forall|i: int| n <= i < n + e implies s[i] != nl() by { assert(s[i] == t[i - n]); }
            lemma_same_line(s, n, n + e);
            assert(s[n + e] == t[e]);
            lemma_piece(s, n + e + 1, k + 1, m);
            assert(t.skip(e + 1) =~= s.skip(n + e + 1));
            lemma_newlines(s, n + e + 1, m);
        }
    } else { assert(s.subrange(m, m) =~= Seq::empty()); }
}
proof fn lemma_newlines(s: Seq<u8>, a: int, b: int) requires a <= b ensures newlines(s, a) <= newlines(s, b) decreases b - a { if a < b { lemma_newlines(s, a, b - 1); } }

//@fn src/error.rs display_width
//@ret r
//@sub `unicode_width :: UnicodeWidthStr :: width ( $x )` => `vx_width($x)`
//@sub `s . chars ( ) . count ( )` => `vx_chars_count(s)`
//@spec
    ensures r == width(bs(s))
//@end
//@fn src/error.rs to_ln_col
//@sig fn to_ln_col(lines: &Vec<&str>, offset: usize, Ghost(src): Ghost<&str>) -> (usize, usize)
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `let mut n = 0 ;` => `let mut n: usize = 0;`
//@sub `for ( $i_id , $l_id ) in lines . iter ( ) . enumerate ( ) {` => `let mut vx_i: usize = 0; while vx_i < lines.len() { let $i_id = vx_i; let $l_id = lines[vx_i]; vx_i = vx_i + 1;`
//@spec
    requires views(lines@) == lines_of(bs(src)), offset <= bs(src).len(), bnd(bs(src), offset as int)
    ensures r.0 == newlines(bs(src), offset as int), r.1 == width(bs(src).subrange(line_start(bs(src), offset as int), offset as int))
//@start
    let ghost s = bs(src);
    proof { ax_str(src); ax_width(); assert(s.skip(0) =~= s); assert(views(lines@).skip(0) =~= views(lines@)); }
//@loop 0
    invariant
        vx_i <= lines@.len(), n <= offset, offset <= s.len(), s.len() <= isize::MAX,
        line_start(s, n as int) == n, newlines(s, n as int) == vx_i, lines_of(s.skip(n as int)) == views(lines@).skip(vx_i as int)
    decreases lines@.len() - vx_i
//@loop_start 0
    let ghost t = s.skip(n as int);
    let ghost e = line_end(t, 0);
    proof {
        assert(views(lines@).skip(vx_i as int)[0] == bs(lines@[vx_i as int]));
        assert(t.len() > 0);
        lemma_line_end(t, 0);
        if e < t.len() {
            assert(lines_of(t)[0] == t.take(e));
            assert(lines_of(t).skip(1) =~= lines_of(t.skip(e + 1)));
            assert(views(lines@).skip(vx_i as int).skip(1) =~= views(lines@).skip(vx_i + 1));
            assert(t.skip(e + 1) =~= s.skip(n + e + 1));
            assert(s[n + e] == t[e]);
        } else { assert(t.take(e) =~= t); }
        assert(bs(lines@[vx_i as int]) == t.take(e));
        assert forall|i: int| n <= i < n + e implies s[i] != nl() by { assert(s[i] == t[i - n]); }
        if offset <= n + e {
            lemma_same_line(s, n as int, offset as int);
            assert(t.take(e).subrange(0, offset - n) =~= s.subrange(n as int, offset as int));
            assert(bnd(t.take(e), offset - n)) by { if 0 < offset - n < e { assert(t.take(e)[offset - n] == s[offset as int]); } }
        } else { lemma_same_line(s, n as int, n + e); }
    }
//@after `let len = $x ;`
    proof { assert(len == e + 1); }
//@before `( lines . len ( ) , 0 )`
    proof { assert(views(lines@).skip(vx_i as int).len() == 0); assert(s.skip(n as int).len() == 0); assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::empty()); }
//@end

// the position of sp in s, the line it is on, and how much of it to underline
spec fn points_at(p: Pretty, s: Seq<u8>, sp: Span) -> bool {
    &&& p.ln == newlines(s, sp.m as int)
    &&& p.col == width(s.subrange(line_start(s, sp.m as int), sp.m as int))
    &&& sbytes(p.text) == s.subrange(line_start(s, sp.m as int), line_end(s, sp.m as int))
    &&& p.width == (if width(span_text(s, sp)) >= 1 { width(span_text(s, sp)) } else { 1 })
}
impl Pretty {
//@fn src/error.rs Pretty::build
//@ret r
//@sub `source . split_terminator ( '\n' ) . collect ( )` => `vx_lines(source)`
//@sub `to_ln_col ( & lines , $x )` => `to_ln_col(&lines, $x, Ghost(source))`
//@sub `max ( $a , $b )` => `vx_max($a, $b)`
//@sub `lines . get ( $i ) . copied ( ) . unwrap_or_default ( ) . to_string ( )` => `vx_to_owned(vx_line(&lines, $i))`
//@spec
    requires span_ok(bs(source), span)
    ensures points_at(r, bs(source), span)
//@start
    proof { let s = bs(source); assert(s.skip(0) =~= s); lemma_piece(s, 0, 0, span.m as int); }
//@end
}
// ---------------------------------------------------------------- an error says what is known about it
spec fn is_kind(k: ErrorKind, e: EK) -> bool {
    match e {
        EK::Syntax => k is Syntax, EK::Render | EK::IncludeDepth => k is Render, EK::Format => k is Format, EK::Filter => k is Filter,
        EK::Io(x) => k is Io && k->Io_0 == x, EK::Other => k is Serialize,
    }
}
spec fn said(r: Error, e: EV) -> bool {
    &&& is_kind(r.kind, e.kind)
    &&& match e.name { None => r.name is None, Some(n) => r.name is Some && sbytes(r.name->Some_0) == n }
    &&& match e.at { None => r.pretty is None, Some((s, sp)) => r.pretty is Some && points_at(r.pretty->Some_0, s, sp) }
}
#[verifier::external_body]
fn vx_into<R>(r: R) -> String { unimplemented!() }
impl FmtError {
//@fn src/fmt.rs Error::message
//@ret r
//@spec
    ensures r == self.0
//@end
}
#[verifier::external_body]
struct StdFmtError { x: u8 }
impl Error {
//@fn src/error.rs Error::syntax
//@sig fn syntax<R>(reason: R, source: &str, span: Span) -> Error
//@ret r
//@sub `reason . into ( )` => `vx_into(reason)`
//@sub `span . into ( )` => `span`
//@spec
    requires span_ok(bs(source), span)
    ensures said(r, ev(EK::Syntax, bs(source), span)), r.reason is Some
//@end
//@fn src/error.rs Error::render
//@sig fn render<R>(reason: R, source: &str, span: Span) -> Error
//@ret r
//@sub `reason . into ( )` => `vx_into(reason)`
//@sub `span . into ( )` => `span`
//@spec
    requires span_ok(bs(source), span)
    ensures said(r, ev(EK::Render, bs(source), span)), r.reason is Some
//@end
//@fn src/error.rs Error::max_include_depth
//@ret r
//@spec
    ensures said(r, ev_depth())
//@end
//@fn src/error.rs Error::with_template_name
//@sig fn with_template_name(vx_in: Error, name: String) -> Error
//@ret r
//@sub `self` => `vx_self`
//@spec
    ensures r.reason == vx_in.reason, forall|e: EV| said(vx_in, e) ==> said(r, #[trigger] named(e, Some(sbytes(name))))
//@start
    let mut vx_self = vx_in;
//@end
//@fn src/error.rs Error::enrich
//@sig fn enrich(vx_in: Error, source: &str, span: Span) -> Error
//@ret r
//@sub `self . pretty . get_or_insert_with ( || $x ) ;` => `if vx_self.pretty.is_none() { vx_self.pretty = Some($x); }`
//@sub `span . into ( )` => `span`
//@sub `self` => `vx_self`
//@spec
    requires span_ok(bs(source), span)
    ensures r.reason == vx_in.reason, forall|e: EV| said(vx_in, e) ==> said(r, #[trigger] enriched(e, bs(source), span))
//@start
    let mut vx_self = vx_in;
//@end
//@fn src/error.rs Error::filter
//@sig fn filter<R>(reason: R) -> Error
//@ret r
//@sub `reason . into ( )` => `vx_into(reason)`
//@spec
    ensures said(r, EV { kind: EK::Filter, at: None, name: None }), r.reason is Some
//@end
//@fn src/error.rs Error::format
//@sig fn format(err: FmtError, source: &str, span: Span) -> Error
//@ret r
//@sub `span . into ( )` => `span`
//@spec
    requires span_ok(bs(source), span)
    ensures said(r, ev(EK::Format, bs(source), span)), r.reason == err.0
//@end
//@fn src/error.rs <From<std::io::Error> for Error>::from
//@sig fn from_io(err: IoE) -> Error
//@ret r
//@spec
    ensures said(r, EV { kind: EK::Io(err), at: None, name: None })
//@end
//@fn src/error.rs <From<std::fmt::Error> for Error>::from
//@sig fn from_fmt(_vx: StdFmtError) -> Error
//@ret r
//@spec
    ensures said(r, ev_write())
//@end
//@fn src/error.rs <std::error::Error for Error>::source
//@sig fn source(&self) -> Option<&IoE>
//@ret r
//@spec
    ensures match self.kind { ErrorKind::Io(e) => r is Some && *r->Some_0 == e, _ => r is None }
//@end
}
// ---------------------------------------------------------------- the report
enum Rep { Brief, Full { name: Option<Seq<u8>>, ln: nat, col: nat, text: Seq<u8>, indent: nat, width: nat, reason: Seq<u8> } }
// TRUSTED: a std::fmt::Formatter; what the format strings print
#[verifier::external_body]
struct StdFormatter { x: u8 }
impl StdFormatter {
    uninterp spec fn alt(&self) -> bool;
    uninterp spec fn got(&self) -> Seq<Rep>;
    #[verifier::external_body]
    fn alternate(&self) -> (r: bool) ensures r == self.alt() { unimplemented!() }
}
#[verifier::external_body]
fn vx_msg(f: &mut StdFormatter) -> (r: std::result::Result<(), StdFmtError>) ensures final(f).alt() == old(f).alt(), r is Ok ==> final(f).got() == old(f).got() { unimplemented!() }
#[verifier::external_body]
fn vx_brief(f: &mut StdFormatter) -> (r: std::result::Result<(), StdFmtError>) ensures r is Ok ==> final(f).got() == old(f).got().push(Rep::Brief) { unimplemented!() }
// `{name}:{num}:{col}`, then the line, then `width` carets after `indent` spaces
#[verifier::external_body]
fn vx_full(f: &mut StdFormatter, vx_form: &str, name: Option<&str>, num: usize, col: usize, text: &String, indent: usize, width: usize, reason: &str) -> (r: std::result::Result<(), StdFmtError>)
    requires vx_form@ == "\n\n {z:pad$}--> {name}:{num}:{col}\n {z:pad$} {pipe}\n {num:>} {pipe} {text}\n {z:pad$} {pipe} {indent}{underline}{extra}\n {z:pad$} {pipe}\n {z:pad$} {equals} reason: {reason}\n"@
    ensures r is Ok ==> final(f).got() == old(f).got().push(Rep::Full { name: match name { Some(n) => Some(bs(n)), None => None }, ln: num as nat, col: col as nat, text: sbytes(*text), indent: indent as nat, width: width as nat, reason: bs(reason) })
{ unimplemented!() }

#[verifier::external_body]
fn vx_pad(num: usize) -> usize { unimplemented!() }
spec fn full(p: Pretty, name: Option<Seq<u8>>, reason: Seq<u8>) -> Rep { Rep::Full { name, ln: (p.ln + 1) as nat, col: (p.col + 1) as nat, text: sbytes(p.text), indent: p.col as nat, width: p.width as nat, reason } }
impl Pretty {
//@fn src/error.rs Pretty::fmt_with_reason
//@sig fn fmt_with_reason(&self, f: &mut StdFormatter, name: Option<&str>, reason: &str) -> std::result::Result<(), StdFmtError>
//@ret r
//@sub `( $x ) . to_string ( )` => `($x)`
//@sub `display_width ( & num )` => `vx_pad(num)`
//@sub `" " . repeat ( $x )` => `$x`
//@sub `"^" . repeat ( $x )` => `$x`
//@sub `"-" . repeat ( $x )` => `0usize`
//@sub `name . unwrap_or ( "<anonymous>" )` => `name`
//@sub `write ! ( f , $m , )` => `vx_full(f, $m, name, num, col, text, indent, underline, reason)`
//@sub `write ! ( f , $m )` => `vx_full(f, $m, name, num, col, text, indent, underline, reason)`
//@spec
    // (a text is shorter than usize::MAX columns)
    requires self.ln < usize::MAX, self.col + self.width < usize::MAX
    ensures r is Ok ==> final(f).got() == old(f).got().push(full(*self, match name { Some(n) => Some(bs(n)), None => None }, bs(reason)))
//@end
}
impl Error {
//@fn src/error.rs <std::fmt::Display for Error>::fmt
//@sig fn display(&self, f: &mut StdFormatter) -> std::result::Result<(), StdFmtError>
//@ret r
//@sub `write ! ( f , "{msg}" ) ?` => `vx_msg(f)?`
//@sub `write ! ( f , "{msg}" )` => `vx_brief(f)`
//@sub `write ! ( f , "{msg}: {reason}" )` => `vx_brief(f)`
//@sub `self . name . as_deref ( )` => `vx_as_deref(&self.name)`
//@sub `fmt_with_reason ( f , $a , r )` => `fmt_with_reason(f, $a, vx_as_str(r))`
//@spec
    requires self.pretty is Some ==> self.pretty->Some_0.ln < usize::MAX && self.pretty->Some_0.col + self.pretty->Some_0.width < usize::MAX
    ensures r is Ok ==> final(f).got() == old(f).got().push(
        if old(f).alt() && self.reason is Some && self.pretty is Some {
            full(self.pretty->Some_0, match self.name { Some(n) => Some(sbytes(n)), None => None }, sbytes(self.reason->Some_0))
        } else { Rep::Brief })
//@end
}
#[verifier::external_body]
fn vx_as_deref(o: &Option<String>) -> (r: Option<&str>) ensures match *o { Some(s) => r is Some && bs(r->Some_0) == sbytes(s), None => r is None } { o.as_deref() }
} // verus!
