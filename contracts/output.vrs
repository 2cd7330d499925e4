//@use render.vrs
//@use registry.vrs
// C14: one output whatever it is written to, and write errors surface
verus! {
// ---------------------------------------------------------------- TRUSTED: io::Write, String as fmt::Write, char, unsizing to dyn fmt::Write
trait VxWrite { spec fn ws(&self) -> WS;
    fn write_all(&mut self, b: &[u8]) -> (r: std::result::Result<(), IoE>)
        ensures final(self).ws() == sink_says(old(self).ws(), b@).0, match sink_says(old(self).ws(), b@).1 { None => r is Ok, Some(e) => r is Err && r->Err_0 == e };
}
#[verifier::external_body]
fn vx_bytes(s: &str) -> (r: &[u8]) ensures r@ == bs(s) { s.as_bytes() }
#[verifier::external_body]
fn vx_char_bytes(c: char) -> (r: Vec<u8>) ensures r@ == char_bytes(c) { unimplemented!() }
spec fn wsink<W: VxWrite>(w: Writer<W>) -> OS { OS::Sink(w.writer.ws(), w.err) }
#[verifier::external_body]
fn vx_unsize_string<'a>(s: &'a mut String) -> (r: &'a mut VxSink) ensures r.os() == OS::Str(sbytes(*old(s))), OS::Str(sbytes(*final(s))) == final(r).os() { unimplemented!() }
#[verifier::external_body]
fn vx_unsize_writer<'a, W: VxWrite>(w: &'a mut Writer<W>) -> (r: &'a mut VxSink) ensures r.os() == wsink(*old(w)), wsink(*final(w)) == final(r).os() { unimplemented!() }
#[verifier::external_body]
fn vx_string_with_capacity(n: usize) -> (r: String) ensures sbytes(r) == Seq::<u8>::empty() { String::with_capacity(n) }
fn vx_drop<T>(x: T) {}

// ---------------------------------------------------------------- the formatter and the writer
//@item src/fmt.rs Writer
//@sub `io :: Error` => `IoE`
//@end
impl<'a> Formatter<'a> {
//@fn src/fmt.rs Formatter::with_string
//@ret r
//@sub `Self { buf }` => `Formatter { buf: vx_unsize_string(buf) }`
//@spec
    ensures r.out() == OS::Str(sbytes(*old(buf))), goes_to(r) == OS::Str(sbytes(*final(buf)))
//@end
//@fn src/fmt.rs Formatter::with_writer
//@sig fn with_writer<W: VxWrite>(buf: &'a mut Writer<W>) -> Formatter<'a>
//@ret r
//@sub `Self { buf }` => `Formatter { buf: vx_unsize_writer(buf) }`
//@spec
    ensures r.out() == wsink(*old(buf)), goes_to(r) == wsink(*final(buf))
//@end
//@fn src/fmt.rs <fmt::Write for Formatter>::write_char
//@sig fn write_char(&mut self, c: char) -> StdFmtResult
//@ret r
//@sub `fmt :: Write :: write_char ( self . buf , c )` => `self.buf.write_char(c)`
//@spec
    ensures (final(self).out(), r is Ok) == write_says(old(self).out(), char_bytes(c)), goes_to(*final(self)) == goes_to(*old(self))
//@end
}
//@only src/fmt.rs <fmt::Write for
impl<W: VxWrite> Writer<W> {
//@fn src/fmt.rs Writer::new
//@ret r
//@spec
    ensures wsink(r) == OS::Sink(writer.ws(), None)
//@end
//@fn src/fmt.rs Writer::take_err
//@sig fn take_err(&mut self) -> Option<IoE>
//@ret r
//@spec
    ensures r == old(self).err, final(self).err is None, final(self).writer == old(self).writer
//@end
//@fn src/fmt.rs <fmt::Write for Writer<W>>::write_str
//@sig fn write_str(&mut self, s: &str) -> StdFmtResult
//@ret r
//@sub `self . writer . write_all ( s . as_bytes ( ) ) . map_err ( | $e_id | { self . err = Some ( $x ) ; fmt :: Error } )` => `(match self.writer.write_all(vx_bytes(s)) { Ok(vx_o) => Ok(vx_o), Err($e_id) => { self.err = Some($x); Err(StdFmtError) } })`
//@sub `fmt :: Error` => `StdFmtError`
//@sub `s . as_bytes ( )` => `vx_bytes(s)`
//@spec
    ensures (wsink(*final(self)), r is Ok) == write_says(wsink(*old(self)), bs(s))
//@end
//@fn src/fmt.rs <fmt::Write for Writer<W>>::write_char
//@sig fn write_char(&mut self, c: char) -> StdFmtResult
//@ret r
//@sub `self . writer . write_all ( c . encode_utf8 ( & mut [ 0 ; 4 ] ) . as_bytes ( ) ) . map_err ( | $e_id | { self . err = Some ( $x ) ; fmt :: Error } )` => `(match self.writer.write_all(vx_char_bytes(c).as_slice()) { Ok(vx_o) => Ok(vx_o), Err($e_id) => { self.err = Some($x); Err(StdFmtError) } })`
//@sub `fmt :: Error` => `StdFmtError`
//@sub `c . encode_utf8 ( & mut [ 0 ; 4 ] ) . as_bytes ( )` => `vx_char_bytes(c).as_slice()`
//@spec
    ensures (wsink(*final(self)), r is Ok) == write_says(wsink(*old(self)), char_bytes(c))
//@end
}
// TRUSTED: fmt::Write::write_fmt writes the pieces it is given, up to the first that fails
#[verifier::external_body]
struct FmtArguments { x: u8 }
impl FmtArguments { uninterp spec fn parts(&self) -> Seq<Seq<u8>>; }
#[verifier::external_body]
fn vx_write_fmt(b: &mut VxSink, args: FmtArguments) -> (r: StdFmtResult) ensures (final(b).os(), r is Ok) == write_pieces(old(b).os(), args.parts()) { unimplemented!() }
impl<'a> Formatter<'a> {
//@fn src/fmt.rs <fmt::Write for Formatter>::write_fmt
//@sig fn write_fmt(&mut self, args: FmtArguments) -> StdFmtResult
//@ret r
//@sub `fmt :: Write :: write_fmt ( self . buf , args )` => `vx_write_fmt(self.buf, args)`
//@sub `self . buf . write_fmt ( args )` => `vx_write_fmt(self.buf, args)`
//@spec
    ensures (final(self).out(), r is Ok) == write_pieces(old(self).out(), args.parts()), goes_to(*final(self)) == goes_to(*old(self))
//@end
}
impl FmtError {
//@fn src/fmt.rs Error::message
//@ret r
//@spec
    ensures r == self.0
//@end
//@fn src/fmt.rs <From<&str> for Error>::from
//@sig fn from_str(msg: &str) -> FmtError
//@ret r
//@sub `msg . to_owned ( )` => `vx_to_owned(msg)`
//@spec
    ensures r.0 is Some, sbytes(r.0->Some_0) == bs(msg)
//@end
//@fn src/fmt.rs <From<String> for Error>::from
//@sig fn from(msg: String) -> FmtError
//@ret r
//@spec
    ensures r.0 == Some(msg)
//@end
//@fn src/fmt.rs <From<fmt::Error> for Error>::from
//@sig fn from_std(_vx: StdFmtError) -> FmtError
//@ret r
//@spec
    ensures r.0 is None
//@end
}

// ---------------------------------------------------------------- the default formatter
enum Shown { Bool(bool), Int(i64), Float(f64), Str(Seq<u8>) }
// TRUSTED: what Display writes for these, in one or several pieces
uninterp spec fn pieces(d: Shown) -> Seq<Seq<u8>>;
uninterp spec fn shown_bytes(d: Shown) -> Seq<u8>;
spec fn shown(d: Shown) -> Seq<u8> {
    match d { Shown::Str(s) => s, Shown::Bool(true) => seq![116u8, 114u8, 117u8, 101u8], Shown::Bool(false) => seq![102u8, 97u8, 108u8, 115u8, 101u8], d => shown_bytes(d) }
}
spec fn flat(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { flat(ps.drop_last()) + ps.last() } }
#[verifier::external_body]
proof fn ax_pieces(d: Shown) ensures flat(pieces(d)) == shown(d) {}
// piece by piece, up to the first that fails
spec fn write_pieces(o: OS, ps: Seq<Seq<u8>>) -> (OS, bool) decreases ps.len() {
    if ps.len() == 0 { (o, true) } else { let w = write_pieces(o, ps.drop_last()); if w.1 { write_says(w.0, ps.last()) } else { w } }
}
trait VxShow { spec fn what(&self) -> Shown; }
impl VxShow for bool { spec fn what(&self) -> Shown { Shown::Bool(*self) } }
impl VxShow for i64 { spec fn what(&self) -> Shown { Shown::Int(*self) } }
impl VxShow for f64 { spec fn what(&self) -> Shown { Shown::Float(*self) } }
impl VxShow for String { spec fn what(&self) -> Shown { Shown::Str(sbytes(*self)) } }
#[verifier::external_body]
fn vx_display<T: VxShow>(f: &mut Formatter<'_>, x: &T) -> (r: std::result::Result<(), FmtError>)
    ensures goes_to(*final(f)) == goes_to(*old(f)), (final(f).out(), r is Ok) == write_pieces(old(f).out(), pieces(x.what())), r is Err ==> r->Err_0.0 is None
{ unimplemented!() }
// what the default formatter writes for a value, None if it refuses it
spec fn default_pieces(v: Value) -> Option<Seq<Seq<u8>>> {
    match v {
        Value::None => Some(Seq::empty()),
        Value::Bool(b) => Some(pieces(Shown::Bool(b))),
        Value::Integer(n) => Some(pieces(Shown::Int(n))),
        Value::Float(n) => Some(pieces(Shown::Float(n))),
        Value::String(s) => Some(pieces(Shown::Str(sbytes(s)))),
        _ => None,
    }
}
spec fn default_says(o: OS, v: Value) -> (OS, bool) { match default_pieces(v) { Some(ps) => write_pieces(o, ps), None => (o, false) } }
//@fn src/fmt.rs default
//@sig fn default_formatter(f: &mut Formatter<'_>, value: &Value) -> std::result::Result<(), FmtError>
//@ret r
//@sub `write ! ( f , "{b}" ) ?` => `vx_display(f, b)?`
//@sub `write ! ( f , "{n}" ) ?` => `vx_display(f, n)?`
//@sub `write ! ( f , "{s}" ) ?` => `vx_display(f, s)?`
//@sub `write ! ( f , "{b}" )` => `vx_display(f, b)`
//@sub `write ! ( f , "{n}" )` => `vx_display(f, n)`
//@sub `write ! ( f , "{s}" )` => `vx_display(f, s)`
//@sub `f . write_str ( s ) ?` => `vx_display(f, s)?`
//@sub `format ! ( $a , $b )` => `vx_format()`
//@sub `format ! ( $a , $b , )` => `vx_format()`
//@sub `Error :: from` => `FmtError::from`
//@spec
    ensures (final(f).out(), r is Ok) == default_says(old(f).out(), *value), goes_to(*final(f)) == goes_to(*old(f))
//@end
// the text of a value on a string destination
proof fn thm_default_text(t: Seq<u8>, v: Value)
    ensures ({ let w = default_says(OS::Str(t), v); match v {
        Value::None => w == (OS::Str(t), true),
        Value::Bool(true) => w == (OS::Str(t + seq![116u8, 114u8, 117u8, 101u8]), true),
        Value::Bool(false) => w == (OS::Str(t + seq![102u8, 97u8, 108u8, 115u8, 101u8]), true),
        Value::Integer(n) => w == (OS::Str(t + shown(Shown::Int(n))), true),
        Value::Float(n) => w == (OS::Str(t + shown(Shown::Float(n))), true),
        Value::String(s) => w == (OS::Str(t + sbytes(s)), true),
        _ => w == (OS::Str(t), false),
    } })
{
    if default_pieces(v) is Some { lemma_str(t, default_pieces(v)->Some_0); }
    match v { Value::Bool(b) => { ax_pieces(Shown::Bool(b)); } Value::Integer(n) => { ax_pieces(Shown::Int(n)); } Value::Float(n) => { ax_pieces(Shown::Float(n)); } Value::String(s) => { ax_pieces(Shown::Str(sbytes(s))); } _ => { assert(t + Seq::<u8>::empty() =~= t); } }
}
proof fn lemma_str(t: Seq<u8>, ps: Seq<Seq<u8>>)
    ensures write_pieces(OS::Str(t), ps) == (OS::Str(t + flat(ps)), true)
    decreases ps.len()
{ if ps.len() > 0 { lemma_str(t, ps.drop_last()); assert(t + flat(ps.drop_last()) + ps.last() =~= t + flat(ps)); } else { assert(t + flat(ps) =~= t); } }

// ---------------------------------------------------------------- rendering into a string and into a writer
impl Error {
    #[verifier::external_body]
    fn from(e: IoE) -> (r: Error) ensures r.v() == (EV { kind: EK::Io(e), at: None, name: None }) { unimplemented!() }
}
spec fn meaning_of<'r>(i: RendererInner<'r>, st: Seq<AS<'r>>, o: OS) -> R { meaning(env_of(i), *i.template, oname(i.template_name), st, o) }
spec fn string_of(r: Result<String>, m: R) -> bool { match m { R::Ok(o) => r is Ok && o == OS::Str(sbytes(r->Ok_0)), R::Err(e, _) => r is Err && r->Err_0.v() == e } }
// the error the writer gave, when there is one, is what is reported
spec fn reported(e: EV, o: OS) -> EV { match o { OS::Sink(_, Some(x)) => EV { kind: EK::Io(x), at: None, name: None }, _ => e } }
spec fn written(r: Result<()>, m: R) -> bool { match m { R::Ok(_) => r is Ok, R::Err(e, o) => r is Err && r->Err_0.v() == reported(e, o) } }
spec fn inner_ok(i: RendererInner) -> bool { env_ok(env_of(i)) && compiled(*i.template) }
spec fn r_out(m: R) -> OS { match m { R::Ok(o) => o, R::Err(_, o) => o } }
//@fn src/render/mod.rs to_string
//@ret r
//@sub `String :: with_capacity (` => `vx_string_with_capacity(`
//@sub `RendererImpl { inner , stack } . render ( & mut f )` => `RendererImpl::render(RendererImpl { inner, stack }, &mut f)`
//@spec
    requires inner_ok(inner)
    ensures string_of(r, meaning_of(inner, stack.av(), OS::Str(Seq::empty())))
//@end
//@fn src/render/mod.rs to_writer
//@sig fn to_writer<W: VxWrite>(inner: RendererInner<'_>, stack: Stack<'_>, writer: W) -> Result<()>
//@ret r
//@sub `RendererImpl { inner , stack } . render ( & mut f ) . map_err ( | $e_id | w . take_err ( ) . map ( Error :: from ) . unwrap_or ( $x ) )` => `({ let vx_r = RendererImpl::render(RendererImpl { inner, stack }, &mut f); assert(wsink(w) == r_out(vx_m)); match vx_r { Ok(vx_o) => Ok(vx_o), Err($e_id) => Err(match w.take_err() { Some(vx_x) => Error::from(vx_x), None => $x }) } })`
//@spec
    requires inner_ok(inner)
    // (that the writer is left with what was written is asserted in the body: it is consumed here)
    ensures written(r, meaning_of(inner, stack.av(), OS::Sink(writer.ws(), None)))
//@start
    let ghost vx_m = meaning_of(inner, stack.av(), OS::Sink(writer.ws(), None));
//@end
//@item src/render/mod.rs Renderer
//@end
//@item src/render/mod.rs Globals
//@end
spec fn globals_stack<'r>(g: Globals<'r>) -> Seq<AS<'r>> { match g { Globals::Owned(Ok(v)) => seq![AS::Scope(v)], Globals::Borrowed(v) => seq![AS::Scope(*v)], Globals::Fn(f) => seq![AS::Ask(*f)], _ => Seq::empty() } }
spec fn globals_bad(g: Globals) -> bool { g is Owned && g->Owned_0 is Err }
impl<'render> Renderer<'render> {
//@fn src/render/mod.rs Renderer::new
//@ret r
//@spec
    ensures r.globals == globals, *r.inner.engine == *engine, *r.inner.template == *template, r.inner.template_name == template_name, r.inner.max_include_depth is None, r.inner.template_fn is None
//@end
//@fn src/render/mod.rs Renderer::with_value
//@ret r
//@spec
    ensures r.globals is Borrowed, *r.globals->Borrowed_0 == *globals, fresh(r, *engine, *template, template_name)
//@end
//@fn src/render/mod.rs Renderer::with_value_fn
//@ret r
//@spec
    ensures r.globals is Fn, r.globals->Fn_0 == value_fn, fresh(r, *engine, *template, template_name)
//@end
//@fn src/render/mod.rs Renderer::with_max_include_depth
//@sig fn with_max_include_depth(vx_in: Renderer<'render>, depth: usize) -> Renderer<'render>
//@ret r
//@sub `self` => `vx_self`
//@spec
    ensures r.globals == vx_in.globals, r.inner == (RendererInner { max_include_depth: Some(depth), ..vx_in.inner })
//@start
    let mut vx_self = vx_in;
//@end
//@fn src/render/mod.rs Renderer::with_template_fn
//@sig fn with_template_fn(vx_in: Renderer<'render>, template_fn: TemplateFn<'render>) -> Renderer<'render>
//@ret r
//@sub `self` => `vx_self`
//@spec
    ensures r.globals == vx_in.globals, r.inner == (RendererInner { template_fn: r.inner.template_fn, ..vx_in.inner }), r.inner.template_fn is Some, *r.inner.template_fn->Some_0 == template_fn
//@start
    let mut vx_self = vx_in;
//@end
//@fn src/render/mod.rs Renderer::to_string
//@ret r
//@sub `let Self {` => `let Renderer {`
//@sub `drop (` => `vx_drop(`
//@spec
    requires inner_ok(self.inner)
    ensures if globals_bad(self.globals) { r is Err && r->Err_0 == self.globals->Owned_0->Err_0 } else { string_of(r, meaning_of(self.inner, globals_stack(self.globals), OS::Str(Seq::empty()))) }
//@end
//@fn src/render/mod.rs Renderer::to_writer
//@sig fn to_writer<W: VxWrite>(self, w: W) -> Result<()>
//@ret r
//@sub `let Self {` => `let Renderer {`
//@spec
    requires inner_ok(self.inner)
    ensures if globals_bad(self.globals) { r is Err && r->Err_0 == self.globals->Owned_0->Err_0 } else { written(r, meaning_of(self.inner, globals_stack(self.globals), OS::Sink(w.ws(), None))) }
//@end
}
spec fn fresh<'r>(r: Renderer<'r>, e: Engine<'r>, t: Template<'r>, n: Option<&str>) -> bool { *r.inner.engine == e && *r.inner.template == t && r.inner.template_name == n && r.inner.max_include_depth is None && r.inner.template_fn is None }

// ---------------------------------------------------------------- the way there: from an engine, a template and data
// the tree a serializable value is converted to (C15)
trait VxSerialize { spec fn tree(&self) -> Result<Value>; }
#[verifier::external_body]
fn vx_to_value<S: VxSerialize>(s: S) -> (r: Result<Value>) ensures r == s.tree() { unimplemented!() }
impl<'render> Renderer<'render> {
//@fn src/render/mod.rs Renderer::with_serde
//@sig fn with_serde<S: VxSerialize>(engine: &'render Engine<'render>, template: &'render Template<'render>, template_name: Option<&'render str>, globals: S) -> Renderer<'render>
//@ret r
//@sub `crate :: to_value (` => `vx_to_value(`
//@spec
    ensures r.globals == Globals::<'render>::Owned(globals.tree()), fresh(r, *engine, *template, template_name)
//@end
}
impl<'render> PubTemplate<'render> {
//@fn src/lib.rs Template::render
//@sig fn render<S: VxSerialize>(&'render self, engine: &'render Engine<'render>, ctx: S) -> Renderer<'render>
//@ret r
//@spec
    requires eng_ok(*engine), compiled(self.template)
    ensures inner_ok(r.inner), r.globals == Globals::<'render>::Owned(ctx.tree()), fresh(r, *engine, self.template, None)
//@end
//@fn src/lib.rs Template::render_from
//@sig fn render_from(&'render self, engine: &'render Engine<'render>, ctx: &'render Value) -> Renderer<'render>
//@ret r
//@spec
    requires eng_ok(*engine), compiled(self.template)
    ensures inner_ok(r.inner), r.globals is Borrowed, *r.globals->Borrowed_0 == *ctx, fresh(r, *engine, self.template, None)
//@end
//@fn src/lib.rs Template::render_from_fn
//@sig fn render_from_fn(&'render self, engine: &'render Engine<'render>, value_fn: ValueFn<'render>) -> Renderer<'render>
//@ret r
//@spec
    requires eng_ok(*engine), compiled(self.template)
    ensures inner_ok(r.inner), r.globals is Fn, *r.globals->Fn_0 == value_fn, fresh(r, *engine, self.template, None)
//@end
//@fn src/lib.rs Template::source
//@ret r
//@sub `& self . template . source` => `self.template.source`
//@spec
    ensures bs(r) == bs(self.template.source)
//@end
}
spec fn tref_ok(r: TemplateRef) -> bool { eng_ok(*r.engine) && compiled(*r.template) }
impl<'render> TemplateRef<'render> {
//@fn src/lib.rs TemplateRef::render
//@sig fn render<S: VxSerialize>(&self, ctx: S) -> Renderer<'render>
//@ret r
//@spec
    requires tref_ok(*self)
    ensures inner_ok(r.inner), r.globals == Globals::<'render>::Owned(ctx.tree()), fresh(r, *self.engine, *self.template, Some(self.name))
//@end
//@fn src/lib.rs TemplateRef::render_from
//@ret r
//@spec
    requires tref_ok(*self)
    ensures inner_ok(r.inner), r.globals is Borrowed, *r.globals->Borrowed_0 == *ctx, fresh(r, *self.engine, *self.template, Some(self.name))
//@end
//@fn src/lib.rs TemplateRef::render_from_fn
//@sig fn render_from_fn(&self, value_fn: ValueFn<'render>) -> Renderer<'render>
//@ret r
//@spec
    requires tref_ok(*self)
    ensures inner_ok(r.inner), r.globals is Fn, *r.globals->Fn_0 == value_fn, fresh(r, *self.engine, *self.template, Some(self.name))
//@end
//@fn src/lib.rs TemplateRef::source
//@ret r
//@sub `& self . template . source` => `self.template.source`
//@spec
    ensures bs(r) == bs(self.template.source)
//@end
}

// ---------------------------------------------------------------- the same output wherever it goes
spec fn after_writes(w: WS, ps: Seq<Seq<u8>>) -> WS decreases ps.len() { if ps.len() == 0 { w } else { after_writes(sink_says(w, ps[0]).0, ps.drop_first()) } }
// a writer that never fails and keeps what it is given
spec fn calm(w: WS) -> bool {
    forall|ps: Seq<Seq<u8>>, b: Seq<u8>| (#[trigger] sink_says(after_writes(w, ps), b)).1 is None && sink_text(sink_says(after_writes(w, ps), b).0) == sink_text(after_writes(w, ps)) + b
}
proof fn lemma_calm(w: WS, b: Seq<u8>)
    requires calm(w)
    ensures sink_says(w, b).1 is None, sink_text(sink_says(w, b).0) == sink_text(w) + b, calm(sink_says(w, b).0)
{
    assert(after_writes(w, Seq::empty()) == w);
    let w2 = sink_says(w, b).0;
    assert forall|ps: Seq<Seq<u8>>, c: Seq<u8>| (#[trigger] sink_says(after_writes(w2, ps), c)).1 is None && sink_text(sink_says(after_writes(w2, ps), c).0) == sink_text(after_writes(w2, ps)) + c by {
        let qs = seq![b] + ps;
        assert(qs.drop_first() =~= ps && qs[0] == b);
        assert(after_writes(w, qs) == after_writes(w2, ps));
        assert(sink_says(after_writes(w, qs), c).1 is None);
    }
}
// a string and such a writer that have been given the same text (the writer may have held `pre` before)
spec fn agree(pre: Seq<u8>, a: OS, b: OS) -> bool { match (a, b) { (OS::Str(t), OS::Sink(w, None)) => calm(w) && sink_text(w) == pre + t, _ => false } }
spec fn same_end(pre: Seq<u8>, a: R, b: R) -> bool {
    match (a, b) { (R::Ok(x), R::Ok(y)) => agree(pre, x, y), (R::Err(e, x), R::Err(f, y)) => e == f && agree(pre, x, y), _ => false }
}
// a formatter that does not depend on where it writes to
spec fn orderly(g: FormatFn) -> bool {
    forall|pre: Seq<u8>, a: OS, b: OS, v: Value| #![trigger agree(pre, a, b), format_says(g, a, v)] agree(pre, a, b) ==>
        format_says(g, a, v).1 == format_says(g, b, v).1 && agree(pre, format_says(g, a, v).0, format_says(g, b, v).0)
}
spec fn all_orderly(en: Env) -> bool {
    &&& orderly(*en.eng.default_formatter)
    &&& forall|n: Seq<u8>| (#[trigger] fn_named(en.eng.functions, n)) is Some && fn_named(en.eng.functions, n)->Some_0 is Formatter ==> orderly(*(fn_named(en.eng.functions, n)->Some_0->Formatter_0))
}
proof fn lemma_write_same(pre: Seq<u8>, a: OS, b: OS, x: Seq<u8>)
    requires agree(pre, a, b)
    ensures write_says(a, x).1, write_says(b, x).1, agree(pre, write_says(a, x).0, write_says(b, x).0)
{ lemma_calm(b->Sink_0, x); assert(pre + a->Str_0 + x =~= pre + (a->Str_0 + x)); }
proof fn lemma_pieces_same(pre: Seq<u8>, a: OS, b: OS, ps: Seq<Seq<u8>>)
    requires agree(pre, a, b)
    ensures write_pieces(a, ps).1, write_pieces(b, ps).1, agree(pre, write_pieces(a, ps).0, write_pieces(b, ps).0)
    decreases ps.len()
{ if ps.len() > 0 { lemma_pieces_same(pre, a, b, ps.drop_last()); lemma_write_same(pre, write_pieces(a, ps.drop_last()).0, write_pieces(b, ps.drop_last()).0, ps.last()); } }
// a formatter that writes pieces which depend on the value alone is orderly: the default one does (default_formatter above)
proof fn thm_default_orderly(g: FormatFn)
    requires forall|o: OS, v: Value| format_says(g, o, v) == #[trigger] default_says(o, v)
    ensures orderly(g), careful(g)
{
    assert forall|pre: Seq<u8>, a: OS, b: OS, v: Value| #![trigger agree(pre, a, b), format_says(g, a, v)] agree(pre, a, b) implies
        format_says(g, a, v).1 == format_says(g, b, v).1 && agree(pre, format_says(g, a, v).0, format_says(g, b, v).0) by {
        assert(format_says(g, a, v) == default_says(a, v) && format_says(g, b, v) == default_says(b, v));
        if default_pieces(v) is Some { lemma_pieces_same(pre, a, b, default_pieces(v)->Some_0); }
    }
    assert forall|o: OS, v: Value| quiet(o) && (#[trigger] format_says(g, o, v)).1 implies quiet(format_says(g, o, v).0) by {
        assert(format_says(g, o, v) == default_says(o, v));
        if default_pieces(v) is Some { lemma_pieces_quiet(o, default_pieces(v)->Some_0); }
    }
}
proof fn lemma_emit_same<'r>(en: Env<'r>, st: Seq<AS<'r>>, s: Seq<u8>, e: ast::Expr, pre: Seq<u8>, a: OS, b: OS)
    requires agree(pre, a, b), all_orderly(en)
    ensures same_end(pre, sem_emit(en, s, st, e, a), sem_emit(en, s, st, e, b))
{
    let d = *en.eng.default_formatter;
    if tail_call(e) {
        if let Ok(v) = sem_expr(en, s, st, *e->Call_0.receiver) {
            let n = span_text(s, e->Call_0.name.span);
            match fn_named(en.eng.functions, n) {
                Some(EngineBoxFn::Filter(f)) => { if let Ok(x) = filter_says(*f, st, s, e->Call_0.name.span, v, Seq::empty()) { let y = format_says(d, a, x); } }
                Some(EngineBoxFn::Formatter(g)) => { let y = format_says(*g, a, v); assert(orderly(*g)); }
                None => {}
            }
        }
    } else if let Ok(v) = sem_expr(en, s, st, e) { let y = format_says(d, a, v); }
}
// rendering to a string and to such a writer gives the same text, and the same error if there is one
proof fn thm_same_scope<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, sc: ast::Scope, k: nat, pre: Seq<u8>, a: OS, b: OS)
    requires agree(pre, a, b), all_orderly(en)
    ensures same_end(pre, sem_scope(en, at, st, sc, k, a), sem_scope(en, at, st, sc, k, b))
    decreases room(en, at), sc, 0nat, k
{
    if k == 0 || k > sc.stmts@.len() {} else {
        thm_same_scope(en, at, st, sc, (k - 1) as nat, pre, a, b);
        match (sem_scope(en, at, st, sc, (k - 1) as nat, a), sem_scope(en, at, st, sc, (k - 1) as nat, b)) {
            (R::Ok(x), R::Ok(y)) => { assert(decreases_to!(sc => sc.stmts@[k - 1])); thm_same_stmt(en, at, st, sc.stmts@[k - 1], pre, x, y); }
            _ => {}
        }
    }
}
proof fn thm_same_stmt<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, stmt: ast::Stmt, pre: Seq<u8>, a: OS, b: OS)
    requires agree(pre, a, b), all_orderly(en)
    ensures same_end(pre, sem_stmt(en, at, st, stmt, a), sem_stmt(en, at, st, stmt, b))
    decreases room(en, at), stmt, 0nat, 0nat
{
    match stmt {
        ast::Stmt::Raw(sp) => { lemma_write_same(pre, a, b, span_text(at.s, sp)); }
        ast::Stmt::InlineExpr(ie) => { lemma_emit_same(en, st, at.s, ie.expr, pre, a, b); }
        ast::Stmt::Include(inc) => {
            if let Ok(st2) = include_stack(en, at.s, st, inc) {
                if let Some(t) = template_of(en, sbytes(inc.name.name)) {
                    if at.active + 1 <= en.limit { thm_same_scope(en, at_of(t, inc, at), st2, tree_of(t), tree_of(t).stmts@.len(), pre, a, b); }
                }
            }
        }
        ast::Stmt::IfElse(ie) => {
            if let Ok(v) = sem_expr(en, at.s, st, ie.cond) {
                if falsy(v) == ie.not { thm_same_scope(en, at, st, ie.then_branch, ie.then_branch.stmts@.len(), pre, a, b); }
                else if let Some(e) = ie.else_branch { thm_same_scope(en, at, st, e, e.stmts@.len(), pre, a, b); }
            }
        }
        ast::Stmt::ForLoop(f) => {
            if let Ok(v) = sem_expr(en, at.s, st, f.iterable) {
                if let NewLoop::Started(l) = loop_start(at.s, f.vars, v, expr_span(f.iterable)) { thm_same_loop(en, at, st, f.body, l, pre, a, b); }
            }
        }
        ast::Stmt::With(w) => {
            if let Ok(v) = sem_expr(en, at.s, st, w.expr) { thm_same_scope(en, at, st.push(AS::Var(span_text(at.s, w.name.span), v)), w.body, w.body.stmts@.len(), pre, a, b); }
        }
    }
}
proof fn thm_same_loop<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, body: ast::Scope, l: LV, pre: Seq<u8>, a: OS, b: OS)
    requires agree(pre, a, b), all_orderly(en)
    ensures same_end(pre, sem_loop(en, at, st, body, l, a), sem_loop(en, at, st, body, l, b))
    decreases room(en, at), body, 1nat, l.rest.len()
{
    if l.rest.len() > 0 {
        let st2 = st.push(AS::Loop(advance(l)));
        thm_same_scope(en, at, st2, body, body.stmts@.len(), pre, a, b);
        match (sem_scope(en, at, st2, body, body.stmts@.len(), a), sem_scope(en, at, st2, body, body.stmts@.len(), b)) {
            (R::Ok(x), R::Ok(y)) => { thm_same_loop(en, at, st, body, advance(l), pre, x, y); }
            _ => {}
        }
    }
}
// C14: to_string and to_writer, in terms of what they return
proof fn thm_same_output<'r>(i: RendererInner<'r>, st: Seq<AS<'r>>, w: WS, rs: Result<String>, rw: Result<()>)
    requires all_orderly(env_of(i)), calm(w),
        string_of(rs, meaning_of(i, st, OS::Str(Seq::empty()))), written(rw, meaning_of(i, st, OS::Sink(w, None)))
    ensures
        rs is Ok <==> rw is Ok, rs is Err ==> rs->Err_0.v() == rw->Err_0.v(),
        rs is Ok ==> meaning_of(i, st, OS::Sink(w, None)) is Ok && meaning_of(i, st, OS::Sink(w, None))->Ok_0 is Sink
            && sink_text(meaning_of(i, st, OS::Sink(w, None))->Ok_0->Sink_0) == sink_text(w) + sbytes(rs->Ok_0)
{
    let a = OS::Str(Seq::empty()); let b = OS::Sink(w, None);
    assert(sink_text(w) + Seq::<u8>::empty() =~= sink_text(w));
    let t = *i.template; let en = env_of(i);
    thm_same_scope(en, At { s: bs(t.source), name: oname(i.template_name), active: 1 }, st, tree_of(t), tree_of(t).stmts@.len(), sink_text(w), a, b);
}
// ---------------------------------------------------------------- an error of the writer is never lost
spec fn quiet(o: OS) -> bool { match o { OS::Sink(_, e) => e is None, _ => true } }
// a formatter that reports the write errors it gets
spec fn careful(g: FormatFn) -> bool { forall|o: OS, v: Value| quiet(o) && (#[trigger] format_says(g, o, v)).1 ==> quiet(format_says(g, o, v).0) }
spec fn all_careful(en: Env) -> bool {
    &&& careful(*en.eng.default_formatter)
    &&& forall|n: Seq<u8>| (#[trigger] fn_named(en.eng.functions, n)) is Some && fn_named(en.eng.functions, n)->Some_0 is Formatter ==> careful(*(fn_named(en.eng.functions, n)->Some_0->Formatter_0))
}
spec fn ok_quiet(r: R) -> bool { match r { R::Ok(o) => quiet(o), _ => true } }
proof fn lemma_pieces_quiet(o: OS, ps: Seq<Seq<u8>>)
    requires quiet(o)
    ensures write_pieces(o, ps).1 ==> quiet(write_pieces(o, ps).0)
    decreases ps.len()
{ if ps.len() > 0 { lemma_pieces_quiet(o, ps.drop_last()); } }
proof fn thm_surfaces_scope<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, sc: ast::Scope, k: nat, a: OS)
    requires quiet(a), all_careful(en)
    ensures ok_quiet(sem_scope(en, at, st, sc, k, a))
    decreases room(en, at), sc, 0nat, k
{
    if k == 0 || k > sc.stmts@.len() {} else {
        thm_surfaces_scope(en, at, st, sc, (k - 1) as nat, a);
        if let R::Ok(x) = sem_scope(en, at, st, sc, (k - 1) as nat, a) { assert(decreases_to!(sc => sc.stmts@[k - 1])); thm_surfaces_stmt(en, at, st, sc.stmts@[k - 1], x); }
    }
}
proof fn thm_surfaces_stmt<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, stmt: ast::Stmt, a: OS)
    requires quiet(a), all_careful(en)
    ensures ok_quiet(sem_stmt(en, at, st, stmt, a))
    decreases room(en, at), stmt, 0nat, 0nat
{
    match stmt {
        ast::Stmt::Raw(sp) => {}
        ast::Stmt::InlineExpr(ie) => {}
        ast::Stmt::Include(inc) => {
            if let Ok(st2) = include_stack(en, at.s, st, inc) {
                if let Some(t) = template_of(en, sbytes(inc.name.name)) {
                    if at.active + 1 <= en.limit { thm_surfaces_scope(en, at_of(t, inc, at), st2, tree_of(t), tree_of(t).stmts@.len(), a); }
                }
            }
        }
        ast::Stmt::IfElse(ie) => {
            if let Ok(v) = sem_expr(en, at.s, st, ie.cond) {
                if falsy(v) == ie.not { thm_surfaces_scope(en, at, st, ie.then_branch, ie.then_branch.stmts@.len(), a); }
                else if let Some(e) = ie.else_branch { thm_surfaces_scope(en, at, st, e, e.stmts@.len(), a); }
            }
        }
        ast::Stmt::ForLoop(f) => {
            if let Ok(v) = sem_expr(en, at.s, st, f.iterable) {
                if let NewLoop::Started(l) = loop_start(at.s, f.vars, v, expr_span(f.iterable)) { thm_surfaces_loop(en, at, st, f.body, l, a); }
            }
        }
        ast::Stmt::With(w) => {
            if let Ok(v) = sem_expr(en, at.s, st, w.expr) { thm_surfaces_scope(en, at, st.push(AS::Var(span_text(at.s, w.name.span), v)), w.body, w.body.stmts@.len(), a); }
        }
    }
}
proof fn thm_surfaces_loop<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, body: ast::Scope, l: LV, a: OS)
    requires quiet(a), all_careful(en)
    ensures ok_quiet(sem_loop(en, at, st, body, l, a))
    decreases room(en, at), body, 1nat, l.rest.len()
{
    if l.rest.len() > 0 {
        let st2 = st.push(AS::Loop(advance(l)));
        thm_surfaces_scope(en, at, st2, body, body.stmts@.len(), a);
        if let R::Ok(x) = sem_scope(en, at, st2, body, body.stmts@.len(), a) { thm_surfaces_loop(en, at, st, body, advance(l), x); }
    }
}
// when the writer gave an error, to_writer fails, and with that error
proof fn thm_surfaces<'r>(i: RendererInner<'r>, st: Seq<AS<'r>>, w: WS, rw: Result<()>)
    requires all_careful(env_of(i)), written(rw, meaning_of(i, st, OS::Sink(w, None)))
    ensures match r_out(meaning_of(i, st, OS::Sink(w, None))) { OS::Sink(_, Some(e)) => rw is Err && rw->Err_0.v().kind == EK::Io(e), _ => true }
{
    let t = *i.template;
    thm_surfaces_scope(env_of(i), At { s: bs(t.source), name: oname(i.template_name), active: 1 }, st, tree_of(t), tree_of(t).stmts@.len(), OS::Sink(w, None));
}
} // verus!
