// What the renderer is allowed to rely on, what one instruction does, and what a tree means.
verus! {
// ---------------------------------------------------------------- functions supplied by the user
// TRUSTED: filters, formatters, template functions and value functions are taken to be functions of
// what they are given (the same arguments give the same answer within one rendering).
#[verifier::external_body]
struct FilterFn { x: u8 }
#[verifier::external_body]
struct FormatFn { x: u8 }
#[verifier::external_body]
struct TemplateFn<'a> { x: std::marker::PhantomData<&'a u8> }
#[verifier::external_body]
struct Searcher { x: u8 }
// ---------------------------------------------------------------- where output goes
// an io::Write: TRUSTED to be a function of its state and the bytes it is given
#[verifier::external_body]
struct WS { x: u8 }
uninterp spec fn sink_says(w: WS, b: Seq<u8>) -> (WS, Option<IoE>);
uninterp spec fn sink_text(w: WS) -> Seq<u8>;
// a string, or a writer together with the last error it returned
enum OS { Str(Seq<u8>), Sink(WS, Option<IoE>) }
spec fn write_says(o: OS, b: Seq<u8>) -> (OS, bool) {
    match o {
        OS::Str(t) => (OS::Str(t + b), true),
        OS::Sink(w, e) => match sink_says(w, b).1 { None => (OS::Sink(sink_says(w, b).0, e), true), Some(x) => (OS::Sink(sink_says(w, b).0, Some(x)), false) },
    }
}
// stands for `dyn fmt::Write`: which implementation is behind it is decided when the Formatter is made (output.vrs)
#[verifier::external_body]
struct VxSink { x: u8 }
impl VxSink { uninterp spec fn os(&self) -> OS; }
//@item src/fmt.rs Formatter
//@sub `& 'a mut ( dyn fmt :: Write + 'a )` => `&'a mut VxSink`
//@end
struct StdFmtError;
type StdFmtResult = std::result::Result<(), StdFmtError>;
// writing through `dyn fmt::Write` does what the implementation behind it does: String's appends, Writer's is below
impl VxSink {
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: StdFmtResult) ensures (final(self).os(), r is Ok) == write_says(old(self).os(), bs(s)) { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: StdFmtResult) ensures (final(self).os(), r is Ok) == write_says(old(self).os(), char_bytes(c)) { unimplemented!() }
}
impl<'a> Formatter<'a> { spec fn out(&self) -> OS { self.buf.os() } }
// what the destination will hold in the end: a formatter never changes where it writes to
#[verifier::prophetic]
spec fn goes_to<'a>(f: Formatter<'a>) -> OS { (*final(f.buf)).os() }
impl<'a> Formatter<'a> {
//@fn src/fmt.rs <fmt::Write for Formatter>::write_str
//@sig fn write_str(&mut self, s: &str) -> StdFmtResult
//@ret r
//@sub `fmt :: Write :: write_str ( self . buf , s )` => `self.buf.write_str(s)`
//@spec
    ensures (final(self).out(), r is Ok) == write_says(old(self).out(), bs(s)), goes_to(*final(self)) == goes_to(*old(self))
//@end
}
//@item src/fmt.rs Error
//@sub `struct Error` => `struct FmtError`
//@end

uninterp spec fn format_says(f: FormatFn, o: OS, v: Value) -> (OS, bool);
uninterp spec fn filter_says<'a>(f: FilterFn, st: Seq<AS<'a>>, s: Seq<u8>, name: Span, v: Value, args: Seq<ast::BaseExpr>) -> std::result::Result<Value, EV>;
uninterp spec fn template_fn_says<'r>(f: TemplateFn<'r>, name: Seq<u8>) -> Option<Template<'r>>;
// what a map from names holds
uninterp spec fn bmap<V>(m: BTreeMap<&str, V>) -> Map<Seq<u8>, V>;
spec fn at_key<V>(m: Map<Seq<u8>, V>, k: Seq<u8>) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
spec fn fn_named(m: BTreeMap<&str, EngineBoxFn>, name: Seq<u8>) -> Option<EngineBoxFn> { at_key(bmap(m), name) }
spec fn template_named<'r>(m: BTreeMap<&str, Template<'r>>, name: Seq<u8>) -> Option<Template<'r>> { at_key(bmap(m), name) }

//@item src/lib.rs Engine
//@sub `Cow < 'engine , str >` => `&'engine str`
//@sub `program :: Template` => `Template`
//@end
//@item src/lib.rs EngineBoxFn
//@end
//@item src/lib.rs Template
//@sub `struct Template <` => `struct PubTemplate<`
//@sub `program :: Template` => `Template`
//@end
//@item src/render/mod.rs RendererInner
//@end

struct Env<'r> { eng: Engine<'r>, tf: Option<TemplateFn<'r>>, limit: nat }
spec fn env_of<'r>(i: RendererInner<'r>) -> Env<'r> {
    Env { eng: *i.engine, tf: match i.template_fn { Some(b) => Some(*b), None => None },
          limit: match i.max_include_depth { Some(n) => n as nat, None => i.engine.max_include_depth as nat } }
}
spec fn template_of<'r>(en: Env<'r>, name: Seq<u8>) -> Option<Template<'r>> {
    match en.tf { Some(f) => template_fn_says(f, name), None => template_named(en.eng.templates, name) }
}
// every template that can be included is a compiled one
spec fn env_ok<'r>(en: Env<'r>) -> bool { forall|n: Seq<u8>| (#[trigger] template_of(en, n)) is Some ==> compiled(template_of(en, n)->Some_0) }

impl Error {
    #[verifier::external_body]
    fn with_template_name(self, name: String) -> (r: Error) ensures r.v() == named(self.v(), Some(sbytes(name))) { unimplemented!() }
}
// ---------------------------------------------------------------- pieces of meaning shared by both sides
// applying a filter or formatter name to a value in the middle of an expression
spec fn apply<'r>(en: Env<'r>, st: Seq<AS<'r>>, s: Seq<u8>, name: Span, args: Seq<ast::BaseExpr>, v: Value) -> std::result::Result<Value, EV> {
    match fn_named(en.eng.functions, span_text(s, name)) {
        Some(EngineBoxFn::Filter(f)) => match filter_says(*f, st, s, name, v, args) { Ok(x) => Ok(x), Err(e) => Err(enriched(e, s, name)) },
        Some(EngineBoxFn::Formatter(_)) => Err(ev(EK::Render, s, name)),
        None => Err(ev(EK::Render, s, name)),
    }
}
spec fn call_args(a: Option<ast::Args>) -> Seq<ast::BaseExpr> { match a { Some(x) => x.values@, None => Seq::empty() } }
enum R { Ok(OS), Err(EV, OS) }
spec fn emit<'r>(en: Env<'r>, s: Seq<u8>, sp: Span, v: Value, out: OS) -> R {
    let w = format_says(*en.eng.default_formatter, out, v);
    if w.1 { R::Ok(w.0) } else { R::Err(ev(EK::Format, s, sp), w.0) }
}
// `{{ v | name }}`: the last name may be a filter or a formatter
spec fn emit_with<'r>(en: Env<'r>, st: Seq<AS<'r>>, s: Seq<u8>, name: Span, sp: Span, v: Value, out: OS) -> R {
    match fn_named(en.eng.functions, span_text(s, name)) {
        Some(EngineBoxFn::Filter(f)) => match filter_says(*f, st, s, name, v, Seq::empty()) {
            Ok(x) => emit(en, s, sp, x, out),
            Err(e) => R::Err(enriched(e, s, name), out),
        },
        Some(EngineBoxFn::Formatter(g)) => { let w = format_says(*g, out, v); if w.1 { R::Ok(w.0) } else { R::Err(ev(EK::Format, s, name), w.0) } },
        None => R::Err(ev(EK::Render, s, name), out),
    }
}
spec fn emit_raw(s: Seq<u8>, sp: Span, out: OS) -> R {
    let w = write_says(out, span_text(s, sp));
    if w.1 { R::Ok(w.0) } else { R::Err(ev_write(), w.0) }
}

// ---------------------------------------------------------------- the meaning of a tree
spec fn sem_expr<'r>(en: Env<'r>, s: Seq<u8>, st: Seq<AS<'r>>, e: ast::Expr) -> std::result::Result<Value, EV> decreases e {
    match e {
        ast::Expr::Base(ast::BaseExpr::Var(v)) => var_value(st, s, v),
        ast::Expr::Base(ast::BaseExpr::Literal(l)) => Ok(l.value),
        ast::Expr::Call(c) => match sem_expr(en, s, st, *c.receiver) {
            Ok(v) => apply(en, st, s, c.name.span, call_args(c.args), v),
            Err(x) => Err(x),
        },
    }
}
spec fn sem_emit<'r>(en: Env<'r>, s: Seq<u8>, st: Seq<AS<'r>>, e: ast::Expr, out: OS) -> R {
    if tail_call(e) {
        match sem_expr(en, s, st, *e->Call_0.receiver) {
            Ok(v) => emit_with(en, st, s, e->Call_0.name.span, expr_span(e), v, out),
            Err(x) => R::Err(x, out),
        }
    } else {
        match sem_expr(en, s, st, e) { Ok(v) => emit(en, s, expr_span(e), v, out), Err(x) => R::Err(x, out) }
    }
}
// where a statement is: the source it belongs to, the name of its template, how many templates are active
struct At { s: Seq<u8>, name: Option<Seq<u8>>, active: nat }
spec fn r_named(r: R, n: Option<Seq<u8>>) -> R { match r { R::Err(e, o) => R::Err(named(e, n), o), x => x } }
spec fn room<'r>(en: Env<'r>, at: At) -> nat { if en.limit > at.active { (en.limit - at.active) as nat } else { 0 } }

spec fn include_stack<'r>(en: Env<'r>, s: Seq<u8>, st: Seq<AS<'r>>, inc: ast::Include) -> std::result::Result<Seq<AS<'r>>, EV> {
    match inc.globals {
        None => Ok(st),
        Some(g) => match sem_expr(en, s, st, g) { Ok(v) => Ok(st.push(AS::Boundary).push(AS::Scope(v))), Err(e) => Err(e) },
    }
}
spec fn at_of<'r>(t: Template<'r>, inc: ast::Include, at: At) -> At { At { s: bs(t.source), name: Some(sbytes(inc.name.name)), active: at.active + 1 } }

spec fn sem_stmt<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, stmt: ast::Stmt, out: OS) -> R
    decreases room(en, at), stmt, 0nat, 0nat
{
    match stmt {
        ast::Stmt::Raw(sp) => r_named(emit_raw(at.s, sp, out), at.name),
        ast::Stmt::InlineExpr(ie) => r_named(sem_emit(en, at.s, st, ie.expr, out), at.name),
        // an included template sees this stack, or only the given value; there is a limit to active templates
        ast::Stmt::Include(inc) => match include_stack(en, at.s, st, inc) {
            Err(e) => R::Err(named(e, at.name), out),
            Ok(st2) => match template_of(en, sbytes(inc.name.name)) {
                None => R::Err(named(ev(EK::Render, at.s, inc.name.span), at.name), out),
                Some(t) =>
                    if at.active + 1 > en.limit { R::Err(ev_depth(), out) }
                    else { sem_scope(en, at_of(t, inc, at), st2, tree_of(t), tree_of(t).stmts@.len(), out) },
            },
        },
        ast::Stmt::IfElse(ie) => match sem_expr(en, at.s, st, ie.cond) {
            Ok(v) =>
                if falsy(v) == ie.not { sem_scope(en, at, st, ie.then_branch, ie.then_branch.stmts@.len(), out) }
                else { match ie.else_branch { Some(e) => sem_scope(en, at, st, e, e.stmts@.len(), out), None => R::Ok(out) } },
            Err(e) => R::Err(named(e, at.name), out),
        },
        ast::Stmt::ForLoop(f) => match sem_expr(en, at.s, st, f.iterable) {
            Ok(v) => match loop_start(at.s, f.vars, v, expr_span(f.iterable)) {
                NewLoop::Started(l) => sem_loop(en, at, st, f.body, l, out),
                NewLoop::Wrong(sp) => R::Err(named(ev(EK::Render, at.s, sp), at.name), out),
            },
            Err(e) => R::Err(named(e, at.name), out),
        },
        ast::Stmt::With(w) => match sem_expr(en, at.s, st, w.expr) {
            Ok(v) => sem_scope(en, at, st.push(AS::Var(span_text(at.s, w.name.span), v)), w.body, w.body.stmts@.len(), out),
            Err(e) => R::Err(named(e, at.name), out),
        },
    }
}
// the first k statements, in order, stopping at the first error
spec fn sem_scope<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, sc: ast::Scope, k: nat, out: OS) -> R
    decreases room(en, at), sc, 0nat, k
{
    if k == 0 || k > sc.stmts@.len() { R::Ok(out) } else {
        match sem_scope(en, at, st, sc, (k - 1) as nat, out) {
            R::Ok(o) => sem_stmt(en, at, st, sc.stmts@[k - 1], o),
            x => x,
        }
    }
}
// the body once per item that is left
spec fn sem_loop<'r>(en: Env<'r>, at: At, st: Seq<AS<'r>>, body: ast::Scope, l: LV, out: OS) -> R
    decreases room(en, at), body, 1nat, l.rest.len()
{
    if l.rest.len() == 0 { R::Ok(out) } else {
        match sem_scope(en, at, st.push(AS::Loop(advance(l))), body, body.stmts@.len(), out) {
            R::Ok(o) => sem_loop(en, at, st, body, advance(l), o),
            x => x,
        }
    }
}
// ---------------------------------------------------------------- what one instruction does
struct L<'r> { pc: int, expr: Option<Value>, st: Seq<AS<'r>>, out: OS }
enum End { Done, Incl(ast::String), InclWith(ast::String, Value), Fail(EV) }
enum LStep<'r> { Go(L<'r>), End(End, L<'r>), Stuck }
spec fn wf_instr(s: Seq<u8>, i: Instr) -> bool {
    match i {
        Instr::Emit(sp) => span_ok(s, sp),
        Instr::EmitRaw(sp) => span_ok(s, sp),
        Instr::EmitWith(n, sp) => span_ok(s, n.span) && span_ok(s, sp),
        Instr::LoopStart(v, sp) => wf_loop_vars(s, v) && span_ok(s, sp),
        Instr::WithStart(n) => span_ok(s, n.span),
        Instr::Include(n) => span_ok(s, n.span),
        Instr::IncludeWith(n) => span_ok(s, n.span),
        Instr::ExprStart(v) => wf_var(s, v),
        Instr::Apply(n, sp, a) => span_ok(s, n.span) && (a is Some ==> wf_args(s, a->Some_0.values@)),
        _ => true,
    }
}
spec fn wrote<'r>(l: L<'r>, r: R) -> LStep<'r> {
    match r {
        R::Ok(o) => LStep::Go(L { pc: l.pc + 1, expr: None, out: o, ..l }),
        R::Err(e, o) => LStep::End(End::Fail(e), L { expr: None, out: o, ..l }),
    }
}
spec fn valued<'r>(l: L<'r>, r: std::result::Result<Value, EV>) -> LStep<'r> {
    match r {
        Ok(v) => LStep::Go(L { pc: l.pc + 1, expr: Some(v), ..l }),
        Err(e) => LStep::End(End::Fail(e), L { expr: None, ..l }),
    }
}
spec fn lstep<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>) -> LStep<'r> {
    let s = bs(t.source);
    if l.pc == t.instrs@.len() { LStep::End(End::Done, L { expr: None, ..l }) }
    else if !(0 <= l.pc < t.instrs@.len()) || !wf_instr(s, t.instrs@[l.pc]) { LStep::Stuck }
    else {
        let next = L { pc: l.pc + 1, ..l };
        match (t.instrs@[l.pc], l.expr) {
            (Instr::Jump(j), _) => LStep::Go(L { pc: j as int, ..l }),
            (Instr::JumpIfTrue(j), Some(v)) => LStep::Go(L { pc: if falsy(v) { l.pc + 1 } else { j as int }, expr: None, ..l }),
            (Instr::JumpIfFalse(j), Some(v)) => LStep::Go(L { pc: if falsy(v) { j as int } else { l.pc + 1 }, expr: None, ..l }),
            (Instr::Emit(sp), Some(v)) => wrote(l, emit(en, s, sp, v, l.out)),
            (Instr::EmitRaw(sp), None) => wrote(l, emit_raw(s, sp, l.out)),
            (Instr::EmitWith(n, sp), Some(v)) => wrote(l, emit_with(en, l.st, s, n.span, sp, v, l.out)),
            (Instr::LoopStart(vars, sp), Some(v)) => match loop_start(s, vars, v, sp) {
                NewLoop::Started(lv) => LStep::Go(L { expr: None, st: l.st.push(AS::Loop(lv)), ..next }),
                NewLoop::Wrong(x) => LStep::End(End::Fail(ev(EK::Render, s, x)), L { expr: None, ..l }),
            },
            (Instr::LoopNext(j), None) =>
                if l.st.len() > 0 && l.st.last() is Loop {
                    let lv = l.st.last()->Loop_0;
                    if lv.rest.len() == 0 { LStep::Go(L { pc: j as int, st: l.st.drop_last(), ..l }) }
                    else { LStep::Go(L { st: l.st.drop_last().push(AS::Loop(advance(lv))), ..next }) }
                } else { LStep::Stuck },
            (Instr::WithStart(n), Some(v)) => LStep::Go(L { expr: None, st: l.st.push(AS::Var(span_text(s, n.span), v)), ..next }),
            (Instr::WithEnd, None) => if l.st.len() > 0 && l.st.last() is Var { LStep::Go(L { st: l.st.drop_last(), ..next }) } else { LStep::Stuck },
            (Instr::Include(n), None) => LStep::End(End::Incl(n), next),
            (Instr::IncludeWith(n), Some(v)) => LStep::End(End::InclWith(n, v), L { expr: None, ..next }),
            (Instr::ExprStart(var), None) => valued(l, var_value(l.st, s, var)),
            (Instr::ExprStartLit(v), None) => LStep::Go(L { expr: Some(v), ..next }),
            (Instr::Apply(n, _, a), Some(v)) => valued(l, apply(en, l.st, s, n.span, call_args(a), v)),
            _ => LStep::Stuck,
        }
    }
}
spec fn lrun<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat) -> Option<L<'r>> decreases n {
    if n == 0 { Some(l) } else {
        match lrun(en, t, l, (n - 1) as nat) { Some(m) => match lstep(en, t, m) { LStep::Go(x) => Some(x), _ => None }, None => None }
    }
}
spec fn lends<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat) -> bool { lrun(en, t, l, n) is Some && lstep(en, t, lrun(en, t, l, n)->Some_0) is End }
spec fn lresult<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat) -> LStep<'r> { lstep(en, t, lrun(en, t, l, n)->Some_0) }

// ---------------------------------------------------------------- the stack of active templates
struct Frame<'r> { t: Template<'r>, name: Option<Seq<u8>>, pc: int, scoped: bool }
struct C<'r> { fr: Seq<Frame<'r>>, expr: Option<Value>, st: Seq<AS<'r>>, out: OS }
enum CStep<'r> { Go(C<'r>), Halt(R), Stuck }
spec fn lof<'r>(c: C<'r>) -> L<'r> { L { pc: c.fr.last().pc, expr: c.expr, st: c.st, out: c.out } }
spec fn with_l<'r>(c: C<'r>, l: L<'r>) -> C<'r> {
    C { fr: c.fr.drop_last().push(Frame { pc: l.pc, ..c.fr.last() }), expr: l.expr, st: l.st, out: l.out }
}
spec fn limited<'r>(en: Env<'r>, c: C<'r>) -> CStep<'r> { if c.fr.len() > en.limit { CStep::Halt(R::Err(ev_depth(), c.out)) } else { CStep::Go(c) } }
spec fn enter<'r>(en: Env<'r>, c: C<'r>, name: ast::String, scoped: bool, st: Seq<AS<'r>>) -> CStep<'r> {
    match template_of(en, sbytes(name.name)) {
        None => CStep::Halt(R::Err(named(ev(EK::Render, bs(c.fr.last().t.source), name.span), c.fr.last().name), c.out)),
        Some(t) => limited(en, C { fr: c.fr.push(Frame { t, name: Some(sbytes(name.name)), pc: 0, scoped }), expr: None, st, out: c.out }),
    }
}
// what happens when the running template stops
spec fn after<'r>(en: Env<'r>, c: C<'r>, e: End) -> CStep<'r> {
    match e {
        End::Fail(e) => CStep::Halt(R::Err(named(e, c.fr.last().name), c.out)),
        End::Done => {
            let n = c.st.len();
            if !c.fr.last().scoped { limited(en, C { fr: c.fr.drop_last(), expr: None, ..c }) }
            else if n >= 2 && c.st[n - 1] is Scope && c.st[n - 2] is Boundary { limited(en, C { fr: c.fr.drop_last(), expr: None, st: c.st.drop_last().drop_last(), ..c }) }
            else { CStep::Stuck }
        }
        End::Incl(name) => enter(en, c, name, false, c.st),
        End::InclWith(name, v) => enter(en, c, name, true, c.st.push(AS::Boundary).push(AS::Scope(v))),
    }
}
spec fn cstep<'r>(en: Env<'r>, c: C<'r>) -> CStep<'r> {
    if c.fr.len() == 0 { CStep::Halt(R::Ok(c.out)) } else {
        match lstep(en, c.fr.last().t, lof(c)) {
            LStep::Go(l) => CStep::Go(with_l(c, l)),
            LStep::End(e, l) => after(en, with_l(c, l), e),
            LStep::Stuck => CStep::Stuck,
        }
    }
}
spec fn crun<'r>(en: Env<'r>, c: C<'r>, n: nat) -> Option<C<'r>> decreases n {
    if n == 0 { Some(c) } else {
        match cstep(en, c) { CStep::Go(d) => crun(en, d, (n - 1) as nat), _ => None }
    }
}
spec fn reach<'r>(en: Env<'r>, c: C<'r>, d: C<'r>) -> bool { exists|n: nat| crun(en, c, n) == Some(d) }
spec fn halts_in<'r>(en: Env<'r>, c: C<'r>, n: nat, r: R) -> bool { crun(en, c, n) is Some && cstep(en, crun(en, c, n)->Some_0) == CStep::<'r>::Halt(r) }
spec fn halts<'r>(en: Env<'r>, c: C<'r>, r: R) -> bool { exists|n: nat| halts_in(en, c, n, r) }
} // verus!
