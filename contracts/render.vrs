//@include prelude.vrs
//@use values.vrs
//@use ast.vrs
//@use paths.vrs
//@use iter.vrs
//@use stack.vrs
//@include program.vrs
//@include machine.vrs
//@include sim.vrs
// C05, C06, C12: the interpreter takes exactly the steps of the machine
verus! {
impl Error {
    #[verifier::external_body]
    fn from_fmt(e: StdFmtError) -> (r: Error) ensures r.v() == ev_write() { unimplemented!() }
    #[verifier::external_body]
    fn format(err: FmtError, source: &str, span: Span) -> (r: Error)
        requires span_ok(bs(source), span)
        ensures r.v() == ev(EK::Format, bs(source), span)
    { unimplemented!() }
    #[verifier::external_body]
    fn enrich(self, source: &str, span: Span) -> (r: Error)
        requires span_ok(bs(source), span)
        ensures r.v() == enriched(self.v(), bs(source), span)
    { unimplemented!() }
    #[verifier::external_body]
    fn max_include_depth(max: usize) -> (r: Error) ensures r.v() == ev_depth() { unimplemented!() }
}
impl ast::String {
//@fn src/types/ast.rs String::as_str
//@ret r
//@sub `& self . name` => `vx_as_str(&self.name)`
//@sub `self . name . as_str ( )` => `vx_as_str(&self.name)`
//@spec
    ensures bs(r) == sbytes(self.name)
//@end
}
// ---------------------------------------------------------------- TRUSTED: what the interpreter calls
trait AsVal { spec fn aval(&self) -> Value; fn vx_ref(&self) -> (r: &Value) ensures *r == self.aval(); }
impl<'a> AsVal for ValueCow<'a> { spec fn aval(&self) -> Value { self.val() } fn vx_ref(&self) -> (r: &Value) { &**self } }
impl AsVal for Value { spec fn aval(&self) -> Value { *self } fn vx_ref(&self) -> (r: &Value) { self } }
#[verifier::external_body]
fn vx_format_with(g: &FormatFn, f: &mut Formatter<'_>, v: &Value) -> (r: std::result::Result<(), FmtError>)
    ensures goes_to(*final(f)) == goes_to(*old(f)), final(f).out() == format_says(*g, old(f).out(), *v).0, r is Ok <==> format_says(*g, old(f).out(), *v).1
{ unimplemented!() }
// `f.write_str(s)?`: the write, and then From<fmt::Error>
fn vx_write_str(f: &mut Formatter<'_>, s: &str) -> (r: Result<()>)
    ensures goes_to(*final(f)) == goes_to(*old(f)), final(f).out() == write_says(old(f).out(), bs(s)).0, r is Ok <==> write_says(old(f).out(), bs(s)).1, r is Err ==> r->Err_0.v() == ev_write()
{ match f.write_str(s) { Ok(_) => Ok(()), Err(e) => Err(Error::from_fmt(e)) } }
#[verifier::external_body]
fn vx_call_filter<'a>(f: &FilterFn, stack: &Stack<'a>, source: &str, filter: &ast::Ident, value: &mut ValueCow<'a>, args: &[ast::BaseExpr]) -> (r: Result<Value>)
    requires span_ok(bs(source), filter.span), wf_args(bs(source), args@)
    ensures match filter_says(*f, stack.av(), bs(source), filter.span, old(value).val(), args@) { Ok(v) => r is Ok && r->Ok_0 == v, Err(e) => r is Err && r->Err_0.v() == e }
{ unimplemented!() }
#[verifier::external_body]
fn vx_fn_get<'a>(m: &'a BTreeMap<&str, EngineBoxFn>, k: &str) -> (r: Option<&'a EngineBoxFn>)
    ensures match fn_named(*m, bs(k)) { Some(x) => r is Some && *r->Some_0 == x, None => r is None }
{ unimplemented!() }
#[verifier::external_body]
fn vx_template_get<'a, 'r>(m: &'a BTreeMap<&'r str, Template<'r>>, k: &str) -> (r: Option<&'a Template<'r>>)
    ensures match template_named(*m, bs(k)) { Some(x) => r is Some && *r->Some_0 == x, None => r is None }
{ unimplemented!() }
#[verifier::external_body]
fn vx_call_template_fn<'r>(f: &Box<TemplateFn<'r>>, k: &str) -> (r: std::result::Result<&'r Template<'r>, String>)
    ensures match template_fn_says(**f, bs(k)) { Some(x) => r is Ok && *r->Ok_0 == x, None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
fn vx_no_args<'a>() -> (r: &'a [ast::BaseExpr]) ensures r@ == Seq::<ast::BaseExpr>::empty() { &[] }

broadcast proof fn push_pop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
// ---------------------------------------------------------------- one template
//@item src/render/core.rs RendererImpl
//@end
//@item src/render/core.rs RenderState
//@end
proof fn lemma_l<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat, k: nat)
    requires lends(en, t, l, n), k <= n
    ensures lrun(en, t, l, k) is Some, k < n ==> lstep(en, t, lrun(en, t, l, k)->Some_0) is Go, k == n ==> lstep(en, t, lrun(en, t, l, k)->Some_0) is End
    decreases n - k
{
    if k < n { lemma_l2(en, t, l, n, k); }
}
proof fn lemma_l2<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat, k: nat)
    requires lrun(en, t, l, n) is Some, k < n
    ensures lrun(en, t, l, k) is Some, lstep(en, t, lrun(en, t, l, k)->Some_0) is Go
    decreases n
{
    if k + 1 < n { lemma_l2(en, t, l, (n - 1) as nat, k); }
}
proof fn lemma_l_once<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>, n: nat, m: nat)
    requires lends(en, t, l, n), lends(en, t, l, m)
    ensures n == m
{ if n < m { lemma_l(en, t, l, m, n); } if m < n { lemma_l(en, t, l, n, m); } }

spec fn ov<'a>(e: Option<ValueCow<'a>>) -> Option<Value> { match e { Some(v) => Some(v.val()), None => None } }
spec fn lconf<'r>(pc: usize, e: Option<Value>, st: Stack<'r>, f: Formatter<'_>) -> L<'r> { L { pc: pc as int, expr: e, st: st.av(), out: f.out() } }
spec fn is_end<'r, 's>(r: Result<RenderState<'r, 's>>, e: End) -> bool {
    match e {
        End::Done => r is Ok && r->Ok_0 is Done,
        End::Incl(n) => r is Ok && r->Ok_0 is Include && *(r->Ok_0->Include_template_name) == n,
        End::InclWith(n, v) => r is Ok && r->Ok_0 is IncludeWith && *(r->Ok_0->IncludeWith_template_name) == n && r->Ok_0->IncludeWith_globals.val() == v,
        End::Fail(x) => r is Err && r->Err_0.v() == x,
    }
}
// the run from l stops after n steps with result r, leaving m behind
spec fn steps_of<'r>(en: Env<'r>, t: Template<'r>, l: L<'r>) -> nat { choose|n: nat| lends(en, t, l, n) }
spec fn ended<'r, 's>(en: Env<'r>, t: Template<'r>, l: L<'r>, r: Result<RenderState<'r, 's>>, m: L<'r>) -> bool {
    match lresult(en, t, l, steps_of(en, t, l)) { LStep::End(e, x) => is_end(r, e) && m == x, _ => false }
}
impl<'render, 'stack> RendererImpl<'render, 'stack> where 'render: 'stack {
//@fn src/render/core.rs RendererImpl::render_one
//@ret r
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::loop_isolation(false)]
//@sub `while let Some ( instr ) = t . instrs . get ( * pc ) { $b }` => `loop { match t.instrs.get(*pc) { Some(instr) => { $b } None => { break; } } }`
//@sub `& t . source [ $x ]` => `&(*t.source)[$x]`
//@sub `& t . source` => `t.source`
//@sub `( self . inner . engine . default_formatter ) ( f , & $x_id )` => `vx_format_with(self.inner.engine.default_formatter, f, $x_id.vx_ref())`
//@sub `formatter ( f , & $x_id )` => `vx_format_with(formatter, f, $x_id.vx_ref())`
//@sub `f . write_str ( $x ) ?` => `vx_write_str(f, $x)?`
//@sub `self . inner . engine . functions . get ( $x )` => `vx_fn_get(&self.inner.engine.functions, $x)`
//@sub `filter ( FilterState { stack : $a , source : $b , filter : $c , value : $d , args : & [ ] , } )` => `vx_call_filter(filter, $a, $b, $c, $d, vx_no_args())`
//@sub `filter ( FilterState { stack : $a , source : $b , filter : $c , value : $d , args , } )` => `vx_call_filter(filter, $a, $b, $c, $d, args)`
//@sub `_args . as_ref ( ) . map ( | args | args . values . as_slice ( ) ) . unwrap_or ( & [ ] )` => `(match _args { Some(args) => args.values.as_slice(), None => vx_no_args() })`
//@sub `| $e_id | Error :: format ( $a , $b , $c )` => `|$e_id: FmtError| -> (vx_e: Error) requires span_ok(bs($b), $c) ensures vx_e.v() == ev(EK::Format, bs($b), $c) { Error::format($a, $b, $c) }`
//@sub `| $e_id | $f_id . enrich ( $b , $c )` => `|$e_id: Error| -> (vx_e: Error) requires span_ok(bs($b), $c) ensures vx_e.v() == enriched($e_id.v(), bs($b), $c) { $f_id.enrich($b, $c) }`
//@spec
    requires lends(env_of(old(self).inner), *t, lconf(*old(pc), None, old(self).stack, *old(f)), steps_of(env_of(old(self).inner), *t, lconf(*old(pc), None, old(self).stack, *old(f))))
    ensures final(self).inner == old(self).inner, goes_to(*final(f)) == goes_to(*old(f)),
        ended(env_of(old(self).inner), *t, lconf(*old(pc), None, old(self).stack, *old(f)), r, lconf(*final(pc), None, final(self).stack, *final(f)))
//@start
    broadcast use push_pop;
    let ghost en = env_of(self.inner);
    let ghost l0 = lconf(*pc, None, self.stack, *f);
    let ghost n = steps_of(en, *t, l0);
    let ghost mut k: nat = 0;
//@loop 0
    invariant
        en == env_of(self.inner), self.inner == old(self).inner, goes_to(*f) == goes_to(*old(f)),
        lends(en, *t, l0, n), k <= n,
        lrun(en, *t, l0, k) == Some(lconf(*pc, ov(expr), self.stack, *f)),
    decreases n - k
//@loop_start 0
    proof { lemma_l(en, *t, l0, n, k); lemma_len(*t); k = k + 1; }
    let ghost c = lconf(*pc, ov(expr), self.stack, *f);
//@end
//@fn src/render/core.rs RendererImpl::get_template
//@ret r
//@sub `if let Some ( template_fn ) = & mut self . inner . template_fn {` => `if let Some(template_fn) = &self.inner.template_fn {`
//@sub `template_fn ( name . as_str ( ) ) . map ( | t | & t . template )` => `vx_call_template_fn(template_fn, name.as_str())`
//@sub `self . inner . engine . templates . get ( $x )` => `vx_template_get(&self.inner.engine.templates, $x)`
//@sub `| $e_id | Error :: render ( $a , $b , $c )` => `|$e_id: String| -> (vx_e: Error) requires span_ok(bs($b), $c) ensures vx_e.v() == ev(EK::Render, bs($b), $c) { Error::render($a, $b, $c) }`
//@sub `|| Error :: render ( $a , $b , $c )` => `|| -> (vx_e: Error) requires span_ok(bs($b), $c) ensures vx_e.v() == ev(EK::Render, bs($b), $c) { Error::render($a, $b, $c) }`
//@spec
    requires span_ok(bs(source), name.span)
    ensures final(self).inner == old(self).inner, final(self).stack == old(self).stack,
        match template_of(env_of(old(self).inner), sbytes(name.name)) { Some(t) => r is Ok && *r->Ok_0 == t, None => err_at(r, EK::Render, bs(source), name.span) }
//@end
//@fn src/render/core.rs RendererImpl::render
//@ret r
//@sig fn render(vx_in: RendererImpl<'render, 'stack>, f: &mut Formatter<'_>) -> Result<()>
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sub `while let Some ( $p ) = templates . last_mut ( ) { $b }` => `loop { match templates.last_mut() { Some($p) => { $b } None => { break; } } }`
//@sub `vec ! [ $x ]` => `vx_one($x)`
//@sub `s . to_owned ( )` => `vx_to_owned(*s)`
//@sub `& t . source` => `t.source`
//@sub `self . render_one ( $a ) . map_err ( | $e_id | match tname { $m } ) ?` => `(match self.render_one($a) { Ok(vx_o) => vx_o, Err($e_id) => return Err(match tname { $m }) })`
//@sub `self . get_template ( $a ) . map_err ( | $e_id | match tname { $m } ) ?` => `(match self.get_template($a) { Ok(vx_o) => vx_o, Err($e_id) => return Err(match tname { $m }) })`
//@sub `self` => `vx_self`
//@spec
    requires env_ok(env_of(vx_in.inner)), compiled(*vx_in.inner.template)
    ensures goes_to(*final(f)) == goes_to(*old(f)), rendered(r, final(f).out(), meaning(env_of(vx_in.inner), *vx_in.inner.template, oname(vx_in.inner.template_name), vx_in.stack.av(), old(f).out()))
//@start
    hide(lstep); hide(lrun); hide(crun); hide(halts_in); hide(meaning); hide(frames); hide(lresult); hide(template_of);
    broadcast use push_pop, frames_push, frames_pop, frames_last;
    let mut vx_self = vx_in;
    let ghost en = env_of(vx_in.inner);
    let ghost sem = meaning(en, *vx_in.inner.template, oname(vx_in.inner.template_name), vx_in.stack.av(), f.out());
    let ghost c0 = start(*vx_in.inner.template, oname(vx_in.inner.template_name), vx_in.stack.av(), f.out());
    proof { thm_render(en, *vx_in.inner.template, oname(vx_in.inner.template_name), vx_in.stack.av(), f.out()); }
    let ghost m = choose|m: nat| halts_in(en, c0, m, sem);
    let ghost mut k: nat = 0;
    proof { reveal(crun); reveal(frames); assert(frames(seq![(vx_in.inner.template, vx_in.inner.template_name, 0usize, false)]) =~= c0.fr); }
//@loop 0
    invariant_except_break
        en == env_of(vx_self.inner), goes_to(*f) == goes_to(*old(f)),
        halts_in(en, c0, m, sem), k <= m,
        crun(en, c0, k) == Some(cconf(templates@, vx_self.stack, *f)),
    ensures rendered(Ok::<(), Error>(()), f.out(), sem), goes_to(*f) == goes_to(*old(f))
    decreases m - k
//@loop_start 0
    let ghost low = templates@.drop_last();
    let ghost k0 = k;
    proof {
        lemma_c(en, c0, m, sem, k);
        lemma_c_end(en, c0, m, sem, k);
        if templates@.len() > 0 {
            lemma_run_one(en, cconf(templates@, vx_self.stack, *f), (m - k) as nat, sem);
            lemma_run_add(en, c0, k, steps_of(en, *templates@.last().0, lof(cconf(templates@, vx_self.stack, *f))) + 1);
            k = k + 1 + steps_of(en, *templates@.last().0, lof(cconf(templates@, vx_self.stack, *f)));
        }
    }
    let ghost vx_c = cconf(templates@, vx_self.stack, *f);
    let ghost vx_t = *templates@.last().0;
    let ghost vx_r = lresult(en, vx_t, lof(vx_c), steps_of(en, vx_t, lof(vx_c)));
    let ghost vx_d = after(en, with_l(vx_c, vx_r->End_1), vx_r->End_0);
//@loop_end 0
    proof {
        assert(cconf(templates@, vx_self.stack, *f).fr =~= vx_d->Go_0.fr);
        assert(vx_d == CStep::Go(cconf(templates@, vx_self.stack, *f)));
    }
//@end
}
fn vx_one<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let r = vec![x]; assert(r@ =~= seq![x]); r }
spec fn oname(o: Option<&str>) -> Option<Seq<u8>> { match o { Some(s) => Some(bs(s)), None => None } }
spec fn rendered(r: Result<()>, o: OS, w: R) -> bool { match w { R::Ok(x) => r is Ok && o == x, R::Err(e, x) => r is Err && r->Err_0.v() == e && o == x } }
type Active<'r> = (&'r Template<'r>, Option<&'r str>, usize, bool);
spec fn frames<'r>(a: Seq<Active<'r>>) -> Seq<Frame<'r>> { Seq::new(a.len(), |i: int| Frame { t: *a[i].0, name: oname(a[i].1), pc: a[i].2 as int, scoped: a[i].3 }) }
spec fn cconf<'r>(a: Seq<Active<'r>>, st: Stack<'r>, f: Formatter<'_>) -> C<'r> { C { fr: frames(a), expr: None, st: st.av(), out: f.out() } }
spec fn frame<'r>(a: Active<'r>) -> Frame<'r> { Frame { t: *a.0, name: oname(a.1), pc: a.2 as int, scoped: a.3 } }
broadcast proof fn frames_push<'r>(a: Seq<Active<'r>>, x: Active<'r>) ensures #[trigger] frames(a.push(x)) == frames(a).push(frame(x)) { assert(frames(a.push(x)) =~= frames(a).push(frame(x))); }
broadcast proof fn frames_pop<'r>(a: Seq<Active<'r>>) requires a.len() > 0 ensures #[trigger] frames(a).drop_last() == frames(a.drop_last()) { assert(frames(a).drop_last() =~= frames(a.drop_last())); }
broadcast proof fn frames_last<'r>(a: Seq<Active<'r>>) ensures #[trigger] frames(a).len() == a.len(), a.len() > 0 ==> frames(a).last() == frame(a.last()) {}
proof fn lemma_c_end<'r>(en: Env<'r>, c: C<'r>, m: nat, r: R, k: nat)
    requires halts_in(en, c, m, r), k <= m, crun(en, c, k) is Some
    ensures crun(en, c, k)->Some_0.fr.len() == 0 ==> r == R::Ok(crun(en, c, k)->Some_0.out)
{ 
    let d = crun(en, c, k)->Some_0;
    if d.fr.len() == 0 && k < m { lemma_c(en, c, m, r, k + 1); lemma_run_add(en, c, k, 1); assert(crun(en, d, 1) is None); }
}
// a run that halts after m steps is on its way at every k <= m
proof fn lemma_c<'r>(en: Env<'r>, c: C<'r>, m: nat, r: R, k: nat)
    requires halts_in(en, c, m, r), k <= m
    ensures crun(en, c, k) is Some, halts_in(en, crun(en, c, k)->Some_0, (m - k) as nat, r)
    decreases k
{
    if k > 0 {
        lemma_c(en, c, m, r, (k - 1) as nat);
        let d = crun(en, c, (k - 1) as nat)->Some_0;
        lemma_run_add(en, c, (k - 1) as nat, 1);
        assert(crun(en, d, (m - k + 1) as nat) is Some);
        let e = cstep(en, d)->Go_0;
        assert(crun(en, e, 0) == Some(e));
        assert(crun(en, d, 1) == Some(e));
    }
}
// the running template stops, and then the whole configuration makes one more step
#[verifier::spinoff_prover]
proof fn lemma_run_one<'r>(en: Env<'r>, c: C<'r>, m: nat, r: R)
    requires halts_in(en, c, m, r), c.fr.len() > 0
    ensures ({
        let t = c.fr.last().t;
        let n = steps_of(en, t, lof(c));
        &&& lends(en, t, lof(c), n) && n <= m
        &&& lresult(en, t, lof(c), n) is End
        &&& match lresult(en, t, lof(c), n)->End_0 { End::Incl(i) => span_ok(bs(t.source), i.span), End::InclWith(i, _) => span_ok(bs(t.source), i.span), _ => true }
        &&& ({
            let d = after(en, with_l(c, lresult(en, t, lof(c), n)->End_1), lresult(en, t, lof(c), n)->End_0);
            &&& n == m ==> d == CStep::<'r>::Halt(r)
            &&& n < m ==> d is Go && crun(en, c, n + 1) == Some(d->Go_0) && halts_in(en, d->Go_0, (m - n - 1) as nat, r)
        })
    })
{
    let t = c.fr.last().t;
    let low = c.fr.drop_last();
    let f = c.fr.last();
    assert(kl(low, f, lof(c)).fr =~= c.fr);
    let n = lemma_follow(en, low, f, lof(c), m, r, m);
    assert(lends(en, t, lof(c), n));
    lemma_l_once(en, t, lof(c), n, steps_of(en, t, lof(c)));
    lemma_c(en, c, m, r, n);
    let l = lrun(en, t, lof(c), n)->Some_0;
    lemma_k(en, low, f, l);
    let x = lresult(en, t, lof(c), n)->End_1;
    assert(with_l(c, x).fr =~= kl(low, f, x).fr);
    if n < m {
        lemma_c(en, c, m, r, n + 1);
        lemma_run_add(en, c, n, 1);
        let d = cstep(en, kl(low, f, l))->Go_0;
        assert(crun(en, d, 0) == Some(d));
        assert(crun(en, kl(low, f, l), 1) == Some(d));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_follow<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, l: L<'r>, m: nat, r: R, j: nat) -> (n: nat)
    requires halts_in(en, kl(low, f, l), m, r), j <= m
    ensures n <= j, lrun(en, f.t, l, n) is Some, crun(en, kl(low, f, l), n) == Some(kl(low, f, lrun(en, f.t, l, n)->Some_0)),
        n < j || j == m ==> lends(en, f.t, l, n)
    decreases j
{
    let c = kl(low, f, l);
    if j == 0 { lemma_k(en, low, f, l); return 0; }
    let i = lemma_follow(en, low, f, l, m, r, (j - 1) as nat);
    if i < j - 1 { return i; }
    let x = lrun(en, f.t, l, i)->Some_0;
    lemma_k(en, low, f, x);
    lemma_c(en, c, m, r, i);
    lemma_c(en, c, m, r, j);
    match lstep(en, f.t, x) {
        LStep::Go(y) => {
            lemma_run_add(en, c, i, 1);
            assert(crun(en, kl(low, f, y), 0) == Some(kl(low, f, y)));
            assert(crun(en, kl(low, f, x), 1) == Some(kl(low, f, y)));
            lemma_k(en, low, f, y);
            assert(lrun(en, f.t, l, j) == Some(y));
            j
        }
        LStep::End(..) => i,
        LStep::Stuck => { assert(crun(en, kl(low, f, x), 1) is None); lemma_run_add(en, c, i, 1); i }
    }
}
} // verus!
