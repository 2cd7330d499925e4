// C05, C06, C12: running the code of a tree does exactly what the tree means. Every jump lands inside the
// program, every expression and scope that is needed is there, the scope stack is restored, the run ends.
verus! {
// lower frames, the running frame at pc
spec fn k<'r>(low: Seq<Frame<'r>>, f: Frame<'r>, pc: int, expr: Option<Value>, st: Seq<AS<'r>>, out: OS) -> C<'r> {
    C { fr: low.push(Frame { pc, ..f }), expr, st, out }
}
spec fn kl<'r>(low: Seq<Frame<'r>>, f: Frame<'r>, l: L<'r>) -> C<'r> { k(low, f, l.pc, l.expr, l.st, l.out) }

proof fn lemma_k<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, l: L<'r>)
    ensures cstep(en, kl(low, f, l)) == (match lstep(en, f.t, l) {
        LStep::Go(m) => CStep::Go(kl(low, f, m)),
        LStep::End(e, m) => after(en, kl(low, f, m), e),
        LStep::Stuck => CStep::Stuck,
    })
{
    let c = kl(low, f, l);
    assert(c.fr.drop_last() =~= low);
    assert(lof(c) == l);
    match lstep(en, f.t, l) {
        LStep::Go(m) => { assert(with_l(c, m).fr =~= kl(low, f, m).fr); }
        LStep::End(e, m) => { assert(with_l(c, m).fr =~= kl(low, f, m).fr); }
        LStep::Stuck => {}
    }
}
proof fn lemma_run_add<'r>(en: Env<'r>, c: C<'r>, n: nat, m: nat)
    requires crun(en, c, n) is Some
    ensures crun(en, c, n + m) == crun(en, crun(en, c, n)->Some_0, m)
    decreases n
{
    if n > 0 { let d = cstep(en, c)->Go_0; lemma_run_add(en, d, (n - 1) as nat, m); assert((n + m - 1) as nat == (n - 1) as nat + m); }
}
proof fn lemma_refl<'r>(en: Env<'r>, c: C<'r>) ensures reach(en, c, c) { assert(crun(en, c, 0) == Some(c)); }
proof fn lemma_trans<'r>(en: Env<'r>, c: C<'r>, d: C<'r>, e: C<'r>)
    requires reach(en, c, d), reach(en, d, e)
    ensures reach(en, c, e)
{
    let n = choose|n: nat| crun(en, c, n) == Some(d); let m = choose|m: nat| crun(en, d, m) == Some(e);
    lemma_run_add(en, c, n, m); assert(crun(en, c, n + m) == Some(e));
}
proof fn lemma_trans_halts<'r>(en: Env<'r>, c: C<'r>, d: C<'r>, r: R)
    requires reach(en, c, d), halts(en, d, r)
    ensures halts(en, c, r)
{
    let n = choose|n: nat| crun(en, c, n) == Some(d); let m = choose|m: nat| halts_in(en, d, m, r);
    lemma_run_add(en, c, n, m); assert(halts_in(en, c, n + m, r));
}
proof fn lemma_go<'r>(en: Env<'r>, c: C<'r>, d: C<'r>)
    requires cstep(en, c) == CStep::Go(d)
    ensures reach(en, c, d)
{ assert(crun(en, d, 0) == Some(d)); assert(crun(en, c, 1) == Some(d)); }
proof fn lemma_halt<'r>(en: Env<'r>, c: C<'r>, r: R)
    requires cstep(en, c) == CStep::<'r>::Halt(r)
    ensures halts(en, c, r)
{ assert(crun(en, c, 0) == Some(c)); assert(halts_in(en, c, 0, r)); }

// from c the run gets to d, or halts with the error
spec fn gets<'r>(en: Env<'r>, c: C<'r>, r: R, low: Seq<Frame<'r>>, f: Frame<'r>, pc: int, st: Seq<AS<'r>>) -> bool {
    match r { R::Ok(o) => reach(en, c, k(low, f, pc, None, st, o)), R::Err(e, o) => halts(en, c, r) }
}
proof fn lemma_gets<'r>(en: Env<'r>, c: C<'r>, d: C<'r>, r: R, low: Seq<Frame<'r>>, f: Frame<'r>, pc: int, st: Seq<AS<'r>>)
    requires reach(en, c, d), gets(en, d, r, low, f, pc, st)
    ensures gets(en, c, r, low, f, pc, st)
{
    match r { R::Ok(o) => lemma_trans(en, c, d, k(low, f, pc, None, st, o)), R::Err(e, o) => lemma_trans_halts(en, c, d, r) }
}
spec fn here<'r>(low: Seq<Frame<'r>>, f: Frame<'r>) -> At { At { s: bs(f.t.source), name: f.name, active: low.len() + 1 } }

#[verifier::spinoff_prover]
proof fn thm_expr<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, e: ast::Expr, out: OS)
    requires code_expr(f.t.instrs@, a, e), wf_expr(bs(f.t.source), e)
    ensures match sem_expr(en, bs(f.t.source), st, e) {
        Ok(v) => reach(en, k(low, f, a, None, st, out), k(low, f, a + size_expr(e), Some(v), st, out)),
        Err(x) => halts(en, k(low, f, a, None, st, out), R::Err(named(x, f.name), out)),
    }
    decreases e
{
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    match e {
        ast::Expr::Base(b) => {
            lemma_k(en, low, f, L { pc: a, expr: None, st, out });
            match sem_expr(en, s, st, e) { Ok(v) => lemma_go(en, c, k(low, f, a + 1, Some(v), st, out)), Err(x) => lemma_halt(en, c, R::Err(named(x, f.name), out)) }
        }
        ast::Expr::Call(call) => {
            thm_expr(en, low, f, a, st, *call.receiver, out);
            if let Ok(v) = sem_expr(en, s, st, *call.receiver) {
                let p = a + size_expr(*call.receiver);
                let d = k(low, f, p, Some(v), st, out);
                lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
                match sem_expr(en, s, st, e) {
                    Ok(w) => { lemma_go(en, d, k(low, f, p + 1, Some(w), st, out)); lemma_trans(en, c, d, k(low, f, p + 1, Some(w), st, out)); }
                    Err(x) => { lemma_halt(en, d, R::Err(named(x, f.name), out)); lemma_trans_halts(en, c, d, R::Err(named(x, f.name), out)); }
                }
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn thm_emit<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, e: ast::Expr, out: OS)
    requires code_emit(f.t.instrs@, a, e), wf_expr(bs(f.t.source), e)
    ensures gets(en, k(low, f, a, None, st, out), r_named(sem_emit(en, bs(f.t.source), st, e, out), f.name), low, f, a + size_emit(e), st)
{
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    lemma_expr_span_ok(s, e);
    let r = r_named(sem_emit(en, s, st, e, out), f.name);
    let sub = if tail_call(e) { *e->Call_0.receiver } else { e };
    thm_expr(en, low, f, a, st, sub, out);
    if let Ok(v) = sem_expr(en, s, st, sub) {
        let p = a + size_expr(sub);
        let d = k(low, f, p, Some(v), st, out);
        lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
        match r {
            R::Ok(o) => { lemma_go(en, d, k(low, f, p + 1, None, st, o)); }
            R::Err(x, o) => { lemma_halt(en, d, r); }
        }
        lemma_gets(en, c, d, r, low, f, p + 1, st);
    }
}
proof fn lemma_expr_span_ok(s: Seq<u8>, e: ast::Expr)
    requires wf_expr(s, e)
    ensures span_ok(s, expr_span(e))
{
    if let ast::Expr::Base(ast::BaseExpr::Var(v)) = e { lemma_combined_ok(s, v.path@[0].span, v.path@.last().span); }
}

proof fn thm_stmt<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, stmt: ast::Stmt, out: OS)
    requires env_ok(en), code_stmt(f.t.instrs@, a, stmt), wf_stmt(bs(f.t.source), stmt)
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, stmt, out), low, f, a + size_stmt(stmt), st)
    decreases room(en, here(low, f)), stmt, 2nat, 0nat
{
    match stmt {
        ast::Stmt::Raw(sp) => { thm_raw(en, low, f, a, st, sp, out); }
        ast::Stmt::InlineExpr(ie) => { thm_emit(en, low, f, a, st, ie.expr, out); }
        ast::Stmt::Include(inc) => { thm_include(en, low, f, a, st, inc, out); }
        ast::Stmt::IfElse(ie) => { thm_if(en, low, f, a, st, ie, out); }
        ast::Stmt::ForLoop(fl) => { thm_for(en, low, f, a, st, fl, out); }
        ast::Stmt::With(w) => { thm_with(en, low, f, a, st, w, out); }
    }
}
proof fn thm_raw<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, sp: Span, out: OS)
    requires code_stmt(f.t.instrs@, a, ast::Stmt::Raw(sp)), wf_stmt(bs(f.t.source), ast::Stmt::Raw(sp))
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, ast::Stmt::Raw(sp), out), low, f, a + 1, st)
{
    let c = k(low, f, a, None, st, out);
    let r = sem_stmt(en, here(low, f), st, ast::Stmt::Raw(sp), out);

            lemma_k(en, low, f, L { pc: a, expr: None, st, out });
            match r { R::Ok(o) => lemma_go(en, c, k(low, f, a + 1, None, st, o)), R::Err(e, o) => lemma_halt(en, c, r) }
        }
#[verifier::spinoff_prover]
proof fn thm_if<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, ie: ast::IfElse, out: OS)
    requires env_ok(en), code_stmt(f.t.instrs@, a, ast::Stmt::IfElse(ie)), wf_stmt(bs(f.t.source), ast::Stmt::IfElse(ie))
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, ast::Stmt::IfElse(ie), out), low, f, a + size_stmt(ast::Stmt::IfElse(ie)), st)
    decreases room(en, here(low, f)), ast::Stmt::IfElse(ie), 1nat, 0nat
{
    let stmt = ast::Stmt::IfElse(ie);
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    let at = here(low, f);
    let r = sem_stmt(en, at, st, stmt, out);

            let p = a + size_expr(ie.cond);
            let n = ie.then_branch.stmts@.len();
            let t = p + 1 + size_all(ie.then_branch);
            thm_expr(en, low, f, a, st, ie.cond, out);
            if let Ok(v) = sem_expr(en, s, st, ie.cond) {
                let d = k(low, f, p, Some(v), st, out);
                lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
                if falsy(v) == ie.not {
                    let d1 = k(low, f, p + 1, None, st, out);
                    lemma_go(en, d, d1);
                    thm_scope(en, low, f, p + 1, st, ie.then_branch, n, out);
                    lemma_gets(en, d, d1, r, low, f, t, st);
                    if ie.else_branch is Some {
                        if let R::Ok(o) = r {
                            let d2 = k(low, f, t, None, st, o);
                            lemma_k(en, low, f, L { pc: t, expr: None, st, out: o });
                            lemma_len(f.t);
                            lemma_go(en, d2, k(low, f, a + size_stmt(stmt), None, st, o));
                            lemma_trans(en, d, d2, k(low, f, a + size_stmt(stmt), None, st, o));
                        }
                    }
                } else {
                    lemma_len(f.t);
                    match ie.else_branch {
                        Some(eb) => {
                            let d1 = k(low, f, t + 1, None, st, out);
                            lemma_go(en, d, d1);
                            thm_scope(en, low, f, t + 1, st, eb, eb.stmts@.len(), out);
                            lemma_gets(en, d, d1, r, low, f, a + size_stmt(stmt), st);
                        }
                        None => { lemma_go(en, d, k(low, f, t, None, st, out)); }
                    }
                }
                lemma_gets(en, c, d, r, low, f, a + size_stmt(stmt), st);
            }
        }
#[verifier::spinoff_prover]
proof fn thm_for<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, fl: ast::ForLoop, out: OS)
    requires env_ok(en), code_stmt(f.t.instrs@, a, ast::Stmt::ForLoop(fl)), wf_stmt(bs(f.t.source), ast::Stmt::ForLoop(fl))
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, ast::Stmt::ForLoop(fl), out), low, f, a + size_stmt(ast::Stmt::ForLoop(fl)), st)
    decreases room(en, here(low, f)), ast::Stmt::ForLoop(fl), 1nat, 0nat
{
    let stmt = ast::Stmt::ForLoop(fl);
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    let at = here(low, f);
    let r = sem_stmt(en, at, st, stmt, out);

            let p = a + size_expr(fl.iterable);
            lemma_expr_span_ok(s, fl.iterable);
            thm_expr(en, low, f, a, st, fl.iterable, out);
            if let Ok(v) = sem_expr(en, s, st, fl.iterable) {
                let d = k(low, f, p, Some(v), st, out);
                lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
                match loop_start(s, fl.vars, v, expr_span(fl.iterable)) {
                    NewLoop::Started(l) => {
                        let d1 = k(low, f, p + 1, None, st.push(AS::Loop(l)), out);
                        lemma_go(en, d, d1);
                        thm_loop(en, low, f, p + 1, st, fl.body, l, out);
                        lemma_gets(en, d, d1, r, low, f, a + size_stmt(stmt), st);
                    }
                    NewLoop::Wrong(x) => { lemma_halt(en, d, r); }
                }
                lemma_gets(en, c, d, r, low, f, a + size_stmt(stmt), st);
            }
        }
#[verifier::spinoff_prover]
proof fn thm_with<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, w: ast::With, out: OS)
    requires env_ok(en), code_stmt(f.t.instrs@, a, ast::Stmt::With(w)), wf_stmt(bs(f.t.source), ast::Stmt::With(w))
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, ast::Stmt::With(w), out), low, f, a + size_stmt(ast::Stmt::With(w)), st)
    decreases room(en, here(low, f)), ast::Stmt::With(w), 1nat, 0nat
{
    let stmt = ast::Stmt::With(w);
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    let at = here(low, f);
    let r = sem_stmt(en, at, st, stmt, out);

            let p = a + size_expr(w.expr);
            thm_expr(en, low, f, a, st, w.expr, out);
            if let Ok(v) = sem_expr(en, s, st, w.expr) {
                let st2 = st.push(AS::Var(span_text(s, w.name.span), v));
                let d = k(low, f, p, Some(v), st, out);
                let d1 = k(low, f, p + 1, None, st2, out);
                lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
                lemma_go(en, d, d1);
                thm_scope(en, low, f, p + 1, st2, w.body, w.body.stmts@.len(), out);
                let q = p + 1 + size_all(w.body);
                if let R::Ok(o) = r {
                    let d2 = k(low, f, q, None, st2, o);
                    lemma_k(en, low, f, L { pc: q, expr: None, st: st2, out: o });
                    assert(st2.drop_last() =~= st);
                    lemma_go(en, d2, k(low, f, q + 1, None, st, o));
                    lemma_trans(en, d1, d2, k(low, f, q + 1, None, st, o));
                }
                lemma_gets(en, d, d1, r, low, f, q + 1, st);
                lemma_gets(en, c, d, r, low, f, q + 1, st);
            }
        }
// a program has at most usize::MAX instructions
proof fn lemma_len(t: Template) ensures t.instrs@.len() <= usize::MAX { assert(t.instrs.len() == t.instrs@.len()); }

#[verifier::spinoff_prover]
proof fn thm_scope<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, sc: ast::Scope, n: nat, out: OS)
    requires env_ok(en), code_scope(f.t.instrs@, a, sc, n), wf_scope(bs(f.t.source), sc, n)
    ensures gets(en, k(low, f, a, None, st, out), sem_scope(en, here(low, f), st, sc, n, out), low, f, a + size_scope(sc, n), st)
    decreases room(en, here(low, f)), sc, 0nat, n
{
    let c = k(low, f, a, None, st, out);
    if n == 0 { lemma_refl(en, c); } else {
        let m = (n - 1) as nat;
        thm_scope(en, low, f, a, st, sc, m, out);
        if let R::Ok(o) = sem_scope(en, here(low, f), st, sc, m, out) {
            thm_stmt(en, low, f, a + size_scope(sc, m), st, sc.stmts@[m as int], o);
            lemma_gets(en, c, k(low, f, a + size_scope(sc, m), None, st, o), sem_scope(en, here(low, f), st, sc, n, out), low, f, a + size_scope(sc, n), st);
        }
    }
}
// a is the place of LoopNext
#[verifier::spinoff_prover]
proof fn thm_loop<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, body: ast::Scope, l: LV, out: OS)
    requires env_ok(en), wf_all(bs(f.t.source), body), code_all(f.t.instrs@, a + 1, body),
        0 <= a, a + size_all(body) + 2 <= f.t.instrs@.len(),
        f.t.instrs@[a] == Instr::LoopNext((a + size_all(body) + 2) as usize),
        f.t.instrs@[a + 1 + size_all(body)] == Instr::Jump(a as usize),
    ensures gets(en, k(low, f, a, None, st.push(AS::Loop(l)), out), sem_loop(en, here(low, f), st, body, l, out), low, f, a + size_all(body) + 2, st)
    decreases room(en, here(low, f)), body, 1nat, l.rest.len()
{
    let st1 = st.push(AS::Loop(l));
    let c = k(low, f, a, None, st1, out);
    let r = sem_loop(en, here(low, f), st, body, l, out);
    let e = a + 1 + size_all(body);
    lemma_len(f.t);
    lemma_k(en, low, f, L { pc: a, expr: None, st: st1, out });
    assert(st1.drop_last() =~= st);
    if l.rest.len() == 0 {
        lemma_go(en, c, k(low, f, e + 1, None, st, out));
    } else {
        let st2 = st.push(AS::Loop(advance(l)));
        let d = k(low, f, a + 1, None, st2, out);
        lemma_go(en, c, d);
        thm_scope(en, low, f, a + 1, st2, body, body.stmts@.len(), out);
        if let R::Ok(o) = sem_scope(en, here(low, f), st2, body, body.stmts@.len(), out) {
            let d1 = k(low, f, e, None, st2, o);
            let d2 = k(low, f, a, None, st2, o);
            lemma_k(en, low, f, L { pc: e, expr: None, st: st2, out: o });
            lemma_go(en, d1, d2);
            lemma_trans(en, d, d1, d2);
            thm_loop(en, low, f, a, st, body, advance(l), o);
            lemma_gets(en, d, d2, r, low, f, e + 1, st);
        }
        lemma_gets(en, c, d, r, low, f, e + 1, st);
    }
}
// entering a template, running all of it and leaving it again
#[verifier::spinoff_prover]
proof fn thm_include<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, a: int, st: Seq<AS<'r>>, inc: ast::Include, out: OS)
    requires env_ok(en), code_stmt(f.t.instrs@, a, ast::Stmt::Include(inc)), wf_stmt(bs(f.t.source), ast::Stmt::Include(inc))
    ensures gets(en, k(low, f, a, None, st, out), sem_stmt(en, here(low, f), st, ast::Stmt::Include(inc), out), low, f, a + size_stmt(ast::Stmt::Include(inc)), st)
    decreases room(en, here(low, f)), ast::Stmt::Include(inc), 1nat, 0nat
{
    let c = k(low, f, a, None, st, out);
    let s = bs(f.t.source);
    let at = here(low, f);
    let r = sem_stmt(en, at, st, ast::Stmt::Include(inc), out);
    let end = a + size_stmt(ast::Stmt::Include(inc));
    match inc.globals {
        None => {
            let l = L { pc: a, expr: None, st, out };
            lemma_k(en, low, f, l);
            thm_enter(en, low, f, c, a + 1, st, st, inc, false, out);
        }
        Some(g) => {
            thm_expr(en, low, f, a, st, g, out);
            if let Ok(v) = sem_expr(en, s, st, g) {
                let p = a + size_expr(g);
                let d = k(low, f, p, Some(v), st, out);
                lemma_k(en, low, f, L { pc: p, expr: Some(v), st, out });
                thm_enter(en, low, f, d, p + 1, st, st.push(AS::Boundary).push(AS::Scope(v)), inc, true, out);
                lemma_gets(en, c, d, r, low, f, end, st);
            }
        }
    }
}
spec fn sem_enter<'r>(en: Env<'r>, at: At, st2: Seq<AS<'r>>, inc: ast::Include, out: OS) -> R {
    match template_of(en, sbytes(inc.name.name)) {
        None => R::Err(named(ev(EK::Render, at.s, inc.name.span), at.name), out),
        Some(t) => if at.active + 1 > en.limit { R::Err(ev_depth(), out) } else { sem_scope(en, at_of(t, inc, at), st2, tree_of(t), tree_of(t).stmts@.len(), out) },
    }
}
#[verifier::spinoff_prover]
proof fn thm_enter<'r>(en: Env<'r>, low: Seq<Frame<'r>>, f: Frame<'r>, c: C<'r>, end: int, st: Seq<AS<'r>>, st2: Seq<AS<'r>>, inc: ast::Include, scoped: bool, out: OS)
    requires env_ok(en),
        cstep(en, c) == enter(en, k(low, f, end, None, st, out), inc.name, scoped, st2),
        scoped ==> st2.len() == st.len() + 2 && st2[st.len() as int] is Boundary && st2.last() is Scope && st2.drop_last().drop_last() =~= st,
        !scoped ==> st2 == st,
    ensures gets(en, c, sem_enter(en, here(low, f), st2, inc, out), low, f, end, st)
    decreases room(en, here(low, f)), ast::Stmt::Include(inc), 0nat, 0nat
{
    let at = here(low, f);
    let r = sem_enter(en, at, st2, inc, out);
    let fr = low.push(Frame { pc: end, ..f });
    match template_of(en, sbytes(inc.name.name)) {
        None => { lemma_halt(en, c, r); }
        Some(t) => {
            if at.active + 1 > en.limit { lemma_halt(en, c, r); } else {
                let g = Frame { t, name: Some(sbytes(inc.name.name)), pc: 0, scoped };
                let d = k(fr, g, 0, None, st2, out);
                lemma_go(en, c, d);
                let tree = tree_of(t);
                assert(is_compiled_from(t, tree));
                assert(here(fr, g) == at_of(t, inc, at));
                thm_scope(en, fr, g, 0, st2, tree, tree.stmts@.len(), out);
                if let R::Ok(o) = r {
                    let d1 = k(fr, g, t.instrs@.len() as int, None, st2, o);
                    lemma_k(en, fr, g, L { pc: t.instrs@.len() as int, expr: None, st: st2, out: o });
                    let d2 = k(low, f, end, None, st, o);
                    assert(d1.fr.drop_last() =~= fr);
                    lemma_go(en, d1, d2);
                    lemma_trans(en, d, d1, d2);
                }
                lemma_gets(en, c, d, r, low, f, end, st);
            }
        }
    }
}
// C05: rendering a compiled template yields what its tree means, and always comes to an end
spec fn meaning<'r>(en: Env<'r>, t: Template<'r>, name: Option<Seq<u8>>, st: Seq<AS<'r>>, out: OS) -> R {
    sem_scope(en, At { s: bs(t.source), name, active: 1 }, st, tree_of(t), tree_of(t).stmts@.len(), out)
}
spec fn start<'r>(t: Template<'r>, name: Option<Seq<u8>>, st: Seq<AS<'r>>, out: OS) -> C<'r> {
    C { fr: seq![Frame { t, name, pc: 0, scoped: false }], expr: None, st, out }
}
proof fn thm_render<'r>(en: Env<'r>, t: Template<'r>, name: Option<Seq<u8>>, st: Seq<AS<'r>>, out: OS)
    requires env_ok(en), compiled(t)
    ensures halts(en, start(t, name, st, out), meaning(en, t, name, st, out))
{
    let low = Seq::<Frame<'r>>::empty();
    let f = Frame { t, name, pc: 0, scoped: false };
    let c = k(low, f, 0, None, st, out);
    let n = t.instrs@.len() as int;
    let r = meaning(en, t, name, st, out);
    assert(c.fr =~= start(t, name, st, out).fr);
    assert(is_compiled_from(t, tree_of(t)));
    thm_scope(en, low, f, 0, st, tree_of(t), tree_of(t).stmts@.len(), out);
    if let R::Ok(o) = r {
        let d = k(low, f, n, None, st, o);
        lemma_k(en, low, f, L { pc: n, expr: None, st, out: o });
        let e = C { fr: low, expr: None, st, out: o };
        assert(d.fr.drop_last() =~= low);
        lemma_go(en, d, e);
        lemma_halt(en, e, r);
        lemma_trans_halts(en, d, e, r);
        lemma_trans_halts(en, c, d, r);
    }
}
} // verus!
