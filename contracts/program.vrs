// Programs: the instructions, and what it means for a program to be the code of a syntax tree.
verus! {
//@item src/types/program.rs FIXME
//@end
//@item src/types/program.rs Template
//@sub `Cow < 'source , str >` => `&'source str`
//@end
//@item src/types/program.rs Instr
//@end

// ---------------------------------------------------------------- trees that belong to a source
spec fn wf_expr(s: Seq<u8>, e: ast::Expr) -> bool decreases e {
    match e {
        ast::Expr::Base(b) => wf_base(s, b),
        ast::Expr::Call(c) => span_ok(s, c.span) && span_ok(s, c.name.span) && wf_expr(s, *c.receiver)
            && (c.args is Some ==> wf_args(s, c.args->Some_0.values@)),
    }
}
spec fn wf_stmt(s: Seq<u8>, st: ast::Stmt) -> bool decreases st, 0nat {
    match st {
        ast::Stmt::Raw(sp) => span_ok(s, sp),
        ast::Stmt::InlineExpr(ie) => wf_expr(s, ie.expr),
        ast::Stmt::Include(inc) => span_ok(s, inc.name.span) && (inc.globals is Some ==> wf_expr(s, inc.globals->Some_0)),
        ast::Stmt::IfElse(ie) => wf_expr(s, ie.cond) && wf_scope(s, ie.then_branch, ie.then_branch.stmts@.len())
            && (ie.else_branch is Some ==> wf_scope(s, ie.else_branch->Some_0, ie.else_branch->Some_0.stmts@.len())),
        ast::Stmt::ForLoop(f) => wf_loop_vars(s, f.vars) && wf_expr(s, f.iterable) && wf_scope(s, f.body, f.body.stmts@.len()),
        ast::Stmt::With(w) => wf_expr(s, w.expr) && span_ok(s, w.name.span) && wf_scope(s, w.body, w.body.stmts@.len()),
    }
}
// the first k statements of a scope
spec fn wf_scope(s: Seq<u8>, sc: ast::Scope, k: nat) -> bool decreases sc, k {
    k == 0 || (k <= sc.stmts@.len() && wf_scope(s, sc, (k - 1) as nat) && wf_stmt(s, sc.stmts@[k - 1]))
}
spec fn wf_all(s: Seq<u8>, sc: ast::Scope) -> bool { wf_scope(s, sc, sc.stmts@.len()) }

// ---------------------------------------------------------------- how long the code of a tree is
spec fn size_expr(e: ast::Expr) -> nat decreases e {
    match e { ast::Expr::Base(_) => 1, ast::Expr::Call(c) => size_expr(*c.receiver) + 1 }
}
// `{{ x | f }}`: a call without arguments at the end of an emitted expression
spec fn tail_call(e: ast::Expr) -> bool { e is Call && e->Call_0.args is None }
spec fn size_emit(e: ast::Expr) -> nat { if tail_call(e) { size_expr(e) } else { size_expr(e) + 1 } }
spec fn size_stmt(st: ast::Stmt) -> nat decreases st, 0nat {
    match st {
        ast::Stmt::Raw(_) => 1,
        ast::Stmt::InlineExpr(ie) => size_emit(ie.expr),
        ast::Stmt::Include(inc) => match inc.globals { Some(g) => size_expr(g) + 1, None => 1 },
        ast::Stmt::IfElse(ie) => size_expr(ie.cond) + 1 + size_scope(ie.then_branch, ie.then_branch.stmts@.len())
            + match ie.else_branch { Some(e) => 1 + size_scope(e, e.stmts@.len()), None => 0 },
        ast::Stmt::ForLoop(f) => size_expr(f.iterable) + 2 + size_scope(f.body, f.body.stmts@.len()) + 1,
        ast::Stmt::With(w) => size_expr(w.expr) + 1 + size_scope(w.body, w.body.stmts@.len()) + 1,
    }
}
spec fn size_scope(sc: ast::Scope, k: nat) -> nat decreases sc, k {
    if k == 0 || k > sc.stmts@.len() { 0 } else { size_scope(sc, (k - 1) as nat) + size_stmt(sc.stmts@[k - 1]) }
}
spec fn size_all(sc: ast::Scope) -> nat { size_scope(sc, sc.stmts@.len()) }

// ---------------------------------------------------------------- is[a ..] is the code of the tree
spec fn code_expr(is: Seq<Instr>, a: int, e: ast::Expr) -> bool decreases e {
    0 <= a && a + size_expr(e) <= is.len() && match e {
        ast::Expr::Base(ast::BaseExpr::Var(v)) => is[a] == Instr::ExprStart(v),
        ast::Expr::Base(ast::BaseExpr::Literal(l)) => is[a] == Instr::ExprStartLit(l.value),
        ast::Expr::Call(c) => code_expr(is, a, *c.receiver) && is[a + size_expr(*c.receiver)] == Instr::Apply(c.name, c.span, c.args),
    }
}
spec fn code_emit(is: Seq<Instr>, a: int, e: ast::Expr) -> bool {
    0 <= a && a + size_emit(e) <= is.len() && if tail_call(e) {
        code_expr(is, a, *e->Call_0.receiver) && is[a + size_expr(*e->Call_0.receiver)] == Instr::EmitWith(e->Call_0.name, expr_span(e))
    } else { code_expr(is, a, e) && is[a + size_expr(e)] == Instr::Emit(expr_span(e)) }
}
spec fn code_stmt(is: Seq<Instr>, a: int, st: ast::Stmt) -> bool decreases st, 0nat {
    0 <= a && a + size_stmt(st) <= is.len() && match st {
        ast::Stmt::Raw(sp) => is[a] == Instr::EmitRaw(sp),
        ast::Stmt::InlineExpr(ie) => code_emit(is, a, ie.expr),
        ast::Stmt::Include(inc) => match inc.globals {
            Some(g) => code_expr(is, a, g) && is[a + size_expr(g)] == Instr::IncludeWith(inc.name),
            None => is[a] == Instr::Include(inc.name),
        },
        ast::Stmt::IfElse(ie) => {
            let c = a + size_expr(ie.cond);
            let t = c + 1 + size_all(ie.then_branch);
            &&& code_expr(is, a, ie.cond)
            &&& code_scope(is, c + 1, ie.then_branch, ie.then_branch.stmts@.len())
            &&& match ie.else_branch {
                Some(e) => is[c] == (if ie.not { Instr::JumpIfTrue((t + 1) as usize) } else { Instr::JumpIfFalse((t + 1) as usize) })
                    && is[t] == Instr::Jump((t + 1 + size_all(e)) as usize) && code_scope(is, t + 1, e, e.stmts@.len()),
                None => is[c] == (if ie.not { Instr::JumpIfTrue(t as usize) } else { Instr::JumpIfFalse(t as usize) }),
            }
        },
        ast::Stmt::ForLoop(f) => {
            let c = a + size_expr(f.iterable);
            let e = c + 2 + size_all(f.body);
            &&& code_expr(is, a, f.iterable)
            &&& is[c] == Instr::LoopStart(f.vars, expr_span(f.iterable))
            &&& is[c + 1] == Instr::LoopNext((e + 1) as usize)
            &&& code_scope(is, c + 2, f.body, f.body.stmts@.len())
            &&& is[e] == Instr::Jump((c + 1) as usize)
        },
        ast::Stmt::With(w) => {
            let c = a + size_expr(w.expr);
            &&& code_expr(is, a, w.expr)
            &&& is[c] == Instr::WithStart(w.name)
            &&& code_scope(is, c + 1, w.body, w.body.stmts@.len())
            &&& is[c + 1 + size_all(w.body)] == Instr::WithEnd
        },
    }
}
spec fn code_scope(is: Seq<Instr>, a: int, sc: ast::Scope, k: nat) -> bool decreases sc, k {
    0 <= a && a + size_scope(sc, k) <= is.len() && (k == 0 || (k <= sc.stmts@.len()
        && code_scope(is, a, sc, (k - 1) as nat) && code_stmt(is, a + size_scope(sc, (k - 1) as nat), sc.stmts@[k - 1])))
}
spec fn code_all(is: Seq<Instr>, a: int, sc: ast::Scope) -> bool { code_scope(is, a, sc, sc.stmts@.len()) }

// code only depends on the instructions it occupies
spec fn same(is: Seq<Instr>, js: Seq<Instr>, a: int, b: int) -> bool {
    b <= js.len() && forall|i: int| a <= i < b ==> is[i] == #[trigger] js[i]
}
broadcast proof fn same_expr(is: Seq<Instr>, js: Seq<Instr>, a: int, e: ast::Expr)
    requires #[trigger] code_expr(is, a, e), same(is, js, a, a + size_expr(e))
    ensures #[trigger] code_expr(js, a, e)
    decreases e
{
    if let ast::Expr::Call(c) = e { same_expr(is, js, a, *c.receiver); assert(js[a + size_expr(*c.receiver)] == is[a + size_expr(*c.receiver)]); }
}
proof fn same_emit(is: Seq<Instr>, js: Seq<Instr>, a: int, e: ast::Expr)
    requires code_emit(is, a, e), same(is, js, a, a + size_emit(e))
    ensures code_emit(js, a, e)
{
    if tail_call(e) { same_expr(is, js, a, *e->Call_0.receiver); } else { same_expr(is, js, a, e); }
}
broadcast proof fn same_stmt(is: Seq<Instr>, js: Seq<Instr>, a: int, st: ast::Stmt)
    requires #[trigger] code_stmt(is, a, st), same(is, js, a, a + size_stmt(st))
    ensures #[trigger] code_stmt(js, a, st)
    decreases st, 0nat
{
    match st {
        ast::Stmt::Raw(sp) => {}
        ast::Stmt::InlineExpr(ie) => { same_emit(is, js, a, ie.expr); }
        ast::Stmt::Include(inc) => { if inc.globals is Some { same_expr(is, js, a, inc.globals->Some_0); } }
        ast::Stmt::IfElse(ie) => {
            let c = a + size_expr(ie.cond);
            same_expr(is, js, a, ie.cond);
            same_scope(is, js, c + 1, ie.then_branch, ie.then_branch.stmts@.len());
            if let Some(e) = ie.else_branch { same_scope(is, js, c + 2 + size_all(ie.then_branch), e, e.stmts@.len()); }
        }
        ast::Stmt::ForLoop(f) => {
            same_expr(is, js, a, f.iterable);
            same_scope(is, js, a + size_expr(f.iterable) + 2, f.body, f.body.stmts@.len());
        }
        ast::Stmt::With(w) => {
            same_expr(is, js, a, w.expr);
            same_scope(is, js, a + size_expr(w.expr) + 1, w.body, w.body.stmts@.len());
        }
    }
}
broadcast proof fn same_scope(is: Seq<Instr>, js: Seq<Instr>, a: int, sc: ast::Scope, k: nat)
    requires #[trigger] code_scope(is, a, sc, k), same(is, js, a, a + size_scope(sc, k))
    ensures #[trigger] code_scope(js, a, sc, k)
    decreases sc, k
{
    if k > 0 {
        same_scope(is, js, a, sc, (k - 1) as nat);
        same_stmt(is, js, a + size_scope(sc, (k - 1) as nat), sc.stmts@[k - 1]);
    }
}

// a statement of a well-formed tree
spec fn ok_stmt(st: ast::Stmt) -> bool { exists|s: Seq<u8>| wf_stmt(s, st) }
spec fn ok_scope(sc: ast::Scope) -> bool { exists|s: Seq<u8>| #[trigger] wf_all(s, sc) }
proof fn lemma_ok_expr(s: Seq<u8>, e: ast::Expr)
    requires wf_expr(s, e)
    ensures e is Base ==> (e->Base_0 is Var ==> e->Base_0->Var_0.path@.len() >= 1)
{}
proof fn lemma_ok_at(s: Seq<u8>, sc: ast::Scope, k: nat, i: int)
    requires wf_scope(s, sc, k), 0 <= i < k
    ensures wf_stmt(s, sc.stmts@[i]), k <= sc.stmts@.len()
    decreases k
{ if i < k - 1 { lemma_ok_at(s, sc, (k - 1) as nat, i); } }

// a template the engine hands out: the code of some tree over its own source
spec fn is_compiled_from(t: Template, sc: ast::Scope) -> bool {
    wf_all(bs(t.source), sc) && code_all(t.instrs@, 0, sc) && t.instrs@.len() == size_all(sc)
}
spec fn compiled(t: Template) -> bool { exists|sc: ast::Scope| is_compiled_from(t, sc) }
spec fn tree_of(t: Template) -> ast::Scope { choose|sc: ast::Scope| is_compiled_from(t, sc) }
} // verus!
