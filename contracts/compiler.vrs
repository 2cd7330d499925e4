// C05: the program a tree is compiled to is the code of that tree
verus! {
//@item src/compile/mod.rs Compiler
//@end
// TRUSTED: Vec's IndexMut
#[verifier::external_body]
fn vx_instr_mut(v: &mut Vec<Instr>, i: usize) -> (r: &mut Instr)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ &mut v[i] }

// what the parts of a well-formed statement satisfy
proof fn lemma_ok_stmt(s: Seq<u8>, st: ast::Stmt)
    requires wf_stmt(s, st)
    ensures match st {
        ast::Stmt::InlineExpr(ie) => ie.expr is Base ==> (ie.expr->Base_0 is Var ==> ie.expr->Base_0->Var_0.path@.len() >= 1),
        ast::Stmt::IfElse(ie) => ok_scope(ie.then_branch) && (ie.else_branch is Some ==> ok_scope(ie.else_branch->Some_0)),
        ast::Stmt::ForLoop(f) => ok_scope(f.body) && (f.iterable is Base ==> (f.iterable->Base_0 is Var ==> f.iterable->Base_0->Var_0.path@.len() >= 1)),
        ast::Stmt::With(w) => ok_scope(w.body),
        _ => true,
    }
{
    match st {
        ast::Stmt::IfElse(ie) => { assert(wf_all(s, ie.then_branch)); if ie.else_branch is Some { assert(wf_all(s, ie.else_branch->Some_0)); } }
        ast::Stmt::ForLoop(f) => { assert(wf_all(s, f.body)); }
        ast::Stmt::With(w) => { assert(wf_all(s, w.body)); }
        _ => {}
    }
}
proof fn lemma_part_smaller(sc: ast::Scope, i: int)
    requires 0 <= i < sc.stmts@.len()
    ensures decreases_to!(sc => sc.stmts@[i])
{}
// code of the parts, in the right places, is code of the whole
proof fn build_expr(is: Seq<Instr>, a: int, e: ast::Expr)
    requires 0 <= a, a + size_expr(e) <= is.len(),
        e is Base ==> code_expr(is, a, e),
        e is Call ==> code_expr(is, a, *e->Call_0.receiver) && is[a + size_expr(*e->Call_0.receiver)] == Instr::Apply(e->Call_0.name, e->Call_0.span, e->Call_0.args)
    ensures code_expr(is, a, e)
{}
proof fn build_emit(is: Seq<Instr>, js: Seq<Instr>, a: int, e: ast::Expr)
    requires code_expr(js, a, e), js.len() == a + size_expr(e),
        is == (match js.last() {
            Instr::Apply(f, _, None) => js.drop_last().push(Instr::EmitWith(f, expr_span(e))),
            _ => js.push(Instr::Emit(expr_span(e))),
        })
    ensures code_emit(is, a, e), is.len() == a + size_emit(e)
{
    if let ast::Expr::Call(c) = e { same_expr(js, is, a, *c.receiver); }
    if !tail_call(e) { same_expr(js, is, a, e); }
}
proof fn build_stmt(is: Seq<Instr>, a: int, st: ast::Stmt)
    requires 0 <= a, a + size_stmt(st) <= is.len(), match st {
        ast::Stmt::Raw(sp) => is[a] == Instr::EmitRaw(sp),
        ast::Stmt::InlineExpr(ie) => code_emit(is, a, ie.expr),
        ast::Stmt::Include(inc) => match inc.globals {
            Some(g) => code_expr(is, a, g) && is[a + size_expr(g)] == Instr::IncludeWith(inc.name),
            None => is[a] == Instr::Include(inc.name),
        },
        ast::Stmt::IfElse(ie) => {
            let c = a + size_expr(ie.cond);
            let t = c + 1 + size_all(ie.then_branch);
            &&& code_expr(is, a, ie.cond)
            &&& code_all(is, c + 1, ie.then_branch)
            &&& match ie.else_branch {
                Some(e) => is[c] == (if ie.not { Instr::JumpIfTrue((t + 1) as usize) } else { Instr::JumpIfFalse((t + 1) as usize) })
                    && is[t] == Instr::Jump((t + 1 + size_all(e)) as usize) && code_all(is, t + 1, e),
                None => is[c] == (if ie.not { Instr::JumpIfTrue(t as usize) } else { Instr::JumpIfFalse(t as usize) }),
            }
        },
        ast::Stmt::ForLoop(f) => {
            let c = a + size_expr(f.iterable);
            let e = c + 2 + size_all(f.body);
            &&& code_expr(is, a, f.iterable)
            &&& is[c] == Instr::LoopStart(f.vars, expr_span(f.iterable))
            &&& is[c + 1] == Instr::LoopNext((e + 1) as usize)
            &&& code_all(is, c + 2, f.body)
            &&& is[e] == Instr::Jump((c + 1) as usize)
        },
        ast::Stmt::With(w) => {
            let c = a + size_expr(w.expr);
            &&& code_expr(is, a, w.expr)
            &&& is[c] == Instr::WithStart(w.name)
            &&& code_all(is, c + 1, w.body)
            &&& is[c + 1 + size_all(w.body)] == Instr::WithEnd
        },
    }
    ensures code_stmt(is, a, st)
{}
spec fn grown(before: Seq<Instr>, after: Seq<Instr>, n: nat) -> bool { after.len() == before.len() + n && same(before, after, 0, before.len() as int) }
spec fn is_jump(i: Instr) -> bool { i is Jump || i is JumpIfTrue || i is JumpIfFalse || i is LoopNext }
spec fn with_target(i: Instr, n: usize) -> Instr {
    match i { Instr::Jump(_) => Instr::Jump(n), Instr::JumpIfTrue(_) => Instr::JumpIfTrue(n), Instr::JumpIfFalse(_) => Instr::JumpIfFalse(n), Instr::LoopNext(_) => Instr::LoopNext(n), x => x }
}
impl Compiler {
    spec fn is(&self) -> Seq<Instr> { self.instrs@ }
//@fn src/compile/mod.rs Compiler::new
//@ret r
//@sub `Self {` => `Compiler {`
//@spec
    ensures r.is().len() == 0
//@end
//@fn src/compile/mod.rs Compiler::push
//@ret r
//@spec
    ensures r == old(self).is().len(), final(self).is() == old(self).is().push(instr)
//@end
//@fn src/compile/mod.rs Compiler::update_jump
//@sub `match & mut self . instrs [ $i ] {` => `match vx_instr_mut(&mut self.instrs, $i) {`
//@sub `{ $a | $b | $c | $d => $j_id , _ =>` => `{ $a => $j_id, $b => $j_id, $c => $j_id, $d => $j_id, _ =>`
//@spec
    requires i < old(self).is().len(), is_jump(old(self).is()[i as int])
    ensures final(self).is() == old(self).is().update(i as int, with_target(old(self).is()[i as int], old(self).is().len() as usize))
//@end
//@fn src/compile/mod.rs Compiler::compile_base_expr
//@spec
    ensures grown(old(self).is(), final(self).is(), 1), code_expr(final(self).is(), old(self).is().len() as int, ast::Expr::Base(base_expr))
//@end
//@fn src/compile/mod.rs Compiler::compile_expr
//@spec
    ensures grown(old(self).is(), final(self).is(), size_expr(expr)), code_expr(final(self).is(), old(self).is().len() as int, expr)
    decreases expr
//@start
    broadcast use same_expr;
    let ghost vx_e = expr;
//@tail
    proof { build_expr(self.is(), old(self).is().len() as int, vx_e); }
//@end
//@fn src/compile/mod.rs Compiler::pop_emit_expr
//@spec
    requires old(self).is().len() > 0
    ensures final(self).is() == (match old(self).is().last() {
        Instr::Apply(f, _, None) => old(self).is().drop_last().push(Instr::EmitWith(f, span)),
        _ => old(self).is().push(Instr::Emit(span)),
    }),
    forall|a: int, e: ast::Expr| #[trigger] code_expr(old(self).is(), a, e) && old(self).is().len() == a + size_expr(e) && span == expr_span(e)
        ==> code_emit(final(self).is(), a, e) && final(self).is().len() == a + size_emit(e)
//@tail
    proof {
        assert forall|a: int, e: ast::Expr| #[trigger] code_expr(old(self).is(), a, e) && old(self).is().len() == a + size_expr(e) && span == expr_span(e)
            implies code_emit(self.is(), a, e) && self.is().len() == a + size_emit(e) by { build_emit(self.is(), old(self).is(), a, e); }
    }
//@end
//@fn src/compile/mod.rs Compiler::compile_stmt
//@attr #[verifier::rlimit(40)]
//@spec
    requires ok_stmt(stmt)
    ensures grown(old(self).is(), final(self).is(), size_stmt(stmt)), code_stmt(final(self).is(), old(self).is().len() as int, stmt)
    decreases stmt, 0nat
//@start
    broadcast use same_expr, same_stmt, same_scope;
    let ghost vx_st = stmt;
    proof { lemma_ok_stmt(choose|s: Seq<u8>| wf_stmt(s, stmt), stmt); }
//@tail
    proof { build_stmt(self.is(), old(self).is().len() as int, vx_st); }
//@end
//@fn src/compile/mod.rs Compiler::compile_scope
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires ok_scope(scope)
    ensures grown(old(self).is(), final(self).is(), size_all(scope)), code_all(final(self).is(), old(self).is().len() as int, scope)
    decreases scope, 1nat
//@sub `for $s_id in scope . stmts { $b }` => `let ghost vx_all = scope; let ghost vx_a = self.is().len() as int; let mut vx_v = scope.stmts; let ghost mut vx_k: nat = 0; while vx_v.len() > 0 invariant vx_k + vx_v@.len() == vx_all.stmts@.len(), vx_v@ == vx_all.stmts@.skip(vx_k as int), ok_scope(vx_all), grown(old(self).is(), self.is(), size_scope(vx_all, vx_k)), code_scope(self.is(), old(self).is().len() as int, vx_all, vx_k) decreases vx_v@.len() { broadcast use same_expr, same_stmt, same_scope; let ghost vx_b = self.is(); proof { assert(vx_v@[0] == vx_all.stmts@[vx_k as int]); lemma_ok_at(choose|s: Seq<u8>| #[trigger] wf_all(s, vx_all), vx_all, vx_all.stmts@.len(), vx_k as int); assert(vx_v@.remove(0) =~= vx_all.stmts@.skip(vx_k as int + 1)); } let $s_id = vx_v.remove(0); proof { lemma_part_smaller(vx_all, vx_k as int); assert($s_id == vx_all.stmts@[vx_k as int]); } $b proof { vx_k = vx_k + 1; same_scope(vx_b, self.is(), old(self).is().len() as int, vx_all, (vx_k - 1) as nat); } }`
//@end
//@fn src/compile/mod.rs Compiler::compile_template
//@ret r
//@sig fn compile_template<'s>(vx_self: Compiler, source: &'s str, template: ast::Template) -> Template<'s>
//@sub `self . $f_id` => `vx_self.$f_id`
//@spec
    requires vx_self.is().len() == 0, wf_all(bs(source), template.scope)
    ensures is_compiled_from(r, template.scope), r.source == source
//@start
    let mut vx_self = vx_self;
//@end
}
} // verus!
