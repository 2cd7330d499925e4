// The syntax tree, and what it means for a tree to belong to a source text.
verus! {
mod ast {
use super::*;
//@item src/types/ast.rs Template
//@end
//@item src/types/ast.rs Scope
//@end
//@item src/types/ast.rs Stmt
//@end
//@item src/types/ast.rs InlineExpr
//@end
//@item src/types/ast.rs Include
//@end
//@item src/types/ast.rs String
//@end
//@item src/types/ast.rs IfElse
//@end
//@item src/types/ast.rs ForLoop
//@end
//@item src/types/ast.rs LoopVars
//@end
//@item src/types/ast.rs KeyValue
//@end
//@item src/types/ast.rs With
//@end
//@item src/types/ast.rs Expr
//@end
//@item src/types/ast.rs Call
//@end
//@item src/types/ast.rs Args
//@end
//@item src/types/ast.rs BaseExpr
//@end
//@item src/types/ast.rs Var
//@end
//@item src/types/ast.rs Member
//@end
//@item src/types/ast.rs AccessOp
//@end
//@item src/types/ast.rs Access
//@attr #[derive(Clone, Copy)]
//@end
//@item src/types/ast.rs Index
//@attr #[derive(Clone, Copy)]
//@end
//@item src/types/ast.rs Ident
//@attr #[derive(Clone, Copy)]
//@end
//@item src/types/ast.rs Literal
//@sub `crate :: Value` => `super::Value`
//@end
impl Var {
//@fn src/types/ast.rs Var::first
//@ret r
//@sub `self . path . first ( ) . unwrap ( )` => `&self.path[0]`
//@spec
    requires self.path@.len() >= 1
    ensures *r == self.path@[0]
//@end
//@fn src/types/ast.rs Var::last
//@ret r
//@sub `self . path . last ( ) . unwrap ( )` => `&self.path[self.path.len() - 1]`
//@spec
    requires self.path@.len() >= 1
    ensures *r == self.path@.last()
//@end
//@fn src/types/ast.rs Var::rest
//@ret r
//@sub `& self . path [ $a .. ]` => `vx_members_from(self.path.as_slice(), $a)`
//@spec
    requires self.path@.len() >= 1
    ensures r@ == self.path@.skip(1)
//@end
//@fn src/types/ast.rs Var::span
//@ret r
//@spec
    requires self.path@.len() >= 1
    ensures r == var_span(*self)
//@end
}
impl Access {
//@fn src/types/ast.rs Access::span
//@ret r
//@sub `const fn` => `fn`
//@spec
    ensures r == access_span(*self)
//@end
}
impl BaseExpr {
//@fn src/types/ast.rs BaseExpr::span
//@ret r
//@spec
    requires self is Var ==> self->Var_0.path@.len() >= 1
    ensures r == base_span(*self)
//@end
}
impl Expr {
//@fn src/types/ast.rs Expr::span
//@ret r
//@spec
    requires self is Base ==> (self->Base_0 is Var ==> self->Base_0->Var_0.path@.len() >= 1)
    ensures r == expr_span(*self)
//@end
}
impl Scope {
//@fn src/types/ast.rs Scope::new
//@ret r
//@sub `const fn` => `fn`
//@spec
    ensures r.stmts@.len() == 0
//@end
}
}

spec fn access_span(a: ast::Access) -> Span { match a { ast::Access::Index(k) => k.span, ast::Access::Key(k) => k.span } }
spec fn wf_member(s: Seq<u8>, m: ast::Member) -> bool { span_ok(s, m.span) && span_ok(s, access_span(m.access)) }
spec fn wf_path(s: Seq<u8>, p: Seq<ast::Member>) -> bool { forall|i: int| 0 <= i < p.len() ==> wf_member(s, #[trigger] p[i]) }
spec fn wf_var(s: Seq<u8>, v: ast::Var) -> bool { v.path@.len() >= 1 && wf_path(s, v.path@) && v.path@[0].access is Key }
spec fn wf_base(s: Seq<u8>, e: ast::BaseExpr) -> bool {
    match e { ast::BaseExpr::Var(v) => wf_var(s, v), ast::BaseExpr::Literal(l) => span_ok(s, l.span) }
}
spec fn wf_args(s: Seq<u8>, a: Seq<ast::BaseExpr>) -> bool { forall|i: int| 0 <= i < a.len() ==> wf_base(s, #[trigger] a[i]) }

spec fn combined(a: Span, b: Span) -> Span {
    Span { m: if a.m <= b.m { a.m } else { b.m }, n: if a.n >= b.n { a.n } else { b.n } }
}
spec fn base_span(e: ast::BaseExpr) -> Span {
    match e { ast::BaseExpr::Var(v) => var_span(v), ast::BaseExpr::Literal(l) => l.span }
}
spec fn var_span(v: ast::Var) -> Span { combined(v.path@[0].span, v.path@.last().span) }
spec fn expr_span(e: ast::Expr) -> Span { match e { ast::Expr::Base(b) => base_span(b), ast::Expr::Call(c) => c.span } }

impl Span {
//@fn src/types/span.rs Span::combine
//@ret r
//@sub `min ( $a , $b )` => `(if $a <= $b { $a } else { $b })`
//@sub `max ( $a , $b )` => `(if $a >= $b { $a } else { $b })`
//@sub `Self { m , n }` => `Span { m, n }`
//@spec
    ensures r == combined(self, other)
//@end
}
proof fn lemma_combined_ok(s: Seq<u8>, a: Span, b: Span)
    requires span_ok(s, a), span_ok(s, b)
    ensures span_ok(s, combined(a, b))
{}

// TRUSTED: slicing a slice panics when the start is past the end
#[verifier::external_body]
fn vx_members_from(s: &[ast::Member], i: usize) -> (r: &[ast::Member]) requires i <= s@.len() ensures r@ == s@.skip(i as int) { &s[i..] }
} // verus!
