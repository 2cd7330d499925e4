// C18: which patterns a syntax configuration stands for
verus! {
#[verifier::external_body]
fn vx_cat(a: &str, b: &str) -> (r: String) ensures sbytes(r) == bs(a) + bs(b) { unimplemented!() }
proof fn lemma_literals()
    ensures bs("-") == hyphen(), bs("{{") == seq![123u8, 123], bs("}}") == seq![125u8, 125], bs("{%") == seq![123u8, 37], bs("%}") == seq![37u8, 125], bs("{#") == seq![123u8, 35], bs("#}") == seq![35u8, 125]
{
    reveal_strlit("-"); reveal_strlit("{{"); reveal_strlit("}}"); reveal_strlit("{%"); reveal_strlit("%}"); reveal_strlit("{#"); reveal_strlit("#}");
    lemma_lit_ascii("-"); lemma_lit_ascii("{{"); lemma_lit_ascii("}}"); lemma_lit_ascii("{%"); lemma_lit_ascii("%}"); lemma_lit_ascii("{#"); lemma_lit_ascii("#}");
    assert(bs("-") =~= hyphen());
    assert(bs("{{") =~= seq![123u8, 123]); assert(bs("}}") =~= seq![125u8, 125]); assert(bs("{%") =~= seq![123u8, 37]);
    assert(bs("%}") =~= seq![37u8, 125]); assert(bs("{#") =~= seq![123u8, 35]); assert(bs("#}") =~= seq![35u8, 125]);
}
impl<'a> SyntaxBuilder<'a> {
//@fn src/types/syntax.rs SyntaxBuilder::new
//@ret r
//@spec
    ensures r.expr is None, r.block is None, r.comment is None
//@end
//@fn src/types/syntax.rs SyntaxBuilder::expr
//@ret r
//@spec
    // documented to panic otherwise
    requires bs(begin_expr).len() > 0, bs(end_expr).len() > 0
    ensures *r == (SyntaxBuilder { expr: Some((begin_expr, end_expr)), ..*old(self) }), *final(self) == *final(r), builder_ok(*old(self)) ==> builder_ok(*r)
//@end
//@fn src/types/syntax.rs SyntaxBuilder::block
//@ret r
//@spec
    requires bs(begin_block).len() > 0, bs(end_block).len() > 0
    ensures *r == (SyntaxBuilder { block: Some((begin_block, end_block)), ..*old(self) }), *final(self) == *final(r), builder_ok(*old(self)) ==> builder_ok(*r)
//@end
//@fn src/types/syntax.rs SyntaxBuilder::comment
//@ret r
//@spec
    requires bs(begin_comment).len() > 0, bs(end_comment).len() > 0
    ensures *r == (SyntaxBuilder { comment: Some((begin_comment, end_comment)), ..*old(self) }), *final(self) == *final(r), builder_ok(*old(self)) ==> builder_ok(*r)
//@end
//@fn src/types/syntax.rs SyntaxBuilder::build
//@ret r
//@sub `Vec :: new ( )` => `Vec::<(Kind, String)>::new()`
//@sub `$x_id . into ( )` => `vx_to_owned($x_id)`
//@sub `format ! ( "{begin}-" )` => `vx_cat(begin, "-")`
//@sub `format ! ( "-{end}" )` => `vx_cat("-", end)`
//@sub `format ! ( "-{begin}" )` => `vx_cat("-", begin)`
//@sub `format ! ( "{end}-" )` => `vx_cat(end, "-")`
//@spec
    ensures pview(r.patterns@) == builder_pats(*self), builder_ok(*self) ==> pats_ok(pview(r.patterns@))
//@start
    proof { lemma_literals(); }
//@tail
    proof { assert(pview(vx_ret.patterns@) =~= builder_pats(*self)); }
//@end
}
impl<'a> Syntax<'a> {
//@fn src/types/syntax.rs Syntax::builder
//@ret r
//@spec
    ensures r.expr is None, r.block is None, r.comment is None
//@end
//@fn src/types/syntax.rs <Default for Syntax>::default
//@ret r
//@sub `Syntax :: builder ( ) . expr (` => `let mut vx_b = Syntax::builder(); vx_b.expr(`
//@sub `Self` => `Syntax<'a>`
//@spec
    ensures pats_ok(pview(r.patterns@)), pview(r.patterns@) == default_pats()
//@start
    proof { lemma_literals(); }
//@end
}
spec fn default_pats() -> Pats { builder_pats(SyntaxBuilder { expr: Some(("{{", "}}")), block: Some(("{%", "%}")), comment: Some(("{#", "#}")) }) }
impl Kind {
//@fn src/types/syntax.rs Kind::from_usize
//@ret r
//@spec
    requires id < 12
    ensures kind_num(r) == id
//@end
}
//@fn src/types/syntax.rs <From<Kind> for usize>::from
//@sig fn kind_to_usize(k: Kind) -> usize
//@ret r
//@spec
    ensures r == kind_num(k), r < 12
//@end
// the number of a kind names that kind
proof fn thm_kind_numbers(a: Kind, b: Kind) requires kind_num(a) == kind_num(b) ensures a == b {}
} // verus!
