// The kinds of delimiters and the table of patterns a syntax is made of
verus! {
//@item src/types/syntax.rs Kind
//@attr #[derive(Clone, Copy)]
//@end
//@item src/types/syntax.rs Syntax
//@end
//@item src/types/syntax.rs SyntaxBuilder
//@end
type Pats = Seq<(Kind, Seq<u8>)>;
spec fn pview(v: Seq<(Kind, String)>) -> Pats { Seq::new(v.len(), |i: int| (v[i].0, sbytes(v[i].1))) }
spec fn hyphen() -> Seq<u8> { seq![45u8] }
// a pair of delimiters stands for four patterns: both, and both with a hyphen on the inside
spec fn pair_pats(d: Option<(&str, &str)>, begin: Kind, end: Kind, begin_trim: Kind, end_trim: Kind) -> Pats {
    match d { None => Seq::empty(), Some((b, e)) => seq![(begin, bs(b)), (end, bs(e)), (begin_trim, bs(b) + hyphen()), (end_trim, hyphen() + bs(e))] }
}
spec fn builder_pats(b: SyntaxBuilder) -> Pats {
    pair_pats(b.expr, Kind::BeginExpr, Kind::EndExpr, Kind::BeginExprTrim, Kind::EndExprTrim)
    + pair_pats(b.block, Kind::BeginBlock, Kind::EndBlock, Kind::BeginBlockTrim, Kind::EndBlockTrim)
    + pair_pats(b.comment, Kind::BeginComment, Kind::EndComment, Kind::BeginCommentTrim, Kind::EndCommentTrim)
}
// delimiters are never empty
spec fn some_text(d: Option<(&str, &str)>) -> bool { match d { None => true, Some((b, e)) => bs(b).len() > 0 && bs(e).len() > 0 } }
spec fn builder_ok(b: SyntaxBuilder) -> bool { some_text(b.expr) && some_text(b.block) && some_text(b.comment) }
spec fn pats_ok(p: Pats) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).1.len() > 0 }
spec fn kind_num(k: Kind) -> nat { k as nat }
} // verus!
