// Blocks: from the tokens of a template to its tree
verus! {
// ---------------------------------------------------------------- what has been read: open blocks and the scopes they are filling
spec fn ev_of(b: PState) -> GEv {
    match b { PState::If { not, cond, .. } => GEv::If(not, gexpr(cond)), PState::For { vars, iterable, .. } => GEv::For(gvars(vars), gexpr(iterable)), PState::With { expr, name, .. } => GEv::With(gexpr(expr), name.span) }
}
spec fn frame(b: PState) -> Frame {
    match b { PState::If { is_else_if, has_else, span, .. } => Frame::If(is_else_if, has_else, span), PState::For { span, .. } => Frame::For(span), PState::With { span, .. } => Frame::With(span) }
}
spec fn frames(b: Seq<PState>) -> Seq<Frame> { b.map_values(|x: PState| frame(x)) }
// an if that has had its else fills a second scope
spec fn in_else(b: PState) -> bool { b is If && b->If_has_else }
spec fn width(b: PState) -> int { if in_else(b) { 2 } else { 1 } }
spec fn widths(b: Seq<PState>) -> int decreases b.len() { if b.len() == 0 { 0 } else { widths(b.drop_last()) + width(b.last()) } }
spec fn out(b: Seq<PState>, sc: Seq<ast::Scope>) -> Seq<GEv>
    decreases b.len()
{
    if b.len() == 0 { flat(sc.last()) }
    else if in_else(b.last()) { out(b.drop_last(), sc.drop_last().drop_last()).push(ev_of(b.last())) + flat(sc[sc.len() - 2]).push(GEv::Else) + flat(sc.last()) }
    else { out(b.drop_last(), sc.drop_last()).push(ev_of(b.last())) + flat(sc.last()) }
}
spec fn wf_state(s: Seq<u8>, b: PState) -> bool {
    match b { PState::If { cond, span, .. } => wf_expr(s, cond) && span_ok(s, span), PState::For { vars, iterable, span } => wf_loop_vars(s, vars) && wf_expr(s, iterable) && span_ok(s, span),
        PState::With { expr, name, span } => wf_expr(s, expr) && span_ok(s, name.span) && span_ok(s, span) }
}
spec fn wf_open(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>) -> bool {
    sc.len() == 1 + widths(b) && (forall|i: int| 0 <= i < b.len() ==> wf_state(s, #[trigger] b[i])) && (forall|i: int| 0 <= i < sc.len() ==> wf_all(s, #[trigger] sc[i]))
}
spec fn with_else(b: PState) -> PState { match b { PState::If { is_else_if, not, cond, span, has_else } => PState::If { is_else_if, not, cond, span, has_else: true }, _ => b } }

proof fn lemma_widths(b: Seq<PState>) ensures widths(b) >= b.len() decreases b.len() { if b.len() > 0 { lemma_widths(b.drop_last()); } }
proof fn lemma_frames(b: Seq<PState>)
    ensures frames(b).len() == b.len(), b.len() > 0 ==> frames(b).last() == frame(b.last()) && frames(b.drop_last()) == frames(b).drop_last() && frames(b)[0] == frame(b[0])
{ if b.len() > 0 { assert(frames(b.drop_last()) =~= frames(b).drop_last()); } }
// the first k statements are the same
proof fn lemma_flat_same(a: ast::Scope, b: ast::Scope, k: nat)
    requires k <= a.stmts@.len(), k <= b.stmts@.len(), forall|i: int| 0 <= i < k ==> a.stmts@[i] == #[trigger] b.stmts@[i]
    ensures flat_scope(a, k) == flat_scope(b, k)
    decreases k
{ if k > 0 { lemma_flat_same(a, b, (k - 1) as nat); assert(a.stmts@[k - 1] == b.stmts@[k - 1]); } }
proof fn lemma_wf_same(s: Seq<u8>, a: ast::Scope, b: ast::Scope, k: nat)
    requires k <= a.stmts@.len(), k <= b.stmts@.len(), forall|i: int| 0 <= i < k ==> a.stmts@[i] == #[trigger] b.stmts@[i], wf_scope(s, a, k)
    ensures wf_scope(s, b, k)
    decreases k
{ if k > 0 { lemma_wf_same(s, a, b, (k - 1) as nat); assert(a.stmts@[k - 1] == b.stmts@[k - 1]); } }
proof fn lemma_flat_push(s: Seq<u8>, a: ast::Scope, b: ast::Scope, st: ast::Stmt)
    requires b.stmts@ == a.stmts@.push(st), wf_all(s, a), wf_stmt(s, st)
    ensures flat(b) == flat(a) + flat_stmt(st), wf_all(s, b)
{ lemma_flat_same(a, b, a.stmts@.len()); lemma_wf_same(s, a, b, a.stmts@.len()); assert(b.stmts@[a.stmts@.len() as int] == st); }
proof fn lemma_flat_empty(s: Seq<u8>, a: ast::Scope) requires a.stmts@.len() == 0 ensures flat(a) == Seq::<GEv>::empty(), wf_all(s, a) {}

// scopes after a statement
spec fn pushed(sc: Seq<ast::Scope>, sc2: Seq<ast::Scope>, st: ast::Stmt) -> bool {
    sc.len() > 0 && sc2.len() == sc.len() && sc2.drop_last() == sc.drop_last() && sc2.last().stmts@ == sc.last().stmts@.push(st)
}
proof fn lemma_pushed(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>, sc2: Seq<ast::Scope>, st: ast::Stmt)
    requires wf_open(s, b, sc), pushed(sc, sc2, st), wf_stmt(s, st)
    ensures wf_open(s, b, sc2), out(b, sc2) == out(b, sc) + flat_stmt(st)
{
    lemma_flat_push(s, sc.last(), sc2.last(), st);
    assert forall|i: int| 0 <= i < sc2.len() implies wf_all(s, #[trigger] sc2[i]) by { if i < sc2.len() - 1 { assert(sc2[i] == sc2.drop_last()[i]); assert(sc[i] == sc.drop_last()[i]); } }
    lemma_widths(b);
    if b.len() > 0 && in_else(b.last()) {
        lemma_widths(b.drop_last());
        assert(sc2[sc2.len() - 2] == sc2.drop_last().last()); assert(sc[sc.len() - 2] == sc.drop_last().last());
    }
    assert(out(b, sc2) =~= out(b, sc) + flat_stmt(st));
}
// a block is opened
proof fn lemma_opened(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>, x: PState, e: ast::Scope)
    requires wf_open(s, b, sc), wf_state(s, x), !in_else(x), e.stmts@.len() == 0
    ensures wf_open(s, b.push(x), sc.push(e)), out(b.push(x), sc.push(e)) == out(b, sc).push(ev_of(x)), frames(b.push(x)) == frames(b).push(frame(x))
{
    lemma_flat_empty(s, e);
    assert(b.push(x).drop_last() =~= b); assert(sc.push(e).drop_last() =~= sc);
    assert(out(b.push(x), sc.push(e)) =~= out(b, sc).push(ev_of(x)));
    assert(frames(b.push(x)) =~= frames(b).push(frame(x)));
}
// an open if goes on with its else
proof fn lemma_else(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>, b2: Seq<PState>, e: ast::Scope)
    requires wf_open(s, b, sc), b.len() > 0, b.last() is If, !in_else(b.last()), b2 == b.drop_last().push(with_else(b.last())), e.stmts@.len() == 0
    ensures wf_open(s, b2, sc.push(e)), out(b2, sc.push(e)) == out(b, sc).push(GEv::Else), open_if(frames(b)), frames(b2) == had_else(frames(b))
{
    lemma_flat_empty(s, e); lemma_frames(b); lemma_widths(b);
    assert(b2.drop_last() =~= b.drop_last()); assert(sc.push(e).drop_last() =~= sc);
    assert forall|i: int| 0 <= i < b2.len() implies wf_state(s, #[trigger] b2[i]) by { assert(wf_state(s, b[i])); }
    assert(sc.push(e)[sc.push(e).len() - 2] == sc.last());
    assert(out(b2, sc.push(e)) =~= out(b, sc).push(GEv::Else));
    assert(frames(b2) =~= had_else(frames(b)));
}
spec fn end_ev(b: PState) -> GEv { match b { PState::If { .. } => GEv::EndIf, PState::For { .. } => GEv::EndFor, PState::With { .. } => GEv::EndWith } }
// the statement a block has become
spec fn closes(b: PState, st: ast::Stmt, one: ast::Scope, two: ast::Scope) -> bool {
    match b {
        PState::If { not, cond, has_else, .. } => st is IfElse && st->IfElse_0.not == not && st->IfElse_0.cond == cond && (if has_else { st->IfElse_0.then_branch == one && st->IfElse_0.else_branch == Some(two) } else { st->IfElse_0.then_branch == two && st->IfElse_0.else_branch is None }),
        PState::For { vars, iterable, .. } => st is ForLoop && st->ForLoop_0.vars == vars && st->ForLoop_0.iterable == iterable && st->ForLoop_0.body == two,
        PState::With { expr, name, .. } => st is With && st->With_0.expr == expr && st->With_0.name == name && st->With_0.body == two,
    }
}
proof fn lemma_closed(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>, sc2: Seq<ast::Scope>, st: ast::Stmt)
    requires wf_open(s, b, sc), b.len() > 0, sc2 == (if in_else(b.last()) { sc.drop_last().drop_last() } else { sc.drop_last() }),
        sc.len() >= 2, closes(b.last(), st, sc[sc.len() - 2], sc.last())
    ensures wf_open(s, b.drop_last(), sc2), wf_stmt(s, st), sc2.len() > 0, out(b.drop_last(), sc2) + flat_stmt(st) == out(b, sc).push(end_ev(b.last())), frames(b.drop_last()) == frames(b).drop_last(), frames(b).len() == b.len(), frames(b).last() == frame(b.last())
{
    lemma_frames(b); lemma_widths(b); lemma_widths(b.drop_last());
    assert(wf_state(s, b.last())); assert(wf_all(s, sc.last())); assert(wf_all(s, sc[sc.len() - 2]));
    assert forall|i: int| 0 <= i < sc2.len() implies wf_all(s, #[trigger] sc2[i]) by { assert(sc2[i] == sc[i]); }
    assert forall|i: int| 0 <= i < b.len() - 1 implies wf_state(s, #[trigger] b.drop_last()[i]) by { assert(wf_state(s, b[i])); }
    assert(out(b.drop_last(), sc2) + flat_stmt(st) =~= out(b, sc).push(end_ev(b.last())));
}
fn vx_push_last(scopes: &mut Vec<ast::Scope>, st: ast::Stmt)
    requires old(scopes)@.len() > 0
    ensures pushed(old(scopes)@, final(scopes)@, st)
{
    let mut last = scopes.pop().unwrap();
    last.stmts.push(st);
    scopes.push(last);
    proof { assert(scopes@.drop_last() =~= old(scopes)@.drop_last()); }
}
// TRUSTED: Vec::last_mut
proof fn lemma_open(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>)
    requires wf_open(s, b, sc)
    ensures sc.len() >= 1 + b.len(), b.len() > 0 && in_else(b.last()) ==> sc.len() >= 3, b.len() > 0 ==> wf_state(s, b.last()) && span_ok(s, frame_span(frame(b[0]))),
        b.len() == 0 ==> sc.len() == 1 && out(b, sc) == flat(sc[0]) && wf_all(s, sc[0]),
        frames(b).len() == b.len(), b.len() > 0 ==> frames(b).last() == frame(b.last()) && frames(b)[0] == frame(b[0])
{ lemma_widths(b); lemma_frames(b); if b.len() > 0 { lemma_widths(b.drop_last()); assert(wf_state(s, b[0])); } }
proof fn lemma_start(s: Seq<u8>, b: Seq<PState>, sc: Seq<ast::Scope>)
    requires b.len() == 0, sc.len() == 1, sc[0].stmts@.len() == 0
    ensures wf_open(s, b, sc), out(b, sc) == Seq::<GEv>::empty(), frames(b) == Seq::<Frame>::empty()
{ lemma_flat_empty(s, sc[0]); assert(frames(b) =~= Seq::empty()); }
spec fn leaf_ev(st: ast::Stmt) -> GEv {
    match st { ast::Stmt::Raw(sp) => GEv::Raw(sp), ast::Stmt::InlineExpr(ie) => GEv::Expr(gexpr(ie.expr), ie.span), ast::Stmt::Include(i) => GEv::Include(sbytes(i.name.name), i.name.span, gopt(i.globals)), _ => GEv::Else }
}
proof fn lemma_leaf(s: Seq<u8>, evs: Seq<GEv>, st: ast::Stmt)
    ensures st is Raw || st is InlineExpr || st is Include ==> evs + flat_stmt(st) == evs.push(leaf_ev(st)),
        st is Raw && span_ok(s, st->Raw_0) ==> wf_stmt(s, st), st is InlineExpr && wf_expr(s, st->InlineExpr_0.expr) ==> wf_stmt(s, st),
        st is Include && span_ok(s, st->Include_0.name.span) && (st->Include_0.globals is Some ==> wf_expr(s, st->Include_0.globals->Some_0)) ==> wf_stmt(s, st)
{ if st is Raw || st is InlineExpr || st is Include { assert(evs + flat_stmt(st) =~= evs.push(leaf_ev(st))); } }
broadcast proof fn lemma_inside(r: Toks)
    requires #[trigger] inside(r), r.len() > 0, r[0].0 is EndExpr || r[0].0 is EndBlock
    ensures placed(after(r), Place::Text)
{}
broadcast proof fn lemma_tok_span(s: Seq<u8>, t: Token, sp: Span) requires #[trigger] tok_ok(s, t, sp) ensures span_ok(s, sp) {}
// what text is followed by
proof fn lemma_places(r: Toks)
    requires placed(r, Place::Text)
    ensures r.len() > 0 ==> match r[0].0 {
        Token::Raw => placed(after(r), Place::Text),
        Token::BeginExpr => inside(after(r)),
        Token::BeginBlock => inside(after(r)),
        Token::BeginComment => (after(r).len() > 0 && after(r)[0].0 is EndComment ==> placed(after(after(r)), Place::Text))
            && (after(r).len() > 0 && after(r)[0].0 is Raw && after(after(r)).len() > 0 && after(after(r))[0].0 is EndComment ==> placed(after(after(after(r))), Place::Text)),
        _ => false }
{ reveal_with_fuel(placed, 5); }
impl<'engine, 'source> Parser<'engine, 'source> {
//@fn src/compile/parse.rs Parser::parse_template
//@sig fn parse_template(vx_in: Parser<'engine, 'source>) -> Result<ast::Template>
//@ret r
//@try
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::rlimit(60)]
//@inline err Error
//@sub `self` => `vx_self`
//@sub `let mut blocks = vec ! [ ]` => `let mut blocks: Vec<PState> = vec![]`
//@sub `let mut scopes = vec ! [ $x ]` => `let mut scopes: Vec<ast::Scope> = vec![$x]`
//@sub `while let Some ( next ) = vx_self . next ( ) ? { $b }` => `loop { match vx_self.next()? { None => { break; } Some(next) => { $b } } }`
//@sub `blocks . last_mut ( ) . ok_or ( $e ) ?` => `(match blocks.last_mut() { Some(vx_b) => vx_b, None => { return Err($e); } })`
//@sub `blocks . pop ( ) . ok_or ( $e ) ?` => `(match blocks.pop() { Some(vx_b) => vx_b, None => { return Err($e); } })`
//@sub `match $x { State :: If { has_else : has_else @ false , .. } => { $b } _ => $e , }` => `match $x { State::If { has_else, .. } => { if !*has_else { $b } else { $e; } } _ => { $e; } }`
//@sub `Block :: EndIf => { loop { $b } }` => `Block::EndIf => { let mut vx_brk: Option<ast::Stmt> = None; loop { $b } vx_brk.unwrap() }`
//@sub `break stmt ;` => `vx_brk = Some(stmt); break;`
//@sub `has_else . then ( || $b )` => `(if has_else { Some($b) } else { None })`
//@sub `scopes . last_mut ( ) . unwrap ( ) . stmts . push ( stmt ) ;` => `vx_push_last(&mut scopes, stmt);`
//@sub `if let Some ( block ) = blocks . first ( ) { $b }` => `if blocks.len() > 0 { let block = &blocks[0]; $b }`
//@sub `vx_unreachable ( ) ;` => `vx_unreachable()`
//@sub `State ::` => `PState::`
//@sub `Block ::` => `PBlock::`
//@spec
    requires p_ok(vx_in), placed(ptoks(vx_in), Place::Text)
    ensures match g_run(pcx(vx_in), ptoks(vx_in), Seq::empty(), Seq::empty()) { Err(sp) => bad(r, vx_in, sp), Ok(evs) => r is Ok && flat(r->Ok_0.scope) == evs && wf_all(psrc(vx_in), r->Ok_0.scope) }
//@start
    hide(placed); hide(inside); hide(tok_ok); hide(p_ok); hide(ptoks); hide(lex_stop); hide(pcx); hide(kw_of); hide(is_keyword); hide(g_expr); hide(gexpr); hide(wf_expr); hide(g_block); hide(gvars); hide(wf_loop_vars); hide(out); hide(widths); hide(wf_open); hide(flat_stmt); hide(flat_scope); hide(wf_scope); hide(wf_stmt); hide(frames);
    let mut vx_self = vx_in;
    let ghost s = psrc(vx_in);
    let ghost c = pcx(vx_in);
    let ghost want = g_run(c, ptoks(vx_in), Seq::empty(), Seq::empty());
    proof { lemma_pcx(vx_in); }
//@loop 0
    invariant_except_break placed(ptoks(vx_self), Place::Text), g_run(c, ptoks(vx_self), frames(blocks@), out(blocks@, scopes@)) == want
    invariant p_ok(vx_self), pcx(vx_self) == c, psrc(vx_self) == s, wf_open(s, blocks@, scopes@)
    ensures c.err is None, want == (if blocks@.len() > 0 { Err(frame_span(frame(blocks@[0]))) } else { Ok::<Seq<GEv>, Span>(flat(scopes@[0])) })
    decreases ptoks(vx_self).len()
//@loop_start 0
    let ghost bl0 = blocks@;
    let ghost sc0 = scopes@;
    let ghost r0 = ptoks(vx_self);
    broadcast use lemma_inside, lemma_tok_span;
    proof { lemma_open(s, bl0, sc0); lemma_places(r0); }
//@before `let mut vx_brk : Option < ast :: Stmt > = None ;`
    let ghost wend = end_if(frames(bl0), out(bl0, sc0), span);
//@loop 1
    invariant_except_break end_if(frames(blocks@), out(blocks@, scopes@), span) == wend, vx_brk is None
    invariant wf_open(s, blocks@, scopes@)
    ensures vx_brk is Some, wf_stmt(s, vx_brk->Some_0), wend == Ok::<(Seq<Frame>, Seq<GEv>), Span>((frames(blocks@), out(blocks@, scopes@) + flat_stmt(vx_brk->Some_0)))
    decreases blocks@.len()
//@loop_start 1
    let ghost bl1 = blocks@;
    let ghost sc1 = scopes@;
    proof { lemma_open(s, bl1, sc1); }
//@after `let mut scopes : Vec < ast :: Scope > = $x ;`
    proof { lemma_start(s, blocks@, scopes@); }
//@after `let stmt = ast :: Stmt :: IfElse ( $x ) ;`
    let ghost sc2 = scopes@;
    proof { lemma_closed(s, bl1, sc1, scopes@, stmt); }
//@after `vx_push_last ( & mut scopes , stmt ) ;` 0
    proof { lemma_pushed(s, blocks@, sc2, scopes@, stmt); }
//@before `ast :: Stmt :: ForLoop ( for_loop )`
    proof { lemma_closed(s, bl0, sc0, scopes@, ast::Stmt::ForLoop(for_loop)); }
//@before `ast :: Stmt :: With ( with )`
    proof { lemma_closed(s, bl0, sc0, scopes@, ast::Stmt::With(with)); }
//@before `continue ;` 1
    proof { lemma_opened(s, bl0, sc0, blocks@.last(), scopes@.last()); }
//@before `continue ;` 2
    proof {
        let b1 = bl0.drop_last().push(with_else(bl0.last())); let s1 = sc0.push(scopes@[scopes@.len() - 2]);
        assert(blocks@ =~= b1.push(blocks@.last())); assert(scopes@ =~= s1.push(scopes@.last()));
        lemma_else(s, bl0, sc0, b1, s1.last());
        lemma_opened(s, b1, s1, blocks@.last(), scopes@.last());
    }
//@before `continue ;` 3
    proof { assert(blocks@ =~= bl0.drop_last().push(with_else(bl0.last()))); lemma_else(s, bl0, sc0, blocks@, scopes@.last()); }
//@before `continue ;` 4
    proof { lemma_opened(s, bl0, sc0, blocks@.last(), scopes@.last()); }
//@before `continue ;` 5
    proof { lemma_opened(s, bl0, sc0, blocks@.last(), scopes@.last()); }
//@before `vx_push_last ( & mut scopes , stmt ) ;` 1
    let ghost sc3 = scopes@;
    proof { lemma_leaf(s, out(blocks@, scopes@), stmt); }
//@after `vx_push_last ( & mut scopes , stmt ) ;` 1
    proof { lemma_pushed(s, blocks@, sc3, scopes@, stmt); }
//@before `if blocks . len ( ) > 0 { $b }`
    proof { lemma_open(s, blocks@, scopes@); }
//@end
}
} // verus!
