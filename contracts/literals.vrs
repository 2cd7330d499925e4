// C11: what the grammar of literals amounts to
verus! {
// the written number, with no bound
spec fn numeral(t: Seq<u8>, k: int, acc: int, radix: int) -> Option<int>
    decreases t.len() - k
{
    if k < 0 || k >= t.len() { Some(acc) } else if t[k] == 95 { numeral(t, k + 1, acc, radix) }
    else { match digit_value(t[k], radix) { None => None, Some(d) => numeral(t, k + 1, acc * radix + d, radix) } }
}
spec fn written(t: Seq<u8>) -> Option<int> { numeral(t, prefix_of(t), 0, radix_of(t)) }
spec fn signed(neg: bool, m: int) -> int { if neg { -m } else { m } }
proof fn lemma_numeral_grows(t: Seq<u8>, k: int, acc: int, radix: int)
    requires acc >= 0, radix >= 2, 0 <= k
    ensures numeral(t, k, acc, radix) is Some ==> numeral(t, k, acc, radix)->Some_0 >= acc
    decreases t.len() - k
{
    if k < t.len() {
        if t[k] == 95 { lemma_numeral_grows(t, k + 1, acc, radix); }
        else if digit_value(t[k], radix) is Some {
            assert(acc * radix >= acc) by (nonlinear_arith) requires acc >= 0, radix >= 2;
            lemma_numeral_grows(t, k + 1, acc * radix + digit_value(t[k], radix)->Some_0, radix);
        }
    }
}
proof fn lemma_int_from(t: Seq<u8>, k: int, m: int, radix: int, neg: bool)
    requires 0 <= k, m >= 0, radix >= 2, in_i64(signed(neg, m))
    ensures match numeral(t, k, m, radix) {
        None => int_from(t, k, signed(neg, m), radix, neg) is Err,
        Some(v) => if in_i64(signed(neg, v)) { int_from(t, k, signed(neg, m), radix, neg) == Ok::<int, IntErr>(signed(neg, v)) } else { int_from(t, k, signed(neg, m), radix, neg) == Err::<int, IntErr>(IntErr::Range) } }
    decreases t.len() - k
{
    if k < t.len() {
        if t[k] == 95 { lemma_int_from(t, k + 1, m, radix, neg); }
        else if digit_value(t[k], radix) is Some {
            let d = digit_value(t[k], radix)->Some_0;
            let n = m * radix + d;
            assert(n >= m && m * radix >= 0) by (nonlinear_arith) requires m >= 0, radix >= 2, n == m * radix + d, d >= 0;
            assert((-m) * radix == -(m * radix)) by (nonlinear_arith);
            lemma_numeral_grows(t, k + 1, n, radix);
            if in_i64(signed(neg, n)) { lemma_int_from(t, k + 1, n, radix, neg); }
        }
    }
}
// an integer literal denotes the written number when that fits, and never another one
proof fn thm_int(t: Seq<u8>, neg: bool)
    ensures match written(t) {
        None => int_lit(t, neg) is Err,
        Some(v) => if in_i64(signed(neg, v)) { int_lit(t, neg) == Ok::<int, IntErr>(signed(neg, v)) } else { int_lit(t, neg) == Err::<int, IntErr>(IntErr::Range) } }
{ lemma_int_from(t, prefix_of(t), 0, radix_of(t), neg); }
// TRUSTED: str::parse::<f64> accepts no text that starts with 0b, 0o or 0x
#[verifier::external_body]
proof fn ax_f64_prefix(t: Seq<u8>) requires radix_of(t) != 10 ensures f64_of(t) is None {}
// so a literal with a base is that number or rejected, and no literal is another integer
proof fn thm_number(s: Seq<u8>, t: Seq<u8>, sp: Span, neg: bool)
    ensures written(t) is Some && in_i64(signed(neg, written(t)->Some_0)) ==> g_number(s, t, sp, neg) == Ok::<(Lit, Span), Span>((Lit::Int(signed(neg, written(t)->Some_0)), sp)),
        radix_of(t) != 10 && !(written(t) is Some && in_i64(signed(neg, written(t)->Some_0))) ==> g_number(s, t, sp, neg) is Err,
        match g_number(s, t, sp, neg) { Ok((Lit::Int(i), _)) => written(t) is Some && i == signed(neg, written(t)->Some_0), Ok((Lit::Float(_), _)) => !(written(t) is Some && in_i64(signed(neg, written(t)->Some_0))), _ => true }
{ thm_int(t, neg); if radix_of(t) != 10 { ax_f64_prefix(t); } }

// C04: nesting
// how many blocks are open after an event, and which
spec fn nest(evs: Seq<GEv>) -> Option<Seq<int>>
    decreases evs.len()
{
    // 1: if, 2: if that has had its else, 3: for, 4: with
    if evs.len() == 0 { Some(Seq::empty()) } else { match nest(evs.drop_last()) { None => None, Some(st) => match evs.last() {
        GEv::If(..) => Some(st.push(1)), GEv::For(..) => Some(st.push(3)), GEv::With(..) => Some(st.push(4)),
        GEv::Else => if st.len() > 0 && st.last() == 1 { Some(st.drop_last().push(2)) } else { None },
        GEv::EndIf => if st.len() > 0 && (st.last() == 1 || st.last() == 2) { Some(st.drop_last()) } else { None },
        GEv::EndFor => if st.len() > 0 && st.last() == 3 { Some(st.drop_last()) } else { None },
        GEv::EndWith => if st.len() > 0 && st.last() == 4 { Some(st.drop_last()) } else { None },
        _ => Some(st) } } }
}
spec fn fnum(f: Frame) -> int { match f { Frame::If(_, e, _) => if e { 2 } else { 1 }, Frame::For(_) => 3, Frame::With(_) => 4 } }
spec fn fnums(st: Seq<Frame>) -> Seq<int> { st.map_values(|f: Frame| fnum(f)) }
spec fn nested(st: Seq<Frame>, evs: Seq<GEv>) -> bool { nest(evs) == Some(fnums(st)) }
proof fn lemma_fnums(st: Seq<Frame>, f: Frame)
    ensures fnums(st.push(f)) == fnums(st).push(fnum(f)), st.len() > 0 ==> fnums(st).last() == fnum(st.last()) && fnums(st.drop_last()) == fnums(st).drop_last(), fnums(st).len() == st.len()
{ assert(fnums(st.push(f)) =~= fnums(st).push(fnum(f))); if st.len() > 0 { assert(fnums(st.drop_last()) =~= fnums(st).drop_last()); } }
proof fn lemma_nest_push(evs: Seq<GEv>, e: GEv) ensures evs.push(e).drop_last() == evs { assert(evs.push(e).drop_last() =~= evs); }
proof fn lemma_end_if_nested(st: Seq<Frame>, evs: Seq<GEv>, sp: Span)
    requires nested(st, evs)
    ensures end_if(st, evs, sp) is Ok ==> nested(end_if(st, evs, sp)->Ok_0.0, end_if(st, evs, sp)->Ok_0.1)
    decreases st.len()
{
    lemma_nest_push(evs, GEv::EndIf);
    if st.len() > 0 { lemma_fnums(st, st.last()); if st.last() is If && st.last()->If_0 { lemma_end_if_nested(st.drop_last(), evs.push(GEv::EndIf), sp); } }
}
proof fn lemma_block_nested(b: GBlock, sp: Span, st: Seq<Frame>, evs: Seq<GEv>)
    requires nested(st, evs)
    ensures block_step(b, sp, st, evs) is Ok ==> nested(block_step(b, sp, st, evs)->Ok_0.0, block_step(b, sp, st, evs)->Ok_0.1)
{
    hide(gexpr);
    if st.len() > 0 { lemma_fnums(st, st.last()); lemma_fnums(st.drop_last(), Frame::If(st.last()->If_0, true, st.last()->If_2)); }
    lemma_fnums(st, Frame::If(false, false, sp)); lemma_fnums(st, Frame::For(sp)); lemma_fnums(st, Frame::With(sp));
    match b {
        GBlock::If(n, e) => { lemma_nest_push(evs, GEv::If(n, e)); }
        GBlock::ElseIf(n, e) => { lemma_nest_push(evs, GEv::Else); assert(open_if(st) ==> nested(had_else(st), evs.push(GEv::Else))); lemma_nest_push(evs.push(GEv::Else), GEv::If(n, e)); lemma_fnums(had_else(st), Frame::If(true, false, sp)); }
        GBlock::Else => { lemma_nest_push(evs, GEv::Else); }
        GBlock::EndIf => { lemma_end_if_nested(st, evs, sp); }
        GBlock::For(v, e) => { lemma_nest_push(evs, GEv::For(v, e)); }
        GBlock::EndFor => { lemma_nest_push(evs, GEv::EndFor); }
        GBlock::With(e, n) => { lemma_nest_push(evs, GEv::With(e, n)); }
        GBlock::EndWith => { lemma_nest_push(evs, GEv::EndWith); }
        GBlock::Include(name, nsp, e) => { lemma_nest_push(evs, GEv::Include(name, nsp, e)); }
    }
}
proof fn lemma_item_nested(c: Cx, r: Toks, st: Seq<Frame>, evs: Seq<GEv>)
    requires nested(st, evs)
    ensures g_item(c, r, st, evs) is Ok ==> nested(g_item(c, r, st, evs)->Ok_0.0.0, g_item(c, r, st, evs)->Ok_0.0.1)
{
    hide(g_expr); hide(g_block); hide(block_step); hide(gexpr);
    if g_item(c, r, st, evs) is Ok {
        let sp = r[0].1;
        match r[0].0 {
            Token::BeginBlock => {
                let (b, r2) = g_block(c, after(r))->Ok_0;
                lemma_block_nested(b, combined(sp, g_tok(c, r2, Token::EndBlock)->Ok_0.0), st, evs);
            }
            Token::Raw => { lemma_nest_push(evs, GEv::Raw(sp)); }
            Token::BeginExpr => {
                let (e, r2) = g_expr(c, after(r))->Ok_0;
                lemma_nest_push(evs, GEv::Expr(e, combined(sp, g_tok(c, r2, Token::EndExpr)->Ok_0.0)));
            }
            _ => {}
        }
    }
}
proof fn lemma_run_nested(c: Cx, r: Toks, st: Seq<Frame>, evs: Seq<GEv>)
    requires nested(st, evs)
    ensures g_run(c, r, st, evs) is Ok ==> nest(g_run(c, r, st, evs)->Ok_0) == Some(Seq::<int>::empty())
    decreases r.len()
{
    if r.len() == 0 { assert(st.len() == 0 ==> fnums(st) =~= Seq::empty()); }
    else {
        lemma_item_nested(c, r, st, evs);
        if let Ok(((st1, evs1), r1)) = g_item(c, r, st, evs) { if r1.len() < r.len() { lemma_run_nested(c, r1, st1, evs1); } }
    }
}
// what compiles is correctly nested
proof fn thm_nesting(pats: Pats, s: Seq<u8>)
    ensures parses_to(pats, s) is Ok ==> nest(parses_to(pats, s)->Ok_0) == Some(Seq::<int>::empty())
{ assert(fnums(Seq::empty()) =~= Seq::empty()); lemma_run_nested(Cx { s, err: stop(pats, s, lx0()) }, toks(pats, s, lx0()), Seq::empty(), Seq::empty()); }
// a block tag is refused exactly when it does not fit the open blocks
proof fn thm_accepts(b: GBlock, sp: Span, st: Seq<Frame>, evs: Seq<GEv>)
    requires ifs_grounded(st)
    ensures block_step(b, sp, st, evs) is Ok <==> match b {
        GBlock::Else => st.len() > 0 && st.last() is If && !st.last()->If_1,
        GBlock::ElseIf(..) => st.len() > 0 && st.last() is If && !st.last()->If_1,
        GBlock::EndIf => st.len() > 0 && st.last() is If, GBlock::EndFor => st.len() > 0 && st.last() is For, GBlock::EndWith => st.len() > 0 && st.last() is With, _ => true },
        block_step(b, sp, st, evs) is Ok ==> ifs_grounded(block_step(b, sp, st, evs)->Ok_0.0)
{
    if b is EndIf { lemma_grounded(st, evs, sp); }
    if block_step(b, sp, st, evs) is Ok && !(b is EndIf) { }
}
// an else if stands in an if that has had its else
spec fn ifs_grounded(st: Seq<Frame>) -> bool { forall|i: int| 0 <= i < st.len() && (#[trigger] st[i]) is If && st[i]->If_0 ==> i > 0 && st[i - 1] is If }
proof fn lemma_grounded(st: Seq<Frame>, evs: Seq<GEv>, sp: Span)
    requires ifs_grounded(st)
    ensures end_if(st, evs, sp) is Ok <==> st.len() > 0 && st.last() is If, end_if(st, evs, sp) is Ok ==> ifs_grounded(end_if(st, evs, sp)->Ok_0.0)
    decreases st.len()
{
    if st.len() > 0 && st.last() is If {
        let d = st.drop_last();
        assert(ifs_grounded(d)) by { assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is If && d[i]->If_0 implies i > 0 && d[i - 1] is If by { assert(st[i] == d[i]); assert(i > 0 ==> d[i - 1] == st[i - 1]); } }
        if st.last()->If_0 { assert(st[st.len() - 1] is If); lemma_grounded(d, evs.push(GEv::EndIf), sp); }
    }
}
} // verus!
