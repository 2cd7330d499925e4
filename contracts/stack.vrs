// C07: what a name means is decided by the innermost binding that is visible
verus! {
//@item src/lib.rs ValueMember
//@end
//@item src/lib.rs ValueAccess
//@end
//@item src/lib.rs ValueAccessOp
//@end
// the caller's value function, as a relation between the requested path and the answer
#[verifier::external_body]
struct ValueFn<'a> { x: std::marker::PhantomData<&'a u8> }
enum VA { Ix(usize), Key(Seq<u8>) }
struct VM { op: ValueAccessOp, access: VA }
spec fn vm_view(m: ValueMember) -> VM {
    VM { op: m.op, access: match m.access { ValueAccess::Index(i) => VA::Ix(i), ValueAccess::Key(k) => VA::Key(bs(k)) } }
}
spec fn vm_want(s: Seq<u8>, m: ast::Member) -> VM {
    VM { op: match m.op { ast::AccessOp::Direct => ValueAccessOp::Direct, ast::AccessOp::Optional => ValueAccessOp::Optional },
         access: match m.access { ast::Access::Index(i) => VA::Ix(i.value), ast::Access::Key(k) => VA::Key(span_text(s, k.span)) } }
}
spec fn path_view(p: Seq<ValueMember>) -> Seq<VM> { Seq::new(p.len(), |i: int| vm_view(p[i])) }
spec fn path_want(s: Seq<u8>, p: Seq<ast::Member>) -> Seq<VM> { Seq::new(p.len(), |i: int| vm_want(s, p[i])) }
// its answer for a path: a value, or a failure
uninterp spec fn value_fn_says(f: ValueFn, p: Seq<VM>) -> Option<Value>;
// TRUSTED: calling the caller's function (taken to be a function of the path it is given)
#[verifier::external_body]
fn vx_call_value_fn(f: &ValueFn, p: &Vec<ValueMember>) -> (r: std::result::Result<Value, String>)
    ensures match value_fn_says(*f, path_view(p@)) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err } { unimplemented!() }

//@item src/render/stack.rs Stack
//@end
//@item src/render/stack.rs State
//@end

// what a scope stack holds
enum AS<'a> { Ask(ValueFn<'a>), Scope(Value), Var(Seq<u8>, Value), Loop(LV), Boundary }
spec fn abs_state<'a>(s: State<'a>) -> AS<'a> {
    match s {
        State::ValueFn(f) => AS::Ask(*f), State::Scope(v) => AS::Scope(v.val()), State::Var(n, v) => AS::Var(bs(n), v.val()),
        State::Loop(l) => AS::Loop(l.lv()), State::Boundary => AS::Boundary,
    }
}
enum Found { Val(Value), Wrong(Span), Nowhere, AskFails }
// the binding a name refers to: the closest to the top of the stack, never past a template boundary
spec fn resolve<'a>(st: Seq<AS<'a>>, s: Seq<u8>, p: Seq<ast::Member>) -> Found decreases st.len() {
    if st.len() == 0 { Found::Nowhere } else {
        let below = st.drop_last();
        match st.last() {
            AS::Boundary => Found::Nowhere,
            AS::Ask(f) => match value_fn_says(f, path_want(s, p)) { Some(x) => Found::Val(x), None => Found::AskFails },
            AS::Scope(scope) =>
                if found_first(scope, s, p) { found_walk(walk(scope, s, p)) } else { resolve(below, s, p) },
            AS::Var(name, v) =>
                if span_text(s, access_span(p[0].access)) == name { found_walk(walk(v, s, p.skip(1))) } else { resolve(below, s, p) },
            AS::Loop(l) => match look_in_loop(l, s, p) {
                LookS::Absent => resolve(below, s, p),
                LookS::Is(x) => Found::Val(x),
                LookS::Wrong(sp) => Found::Wrong(sp),
            },
        }
    }
}
spec fn found_walk(w: W) -> Found { match w { W::Val(x) => Found::Val(x), W::Wrong(sp) => Found::Wrong(sp) } }
// the value of a variable, or the error
spec fn var_value<'a>(st: Seq<AS<'a>>, s: Seq<u8>, var: ast::Var) -> std::result::Result<Value, EV> {
    match resolve(st, s, var.path@) {
        Found::Val(x) => Ok(x),
        Found::Wrong(sp) => Err(ev(EK::Render, s, sp)),
        Found::Nowhere => Err(ev(EK::Render, s, var.path@[0].span)),
        Found::AskFails => Err(ev(EK::Render, s, var_span(var))),
    }
}
spec fn is_value<'a>(r: Result<ValueCow<'a>>, w: std::result::Result<Value, EV>) -> bool {
    match w { Ok(x) => r is Ok && r->Ok_0.val() == x, Err(e) => r is Err && r->Err_0.v() == e }
}

spec fn abs_stack<'a>(s: Seq<State<'a>>) -> Seq<AS<'a>> { Seq::new(s.len(), |i: int| abs_state(s[i])) }
impl<'a> Stack<'a> {
    spec fn av(&self) -> Seq<AS<'a>> { abs_stack(self.stack@) }
    spec fn sv(&self) -> Seq<State<'a>> { self.stack@ }
//@fn src/render/stack.rs Stack::new
//@ret r
//@sub `Self {` => `Stack {`
//@spec
    ensures r.sv() == seq![State::Scope(ValueCow::Borrowed(globals))], r.av() =~= seq![AS::Scope(*globals)]
//@end
//@fn src/render/stack.rs Stack::with_value_fn
//@ret r
//@sub `Self {` => `Stack {`
//@spec
    ensures r.sv() == seq![State::ValueFn(f)], r.av() =~= seq![AS::Ask(*f)]
//@end
//@fn src/render/stack.rs Stack::lookup_var
//@ret r
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::loop_isolation(false)]
//@sub `for state in self . stack . iter ( ) . rev ( ) {` => `let mut vx_n: usize = self.stack.len(); while vx_n > 0 { vx_n = vx_n - 1; let state = &self.stack[vx_n];`
//@sub `let path : Vec < _ > = v . path . iter ( ) . map ( | member | { $b } ) . collect ( ) ;` => `let mut path: Vec<ValueMember> = Vec::new(); let mut vx_k: usize = 0; while vx_k < v.path.len() invariant vx_k <= v.path@.len(), path@.len() == vx_k, forall|i: int| 0 <= i < vx_k ==> vm_view(#[trigger] path@[i]) == vm_want(bs(source), v.path@[i]) decreases v.path@.len() - vx_k { let member = &v.path[vx_k]; let vx_m = { $b }; path.push(vx_m); vx_k = vx_k + 1; } proof { assert(path_view(path@) =~= path_want(bs(source), v.path@)); }`
//@sub `return value_fn ( $p ) . map ( ValueCow :: Owned ) . map_err ( | $e_id | $x ) ;` => `return match vx_call_value_fn(value_fn, $p) { Ok(vx_v) => Ok(ValueCow::Owned(vx_v)), Err($e_id) => Err($x) };`
//@sub `lookup_path_maybe ( source , scope , & v . path )` => `lookup_path_maybe(source, scope, v.path.as_slice())`
//@spec
    requires wf_var(bs(source), *v)
    ensures is_value(r, var_value(self.av(), bs(source), *v))
//@start
    proof { assert(self.av().take(self.av().len() as int) =~= self.av()); lemma_combined_ok(bs(source), v.path@[0].span, v.path@.last().span); }
//@loop 0
    invariant_except_break vx_n <= self.stack@.len(), resolve(self.av(), bs(source), v.path@) == resolve(self.av().take(vx_n as int), bs(source), v.path@)
    ensures resolve(self.av(), bs(source), v.path@) is Nowhere
    decreases vx_n
//@loop_start 0
    proof { assert(self.av().take(vx_n as int).drop_last() =~= self.av().take(vx_n - 1)); }
//@loop_end 1
//@end
//@fn src/render/stack.rs Stack::push
//@spec
    ensures final(self).sv() == old(self).sv().push(state), final(self).av() =~= old(self).av().push(abs_state(state))
//@end
//@fn src/render/stack.rs Stack::last_loop_state_mut
//@ret r
//@spec
    requires old(self).sv().len() > 0, old(self).sv().last() is Loop
    ensures *r == old(self).sv().last()->Loop_0,
        final(self).sv() == old(self).sv().drop_last().push(State::Loop(*final(r))),
        final(self).av() =~= old(self).av().drop_last().push(AS::Loop(final(r).lv()))
//@end
//@fn src/render/stack.rs Stack::pop_scope
//@ret r
//@sub `panic ! ( $m )` => `vx_unreachable()`
//@spec
    requires old(self).sv().len() > 0, old(self).sv().last() is Scope
    ensures final(self).sv() == old(self).sv().drop_last(), final(self).av() =~= old(self).av().drop_last()
//@end
//@fn src/render/stack.rs Stack::pop_var
//@ret r
//@spec
    requires old(self).sv().len() > 0, old(self).sv().last() is Var
    ensures final(self).sv() == old(self).sv().drop_last(), final(self).av() =~= old(self).av().drop_last()
//@end
//@fn src/render/stack.rs Stack::pop_loop_state
//@ret r
//@spec
    requires old(self).sv().len() > 0, old(self).sv().last() is Loop
    ensures final(self).sv() == old(self).sv().drop_last(), final(self).av() =~= old(self).av().drop_last()
//@end
//@fn src/render/stack.rs Stack::pop_boundary
//@spec
    requires old(self).sv().len() > 0, old(self).sv().last() is Boundary
    ensures final(self).sv() == old(self).sv().drop_last(), final(self).av() =~= old(self).av().drop_last()
//@end
}

// the innermost binding decides: what lies below a binding that answers never matters
proof fn lemma_innermost<'a>(below: Seq<AS<'a>>, other: Seq<AS<'a>>, top: AS<'a>, s: Seq<u8>, p: Seq<ast::Member>)
    requires match top {
        AS::Boundary => true, AS::Ask(_) => true,
        AS::Scope(v) => found_first(v, s, p),
        AS::Var(n, _) => span_text(s, access_span(p[0].access)) == n,
        AS::Loop(l) => !(look_in_loop(l, s, p) is Absent),
    }
    ensures resolve(below.push(top), s, p) == resolve(other.push(top), s, p)
{
    assert(below.push(top).drop_last() =~= below); assert(other.push(top).drop_last() =~= other);
}
// names bound elsewhere are never affected by a binding of another name
proof fn lemma_other_name<'a>(below: Seq<AS<'a>>, n: Seq<u8>, v: Value, s: Seq<u8>, p: Seq<ast::Member>)
    requires span_text(s, access_span(p[0].access)) != n
    ensures resolve(below.push(AS::Var(n, v)), s, p) == resolve(below, s, p)
{ assert(below.push(AS::Var(n, v)).drop_last() =~= below); }
// nothing of the including template is visible behind a boundary
proof fn lemma_boundary<'a>(below: Seq<AS<'a>>, s: Seq<u8>, p: Seq<ast::Member>)
    ensures resolve(below.push(AS::Boundary), s, p) is Nowhere
{}
} // verus!
