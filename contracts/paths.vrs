// C08: a path selects exactly the addressed member
verus! {
enum LR { Found(Value), Missing, Wrong }
// one step: keys in maps, indexes in lists, nothing else
spec fn member_of(v: Value, s: Seq<u8>, m: ast::Member) -> LR {
    match (v, m.access) {
        (Value::List(l), ast::Access::Index(ix)) =>
            if ix.value < l@.len() { LR::Found(l@[ix.value as int]) }
            else if m.op is Optional { LR::Missing } else { LR::Wrong },
        (Value::Map(mp), ast::Access::Key(id)) =>
            if map_get(mp, span_text(s, id.span)) is Some { LR::Found(map_get(mp, span_text(s, id.span))->Some_0) }
            else if m.op is Optional { LR::Missing } else { LR::Wrong },
        _ => LR::Wrong,
    }
}
enum W { Val(Value), Wrong(Span) }
spec fn walk(v: Value, s: Seq<u8>, p: Seq<ast::Member>) -> W decreases p.len() {
    if p.len() == 0 { W::Val(v) } else {
        match member_of(v, s, p[0]) {
            LR::Found(x) => walk(x, s, p.skip(1)),
            LR::Missing => W::Val(Value::None),
            LR::Wrong => W::Wrong(p[0].span),
        }
    }
}
spec fn found_first(v: Value, s: Seq<u8>, p: Seq<ast::Member>) -> bool { p.len() == 0 || member_of(v, s, p[0]) is Found }

spec fn is_walk<'a>(r: Result<ValueCow<'a>>, w: W, s: Seq<u8>) -> bool {
    match w { W::Val(x) => r is Ok && r->Ok_0.val() == x, W::Wrong(sp) => err_at(r, EK::Render, s, sp) }
}
spec fn is_walk_some<'a>(r: Result<Option<ValueCow<'a>>>, w: W, s: Seq<u8>) -> bool {
    match w { W::Val(x) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.val() == x, W::Wrong(sp) => err_at(r, EK::Render, s, sp) }
}

impl Value {
//@fn src/render/value.rs Value::human
//@end
}

//@fn src/render/value.rs lookup
//@ret r
//@sub `list . get ( * $i )` => `vx_list_get(list, *$i)`
//@sub `map . get ( $k )` => `vx_map_get(map, $k)`
//@spec
    requires wf_member(bs(source), *member)
    ensures match member_of(*value, bs(source), *member) {
        LR::Found(x) => r is Ok && r->Ok_0 is Some && *r->Ok_0->Some_0 == x,
        LR::Missing => r is Ok && r->Ok_0 is None,
        LR::Wrong => err_at(r, EK::Render, bs(source), member.span),
    }
//@end
fn vx_list_get(l: &Vec<Value>, i: usize) -> (r: Option<&Value>)
    ensures r is Some <==> i < l@.len(), r is Some ==> *r->Some_0 == l@[i as int]
{ if i < l.len() { Some(&l[i]) } else { None } }

//@fn src/render/value.rs lookup_path
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `ValueCow :: Borrowed ( mut value ) => {` => `ValueCow::Borrowed(vx_v) => { let mut value: &'a Value = *vx_v;`
//@sub `for $p_id in path {` => `let mut vx_i: usize = 0; while vx_i < path.len() { let $p_id = &path[vx_i]; vx_i = vx_i + 1;`
//@spec
    requires wf_path(bs(source), path@)
    ensures is_walk(r, walk(value.val(), bs(source), path@), bs(source))
//@start
    let ghost vx_v0 = value.val();
    proof { assert(path@.skip(0) =~= path@); }
//@loop 0
    invariant vx_i <= path@.len(), walk(vx_v0, bs(source), path@) == walk(*value, bs(source), path@.skip(vx_i as int))
    decreases path@.len() - vx_i
//@loop_start 0
    proof { assert(path@.skip(vx_i as int).skip(1) =~= path@.skip(vx_i + 1)); }
//@loop 1
    invariant vx_i <= path@.len(), walk(vx_v0, bs(source), path@) == walk(*value, bs(source), path@.skip(vx_i as int))
    decreases path@.len() - vx_i
//@loop_start 1
    proof { assert(path@.skip(vx_i as int).skip(1) =~= path@.skip(vx_i + 1)); }
//@end

//@fn src/render/value.rs lookup_path_maybe
//@ret r
//@sub `Ok ( None ) | Err ( _ ) if $g => return $e ,` => `Ok(None) if $g => return $e, Err(_) if $g => return $e,`
//@attr #[verifier::loop_isolation(false)]
//@sub `ValueCow :: Borrowed ( mut value ) => {` => `ValueCow::Borrowed(vx_v) => { let mut value: &'a Value = *vx_v;`
//@sub `for ( $i_id , $p_id ) in path . iter ( ) . enumerate ( ) {` => `let mut vx_i: usize = 0; while vx_i < path.len() { let ($i_id, $p_id) = (vx_i, &path[vx_i]); vx_i = vx_i + 1;`
//@spec
    requires wf_path(bs(source), path@)
    ensures !found_first(value.val(), bs(source), path@) ==> r is Ok && r->Ok_0 is None,
        found_first(value.val(), bs(source), path@) ==> is_walk_some(r, walk(value.val(), bs(source), path@), bs(source))
//@start
    let ghost vx_v0 = value.val();
    proof { assert(path@.skip(0) =~= path@); }
//@loop 0
    invariant vx_i <= path@.len(), walk(vx_v0, bs(source), path@) == walk(*value, bs(source), path@.skip(vx_i as int)),
        vx_i > 0 ==> found_first(vx_v0, bs(source), path@), vx_i == 0 ==> *value == vx_v0
    decreases path@.len() - vx_i
//@loop_start 0
    proof { assert(path@.skip(vx_i as int).skip(1) =~= path@.skip(vx_i + 1)); }
//@loop 1
    invariant vx_i <= path@.len(), walk(vx_v0, bs(source), path@) == walk(*value, bs(source), path@.skip(vx_i as int)),
        vx_i > 0 ==> found_first(vx_v0, bs(source), path@), vx_i == 0 ==> *value == vx_v0
    decreases path@.len() - vx_i
//@loop_start 1
    proof { assert(path@.skip(vx_i as int).skip(1) =~= path@.skip(vx_i + 1)); }
//@end
} // verus!
