// C09: the state of one loop
verus! {
// TRUSTED: `Enumerate` over a slice, vector or map iterator. rest() is what is still to come.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIter<T> { x: std::marker::PhantomData<T> }
impl<T> VxIter<T> {
    uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
//@include mapitems.vrs
#[verifier::external_body]
fn vx_list_enum<'a>(l: &'a Vec<Value>) -> (r: VxIter<(usize, &'a Value)>)
    ensures r.rest() == Seq::new(l@.len(), |i: int| (i as usize, &l@[i])) { unimplemented!() }
#[verifier::external_body]
fn vx_list_into_enum(l: Vec<Value>) -> (r: VxIter<(usize, Value)>)
    ensures r.rest() == Seq::new(l@.len(), |i: int| (i as usize, l@[i])) { unimplemented!() }
#[verifier::external_body]
fn vx_map_enum<'a>(m: &'a BTreeMap<String, Value>) -> (r: VxIter<(usize, (&'a String, &'a Value))>)
    ensures r.rest() == Seq::new(map_items(*m).len(), |i: int| (i as usize, (&map_items(*m)[i].0, &map_items(*m)[i].1))) { unimplemented!() }
#[verifier::external_body]
fn vx_map_into_enum(m: BTreeMap<String, Value>) -> (r: VxIter<(usize, (String, Value))>)
    ensures r.rest() == Seq::new(map_items(m).len(), |i: int| (i as usize, (map_items(m)[i].0, map_items(m)[i].1))) { unimplemented!() }

//@item src/render/iter.rs LoopState
//@sub `Enumerate < slice :: Iter < 'a , Value >>` => `VxIter<(usize, &'a Value)>`
//@sub `Enumerate < list :: IntoIter < Value >>` => `VxIter<(usize, Value)>`
//@sub `Enumerate < map :: Iter < 'a , String , Value >>` => `VxIter<(usize, (&'a String, &'a Value))>`
//@sub `Enumerate < map :: IntoIter < String , Value >>` => `VxIter<(usize, (String, Value))>`
//@end

// what a loop is: its variables, the item being visited and the items still to come
struct LItem { ix: usize, key: Option<String>, val: Value }
struct LV { key: Option<Seq<u8>>, var: Seq<u8>, cur: Option<LItem>, rest: Seq<LItem> }
spec fn li_b(t: (usize, &Value)) -> LItem { LItem { ix: t.0, key: None, val: *t.1 } }
spec fn li_o(t: (usize, Value)) -> LItem { LItem { ix: t.0, key: None, val: t.1 } }
spec fn mi_b(t: (usize, (&String, &Value))) -> LItem { LItem { ix: t.0, key: Some(*t.1.0), val: *t.1.1 } }
spec fn mi_o(t: (usize, (String, Value))) -> LItem { LItem { ix: t.0, key: Some(t.1.0), val: t.1.1 } }
spec fn items_of<T>(s: Seq<T>, f: spec_fn(T) -> LItem) -> Seq<LItem> { Seq::new(s.len(), |i: int| f(s[i])) }
spec fn cur_of<T>(o: Option<T>, f: spec_fn(T) -> LItem) -> Option<LItem> { match o { Some(t) => Some(f(t)), None => None } }
impl<'a> LoopState<'a> {
    spec fn lv(&self) -> LV {
        match self {
            LoopState::ListBorrowed { i, iter, value } => LV { key: None, var: bs(*i), cur: cur_of(*value, |t| li_b(t)), rest: items_of(iter.rest(), |t| li_b(t)) },
            LoopState::ListOwned { i, iter, value } => LV { key: None, var: bs(*i), cur: cur_of(*value, |t| li_o(t)), rest: items_of(iter.rest(), |t| li_o(t)) },
            LoopState::MapBorrowed { k, v, iter, value } => LV { key: Some(bs(*k)), var: bs(*v), cur: cur_of(*value, |t| mi_b(t)), rest: items_of(iter.rest(), |t| mi_b(t)) },
            LoopState::MapOwned { k, v, iter, value } => LV { key: Some(bs(*k)), var: bs(*v), cur: cur_of(*value, |t| mi_o(t)), rest: items_of(iter.rest(), |t| mi_o(t)) },
        }
    }
}
spec fn list_items(l: Seq<Value>) -> Seq<LItem> { Seq::new(l.len(), |i: int| LItem { ix: i as usize, key: None, val: l[i] }) }
spec fn mapping_items(m: BTreeMap<String, Value>) -> Seq<LItem> {
    Seq::new(map_items(m).len(), |i: int| LItem { ix: i as usize, key: Some(map_items(m)[i].0), val: map_items(m)[i].1 })
}
enum NewLoop { Started(LV), Wrong(Span) }
// which loops can be started, on which items
spec fn loop_start(s: Seq<u8>, vars: ast::LoopVars, v: Value, sp: Span) -> NewLoop {
    match (v, vars) {
        (Value::List(l), ast::LoopVars::Item(id)) => NewLoop::Started(LV { key: None, var: span_text(s, id.span), cur: None, rest: list_items(l@) }),
        (Value::List(l), ast::LoopVars::KeyValue(kv)) => NewLoop::Wrong(kv.span),
        (Value::Map(m), ast::LoopVars::KeyValue(kv)) => NewLoop::Started(LV { key: Some(span_text(s, kv.key.span)), var: span_text(s, kv.value.span), cur: None, rest: mapping_items(m) }),
        (Value::Map(m), ast::LoopVars::Item(id)) => NewLoop::Wrong(id.span),
        _ => NewLoop::Wrong(sp),
    }
}
spec fn wf_loop_vars(s: Seq<u8>, v: ast::LoopVars) -> bool {
    match v { ast::LoopVars::Item(id) => span_ok(s, id.span), ast::LoopVars::KeyValue(kv) => span_ok(s, kv.span) && span_ok(s, kv.key.span) && span_ok(s, kv.value.span) }
}
// one round
spec fn advance(l: LV) -> LV { LV { cur: Some(l.rest[0]), rest: l.rest.skip(1), ..l } }

// k rounds of a loop that was started on `items` visit exactly the first k of them, in order
spec fn advance_n(l: LV, k: nat) -> LV decreases k { if k == 0 { l } else { advance(advance_n(l, (k - 1) as nat)) } }
proof fn lemma_each_item_once(l: LV, k: nat)
    requires l.cur is None, k <= l.rest.len()
    ensures advance_n(l, k).rest == l.rest.skip(k as int), k > 0 ==> advance_n(l, k).cur == Some(l.rest[k - 1]), k == 0 ==> advance_n(l, k) == l,
        advance_n(l, k).key == l.key, advance_n(l, k).var == l.var
    decreases k
{
    if k > 0 { lemma_each_item_once(l, (k - 1) as nat); assert(l.rest.skip(k - 1).skip(1) =~= l.rest.skip(k as int)); assert(l.rest.skip(k - 1)[0] == l.rest[k - 1]); }
    else { assert(l.rest.skip(0) =~= l.rest); }
}
// in round k of a loop over n items: index is k-1, first iff k = 1, last iff k = n; keys ascend in maps
proof fn lemma_loop_data(s: Seq<u8>, vars: ast::LoopVars, v: Value, sp: Span, k: nat)
    requires loop_start(s, vars, v, sp) is Started, 1 <= k <= loop_start(s, vars, v, sp)->Started_0.rest.len(),
        loop_start(s, vars, v, sp)->Started_0.rest.len() <= usize::MAX
    ensures ({
        let l0 = loop_start(s, vars, v, sp)->Started_0;
        let l = advance_n(l0, k);
        &&& l.cur is Some
        &&& l.cur->Some_0.ix == k - 1
        &&& (l.rest.len() == 0) == (k == l0.rest.len())
        &&& v is List ==> l.cur->Some_0.val == v->List_0@[k - 1]
        &&& v is Map ==> map_get(v->Map_0, sbytes(l.cur->Some_0.key->Some_0)) == Some(l.cur->Some_0.val)
    })
{
    let l0 = loop_start(s, vars, v, sp)->Started_0;
    lemma_each_item_once(l0, k);
    if v is Map { ax_map_items(v->Map_0); }
}

// names and data of the loop as an expression sees them
spec fn loop_map(l: LV) -> Value {
    map3(bs("index"), Value::Integer(l.cur->Some_0.ix as i64), bs("first"), Value::Bool(l.cur->Some_0.ix == 0), bs("last"), Value::Bool(l.rest.len() == 0))
}
// it holds exactly the three fields
proof fn lemma_loop_map(l: LV)
    ensures loop_map(l) is Map, map_len(loop_map(l)->Map_0) == 3, forall|k: Seq<u8>| #[trigger] map_get(loop_map(l)->Map_0, k) == loop_field(l, k)
{
    lemma_names();
    ax_map3(bs("index"), Value::Integer(l.cur->Some_0.ix as i64), bs("first"), Value::Bool(l.cur->Some_0.ix == 0), bs("last"), Value::Bool(l.rest.len() == 0));
}
spec fn loop_field(l: LV, k: Seq<u8>) -> Option<Value> {
    if k == bs("index") { Some(Value::Integer(l.cur->Some_0.ix as i64)) }
    else if k == bs("first") { Some(Value::Bool(l.cur->Some_0.ix == 0)) }
    else if k == bs("last") { Some(Value::Bool(l.rest.len() == 0)) }
    else { None }
}
enum LookS { Absent, Is(Value), Wrong(Span) }
spec fn look_loop(l: LV, s: Seq<u8>, p: Seq<ast::Member>) -> LookS {
    if l.cur is None { LookS::Absent }
    else if p.len() == 1 { LookS::Is(loop_map(l)) }
    else {
        match p[1].access {
            ast::Access::Index(_) => LookS::Wrong(p[1].span),
            ast::Access::Key(id) => match loop_field(l, span_text(s, id.span)) {
                Some(x) => if p.len() > 2 { LookS::Wrong(p[2].span) } else { LookS::Is(x) },
                None => if p[1].op is Optional { LookS::Is(Value::None) } else { LookS::Wrong(p[1].span) },
            }
        }
    }
}
spec fn look_walk(w: W) -> LookS { match w { W::Val(x) => LookS::Is(x), W::Wrong(sp) => LookS::Wrong(sp) } }
spec fn look_in_loop(l: LV, s: Seq<u8>, p: Seq<ast::Member>) -> LookS {
    match p[0].access {
        ast::Access::Index(_) => LookS::Absent,
        ast::Access::Key(id) => {
            let name = span_text(s, id.span);
            if name == bs("loop") { look_loop(l, s, p) }
            else if l.cur is None { LookS::Absent }
            else if l.key == Some(name) {
                if p.len() > 1 { LookS::Wrong(p[1].span) } else { LookS::Is(Value::String(l.cur->Some_0.key->Some_0)) }
            }
            else if l.var == name { look_walk(walk(l.cur->Some_0.val, s, p.skip(1))) }
            else { LookS::Absent }
        }
    }
}
spec fn looked<'a>(r: Result<Option<ValueCow<'a>>>, l: LookS, s: Seq<u8>) -> bool {
    match l {
        LookS::Absent => r is Ok && r->Ok_0 is None,
        LookS::Is(x) => r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.val() == x,
        LookS::Wrong(sp) => err_at(r, EK::Render, s, sp),
    }
}
// what Value::from([(k, v); 3]) gives (from.vrs proves it)
uninterp spec fn map3(k1: Seq<u8>, v1: Value, k2: Seq<u8>, v2: Value, k3: Seq<u8>, v3: Value) -> Value;
#[verifier::external_body]
proof fn ax_map3(k1: Seq<u8>, v1: Value, k2: Seq<u8>, v2: Value, k3: Seq<u8>, v3: Value)
    requires k1 != k2, k1 != k3, k2 != k3
    ensures map3(k1, v1, k2, v2, k3, v3) is Map, vmap(map3(k1, v1, k2, v2, k3, v3)->Map_0) == Map::<Seq<u8>, Value>::empty().insert(k1, v1).insert(k2, v2).insert(k3, v3)
{}
#[verifier::external_body]
fn vx_map3(a: (&str, Value), b: (&str, Value), c: (&str, Value)) -> (r: Value)
    requires bs(a.0) != bs(b.0), bs(a.0) != bs(c.0), bs(b.0) != bs(c.0)
    ensures r == map3(bs(a.0), a.1, bs(b.0), b.1, bs(c.0), c.1)
{ unimplemented!() }
proof fn lemma_names()
    ensures bs("index") != bs("first"), bs("index") != bs("last"), bs("first") != bs("last")
{
    reveal(bs);
    reveal_strlit("index"); reveal_strlit("first"); reveal_strlit("last");
    lemma_lit_ascii("index"); lemma_lit_ascii("first"); lemma_lit_ascii("last");
    assert("index"@[0] == 'i'); assert("first"@[0] == 'f');
    assert(bs("index")[0] == 'i' as u8); assert(bs("first")[0] == 'f' as u8);
    assert(bs("index").len() == 5); assert(bs("first").len() == 5); assert(bs("last").len() == 4);
}
impl<'a> LoopState<'a> {
//@fn src/render/iter.rs LoopState::new
//@ret r
//@sub `let err = || {` => `let err = || -> (r: Error) requires span_ok(bs(source), span) ensures r.v() == ev(EK::Render, bs(source), span) {`
//@sub `let unpack_list_item = | vars : $t | match vars { $b } ;` => `let unpack_list_item = |vars: $t| -> (r: Result<&'a ast::Ident>) requires wf_loop_vars(bs(source), *vars) ensures (match *vars { ast::LoopVars::Item(id) => r is Ok && *r->Ok_0 == id, ast::LoopVars::KeyValue(kv) => err_at(r, EK::Render, bs(source), kv.span) }) { match vars { $b } };`
//@sub `let unpack_map_item = | vars : $t | match vars { $b } ;` => `let unpack_map_item = |vars: $t| -> (r: Result<&'a ast::KeyValue>) requires wf_loop_vars(bs(source), *vars) ensures (match *vars { ast::LoopVars::Item(id) => err_at(r, EK::Render, bs(source), id.span), ast::LoopVars::KeyValue(kv) => r is Ok && *r->Ok_0 == kv }) { match vars { $b } };`
//@sub `ValueCow :: Borrowed ( v ) => match v { Value :: List ( $l_id ) => { $a } Value :: Map ( $m_id ) => { $b } $r } , ValueCow :: Owned` => `ValueCow::Borrowed(v) => match v { Value::List($l_id) => { let vx_list: &'a Vec<Value> = $l_id; $a } Value::Map($m_id) => { let vx_map: &'a BTreeMap<String, Value> = $m_id; $b } $r }, ValueCow::Owned`
//@sub `list . iter ( ) . enumerate ( )` => `vx_list_enum(list)`
//@sub `map . iter ( ) . enumerate ( )` => `vx_map_enum(map)`
//@sub `list . into_iter ( ) . enumerate ( )` => `vx_list_into_enum(list)`
//@sub `map . into_iter ( ) . enumerate ( )` => `vx_map_into_enum(map)`
//@sub `Self :: ListBorrowed` => `LoopState::ListBorrowed`
//@spec
    requires wf_loop_vars(bs(source), *vars), span_ok(bs(source), span)
    ensures match loop_start(bs(source), *vars, iterable.val(), span) {
        NewLoop::Started(l) => r is Ok && r->Ok_0.lv() == l,
        NewLoop::Wrong(sp) => err_at(r, EK::Render, bs(source), sp),
    }
//@tail
    proof {
        if vx_ret is Ok {
            match vx_ret->Ok_0 {
                LoopState::ListBorrowed { i, iter, value } => { assert(vx_ret->Ok_0.lv().rest =~= list_items(iterable.val()->List_0@)); }
                LoopState::ListOwned { i, iter, value } => { assert(vx_ret->Ok_0.lv().rest =~= list_items(iterable.val()->List_0@)); }
                LoopState::MapBorrowed { k, v, iter, value } => { assert(vx_ret->Ok_0.lv().rest =~= mapping_items(iterable.val()->Map_0)); }
                LoopState::MapOwned { k, v, iter, value } => { assert(vx_ret->Ok_0.lv().rest =~= mapping_items(iterable.val()->Map_0)); }
            }
        }
    }
//@end

//@fn src/render/iter.rs LoopState::iterate
//@ret r
//@spec
    ensures
        old(self).lv().rest.len() == 0 ==> r is None && final(self).lv() == old(self).lv(),
        old(self).lv().rest.len() > 0 ==> r is Some && final(self).lv() == advance(old(self).lv()),
//@tail
    proof { assert(self.lv().rest =~= old(self).lv().rest.skip(1)); }
//@end

//@fn src/render/iter.rs LoopState::current_index_and_rem
//@ret r
//@spec
    ensures match (r, self.lv().cur) { (Some((i, rem)), Some(c)) => i == c.ix && rem == self.lv().rest.len(), (None, None) => true, _ => false }
//@end

//@fn src/render/iter.rs LoopState::lookup_loop
//@ret r
//@sub `Value :: from ( [ $a , $b , $c , ] )` => `vx_map3($a, $b, $c)`
//@sub `( _ , "index" ) =>` => `(_, vx_n) if vx_n == "index" =>`
//@sub `( _ , "first" ) =>` => `(_, vx_n) if vx_n == "first" =>`
//@sub `( _ , "last" ) =>` => `(_, vx_n) if vx_n == "last" =>`
//@sub `! path [ 2 .. ] . is_empty ( )` => `vx_members_from(path, 2).len() != 0`
//@spec
    requires wf_path(bs(source), path@), path@.len() >= 1
    ensures looked(r, look_loop(self.lv(), bs(source), path@), bs(source))
//@start
    proof { lemma_names(); }
//@end

//@fn src/render/iter.rs LoopState::lookup_var
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `for $m_id in var . rest ( ) {` => `let vx_r = var.rest(); let ghost vx_v0 = *v; let mut vx_i: usize = 0; proof { assert(vx_r@.skip(0) =~= vx_r@); } while vx_i < vx_r.len() invariant vx_i <= vx_r@.len(), walk(vx_v0, bs(source), vx_r@) == walk(*v, bs(source), vx_r@.skip(vx_i as int)) decreases vx_r@.len() - vx_i { proof { assert(vx_r@.skip(vx_i as int).skip(1) =~= vx_r@.skip(vx_i + 1)); } let $m_id = &vx_r[vx_i]; vx_i = vx_i + 1;`
//@sub `if let [ $m_id , .. ] = var . rest ( ) {` => `if var.rest().len() > 0 { let $m_id = &var.rest()[0];`
//@sub `let err = | span | Error` => `let err = |span: Span| -> (r: Error) requires span_ok(bs(source), span) ensures r.v() == ev(EK::Render, bs(source), span) { Error`
//@sub `"cannot index into string" , source , span , ) ;` => `"cannot index into string", source, span) };`
//@sub `"cannot index into string" , source , span ) ;` => `"cannot index into string", source, span) };`
//@spec
    requires wf_var(bs(source), *var)
    ensures looked(r, look_in_loop(self.lv(), bs(source), var.path@), bs(source))
//@end
}
} // verus!
