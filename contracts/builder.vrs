// C01: building the automaton
verus! {
//@fn src/compile/search/ahocorasick/build.rs all
//@sig fn all() -> (u8, u8)
//@ret r
//@sub `{ $a ..= $b }` => `{ ($a, $b) }`
//@spec
    ensures r == (0u8, 255u8)
//@end
impl State {
//@fn src/compile/search/ahocorasick/build.rs State::push_match
//@spec
    ensures final(self).matches@ == old(self).matches@.push(p), final(self).trans == old(self).trans, final(self).fail == old(self).fail, final(self).depth == old(self).depth
//@end
//@fn src/compile/search/ahocorasick/build.rs State::set_transition
//@spec
    ensures final(self).trans@ == old(self).trans@.update(byte as int, to), final(self).matches == old(self).matches, final(self).fail == old(self).fail, final(self).depth == old(self).depth
//@end
//@fn src/compile/search/ahocorasick/build.rs State::get_longest_match_len
//@ret r
//@sub `$e . first ( ) . map ( | & $p_id | $b )` => `match $e.first() { Some(vx_p) => Some({ let $p_id = *vx_p; $b }), None => None }`
//@spec
    ensures self.matches@.len() > 0 ==> r == Some(self.matches@[0].len), self.matches@.len() == 0 ==> r is None
//@end
}
spec fn same_but_matches(a: State, b: State) -> bool { a.trans == b.trans && a.fail == b.fail && a.depth == b.depth }
impl Builder {
//@fn src/compile/search/ahocorasick/build.rs Builder::state
//@ret r
//@spec
    requires id < self.states@.len()
    ensures *r == self.states@[id as int]
//@end
//@fn src/compile/search/ahocorasick/build.rs Builder::state_mut
//@ret r
//@spec
    requires id < old(self).states@.len()
    ensures *r == old(self).states@[id as int], final(self).states@ == old(self).states@.update(id as int, *final(r))
//@end
//@fn src/compile/search/ahocorasick/build.rs Builder::start
//@ret r
//@spec
    requires self.states@.len() > 2
    ensures *r == self.states@[2]
//@end
//@fn src/compile/search/ahocorasick/build.rs Builder::start_mut
//@ret r
//@spec
    requires old(self).states@.len() > 2
    ensures *r == old(self).states@[2], final(self).states@ == old(self).states@.update(2, *final(r))
//@end
//@fn src/compile/search/ahocorasick/build.rs Builder::push_state
//@ret r
//@spec
    ensures r == old(self).states@.len(), final(self).states@.len() == old(self).states@.len() + 1,
        forall|i: int| 0 <= i < r ==> final(self).states@[i] == old(self).states@[i],
        blank(final(self).states@[r as int]), final(self).states@[r as int].depth == depth
//@end
//@fn src/compile/search/ahocorasick/build.rs Builder::copy_matches
//@spec
    requires src < old(self).states@.len(), dst < old(self).states@.len(), src != dst
    ensures final(self).states@.len() == old(self).states@.len(), same_but_matches(final(self).states@[dst as int], old(self).states@[dst as int]),
        final(self).states@[dst as int].matches@ == old(self).states@[dst as int].matches@ + old(self).states@[src as int].matches@,
        forall|i: int| 0 <= i < old(self).states@.len() && i != dst ==> final(self).states@[i] == old(self).states@[i]
//@end
}
spec fn blank(s: State) -> bool { s.fail == START && s.matches@.len() == 0 && forall|c: int| 0 <= c < 256 ==> s.trans@[c] == FAIL }
// ---------------------------------------------------------------- the trie
spec fn base(st: Seq<State>) -> bool { st.len() >= 3 && blank(st[0]) && blank(st[1]) && st[0].depth == 0 && st[1].depth == 0 }
spec fn growing(st: Seq<State>, ps: Paths, pats: Pats, k: nat, k2: nat) -> bool {
    base(st) && trie(trs(st), ps) && from_pats(ps, pats, k2) && covers(ps, pats, k) && depths(st, ps) && pats_ok(pats) && (forall|c: int| 0 <= c < 256 ==> #[trigger] to(trs(st), 2, c) != START)
    && forall|i: int| 2 <= i < st.len() ==> #[trigger] fresh(st, ps, pats, k, i)
}
spec fn grown(st: Seq<State>, ps: Paths, id: int, byte: u8, n: State) -> Seq<State> { st.push(n).update(id, State { trans: st[id].trans, ..st[id] }) }
// a new node n = st.len() under node id
spec fn grow_to(st: Seq<State>, id: int, byte: u8, st2: Seq<State>) -> bool {
    &&& 2 <= id < st.len() && st.len() <= usize::MAX && st[id].trans@[byte as int] == FAIL
    &&& st2.len() == st.len() + 1 && forall|i: int| 0 <= i < st.len() && i != id ==> st2[i] == st[i]
    &&& blank(st2[st.len() as int]) && st2[id].trans@ == st[id].trans@.update(byte as int, st.len() as usize)
    &&& st2[id].matches == st[id].matches && st2[id].fail == st[id].fail && st2[id].depth == st[id].depth
}
proof fn lemma_grow_to(st: Seq<State>, id: int, byte: u8, st2: Seq<State>, i: int, c: int)
    requires grow_to(st, id, byte, st2), 0 <= i <= st.len(), 0 <= c < 256
    ensures to(trs(st2), i, c) == (if i == st.len() { FAIL as int } else if i == id && c == byte { st.len() as int } else { to(trs(st), i, c) })
{}
proof fn lemma_grow_edges(st: Seq<State>, ps: Paths, id: int, byte: u8, st2: Seq<State>, i: int, c: int)
    requires trie(trs(st), ps), grow_to(st, id, byte, st2), 2 <= i <= ps.len(), 0 <= c < 256
    ensures ({ let p2 = ps.push(ps[id].push(byte)); let t = to(trs(st2), i, c);
        t == FAIL || (i == START && t == START) || (3 <= t < p2.len() && p2[t] == p2[i].push(c as u8)) })
{
    lemma_grow_to(st, id, byte, st2, i, c);
    if i < ps.len() { let t = to(trs(st), i, c); assert(t == FAIL || (i == START && t == START) || (3 <= t < ps.len() && ps[t] == ps[i].push(c as u8))); }
}
proof fn lemma_grow_parent(st: Seq<State>, ps: Paths, id: int, byte: u8, st2: Seq<State>, i: int)
    requires trie(trs(st), ps), grow_to(st, id, byte, st2), 3 <= i <= ps.len()
    ensures ({ let p2 = ps.push(ps[id].push(byte)); p2[i].len() > 0 && has_parent(trs(st2), p2, i) })
{
    let p2 = ps.push(ps[id].push(byte));
    let tr2 = trs(st2);
    if i == ps.len() {
        assert(p2[i].last() == byte);
        lemma_grow_to(st, id, byte, st2, id, byte as int);
        assert(to(tr2, id, p2[i].last() as int) == i);
    } else {
        assert(ps[i].len() > 0 && has_parent(trs(st), ps, i));
        let j = choose|j: int| 2 <= j < ps.len() && #[trigger] to(trs(st), j, ps[i].last() as int) == i;
        lemma_grow_to(st, id, byte, st2, j, ps[i].last() as int);
        assert(to(tr2, j, p2[i].last() as int) == i);
    }
}
proof fn lemma_grow_new(st: Seq<State>, ps: Paths, id: int, byte: u8, st2: Seq<State>)
    requires trie(trs(st), ps), grow_to(st, id, byte, st2)
    ensures !is_node(ps, ps[id].push(byte)), ps.len() == st.len()
{
    assert(to(trs(st), id, byte as int) == FAIL);
    lemma_child(trs(st), ps, id, byte);
}
// what trie says about the number of states and their texts
proof fn lemma_trie_len(tr: Trs, ps: Paths)
    requires trie(tr, ps)
    ensures tr.len() == ps.len(), ps.len() >= 3, ps[0].len() == 0, ps[1].len() == 0, ps[2].len() == 0,
        forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).len() == 256,
        forall|i: int, j: int| 2 <= i < ps.len() && 2 <= j < ps.len() && #[trigger] ps[i] == #[trigger] ps[j] ==> i == j
{}
proof fn lemma_grow_trie(st: Seq<State>, ps: Paths, id: int, byte: u8, st2: Seq<State>)
    requires trie(trs(st), ps), grow_to(st, id, byte, st2)
    ensures trie(trs(st2), ps.push(ps[id].push(byte))), !is_node(ps, ps[id].push(byte)), ps.len() == st.len()
{
    hide(has_parent);
    let n = st.len() as int;
    let w = ps[id].push(byte);
    let p2 = ps.push(w);
    let (tr, tr2) = (trs(st), trs(st2));
    lemma_grow_new(st, ps, id, byte, st2);
    lemma_trie_len(tr, ps);
    assert(trie(tr2, p2)) by {
        assert forall|i: int, c: int| 2 <= i < p2.len() && 0 <= c < 256 implies ({ let t = #[trigger] to(tr2, i, c);
            t == FAIL || (i == START && t == START) || (3 <= t < p2.len() && p2[t] == p2[i].push(c as u8)) }) by { lemma_grow_edges(st, ps, id, byte, st2, i, c); }
        assert forall|i: int| 3 <= i < p2.len() implies (#[trigger] p2[i]).len() > 0 && has_parent(tr2, p2, i) by { lemma_grow_parent(st, ps, id, byte, st2, i); }
        assert forall|i: int, j: int| 2 <= i < p2.len() && 2 <= j < p2.len() && #[trigger] p2[i] == #[trigger] p2[j] implies i == j by {
            if i == n && j < n { assert(ps[j] == w); } else if j == n && i < n { assert(ps[i] == w); } else if i < n && j < n { assert(ps[i] == ps[j]); }
        }
    }
}
proof fn lemma_node_push(ps: Paths, w: Seq<u8>, v: Seq<u8>) requires is_node(ps, v) ensures is_node(ps.push(w), v) { let i = idx(ps, v); assert(ps.push(w)[i] == v); }
proof fn lemma_grow_fresh(st: Seq<State>, ps: Paths, pats: Pats, k: nat, id: int, byte: u8, st2: Seq<State>)
    requires trie(trs(st), ps), grow_to(st, id, byte, st2), covers(ps, pats, k), !is_node(ps, ps[id].push(byte)), k <= pats.len(),
        forall|i: int| 2 <= i < st.len() ==> #[trigger] fresh(st, ps, pats, k, i)
    ensures forall|i: int| 2 <= i < st2.len() ==> #[trigger] fresh(st2, ps.push(ps[id].push(byte)), pats, k, i)
{
    let w = ps[id].push(byte);
    let p2 = ps.push(w);
    assert forall|i: int| 2 <= i < st2.len() implies #[trigger] fresh(st2, p2, pats, k, i) by {
        if i == st.len() {
            lemma_best(pats, w, 0, k);
            if let Some(b) = best(pats, w, 0, k) { if pats[b].1.len() == w.len() { assert(w.subrange(0, w.len() as int) =~= w); assert(is_node(ps, pats[b].1)); } }
        } else { assert(fresh(st, ps, pats, k, i)); }
    }
}
proof fn lemma_grow(st: Seq<State>, ps: Paths, pats: Pats, k: nat, k2: nat, id: int, byte: u8, st2: Seq<State>)
    requires growing(st, ps, pats, k, k2), grow_to(st, id, byte, st2),
        0 <= k < k2 <= pats.len(), prefix(ps[id].push(byte), pats[k2 - 1].1), st2[st.len() as int].depth == ps[id].len() + 1,
    ensures growing(st2, ps.push(ps[id].push(byte)), pats, k, k2), ps.len() == st.len()
{
    hide(trie); hide(best); hide(is_node); hide(prefix);
    let n = st.len() as int;
    let w = ps[id].push(byte);
    let p2 = ps.push(w);
    let (tr, tr2) = (trs(st), trs(st2));
    lemma_grow_trie(st, ps, id, byte, st2);
    lemma_grow_fresh(st, ps, pats, k, id, byte, st2);
    assert(from_pats(p2, pats, k2)) by { assert forall|i: int| 3 <= i < p2.len() implies #[trigger] origin(p2, pats, k2, i) by {
        if i == n { assert(prefix(p2[i], pats[k2 - 1].1)); } else { assert(origin(ps, pats, k2, i)); }
    } }
    assert(covers(p2, pats, k)) by { assert forall|q: int| 0 <= q < k && q < pats.len() implies is_node(p2, #[trigger] pats[q].1) by {
        assert(is_node(ps, pats[q].1));
        lemma_node_push(ps, w, pats[q].1);
    } }
    assert forall|c: int| 0 <= c < 256 implies #[trigger] to(tr2, 2, c) != START by { lemma_grow_to(st, id, byte, st2, 2, c); assert(to(tr, 2, c) != START); }
}
// the k-th delimiter is recorded at its node
proof fn lemma_record(st: Seq<State>, ps: Paths, pats: Pats, k: nat, id: int, st2: Seq<State>)
    requires growing(st, ps, pats, k, k + 1), 2 <= id < st.len(), k < pats.len(), ps[id] == pats[k as int].1, pats[k as int].1.len() <= usize::MAX,
        st2.len() == st.len(), forall|i: int| 0 <= i < st.len() && i != id ==> st2[i] == st[i],
        same_but_matches(st2[id], st[id]), st2[id].matches@ == st[id].matches@.push(pat(pats[k as int].0, pats[k as int].1.len() as int))
    ensures growing(st2, ps, pats, k + 1, k + 1)
{
    hide(trie);
    let p = pats[k as int].1;
    assert(trs(st2) =~= trs(st));
    lemma_trie_len(trs(st), ps);
    assert(ps[id] == p); assert(is_node(ps, p));
    assert forall|i: int| 2 <= i < st.len() implies #[trigger] fresh(st2, ps, pats, k + 1, i) by {
        assert(fresh(st, ps, pats, k, i));
        let w = ps[i];
        lemma_best(pats, w, 0, k); lemma_best(pats, w, 0, k + 1);
        if i == id { assert(w.subrange(0, w.len() as int) =~= w); assert(occurs(w, p, 0)); }
        else if occurs(w, p, 0) && p.len() == w.len() { assert(w.subrange(0, w.len() as int) =~= w); }
    }
}
proof fn lemma_base(st: Seq<State>, pats: Pats)
    requires st.len() == 3, blank(st[0]), blank(st[1]), blank(st[2]), st[0].depth == 0, st[1].depth == 0, st[2].depth == 0, pats_ok(pats)
    ensures growing(st, seq![Seq::empty(), Seq::empty(), Seq::empty()], pats, 0, 0)
{
    let ps: Paths = seq![Seq::empty(), Seq::empty(), Seq::empty()];
    assert forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 implies #[trigger] to(trs(st), i, c) == FAIL by {}
}
spec fn is_grown(st: Seq<State>, pats: Pats) -> bool { exists|ps: Paths| #[trigger] growing(st, ps, pats, pats.len(), pats.len()) }
impl Builder {
//@fn src/compile/search/ahocorasick/build.rs Builder::build_initial_trie
//@sig fn build_initial_trie(&mut self, patterns: Vec<(Kind, String)>)
//@attr #[verifier::loop_isolation(false)]
//@sub! `for ( $a_id , $b_id ) in patterns . into_iter ( ) { $x }` => `let mut vx_i: usize = 0; while vx_i < patterns.len() { let $a_id = patterns[vx_i].0; let $b_id = &patterns[vx_i].1; vx_i = vx_i + 1; $x }`
//@sub! `for ( $d_id , & $c_id ) in pattern . iter ( ) . enumerate ( ) { $x }` => `let mut vx_d: usize = 0; while vx_d < pattern.len() { let $d_id = vx_d; let $c_id = pattern[vx_d]; vx_d = vx_d + 1; $x }`
//@sub! `pattern . as_ref ( )` => `vx_str_bytes(vx_as_str(pattern))`
//@sub! `pattern_id . into ( )` => `kind_to_usize(pattern_id)`
//@spec
    requires old(self).states@.len() == 3, blank(old(self).states@[0]), blank(old(self).states@[1]), blank(old(self).states@[2]),
        old(self).states@[0].depth == 0, old(self).states@[1].depth == 0, old(self).states@[2].depth == 0, pats_ok(pview(patterns@))
    ensures is_grown(final(self).states@, pview(patterns@))
//@start
    hide(growing);
    let ghost pats = pview(patterns@);
    let ghost mut ps: Paths = seq![Seq::empty(), Seq::empty(), Seq::empty()];
    proof { lemma_base(self.states@, pats); }
//@loop 0
    invariant vx_i <= patterns.len(), growing(self.states@, ps, pats, vx_i as nat, vx_i as nat)
    decreases patterns.len() - vx_i
//@loop_start 0
    let ghost k = vx_i as nat;
    proof { lemma_grow_more(self.states@, ps, pats, k); lemma_growing(self.states@, ps, pats, k, k + 1); }
//@loop 1
    invariant vx_d <= pattern@.len(), pattern@ == pats[k as int].1, growing(self.states@, ps, pats, k, k + 1), 2 <= id < self.states@.len(), ps.len() == self.states@.len(), ps[id as int] == pattern@.subrange(0, vx_d as int)
    decreases pattern@.len() - vx_d
//@loop_start 1
    let ghost st0 = self.states@;
    proof {
        lemma_growing(self.states@, ps, pats, k, k + 1);
        assert(pattern@.subrange(0, vx_d + 1) =~= ps[id as int].push(pattern@[vx_d as int]));
    }
//@after `set_transition ( byte , next ) ;`
    proof {
        lemma_grow(st0, ps, pats, k, k + 1, id as int, byte, self.states@);
        ps = ps.push(ps[id as int].push(byte));
    }
//@before `let p = Pattern :: new`
    let ghost st1 = self.states@;
    proof { assert(pattern@.subrange(0, vx_d as int) =~= pattern@); }
//@loop_end 0
    proof { lemma_record(st1, ps, pats, k, id as int, self.states@); }
//@end
}
proof fn lemma_grow_more(st: Seq<State>, ps: Paths, pats: Pats, k: nat)
    requires growing(st, ps, pats, k, k)
    ensures growing(st, ps, pats, k, k + 1)
{ assert forall|i: int| 3 <= i < ps.len() implies #[trigger] origin(ps, pats, k + 1, i) by { assert(origin(ps, pats, k, i)); } }
// what a step of building needs to know
proof fn lemma_growing(st: Seq<State>, ps: Paths, pats: Pats, k: nat, k2: nat)
    requires growing(st, ps, pats, k, k2)
    ensures st.len() >= 3, ps.len() == st.len(), ps[2] == Seq::<u8>::empty(),
        forall|i: int, c: int| 2 <= i < st.len() && 0 <= c < 256 ==> ({ let t = #[trigger] st[i].trans@[c]; t == FAIL || (3 <= t < st.len() && ps[t as int] == ps[i].push(c as u8)) })
{
    assert(ps[2] =~= Seq::empty());
    assert forall|i: int, c: int| 2 <= i < st.len() && 0 <= c < 256 implies ({ let t = #[trigger] st[i].trans@[c]; t == FAIL || (3 <= t < st.len() && ps[t as int] == ps[i].push(c as u8)) }) by { assert(to(trs(st), i, c) == st[i].trans@[c]); }
}
} // verus!
// ================ failure transitions
verus! {
type Que = Seq<(usize, Option<usize>)>;
spec fn inq(q: Que, i: int) -> bool { exists|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == i }
// breadth first: d is the depth being worked on, cur (if not negative) the state whose transitions below b have been seen
spec fn q_items(ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int) -> bool {
    forall|x: int| 0 <= x < q.len() ==> {
        let i = (#[trigger] q[x]).0 as int;
        3 <= i < ps.len() && done.contains(i) && !popped.contains(i) && i != cur && d <= ps[i].len() <= d + 1
        && (q[x].1 is None || (q[x].1 == Some(1usize) && tag_at(pats, ps[i], 0) is Some)) }
}
spec fn q_sorted(ps: Paths, q: Que) -> bool { forall|x: int, y: int| 0 <= x < y < q.len() ==> (#[trigger] q[x]).0 != (#[trigger] q[y]).0 && ps[q[x].0 as int].len() <= ps[q[y].0 as int].len() }
spec fn q_cover(ps: Paths, q: Que, done: Set<int>, popped: Set<int>, cur: int) -> bool { forall|i: int| #[trigger] done.contains(i) ==> 3 <= i < ps.len() && (popped.contains(i) || i == cur || inq(q, i)) }
spec fn q_popped(ps: Paths, done: Set<int>, popped: Set<int>, d: int, cur: int) -> bool {
    &&& forall|i: int| #[trigger] popped.contains(i) ==> 2 <= i < ps.len() && (i == 2 || done.contains(i))
    &&& popped.finite() && (cur == 2 || popped.contains(2))
    &&& cur >= 0 ==> 2 <= cur < ps.len() && (cur == 2 || done.contains(cur)) && !popped.contains(cur) && ps[cur].len() == d
}
spec fn q_edges(tr: Trs, ps: Paths, done: Set<int>, popped: Set<int>, cur: int, b: int) -> bool {
    forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 && #[trigger] to(tr, i, c) >= 3 ==> (done.contains(to(tr, i, c)) <==> popped.contains(i) || (i == cur && c < b))
}
spec fn q_level(ps: Paths, done: Set<int>, d: int) -> bool { forall|i: int| 3 <= i < ps.len() && (#[trigger] ps[i]).len() <= d ==> done.contains(i) }
spec fn q_ok(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int, b: int) -> bool {
    q_items(ps, pats, q, done, popped, d, cur) && q_sorted(ps, q) && q_cover(ps, q, done, popped, cur) && q_popped(ps, done, popped, d, cur) && q_edges(tr, ps, done, popped, cur, b) && q_level(ps, done, d)
}
proof fn lemma_q_init(tr: Trs, ps: Paths, pats: Pats)
    requires trie(tr, ps)
    ensures q_ok(tr, ps, pats, Seq::empty(), Set::empty(), Set::empty(), 0, 2, 0)
{}
// the parent of a state is the only one that leads to it
proof fn lemma_one_parent(tr: Trs, ps: Paths, i: int, c: int, j: int, e: int)
    requires trie(tr, ps), 2 <= i < ps.len(), 2 <= j < ps.len(), 0 <= c < 256, 0 <= e < 256, to(tr, i, c) == to(tr, j, e), to(tr, i, c) >= 3
    ensures i == j, c == e
{
    let t = to(tr, i, c);
    assert(ps[t] == ps[i].push(c as u8) && ps[t] == ps[j].push(e as u8));
    assert(ps[t].last() == c as u8 && ps[t].last() == e as u8);
    assert(ps[t].drop_last() =~= ps[i]); assert(ps[t].drop_last() =~= ps[j]);
}
proof fn lemma_q_edges(tr: Trs, ps: Paths, done: Set<int>, popped: Set<int>, cur: int, b: int)
    requires trie(tr, ps), q_edges(tr, ps, done, popped, cur, b), 2 <= cur < ps.len(), 0 <= b < 256, to(tr, cur, b) >= 3, !popped.contains(cur)
    ensures q_edges(tr, ps, done.insert(to(tr, cur, b)), popped, cur, b + 1), !done.contains(to(tr, cur, b)), 3 <= to(tr, cur, b) < ps.len(), ps[to(tr, cur, b)].len() == ps[cur].len() + 1
{
    let t = to(tr, cur, b);
    assert(ps[t] == ps[cur].push(b as u8));
    assert forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 && #[trigger] to(tr, i, c) >= 3 implies (done.insert(t).contains(to(tr, i, c)) <==> popped.contains(i) || (i == cur && c < b + 1)) by {
        if to(tr, i, c) == t { lemma_one_parent(tr, ps, i, c, cur, b); }
    }
}
proof fn lemma_to_usize(tr: Trs, i: int, c: int) ensures 0 <= to(tr, i, c) <= usize::MAX {}
proof fn lemma_q_push(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int, b: int, m: Option<usize>)
    requires trie(tr, ps), q_ok(tr, ps, pats, q, done, popped, d, cur, b), 2 <= cur, 0 <= b < 256, to(tr, cur, b) >= 3,
        m is None || (m == Some(1usize) && tag_at(pats, ps[to(tr, cur, b)], 0) is Some)
    ensures ({ let t = to(tr, cur, b);
        3 <= t < ps.len() && !done.contains(t) && ps[t].len() == d + 1 && q_ok(tr, ps, pats, q.push((t as usize, m)), done.insert(t), popped, d, cur, b + 1) })
{
    hide(trie); hide(q_edges); hide(tag_at); hide(to);
    let t = to(tr, cur, b);
    let q2 = q.push((t as usize, m));
    let done2 = done.insert(t);
    lemma_q_edges(tr, ps, done, popped, cur, b);
    lemma_to_usize(tr, cur, b);
    assert(!popped.contains(t)); 
    assert(q_cover(ps, q2, done2, popped, cur)) by { assert forall|i: int| #[trigger] done2.contains(i) implies 3 <= i < ps.len() && (popped.contains(i) || i == cur || inq(q2, i)) by {
        if i == t { assert(q2[q.len() as int].0 == t); }
        else { assert(done.contains(i)); if inq(q, i) { let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == i; assert(q2[x].0 == i); } }
    } }
    assert(q_sorted(ps, q2)) by { assert forall|x: int, y: int| 0 <= x < y < q2.len() implies (#[trigger] q2[x]).0 != (#[trigger] q2[y]).0 && ps[q2[x].0 as int].len() <= ps[q2[y].0 as int].len() by {
        assert(q2[x] == q[x]); assert(done.contains(q[x].0 as int));
        if y == q.len() { assert(q[x].0 != t); } else { assert(q2[y] == q[y]); assert(q[x].0 != q[y].0); }
    } }
    assert(q_items(ps, pats, q2, done2, popped, d, cur)) by { assert forall|x: int| 0 <= x < q2.len() implies ({
        let i = (#[trigger] q2[x]).0 as int;
        3 <= i < ps.len() && done2.contains(i) && !popped.contains(i) && i != cur && d <= ps[i].len() <= d + 1
        && (q2[x].1 is None || (q2[x].1 == Some(1usize) && tag_at(pats, ps[i], 0) is Some)) }) by { if x < q.len() { assert(q2[x] == q[x]); assert(done.contains(q[x].0 as int)); } } }
}
proof fn lemma_q_skip(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int, b: int)
    requires q_ok(tr, ps, pats, q, done, popped, d, cur, b), 2 <= cur, 0 <= b < 256, to(tr, cur, b) < 3
    ensures q_ok(tr, ps, pats, q, done, popped, d, cur, b + 1)
{}
proof fn lemma_q_done(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int)
    requires q_ok(tr, ps, pats, q, done, popped, d, cur, 256), 2 <= cur
    ensures q_ok(tr, ps, pats, q, done, popped.insert(cur), d, -1, 0), popped.insert(cur).len() == popped.len() + 1
{
    assert forall|x: int| 0 <= x < q.len() implies !popped.insert(cur).contains((#[trigger] q[x]).0 as int) by {}
}
proof fn lemma_q_pop(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int)
    requires trie(tr, ps), q_ok(tr, ps, pats, q, done, popped, d, -1, 0), q.len() > 0
    ensures ({ let cur = q[0].0 as int; 3 <= cur < ps.len() && done.contains(cur) && q_ok(tr, ps, pats, q.subrange(1, q.len() as int), done, popped, ps[cur].len() as int, cur, 0) }),
        q[0].1 is None || (q[0].1 == Some(1usize) && tag_at(pats, ps[q[0].0 as int], 0) is Some), popped.len() < ps.len()
{
    let cur = q[0].0 as int;
    let q2 = q.subrange(1, q.len() as int);
    let d2 = ps[cur].len() as int;
    assert forall|x: int| 0 <= x < q2.len() implies (#[trigger] q2[x]) == q[x + 1] by {}
    assert forall|x: int| 0 <= x < q2.len() implies ({
        let i = (#[trigger] q2[x]).0 as int;
        3 <= i < ps.len() && done.contains(i) && !popped.contains(i) && i != cur && d2 <= ps[i].len() <= d2 + 1
        && (q2[x].1 is None || (q2[x].1 == Some(1usize) && tag_at(pats, ps[i], 0) is Some)) }) by {
        assert(q2[x] == q[x + 1]); assert(q[0].0 != q[x + 1].0);
    }
    assert forall|i: int| #[trigger] done.contains(i) implies 3 <= i < ps.len() && (popped.contains(i) || i == cur || inq(q2, i)) by {
        if inq(q, i) && i != cur { let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == i; assert(q2[x - 1].0 == i); }
    }
    assert forall|i: int| 3 <= i < ps.len() && (#[trigger] ps[i]).len() <= d2 implies done.contains(i) by {
        if ps[i].len() > d {
            assert(has_parent(tr, ps, i));
            let j = choose|j: int| 2 <= j < ps.len() && #[trigger] to(tr, j, ps[i].last() as int) == i;
            assert(ps[i] == ps[j].push(ps[i].last()));
            assert(to(tr, j, ps[i].last() as int) >= 3);
            if j != 2 {
                assert(done.contains(j));
                if inq(q, j) { let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == j; if x > 0 { assert(ps[q[0].0 as int].len() <= ps[q[x].0 as int].len()); } }
            }
        }
    }
    lemma_few(popped, ps.len() as int);
}
proof fn lemma_few(s: Set<int>, n: int)
    requires s.finite(), n >= 3, forall|i: int| #[trigger] s.contains(i) ==> 2 <= i < n
    ensures s.len() < n
{
    vstd::set_lib::lemma_int_range(2, n);
    vstd::set_lib::lemma_len_subset(s, vstd::set_lib::set_int_range(2, n));
}
proof fn lemma_q_all(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, i: int)
    requires trie(tr, ps), q_ok(tr, ps, pats, q, done, popped, d, -1, 0), q.len() == 0, 3 <= i < ps.len()
    ensures done.contains(i)
    decreases ps[i].len()
{
    assert(has_parent(tr, ps, i));
    let j = choose|j: int| 2 <= j < ps.len() && #[trigger] to(tr, j, ps[i].last() as int) == i;
    assert(ps[i] == ps[j].push(ps[i].last()));
    assert(to(tr, j, ps[i].last() as int) >= 3);
    if j != 2 { lemma_q_all(tr, ps, pats, q, done, popped, d, j); }
}
} // verus!
// ================ filling in
verus! {
// states whose failure transition is in place, and the others
spec fn st_at(st: Seq<State>, ps: Paths, pats: Pats, done: Set<int>, i: int) -> bool { if done.contains(i) { fin(st, ps, pats, i) } else { fresh(st, ps, pats, pats.len(), i) } }
spec fn st_ok(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>) -> bool {
    trs(st) == tr && st.len() == ps.len() && st.len() >= 3 && depths(st, ps) && st[1].matches@.len() == 0 && st[2].matches@.len() == 0
    && forall|i: int| 3 <= i < st.len() ==> #[trigger] st_at(st, ps, pats, done, i)
}
spec fn ready(st: Seq<State>, ps: Paths, pats: Pats) -> bool { shape(trs(st), ps, pats) && st_ok(st, ps, pats, trs(st), Set::empty()) }
proof fn lemma_st(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>)
    requires st_ok(st, ps, pats, tr, done)
    ensures st.len() == ps.len(), st.len() >= 3, trs(st) == tr, st[2].matches@.len() == 0, st[1].matches@.len() == 0,
        forall|i: int, c: int| 0 <= i < st.len() && 0 <= c < 256 ==> #[trigger] st[i].trans@[c] == to(tr, i, c),
        forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).depth == ps[i].len(),
        forall|i: int| 3 <= i < st.len() && done.contains(i) ==> (#[trigger] st[i]).fail == drop_to(ps, pats, ps[i])
{
    assert forall|i: int, c: int| 0 <= i < st.len() && 0 <= c < 256 implies #[trigger] st[i].trans@[c] == to(tr, i, c) by { assert(trs(st)[i] == st[i].trans@); }
    assert forall|i: int| 3 <= i < st.len() && done.contains(i) implies (#[trigger] st[i]).fail == drop_to(ps, pats, ps[i]) by { assert(st_at(st, ps, pats, done, i)); }
}
// what the matches of a state not yet filled in say
proof fn lemma_own(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>, t: int)
    requires st_ok(st, ps, pats, tr, done), 3 <= t < st.len(), !done.contains(t), ps[t].len() > 0
    ensures st[t].matches@.len() > 0 ==> tag_at(pats, ps[t], 0) == Some((pats[best(pats, ps[t], 0, pats.len())->Some_0].0, ps[t].len() as int)) && st[t].matches@[0].len == ps[t].len() && tag_at(pats, ps[t], 0) is Some,
        st[t].matches@.len() == 0 ==> forall|q: int| 0 <= q < pats.len() ==> #[trigger] pats[q].1 != ps[t],
        st[t].fail == START, st[t].depth == ps[t].len()
{
    assert(st_at(st, ps, pats, done, t));
    let w = ps[t];
    lemma_best(pats, w, 0, pats.len());
    assert(w.subrange(0, w.len() as int) =~= w);
    if st[t].matches@.len() == 0 { assert forall|q: int| 0 <= q < pats.len() implies #[trigger] pats[q].1 != w by { if pats[q].1 == w { assert(occurs(w, pats[q].1, 0)); } } }
}
spec fn only(st: Seq<State>, st2: Seq<State>, t: int) -> bool {
    st2.len() == st.len() && (forall|i: int| 0 <= i < st.len() && i != t ==> st2[i] == st[i]) && st2[t].trans == st[t].trans && st2[t].depth == st[t].depth
}
proof fn lemma_only(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>, t: int, st2: Seq<State>)
    requires st_ok(st, ps, pats, tr, done), 3 <= t < st.len(), only(st, st2, t), fin(st2, ps, pats, t)
    ensures st_ok(st2, ps, pats, tr, done.insert(t))
{
    assert(trs(st2) =~= tr);
    assert forall|i: int| 3 <= i < st.len() implies #[trigger] st_at(st2, ps, pats, done.insert(t), i) by { assert(st_at(st, ps, pats, done, i)); }
}
// a text that begins with a delimiter is never given up for a later one
proof fn lemma_set_dead(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>, t: int, st2: Seq<State>)
    requires st_ok(st, ps, pats, tr, done), 3 <= t < st.len(), !done.contains(t), ps[t].len() > 0, only(st, st2, t),
        st2[t].fail == DEAD, st2[t].matches == st[t].matches, tag_at(pats, ps[t], 0) is Some
    ensures st_ok(st2, ps, pats, tr, done.insert(t))
{
    assert(st_at(st, ps, pats, done, t));
    lemma_best(pats, ps[t], 0, pats.len());
    lemma_only(st, ps, pats, tr, done, t, st2);
}
// a state next to the start
proof fn lemma_set_first(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>, t: int)
    requires shape(tr, ps, pats), st_ok(st, ps, pats, tr, done), 3 <= t < st.len(), !done.contains(t), ps[t].len() == 1, st[t].matches@.len() == 0
    ensures st_ok(st, ps, pats, tr, done.insert(t))
{
    let w = ps[t];
    assert(st_at(st, ps, pats, done, t));
    lemma_own(st, ps, pats, tr, done, t);
    lemma_empty(tr, ps);
    assert(w.subrange(1, 1) =~= Seq::empty());
    lemma_best(pats, w, 0, pats.len());
    if let Some(b) = best(pats, w, 0, pats.len()) { assert(w.subrange(0, 1) =~= w); assert(pats[b].1 =~= w); }
    assert(next_tag(pats, w, 0) == next_tag(pats, w, 1));
    lemma_only(st, ps, pats, tr, done, t, st);
}
proof fn lemma_set_fail(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, done: Set<int>, t: int, cur: int, b: u8, raw: int, st2: Seq<State>)
    requires shape(tr, ps, pats), st_ok(st, ps, pats, tr, done), 3 <= t < st.len(), 3 <= cur < st.len(), !done.contains(t), to(tr, cur, b as int) == t, ps[t] == ps[cur].push(b), ps[cur].len() > 0,
        only(st, st2, t), st[t].matches@.len() == 0, raw == on(ps, pats, drop_to(ps, pats, ps[cur]), b), raw == DEAD || raw == 2 || (3 <= raw < st.len() && done.contains(raw)),
        st2[t].fail == raw, st2[t].matches@ == st[t].matches@ + st[raw].matches@
    ensures st_ok(st2, ps, pats, tr, done.insert(t))
{
    let (u, w) = (ps[cur], ps[t]);
    lemma_own(st, ps, pats, tr, done, t);
    assert(st2[t].matches@ =~= st[raw].matches@);
    lemma_tag_more(pats, u, b, 0);
    lemma_tail_push(u, b);
    let u1 = u.subrange(1, u.len() as int);
    let w1 = w.subrange(1, w.len() as int);
    assert(w1 == u1.push(b));
    lemma_sta_push(tr, ps, pats, u1, b);
    lemma_best(pats, w, 0, pats.len());
    assert(w.subrange(0, w.len() as int) =~= w);
    if tag_at(pats, w, 0) is Some {
        assert(tag_at(pats, u, 0) is Some);
        assert(raw == DEAD);
        let bb = best(pats, w, 0, pats.len())->Some_0;
        assert(pats[bb].1 != w);
        assert(next_tag(pats, w, 0) == Some((pats[bb].0, 0int, pats[bb].1.len() as int)));
        assert(fin(st2, ps, pats, t));
    } else {
        assert(tag_at(pats, u, 0) is None);
        assert(raw == sta(ps, pats, w1));
        lemma_state_tag(tr, ps, pats, w1);
        lemma_sta(tr, ps, pats, w1);
        lemma_skip(pats, w, 1, 1);
        assert(next_tag(pats, w, 0) == next_tag(pats, w, 1));
        if raw == 2 { assert(ps[2].len() == 0); }
        if raw >= 3 { assert(st_at(st, ps, pats, done, raw)); }
        assert(fin(st2, ps, pats, t));
    }
    lemma_only(st, ps, pats, tr, done, t, st2);
}
proof fn lemma_filled(st: Seq<State>, ps: Paths, pats: Pats, tr: Trs, q: Que, done: Set<int>, popped: Set<int>, d: int)
    requires shape(tr, ps, pats), st_ok(st, ps, pats, tr, done), q_ok(tr, ps, pats, q, done, popped, d, -1, 0), q.len() == 0
    ensures automaton(st, ps, pats)
{
    assert forall|i: int| 3 <= i < st.len() implies #[trigger] fin(st, ps, pats, i) by { lemma_q_all(tr, ps, pats, q, done, popped, d, i); assert(st_at(st, ps, pats, done, i)); }
}
} // verus!
// ================ the loops
verus! {
proof fn lemma_drop_range(tr: Trs, ps: Paths, pats: Pats, u: Seq<u8>)
    requires shape(tr, ps, pats)
    ensures ({ let x = drop_to(ps, pats, u); x == DEAD || (2 <= x < ps.len() && ps[x].len() < u.len()) })
{ if u.len() > 0 { lemma_sta(tr, ps, pats, u.subrange(1, u.len() as int)); } }
proof fn lemma_shape(tr: Trs, ps: Paths, pats: Pats)
    requires shape(tr, ps, pats)
    ensures trie(tr, ps), ps.len() >= 3, ps[1].len() == 0, ps[2].len() == 0, forall|c: int| 0 <= c < 256 ==> #[trigger] to(tr, 1, c) == DEAD,
        forall|c: int| 0 <= c < 256 ==> #[trigger] to(tr, 2, c) >= 2,
        forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 && #[trigger] to(tr, i, c) >= 3 ==> to(tr, i, c) < ps.len() && ps[to(tr, i, c)] == ps[i].push(c as u8),
        forall|i: int, c: int| 3 <= i < ps.len() && 0 <= c < 256 ==> #[trigger] to(tr, i, c) == FAIL || to(tr, i, c) >= 3,
        forall|i: int| 3 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0
{
    assert forall|c: int| 0 <= c < 256 implies #[trigger] to(tr, 2, c) >= 2 by {}
}
proof fn lemma_more_tag(pats: Pats, w: Seq<u8>, c: u8) requires tag_at(pats, w, 0) is Some ensures tag_at(pats, w.push(c), 0) is Some { lemma_tag_more(pats, w, c, 0); }
proof fn lemma_goal(tr: Trs, ps: Paths, pats: Pats, u: Seq<u8>, c: u8)
    requires shape(tr, ps, pats), u.len() > 0
    ensures ({ let x = on(ps, pats, drop_to(ps, pats, u), c); x == DEAD || (2 <= x < ps.len() && ps[x].len() <= u.len()) })
{
    lemma_drop_range(tr, ps, pats, u);
    let f = drop_to(ps, pats, u);
    if f != DEAD { lemma_sta(tr, ps, pats, ps[f].push(c)); }
}
proof fn lemma_q_cur(tr: Trs, ps: Paths, pats: Pats, q: Que, done: Set<int>, popped: Set<int>, d: int, cur: int, b: int)
    requires q_ok(tr, ps, pats, q, done, popped, d, cur, b), 2 <= cur
    ensures cur < ps.len(), cur == 2 || done.contains(cur), ps[cur].len() == d, forall|i: int| 3 <= i < ps.len() && (#[trigger] ps[i]).len() <= d ==> done.contains(i)
{}
proof fn lemma_has_tag(ps: Paths, pats: Pats, u: Seq<u8>) requires tag_at(pats, u, 0) is Some ensures drop_to(ps, pats, u) == DEAD {}
impl Builder {
//@fn src/compile/search/ahocorasick/build.rs Builder::fill_failure_transitions
//@sig fn fill_failure_transitions(&mut self, Ghost(ps): Ghost<Paths>, Ghost(pats): Ghost<Pats>)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sub! `for $b_id in all ( ) { $x }` => `let vx_all = all(); let mut vx_b: usize = vx_all.0 as usize; while vx_b <= vx_all.1 as usize { let $b_id = vx_b as u8; vx_b = vx_b + 1; $x }`
//@sub! `while let Some ( $p ) = queue . pop_front ( ) { $x }` => `loop { match queue.pop_front() { Some($p) => { $x } None => { break } } }`
//@sub `let mut queue = VecDeque :: new ( )` => `let mut queue = VecDeque::<(usize, Option<usize>)>::new()`
//@spec
    requires ready(old(self).states@, ps, pats)
    ensures automaton(final(self).states@, ps, pats)
//@start
    hide(q_ok); hide(st_ok); hide(shape); hide(trie); hide(tag_at); hide(next_tag); hide(best); hide(fin); hide(fresh); hide(sta); hide(drop_to); hide(automaton); hide(depths); hide(to);
    let ghost tr = trs(self.states@);
    let ghost mut done: Set<int> = Set::empty();
    let ghost mut popped: Set<int> = Set::empty();
    let ghost mut d: int = 0;
    proof { lemma_shape(tr, ps, pats); lemma_q_init(tr, ps, pats); }
//@loop 0
    invariant vx_b <= 256, shape(tr, ps, pats), st_ok(self.states@, ps, pats, tr, done), q_ok(tr, ps, pats, queue@, done, popped, 0, 2, vx_b as int), popped == Set::<int>::empty()
    decreases 256 - vx_b
//@loop_start 0
    let ghost st0 = self.states@;
    let ghost done0 = done;
    proof {
        lemma_st(st0, ps, pats, tr, done);
        lemma_shape(tr, ps, pats);
        if to(tr, 2, vx_b as int) < 3 { lemma_q_skip(tr, ps, pats, queue@, done, popped, 0, 2, vx_b as int); }
        else { lemma_q_push(tr, ps, pats, queue@, done, popped, 0, 2, vx_b as int, None); lemma_own(st0, ps, pats, tr, done, to(tr, 2, vx_b as int)); }
    }
//@loop_end 0
    proof {
        let t = to(tr, 2, vx_b - 1);
        if t >= 3 {
            if st0[t].matches@.len() > 0 { lemma_set_dead(st0, ps, pats, tr, done0, t, self.states@); }
            else { lemma_set_first(st0, ps, pats, tr, done0, t); assert(self.states@ =~= st0); }
            done = done.insert(t);
        }
    }
//@before `loop { match`
    proof { lemma_q_done(tr, ps, pats, queue@, done, popped, 0, 2); popped = popped.insert(2); }
//@loop 1
    invariant shape(tr, ps, pats), st_ok(self.states@, ps, pats, tr, done), q_ok(tr, ps, pats, queue@, done, popped, d, -1, 0)
    ensures automaton(self.states@, ps, pats)
    decreases ps.len() - popped.len()
//@loop_start 1
    let ghost q0 = queue@;
    let ghost mut st1 = self.states@;
    proof {
        if q0.len() > 0 { lemma_q_pop(tr, ps, pats, q0, done, popped, d); lemma_shape(tr, ps, pats); lemma_st(self.states@, ps, pats, tr, done); d = ps[q0[0].0 as int].len() as int; }
    }
//@before `let prev_len`
    let ghost popped0 = popped;
    let ghost u = ps[curr as int];
    let ghost md0 = match_depth;
    proof { assert(queue@ =~= q0.subrange(1, q0.len() as int)); }
//@loop 2
    invariant vx_b <= 256, shape(tr, ps, pats), st_ok(self.states@, ps, pats, tr, done), q_ok(tr, ps, pats, queue@, done, popped, d, curr as int, vx_b as int),
        3 <= curr < ps.len(), popped == popped0, u == ps[curr as int], match_depth is None || (match_depth == Some(1usize) && tag_at(pats, u, 0) is Some),
        prev_len <= queue@.len(), queue@.len() == prev_len ==> forall|c: int| 0 <= c < vx_b ==> #[trigger] to(tr, curr as int, c) == FAIL
    decreases 256 - vx_b
//@loop_start 2
    let ghost st0 = self.states@;
    let ghost done0 = done;
    let ghost t = to(tr, curr as int, vx_b as int);
    let ghost goal = on(ps, pats, drop_to(ps, pats, u), vx_b as u8);
    proof {
        lemma_st(st0, ps, pats, tr, done);
        lemma_shape(tr, ps, pats);
        lemma_q_cur(tr, ps, pats, queue@, done, popped, d, curr as int, vx_b as int);
        lemma_goal(tr, ps, pats, u, vx_b as u8);
        lemma_drop_range(tr, ps, pats, u);
        if t < 3 { lemma_q_skip(tr, ps, pats, queue@, done, popped, d, curr as int, vx_b as int); }
        else {
            if tag_at(pats, u, 0) is Some { lemma_more_tag(pats, u, vx_b as u8); }
            lemma_q_push(tr, ps, pats, queue@, done, popped, d, curr as int, vx_b as int, None);
            lemma_own(st0, ps, pats, tr, done, t);
            if tag_at(pats, ps[t], 0) is Some { lemma_q_push(tr, ps, pats, queue@, done, popped, d, curr as int, vx_b as int, Some(1usize)); }
        }
    }
//@loop 3
    invariant 1 <= id < ps.len(), id == DEAD ==> goal == DEAD, id != DEAD ==> goal == sta(ps, pats, ps[id as int].push(byte)) && ps[id as int].len() < u.len()
    decreases (if id == DEAD { 0 } else { ps[id as int].len() + 1 })
//@loop_start 3
    proof { lemma_shape(tr, ps, pats); if id != DEAD { lemma_step(tr, ps, pats, id as int, byte); } }
//@before `self . state ( id ) . next_state ( byte ) }`
    proof { lemma_shape(tr, ps, pats); if id != DEAD { lemma_step(tr, ps, pats, id as int, byte); } }
//@before `if let Some ( match_depth ) = next_match_depth`
    proof {
        lemma_shape(tr, ps, pats);
        lemma_st(st0, ps, pats, tr, done0);
        assert(fail == goal);
    }
//@before `continue ;` 1
    proof { lemma_set_dead(st0, ps, pats, tr, done0, t, self.states@); done = done.insert(t); }
//@after `self . copy_matches ( fail , next ) ;`
    proof { lemma_set_fail(st0, ps, pats, tr, done0, t, curr as int, byte, goal, self.states@); done = done.insert(t); }
//@before `if queue . len ( ) == prev_len`
    proof {
        st1 = self.states@;
        lemma_st(st1, ps, pats, tr, done);
        lemma_q_cur(tr, ps, pats, queue@, done, popped, d, curr as int, 256);
        if queue@.len() == prev_len { lemma_leaf(tr, ps, pats, curr as int); lemma_has_tag(ps, pats, ps[curr as int]); }
        lemma_q_done(tr, ps, pats, queue@, done, popped, d, curr as int);
        popped = popped.insert(curr as int);
    }
//@loop_end 1
    proof { assert(self.states@ =~= st1); }
//@before `break`
    proof { lemma_filled(self.states@, ps, pats, tr, q0, done, popped, d); }
//@end
}
} // verus!
// ================ build
verus! {
proof fn lemma_looped(st: Seq<State>, ps: Paths, pats: Pats, st2: Seq<State>)
    requires growing(st, ps, pats, pats.len(), pats.len()), st2.len() == st.len(), forall|i: int| 3 <= i < st.len() ==> st2[i] == st[i],
        st2[0] == st[0], st2[1].matches == st[1].matches, st2[1].depth == st[1].depth, st2[2].matches == st[2].matches, st2[2].depth == st[2].depth,
        forall|c: int| 0 <= c < 256 ==> st2[1].trans@[c] == DEAD,
        forall|c: int| 0 <= c < 256 ==> st2[2].trans@[c] == (if st[2].trans@[c] == FAIL { START } else { st[2].trans@[c] })
    ensures ready(st2, ps, pats)
{
    hide(trie); hide(best); hide(origin); hide(is_node);
    let (tr, tr2) = (trs(st), trs(st2));
    lemma_trie_len(tr, ps);
    assert forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 implies #[trigger] to(tr2, i, c) == (if i == 2 && to(tr, 2, c) == FAIL { START as int } else { to(tr, i, c) }) by {}
    assert forall|c: int| 0 <= c < 256 implies #[trigger] to(tr2, 1, c) == DEAD by {}
    lemma_looped_trie(tr, ps, tr2);
    assert(looped(tr2)) by { assert forall|c: int| 0 <= c < 256 implies #[trigger] to(tr2, 2, c) != FAIL by {} }
    assert(fresh(st, ps, pats, pats.len(), 2));
    lemma_best(pats, ps[2], 0, pats.len());
    assert(st[2].matches@.len() == 0);
    assert(from_pats(ps, pats, pats.len()));
    assert(covers(ps, pats, pats.len()));
    assert(shape(tr2, ps, pats));
    assert forall|i: int| 3 <= i < st2.len() implies #[trigger] st_at(st2, ps, pats, Set::empty(), i) by { assert(fresh(st, ps, pats, pats.len(), i)); }
}
proof fn lemma_looped_trie(tr: Trs, ps: Paths, tr2: Trs)
    requires trie(tr, ps), tr2.len() == tr.len(), forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr2[i]).len() == 256,
        forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 ==> #[trigger] to(tr2, i, c) == (if i == 2 && to(tr, 2, c) == FAIL { START as int } else { to(tr, i, c) })
    ensures trie(tr2, ps)
{
    hide(has_parent);
    lemma_trie_len(tr, ps);
    lemma_looped_edges(tr, ps, tr2);
    assert forall|i: int| 3 <= i < ps.len() implies (#[trigger] ps[i]).len() > 0 && has_parent(tr2, ps, i) by { lemma_looped_parent(tr, ps, tr2, i); }
}
proof fn lemma_looped_parent(tr: Trs, ps: Paths, tr2: Trs, i: int)
    requires trie(tr, ps), 3 <= i < ps.len(),
        forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 ==> #[trigger] to(tr2, i, c) == (if i == 2 && to(tr, 2, c) == FAIL { START as int } else { to(tr, i, c) })
    ensures ps[i].len() > 0, has_parent(tr2, ps, i)
{
    assert(ps[i].len() > 0 && has_parent(tr, ps, i));
    let j = choose|j: int| 2 <= j < ps.len() && #[trigger] to(tr, j, ps[i].last() as int) == i;
    assert(to(tr2, j, ps[i].last() as int) == i);
}
proof fn lemma_looped_edges(tr: Trs, ps: Paths, tr2: Trs)
    requires trie(tr, ps), forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 ==> #[trigger] to(tr2, i, c) == (if i == 2 && to(tr, 2, c) == FAIL { START as int } else { to(tr, i, c) })
    ensures forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 ==> {
        let t = #[trigger] to(tr2, i, c);
        t == FAIL || (i == START && t == START) || (3 <= t < ps.len() && ps[t] == ps[i].push(c as u8)) }
{
    assert forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 implies ({
        let t = #[trigger] to(tr2, i, c);
        t == FAIL || (i == START && t == START) || (3 <= t < ps.len() && ps[t] == ps[i].push(c as u8)) }) by { assert(to(tr, i, c) == to(tr, i, c)); }
}
impl Builder {
// TRUSTED: derive(Default)
#[verifier::external_body]
fn default() -> (r: Builder) ensures r.states@.len() == 0 { unimplemented!() }
//@fn src/compile/search/ahocorasick/build.rs Builder::build
//@sig fn build(vx_self: Builder, patterns: Vec<(Kind, String)>) -> AhoCorasick
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `self` => `vx_s`
//@sub! `for $b_id in all ( ) { $x }` => `let vx_all = all(); let mut vx_b: usize = vx_all.0 as usize; while vx_b <= vx_all.1 as usize { let $b_id = vx_b as u8; vx_b = vx_b + 1; $x }`
//@sub! `fill_failure_transitions ( )` => `fill_failure_transitions(Ghost(ps), Ghost(pats))`
//@spec
    requires vx_self.states@.len() == 0, pats_ok(pview(patterns@))
    ensures searching(r, pview(patterns@))
//@start
    hide(trie); hide(shape); hide(st_ok); hide(fresh); hide(automaton); hide(ready); hide(fin); hide(growing); hide(best); hide(next_tag);
    let mut vx_s = vx_self;
    let ghost pats = pview(patterns@);
//@after `vx_s . build_initial_trie ( patterns ) ;`
    let ghost st = vx_s.states@;
    let ghost ps = choose|ps: Paths| growing(st, ps, pats, pats.len(), pats.len());
    proof { lemma_growing(st, ps, pats, pats.len(), pats.len()); lemma_basis(st, ps, pats); }
//@loop 0
    invariant vx_b <= 256, start.fail == st[2].fail, start.matches == st[2].matches, start.depth == st[2].depth,
        forall|c: int| 0 <= c < vx_b ==> start.trans@[c] == (if st[2].trans@[c] == FAIL { START } else { st[2].trans@[c] }),
        forall|c: int| vx_b <= c < 256 ==> start.trans@[c] == st[2].trans@[c]
    decreases 256 - vx_b
//@loop 1
    invariant vx_b <= 256, dead.fail == st[1].fail, dead.matches == st[1].matches, dead.depth == st[1].depth,
        forall|c: int| 0 <= c < vx_b ==> dead.trans@[c] == DEAD,
        forall|c: int| vx_b <= c < 256 ==> dead.trans@[c] == st[1].trans@[c]
    decreases 256 - vx_b
//@before `vx_s . fill_failure_transitions`
    proof { lemma_looped(st, ps, pats, vx_s.states@); }
//@after `vx_s . fill_failure_transitions ( Ghost ( ps ) , Ghost ( pats ) ) ;`
    let ghost fst = vx_s.states@;
    proof { lemma_start(fst, ps, pats); }
//@loop 2
    invariant vx_b <= 256
    decreases 256 - vx_b
//@before `let Self { states }`
    proof { assert(vx_s.states@ == fst); assert(automaton(vx_s.states@, ps, pats)); }
//@before `AhoCorasick { states }`
    proof { assert(automaton(states@, ps, pats)); lemma_searching(AhoCorasick { states }, ps, pats); }
//@end
}
proof fn lemma_searching(a: AhoCorasick, ps: Paths, pats: Pats) requires automaton(a.states@, ps, pats) ensures searching(a, pats) {}
proof fn lemma_basis(st: Seq<State>, ps: Paths, pats: Pats)
    requires growing(st, ps, pats, pats.len(), pats.len())
    ensures base(st)
{}
} // verus!
