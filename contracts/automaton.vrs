// C01: the search automaton. What each state stands for is the text that leads to it from the start state.
verus! {
//@item src/compile/search/ahocorasick/state.rs S
//@end
//@item src/compile/search/ahocorasick/state.rs FAIL
//@end
//@item src/compile/search/ahocorasick/state.rs DEAD
//@end
//@item src/compile/search/ahocorasick/state.rs START
//@end
//@item src/compile/search/ahocorasick/state.rs State
//@end
//@item src/compile/search/ahocorasick/mod.rs Pattern
//@attr #[derive(Clone, Copy)]
//@end
//@item src/compile/search/ahocorasick/mod.rs Match
//@end
//@item src/compile/search/ahocorasick/mod.rs AhoCorasick
//@end
//@item src/compile/search/ahocorasick/build.rs Builder
//@end
//@item src/compile/search/mod.rs Searcher
//@end
// ---------------------------------------------------------------- states and texts
type Paths = Seq<Seq<u8>>;
type Trs = Seq<Seq<usize>>;
spec fn trs(st: Seq<State>) -> Trs { Seq::new(st.len(), |i: int| st[i].trans@) }
spec fn is_node(ps: Paths, w: Seq<u8>) -> bool { exists|i: int| 2 <= i < ps.len() && #[trigger] ps[i] == w }
spec fn idx(ps: Paths, w: Seq<u8>) -> int { choose|i: int| 2 <= i < ps.len() && #[trigger] ps[i] == w }
spec fn prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
spec fn origin(ps: Paths, pats: Pats, k: nat, i: int) -> bool { exists|q: int| 0 <= q < k && q < pats.len() && prefix(ps[i], #[trigger] pats[q].1) }
spec fn to(tr: Trs, i: int, c: int) -> int { tr[i][c] as int }
spec fn has_parent(tr: Trs, ps: Paths, i: int) -> bool { exists|j: int| 2 <= j < ps.len() && #[trigger] to(tr, j, ps[i].last() as int) == i }
// the transitions form a trie over the texts
spec fn trie(tr: Trs, ps: Paths) -> bool {
    &&& tr.len() == ps.len() && ps.len() >= 3
    &&& ps[0].len() == 0 && ps[1].len() == 0 && ps[2].len() == 0
    &&& forall|i: int| 0 <= i < tr.len() ==> (#[trigger] tr[i]).len() == 256
    &&& forall|i: int, c: int| 2 <= i < ps.len() && 0 <= c < 256 ==> {
        let t = #[trigger] to(tr, i, c);
        t == FAIL || (i == START && t == START) || (3 <= t < ps.len() && ps[t] == ps[i].push(c as u8)) }
    &&& forall|i: int| 3 <= i < ps.len() ==> (#[trigger] ps[i]).len() > 0 && has_parent(tr, ps, i)
    &&& forall|i: int, j: int| 2 <= i < ps.len() && 2 <= j < ps.len() && #[trigger] ps[i] == #[trigger] ps[j] ==> i == j
}
spec fn from_pats(ps: Paths, pats: Pats, k: nat) -> bool { forall|i: int| 3 <= i < ps.len() ==> #[trigger] origin(ps, pats, k, i) }
spec fn covers(ps: Paths, pats: Pats, k: nat) -> bool { forall|q: int| 0 <= q < k && q < pats.len() ==> is_node(ps, #[trigger] pats[q].1) }
// the start state and the dead state lead back to themselves
spec fn looped(tr: Trs) -> bool { (forall|c: int| 0 <= c < 256 ==> #[trigger] to(tr, 2, c) != FAIL) && (forall|c: int| 0 <= c < 256 ==> #[trigger] to(tr, 1, c) == DEAD) }
spec fn shape(tr: Trs, ps: Paths, pats: Pats) -> bool {
    trie(tr, ps) && from_pats(ps, pats, pats.len()) && covers(ps, pats, pats.len()) && looped(tr) && pats_ok(pats)
}
spec fn depths(st: Seq<State>, ps: Paths) -> bool { forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).depth == ps[i].len() }
// the state after w: the longest end of w that is a node, unless a match starts before it
spec fn sta(ps: Paths, pats: Pats, w: Seq<u8>) -> int
    decreases w.len()
{ if is_node(ps, w) { idx(ps, w) } else if tag_at(pats, w, 0) is Some || w.len() == 0 { DEAD as int } else { sta(ps, pats, w.subrange(1, w.len() as int)) } }
// where the search goes on when no text starting where w starts can be found
spec fn drop_to(ps: Paths, pats: Pats, w: Seq<u8>) -> int { if tag_at(pats, w, 0) is Some || w.len() == 0 { DEAD as int } else { sta(ps, pats, w.subrange(1, w.len() as int)) } }
spec fn pat(k: Kind, n: int) -> Pattern { Pattern { id: kind_num(k) as usize, len: n as usize } }
// a match that ends where w ends
spec fn found(m: Seq<Pattern>, k: Kind, n: int) -> bool { m.len() > 0 && m[0] == pat(k, n) }
spec fn mat_ok(m: Seq<Pattern>, pats: Pats, w: Seq<u8>) -> bool {
    match next_tag(pats, w, 0) { Some((k, s, e)) => if e == w.len() { found(m, k, e - s) } else { m.len() == 0 }, None => m.len() == 0 }
}
spec fn own_ok(m: Seq<Pattern>, pats: Pats, w: Seq<u8>, k: nat) -> bool {
    match best(pats, w, 0, k) { Some(b) => if pats[b].1.len() == w.len() { found(m, pats[b].0, w.len() as int) } else { m.len() == 0 }, None => m.len() == 0 }
}
spec fn fin(st: Seq<State>, ps: Paths, pats: Pats, i: int) -> bool { st[i].fail == drop_to(ps, pats, ps[i]) && mat_ok(st[i].matches@, pats, ps[i]) }
spec fn fresh(st: Seq<State>, ps: Paths, pats: Pats, k: nat, i: int) -> bool { st[i].fail == START && own_ok(st[i].matches@, pats, ps[i], k) }
spec fn automaton(st: Seq<State>, ps: Paths, pats: Pats) -> bool {
    shape(trs(st), ps, pats) && depths(st, ps) && st[2].matches@.len() == 0 && st[1].matches@.len() == 0
    && forall|i: int| 3 <= i < st.len() ==> #[trigger] fin(st, ps, pats, i)
}
spec fn small(pats: Pats) -> bool { forall|q: int| 0 <= q < pats.len() ==> (#[trigger] pats[q]).1.len() <= isize::MAX }

// ---------------------------------------------------------------- delimiters and ends of texts
spec fn shifted(r: Option<(Kind, int, int)>, d: int) -> Option<(Kind, int, int)> { match r { Some((k, i, e)) => Some((k, i + d, e + d)), None => None } }
proof fn lemma_occurs_skip(s: Seq<u8>, p: Seq<u8>, d: int, i: int)
    requires 0 <= d <= s.len(), i >= d
    ensures occurs(s, p, i) == occurs(s.subrange(d, s.len() as int), p, i - d)
{
    if i + p.len() <= s.len() { assert(s.subrange(d, s.len() as int).subrange(i - d, i - d + p.len()) =~= s.subrange(i, i + p.len())); }
}
proof fn lemma_best_skip(pats: Pats, s: Seq<u8>, d: int, i: int, k: nat)
    requires 0 <= d <= s.len(), i >= d
    ensures best(pats, s, i, k) == best(pats, s.subrange(d, s.len() as int), i - d, k)
    decreases k
{
    if k > 0 && k <= pats.len() { lemma_best_skip(pats, s, d, i, (k - 1) as nat); lemma_occurs_skip(s, pats[k - 1].1, d, i); }
}
proof fn lemma_skip(pats: Pats, s: Seq<u8>, d: int, i: int)
    requires 0 <= d <= s.len(), i >= d
    ensures next_tag(pats, s, i) == shifted(next_tag(pats, s.subrange(d, s.len() as int), i - d), d)
    decreases s.len() - i
{
    if i < s.len() { lemma_best_skip(pats, s, d, i, pats.len()); lemma_skip(pats, s, d, i + 1); }
}
proof fn lemma_occurs_less(w: Seq<u8>, p: Seq<u8>, c: u8, i: int)
    ensures occurs(w, p, i) ==> occurs(w.push(c), p, i),
        occurs(w.push(c), p, i) && i + p.len() <= w.len() ==> occurs(w, p, i),
        occurs(w.push(c), p, i) && i == 0 && i + p.len() > w.len() ==> p == w.push(c)
{
    if 0 <= i && i + p.len() <= w.len() { assert(w.push(c).subrange(i, i + p.len()) =~= w.subrange(i, i + p.len())); }
    if i == 0 && p.len() == w.len() + 1 { assert(w.push(c).subrange(0, w.len() as int + 1) =~= w.push(c)); }
}
// one more character: the tag at i is the same unless one ends with it
proof fn lemma_tag_more(pats: Pats, w: Seq<u8>, c: u8, i: int)
    requires 0 <= i
    ensures tag_at(pats, w, i) is Some ==> tag_at(pats, w.push(c), i) is Some,
        tag_at(pats, w.push(c), i) is Some && tag_at(pats, w.push(c), i)->Some_0.1 <= w.len() ==> tag_at(pats, w, i) == tag_at(pats, w.push(c), i),
        tag_at(pats, w.push(c), i) is Some ==> tag_at(pats, w.push(c), i)->Some_0.1 <= w.len() + 1,
        i == 0 && tag_at(pats, w.push(c), 0) is Some && tag_at(pats, w, 0) is None ==> exists|q: int| 0 <= q < pats.len() && #[trigger] pats[q].1 == w.push(c)
{
    let n = pats.len();
    lemma_best(pats, w, i, n); lemma_best(pats, w.push(c), i, n);
    if let Some(b) = best(pats, w, i, n) { lemma_occurs_less(w, pats[b].1, c, i); }
    if let Some(b) = best(pats, w.push(c), i, n) {
        lemma_occurs_less(w, pats[b].1, c, i);
        if i + pats[b].1.len() <= w.len() {
            let a = best(pats, w, i, n)->Some_0;
            assert(best(pats, w, i, n) is Some);
            assert(occurs(w.push(c), pats[a].1, i)); assert(occurs(w, pats[b].1, i));
            assert(a == b);
        }
    }
}
proof fn lemma_next_more(pats: Pats, w: Seq<u8>, c: u8, i: int)
    requires 0 <= i, pats_ok(pats), next_tag(pats, w.push(c), i) is Some ==> next_tag(pats, w.push(c), i)->Some_0.2 != w.len() + 1
    ensures next_tag(pats, w.push(c), i) == next_tag(pats, w, i)
    decreases w.len() + 1 - i
{
    if i <= w.len() {
        lemma_tag_more(pats, w, c, i);
        lemma_best(pats, w.push(c), i, pats.len()); lemma_best(pats, w, i, pats.len());
        if tag_at(pats, w.push(c), i) is None { lemma_next_more(pats, w, c, i + 1); }
    }
}
// ---------------------------------------------------------------- nodes
proof fn lemma_idx(tr: Trs, ps: Paths, i: int)
    requires trie(tr, ps), 2 <= i < ps.len()
    ensures is_node(ps, ps[i]), idx(ps, ps[i]) == i
{ }
proof fn lemma_parent(tr: Trs, ps: Paths, w: Seq<u8>) -> (j: int)
    requires trie(tr, ps), is_node(ps, w), w.len() > 0
    ensures is_node(ps, w.drop_last()), 2 <= j < ps.len(), ps[j] == w.drop_last(), to(tr, j, w.last() as int) == idx(ps, w), 3 <= idx(ps, w) < ps.len()
{
    let i = idx(ps, w);
    let j = choose|j: int| 2 <= j < ps.len() && #[trigger] to(tr, j, ps[i].last() as int) == i;
    assert(has_parent(tr, ps, i));
    assert(ps[i] == ps[j].push(ps[i].last()));
    assert(ps[j] =~= w.drop_last());
    j
}
proof fn lemma_prefix_node(tr: Trs, ps: Paths, v: Seq<u8>, w: Seq<u8>)
    requires trie(tr, ps), is_node(ps, w), prefix(v, w)
    ensures is_node(ps, v)
    decreases w.len()
{
    if v.len() == w.len() { assert(v =~= w); }
    else {
        let j = lemma_parent(tr, ps, w);
        assert(w.drop_last().subrange(0, v.len() as int) =~= w.subrange(0, v.len() as int));
        lemma_prefix_node(tr, ps, v, w.drop_last());
    }
}
// a transition leads to the node of the longer text
proof fn lemma_child(tr: Trs, ps: Paths, i: int, c: u8)
    requires trie(tr, ps), 2 <= i < ps.len()
    ensures is_node(ps, ps[i].push(c)) ==> to(tr, i, c as int) == idx(ps, ps[i].push(c)) && to(tr, i, c as int) >= 3,
        to(tr, i, c as int) >= 3 ==> is_node(ps, ps[i].push(c)) && to(tr, i, c as int) == idx(ps, ps[i].push(c)) && to(tr, i, c as int) < ps.len() && ps[to(tr, i, c as int)] == ps[i].push(c),
{
    let w = ps[i].push(c);
    assert(w.drop_last() =~= ps[i]);
    if is_node(ps, w) { let j = lemma_parent(tr, ps, w); assert(j == i); }
    let t = to(tr, i, c as int);
    if t >= 3 { lemma_idx(tr, ps, t); }
}
proof fn lemma_empty(tr: Trs, ps: Paths) requires trie(tr, ps) ensures is_node(ps, Seq::empty()), idx(ps, Seq::empty()) == 2
{ assert(ps[2] =~= Seq::empty()); lemma_idx(tr, ps, 2); }
proof fn lemma_pat_node(tr: Trs, ps: Paths, pats: Pats, w: Seq<u8>)
    requires shape(tr, ps, pats), exists|q: int| 0 <= q < pats.len() && #[trigger] pats[q].1 == w
    ensures is_node(ps, w)
{}
// a state without children stands for a whole delimiter
proof fn lemma_leaf(tr: Trs, ps: Paths, pats: Pats, i: int)
    requires shape(tr, ps, pats), 3 <= i < ps.len(), forall|c: int| 0 <= c < 256 ==> #[trigger] to(tr, i, c) == FAIL
    ensures tag_at(pats, ps[i], 0) is Some
{
    assert(origin(ps, pats, pats.len(), i));
    let q = choose|q: int| 0 <= q < pats.len() && prefix(ps[i], #[trigger] pats[q].1);
    let (u, p) = (ps[i], pats[q].1);
    if u.len() < p.len() {
        let v = p.subrange(0, u.len() as int + 1);
        assert(is_node(ps, p));
        lemma_prefix_node(tr, ps, v, p);
        assert(v =~= u.push(v.last()));
        lemma_child(tr, ps, i, v.last());
    }
    assert(u =~= p);
    assert(occurs(u, p, 0)) by { assert(u.subrange(0, u.len() as int) =~= u); }
    lemma_best(pats, u, 0, pats.len());
}
proof fn lemma_sta(tr: Trs, ps: Paths, pats: Pats, w: Seq<u8>)
    requires shape(tr, ps, pats)
    ensures ({ let x = sta(ps, pats, w); x == DEAD || (2 <= x < ps.len() && ps[x].len() <= w.len() && is_node(ps, ps[x]) && idx(ps, ps[x]) == x && sta(ps, pats, ps[x]) == x) })
    decreases w.len()
{
    lemma_empty(tr, ps);
    if w.len() == 0 { assert(w =~= Seq::empty()); }
    if is_node(ps, w) { lemma_idx(tr, ps, idx(ps, w)); }
    else if tag_at(pats, w, 0) is None && w.len() > 0 { lemma_sta(tr, ps, pats, w.subrange(1, w.len() as int)); }
}
proof fn lemma_tail_push(w: Seq<u8>, c: u8) requires w.len() > 0 ensures w.push(c).subrange(1, w.len() as int + 1) == w.subrange(1, w.len() as int).push(c)
{ assert(w.push(c).subrange(1, w.len() as int + 1) =~= w.subrange(1, w.len() as int).push(c)); }
spec fn on(ps: Paths, pats: Pats, x: int, c: u8) -> int { if x == DEAD { DEAD as int } else { sta(ps, pats, ps[x].push(c)) } }
// no node: what one more character leads to is decided by where the search goes on
proof fn lemma_drop(tr: Trs, ps: Paths, pats: Pats, w: Seq<u8>, c: u8)
    requires shape(tr, ps, pats), w.len() > 0, !is_node(ps, w.push(c))
    ensures drop_to(ps, pats, w.push(c)) == on(ps, pats, drop_to(ps, pats, w), c), sta(ps, pats, w.push(c)) == drop_to(ps, pats, w.push(c)),
        ({ let x = drop_to(ps, pats, w); x == DEAD || (2 <= x < ps.len() && ps[x].len() < w.len() && is_node(ps, ps[x]) && idx(ps, ps[x]) == x) })
    decreases w.len(), 0nat
{
    lemma_tag_more(pats, w, c, 0);
    lemma_tail_push(w, c);
    if tag_at(pats, w.push(c), 0) is Some && tag_at(pats, w, 0) is None { lemma_pat_node(tr, ps, pats, w.push(c)); }
    lemma_sta_push(tr, ps, pats, w.subrange(1, w.len() as int), c);
    lemma_sta(tr, ps, pats, w.subrange(1, w.len() as int));
}
proof fn lemma_sta_push(tr: Trs, ps: Paths, pats: Pats, w: Seq<u8>, c: u8)
    requires shape(tr, ps, pats)
    ensures sta(ps, pats, w.push(c)) == on(ps, pats, sta(ps, pats, w), c)
    decreases w.len(), 1nat
{
    lemma_empty(tr, ps);
    if w.len() == 0 { assert(w =~= Seq::empty()); }
    if is_node(ps, w) { } else {
        if is_node(ps, w.push(c)) { let j = lemma_parent(tr, ps, w.push(c)); assert(w.push(c).drop_last() =~= w); }
        lemma_drop(tr, ps, pats, w, c);
    }
}
// one step of the automaton
proof fn lemma_step(tr: Trs, ps: Paths, pats: Pats, i: int, c: u8)
    requires shape(tr, ps, pats), 2 <= i < ps.len()
    ensures ({ let t = to(tr, i, c as int); let f = drop_to(ps, pats, ps[i]);
        (t != FAIL ==> t == sta(ps, pats, ps[i].push(c)) && 2 <= t < ps.len())
        && (t == FAIL ==> 3 <= i && !is_node(ps, ps[i].push(c)) && sta(ps, pats, ps[i].push(c)) == on(ps, pats, f, c) && (f == DEAD || (2 <= f < ps.len() && ps[f].len() < ps[i].len()))) })
{
    let t = to(tr, i, c as int);
    lemma_child(tr, ps, i, c);
    lemma_empty(tr, ps);
    if t == FAIL { lemma_drop(tr, ps, pats, ps[i], c); }
    else if t == START {
        assert(ps[2] =~= Seq::empty());
        let w = ps[i].push(c);
        assert(!is_node(ps, w));
        lemma_tag_more(pats, ps[2], c, 0);
        lemma_best(pats, ps[2], 0, pats.len());
        if tag_at(pats, w, 0) is Some { lemma_pat_node(tr, ps, pats, w); }
        assert(w.subrange(1, 1) =~= Seq::empty());
        assert(w.subrange(1, w.len() as int) =~= Seq::empty());
        assert(sta(ps, pats, w) == sta(ps, pats, w.subrange(1, w.len() as int)));
    }
}
// the first match in w is the first match in the text its state stands for
proof fn lemma_state_tag(tr: Trs, ps: Paths, pats: Pats, w: Seq<u8>)
    requires shape(tr, ps, pats)
    ensures ({ let x = sta(ps, pats, w);
        (x != DEAD ==> next_tag(pats, w, 0) == shifted(next_tag(pats, ps[x], 0), w.len() - ps[x].len()))
        && (x == DEAD ==> next_tag(pats, w, 0) is Some && next_tag(pats, w, 0)->Some_0.2 < w.len()) })
    decreases w.len()
{
    let x = sta(ps, pats, w);
    let n = w.len() as int;
    if is_node(ps, w) { lemma_idx(tr, ps, idx(ps, w)); assert(ps[x] == w); }
    else if n == 0 { lemma_empty(tr, ps); assert(w =~= Seq::empty()); }
    else if tag_at(pats, w, 0) is Some {
        lemma_best(pats, w, 0, pats.len());
        let b = best(pats, w, 0, pats.len())->Some_0;
        if pats[b].1.len() == n { assert(w.subrange(0, n) =~= w); lemma_pat_node(tr, ps, pats, w); }
        assert(next_tag(pats, w, 0) == Some((pats[b].0, 0int, pats[b].1.len() as int)));
    } else {
        let v = w.subrange(1, n);
        lemma_state_tag(tr, ps, pats, v);
        lemma_skip(pats, w, 1, 1);
        lemma_sta(tr, ps, pats, v);
        assert(next_tag(pats, w, 0) == next_tag(pats, w, 1));
        assert(x == sta(ps, pats, v));
    }
}
// once dead, nothing more is found
proof fn lemma_dead(tr: Trs, ps: Paths, pats: Pats, h: Seq<u8>, n: int)
    requires shape(tr, ps, pats), 0 <= n <= h.len(), sta(ps, pats, h.subrange(0, n)) == DEAD
    ensures next_tag(pats, h, 0) == next_tag(pats, h.subrange(0, n), 0)
    decreases h.len() - n
{
    let w = h.subrange(0, n);
    if n == h.len() { assert(w =~= h); } else {
        let c = h[n];
        assert(w.push(c) =~= h.subrange(0, n + 1));
        lemma_sta_push(tr, ps, pats, w, c);
        lemma_state_tag(tr, ps, pats, w.push(c));
        lemma_next_more(pats, w, c, 0);
        lemma_dead(tr, ps, pats, h, n + 1);
    }
}
} // verus!
