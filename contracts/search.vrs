//@include text.vrs
//@include kinds.vrs
//@use syntaxfns.vrs
//@include tags.vrs
//@include automaton.vrs
// C01: the searcher finds the first, longest delimiter
verus! {
fn vx_str_bytes(s: &str) -> (r: &[u8]) ensures r@ == bs(s) { reveal(bs); s.as_bytes() }
spec fn searching(a: AhoCorasick, pats: Pats) -> bool { exists|ps: Paths| #[trigger] automaton(a.states@, ps, pats) }
// the delimiters an automaton searches for (thm_same: what is found does not depend on the choice)
spec fn searching_good(a: AhoCorasick, p: Pats) -> bool { searching(a, p) && pats_good(p) }
spec fn apats(a: AhoCorasick) -> Pats { choose|p: Pats| #[trigger] searching_good(a, p) }
spec fn searchable_ac(a: AhoCorasick) -> bool { searching_good(a, apats(a)) }
spec fn spats(s: Searcher) -> Pats { apats(s.imp) }
spec fn searchable(s: Searcher) -> bool { searchable_ac(s.imp) }
spec fn match_of(m: Option<Match>, r: Option<(Kind, int, int)>) -> bool {
    match r { Some((k, i, e)) => m is Some && m->Some_0.end == e && m->Some_0.pattern == pat(k, e - i) && 0 <= i <= e, None => m is None }
}
proof fn lemma_occ_len(pats: Pats, s: Seq<u8>, i: int)
    requires pats_ok(pats)
    ensures match next_tag(pats, s, i) { Some((k, j, e)) => i <= j < e <= s.len() && tag_at(pats, s, j) == Some((k, e)), None => true }
    decreases s.len() - i
{
    if 0 <= i < s.len() { lemma_best(pats, s, i, pats.len()); if tag_at(pats, s, i) is None { lemma_occ_len(pats, s, i + 1); } }
}
// reading one more byte
proof fn lemma_read(st: Seq<State>, ps: Paths, pats: Pats, w: Seq<u8>, c: u8)
    requires automaton(st, ps, pats), w.len() < usize::MAX
    ensures ({ let x = sta(ps, pats, w.push(c)); let (a, b) = (next_tag(pats, w, 0), next_tag(pats, w.push(c), 0));
        (x == DEAD ==> b == a && a is Some)
        && x == on(ps, pats, sta(ps, pats, w), c)
        && (x != DEAD ==> 2 <= x < st.len() && ps[x].len() <= w.len() + 1)
        && (x != DEAD && st[x].matches@.len() == 0 ==> b == a)
        && (x != DEAD && st[x].matches@.len() > 0 ==> b is Some && b->Some_0.2 == w.len() + 1 && st[x].matches@[0] == pat(b->Some_0.0, b->Some_0.2 - b->Some_0.1)) })
{
    let x = sta(ps, pats, w.push(c));
    lemma_sta_push(trs(st), ps, pats, w, c);
    lemma_sta(trs(st), ps, pats, w.push(c));
    lemma_state_tag(trs(st), ps, pats, w.push(c));
    if x == DEAD { lemma_next_more(pats, w, c, 0); }
    else {
        if x == 2 { lemma_occ_len(pats, ps[2], 0); } else { assert(fin(st, ps, pats, x)); }
        assert(mat_ok(st[x].matches@, pats, ps[x]));
        if st[x].matches@.len() == 0 { lemma_next_more(pats, w, c, 0); }
    }
}
proof fn lemma_start(st: Seq<State>, ps: Paths, pats: Pats)
    requires automaton(st, ps, pats)
    ensures sta(ps, pats, Seq::empty()) == 2, st.len() >= 3, st[2].matches@.len() == 0, next_tag(pats, Seq::empty(), 0) is None, pats_ok(pats)
{ lemma_empty(trs(st), ps); }
proof fn lemma_past(pats: Pats, s: Seq<u8>, i: int) ensures i >= s.len() ==> next_tag(pats, s, i) is None {}
proof fn lemma_ac(st: Seq<State>, ps: Paths, pats: Pats)
    requires automaton(st, ps, pats)
    ensures shape(trs(st), ps, pats), pats_ok(pats), st.len() >= 3
{}
impl State {
//@fn src/compile/search/ahocorasick/state.rs State::next_state
//@ret r
//@spec
    ensures r == self.trans@[byte as int]
//@end
//@fn src/compile/search/ahocorasick/state.rs State::is_match
//@ret r
//@spec
    ensures r == (self.matches@.len() > 0)
//@end
}
impl AhoCorasick {
//@fn src/compile/search/ahocorasick/mod.rs AhoCorasick::state
//@ret r
//@spec
    requires id < self.states@.len()
    ensures *r == self.states@[id as int]
//@end
//@fn src/compile/search/ahocorasick/mod.rs AhoCorasick::get_match
//@ret r
//@sub `self . state ( $i ) . matches . get ( $x ) . map ( | & pattern | $b )` => `match self.state($i).matches.get($x) { Some(vx_p) => Some({ let pattern = *vx_p; $b }), None => None }`
//@spec
    requires id < self.states@.len(), match_id == 0
    ensures match r { Some(m) => self.states@[id as int].matches@.len() > 0 && m.end == end && m.pattern == self.states@[id as int].matches@[0], None => self.states@[id as int].matches@.len() == 0 }
//@end
//@fn src/compile/search/ahocorasick/mod.rs AhoCorasick::next_state
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@spec
    requires searchable_ac(*self), 2 <= id < self.states@.len()
    ensures forall|ps: Paths| #[trigger] automaton(self.states@, ps, apats(*self)) ==> r == sta(ps, apats(*self), ps[id as int].push(byte))
//@start
    let ghost pats = apats(*self);
    let ghost st = self.states@;
    let ghost id0 = id as int;
    let ghost ps = choose|ps: Paths| automaton(st, ps, pats);
    proof { assert forall|p2: Paths| #[trigger] automaton(st, p2, pats) implies p2 == ps by { lemma_paths(trs(st), ps, p2); } }
//@loop 0
    invariant st == self.states@, 1 <= id < st.len(), automaton(st, ps, pats), id == DEAD ==> sta(ps, pats, ps[id0].push(byte)) == DEAD,
        id != DEAD ==> sta(ps, pats, ps[id0].push(byte)) == sta(ps, pats, ps[id as int].push(byte))
    decreases (if id == DEAD { 0 } else { ps[id as int].len() + 1 })
//@loop_start 0
    proof {
        assert(trs(st)[id as int] == st[id as int].trans@);
        assert(to(trs(st), id as int, byte as int) == st[id as int].trans@[byte as int]);
        if id != DEAD { lemma_step(trs(st), ps, pats, id as int, byte); if id >= 3 { assert(fin(st, ps, pats, id as int)); } }
    }
//@end
//@fn src/compile/search/ahocorasick/mod.rs AhoCorasick::find_at
//@sig fn find_at(&self, haystack: &[u8], mut at: usize) -> Option<Match>
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@sub `haystack . as_ref ( )` => `haystack`
//@spec
    requires searchable_ac(*self)
    ensures match_of(r, next_tag(apats(*self), haystack@, at as int))
//@start
    hide(automaton); hide(next_tag); hide(tag_at); hide(best); hide(sta); hide(trie); hide(shape); hide(is_node); hide(idx);
    let ghost pats = apats(*self);
    let ghost st = self.states@;
    let ghost at0 = at as int;
    let ghost ps = choose|ps: Paths| automaton(st, ps, pats);
    proof {
        lemma_start(st, ps, pats);
        lemma_past(pats, haystack@, at0);
        if at0 <= haystack@.len() {
            assert(haystack@.subrange(at0, at0) =~= Seq::empty());
            lemma_skip(pats, haystack@, at0, at0);
        }
    }
//@loop 0
    invariant automaton(st, ps, pats), at0 <= at, at0 > haystack@.len() ==> at == at0 && last_match is None,
        at0 <= haystack@.len() ==> at <= haystack@.len() && 2 <= state < st.len() && state == sta(ps, pats, haystack@.subrange(at0, at as int))
            && match_of(last_match, shifted(next_tag(pats, haystack@.subrange(at0, at as int), 0), at0))
    decreases haystack@.len() - at
//@loop_start 0
    let ghost w = haystack@.subrange(at0, at as int);
    proof {
        lemma_read(st, ps, pats, w, haystack@[at as int]);
        assert(w.push(haystack@[at as int]) =~= haystack@.subrange(at0, at + 1));
        lemma_ac(st, ps, pats);
        lemma_occ_len(pats, w.push(haystack@[at as int]), 0);
    }
//@before `return last_match`
    proof {
        let h = haystack@.subrange(at0, haystack@.len() as int);
        lemma_ac(st, ps, pats);
        assert(h.subrange(0, at - at0) =~= haystack@.subrange(at0, at as int));
        lemma_dead(trs(st), ps, pats, h, at - at0);
    }
//@end
//@fn src/compile/search/ahocorasick/mod.rs AhoCorasick::new
//@sig fn new(patterns: Vec<(Kind, String)>) -> AhoCorasick
//@ret r
//@sub `Builder :: default ( ) . build (` => `Builder::build(Builder::default(), `
//@spec
    requires pats_ok(pview(patterns@))
    ensures searching(r, pview(patterns@))
//@end
}
impl Match {
//@fn src/compile/search/ahocorasick/mod.rs Match::pattern_id
//@ret r
//@spec
    ensures r == self.pattern.id
//@end
//@fn src/compile/search/ahocorasick/mod.rs Match::start
//@ret r
//@spec
    requires self.pattern.len <= self.end
    ensures r == self.end - self.pattern.len
//@end
//@fn src/compile/search/ahocorasick/mod.rs Match::end
//@ret r
//@spec
    ensures r == self.end
//@end
}
impl Pattern {
//@fn src/compile/search/ahocorasick/mod.rs Pattern::new
//@ret r
//@spec
    ensures r == (Pattern { id, len })
//@end
}
// a trie's texts are decided by its transitions
proof fn lemma_paths(tr: Trs, p1: Paths, p2: Paths)
    requires trie(tr, p1), trie(tr, p2)
    ensures p1 == p2
{
    assert forall|i: int| 0 <= i < p1.len() implies p1[i] == p2[i] by { if i >= 2 { lemma_paths_at(tr, p1, p2, i, p1[i].len()); } else { assert(p1[i] =~= p2[i]); } }
    assert(p1 =~= p2);
}
proof fn lemma_paths_at(tr: Trs, p1: Paths, p2: Paths, i: int, n: nat)
    requires trie(tr, p1), trie(tr, p2), 2 <= i < p1.len(), p1[i].len() == n
    ensures p1[i] == p2[i]
    decreases n
{
    if i == 2 { assert(p1[2] =~= p2[2]); } else {
        assert(has_parent(tr, p1, i));
        let j = choose|j: int| 2 <= j < p1.len() && #[trigger] to(tr, j, p1[i].last() as int) == i;
        lemma_paths_at(tr, p1, p2, j, p1[j].len());
    }
}
// ---------------------------------------------------------------- what is found is decided by the automaton
proof fn lemma_best_cut(pats: Pats, s: Seq<u8>, i: int, b: int, u: Seq<u8>)
    requires best(pats, s, i, pats.len()) == Some(b), u == pats[b].1
    ensures best(pats, u, 0, pats.len()) == Some(b)
{
    lemma_best(pats, s, i, pats.len()); lemma_best(pats, u, 0, pats.len());
    assert(u.subrange(0, u.len() as int) =~= u);
    assert(occurs(u, pats[b].1, 0));
    let c = best(pats, u, 0, pats.len())->Some_0;
    assert(occurs(s, pats[c].1, i)) by { assert(s.subrange(i, i + pats[c].1.len()) =~= s.subrange(i, i + u.len()).subrange(0, pats[c].1.len() as int)); }
}
proof fn lemma_transfer(st: Seq<State>, ps: Paths, p1: Pats, p2: Pats, s: Seq<u8>, i: int)
    requires automaton(st, ps, p1), automaton(st, ps, p2), tag_at(p1, s, i) is Some, 0 <= i, s.len() <= usize::MAX
    ensures tag_at(p2, s, i) is Some, tag_at(p2, s, i)->Some_0.1 >= tag_at(p1, s, i)->Some_0.1,
        tag_at(p2, s, i)->Some_0.1 == tag_at(p1, s, i)->Some_0.1 ==> tag_at(p2, s, i) == tag_at(p1, s, i)
{
    hide(trie);
    let b = best(p1, s, i, p1.len())->Some_0;
    lemma_best(p1, s, i, p1.len());
    let u = p1[b].1;
    lemma_best_cut(p1, s, i, b, u);
    assert(next_tag(p1, u, 0) == Some((p1[b].0, 0int, u.len() as int)));
    assert(is_node(ps, u));
    let x = idx(ps, u);
    lemma_trie_len(trs(st), ps);
    assert(fin(st, ps, p1, x)); assert(fin(st, ps, p2, x));
    assert(st[x].matches@[0] == pat(p1[b].0, u.len() as int));
    let (k2, s2, e2) = next_tag(p2, u, 0)->Some_0;
    lemma_occ_len(p2, u, 0);
    assert(pat(k2, e2 - s2) == pat(p1[b].0, u.len() as int));
    assert(s2 == 0);
    thm_kind_numbers(k2, p1[b].0);
    let c = best(p2, u, 0, p2.len())->Some_0;
    lemma_best(p2, u, 0, p2.len());
    assert(u.subrange(0, u.len() as int) =~= u);
    assert(p2[c].1 == u);
    assert(occurs(s, p2[c].1, i));
    lemma_best(p2, s, i, p2.len());
    let b2 = best(p2, s, i, p2.len())->Some_0;
    if p2[b2].1.len() == u.len() { lemma_best_cut(p2, s, i, b2, u); }
}
proof fn lemma_same_tag(st: Seq<State>, ps: Paths, p1: Pats, p2: Pats, s: Seq<u8>, i: int)
    requires automaton(st, ps, p1), automaton(st, ps, p2), 0 <= i, s.len() <= usize::MAX
    ensures tag_at(p1, s, i) == tag_at(p2, s, i)
{
    if tag_at(p1, s, i) is Some { lemma_transfer(st, ps, p1, p2, s, i); }
    if tag_at(p2, s, i) is Some { lemma_transfer(st, ps, p2, p1, s, i); }
}
proof fn lemma_same_next(st: Seq<State>, ps: Paths, p1: Pats, p2: Pats, s: Seq<u8>, i: int)
    requires automaton(st, ps, p1), automaton(st, ps, p2), s.len() <= usize::MAX
    ensures next_tag(p1, s, i) == next_tag(p2, s, i)
    decreases s.len() - i
{
    if 0 <= i < s.len() { lemma_same_tag(st, ps, p1, p2, s, i); lemma_same_next(st, ps, p1, p2, s, i + 1); }
}
spec fn same_finds(p1: Pats, p2: Pats) -> bool { forall|s: Seq<u8>, i: int| s.len() <= usize::MAX ==> #[trigger] next_tag(p1, s, i) == next_tag(p2, s, i) }
proof fn thm_same(a: AhoCorasick, p1: Pats, p2: Pats)
    requires searching(a, p1), searching(a, p2)
    ensures same_finds(p1, p2)
{
    let ps = choose|ps: Paths| automaton(a.states@, ps, p1);
    let qs = choose|qs: Paths| automaton(a.states@, qs, p2);
    lemma_paths(trs(a.states@), ps, qs);
    assert forall|s: Seq<u8>, i: int| s.len() <= usize::MAX implies #[trigger] next_tag(p1, s, i) == next_tag(p2, s, i) by { lemma_same_next(a.states@, ps, p1, p2, s, i); }
}
impl Searcher {
//@fn src/compile/search/mod.rs Searcher::new
//@ret r
//@sub `Self` => `Searcher`
//@spec
    requires pats_good(pview(syntax.patterns@))
    ensures searchable(r), same_finds(spats(r), pview(syntax.patterns@))
//@start
    let ghost pats = pview(syntax.patterns@);
//@tail
    proof { assert(searching_good(vx_ret.imp, pats)); thm_same(vx_ret.imp, apats(vx_ret.imp), pats); }
//@end
//@fn src/compile/search/mod.rs Searcher::find_at
//@sig fn find_at(&self, haystack: &str, at: usize) -> Option<(Kind, usize, usize)>
//@ret r
//@sub `self . imp . find_at ( haystack , $a ) . map ( | $m_id | { $b } )` => `match self.imp.find_at(vx_str_bytes(haystack), $a) { Some($m_id) => Some({ $b }), None => None }`
//@spec
    requires searchable(*self)
    ensures match next_tag(spats(*self), bs(haystack), at as int) { Some((k, j, e)) => r == Some((k, j as usize, e as usize)), None => r is None }
//@tail
    proof { lemma_occ_len(apats(self.imp), bs(haystack), at as int); if vx_ret is Some { thm_kind_numbers(vx_ret->Some_0.0, next_tag(spats(*self), bs(haystack), at as int)->Some_0.0); } }
//@end
}
} // verus!
//@include builder.vrs
verus! { fn main() {} }
