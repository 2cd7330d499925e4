// What the searcher says about a text (proved in search.vrs)
verus! {
#[verifier::external_body]
struct Searcher { x: u8 }
uninterp spec fn spats(s: Searcher) -> Pats;
spec fn searchable(s: Searcher) -> bool { pats_good(spats(s)) }
impl Searcher {
    #[verifier::external_body]
    fn find_at(&self, haystack: &str, at: usize) -> (r: Option<(Kind, usize, usize)>)
        requires searchable(*self)
        ensures match next_tag(spats(*self), bs(haystack), at as int) { Some((k, j, e)) => r == Some((k, j as usize, e as usize)), None => r is None }
    { unimplemented!() }
}
} // verus!
