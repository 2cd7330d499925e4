// C17: the registry is a map from names
verus! {
//@item src/lib.rs EngineFn
//@end
//@item src/lib.rs TemplateRef
//@sub `program :: Template` => `Template`
//@end
// ---------------------------------------------------------------- TRUSTED: BTreeMap keyed by text (keys equal iff their bytes are)
#[verifier::external_body]
fn vx_new_map<'a, V>() -> (r: BTreeMap<&'a str, V>) ensures bmap(r) == Map::<Seq<u8>, V>::empty() { BTreeMap::new() }
#[verifier::external_body]
fn vx_insert<'a, V>(m: &mut BTreeMap<&'a str, V>, k: &'a str, v: V) -> (r: Option<V>)
    ensures bmap(*final(m)) == bmap(*old(m)).insert(bs(k), v), r == at_key(bmap(*old(m)), bs(k))
{ m.insert(k, v) }
#[verifier::external_body]
fn vx_remove<'a, V>(m: &mut BTreeMap<&'a str, V>, k: &str) -> (r: Option<V>)
    ensures bmap(*final(m)) == bmap(*old(m)).remove(bs(k)), r == at_key(bmap(*old(m)), bs(k))
{ m.remove(k) }
#[verifier::external_body]
fn vx_get_key_value<'b, 'a, V>(m: &'b BTreeMap<&'a str, V>, k: &str) -> (r: Option<(&'b &'a str, &'b V)>)
    ensures match at_key(bmap(*m), bs(k)) { Some(x) => r is Some && *r->Some_0.1 == x && bs(*r->Some_0.0) == bs(k), None => r is None }
{ m.get_key_value(k) }
// ---------------------------------------------------------------- what the registry calls
// a syntax, the delimiters it configures (C18) and the automaton made of it (C01)
#[verifier::external_body]
struct Syntax<'a> { x: std::marker::PhantomData<&'a u8> }
uninterp spec fn searcher_of(s: Syntax) -> Searcher;
#[verifier::external_body]
fn vx_searcher(s: Syntax) -> (r: Searcher) ensures r == searcher_of(s) { unimplemented!() }
#[verifier::external_body]
fn vx_default_syntax<'a>() -> (r: Syntax<'a>) { unimplemented!() }
uninterp spec fn the_default() -> FormatFn;
#[verifier::external_body]
fn vx_default_formatter<'a>() -> (r: &'a FormatFn) ensures *r == the_default() { unimplemented!() }
// the template a source compiles to under these delimiters, or what the compiler says against it
uninterp spec fn compiles_to(s: Searcher, src: Seq<u8>) -> std::result::Result<Seq<Instr>, EV>;
mod compile { use super::*; verus! {
    // compiled templates are code of a tree of their source: proved from parse.vrs and compile.vrs
    #[verifier::external_body]
    pub(crate) fn template<'e, 's>(engine: &Engine<'e>, source: &'s str) -> (r: Result<Template<'s>>)
        ensures r is Ok ==> compiled(r->Ok_0) && bs(r->Ok_0.source) == bs(source) && compiles_to(engine.searcher, bs(source)) == Ok::<Seq<Instr>, EV>(r->Ok_0.instrs@),
            r is Err ==> r->Err_0.v().kind is Syntax && r->Err_0.v().name is None && compiles_to(engine.searcher, bs(source)) == Err::<Seq<Instr>, EV>(r->Err_0.v())
    { unimplemented!() }
} }
spec fn kind_of(f: EngineBoxFn) -> EngineFn { match f { EngineBoxFn::Filter(_) => EngineFn::Filter, EngineBoxFn::Formatter(_) => EngineFn::Formatter } }
spec fn kinds(o: Option<EngineBoxFn>) -> Option<EngineFn> { match o { Some(f) => Some(kind_of(f)), None => None } }
// the invariant: what is in the registry was compiled
spec fn eng_ok(e: Engine) -> bool { forall|n: Seq<u8>| #[trigger] bmap(e.templates).contains_key(n) ==> compiled(bmap(e.templates)[n]) }
proof fn thm_env(i: RendererInner)
    requires eng_ok(*i.engine), i.template_fn is None
    ensures env_ok(env_of(i))
{ }
impl EngineBoxFn {
//@fn src/lib.rs EngineBoxFn::discriminant
//@ret r
//@spec
    ensures r == kind_of(*self)
//@end
}
impl<'engine> Engine<'engine> {
//@fn src/lib.rs Engine::new
//@ret r
//@sub `Syntax :: default ( )` => `vx_default_syntax()`
//@spec
    ensures bmap(r.functions) == Map::<Seq<u8>, EngineBoxFn>::empty(), bmap(r.templates) == Map::<Seq<u8>, Template>::empty(), eng_ok(r), r.max_include_depth == 64, *r.default_formatter == the_default()
//@end
//@fn src/lib.rs <Default for Engine>::default
//@ret r
//@spec
    ensures bmap(r.functions) == Map::<Seq<u8>, EngineBoxFn>::empty(), bmap(r.templates) == Map::<Seq<u8>, Template>::empty(), eng_ok(r), r.max_include_depth == 64, *r.default_formatter == the_default()
//@end
//@fn src/lib.rs Engine::with_syntax
//@ret r
//@sub `Searcher :: new ( $x )` => `vx_searcher($x)`
//@sub `& fmt :: default` => `vx_default_formatter()`
//@sub `BTreeMap :: new ( )` => `vx_new_map()`
//@spec
    ensures r.searcher == searcher_of(syntax), bmap(r.functions) == Map::<Seq<u8>, EngineBoxFn>::empty(), bmap(r.templates) == Map::<Seq<u8>, Template>::empty(), eng_ok(r),
        r.max_include_depth == 64, *r.default_formatter == the_default()
//@end
//@fn src/lib.rs Engine::set_max_include_depth
//@spec
    ensures final(self).max_include_depth == depth, final(self).searcher == old(self).searcher, final(self).default_formatter == old(self).default_formatter,
        final(self).functions == old(self).functions, final(self).templates == old(self).templates
//@end
//@fn src/lib.rs Engine::set_default_formatter
//@sig fn set_default_formatter(&mut self, f: &'engine FormatFn)
//@spec
    ensures final(self).default_formatter == f, final(self).searcher == old(self).searcher, final(self).max_include_depth == old(self).max_include_depth,
        final(self).functions == old(self).functions, final(self).templates == old(self).templates
//@end
//@fn src/lib.rs Engine::add_formatter
//@sig fn add_formatter(&mut self, name: &'engine str, f: FormatFn) -> Option<EngineFn>
//@ret r
//@sub `name . into ( )` => `name`
//@sub `self . functions . insert (` => `vx_insert(&mut self.functions,`
//@sub `. map ( | $f_id | $f_id . discriminant ( ) )` => `.map(|vx_f: EngineBoxFn| -> (vx_k: EngineFn) ensures vx_k == kind_of(vx_f) { vx_f.discriminant() })`
//@spec
    ensures final(self).searcher == old(self).searcher, final(self).max_include_depth == old(self).max_include_depth, final(self).default_formatter == old(self).default_formatter,
        final(self).templates == old(self).templates,
        is_now(bmap(old(self).functions), bmap(final(self).functions), bs(name)), bmap(final(self).functions)[bs(name)] is Formatter, *bmap(final(self).functions)[bs(name)]->Formatter_0 == f,
        r == kinds(fn_named(old(self).functions, bs(name)))
//@end
//@fn src/lib.rs Engine::add_filter
//@sig fn add_filter(&mut self, name: &'engine str, f: FilterFn) -> Option<EngineFn>
//@ret r
//@sub `name . into ( )` => `name`
//@sub `filters :: new ( f )` => `Box::new(f)`
//@sub `self . functions . insert (` => `vx_insert(&mut self.functions,`
//@sub `. map ( | $f_id | $f_id . discriminant ( ) )` => `.map(|vx_f: EngineBoxFn| -> (vx_k: EngineFn) ensures vx_k == kind_of(vx_f) { vx_f.discriminant() })`
//@spec
    ensures final(self).searcher == old(self).searcher, final(self).max_include_depth == old(self).max_include_depth, final(self).default_formatter == old(self).default_formatter,
        final(self).templates == old(self).templates,
        is_now(bmap(old(self).functions), bmap(final(self).functions), bs(name)), bmap(final(self).functions)[bs(name)] is Filter, *bmap(final(self).functions)[bs(name)]->Filter_0 == f,
        r == kinds(fn_named(old(self).functions, bs(name)))
//@end
//@fn src/lib.rs Engine::remove_function
//@ret r
//@sub `self . functions . remove ( $x )` => `vx_remove(&mut self.functions, $x)`
//@sub `. map ( | $f_id | $f_id . discriminant ( ) )` => `.map(|vx_f: EngineBoxFn| -> (vx_k: EngineFn) ensures vx_k == kind_of(vx_f) { vx_f.discriminant() })`
//@spec
    ensures final(self).searcher == old(self).searcher, final(self).max_include_depth == old(self).max_include_depth, final(self).default_formatter == old(self).default_formatter,
        final(self).templates == old(self).templates,
        bmap(final(self).functions) == bmap(old(self).functions).remove(bs(name)),
        r == kinds(fn_named(old(self).functions, bs(name)))
//@end
//@fn src/lib.rs Engine::add_template
//@sig fn add_template(&mut self, name: &'engine str, source: &'engine str) -> Result<()>
//@ret r
//@sub `name . into ( ) . into ( )` => `vx_to_owned(name)`
//@sub `name . into ( )` => `name`
//@sub `source . into ( )` => `source`
//@sub `self . templates . insert (` => `vx_insert(&mut self.templates,`
//@spec
    requires eng_ok(*old(self))
    ensures eng_ok(*final(self)), added(*old(self), *final(self), bs(name), bs(source), r)
//@end
//@fn src/lib.rs Engine::template
//@ret r
//@spec
    // documented to panic otherwise
    requires template_named(self.templates, bs(name)) is Some
    ensures ref_to(*self, bs(name), r)
//@end
//@fn src/lib.rs Engine::get_template
//@ret r
//@sub `self . templates . get_key_value ( name ) . map ( | ( $n_id , $t_id ) | TemplateRef { $b } )` => `(match vx_get_key_value(&self.templates, name) { Some(($n_id, $t_id)) => Some(TemplateRef { $b }), None => None })`
//@spec
    ensures match template_named(self.templates, bs(name)) { Some(t) => r is Some && ref_to(*self, bs(name), r->Some_0), None => r is None }
//@end
//@fn src/lib.rs Engine::remove_template
//@ret r
//@sub `self . templates . remove ( $x )` => `vx_remove(&mut self.templates, $x)`
//@spec
    ensures final(self).searcher == old(self).searcher, final(self).max_include_depth == old(self).max_include_depth, final(self).default_formatter == old(self).default_formatter,
        final(self).functions == old(self).functions,
        bmap(final(self).templates) == bmap(old(self).templates).remove(bs(name)),
        r == (template_named(old(self).templates, bs(name)) is Some),
        eng_ok(*old(self)) ==> eng_ok(*final(self))
//@end
//@fn src/lib.rs Engine::compile
//@sig fn compile<'source>(&self, source: &'source str) -> Result<PubTemplate<'source>>
//@ret r
//@sub `source . into ( )` => `source`
//@sub `Template {` => `PubTemplate {`
//@spec
    ensures match compiles_to(self.searcher, bs(source)) {
        Ok(is) => r is Ok && r->Ok_0.template.instrs@ == is && bs(r->Ok_0.template.source) == bs(source) && compiled(r->Ok_0.template),
        Err(e) => r is Err && r->Err_0.v() == e,
    }
//@end
}
// only this name changed
spec fn is_now<V>(a: Map<Seq<u8>, V>, b: Map<Seq<u8>, V>, n: Seq<u8>) -> bool { b.contains_key(n) && b == a.insert(n, b[n]) }
spec fn ref_to<'a, 'b>(en: Engine<'a>, n: Seq<u8>, r: TemplateRef<'b>) -> bool { *r.engine == en && bs(r.name) == n && Some(*r.template) == template_named(en.templates, n) }
// exactly that name now has the template this source compiles to; if it does not compile nothing changed
spec fn added<'a>(a: Engine<'a>, b: Engine<'a>, n: Seq<u8>, src: Seq<u8>, r: Result<()>) -> bool {
    match compiles_to(a.searcher, src) {
        Ok(is) => r is Ok && b.searcher == a.searcher && b.functions == a.functions && b.max_include_depth == a.max_include_depth && b.default_formatter == a.default_formatter
            && is_now(bmap(a.templates), bmap(b.templates), n) && bs(bmap(b.templates)[n].source) == src && bmap(b.templates)[n].instrs@ == is,
        Err(e) => r is Err && r->Err_0.v() == named(e, Some(n)) && b == a,
    }
}
} // verus!
