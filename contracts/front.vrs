// From a source to a program
verus! {
// a template that is the code of a tree of its source, which consists of evs
spec fn is_made_of(t: Template, sc: ast::Scope, evs: Seq<GEv>) -> bool { is_compiled_from(t, sc) && flat(sc) == evs }
spec fn made_of(t: Template, evs: Seq<GEv>) -> bool { exists|sc: ast::Scope| #[trigger] is_made_of(t, sc, evs) }
//@fn src/compile/mod.rs template
//@name compile_source
//@sig fn compile_source<'engine, 'source>(engine: &'engine Engine<'engine>, source: &'source str) -> Result<Template<'source>>
//@ret r
//@try
//@sub `parse :: Parser :: new` => `Parser::new`
//@sub `Parser :: new ( engine , & source ) . parse_template ( )` => `Parser::parse_template(Parser::new(engine, source))`
//@sub `Compiler :: new ( ) . compile_template ( $x )` => `Compiler::compile_template(Compiler::new(), $x)`
//@spec
    requires searchable(engine.searcher)
    ensures match parses_to(spats(engine.searcher), bs(source)) {
        Ok(evs) => r is Ok && made_of(r->Ok_0, evs) && r->Ok_0.source == source && compiled(r->Ok_0),
        Err(sp) => err_at(r, EK::Syntax, bs(source), sp) }
//@start
    let ghost mut vx_tree: ast::Scope = arbitrary();
//@after `let ast = $x ;`
    proof { vx_tree = ast.scope; }
//@tail
    proof { if vx_ret is Ok { assert(is_made_of(vx_ret->Ok_0, vx_tree, parses_to(spats(engine.searcher), bs(source))->Ok_0)); } }
//@end
} // verus!
