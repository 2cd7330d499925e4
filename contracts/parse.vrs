//@include prelude.vrs
//@include kinds.vrs
//@use tags.vrs
//@use searcher.vrs
//@use engine0.vrs
//@use values.vrs
//@use ast.vrs
//@use paths.vrs
//@use iter.vrs
//@use program.vrs
//@use lexer.vrs
//@include grammar.vrs
//@include parser.vrs
//@include blocks.vrs
//@use compiler.vrs
//@include front.vrs
//@include literals.vrs
