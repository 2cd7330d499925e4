//@include prelude.vrs
//@use values.vrs
//@include ast.vrs
//@use paths.vrs
//@use iter.vrs
//@include program.vrs
//@include compiler.vrs
