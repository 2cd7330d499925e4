//@include prelude.vrs
//@use values.vrs
//@use ast.vrs
//@use paths.vrs
//@use iter.vrs
//@use stack.vrs
//@use program.vrs
//@use machine.vrs
//@include registry.vrs
