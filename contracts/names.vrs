//@include prelude.vrs
//@include values.vrs
//@include ast.vrs
//@include paths.vrs
//@include iter.vrs
//@include stack.vrs
