//@include text.vrs
//@include kinds.vrs
//@include syntaxfns.vrs
