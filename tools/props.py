"""Which contract units decide which property. `fns`: functions whose failed obligation is a violation of it."""
PROPS = {
 "C01": dict(note="the Aho-Corasick automaton (construction by breadth-first search, failure transitions, scan loop) proved to find exactly the first, longest delimiter, for all delimiters and all texts", level="proof", units=["search.vrs", "lex.vrs"], fns=[r"compile/search/", r"types/syntax\.rs::(Kind|<From)"]),
 "C02": dict(note="every loop of lexer, parser and compiler proved to terminate, every slice, index, unwrap, assertion and error span proved safe for all sources and all syntax configurations, the delimiter search included", level="proof", units=["search.vrs", "lex.vrs", "parse.vrs", "compile.vrs"], fns=[r"compile/"], msgs=r"precondition|overflow|underflow|decreases|terminat|bounds|unreachable|assertion"),
 "C04": dict(note="parser proved against a grammar of tokens for all token streams; theorems: what compiles is nested, a block tag is refused only when it does not fit", level="proof", units=["parse.vrs"], fns=[r"parse\.rs::Parser::(new|next|peek|is_next|is_next_keyword|expect|expect_keyword|parse_keyword|parse_block|parse_template)$", r"parse\.rs::Keyword", r"compile/mod\.rs::template$"]),
 "C11": dict(note="literals proved to denote the written number, string or boolean for all texts; parse::<f64> itself trusted", level="proof", units=["parse.vrs"], fns=[r"parse\.rs::Parser::(parse_literal_\w+|parse_string|parse_base_expr|parse_access)$"]),
 "C03": dict(note="the lexer proved to emit exactly the text outside tags (trimming included) for all sources; raw statements are written verbatim by the proved interpreter", level="proof", units=["lex.vrs", "compile.vrs", "render.vrs"], fns=[r"compile/lex\.rs", r"compile/mod\.rs", r"render/core\.rs::RendererImpl::render_one"]),
 "C18": dict(note="the builder proved to yield exactly the configured patterns, the lexer proved to treat them by kind for all sources", level="proof", units=["syntax.vrs", "search.vrs", "lex.vrs"], fns=[r"types/syntax\.rs", r"syntax\.rs", r"compile/lex\.rs", r"compile/search/mod\.rs"]),
 "C07": dict(note="lookup of a name in the scope stack proved for all stacks, names and paths; the instructions that bind names proved by the interpreter's contracts", level="proof", units=["names.vrs", "compile.vrs", "render.vrs"], fns=[r"compile/mod\.rs", r"render/core\.rs", r"render/stack\.rs", r"render/iter\.rs::LoopState::lookup", r"render/value\.rs::lookup", r"types/ast\.rs", r"types/span\.rs"]),
 "C08": dict(note="path walking proved for all values and paths, borrowed and owned", level="proof", units=["names.vrs"], fns=[r"render/value\.rs::lookup", r"render/iter\.rs::LoopState::lookup", r"render/stack\.rs::Stack::lookup_var", r"types/ast\.rs", r"types/span\.rs"]),
 "C09": dict(note="loop construction, stepping, loop data and the loop instructions proved for all lists and maps", level="proof", units=["names.vrs", "compile.vrs", "render.vrs"], fns=[r"compile/mod\.rs", r"render/core\.rs", r"render/iter\.rs", r"render/stack\.rs::Stack::last_loop"]),
 "C10": dict(note="truthiness, and the branch taken, proved for all values", level="proof", units=["names.vrs", "compile.vrs", "render.vrs"], fns=[r"compile/mod\.rs", r"render/core\.rs", r"as_bool", r"Deref for ValueCow"]),
 "C05": dict(note="compiler and interpreter proved against the tree's meaning for all trees, stacks and data", level="proof", units=["compile.vrs", "render.vrs"], fns=[r"compile/mod\.rs", r"render/core\.rs"]),
 "C06": dict(note="every unwrap, index, assert and pop of the interpreter proved safe; scopes restored", level="proof", units=["names.vrs", "compile.vrs", "render.vrs"], fns=[r"compile/mod\.rs", r"render/core\.rs", r"render/stack\.rs"]),
 "C12": dict(note="include stack and limit proved for all programs and data, including termination", level="proof", units=["render.vrs"], fns=[r"render/core\.rs::RendererImpl::(render|get_template)$"]),
 "C13": dict(note="line, column, quoted line and template name of every error proved from its span; spans of render errors proved by the interpreter's contracts", level="proof", units=["error.vrs", "names.vrs", "render.vrs"], fns=[r"error\.rs", r"fmt\.rs", r"types/span\.rs", r"types/ast\.rs", r"render/"]),
 "C14": dict(note="formatter, writer, default formatter, to_string and to_writer proved; same output and surfaced errors as theorems over all templates and data", level="proof", units=["render.vrs", "output.vrs"], fns=[r"fmt\.rs", r"render/mod\.rs", r"lib\.rs::Template", r"render/core\.rs::RendererImpl::(render|render_one)$"]),
 "C17": dict(note="engine registry operations proved against maps for all histories; BTreeMap itself trusted", level="proof", units=["engine.vrs"], fns=[r"lib\.rs"]),
 "C15": dict(note="every method of both serializers and of their compounds proved against one relation between serde's data model and values, for all data; identity on values as a theorem; what derived implementations do with a serializer is trusted", level="proof", units=["ser.vrs"], fns=[r"value/ser/"]),
 "C16": dict(note="argument count, conversion of every argument type, order, and the conversion of what the filter returns proved for all signatures, values and argument lists; chains by the interpreter's contracts", level="proof", units=["filters.vrs", "render.vrs"], fns=[r"filters/", r"value/from\.rs", r"value/cow\.rs", r"render/core\.rs"]),
}

NOT_YET = {f"C{i:02}": "no contract yet" for i in range(1, 19)}
