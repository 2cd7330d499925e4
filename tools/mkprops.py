#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Tags are found by leftmost-longest delimiter matching",
 "For every configured syntax and every template source, the next tag from any position is the configured delimiter occurrence that starts earliest, and among those starting there the longest one; equal delimiters resolve to the one listed first (expressions, then blocks, then comments; plain begin, plain end, trimming begin, trimming end). No delimiter occurrence is missed and none is reported where the text does not contain it.",
 ["inputs", "configurations"], "all non-empty delimiter strings (including ones that are prefixes, suffixes or infixes of each other) and all sources",
 "Tests sample a few dozen pattern sets; the failure links of the matcher depend on how every delimiter overlaps every other and only matter on texts that almost match.",
 ["src/compile/search/mod.rs", "src/compile/search/ahocorasick/mod.rs", "src/compile/search/ahocorasick/build.rs", "src/compile/search/ahocorasick/state.rs"],
 [("Aho-Corasick automaton with leftmost-longest failure links", "src/compile/search/ahocorasick/build.rs"), ("scan loop", "src/compile/search/ahocorasick/mod.rs find_at"), ("starts_with filter", "src/compile/search/mod.rs")],
 ["compiling and rendering templates with custom delimiters"],
 [("states", "trie nodes with transitions, failure link and the patterns ending there", "src/compile/search/ahocorasick/state.rs")])

prop("C02", "Compiling any source returns a template or an error",
 "Compiling any string with any syntax configuration terminates and returns either a template or a syntax error; it never panics, slices outside a character boundary or loops. Compiling is deterministic: the same source and syntax give the same result.",
 ["inputs", "configurations"], "all source strings (including non-ASCII, truncated and malformed ones) and all delimiter configurations; stack depth on extremely deep nesting excluded",
 "Tests compile some hundred short, mostly ASCII sources; a panic needs one particular byte sequence at one particular lexer state.",
 ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs"],
 [("lexer cursor and state", "src/compile/lex.rs"), ("parser block and scope stacks", "src/compile/parse.rs"), ("jump patching", "src/compile/mod.rs update_jump")],
 ["Engine::compile", "Engine::add_template"])

prop("C03", "Text outside tags is rendered verbatim, trimmed only next to trim tags",
 "Text outside tags appears in the output byte for byte and in order, comments contribute nothing, and nothing else is added. Whitespace is removed exactly where it is adjacent to a tag delimiter carrying the trim hyphen on that side, and only up to the neighbouring tag.",
 ["inputs", "configurations"], "all sources and syntaxes, all mixtures of trimming and non-trimming tags",
 "Tests cover a handful of trim combinations with the default delimiters; trimming depends on both neighbouring tags, on the whitespace class (Unicode) and on delimiters.",
 ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/render/core.rs"],
 [("raw token trimming", "src/compile/lex.rs lex_template"), ("left_trim flag", "src/compile/lex.rs lex_block, lex_comment"), ("EmitRaw", "src/render/core.rs")],
 ["rendered output"],
 [("left_trim", "the previous tag asked to trim what follows", "src/compile/lex.rs")])

prop("C04", "Only correctly nested blocks compile",
 "A source compiles only if every if, for and with block is closed by its own end block in properly nested order, else and else if occur only directly inside an if block and nothing but endif follows an else of the same if, and no block is left open at the end. Every block sequence that meets these rules is accepted, and each statement belongs to the innermost open block or branch.",
 ["inputs", "programs"], "all sequences of block tags",
 "Tests list particular malformed sequences; the parser keeps two stacks in step and an error needs one specific interleaving of block kinds.",
 ["src/compile/parse.rs"],
 [("blocks and scopes stacks", "src/compile/parse.rs parse_template"), ("else-if desugaring", "src/compile/parse.rs Block::EndIf")],
 ["Engine::compile result", "rendered output"])

prop("C05", "Rendering follows the block structure of the template",
 "Rendering a template executes its statements in source order: an if / else if / else chain renders exactly the first branch whose (possibly negated) condition is truthy, or the else branch, or nothing; a for block renders its body once per item; a with block renders its body once. The instruction sequence a template is compiled to has the same effect as its nested structure, for every nesting, and every jump stays inside the program.",
 ["programs", "inputs"], "all nested statement trees and all condition values",
 "Tests nest one or two blocks; jump targets depend on the sizes of all enclosed blocks.",
 ["src/compile/mod.rs", "src/render/core.rs", "src/types/program.rs"],
 [("instruction emission and jump patching", "src/compile/mod.rs compile_stmt, update_jump"), ("interpreter loop", "src/render/core.rs render_one")],
 ["rendered output"],
 [("pc", "index of the next instruction", "src/render/core.rs")])

prop("C06", "Rendering never panics and always restores scopes",
 "Rendering any compiled template with any data, filters and included templates returns output or an error and never panics. When a for or with block or an included template ends, exactly the bindings it introduced are gone and everything bound before is visible again.",
 ["programs", "inputs"], "all compiled templates, contexts and include structures",
 "Tests render a few nestings; the scope stack is manipulated by matching instruction pairs emitted far apart and across included templates.",
 ["src/render/core.rs", "src/render/stack.rs", "src/compile/mod.rs"],
 [("push/pop of scopes", "src/render/stack.rs"), ("instruction pairs", "src/compile/mod.rs"), ("include stack", "src/render/core.rs render")],
 ["Renderer::to_string", "Renderer::to_writer"],
 [("stack", "scopes, loop states, variables and boundaries", "src/render/stack.rs")])

prop("C07", "A name resolves to its innermost visible binding",
 "A variable refers to the innermost enclosing for or with binding of that name, else to the root context, and it is an error if there is none. An included template sees all bindings of the including template, under the names the including template gave them; a template included with an expression sees only that value.",
 ["programs", "inputs"], "all nestings of for, with, include and include-with, all names",
 "Tests cover single level shadowing; the outcome depends on the whole scope stack and on which template's source a name is read from.",
 ["src/render/stack.rs", "src/render/iter.rs", "src/render/core.rs"],
 [("reverse stack search", "src/render/stack.rs lookup_var"), ("loop variable lookup", "src/render/iter.rs lookup_var"), ("boundary", "src/render/core.rs IncludeWith")],
 ["rendered output", "render errors"])

prop("C08", "Paths select exactly the addressed member",
 "A path selects the member reached by following each key in maps and each index in lists, and nothing else. A missing key or out-of-range index is an error under direct access and makes the whole expression none under optional access; keys on non-maps and indexes on non-lists are errors.",
 ["inputs"], "all values, all paths of keys, indexes and direct or optional accesses, whether the value is borrowed or computed",
 "Tests use paths of two or three segments over small contexts; borrowed and owned values, first and later segments take different code.",
 ["src/render/value.rs", "src/render/iter.rs", "src/render/stack.rs"],
 [("lookup, lookup_path, lookup_path_maybe", "src/render/value.rs"), ("resolve! for loop variables", "src/render/iter.rs")],
 ["rendered output", "render errors"])

prop("C09", "Loops visit every item once, in order, with correct loop data",
 "A for block binds each list item in list order, and each key and value of a map in key order, exactly once. During the k-th iteration of n, loop.index is k counted from zero, loop.first is true exactly for the first and loop.last exactly for the last iteration; iterating a non-collection, or binding the wrong number of variables, is an error.",
 ["inputs"], "all lists and maps of any length, borrowed from the context or produced by an expression",
 "Tests loop over at most a handful of items; borrowed/owned and list/map loops are four separate code paths.",
 ["src/render/iter.rs", "src/render/core.rs", "src/render/stack.rs"],
 [("LoopState", "src/render/iter.rs new, iterate, lookup_loop"), ("LoopStart/LoopNext", "src/render/core.rs")],
 ["rendered output"],
 [("LoopState", "remaining items and the current item with its index", "src/render/iter.rs")])

prop("C10", "Exactly none, false, zero and empty values are falsy",
 "In a condition, exactly these values count as false: none, false, the integer 0, floats equal to zero (including negative zero), the empty string, the empty list and the empty map. Every other value, including NaN, counts as true, and not inverts this for the whole condition.",
 ["inputs"], "all values of all seven types, borrowed or computed",
 "Tests try one or two values per type; the claim ranges over all integers, floats and nested collections.",
 ["src/render/value.rs", "src/render/core.rs", "src/compile/mod.rs"],
 [("as_bool", "src/render/value.rs"), ("JumpIfTrue / JumpIfFalse", "src/render/core.rs")],
 ["branch taken by if"])

prop("C11", "Literals denote exactly the value written, or are rejected",
 "An integer literal in base 2, 8, 10 or 16, with optional sign and underscores, denotes exactly the written number if it fits 64 bits; it never wraps or truncates, and a digit that is not valid for the base is rejected. A string literal denotes its characters with the escapes n, r, t, backslash and double quote replaced, any other escape is rejected; true and false denote the booleans.",
 ["inputs"], "all digit strings and signs in the four bases, all string contents",
 "Tests try a few literals per base; overflow and escape handling depend on exact digit and character sequences.",
 ["src/compile/parse.rs", "src/compile/lex.rs"],
 [("parse_literal_integer", "src/compile/parse.rs"), ("parse_string", "src/compile/parse.rs"), ("lex_string", "src/compile/lex.rs")],
 ["value passed to filters", "rendered output", "syntax errors"])

prop("C12", "Include nesting is bounded by the configured limit",
 "Rendering fails with the maximum include depth error exactly when an include would bring the number of simultaneously active templates, counting the root, above the limit in force (the renderer's setting if given, else the engine's); otherwise the limit has no effect. Recursive includes therefore always terminate, and templates included one after the other do not add up.",
 ["inputs", "configurations", "programs"], "all include graphs, including cycles, and all limits",
 "Tests cover one cycle and the default limit; the count depends on the history of includes and returns.",
 ["src/render/core.rs", "src/render/mod.rs", "src/lib.rs"],
 [("template stack", "src/render/core.rs render"), ("limit selection", "src/render/core.rs render")],
 ["render error", "rendered output"],
 [("templates", "stack of active templates", "src/render/core.rs")])

prop("C13", "Errors point at the offending place in the source",
 "A syntax or render error reports the line and column of the construct it is about: the line is one plus the number of newlines before it, the column one plus the display width of the text before it on that line, the quoted text is that line, and the named template is the one containing the construct. This holds for every source, including non-ASCII text, tabs and positions at the very end.",
 ["inputs"], "all sources and all spans inside them",
 "Tests check errors in one-line ASCII sources; the mapping mixes byte offsets, characters, display widths and line endings.",
 ["src/error.rs", "src/compile/lex.rs", "src/compile/parse.rs", "src/render/core.rs"],
 [("to_ln_col", "src/error.rs"), ("Pretty::build", "src/error.rs"), ("span construction", "src/compile/parse.rs")],
 ["Display of Error with alternate flag"])

prop("C14", "Output is the same through every renderer and write errors surface",
 "Rendering to a string and rendering to a writer produce the same bytes for the same template and context. The default formatter writes nothing for none, true or false for booleans, the Display form for numbers and the exact string for strings, and rejects lists and maps; an error returned by the writer is reported as an IO error with that error as source.",
 ["inputs", "fault_sequences"], "all values, all templates, and writers failing at any point",
 "Tests use one failing writer and a few values; the claim is over every write position and every value.",
 ["src/fmt.rs", "src/render/mod.rs"],
 [("default", "src/fmt.rs"), ("Writer", "src/fmt.rs"), ("to_string / to_writer", "src/render/mod.rs")],
 ["bytes written", "returned error"])

prop("C15", "Serialized data is converted without loss or is rejected",
 "Converting data through serde yields the value tree with the same structure: booleans, strings, sequences, maps, structs and enum variants keep their shape, every integer keeps its exact value, and an unsigned integer that does not fit a signed 64-bit integer is rejected. Map keys that are strings, characters, integers or unit variants become the corresponding strings, all other keys are rejected; converting a value to a value is the identity.",
 ["inputs"], "all serializable data built from the serde data model",
 "Tests try one instance per type; the claim is over all integer values and nestings.",
 ["src/value/ser/mod.rs", "src/value/ser/map.rs", "src/value/ser/list.rs", "src/value/ser/variants.rs", "src/value/from.rs"],
 [("Serializer", "src/value/ser/mod.rs"), ("MapKeySerializer", "src/value/ser/map.rs")],
 ["to_value result"])

prop("C16", "Filter arguments are converted exactly or reported",
 "A filter is called only with the number of arguments it declares, each converted to its declared type: integers arrive with exactly the written value or an out-of-range error is reported, and other types must match or a type error is reported. Arguments arrive in the order written, filters apply left to right each to the result of the one before, and what a filter returns is the value that continues.",
 ["inputs", "programs"], "all filter signatures, all values and argument lists, all filter chains",
 "Tests try a few conversions; the claim ranges over every integer type and value and over chains of filters.",
 ["src/filters/mod.rs", "src/filters/args.rs", "src/render/core.rs", "src/value/from.rs"],
 [("check_args, get_arg", "src/filters/mod.rs"), ("impl_for_int", "src/filters/args.rs"), ("Apply", "src/render/core.rs")],
 ["arguments seen by a filter", "render errors"])

prop("C17", "The engine registry behaves as a map from names",
 "Adding, replacing and removing templates, filters and formatters affects exactly the given name: later lookups see the most recent definition, removed names are unknown, and other names are unaffected. A template that fails to compile leaves the engine as it was; filters and formatters share one namespace and adding or removing one returns the kind it replaced or removed.",
 ["histories"], "all sequences of add, replace, remove and get operations over all names",
 "Tests perform one or two operations; the claim is over all histories.",
 ["src/lib.rs"],
 [("templates and functions maps", "src/lib.rs Engine"), ("compile before insert", "src/lib.rs add_template")],
 ["get_template", "render results", "return values"],
 [("templates", "name to compiled template", "src/lib.rs"), ("functions", "name to filter or formatter", "src/lib.rs")])

prop("C18", "Every syntax configuration yields exactly the configured tags",
 "A syntax built from delimiters recognises, for each configured kind of tag, the given begin and end delimiters and their trimming variants (hyphen after begin, hyphen before end), each with its own meaning, and nothing for kinds not configured. A begin tag is closed only by the end tag of the same kind, and using different delimiters of the same shape does not change what a template renders.",
 ["configurations", "inputs"], "all combinations of configured kinds and all non-empty delimiter strings",
 "Tests try the default and a few custom delimiters.",
 ["src/types/syntax.rs", "src/compile/lex.rs", "src/compile/search/mod.rs"],
 [("SyntaxBuilder::build", "src/types/syntax.rs"), ("Kind::from_usize", "src/types/syntax.rs"), ("Token::from_kind, Token::pair", "src/compile/lex.rs")],
 ["compile result", "rendered output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
