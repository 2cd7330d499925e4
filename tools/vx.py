"""Builds a Verus crate from a contract file (.vrs) and /repo's current source, runs
Verus on it and attributes every failed obligation to a function of /repo.

Contract file directives (lines starting with //@):
  //@include FILE                     paste another contract file
  //@use     FILE                     the same, but its functions are only known by their contracts
                                      (their bodies are verified in another unit)
  //@item  FILE KEY                   extract a type / const (attributes and `pub` dropped)
  //@fn    FILE KEY                   extract a function
  //@impls FILE REGEX                 every function whose key matches, in its impl; //@spec holds the
                                      ghost members of the impl ($T: the type of the last argument)
  //@all   `P` => `R`                a rewrite of every function that follows in this file
  //@only  FILE REGEX                the functions of FILE whose key matches are all under contract here
     //@name NAME                     rename the function (trait methods become plain functions)
     //@sig TEXT                     replace the signature (trait methods, generic parameters)
     //@ret NAME                      name the return value
     //@attr LINE                     Verus attribute put before the function
     //@sub `P` => `R`                token-level rewrite (may match zero times)
     //@sub! `P` => `R`               the same, but must match
     //@weak `P`                      verus leaves P unspecified: if P is left in the body, a failure of the function is undecided
     //@strmatch                      matches on string literals become if chains
     //@inline NAME TYPE              a local closure `let mut NAME = |params| { .. };` is put in place of its uses
     //@spec                          requires/ensures/decreases (lines up to the next directive)
     //@start                         ghost code at the start of the body
     //@loop N / //@loop_start N / //@loop_end N    invariants of / ghost code in the N-th loop
     //@before `P` [N] / //@after `P` [N]  ghost code before/after the N-th match of P (N=* all)
     //@tail                          ghost code after the body's value is computed (bound to vx_ret)
  //@end
Anything else is copied: specifications, lemmas and trusted declarations.
"""
import os, re, json, subprocess, time, sys, tempfile, shutil
from rsx import *

REPO = os.environ.get("VX_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"

# rewrites applied to every extracted function (all of them are listed in DESIGN.md)
GLOBAL_SUBS = [
    ("debug_assert ! ( $c , $m , )", "vx_assert($c)"),
    ("debug_assert ! ( $c , $m )", "vx_assert($c)"),
    ("debug_assert ! ( $c )", "vx_assert($c)"),
    ("assert_ne ! ( $a , $b , $m , )", "vx_assert($a != $b)"),
    ("assert_ne ! ( $a , $b , $m )", "vx_assert($a != $b)"),
    ("assert_eq ! ( $a , $b )", "vx_assert($a == $b)"),
    ("assert ! ( $c , $m )", "vx_assert($c)"),
    ("assert ! ( $c )", "vx_assert($c)"),
    ("unreachable ! ( )", "vx_unreachable()"),
    ("panic ! ( $m )", "vx_unreachable()"),
]
# applied after a function's own rewrites
LATE_SUBS = [
    ("format ! ( $m , )", "vx_format()"),
    ("format ! ( $m )", "vx_format()"),
]

_files = {}
def repo_file(rel):
    p = os.path.join(REPO, rel)
    if p not in _files:
        if not os.path.exists(p): raise LostAnchor(f"{rel} does not exist")
        _files[p] = File(p)
    return _files[p]

def all_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".rs") and f != "impls.rs":
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)

def find_item(rel, key):
    """the item in its file; if it moved, the same key anywhere in src (when unique)"""
    try:
        return rel, repo_file(rel).get(key)
    except LostAnchor:
        hits = [(f, repo_file(f).items[key]) for f in all_files() if key in repo_file(f).items]
        if len(hits) == 1: return hits[0]
        raise LostAnchor(f"{rel}: no item `{key}`")

def drop_pub(text):
    text, _ = tsub(text, "pub ( $x )", "")
    toks = tokenize(text)
    out, p = [], 0
    for t in toks:
        if t.k == "id" and t.s == "pub":
            out.append(text[p:t.a]); p = t.b
    out.append(text[p:])
    return "".join(out)

_re_dir = re.compile(r"^\s*//@(\w+!?)\s*(.*?)\s*$")
_re_sub = re.compile(r"^`(.*?)`\s*=>\s*`(.*)`$")
_re_pos = re.compile(r"^`(.*?)`\s*(\d+|\*)?$")

def expand_local_macros(text):
    """a one-armed macro_rules! defined inside the function and its uses are expanded in place"""
    names = []
    while True:
        hits = [h for h in tfind(text, "macro_rules ! $n_id { ( $p ) => { $b } ; }")] or \
               [h for h in tfind(text, "macro_rules ! $n_id { ( $p ) => { $b } }")]
        if not hits: return text, names
        a, e, env = hits[0]
        name, params, body = env["$n_id"], env["$p"], env["$b"]
        ps = re.findall(r"\$\s*([A-Za-z_0-9]+)\s*:\s*\w+", params)
        text = text[:a] + text[e:]
        while True:
            uses = [h for h in tfind(text, name + " ! ( $args )")]
            if not uses: break
            ua, ue, uenv = uses[0]
            args = split_args(uenv["$args"])
            if len(args) != len(ps): raise LostAnchor(f"macro {name}: arity")
            out = body
            for p, x in zip(ps, args): out = re.sub(r"\$\s*" + p + r"\b", lambda _: x.strip(), out)
            text = text[:ua] + "{" + out + "}" + text[ue:]
        names.append(name)

def split_args(s):
    out, depth, cur = [], 0, ""
    for t in s:
        if t in "([{": depth += 1
        if t in ")]}": depth -= 1
        if t == "," and depth == 0: out.append(cur); cur = ""
        else: cur += t
    if cur.strip(): out.append(cur)
    return out

def inline_closure(text, name, ty):
    """beta-reduction of a local closure: its uses become blocks (given up when it returns early)"""
    hits = list(tfind(text, f"let mut {name} = | $p | {{ $b }} ;")) or list(tfind(text, f"let {name} = | $p | {{ $b }} ;"))
    if not hits:
        hits = list(tfind(text, f"let {name} = || {{ $b }} ;")) or list(tfind(text, f"let {name} = || $b ;"))
        for h in hits: h[2]["$p"] = ""
        # the value is computed where it is only needed on one path: it has no effects
        text1, n = tsub(text, f". ok_or_else ( {name} )", f".ok_or({name}())")
        if n: return inline_closure(text1, name, ty)
    if len(hits) != 1:
        # one per scope: the first is in force up to the second
        if len(hits) > 1:
            cut = hits[1][0]
            t1, n1 = inline_closure(text[:cut], name, ty)
            t2, n2 = inline_closure(text[cut:], name, ty)
            return t1 + t2, n1 + n2
        return text, 0
    a, e, env = hits[0]
    params, body = split_args(env["$p"]), env["$b"]
    toks = [t.s for t in tokenize(body)]
    if "return" in toks or "?" in toks: raise LostAnchor(f"closure {name} returns early")
    text = text[:a] + text[e:]
    n = 0
    while True:
        uses = list(tfind(text, f"{name} ( $args )")) or list(tfind(text, f"{name} ( )"))
        if not uses: return text, n
        ua, ue, uenv = uses[0]
        args = split_args(uenv.get("$args", ""))
        if len(args) != len(params): raise LostAnchor(f"closure {name}: arity")
        tmp = "".join(f"let vx_a{i} = {x.strip()}; " for i, x in enumerate(args))
        let = "".join(f"let {p.strip()} = vx_a{i}; " for i, p in enumerate(params))
        text = text[:ua] + "{ " + tmp + let + f"let vx_r: {ty} = {{ {body} }}; vx_r }}" + text[ue:]
        n += 1

def rewrite_strmatch(text):
    """match E { "a" | "b" => X, c if g => Y, _ => Z }  =>  { let vx_m: &str = E; if vx_str_eq(vx_m, "a") || .. { X } .. else { Z } }"""
    n = 0
    while True:
        done = True
        for a, e, env in tfind(text, "match $x { $arms }"):
            arms = match_arms(env["$arms"])
            if not arms or not any(p.strip().startswith('"') for p, _ in arms): continue
            out, closed = "{ let vx_m: &str = " + env["$x"] + "; ", False
            for i, (p, body) in enumerate(arms):
                p = p.strip()
                if p.startswith('"'):
                    lits = [x.strip() for x in p.split("|")]
                    if not all(x.startswith('"') and x.endswith('"') for x in lits): raise LostAnchor("match on strings: pattern " + p)
                    cond = " || ".join(f"vx_str_eq(vx_m, {x})" for x in lits)
                    out += ("else " if i else "") + f"if {cond} {{ {body} }} "
                elif re.fullmatch(r"[A-Za-z_0-9]+", p) and i == len(arms) - 1:
                    out += ("else " if i else "") + "{ " + (f"let {p} = vx_m; " if p != "_" else "") + body + " }"; closed = True
                else: raise LostAnchor("match on strings: pattern " + p)
            if not closed: raise LostAnchor("match on strings without a last arm")
            text = text[:a] + out + " }" + text[e:]
            n += 1; done = False
            break
        if done: return text, n

def operand_start(toks, i, what):
    """index of the first token of the postfix expression that ends with token i"""
    while True:
        if toks[i].s in (")", "]"):
            depth = 0
            while True:
                if toks[i].s in ")]}": depth += 1
                elif toks[i].s in "([{": depth -= 1
                if depth == 0: break
                i -= 1
            if toks[i - 1].k == "id" and toks[i - 1].s not in ("return", "in", "match", "if", "while") or toks[i - 1].s in (")", "]"): i -= 1; continue
            if toks[i - 1].s == ">" and toks[i].s == "(":
                d = 0
                while True:
                    i -= 1
                    if toks[i].s == ">": d += 1
                    elif toks[i].s == "<": d -= 1
                    if d == 0: break
                if toks[i - 1].s != "::": raise LostAnchor("operand of " + what)
                i -= 2; continue
        elif toks[i].k != "id" and toks[i].k not in ("num", "lit", "str"): raise LostAnchor("operand of " + what)
        if toks[i - 1].s in (".", "::"): i -= 2; continue
        return i

def rewrite_maperr(text):
    """E.map_err(|p| X) on a Result => match; a local `let f = |p| X;` that is only mapped with is put in place first"""
    for a, e, env in reversed(list(tfind(text, "let $f_id = | $p | $b ;"))):
        f, clos = env["$f_id"], "|" + env["$p"] + "| " + env["$b"]
        rest, n = tsub(text[e:], f". map_err ( {f} )", ".map_err(" + clos + ")")
        if n and not list(tfind(rest, f)): text = text[:a] + rest
    n = 0
    while True:
        hits = list(tfind(text, ". map_err ( | $p | $b )")) 
        if not hits: return text, n
        a, e, env = hits[0]
        if any(t.s in ("?", "return") for t in tokenize(env["$b"])): raise LostAnchor("map_err returns early")
        toks = [t for t in tokenize(text) if t.a < a]
        i = operand_start(toks, len(toks) - 1, "map_err")
        text = text[:toks[i].a] + "(match " + text[toks[i].a:a] + " { Ok(vx_v) => Ok(vx_v), Err(" + env["$p"] + ") => Err(" + env["$b"] + ") })" + text[e:]
        n += 1

def rewrite_try(text):
    """E? on a Result => match E { Ok(v) => v, Err(e) => return Err(e) } (the conversion of the error is the identity here, or rustc objects)"""
    n = 0
    while True:
        toks = tokenize(text)
        hit = next((i for i, t in enumerate(toks) if t.s == "?"), None)
        if hit is None: return text, n
        i = operand_start(toks, hit - 1, "?")
        a, e = toks[i].a, toks[hit].a
        text = text[:a] + "(match " + text[a:e] + " { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) })" + text[toks[hit].b:]
        n += 1

def match_arms(s):
    """[(pattern, body)] of the arms of a match"""
    toks = tokenize(s)
    arms, i, depth, start = [], 0, 0, 0
    while i < len(toks):
        t = toks[i]
        if t.s in "([{": i = match_close(toks, i) + 1; continue
        if t.s == "=>":
            pat = s[start:t.a]
            j = i + 1
            if toks[j].s == "{":
                c = match_close(toks, j)
                body, k = s[toks[j].a:toks[c].b], c + 1
                if k < len(toks) and toks[k].s == ",": k += 1
            else:
                k = j
                while k < len(toks) and toks[k].s != ",":
                    k = match_close(toks, k) + 1 if toks[k].s in "([{" else k + 1
                body = s[toks[j].a:toks[k - 1].b]
                k += 1
            arms.append((pat, body))
            start = toks[k].a if k < len(toks) else len(s)
            i = k; continue
        i += 1
    return arms

class Used(str):
    """a line of a contract file that is only used here: its lemmas are proved in another unit"""

class Block:
    def __init__(s, kind, rel, key, line):
        s.kind, s.rel, s.key, s.line = kind, rel, key, line
        s.name = s.ret = s.sig = s.used = None
        s.attrs, s.subs, s.spec, s.start, s.tail = [], [], [], [], []
        s.weak = []
        s.inl, s.strmatch, s.tryq, s.trait, s.maperr = [], False, False, False, False
        s.loops, s.lstart, s.lend, s.pos = {}, {}, {}, []

def parse_vrs(path, depth=0):
    """list of str lines and Blocks"""
    out, cur, sect, everywhere = [], None, None, []
    for n, line in enumerate(open(path).read().split("\n"), 1):
        m = _re_dir.match(line)
        if not m:
            if cur is None: out.append(line)
            elif sect is not None: sect.append(line)
            elif line.strip(): raise SystemExit(f"{path}:{n}: text outside a section")
            continue
        d, arg = m.group(1), m.group(2)
        if d in ("include", "use"):
            sub = parse_vrs(os.path.join(os.path.dirname(path), arg), depth + 1)
            if d == "use":
                for b in sub:
                    if isinstance(b, Block): b.used = b.used or arg
                sub = [Used(b) if isinstance(b, str) else b for b in sub]
            out += sub
        elif d in ("item", "fn", "impls"):
            if cur is not None: raise SystemExit(f"{path}:{n}: nested block")
            rel, key = arg.split(None, 1)
            cur = Block(d, rel, key, n); sect = None
        elif d == "all":
            m = _re_sub.match(arg)
            if not m: raise SystemExit(f"{path}:{n}: bad sub")
            everywhere.append((m.group(1), m.group(2), False))
        elif d == "only":
            rel, key = arg.split(None, 1)
            out.append(Block("only", rel, key, n))
        elif cur is None: raise SystemExit(f"{path}:{n}: directive {d} outside a block")
        elif d == "end":
            if cur.kind == "fn": cur.subs = cur.subs + everywhere
            out.append(cur); cur = None; sect = None
        elif d == "sig": cur.sig = arg; sect = None
        elif d == "name": cur.name = arg; sect = None
        elif d == "ret": cur.ret = arg; sect = None
        elif d == "attr": cur.attrs.append(arg); sect = None
        elif d in ("sub", "sub!"):
            m = _re_sub.match(arg)
            if not m: raise SystemExit(f"{path}:{n}: bad sub")
            cur.subs.append((m.group(1), m.group(2), d == "sub!")); sect = None
        elif d == "weak": cur.weak.append(arg.strip("`")); sect = None
        elif d == "inline": cur.inl.append(arg.split(None, 1)); sect = None
        elif d == "strmatch": cur.strmatch = True; sect = None
        elif d == "try": cur.tryq = True; sect = None
        elif d == "trait": cur.trait = True; sect = None
        elif d == "maperr": cur.maperr = True; sect = None
        elif d == "spec": sect = cur.spec
        elif d == "start": sect = cur.start
        elif d == "tail": sect = cur.tail
        elif d == "loop": sect = cur.loops.setdefault(int(arg), [])
        elif d == "loop_start": sect = cur.lstart.setdefault(int(arg), [])
        elif d == "loop_end": sect = cur.lend.setdefault(int(arg), [])
        elif d in ("before", "after"):
            m = _re_pos.match(arg)
            if not m: raise SystemExit(f"{path}:{n}: bad position {arg}")
            sect = []
            cur.pos.append((d, m.group(1), m.group(2) or "0", sect))
        else: raise SystemExit(f"{path}:{n}: unknown directive {d}")
    return out

def expand_impls(xs):
    import copy
    for x in xs:
        if isinstance(x, str) or x.kind != "impls": yield x; continue
        rel, rx = x.rel, re.compile(x.key)
        hits = [it for k, it in repo_file(rel).items.items() if rx.fullmatch(k)]
        if not hits: raise LostAnchor(f"{rel}: nothing matches {x.key}")
        for it in hits:
            h = next(iter(tfind(it.text, "& self , ( $p ) : ( $t ) )")), None) or next(iter(tfind(it.text, "& self , ( $p ) : ( $t ) , )")), None)
            if not h: raise LostAnchor(f"{rel}: {it.key}: signature")
            t = h[2]["$t"]
            mk = Used if x.used else str
            yield mk(strip_attrs(it.header) + " {")
            for l in x.spec: yield mk(l.replace("$T", "(" + " ".join(t.split()) + ")"))
            b = copy.copy(x); b.kind, b.key, b.spec = "fn", it.key, []
            b.subs = [("& self , ( $p ) : ( $t ) ) -> R {", "&self, vx_args: ($t)) -> R { let ($p) = vx_args;", False),
                      ("& self , ( $p ) : ( $t ) , ) -> R {", "&self, vx_args: ($t)) -> R { let ($p) = vx_args;", False)] + x.subs
            b.trait = True
            yield b
            yield mk("}")

def shape(text):
    """what the proof annotations of a function depend on: the kinds of its loops, its number of closures"""
    f = Fn(text)
    T, loops, clos = f.toks, [], 0
    for i, j, _ in f.loops():
        loops.append("while let" if T[i + 1].s == "let" else T[i].s)
    for i in range(f.open + 1, f.close or f.open):
        if T[i].s in ("|", "||") and (T[i - 1].s in ("(", ",", "=", "=>", "{", ";", "move", "return")): clos += 1
    return {"loops": loops, "closures": clos}

SHAPES = os.path.join(HERE, "contracts", "shape.json")
def shapes():
    try: return json.load(open(SHAPES))
    except OSError: return {}

class Gen:
    """generated crate text plus, per line, who it belongs to"""
    def __init__(self):
        self.lines, self.owner = [], []
        self.fns = {}      # display name -> dict(file, line, rewrites, status)
        self.lost = {}     # display name -> reason
        self.rewrites = {}
        self.items = []

    def put(self, text, owner):
        for l in text.split("\n"):
            self.lines.append(l); self.owner.append(owner)

G_MARK = "/*vx:%s*/"

def emit_fn(g, b, external, drop_ann):
    rel, it = find_item(b.rel, b.key)
    name = f"{b.rel.removeprefix('src/')}::{b.key}"
    text = strip_attrs(it.text)
    text = drop_pub(text)
    rw = []
    text, mac = expand_local_macros(text)
    rw += [f"macro {m}! expanded" for m in mac]
    for p, r in GLOBAL_SUBS:
        text, n = tsub(text, p, r)
        if n: rw.append(f"{p} => {r}")
    ext = name in external or b.used is not None
    for nm, ty in b.inl:
        text, n = inline_closure(text, nm, ty)
        if n: rw.append(f"local closure {nm} put in place of its {n} uses")
    if b.strmatch:
        text, n = rewrite_strmatch(text)
        if n: rw.append("match on string literals => if chain")
    if b.maperr:
        text, n = rewrite_maperr(text)
        if n: rw.append("E.map_err(|p| X) => match E { Ok(v) => Ok(v), Err(p) => Err(X) }")
    for p, r, opt in b.subs:
        text, n = tsub(text, p, r)
        if n == 0 and opt and not ext:
            raise LostAnchor(f"{name}: rewrite `{p}` does not apply")
        if n: rw.append(f"{p} => {r}")
    weak = [p for p in b.weak if next(iter(tfind(text, p)), None)]
    if b.tryq:
        text, n = rewrite_try(text)
        if n: rw.append("E? => match E { Ok(v) => v, Err(e) => return Err(e) }")
    for p, r in LATE_SUBS:
        text, n = tsub(text, p, r)
        if n: rw.append(f"{p} => {r}")
    if b.name:
        text = re.sub(r"\bfn\s+[A-Za-z_0-9]+", "fn " + b.name, text, count=1)
    if b.sig:
        f0 = Fn(text)
        text = b.sig + " " + text[f0.toks[f0.open].a:]
        rw.append("signature: " + b.sig)
    text = ("" if b.trait else "pub(crate) ") + text.lstrip()
    f = Fn(text)
    if ext:
        # known by its contract only: the body is not looked at in this run
        text = text[:f.toks[f.open].b] + " unimplemented!() " + text[f.toks[f.close].a:]
        f = Fn(text)
    ins = []  # (pos, order, text, kind)
    T = f.toks
    if b.ret and f.arrow is not None:
        a, e = f.ret
        ins.append((a, 0, f"({b.ret}: ", "spec")); ins.append((e, 9, ")", "spec"))
    body_open = T[f.open].a
    if b.spec: ins.append((body_open, 0, "\n" + "\n".join(b.spec) + "\n", "spec"))
    if not ext and not drop_ann:
        if b.start: ins.append((T[f.open].b, 1, "\n" + "\n".join(b.start) + "\n", "ann"))
        loops = f.loops()
        nl = max([*b.loops, *b.lstart, *b.lend, -1]) + 1
        if nl and nl != len(loops):
            raise LostAnchor(f"{name}: {len(loops)} loops, contract written for {nl}")
        for k, l in b.loops.items(): ins.append((T[loops[k][1]].a, 2, "\n" + "\n".join(l) + "\n", "ann"))
        for k, l in b.lstart.items(): ins.append((T[loops[k][1]].b, 3, "\n" + "\n".join(l) + "\n", "ann"))
        for k, l in b.lend.items(): ins.append((T[loops[k][2]].a, 4, "\n" + "\n".join(l) + "\n", "ann"))
        for d, p, n, l in b.pos:
            hits = [h for h in tfind(text, p) if h[0] > T[f.open].a]
            if n == "*": sel = hits
            else:
                if int(n) >= len(hits): raise LostAnchor(f"{name}: no place `{p}` #{n}")
                sel = [hits[int(n)]]
            for h in sel:
                ins.append((h[0] if d == "before" else h[1], 5, "\n" + "\n".join(l) + "\n", "ann"))
        if b.tail:
            ins.append((T[f.open].b, 1.5, " let vx_ret = { ", "ann"))
            ins.append((T[f.close].a, 9, "};\n" + "\n".join(b.tail) + "\nvx_ret ", "ann"))
    ins.sort(key=lambda x: (x[0], x[1]))
    for a in b.attrs: g.put(a, (name, "spec"))
    if ext: g.put("#[verifier::external_body]", (name, "spec"))
    # assemble with owners per line
    parts, p = [], 0
    for pos, _, s, kind in ins:
        parts.append((text[p:pos], "code")); parts.append((s, kind)); p = pos
    parts.append((text[p:], "code"))
    cur, kinds = "", set()
    def flush():
        nonlocal cur, kinds
        k = "code" if "code" in kinds else ("ann" if "ann" in kinds else "spec")
        g.lines.append(cur); g.owner.append((name, k)); cur, kinds = "", set()
    for s, k in parts:
        seg = s.split("\n")
        for i, x in enumerate(seg):
            if i: flush()
            if x.strip(): kinds.add(k)
            cur += x
    flush()
    g.fns[name] = {"file": rel, "line": it.line, "rewrites": rw, "external": ext, "used": b.used, "weak": weak, "shape": shape(strip_attrs(it.text)), "spec_lines": sum(1 for l in b.spec if l.strip())}
    for r in rw: g.rewrites[r] = g.rewrites.get(r, 0) + 1

def generate(vrs, external=(), reachability=None):
    """external: functions whose body is not verified in this run (undecided)"""
    g = Gen()
    blocks = [x for x in expand_impls(parse_vrs(vrs)) if not isinstance(x, str)]
    for x in expand_impls(parse_vrs(vrs)):
        if isinstance(x, str):
            # the vacuity guard is about functions: the lemmas are not proved a second time
            if (reachability or isinstance(x, Used)) and re.match(r"\s*(broadcast )?proof fn", x) and "via_fn" not in g.lines[-1]: g.put("#[verifier::external_body]", None)
            g.put(x, None); continue
        name = f"{x.rel.removeprefix('src/')}::{x.key}"
        if x.kind == "only":
            known = {b.key for b in blocks if b.kind == "fn"}
            rx = re.compile(x.key)
            new = [k for k, it in repo_file(x.rel).items.items() if rx.match(k) and "::" in k and k not in known]
            if new: raise LostAnchor(f"{x.rel}: {', '.join(new)} has no contract")
            continue
        if x.kind == "item":
            rel, it = find_item(x.rel, x.key)
            t = tsub(strip_attrs(it.text), "pub ( $x )", "pub")[0]
            for p, r, opt in x.subs:
                t, n = tsub(t, p, r)
            for a in x.attrs: g.put(a, (name, "item"))
            g.put(t, (name, "item"))
            g.items.append(name)
            continue
        if reachability in (name, "*") and name not in external and not x.used:
            x.start = x.start + ["proof { assert(false); }"]
            x.attrs = [a for a in x.attrs if "rlimit" not in a]
        try:
            emit_fn(g, x, external, False)
        except LostAnchor as e:
            if not x.used: g.lost[name] = str(e)
            try:
                emit_fn(g, x, set(external) | {name}, True)
            except LostAnchor as e2:
                g.lost[name] = str(e2)
                raise
    return g

SMT_MSGS = ("postcondition", "precondition", "invariant", "assertion", "overflow", "underflow", "decreases", "bounds",
            "unreachable", "not satisfied", "recommendation", "possible", "termination", "cannot show", "could not show", "failed")
UNDECIDED_MSGS = ("resource limit", "rlimit", "timed out", "not supported", "unsupported", "not yet", "panicked")

def run_verus(g, workdir, name, args=(), timeout=600, threads=6):
    os.makedirs(workdir, exist_ok=True)
    src = os.path.join(workdir, name + ".rs")
    open(src, "w").write("\n".join(g.lines) + "\n")
    env = dict(os.environ); env.pop("RUSTUP_TOOLCHAIN", None); env.pop("RUSTFLAGS", None)
    cmd = [VERUS, src, "--output-json", "--time-expanded", "--error-format=json", *(() if "--multiple-errors" in args else ("--multiple-errors", "4")), "--num-threads", str(threads), "--crate-type=lib", *args]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "timeout": True, "diags": [], "wall": time.time() - t0, "raw": "", "src": src}
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try: diags.append(json.loads(l))
            except ValueError: pass
    out = {}
    try: out = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError: pass
    return {"cmd": cmd, "timeout": False, "diags": diags, "out": out, "wall": time.time() - t0, "raw": p.stderr[-20000:], "src": src, "rc": p.returncode}

def owners_of(g, d):
    res = []
    for s in d.get("spans", []):
        ln = s["line_start"]
        if 1 <= ln <= len(g.owner) and g.owner[ln - 1]:
            res.append((g.owner[ln - 1], s.get("is_primary"), ln, s.get("label")))
    return res

class Result:
    def __init__(s):
        s.failed = {}      # fn -> list of (message, rendered)
        s.undecided = {}   # fn -> reason
        s.proved = []
        s.lemma_failed = []
        s.obligations = s.discharged = 0
        s.solver_ms = 0
        s.cmd = ""
        s.wall = 0.0
        s.fatal = None
        s.gen = None
        s.breakdown = []
        s.std = []

STD = os.path.join(HERE, "contracts", "std.vrs")
def std_sections():
    """{path of a std function in Verus's messages: its assumed contract}"""
    out, cur = {}, None
    for l in open(STD):
        m = re.match(r"//@std\s+(\S+)", l)
        if m: cur = out.setdefault(m[1], []); continue
        if cur is not None: cur.append(l.rstrip("\n"))
    return {k: "\n".join(v) for k, v in out.items()}

def verify(vrs, workdir, args=(), timeout=600):
    r = Result()
    external, std = set(), []
    t0 = time.time()
    for attempt in range(12):
        try:
            g = generate(vrs, external)
        except LostAnchor as e:
            r.fatal = f"lost anchor: {e}"; break
        for k, v in g.lost.items(): r.undecided[k] = "lost anchor: " + v
        for s in std: g.put("verus! {\n" + std_sections()[s] + "\n}", None)
        v = run_verus(g, workdir, os.path.splitext(os.path.basename(vrs))[0], args, timeout)
        r.gen, r.cmd = g, " ".join(v["cmd"])
        if v["timeout"]:
            r.fatal = "verus timed out"; break
        res = v["out"].get("verification-results", {})
        errs = [d for d in v["diags"] if d.get("level") == "error" and d.get("spans")]
        rustc_err = [d for d in errs if (d.get("code") or {}).get("code", "").startswith("E0")]
        if rustc_err: errs = rustc_err
        verified_phase = not rustc_err and "verified" in res and not res.get("encountered-vir-error", True) and v["out"].get("times-ms", {}).get("smt") and res["verified"] + res["errors"] > 0
        if verified_phase and not errs and res["errors"] == 0 and v["rc"] != 0:
            r.fatal = "verus ended with an error: " + v["raw"][-1500:]; break
        if verified_phase:
            r.obligations = res["verified"] + res["errors"]
            r.discharged = res["verified"]
            tm = v["out"]["times-ms"]["smt"]
            r.solver_ms = tm.get("smt-run", 0)
            for m in tm.get("smt-run-module-times", []):
                r.breakdown += m.get("function-breakdown", [])
            for d in errs:
                own = owners_of(g, d)
                msg = d["message"]
                # the function whose body is being checked: the primary span, unless it lies in a callee's contract
                prim = [o for o in own if o[1]] or own
                code = [o for o in own if o[0][1] in ("code", "ann")]
                who = None
                for o in ([x for x in prim if x[0][1] in ("code", "ann")] or code or prim):
                    who = o[0][0]; break
                if "postcondition" in msg:
                    # primary span is the failed ensures clause or the exit point; both lie in the same function
                    who = (prim or own)[0][0][0] if (prim or own) else who
                if any(k in msg.lower() for k in UNDECIDED_MSGS):
                    if who: r.undecided.setdefault(who, "solver: " + msg)
                    else: r.lemma_failed.append((msg, d.get("rendered", "")))
                elif who: r.failed.setdefault(who, []).append((msg, d.get("rendered", "")))
                else: r.lemma_failed.append((msg, d.get("rendered", "")))
            break
        # an error before verification: a construct Verus does not accept; give the function up and retry
        bad = set()
        # a std function that vstd says nothing about: its contract is assumed, when std.vrs has one
        more = {m[1] for d in errs for m in [re.match(r"`([^`]+)` is not supported", d["message"])] if m} & set(std_sections()) - set(std)
        if more:
            std += sorted(more); continue
        for d in errs:
            for (nm, kind), prim, ln, _ in owners_of(g, d):
                if kind != "item" and nm not in external:
                    bad.add(nm); r.undecided.setdefault(nm, "verus does not accept it: " + d["message"][:300] + (d.get("rendered","") if os.environ.get("VX_DEBUG") else ""))
        if not bad:
            r.fatal = "verus: " + (errs[0].get("rendered", errs[0]["message"]) if errs else v["raw"][-1500:]); break
        external |= bad
    r.wall, r.std = time.time() - t0, std
    # an annotation written for another loop, or a closure no contract knows: not a failed obligation of the code
    known = shapes()
    for k in list(r.failed):
        was, now = known.get(k, {"loops": [], "closures": 0}), r.gen.fns.get(k, {}).get("shape")
        if known and now and (was["loops"] != now["loops"] or was["closures"] < now["closures"]):
            r.undecided[k] = f"the proof was written for {was}, the function has {now}: {r.failed[k][0][0]}"
            del r.failed[k]
        elif r.gen.fns.get(k, {}).get("weak"):
            r.undecided[k] = f"verus leaves {r.gen.fns[k]['weak']} unspecified: {r.failed[k][0][0]}"
            del r.failed[k]
    if r.gen and not r.fatal:
        r.proved = [f for f in r.gen.fns if f not in r.failed and f not in r.undecided and not r.gen.fns[f]["used"]]
    return r

TRUST_RE = re.compile(r"\b(assume|admit)\s*\(|external_body|assume_specification|external_type_specification|\buninterp\b|\baxiom\b|#\[verifier::external")

def trusted_scan(vrs):
    """every assumption in the contract file: assumed functions, trusted declarations, admits"""
    out = []
    lines = [x for x in expand_impls(parse_vrs(vrs))]
    flat = []
    for x in lines:
        if isinstance(x, str): flat.append(x)
        else:
            for sec in (x.attrs, x.spec, x.start, x.tail, *x.loops.values(), *x.lstart.values(), *x.lend.values(), *[p[3] for p in x.pos]):
                flat += sec
    for i, l in enumerate(flat):
        s = l.split("//")[0]
        if TRUST_RE.search(s):
            t = s.strip()
            if t.startswith("#["):
                for k in range(i + 1, min(i + 6, len(flat))):
                    if flat[k].strip() and not flat[k].strip().startswith("#["):
                        t += " " + flat[k].strip(); break
            out.append(t[:200])
    return out

if __name__ == "__main__":
    if sys.argv[1] == "--check":
        p = subprocess.run([VERUS, "--version"], capture_output=True, text=True); print(p.stdout); sys.exit(p.returncode)
    if sys.argv[1] == "--shape":
        # written once, on the tree the contracts were written for
        out = {}
        for vrs in sys.argv[2:]:
            for k, f in generate(vrs).fns.items():
                if f["shape"]["loops"] or f["shape"]["closures"]: out[k] = f["shape"]
        open(SHAPES, "w").write("{\n" + ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out.items())) + "\n}\n"); sys.exit(0)
    vrs = sys.argv[1]
    wd = "/tmp/vx-work"
    r = verify(vrs, wd, sys.argv[2:])
    print("obligations", r.obligations, "discharged", r.discharged, "solver ms", r.solver_ms, "wall", round(r.wall, 1))
    if r.fatal: print("FATAL", r.fatal)
    for k, v in r.undecided.items(): print("UNDECIDED", k, v)
    for k, v in r.failed.items():
        for m, ren in v: print("FAILED", k, ":", m); print(ren)
    for m, ren in r.lemma_failed: print("LEMMA", m); print(ren)
    slow = sorted(r.breakdown, key=lambda x: -x["time"])[:8]
    for s in slow: print("  ", s["function"], s["time"], "ms rlimit", s["rlimit"], s["success"])
