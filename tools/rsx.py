"""Mechanical extraction of Rust items from /repo's current source.

`tokenize` splits Rust text into tokens, `File` finds items (functions, types,
impl members) by name, `tmatch`/`tsub` match and rewrite token sequences with
`$x` placeholders.  Nothing here knows anything about the code being extracted.
"""
import re

class LostAnchor(Exception):
    pass

class Tok:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return f"{self.k}:{self.s}"

_punct = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..", "<<", ">>"]
_re_id = re.compile(r"r#[A-Za-z_][A-Za-z0-9_]*|[A-Za-z_$][A-Za-z0-9_]*")
_re_num = re.compile(r"0[xXoObB][0-9A-Fa-f_]+[A-Za-z0-9_]*|[0-9][0-9_]*(\.(?![.A-Za-z_])[0-9_]*)?([eE][+-]?[0-9_]+)?[A-Za-z0-9_]*")

def tokenize(t):
    i, n, out = 0, len(t), []
    while i < n:
        c = t[i]
        if c.isspace():
            i += 1; continue
        if t.startswith("//", i):
            j = t.find("\n", i)
            i = n if j < 0 else j
            continue
        if t.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith("/*", j): d += 1; j += 2
                elif t.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(t, i)
        if m and not (m.group(0).startswith('r') and False):
            end = '"' + m.group(1)
            j = t.find(end, m.end())
            j = n if j < 0 else j + len(end)
            out.append(Tok("str", t[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and t[i + 1] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            j = min(j + 1, n)
            out.append(Tok("str", t[i:j], i, j)); i = j; continue
        if c == "'" or (c == "b" and i + 1 < n and t[i + 1] == "'"):
            q = i if c == "'" else i + 1
            m = re.compile(r"'(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(t, q)
            if m:
                out.append(Tok("chr", t[i:m.end()], i, m.end())); i = m.end(); continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(t, i)
            if m:
                out.append(Tok("life", m.group(0), i, m.end())); i = m.end(); continue
        m = _re_id.match(t, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end())); i = m.end(); continue
        if c.isdigit():
            m = _re_num.match(t, i)
            out.append(Tok("num", m.group(0), i, m.end())); i = m.end(); continue
        for p in _punct:
            if t.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p))); i += len(p); break
        else:
            out.append(Tok("p", c, i, i + 1)); i += 1
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}

def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s if toks[j].k == "p" else ""
        if s in OPEN: d += 1
        elif s in CLOSE:
            d -= 1
            if d == 0: return j
    raise LostAnchor("unbalanced brackets")

def strip_comments(t):
    """comments replaced by blanks (newlines kept)"""
    toks = tokenize(t)
    out, p = [], 0
    for k in toks:
        out.append(re.sub(r"[^\n]", " ", t[p:k.a])); out.append(k.s); p = k.b
    out.append(re.sub(r"[^\n]", " ", t[p:]))
    return "".join(out)

def cfg_true(s):
    """evaluate a cfg predicate for the default feature set, outside tests"""
    toks = tokenize(s)
    pos = 0
    def ev():
        nonlocal pos
        name = toks[pos].s; pos += 1
        if pos < len(toks) and toks[pos].s == "(":
            pos += 1; args = []
            while toks[pos].s != ")":
                args.append(ev())
                if toks[pos].s == ",": pos += 1
            pos += 1
            return {"not": lambda: not args[0], "all": lambda: all(args), "any": lambda: any(args)}[name]()
        if pos < len(toks) and toks[pos].s == "=":
            v = toks[pos + 1].s.strip('"'); pos += 2
            return name == "feature" and v in ("filters", "serde", "unicode")
        return name == "debug_assertions"
    return ev()

class Item:
    def __init__(s, key, kind, text, a, b, line, header=None):
        s.key, s.kind, s.text, s.a, s.b, s.line, s.header = key, kind, text, a, b, line, header

def expand_file_macros(text):
    """`macro_rules! m { ($($ty:ty)+) => { $( ITEMS )+ }; }  m! { a b c }` is replaced by ITEMS for a, b, c
    (on the line of its use, so that line numbers elsewhere stay; stringify!(a) is "a")"""
    for pat in ("macro_rules ! $n_id { ( $p ) => { $b } ; }", "macro_rules ! $n_id { ( $p ) => { $b } }"):
        for a, e, env in tfind(text, pat):
            m = re.fullmatch(r"\s*\$\(\s*\$(\w+)\s*:\s*(ty|ident|tt)\s*\)\s*(,?)\s*[+*]\s*(?:\$\(\s*,\s*\)\?)?", env["$p"])
            b = re.fullmatch(r"\s*\$\((.*)\)\s*,?[+*]\s*", env["$b"], re.S)
            if not m or not b or "$(" in b.group(1): continue
            var, sep, items = m.group(1), m.group(3), " ".join(b.group(1).split("\n"))
            for up in (env["$n_id"] + " ! { $args }", env["$n_id"] + " ! ( $args ) ;", env["$n_id"] + " ! { $args } ;"):
                while True:
                    uses = [u for u in tfind(text, up) if u[0] >= e]
                    if not uses: break
                    ua, ue, uenv = uses[0]
                    names = [x.strip() for x in uenv["$args"].split(",")] if sep else uenv["$args"].split()
                    out = ""
                    for nm in names:
                        if not nm: continue
                        one = re.sub(r"stringify\s*!\s*\(\s*\$" + var + r"\s*\)", '"' + nm + '"', items)
                        out += re.sub(r"\$" + var + r"\b", nm, one) + " "
                    out += "\n" * text.count("\n", ua, ue)
                    text = text[:ua] + out + text[ue:]
    return text

class File:
    def __init__(self, path, name=None):
        self.path = path
        raw = open(path).read()
        self.text = expand_file_macros(strip_comments(raw))
        self.toks = tokenize(self.text)
        self.items = {}
        self._walk(0, len(self.toks), "")

    def _add(self, key, kind, i, j, header=None):
        a, b = self.toks[i].a, self.toks[j - 1].b
        it = Item(key, kind, self.text[a:b], a, b, self.text.count("\n", 0, a) + 1, header)
        self.items.setdefault(key, it)

    def _walk(self, i, hi, prefix, impl_header=None):
        T = self.toks
        while i < hi:
            start = i
            ok = True
            # attributes
            while i < hi and T[i].s == "#":
                j = i + 1
                if T[j].s == "!": j += 1
                e = match_close(T, j)
                if T[j + 1].s == "cfg":
                    ok = ok and cfg_true(self.text[T[j + 2].b:T[e - 1].a])
                i = e + 1
                if T[j - 1].s == "!":
                    start = i
            if i >= hi: break
            body_start = i
            if T[i].s == "pub":
                i += 1
                if i < hi and T[i].s == "(": i = match_close(T, i) + 1
            while i < hi and T[i].s in ("const", "async", "unsafe", "extern", "default") and (T[i + 1].s in ("fn", "unsafe", "extern", "async") or T[i+1].k == "str"):
                i += 1
            kw = T[i].s
            def to_semi(j):
                while T[j].s != ";":
                    if T[j].s in OPEN: j = match_close(T, j)
                    j += 1
                return j + 1
            def to_brace(j):
                while T[j].s not in ("{", ";"):
                    if T[j].s in ("(", "["): j = match_close(T, j)
                    j += 1
                return j
            if kw == "fn":
                name = T[i + 1].s
                j = to_brace(i + 2)
                e = j + 1 if T[j].s == ";" else match_close(T, j) + 1
                if ok: self._add(prefix + name, "fn", body_start, e, impl_header)
                i = e
            elif kw in ("struct", "enum", "union", "trait"):
                name = T[i + 1].s
                j = to_brace(i + 2)
                e = j + 1 if T[j].s == ";" else match_close(T, j) + 1
                if ok:
                    self._add(prefix + name, kw, body_start, e)
                    if kw == "trait" and T[j].s == "{":
                        self._walk(j + 1, e - 1, prefix + name + "::", self.text[T[body_start].a:T[j].a])
                i = e
            elif kw == "impl":
                j = to_brace(i + 1)
                header = self.text[T[body_start].a:T[j].a]
                e = match_close(T, j) + 1
                if ok:
                    self._walk(j + 1, e - 1, prefix + self._impl_name(i, j) + "::", header)
                i = e
            elif kw == "mod":
                name = T[i + 1].s
                if T[i + 2].s == "{":
                    e = match_close(T, i + 2) + 1
                    if ok: self._walk(i + 3, e - 1, prefix + name + "::")
                    i = e
                else: i += 3
            elif kw in ("use", "type", "static", "const"):
                e = to_semi(i)
                if ok and kw != "use": self._add(prefix + (T[i + 1].s if T[i+1].s != "mut" else T[i+2].s), kw, body_start, e)
                i = e
            elif kw == "macro_rules":
                name = T[i + 2].s
                e = match_close(T, i + 3) + 1
                if ok: self._add(prefix + name + "!", "macro", body_start, e)
                if e < hi and T[e].s == ";": e += 1
                i = e
            elif i + 1 < hi and T[i + 1].s == "!":
                j = i + 2
                e = match_close(T, j) + 1
                if ok: self._add(prefix + kw + "!call", "call", body_start, e)
                if e < hi and T[e].s == ";": e += 1
                i = e
            else:
                i += 1

    def _impl_name(self, i, j):
        T = self.toks
        k = i + 1
        if T[k].s == "<":
            d = 0
            while True:
                if T[k].s == "<": d += 1
                elif T[k].s == ">": d -= 1
                elif T[k].s == ">>": d -= 2
                k += 1
                if d <= 0: break
        head = T[k:j]
        for n, t in enumerate(head):
            if t.s == "where" and t.k == "id":
                head = head[:n]; break
        d, split = 0, None
        for n, t in enumerate(head):
            if t.s == "<": d += 1
            elif t.s == ">": d -= 1
            elif t.s == ">>": d -= 2
            elif t.s == "for" and d == 0 and head[n + 1].s != "<": split = n
        def short(ts):
            out, d = [], 0
            for t in ts:
                if t.k == "life": continue
                out.append(t.s)
            s = "".join(out).replace("<,", "<")
            s = re.sub(r"<_?>", "", s).replace("<'_>", "")
            return s
        def base(ts):
            # drop lifetime-only generics, keep others
            s = short(ts)
            s = re.sub(r"^&(mut)?", "&", s)
            return s
        if split is not None:
            return f"<{base(head[:split])} for {base(head[split + 1:])}>"
        s = base(head)
        return re.sub(r"<.*>$", "", s)

    def get(self, key):
        if key not in self.items:
            raise LostAnchor(f"{self.path}: no item `{key}`")
        return self.items[key]

# ---------------------------------------------------------------- token patterns

def _ptoks(p):
    out = []
    ts = tokenize(p)
    for t in ts:
        if t.k == "id" and t.s.startswith("$"):
            t.k = "var"
        out.append(t)
    return out

def tmatch(toks, i, pat, text):
    """match pattern tokens at toks[i]; returns (end, bindings) or None"""
    def go(i, p, b):
        if p == len(pat): return i, b
        q = pat[p]
        if q.k == "var":
            name = q.s
            opt = name.endswith("_opt")
            one = name.endswith("_id")
            if name in b:
                prev = tokenize(b[name])
                for n, t in enumerate(prev):
                    if i + n >= len(toks) or toks[i + n].s != t.s: return None
                return go(i + len(prev), p + 1, b)
            j = i
            if one:
                if j < len(toks) and toks[j].k == "id":
                    return go(j + 1, p + 1, {**b, name: toks[j].s})
                return None
            if opt:
                r = go(j, p + 1, {**b, name: ""})
                if r: return r
            while j < len(toks):
                if toks[j].k == "p" and toks[j].s in CLOSE: return None
                if toks[j].k == "p" and toks[j].s in OPEN:
                    try: j = match_close(toks, j) + 1
                    except LostAnchor: return None
                else: j += 1
                nb = {**b, name: text[toks[i].a:toks[j - 1].b]}
                if p + 1 == len(pat): return None
                r = go(j, p + 1, nb)
                if r: return r
            return None
        if i < len(toks) and toks[i].s == q.s:
            return go(i + 1, p + 1, b)
        return None
    return go(i, 0, {})

def tfind(text, pattern, start=0):
    toks = tokenize(text)
    pat = _ptoks(pattern)
    res, i = [], 0
    while i < len(toks):
        if toks[i].a >= start:
            m = tmatch(toks, i, pat, text)
            if m:
                e, b = m
                res.append((toks[i].a, toks[e - 1].b, b))
                i = e
                continue
        i += 1
    return res

def tsub(text, pattern, repl, count=None):
    """rewrite all matches; returns (text, number of rewrites)"""
    n = 0
    found = tfind(text, pattern)
    out, p = [], 0
    for a, b, bind in found:
        r = re.sub(r"\$[A-Za-z_0-9]+", lambda m: bind.get(m.group(0), m.group(0)), repl)
        # keep line structure
        nl = text.count("\n", a, b) - r.count("\n")
        out.append(text[p:a]); out.append(r + "\n" * max(0, nl)); p = b
        n += 1
    out.append(text[p:])
    return "".join(out), n

def strip_attrs(text):
    """drop #[...] attributes inside an item; a false cfg drops the following arm/field/statement"""
    while True:
        toks = tokenize(text)
        for i, t in enumerate(toks):
            if t.s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
                e = match_close(toks, i + 1)
                a, b = t.a, toks[e].b
                if toks[i + 2].s == "cfg" and not cfg_true(text[toks[i + 3].b:toks[e - 1].a]):
                    # drop up to the end of the next arm / item
                    j = e + 1
                    while j < len(toks) and toks[j].s not in (",", ";") and not (toks[j].s in CLOSE):
                        if toks[j].s in OPEN:
                            br = toks[j].s == "{"
                            j = match_close(toks, j)
                            if br and (j + 1 >= len(toks) or toks[j + 1].s not in (",", ";", ".", "?", "=>")): break
                        j += 1
                    if j < len(toks) and toks[j].s not in CLOSE or (j < len(toks) and toks[j].s == "}"):
                        b = toks[j].b if toks[j].s in (",", ";", "}") else b
                seg = text[a:b]
                text = text[:a] + re.sub(r"[^\n]", " ", seg) + text[b:]
                break
        else:
            return text

class Fn:
    """a function's text split for contract insertion"""
    def __init__(self, text):
        self.text = text
        self.toks = tokenize(text)
        T = self.toks
        i = next(n for n, t in enumerate(T) if t.s == "fn" and t.k == "id")
        self.fn = i
        j = i
        while T[j].s not in ("{", ";"):
            if T[j].s in ("(", "["): j = match_close(T, j)
            j += 1
        self.open = j
        self.close = match_close(T, j) if T[j].s == "{" else None
        # params and return arrow
        p = i + 2
        if T[p].s == "<":
            d = 0
            while True:
                if T[p].s == "<": d += 1
                elif T[p].s == ">": d -= 1
                elif T[p].s == ">>": d -= 2
                elif T[p].s == "(" : p = match_close(T, p)
                p += 1
                if d <= 0: break
        self.popen = p
        self.pclose = match_close(T, p)
        self.arrow = None
        if T[self.pclose + 1].s == "->":
            self.arrow = self.pclose + 1
            k = self.arrow + 1
            while k < self.open and not (T[k].s == "where" and T[k].k == "id"): k += 1
            self.ret = (T[self.arrow + 1].a, T[k - 1].b)

    def loops(self):
        T, out = self.toks, []
        i = self.open + 1
        while i < self.close:
            t = T[i]
            if t.k == "id" and t.s in ("while", "loop", "for") and not (t.s == "for" and T[i + 1].s == "<"):
                j = i + 1
                while T[j].s != "{":
                    if T[j].s in ("(", "["): j = match_close(T, j)
                    j += 1
                out.append((i, j, match_close(T, j)))
            i += 1
        return out
