//! Random templates, contexts and syntaxes.
use crate::refimpl::Syn;
use std::collections::BTreeMap;
use upon::Value;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { (self.u() % k as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
}

/// names that a change might give a meaning of their own
const MAGIC: [&str; 26] = ["self", "super", "this", "index", "first", "last", "item", "key", "value", "root", "global", "context", "it", "_", "__", "len", "a_b", "a1", "none", "nil", "null", "undefined", "name", "env", "vars", "data"];
pub const NAMES: [&str; 11] = ["a", "b", "c", "x", "k", "loop", "é", "lst", "A", "ab", "Loop"];
pub const KEYS: [&str; 8] = ["a", "b", "c", "k", "index", "len", "A", "ab"];
pub const TEXTS: [&str; 20] = [
    "", "t", "text", " ", "  ", "\n", "\t", " \n ", "é", "日本", "\u{2003}", "-", "--", "\"", "\u{301}", " x ", "\r\n", "\u{feff}", "y\n", "\u{a0}z",
];

/// what a property wants to see more of
#[derive(Clone)]
pub struct Cfg {
    pub text: usize, pub emit: usize, pub iff: usize, pub forr: usize, pub with: usize, pub incl: usize, pub comment: usize,
    pub lits: usize, pub calls: usize, pub trim: usize, pub mutate: usize, pub alt_syntax: usize, pub tiny_syntax: usize,
    pub templates: usize, pub depth: usize, pub deep_paths: usize, pub tiny_source: usize, pub limits: usize, pub blocks: usize,
    pub good_paths: usize, pub wild: usize, pub odd_text: usize, pub wild_lits: usize,
    /// percentage of cases that are made large in one respect
    pub big: usize,
}
impl Cfg {
    pub fn base() -> Cfg {
        Cfg { text: 3, emit: 4, iff: 2, forr: 2, with: 2, incl: 1, comment: 1, lits: 25, calls: 25, trim: 15, mutate: 25, alt_syntax: 20,
              tiny_syntax: 5, templates: 2, depth: 3, deep_paths: 30, tiny_source: 5, limits: 10, blocks: 4, good_paths: 90, wild: 4, odd_text: 2, wild_lits: 10, big: 2 }
    }
}

pub fn value(r: &mut Rng, d: usize) -> Value {
    match r.n(if d == 0 { 8 } else { 14 }) {
        0 => Value::None,
        1 => Value::Bool(r.p(50)),
        2 => Value::Integer(*r.of(&[0, 0, 1, -1, 2, 5, i64::MAX, i64::MIN, 255, 256])),
        3 => Value::Float(*r.of(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, 5e-324, -1.0, 1e300, f64::MIN_POSITIVE])),
        4 | 5 => Value::String(r.of(&["", "", "s", "é日", "a\nb", " ", "0", "false", "<a>", "\u{feff}x", "\0", "\u{200b}", "a ", " a", "\t", "\r\n", "x\r", "&amp;", "{{ x }}", "none", "ß", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\u{7f}", "\\n", "\"", "-0", "1_0"]).to_string()),
        6 => Value::Integer(r.n(5) as i64),
        7 => Value::String(r.of(&KEYS).to_string()),
        8 | 9 | 10 => Value::List((0..r.n(4)).map(|_| value(r, d - 1)).collect()),
        _ => Value::Map((0..r.n(5)).map(|_| (r.of(&KEYS).to_string(), value(r, d - 1))).collect()),
    }
}
pub fn root(r: &mut Rng) -> Value {
    if r.p(4) { return value(r, 2); }
    let mut m = BTreeMap::new();
    for n in NAMES { if n != "loop" && r.p(75) || r.p(10) { m.insert(n.to_string(), value(r, 3)); } }
    if r.p(15) { for _ in 0..4 { let n = *r.of(&MAGIC); m.insert(n.to_string(), value(r, 2)); } }
    if r.p(70) { m.insert("lst".into(), Value::List((0..r.n(4)).map(|_| value(r, 2)).collect())); }
    Value::Map(m)
}

fn delim(r: &mut Rng, alpha: &[&str], max: usize) -> String { (0..1 + r.n(max)).map(|_| *r.of(alpha)).collect() }
pub fn syntax(r: &mut Rng, c: &Cfg) -> (Syn, bool) {
    if r.p(c.tiny_syntax) {
        let alpha: &[&str] = *r.of(&[&["<", ">", "-"][..], &["<", ">"], &["{", "}", "%", "-"], &["é", "è", "-"], &["a", "b", "-"], &["(", ")", "((", " "]]);
        let mut f = |r: &mut Rng, p| if r.p(p) { Some((delim(r, alpha, 3), delim(r, alpha, 3))) } else { None };
        let expr = f(r, 90);
        let block = f(r, 60);
        let comment = f(r, 50);
        return (Syn { expr, block, comment }, true);
    }
    if r.p(c.alt_syntax) {
        let s = *r.of(&[
            (("<?", "?>"), ("<%", "%>"), ("<#", "#>")), (("<", ">"), ("<<", ">>"), ("<<<", ">>>")), (("$(", ")"), ("((", "))"), ("", "")),
            (("{", "}"), ("{%", "%}"), ("{#", "#}")), (("{{", "}}"), ("", ""), ("{#", "#}")), (("", ""), ("{%", "%}"), ("", "")),
            (("«", "»"), ("‹", "›"), ("¿", "?")), (("{{", "}}"), ("{%", "%}"), ("{%#", "#%}")), (("[", "]"), ("[[", "]]"), ("[-", "-]")),
            (("{{{", "}}}"), ("{{%", "%}}"), ("{{", "}}")), (("éé", "èè"), ("é", "è"), ("ê", "ë")), (("<!--", "-->"), ("<-", "->"), ("--", "--!")),
        ]);
        return (Syn::new(s.0, s.1, s.2), false);
    }
    (Syn::default(), false)
}

pub struct Gen<'a> { pub r: &'a mut Rng, pub c: Cfg, pub syn: Syn, names: Vec<(String, Option<Value>)>, pub tpls: Vec<String>, pub values: Option<Value> }
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg, syn: Syn, tpls: Vec<String>) -> Self { Gen { r, c, syn, names: vec![], tpls, values: None } }
    fn ws(&mut self) -> &'static str { *self.r.of(&[" ", " ", " ", "  ", "\t"]) }
    fn ows(&mut self) -> &'static str { *self.r.of(&["", "", "", "", " "]) }
    fn begin(&mut self, d: &str) -> String { if self.r.p(self.c.trim) { format!("{d}-") } else { d.to_string() } }
    fn end(&mut self, d: &str) -> String { if self.r.p(self.c.trim) { format!("-{d}") } else { d.to_string() } }
    fn name(&mut self) -> String { if self.r.p(4) { return self.r.of(&MAGIC).to_string(); } self.r.of(&NAMES).to_string() }
    /// a variable that is probably in scope, and its value if it can be foretold
    fn var(&mut self) -> (String, Option<Value>) {
        if self.r.p(self.c.wild) { return (self.name(), None); }
        let mut all: Vec<(String, Option<Value>)> = match &self.values { Some(Value::Map(m)) => m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect(), _ => vec![] };
        all.retain(|(k, _)| k != "loop");
        let n = self.names.len();
        if n > 0 && (all.is_empty() || self.r.p(60)) { let k = self.r.n(n.min(5)); let i = n - 1 - k; let name = self.names[i].0.clone(); return self.names.iter().rev().find(|x| x.0 == name).unwrap().clone(); }
        if all.is_empty() { return (self.name(), None); }
        let x = self.r.of(&all).clone();
        self.names.iter().rev().find(|y| y.0 == x.0).cloned().unwrap_or(x)
    }
    fn path(&mut self) -> (String, Option<Value>) {
        let (mut s, mut v) = self.var();
        while self.r.p(self.c.deep_paths) {
            let good = self.r.p(self.c.good_paths);
            let t = match &v {
                Some(Value::List(l)) if good && !l.is_empty() => self.r.n(l.len()).to_string(),
                Some(Value::Map(m)) if good && !m.is_empty() => { let i = self.r.n(m.len()); m.keys().nth(i).unwrap().clone() }
                _ if good => break,
                _ => if self.r.p(35) { self.r.of(&["0", "1", "2", "01", "99", "18446744073709551616", "3"]).to_string() } else { self.r.of(&KEYS).to_string() },
            };
            s += if self.r.p(if good { 15 } else { 50 }) { "?." } else { "." };
            s += self.ows();
            // a number that a narrow type would take for another one
            let t = if self.r.p(3) { match t.parse::<u64>() { Ok(n) if n < 10 => (n + (1u64 << *self.r.of(&[8, 16, 31, 32, 63]))).to_string(), _ => t } } else { t };
            v = match &v {
                Some(Value::List(l)) => t.parse::<usize>().ok().and_then(|i| l.get(i).cloned()),
                Some(Value::Map(m)) => m.get(&t).cloned(),
                _ => None,
            };
            s += &t;
        }
        (s, v)
    }
    fn literal(&mut self) -> String {
        match self.r.n(10) {
            0 => self.r.of(&["true", "false"]).to_string(),
            1 | 2 => {
                let mut s = String::from("\"");
                for _ in 0..self.r.n(5) { s += *self.r.of(&["a", "\\n", "\\r", "\\t", "\\\\", "\\\"", "é", " ", "}}", "日", "|", "x", "%", "-"]); }
                if self.r.p(self.c.wild_lits / 2) { s += *self.r.of(&["\\q", "\\é", "\\0", "\\'", "\n"]); }
                s + "\""
            }
            3 | 4 if !self.r.p(self.c.wild_lits) => self.r.of(&["0", "1", "-1", "0x1f", "0b101", "-0o17", "1_000", "1.5", "-2.5", "+3", "0.0", "-0.0", "9223372036854775807"]).to_string(),
            3 => self.r.of(&["0", "1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551617",
                             "0x7fffffffffffffff", "0x8000000000000000", "-0x8000000000000000", "0xffffffffffffffff", "0x1ffffffffffffffff", "00000000000000000000000000000001", "+0", "-0"]).to_string(),
            4 => self.r.of(&["0b", "0o", "0x", "0b2", "0o8", "0xg", "1_000", "_1", "1__0", "0b_1", "1.5", "1e3", "1e-3", "1.", ".5", "1..2", "- 1", "+1", "+-1", "0x1_f", "1_", "12a", "0B1", "inf", "1e999", "5-", "1+2", "00", "0b101", "-0o17"]).to_string(),
            5 => {
                let sign = *self.r.of(&["", "", "-", "+"]);
                let (pre, digs): (&str, &str) = *self.r.of(&[("0b", "01_"), ("0o", "01234567_"), ("0x", "0123456789abcdefABCDEF_"), ("", "0123456789_")]);
                let short = !self.r.p(self.c.wild_lits * 2);
                let n = 1 + self.r.n(if short { 12 } else if pre == "0b" { 66 } else { 22 });
                let mut s = format!("{sign}{pre}");
                let d: Vec<char> = digs.chars().collect();
                for i in 0..n { let mut c = *self.r.of(&d); if i == 0 && pre.is_empty() && c == '_' { c = '7'; } s.push(c); }
                s
            }
            _ => self.r.n(20).to_string(),
        }
    }
    fn base(&mut self) -> (String, Option<Value>) { if self.r.p(self.c.lits) { (self.literal(), Some(Value::None)) } else { self.path() } }
    fn expr(&mut self) -> String { self.expr_v().0 }
    fn expr_v(&mut self) -> (String, Option<Value>) {
        let (mut s, mut v) = self.base();
        while self.r.p(self.c.calls) {
            let f: (&str, usize) = if self.r.p(8 + self.c.wild) { *self.r.of(&[("fail", 0), ("up", 0), ("dbg", 0), ("bad", 0), ("nope", 0)]) }
                else { *self.r.of(&[("id", 0), ("snd", 1), ("pair", 1), ("tri", 2), ("len", 0), ("id", 0), ("quad", 3), ("quint", 4)]) };
            v = None;
            let n = if self.r.p(96) { f.1 } else { self.r.n(7) };
            s += self.ows(); s += "|"; s += self.ows(); s += f.0;
            for i in 0..n { s += if i == 0 { ":" } else { "," }; s += self.ows(); let b = self.base(); s += &b.0; }
        }
        (s, v)
    }
    fn iterable(&mut self, two: bool) -> (String, Option<Value>) {
        let mut e = self.expr_v();
        for _ in 0..12 {
            if matches!((&e.1, two), (Some(Value::List(_)), false) | (Some(Value::Map(_)), true)) || self.r.p(self.c.wild / 2) { break; }
            e = if !two && self.r.p(25) { let (a, b) = (self.base().0, self.base().0); (format!("{a}|pair:{b}"), Some(Value::List(vec![]))) }
                else if two && self.r.p(25) { let (a, b) = (self.base().0, self.base().0); (format!("{a}|quad:{b},{b},{a}"), Some(Value::Map(BTreeMap::new()))) }
                else { self.expr_v() };
        }
        e
    }
    fn tag(&mut self, d: &Option<(String, String)>, inner: &str) -> String {
        match d { None => String::new(), Some((b, e)) => { let (b, e) = (self.begin(b), self.end(e)); let (w, v) = (self.ows(), if self.r.p(10) { "" } else { self.ws() }); let u = if w.is_empty() { " " } else { w }; format!("{b}{u}{inner}{v}{e}") } }
    }
    fn block(&mut self, inner: &str) -> String { let d = self.syn.block.clone(); self.tag(&d, inner) }
    pub fn body(&mut self, depth: usize) -> String {
        let mut out = String::new();
        for _ in 0..self.r.n(self.c.blocks + 1) { let s = self.stmt(depth); out += &s; }
        out
    }
    fn cond(&mut self) -> String { let n = if self.r.p(35) { "not " } else { "" }; format!("{n}{}", self.expr()) }
    fn stmt(&mut self, depth: usize) -> String {
        let c = self.c.clone();
        let mut w = [c.text, c.emit, c.iff, c.forr, c.with, c.incl, c.comment];
        if depth == 0 { w[2] = 0; w[3] = 0; w[4] = 0; }
        let mut k = self.r.n(w.iter().sum());
        let mut which = 0;
        while k >= w[which] { k -= w[which]; which += 1; }
        match which {
            0 => { let mut s = String::new(); for _ in 0..1 + self.r.n(3) { s += if self.r.p(c.odd_text) { *self.r.of(&["{", "}", "%", "#", "<", ">"]) } else { *self.r.of(&TEXTS) }; } s }
            1 => {
                let (mut e, v) = self.expr_v();
                if matches!(v, Some(Value::List(_) | Value::Map(_)) | None) && self.r.p(90) || self.r.p(5) { e += "|dbg"; }
                let d = self.syn.expr.clone(); self.tag(&d, &e) }
            2 => {
                let c = self.cond();
                let mut s = self.block(&format!("if {c}"));
                s += &self.body(depth - 1);
                while self.r.p(35) { let c = self.cond(); s += &self.block(&format!("else if {c}")); s += &self.body(depth - 1); }
                if self.r.p(50) { s += &self.block("else"); s += &self.body(depth - 1); }
                s + &self.block("endif")
            }
            3 => {
                let v = self.name();
                let two = self.r.p(40);
                let w = self.name();
                let (e, val) = self.iterable(two);
                let mut s = if two { self.block(&format!("for {v}, {w} in {e}")) } else { self.block(&format!("for {v} in {e}")) };
                let depth0 = self.names.len();
                let item = match &val { Some(Value::List(l)) => l.first().cloned(), Some(Value::Map(m)) => m.values().next().cloned(), _ => None };
                if two { self.names.push((w, item)); self.names.push((v, Some(Value::String(String::new())))); } else { self.names.push((v, item)); }
                let info = [("index", Value::Integer(0)), ("first", Value::Bool(true)), ("last", Value::Bool(true))].into_iter().map(|(k, v)| (k.to_string(), v)).collect();
                self.names.push(("loop".into(), Some(Value::Map(info))));
                let l = self.names.len();
                s += &self.body(depth - 1);
                if self.r.p(25) { let d = self.syn.expr.clone(); s += &self.tag(&d, self_loop(l)); }
                self.names.truncate(depth0);
                s + &self.block("endfor")
            }
            4 => {
                let (e, val) = self.expr_v();
                let v = self.name();
                let s = self.block(&format!("with {e} as {v}"));
                self.names.push((v, val));
                let b = self.body(depth - 1);
                self.names.pop();
                s + &b + &self.block("endwith")
            }
            5 => {
                let n = if self.tpls.is_empty() || self.r.p(4) { "missing".to_string() } else { let i = self.r.n(self.tpls.len()); self.tpls[i].clone() };
                let w = if self.r.p(40) { format!(" with {}", self.expr()) } else { String::new() };
                self.block(&format!("include \"{n}\"{w}"))
            }
            _ => match self.syn.comment.clone() {
                None => String::new(),
                Some((b, e)) => {
                    let (b, e) = (self.begin(&b), self.end(&e));
                    let t = if self.r.p(c.odd_text * 2) { *self.r.of(&["- ", " -", "{", "#", "%}"]) } else { *self.r.of(&["", " ", "comment", " c ", "\n", "\"", "é"]) };
                    format!("{b}{t}{e}")
                }
            },
        }
    }
    pub fn mutate(&mut self, s: String) -> String {
        let mut cs: Vec<char> = s.chars().collect();
        let mut bits: Vec<String> = ["{{", "}}", "{%", "%}", "{#", "#}", "-", " ", "\n", "\"", "|", ".", "?.", "é", "if", "else", "endif", "endfor", "{% else %}", "{% endif %}", "{% endfor %}",
                                     "{% if a %}", "{%- else if b -%}", "{% endwith %}", "{# #}", "0", ":", ",", "\\", "\t", "\r", "?", "#", "}", "{", "日", "!", "in", "as", "{##}", "{#--#}", "{#-#}"].iter().map(|s| s.to_string()).collect();
        for (_, d) in self.syn.pats() { bits.push(d); }
        for _ in 0..1 + self.r.n(3) {
            let n = cs.len();
            match self.r.n(5) {
                0 if n > 0 => { let i = self.r.n(n); cs.remove(i); }
                1 if n > 0 => { let i = self.r.n(n); let k = self.r.n((n - i).min(8) + 1); cs.drain(i..i + k); }
                2 if n > 0 => { let i = self.r.n(n); let k = self.r.n((n - i).min(12) + 1); let t: Vec<char> = cs[i..i + k].to_vec(); let j = self.r.n(n); for (d, c) in t.into_iter().enumerate() { cs.insert(j + d, c); } }
                3 if n > 0 => { let i = self.r.n(n); cs.truncate(i); }
                _ => { let i = self.r.n(n + 1); let b = self.r.of(&bits).clone(); for (d, c) in b.chars().enumerate() { cs.insert(i + d, c); } }
            }
        }
        cs.into_iter().collect()
    }
    pub fn tiny(&mut self) -> String {
        let mut alpha: Vec<String> = vec!["a".into(), " ".into(), "-".into(), "b".into(), "\n".into()];
        for (_, d) in self.syn.pats() { for c in d.chars() { alpha.push(c.to_string()); } if self.r.p(40) { alpha.push(d); } }
        (0..self.r.n(16)).map(|_| self.r.of(&alpha).clone()).collect()
    }
}
fn self_loop(n: usize) -> &'static str { ["loop.index", "loop.first", "loop.last", "loop?.index", "loop.index", "loop.first", "loop.last", "loop?.nope", "loop|dbg"][n % 9] }
