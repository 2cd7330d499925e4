//! Runs one case on the real engine and on the reference and compares what can be observed.
use crate::gen::*;
use crate::refimpl::{self as rf, Acc, Env, Fun, RErr, Run, Syn, Tpl};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use upon::Value;

#[derive(Clone, Debug)]
pub struct Case {
    pub syn: Syn, pub main: String, pub named: Vec<(String, String)>, pub root: Value,
    pub engine_depth: Option<usize>, pub render_depth: Option<usize>,
    /// 0 compile + string, 1 named + string, 2 compile + writer, 3 named + writer, 4 value function, 5 template function
    pub mode: u8, pub dbg_default: bool,
    /// one loop over a huge list and nothing else
    pub huge: bool,
    /// the same template is rendered from this context first, and what that gives is dropped
    pub before: Option<Value>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct At { pub name: String, pub ln: usize, pub col: usize, pub width: usize, pub text: String }
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok(String), Err { stage: String, kind: String, at: Option<At> }, Panic(String) }

fn opt_int(v: &Value) -> Value {
    Value::Integer(match v { Value::List(l) => l.len() as i64, Value::Map(m) => m.len() as i64, Value::String(s) => s.len() as i64, _ => -1 })
}
pub fn f_id(v: Value, _: &[Value]) -> Result<Value, String> { Ok(v) }
pub fn f_snd(_: Value, a: &[Value]) -> Result<Value, String> { Ok(a[0].clone()) }
pub fn f_pair(v: Value, a: &[Value]) -> Result<Value, String> { Ok(Value::List(vec![v, a[0].clone()])) }
pub fn f_tri(v: Value, a: &[Value]) -> Result<Value, String> { Ok(Value::List(vec![a[1].clone(), v, a[0].clone()])) }
pub fn f_quad(v: Value, a: &[Value]) -> Result<Value, String> {
    Ok(Value::Map([("a", a[0].clone()), ("b", a[1].clone()), ("c", a[2].clone()), ("k", v)].into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}
pub fn f_quint(v: Value, a: &[Value]) -> Result<Value, String> {
    Ok(Value::Map([("a", a[0].clone()), ("b", a[1].clone()), ("c", a[2].clone()), ("d", a[3].clone()), ("k", v)].into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}
pub fn f_fail(_: Value, _: &[Value]) -> Result<Value, String> { Err("failed".into()) }
pub fn f_len(v: Value, _: &[Value]) -> Result<Value, String> { Ok(opt_int(&v)) }
pub fn m_up(v: &Value) -> Result<String, ()> { Ok(format!("<{}>", rf::default_fmt(v)?)) }
pub fn m_dbg(v: &Value) -> Result<String, ()> { Ok(format!("{v:?}")) }
pub fn m_bad(_: &Value) -> Result<String, ()> { Err(()) }
pub fn funs() -> BTreeMap<String, Fun> {
    let mut m = BTreeMap::new();
    for (n, k, f) in [("id", 0, f_id as rf::FilterF), ("snd", 1, f_snd), ("pair", 1, f_pair), ("tri", 2, f_tri), ("quad", 3, f_quad), ("quint", 4, f_quint), ("fail", 0, f_fail), ("len", 0, f_len)] {
        m.insert(n.to_string(), Fun::Filter(k, f));
    }
    for (n, f) in [("up", m_up as rf::FmtF), ("dbg", m_dbg), ("bad", m_bad)] { m.insert(n.to_string(), Fun::Formatter(f)); }
    m
}
pub fn register(e: &mut upon::Engine<'_>) {
    e.add_filter("id", |v: Value| v);
    e.add_filter("snd", |v: Value, a: Value| f_snd(v, &[a]));
    e.add_filter("pair", |v: Value, a: Value| f_pair(v, &[a]));
    e.add_filter("tri", |v: Value, a: Value, b: Value| f_tri(v, &[a, b]));
    e.add_filter("quad", |v: Value, a: Value, b: Value, c: Value| f_quad(v, &[a, b, c]));
    e.add_filter("quint", |v: Value, a: Value, b: Value, c: Value, d: Value| f_quint(v, &[a, b, c, d]));
    e.add_filter("fail", |v: Value| f_fail(v, &[]));
    e.add_filter("len", |v: Value| f_len(v, &[]));
    e.add_formatter("up", |f, v| match rf::default_fmt(v) {
        Ok(s) => { f.write_char('<')?; write!(f, "{s}")?; f.write_str(">")?; Ok(()) }
        Err(()) => Err(upon::fmt::Error::from(String::from("unformattable"))),
    });
    e.add_formatter("dbg", |f, v| { write!(f, "{v:?}")?; Ok(()) });
    e.add_formatter("bad", |_, _| Err(upon::fmt::Error::from("bad")));
}
fn dbg_default(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { write!(f, "{v:?}")?; Ok(()) }

pub fn parse_err(stage: &str, e: &upon::Error) -> Out {
    let s = format!("{e:#}");
    let kind = s.split([':', '\n']).next().unwrap_or("").trim().to_string();
    let ls: Vec<&str> = s.split('\n').collect();
    let at = (|| {
        let h = ls.get(2)?.trim_start().strip_prefix("--> ")?;
        let mut it = h.rsplitn(3, ':');
        let col = it.next()?.parse().ok()?;
        let ln: usize = it.next()?.parse().ok()?;
        let name = it.next()?.to_string();
        let text = ls[4].strip_prefix(&format!(" {ln} | "))?.to_string();
        let width = ls[5].chars().filter(|c| *c == '^').count();
        Some(At { name, ln, col, width, text })
    })();
    Out::Err { stage: stage.to_string(), kind, at }
}
fn conv_at(e: &RErr, name: &str) -> Option<At> {
    e.at.as_ref().map(|(src, sp)| { let (ln, col, width, text) = rf::place(src, *sp); At { name: e.name.clone().unwrap_or_else(|| name.to_string()), ln, col, width, text } })
}
fn fn_lookup(root: &Value, p: &[(bool, Acc)]) -> Result<Value, String> {
    let mut v = root;
    for (opt, a) in p {
        let x = match (v, a) { (Value::Map(m), Acc::Key(k)) => m.get(k), (Value::List(l), Acc::Ix(i)) => l.get(*i), _ => return Err("kind".into()) };
        match x { Some(y) => v = y, None if *opt => return Ok(Value::None), None => return Err("missing".into()) }
    }
    Ok(v.clone())
}

/// when each worker entered the code of the repository, in ms, or 0; the time the reference takes is no concern of anybody
pub static SINCE: [std::sync::atomic::AtomicU64; 8] = [const { std::sync::atomic::AtomicU64::new(0) }; 8];
thread_local! { pub static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(99) }; }
pub fn ms() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn mark(t: u64) { if let Some(s) = SINCE.get(SLOT.get()) { s.store(t, std::sync::atomic::Ordering::Relaxed); } }
pub fn run_real(c: &Case) -> Out {
    mark(ms());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_real_inner(c)));
    mark(0);
    match r {
        Ok(o) => o,
        Err(p) => Out::Panic(crate::panic_text(p)),
    }
}
fn run_real_inner(c: &Case) -> Out {
    let mut e = upon::Engine::with_syntax(c.syn.build());
    register(&mut e);
    if c.dbg_default { e.set_default_formatter(&dbg_default); }
    if let Some(d) = c.engine_depth { e.set_max_include_depth(d); }
    if c.mode == 5 {
        let mut ts = BTreeMap::new();
        for (n, s) in &c.named { match e.compile(s.as_str()) { Ok(t) => { ts.insert(n.clone(), t); } Err(x) => return parse_err(&format!("compile {n}"), &x) } }
        let t = match e.compile(c.main.as_str()) { Ok(t) => t, Err(x) => return parse_err("compile main", &x) };
        if let Some(b) = &c.before {
            let mut r = t.render_from(&e, b).with_template_fn(|n| ts.get(n).ok_or_else(|| "no such template".to_string()));
            if let Some(d) = c.render_depth { r = r.with_max_include_depth(d); }
            let _ = r.to_string();
        }
        let mut r = t.render_from(&e, &c.root).with_template_fn(|n| ts.get(n).ok_or_else(|| "no such template".to_string()));
        if let Some(d) = c.render_depth { r = r.with_max_include_depth(d); }
        return match r.to_string() { Ok(s) => Out::Ok(s), Err(x) => parse_err("render", &x) };
    }
    for (n, s) in &c.named { if let Err(x) = e.add_template(n.as_str(), s.as_str()) { return parse_err(&format!("compile {n}"), &x); } }
    let named = c.mode == 1 || c.mode == 3;
    let t;
    if named { if let Err(x) = e.add_template("main", c.main.as_str()) { return parse_err("compile main", &x); } }
    let first = |mut r: upon::Renderer<'_>| { if let Some(d) = c.render_depth { r = r.with_max_include_depth(d); } let _ = r.to_string(); };
    let mut r = if named {
        if let Some(b) = &c.before { first(e.template("main").render_from(b)); }
        e.template("main").render_from(&c.root)
    } else {
        t = match e.compile(c.main.as_str()) { Ok(t) => t, Err(x) => return parse_err("compile main", &x) };
        if let Some(b) = &c.before { first(t.render_from(&e, b)); }
        if c.mode == 4 {
            let root = c.root.clone();
            t.render_from_fn(&e, move |p| {
                let q: Vec<(bool, Acc)> = p.iter().map(|m| (matches!(m.op, upon::ValueAccessOp::Optional), match m.access { upon::ValueAccess::Key(k) => Acc::Key(k.to_string()), upon::ValueAccess::Index(i) => Acc::Ix(i) })).collect();
                fn_lookup(&root, &q)
            })
        } else { t.render_from(&e, &c.root) }
    };
    if let Some(d) = c.render_depth { r = r.with_max_include_depth(d); }
    if c.mode == 2 || c.mode == 3 {
        let mut w = vec![];
        match r.to_writer(&mut w) { Ok(()) => Out::Ok(String::from_utf8(w).unwrap_or_else(|e| format!("not UTF-8: {e:?}"))), Err(x) => parse_err("render", &x) }
    } else {
        match r.to_string() { Ok(s) => Out::Ok(s), Err(x) => parse_err("render", &x) }
    }
}
pub struct RefRun { pub out: Out, pub steps: usize }
pub fn run_ref(c: &Case) -> RefRun {
    let mut ts: BTreeMap<String, Tpl> = BTreeMap::new();
    let named = c.mode == 1 || c.mode == 3;
    let err = |stage: String, e: RErr, name: &str| RefRun { out: Out::Err { stage, kind: e.kind.to_string(), at: conv_at(&e, name) }, steps: 0 };
    for (n, s) in &c.named {
        match rf::parse(s, &c.syn) { Ok(t) => { ts.insert(n.clone(), t); } Err(e) => { let nm = if c.mode == 5 { "<anonymous>" } else { n }; return err(format!("compile {n}"), e, nm) } }
    }
    let main = match rf::parse(&c.main, &c.syn) { Ok(t) => t, Err(e) => return err("compile main".into(), e, if named { "main" } else { "<anonymous>" }) };
    if named { ts.insert("main".into(), main.clone()); }
    let get = |n: &str| ts.get(n);
    let fl = |p: &[(bool, Acc)]| fn_lookup(&c.root, p);
    let env = Env { funs: funs(), templates: &get, default_fmt: if c.dbg_default { m_dbg } else { rf::default_fmt },
                    max_depth: c.render_depth.or(c.engine_depth).unwrap_or(64), value_fn: if c.mode == 4 { Some(&fl) } else { None } };
    let mut r = Run::new(&env, if c.mode == 4 { None } else { Some(c.root.clone()) });
    // a huge list is visited to the end
    if c.huge || c.main.len() > 100_000 { r.limit = 400_000; }
    let name = if named { Some("main") } else { None };
    if let Some(b) = &c.before {
        let mut q = Run::new(&env, Some(b.clone()));
        if let Err(RErr { kind: "skip", .. }) = q.template(&main, name, 1) { return err("render".into(), RErr { kind: "skip", at: None, name: None }, ""); }
    }
    match r.template(&main, name, 1) {
        Ok(()) => { let o = r.out; RefRun { out: Out::Ok(o), steps: r.steps } }
        Err(e) => { let at = conv_at(&e, "<anonymous>"); RefRun { out: Out::Err { stage: "render".into(), kind: e.kind.into(), at }, steps: r.steps } }
    }
}
pub fn same(a: &Out, b: &Out, strict: bool) -> bool {
    match (a, b) {
        (Out::Err { stage: s, kind: k, at: x }, Out::Err { stage: t, kind: l, at: y }) => s == t && k == l && (!strict || x == y),
        _ => a == b,
    }
}
fn bad(c: &Case, strict: bool) -> bool {
    let a = run_ref(c).out;
    !matches!(&a, Out::Err { kind, .. } if kind == "skip") && !same(&a, &run_real(c), strict)
}

pub fn shrink(c: &Case, strict: bool) -> Case {
    let mut best = c.clone();
    let t0 = std::time::Instant::now();
    let mut progress = true;
    while progress && t0.elapsed().as_secs() < 8 {
        progress = false;
        let mut i = 0;
        while i < best.named.len() {
            let mut d = best.clone(); d.named.remove(i);
            if bad(&d, strict) { best = d; progress = true; } else { i += 1; }
        }
        for which in 0..=best.named.len() {
            let get = |c: &Case| if which == 0 { c.main.clone() } else { c.named[which - 1].1.clone() };
            let mut k = get(&best).chars().count();
            while k > 0 && t0.elapsed().as_secs() < 8 {
                let mut at = 0;
                loop {
                    let cs: Vec<char> = get(&best).chars().collect();
                    if at + k > cs.len() || t0.elapsed().as_secs() >= 8 { break; }
                    let s: String = cs[..at].iter().chain(&cs[at + k..]).collect();
                    let mut d = best.clone();
                    if which == 0 { d.main = s } else { d.named[which - 1].1 = s }
                    if bad(&d, strict) { best = d; progress = true; } else { at += 1; }
                }
                k /= 2;
            }
        }
        if let Value::Map(m) = best.root.clone() {
            for k in m.keys() {
                let mut d = best.clone();
                if let Value::Map(x) = &mut d.root { x.remove(k); }
                if bad(&d, strict) { best = d; progress = true; continue; }
            }
        }
        for f in [|d: &mut Case| d.before = None, |d: &mut Case| d.engine_depth = None, |d: &mut Case| d.render_depth = None, |d: &mut Case| d.mode = 0, |d: &mut Case| d.dbg_default = false, |d: &mut Case| d.root = Value::Map(BTreeMap::new()), |d: &mut Case| d.syn = Syn::default()] {
            let mut d = best.clone(); f(&mut d);
            if format!("{d:?}") != format!("{best:?}") && bad(&d, strict) { best = d; progress = true; }
        }
    }
    best
}

pub fn gen_case(r: &mut Rng, c: &Cfg) -> Case {
    let (syn, tiny) = syntax(r, c);
    let root = root(r);
    let n = r.n(c.templates + 1);
    let names: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
    let mode = *r.of(&[0u8, 0, 1, 1, 2, 3, 4, 5]);
    let mut g = Gen::new(r, c.clone(), syn.clone(), names.clone());
    g.values = Some(root.clone());
    let mut make = |top: bool| {
        let tiny_src = g.r.p(if tiny { 60 } else { c.tiny_source });
        let s = if tiny_src { g.tiny() } else { g.body(if top { c.depth } else { c.depth.min(2) }) };
        if g.r.p(c.mutate) { g.mutate(s) } else { s }
    };
    let main = make(true);
    let named = names.into_iter().map(|n| (n, make(false))).collect();
    let lim = |r: &mut Rng| if r.p(c.limits) { Some(*r.of(&[0usize, 1, 2, 3, 4, 5, 64])) } else { None };
    // recursive templates: keep the default limit from making the case exponential
    let engine_depth = lim(r).or(Some(*r.of(&[3, 4, 6])));
    let render_depth = lim(r);
    let dbg_default = r.p(10);
    let mut case = Case { syn, main, named, root, engine_depth, render_depth, mode, dbg_default, huge: false, before: None };
    if r.p(c.big) { grow(&mut case, r, c.forr >= 9); } else if r.p(7) { case.before = Some(if r.p(30) { case.root.clone() } else { crate::gen::root(r) }); }
    case
}
/// makes the case large in one respect: sizes around the powers of two that narrow counters have
fn grow(c: &mut Case, r: &mut Rng, loops: bool) {
    let size = |r: &mut Rng| *r.of(&[63usize, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]);
    let wide = |r: &mut Rng| if r.p(25) { *r.of(&[65535usize, 65536, 65537, 70000]) } else { *r.of(&[127usize, 128, 255, 256, 257, 511, 1024, 4096]) };
    let e = |s: &str| match &c.syn.expr { Some((a, b)) => format!("{a} {s} {b}"), None => String::new() };
    let b = |s: &str| match &c.syn.block { Some((x, y)) => format!("{x} {s} {y}"), None => String::new() };
    let mut set = |k: &str, v: Value| if let Value::Map(m) = &mut c.root { m.insert(k.to_string(), v); };
    match if loops && r.p(50) { 2 } else { r.n(15) } {
        0 | 1 => {
            // a long stretch of text in front, at the end or inside
            let t = r.of(&["\n", "x", "é", "日", " ", "x\n", "-", "\t", "\u{301}"]).to_string();
            let n = wide(r);
            let pad = t.repeat(n);
            let at = match r.n(3) { 0 => 0, 1 => c.main.len(), _ => { let mut i = r.n(c.main.len() + 1); while !c.main.is_char_boundary(i) { i -= 1; } i } };
            c.main.insert_str(at, &pad);
        }
        2 | 3 => {
            // a long list or map, and what the loop says about it
            let huge = r.p(2);
            let n = if huge { *r.of(&[65535usize, 65537, 65537]) } else { size(r) };
            let what = if huge { *r.of(&["loop.index", "loop.index", "loop.index", "loop.last", "x"]) } else { *r.of(&["loop.index", "loop.index", "x", "loop.first", "loop.last", "lst.0"]) };
            if r.p(60) {
                set("lst", Value::List((0..n as i64).map(Value::Integer).collect()));
                let body = format!("{}{},{}", b("for x in lst"), e(what), b("endfor"));
                c.huge = huge;
                c.main = if huge { body } else if r.p(50) { format!("{}{body}", c.main) } else { format!("{body}{}", c.main) };
            } else {
                let n = n.min(4096);
                set("lst", Value::Map((0..n).map(|i| (format!("k{i}"), Value::Integer(i as i64))).collect()));
                let body = format!("{}{}{}{},{}", b("for k, x in lst"), e("k"), e("x"), e(*r.of(&["loop.index", "loop.last"])), b("endfor"));
                c.main = format!("{body}{}", c.main);
            }
        }
        14 => {
            // jumps over more instructions than 16 bits count
            let n = if r.p(40) { 33_000 } else { 130 };
            let many = e("0").repeat(n);
            let cond = *r.of(&["true", "false"]);
            let (o, m, z) = match r.n(4) { 0 => (format!("if {cond}"), "else", "endif"), 1 => (format!("if not {cond}"), "else if 1", "endif"), 2 => ("for x in nolst".to_string(), "", "endfor"), _ => (format!("if {cond}"), "", "endif") };
            set("nolst", Value::List(vec![]));
            let mid = if m.is_empty() { String::new() } else { format!("{}other", b(m)) };
            c.main = format!("{}{many}{mid}{}after{}", b(&o), b(z), c.main);
        }
        4 => {
            // an index far down a list
            let n = wide(r);
            set("lst", Value::List((0..n as i64).map(Value::Integer).collect()));
            let i = *r.of(&[n - 1, n, n / 2, 0]);
            c.main = format!("{}{}", e(&format!("lst{}{i}", *r.of(&[".", "?."]))), c.main);
        }
        5 => {
            // deep nesting
            let n = if r.p(30) { *r.of(&[255usize, 256, 257, 300]) } else { 1 + r.n(150) };
            let (mut open, mut close) = (String::new(), String::new());
            set("one", Value::List(vec![Value::Integer(7)]));
            for i in 0..n {
                let (o, z) = match r.n(4) { 0 => ("if true".to_string(), "endif"), 1 => (format!("with {} as v{i}", r.n(9)), "endwith"), 2 => (format!("for u{} in one", i % 3), "endfor"), _ => ("if not false".to_string(), "endif") };
                open += &b(&o);
                close = b(z) + &close;
            }
            c.main = format!("{open}{}{close}", c.main);
        }
        6 | 7 => {
            // a chain of includes under the default limit
            let n = *r.of(&[1usize, 2, 62, 63, 64, 65, 66]);
            c.engine_depth = if r.p(70) { None } else { Some(*r.of(&[62, 63, 64, 65, 100, usize::MAX])) };
            c.render_depth = if r.p(80) { None } else { Some(*r.of(&[62, 63, 64, 65, 100, usize::MAX])) };
            let with = r.p(40);
            let inc = |i: usize| if with { b(&format!("include \"n{i}\" with {i}")) } else { b(&format!("include \"n{i}\"")) };
            c.named = (0..n).map(|i| (format!("n{i}"), if i + 1 < n { format!("{}{}", i % 10, inc(i + 1)) } else { "end".into() })).collect();
            c.main = inc(0);
            if r.p(30) { c.main += &inc(0); }
        }
        8 => {
            let n = size(r);
            let id = r.of(&["a", "é", "_", "x1"]).repeat(n);
            set(&id, Value::Map([(id.clone(), Value::Integer(3))].into_iter().collect()));
            c.main = format!("{}{}{}", e(&format!("{id}.{id}")), b(&format!("with 1 as {id}")) + &e(&id) + &b("endwith"), c.main);
        }
        9 => {
            let n = size(r);
            let mut v = Value::Integer(5);
            for i in 0..n { v = if i % 2 == 0 { Value::List(vec![v]) } else { Value::Map([("k".to_string(), v)].into_iter().collect()) }; }
            let p: String = (0..n).rev().map(|i| if i % 2 == 0 { ".0" } else { ".k" }).collect();
            set("deep", v);
            c.main = format!("{}{}", e(&format!("deep{p}{}", *r.of(&["", "", ".0", "?.0"]))), c.main);
        }
        10 => { let n = size(r); let f: String = (0..n).map(|i| if i % 3 == 0 { "|snd:1" } else { "|id" }).collect(); c.main = format!("{}{}", e(&format!("2{f}")), c.main); }
        11 => {
            let n = size(r).min(300);
            let hit = r.n(n + 2);
            let mut s = b("if false");
            for i in 0..n { s += &b(if i == hit { "else if true" } else { "else if false" }); s += &format!("{i}"); }
            s += &b("else"); s += "none"; s += &b("endif");
            c.main = format!("{s}{}", c.main);
        }
        12 => {
            // long strings, as literal, value and include name
            let s = r.of(&["q", "é", "\\n", "\\\""]).repeat(size(r));
            set("str", Value::String("z".repeat(wide(r))));
            c.main = format!("{}{}{}", e(&format!("\"{s}\"")), e("str"), c.main);
        }
        _ => {
            let n = *r.of(&[3usize, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128]);
            let l = |x: &str, y: &str| (format!("{}{}", "<".repeat(n), x), format!("{}{}", y, ">".repeat(n)));
            let (old, new) = (c.syn.clone(), Syn { expr: Some(l("e", "e")), block: Some(l("b", "b")), comment: Some(l("c", "c")) });
            let swap = |s: &str| {
                let mut s = s.to_string();
                for (o, w) in [(&old.block, &new.block), (&old.comment, &new.comment), (&old.expr, &new.expr)] {
                    if let (Some(o), Some(w)) = (o, w) { if o.0.len() > 1 && o.1.len() > 1 { s = s.replace(&o.0, &w.0).replace(&o.1, &w.1); } }
                }
                s
            };
            c.main = swap(&c.main);
            for t in &mut c.named { t.1 = swap(&t.1); }
            c.syn = new;
        }
    }
}
pub fn show(c: &Case) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "syntax          expr {:?} block {:?} comment {:?}", c.syn.expr, c.syn.block, c.syn.comment);
    let _ = writeln!(s, "template        {:?}", c.main);
    for (n, t) in &c.named { let _ = writeln!(s, "template {n:<6} {t:?}"); }
    let _ = writeln!(s, "context         {:?}", c.root);
    let _ = writeln!(s, "include limits  engine {:?} renderer {:?}", c.engine_depth, c.render_depth);
    let _ = writeln!(s, "called through  {}", ["Engine::compile, render_from, to_string", "Engine::add_template, render_from, to_string", "Engine::compile, render_from, to_writer", "Engine::add_template, render_from, to_writer", "render_from_fn", "with_template_fn"][c.mode as usize]);
    if let Some(b) = &c.before { let _ = writeln!(s, "rendered first from {b:?}"); }
    if c.dbg_default { let _ = writeln!(s, "default formatter writes {{:?}}"); }
    s
}
pub fn check(c: &Case, strict: bool) -> Result<usize, (Case, String)> {
    let a = run_ref(c);
    if let Out::Err { kind, .. } = &a.out { if kind == "skip" { return Ok(0); } }
    let b = run_real(c);
    if same(&a.out, &b, strict) { return Ok(a.steps + match &a.out { Out::Ok(s) => s.len(), _ => 1 }); }
    let d = shrink(c, strict);
    let (a, b) = (run_ref(&d).out, run_real(&d));
    let t = format!("{}expected        {a:?}\ngot             {b:?}\n", show(&d));
    Err((d, t))
}
