//! An independent reference for what templates mean, written from the documentation of
//! upon and the property statements. It shares no code with /repo.
use std::collections::BTreeMap;
use upon::Value;

// ------------------------------------------------------------------ syntax
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Syn {
    pub expr: Option<(String, String)>,
    pub block: Option<(String, String)>,
    pub comment: Option<(String, String)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Expr, Block, Com }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tag { pub kind: K, pub begin: bool, pub trim: bool }
impl Syn {
    pub fn new(e: (&str, &str), b: (&str, &str), c: (&str, &str)) -> Syn {
        let f = |x: (&str, &str)| if x.0.is_empty() { None } else { Some((x.0.to_string(), x.1.to_string())) };
        Syn { expr: f(e), block: f(b), comment: f(c) }
    }
    pub fn default() -> Syn { Syn::new(("{{", "}}"), ("{%", "%}"), ("{#", "#}")) }
    pub fn pats(&self) -> Vec<(Tag, String)> {
        let mut v = vec![];
        for (kind, d) in [(K::Expr, &self.expr), (K::Block, &self.block), (K::Com, &self.comment)] {
            if let Some((b, e)) = d {
                v.push((Tag { kind, begin: true, trim: false }, b.clone()));
                v.push((Tag { kind, begin: false, trim: false }, e.clone()));
                v.push((Tag { kind, begin: true, trim: true }, format!("{b}-")));
                v.push((Tag { kind, begin: false, trim: true }, format!("-{e}")));
            }
        }
        v
    }
    pub fn build(&self) -> upon::Syntax<'_> {
        let mut b = upon::Syntax::builder();
        if let Some((x, y)) = &self.expr { b.expr(x, y); }
        if let Some((x, y)) = &self.block { b.block(x, y); }
        if let Some((x, y)) = &self.comment { b.comment(x, y); }
        b.build()
    }
}
/// earliest start, then longest, then first listed
pub fn find(p: &[(Tag, String)], s: &[u8], at: usize) -> Option<(Tag, usize, usize)> {
    (at..s.len()).find_map(|i| find_here(p, s, i))
}
pub fn find_here(p: &[(Tag, String)], s: &[u8], i: usize) -> Option<(Tag, usize, usize)> {
    let mut best: Option<(Tag, usize)> = None;
    for (t, d) in p {
        if s[i..].starts_with(d.as_bytes()) && best.map_or(true, |(_, n)| d.len() > n) {
            best = Some((*t, d.len()));
        }
    }
    best.map(|(t, n)| (t, i, i + n))
}

// ------------------------------------------------------------------ errors
pub type Sp = (usize, usize);
fn comb(a: Sp, b: Sp) -> Sp { (a.0.min(b.0), a.1.max(b.1)) }
#[derive(Clone, Debug, PartialEq)]
pub struct RErr { pub kind: &'static str, pub at: Option<(String, Sp)>, pub name: Option<String> }
fn syn(src: &str, sp: Sp) -> RErr { RErr { kind: "invalid syntax", at: Some((src.to_string(), sp)), name: None } }
/// line, column, width of the marker and the quoted line, as promised for a place in a source
pub fn place(src: &str, sp: Sp) -> (usize, usize, usize, String) {
    use unicode_width::UnicodeWidthStr;
    let ln = 1 + src[..sp.0].matches('\n').count();
    let st = src[..sp.0].rfind('\n').map_or(0, |i| i + 1);
    let col = 1 + src[st..sp.0].width();
    let line = src[st..].split('\n').next().unwrap_or("").to_string();
    (ln, col, src[sp.0..sp.1].width().max(1), line)
}

// ------------------------------------------------------------------ tokens
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tk { Raw, Beg(K), End(K), Dot, QDot, Pipe, Comma, Colon, Plus, Minus, Kw, Ident, Index, Number, Str }
pub const KEYWORDS: [&str; 13] = ["if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false"];

fn ident_start(c: char) -> bool { c == '_' || unicode_ident::is_xid_start(c) }
fn ident(c: char) -> bool { unicode_ident::is_xid_continue(c) }

pub fn lex(src: &str, syn_: &Syn) -> (Vec<(Tk, Sp)>, Option<RErr>) {
    let p = syn_.pats();
    let b = src.as_bytes();
    let n = b.len();
    let mut out = vec![];
    let mut i = 0;
    let mut ltrim = false;
    macro_rules! fail { ($a:expr, $b:expr) => { return (out, Some(syn(src, ($a, $b)))) } }
    'outer: while i < n {
        // text up to the next tag
        let f = find(&p, b, i);
        let (tag, j, k) = match f {
            None => {
                let mut m = i;
                if ltrim { m = n - src[i..].trim_start().len(); }
                out.push((Tk::Raw, (m, n)));
                break;
            }
            Some(x) => x,
        };
        if !tag.begin { fail!(j, k) }
        if i < j {
            let mut e = j;
            let mut m = i;
            if tag.trim { e = i + src[i..j].trim_end().len(); }
            if ltrim { m = e - src[i..e].trim_start().len(); }
            out.push((Tk::Raw, (m, e)));
        }
        out.push((Tk::Beg(tag.kind), (j, k)));
        let open = (j, k);
        i = k;
        if tag.kind == K::Com {
            if i >= n { break; }
            match find(&p, b, i) {
                None => { out.push((Tk::Raw, (i, n))); break; }
                Some((t, x, y)) => {
                    if t.begin { fail!(open.0, open.1) }
                    if t.kind != K::Com { fail!(x, y) }
                    if x > i { out.push((Tk::Raw, (i, x))); }
                    out.push((Tk::End(K::Com), (x, y)));
                    i = y; ltrim = t.trim;
                    continue 'outer;
                }
            }
        }
        let mut path = false;
        while i < n {
            if let Some((t, x, y)) = find_here(&p, b, i) {
                if t.begin { fail!(open.0, open.1) }
                if t.kind != tag.kind { fail!(x, y) }
                out.push((Tk::End(t.kind), (x, y)));
                i = y; ltrim = t.trim;
                continue 'outer;
            }
            let rest = &src[i..];
            let c = rest.chars().next().unwrap();
            let run = |f: &dyn Fn(char) -> bool| rest.char_indices().skip(1).find(|(_, c)| !f(*c)).map_or(rest.len(), |(d, _)| d);
            let (tk, len) = match c {
                '\t' | ' ' => { i += run(&|c| c == '\t' || c == ' '); continue; }
                '.' => (Tk::Dot, 1), '|' => (Tk::Pipe, 1), ',' => (Tk::Comma, 1), ':' => (Tk::Colon, 1),
                '+' => (Tk::Plus, 1), '-' => (Tk::Minus, 1),
                '?' => match rest[1..].chars().next() {
                    Some('.') => (Tk::QDot, 2),
                    Some(d) => fail!(i, i + 1 + d.len_utf8()),
                    None => fail!(i, n),
                },
                '"' => {
                    let mut it = rest.char_indices().skip(1);
                    let mut esc = false;
                    loop {
                        match it.next() {
                            None => fail!(i, n),
                            Some((d, '\r' | '\n')) => fail!(i, i + d),
                            Some((d, '"')) if !esc => break (Tk::Str, d + 1),
                            Some((_, '\\')) if !esc => esc = true,
                            Some(_) => esc = false,
                        }
                    }
                }
                '0'..='9' if path => (Tk::Index, run(&|c| c.is_ascii_digit())),
                '0'..='9' => {
                    // a sign or dot that starts a tag is not part of the number
                    let l = run(&|c| c.is_ascii_alphanumeric() || "_-+.".contains(c));
                    let cut = (1..l).find(|d| !b[i + d].is_ascii_alphanumeric() && find_here(&p, b, i + d).is_some());
                    (Tk::Number, cut.unwrap_or(l))
                }
                c if ident_start(c) => {
                    let l = run(&ident);
                    (if KEYWORDS.contains(&&rest[..l]) { Tk::Kw } else { Tk::Ident }, l)
                }
                c => fail!(i, i + c.len_utf8()),
            };
            if tk == Tk::Ident { path = true; }
            if matches!(tk, Tk::Pipe | Tk::Comma | Tk::Colon | Tk::Kw) { path = false; }
            out.push((tk, (i, i + len)));
            i += len;
        }
    }
    (out, None)
}

// ------------------------------------------------------------------ trees
#[derive(Clone, Debug)]
pub struct Mem { pub opt: bool, pub acc: Acc, pub sp: Sp }
#[derive(Clone, Debug)]
pub enum Acc { Ix(usize), Key(String) }
#[derive(Clone, Debug)]
pub enum Base { Var(Vec<Mem>), Lit(Value, Sp) }
#[derive(Clone, Debug)]
pub struct Call { pub name: String, pub nsp: Sp, pub args: Option<Vec<Base>>, pub sp: Sp }
#[derive(Clone, Debug)]
pub struct Ex { pub base: Base, pub calls: Vec<Call> }
#[derive(Clone, Debug)]
pub enum Vars { One(String, Sp), Two(String, String, Sp) }
#[derive(Clone, Debug)]
pub enum St {
    Raw(String), Emit(Ex), Incl(String, Sp, Option<Ex>),
    If(Vec<(bool, Ex, Vec<St>)>, Option<Vec<St>>),
    For(Vars, Ex, Vec<St>), With(Ex, String, Vec<St>),
}
#[derive(Clone, Debug)]
pub struct Tpl { pub src: String, pub body: Vec<St> }
fn base_sp(b: &Base) -> Sp { match b { Base::Var(p) => comb(p[0].sp, p[p.len() - 1].sp), Base::Lit(_, s) => *s } }
impl Ex { pub fn sp(&self) -> Sp { self.calls.last().map_or(base_sp(&self.base), |c| c.sp) } }

struct P<'a> { src: &'a str, t: Vec<(Tk, Sp)>, i: usize, lexerr: Option<RErr> }
type R<T> = Result<T, RErr>;
impl<'a> P<'a> {
    fn peek(&self) -> R<Option<(Tk, Sp)>> {
        if self.i < self.t.len() { Ok(Some(self.t[self.i])) } else if let Some(e) = &self.lexerr { Err(e.clone()) } else { Ok(None) }
    }
    fn next(&mut self) -> R<Option<(Tk, Sp)>> { let x = self.peek()?; self.i += 1; Ok(x) }
    fn err(&self, sp: Sp) -> RErr { syn(self.src, sp) }
    fn eof(&self) -> RErr { self.err((self.src.len(), self.src.len())) }
    fn any(&mut self) -> R<(Tk, Sp)> { match self.next()? { Some(x) => Ok(x), None => Err(self.eof()) } }
    fn want(&mut self, t: Tk) -> R<Sp> { let (k, s) = self.any()?; if k == t { Ok(s) } else { Err(self.err(s)) } }
    fn is(&self, t: Tk) -> R<bool> { Ok(matches!(self.peek()?, Some((k, _)) if k == t)) }
    fn is_kw(&self, w: &str) -> R<bool> { Ok(matches!(self.peek()?, Some((Tk::Kw, s)) if &self.src[s.0..s.1] == w)) }
    fn kw(&mut self, w: &str) -> R<()> { let s = self.want(Tk::Kw)?; if &self.src[s.0..s.1] == w { Ok(()) } else { Err(self.err(s)) } }
    fn text(&self, s: Sp) -> String { self.src[s.0..s.1].to_string() }

    fn expr(&mut self) -> R<Ex> {
        let mut e = Ex { base: self.base()?, calls: vec![] };
        while self.is(Tk::Pipe)? {
            self.next()?;
            let nsp = self.want(Tk::Ident)?;
            let name = self.text(nsp);
            let mut sp = comb(e.sp(), nsp);
            let mut args = None;
            if self.is(Tk::Colon)? {
                let c = self.want(Tk::Colon)?;
                let mut v = vec![self.base()?];
                while self.is(Tk::Comma)? { self.next()?; v.push(self.base()?); }
                sp = comb(e.sp(), comb(c, base_sp(v.last().unwrap())));
                args = Some(v);
            }
            e.calls.push(Call { name, nsp, args, sp });
        }
        Ok(e)
    }
    fn base(&mut self) -> R<Base> {
        let (k, s) = self.any()?;
        match k {
            Tk::Kw => match &self.src[s.0..s.1] {
                "true" => Ok(Base::Lit(Value::Bool(true), s)),
                "false" => Ok(Base::Lit(Value::Bool(false), s)),
                _ => Err(self.err(s)),
            },
            Tk::Minus | Tk::Plus => {
                let n = self.want(Tk::Number)?;
                Ok(Base::Lit(self.number(n, comb(s, n), k == Tk::Minus)?, comb(s, n)))
            }
            Tk::Number => Ok(Base::Lit(self.number(s, s, false)?, s)),
            Tk::Str => Ok(Base::Lit(Value::String(self.string(s)?), s)),
            Tk::Ident => {
                let mut p = vec![Mem { opt: false, acc: Acc::Key(self.text(s)), sp: s }];
                loop {
                    let (opt, d) = match self.peek()? { Some((Tk::Dot, d)) => (false, d), Some((Tk::QDot, d)) => (true, d), _ => break };
                    self.next()?;
                    let (k, a) = self.any()?;
                    let acc = match k {
                        Tk::Index => {
                            let mut v: u128 = 0;
                            for c in self.src[a.0..a.1].bytes() { v = (v * 10 + (c - b'0') as u128).min(1 << 100); }
                            if v > u64::MAX as u128 { return Err(self.err(a)); }
                            Acc::Ix(v as usize)
                        }
                        Tk::Ident => Acc::Key(self.text(a)),
                        _ => return Err(self.err(a)),
                    };
                    p.push(Mem { opt, acc, sp: comb(d, a) });
                }
                Ok(Base::Var(p))
            }
            _ => Err(self.err(s)),
        }
    }
    /// the number written, exactly, or the place where it stops being one
    fn number(&self, n: Sp, whole: Sp, neg: bool) -> R<Value> {
        let raw = &self.src[n.0..n.1];
        let (skip, radix) = match raw.as_bytes() { [b'0', b'b', ..] => (2, 2), [b'0', b'o', ..] => (2, 8), [b'0', b'x', ..] => (2, 16), _ => (0, 10u32) };
        let mut v: i128 = 0;
        let mut bad: Option<RErr> = None;
        for (d, c) in raw.bytes().enumerate().skip(skip) {
            if c == b'_' { continue; }
            match (c as char).to_digit(radix) {
                None => { bad = Some(self.err((n.0 + d, n.0 + d + 1))); break; }
                Some(x) => {
                    v = v * radix as i128 + x as i128;
                    let w = if neg { -v } else { v };
                    if w < i64::MIN as i128 || w > i64::MAX as i128 { bad = Some(self.err(whole)); break; }
                }
            }
        }
        match bad {
            None => Ok(Value::Integer(if neg { -v } else { v } as i64)),
            Some(e) => match raw.parse::<f64>() {
                Ok(f) => Ok(Value::Float(if neg { -f } else { f })),
                Err(_) => Err(if raw.contains(['.', '-', '+']) { self.err(whole) } else { e }),
            },
        }
    }
    fn string(&self, s: Sp) -> R<String> {
        let body: Vec<(usize, char)> = self.src[s.0 + 1..s.1 - 1].char_indices().map(|(i, c)| (i + s.0 + 1, c)).collect();
        let mut out = String::new();
        let mut i = 0;
        while i < body.len() {
            let (_, c) = body[i];
            i += 1;
            if c != '\\' { out.push(c); continue; }
            let (at, e) = body[i];
            i += 1;
            out.push(match e { 'n' => '\n', 'r' => '\r', 't' => '\t', '\\' => '\\', '"' => '"', _ => return Err(self.err((at, at + e.len_utf8()))) });
        }
        Ok(out)
    }
}

enum Fr { Top, If { bs: Vec<(bool, Ex, Vec<St>)>, has_else: bool }, For(Vars, Ex), With(Ex, String) }
struct Open { fr: Fr, sp: Sp, body: Vec<St> }
fn close(o: Open) -> St {
    match o.fr {
        Fr::If { mut bs, has_else } => {
            if has_else { St::If(bs, Some(o.body)) } else { bs.last_mut().unwrap().2 = o.body; St::If(bs, None) }
        }
        Fr::For(v, e) => St::For(v, e, o.body),
        Fr::With(e, n) => St::With(e, n, o.body),
        Fr::Top => unreachable!(),
    }
}
pub fn parse(src: &str, s: &Syn) -> R<Tpl> {
    let (t, lexerr) = lex(src, s);
    let mut p = P { src, t, i: 0, lexerr };
    let mut st = vec![Open { fr: Fr::Top, sp: (0, 0), body: vec![] }];
    while let Some((k, sp)) = p.next()? {
        let top = st.last_mut().unwrap();
        match k {
            Tk::Raw => top.body.push(St::Raw(p.text(sp))),
            Tk::Beg(K::Com) => { if p.is(Tk::Raw)? { p.next()?; } p.want(Tk::End(K::Com))?; }
            Tk::Beg(K::Expr) => { let e = p.expr()?; p.want(Tk::End(K::Expr))?; top.body.push(St::Emit(e)); }
            Tk::Beg(K::Block) => {
                let ks = p.want(Tk::Kw)?;
                let word = p.text(ks);
                enum B { If(bool, Ex), Else, ElseIf(bool, Ex), EndIf, For(Vars, Ex), EndFor, With(Ex, String), EndWith, Incl(String, Sp, Option<Ex>) }
                let cond = |p: &mut P| -> R<(bool, Ex)> { let not = p.is_kw("not")?; if not { p.next()?; } Ok((not, p.expr()?)) };
                let b = match word.as_str() {
                    "if" => { let (n, e) = cond(&mut p)?; B::If(n, e) }
                    "else" => if p.is_kw("if")? { p.next()?; let (n, e) = cond(&mut p)?; B::ElseIf(n, e) } else { B::Else },
                    "endif" => B::EndIf,
                    "for" => {
                        let a = p.want(Tk::Ident)?;
                        let v = if p.is(Tk::Comma)? { p.next()?; let b = p.want(Tk::Ident)?; Vars::Two(p.text(a), p.text(b), comb(a, b)) } else { Vars::One(p.text(a), a) };
                        p.kw("in")?;
                        B::For(v, p.expr()?)
                    }
                    "endfor" => B::EndFor,
                    "with" => { let e = p.expr()?; p.kw("as")?; let n = p.want(Tk::Ident)?; B::With(e, p.text(n)) }
                    "endwith" => B::EndWith,
                    "include" => {
                        let s = p.want(Tk::Str)?;
                        let n = p.string(s)?;
                        let e = if p.is_kw("with")? { p.next()?; Some(p.expr()?) } else { None };
                        B::Incl(n, s, e)
                    }
                    _ => return Err(p.err(ks)),
                };
                let end = p.want(Tk::End(K::Block))?;
                let whole = comb(sp, end);
                match b {
                    B::If(n, e) => st.push(Open { fr: Fr::If { bs: vec![(n, e, vec![])], has_else: false }, sp: whole, body: vec![] }),
                    B::For(v, e) => st.push(Open { fr: Fr::For(v, e), sp: whole, body: vec![] }),
                    B::With(e, n) => st.push(Open { fr: Fr::With(e, n), sp: whole, body: vec![] }),
                    B::Incl(n, s, e) => top.body.push(St::Incl(n, s, e)),
                    B::Else | B::ElseIf(..) => match &mut top.fr {
                        Fr::If { bs, has_else: he @ false } => {
                            bs.last_mut().unwrap().2 = std::mem::take(&mut top.body);
                            if let B::ElseIf(n, e) = b { bs.push((n, e, vec![])); } else { *he = true; }
                        }
                        _ => return Err(p.err(whole)),
                    },
                    B::EndIf | B::EndFor | B::EndWith => {
                        let ok = match (&b, &top.fr) { (B::EndIf, Fr::If { .. }) | (B::EndFor, Fr::For(..)) | (B::EndWith, Fr::With(..)) => true, _ => false };
                        if !ok { return Err(p.err(whole)); }
                        let s = close(st.pop().unwrap());
                        st.last_mut().unwrap().body.push(s);
                    }
                }
            }
            _ => unreachable!("reference lexer"),
        }
    }
    if st.len() > 1 { return Err(p.err(st[1].sp)); }
    Ok(Tpl { src: src.to_string(), body: st.pop().unwrap().body })
}

// ------------------------------------------------------------------ rendering
pub type FilterF = fn(Value, &[Value]) -> Result<Value, String>;
pub type FmtF = fn(&Value) -> Result<String, ()>;
#[derive(Clone, Copy)]
pub enum Fun { Filter(usize, FilterF), Formatter(FmtF) }
pub struct Env<'a> {
    pub funs: BTreeMap<String, Fun>,
    pub templates: &'a dyn Fn(&str) -> Option<&'a Tpl>,
    pub default_fmt: FmtF,
    pub max_depth: usize,
    pub value_fn: Option<&'a dyn Fn(&[(bool, Acc)]) -> Result<Value, String>>,
}
enum Sc { Root(Value), Fn, Var(String, Value), Loop { k: Option<(String, String)>, v: (String, Value), i: usize, n: usize }, Wall }

fn size(v: &Value) -> usize { match v { Value::List(l) => 1 + l.iter().map(size).sum::<usize>(), Value::Map(m) => 1 + m.values().map(size).sum::<usize>(), _ => 1 } }
pub fn falsy(v: &Value) -> bool {
    match v {
        Value::None => true,
        Value::Bool(b) => !b,
        Value::Integer(i) => *i == 0,
        Value::Float(f) => *f == 0.0,
        Value::String(s) => s == "",
        Value::List(l) => l.len() == 0,
        Value::Map(m) => m.len() == 0,
    }
}
pub fn default_fmt(v: &Value) -> Result<String, ()> {
    match v {
        Value::None => Ok(String::new()),
        Value::Bool(b) => Ok(if *b { "true" } else { "false" }.into()),
        Value::Integer(i) => Ok(i.to_string()),
        Value::Float(f) => Ok(f.to_string()),
        Value::String(s) => Ok(s.clone()),
        _ => Err(()),
    }
}
enum Step<'a> { Got(&'a Value), Gone, Bad }
fn member<'a>(v: &'a Value, m: &Mem) -> Step<'a> {
    let x = match (v, &m.acc) {
        (Value::List(l), Acc::Ix(i)) => l.get(*i),
        (Value::Map(mp), Acc::Key(k)) => mp.get(k),
        _ => return Step::Bad,
    };
    match x { Some(v) => Step::Got(v), None if m.opt => Step::Gone, None => Step::Bad }
}
fn walk(v: &Value, p: &[Mem]) -> Result<Value, Sp> {
    let mut v = v;
    for m in p {
        match member(v, m) { Step::Got(x) => v = x, Step::Gone => return Ok(Value::None), Step::Bad => return Err(m.sp) }
    }
    Ok(v.clone())
}
/// `work` counts the elements of the lists and maps that were copied: cases that copy long ones again and again are left out
pub struct Run<'a> { pub env: &'a Env<'a>, pub out: String, scopes: Vec<Sc>, pub steps: usize, pub limit: usize, work: std::cell::Cell<usize> }
impl<'a> Run<'a> {
    pub fn new(env: &'a Env<'a>, root: Option<Value>) -> Self {
        Run { env, out: String::new(), scopes: vec![match root { Some(v) => Sc::Root(v), None => Sc::Fn }], steps: 0, limit: 3000, work: Default::default() }
    }
    fn rerr(&self, t: &Tpl, sp: Sp) -> RErr { RErr { kind: "render error", at: Some((t.src.clone(), sp)), name: None } }
    fn var(&self, t: &Tpl, p: &[Mem]) -> R<Value> {
        let name = match &p[0].acc { Acc::Key(k) => k, Acc::Ix(_) => unreachable!() };
        for s in self.scopes.iter().rev() {
            match s {
                Sc::Wall => break,
                Sc::Fn => {
                    let q: Vec<(bool, Acc)> = p.iter().map(|m| (m.opt, m.acc.clone())).collect();
                    return (self.env.value_fn.unwrap())(&q).map_err(|_| self.rerr(t, base_sp(&Base::Var(p.to_vec()))));
                }
                Sc::Root(v) => if let Step::Got(_) = member(v, &Mem { opt: true, ..p[0].clone() }) {
                    return walk(v, p).map_err(|sp| self.rerr(t, sp));
                },
                Sc::Var(n, v) => if n == name { return walk(v, &p[1..]).map_err(|sp| self.rerr(t, sp)); },
                Sc::Loop { k, v, i, n } => {
                    if name == "loop" {
                        let mut m = BTreeMap::new();
                        m.insert("index".to_string(), Value::Integer(*i as i64));
                        m.insert("first".to_string(), Value::Bool(*i == 0));
                        m.insert("last".to_string(), Value::Bool(i + 1 == *n));
                        return walk(&Value::Map(m), &p[1..]).map_err(|sp| self.rerr(t, sp));
                    }
                    if let Some((kn, kv)) = k {
                        if kn == name { return walk(&Value::String(kv.clone()), &p[1..]).map_err(|sp| self.rerr(t, sp)); }
                    }
                    if v.0 == *name { return walk(&v.1, &p[1..]).map_err(|sp| self.rerr(t, sp)); }
                }
            }
        }
        Err(self.rerr(t, p[0].sp))
    }
    fn base(&self, t: &Tpl, b: &Base) -> R<Value> {
        let v = match b { Base::Var(p) => self.var(t, p)?, Base::Lit(v, _) => v.clone() };
        let n = match &v { Value::List(l) => l.len(), Value::Map(m) => m.len(), Value::String(s) => s.len() / 16, _ => 0 };
        self.work.set(self.work.get() + n);
        if self.work.get() > 600_000 { return Err(RErr { kind: "skip", at: None, name: None }); }
        Ok(v)
    }
    fn call(&self, t: &Tpl, c: &Call, v: Value, arity: usize, f: FilterF) -> R<Value> {
        let none = vec![];
        let args = c.args.as_ref().unwrap_or(&none);
        if args.len() != arity { return Err(self.rerr(t, c.nsp)); }
        let mut xs = vec![];
        for a in args { xs.push(self.base(t, a)?); }
        // cases whose values or outputs explode are left out
        if size(&v) + xs.iter().map(size).sum::<usize>() > 500 || self.out.len() > 100_000 { return Err(RErr { kind: "skip", at: None, name: None }); }
        f(v, &xs).map_err(|_| RErr { kind: "filter error", at: Some((t.src.clone(), c.nsp)), name: None })
    }
    fn expr(&self, t: &Tpl, e: &Ex, upto: usize) -> R<Value> {
        let mut v = self.base(t, &e.base)?;
        for c in &e.calls[..upto] {
            v = match self.env.funs.get(&c.name) {
                Some(Fun::Filter(n, f)) => self.call(t, c, v, *n, *f)?,
                _ => return Err(self.rerr(t, c.nsp)),
            };
        }
        Ok(v)
    }
    fn emit(&mut self, t: &Tpl, f: FmtF, v: &Value, sp: Sp) -> R<()> {
        match f(v) { Ok(s) => { self.out.push_str(&s); Ok(()) } Err(()) => Err(RErr { kind: "format error", at: Some((t.src.clone(), sp)), name: None }) }
    }
    pub fn template(&mut self, t: &'a Tpl, name: Option<&str>, depth: usize) -> R<()> {
        if depth > 1 && depth > self.env.max_depth { return Err(RErr { kind: "render error", at: None, name: None }); }
        self.block(t, &t.body, name, depth).map_err(|mut e| { if e.at.is_some() && e.name.is_none() { e.name = Some(name.unwrap_or("<anonymous>").to_string()); } e })
    }
    fn block(&mut self, t: &'a Tpl, b: &'a [St], name: Option<&str>, depth: usize) -> R<()> {
        for s in b {
            self.steps += 1;
            if self.steps > self.limit || self.out.len() > self.limit.max(5000) * 40 { return Err(RErr { kind: "skip", at: None, name: None }); }
            match s {
                St::Raw(r) => self.out.push_str(r),
                St::Emit(e) => {
                    let n = e.calls.len();
                    match e.calls.last() {
                        Some(c) if c.args.is_none() => {
                            let v = self.expr(t, e, n - 1)?;
                            match self.env.funs.get(&c.name) {
                                Some(Fun::Formatter(f)) => self.emit(t, *f, &v, c.nsp)?,
                                Some(Fun::Filter(k, f)) => { let v = self.call(t, c, v, *k, *f)?; self.emit(t, self.env.default_fmt, &v, e.sp())? }
                                None => return Err(self.rerr(t, c.nsp)),
                            }
                        }
                        _ => { let v = self.expr(t, e, n)?; self.emit(t, self.env.default_fmt, &v, e.sp())? }
                    }
                }
                St::Incl(n, sp, w) => {
                    let v = match w { Some(e) => Some(self.expr(t, e, e.calls.len())?), None => None };
                    let inc = (self.env.templates)(n).ok_or_else(|| self.rerr(t, *sp))?;
                    let scoped = v.is_some();
                    if let Some(v) = v { self.scopes.push(Sc::Wall); self.scopes.push(Sc::Root(v)); }
                    self.template(inc, Some(n), depth + 1)?;
                    if scoped { self.scopes.pop(); self.scopes.pop(); }
                }
                St::If(bs, el) => {
                    let mut done = false;
                    for (not, c, body) in bs {
                        let v = self.expr(t, c, c.calls.len())?;
                        if falsy(&v) == *not { self.block(t, body, name, depth)?; done = true; break; }
                    }
                    if let (false, Some(b)) = (done, el) { self.block(t, b, name, depth)?; }
                }
                St::With(e, n, body) => {
                    let v = self.expr(t, e, e.calls.len())?;
                    self.scopes.push(Sc::Var(n.clone(), v));
                    self.block(t, body, name, depth)?;
                    self.scopes.pop();
                }
                St::For(vars, e, body) => {
                    let v = self.expr(t, e, e.calls.len())?;
                    let items: Vec<(Option<(String, String)>, (String, Value))> = match (v, vars) {
                        (Value::List(l), Vars::One(x, _)) => l.into_iter().map(|v| (None, (x.clone(), v))).collect(),
                        (Value::Map(m), Vars::Two(k, x, _)) => m.into_iter().map(|(a, v)| (Some((k.clone(), a)), (x.clone(), v))).collect(),
                        (Value::List(_), Vars::Two(_, _, sp)) | (Value::Map(_), Vars::One(_, sp)) => return Err(self.rerr(t, *sp)),
                        _ => return Err(self.rerr(t, e.sp())),
                    };
                    let n = items.len();
                    for (i, (k, v)) in items.into_iter().enumerate() {
                        self.scopes.push(Sc::Loop { k, v, i, n });
                        self.block(t, body, name, depth)?;
                        self.scopes.pop();
                    }
                }
            }
        }
        Ok(())
    }
}
