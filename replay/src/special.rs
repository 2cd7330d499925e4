//! Cases for the properties that are about the library interface rather than templates.
use crate::diff::{self, Out};
use crate::gen::{self, Cfg, Gen, Rng};
use crate::refimpl::{self as rf, Env, Run, Syn, Tpl};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use std::collections::BTreeMap;
use std::io;
use upon::{Engine, Value};

type Res = Result<usize, String>;
pub fn run(id: &str, r: &mut Rng) -> Res {
    match id { "C14" => output(r), "C15" => convert(r), "C16" => args(r), "C17" => registry(r), "C18" => delims(r), _ => Ok(0) }
}
fn differ(what: &str, input: String, exp: String, got: String) -> Res { Err(format!("{what}\n{input}\nexpected        {exp}\ngot             {got}\n")) }
fn res(r: Result<String, upon::Error>) -> Out { match r { Ok(s) => Out::Ok(s), Err(e) => match diff::parse_err("render", &e) { Out::Err { stage, kind, .. } => Out::Err { stage, kind, at: None }, o => o } } }

// ---------------------------------------------------------------- C14
struct Sink { got: Vec<u8>, left: usize, chunk: usize, kind: io::ErrorKind, blips: usize }
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.blips > 0 && self.got.len() % 3 == 1 { self.blips -= 1; return Err(io::ErrorKind::Interrupted.into()); }
        if b.is_empty() { return Ok(0); }
        if self.left == 0 { return Err(io::Error::new(self.kind, "the disk is full")); }
        let n = b.len().min(self.chunk).min(self.left);
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn output(r: &mut Rng) -> Res {
    let mut c = diff::gen_case(r, &Cfg { mutate: 0, tiny_source: 0, limits: 0, ..Cfg::base() });
    if r.p(30) { c.main = "{{ a }}|{{ b }}|{{ c }}|{{ x | up }}".into(); c.syn = Syn::default(); c.named.clear(); }
    if r.p(20) { if let Value::Map(m) = &mut c.root { m.insert("a".into(), gen::value(r, 1)); } }
    c.mode = 0;
    // reference, keeping what was written before an error
    let mut ts: BTreeMap<String, Tpl> = BTreeMap::new();
    for (n, s) in &c.named { match rf::parse(s, &c.syn) { Ok(t) => { ts.insert(n.clone(), t); } Err(_) => return Ok(0) } }
    let Ok(main) = rf::parse(&c.main, &c.syn) else { return Ok(0) };
    let get = |n: &str| ts.get(n);
    let env = Env { funs: diff::funs(), templates: &get, default_fmt: if c.dbg_default { diff::m_dbg } else { rf::default_fmt }, max_depth: c.engine_depth.unwrap_or(64), value_fn: None };
    let mut rr = Run::new(&env, Some(c.root.clone()));
    let rres = rr.template(&main, None, 1);
    if matches!(&rres, Err(e) if e.kind == "skip") { return Ok(0); }
    let want = match &rres { Ok(()) => Out::Ok(rr.out.clone()), Err(e) => Out::Err { stage: "render".into(), kind: e.kind.into(), at: None } };
    let mut e = Engine::with_syntax(c.syn.build());
    diff::register(&mut e);
    fn dbg(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result { use std::fmt::Write; write!(f, "{v:?}")?; Ok(()) }
    if c.dbg_default { e.set_default_formatter(&dbg); }
    if let Some(d) = c.engine_depth { e.set_max_include_depth(d); }
    for (n, s) in &c.named { if e.add_template(n.as_str(), s.as_str()).is_err() { return Ok(0); } }
    if e.add_template("main", c.main.as_str()).is_err() { return Ok(0); }
    let Ok(t) = e.compile(c.main.as_str()) else { return Ok(0) };
    let m = e.template("main");
    let bytes = |f: &mut dyn FnMut(&mut Sink) -> Result<(), upon::Error>, k: usize| {
        let mut w = Sink { got: vec![], left: usize::MAX, chunk: k, kind: io::ErrorKind::Other, blips: 2 };
        match f(&mut w) { Ok(()) => Out::Ok(String::from_utf8_lossy(&w.got).into_owned()), Err(e) => res(Err(e)) }
    };
    let all = [
        ("Template::render(..).to_string", res(t.render(&e, &c.root).to_string())),
        ("Template::render_from(..).to_string", res(t.render_from(&e, &c.root).to_string())),
        ("TemplateRef::render(..).to_string", res(m.render(&c.root).to_string())),
        ("TemplateRef::render_from(..).to_string", res(m.render_from(&c.root).to_string())),
        ("Template::render(..).to_writer", bytes(&mut |w| t.render(&e, &c.root).to_writer(w), 3)),
        ("Template::render_from(..).to_writer", bytes(&mut |w| t.render_from(&e, &c.root).to_writer(w), usize::MAX)),
        ("TemplateRef::render(..).to_writer", bytes(&mut |w| m.render(&c.root).to_writer(w), 1)),
        ("TemplateRef::render_from(..).to_writer", bytes(&mut |w| m.render_from(&c.root).to_writer(w), 7)),
    ];
    for (n, o) in all { if o != want { return differ(n, diff::show(&c), format!("{want:?}"), format!("{o:?}")); } }
    // a writer that fails
    let limit = r.n(rr.out.len() + 2);
    let kind = *r.of(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero]);
    let mut w = Sink { got: vec![], left: limit, chunk: 1 + r.n(9), kind, blips: 1 };
    let o = if r.p(50) { t.render_from(&e, &c.root).to_writer(&mut w) } else { m.render(&c.root).to_writer(&mut w) };
    let info = format!("{}writer accepts   {limit} bytes, then fails with {kind:?}", diff::show(&c));
    if limit < rr.out.len() {
        match &o {
            Ok(()) => return differ("failing writer", info, "io error".into(), "Ok(())".into()),
            Err(x) => {
                let src = std::error::Error::source(x).and_then(|s| s.downcast_ref::<io::Error>());
                let ok = x.to_string().starts_with("io error") && matches!(src, Some(i) if i.kind() == kind && i.to_string() == "the disk is full");
                if !ok { return differ("failing writer", info, "io error whose source is the writer's error".into(), format!("{x} source {src:?}")); }
            }
        }
        if w.got != rr.out.as_bytes()[..limit] { return differ("failing writer", info, format!("{:?} written", &rr.out.as_bytes()[..limit]), format!("{:?} written", w.got)); }
    } else {
        let got = match o { Ok(()) => Out::Ok(String::from_utf8_lossy(&w.got).into_owned()), Err(e) => res(Err(e)) };
        if got != want { return differ("writer with room", info, format!("{want:?}"), format!("{got:?}")); }
    }
    Ok(1 + rr.out.len())
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug)]
enum D {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64), Char(char), Str(String), Bytes(Vec<u8>),
    None, Some(Box<D>), Unit, UnitStruct, UnitVariant(&'static str), Newtype(Box<D>), NewtypeVariant(&'static str, Box<D>),
    Seq(Vec<D>, bool), Tuple(Vec<D>), TupleStruct(Vec<D>), TupleVariant(&'static str, Vec<D>), Map(Vec<(D, D)>, bool), Struct(Vec<(&'static str, D)>), StructVariant(&'static str, Vec<(&'static str, D)>),
    Val(Value), Collect(i64), I128(i128), U128(u128),
}
const N: [&str; 5] = ["a", "b", "Variant", "é", ""];
impl Serialize for D {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            D::Bool(v) => s.serialize_bool(*v), D::I8(v) => s.serialize_i8(*v), D::I16(v) => s.serialize_i16(*v), D::I32(v) => s.serialize_i32(*v), D::I64(v) => s.serialize_i64(*v),
            D::U8(v) => s.serialize_u8(*v), D::U16(v) => s.serialize_u16(*v), D::U32(v) => s.serialize_u32(*v), D::U64(v) => s.serialize_u64(*v),
            D::F32(v) => s.serialize_f32(*v), D::F64(v) => s.serialize_f64(*v), D::Char(v) => s.serialize_char(*v), D::Str(v) => s.serialize_str(v), D::Bytes(v) => s.serialize_bytes(v),
            D::None => s.serialize_none(), D::Some(v) => s.serialize_some(v), D::Unit => s.serialize_unit(), D::UnitStruct => s.serialize_unit_struct("S"),
            D::UnitVariant(v) => s.serialize_unit_variant("E", 1, v), D::Newtype(v) => s.serialize_newtype_struct("S", v), D::NewtypeVariant(n, v) => s.serialize_newtype_variant("E", 2, n, v),
            D::Seq(v, hint) => { let mut q = s.serialize_seq(if *hint { Some(v.len()) } else { None })?; for x in v { q.serialize_element(x)?; } q.end() }
            D::Tuple(v) => { let mut q = s.serialize_tuple(v.len())?; for x in v { q.serialize_element(x)?; } q.end() }
            D::TupleStruct(v) => { let mut q = s.serialize_tuple_struct("S", v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
            D::TupleVariant(n, v) => { let mut q = s.serialize_tuple_variant("E", 3, n, v.len())?; for x in v { q.serialize_field(x)?; } q.end() }
            D::Map(v, entry) => { let mut q = s.serialize_map(Some(v.len()))?; for (k, x) in v { if *entry { q.serialize_entry(k, x)?; } else { q.serialize_key(k)?; q.serialize_value(x)?; } } q.end() }
            D::Struct(v) => { let mut q = s.serialize_struct("S", v.len())?; for (k, x) in v { q.serialize_field(k, x)?; } q.end() }
            D::StructVariant(n, v) => { let mut q = s.serialize_struct_variant("E", 4, n, v.len())?; for (k, x) in v { q.serialize_field(k, x)?; } q.end() }
            D::Val(v) => v.serialize(s),
            D::Collect(i) => s.collect_str(i), D::I128(v) => s.serialize_i128(*v), D::U128(v) => s.serialize_u128(*v),
        }
    }
}
fn gen_d(r: &mut Rng, d: usize) -> D {
    let b = |r: &mut Rng| Box::new(gen_d(r, d - 1));
    match r.n(if d == 0 { 20 } else { 32 }) {
        0 => D::Bool(r.p(50)), 1 => D::I8(r.u() as i8), 2 => D::I16(r.u() as i16), 3 => D::I32(r.u() as i32),
        4 => D::I64(*r.of(&[0, -1, i64::MIN, i64::MAX, 1 << 53, -(1 << 53) - 1, i32::MAX as i64 + 1])), 5 => D::U8(r.u() as u8), 6 => D::U16(r.u() as u16), 7 => D::U32(r.u() as u32),
        8 => { let y = r.u(); D::U64(*r.of(&[0, 1, i64::MAX as u64, i64::MAX as u64, i64::MAX as u64 + y % 2, u64::MAX >> 1, y >> 1])) }
        9 => D::F32(*r.of(&[0.0, -0.0, 1.5, 0.1, f32::NAN, f32::MAX, f32::MIN_POSITIVE])), 10 => D::F64(*r.of(&[0.0, -0.0, 0.1, f64::NAN, f64::MAX, f64::INFINITY])),
        11 => D::Char(*r.of(&['a', 'é', '日', '\0', '\u{10ffff}'])), 12 | 13 => D::Str(r.of(&["", "s", "é日", "a\0b", "1"]).to_string()), 14 => D::Bytes((0..r.n(4)).map(|_| r.u() as u8).collect()),
        15 => D::None, 16 => D::Unit, 17 => D::UnitStruct, 18 => D::UnitVariant(*r.of(&N)), 19 => D::Collect(r.n(100) as i64 - 50),
        20 => D::Some(b(r)), 21 => D::Newtype(b(r)), 22 => D::NewtypeVariant(*r.of(&N), b(r)),
        23 | 24 => D::Seq((0..r.n(4)).map(|_| gen_d(r, d - 1)).collect(), r.p(50)), 25 => D::Tuple((0..1 + r.n(3)).map(|_| gen_d(r, d - 1)).collect()),
        26 => D::TupleStruct((0..1 + r.n(3)).map(|_| gen_d(r, d - 1)).collect()), 27 => D::TupleVariant(*r.of(&N), (0..r.n(4)).map(|_| gen_d(r, d - 1)).collect()),
        28 => D::Map((0..r.n(4)).map(|_| (if r.p(93) { gen_key(r) } else { gen_d(r, d - 1) }, gen_d(r, d - 1))).collect(), r.p(50)),
        29 => D::Struct((0..r.n(4)).map(|_| (*r.of(&N), gen_d(r, d - 1))).collect()), 30 => D::StructVariant(*r.of(&N), (0..r.n(4)).map(|_| (*r.of(&N), gen_d(r, d - 1))).collect()),
        _ => D::Val(gen::value(r, 2)),
    }
}
fn gen_key(r: &mut Rng) -> D {
    match r.n(12) {
        0 => D::I8(r.u() as i8), 1 => D::I16(r.u() as i16), 2 => D::I32(r.u() as i32), 3 => D::I64(*r.of(&[0, -1, i64::MIN, i64::MAX])), 4 => D::U8(r.u() as u8), 5 => D::U16(r.u() as u16),
        6 => D::U32(r.u() as u32), 7 => D::U64(*r.of(&[0, u64::MAX, 1 << 63, 7])), 8 => D::Char(*r.of(&['k', 'é'])), 9 => D::UnitVariant(*r.of(&N)), 10 => D::Newtype(Box::new(gen_key(r))), _ => D::Str(r.of(&["k", "a", "", "é"]).to_string()),
    }
}
fn key(d: &D) -> Option<String> {
    Some(match d {
        D::I8(v) => v.to_string(), D::I16(v) => v.to_string(), D::I32(v) => v.to_string(), D::I64(v) => v.to_string(),
        D::U8(v) => v.to_string(), D::U16(v) => v.to_string(), D::U32(v) => v.to_string(), D::U64(v) => v.to_string(),
        D::I128(v) => v.to_string(), D::U128(v) => v.to_string(),
        D::Char(c) => c.to_string(), D::Str(s) => s.clone(), D::UnitVariant(s) => s.to_string(), D::Newtype(d) => return key(d), D::Collect(i) => i.to_string(),
        D::Val(Value::String(s)) => s.clone(), D::Val(Value::Integer(i)) => i.to_string(),
        _ => return None,
    })
}
fn want(d: &D) -> Option<Value> {
    let list = |v: &[D]| -> Option<Value> { Some(Value::List(v.iter().map(want).collect::<Option<_>>()?)) };
    let obj = |v: &[(&str, D)]| -> Option<Value> { let mut m = BTreeMap::new(); for (k, x) in v { m.insert(k.to_string(), want(x)?); } Some(Value::Map(m)) };
    let one = |n: &str, v: Value| Value::Map([(n.to_string(), v)].into_iter().collect());
    Some(match d {
        D::Bool(b) => Value::Bool(*b),
        D::I8(v) => Value::Integer(*v as i64), D::I16(v) => Value::Integer(*v as i64), D::I32(v) => Value::Integer(*v as i64), D::I64(v) => Value::Integer(*v),
        D::U8(v) => Value::Integer(*v as i64), D::U16(v) => Value::Integer(*v as i64), D::U32(v) => Value::Integer(*v as i64),
        D::U64(v) => if *v > i64::MAX as u64 { return None } else { Value::Integer(*v as i64) },
        D::F32(v) => Value::Float(*v as f64), D::F64(v) => Value::Float(*v), D::Char(c) => Value::String(c.to_string()), D::Str(s) => Value::String(s.clone()),
        D::Bytes(v) => Value::List(v.iter().map(|b| Value::Integer(*b as i64)).collect()),
        D::None | D::Unit | D::UnitStruct => Value::None, D::Some(v) | D::Newtype(v) => want(v)?, D::UnitVariant(n) => Value::String(n.to_string()),
        D::NewtypeVariant(n, v) => one(n, want(v)?), D::Seq(v, _) | D::Tuple(v) | D::TupleStruct(v) => list(v)?, D::TupleVariant(n, v) => one(n, list(v)?),
        D::Map(v, _) => { let mut m = BTreeMap::new(); for (k, x) in v { let k = key(k)?; m.insert(k, want(x)?); } Value::Map(m) }
        D::Struct(v) => obj(v)?, D::StructVariant(n, v) => one(n, obj(v)?), D::Val(v) => v.clone(), D::I128(v) => Value::Integer(i64::try_from(*v).ok()?), D::U128(v) => Value::Integer(i64::try_from(*v).ok()?), D::Collect(i) => Value::String(i.to_string()),
    })
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (Value::List(x), Value::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && same(a.1, b.1)),
        _ => std::mem::discriminant(a) == std::mem::discriminant(b) && a == b,
    }
}
fn convert(r: &mut Rng) -> Res {
    if r.p(2) {
        // 128-bit integers: the exact value or an error
        let i = *r.of(&[0i128, 1, -1, i64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN, 1 << 64, 5 << 70]);
        let d = if r.p(50) { D::I128(i) } else { D::U128(if r.p(20) { u128::MAX } else { i.unsigned_abs() }) };
        let d = match r.n(3) { 0 => D::Seq(vec![d], true), 1 => D::Map(vec![(d, D::Bool(true))], r.p(50)), _ => d };
        let g = upon::to_value(&d);
        let ok = match (&want(&d), &g) { (Some(a), Ok(b)) => same(a, b), (_, Err(e)) => e.to_string().starts_with("serialize error"), _ => false };
        if !ok { return differ("to_value", format!("input           {d:?}"), format!("{:?} or a serialize error", want(&d)), format!("{g:?}")); }
        return Ok(1);
    }
    let d = gen_d(r, 3);
    let w = want(&d);
    let g = upon::to_value(&d);
    let ok = match (&w, &g) { (Some(a), Ok(b)) => same(a, b), (None, Err(e)) => e.to_string().starts_with("serialize error"), _ => false };
    let wt = w.as_ref().map_or("a serialize error".to_string(), |v| format!("{v:?}"));
    if !ok { return differ("to_value", format!("input           {d:?}"), wt, format!("{g:?}")); }
    // the same through a renderer
    if let Some(w) = &w {
        if !same(&upon::to_value(w).unwrap_or(Value::String("failed".into())), w) { return differ("to_value of a Value", format!("input           {w:?}"), format!("{w:?}"), format!("{:?}", upon::to_value(w))); }
        let mut e = Engine::new();
        diff::register(&mut e);
        let t = e.compile("{{ v | dbg }}").unwrap();
        #[derive(serde::Serialize)]
        struct Ctx<'a> { v: &'a D }
        let g = t.render(&e, Ctx { v: &d }).to_string();
        if g.as_ref().ok() != Some(&format!("{w:?}")) { return differ("render", format!("input           {d:?}"), format!("{w:?}"), format!("{g:?}")); }
    }
    Ok(1)
}

// ---------------------------------------------------------------- C16
type Conv = fn(&Value) -> Option<String>;
macro_rules! ints { ($e:ident, $v:ident, $($t:ident)*) => { $(
    $e.add_filter(concat!("arg_", stringify!($t)), |_: Value, x: $t| format!("{x}"));
    $e.add_filter(concat!("recv_", stringify!($t)), |x: $t| format!("{x}"));
    $v.push((stringify!($t), (|v| match v { Value::Integer(i) => <$t>::try_from(*i).ok().map(|x| x.to_string()), _ => None }) as Conv, false));
)* } }
macro_rules! typed { ($e:ident, $v:ident, $n:literal, $t:ty, $a:ty, $isref:literal, $show:expr, $conv:expr) => {
    { fn arg(_: Value, x: $a) -> String { ($show)(x) } fn recv(x: $t) -> String { ($show)(x) }
    $e.add_filter(concat!("arg_", $n), arg);
    $e.add_filter(concat!("recv_", $n), recv); }
    $v.push(($n, $conv as Conv, $isref));
} }
fn engine16() -> (Engine<'static>, Vec<(&'static str, Conv, bool)>) {
    let mut e = Engine::new();
    diff::register(&mut e);
    let mut v: Vec<(&'static str, Conv, bool)> = vec![];
    ints!(e, v, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 isize i128);
    typed!(e, v, "bool", bool, bool, false, |b: bool| b.to_string(), |v| match v { Value::Bool(b) => Some(b.to_string()), _ => None });
    typed!(e, v, "f64", f64, f64, false, |b: f64| format!("{b:?}"), |v| match v { Value::Float(b) => Some(format!("{b:?}")), _ => None });
    typed!(e, v, "f32", f32, f32, false, |b: f32| format!("{b:?}"), |v| match v { Value::Float(b) => Some(format!("{:?}", *b as f32)), _ => None });
    typed!(e, v, "string", String, String, false, |b: String| b, |v| match v { Value::String(b) => Some(b.clone()), _ => None });
    typed!(e, v, "str", &str, &str, true, |b: &str| b.to_string(), |v| match v { Value::String(b) => Some(b.clone()), _ => None });
    typed!(e, v, "list", Vec<Value>, Vec<Value>, false, |b: Vec<Value>| format!("{b:?}"), |v| match v { Value::List(b) => Some(format!("{b:?}")), _ => None });
    typed!(e, v, "listref", &[Value], Vec<Value>, false, |b| format!("{b:?}"), |v| match v { Value::List(b) => Some(format!("{b:?}")), _ => None });
    typed!(e, v, "map", BTreeMap<String, Value>, BTreeMap<String, Value>, false, |b: BTreeMap<String, Value>| format!("{b:?}"), |v| match v { Value::Map(b) => Some(format!("{b:?}")), _ => None });
    typed!(e, v, "mapref", &BTreeMap<String, Value>, BTreeMap<String, Value>, false, |b| format!("{b:?}"), |v| match v { Value::Map(b) => Some(format!("{b:?}")), _ => None });
    typed!(e, v, "value", Value, Value, false, |b: Value| format!("{b:?}"), |v| Some(format!("{v:?}")));
    typed!(e, v, "valueref", &Value, Value, false, |b| format!("{b:?}"), |v| Some(format!("{v:?}")));
    typed!(e, v, "unit", (), (), false, |_: ()| "()".to_string(), |v| match v { Value::None => Some("()".into()), _ => None });
    e.add_filter("four", |a: Value, b: i64, c: &str, d: Value, f: bool| format!("{a:?} {b} {c} {d:?} {f}"));
    e.add_filter("three", |a: &str, b: u8, c: String| format!("{a}/{b}/{c}"));
    e.add_filter("r_opt", |v: Value| -> Option<i64> { if let Value::Integer(i) = v { Some(i) } else { None } });
    e.add_filter("r_res", |v: Value| -> Result<Vec<u8>, &'static str> { if let Value::Integer(i) = v { Ok(vec![i as u8]) } else { Err("not an integer") } });
    e.add_filter("r_unit", |_: Value| {});
    e.add_filter("r_bool", |v: Value| matches!(v, Value::Bool(true)));
    e.add_filter("app", |v: String, s: String| format!("{v}{s}"));
    (e, v)
}
thread_local! { static E16: (Engine<'static>, Vec<(&'static str, Conv, bool)>) = engine16(); }
fn args(r: &mut Rng) -> Res { E16.with(|x| args_(r, &x.0, &x.1)) }
fn args_(r: &mut Rng, e: &Engine<'static>, tys: &[(&'static str, Conv, bool)]) -> Res {
    let edge = |r: &mut Rng| { let b = *r.of(&[7u32, 8, 15, 16, 31, 32, 63]); let base = (1i128 << b) + *r.of(&[-1i128, 0, 1]); (if r.p(50) { base } else { -base }).clamp(i64::MIN as i128, i64::MAX as i128) as i64 };
    let pick = |r: &mut Rng| if r.p(55) { Value::Integer(if r.p(80) { edge(r) } else { r.u() as i64 }) } else { gen::value(r, 1) };
    let v = pick(r);
    let mut ctx = BTreeMap::new();
    ctx.insert("v".to_string(), v.clone());
    ctx.insert("w".to_string(), Value::String("w".into()));
    ctx.insert("l".to_string(), Value::List(vec![v.clone()]));
    ctx.insert("m".to_string(), Value::Map([("k".to_string(), v.clone())].into_iter().collect()));
    let lit = match &v { Value::Integer(i) if *i != i64::MIN => Some(i.to_string()), Value::Bool(b) => Some(b.to_string()), Value::String(s) if !s.contains(['"', '\\', '\n', '\r']) => Some(format!("\"{s}\"")), Value::Float(f) if f.is_finite() => Some(format!("{f:?}")), _ => None };
    let (name, conv, isref) = *r.of(tys);
    let (src, exp, what): (String, Option<String>, &str) = match r.n(12) {
        0 | 1 => (format!("{{{{ v | recv_{name} }}}}"), conv(&v), "receiver from the context"),
        2 => (format!("{{{{ v | id | recv_{name} }}}}"), conv(&v), "receiver computed by a filter"),
        3 => (format!("{{{{ {} | recv_{name} }}}}", lit.clone().unwrap_or("v".into())), conv(&v), "literal receiver"),
        4 | 5 => (format!("{{{{ w | arg_{name}: v }}}}"), conv(&v), "argument from the context"),
        6 => (format!("{{{{ w | arg_{name}: {} }}}}", *r.of(&["m.k", "l.0"])), conv(&v), "argument from a path"),
        7 => (format!("{{{{ w | arg_{name}: {} }}}}", lit.clone().unwrap_or("v".into())), conv(&v), "literal argument"),
        8 => (format!("{{% for x in l %}}{{{{ w | arg_{name}: x }}}}{{{{ x | recv_{name} }}}}{{% endfor %}}"), conv(&v).map(|s| format!("{s}{s}")), "argument from a loop"),
        9 if !isref => (format!("{{% with v | id as x %}}{{{{ w | arg_{name}: x }}}}{{% endwith %}}"), conv(&v), "argument from a computed binding"),
        9 | 10 => {
            let n = r.n(7);
            let a: Vec<&str> = ["v", "w", "l", "w", "v", "m"][..n].to_vec();
            let call = |f: &str| if n == 0 { format!("{{{{ w | {f} }}}}") } else { format!("{{{{ w | {f}: {} }}}}", a.join(", ")) };
            match r.n(7) {
                0 => (call("recv_value"), if n == 0 { Some(format!("{:?}", Value::String("w".into()))) } else { None }, "number of arguments"),
                1 => (call("arg_value"), if n == 1 { Some(format!("{v:?}")) } else { None }, "number of arguments"),
                2 => (call("tri").replace(" }}", " | dbg }}"), if n == 2 { Some(format!("{:?}", Value::List(vec![Value::String("w".into()), Value::String("w".into()), v.clone()]))) } else { None }, "number of arguments"),
                3 => (call("quad").replace(" }}", " | dbg }}"), if n == 3 { diff::f_quad(Value::String("w".into()), &[v.clone(), Value::String("w".into()), Value::List(vec![v.clone()])]).ok().map(|x| format!("{x:?}")) } else { None }, "number of arguments"),
                6 => (call("quint").replace(" }}", " | dbg }}"), if n == 4 { diff::f_quint(Value::String("w".into()), &[v.clone(), Value::String("w".into()), Value::List(vec![v.clone()]), Value::String("w".into())]).ok().map(|x| format!("{x:?}")) } else { None }, "number of arguments"),
                4 => (format!("{{{{ l | four: v, w, m, {} }}}}", *r.of(&["true", "false", "v"])), None, "order of arguments"),
                _ => (format!("{{{{ w | three: v, \"z\" }}}}"), match &v { Value::Integer(i) => u8::try_from(*i).ok().map(|x| format!("w/{x}/z")), _ => None }, "order of arguments"),
            }
        }
        _ => match r.n(5) {
            0 => ("{{ v | r_opt | dbg }}".into(), Some(format!("{:?}", if let Value::Integer(i) = v { Value::Integer(i) } else { Value::None })), "returned value"),
            1 => ("{{ v | r_res | dbg }}".into(), if let Value::Integer(i) = v { Some(format!("{:?}", Value::List(vec![Value::Integer(i as u8 as i64)]))) } else { None }, "returned value"),
            2 => ("{{ v | r_unit | dbg }}".into(), Some(format!("{:?}", Value::None)), "returned value"),
            3 => ("{{ v | r_bool | dbg }}".into(), Some(format!("{:?}", Value::Bool(matches!(v, Value::Bool(true))))), "returned value"),
            _ => ("{{ w | app: \"1\" | app: w | app: \"3\" }}".into(), Some("w1w3".into()), "order of filters"),
        },
    };
    let mut exp = exp;
    if src.contains("| four:") {
        let last = src.split(", ").last().unwrap().trim_end_matches(" }}").to_string();
        let b = match last.as_str() { "true" => Some(true), "false" => Some(false), _ => match &v { Value::Bool(b) => Some(*b), _ => None } };
        exp = match (&v, b) { (Value::Integer(i), Some(b)) => Some(format!("{:?} {i} w {:?} {b}", ctx["l"], ctx["m"])), _ => None };
    }
    let root = Value::Map(ctx);
    let t = e.compile(src.as_str()).map_err(|x| format!("{src:?} does not compile: {x}"))?;
    let g = t.render_from(e, &root).to_string();
    let input = format!("template        {src:?}\ncontext         {root:?}\nfilter type     {name}");
    match (&exp, &g) {
        (Some(a), Ok(b)) if a == b => Ok(1),
        (None, Err(x)) if x.to_string().starts_with(if src.contains("r_res") { "filter error" } else { "render error" }) => Ok(1),
        _ => differ(what, input, exp.map_or("an error".into(), |s| format!("{s:?}")), format!("{g:?}")),
    }
}

// ---------------------------------------------------------------- C17
fn registry(r: &mut Rng) -> Res {
    const T: [&str; 5] = ["a", "b", "A", "a ", ""];
    const F: [&str; 4] = ["a", "g", "A", "id"]; // two of them are names of templates too
    let mut e = Engine::new();
    let mut ts: BTreeMap<&str, String> = BTreeMap::new();
    let mut fs: BTreeMap<&str, (bool, u64)> = BTreeMap::new();
    let mut log = String::new();
    for step in 0..3 + r.n(25) as u64 {
        let (t, f) = (*r.of(&T), *r.of(&F));
        let old = fs.get(f).map(|x| if x.0 { "Filter" } else { "Formatter" });
        let kind = |k: Option<upon::EngineFn>| k.map(|k| match k { upon::EngineFn::Filter => "Filter", upon::EngineFn::Formatter => "Formatter" });
        let ret: (String, String) = match r.n(9) {
            0 | 1 => { let s = format!("T{step}"); log += &format!("add_template({t:?}, {s:?})\n"); let x = if r.p(50) { e.add_template(t, s.clone()) } else { e.add_template(t.to_string(), s.clone()) }; ts.insert(t, s); ("true".into(), x.is_ok().to_string()) }
            2 => { let s = *r.of(&["{% if %}", "{{", "{% endfor %}", "x{% for a in b %}", "{{ 1a }}"]); log += &format!("add_template({t:?}, {s:?})\n"); ("false".into(), e.add_template(t, s).is_ok().to_string()) }
            3 => { log += &format!("remove_template({t:?})\n"); (ts.remove(t).is_some().to_string(), e.remove_template(t).to_string()) }
            4 | 5 => { log += &format!("add_filter({f:?}, {step})\n"); fs.insert(f, (true, step)); let x = e.add_filter(f, move |_: Value| format!("filter {step}")); (format!("{old:?}"), format!("{:?}", kind(x))) }
            6 => { log += &format!("add_formatter({f:?}, {step})\n"); fs.insert(f, (false, step)); let x = e.add_formatter(f, move |o, _| { use std::fmt::Write; write!(o, "formatter {step}")?; Ok(()) }); (format!("{old:?}"), format!("{:?}", kind(x))) }
            7 => { log += &format!("remove_function({f:?})\n"); fs.remove(f); let x = e.remove_function(f); (format!("{old:?}"), format!("{:?}", kind(x))) }
            _ => { log += "compile(..)\n"; let x = e.compile(format!("{{{{ 1 | {f} }}}}")).is_ok(); ("true".into(), x.to_string()) }
        };
        if ret.0 != ret.1 { return differ("returned value of the last operation", log, ret.0, ret.1); }
        for t in T {
            let g = e.get_template(t).map(|x| x.source().to_string());
            if g.as_ref() != ts.get(t) { return differ(&format!("get_template({t:?}) after"), log, format!("{:?}", ts.get(t)), format!("{g:?}")); }
            if let Some(s) = &g { let o = e.template(t).render(()).to_string().ok(); if o.as_ref() != Some(s) { return differ(&format!("template({t:?}) rendered after"), log, format!("{s:?}"), format!("{o:?}")); } }
            let inc = e.compile(format!("{{% include \"{t}\" %}}")).unwrap().render(&e, ()).to_string().ok();
            if inc.as_ref() != ts.get(t) { return differ(&format!("include of {t:?} after"), log, format!("{:?}", ts.get(t)), format!("{inc:?}")); }
        }
        for f in F {
            let want = fs.get(f).map(|(k, n)| format!("{} {n}", if *k { "filter" } else { "formatter" }));
            let g = e.compile(format!("{{{{ 1 | {f} }}}}")).unwrap().render(&e, ()).to_string().ok();
            if g != want { return differ(&format!("{{{{ 1 | {f} }}}} after"), log, format!("{want:?}"), format!("{g:?}")); }
            let mid = e.compile(format!("{{% with 1 | {f} as x %}}{{{{ x }}}}{{% endwith %}}")).unwrap().render(&e, ()).to_string().ok();
            let want = fs.get(f).filter(|x| x.0).map(|(_, n)| format!("filter {n}"));
            if mid != want { return differ(&format!("{{% with 1 | {f} as x %}} after"), log, format!("{want:?}"), format!("{mid:?}")); }
        }
    }
    Ok(1)
}

// ---------------------------------------------------------------- C18
fn delims(r: &mut Rng) -> Res {
    let seed = r.u();
    let pool = [("{{", "}}", "{%", "%}", "{#", "#}"), ("<?", "?>", "<%", "%>", "<#", "#>"), ("[[", "]]", "[$", "$]", "[#", "#]"), ("<<", ">>", "<!", "!>", "<*", "*>"), ("«", "»", "‹", "›", "¡", "!"), ("@{", "}@", "@@", "&&", "@*", "*@"), ("${", "}", "$(", ")", "$#", "#$"), ("((", "))", "(:", ":)", "(;", ";)")];
    let mk = |s: &(&str, &str, &str, &str, &str, &str), r: &mut Rng| {
        let syn = Syn::new((s.0, s.1), (s.2, s.3), (s.4, s.5));
        let c = Cfg { alt_syntax: 0, tiny_syntax: 0, mutate: 0, odd_text: 0, trim: 30, wild_lits: 0, incl: 0, ..Cfg::base() };
        let root = gen::root(r);
        let mut g = Gen::new(r, c, syn.clone(), vec![]);
        g.values = Some(root.clone());
        let body = g.body(3);
        (syn, body, root)
    };
    let (a, b) = (r.of(&pool), r.of(&pool));
    let (sa, ta, root) = mk(a, &mut Rng::new(seed));
    let (sb, tb, _) = mk(b, &mut Rng::new(seed));
    let go = |syn: &Syn, t: &str| {
        let mut e = Engine::with_syntax(syn.build());
        diff::register(&mut e);
        let o = match e.compile(t.to_string()) { Ok(t) => res(t.render_from(&e, &root).to_string()), Err(x) => match diff::parse_err("compile", &x) { Out::Err { stage, kind, .. } => Out::Err { stage, kind, at: None }, o => o } };
        o
    };
    let (oa, ob) = (go(&sa, &ta), go(&sb, &tb));
    if oa != ob { return differ("the same template with two sets of delimiters", format!("one             {sa:?}\n                {ta:?}\nother           {sb:?}\n                {tb:?}\ncontext         {root:?}"), format!("{oa:?}"), format!("{ob:?}")); }
    // the order in which the builder is told the delimiters does not matter, the last call for a kind wins
    let mut x = upon::Syntax::builder();
    x.comment(a.4, a.5).block(b.2, b.3).expr(a.0, a.1).block(a.2, a.3);
    if x.build() != sa.build() { return differ("syntax builder", format!("{sa:?}"), format!("{:?}", sa.build()), format!("{:?}", x.build())); }
    if upon::Syntax::default() != Syn::default().build() { return differ("default syntax", String::new(), format!("{:?}", Syn::default().build()), format!("{:?}", upon::Syntax::default())); }
    Ok(1)
}
