//! A typed generator of LOGOS programs together with an independent reference
//! evaluator. The generator builds its own small syntax tree; the printer turns
//! it into LOGOS text; the evaluator says what the text must show, from the
//! language's documented rules alone (exact integers, value semantics, 1-based
//! indexing, insertion-ordered maps and sets, truncating division).
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;
use vkit::Rng;

// ── syntax ───────────────────────────────────────────────────────────────────

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int,
    Bool,
    Text,
    Float,
    Seq(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Struct(usize),
    Enum(usize),
    Fn(usize),
}
impl Ty {
    pub fn seq(t: Ty) -> Ty {
        Ty::Seq(Box::new(t))
    }
    pub fn map(k: Ty, v: Ty) -> Ty {
        Ty::Map(Box::new(k), Box::new(v))
    }
    pub fn set(t: Ty) -> Ty {
        Ty::Set(Box::new(t))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    FloorDiv,
    BitAnd,
    BitOr,
    BitXor,
    Shl,
    Shr,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
    And,
    Or,
    Concat,
    Followed,
    Union,
    Inter,
    Diff,
}

#[derive(Clone, Debug)]
pub enum E {
    Int(i64),
    Bool(bool),
    Text(String),
    Float(f64),
    Var(String),
    Bin(Op, Box<E>, Box<E>),
    Not(Box<E>),
    Neg(Box<E>),
    Call(String, Vec<E>),
    Index(Box<E>, Box<E>),
    Slice(Box<E>, Box<E>, Box<E>),
    Len(Box<E>),
    Contains(Box<E>, Box<E>),
    List(Vec<E>),
    NewSeq(Ty),
    NewMap(Ty, Ty),
    NewSet(Ty),
    New(usize, Vec<E>),
    Variant(usize, usize, Vec<E>),
    Field(Box<E>, usize, usize),
    Interp(Vec<(String, Option<E>)>),
    Closure(Vec<String>, Box<E>),
    Copy(Box<E>),
    Builtin(&'static str, Vec<E>),
}

#[derive(Clone, Debug)]
pub enum S {
    Let(String, bool, Option<Ty>, E),
    Set(String, E),
    SetIdx(String, E, E),
    SetIdx2(String, E, E, E),
    SetField(String, usize, usize, E),
    Push(E, String),
    Pop(String, Option<String>),
    AddTo(E, String),
    RemoveFrom(E, String),
    If(Vec<(E, Vec<S>)>, Option<Vec<S>>),
    While(E, Vec<S>),
    ForIn(String, E, Vec<S>),
    ForPair(String, String, E, Vec<S>),
    ForRange(String, E, E, Vec<S>),
    Show(E),
    Return(Option<E>),
    Break,
    Do(E),
    Inspect(E, usize, Vec<(usize, Vec<String>, Vec<S>)>, Option<Vec<S>>),
}

#[derive(Clone, Debug)]
pub struct StructDef {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
}
#[derive(Clone, Debug)]
pub struct EnumDef {
    pub name: String,
    pub variants: Vec<(String, Vec<(String, Ty)>)>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub ret: Option<Ty>,
    pub body: Vec<S>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub structs: Vec<StructDef>,
    pub enums: Vec<EnumDef>,
    pub funcs: Vec<Func>,
    pub main: Vec<S>,
    /// Names of the shapes used, for evidence.
    pub tags: Vec<&'static str>,
}

pub fn b(e: E) -> Box<E> {
    Box::new(e)
}
pub fn v(s: &str) -> E {
    E::Var(s.to_string())
}
pub fn int(i: i64) -> E {
    E::Int(i)
}
pub fn bin(o: Op, x: E, y: E) -> E {
    E::Bin(o, b(x), b(y))
}
pub fn add(x: E, y: E) -> E {
    bin(Op::Add, x, y)
}
pub fn sub(x: E, y: E) -> E {
    bin(Op::Sub, x, y)
}
pub fn mul(x: E, y: E) -> E {
    bin(Op::Mul, x, y)
}
pub fn modulo(x: E, y: E) -> E {
    bin(Op::Mod, x, y)
}
pub fn lt(x: E, y: E) -> E {
    bin(Op::Lt, x, y)
}
pub fn idx(x: E, i: E) -> E {
    E::Index(b(x), b(i))
}
pub fn len(x: E) -> E {
    E::Len(b(x))
}
pub fn letm(n: &str, e: E) -> S {
    S::Let(n.into(), true, None, e)
}
pub fn let_(n: &str, e: E) -> S {
    S::Let(n.into(), false, None, e)
}
pub fn set(n: &str, e: E) -> S {
    S::Set(n.into(), e)
}
pub fn push(e: E, n: &str) -> S {
    S::Push(e, n.into())
}
pub fn show(e: E) -> S {
    S::Show(e)
}
pub fn while_(c: E, body: Vec<S>) -> S {
    S::While(c, body)
}
pub fn if_(c: E, t: Vec<S>) -> S {
    S::If(vec![(c, t)], None)
}
pub fn if_else(c: E, t: Vec<S>, e: Vec<S>) -> S {
    S::If(vec![(c, t)], Some(e))
}
pub fn ret(e: E) -> S {
    S::Return(Some(e))
}
pub fn call(f: &str, a: Vec<E>) -> E {
    E::Call(f.into(), a)
}
pub fn incr(n: &str, by: i64) -> S {
    set(n, add(v(n), int(by)))
}

// ── printing ─────────────────────────────────────────────────────────────────

pub struct Printer<'a> {
    p: &'a Prog,
    r: Rng,
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '{' => o.push_str("{{"),
            '}' => o.push_str("}}"),
            c => o.push(c),
        }
    }
    o
}

pub fn print(p: &Prog, r: Rng) -> String {
    let mut pr = Printer { p, r, out: String::new() };
    for s in &p.structs {
        let _ = writeln!(pr.out, "## A {} has:", s.name);
        for (f, t) in &s.fields {
            let art = if f.starts_with(['a', 'e', 'i', 'o', 'u']) { "An" } else { "A" };
            let t = pr.ty(t);
            let _ = writeln!(pr.out, "    {art} {f}: {t}.");
        }
        pr.out.push('\n');
    }
    for e in &p.enums {
        let _ = writeln!(pr.out, "## A {} is one of:", e.name);
        for (n, fs) in &e.variants {
            if fs.is_empty() {
                let _ = writeln!(pr.out, "    A {n}.");
            } else {
                let parts: Vec<String> = fs.iter().map(|(f, t)| format!("{f} {}", pr.ty(t))).collect();
                let _ = writeln!(pr.out, "    A {n} with {}.", parts.join(" and "));
            }
        }
        pr.out.push('\n');
    }
    for f in &p.funcs {
        let style = pr.r.below(2);
        let ps: Vec<String> = f.params.iter().map(|(n, t)| format!("{n}: {}", pr.ty(t))).collect();
        let ps = if style == 0 {
            format!("({})", ps.join(", "))
        } else {
            ps.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(" and ")
        };
        let ps = if f.params.is_empty() { "()".to_string() } else { ps };
        match &f.ret {
            Some(t) => {
                let t = pr.ty(t);
                let _ = writeln!(pr.out, "## To {} {ps} -> {t}:", f.name);
            }
            None => {
                let _ = writeln!(pr.out, "## To {} {ps}:", f.name);
            }
        }
        pr.block(&f.body, 1);
        pr.out.push('\n');
    }
    pr.out.push_str("## Main\n");
    pr.block(&p.main, 0);
    pr.out
}

impl Printer<'_> {
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::Int => "Int".into(),
            Ty::Bool => "Bool".into(),
            Ty::Text => "Text".into(),
            Ty::Float => "Float".into(),
            Ty::Seq(t) => format!("Seq of {}", self.ty(t)),
            Ty::Map(k, w) => format!("Map of {} to {}", self.ty(k), self.ty(w)),
            Ty::Set(t) => format!("Set of {}", self.ty(t)),
            Ty::Struct(i) => self.p.structs[*i].name.clone(),
            Ty::Enum(i) => self.p.enums[*i].name.clone(),
            Ty::Fn(n) => format!("fn({}) -> Int", vec!["Int"; *n].join(", ")),
        }
    }
    fn block(&mut self, ss: &[S], d: usize) {
        if ss.is_empty() && d > 0 {
            self.line(d, "Let unused be 0.");
        }
        for s in ss {
            self.stmt(s, d);
        }
    }
    /// Positions are written from 1, so a literal 0 (a map key) needs a spelling of its own.
    fn pos(&mut self, i: &E) -> String {
        if matches!(i, E::Int(0)) { "(1 - 1)".into() } else { self.e(i, true) }
    }
    fn line(&mut self, d: usize, s: &str) {
        for _ in 0..d {
            self.out.push_str("    ");
        }
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn stmt(&mut self, s: &S, d: usize) {
        match s {
            S::Let(n, m, t, e) => {
                let e = self.e(e, false);
                let t = t.as_ref().map(|t| format!(": {}", self.ty(t))).unwrap_or_default();
                self.line(d, &format!("Let {}{n}{t} be {e}.", if *m { "mutable " } else { "" }));
            }
            S::Set(n, e) => {
                let e = self.e(e, false);
                self.line(d, &format!("Set {n} to {e}."));
            }
            S::SetIdx(n, i, e) => {
                let (i, e) = (self.pos(i), self.e(e, false));
                self.line(d, &format!("Set item {i} of {n} to {e}."));
            }
            S::SetIdx2(n, i, j, e) => {
                let (i, j, e) = (self.e(i, true), self.e(j, true), self.e(e, false));
                self.line(d, &format!("Set item {j} of item {i} of {n} to {e}."));
            }
            S::SetField(n, si, fi, e) => {
                let f = self.p.structs[*si].fields[*fi].0.clone();
                let e = self.e(e, false);
                if self.r.bool() || !n.ends_with(|c: char| c.is_ascii_alphabetic()) {
                    self.line(d, &format!("Set {n}'s {f} to {e}."));
                } else {
                    self.line(d, &format!("Set {n}.{f} to {e}."));
                }
            }
            S::Push(e, n) => {
                let e = self.e(e, matches!(e, E::NewSeq(_) | E::NewMap(..) | E::NewSet(_) | E::Closure(..)));
                self.line(d, &format!("Push {e} to {n}."));
            }
            S::Pop(n, None) => self.line(d, &format!("Pop from {n}.")),
            S::Pop(n, Some(t)) => self.line(d, &format!("Pop from {n} into {t}.")),
            S::AddTo(e, n) => {
                let e = self.e(e, false);
                self.line(d, &format!("Add {e} to {n}."));
            }
            S::RemoveFrom(e, n) => {
                let e = self.e(e, false);
                self.line(d, &format!("Remove {e} from {n}."));
            }
            S::If(arms, els) => {
                for (i, (c, body)) in arms.iter().enumerate() {
                    let c = self.e(c, false);
                    let kw = if i == 0 { "If" } else { *self.r.pick(&["elif", "Otherwise If"]) };
                    self.line(d, &format!("{kw} {c}:"));
                    self.block(body, d + 1);
                }
                if let Some(b) = els {
                    self.line(d, "Otherwise:");
                    self.block(b, d + 1);
                }
            }
            S::While(c, body) => {
                let c = self.e(c, false);
                self.line(d, &format!("While {c}:"));
                self.block(body, d + 1);
            }
            S::ForIn(n, e, body) => {
                let e = self.e(e, true);
                let kw = *self.r.pick(&["Repeat for", "for"]);
                self.line(d, &format!("{kw} {n} in {e}:"));
                self.block(body, d + 1);
            }
            S::ForPair(k, w, e, body) => {
                let e = self.e(e, true);
                self.line(d, &format!("Repeat for ({k}, {w}) in {e}:"));
                self.block(body, d + 1);
            }
            S::ForRange(n, lo, hi, body) => {
                let (lo, hi) = (self.e(lo, true), self.e(hi, true));
                let kw = *self.r.pick(&["Repeat for", "for"]);
                self.line(d, &format!("{kw} {n} from {lo} to {hi}:"));
                self.block(body, d + 1);
            }
            S::Show(e) => {
                let e = self.e(e, false);
                self.line(d, &format!("Show {e}."));
            }
            S::Return(None) => self.line(d, "Return."),
            S::Return(Some(e)) => {
                let e = self.e(e, false);
                self.line(d, &format!("Return {e}."));
            }
            S::Break => self.line(d, "Break."),
            S::Do(e) => {
                if let E::Call(f, args) = e {
                    if args.is_empty() {
                        self.line(d, &format!("Call {f}."));
                    } else {
                        let a: Vec<String> = args.iter().map(|x| self.e(x, true)).collect();
                        self.line(d, &format!("Call {f} with {}.", a.join(" and ")));
                    }
                }
            }
            S::Inspect(e, en, arms, els) => {
                let e = self.e(e, true);
                self.line(d, &format!("Inspect {e}:"));
                for (vi, names, body) in arms {
                    let vn = self.p.enums[*en].variants[*vi].0.clone();
                    if names.is_empty() {
                        self.line(d + 1, &format!("When {vn}:"));
                    } else {
                        self.line(d + 1, &format!("When {vn} ({}):", names.join(", ")));
                    }
                    self.block(body, d + 2);
                }
                if let Some(b) = els {
                    self.line(d + 1, "Otherwise:");
                    self.block(b, d + 2);
                }
            }
        }
    }
    /// `atom`: the position needs a self-delimiting expression.
    fn e(&mut self, e: &E, atom: bool) -> String {
        let wrap = |s: String| if atom { format!("({s})") } else { s };
        match e {
            E::Int(i) if *i < 0 => {
                if *i == i64::MIN {
                    format!("(-{} - 1)", i64::MAX)
                } else {
                    format!("({i})")
                }
            }
            E::Int(i) => i.to_string(),
            E::Bool(x) => x.to_string(),
            E::Text(s) => format!("\"{}\"", esc(s)),
            E::Float(f) => {
                let s = if f.fract() == 0.0 && f.abs() < 1e15 { format!("{f:.1}") } else { format!("{f}") };
                if *f < 0.0 {
                    format!("({s})")
                } else {
                    s
                }
            }
            E::Var(n) => n.clone(),
            E::Bin(op, x, y) => {
                let (a, c) = (self.e(x, true), self.e(y, true));
                let w = |r: &mut Rng, xs: &[&str]| -> String { (*r.pick(xs)).to_string() };
                let o = match op {
                    Op::Add => "+".to_string(),
                    Op::Sub => "-".into(),
                    Op::Mul => "*".into(),
                    Op::Div => "/".into(),
                    Op::Mod => "%".into(),
                    Op::FloorDiv => "//".into(),
                    Op::BitAnd => "&".into(),
                    Op::BitOr => "|".into(),
                    Op::BitXor => w(&mut self.r, &["^", "xor"]),
                    Op::Shl => "shifted left by".into(),
                    Op::Shr => "shifted right by".into(),
                    Op::Lt => w(&mut self.r, &["<", "is less than"]),
                    Op::Le => w(&mut self.r, &["<=", "is at most"]),
                    Op::Gt => w(&mut self.r, &[">", "is greater than"]),
                    Op::Ge => w(&mut self.r, &[">=", "is at least"]),
                    Op::Eq => w(&mut self.r, &["==", "equals"]),
                    Op::Ne => w(&mut self.r, &["!=", "is not"]),
                    Op::And => "and".into(),
                    Op::Or => "or".into(),
                    Op::Concat => w(&mut self.r, &["+", "combined with"]),
                    Op::Followed => "followed by".into(),
                    Op::Union => w(&mut self.r, &["union", "|"]),
                    Op::Inter => w(&mut self.r, &["intersection", "&"]),
                    Op::Diff => w(&mut self.r, &["without", "-"]),
                };
                wrap(format!("{a} {o} {c}"))
            }
            E::Not(x) => {
                let s = self.e(x, true);
                wrap(format!("not {s}"))
            }
            E::Neg(x) => {
                let s = self.e(x, true);
                format!("(0 - {s})")
            }
            E::Call(f, args) => {
                let a: Vec<String> = args.iter().map(|x| self.e(x, false)).collect();
                format!("{f}({})", a.join(", "))
            }
            E::Builtin(f, args) => {
                let a: Vec<String> = args.iter().map(|x| self.e(x, false)).collect();
                format!("{f}({})", a.join(", "))
            }
            E::Index(c, i) => {
                let (i, c) = (self.pos(i), self.e(c, true));
                wrap(format!("item {i} of {c}"))
            }
            E::Slice(c, i, j) => {
                let (i, j, c) = (self.e(i, true), self.e(j, true), self.e(c, true));
                wrap(format!("items {i} through {j} of {c}"))
            }
            E::Len(x) => {
                let s = self.e(x, true);
                wrap(format!("length of {s}"))
            }
            E::Contains(x, y) => {
                let (x, y) = (self.e(x, true), self.e(y, true));
                wrap(format!("{x} contains {y}"))
            }
            E::List(xs) => {
                let a: Vec<String> = xs.iter().map(|x| self.e(x, false)).collect();
                format!("[{}]", a.join(", "))
            }
            E::NewSeq(t) => wrap(format!("a new Seq of {}", self.ty(t))),
            E::NewMap(k, w) => wrap(format!("a new Map of {} to {}", self.ty(k), self.ty(w))),
            E::NewSet(t) => wrap(format!("a new Set of {}", self.ty(t))),
            E::New(si, args) => {
                let fs: Vec<String> = self.p.structs[*si].fields.iter().map(|f| f.0.clone()).collect();
                let parts: Vec<String> =
                    fs.iter().zip(args).map(|(f, x)| format!("{f} {}", self.e(x, true))).collect();
                wrap(format!("a new {} with {}", self.p.structs[*si].name, parts.join(" and ")))
            }
            E::Variant(en, vi, args) => {
                let (vn, fs) = self.p.enums[*en].variants[*vi].clone();
                if args.is_empty() {
                    return wrap(format!("a new {vn}"));
                }
                let parts: Vec<String> =
                    fs.iter().zip(args).map(|((f, _), x)| format!("{f} {}", self.e(x, true))).collect();
                wrap(format!("a new {vn} with {}", parts.join(" and ")))
            }
            E::Field(x, si, fi) => {
                let f = self.p.structs[*si].fields[*fi].0.clone();
                let s = self.e(x, true);
                let dot = if s.ends_with(')') { true } else { s.ends_with(|c: char| c.is_ascii_alphabetic()) && self.r.bool() };
                if !dot {
                    wrap(format!("{s}'s {f}"))
                } else {
                    wrap(format!("{s}.{f}"))
                }
            }
            E::Interp(parts) => {
                let mut s = String::from("\"");
                for (lit, x) in parts {
                    s.push_str(&esc(lit));
                    if let Some(x) = x {
                        let t = self.e(x, false);
                        let _ = write!(s, "{{{t}}}");
                    }
                }
                s.push('"');
                s
            }
            E::Closure(ps, body) => {
                let a: Vec<String> = ps.iter().map(|x| format!("{x}: Int")).collect();
                let bd = self.e(body, false);
                wrap(format!("({}) -> {bd}", a.join(", ")))
            }
            E::Copy(x) => {
                let s = self.e(x, true);
                wrap(format!("copy of {s}"))
            }
        }
    }
}

// ── reference evaluation ─────────────────────────────────────────────────────

#[derive(Clone, Debug)]
pub enum Val {
    I(i64),
    Big(Rc<BigInt>),
    B(bool),
    T(Rc<str>),
    F(f64),
    Seq(Rc<Vec<Val>>),
    Map(Rc<Vec<(Val, Val)>>),
    Set(Rc<Vec<Val>>),
    Struct(usize, Rc<Vec<Val>>),
    Var(usize, usize, Rc<Vec<Val>>),
    Clo(Rc<(Vec<String>, E, HashMap<String, Val>)>),
    Nothing,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The program must stop with an error of this kind.
    Error(&'static str),
    /// Outside what the reference decides; discard the program.
    Discard(&'static str),
}

pub fn norm(x: BigInt) -> Val {
    match x.to_i64() {
        Some(i) => Val::I(i),
        None => Val::Big(Rc::new(x)),
    }
}
fn big(x: &Val) -> Option<BigInt> {
    match x {
        Val::I(i) => Some(BigInt::from(*i)),
        Val::Big(b) => Some((**b).clone()),
        _ => None,
    }
}

pub fn veq(a: &Val, c: &Val) -> bool {
    match (a, c) {
        (Val::I(x), Val::I(y)) => x == y,
        (Val::Big(x), Val::Big(y)) => x == y,
        (Val::B(x), Val::B(y)) => x == y,
        (Val::T(x), Val::T(y)) => x == y,
        (Val::F(x), Val::F(y)) => x == y,
        (Val::Seq(x), Val::Seq(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q)),
        (Val::Set(x), Val::Set(y)) => x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| veq(p, q))),
        (Val::Map(x), Val::Map(y)) => {
            x.len() == y.len() && x.iter().all(|p| y.iter().any(|q| veq(&p.0, &q.0) && veq(&p.1, &q.1)))
        }
        (Val::Struct(i, x), Val::Struct(j, y)) => i == j && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q)),
        (Val::Var(i, k, x), Val::Var(j, l, y)) => {
            i == j && k == l && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q))
        }
        _ => false,
    }
}

enum Flow {
    Next,
    Break,
    Return(Val),
}

pub struct Eval<'a> {
    p: &'a Prog,
    pub out: Vec<String>,
    fuel: u64,
    depth: usize,
    pub steps: u64,
    pub saw_big: bool,
    frames: Vec<Vec<(String, Val)>>,
}

type R<T> = Result<T, Stop>;
const CAP: usize = 20_000;

impl<'a> Eval<'a> {
    pub fn new(p: &'a Prog, fuel: u64) -> Self {
        Eval { p, out: vec![], fuel, depth: 0, steps: 0, saw_big: false, frames: vec![vec![]] }
    }
    /// What the program shows, and how it ends.
    pub fn run(&mut self) -> Result<(), Stop> {
        let p = self.p;
        match self.block(&p.main) {
            Ok(_) => Ok(()),
            Err(e) => Err(e),
        }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.fuel {
            return Err(Stop::Discard("fuel"));
        }
        Ok(())
    }
    fn get(&self, n: &str) -> R<&Val> {
        self.frames.last().unwrap().iter().rev().find(|x| x.0 == n).map(|x| &x.1).ok_or(Stop::Discard("unbound"))
    }
    fn slot(&mut self, n: &str) -> R<&mut Val> {
        self.frames.last_mut().unwrap().iter_mut().rev().find(|x| x.0 == n).map(|x| &mut x.1).ok_or(Stop::Discard("unbound"))
    }
    fn bind(&mut self, n: &str, x: Val) {
        self.frames.last_mut().unwrap().push((n.to_string(), x));
    }
    pub fn fmt(&self, x: &Val) -> R<String> {
        Ok(match x {
            Val::I(i) => i.to_string(),
            Val::Big(i) => i.to_string(),
            Val::B(x) => x.to_string(),
            Val::T(s) => s.to_string(),
            Val::F(f) => {
                if !f.is_finite() || (*f == 0.0 && f.is_sign_negative()) {
                    return Err(Stop::Discard("float"));
                }
                format!("{f}")
            }
            Val::Seq(xs) => format!("[{}]", self.list(xs)?),
            Val::Set(xs) => format!("{{{}}}", self.list(xs)?),
            Val::Map(m) => {
                let mut parts = vec![];
                for (k, w) in m.iter() {
                    parts.push(format!("{}: {}", self.fmt(k)?, self.fmt(w)?));
                }
                format!("{{{}}}", parts.join(", "))
            }
            Val::Struct(si, fs) => {
                let d = &self.p.structs[*si];
                let mut parts: Vec<(String, String)> = vec![];
                for ((n, _), x) in d.fields.iter().zip(fs.iter()) {
                    parts.push((n.clone(), self.fmt(x)?));
                }
                parts.sort();
                let parts: Vec<String> = parts.into_iter().map(|(n, s)| format!("{n}: {s}")).collect();
                format!("{} {{ {} }}", d.name, parts.join(", "))
            }
            Val::Var(en, vi, args) => {
                let n = &self.p.enums[*en].variants[*vi].0;
                if args.is_empty() {
                    n.clone()
                } else {
                    format!("{n}({})", self.list(args)?)
                }
            }
            Val::Nothing => "nothing".into(),
            Val::Clo(_) => return Err(Stop::Discard("show closure")),
        })
    }
    fn list(&self, xs: &[Val]) -> R<String> {
        let mut parts = vec![];
        for x in xs {
            parts.push(self.fmt(x)?);
        }
        Ok(parts.join(", "))
    }
    fn truth(&self, x: &Val) -> R<bool> {
        match x {
            Val::B(x) => Ok(*x),
            _ => Err(Stop::Discard("truthiness")),
        }
    }
    fn cond(&mut self, e: &E) -> R<bool> {
        let x = self.e(e)?;
        self.truth(&x)
    }
    fn block(&mut self, ss: &[S]) -> R<Flow> {
        for s in ss {
            match self.stmt(s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn as_index(&self, x: &Val) -> R<i64> {
        match x {
            Val::I(i) => Ok(*i),
            Val::Big(_) => Err(Stop::Discard("huge index")),
            _ => Err(Stop::Discard("index type")),
        }
    }
    fn stmt(&mut self, s: &S) -> R<Flow> {
        self.tick()?;
        match s {
            S::Let(n, _, _, e) => {
                let x = self.e(e)?;
                self.bind(n, x);
            }
            S::Set(n, e) => {
                let x = self.e(e)?;
                *self.slot(n)? = x;
            }
            S::SetIdx(n, i, e) => {
                let i = self.e(i)?;
                let x = self.e(e)?;
                match self.slot(n)? {
                    Val::Seq(xs) => {
                        let k = match i {
                            Val::I(k) => k,
                            _ => return Err(Stop::Discard("index type")),
                        };
                        if k <= 0 {
                            return Err(Stop::Discard("non-positive index"));
                        }
                        if k as usize > xs.len() {
                            return Err(Stop::Error("bounds"));
                        }
                        Rc::make_mut(xs)[k as usize - 1] = x;
                    }
                    Val::Map(m) => {
                        if m.len() > 400 {
                            return Err(Stop::Discard("size"));
                        }
                        let m = Rc::make_mut(m);
                        match m.iter_mut().find(|p| veq(&p.0, &i)) {
                            Some(p) => p.1 = x,
                            None => m.push((i, x)),
                        }
                    }
                    _ => return Err(Stop::Discard("setidx type")),
                }
            }
            S::SetIdx2(n, i, j, e) => {
                let i = self.e(i)?;
                let j = self.e(j)?;
                let x = self.e(e)?;
                let (i, j) = (self.as_index(&i)?, self.as_index(&j)?);
                if let Val::Seq(xs) = self.slot(n)? {
                    if i <= 0 || j <= 0 {
                        return Err(Stop::Discard("non-positive index"));
                    }
                    let xs = Rc::make_mut(xs);
                    if i as usize > xs.len() {
                        return Err(Stop::Error("bounds"));
                    }
                    if let Val::Seq(ys) = &mut xs[i as usize - 1] {
                        if j as usize > ys.len() {
                            return Err(Stop::Error("bounds"));
                        }
                        Rc::make_mut(ys)[j as usize - 1] = x;
                    }
                }
            }
            S::SetField(n, _, fi, e) => {
                let x = self.e(e)?;
                if let Val::Struct(_, fs) = self.slot(n)? {
                    Rc::make_mut(fs)[*fi] = x;
                }
            }
            S::Push(e, n) => {
                let x = self.e(e)?;
                match self.slot(n)? {
                    Val::Seq(xs) => {
                        if xs.len() > CAP {
                            return Err(Stop::Discard("size"));
                        }
                        Rc::make_mut(xs).push(x)
                    }
                    _ => return Err(Stop::Discard("push type")),
                }
            }
            S::Pop(n, into) => {
                let popped = match self.slot(n)? {
                    Val::Seq(xs) => Rc::make_mut(xs).pop(),
                    _ => return Err(Stop::Discard("pop type")),
                };
                let x = popped.ok_or(Stop::Discard("pop empty"))?;
                if let Some(t) = into {
                    self.bind(t, x);
                }
            }
            S::AddTo(e, n) => {
                let x = self.e(e)?;
                if let Val::Set(xs) = self.slot(n)? {
                    if xs.len() > 400 {
                        return Err(Stop::Discard("size"));
                    }
                    if !xs.iter().any(|y| veq(y, &x)) {
                        Rc::make_mut(xs).push(x);
                    }
                }
            }
            S::RemoveFrom(e, n) => {
                let x = self.e(e)?;
                match self.slot(n)? {
                    Val::Set(xs) => Rc::make_mut(xs).retain(|y| !veq(y, &x)),
                    Val::Map(m) => Rc::make_mut(m).retain(|y| !veq(&y.0, &x)),
                    _ => return Err(Stop::Discard("remove type")),
                }
            }
            S::If(arms, els) => {
                for (c, body) in arms {
                    if self.cond(c)? {
                        return self.nested(body);
                    }
                }
                if let Some(body) = els {
                    return self.nested(body);
                }
            }
            S::While(c, body) => loop {
                self.tick()?;
                if !self.cond(c)? {
                    break;
                }
                match self.nested(body)? {
                    Flow::Next => {}
                    Flow::Break => break,
                    f => return Ok(f),
                }
            },
            S::ForIn(n, e, body) => {
                let items: Vec<Val> = match self.e(e)? {
                    Val::Seq(xs) | Val::Set(xs) => xs.to_vec(),
                    Val::T(s) => s.chars().map(|c| Val::T(c.to_string().into())).collect(),
                    _ => return Err(Stop::Discard("iter type")),
                };
                for x in items {
                    self.tick()?;
                    let base = self.frames.last().unwrap().len();
                    self.bind(n, x);
                    let f = self.nested(body)?;
                    self.frames.last_mut().unwrap().truncate(base);
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            S::ForPair(k, w, e, body) => {
                let items: Vec<(Val, Val)> = match self.e(e)? {
                    Val::Map(m) => m.to_vec(),
                    _ => return Err(Stop::Discard("iter type")),
                };
                for (x, y) in items {
                    self.tick()?;
                    let base = self.frames.last().unwrap().len();
                    self.bind(k, x);
                    self.bind(w, y);
                    let f = self.nested(body)?;
                    self.frames.last_mut().unwrap().truncate(base);
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                }
            }
            S::ForRange(n, lo, hi, body) => {
                let (lo, hi) = (self.e(lo)?, self.e(hi)?);
                let (lo, hi) = (self.as_index(&lo)?, self.as_index(&hi)?);
                let mut i = lo;
                while i <= hi {
                    self.tick()?;
                    let base = self.frames.last().unwrap().len();
                    self.bind(n, Val::I(i));
                    let f = self.nested(body)?;
                    self.frames.last_mut().unwrap().truncate(base);
                    match f {
                        Flow::Next => {}
                        Flow::Break => break,
                        f => return Ok(f),
                    }
                    i += 1;
                }
            }
            S::Show(e) => {
                let x = self.e(e)?;
                let s = self.fmt(&x)?;
                if s.len() > 100_000 {
                    return Err(Stop::Discard("size"));
                }
                self.out.push(s);
            }
            S::Return(None) => return Ok(Flow::Return(Val::Nothing)),
            S::Return(Some(e)) => {
                let x = self.e(e)?;
                return Ok(Flow::Return(x));
            }
            S::Break => return Ok(Flow::Break),
            S::Do(e) => {
                self.e(e)?;
            }
            S::Inspect(e, _, arms, els) => {
                let x = self.e(e)?;
                if let Val::Var(_, vi, args) = x {
                    for (k, names, body) in arms {
                        if *k == vi {
                            let base = self.frames.last().unwrap().len();
                            for (n, a) in names.iter().zip(args.iter()) {
                                self.bind(n, a.clone());
                            }
                            let f = self.nested(body)?;
                            self.frames.last_mut().unwrap().truncate(base);
                            return Ok(f);
                        }
                    }
                    match els {
                        Some(body) => return self.nested(body),
                        None => return Err(Stop::Discard("inexhaustive")),
                    }
                }
            }
        }
        Ok(Flow::Next)
    }
    fn nested(&mut self, ss: &[S]) -> R<Flow> {
        let base = self.frames.last().unwrap().len();
        let r = self.block(ss);
        if r.is_ok() {
            self.frames.last_mut().unwrap().truncate(base);
        }
        r
    }
    fn callv(&mut self, params: &[String], body: &E, env: &HashMap<String, Val>, args: Vec<Val>) -> R<Val> {
        let mut f: Vec<(String, Val)> = env.iter().map(|(k, x)| (k.clone(), x.clone())).collect();
        f.extend(params.iter().cloned().zip(args));
        self.frames.push(f);
        self.depth += 1;
        if self.depth > 300 {
            return Err(Stop::Discard("depth"));
        }
        let r = self.e(body);
        self.depth -= 1;
        self.frames.pop();
        r
    }
    fn e(&mut self, e: &E) -> R<Val> {
        self.tick()?;
        Ok(match e {
            E::Int(i) => Val::I(*i),
            E::Bool(x) => Val::B(*x),
            E::Text(s) => Val::T(s.as_str().into()),
            E::Float(f) => Val::F(*f),
            E::Var(n) => self.get(n)?.clone(),
            E::Bin(Op::And, x, y) => {
                let l = self.cond(x)?;
                Val::B(if l { self.cond(y)? } else { false })
            }
            E::Bin(Op::Or, x, y) => {
                let l = self.cond(x)?;
                Val::B(if l { true } else { self.cond(y)? })
            }
            E::Bin(op, x, y) => {
                let (l, r) = (self.e(x)?, self.e(y)?);
                self.binop(*op, l, r)?
            }
            E::Not(x) => Val::B(!self.cond(x)?),
            E::Neg(x) => {
                let r = self.e(x)?;
                match r {
                    Val::F(f) => Val::F(0.0 - f),
                    r => self.binop(Op::Sub, Val::I(0), r)?,
                }
            }
            E::Call(f, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.e(x)?);
                }
                if let Ok(Val::Clo(c)) = self.get(f).cloned() {
                    return self.callv(&c.0, &c.1, &c.2, a);
                }
                let p = self.p;
                let d = p.funcs.iter().find(|d| &d.name == f).ok_or(Stop::Discard("no function"))?;
                self.frames.push(d.params.iter().map(|x| x.0.clone()).zip(a).collect());
                self.depth += 1;
                if self.depth > 300 {
                    return Err(Stop::Discard("depth"));
                }
                let r = self.block(&d.body)?;
                self.depth -= 1;
                self.frames.pop();
                match r {
                    Flow::Return(x) => x,
                    _ if d.ret.is_none() => Val::Nothing,
                    _ => return Err(Stop::Discard("missing return")),
                }
            }
            E::Builtin(f, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.e(x)?);
                }
                match (*f, &a[..]) {
                    ("abs", [x @ (Val::I(_) | Val::Big(_))]) => {
                        let y = big(x).unwrap().abs();
                        self.mk(y)?
                    }
                    ("abs", [Val::F(x)]) => Val::F(x.abs()),
                    ("min", [Val::I(x), Val::I(y)]) => Val::I(*x.min(y)),
                    ("max", [Val::I(x), Val::I(y)]) => Val::I(*x.max(y)),
                    ("count_ones", [Val::I(x)]) => Val::I(x.count_ones() as i64),
                    ("sqrt", [Val::F(x)]) if *x >= 0.0 => Val::F(x.sqrt()),
                    ("floor", [Val::F(x)]) if x.abs() < 9e15 => Val::I(x.floor() as i64),
                    _ => return Err(Stop::Discard("builtin")),
                }
            }
            E::Index(c, i) => {
                let c = self.e(c)?;
                let i = self.e(i)?;
                match c {
                    Val::Seq(xs) => {
                        let k = self.as_index(&i)?;
                        if k <= 0 {
                            return Err(Stop::Discard("non-positive index"));
                        }
                        xs.get(k as usize - 1).cloned().ok_or(Stop::Error("bounds"))?
                    }
                    Val::T(s) => {
                        let k = self.as_index(&i)?;
                        if k <= 0 || !s.is_ascii() {
                            return Err(Stop::Discard("text index"));
                        }
                        let ch = s.as_bytes().get(k as usize - 1).ok_or(Stop::Error("bounds"))?;
                        Val::T((*ch as char).to_string().into())
                    }
                    Val::Map(m) => m.iter().find(|p| veq(&p.0, &i)).map(|p| p.1.clone()).ok_or(Stop::Error("key"))?,
                    _ => return Err(Stop::Discard("index")),
                }
            }
            E::Slice(c, i, j) => {
                let c = self.e(c)?;
                let (i, j) = (self.e(i)?, self.e(j)?);
                let (i, j) = (self.as_index(&i)?, self.as_index(&j)?);
                match c {
                    Val::Seq(xs) => {
                        if i < 1 || j as i128 > xs.len() as i128 || i > j {
                            return Err(Stop::Discard("slice range"));
                        }
                        Val::Seq(Rc::new(xs[i as usize - 1..j as usize].to_vec()))
                    }
                    _ => return Err(Stop::Discard("slice")),
                }
            }
            E::Len(x) => match self.e(x)? {
                Val::Seq(xs) | Val::Set(xs) => Val::I(xs.len() as i64),
                Val::Map(m) => Val::I(m.len() as i64),
                Val::T(s) if s.is_ascii() => Val::I(s.len() as i64),
                _ => return Err(Stop::Discard("len")),
            },
            E::Contains(c, x) => {
                let (c, x) = (self.e(c)?, self.e(x)?);
                match c {
                    Val::Seq(xs) | Val::Set(xs) => Val::B(xs.iter().any(|y| veq(y, &x))),
                    Val::Map(m) => Val::B(m.iter().any(|y| veq(&y.0, &x))),
                    Val::T(s) => match x {
                        Val::T(t) => Val::B(s.contains(&*t)),
                        _ => return Err(Stop::Discard("contains")),
                    },
                    _ => return Err(Stop::Discard("contains")),
                }
            }
            E::List(xs) => {
                let mut a = vec![];
                for x in xs {
                    a.push(self.e(x)?);
                }
                Val::Seq(Rc::new(a))
            }
            E::NewSeq(_) => Val::Seq(Rc::new(vec![])),
            E::NewMap(..) => Val::Map(Rc::new(vec![])),
            E::NewSet(_) => Val::Set(Rc::new(vec![])),
            E::New(si, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.e(x)?);
                }
                Val::Struct(*si, Rc::new(a))
            }
            E::Variant(en, vi, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.e(x)?);
                }
                Val::Var(*en, *vi, Rc::new(a))
            }
            E::Field(x, _, fi) => match self.e(x)? {
                Val::Struct(_, fs) => fs[*fi].clone(),
                _ => return Err(Stop::Discard("field")),
            },
            E::Interp(parts) => {
                let mut s = String::new();
                for (lit, x) in parts {
                    s.push_str(lit);
                    if let Some(x) = x {
                        let y = self.e(x)?;
                        s.push_str(&self.fmt(&y)?);
                    }
                }
                if s.len() > 50_000 {
                    return Err(Stop::Discard("size"));
                }
                Val::T(s.into())
            }
            E::Closure(ps, body) => {
                let mut env = HashMap::new();
                for (k, x) in self.frames.last().unwrap() {
                    env.insert(k.clone(), x.clone());
                }
                Val::Clo(Rc::new((ps.clone(), (**body).clone(), env)))
            }
            E::Copy(x) => self.e(x)?,
        })
    }
    fn mk(&mut self, x: BigInt) -> R<Val> {
        if x.bits() > 6000 {
            return Err(Stop::Discard("size"));
        }
        let y = norm(x);
        if let Val::Big(_) = y {
            self.saw_big = true;
        }
        Ok(y)
    }
    fn binop(&mut self, op: Op, l: Val, r: Val) -> R<Val> {
        use Op::*;
        Ok(match (op, &l, &r) {
            (Add, Val::F(x), Val::F(y)) => Val::F(x + y),
            (Sub, Val::F(x), Val::F(y)) => Val::F(x - y),
            (Mul, Val::F(x), Val::F(y)) => Val::F(x * y),
            (Div, Val::F(x), Val::F(y)) => {
                if *y == 0.0 {
                    return Err(Stop::Discard("float div"));
                }
                Val::F(x / y)
            }
            (Lt, Val::F(x), Val::F(y)) => Val::B(x < y),
            (Le, Val::F(x), Val::F(y)) => Val::B(x <= y),
            (Gt, Val::F(x), Val::F(y)) => Val::B(x > y),
            (Ge, Val::F(x), Val::F(y)) => Val::B(x >= y),
            (Add, Val::I(x), Val::I(y)) => match x.checked_add(*y) {
                Some(z) => Val::I(z),
                None => self.mk(BigInt::from(*x) + *y)?,
            },
            (Sub, Val::I(x), Val::I(y)) => match x.checked_sub(*y) {
                Some(z) => Val::I(z),
                None => self.mk(BigInt::from(*x) - *y)?,
            },
            (Mul, Val::I(x), Val::I(y)) => match x.checked_mul(*y) {
                Some(z) => Val::I(z),
                None => self.mk(BigInt::from(*x) * *y)?,
            },
            (Add | Sub | Mul | Div | Mod | FloorDiv | Lt | Le | Gt | Ge, Val::I(_) | Val::Big(_), Val::I(_) | Val::Big(_)) => {
                let (x, y) = (big(&l).unwrap(), big(&r).unwrap());
                match op {
                    Add => self.mk(x + y)?,
                    Sub => self.mk(x - y)?,
                    Mul => self.mk(x * y)?,
                    Div | Mod | FloorDiv if y.is_zero() => return Err(Stop::Error("zero")),
                    Div => self.mk(x / y)?,
                    Mod => self.mk(x % y)?,
                    FloorDiv => self.mk(x.div_floor(&y))?,
                    Lt => Val::B(x < y),
                    Le => Val::B(x <= y),
                    Gt => Val::B(x > y),
                    _ => Val::B(x >= y),
                }
            }
            (BitAnd, Val::I(x), Val::I(y)) => Val::I(x & y),
            (BitOr, Val::I(x), Val::I(y)) => Val::I(x | y),
            (BitXor, Val::I(x), Val::I(y)) => Val::I(x ^ y),
            (BitAnd, Val::B(x), Val::B(y)) => Val::B(x & y),
            (BitOr, Val::B(x), Val::B(y)) => Val::B(x | y),
            (BitXor, Val::B(x), Val::B(y)) => Val::B(x ^ y),
            (Shl, Val::I(x), Val::I(y)) if (0..64).contains(y) => Val::I(x.wrapping_shl(*y as u32)),
            (Shr, Val::I(x), Val::I(y)) if (0..64).contains(y) => Val::I(x >> y),
            (Eq, ..) => Val::B(veq(&l, &r)),
            (Ne, ..) => Val::B(!veq(&l, &r)),
            (Concat, _, _) if matches!(l, Val::T(_)) || matches!(r, Val::T(_)) => {
                let s = self.fmt(&l)? + &self.fmt(&r)?;
                if s.len() > 50_000 {
                    return Err(Stop::Discard("size"));
                }
                Val::T(s.into())
            }
            (Followed, Val::Seq(x), Val::Seq(y)) => {
                let mut a = x.to_vec();
                a.extend(y.iter().cloned());
                if a.len() > CAP {
                    return Err(Stop::Discard("size"));
                }
                Val::Seq(Rc::new(a))
            }
            (Union, Val::Set(x), Val::Set(y)) => {
                let mut a = x.to_vec();
                for q in y.iter() {
                    if !a.iter().any(|p| veq(p, q)) {
                        a.push(q.clone());
                    }
                }
                Val::Set(Rc::new(a))
            }
            (Inter, Val::Set(x), Val::Set(y)) => {
                Val::Set(Rc::new(x.iter().filter(|p| y.iter().any(|q| veq(p, q))).cloned().collect()))
            }
            (Diff, Val::Set(x), Val::Set(y)) => {
                Val::Set(Rc::new(x.iter().filter(|p| !y.iter().any(|q| veq(p, q))).cloned().collect()))
            }
            _ => return Err(Stop::Discard("types")),
        })
    }
}

/// The reference outcome: shown lines and the kind of error that ended it.
#[derive(Clone, Debug)]
pub struct Expect {
    pub lines: Vec<String>,
    pub error: Option<&'static str>,
    pub steps: u64,
    pub big: bool,
}

pub fn expect(p: &Prog, fuel: u64) -> Option<Expect> {
    let mut ev = Eval::new(p, fuel);
    let r = ev.run();
    let error = match r {
        Ok(()) => None,
        Err(Stop::Error(k)) => Some(k),
        Err(Stop::Discard(_)) => return None,
    };
    Some(Expect { lines: ev.out, error, steps: ev.steps, big: ev.saw_big })
}
