//! C28: the formula of a plain sentence is true in exactly the situations the sentence describes.
//! The sentence is judged by its own meaning, the printed formula by evaluating it.
use logicaffeine_language::compile as lang;
use std::collections::{HashMap, HashSet};
use vkit::serde_json::json;
use vkit::{scale, Case, Report, Rng};

const NOUNS: &[&str] = &["dog", "cat", "boy", "girl", "farmer", "horse", "teacher", "student"];
const NAMES: &[&str] = &["John", "Mary", "Bob", "Alice"];
const ADJS: &[&str] = &["tall", "happy", "wise"];
const IVS: &[(&str, &str)] = &[("runs", "run"), ("sleeps", "sleep"), ("laughs", "laugh"), ("barks", "bark")];
const TVS: &[(&str, &str)] = &[("chases", "chase"), ("loves", "love"), ("sees", "see"), ("admires", "admire")];
/// What the lexicon adds about a noun; true of everything here.
const KINDS: &[&str] = &["Animal", "Mammal", "Human", "Person", "Male", "Female", "Young", "Adult"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Det {
    Every,
    Some,
    A,
    No,
}

#[derive(Clone, Debug)]
enum Np {
    Name(usize),
    Q(Det, usize, Option<Box<Vp>>),
}

#[derive(Clone, Debug)]
enum Vp {
    Iv(bool, usize),
    Tv(bool, usize, Np),
    Adj(bool, usize),
    IsA(bool, usize),
}

#[derive(Clone, Debug)]
enum Sen {
    One(Np, Vp),
    NotEvery(usize, Vp),
    Or(Box<Sen>, Box<Sen>),
    And(Box<Sen>, Box<Sen>),
    Iff(Box<Sen>, Box<Sen>),
    If(Box<Sen>, Box<Sen>),
}

struct World {
    n: usize,
    nouns: Vec<Vec<bool>>,
    adjs: Vec<Vec<bool>>,
    names: Vec<usize>,
    ivs: Vec<Vec<bool>>,
    tvs: Vec<Vec<Vec<bool>>>,
}

fn world(r: &mut Rng) -> World {
    let n = 1 + r.below(4);
    let p = 1 + r.below(9);
    let mut bits = |k: usize| -> Vec<Vec<bool>> { (0..k).map(|_| (0..n).map(|_| r.chance(p, 10)).collect()).collect() };
    let (nouns, adjs, ivs) = (bits(NOUNS.len()), bits(ADJS.len()), bits(IVS.len()));
    let tvs = (0..TVS.len()).map(|_| bits(n)).collect();
    World { n, nouns, adjs, ivs, tvs, names: (0..NAMES.len()).map(|_| r.below(n)).collect() }
}

impl World {
    fn np(&self, np: &Np, f: &dyn Fn(usize) -> bool) -> bool {
        match np {
            Np::Name(i) => f(self.names[*i]),
            Np::Q(d, noun, rel) => {
                let mut of = (0..self.n).filter(|x| self.nouns[*noun][*x] && rel.as_ref().map_or(true, |v| self.vp(v, *x)));
                match d {
                    Det::Every => of.all(f),
                    Det::Some | Det::A => of.any(f),
                    Det::No => !of.any(f),
                }
            }
        }
    }
    fn vp(&self, vp: &Vp, x: usize) -> bool {
        match vp {
            Vp::Iv(neg, v) => self.ivs[*v][x] != *neg,
            Vp::Tv(neg, v, o) => self.np(o, &|y| self.tvs[*v][x][y]) != *neg,
            Vp::Adj(neg, a) => self.adjs[*a][x] != *neg,
            Vp::IsA(neg, k) => self.nouns[*k][x] != *neg,
        }
    }
    fn sen(&self, s: &Sen) -> bool {
        match s {
            Sen::One(np, vp) => self.np(np, &|x| self.vp(vp, x)),
            Sen::NotEvery(k, vp) => !self.np(&Np::Q(Det::Every, *k, None), &|x| self.vp(vp, x)),
            Sen::Or(a, b) => self.sen(a) || self.sen(b),
            Sen::And(a, b) => self.sen(a) && self.sen(b),
            Sen::Iff(a, b) => self.sen(a) == self.sen(b),
            Sen::If(a, b) => !self.sen(a) || self.sen(b),
        }
    }
}

fn np(r: &mut Rng, deep: bool, no: bool) -> Np {
    if r.chance(1, 3) {
        return Np::Name(r.below(NAMES.len()));
    }
    let d = *r.pick(if no { &[Det::Every, Det::Some, Det::A, Det::No][..] } else { &[Det::Every, Det::Some, Det::A][..] });
    let rel = (deep && r.chance(1, 3)).then(|| Box::new(if r.bool() { Vp::Iv(false, r.below(IVS.len())) } else { Vp::Tv(false, r.below(TVS.len()), Np::Name(r.below(NAMES.len()))) }));
    Np::Q(d, r.below(NOUNS.len()), rel)
}

fn vp(r: &mut Rng, neg: bool) -> Vp {
    let neg = neg && r.chance(1, 3);
    match r.below(6) {
        0 | 1 => Vp::Iv(neg, r.below(IVS.len())),
        2 | 3 => Vp::Tv(neg, r.below(TVS.len()), np(r, false, false)),
        4 => Vp::Adj(neg, r.below(ADJS.len())),
        _ => Vp::IsA(neg, r.below(NOUNS.len())),
    }
}

fn clause(r: &mut Rng) -> Sen {
    let s = np(r, true, true);
    let v = vp(r, !matches!(s, Np::Q(Det::No, ..)));
    // "a dog does not run" is left out: the indefinite is taken for a name there
    match (&s, v) {
        (Np::Q(Det::A, ..), Vp::Iv(_, k)) => Sen::One(s, Vp::Iv(false, k)),
        (Np::Q(Det::A, ..), Vp::Tv(_, k, o)) => Sen::One(s, Vp::Tv(false, k, o)),
        (_, v) => Sen::One(s, v),
    }
}

/// A clause to join to another: no object, no indefinite.
fn plain(r: &mut Rng) -> Sen {
    let np = match r.below(4) {
        0 => Np::Q(*r.pick(&[Det::Every, Det::Some, Det::No]), r.below(NOUNS.len()), None),
        _ => Np::Name(r.below(NAMES.len())),
    };
    named(r, np)
}

fn named(r: &mut Rng, np: Np) -> Sen {
    let neg = matches!(np, Np::Name(_)) && r.chance(1, 3);
    let v = match r.below(3) {
        0 => Vp::Iv(false, r.below(IVS.len())),
        1 => Vp::Adj(neg, r.below(ADJS.len())),
        _ => Vp::IsA(neg, r.below(NOUNS.len())),
    };
    Sen::One(np, v)
}

fn sentence(r: &mut Rng) -> Sen {
    let mut name = |r: &mut Rng| {
        let np = Np::Name(r.below(NAMES.len()));
        Box::new(named(r, np))
    };
    match r.below(10) {
        0 => Sen::NotEvery(r.below(NOUNS.len()), Vp::Iv(false, r.below(IVS.len()))),
        1 => Sen::Or(Box::new(plain(r)), Box::new(plain(r))),
        2 => Sen::And(Box::new(plain(r)), Box::new(plain(r))),
        3 => Sen::Iff(name(r), name(r)),
        4 => Sen::If(name(r), name(r)),
        _ => clause(r),
    }
}

fn art(w: &str) -> String {
    format!("{} {w}", if "aeiou".contains(&w[..1]) { "an" } else { "a" })
}

fn np_text(p: &Np) -> String {
    match p {
        Np::Name(i) => NAMES[*i].into(),
        Np::Q(d, k, rel) => {
            let base = match d {
                Det::Every => format!("every {}", NOUNS[*k]),
                Det::Some => format!("some {}", NOUNS[*k]),
                Det::A => art(NOUNS[*k]),
                Det::No => format!("no {}", NOUNS[*k]),
            };
            rel.as_ref().map_or(base.clone(), |v| format!("{base} that {}", vp_text(v)))
        }
    }
}

fn vp_text(v: &Vp) -> String {
    match v {
        Vp::Iv(n, k) => if *n { format!("does not {}", IVS[*k].1) } else { IVS[*k].0.into() },
        Vp::Tv(n, k, o) => format!("{} {}", if *n { format!("does not {}", TVS[*k].1) } else { TVS[*k].0.into() }, np_text(o)),
        Vp::Adj(n, k) => format!("is {}{}", if *n { "not " } else { "" }, ADJS[*k]),
        Vp::IsA(n, k) => format!("is {}{}", if *n { "not " } else { "" }, art(NOUNS[*k])),
    }
}

fn text(s: &Sen) -> String {
    match s {
        Sen::One(a, b) => format!("{} {}", np_text(a), vp_text(b)),
        Sen::NotEvery(k, v) => format!("not every {} {}", NOUNS[*k], vp_text(v)),
        Sen::Or(a, b) => format!("{} or {}", text(a), text(b)),
        Sen::And(a, b) => format!("{} and {}", text(a), text(b)),
        Sen::Iff(a, b) => format!("{} if and only if {}", text(a), text(b)),
        Sen::If(a, b) => format!("if {} then {}", text(a), text(b)),
    }
}

/// The form of a sentence, its words left out.
fn form(s: &Sen) -> String {
    fn n(p: &Np) -> String {
        match p {
            Np::Name(_) => "Name".into(),
            Np::Q(d, _, None) => format!("{d:?}"),
            Np::Q(d, _, Some(r)) => format!("{d:?}-that-{}", v(r)),
        }
    }
    fn v(p: &Vp) -> String {
        match p {
            Vp::Iv(g, _) => format!("{}iv", if *g { "not-" } else { "" }),
            Vp::Tv(g, _, o) => format!("{}tv-{}", if *g { "not-" } else { "" }, n(o)),
            Vp::Adj(g, _) => format!("{}adj", if *g { "not-" } else { "" }),
            Vp::IsA(g, _) => format!("{}isa", if *g { "not-" } else { "" }),
        }
    }
    match s {
        Sen::One(a, b) => format!("{} {}", n(a), v(b)),
        Sen::NotEvery(_, b) => format!("not-every {}", v(b)),
        Sen::Or(a, b) => format!("({}) or ({})", form(a), form(b)),
        Sen::And(a, b) => format!("({}) and ({})", form(a), form(b)),
        Sen::Iff(a, b) => format!("({}) iff ({})", form(a), form(b)),
        Sen::If(a, b) => format!("if ({}) then ({})", form(a), form(b)),
    }
}

// ---- the printed formula ----

#[derive(Clone, Debug)]
enum F {
    Not(Box<F>),
    Bin(char, Box<F>, Box<F>),
    Quant(char, String, Box<F>),
    Pred(String, Vec<String>),
    Eq(String, String),
}

struct P {
    t: Vec<String>,
    i: usize,
}

fn lex(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut word = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() && !"∀∃¬∧∨→↔".contains(c) || c == '_' || c == '^' {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            v.push(std::mem::take(&mut word));
        }
        if !c.is_whitespace() {
            v.push(c.to_string());
        }
    }
    if !word.is_empty() {
        v.push(word);
    }
    v
}

impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s.as_str())
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or_default()
    }
    fn want(&mut self, w: &str) -> Option<()> {
        (self.next() == w).then_some(())
    }
    fn expr(&mut self) -> Option<F> {
        let mut a = self.unary()?;
        while ["∧", "∨", "→", "↔"].contains(&self.peek()) {
            let op = self.next().chars().next()?;
            let b = self.unary()?;
            a = F::Bin(op, Box::new(a), Box::new(b));
        }
        Some(a)
    }
    fn unary(&mut self) -> Option<F> {
        let w = self.next();
        match w.as_str() {
            "¬" => Some(F::Not(Box::new(self.unary()?))),
            "∀" | "∃" => {
                let v = self.next();
                self.want("(")?;
                let b = self.expr()?;
                self.want(")")?;
                Some(F::Quant(w.chars().next()?, v, Box::new(b)))
            }
            "(" => {
                let b = self.expr()?;
                self.want(")")?;
                Some(b)
            }
            "HAB" => {
                self.want("(")?;
                let b = self.expr()?;
                self.want(")")?;
                Some(b)
            }
            _ if w.chars().next()?.is_alphanumeric() => {
                if self.peek() == "=" {
                    self.next();
                    return Some(F::Eq(w, self.next()));
                }
                self.want("(")?;
                let mut args = vec![self.next()];
                while self.peek() == "," {
                    self.next();
                    args.push(self.next());
                }
                self.want(")")?;
                Some(F::Pred(w, args))
            }
            _ => None,
        }
    }
}

/// Numbered lines hold together.
fn formula(s: &str) -> Option<F> {
    let mut out: Option<F> = None;
    for l in s.lines() {
        let l = l.trim_start_matches(|c: char| c.is_ascii_digit()).strip_prefix(") ").unwrap_or(l);
        let mut p = P { t: lex(l), i: 0 };
        let f = p.expr()?;
        if p.i != p.t.len() {
            return None;
        }
        out = Some(match out {
            None => f,
            Some(a) => F::Bin('∧', Box::new(a), Box::new(f)),
        });
    }
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Thing(usize),
    Event(usize),
}

struct Judge<'a> {
    w: &'a World,
    /// verb, agent, theme
    events: Vec<(String, usize, Option<usize>)>,
    strange: HashSet<String>,
}

fn cap(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}

impl<'a> Judge<'a> {
    fn new(w: &'a World) -> Self {
        let mut events = vec![];
        for x in 0..w.n {
            for (k, v) in IVS.iter().enumerate() {
                if w.ivs[k][x] {
                    events.push((cap(v.1), x, None));
                }
            }
            for (k, v) in TVS.iter().enumerate() {
                for y in 0..w.n {
                    if w.tvs[k][x][y] {
                        events.push((cap(v.1), x, Some(y)));
                    }
                }
            }
        }
        Judge { w, events, strange: HashSet::new() }
    }
    fn term(&mut self, t: &str, env: &HashMap<String, V>) -> Option<V> {
        if let Some(v) = env.get(t) {
            return Some(*v);
        }
        match NAMES.iter().position(|n| *n == t) {
            Some(i) => Some(V::Thing(self.w.names[i])),
            None => {
                self.strange.insert(format!("term {t}"));
                None
            }
        }
    }
    fn eval(&mut self, f: &F, env: &mut HashMap<String, V>) -> bool {
        match f {
            F::Not(a) => !self.eval(a, env),
            F::Bin(op, a, b) => {
                let (x, y) = (self.eval(a, env), self.eval(b, env));
                match op {
                    '∧' => x && y,
                    '∨' => x || y,
                    '→' => !x || y,
                    _ => x == y,
                }
            }
            F::Quant(q, v, b) => {
                let of: Vec<V> = if v.starts_with('e') { (0..self.events.len()).map(V::Event).collect() } else { (0..self.w.n).map(V::Thing).collect() };
                let old = env.get(v).copied();
                let mut r = *q == '∀';
                for x in of {
                    env.insert(v.clone(), x);
                    let y = self.eval(b, env);
                    r = if *q == '∀' { r && y } else { r || y };
                }
                match old {
                    Some(o) => env.insert(v.clone(), o),
                    None => env.remove(v),
                };
                r
            }
            F::Eq(a, b) => {
                let (x, y) = (self.term(a, env), self.term(b, env));
                x.is_some() && x == y
            }
            F::Pred(p, args) => {
                let vs: Vec<Option<V>> = args.iter().map(|a| self.term(a, env)).collect();
                match vs[..] {
                    [Some(V::Event(e)), Some(V::Thing(x))] if p == "Agent" => self.events[e].1 == x,
                    [Some(V::Event(e)), Some(V::Thing(x))] if p == "Theme" => self.events[e].2 == Some(x),
                    [Some(V::Event(e))] => self.events[e].0 == *p,
                    [Some(V::Thing(x))] => {
                        let low = p.to_lowercase();
                        if let Some(k) = NOUNS.iter().position(|n| *n == low) {
                            self.w.nouns[k][x]
                        } else if let Some(k) = ADJS.iter().position(|n| *n == low) {
                            self.w.adjs[k][x]
                        } else if self.known_verb(p) {
                            self.events.iter().any(|e| e.0 == *p && e.1 == x)
                        } else if KINDS.contains(&p.as_str()) {
                            true
                        } else {
                            self.strange.insert(format!("word {p}"));
                            true
                        }
                    }
                    [Some(V::Thing(x)), Some(V::Thing(y))] if self.known_verb(p) => self.events.iter().any(|e| e.0 == *p && e.1 == x && e.2 == Some(y)),
                    _ => {
                        self.strange.insert(format!("use {p}/{}", args.len()));
                        false
                    }
                }
            }
        }
    }
    fn known_verb(&self, p: &str) -> bool {
        IVS.iter().chain(TVS).any(|v| cap(v.1) == p)
    }
}

fn meaning(c: &mut Case) {
    let s = sentence(&mut c.rng);
    let t = cap(&text(&s)) + ".";
    let Some(out) = c.sut_within("translate", 30, { let t = t.clone(); move || lang::compile(&t) }) else { return };
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            c.eval();
            c.count("refused", 1);
            // a joined sentence may be more than the grammar takes
            if !matches!(s, Sen::One(..) | Sen::NotEvery(..)) {
                return;
            }
            c.fail_with(&format!("refused: {}", form(&s)), format!("{t}: {:?}", e.kind), json!({"text": t}));
            return;
        }
    };
    let Some(f) = formula(&out) else {
        c.fail_with(&format!("unreadable: {}", form(&s)), format!("{t}: {out}"), json!({"text": t}));
        return;
    };
    c.eval();
    c.nontrivial(&t);
    if !matches!(s, Sen::One(..) | Sen::NotEvery(..)) {
        c.count("joined sentences", 1);
    }
    c.seen("forms of sentence", &form(&s));
    for _ in 0..40 {
        let w = world(&mut c.rng);
        let mut j = Judge::new(&w);
        let got = j.eval(&f, &mut HashMap::new());
        c.count("situations judged", 1);
        let want = w.sen(&s);
        c.count(if want { "situations where true" } else { "situations where false" }, 1);
        if !j.strange.is_empty() {
            c.fail_with(&format!("strange: {}", form(&s)), format!("{t}: {out}: {:?}", j.strange), json!({"text": t}));
            return;
        }
        if got != want {
            c.fail_with(&format!("means something else: {}", form(&s)), format!("{t}: {out}"), json!({"text": t}));
            return;
        }
    }
}

/// Sentences known to be taken for something else, each reported by itself.
fn told(c: &mut Case) {
    let (sig, s) = match c.idx {
        0 => ("a-dog-does-not-run", Sen::One(Np::Q(Det::A, 0, None), Vp::Iv(true, 0))),
        1 => ("no-dog-does-not-run", Sen::One(Np::Q(Det::No, 0, None), Vp::Iv(true, 0))),
        _ => (
            "if-every-dog-runs-then-a-cat-sleeps",
            Sen::If(Box::new(Sen::One(Np::Q(Det::Every, 0, None), Vp::Iv(false, 0))), Box::new(Sen::One(Np::Q(Det::A, 1, None), Vp::Iv(false, 1)))),
        ),
    };
    let t = cap(&text(&s)) + ".";
    c.eval();
    let Some(Ok(out)) = c.sut("translate", || lang::compile(&t)) else { return };
    let Some(f) = formula(&out) else { return };
    for _ in 0..200 {
        let w = world(&mut c.rng);
        let mut j = Judge::new(&w);
        if j.eval(&f, &mut HashMap::new()) != w.sen(&s) || !j.strange.is_empty() {
            c.fail_with(sig, format!("{t}: {out}"), json!({"text": t}));
            return;
        }
    }
}

pub fn c28(rep: &Report) {
    rep.rule("the formula printed for a plain sentence is true in exactly the small situations in which the sentence is true");
    rep.cases("meaning", scale(6000, 100000), meaning);
    rep.cases("told", 3, told);
    rep.require("joined sentences", 300);
    rep.require("situations where true", 20000);
    rep.require("situations where false", 20000);
}
