//! Random program construction: a typed grammar plus parameterised idioms that
//! resemble the shapes an optimising compiler looks for.
use crate::gen::*;
use vkit::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Iterations a hot loop may take.
    pub hot: i64,
    pub floats: bool,
    pub maps: bool,
    pub sets: bool,
    pub structs: bool,
    pub enums: bool,
    pub closures: bool,
    pub text: bool,
    pub nested: bool,
    /// Allow integers to leave the machine range.
    pub big: bool,
    /// A nested block may rebind a name of an enclosing one.
    pub hide: bool,
    /// Keep to what the ahead-of-time compiler offers.
    pub aot: bool,
    pub idioms: usize,
    pub stmts: usize,
}
impl Cfg {
    pub fn full() -> Self {
        Cfg { hot: 400, floats: true, maps: true, sets: true, structs: true, enums: true, closures: true, text: true, nested: true, big: true, hide: false, aot: false, idioms: 3, stmts: 10 }
    }
    pub fn ints() -> Self {
        Cfg { floats: false, maps: false, sets: false, structs: false, enums: false, closures: false, text: false, nested: false, big: false, ..Cfg::full() }
    }
}

#[derive(Clone, Debug)]
struct Var {
    name: String,
    ty: Ty,
    mutable: bool,
    /// not to be assigned or mutated (a loop's own counter or the collection it walks)
    frozen: bool,
}

pub struct Maker<'a> {
    pub r: &'a mut Rng,
    pub cfg: Cfg,
    pub p: Prog,
    scope: Vec<Var>,
    uid: usize,
    in_loop: usize,
    in_fn: Option<Option<Ty>>,
    weight: i64,
    /// earlier arithmetic, to be written again: shared subexpressions
    pool: Vec<E>,
}

/// The variables of plain arithmetic; None for anything else.
fn arith_vars(e: &E, out: &mut Vec<String>) -> Option<()> {
    match e {
        E::Int(_) => Some(()),
        E::Var(n) => {
            out.push(n.clone());
            Some(())
        }
        E::Bin(_, x, y) => {
            arith_vars(x, out)?;
            arith_vars(y, out)
        }
        _ => None,
    }
}

const WORDS: [&str; 12] = ["", "a", "b", "ab", "xyz", "hello", "Zed", "q9", "the end", "abcabc", "mm", "k-v"];

/// Does printing this involve a record or variant?
pub fn opaque(t: &Ty) -> bool {
    match t {
        // (a set has no promised order in a compiled program)
        Ty::Struct(_) | Ty::Enum(_) | Ty::Set(_) => true,
        Ty::Seq(t) => opaque(t),
        Ty::Map(k, v) => opaque(k) || opaque(v),
        _ => false,
    }
}

impl<'a> Maker<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> Self {
        Maker { r, cfg, p: Prog::default(), scope: vec![], uid: 0, in_loop: 0, in_fn: None, weight: 1, pool: vec![] }
    }
    pub fn fresh(&mut self, pre: &str) -> String {
        self.uid += 1;
        if self.uid % 3 == 0 {
            return format!("{pre}{}q", self.uid);
        }
        format!("{pre}{}", self.uid)
    }
    fn bindv(&mut self, name: &str, ty: Ty, mutable: bool) {
        self.scope.push(Var { name: name.into(), ty, mutable, frozen: false });
    }
    fn vars(&self, f: impl Fn(&Var) -> bool) -> Vec<Var> {
        // an inner binding hides outer ones of the same name
        let s = &self.scope;
        (0..s.len()).filter(|i| f(&s[*i]) && !s[*i + 1..].iter().any(|y| y.name == s[*i].name)).map(|i| s[i].clone()).collect()
    }
    fn pickv(&mut self, f: impl Fn(&Var) -> bool) -> Option<Var> {
        let c = self.vars(f);
        if c.is_empty() {
            None
        } else {
            Some(c[self.r.below(c.len())].clone())
        }
    }
    fn small(&mut self) -> i64 {
        self.r.range(-20, 60)
    }
    fn lit(&mut self) -> i64 {
        match self.r.below(if self.cfg.big { 12 } else { 8 }) {
            0..=4 => self.small(),
            5 => self.r.range(-1000, 100_000),
            6 => *self.r.pick(&[2, 4, 8, 16, 64, 256, 1024, 7, 10, 3]),
            7 => *self.r.pick(&[0, 1, -1]),
            8 => self.r.range(i32::MAX as i64 - 3, i32::MAX as i64 + 3),
            9 => self.r.range(i32::MIN as i64 - 3, i32::MIN as i64 + 3),
            10 => self.r.edgy_i64().max(-i64::MAX),
            _ => (1i64 << self.r.below(63)) + self.r.range(-1, 1),
        }
    }
    fn word(&mut self) -> String {
        self.r.pick(&WORDS).to_string()
    }
    fn divisor(&mut self) -> i64 {
        *self.r.pick(&[1, 2, 3, 4, 5, 7, 8, 10, 13, 16, 64, 100, 127, 641, 1000, 1000003, 1000000007, -1, -2, -3, -7, -8, -10])
    }
    pub fn simple_ty(&mut self) -> Ty {
        loop {
            match self.r.below(10) {
                0..=4 => return Ty::Int,
                5 => return Ty::Bool,
                6 if self.cfg.text => return Ty::Text,
                7 if self.cfg.floats => return Ty::Float,
                8 if self.cfg.structs && !self.p.structs.is_empty() => return Ty::Struct(self.r.below(self.p.structs.len())),
                9 if self.cfg.enums && !self.p.enums.is_empty() => return Ty::Enum(self.r.below(self.p.enums.len())),
                _ => {}
            }
        }
    }
    fn any_ty(&mut self) -> Ty {
        loop {
            match self.r.below(12) {
                0..=5 => return self.simple_ty(),
                6 | 7 => return Ty::seq(Ty::Int),
                8 if self.cfg.text => return Ty::seq(Ty::Text),
                9 if self.cfg.maps => {
                    let k = if self.cfg.text && self.r.bool() { Ty::Text } else { Ty::Int };
                    return Ty::map(k, Ty::Int);
                }
                10 if self.cfg.sets => return Ty::set(Ty::Int),
                11 if self.cfg.nested => return Ty::seq(Ty::seq(Ty::Int)),
                _ => {}
            }
        }
    }

    // ── expressions ──────────────────────────────────────────────────────────
    pub fn expr(&mut self, t: &Ty, d: usize) -> E {
        let from_var = {
            let n = self.vars(|x| &x.ty == t).len();
            n > 0 && self.r.chance(if d == 0 { 4 } else { 2 }, 5)
        };
        if from_var {
            let x = self.pickv(|x| &x.ty == t).unwrap();
            return v(&x.name);
        }
        // a field of that type
        if d > 0 && self.r.chance(1, 8) {
            if let Some((x, si, fi)) = self.pick_field(t) {
                return E::Field(b(v(&x)), si, fi);
            }
        }
        // a call
        if d > 0 && self.r.chance(1, 6) {
            let fs: Vec<Func> = self.p.funcs.iter().filter(|f| f.ret.as_ref() == Some(t)).cloned().collect();
            if !fs.is_empty() && self.weight < 200 {
                let f = fs[self.r.below(fs.len())].clone();
                let args = f.params.iter().map(|(_, t)| self.arg(t)).collect();
                return E::Call(f.name, args);
            }
        }
        match t {
            Ty::Int => self.int_expr(d),
            Ty::Bool => self.bool_expr(d),
            Ty::Text => self.text_expr(d),
            Ty::Float => self.float_expr(d),
            Ty::Seq(e) => {
                if d > 0 && self.r.chance(1, 5) {
                    let (x, y) = (self.expr(t, d - 1), self.expr(t, d - 1));
                    return bin(Op::Followed, x, y);
                }
                let n = self.r.below(5);
                if n == 0 {
                    return E::NewSeq((**e).clone());
                }
                E::List((0..n).map(|_| self.expr(e, d.saturating_sub(1).min(1))).collect())
            }
            Ty::Map(k, w) => E::NewMap((**k).clone(), (**w).clone()),
            Ty::Set(e) => {
                if d > 0 && self.vars(|x| &x.ty == t).len() >= 2 {
                    let (x, y) = (self.pickv(|x| &x.ty == t).unwrap(), self.pickv(|x| &x.ty == t).unwrap());
                    let o = *self.r.pick(&[Op::Union, Op::Inter, Op::Diff]);
                    return bin(o, v(&x.name), v(&y.name));
                }
                E::NewSet((**e).clone())
            }
            Ty::Struct(i) => {
                let fs = self.p.structs[*i].fields.clone();
                E::New(*i, fs.iter().map(|(_, t)| self.expr(t, 0)).collect())
            }
            Ty::Enum(i) => {
                let vs = self.p.enums[*i].variants.clone();
                let recursive = |fs: &Vec<(String, Ty)>| fs.iter().any(|(_, t)| t == &Ty::Enum(*i));
                let ok: Vec<usize> =
                    (0..vs.len()).filter(|k| d > 0 || !recursive(&vs[*k].1)).collect();
                let k = ok[self.r.below(ok.len())];
                let args = vs[k].1.iter().map(|(_, t)| self.expr(t, d.saturating_sub(1))).collect();
                E::Variant(*i, k, args)
            }
            Ty::Fn(n) => {
                let ps: Vec<String> = (0..*n).map(|_| self.fresh("w")).collect();
                let keep = self.scope.len();
                for p in &ps {
                    self.bindv(p, Ty::Int, false);
                }
                let body = self.arith(2);
                self.scope.truncate(keep);
                E::Closure(ps, b(body))
            }
        }
    }
    fn arg(&mut self, t: &Ty) -> E {
        match t {
            Ty::Int if self.r.chance(1, 2) => {
                let n = self.r.range(0, 12);
                int(n)
            }
            _ => self.expr(t, 1),
        }
    }
    fn pick_field(&mut self, t: &Ty) -> Option<(String, usize, usize)> {
        let mut c = vec![];
        for x in &self.scope {
            if let Ty::Struct(si) = &x.ty {
                for (fi, f) in self.p.structs[*si].fields.iter().enumerate() {
                    if &f.1 == t {
                        c.push((x.name.clone(), *si, fi));
                    }
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            Some(c[self.r.below(c.len())].clone())
        }
    }
    /// Arithmetic over the integer variables in scope, division only by constants.
    pub fn arith(&mut self, d: usize) -> E {
        if d > 0 && !self.pool.is_empty() && self.r.chance(1, 6) {
            let e = self.pool[self.r.below(self.pool.len())].clone();
            let mut names = vec![];
            let ok = arith_vars(&e, &mut names).is_some();
            if ok && names.iter().all(|n| !self.vars(|x| &x.name == n && x.ty == Ty::Int).is_empty()) {
                return e;
            }
        }
        let e = self.arith_new(d);
        if matches!(e, E::Bin(..)) && arith_vars(&e, &mut vec![]).is_some() {
            if self.pool.len() >= 12 {
                let k = self.r.below(self.pool.len());
                self.pool.swap_remove(k);
            }
            self.pool.push(e.clone());
        }
        e
    }
    fn arith_new(&mut self, d: usize) -> E {
        if d == 0 || self.r.chance(1, 4) {
            return match self.pickv(|x| x.ty == Ty::Int) {
                Some(x) if self.r.chance(3, 4) => v(&x.name),
                _ => int(self.lit()),
            };
        }
        let x = self.arith(d - 1);
        match self.r.below(13) {
            0..=3 => add(x, self.arith(d - 1)),
            4 | 5 => sub(x, self.arith(d - 1)),
            6 | 7 => {
                let y = if self.cfg.big && self.r.chance(1, 3) { self.arith(d - 1) } else { int(self.small()) };
                mul(x, y)
            }
            8 => bin(Op::Div, x, int(self.divisor())),
            9 | 10 => modulo(x, int(self.divisor())),
            11 => bin(Op::FloorDiv, x, int(self.divisor())),
            _ => {
                let m = modulo(x, int(self.r.range(2, 1 << 20)));
                match self.r.below(5) {
                    0 => bin(Op::BitAnd, m, int(self.r.range(0, 4095))),
                    1 => bin(Op::BitOr, m, int(self.r.range(0, 4095))),
                    2 => bin(Op::BitXor, m, int(self.r.range(-4095, 4095))),
                    3 => bin(Op::Shl, m, int(self.r.range(0, 12))),
                    _ => bin(Op::Shr, m, int(self.r.range(0, 12))),
                }
            }
        }
    }
    fn int_expr(&mut self, d: usize) -> E {
        if d == 0 {
            return self.arith(0);
        }
        match self.r.below(12) {
            0..=6 => self.arith(d),
            7 => match self.pickv(|x| matches!(x.ty, Ty::Seq(_) | Ty::Map(..) | Ty::Set(_))) {
                Some(x) => len(v(&x.name)),
                None => self.arith(d),
            },
            8 | 9 | 11 if self.cfg.aot => self.arith(d),
            8 => {
                let (x, y) = (modulo(self.arith(d - 1), int(1000)), int(self.small()));
                let f = *self.r.pick(&["min", "max"]);
                E::Builtin(f, vec![x, y])
            }
            9 => {
                let x = self.arith(d - 1);
                E::Builtin("abs", vec![x])
            }
            10 => match self.pickv(|x| matches!(x.ty, Ty::Fn(_))) {
                Some(x) => {
                    let n = if let Ty::Fn(n) = x.ty { n } else { 0 };
                    let a = (0..n).map(|_| self.arith(1)).collect();
                    E::Call(x.name, a)
                }
                None => self.arith(d),
            },
            _ => {
                let x = modulo(self.arith(d - 1), int(self.r.range(2, 1 << 30)));
                E::Builtin("count_ones", vec![x])
            }
        }
    }
    pub fn bool_expr(&mut self, d: usize) -> E {
        if d == 0 {
            return E::Bool(self.r.bool());
        }
        match self.r.below(12) {
            0..=4 => {
                let o = *self.r.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                let (x, y) = (self.arith(d), self.arith(d - 1));
                bin(o, x, y)
            }
            5 | 6 => {
                let o = *self.r.pick(&[Op::And, Op::Or]);
                let (x, y) = (self.bool_expr(d - 1), self.bool_expr(d - 1));
                bin(o, x, y)
            }
            7 => {
                let x = self.bool_expr(d - 1);
                E::Not(b(x))
            }
            8 => match self.pickv(|x| matches!(&x.ty, Ty::Seq(t) | Ty::Set(t) | Ty::Map(t, _) if **t == Ty::Int)) {
                Some(x) => {
                    let y = self.arith(1);
                    E::Contains(b(v(&x.name)), b(y))
                }
                None => self.bool_expr(d - 1),
            },
            9 if self.cfg.text => {
                let o = *self.r.pick(&[Op::Eq, Op::Ne]);
                let (x, y) = (self.expr(&Ty::Text, 1), self.expr(&Ty::Text, 0));
                bin(o, x, y)
            }
            10 if self.cfg.floats => {
                let o = *self.r.pick(&[Op::Lt, Op::Gt, Op::Le, Op::Ge]);
                let (x, y) = (self.float_expr(1), self.float_expr(1));
                bin(o, x, y)
            }
            _ => {
                let m = self.r.range(2, 7);
                bin(Op::Eq, modulo(self.arith(d - 1), int(m)), int(0))
            }
        }
    }
    fn text_expr(&mut self, d: usize) -> E {
        if d == 0 {
            return E::Text(self.word());
        }
        match self.r.below(4) {
            0 => E::Text(self.word()),
            1 | 2 => {
                let y = if self.r.bool() { self.expr(&Ty::Text, d - 1) } else { self.expr(&Ty::Int, d - 1) };
                bin(Op::Concat, E::Text(self.word()), y)
            }
            _ => {
                let n = self.r.range(1, 3);
                let parts = (0..n)
                    .map(|_| {
                        let t = if self.r.chance(2, 3) { Ty::Int } else { Ty::Text };
                        let x = self.pickv(|x| x.ty == t).map(|x| v(&x.name));
                        (self.word(), x)
                    })
                    .collect();
                E::Interp(parts)
            }
        }
    }
    fn float_expr(&mut self, d: usize) -> E {
        if d == 0 {
            return match self.pickv(|x| x.ty == Ty::Float) {
                Some(x) if self.r.bool() => v(&x.name),
                _ => E::Float(*self.r.pick(&[0.5, 1.0, 2.0, 1.5, 3.25, 10.0, 0.1, 100.0, 0.001, 7.0])),
            };
        }
        let (x, y) = (self.float_expr(d - 1), self.float_expr(d - 1));
        let o = *self.r.pick(&[Op::Add, Op::Sub, Op::Mul]);
        bin(o, x, y)
    }

    // ── statements ───────────────────────────────────────────────────────────
    fn scoped(&mut self, f: impl FnOnce(&mut Self) -> Vec<S>) -> Vec<S> {
        let n = self.scope.len();
        let out = f(self);
        self.scope.truncate(n);
        out
    }
    pub fn block(&mut self, n: usize, d: usize) -> Vec<S> {
        let mut out = vec![];
        for _ in 0..n.max(1) {
            self.stmt(d, &mut out);
        }
        out
    }
    fn small_block(&mut self, d: usize) -> Vec<S> {
        let n = 1 + self.r.below(3);
        self.scoped(|m| m.block(n, d))
    }
    /// A block that may begin by binding a name already in use outside.
    fn hiding_block(&mut self, d: usize) -> Vec<S> {
        let n = 1 + self.r.below(3);
        let hide = self.r.chance(1, 5) && self.cfg.hide;
        self.scoped(|m| {
            let mut out = vec![];
            if hide {
                if let Some(x) = m.pickv(|x| !x.frozen && matches!(x.ty, Ty::Int | Ty::Text | Ty::Bool)) {
                    let e = m.expr(&x.ty, 2);
                    let mutable = m.r.bool();
                    out.push(S::Let(x.name.clone(), mutable, None, e));
                    m.bindv(&x.name, x.ty, mutable);
                }
            }
            out.extend(m.block(n, d));
            out
        })
    }
    /// `name` as a mutable, unfrozen variable satisfying `f`.
    fn target(&mut self, f: impl Fn(&Ty) -> bool) -> Option<Var> {
        self.pickv(|x| x.mutable && !x.frozen && f(&x.ty))
    }
    fn stmt(&mut self, d: usize, out: &mut Vec<S>) {
        match self.r.below(24) {
            0..=3 => {
                let t = self.any_ty();
                let e = self.expr(&t, 2);
                let n = self.fresh("v");
                let mutable = self.r.chance(3, 4);
                let ann = if self.r.chance(1, 6) && !matches!(t, Ty::Enum(_)) { Some(t.clone()) } else { None };
                out.push(S::Let(n.clone(), mutable, ann, e));
                self.bindv(&n, t, mutable);
            }
            4..=7 => {
                if let Some(x) = self.target(|t| !matches!(t, Ty::Fn(_) | Ty::Map(..))) {
                    let e = self.expr(&x.ty, 2);
                    // keep growth in check inside loops
                    let e = match x.ty {
                        Ty::Int if self.in_loop > 0 && self.r.chance(3, 4) => modulo(e, int(*self.r.pick(&[97, 1009, 65536, 1000003, 2147483647, 1 << 40]))),
                        Ty::Text | Ty::Seq(_) | Ty::Float if self.in_loop > 0 => return self.stmt_push(out),
                        _ => e,
                    };
                    out.push(S::Set(x.name, e));
                }
            }
            8 | 9 => self.stmt_push(out),
            10 => self.stmt_index_write(out),
            11 => self.stmt_index_read(out),
            12 => {
                if let Some(x) = self.target(|t| matches!(t, Ty::Map(..))) {
                    if let Ty::Map(k, _) = &x.ty {
                        let ke = match **k {
                            Ty::Int => {
                                let m = *self.r.pick(&[3, 7, 20, 50]);
                                modulo(self.arith(1), int(m))
                            }
                            _ => E::Text(self.word()),
                        };
                        if self.r.chance(1, 5) {
                            out.push(S::RemoveFrom(ke, x.name));
                        } else if self.r.bool() {
                            let w = self.arith(1);
                            out.push(S::SetIdx(x.name, ke, w));
                        } else {
                            let kn = self.fresh("k");
                            out.push(let_(&kn, ke));
                            self.bindv(&kn, (**k).clone(), false);
                            let w = modulo(add(idx(v(&x.name), v(&kn)), self.arith(1)), int(10007));
                            let w2 = self.arith(1);
                            out.push(if_else(
                                E::Contains(b(v(&x.name)), b(v(&kn))),
                                vec![S::SetIdx(x.name.clone(), v(&kn), w)],
                                vec![S::SetIdx(x.name.clone(), v(&kn), w2)],
                            ));
                        }
                    }
                }
            }
            13 => {
                if let Some(x) = self.target(|t| matches!(t, Ty::Set(_))) {
                    let m = *self.r.pick(&[5, 12, 40]);
                    let e = modulo(self.arith(1), int(m));
                    if self.r.chance(1, 4) {
                        out.push(S::RemoveFrom(e, x.name));
                    } else {
                        out.push(S::AddTo(e, x.name));
                    }
                }
            }
            14 => {
                if let Some(x) = self.target(|t| matches!(t, Ty::Struct(_))) {
                    if let Ty::Struct(si) = x.ty {
                        let fi = self.r.below(self.p.structs[si].fields.len());
                        let ft = self.p.structs[si].fields[fi].1.clone();
                        let e = self.expr(&ft, 1);
                        let e = if ft == Ty::Int && self.in_loop > 0 { modulo(e, int(9973)) } else { e };
                        if ft == Ty::Int || self.in_loop == 0 {
                            out.push(S::SetField(x.name, si, fi, e));
                        }
                    }
                }
            }
            15 | 16 if d > 0 => {
                let mut arms = vec![];
                for _ in 0..1 + self.r.below(2) {
                    let c = self.bool_expr(2);
                    let blk = self.hiding_block(d - 1);
                    arms.push((c, blk));
                }
                let els = if self.r.bool() { Some(self.small_block(d - 1)) } else { None };
                out.push(S::If(arms, els));
            }
            17 | 18 if d > 0 && self.weight < 60 => self.stmt_loop(d, out),
            19 if d > 0 && self.weight < 60 => {
                let aot = self.cfg.aot;
                if let Some(x) = self.pickv(|x| matches!(x.ty, Ty::Seq(_)) || (!aot && matches!(x.ty, Ty::Set(_)))) {
                    let et = match &x.ty {
                        Ty::Seq(t) | Ty::Set(t) => (**t).clone(),
                        _ => Ty::Int,
                    };
                    let n = self.fresh("x");
                    let body = self.looped(8, |m| {
                        m.bindv(&n, et, false);
                        m.freeze(&x.name, true);
                        let k = 1 + m.r.below(2);
                        let bl = m.block(k, d - 1);
                        m.freeze(&x.name, false);
                        bl
                    });
                    out.push(S::ForIn(n, v(&x.name), body));
                }
            }
            20 if d > 0 => {
                if let Some(x) = self.pickv(|x| matches!(x.ty, Ty::Enum(_))) {
                    self.stmt_inspect(&x, d, out);
                }
            }
            21 if d > 0 && self.weight < 60 => {
                if let Some(x) = self.pickv(|x| matches!(x.ty, Ty::Map(..))) {
                    let (kt, vt) = if let Ty::Map(k, w) = &x.ty { ((**k).clone(), (**w).clone()) } else { (Ty::Int, Ty::Int) };
                    let (k, w) = (self.fresh("k"), self.fresh("w"));
                    let body = self.looped(8, |m| {
                        m.bindv(&k, kt, false);
                        m.bindv(&w, vt, false);
                        m.freeze(&x.name, true);
                        let n = 1 + m.r.below(2);
                        let bl = m.block(n, d - 1);
                        m.freeze(&x.name, false);
                        bl
                    });
                    out.push(S::ForPair(k, w, v(&x.name), body));
                }
            }
            _ => {
                if self.weight < 30 {
                    let aot = self.cfg.aot;
                    if let Some(x) = self.pickv(|x| !matches!(x.ty, Ty::Fn(_)) && !(aot && opaque(&x.ty))) {
                        out.push(show(v(&x.name)));
                    }
                }
            }
        }
        if out.is_empty() {
            let n = self.fresh("v");
            let e = self.arith(1);
            out.push(letm(&n, e));
            self.bindv(&n, Ty::Int, true);
        }
    }
    fn freeze(&mut self, n: &str, on: bool) {
        if let Some(x) = self.scope.iter_mut().rev().find(|x| x.name == n) {
            x.frozen = on;
        }
    }
    fn looped(&mut self, w: i64, f: impl FnOnce(&mut Self) -> Vec<S>) -> Vec<S> {
        let keep = self.weight;
        self.weight *= w.max(1);
        self.in_loop += 1;
        let r = self.scoped(f);
        self.in_loop -= 1;
        self.weight = keep;
        r
    }
    fn stmt_push(&mut self, out: &mut Vec<S>) {
        if let Some(x) = self.target(|t| matches!(t, Ty::Seq(_))) {
            if let Ty::Seq(t) = &x.ty {
                if self.r.chance(1, 6) {
                    let c = bin(Op::Gt, len(v(&x.name)), int(0));
                    if self.r.bool() && **t == Ty::Int {
                        let n = self.fresh("p");
                        out.push(if_(c, vec![S::Pop(x.name.clone(), Some(n.clone())), show(v(&n))]));
                    } else {
                        out.push(if_(c, vec![S::Pop(x.name.clone(), None)]));
                    }
                } else {
                    let e = self.expr(&t.clone(), 1);
                    out.push(S::Push(e, x.name));
                }
            }
        }
    }
    fn safe_index(&mut self, name: &str) -> E {
        let m = self.arith(1);
        if self.cfg.aot {
            return add(modulo(add(modulo(m, int(1000)), int(2000)), len(v(name))), int(1));
        }
        add(modulo(E::Builtin("abs", vec![m]), len(v(name))), int(1))
    }
    fn stmt_index_write(&mut self, out: &mut Vec<S>) {
        if let Some(x) = self.target(|t| matches!(t, Ty::Seq(_))) {
            let et = if let Ty::Seq(t) = &x.ty { (**t).clone() } else { Ty::Int };
            let i = self.safe_index(&x.name);
            let e = self.expr(&et, 1);
            let e = if et == Ty::Int && self.in_loop > 0 { modulo(e, int(10007)) } else { e };
            out.push(if_(bin(Op::Gt, len(v(&x.name)), int(0)), vec![S::SetIdx(x.name, i, e)]));
        }
    }
    fn stmt_index_read(&mut self, out: &mut Vec<S>) {
        if let Some(x) = self.pickv(|x| x.ty == Ty::seq(Ty::Int)) {
            if let Some(t) = self.target(|t| *t == Ty::Int) {
                let i = self.safe_index(&x.name);
                let e = if self.r.chance(1, 12) { idx(v(&x.name), int(self.r.range(1, 6))) } else { idx(v(&x.name), i) };
                let e = modulo(add(v(&t.name), e), int(1000003));
                out.push(if_(bin(Op::Gt, len(v(&x.name)), int(0)), vec![S::Set(t.name, e)]));
            }
        }
    }
    fn stmt_inspect(&mut self, x: &Var, d: usize, out: &mut Vec<S>) {
        if let Ty::Enum(en) = x.ty {
            let vs = self.p.enums[en].variants.clone();
            let mut arms = vec![];
            let skip = if self.r.bool() { self.r.below(vs.len()) } else { usize::MAX };
            for (k, (_, fs)) in vs.iter().enumerate() {
                if k == skip {
                    continue;
                }
                let names: Vec<String> = fs.iter().map(|_| self.fresh("f")).collect();
                let body = self.scoped(|m| {
                    for (n, (_, t)) in names.iter().zip(fs) {
                        m.bindv(n, t.clone(), false);
                    }
                    let n = 1 + m.r.below(2);
                    m.block(n, d - 1)
                });
                arms.push((k, names, body));
            }
            let els = if skip != usize::MAX { Some(self.small_block(d - 1)) } else { None };
            out.push(S::Inspect(v(&x.name), en, arms, els));
        }
    }
    fn trip(&mut self) -> i64 {
        if self.weight > 1 {
            return self.r.range(0, 6);
        }
        match self.r.below(6) {
            0 => self.r.range(-2, 2),
            1..=3 => self.r.range(2, 20),
            _ => self.r.range(20, self.cfg.hot.max(21)),
        }
    }
    fn stmt_loop(&mut self, d: usize, out: &mut Vec<S>) {
        let n = self.trip();
        let i = self.fresh("i");
        let w = n.max(1);
        if self.r.bool() {
            let step = if self.r.chance(1, 5) { self.r.range(2, 4) } else { 1 };
            out.push(letm(&i, int(self.r.range(0, 1))));
            self.bindv(&i, Ty::Int, true);
            self.freeze(&i, true);
            let brk = self.r.chance(1, 6);
            let mut body = self.looped(w, |m| {
                let k = 1 + m.r.below(3);
                m.block(k, d - 1)
            });
            if brk {
                let k = self.r.range(1, n.max(2));
                body.push(if_(bin(Op::Eq, v(&i), int(k)), vec![S::Break]));
            }
            body.push(incr(&i, step));
            let o = *self.r.pick(&[Op::Lt, Op::Le]);
            out.push(while_(bin(o, v(&i), int(n)), body));
            self.freeze(&i, false);
        } else {
            let body = self.looped(w, |m| {
                m.bindv(&i, Ty::Int, false);
                let k = 1 + m.r.below(3);
                m.block(k, d - 1)
            });
            let lo = self.r.range(0, 2);
            out.push(S::ForRange(i, int(lo), int(n), body));
        }
    }

    // ── whole programs ───────────────────────────────────────────────────────
    pub fn types(&mut self) {
        if self.cfg.structs && self.r.chance(2, 3) {
            let mut fields = vec![("x".to_string(), Ty::Int), ("y".to_string(), Ty::Int)];
            if self.cfg.text && self.r.bool() {
                fields.push(("label".into(), Ty::Text));
            }
            if self.r.chance(1, 3) {
                fields.push(("flag".into(), Ty::Bool));
            }
            if self.cfg.floats && !self.cfg.aot && self.r.chance(1, 3) {
                fields.push(("mass".into(), Ty::Float));
            }
            self.p.structs.push(StructDef { name: "Point".into(), fields });
        }
        if self.cfg.enums && self.r.chance(2, 3) {
            let mut variants = vec![
                ("Circle".to_string(), vec![("radius".to_string(), Ty::Int)]),
                ("Rect".into(), vec![("w".into(), Ty::Int), ("h".into(), Ty::Int)]),
                ("Dot".into(), vec![]),
            ];
            if self.cfg.text && self.r.bool() {
                variants.push(("Tagged".into(), vec![("tag".into(), Ty::Text)]));
            }
            self.p.enums.push(EnumDef { name: "Shape".into(), variants });
        }
    }
    pub fn function(&mut self) {
        let name = self.fresh("fun");
        let np = 1 + self.r.below(3);
        let mut params = vec![];
        for _ in 0..np {
            let n = self.fresh("q");
            let t = if self.r.chance(3, 4) { Ty::Int } else { self.any_ty() };
            params.push((n, t));
        }
        let retty = if self.r.chance(3, 4) { Ty::Int } else { self.any_ty() };
        let keep = std::mem::take(&mut self.scope);
        for (n, t) in &params {
            self.bindv(n, t.clone(), false);
        }
        self.in_fn = Some(Some(retty.clone()));
        let w = self.weight;
        self.weight = 20;
        let n = 1 + self.r.below(4);
        let mut body = self.block(n, 2);
        if self.r.chance(1, 2) {
            let c = self.bool_expr(1);
            let e = self.expr(&retty, 1);
            body.push(if_(c, vec![ret(e)]));
        }
        let e = self.expr(&retty, 2);
        body.push(ret(e));
        self.weight = w;
        self.in_fn = None;
        self.scope = keep;
        self.p.funcs.push(Func { name, params, ret: Some(retty), body });
    }
    pub fn program(mut self) -> Prog {
        self.types();
        for _ in 0..self.r.below(4) {
            self.function();
        }
        let mut main = vec![];
        for k in 0..3 {
            let t = if k == 0 { Ty::Int } else { self.any_ty() };
            let e = self.expr(&t, 1);
            let n = self.fresh("v");
            main.push(letm(&n, e));
            self.bindv(&n, t, true);
        }
        if self.cfg.closures && self.r.chance(1, 2) {
            let n = self.fresh("g");
            let ar = 1 + self.r.below(2);
            let e = self.expr(&Ty::Fn(ar), 1);
            main.push(let_(&n, e));
            self.bindv(&n, Ty::Fn(ar), false);
        }
        let (mut left_i, mut left_s) = (self.r.below(self.cfg.idioms + 1), 1 + self.r.below(self.cfg.stmts.max(1)));
        while left_i + left_s > 0 {
            if self.r.below(left_i + left_s) < left_i {
                left_i -= 1;
                crate::idioms::any(&mut self, &mut main);
            } else {
                left_s -= 1;
                self.stmt(3, &mut main);
            }
        }
        let aot = self.cfg.aot;
        for x in self.vars(|x| !matches!(x.ty, Ty::Fn(_)) && !(aot && opaque(&x.ty))) {
            main.push(show(v(&x.name)));
        }
        self.p.main = main;
        self.p
    }
    /// Declare something an idiom made, so later statements can use it.
    pub fn export(&mut self, n: &str, t: Ty, mutable: bool) {
        self.bindv(n, t, mutable);
    }
}

/// A program with its reference outcome; programs the reference does not decide
/// are regenerated, and error-ending programs are thinned out.
pub fn program(r: &mut Rng, cfg: &Cfg, errors: bool) -> (Prog, Expect, String) {
    loop {
        let seed = r.u64();
        let mut g = Rng::new(seed);
        let p = Maker::new(&mut g, cfg.clone()).program();
        let Some(x) = expect(&p, 300_000) else { continue };
        if x.error.is_some() && (!errors || !r.chance(1, 3)) {
            continue;
        }
        if !cfg.big && x.big {
            continue;
        }
        if x.lines.is_empty() || x.lines.iter().map(|l| l.len()).sum::<usize>() > 60_000 {
            continue;
        }
        let text = print(&p, Rng::new(seed ^ 1));
        return (p, x, text);
    }
}
