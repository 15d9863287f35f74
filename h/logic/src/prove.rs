//! Whatever is reported as proven must hold in every interpretation we can build (C20).

use crate::form::{and, arith, cst, iff, imp, not, or, pred};
use logicaffeine_kernel as k;
use logicaffeine_proof as p;
use p::tactic::ProofState;
use p::verify::{self, VerifiedProof};
use p::{DerivationTree, InferenceRule as R, ProofExpr as E, ProofTerm as T};
use serde_json::json;
use std::collections::BTreeMap;
use vkit::{scale, Case, Report, Rng};

const CONSTS: [&str; 3] = ["Alice", "Bob", "Carol"];
const UNARY: [&str; 3] = ["tall", "wise", "kind"];
const BINARY: [&str; 2] = ["likes", "knows"];
const FUN: &str = "mother";

fn var(s: &str) -> T {
    T::Variable(s.to_string())
}
fn all(x: &str, b: E) -> E {
    E::ForAll { variable: x.to_string(), body: Box::new(b) }
}
fn some(x: &str, b: E) -> E {
    E::Exists { variable: x.to_string(), body: Box::new(b) }
}

/// What a formula may mention.
#[derive(Clone, Copy)]
struct Sig {
    consts: usize,
    unary: usize,
    binary: usize,
    fun: bool,
    eq: bool,
    quant: bool,
}

/// Kept small: a sequent that does not follow makes the search try every combination of
/// ground atoms to some depth.
fn sig(r: &mut Rng) -> Sig {
    let quant = r.chance(3, 4);
    loop {
        let s = Sig {
            consts: 1 + r.below(3),
            unary: 1 + r.below(3),
            binary: r.below(2) + (r.chance(1, 5) as usize),
            fun: r.chance(1, 4),
            eq: r.chance(1, 3),
            quant,
        };
        let things = s.consts * if s.fun { 2 } else { 1 };
        let ground = s.unary * things + s.binary * things * things;
        if ground <= if quant { 4 } else { 8 } {
            return s;
        }
    }
}

fn term(r: &mut Rng, s: Sig, bound: &[String], d: usize) -> T {
    if s.fun && d > 0 && r.chance(1, 4) {
        return T::Function(FUN.to_string(), vec![term(r, s, bound, d - 1)]);
    }
    if !bound.is_empty() && r.chance(3, 4) {
        return var(&bound[r.below(bound.len())]);
    }
    cst(CONSTS[r.below(s.consts)])
}

fn leaf(r: &mut Rng, s: Sig, bound: &[String]) -> E {
    if s.eq && r.chance(1, 4) {
        return E::Identity(term(r, s, bound, 1), term(r, s, bound, 1));
    }
    if s.binary > 0 && r.chance(1, 2) {
        return pred(BINARY[r.below(s.binary)], vec![term(r, s, bound, 1), term(r, s, bound, 1)]);
    }
    pred(UNARY[r.below(s.unary)], vec![term(r, s, bound, 1)])
}

fn formula(r: &mut Rng, s: Sig, bound: &mut Vec<String>, d: usize) -> E {
    if d == 0 {
        let l = leaf(r, s, bound);
        return if r.chance(1, 5) { not(l) } else { l };
    }
    match r.below(if s.quant { 11 } else { 7 }) {
        0 => and(formula(r, s, bound, d - 1), formula(r, s, bound, d - 1)),
        1 => or(formula(r, s, bound, d - 1), formula(r, s, bound, d - 1)),
        2 | 3 => imp(formula(r, s, bound, d - 1), formula(r, s, bound, d - 1)),
        4 => not(formula(r, s, bound, d - 1)),
        5 => iff(formula(r, s, bound, d - 1), formula(r, s, bound, d - 1)),
        6 => leaf(r, s, bound),
        n => {
            let x = if r.chance(1, 8) { "x".to_string() } else { ["x", "y", "z", "w"][bound.len().min(3)].to_string() };
            bound.push(x.clone());
            let b = formula(r, s, bound, d - 1);
            bound.pop();
            if n < 10 {
                all(&x, b)
            } else {
                some(&x, b)
            }
        }
    }
}

struct Model {
    n: usize,
    consts: [usize; 3],
    unary: [u32; 3],
    binary: [u32; 2],
    fun: Vec<usize>,
}

impl Model {
    fn random(r: &mut Rng, n: usize) -> Model {
        Model {
            n,
            consts: std::array::from_fn(|_| r.below(n)),
            unary: std::array::from_fn(|_| r.u32()),
            binary: std::array::from_fn(|_| match r.below(4) {
                0 => 0,
                1 => r.u32() & r.u32(),
                2 => r.u32() | r.u32(),
                _ => r.u32(),
            }),
            fun: (0..n).map(|_| r.below(n)).collect(),
        }
    }
    fn term(&self, t: &T, env: &[(String, usize)]) -> Option<usize> {
        match t {
            T::Constant(s) | T::Variable(s) => {
                if let Some((_, v)) = env.iter().rev().find(|(k, _)| k == s) {
                    return Some(*v);
                }
                CONSTS.iter().position(|c| c == s).map(|i| self.consts[i])
            }
            T::Function(f, a) if f == FUN && a.len() == 1 => self.term(&a[0], env).map(|v| self.fun[v]),
            _ => None,
        }
    }
    fn holds(&self, e: &E, env: &mut Vec<(String, usize)>) -> Option<bool> {
        Some(match e {
            E::Predicate { name, args, .. } => {
                let v: Option<Vec<usize>> = args.iter().map(|a| self.term(a, env)).collect();
                let v = v?;
                if v.len() == 1 {
                    self.unary[UNARY.iter().position(|u| u == name)?] >> v[0] & 1 == 1
                } else {
                    self.binary[BINARY.iter().position(|u| u == name)?] >> (v[0] * self.n + v[1]) & 1 == 1
                }
            }
            E::Identity(a, b) => self.term(a, env)? == self.term(b, env)?,
            E::And(a, b) => self.holds(a, env)? && self.holds(b, env)?,
            E::Or(a, b) => self.holds(a, env)? || self.holds(b, env)?,
            E::Implies(a, b) => !self.holds(a, env)? || self.holds(b, env)?,
            E::Iff(a, b) => self.holds(a, env)? == self.holds(b, env)?,
            E::Not(a) => !self.holds(a, env)?,
            E::ForAll { variable, body } | E::Exists { variable, body } => {
                let every = matches!(e, E::ForAll { .. });
                let mut out = every;
                for v in 0..self.n {
                    env.push((variable.clone(), v));
                    let h = self.holds(body, env);
                    env.pop();
                    if h? != every {
                        out = !every;
                        break;
                    }
                }
                out
            }
            _ => return None,
        })
    }
    fn show(&self) -> String {
        format!("n={} consts={:?} unary={:?} binary={:?} fun={:?}", self.n, self.consts, self.unary.map(|u| u & ((1 << self.n) - 1)), self.binary, self.fun)
    }
}

/// Look for an interpretation making all of `yes` true and `no` false.
fn countermodel(r: &mut Rng, s: Sig, yes: &[E], no: Option<&E>) -> Option<Model> {
    let good = |m: &Model| {
        let mut env = Vec::new();
        no.map_or(true, |g| m.holds(g, &mut env) == Some(false)) && yes.iter().all(|p| m.holds(p, &mut env) == Some(true))
    };
    // All interpretations over one and two individuals, when there are not too many.
    for n in 1..=2usize {
        let bits = s.unary * n + s.binary * n * n + (n - 1) * (s.consts + if s.fun { n } else { 0 });
        if bits > 14 {
            continue;
        }
        for code in 0..1u32 << bits {
            let mut c = code;
            let mut take = |k: usize| {
                let v = c & ((1 << k) - 1);
                c >>= k;
                v
            };
            let mut m = Model { n, consts: [0; 3], unary: [0; 3], binary: [0; 2], fun: vec![0; n] };
            for i in 0..s.unary {
                m.unary[i] = take(n);
            }
            for i in 0..s.binary {
                m.binary[i] = take(n * n);
            }
            if n == 2 {
                for i in 0..s.consts {
                    m.consts[i] = take(1) as usize;
                }
                if s.fun {
                    for i in 0..n {
                        m.fun[i] = take(1) as usize;
                    }
                }
            }
            if good(&m) {
                return Some(m);
            }
        }
    }
    for i in 0..1200 {
        let m = Model::random(r, 2 + i % 3);
        if good(&m) {
            return Some(m);
        }
    }
    None
}

fn seq(prem: &[E], goal: &E) -> String {
    let s = format!("{:?} |- {goal}", prem.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    if std::env::var("VK_SHOW").is_ok() {
        eprintln!("{s}");
    }
    s
}

/// Everything a positive report promises.
fn judge(c: &mut Case, who: &str, s: Sig, prem: &[E], goal: &E, v: &VerifiedProof) {
    c.eval();
    if !v.verified {
        c.count("not_proven", 1);
        return;
    }
    c.count("proven", 1);
    c.count(&format!("proven:{who}"), 1);
    if let Some(m) = countermodel(&mut c.rng, s, prem, Some(goal)) {
        c.fail(&format!("unsound:{who}"), format!("{who} reports proven, yet {} refutes {}", m.show(), seq(prem, goal)));
    }
    let Some(t) = &v.proof_term else {
        c.fail(&format!("no-term:{who}"), format!("proven without a proof term: {}", seq(prem, goal)));
        return;
    };
    // The proof object must check on its own, and only for what it proves.
    match k::infer_type(&v.kernel_ctx, t) {
        Ok(_) => c.count("terms_rechecked", 1),
        Err(e) => c.fail(&format!("ill-typed:{who}"), format!("proof term of {} does not type-check: {e}", seq(prem, goal))),
    }
    if let k::DoubleCheck::Disagree(w) = k::double_check(&v.kernel_ctx, t) {
        c.fail(&format!("recheck:{who}"), format!("independent check rejects {}: {w}", seq(prem, goal)));
    }
}

/// Premises with a goal that has a decent chance of following.
fn sequent(r: &mut Rng, s: Sig) -> (Vec<E>, E) {
    let n = r.below(4);
    let mut prem: Vec<E> = (0..n)
        .map(|_| {
            let d = r.below(3);
            formula(r, s, &mut vec![], d)
        })
        .collect();
    let d = r.below(3);
    let mut goal = formula(r, s, &mut vec![], d);
    match r.below(12) {
        0 if !prem.is_empty() => goal = prem[r.below(prem.len())].clone(),
        1 => {
            let a = formula(r, s, &mut vec![], 1);
            prem.push(imp(a.clone(), goal.clone()));
            if r.chance(3, 4) {
                prem.push(a);
            }
        }
        2 => {
            // Universal rule with an instance.
            let x = leaf(r, s, &["x".to_string()]);
            let y = leaf(r, s, &["x".to_string()]);
            let who = CONSTS[r.below(s.consts)];
            prem.push(all("x", imp(x.clone(), y.clone())));
            let fact = subst(&x, "x", &cst(if r.chance(3, 4) { who } else { CONSTS[r.below(s.consts)] }));
            if r.chance(3, 4) {
                prem.push(fact);
            } else {
                prem.push(not(subst(&y, "x", &cst(who))));
                goal = not(subst(&x, "x", &cst(who)));
                return (prem, goal);
            }
            goal = subst(&y, "x", &cst(who));
        }
        3 => {
            let a = formula(r, s, &mut vec![], 1);
            prem.push(or(a.clone(), goal.clone()));
            prem.push(if r.chance(3, 4) { not(a) } else { a });
        }
        4 => {
            let x = leaf(r, s, &["x".to_string()]);
            prem.push(subst(&x, "x", &cst(CONSTS[r.below(s.consts)])));
            goal = some("x", x);
        }
        5 if s.eq => {
            let (a, b) = (CONSTS[r.below(s.consts)], CONSTS[r.below(s.consts)]);
            let x = leaf(r, s, &["x".to_string()]);
            prem.push(E::Identity(cst(a), cst(b)));
            prem.push(subst(&x, "x", &cst(a)));
            goal = subst(&x, "x", &cst(b));
        }
        6 => {
            let a = formula(r, s, &mut vec![], 1);
            prem.push(a.clone());
            prem.push(not(a));
        }
        7 => {
            let a = formula(r, s, &mut vec![], 1);
            let b = formula(r, s, &mut vec![], 1);
            goal = match r.below(8) {
                0 => imp(a.clone(), or(b, a)),
                1 => imp(and(a.clone(), b), a),
                2 => or(a.clone(), not(a)),
                3 => imp(imp(not(a.clone()), not(b.clone())), imp(b, a)),
                4 => imp(a.clone(), not(not(a))),
                5 => iff(and(a.clone(), b.clone()), and(b, a)),
                6 => imp(imp(a.clone(), b), a),
                _ => imp(or(a.clone(), b), a),
            };
        }
        _ => {}
    }
    r.shuffle(&mut prem);
    (prem, goal)
}

fn sterm(t: &T, x: &str, by: &T) -> T {
    match t {
        T::Variable(s) if s == x => by.clone(),
        T::Function(f, a) => T::Function(f.clone(), a.iter().map(|t| sterm(t, x, by)).collect()),
        o => o.clone(),
    }
}

fn subst(e: &E, x: &str, by: &T) -> E {
    match e {
        E::Predicate { name, args, world } => {
            E::Predicate { name: name.clone(), args: args.iter().map(|a| sterm(a, x, by)).collect(), world: world.clone() }
        }
        E::Identity(a, b) => E::Identity(sterm(a, x, by), sterm(b, x, by)),
        E::And(a, b) => and(subst(a, x, by), subst(b, x, by)),
        E::Or(a, b) => or(subst(a, x, by), subst(b, x, by)),
        E::Implies(a, b) => imp(subst(a, x, by), subst(b, x, by)),
        E::Iff(a, b) => iff(subst(a, x, by), subst(b, x, by)),
        E::Not(a) => not(subst(a, x, by)),
        E::ForAll { variable, body } if variable != x => all(variable, subst(body, x, by)),
        E::Exists { variable, body } if variable != x => some(variable, subst(body, x, by)),
        o => o.clone(),
    }
}

/// The search with a bounded number of steps, its result certified and checked by the pipeline.
fn attempt(prem: &[E], goal: &E, depth: usize) -> Option<VerifiedProof> {
    fn flat(e: &E, out: &mut Vec<E>) {
        match e {
            E::And(a, b) => {
                flat(a, out);
                flat(b, out);
            }
            E::Iff(a, b) => {
                out.push(imp((**a).clone(), (**b).clone()));
                out.push(imp((**b).clone(), (**a).clone()));
            }
            o => out.push(o.clone()),
        }
    }
    let mut facts = Vec::new();
    for p in prem {
        flat(p, &mut facts);
    }
    let mut b = p::BackwardChainer::new();
    b.set_max_depth(depth);
    b.set_step_budget(300);
    for f in facts {
        b.add_axiom(f);
    }
    let tree = b.prove(goal.clone()).ok()?;
    Some(verify::check_derivation(prem, goal, tree))
}

fn search(c: &mut Case) {
    let s = sig(&mut c.rng);
    let (prem, goal) = sequent(&mut c.rng, s);
    c.nontrivial(&seq(&prem, &goal));
    let depth = 3 + c.rng.below(5);
    let (p, g) = (prem.clone(), goal.clone());
    let Some(v) = c.sut_within("prove", 5, move || attempt(&p, &g, depth)) else { return };
    let Some(v) = v else {
        c.eval();
        c.count("not_proven", 1);
        return;
    };
    judge(c, "search", s, &prem, &goal, &v);
    c.sample(|| json!({"sequent": seq(&prem, &goal), "proven": v.verified}));

    // A derivation that was altered, or is offered for another claim, must not pass for something false.
    if let Some(tree) = &v.derivation {
        for _ in 0..3 {
            let mut t = tree.clone();
            let mut prem2 = prem.clone();
            let mut goal2 = goal.clone();
            let muts = 1 + c.rng.below(2);
            for _ in 0..muts {
                match c.rng.below(6) {
                    0 if !prem2.is_empty() => {
                        let i = c.rng.below(prem2.len());
                        prem2.remove(i);
                    }
                    1 if !prem2.is_empty() => {
                        let i = c.rng.below(prem2.len());
                        prem2[i] = twist(&mut c.rng, s, &prem2[i]);
                    }
                    2 => {
                        goal2 = twist(&mut c.rng, s, &goal2);
                        if c.rng.bool() {
                            t.conclusion = goal2.clone();
                        }
                    }
                    _ => alter(&mut c.rng, s, &mut t),
                }
            }
            let Some(v2) = c.sut("check_derivation", || verify::check_derivation(&prem2, &goal2, t)) else { return };
            c.count("altered_derivations", 1);
            judge(c, "altered", s, &prem2, &goal2, &v2);
        }
    }
}

fn twist(r: &mut Rng, s: Sig, e: &E) -> E {
    match (r.below(5), e) {
        (0, _) => not(e.clone()),
        (1, E::And(a, b)) => or((**a).clone(), (**b).clone()),
        (1, E::Or(a, b)) => and((**a).clone(), (**b).clone()),
        (1, E::Implies(a, b)) => imp((**b).clone(), (**a).clone()),
        (1, E::Not(a)) => (**a).clone(),
        (1, E::ForAll { variable, body }) => some(variable, (**body).clone()),
        (1, E::Exists { variable, body }) => all(variable, (**body).clone()),
        (2, E::Predicate { args, .. }) if args.len() == 2 => pred(BINARY[r.below(2)], vec![args[1].clone(), args[0].clone()]),
        (2, E::Identity(a, b)) => E::Identity(b.clone(), a.clone()),
        (2, E::Predicate { args, .. }) => pred(UNARY[r.below(s.unary)], args.clone()),
        (3, E::And(a, b)) => and(twist(r, s, a), (**b).clone()),
        (3, E::Or(a, b)) => or((**a).clone(), twist(r, s, b)),
        (3, E::Implies(a, b)) => imp(twist(r, s, a), (**b).clone()),
        (3, E::ForAll { variable, body }) => all(variable, twist(r, s, body)),
        (3, E::Exists { variable, body }) => some(variable, twist(r, s, body)),
        _ => formula(r, s, &mut vec![], 1),
    }
}

fn alter(r: &mut Rng, s: Sig, t: &mut DerivationTree) {
    if !t.premises.is_empty() && r.chance(2, 3) {
        let i = r.below(t.premises.len());
        return alter(r, s, &mut t.premises[i]);
    }
    match r.below(7) {
        0 => t.conclusion = twist(r, s, &t.conclusion.clone()),
        1 if t.premises.len() > 1 => t.premises.swap(0, 1),
        2 if !t.premises.is_empty() => {
            let i = r.below(t.premises.len());
            t.premises.remove(i);
        }
        3 if !t.premises.is_empty() => {
            let i = r.below(t.premises.len());
            let p = t.premises[i].clone();
            t.premises.push(p);
        }
        4 if !t.premises.is_empty() => {
            let i = r.below(t.premises.len());
            let child = t.premises[i].clone();
            t.premises = child.premises;
            t.rule = child.rule;
        }
        _ => {
            let a = twist(r, s, &t.conclusion.clone());
            let c0 = cst(CONSTS[r.below(s.consts)]);
            let c1 = cst(CONSTS[r.below(s.consts)]);
            t.rule = match r.below(34) {
                0 => R::PremiseMatch,
                1 => R::ModusPonens,
                2 => R::ModusTollens,
                3 => R::ConjunctionIntro,
                4 => R::ConjunctionElim,
                5 => R::DisjunctionIntro,
                6 => R::DisjunctionElim,
                7 => R::ExFalso,
                8 => R::ImpliesIntro,
                9 => R::BicondIntro,
                10 => R::DoubleNegation,
                11 => R::ClassicalReductio,
                12 => R::UniversalInst(CONSTS[r.below(s.consts)].to_string()),
                13 => R::UniversalInstTerm(c0),
                14 => R::UniversalIntro { variable: "x".into(), var_type: "Entity".into() },
                15 => R::ExistentialIntro { witness: CONSTS[r.below(s.consts)].to_string(), witness_type: "Entity".into() },
                16 => R::ModalAccess,
                17 => R::ModalGeneralization,
                18 => R::Rewrite { from: c0, to: c1 },
                19 => R::EqualitySymmetry,
                20 => R::EqualityTransitivity,
                21 => R::Reflexivity,
                22 => R::ArithDecision,
                23 => R::NativeDecide,
                24 => R::Axiom,
                25 => R::OracleVerification("z3".into()),
                26 => R::ReductioAdAbsurdum,
                27 => R::Contradiction,
                28 => R::ExistentialElim { witness: CONSTS[r.below(s.consts)].to_string() },
                29 => R::CaseAnalysis { case_formula: Box::new(a) },
                30 => R::DisjunctionCases,
                31 => R::LeRefl,
                32 => R::LinFalse,
                _ => R::StructuralInduction { variable: "x".into(), ind_type: "Nat".into(), step_var: "k".into() },
            };
        }
    }
}

/// Random tactic play: whatever sequence of moves ends in an accepted proof proves a truth.
fn tactics(c: &mut Case) {
    let s = sig(&mut c.rng);
    let (prem, goal) = sequent(&mut c.rng, s);
    c.nontrivial(&seq(&prem, &goal));
    let mut st = ProofState::start(prem.clone(), goal.clone());
    let mut script = Vec::new();
    for i in 0..14 {
        if st.open_goals() == 0 {
            break;
        }
        let hyps: Vec<String> = st.focus().map(|g| g.hyps.iter().map(|h| h.name.clone()).collect()).unwrap_or_default();
        let h = if hyps.is_empty() { "none".to_string() } else { hyps[c.rng.below(hyps.len())].clone() };
        let prop = st.focus().and_then(|g| g.hyps.iter().find(|x| x.name == h).map(|x| x.prop.clone()));
        let op = c.rng.below(16);
        let witness = cst(CONSTS[c.rng.below(s.consts)]);
        let name = if c.rng.chance(1, 8) { CONSTS[0].to_string() } else { format!("H{i}") };
        let lname = format!("v{i}");
        let target = st.focused_target().cloned();
        let (before, hyp) = (st.clone(), h.clone());
        let done = c.sut_within("tactic", 5, move || {
            let h = hyp;
            let mut t = before;
            let r = match op {
                0 | 1 | 2 => match &target {
                    Some(E::ForAll { .. }) => t.intro(&lname).map(|_| "intro"),
                    _ => t.intro(&name).map(|_| "intro"),
                },
                3 => t.assumption().map(|_| "assumption"),
                4 => t.exact(&h).map(|_| "exact"),
                5 => t.split().map(|_| "split"),
                6 => t.left().map(|_| "left"),
                7 => t.right().map(|_| "right"),
                8 => t.exists(witness).map(|_| "exists"),
                9 => match &prop {
                    Some(p) => t.apply(p).map(|_| "apply"),
                    None => return None,
                },
                10 | 11 => t.cases(&h).map(|_| "cases"),
                12 => t.rewrite(&h).map(|_| "rewrite"),
                13 => {
                    // Rule sets that can rewrite for ever are left out.
                    if t.focus().map_or(true, |g| loops(g.hyps.iter().map(|h| &h.prop))) {
                        return None;
                    }
                    let set = t.scope_simp_set();
                    t.simp(&set).map(|_| "simp")
                }
                14 => t.crush().map(|_| "crush"),
                _ => {
                    let g = t.focus().cloned();
                    let deep = g.map_or(false, |g| g.hyps.iter().any(|h| size(&h.prop) > 14) || size(&g.target) > 14);
                    if i < 3 || deep || true {
                        return None;
                    }
                    t.auto().map(|_| "auto")
                }
            };
            r.ok().map(|w| (t, w))
        });
        match done {
            None => return,
            Some(None) => {}
            Some(Some((t, w))) => {
                st = t;
                c.count("tactics_applied", 1);
                c.count(&format!("tactic:{w}"), 1);
                script.push(format!("{w} {h}"));
            }
        }
    }
    if st.open_goals() > 0 {
        c.count("left_open", 1);
        if let Some(Ok(_)) = c.sut("qed", || st.qed()) {
            c.fail("qed-open", format!("accepted with {} goals open: {} script {script:?}", st.open_goals(), seq(&prem, &goal)));
        }
        return;
    }
    let last = st.clone();
    if let Some(Ok(v)) = c.sut_within("qed", 5, move || last.qed()) {
        c.count("scripts_closed", 1);
        judge(c, "tactics", s, &prem, &goal, &v);
    }
}

fn within(small: &T, big: &T) -> bool {
    small == big || matches!(big, T::Function(_, a) if a.iter().any(|x| within(small, x)))
}

/// Could this rule set keep enlarging a goal?
fn loops<'a>(hyps: impl Iterator<Item = &'a E>) -> bool {
    fn rule(e: &E) -> bool {
        match e {
            E::Identity(..) | E::Iff(..) => true,
            E::ForAll { body, .. } => rule(body),
            E::Implies(_, b) => rule(b),
            _ => false,
        }
    }
    let rules: Vec<&E> = hyps.filter(|e| rule(e)).collect();
    rules.len() > 1 || rules.iter().any(|e| grows(e))
}

fn grows(e: &E) -> bool {
    match e {
        E::Identity(a, b) => a != b && (within(a, b) || within(b, a)),
        E::Iff(a, b) if format!("{a}{b}").contains(FUN) => true,
        E::And(a, b) | E::Or(a, b) | E::Implies(a, b) | E::Iff(a, b) => grows(a) || grows(b),
        E::Not(a) => grows(a),
        E::ForAll { body, .. } | E::Exists { body, .. } => grows(body),
        _ => false,
    }
}

fn size(e: &E) -> usize {
    match e {
        E::And(a, b) | E::Or(a, b) | E::Implies(a, b) | E::Iff(a, b) => 1 + size(a) + size(b),
        E::Not(a) => 1 + size(a),
        E::ForAll { body, .. } | E::Exists { body, .. } => 3 + size(body),
        _ => 1,
    }
}

/// Chains of rules from facts: what forward chaining reaches must be proven, the rest must not.
fn chains(c: &mut Case) {
    let r = &mut c.rng;
    let np = if r.chance(1, 3) { 2 } else { 3 + r.below(5) };
    let names: Vec<String> = (0..np).map(|i| format!("rank{}", (b'a' + i as u8) as char)).collect();
    let n = 1 + r.below(3);
    let atom = |i: usize, t: T| pred(&names[i], vec![t]);
    let mut prem = Vec::new();
    let mut rules = Vec::new();
    // Rules go from lower to higher ranks, so there is no recursion.
    for _ in 0..2 + r.below(np) {
        let hi = 1 + r.below(np - 1);
        let lo = r.below(hi);
        let body = if r.chance(1, 4) {
            let l2 = r.below(hi);
            if l2 == lo { vec![lo] } else { vec![lo, l2] }
        } else {
            vec![lo]
        };
        let mut b = atom(body[0], var("x"));
        if body.len() == 2 {
            b = and(b, atom(body[1], var("x")));
        }
        prem.push(all("x", imp(b, atom(hi, var("x")))));
        rules.push((body, hi));
    }
    let mut known = vec![vec![false; n]; np];
    for _ in 0..1 + r.below(3) {
        let (i, w) = (r.below(2), r.below(n));
        known[i][w] = true;
        prem.push(atom(i, cst(CONSTS[w])));
    }
    r.shuffle(&mut prem);
    for _ in 0..np {
        for (b, h) in &rules {
            for w in 0..n {
                if b.iter().all(|&i| known[i][w]) {
                    known[*h][w] = true;
                }
            }
        }
    }
    let (i, w) = (r.below(np), r.below(n));
    let goal = atom(i, cst(CONSTS[w]));
    let truth = known[i][w];
    if !truth && np * n > 4 {
        c.count("chains_skipped", 1);
        return;
    }
    c.nontrivial(&seq(&prem, &goal));
    let (p, g) = (prem.clone(), goal.clone());
    let Some(v) = c.sut_within("prove", 5, move || attempt(&p, &g, 20)) else { return };
    let proven = v.as_ref().map_or(false, |v| v.verified);
    c.eval();
    c.count(if truth { "chains_derivable" } else { "chains_underivable" }, 1);
    if proven && !truth {
        c.fail("unsound:chains", format!("not derivable, reported proven: {}", seq(&prem, &goal)));
    }
    if !proven && truth {
        c.fail("missed:chains", format!("derivable by rule chaining, not proven ({:?}): {}", v.and_then(|v| v.verification_error), seq(&prem, &goal)));
    }
}

fn conflicts(c: &mut Case) {
    let s = sig(&mut c.rng);
    let n = 1 + c.rng.below(4);
    let mut prem: Vec<E> = (0..n)
        .map(|_| {
            let d = c.rng.below(3);
            formula(&mut c.rng, s, &mut vec![], d)
        })
        .collect();
    if c.rng.chance(1, 3) {
        let a = leaf(&mut c.rng, s, &[]);
        prem.push(a.clone());
        prem.push(not(a));
    }
    c.rng.shuffle(&mut prem);
    let show = format!("{:?}", prem.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    c.nontrivial(&show);
    let p = prem.clone();
    let Some(rep) = c.sut_within("detect_conflict", 5, move || verify::detect_conflict(&p)) else { return };
    c.eval();
    if rep.inconsistent {
        c.count("conflicts_reported", 1);
        if let Some(m) = countermodel(&mut c.rng, s, &prem, None) {
            c.fail("unsound:conflict", format!("{} satisfies the rules called inconsistent: {show}", m.show()));
        }
        let sub: Vec<E> = rep.conflicting_premises.iter().filter_map(|&i| prem.get(i).cloned()).collect();
        if sub.len() != rep.conflicting_premises.len() || sub.is_empty() {
            c.fail("conflict-indices", format!("rules named {:?} of {show}", rep.conflicting_premises));
        } else if let Some(m) = countermodel(&mut c.rng, s, &sub, None) {
            c.fail("conflict-blame", format!("the rules blamed ({:?}) are jointly satisfied by {}: {show}", rep.conflicting_premises, m.show()));
        }
    } else {
        c.count("conflicts_absent", 1);
    }
}

/// Integer facts: everything proven from linear hypotheses must hold for all integers.
fn integers(c: &mut Case) {
    let nv = 1 + c.rng.below(3);
    let vars = ["X", "Y", "Z"];
    fn t(r: &mut Rng, nv: usize, vars: &[&str; 3], d: usize) -> T {
        if d == 0 || r.chance(1, 2) {
            return if r.chance(2, 5) { cst(&format!("{}", r.range(-4, 6))) } else { cst(vars[r.below(nv)]) };
        }
        let op = ["add", "add", "sub", "mul"][r.below(4)];
        T::Function(op.to_string(), vec![t(r, nv, vars, d - 1), t(r, nv, vars, d - 1)])
    }
    fn fact(r: &mut Rng, nv: usize, vars: &[&str; 3]) -> E {
        let (a, b) = (t(r, nv, vars, 1), t(r, nv, vars, 1));
        if r.chance(1, 5) {
            return E::Identity(a, b);
        }
        let op = ["le", "lt", "le", "lt", "ge", "gt"][r.below(6)];
        E::Identity(T::Function(op.to_string(), vec![a, b]), cst("true"))
    }
    let n = c.rng.below(4);
    let prem: Vec<E> = (0..n).map(|_| fact(&mut c.rng, nv, &vars)).collect();
    let goal = match c.rng.below(5) {
        0 => {
            let a = t(&mut c.rng, nv, &vars, 2);
            let b = t(&mut c.rng, nv, &vars, 2);
            E::Identity(T::Function("add".into(), vec![a.clone(), b.clone()]), T::Function("add".into(), vec![b, a]))
        }
        1 => not(fact(&mut c.rng, nv, &vars)),
        2 => and(fact(&mut c.rng, nv, &vars), fact(&mut c.rng, nv, &vars)),
        _ => fact(&mut c.rng, nv, &vars),
    };
    let show = seq(&prem, &goal);
    c.nontrivial(&show);
    let refute = || {
        let lim = 6i128;
        let mut m = vec![-lim; nv];
        loop {
            let env: BTreeMap<String, i128> = (0..nv).map(|i| (vars[i].to_string(), m[i])).collect();
            if prem.iter().all(|p| arith(p, &env) == Some(true)) && arith(&goal, &env) == Some(false) {
                return Some(env);
            }
            let mut i = 0;
            while i < nv {
                m[i] += 1;
                if m[i] <= lim {
                    break;
                }
                m[i] = -lim;
                i += 1;
            }
            if i == nv {
                return None;
            }
        }
    };
    let runs: Vec<(&str, Option<bool>)> = vec![
        ("search", {
            let (p, g) = (prem.clone(), goal.clone());
            c.sut_within("prove", 5, move || attempt(&p, &g, 6).map_or(false, |v| v.verified))
        }),
        ("omega", c.sut("omega", || {
            let mut s = ProofState::start(prem.clone(), goal.clone());
            s.omega().is_ok() && s.qed().map_or(false, |v| v.verified)
        })),
        ("decide", c.sut("decide", || {
            let mut s = ProofState::start(prem.clone(), goal.clone());
            s.decide().is_ok() && s.qed().map_or(false, |v| v.verified)
        })),
        ("simp", c.sut("simp", || {
            if loops(prem.iter()) {
                return false;
            }
            let mut s = ProofState::start(prem.clone(), goal.clone());
            let set = s.scope_simp_set();
            s.simp(&set).is_ok() && s.open_goals() == 0 && s.qed().map_or(false, |v| v.verified)
        })),
    ];
    for (who, got) in runs {
        c.eval();
        if got == Some(true) {
            c.count("arith_proven", 1);
            c.count(&format!("arith_proven:{who}"), 1);
            if let Some(env) = refute() {
                c.fail(&format!("unsound-arith:{who}"), format!("{who} proves {show}, false at {env:?}"));
            }
        }
    }
}

/// Closed arithmetic of any magnitude.
fn closed(c: &mut Case) {
    fn lit(r: &mut Rng) -> T {
        let v = match r.below(4) {
            0 => r.edgy_i64(),
            1 => r.range(-20, 20),
            2 => r.range(-4_000_000_000, 4_000_000_000),
            _ => i64::MAX - r.range(0, 3),
        };
        cst(&v.to_string())
    }
    fn t(r: &mut Rng, d: usize) -> T {
        if d == 0 || r.chance(1, 3) {
            return lit(r);
        }
        T::Function(["add", "sub", "mul"][r.below(3)].to_string(), vec![t(r, d - 1), t(r, d - 1)])
    }
    let a = t(&mut c.rng, 2);
    let env = BTreeMap::new();
    let b = if c.rng.chance(1, 3) {
        match crate::form::arith_term(&a, &env) {
            // The exact value, or what wrapping arithmetic would give.
            Some(v) => cst(&if c.rng.bool() { v.to_string() } else { (v as i64).to_string() }),
            None => t(&mut c.rng, 1),
        }
    } else {
        t(&mut c.rng, 1)
    };
    let goal = if c.rng.chance(1, 2) {
        E::Identity(a, b)
    } else {
        E::Identity(T::Function(["le", "lt", "ge", "gt"][c.rng.below(4)].to_string(), vec![a, b]), cst(if c.rng.chance(1, 6) { "false" } else { "true" }))
    };
    let goal = if c.rng.chance(1, 6) { not(goal) } else { goal };
    let Some(truth) = arith(&goal, &env) else { return };
    c.nontrivial(&goal.to_string());
    // The linear-arithmetic search works in machine words; large literals are for `decide`.
    fn wide(t: &T) -> bool {
        match t {
            T::Constant(s) => s.parse::<i128>().map_or(false, |v| v.abs() > 1 << 20),
            T::Function(_, a) => a.iter().any(wide),
            _ => false,
        }
    }
    let big = match &goal {
        E::Identity(a, b) => wide(a) || wide(b),
        E::Not(e) => matches!(&**e, E::Identity(a, b) if wide(a) || wide(b)),
        _ => true,
    };
    for (who, got) in [
        ("search", if big { None } else { c.sut("prove", || verify::prove_certify_check_bounded(&[], &goal, 5).verified) }),
        ("decide", c.sut("decide", || {
            let mut s = ProofState::start(vec![], goal.clone());
            s.decide().is_ok() && s.qed().map_or(false, |v| v.verified)
        })),
    ] {
        c.eval();
        if got == Some(true) {
            c.count("closed_proven", 1);
            if !truth {
                c.fail(&format!("unsound-closed:{who}"), format!("{who} proves the false {goal}"));
            }
        }
    }
}

pub fn check(rep: &Report) {
    rep.rule("a sequent reported proven (by search, tactics, an altered derivation, arithmetic) has no countermodel, and its proof object type-checks on its own");
    rep.rule("facts reachable by non-recursive rule chaining are proven, unreachable ones are not; reported conflicts are real and rightly blamed");
    rep.cases("search", scale(12000, 96000), search);
    rep.cases("tactics", scale(40000, 320000), tactics);
    rep.cases("chains", scale(8000, 64000), chains);
    rep.cases("conflicts", scale(3000, 24000), conflicts);
    rep.cases("integers", scale(5000, 40000), integers);
    rep.cases("closed", scale(12000, 96000), closed);
    rep.require("proven", 5000);
    rep.require("proven:altered", 500);
    rep.require("proven:tactics", 2000);
    rep.require("chains_derivable", 1500);
    rep.require("chains_underivable", 200);
    rep.require("conflicts_reported", 400);
    rep.require("arith_proven:omega", 100);
    rep.require("closed_proven", 500);
}
