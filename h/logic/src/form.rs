//! Formula-level answers against truth tables and explicit-state exploration (C19).

use logicaffeine_proof as p;
use p::bmc::{self, BmcOutcome, InductionOutcome, VacuityOutcome};
use p::counterexample::{find_counterexample, Counterexample};
use p::rup::Verdict;
use p::sat::{EquivOutcome, ModelOutcome, UnsatOutcome};
use p::{ProofExpr as E, ProofTerm as T};
use serde_json::json;
use std::collections::BTreeMap;
use vkit::{scale, Case, Report, Rng};

pub fn not(a: E) -> E {
    E::Not(Box::new(a))
}
pub fn and(a: E, b: E) -> E {
    E::And(Box::new(a), Box::new(b))
}
pub fn or(a: E, b: E) -> E {
    E::Or(Box::new(a), Box::new(b))
}
pub fn imp(a: E, b: E) -> E {
    E::Implies(Box::new(a), Box::new(b))
}
pub fn iff(a: E, b: E) -> E {
    E::Iff(Box::new(a), Box::new(b))
}
pub fn atom(s: &str) -> E {
    E::Atom(s.to_string())
}
pub fn pred(name: &str, args: Vec<T>) -> E {
    E::Predicate { name: name.to_string(), args, world: None }
}
pub fn cst(s: &str) -> T {
    T::Constant(s.to_string())
}

/// Our own propositional value under a valuation of the atoms by printed name.
fn value(e: &E, v: &dyn Fn(&str) -> Option<bool>) -> Option<bool> {
    Some(match e {
        E::And(a, b) => value(a, v)? & value(b, v)?,
        E::Or(a, b) => value(a, v)? | value(b, v)?,
        E::Implies(a, b) => !value(a, v)? | value(b, v)?,
        E::Iff(a, b) => value(a, v)? == value(b, v)?,
        E::Not(a) => !value(a, v)?,
        E::Atom(s) => return v(s),
        other => return v(&format!("{other}")),
    })
}

/// The atoms a formula can use; some are plain, some are ground predications.
fn atoms(r: &mut Rng, n: usize) -> Vec<E> {
    let style = r.below(3);
    (0..n)
        .map(|i| match (style, i % 3) {
            (0, _) => atom(&format!("a{i}")),
            (1, 0) => pred("tall", vec![cst(&format!("C{i}"))]),
            (1, 1) => pred("likes", vec![cst(&format!("C{i}")), cst("Bob")]),
            (2, 0) => atom(&format!("sig{i}@0")),
            (2, 1) => atom(&format!("sig{}@1", i - 1)),
            _ => atom(&format!("Z{i}")),
        })
        .collect()
}

fn grow(r: &mut Rng, at: &[E], depth: usize) -> E {
    if depth == 0 || r.chance(1, 6) {
        let a = r.pick(at).clone();
        return if r.chance(1, 3) { not(a) } else { a };
    }
    let d = depth - 1;
    match r.below(9) {
        0 | 1 => and(grow(r, at, d), grow(r, at, d)),
        2 | 3 => or(grow(r, at, d), grow(r, at, d)),
        4 | 5 => imp(grow(r, at, d), grow(r, at, d)),
        6 => iff(grow(r, at, d), grow(r, at, d)),
        7 => not(grow(r, at, d)),
        _ => {
            let x = grow(r, at, d.min(1));
            let y = grow(r, at, d);
            or(and(x.clone(), not(y.clone())), and(not(x), y))
        }
    }
}

/// An equivalent formula written differently.
fn rephrase(r: &mut Rng, e: &E) -> E {
    match e {
        E::And(a, b) => {
            let (a, b) = (rephrase(r, a), rephrase(r, b));
            match r.below(3) {
                0 => and(b, a),
                1 => not(or(not(a), not(b))),
                _ => and(a, b),
            }
        }
        E::Or(a, b) => {
            let (a, b) = (rephrase(r, a), rephrase(r, b));
            match r.below(4) {
                0 => or(b, a),
                1 => not(and(not(b), not(a))),
                2 => imp(not(a), b),
                _ => or(a, b),
            }
        }
        E::Implies(a, b) => {
            let (a, b) = (rephrase(r, a), rephrase(r, b));
            match r.below(3) {
                0 => or(b, not(a)),
                1 => imp(not(b), not(a)),
                _ => imp(a, b),
            }
        }
        E::Iff(a, b) => {
            let (a, b) = (rephrase(r, a), rephrase(r, b));
            match r.below(4) {
                0 => iff(b, a),
                1 => and(imp(a.clone(), b.clone()), imp(b, a)),
                2 => iff(not(a), not(b)),
                _ => not(iff(a, not(b))),
            }
        }
        E::Not(a) => match (&**a, r.below(2)) {
            (E::And(x, y), 0) => or(not(rephrase(r, x)), not(rephrase(r, y))),
            (E::Or(x, y), 0) => and(not(rephrase(r, x)), not(rephrase(r, y))),
            _ => not(rephrase(r, a)),
        },
        other => {
            if r.chance(1, 6) {
                not(not(other.clone()))
            } else {
                other.clone()
            }
        }
    }
}

struct Tab {
    names: Vec<String>,
}

fn collect(e: &E, out: &mut Vec<String>) {
    match e {
        E::And(a, b) | E::Or(a, b) | E::Implies(a, b) | E::Iff(a, b) => {
            collect(a, out);
            collect(b, out);
        }
        E::Not(a) => collect(a, out),
        E::Atom(s) => out.push(s.clone()),
        o => out.push(format!("{o}")),
    }
}

impl Tab {
    fn new(es: &[&E]) -> Tab {
        let mut names = Vec::new();
        for e in es {
            collect(e, &mut names);
        }
        names.sort();
        names.dedup();
        Tab { names }
    }
    fn val(&self, e: &E, m: u64) -> bool {
        value(e, &|s| self.names.binary_search_by(|x| x.as_str().cmp(s)).ok().map(|i| m >> i & 1 == 1)).unwrap()
    }
    fn find(&self, f: impl Fn(u64) -> bool) -> Option<u64> {
        (0..1u64 << self.names.len()).find(|&m| f(m))
    }
}

/// A reported model must make `want` true; atoms it does not mention must not matter.
fn model_ok(c: &mut Case, who: &str, model: &[(String, bool)], want: &E, t: &Tab) {
    let map: BTreeMap<&str, bool> = model.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    if map.len() != model.len() {
        c.fail(&format!("model-duplicate:{who}"), format!("{who}: an atom is listed twice in {model:?}"));
    }
    let free: Vec<&String> = t.names.iter().filter(|n| !map.contains_key(n.as_str())).collect();
    if free.len() > 8 {
        c.fail(&format!("model-missing:{who}"), format!("{who}: model {model:?} leaves out {free:?}"));
        return;
    }
    // Models list plain propositional atoms only; ground predications are left open,
    // so for those some completion has to work.
    let open = free.iter().any(|f| f.contains('('));
    let mut some = false;
    let mut every = true;
    for m in 0..1u64 << free.len() {
        let got = value(want, &|s| {
            map.get(s).copied().or_else(|| free.iter().position(|f| f.as_str() == s).map(|i| m >> i & 1 == 1))
        });
        some |= got == Some(true);
        every &= got == Some(true);
    }
    if !(every || open && some) {
        c.fail(&format!("bad-model:{who}"), format!("{who}: {model:?} does not satisfy {want}"));
    }
}

fn formulas(c: &mut Case) {
    let n = 1 + c.rng.below(7);
    let at = atoms(&mut c.rng, n);
    let depth = 1 + c.rng.below(4);
    let e = grow(&mut c.rng, &at, depth);
    let e = if c.rng.chance(1, 4) {
        // Force the unsatisfiable side to occur often.
        let g = rephrase(&mut c.rng, &e);
        and(e, not(g))
    } else {
        e
    };
    let t = Tab::new(&[&e]);
    let truth = t.find(|m| t.val(&e, m)).is_some();
    c.nontrivial(&format!("{e}"));
    c.count(if truth { "satisfiable" } else { "unsatisfiable" }, 1);
    let show = format!("{e}");

    match c.sut("find_model", || p::sat::find_model(&e)) {
        Some(ModelOutcome::Sat(m)) => {
            c.eval();
            if !truth {
                c.fail("wrong-sat:find_model", format!("model {m:?} reported for unsatisfiable {show}"));
            } else {
                model_ok(c, "find_model", &m, &e, &t);
            }
        }
        Some(ModelOutcome::Unsat) => {
            c.eval();
            if truth {
                c.fail("wrong-unsat:find_model", format!("satisfiable {show} reported unsatisfiable"));
            }
        }
        Some(ModelOutcome::Unsupported) => c.fail("unsupported:find_model", format!("propositional {show} not decided")),
        None => {}
    }
    match c.sut("prove_unsat", || p::sat::prove_unsat(&e)) {
        Some(UnsatOutcome::Refuted) => {
            c.eval();
            if truth {
                c.fail("wrong-unsat:prove_unsat", format!("satisfiable {show} refuted"));
            }
        }
        Some(UnsatOutcome::Sat(m)) => {
            c.eval();
            if !truth {
                c.fail("wrong-sat:prove_unsat", format!("unsatisfiable {show} not refuted: {m:?}"));
            } else {
                model_ok(c, "prove_unsat", &m, &e, &t);
            }
        }
        Some(UnsatOutcome::Unsupported) => c.fail("unsupported:prove_unsat", format!("propositional {show} not decided")),
        None => {}
    }
    if let Some(r) = c.sut("prove_unsat_certified", || p::sat::prove_unsat_certified(&e).is_some()) {
        c.eval();
        if r && truth {
            c.fail("wrong-unsat:prove_unsat_certified", format!("certificate issued for satisfiable {show}"));
        }
        if r {
            c.count("refutations_certified", 1);
        }
    }
    match c.sut("check_vacuity", || bmc::check_vacuity(&e)) {
        Some(VacuityOutcome::Vacuous) if truth => c.fail("wrong:check_vacuity", format!("{show} can be true but is called vacuous")),
        Some(VacuityOutcome::Reachable(m)) => {
            if truth {
                model_ok(c, "check_vacuity", &m, &e, &t)
            } else {
                c.fail("wrong:check_vacuity", format!("{show} is never true but is called reachable"))
            }
        }
        _ => {}
    }

    // Equivalence.
    let g = if c.rng.chance(1, 2) {
        let mut g = rephrase(&mut c.rng, &e);
        if c.rng.chance(1, 3) {
            let x = c.rng.pick(&at).clone();
            g = match c.rng.below(3) {
                0 => or(g, and(x.clone(), not(x))),
                1 => and(g, x),
                _ => or(g, x),
            };
        }
        g
    } else {
        grow(&mut c.rng, &at, depth)
    };
    let tt = Tab::new(&[&e, &g]);
    let differ = tt.find(|m| tt.val(&e, m) != tt.val(&g, m));
    match c.sut("prove_equivalence", || p::sat::prove_equivalence(&e, &g)) {
        Some(EquivOutcome::Equivalent) => {
            c.eval();
            c.count("equivalences_confirmed", 1);
            if differ.is_some() {
                c.fail("wrong-equivalent", format!("{show} and {g} called equivalent"));
            }
        }
        Some(EquivOutcome::Differ(m)) => {
            c.eval();
            c.count("differences_shown", 1);
            if differ.is_none() {
                c.fail("wrong-differ", format!("{show} and {g} called different"));
            } else {
                let x = not(iff(e.clone(), g.clone()));
                model_ok(c, "prove_equivalence", &m, &x, &tt);
            }
        }
        Some(EquivOutcome::Unsupported) => c.fail("unsupported:prove_equivalence", format!("{show} vs {g}")),
        None => {}
    }
}

fn entailment(c: &mut Case) {
    let n = 2 + c.rng.below(6);
    let at = atoms(&mut c.rng, n);
    let k = c.rng.below(5);
    let mut prem: Vec<E> = (0..k)
        .map(|_| {
            let d = c.rng.below(3);
            grow(&mut c.rng, &at, d)
        })
        .collect();
    let goal = if c.rng.chance(1, 2) || prem.is_empty() {
        let d = c.rng.below(3);
        grow(&mut c.rng, &at, d)
    } else {
        let i = c.rng.below(prem.len());
        let g = prem[i].clone();
        rephrase(&mut c.rng, &g)
    };
    if c.rng.chance(1, 3) {
        let x = c.rng.pick(&at).clone();
        prem.push(imp(x.clone(), goal.clone()));
        if c.rng.chance(2, 3) {
            prem.push(x);
        }
    }
    c.rng.shuffle(&mut prem);
    let mut all: Vec<&E> = prem.iter().collect();
    all.push(&goal);
    let t = Tab::new(&all);
    let counter = t.find(|m| prem.iter().all(|p| t.val(p, m)) && !t.val(&goal, m));
    let truth = counter.is_none();
    let show = format!("{:?} |- {goal}", prem.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    c.nontrivial(&show);
    c.count(if truth { "entailed" } else { "not_entailed" }, 1);
    c.sample(|| json!({"sequent": show, "entailed": truth}));

    for (who, got) in [
        ("cdcl_entails", c.sut("cdcl_entails", || p::cnf::cdcl_entails(&prem, &goal))),
        (
            "entails_certified",
            c.sut("entails_certified", || {
                p::rup::entails_certified(&prem, &goal).map(|v| matches!(v, Verdict::Entailed))
            }),
        ),
        (
            "entails_certified_prepared",
            c.sut("entails_certified_prepared", || {
                let cnf = p::cnf::Cnf::from_premises(&prem)?;
                // The prepared premises serve several goals; an earlier one must not leak into a later one.
                let _ = p::rup::entails_certified_prepared(&cnf, &not(goal.clone()));
                p::rup::entails_certified_prepared(&cnf, &goal).map(|v| matches!(v, Verdict::Entailed))
            }),
        ),
    ] {
        match got {
            Some(Some(g)) => {
                c.eval();
                if g != truth {
                    c.fail(&format!("wrong:{who}"), format!("{who} answers {g} for {show}"));
                }
            }
            Some(None) => c.fail(&format!("undecided:{who}"), format!("{who} gives no answer for {show}")),
            None => {}
        }
    }
    match c.sut("find_counterexample", || find_counterexample(&prem, &goal)) {
        Some(Some(Counterexample::Valuation(v))) => {
            c.eval();
            c.count("counterexamples", 1);
            let map: BTreeMap<String, bool> = v.into_iter().collect();
            let look = |s: &str| map.get(s).copied();
            let ok = prem.iter().all(|p| value(p, &look) == Some(true)) && value(&goal, &look) == Some(false);
            if !ok {
                c.fail("bad-counterexample", format!("{map:?} is no counterexample to {show}"));
            }
        }
        Some(Some(Counterexample::Witness(w))) => {
            c.fail("odd-counterexample", format!("an arithmetic witness {w:?} for propositional {show}"));
        }
        Some(None) => {
            c.eval();
            if !truth && t.names.len() <= 14 {
                c.fail("missed-counterexample", format!("no counterexample found for {show}"));
            }
        }
        None => {}
    }
    // Refutation agrees with entailment.
    if let Some(Some(m)) = counter.map(|m| {
        let mut e = not(goal.clone());
        for p in &prem {
            e = and(p.clone(), e);
        }
        c.sut("prove_unsat", || p::sat::prove_unsat(&e)).map(|o| (m, matches!(o, UnsatOutcome::Refuted)))
    }) {
        if m.1 {
            c.fail("wrong-unsat:sequent", format!("premises and negated goal refuted although {show} has a countermodel"));
        }
    }
}

fn arithmetic(c: &mut Case) {
    // Small integer sequents: a counterexample must be one.
    let vars = ["X", "Y", "Z"];
    let nv = 1 + c.rng.below(3);
    fn term(r: &mut Rng, nv: usize, vars: &[&str; 3], d: usize) -> T {
        if d == 0 || r.chance(1, 3) {
            return if r.chance(1, 3) { cst(&format!("{}", r.range(-3, 5))) } else { cst(vars[r.below(nv)]) };
        }
        let op = ["add", "sub", "mul"][r.below(3)];
        T::Function(op.to_string(), vec![term(r, nv, vars, d - 1), term(r, nv, vars, d - 1)])
    }
    fn fact(r: &mut Rng, nv: usize, vars: &[&str; 3]) -> E {
        let (a, b) = (term(r, nv, vars, 2), term(r, nv, vars, 1));
        if r.chance(1, 3) {
            return E::Identity(a, b);
        }
        let op = ["le", "lt", "ge", "gt"][r.below(4)];
        let v = if r.chance(1, 5) { "false" } else { "true" };
        E::Identity(T::Function(op.to_string(), vec![a, b]), cst(v))
    }
    fn comp(r: &mut Rng, nv: usize, vars: &[&str; 3]) -> E {
        match r.below(6) {
            0 => and(fact(r, nv, vars), fact(r, nv, vars)),
            1 => or(fact(r, nv, vars), fact(r, nv, vars)),
            2 => imp(fact(r, nv, vars), fact(r, nv, vars)),
            3 => not(fact(r, nv, vars)),
            _ => fact(r, nv, vars),
        }
    }
    let k = c.rng.below(3);
    let prem: Vec<E> = (0..k).map(|_| comp(&mut c.rng, nv, &vars)).collect();
    let goal = comp(&mut c.rng, nv, &vars);
    let show = format!("{:?} |- {goal}", prem.iter().map(|p| p.to_string()).collect::<Vec<_>>());
    if let Some(Some(ce)) = c.sut("find_counterexample", || find_counterexample(&prem, &goal)) {
        c.eval();
        c.count("arith_counterexamples", 1);
        c.nontrivial(&show);
        let Counterexample::Witness(w) = ce else {
            c.fail("odd-counterexample", format!("valuation for arithmetic {show}"));
            return;
        };
        let env: BTreeMap<String, i128> = w.iter().map(|(k, v)| (k.clone(), *v as i128)).collect();
        let ok = prem.iter().all(|p| arith(p, &env) == Some(true)) && arith(&goal, &env) == Some(false);
        if !ok {
            c.fail("bad-witness", format!("{w:?} is no counterexample to {show}"));
        }
    } else {
        // Nothing reported: within the advertised small grid there must be none.
        c.eval();
        let lim = 2i128;
        let mut m = vec![-lim; nv];
        loop {
            let env: BTreeMap<String, i128> = (0..nv).map(|i| (vars[i].to_string(), m[i])).collect();
            if prem.iter().all(|p| arith(p, &env) == Some(true)) && arith(&goal, &env) == Some(false) {
                c.count("arith_missed", 1);
                break;
            }
            let mut i = 0;
            while i < nv {
                m[i] += 1;
                if m[i] <= lim {
                    break;
                }
                m[i] = -lim;
                i += 1;
            }
            if i == nv {
                break;
            }
        }
    }
}

pub fn arith_term(t: &T, env: &BTreeMap<String, i128>) -> Option<i128> {
    match t {
        T::Constant(s) | T::Variable(s) => s.parse::<i128>().ok().or_else(|| env.get(s).copied()),
        T::Function(f, a) if a.len() == 2 => {
            let (x, y) = (arith_term(&a[0], env)?, arith_term(&a[1], env)?);
            match f.as_str() {
                "add" => x.checked_add(y),
                "sub" => x.checked_sub(y),
                "mul" => x.checked_mul(y),
                _ => None,
            }
        }
        _ => None,
    }
}

pub fn arith(e: &E, env: &BTreeMap<String, i128>) -> Option<bool> {
    Some(match e {
        E::Identity(T::Function(f, a), T::Constant(v)) if ["le", "lt", "ge", "gt"].contains(&f.as_str()) => {
            let (x, y) = (arith_term(&a[0], env)?, arith_term(&a[1], env)?);
            let t = match f.as_str() {
                "le" => x <= y,
                "lt" => x < y,
                "ge" => x >= y,
                _ => x > y,
            };
            t == (v == "true")
        }
        E::Identity(a, b) => arith_term(a, env)? == arith_term(b, env)?,
        E::And(a, b) => arith(a, env)? & arith(b, env)?,
        E::Or(a, b) => arith(a, env)? | arith(b, env)?,
        E::Implies(a, b) => !arith(a, env)? | arith(b, env)?,
        E::Iff(a, b) => arith(a, env)? == arith(b, env)?,
        E::Not(a) => !arith(a, env)?,
        _ => return None,
    })
}

fn counting(c: &mut Case) {
    let n = 1 + c.rng.below(6);
    let k = c.rng.below(n + 2);
    let vars: Vec<E> = (0..n).map(|i| atom(&format!("v{i}"))).collect();
    let kind = c.rng.below(3);
    let built = c.sut("cardinality", || match kind {
        0 => p::cardinality::at_most(&vars, k, "aux"),
        1 => p::cardinality::at_least(&vars, k, "aux"),
        _ => p::cardinality::exactly(&vars, k, "aux"),
    });
    let Some(f) = built else { return };
    c.nontrivial(&(n, k, kind));
    c.count("cardinality_forms", 1);
    for m in 0..1u32 << n {
        let mut e = f.clone();
        for (i, v) in vars.iter().enumerate() {
            e = and(if m >> i & 1 == 1 { v.clone() } else { not(v.clone()) }, e);
        }
        let ones = m.count_ones() as usize;
        let want = match kind {
            0 => ones <= k,
            1 => ones >= k,
            _ => ones == k,
        };
        let Some(got) = c.sut("prove_unsat", || p::sat::prove_unsat(&e)) else { return };
        c.eval();
        let got = match got {
            UnsatOutcome::Refuted => false,
            UnsatOutcome::Sat(_) => true,
            UnsatOutcome::Unsupported => {
                c.fail("cardinality-unsupported", format!("kind {kind} n={n} k={k}"));
                return;
            }
        };
        if got != want {
            c.fail("cardinality", format!("counting constraint kind {kind} over {n} atoms with bound {k}: {ones} true atoms allowed={got}"));
            return;
        }
    }
    // Smallest bound that stays feasible, with the certificate that nothing smaller is.
    let at = vars.clone();
    let d = 1 + c.rng.below(3);
    let side = grow(&mut c.rng, &at, d);
    let t = Tab::new(&[&side]);
    let best = (0..1u64 << t.names.len()).filter(|&m| t.val(&side, m)).map(|m| m.count_ones() as i64).min();
    let got = c.sut("minimize_certified", || {
        p::optimize::minimize_certified(&|j: i64| and(side.clone(), p::cardinality::at_most(&vars, j.max(0) as usize, "aux")), 0, n as i64)
    });
    if let Some(got) = got {
        c.eval();
        match (best, got) {
            (None, None) => {}
            (Some(b), Some(r)) => {
                c.count("optima", 1);
                if r.optimum != b {
                    c.fail("optimum", format!("fewest true atoms in {side}: {} reported, {b} enumerated", r.optimum));
                }
            }
            (b, g) => c.fail("optimum-existence", format!("{side}: enumerated {b:?}, reported {:?}", g.map(|r| r.optimum))),
        }
    }
}

fn shift(e: &E, t: u32) -> E {
    match e {
        E::Atom(s) => {
            let (b, f) = s.split_once('@').unwrap();
            atom(&format!("{b}@{}", f.parse::<u32>().unwrap() + t))
        }
        E::And(a, b) => and(shift(a, t), shift(b, t)),
        E::Or(a, b) => or(shift(a, t), shift(b, t)),
        E::Implies(a, b) => imp(shift(a, t), shift(b, t)),
        E::Iff(a, b) => iff(shift(a, t), shift(b, t)),
        E::Not(a) => not(shift(a, t)),
        o => o.clone(),
    }
}

struct Sys {
    n: usize,
    init: E,
    trans: E,
    prop: E,
    total: bool,
}

fn system(r: &mut Rng) -> Sys {
    let n = 1 + r.below(4);
    let sig = |i: usize, t: u32| atom(&format!("s{i}@{t}"));
    let now: Vec<E> = (0..n).map(|i| sig(i, 0)).collect();
    let init = match r.below(3) {
        0 => grow(r, &now, 1),
        _ => {
            let mut e = not(sig(0, 0));
            for i in 1..n {
                let s = sig(i, 0);
                if r.chance(4, 5) {
                    e = and(e, if r.chance(2, 3) { not(s) } else { s });
                }
            }
            e
        }
    };
    let total = r.chance(3, 4);
    let trans = if total {
        let sym = r.chance(1, 4);
        let shared = grow(r, &now, 1);
        let mut e: Option<E> = None;
        for i in 0..n {
            let f = if sym {
                match &shared {
                    _ if r.chance(1, 8) => grow(r, &now, 2),
                    s => or(now[i].clone(), s.clone()),
                }
            } else if r.chance(1, 3) {
                // Counter-like carry chain, so that violations appear only at depth.
                let mut carry: Option<E> = None;
                for s in &now[..i] {
                    carry = Some(match carry {
                        None => s.clone(),
                        Some(c) => and(c, s.clone()),
                    });
                }
                match carry {
                    None => not(now[i].clone()),
                    Some(c) => not(iff(now[i].clone(), c)),
                }
            } else {
                let d = 1 + r.below(2);
                grow(r, &now, d)
            };
            let q = iff(sig(i, 1), f);
            e = Some(match e {
                None => q,
                Some(e) => and(e, q),
            });
        }
        e.unwrap()
    } else {
        let mut both = now.clone();
        both.extend((0..n).map(|i| sig(i, 1)));
        grow(r, &both, 3)
    };
    let prop = match r.below(3) {
        0 => {
            let mut e = now[0].clone();
            for s in &now[1..] {
                e = and(e, s.clone());
            }
            not(e)
        }
        _ => grow(r, &now, 2),
    };
    Sys { n, init, trans, prop, total }
}

fn reachability(c: &mut Case) {
    let s = system(&mut c.rng);
    let n = s.n;
    let look = |st: u32, nx: u32| {
        move |name: &str| {
            let (b, f) = name.split_once('@')?;
            let i: u32 = b[1..].parse().ok()?;
            Some(if f == "0" { st } else { nx } >> i & 1 == 1)
        }
    };
    let states = 1u32 << n;
    let inits: Vec<u32> = (0..states).filter(|&x| value(&s.init, &look(x, 0)).unwrap()).collect();
    let step: Vec<Vec<u32>> =
        (0..states).map(|x| (0..states).filter(|&y| value(&s.trans, &look(x, y)).unwrap()).collect()).collect();
    let good: Vec<bool> = (0..states).map(|x| value(&s.prop, &look(x, 0)).unwrap()).collect();
    // Breadth first: the states at exactly each depth.
    let max_k = 1 + c.rng.below(6) as u32;
    let mut layer = inits.clone();
    let mut first = None;
    let mut seen = vec![false; states as usize];
    let mut ever_bad = false;
    for k in 0..=(states + max_k) {
        if first.is_none() && k <= max_k && layer.iter().any(|&x| !good[x as usize]) {
            first = Some(k);
        }
        for &x in &layer {
            seen[x as usize] = true;
            ever_bad |= !good[x as usize];
        }
        let mut nx: Vec<u32> = layer.iter().flat_map(|&x| step[x as usize].iter().copied()).collect();
        nx.sort();
        nx.dedup();
        layer = nx;
    }
    let show = format!("init {} trans {} prop {} k<={max_k}", s.init, s.trans, s.prop);
    c.nontrivial(&show);
    c.count("systems", 1);
    c.count(if first.is_some() { "systems_violating" } else { "systems_safe_within" }, 1);
    let trans = |t: u32| shift(&s.trans, t);
    let prop = |t: u32| shift(&s.prop, t);

    let check_trace = |c: &mut Case, who: &str, k: u32, trace: &[(String, bool)]| {
        let mut st = vec![0u32; k as usize + 1];
        let mut known = vec![0u32; k as usize + 1];
        for (a, v) in trace {
            let Some((b, f)) = a.split_once('@') else { continue };
            let (Ok(i), Ok(f)) = (b[1..].parse::<usize>(), f.parse::<usize>()) else { continue };
            if f <= k as usize {
                known[f] |= 1 << i;
                if *v {
                    st[f] |= 1 << i;
                }
            }
        }
        // Unmentioned signals are unconstrained: some completion must be a violating run.
        let mut cur: Vec<u32> = inits.iter().copied().filter(|x| x & known[0] == st[0]).collect();
        for f in 1..=k as usize {
            let mut nx: Vec<u32> =
                cur.iter().flat_map(|&x| step[x as usize].iter().copied()).filter(|x| x & known[f] == st[f]).collect();
            nx.sort();
            nx.dedup();
            cur = nx;
        }
        if !cur.iter().any(|&x| !good[x as usize]) {
            c.fail(&format!("bad-trace:{who}"), format!("{who}: trace {trace:?} at depth {k} is not a violating run of {show}"));
        }
    };
    let mut runs: Vec<(&str, Option<BmcOutcome>)> = vec![
        ("bmc", c.sut("bmc", || bmc::find_counterexample(&s.init, &trans, &prop, max_k))),
        ("bmc_symmetric", c.sut("bmc_symmetric", || bmc::find_counterexample_symmetric(&s.init, &trans, &prop, max_k))),
    ];
    if s.total {
        runs.push(("bmc_incremental", c.sut("bmc_incremental", || bmc::find_counterexample_incremental(&s.init, &trans, &prop, max_k))));
    }
    for (who, r) in runs {
        match r {
            Some(BmcOutcome::CounterexampleAt { k, trace }) => {
                c.eval();
                if first != Some(k) {
                    c.fail(&format!("wrong-depth:{who}"), format!("{who}: violation at depth {k}, enumeration says {first:?}: {show}"));
                } else {
                    check_trace(c, who, k, &trace);
                    c.seen("violation depths", &k);
                }
            }
            Some(BmcOutcome::NoneWithin(k)) => {
                c.eval();
                if first.is_some() || k != max_k {
                    c.fail(&format!("missed:{who}"), format!("{who}: none within {k}, enumeration finds {first:?}: {show}"));
                }
            }
            Some(BmcOutcome::Unsupported) => c.fail(&format!("unsupported:{who}"), show.clone()),
            None => {}
        }
    }
    let k = 1 + c.rng.below(3) as u32;
    match c.sut("prove_invariant", || bmc::prove_invariant(&s.init, &trans, &prop, k)) {
        Some(InductionOutcome::Proven) => {
            c.eval();
            c.count("invariants_proven", 1);
            if ever_bad {
                c.fail("wrong:prove_invariant", format!("called invariant at k={k} but a violation is reachable: {show}"));
            }
        }
        Some(InductionOutcome::CounterexampleAt { k: d, trace }) => {
            c.eval();
            c.count("invariants_refuted", 1);
            if !ever_bad {
                c.fail("wrong:prove_invariant", format!("counterexample at {d} for an invariant: {show}"));
            } else {
                check_trace(c, "prove_invariant", d, &trace);
            }
        }
        Some(InductionOutcome::NotInductive) => {
            c.eval();
            c.count("not_inductive", 1);
            // One-step induction is decided by enumeration of single steps.
            let inductive = (0..states).all(|x| !good[x as usize] || step[x as usize].iter().all(|&y| good[y as usize]));
            if k == 1 && inductive {
                c.fail("missed:prove_invariant", format!("a one-step inductive property is called not inductive: {show}"));
            }
        }
        Some(InductionOutcome::Unsupported) => c.fail("unsupported:prove_invariant", show.clone()),
        None => {}
    }
}

pub fn check(rep: &Report) {
    rep.rule("every formula-level answer (model, refutation, entailment, equivalence, counterexample, counting bound, optimum) agrees with the truth table");
    rep.rule("bounded model checking and induction agree with explicit-state exploration, traces are real runs");
    rep.cases("formulas", scale(80_000, 800_000), formulas);
    rep.cases("entailment", scale(80_000, 800_000), entailment);
    rep.cases("arithmetic", scale(40_000, 300_000), arithmetic);
    rep.cases("counting", scale(1_500, 12_000), counting);
    rep.cases("reachability", scale(30_000, 300_000), reachability);
    rep.require("satisfiable", 2000);
    rep.require("unsatisfiable", 1000);
    rep.require("entailed", 2000);
    rep.require("not_entailed", 2000);
    rep.require("systems_violating", 500);
    rep.require("invariants_proven", 200);
    rep.require("arith_counterexamples", 300);
}
