//! Satisfiability answers: every front end against enumeration, every certificate against our own replay.

use crate::cnf::{self, bits, formula, from, lit, replay, satisfied, subsets, to, unlit, Cl, Step, Table, F};
use logicaffeine_proof as p;
use p::cdcl::{BudgetedResult, Lit, RestartMode, SolveResult, Solver};
use p::proof::{Perm, ProofStep, Witness};
use p::solve::{Answer, Solved};
use serde_json::json;
use vkit::{scale, Case, Report, Rng};

fn steps_of(s: &[ProofStep]) -> Vec<Step> {
    let cl = |c: &Vec<Lit>| c.iter().map(|&l| unlit(l)).collect::<Cl>();
    s.iter()
        .map(|s| match s {
            ProofStep::Rup(c) => Step::Rup(cl(c)),
            ProofStep::Delete(c) => Step::Del(cl(c)),
            ProofStep::Pr { clause, witness } => match witness {
                Witness::Assignment(w) => Step::Assign(cl(clause), cl(w)),
                Witness::Substitution(g) => {
                    Step::Subst(cl(clause), (0..g.num_vars()).map(|v| unlit(g.apply(Lit::pos(v as u32)))).collect())
                }
            },
        })
        .collect()
}

fn show(f: &F) -> String {
    format!("{} n={} {:?}", f.kind, f.n, f.cls)
}

/// An answer against the known truth, with a full re-check of the model.
fn judge(c: &mut Case, who: &str, f: &F, truth: bool, model: Option<&[bool]>) {
    c.eval();
    match model {
        Some(m) => {
            if !truth {
                c.fail(&format!("wrong-sat:{who}"), format!("{who} reports a model of an unsatisfiable formula: {}", show(f)));
            } else if m.len() < f.n || !satisfied(&f.cls, m) {
                c.fail(&format!("bad-model:{who}"), format!("{who} returned {m:?}, which does not satisfy {}", show(f)));
            }
        }
        None => {
            if truth {
                c.fail(&format!("wrong-unsat:{who}"), format!("{who} reports a satisfiable formula as unsatisfiable: {}", show(f)));
            }
        }
    }
}

fn replayed(c: &mut Case, who: &str, n: usize, f: &F, steps: &[ProofStep]) {
    c.count("refutations_replayed", 1);
    for s in steps {
        c.count(
            match s {
                ProofStep::Rup(_) => "steps_rup",
                ProofStep::Delete(_) => "steps_delete",
                ProofStep::Pr { witness: Witness::Assignment(_), .. } => "steps_pr",
                ProofStep::Pr { .. } => "steps_sr",
            },
            1,
        );
    }
    if let Err(e) = replay(n, &f.cls, &steps_of(steps)) {
        c.fail(&format!("bad-proof:{who}"), format!("{who}: certificate rejected by an independent replay ({e}) for {}", show(f)));
    }
}

fn truth_of(c: &mut Case, f: &F) -> Option<bool> {
    if f.n <= 18 {
        return Some(Table::new(f.n, &f.cls).first().is_some());
    }
    let mut budget = 60_000;
    let t = cnf::dpll(f.n, &f.cls, &mut budget);
    if t.is_none() {
        c.count("reference_gave_up", 1);
    }
    t
}

fn configured(r: &mut Rng, n: usize) -> (Solver, String) {
    let mut s = Solver::new(n);
    let mode = *r.pick(&[RestartMode::Adaptive, RestartMode::Glucose, RestartMode::Luby]);
    s.set_restart_mode(mode);
    let inp = r.bool();
    s.set_inprocess(inp);
    let gap = *r.pick(&[1u64, 5, 50, 1000]);
    s.set_inprocess_interval(gap);
    let red = r.bool();
    s.set_reduce(red);
    let lim = *r.pick(&[1usize, 4, 20, 2000]);
    s.set_reduce_limit(lim);
    if r.bool() {
        let ph: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        s.set_initial_phase(&ph);
    }
    (s, format!("{mode:?}/inprocess={inp}/{gap}/reduce={red}/{lim}"))
}

/// One engine, every tuning knob, incremental use.
fn engine(c: &mut Case) {
    let wide = c.rng.chance(15, 100);
    let max_n = if wide { 60 } else { 14 };
    let kind = if wide { *c.rng.pick(&["random", "threshold", "parity", "colouring", "two", "horn", "pigeonhole"]) } else { *c.rng.pick(cnf::KINDS) };
    let f = cnf::formula_of(&mut c.rng, kind, max_n);
    let Some(truth) = truth_of(c, &f) else { return };
    c.nontrivial(&f.cls);
    c.seen("families", f.kind);
    let cls = to(&f.cls);
    let (mut s, cfg) = configured(&mut c.rng, f.n);
    let how = c.rng.below(4);
    let assumption_runs = c.rng.range(1, 6);
    let r = c.sut("solve", || {
        for cl in &cls {
            s.add_clause(cl.clone());
        }
        match how {
            0 => s.solve(),
            1 => {
                // bounded rounds until an answer, as the incremental callers do
                let mut k = 1;
                loop {
                    match s.solve_budgeted(k) {
                        BudgetedResult::Sat(m) => break SolveResult::Sat(m),
                        BudgetedResult::Unsat => break SolveResult::Unsat,
                        BudgetedResult::Budget => k = k * 2 + 1,
                    }
                    if k > 1 << 40 {
                        panic!("no answer");
                    }
                }
            }
            2 => {
                if !s.subsume() || !s.probe() || !s.vivify() {
                    SolveResult::Unsat
                } else {
                    s.solve()
                }
            }
            _ => s.solve_under_assumptions(&[]),
        }
    });
    let Some(r) = r else { return };
    c.seen("configurations", &cfg);
    c.count("conflicts", s.conflicts());
    c.count("restarts", s.restarts());
    let who = ["engine", "engine-budgeted", "engine-inprocess", "engine-assume"][how];
    match &r {
        SolveResult::Sat(m) => judge(c, who, &f, truth, Some(m)),
        SolveResult::Unsat => judge(c, who, &f, truth, None),
    }
    if !truth && how == 0 && matches!(r, SolveResult::Unsat) {
        let learned: Vec<ProofStep> = s.learned().iter().map(|l| ProofStep::Rup(l.lits.clone())).collect();
        c.count("learned_clauses", learned.len() as u64);
        replayed(c, "engine-trace", f.n, &f, &learned);
    }
    if f.n > 14 {
        return;
    }
    // queries under assumptions on one solver, interleaved with new clauses
    let (mut s, _) = configured(&mut c.rng, f.n);
    let mut now = f.clone();
    now.cls.truncate(c.rng.below(f.cls.len() + 1));
    for cl in &now.cls {
        s.add_clause(cl.iter().map(|&l| lit(l)).collect());
    }
    for _ in 0..assumption_runs {
        let k = c.rng.below(4);
        let asm: Vec<i32> = (0..k).map(|_| c.rng.range(1, f.n as i64) as i32 * if c.rng.bool() { 1 } else { -1 }).collect();
        let mut g = now.clone();
        g.cls.extend(asm.iter().map(|&l| vec![l]));
        let t = Table::new(g.n, &g.cls).first().is_some();
        let la: Vec<Lit> = asm.iter().map(|&l| lit(l)).collect();
        let Some(r) = c.sut("solve_under_assumptions", || s.solve_under_assumptions(&la)) else { return };
        c.count("assumption_queries", 1);
        match r {
            SolveResult::Sat(m) => judge(c, "assumptions", &g, t, Some(&m)),
            SolveResult::Unsat => judge(c, "assumptions", &g, t, None),
        }
    }
}

/// Every dispatcher over the same formula.
fn fronts(c: &mut Case) {
    let wide = c.rng.chance(10, 100);
    let f = formula(&mut c.rng, if wide { 24 } else { 14 });
    fronts_on(c, f, false);
}

/// The exhaustive dispatchers take minutes beyond a handful of variables or with repeated clauses.
fn exhaustive(c: &mut Case) {
    let mut f = tidy(formula(&mut c.rng, 6));
    f.cls.truncate(18);
    fronts_on(c, f, true);
}

/// Repeated clauses and unused variables make the symmetry search exponential; drop them.
fn tidy(mut f: F) -> F {
    let mut had = std::collections::HashSet::new();
    f.cls.retain(|c| had.insert(norm(c)));
    let mut map = std::collections::BTreeMap::new();
    for l in f.cls.iter().flatten() {
        map.insert(l.unsigned_abs(), 0i32);
    }
    for (i, v) in map.values_mut().enumerate() {
        *v = i as i32 + 1;
    }
    for l in f.cls.iter_mut().flatten() {
        *l = map[&l.unsigned_abs()] * l.signum();
    }
    f.n = map.len().max(1);
    f
}

fn fronts_on(c: &mut Case, f: F, all: bool) {
    let Some(truth) = truth_of(c, &f) else { return };
    c.nontrivial(&f.cls);
    c.seen("families", f.kind);
    let cls = to(&f.cls);
    let n = f.n;
    let which: &[(&str, &dyn Fn() -> Option<Solved>)] = &[
        ("structured", &|| Some(p::solve::solve_structured(n, &cls))),
        ("prefix", &|| p::solve::structured_prefix(n, &cls)),
        ("comprehensive", &|| Some(p::solve::solve_comprehensive(n, &cls))),
        ("components", &|| Some(p::solve::solve_by_components(n, &cls))),
        ("symmetry", &|| Some(p::solve::solve_by_symmetry_breaking(n, &cls))),
    ];
    let mut answers = Vec::new();
    for (i, (who, run)) in which.iter().enumerate() {
        if (i >= 2) != all {
            continue;
        }
        let Some(got) = c.sut(who, || run()) else { continue };
        let Some(s) = got else { continue };
        c.seen("routes", &format!("{who}/{:?}/{}", s.via, matches!(s.answer, Answer::Sat(_))));
        c.count(&format!("route_{:?}", s.via), 1);
        let via = format!("{who}/{:?}", s.via);
        match &s.answer {
            Answer::Sat(m) => judge(c, &via, &f, truth, Some(m)),
            Answer::Unsat => {
                judge(c, &via, &f, truth, None);
                // the attached stream only counts once written out; the writer refuses what it cannot certify
                if !s.proof.is_empty() && !truth && f.n <= 14 {
                    emitted(c, &f, &cls, n, &via, &s.proof);
                }
            }
        }
        answers.push((via, matches!(s.answer, Answer::Sat(_))));
    }
    if all {
    // a declared symmetry may be wrong; the answer may not
    let gens: Vec<Vec<usize>> = (0..c.rng.range(1, 2))
        .map(|_| {
            let mut q: Vec<usize> = (0..n).collect();
            if c.rng.bool() {
                c.rng.shuffle(&mut q);
            } else if n > 1 {
                let (a, b) = (c.rng.below(n), c.rng.below(n));
                q.swap(a, b);
            }
            q
        })
        .collect();
    if let Some(s) = c.sut("declared", || p::solve::solve_with_declared_symmetry(n, &cls, &gens)) {
        c.count("declared_symmetries", gens.len() as u64);
        match &s.answer {
            Answer::Sat(m) => judge(c, "declared", &f, truth, Some(m)),
            Answer::Unsat => judge(c, "declared", &f, truth, None),
        }
    }
    }
    c.sample(|| json!({"formula": show(&f), "satisfiable": truth, "answers": format!("{answers:?}")}));
}

/// Certified front ends, certificate emitters and the repository's own proof checkers.
fn certificates(c: &mut Case) {
    let f = tidy(formula(&mut c.rng, 8));
    let Some(truth) = truth_of(c, &f) else { return };
    c.nontrivial(&f.cls);
    let cls = to(&f.cls);
    let n = f.n;
    let mut proofs: Vec<(String, Vec<ProofStep>)> = Vec::new();
    match c.sut("solve_certified", || p::sdcl::solve_certified(n, &cls)) {
        Some(p::sdcl::CertifiedOutcome::Sat(m)) => judge(c, "certified", &f, truth, Some(&m)),
        Some(p::sdcl::CertifiedOutcome::Unsat { steps, .. }) => {
            judge(c, "certified", &f, truth, None);
            proofs.push(("certified".into(), steps));
        }
        None => return,
    }
    if let Some(s) = c.sut("sdcl_refute", || p::sdcl::sdcl_refute(n, &cls)) {
        if s.refuted {
            judge(c, "sdcl", &f, truth, None);
            proofs.push(("sdcl".into(), s.steps));
        } else if !truth {
            c.fail("missed-refutation:sdcl", format!("no refutation of the unsatisfiable {}", show(&f)));
        }
    }
    if let Some(s) = c.sut("certified_unsat_auto", || p::sym_certify::certified_unsat_auto(n, &cls)) {
        if s.refuted {
            judge(c, "certified-auto", &f, truth, None);
            proofs.push(("certified-auto".into(), s.steps));
        }
    }
    let gens = c.sut("find_generators", || p::symmetry_detect::find_generators(n, &cls)).unwrap_or_default();
    for g in &gens {
        // a generator must map the clause set onto itself
        let have: std::collections::HashSet<Vec<i32>> = f.cls.iter().map(|c| norm(c)).collect();
        for cl in &cls {
            let im: Vec<i32> = g.apply_clause(cl).iter().map(|&l| unlit(l)).collect();
            if !have.contains(&norm(&im)) {
                c.fail("bad-generator", format!("reported symmetry {g:?} does not preserve {}", show(&f)));
                break;
            }
        }
        c.count("generators", 1);
    }
    for (who, r) in [
        ("certified-lead", c.sut("certified_unsat", || p::sym_certify::certified_unsat(n, &cls, &gens))),
        ("certified-lex", c.sut("certified_unsat_lex", || p::sym_certify::certified_unsat_lex(n, &cls, &gens))),
    ] {
        if let Some(s) = r {
            if s.refuted {
                judge(c, who, &f, truth, None);
                proofs.push((who.into(), s.steps));
            }
        }
    }
    if !truth {
        if let Some(s) = c.sut("plain_cdcl_refutation", || p::sdcl::plain_cdcl_refutation(n, &cls)) {
            proofs.push(("plain".into(), s));
        }
        if let Some(Some(s)) = c.sut("bucket_elimination_refute", || p::inprocess::bucket_elimination_refute(n, &cls, 12)) {
            proofs.push(("bucket".into(), s));
        }
    } else if let Some(Some(_)) = c.sut("bucket_elimination_refute", || p::inprocess::bucket_elimination_refute(n, &cls, 12)) {
        c.fail("wrong-unsat:bucket", format!("bucket elimination refutes the satisfiable {}", show(&f)));
    }
    if let Some(r) = c.sut("equivalent_literal_scc", || p::inprocess::equivalent_literal_scc(n, &cls)) {
        match r {
            p::inprocess::EquivResult::Unsat(s) => {
                judge(c, "equivalent-literals", &f, truth, None);
                proofs.push(("equivalent-literals".into(), s));
            }
            p::inprocess::EquivResult::Classes(k) => {
                let models = Table::new(n, &f.cls).models();
                for a in 0..2 * n {
                    for b in 0..a {
                        if k[a] == k[b] {
                            let val = |x: usize, m: u32| (m >> (x / 2) & 1 == 1) == (x % 2 == 0);
                            if models.iter().any(|&m| val(a, m) != val(b, m)) {
                                c.fail("bad-equivalence", format!("literals {a} and {b} are called equivalent in {}", show(&f)));
                            }
                        }
                    }
                }
            }
        }
    }
    let nv = |steps: &[ProofStep]| {
        steps.iter().flat_map(|s| s.clause().iter().map(|l| l.var() as usize + 1)).max().unwrap_or(0).max(n)
    };
    let written = c.rng.below(proofs.len().max(1));
    for (i, (who, steps)) in proofs.iter().enumerate() {
        let nn = nv(steps);
        replayed(c, who, nn, &f, steps);
        if truth {
            continue;
        }
        // the repository's own checkers must accept what its solvers emit
        let (a, b) = (
            c.sut("check_pr_refutation", || p::pr::check_pr_refutation(nn, &cls, steps)),
            c.sut("check_pr_refutation_fast", || p::pr::check_pr_refutation_fast(nn, &cls, steps)),
        );
        if a != b || (a != Some(true) && !truth) {
            c.fail(&format!("checker-rejects:{who}"), format!("checkers answer {a:?}/{b:?} on a certificate that replays, for {}", show(&f)));
        }
        if i == written {
            emitted(c, &f, &cls, nn, who, steps);
        }
    }
    // simplification
    if let Some((red, steps)) = c.sut("bve", || p::inprocess::bve(n, &cls)) {
        let t2 = Table::new(n, &from(&red)).first().is_some();
        c.eval();
        if t2 != truth {
            c.fail("bve-changes-answer", format!("variable elimination turns satisfiable={truth} into {t2} for {}", show(&f)));
        }
        if red.iter().any(|c| c.is_empty()) {
            replayed(c, "bve", n, &f, &steps);
        }
    }
    if let Some((red, _)) = c.sut("vivify", || p::inprocess::vivify(n, &cls)) {
        let (a, b) = (Table::new(n, &f.cls), Table::new(n, &from(&red)));
        c.eval();
        if let Some(m) = (0..1u32 << n).find(|&m| a.holds(m) != b.holds(m)) {
            c.fail("vivify-changes-meaning", format!("clause strengthening changes the value at {m:b} of {}", show(&f)));
        }
    }
    checkers(c, &f, truth, &cls, &proofs);
}

fn norm(c: &[i32]) -> Vec<i32> {
    let mut v = c.to_vec();
    v.sort();
    v.dedup();
    v
}

fn lits_line(line: &str) -> Option<Vec<i32>> {
    line.split_whitespace().map(|t| t.parse().ok()).collect()
}

/// Replays the text formats a third-party checker would read.
fn emitted(c: &mut Case, f: &F, cls: &[Vec<Lit>], n: usize, who: &str, steps: &[ProofStep]) {
    if let Some(Ok(t)) = c.sut("emit_drat", || p::proof_emit::emit_drat(n, cls, steps)) {
        c.count("texts_drat", 1);
        let mut st = Vec::new();
        let mut ended = false;
        for line in t.lines() {
            let (del, body) = match line.strip_prefix("d ") {
                Some(b) => (true, b),
                None => (false, line),
            };
            match lits_line(body) {
                Some(mut v) if v.last() == Some(&0) && v.iter().filter(|&&x| x == 0).count() == 1 => {
                    v.pop();
                    if v.is_empty() && !del {
                        ended = true;
                    }
                    st.push(if del { Step::Del(v) } else { Step::Rup(v) });
                }
                _ => c.fail("drat-syntax", format!("malformed proof line {line:?}")),
            }
        }
        if !ended {
            c.fail("drat-incomplete", format!("{who}: emitted proof does not derive the empty clause"));
        }
        if let Err(e) = replay(n, &f.cls, &st) {
            c.fail("drat-rejected", format!("{who}: emitted proof text does not replay: {e}"));
        }
    }
    if let Some(Ok(t)) = c.sut("emit_dpr", || p::proof_emit::emit_dpr(n, cls, steps)) {
        c.count("texts_dpr", 1);
        let mut st = Vec::new();
        for line in t.lines() {
            let (del, body) = match line.strip_prefix("d ") {
                Some(b) => (true, b),
                None => (false, line),
            };
            let Some(v) = lits_line(body) else {
                c.fail("dpr-syntax", format!("malformed proof line {line:?}"));
                continue;
            };
            let z: Vec<usize> = v.iter().enumerate().filter(|(_, &x)| x == 0).map(|(i, _)| i).collect();
            match z.len() {
                1 if del => st.push(Step::Del(v[..z[0]].to_vec())),
                1 => st.push(Step::Rup(v[..z[0]].to_vec())),
                2 => st.push(Step::Assign(v[..z[0]].to_vec(), v[z[0] + 1..z[1]].to_vec())),
                _ => c.fail("dpr-syntax", format!("malformed proof line {line:?}")),
            }
        }
        if let Err(e) = replay(n, &f.cls, &st) {
            c.fail("dpr-rejected", format!("{who}: emitted witness proof does not replay: {e}"));
        }
        match c.sut("parse_dpr", || p::proof_emit::parse_dpr(&t)) {
            Some(Ok(back)) => {
                if let Err(e) = replay(n, &f.cls, &steps_of(&back)) {
                    c.fail("dpr-reparse", format!("{who}: re-read proof does not replay: {e}"));
                }
            }
            Some(Err(e)) => c.fail("dpr-reparse", format!("own proof text refused: {e}")),
            None => {}
        }
    }
    if let Some(Ok(t)) = c.sut("emit_lrat", || p::proof_emit::emit_lrat(n, cls, steps)) {
        c.count("texts_lrat", 1);
        if let Err(e) = lrat(&f.cls, &t) {
            c.fail("lrat-rejected", format!("{who}: hinted proof does not replay: {e}\n{t}"));
        }
        if c.sut("check_lrat", || p::proof_emit::check_lrat(n, cls, &t)) != Some(true) {
            c.fail("lrat-own-rejected", format!("{who}: own checker refuses own hinted proof"));
        }
    }
}

/// A literal-minded hint checker.
fn lrat(cls: &[Cl], text: &str) -> Result<(), String> {
    let mut db: std::collections::HashMap<i64, Cl> = cls.iter().enumerate().map(|(i, c)| (i as i64 + 1, c.clone())).collect();
    for line in text.lines() {
        let mut t = line.split_whitespace();
        let id: i64 = t.next().and_then(|x| x.parse().ok()).ok_or("no id")?;
        let rest: Vec<&str> = t.collect();
        if rest.first() == Some(&"d") {
            for d in &rest[1..] {
                let d: i64 = d.parse().map_err(|_| "bad id")?;
                if d != 0 && db.remove(&d).is_none() {
                    return Err(format!("deletes unknown {d}"));
                }
            }
            continue;
        }
        let v: Vec<i64> = rest.iter().map(|x| x.parse().map_err(|_| "bad number".to_string())).collect::<Result<_, _>>()?;
        let z = v.iter().position(|&x| x == 0).ok_or("unterminated")?;
        let clause: Cl = v[..z].iter().map(|&x| x as i32).collect();
        let hints = &v[z + 1..];
        if hints.last() != Some(&0) {
            return Err("unterminated hints".into());
        }
        let mut a: std::collections::HashMap<i32, bool> = Default::default();
        let mut done = false;
        for &l in &clause {
            if a.insert(l.abs(), l < 0) == Some(l > 0) {
                done = true; // tautology
            }
        }
        for h in &hints[..hints.len() - 1] {
            if done {
                break;
            }
            let d = db.get(h).ok_or_else(|| format!("unknown hint {h}"))?;
            let mut unit = None;
            for &l in d {
                match a.get(&l.abs()) {
                    Some(&b) if b == (l > 0) => return Err(format!("hint {h} is satisfied")),
                    Some(_) => {}
                    None => {
                        if unit.is_some() && unit != Some(l) {
                            return Err(format!("hint {h} is not unit"));
                        }
                        unit = Some(l);
                    }
                }
            }
            match unit {
                None => done = true,
                Some(l) => {
                    a.insert(l.abs(), l > 0);
                }
            }
        }
        if !done {
            return Err(format!("line {id} reaches no conflict"));
        }
        if clause.is_empty() {
            return Ok(());
        }
        db.insert(id, clause);
    }
    Err("no empty clause".into())
}

/// The shipped checkers as subjects: they must never bless something false.
fn checkers(c: &mut Case, f: &F, truth: bool, cls: &[Vec<Lit>], proofs: &[(String, Vec<ProofStep>)]) {
    let n = f.n;
    let table = Table::new(n, &f.cls);
    for _ in 0..12 {
        let k = c.rng.range(1, 3) as usize;
        let clause: Vec<i32> = (0..k).map(|_| c.rng.range(1, n as i64) as i32 * if c.rng.bool() { 1 } else { -1 }).collect();
        let lc: Vec<Lit> = clause.iter().map(|&l| lit(l)).collect();
        let w = if c.rng.bool() {
            let mut vs: Vec<usize> = (0..n).collect();
            c.rng.shuffle(&mut vs);
            let k = c.rng.range(1, n as i64) as usize;
            let mut ws: Vec<Lit> = vs[..k].iter().map(|&v| Lit::new(v as u32, c.rng.bool())).collect();
            if c.rng.chance(3, 4) {
                ws.retain(|l| l.var() != lc[0].var());
                ws.push(lc[0]);
            }
            Witness::Assignment(ws)
        } else {
            let mut q: Vec<usize> = (0..n).collect();
            if c.rng.bool() {
                c.rng.shuffle(&mut q);
            } else if n > 1 {
                let (a, b) = (c.rng.below(n), c.rng.below(n));
                q.swap(a, b);
            }
            Witness::Substitution(Perm::from_images(q.iter().map(|&v| Lit::new(v as u32, c.rng.chance(5, 6))).collect()))
        };
        let Some(a) = c.sut("is_pr", || p::pr::is_pr(n, cls, &lc, &w)) else { return };
        c.count("redundancy_queries", 1);
        c.eval();
        if a {
            c.count("redundancy_accepted", 1);
            let mut g = f.cls.clone();
            g.push(clause.clone());
            if truth && Table::new(n, &g).first().is_none() {
                c.fail("unsound-redundancy", format!("checker accepts {clause:?} with {w:?}, which makes {} unsatisfiable", show(f)));
            }
        }
        let steps = vec![ProofStep::Pr { clause: lc.clone(), witness: w.clone() }];
        let (x, y) = (
            c.sut("check_pr_refutation", || p::pr::check_pr_refutation(n, cls, &steps)),
            c.sut("check_pr_refutation_fast", || p::pr::check_pr_refutation_fast(n, cls, &steps)),
        );
        if x != y {
            c.fail("checkers-disagree", format!("plain checker {x:?}, indexed checker {y:?} on {steps:?} for {}", show(f)));
        }
        if x == Some(true) && truth {
            c.fail("unsound-checker", format!("refutation {steps:?} of the satisfiable {} accepted", show(f)));
        }
    }
    if truth {
        // no stream of clauses may pass as a refutation of a satisfiable formula
        for _ in 0..6 {
            let mut steps: Vec<ProofStep> = Vec::new();
            for _ in 0..c.rng.range(0, 6) {
                let k = c.rng.range(0, 3) as usize;
                let cl: Vec<Lit> = (0..k).map(|_| Lit::new(c.rng.below(n) as u32, c.rng.bool())).collect();
                steps.push(match c.rng.below(4) {
                    0 => ProofStep::Delete(cl),
                    1 => ProofStep::Pr { witness: Witness::Assignment(cl.clone()), clause: cl },
                    _ => ProofStep::Rup(cl),
                });
            }
            let plain: Vec<Vec<Lit>> = steps.iter().filter(|s| matches!(s, ProofStep::Rup(_))).map(|s| s.clause().to_vec()).collect();
            let hits = [
                c.sut("check_pr_refutation", || p::pr::check_pr_refutation(n, cls, &steps)),
                c.sut("check_pr_refutation_fast", || p::pr::check_pr_refutation_fast(n, cls, &steps)),
                c.sut("check_refutation", || p::rup::check_refutation(n, cls, &plain)),
            ];
            c.count("bogus_refutations", 1);
            c.eval();
            if hits.iter().any(|h| *h == Some(true)) {
                c.fail("unsound-checker", format!("{hits:?}: bogus refutation {steps:?} of the satisfiable {} accepted", show(f)));
            }
        }
        let mut txt = String::new();
        let mut id = f.cls.len() as i64;
        for _ in 0..c.rng.range(1, 4) {
            id += 1;
            let k = c.rng.below(3);
            let cl: Vec<String> = (0..k).map(|_| format!("{}", c.rng.range(1, n as i64) * if c.rng.bool() { 1 } else { -1 })).collect();
            let h: Vec<String> = (0..c.rng.below(4)).map(|_| format!("{}", c.rng.range(1, id))).collect();
            txt.push_str(&format!("{id} {} 0 {} 0\n", cl.join(" "), h.join(" ")));
        }
        txt.push_str(&format!("{} 0 1 2 0\n", id + 1));
        if c.sut("check_lrat", || p::proof_emit::check_lrat(n, cls, &txt)) == Some(true) {
            c.fail("unsound-lrat", format!("hinted refutation of the satisfiable {} accepted:\n{txt}", show(f)));
        }
        return;
    }
    // a real proof with the formula weakened until satisfiable must stop checking
    for (who, steps) in proofs.iter().take(3) {
        let drop = c.rng.below(f.cls.len().max(1));
        let mut g = f.cls.clone();
        if drop < g.len() {
            g.remove(drop);
        }
        if Table::new(n, &g).first().is_none() {
            continue;
        }
        let lg = to(&g);
        let nn = n.max(steps.iter().flat_map(|s| s.clause().iter().map(|l| l.var() as usize + 1)).max().unwrap_or(0));
        c.count("weakened_refutations", 1);
        c.eval();
        for (k, r) in [
            ("plain", c.sut("check_pr_refutation", || p::pr::check_pr_refutation(nn, &lg, steps))),
            ("indexed", c.sut("check_pr_refutation_fast", || p::pr::check_pr_refutation_fast(nn, &lg, steps))),
        ] {
            if r == Some(true) {
                c.fail("unsound-checker", format!("{k} checker accepts the {who} refutation for the satisfiable {g:?}"));
            }
        }
        if let Some(Ok(t)) = c.sut("emit_lrat", || p::proof_emit::emit_lrat(nn, cls, steps)) {
            if c.sut("check_lrat", || p::proof_emit::check_lrat(nn, &lg, &t)) == Some(true) {
                c.fail("unsound-lrat", format!("hinted proof accepted for the satisfiable {g:?}"));
            }
        }
    }
    let _ = table;
}

/// Counting, optimisation, equivalence and symmetry reports against enumeration.
fn structure(c: &mut Case) {
    let f = tidy(formula(&mut c.rng, 7));
    let n = f.n;
    c.nontrivial(&f.cls);
    let cls = to(&f.cls);
    let table = Table::new(n, &f.cls);
    let models = table.models();
    let w: Vec<(i64, i64)> = (0..n).map(|_| (c.rng.range(-3, 5), c.rng.range(-3, 5))).collect();
    let weight_of = |m: u32| -> i128 { (0..n).map(|v| if m >> v & 1 == 1 { w[v].1 as i128 } else { w[v].0 as i128 }).product() };
    if models.len() <= 40 {
        if let Some(z) = c.sut("weighted_model_count", || p::solve::weighted_model_count(n, &cls, &w)) {
            let want: i128 = models.iter().map(|&m| weight_of(m)).sum();
            c.eval();
            c.count("weighted_counts", 1);
            if z != want {
                c.fail("weighted-count", format!("weighted count {z}, enumeration gives {want}, weights {w:?} for {}", show(&f)));
            }
        }
    }
    let occurs: Vec<usize> = (0..n).filter(|v| f.cls.iter().flatten().any(|l| l.unsigned_abs() as usize == v + 1)).collect();
    let proj = |m: u32| -> Vec<bool> { occurs.iter().map(|&v| m >> v & 1 == 1).collect() };
    let distinct: std::collections::HashSet<Vec<bool>> = models.iter().map(|&m| proj(m)).collect();
    if n <= 5 && distinct.len() <= 16 {
        if let Some(s) = c.sut("models_up_to_symmetry", || p::solve::models_up_to_symmetry(n, &cls, 1000)) {
            c.eval();
            c.count("symmetric_counts", 1);
            if !s.exhaustive || s.total_models != distinct.len() as u128 {
                c.fail("model-count", format!("reported {} models (exhaustive {}), enumeration gives {} for {}", s.total_models, s.exhaustive, distinct.len(), show(&f)));
            }
            for m in &s.representatives {
                if !satisfied(&f.cls, m) {
                    c.fail("bad-representative", format!("{m:?} is not a model of {}", show(&f)));
                }
            }
        }
    }
    // minimisation
    let cost: Vec<i64> = (0..n).map(|_| c.rng.range(-4, 6)).collect();
    let cost_of = |m: &[bool]| -> i64 { (0..n).map(|v| if m[v] { cost[v] } else { 0 }).sum() };
    if models.len() <= 60 {
        if let Some(r) = c.sut("optimize_modulo_symmetry", || p::solve::optimize_modulo_symmetry(n, &cls, &cost)) {
            let want = models.iter().map(|&m| cost_of(&bits(n, m))).min();
            c.eval();
            c.count("optimisations", 1);
            match (&r, want) {
                (None, None) => {}
                (Some((v, m)), Some(w)) if *v == w && satisfied(&f.cls, m) && cost_of(m) == w => {}
                _ => c.fail("optimum", format!("optimum {r:?}, enumeration gives {want:?}, costs {cost:?} for {}", show(&f))),
            }
        }
    }
    // equivalence with a variant
    let mut g = f.clone();
    for _ in 0..c.rng.range(0, 2) {
        match c.rng.below(3) {
            0 if !g.cls.is_empty() => {
                let i = c.rng.below(g.cls.len());
                g.cls.remove(i);
            }
            1 if !g.cls.is_empty() => {
                // a weaker copy keeps the meaning
                let i = c.rng.below(g.cls.len());
                let mut d = g.cls[i].clone();
                d.push(c.rng.range(1, n as i64) as i32);
                g.cls.push(d);
            }
            _ => {
                let v = c.rng.range(1, n as i64) as i32;
                g.cls.push(vec![v, -c.rng.range(1, n as i64) as i32]);
            }
        }
    }
    let tg = Table::new(n, &g.cls);
    if let Some(r) = c.sut("equivalent_modulo_symmetry", || p::solve::equivalent_modulo_symmetry(n, &cls, &to(&g.cls))) {
        let diff = (0..1u32 << n).find(|&m| table.holds(m) != tg.holds(m));
        c.eval();
        c.count("equivalences", 1);
        match r {
            p::solve::EquivVerdict::Equivalent => {
                if let Some(m) = diff {
                    c.fail("false-equivalence", format!("called equivalent, but they differ at {m:b}: {} / {:?}", show(&f), g.cls));
                }
            }
            p::solve::EquivVerdict::Differ(m) => {
                if satisfied(&f.cls, &m) == satisfied(&g.cls, &m) {
                    c.fail("bad-difference", format!("{m:?} does not tell {} from {:?}", show(&f), g.cls));
                }
            }
        }
    }
    // symmetry breaking keeps at least one model
    for (who, r) in [
        ("break-all", c.sut("break_all_symmetry", || (p::solve::break_all_symmetry(n, &cls), n))),
        ("break-complete", c.sut("break_all_symmetry_complete", || p::solve::break_all_symmetry_complete(n, &cls))),
    ] {
        let Some((b, total)) = r else { continue };
        let bb = from(&b);
        let t = if total <= 16 {
            Some(Table::new(total, &bb).first().is_some())
        } else {
            let mut budget = 40_000;
            cnf::dpll(total, &bb, &mut budget)
        };
        c.eval();
        c.count("symmetry_breaks", 1);
        if let Some(t) = t {
            if t != !models.is_empty() {
                c.fail(&format!("lost-models:{who}"), format!("{who} turns satisfiable={} into {t} for {}", !models.is_empty(), show(&f)));
            }
        }
    }
    if let Some(m) = c.sut("mine_clauses", || p::solve::mine_clauses(n, &cls)) {
        for cl in from(&m) {
            c.eval();
            if !models.iter().all(|&a| satisfied(std::slice::from_ref(&cl), &bits(n, a))) {
                c.fail("mined-not-implied", format!("mined clause {cl:?} is not implied by {}", show(&f)));
            }
        }
    }
    // isomorphism of relabelled copies, and of unrelated formulas for tiny n
    let mut perm: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut perm);
    let map = |cls: &[Cl]| -> Vec<Cl> {
        cls.iter()
            .map(|c| {
                c.iter()
                    .map(|&l| {
                        let v = perm[l.unsigned_abs() as usize - 1] as i32 + 1;
                        if l > 0 { v } else { -v }
                    })
                    .collect()
            })
            .collect()
    };
    let h = map(&f.cls);
    if let Some(Some(false)) = c.sut("formulas_isomorphic", || p::solve::formulas_isomorphic(n, &cls, &to(&h))) {
        c.fail("isomorphism-missed", format!("a relabelled copy by {perm:?} is called non-isomorphic: {}", show(&f)));
    }
    if let (Some(Some(a)), Some(Some(b))) = (
        c.sut("canonical_form", || p::solve::canonical_form(n, &cls)),
        c.sut("canonical_form", || p::solve::canonical_form(n, &to(&h))),
    ) {
        c.count("canonical_forms", 1);
        c.eval();
        if a != b {
            c.fail("canonical-form", format!("canonical forms differ for a relabelled copy by {perm:?} of {}", show(&f)));
        }
    }
    if n <= 5 {
        let set = |cls: &[Cl]| -> std::collections::BTreeSet<Vec<i32>> { cls.iter().map(|c| norm(c)).collect() };
        let all = perms(n);
        let app = |cls: &[Cl], q: &[usize]| -> Vec<Cl> {
            cls.iter()
                .map(|c| {
                    c.iter()
                        .map(|&l| {
                            let v = q[l.unsigned_abs() as usize - 1] as i32 + 1;
                            if l > 0 { v } else { -v }
                        })
                        .collect()
                })
                .collect()
        };
        let fs = set(&f.cls);
        let autos = all.iter().filter(|q| set(&app(&f.cls, q)) == fs).count() as u128;
        let degenerate = f.cls.iter().any(|c| norm(c).len() != c.len() || c.iter().any(|l| c.contains(&-l)) || c.is_empty());
        if !degenerate {
            if let Some(Some(o)) = c.sut("symmetry group", || {
                p::sym_break::variable_automorphism_generators(n, &cls).map(|g| p::permgroup::schreier_sims(n, &g).order())
            }) {
                c.eval();
                c.count("group_orders", 1);
                if o != autos {
                    c.fail("group-order", format!("reported {o} symmetries, enumeration finds {autos} for {}", show(&f)));
                }
            }
            let gs = set(&g.cls);
            let iso = all.iter().any(|q| set(&app(&f.cls, q)) == gs);
            let g_deg = g.cls.iter().any(|c| norm(c).len() != c.len() || c.iter().any(|l| c.contains(&-l)) || c.is_empty());
            if !g_deg {
                if let Some(Some(r)) = c.sut("formulas_isomorphic", || p::solve::formulas_isomorphic(n, &cls, &to(&g.cls))) {
                    c.eval();
                    if r != iso && fs.len() == f.cls.len() && gs.len() == g.cls.len() {
                        c.fail("isomorphism", format!("isomorphic={r}, enumeration says {iso}: {} / {:?}", show(&f), g.cls));
                    }
                }
            }
        }
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for q in perms(n - 1) {
        for i in 0..n {
            let mut r = q.clone();
            r.insert(i, n - 1);
            out.push(r);
        }
    }
    out
}

/// Permutation groups against their element lists.
fn groups(c: &mut Case) {
    use p::permgroup as g;
    let n = c.rng.range(1, 6) as usize;
    let gens: Vec<Vec<usize>> = (0..c.rng.range(0, 3))
        .map(|_| {
            let mut q: Vec<usize> = (0..n).collect();
            if c.rng.bool() {
                c.rng.shuffle(&mut q);
            } else {
                let (a, b) = (c.rng.below(n), c.rng.below(n));
                q.swap(a, b);
            }
            q
        })
        .collect();
    let mul = |a: &[usize], b: &[usize]| -> Vec<usize> { (0..a.len()).map(|i| b[a[i]]).collect() };
    let id: Vec<usize> = (0..n).collect();
    let mut all: std::collections::BTreeSet<Vec<usize>> = [id.clone()].into();
    let mut todo = vec![id];
    while let Some(x) = todo.pop() {
        for q in &gens {
            let y = mul(&x, q);
            if all.insert(y.clone()) {
                todo.push(y);
            }
        }
    }
    c.nontrivial(&all);
    c.count("groups_listed", 1);
    c.eval();
    let order = all.len() as u128;
    let commutes = |a: &Vec<usize>, b: &Vec<usize>| mul(a, b) == mul(b, a);
    let Some(b) = c.sut("schreier_sims", || g::schreier_sims(n, &gens)) else { return };
    if b.order() != order {
        c.fail("group-order", format!("order {} for {gens:?}, which generates {order} elements", b.order()));
    }
    for q in perms(n) {
        if c.sut("contains", || b.contains(&q)) != Some(all.contains(&q)) {
            c.fail("group-member", format!("membership of {q:?} in <{gens:?}>"));
            break;
        }
    }
    if let Some(Some(e)) = c.sut("elements", || b.elements(1000)) {
        if e.iter().cloned().collect::<std::collections::BTreeSet<_>>() != all || e.len() != all.len() {
            c.fail("group-elements", format!("element list of <{gens:?}>"));
        }
    }
    let mut orb: Vec<Vec<usize>> = (0..n).map(|i| all.iter().map(|q| q[i]).collect::<std::collections::BTreeSet<_>>().into_iter().collect()).collect();
    orb.sort();
    orb.dedup();
    if let Some(mut o) = c.sut("orbits", || g::orbits(n, &gens)) {
        o.iter_mut().for_each(|x| x.sort());
        o.sort();
        if o != orb {
            c.fail("group-orbits", format!("orbits {o:?} of <{gens:?}>, expected {orb:?}"));
        }
    }
    let m = c.rng.range(1, 3) as usize;
    let cycles = |q: &Vec<usize>| {
        let mut seen = vec![false; n];
        (0..n)
            .filter(|&i| {
                let fresh = !seen[i];
                let mut j = i;
                while !seen[j] {
                    seen[j] = true;
                    j = q[j];
                }
                fresh
            })
            .count()
    };
    let burnside = all.iter().map(|q| (m as u128).pow(cycles(q) as u32)).sum::<u128>() / order;
    if let Some(Some(k)) = c.sut("polya_count", || g::polya_count(n, &gens, m, 1000)) {
        if k != burnside {
            c.fail("group-colourings", format!("{k} colourings with {m} colours under <{gens:?}>, expected {burnside}"));
        }
    }
    let center = all.iter().filter(|a| all.iter().all(|b| commutes(a, b))).count() as u128;
    if let Some(Some(k)) = c.sut("center_order", || g::center_order(n, &gens, 1000)) {
        if k != center {
            c.fail("group-center", format!("center of order {k} in <{gens:?}>, expected {center}"));
        }
    }
    if c.sut("is_abelian", || g::is_abelian(n, &gens)) != Some(center == order) {
        c.fail("group-abelian", format!("commutativity of <{gens:?}>"));
    }
    let pairs = all.iter().map(|a| all.iter().filter(|b| commutes(a, b)).count() as u128).sum::<u128>();
    if all.len() <= 120 {
        if let Some(Some(k)) = c.sut("conjugacy_classes", || g::conjugacy_classes(n, &gens, 1000)) {
            if k.len() as u128 != pairs / order {
                c.fail("group-classes", format!("{} conjugacy classes in <{gens:?}>, expected {}", k.len(), pairs / order));
            }
        }
    }
}

/// Polynomial specialists with their own certificates.
fn specialists(c: &mut Case) {
    match c.rng.below(7) {
        0 => {
            use p::twosat::{solve, Lit as L, TwoSatOutcome};
            let n = c.rng.range(1, 9) as usize;
            let m = c.rng.range(0, 2 * n as i64 + 3) as usize;
            let l = |r: &mut Rng| L { var: r.below(n), pos: r.bool() };
            let cl: Vec<(L, L)> = (0..m)
                .map(|_| {
                    let a = l(&mut c.rng);
                    if c.rng.chance(1, 8) { (a, a) } else { (a, l(&mut c.rng)) }
                })
                .collect();
            let s = |l: &L| (l.var as i32 + 1) * if l.pos { 1 } else { -1 };
            let f = F { n, cls: cl.iter().map(|(a, b)| vec![s(a), s(b)]).collect(), kind: "two-sat" };
            let truth = Table::new(n, &f.cls).first().is_some();
            let Some(r) = c.sut("twosat", || solve(&cl, n)) else { return };
            c.count("specialist_twosat", 1);
            c.nontrivial(&f.cls);
            match r {
                TwoSatOutcome::Sat(m) => judge(c, "two-sat", &f, truth, Some(&m)),
                TwoSatOutcome::Unsat(v) => {
                    judge(c, "two-sat", &f, truth, None);
                    // the named variable must really be contradictory
                    if c.sut("twosat::is_refutation", || p::twosat::is_refutation(&cl, n, v)) != Some(true) {
                        c.fail("two-sat-witness", format!("witness {v} refused for {}", show(&f)));
                    }
                }
            }
            if truth {
                for v in 0..n {
                    if c.sut("twosat::is_refutation", || p::twosat::is_refutation(&cl, n, v)) == Some(true) {
                        c.fail("two-sat-bogus-witness", format!("variable {v} accepted as a refutation of {}", show(&f)));
                    }
                }
            }
        }
        1 => {
            use p::hornsat::{solve, HornClause, HornOutcome};
            let n = c.rng.range(1, 9) as usize;
            let m = c.rng.range(0, 14);
            let cl: Vec<HornClause> = (0..m)
                .map(|_| {
                    let body: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(n)).collect();
                    match c.rng.below(5) {
                        0 => HornClause::fact(c.rng.below(n)),
                        1 => HornClause::goal(body),
                        _ => HornClause::rule(body, c.rng.below(n)),
                    }
                })
                .collect();
            let f = F {
                n,
                kind: "horn",
                cls: cl.iter().map(|h| h.body.iter().map(|&b| -(b as i32 + 1)).chain(h.head.map(|x| x as i32 + 1)).collect()).collect(),
            };
            let models = Table::new(n, &f.cls).models();
            let Some(r) = c.sut("hornsat", || solve(&cl, n)) else { return };
            c.count("specialist_horn", 1);
            c.nontrivial(&f.cls);
            match r {
                HornOutcome::Sat(m) => {
                    judge(c, "horn", &f, !models.is_empty(), Some(&m));
                    let got = m.iter().enumerate().fold(0u32, |a, (i, &b)| a | (b as u32) << i);
                    if models.iter().any(|&x| x & got != got) {
                        c.fail("horn-not-least", format!("model {m:?} is not the least one of {}", show(&f)));
                    }
                }
                HornOutcome::Unsat(w) => {
                    judge(c, "horn", &f, !models.is_empty(), None);
                    let part: Vec<Cl> = w.iter().filter_map(|&i| f.cls.get(i).cloned()).collect();
                    if Table::new(n, &part).first().is_some() {
                        c.fail("horn-witness", format!("clauses {w:?} alone are satisfiable in {}", show(&f)));
                    }
                }
            }
        }
        2 => {
            use p::xorsat::{is_refutation, solve, XorEquation, XorOutcome};
            let n = c.rng.range(1, 11) as usize;
            let m = c.rng.range(0, n as i64 + 3);
            let eq: Vec<XorEquation> = (0..m)
                .map(|_| {
                    let k = c.rng.below(5);
                    XorEquation::new((0..k).map(|_| c.rng.below(n)).collect::<Vec<_>>(), c.rng.bool())
                })
                .collect();
            let mask: Vec<(u32, bool)> = eq.iter().map(|e| (e.vars.iter().fold(0, |a, &v| a ^ 1 << v), e.rhs)).collect();
            let holds = |a: u32| mask.iter().all(|&(m, r)| ((a & m).count_ones() % 2 == 1) == r);
            let sols: Vec<u32> = (0..1u32 << n).filter(|&a| holds(a)).collect();
            let Some(r) = c.sut("xorsat", || solve(&eq, n)) else { return };
            c.count("specialist_xor", 1);
            c.nontrivial(&mask);
            c.eval();
            match r {
                XorOutcome::Sat(m) => {
                    let a = m.iter().enumerate().fold(0u32, |a, (i, &b)| a | (b as u32) << i);
                    if !holds(a) {
                        c.fail("xor-model", format!("{m:?} does not solve {eq:?}"));
                    }
                }
                XorOutcome::Unsat(w) => {
                    if !sols.is_empty() {
                        c.fail("xor-unsat", format!("solvable parity system refuted: {eq:?}"));
                    }
                    let (m, r) = w.iter().fold((0, false), |(m, r), &i| (m ^ mask[i].0, r ^ mask[i].1));
                    if m != 0 || !r {
                        c.fail("xor-witness", format!("equations {w:?} do not sum to a contradiction in {eq:?}"));
                    }
                }
            }
            if !sols.is_empty() {
                let pick: Vec<usize> = (0..eq.len()).filter(|_| c.rng.bool()).collect();
                if c.sut("xorsat::is_refutation", || is_refutation(&eq, n, &pick)) == Some(true) {
                    c.fail("xor-bogus-witness", format!("{pick:?} accepted as a refutation of the solvable {eq:?}"));
                }
            }
            // the same system inside the search, with clauses alongside
            let extra: Vec<Cl> = (0..c.rng.below(8)).map(|_| (0..3).map(|_| c.rng.range(1, n as i64) as i32 * if c.rng.bool() { 1 } else { -1 }).collect()).collect();
            let lex = to(&extra);
            let t = Table::new(n, &extra);
            let truth = sols.iter().any(|&a| t.holds(a));
            let answer = c.sut("xor theory", || {
                let mut s = Solver::new(n);
                for cl in &lex {
                    s.add_clause(cl.clone());
                }
                let mut th: Vec<Box<dyn p::cdcl::Theory>> = vec![Box::new(p::xor_engine::XorEngine::new(n, &eq))];
                s.solve_with(&mut th)
            });
            c.eval();
            match answer {
                Some(SolveResult::Sat(m)) => {
                    let a = m.iter().enumerate().take(n).fold(0u32, |a, (i, &b)| a | (b as u32) << i);
                    if !holds(a) || !t.holds(a) {
                        c.fail("xor-theory-model", format!("{m:?} violates {eq:?} / {extra:?}"));
                    }
                }
                Some(SolveResult::Unsat) if truth => c.fail("xor-theory-unsat", format!("satisfiable: {eq:?} / {extra:?}")),
                _ => {}
            }
        }
        3 => {
            use p::modp::{ModpEquation, ModpOutcome};
            let prime = c.rng.bool();
            let m = if prime { *c.rng.pick(&[2u64, 3, 5, 7]) } else { *c.rng.pick(&[4u64, 6, 8, 9, 10, 12]) };
            let n = c.rng.range(1, if m <= 5 { 5 } else { 3 }) as usize;
            let k = c.rng.range(0, n as i64 + 2);
            let eq: Vec<ModpEquation> = (0..k)
                .map(|_| {
                    let t = c.rng.range(0, n as i64) as usize;
                    let co: Vec<(usize, u64)> = (0..t).map(|_| (c.rng.below(n), c.rng.below(2 * m as usize) as u64)).collect();
                    ModpEquation::new(co, c.rng.below(2 * m as usize) as u64)
                })
                .collect();
            let holds = |a: &[u64]| eq.iter().all(|e| e.coeffs.iter().map(|&(v, k)| k * a[v]).sum::<u64>() % m == e.rhs % m);
            let total = m.pow(n as u32);
            let decode = |t: u64| -> Vec<u64> { (0..n).map(|i| t / m.pow(i as u32) % m).collect() };
            let count = (0..total).filter(|&t| holds(&decode(t))).count();
            c.count("specialist_mod", 1);
            c.nontrivial(&format!("{m}{eq:?}"));
            c.eval();
            if prime {
                match c.sut("modp::solve", || p::modp::solve(&eq, n, m)) {
                    Some(ModpOutcome::Sat(a)) => {
                        if a.len() != n || a.iter().any(|&x| x >= m) || !holds(&a) {
                            c.fail("mod-model", format!("{a:?} does not solve {eq:?} mod {m}"));
                        }
                    }
                    Some(ModpOutcome::Unsat(w)) => {
                        if count > 0 {
                            c.fail("mod-unsat", format!("solvable system refuted: {eq:?} mod {m}"));
                        }
                        check_combo(c, &eq, n, m, &w);
                    }
                    None => {}
                }
                match c.sut("modp::solve_space", || p::modp::solve_space(&eq, n, m)) {
                    Some(Some(s)) => {
                        let all = s.enumerate();
                        let set: std::collections::HashSet<Vec<u64>> = all.iter().cloned().collect();
                        if s.count() != count as u128 || set.len() != count || !set.iter().all(|a| holds(a)) {
                            c.fail("mod-space", format!("solution space of size {} / {} distinct, enumeration finds {count}: {eq:?} mod {m}", s.count(), set.len()));
                        }
                    }
                    Some(None) if count > 0 => c.fail("mod-space-unsat", format!("solvable: {eq:?} mod {m}")),
                    _ => {}
                }
            } else {
                match c.sut("modm::solve", || p::modm::solve(&eq, n, m)) {
                    Some(Some(p::modm::ModmOutcome::Sat(a))) => {
                        if a.len() != n || a.iter().any(|&x| x >= m) || !holds(&a) {
                            c.fail("ring-model", format!("{a:?} does not solve {eq:?} mod {m}"));
                        }
                    }
                    Some(Some(p::modm::ModmOutcome::Unsat { modulus, combo })) => {
                        if count > 0 {
                            c.fail("ring-unsat", format!("solvable system refuted: {eq:?} mod {m}"));
                        }
                        if modulus < 2 || m % modulus != 0 {
                            c.fail("ring-witness", format!("{modulus} does not divide {m}"));
                        } else {
                            check_combo(c, &eq, n, modulus, &combo);
                        }
                    }
                    Some(None) => c.count("ring_declined", 1),
                    None => {}
                }
            }
        }
        4 => {
            use p::matching::*;
            let items = c.rng.range(0, 6) as usize;
            let slots = c.rng.range(0, 6) as usize;
            let adj: Vec<Vec<usize>> = (0..items).map(|_| (0..slots).filter(|_| c.rng.chance(45, 100)).collect()).collect();
            let caps: Vec<usize> = (0..slots).map(|_| c.rng.below(4)).collect();
            c.nontrivial(&(&adj, &caps));
            c.count("specialist_matching", 1);
            let ones = vec![1usize; slots];
            for (name, cap) in [("matching", &ones), ("capacity", &caps)] {
                let best = place(&adj, &mut cap.clone(), 0);
                c.eval();
                let (placed, wit) = if name == "matching" {
                    match c.sut("assign_or_hall", || assign_or_hall(&adj, slots)) {
                        Some(MatchOutcome::Feasible(a)) => (Some(a), None),
                        Some(MatchOutcome::Infeasible(w)) => (None, Some((w.items, w.slots))),
                        None => return,
                    }
                } else {
                    match c.sut("assign_or_hall_capacitated", || assign_or_hall_capacitated(&adj, cap)) {
                        Some(CapMatchOutcome::Feasible(a)) => (Some(a), None),
                        Some(CapMatchOutcome::Infeasible(w)) => (None, Some((w.items, w.slots))),
                        None => return,
                    }
                };
                match (placed, wit) {
                    (Some(a), _) => {
                        let mut used = vec![0; slots];
                        let ok = a.len() == items && a.iter().enumerate().all(|(i, &s)| adj[i].contains(&s) && { used[s] += 1; used[s] <= cap[s] });
                        if !ok {
                            c.fail(&format!("{name}-assignment"), format!("{a:?} is not an assignment for {adj:?} with {cap:?}"));
                        }
                    }
                    (None, Some((s, t))) => {
                        if best {
                            c.fail(&format!("{name}-infeasible"), format!("called infeasible: {adj:?} with {cap:?}"));
                        }
                        let distinct: std::collections::BTreeSet<usize> = s.iter().copied().collect();
                        let room: usize = t.iter().collect::<std::collections::BTreeSet<_>>().iter().map(|&&x| cap.get(x).copied().unwrap_or(0)).sum();
                        if distinct.iter().any(|&i| i >= items || adj[i].iter().any(|x| !t.contains(x))) || distinct.len() <= room {
                            c.fail(&format!("{name}-witness"), format!("{s:?}/{t:?} proves nothing about {adj:?} with {cap:?}"));
                        }
                    }
                    _ => {}
                }
            }
        }
        5 => {
            use p::interval_sched::*;
            use p::register_alloc::*;
            let n = c.rng.range(0, 9) as usize;
            let iv: Vec<Interval> = (0..n)
                .map(|_| {
                    let s = c.rng.range(-5, 10);
                    Interval::new(s, s + c.rng.range(1, 6))
                })
                .collect();
            let m = c.rng.range(0, 5) as usize;
            let over = |a: usize, b: usize| iv[a].start < iv[b].end && iv[b].start < iv[a].end;
            let peak = (-6..20).map(|t| iv.iter().filter(|i| i.start <= t && t < i.end).count()).max().unwrap_or(0);
            c.nontrivial(&format!("{iv:?}{m}"));
            c.count("specialist_intervals", 1);
            c.eval();
            if c.sut("peak_concurrency", || peak_concurrency(&iv)) != Some(peak) {
                c.fail("interval-peak", format!("peak of {iv:?} is {peak}"));
            }
            match c.sut("schedule_or_overflow", || schedule_or_overflow(&iv, m)) {
                Some(ScheduleOutcome::Feasible(a)) => {
                    if peak > m || a.len() != n || (n > 0 && a.iter().any(|&x| x >= m)) || (0..n).any(|i| (0..i).any(|j| a[i] == a[j] && over(i, j))) {
                        c.fail("interval-schedule", format!("{a:?} on {m} machines is no schedule of {iv:?}"));
                    }
                }
                Some(ScheduleOutcome::Infeasible(w)) => {
                    let d: std::collections::BTreeSet<usize> = w.iter().copied().collect();
                    if peak <= m || d.len() <= m || d.iter().any(|&i| d.iter().any(|&j| i != j && !over(i, j))) {
                        c.fail("interval-witness", format!("{w:?} does not overflow {m} machines in {iv:?}"));
                    }
                }
                None => {}
            }
            let lr: Vec<LiveRange> = iv.iter().enumerate().map(|(i, x)| LiveRange::new(i * 3 + 1, x.start, x.end)).collect();
            match c.sut("allocate", || allocate(&lr, m)) {
                Some(Allocation::Allocated(a)) => {
                    let ok = a.len() == n && a.iter().zip(&lr).all(|(x, r)| x.0 == r.var && x.1 < m) && (0..n).all(|i| (0..i).all(|j| a[i].1 != a[j].1 || !over(i, j)));
                    if !ok {
                        c.fail("registers", format!("{a:?} is no allocation of {m} registers for {lr:?}"));
                    }
                }
                Some(Allocation::Spill { pressure, must_spill }) => {
                    if pressure != peak || peak <= m || must_spill.len() <= m {
                        c.fail("registers-spill", format!("pressure {pressure}, spill {must_spill:?} for {m} registers, peak is {peak}: {lr:?}"));
                    }
                }
                None => {}
            }
        }
        _ => cutting_planes(c),
    }
}

fn place(adj: &[Vec<usize>], cap: &mut Vec<usize>, i: usize) -> bool {
    if i == adj.len() {
        return true;
    }
    for &s in &adj[i] {
        if cap[s] > 0 {
            cap[s] -= 1;
            let ok = place(adj, cap, i + 1);
            cap[s] += 1;
            if ok {
                return true;
            }
        }
    }
    false
}

fn check_combo(c: &mut Case, eq: &[p::modp::ModpEquation], n: usize, m: u64, w: &[(usize, u64)]) {
    let mut lhs = vec![0u64; n];
    let mut rhs = 0u64;
    for &(i, k) in w {
        for &(v, a) in &eq[i].coeffs {
            lhs[v] = (lhs[v] + k % m * (a % m)) % m;
        }
        rhs = (rhs + k % m * (eq[i].rhs % m)) % m;
    }
    if lhs.iter().any(|&x| x != 0) || rhs == 0 {
        c.fail("mod-witness", format!("{w:?} does not refute {eq:?} mod {m}"));
    }
}

/// Pseudo-Boolean rules only ever derive consequences; cardinality constraints inside the search.
fn cutting_planes(c: &mut Case) {
    use p::pseudo_boolean::{CardinalityTheory, PbConstraint};
    let n = c.rng.range(1, 7) as usize;
    let gen = |r: &mut Rng| {
        let mut vs: Vec<usize> = (0..n).collect();
        r.shuffle(&mut vs);
        let k = r.range(1, n as i64) as usize;
        let t: Vec<(usize, i64, bool)> = vs[..k].iter().map(|&v| (v, r.range(1, 6), r.bool())).collect();
        let d = r.range(-2, t.iter().map(|x| x.1).sum::<i64>() + 1);
        (PbConstraint::new_weighted(&t, d), t, d)
    };
    let own = |t: &[(usize, i64, bool)], d: i64, a: u32| t.iter().map(|&(v, k, s)| if (a >> v & 1 == 1) == s { k } else { 0 }).sum::<i64>() >= d;
    let read = |q: &PbConstraint| -> (Vec<(usize, i64, bool)>, i64) { (q.terms().collect(), q.degree()) };
    let (p1, t1, d1) = gen(&mut c.rng);
    let (p2, t2, d2) = gen(&mut c.rng);
    let k = c.rng.range(1, 5);
    c.nontrivial(&format!("{t1:?}{d1}{t2:?}{d2}{k}"));
    c.count("specialist_cutting_planes", 1);
    let derived = [
        ("add", c.sut("add", || p1.add(&p2)), true),
        ("multiply", c.sut("multiply", || p1.multiply(k)), false),
        ("divide", c.sut("divide_round", || p1.divide_round(k)), false),
        ("saturate", c.sut("saturate", || p1.saturate()), false),
    ];
    for a in 0..1u32 << n {
        let (h1, h2) = (own(&t1, d1, a), own(&t2, d2, a));
        if p1.is_satisfied(&|v| a >> v & 1 == 1) != h1 {
            c.fail("pb-eval", format!("value of {t1:?} >= {d1} at {a:b}"));
        }
        for (name, q, both) in &derived {
            let Some(q) = q else { continue };
            let (t, d) = read(q);
            if h1 && (!both || h2) && !own(&t, d, a) {
                c.fail(&format!("pb-{name}"), format!("{name} of {t1:?}>={d1} and {t2:?}>={d2} ({k}) derives {t:?}>={d}, false at {a:b}"));
            }
            if *name == "saturate" || *name == "multiply" {
                if own(&t, d, a) != h1 {
                    c.fail(&format!("pb-{name}-loss"), format!("{name} of {t1:?}>={d1} ({k}) gives {t:?}>={d}, different at {a:b}"));
                }
            }
        }
    }
    c.eval();
    if p1.is_contradiction() != (0..1u32 << n).all(|a| !own(&t1, d1, a)) {
        c.fail("pb-contradiction", format!("contradiction test wrong on {t1:?} >= {d1}"));
    }
    // cardinality theory inside the search
    let cards: Vec<(Vec<(usize, bool)>, i64, bool)> = (0..c.rng.range(1, 4))
        .map(|_| {
            let mut vs: Vec<usize> = (0..n).collect();
            c.rng.shuffle(&mut vs);
            let k = c.rng.range(1, n as i64) as usize;
            (vs[..k].iter().map(|&v| (v, c.rng.bool())).collect::<Vec<_>>(), c.rng.range(0, k as i64 + 1), c.rng.bool())
        })
        .collect();
    let extra: Vec<Cl> = (0..c.rng.below(6)).map(|_| (0..c.rng.range(1, 3)).map(|_| c.rng.range(1, n as i64) as i32 * if c.rng.bool() { 1 } else { -1 }).collect()).collect();
    let t = Table::new(n, &extra);
    let holds = |a: u32| {
        t.holds(a)
            && cards.iter().all(|(l, k, least)| {
                let x = l.iter().filter(|&&(v, s)| (a >> v & 1 == 1) == s).count() as i64;
                if *least { x >= *k } else { x <= *k }
            })
    };
    let truth = (0..1u32 << n).any(holds);
    let r = c.sut("cardinality theory", || {
        let cons: Vec<PbConstraint> = cards.iter().map(|(l, k, least)| if *least { PbConstraint::at_least(l, *k) } else { PbConstraint::at_most(l, *k) }).collect();
        let mut s = Solver::new(n);
        for cl in to(&extra) {
            s.add_clause(cl);
        }
        let mut th: Vec<Box<dyn p::cdcl::Theory>> = vec![Box::new(CardinalityTheory::new(n, &cons))];
        s.solve_with(&mut th)
    });
    c.eval();
    match r {
        Some(SolveResult::Sat(m)) => {
            let a = m.iter().enumerate().take(n).fold(0u32, |a, (i, &b)| a | (b as u32) << i);
            if !holds(a) {
                c.fail("cardinality-model", format!("{m:?} violates {cards:?} / {extra:?}"));
            }
        }
        Some(SolveResult::Unsat) if truth => c.fail("cardinality-unsat", format!("satisfiable: {cards:?} / {extra:?}")),
        _ => {}
    }
    let _ = subsets;
}

/// The interchange format and the command-line driver.
fn files(c: &mut Case) {
    let f = formula(&mut c.rng, 12);
    let truth = Table::new(f.n, &f.cls).first().is_some();
    c.nontrivial(&f.cls);
    let cnf = p::dimacs::DimacsCnf { num_vars: f.n, clauses: to(&f.cls) };
    let Some(text) = c.sut("dimacs::print", || p::dimacs::print(&cnf)) else { return };
    if c.sut("dimacs::parse", || p::dimacs::parse(&text)) != Some(Ok(cnf.clone())) {
        c.fail("dimacs-roundtrip", format!("{text:?} does not read back"));
    }
    // free layout: comments, blank lines, clauses split and joined across lines
    let mut t = String::from("c a comment\n");
    t.push_str(&format!("p cnf {} {}\n", f.n, f.cls.len()));
    for cl in &f.cls {
        for l in cl {
            t.push_str(&format!("{l}{}", if c.rng.chance(1, 6) { "\n" } else { " " }));
        }
        t.push_str(if c.rng.bool() { "0\n" } else { "0 " });
        if c.rng.chance(1, 10) {
            t.push_str("\nc note 1 2 0\n\n");
        }
    }
    c.eval();
    if c.sut("dimacs::parse", || p::dimacs::parse(&t)) != Some(Ok(cnf.clone())) {
        c.fail("dimacs-layout", format!("free layout {t:?} is read differently"));
    }
    // malformed input is refused, never misread
    let bad = match c.rng.below(5) {
        0 => t.replacen("p cnf", "p dnf", 1),
        1 => format!("p cnf {} 1\n{} 0\n", f.n, f.n + 1),
        2 => format!("p cnf {} 1\n1", f.n),
        3 => format!("p cnf {} 1\n1 x 0\n", f.n),
        _ => "1 2 0\n".to_string(),
    };
    if let Some(Ok(x)) = c.sut("dimacs::parse", || p::dimacs::parse(&bad)) {
        c.fail("dimacs-accepts", format!("{bad:?} accepted as {x:?}"));
    }
    let dir = std::env::temp_dir().join(format!("vk-sat-{}-{}", std::process::id(), c.rng.u64()));
    if std::fs::create_dir_all(&dir).is_err() {
        return;
    }
    let (inp, prf) = (dir.join("f.cnf"), dir.join("f.proof"));
    let _ = std::fs::write(&inp, &t);
    let (mut out, mut err) = (Vec::new(), Vec::new());
    if let Some(code) = c.sut("satcli::run", || p::satcli::run(&inp, Some(&prf), true, &mut out, &mut err)) {
        c.count("cli_runs", 1);
        let text = String::from_utf8_lossy(&out).to_string();
        let says = text.lines().find(|l| l.starts_with("s "));
        c.eval();
        let want = if truth { (10, Some("s SATISFIABLE")) } else { (20, Some("s UNSATISFIABLE")) };
        if (code, says) != want {
            c.fail("cli-verdict", format!("exit {code}, {says:?}, expected {want:?} for {}", show(&f)));
        } else if truth {
            let lits: Vec<i32> = text.lines().filter(|l| l.starts_with('v')).flat_map(|l| l[1..].split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<i32>>()).collect();
            let m: Vec<bool> = (1..=f.n as i32).map(|v| lits.contains(&v)).collect();
            let clash = lits.iter().any(|l| *l != 0 && lits.contains(&-l));
            if clash || lits.last() != Some(&0) || lits.len() != f.n + 1 || !satisfied(&f.cls, &m) {
                c.fail("cli-model", format!("printed model {lits:?} is wrong for {}", show(&f)));
            }
        } else if let Ok(pt) = std::fs::read_to_string(&prf) {
            let e = String::from_utf8_lossy(&err).to_string();
            if !e.contains("(.sr)") {
                if let Some(Ok(st)) = c.sut("parse_dpr", || p::proof_emit::parse_dpr(&pt)) {
                    c.count("cli_proofs", 1);
                    let nn = st.iter().flat_map(|s| s.clause().iter().map(|l| l.var() as usize + 1)).max().unwrap_or(0).max(f.n);
                    if let Err(x) = replay(nn, &f.cls, &steps_of(&st)) {
                        c.fail("cli-proof", format!("written proof does not replay: {x}; {} for {}", e.trim(), show(&f)));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn check(rep: &Report) {
    rep.rule("every verdict equals enumeration; models satisfy; refutations replay in an independent checker; checkers accept nothing false");
    rep.cases("engine", scale(30_000, 400_000), engine);
    rep.cases("fronts", scale(6_000, 80_000), fronts);
    rep.cases("exhaustive", scale(800, 10_000), exhaustive);
    rep.cases("certificates", scale(3_000, 40_000), certificates);
    rep.cases("structure", scale(2_500, 30_000), structure);
    rep.cases("specialists", scale(30_000, 300_000), specialists);
    rep.cases("groups", scale(3_000, 20_000), groups);
    rep.cases("files", scale(4_000, 40_000), files);
    rep.require("conflicts", 1000);
    rep.require("refutations_replayed", 500);
    rep.require("steps_pr", 10);
    rep.require("bogus_refutations", 100);
    rep.require("cli_runs", 100);
}
