//! C11–C13: one program, every way of running it, one meaning.
use crate::gen::{self, Expect, Prog, S};
use crate::make::{self, Cfg};
use logicaffeine_compile::compile::{self, RunOutcome};
use logicaffeine_compile::optimization::Tier;
use logicaffeine_compile::ui_bridge;
use logicaffeine_jit::ForgeTier;
use vkit::serde_json::json;
use vkit::{guard, Case, Report, Rng};

/// Output lines and whether the run failed, with the failure's text.
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub out: String,
    pub err: Option<String>,
}
impl Seen {
    pub fn of(o: RunOutcome) -> Seen {
        Seen { out: o.output.trim_end().to_string(), err: o.error }
    }
    pub fn ui(r: ui_bridge::InterpreterResult) -> Seen {
        Seen { out: r.lines.join("\n").trim_end().to_string(), err: r.error }
    }
}
pub fn wanted(x: &Expect) -> String {
    x.lines.join("\n").trim_end().to_string()
}
fn first_diff(a: &str, b: &str) -> String {
    let (la, lb): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..la.len().max(lb.len()) {
        if la.get(i) != lb.get(i) {
            return format!("line {}: {:?} but should be {:?}", i + 1, la.get(i), lb.get(i));
        }
    }
    "no difference".into()
}

/// Does this outcome contradict the reference? (None = agrees)
pub fn against(x: &Expect, got: &Seen) -> Option<(&'static str, String)> {
    if x.error.is_some() != got.err.is_some() {
        return Some((
            if got.err.is_some() { "spurious-error" } else { "missing-error" },
            format!("error {:?}, reference {:?}", got.err, x.error),
        ));
    }
    let w = wanted(x);
    if got.out != w {
        return Some(("output", first_diff(&got.out, &w)));
    }
    None
}

// ── shrinking a failing program ──────────────────────────────────────────────
fn blocks(s: &mut S) -> Vec<&mut Vec<S>> {
    match s {
        S::If(arms, els) => {
            let mut v: Vec<&mut Vec<S>> = arms.iter_mut().map(|a| &mut a.1).collect();
            if let Some(e) = els {
                v.push(e);
            }
            v
        }
        S::While(_, b) | S::ForRange(_, _, _, b) | S::ForIn(_, _, b) | S::ForPair(_, _, _, b) => vec![b],
        S::Inspect(_, _, arms, els) => {
            let mut v: Vec<&mut Vec<S>> = arms.iter_mut().map(|a| &mut a.2).collect();
            if let Some(e) = els {
                v.push(e);
            }
            v
        }
        _ => vec![],
    }
}
fn count(b: &mut Vec<S>) -> usize {
    let mut n = b.len();
    for s in b.iter_mut() {
        for k in blocks(s) {
            n += count(k);
        }
    }
    n
}
/// Remove (or replace by its body) the `at`-th statement in preorder.
fn drop_at(b: &mut Vec<S>, at: &mut usize, unwrap: bool) -> bool {
    let mut i = 0;
    while i < b.len() {
        if *at == 0 {
            if unwrap {
                let mut bs: Vec<Vec<S>> = blocks(&mut b[i]).into_iter().map(|x| x.clone()).collect();
                if bs.is_empty() {
                    return false;
                }
                let body = bs.remove(0);
                b.splice(i..=i, body);
            } else {
                b.remove(i);
            }
            return true;
        }
        *at -= 1;
        for k in blocks(&mut b[i]) {
            if drop_at(k, at, unwrap) {
                return true;
            }
        }
        i += 1;
    }
    false
}
pub fn shrink(p: &Prog, bad: &dyn Fn(&Prog, &Expect) -> bool, tries: usize) -> Prog {
    let mut cur = p.clone();
    let mut left = tries;
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        for f in (0..cur.funcs.len()).rev() {
            let mut q = cur.clone();
            q.funcs.remove(f);
            left = left.saturating_sub(1);
            if let Some(x) = gen::expect(&q, 300_000) {
                if bad(&q, &x) {
                    cur = q;
                    progress = true;
                }
            }
        }
        for unwrap in [false, true] {
            for body in 0..=cur.funcs.len() {
                let n = if body == 0 { count(&mut cur.main) } else { count(&mut cur.funcs[body - 1].body) };
                for at in (0..n).rev() {
                    if left == 0 {
                        return cur;
                    }
                    let mut q = cur.clone();
                    let mut a = at;
                    let t = if body == 0 { &mut q.main } else { &mut q.funcs[body - 1].body };
                    if !drop_at(t, &mut a, unwrap) {
                        continue;
                    }
                    left -= 1;
                    if let Some(x) = gen::expect(&q, 300_000) {
                        if bad(&q, &x) {
                            cur = q;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
    cur
}

type Engine<'a> = (&'a str, &'a (dyn Fn(&str) -> Seen + Sync));

fn judge(c: &mut Case, e: Engine, p: &Prog, x: &Expect, text: &str) {
    c.eval();
    let (name, f) = e;
    let got = match guard(|| f(text)) {
        Ok(g) => g,
        Err(pi) if pi.from_sut() => {
            c.fail_with(&format!("{name}:{}", pi.sig()), format!("{name}: panic at {}: {}\n{text}", pi.location, pi.message), json!({"program": text}));
            return;
        }
        Err(pi) => panic!("monitor panic in {name}: {} at {}", pi.message, pi.location),
    };
    c.count(&format!("runs:{name}"), 1);
    if let Some((kind, why)) = against(x, &got) {
        let seed = c.rng.u64();
        let small = shrink(
            p,
            &|q, y| {
                let t = gen::print(q, Rng::new(seed));
                match guard(|| f(&t)) {
                    Ok(g) => matches!(against(y, &g), Some((k, _)) if k == kind),
                    Err(_) => false,
                }
            },
            400,
        );
        let st = gen::print(&small, Rng::new(seed));
        c.fail_with(
            &format!("{name}:{kind}"),
            format!("{name}: {why}; tags {:?}; shrunk program:\n{st}\n--- shrunk outcome {:?}", p.tags, guard(|| f(&st)).ok()),
            json!({"program": text, "shrunk": st}),
        );
    }
}

pub fn cfg_for(r: &mut Rng) -> Cfg {
    let mut c = match r.below(4) {
        0 => Cfg::ints(),
        _ => Cfg::full(),
    };
    if r.chance(1, 4) {
        c.big = r.bool();
    }
    c.idioms = 1 + r.below(4);
    c.stmts = 2 + r.below(14);
    c
}
pub fn note(c: &mut Case, p: &Prog, x: &Expect, text: &str) {
    c.nontrivial(text);
    c.count("reference_steps", x.steps as u64);
    c.count("lines_compared", x.lines.len() as u64);
    if x.error.is_some() {
        c.count("programs_ending_in_error", 1);
    }
    if x.big {
        c.count("programs_leaving_machine_integers", 1);
    }
    for t in &p.tags {
        c.seen("program_shapes", t);
    }
    c.sample(|| json!({"program": text, "output": x.lines.iter().take(12).collect::<Vec<_>>(), "error": x.error}));
}

pub fn c11(rep: &Report) {
    rep.rule("random well-typed programs (typed grammar plus 60 parameterised idioms) printed in varying surface forms; the reference interpreter's output is compared line by line with an independent evaluator of the same syntax tree; non-trivial = a program with at least one line of output, counted up to text equality");
    let tw = |s: &str| Seen::of(compile::tw_outcome(s));
    rep.cases("meaning", vkit::scale(12_000, 120_000), |c| {
        let mut cfg = cfg_for(&mut c.rng);
        cfg.hide = true;
        let (p, x, text) = make::program(&mut c.rng, &cfg, true);
        note(c, &p, &x, &text);
        judge(c, ("interpreter", &tw), &p, &x, &text);
        // the same tree written differently is the same program
        if c.idx % 3 == 0 {
            let alt = gen::print(&p, Rng::new(c.rng.u64()));
            c.count("respelled_programs", 1);
            judge(c, ("interpreter-respelled", &tw), &p, &x, &alt);
        }
    });
    rep.require("runs:interpreter", 500);
    rep.require("programs_ending_in_error", 5);
}

pub fn corpus() -> Vec<(String, String)> {
    let path = format!("{}/corpus/programs.json", std::env::var("VK_VERIF").unwrap_or("/verif".into()));
    let v: Vec<vkit::serde_json::Value> = vkit::serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
    v.iter().map(|x| (x["src"].as_str().unwrap().to_string(), x["from"].as_str().unwrap_or("").to_string())).collect()
}
/// Two engines on one program of the corpus: text of output and of error must agree.
fn same(c: &mut Case, name: &str, text: &str, want: &Seen, f: &dyn Fn(&str) -> Seen) {
    c.eval();
    match guard(|| f(text)) {
        Ok(g) => {
            c.count(&format!("runs:{name}"), 1);
            if g != *want {
                let kind = if g.err.is_some() != want.err.is_some() {
                    "error-presence"
                } else if g.out != want.out {
                    "output"
                } else {
                    "error-text"
                };
                c.fail_with(
                    &format!("{name}:corpus:{kind}"),
                    format!("{name}: {}; errors {:?} and {:?}; program:\n{text}", first_diff(&g.out, &want.out), g.err, want.err),
                    json!({"program": text}),
                );
            }
        }
        Err(p) if p.from_sut() => c.fail_with(&format!("{name}:{}", p.sig()), format!("{name}: panic at {}: {}\n{text}", p.location, p.message), json!({"program": text})),
        Err(p) => panic!("monitor panic: {} at {}", p.message, p.location),
    }
}

pub fn c12(rep: &Report) {
    rep.rule("the bytecode engine on random programs against an independent evaluator, and on a corpus of language programs against the tree-walking interpreter (output and error text); non-trivial = distinct program text");
    let vm = |s: &str| Seen::of(compile::vm_outcome(s));
    let base = |s: &str| Seen::ui(ui_bridge::interpret_for_ui_baseline_sync_with_args(s, &[]));
    rep.cases("bytecode", vkit::scale(12_000, 120_000), |c| {
        let cfg = cfg_for(&mut c.rng);
        let (p, x, text) = make::program(&mut c.rng, &cfg, true);
        note(c, &p, &x, &text);
        judge(c, ("bytecode", &vm), &p, &x, &text);
        if c.idx % 4 == 0 {
            judge(c, ("bytecode-baseline", &base), &p, &x, &text);
        }
    });
    let progs = corpus();
    let n = progs.len() as u64;
    rep.cases("corpus", n, |c| {
        let (text, _) = &progs[c.idx as usize];
        let Some(want) = c.sut("interpreter", || Seen::of(compile::tw_outcome(text))) else { return };
        c.nontrivial(text);
        c.count("lines_compared", want.out.lines().count() as u64);
        same(c, "bytecode", text, &want, &vm);
    });
    rep.require("runs:bytecode", 1000);
}

pub fn c13(rep: &Report) {
    rep.rule("hot random programs through every optimisation level of the run path, the machine-code tier (synchronous and background) and the default engine, against an independent evaluator; non-trivial = distinct program text");
    let installed = logicaffeine_jit::install();
    // Rotate the variants over the cases; the default engine sees every program.
    let def = |s: &str| Seen::ui(ui_bridge::interpret_for_ui_sync(s));
    rep.cases("tiers", vkit::scale(5_000, 60_000), |c| {
        let mut cfg = cfg_for(&mut c.rng);
        cfg.hot = *c.rng.pick(&[150, 400, 1200]);
        let (p, x, text) = make::program(&mut c.rng, &cfg, true);
        note(c, &p, &x, &text);
        judge(c, ("default-engine", &def), &p, &x, &text);
        let tier = ForgeTier::new();
        let jit = |s: &str| Seen::of(compile::vm_outcome_with_args(s, &[], Some(&tier)));
        judge(c, ("native-tier", &jit), &p, &x, &text);
        let t = [Tier::T0, Tier::T1, Tier::T2, Tier::T3][c.idx as usize % 4];
        let opt = |s: &str| Seen::of(compile::vm_outcome_tiered(s, &[], t, Some(&tier)));
        judge(c, (&format!("level-{t:?}"), &opt), &p, &x, &text);
        if c.idx % 5 == 0 {
            let bg = |s: &str| Seen::of(compile::vm_outcome_bg(s, &[]));
            judge(c, ("background-native", &bg), &p, &x, &text);
        }
        let (fa, fs) = tier.function_counts();
        let (ra, rs) = tier.region_counts();
        let (en, comp, de, dea) = tier.runtime_stats();
        for (k, n) in [
            ("native_functions_tried", fa as u64),
            ("native_functions_compiled", fs as u64),
            ("native_regions_tried", ra as u64),
            ("native_regions_compiled", rs as u64),
            ("native_entries", en),
            ("native_completions", comp),
            ("native_deopts", de),
            ("native_precise_deopts", dea),
            ("regalloc_regions", tier.regalloc_region_count() as u64),
            ("regalloc_precise_regions", tier.regalloc_precise_region_count() as u64),
            ("regalloc_functions", tier.regalloc_function_count() as u64),
        ] {
            c.count(k, n);
        }
    });
    let _ = installed;
    let progs = corpus();
    let n = progs.len() as u64;
    rep.cases("corpus", n, |c| {
        let (text, _) = &progs[c.idx as usize];
        let Some(want) = c.sut("interpreter", || Seen::of(compile::tw_outcome(text))) else { return };
        c.nontrivial(text);
        same(c, "default-engine", text, &want, &def);
        let tier = ForgeTier::new();
        same(c, "native-tier", text, &want, &|s| Seen::of(compile::vm_outcome_with_args(s, &[], Some(&tier))));
        let t = [Tier::T1, Tier::T2, Tier::T3][c.idx as usize % 3];
        same(c, &format!("level-{t:?}"), text, &want, &|s| Seen::of(compile::vm_outcome_tiered(s, &[], t, Some(&tier))));
    });
    rep.require("native_regions_compiled", 200);
    rep.require("native_functions_compiled", 20);
    rep.require("native_entries", 50);
}
