//! C27: any text is translated or refused, and the same text always to the same logic.
use crate::text::{document, fragment};
use logicaffeine_language::compile as lang;
use logicaffeine_lsp::document::DocumentState;
use vkit::serde_json::{json, Value};
use vkit::{scale, Case, Report, Rng};

fn sentences() -> Vec<String> {
    let path = format!("{}/corpus/sentences.json", std::env::var("VK_VERIF").unwrap_or("/verif".into()));
    let v: Value = vkit::serde_json::from_str(&std::fs::read_to_string(path).expect("sentences")).expect("sentences");
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

const WORDS: &[&str] = &[
    "every", "some", "no", "not", "if", "then", "and", "or", "the", "a", "dog", "dogs", "runs", "John", "Mary", "loves", "who", "that", "is", "was", "tall", "taller", "than", "must", "can", "only", "most",
    "three", "at", "least", "himself", "she", "it", "because", "always", "never", "did", "what", "to", "of", "with", "very", "quickly", ",", ".", "?", ";", "(", ")", "αer", "ééer", "er", "est", "iest", "'s", "n't", "s'", "-", "5", "3.5", "5pm",
    "naïve", "日本", "😀", "\"", "ing", "ed", "un", "re", "Socrates", "mortal", "equals", "both", "neither", "nor", "either", "unless", "until", "before", "after", "today", "yesterday", "two", "the", "other",
];

fn recombined(s: &[String], r: &mut Rng) -> String {
    let words: Vec<String> = match r.below(4) {
        0 => r.pick(s).split(' ').map(|x| x.to_string()).collect(),
        1 => (0..1 + r.below(10)).map(|_| r.pick(WORDS).to_string()).collect(),
        2 => {
            let (a, b) = (r.pick(s).clone(), r.pick(s).clone());
            let (a, b): (Vec<_>, Vec<_>) = (a.split(' ').map(String::from).collect(), b.split(' ').map(String::from).collect());
            let (i, j) = (r.below(a.len() + 1), r.below(b.len()));
            a[..i].iter().chain(&b[j..]).cloned().collect()
        }
        _ => {
            let mut w: Vec<String> = r.pick(s).split(' ').map(|x| x.to_string()).collect();
            for _ in 0..1 + r.below(3) {
                let i = r.below(w.len());
                match r.below(4) {
                    0 => w[i] = r.pick(WORDS).to_string(),
                    1 => w.insert(i, r.pick(WORDS).to_string()),
                    2 => {
                        if w.len() > 1 {
                            w.remove(i);
                        }
                    }
                    _ => {
                        let j = r.below(w.len());
                        w.swap(i, j);
                    }
                }
            }
            w
        }
    };
    let mut t = words.join(" ");
    if r.chance(1, 6) {
        let i = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).nth(r.below(t.chars().count() + 1)).unwrap();
        t.insert_str(i, r.pick(&["α", "😀", "'", "\"", "\n", "\t", ".", ",", "é", "\u{0}", "ß", "İ", "’"]));
    }
    t
}

type Said = (Result<String, String>, Result<Vec<String>, String>, Vec<String>);

fn say(t: &str) -> Said {
    (
        lang::compile(t).map_err(|e| format!("{:?}", e.kind)),
        lang::compile_all_scopes(t).map_err(|e| format!("{:?}", e.kind)),
        lang::compile_forest(t),
    )
}

/// Readings are numbered `1) …`, one to a line.
fn balanced(f: &str) -> bool {
    let mut n = 0i64;
    for c in f.lines().flat_map(|l| l.trim_start_matches(|c: char| c.is_ascii_digit()).strip_prefix(") ").unwrap_or(l).chars()) {
        n += match c {
            '(' => 1,
            ')' => -1,
            _ => 0,
        };
        if n < 0 {
            return false;
        }
    }
    n == 0
}

fn sentence(c: &mut Case, s: &[String]) {
    let t = recombined(s, &mut c.rng);
    let Some(a) = c.sut_within("translate", 30, { let t = t.clone(); move || say(&t) }) else { return };
    c.eval();
    c.nontrivial(&t);
    c.count(if a.0.is_ok() { "translated" } else { "refused" }, 1);
    // other sentences in between
    for _ in 0..c.rng.below(3) {
        let o = c.rng.pick(s).clone();
        let _ = c.sut_within("translate", 30, move || say(&o));
    }
    let Some(b) = c.sut_within("translate", 30, { let t = t.clone(); move || say(&t) }) else { return };
    c.count("translated twice", 1);
    if a != b {
        c.fail_with("the same text was translated differently", format!("{a:?} then {b:?}"), json!({"text": t}));
    }
    if let Ok(f) = &a.0 {
        if !f.is_empty() && !t.contains(['(', ')', '"']) && !balanced(f) {
            c.fail_with("unbalanced formula", f.clone(), json!({"text": t}));
        }
    }
}

fn program(c: &mut Case, corpus: &[String]) {
    let mut t = document(corpus, &mut c.rng);
    for _ in 0..c.rng.below(3) {
        let i = crate::text::boundary(&t, &mut c.rng);
        let f = if c.rng.bool() { fragment(corpus, &mut c.rng) } else { c.rng.pick(WORDS).to_string() };
        t.insert_str(i, &f);
    }
    let front = |t: &str| {
        let d = DocumentState::new(t.to_string(), 1);
        (d.tokens.len(), d.diagnostics.len())
    };
    let Some(_) = c.sut_within("analyse", 30, { let t = t.clone(); move || front(&t) }) else { return };
    let code = |t: &str| logicaffeine_compile::compile::compile_to_rust_deterministic(t).map_err(|e| format!("{:?}", e.kind));
    let Some(a) = c.sut_within("generate", 30, { let t = t.clone(); move || code(&t) }) else { return };
    let Some(b) = c.sut_within("generate", 30, { let t = t.clone(); move || code(&t) }) else { return };
    c.eval();
    c.nontrivial(&t);
    c.count(if a.is_ok() { "programs accepted" } else { "programs refused" }, 1);
    if a.as_ref().err() != b.as_ref().err() {
        c.fail_with("the same program was taken and refused", format!("{:?} then {:?}", a.err(), b.err()), json!({"text": t}));
    }
}

pub fn c27(rep: &Report) {
    let s = sentences();
    let corpus = crate::text::corpus();
    rep.rule("any text is translated or refused without a crash, and every time to the same result");
    rep.cases("sentence", scale(6000, 120000), |c| sentence(c, &s));
    rep.cases("program", scale(6000, 60000), |c| program(c, &corpus));
    rep.require("translated", 500);
    rep.require("refused", 100);
    rep.require("translated twice", 1000);
    rep.require("programs accepted", 300);
    rep.require("programs refused", 300);
}
