//! C26: formatting and renaming change how a program reads, not what it does.
use crate::text::*;
use logicaffeine_compile::compile;
use logicaffeine_language::source_format::format_source;
use logicaffeine_lsp::document::DocumentState;
use tower_lsp::lsp_types::{Position, TextEdit, Url};
use vkit::serde_json::json;
use vkit::{scale, Case, Report, Rng};

fn seen(t: &str) -> (String, Option<String>) {
    let o = compile::tw_outcome(t);
    (o.output.trim_end().to_string(), o.error)
}

fn apply(t: &str, edits: &[TextEdit]) -> Option<String> {
    let mut v = vec![];
    for e in edits {
        let a = at(t, e.range.start.line as u64, e.range.start.character as u64)?;
        let b = at(t, e.range.end.line as u64, e.range.end.character as u64)?;
        if b < a {
            return None;
        }
        v.push((a, b, e.new_text.clone()));
    }
    v.sort();
    v.dedup();
    if v.windows(2).any(|w| w[0].1 > w[1].0) {
        return None;
    }
    let mut o = t.to_string();
    for (a, b, n) in v.into_iter().rev() {
        o.replace_range(a..b, &n);
    }
    Some(o)
}

/// The same program, its indentation written otherwise.
fn untidy(t: &str, r: &mut Rng) -> String {
    let unit = *r.pick(&["\t", "  ", "   ", "        "]);
    let trail = r.chance(1, 2);
    t.lines()
        .map(|l| {
            let n = l.len() - l.trim_start_matches(' ').len();
            let mut o = if n % 4 == 0 { unit.repeat(n / 4) + l.trim_start_matches(' ') } else { l.to_string() };
            if trail && r.chance(1, 3) {
                o.push_str("  ");
            }
            o + "\n"
        })
        .collect()
}

fn formatting(c: &mut Case, corpus: &[String]) {
    let base = c.rng.pick(corpus).clone();
    let (t, program) = match c.rng.below(4) {
        0 => (document(corpus, &mut c.rng), false),
        1 => (base.clone(), true),
        _ => (untidy(&base, &mut c.rng), true),
    };
    let Some(f) = c.sut("format", || format_source(&t)) else { return };
    let Some(g) = c.sut("format", || format_source(&f)) else { return };
    c.eval();
    // a line inside an unfinished text has no indentation to settle
    let whole = t.lines().all(|l| l.matches('"').count() % 2 == 0);
    if program && whole && t.starts_with("##") && f != g {
        c.fail_with("formatting twice differs", format!("{f:?} then {g:?}"), json!({"text": t}));
    }
    let squash = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
    if squash(&f) != squash(&t) || f.trim_end().lines().count() != t.trim_end().lines().count() {
        c.fail_with("formatting changed words", format!("{f:?} from {t:?}"), json!({"text": t}));
    }
    if f != t {
        c.nontrivial(&t);
        c.count("texts changed by formatting", 1);
    }
    let Some(doc) = c.sut("analysis", || DocumentState::new(t.clone(), 1)) else { return };
    let Some(e) = c.sut("editor formatting", || logicaffeine_lsp::formatting::format_document(&doc)) else { return };
    match apply(&t, &e) {
        Some(x) if x.replace('\r', "").trim_end() == f.replace('\r', "").trim_end() => {}
        Some(_) if t.contains('\r') => {}
        o => c.fail_with("editor formatting differs from the formatter", format!("{o:?} but {f:?}"), json!({"text": t})),
    }
    if !whole || t.contains('\r') {
        return;
    }
    let (Some(a), Some(b)) = (c.sut_within("run", 20, { let t = t.clone(); move || seen(&t) }), c.sut_within("run", 20, { let f = f.clone(); move || seen(&f) })) else { return };
    if a.1.is_none() {
        c.count("programs run before and after formatting", 1);
        if t.starts_with("##") && f != g {
            c.fail_with("formatting twice differs", format!("{f:?} then {g:?}"), json!({"text": t}));
        }
    }
    // a text refused before formatting is no program yet
    if (program || a.1.is_none()) && (a.0 != b.0 || a.1.is_some() != b.1.is_some()) {
        c.fail_with("formatting changed what a program does", format!("{a:?} then {b:?}"), json!({"text": t, "formatted": f}));
    }
}

/// Does a text of the program name it between braces? (a known finding, see `told`)
fn in_text(t: &str, name: &str) -> bool {
    t.contains('"') && t.split('{').skip(1).any(|s| s.split('}').next().unwrap_or("").contains(name))
}

/// Renaming leaves a name used inside a text: reported by its own input.
fn told(c: &mut Case) {
    let t = "## Main\nLet name be \"px\".\nShow \"Hello {name}!\".\n";
    let uri = Url::parse("file:///r.lg").unwrap();
    c.eval();
    let Some(Some(w)) = c.sut("rename", || logicaffeine_lsp::rename::rename(&DocumentState::new(t.into(), 1), Position { line: 1, character: 4 }, "qzvor".into(), &uri)) else { return };
    let es = w.changes.and_then(|m| m.into_values().next()).unwrap_or_default();
    let r = apply(t, &es).unwrap_or_default();
    if seen(t) != seen(&r) {
        c.fail_with("rename-leaves-name-inside-text", format!("{t:?} becomes {r:?}"), json!({"text": t, "renamed": r}));
    }
}

fn renaming(c: &mut Case, corpus: &[String]) {
    let t = c.rng.pick(corpus).clone();
    let Some(doc) = c.sut("analysis", || DocumentState::new(t.clone(), 1)) else { return };
    let defs: Vec<_> = doc.symbol_index.definitions.iter().filter(|d| d.span.end > d.span.start && matches!(d.kind, logicaffeine_lsp::index::DefinitionKind::Variable | logicaffeine_lsp::index::DefinitionKind::Function | logicaffeine_lsp::index::DefinitionKind::Parameter)).collect();
    if defs.is_empty() {
        return;
    }
    let d = *c.rng.pick(&defs);
    // a native function is found by its name
    if t.contains(&format!("native {}", &t[d.span.start..d.span.end])) {
        return;
    }
    if in_text(&t, &t[d.span.start..d.span.end]) {
        c.count("names used inside a text, not renamed", 1);
        return;
    }
    let p = pos(&t, d.span.start);
    let new = "qzvor".to_string();
    let uri = Url::parse("file:///r.lg").unwrap();
    let Some(Some(w)) = c.sut("rename", || logicaffeine_lsp::rename::rename(&doc, Position { line: p.0, character: p.1 }, new.clone(), &uri)) else { return };
    let es = w.changes.and_then(|m| m.into_values().next()).unwrap_or_default();
    c.eval();
    let name = t[d.span.start..d.span.end].to_string();
    let Some(r) = apply(&t, &es) else {
        c.fail_with("rename edits overlap or leave the text", format!("{es:?}"), json!({"text": t}));
        return;
    };
    for e in &es {
        let a = at(&t, e.range.start.line as u64, e.range.start.character as u64).unwrap();
        let b = at(&t, e.range.end.line as u64, e.range.end.character as u64).unwrap();
        if t[a..b] != name {
            c.fail_with("rename edits another word", format!("{:?} for {name}", &t[a..b]), json!({"text": t}));
            return;
        }
    }
    let (Some(a), Some(b)) = (c.sut_within("run", 20, { let t = t.clone(); move || seen(&t) }), c.sut_within("run", 20, { let r = r.clone(); move || seen(&r) })) else { return };
    if a.1.is_some() {
        return;
    }
    c.nontrivial(&(&t, &name));
    c.count("programs run before and after renaming", 1);
    if a.0.replace(&name, &new) != b.0.replace(&name, &new) || b.1.is_some() {
        c.fail_with("renaming changed what a program does", format!("{name}: {a:?} then {b:?}"), json!({"text": t, "renamed": r}));
    }
}

pub fn c26(rep: &Report) {
    let corpus = corpus();
    rep.rule("formatting is idempotent, keeps words and line count, and the program's output; renaming a definition keeps the output");
    rep.cases("formatting", scale(3000, 30000), |c| formatting(c, &corpus));
    rep.cases("renaming", scale(2000, 20000), |c| renaming(c, &corpus));
    rep.cases("told", 1, told);
    rep.require("texts changed by formatting", 200);
    rep.require("programs run before and after formatting", 200);
    rep.require("programs run before and after renaming", 100);
}
