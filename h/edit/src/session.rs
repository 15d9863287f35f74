//! C25: whatever an editor did before, the server answers as if the document had just been opened.
use crate::text::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vkit::{scale, Case, Report};

struct Peer {
    tx: tokio::io::WriteHalf<tokio::io::DuplexStream>,
    rx: tokio::sync::mpsc::UnboundedReceiver<Value>,
    id: i64,
    /// diagnostics published, in order: uri, version, list
    published: Vec<(String, Option<i64>, Value)>,
    early: std::collections::HashMap<i64, Value>,
    task: tokio::task::JoinHandle<()>,
}

impl Peer {
    async fn start() -> Peer {
        let (mine, theirs) = tokio::io::duplex(1 << 20);
        let (si, so) = tokio::io::split(theirs);
        let task = tokio::spawn(async move {
            let (service, socket) = tower_lsp::LspService::new(logicaffeine_lsp::server::LogicAffeineServer::new);
            tower_lsp::Server::new(si, so, socket).serve(service).await;
        });
        let (mut rd, tx) = tokio::io::split(mine);
        let (send, rx) = tokio::sync::mpsc::unbounded_channel();
        tokio::spawn(async move {
            let mut buf: Vec<u8> = vec![];
            let mut chunk = vec![0u8; 65536];
            loop {
                while let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    let head = String::from_utf8_lossy(&buf[..h]).to_string();
                    let n: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).and_then(|x| x.trim().parse().ok()).unwrap_or(0);
                    if buf.len() < h + 4 + n {
                        break;
                    }
                    if let Ok(v) = serde_json::from_slice(&buf[h + 4..h + 4 + n]) {
                        let _ = send.send(v);
                    }
                    buf.drain(..h + 4 + n);
                }
                match rd.read(&mut chunk).await {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend_from_slice(&chunk[..n]),
                }
            }
        });
        let mut p = Peer { tx, rx, id: 0, published: vec![], early: Default::default(), task };
        p.ask("initialize", json!({"capabilities": {}})).await;
        p.tell("initialized", json!({})).await;
        p
    }
    async fn write(&mut self, v: Value) {
        let s = v.to_string();
        let _ = self.tx.write_all(format!("Content-Length: {}\r\n\r\n{s}", s.len()).as_bytes()).await;
    }
    async fn tell(&mut self, method: &str, params: Value) {
        self.write(json!({"jsonrpc": "2.0", "method": method, "params": params})).await;
    }
    fn note(&mut self, v: &Value) {
        if v["method"] == "textDocument/publishDiagnostics" {
            let p = &v["params"];
            self.published.push((p["uri"].as_str().unwrap_or("").into(), p["version"].as_i64(), p["diagnostics"].clone()));
        }
    }
    async fn ask_start(&mut self, method: &str, params: Value) -> i64 {
        self.id += 1;
        let id = self.id;
        self.write(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})).await;
        id
    }
    async fn answer(&mut self, id: i64) -> Option<Value> {
        let end = Instant::now() + Duration::from_secs(60);
        if let Some(v) = self.early.remove(&id) {
            return Some(v);
        }
        loop {
            let v = tokio::time::timeout(end.saturating_duration_since(Instant::now()), self.rx.recv()).await.ok()??;
            self.note(&v);
            if let (Some(n), None) = (v["id"].as_i64(), v.get("method")) {
                let r = if v.get("error").is_some() { json!({"error": v["error"]}) } else { v["result"].clone() };
                if n == id {
                    return Some(r);
                }
                self.early.insert(n, r);
            }
            if v.get("method").is_some() && v.get("id").is_some() {
                let id = v["id"].clone();
                self.write(json!({"jsonrpc": "2.0", "id": id, "result": null})).await;
            }
        }
    }
    async fn ask(&mut self, method: &str, params: Value) -> Option<Value> {
        let id = self.ask_start(method, params).await;
        self.answer(id).await
    }
    /// Until diagnostics of this version were published and nothing more comes.
    async fn settle(&mut self, uri: &str, version: i64, from: usize) -> bool {
        let end = Instant::now() + Duration::from_secs(60);
        while !self.published[from..].iter().any(|p| p.0 == uri && p.1 == Some(version)) {
            match tokio::time::timeout(end.saturating_duration_since(Instant::now()), self.rx.recv()).await {
                Ok(Some(v)) => self.note(&v),
                _ => return false,
            }
        }
        while let Ok(Some(v)) = tokio::time::timeout(Duration::from_millis(350), self.rx.recv()).await {
            self.note(&v);
        }
        true
    }
}

type Texts = std::collections::HashMap<String, String>;

/// Every range in an answer, checked against the text it is about.
fn ranges_ok(t: &str, all: &Texts, v: &Value, n: &mut u64) -> Option<String> {
    match v {
        Value::Object(m) => {
            let t = m.get("uri").and_then(|u| all.get(u.as_str()?)).map(|s| s.as_str()).unwrap_or(t);
            if let (Some(s), Some(e)) = (m.get("start"), m.get("end")) {
                if s.get("line").is_some() && e.get("line").is_some() {
                    *n += 1;
                    let p = |x: &Value| Some((x["line"].as_u64()?, x["character"].as_u64()?));
                    let (s, e) = (p(s)?, p(e)?);
                    let (a, b) = (at(t, s.0, s.1), at(t, e.0, e.1));
                    match (a, b) {
                        (Some(a), Some(b)) if a <= b => return None,
                        _ => return Some(format!("{s:?}..{e:?}")),
                    }
                }
            }
            m.iter().find_map(|(k, x)| ranges_ok(all.get(k).map(|s| s.as_str()).unwrap_or(t), all, x, n))
        }
        Value::Array(a) => a.iter().find_map(|x| ranges_ok(t, all, x, n)),
        _ => None,
    }
}

/// The order of a list of symbols, places or suggestions carries no meaning.
fn tidy(method: &str, mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("resultId");
    }
    fn sort(v: &mut Value) {
        match v {
            Value::Array(a) if a.iter().all(|x| x.is_object()) => {
                a.iter_mut().for_each(sort);
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a) => a.iter_mut().for_each(sort),
            Value::Object(m) => m.values_mut().for_each(sort),
            _ => {}
        }
    }
    if method != "textDocument/formatting" {
        sort(&mut v);
    }
    v
}

const POSITIONAL: &[&str] = &["hover", "definition", "references", "documentHighlight", "signatureHelp", "completion", "prepareRename", "prepareCallHierarchy", "selectionRange", "rename"];
const WHOLE: &[&str] = &["documentSymbol", "foldingRange", "semanticTokens/full", "codeLens", "inlayHint", "formatting", "diagnostic", "codeAction"];

fn request(t: &str, uri: &str, what: &str, at: usize) -> (String, Value) {
    let (l, k) = pos(t, at);
    let p = json!({"line": l, "character": k});
    let e = pos(t, t.len());
    let all = json!({"start": {"line": 0, "character": 0}, "end": {"line": e.0, "character": e.1}});
    let doc = json!({"uri": uri});
    let params = match what {
        "references" => json!({"textDocument": doc, "position": p, "context": {"includeDeclaration": true}}),
        "selectionRange" => json!({"textDocument": doc, "positions": [p]}),
        "rename" => json!({"textDocument": doc, "position": p, "newName": "renamed"}),
        "inlayHint" => json!({"textDocument": doc, "range": all}),
        "codeAction" => json!({"textDocument": doc, "range": {"start": p, "end": p}, "context": {"diagnostics": []}}),
        "formatting" => json!({"textDocument": doc, "options": {"tabSize": 4, "insertSpaces": true}}),
        _ if WHOLE.contains(&what) => json!({"textDocument": doc}),
        _ => json!({"textDocument": doc, "position": p}),
    };
    (format!("textDocument/{what}"), params)
}

fn patch_tokens(old: &[Value], edits: &Value) -> Option<Vec<Value>> {
    let mut v = old.to_vec();
    let mut es: Vec<&Value> = edits.as_array()?.iter().collect();
    es.sort_by_key(|e| std::cmp::Reverse(e["start"].as_u64()));
    for e in es {
        let (s, d) = (e["start"].as_u64()? as usize, e["deleteCount"].as_u64()? as usize);
        if s + d > v.len() {
            return None;
        }
        v.splice(s..s + d, e["data"].as_array().cloned().unwrap_or_default());
    }
    Some(v)
}

/// Tokens lie one after the other and begin inside their lines; one of an unfinished text may go on.
fn tokens_ok(t: &str, data: &[Value]) -> Option<String> {
    let ls = lines(t);
    let (mut line, mut ch, mut end) = (0u64, 0u64, 0u64);
    for (i, w) in data.chunks(5).enumerate() {
        let g = |k: usize| w.get(k).and_then(|x| x.as_u64());
        let (Some(dl), Some(dc), Some(len)) = (g(0), g(1), g(2)) else { return Some("not five numbers".into()) };
        if dl > 0 {
            line += dl;
            ch = dc;
        } else {
            ch += dc;
            if i > 0 && ch < end {
                return Some(format!("token {i} at {line}:{ch} begins before {end}"));
            }
        }
        end = ch + len;
        let Some((_, l)) = ls.get(line as usize) else { return Some(format!("token {i} on line {line}")) };
        let rest: usize = ls[line as usize..].iter().map(|(_, l)| l.encode_utf16().count() + 2).sum();
        if ch > l.encode_utf16().count() as u64 || end > rest as u64 {
            return Some(format!("token {i} at {line}:{ch} of length {len}"));
        }
    }
    None
}

type Doc = (String, String, i64, Option<Vec<Value>>, String);

/// A server that just opened the same documents, this one last.
async fn fresh(state: &[Doc], d: usize) -> Option<Peer> {
    let mut f = Peer::start().await;
    for k in (0..state.len()).filter(|k| *k != d).chain([d]) {
        let (uri, t, version, _, _) = &state[k];
        f.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "logos", "version": version, "text": t}})).await;
        if !f.settle(uri, *version, 0).await {
            return None;
        }
    }
    Some(f)
}

/// Nothing was published for a minute: a violation when the server answers other things at once.
async fn silent(c: &mut Case<'_>, p: &mut Peer, uri: &str, version: i64, t: &str) {
    let start = Instant::now();
    let (m, q) = request(t, uri, "foldingRange", 0);
    if p.ask(&m, q).await.is_some() && start.elapsed() < Duration::from_secs(5) && !p.published.iter().any(|x| x.0 == uri && x.1 == Some(version)) {
        c.fail_with("no diagnostics for the newest version", format!("version {version}"), json!({"text": t}));
    } else {
        c.inconclusive("no diagnostics, but the server is slow");
    }
}

async fn run(c: &mut Case<'_>, corpus: &[String]) {
    let mut p = Peer::start().await;
    let docs = 1 + c.rng.below(2);
    let mut state: Vec<Doc> = vec![];
    for d in 0..docs {
        let uri = format!("file:///session/{}-{d}.lg", c.idx);
        let t = document(corpus, &mut c.rng);
        p.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "logos", "version": 1, "text": t}})).await;
        state.push((uri, t, 1, None, String::new()));
    }
    let mut pending = vec![];
    for _ in 0..1 + c.rng.below(14) {
        let d = c.rng.below(docs);
        match c.rng.below(12) {
            0 => {
                let ms = c.rng.below(220) as u64;
                tokio::time::sleep(Duration::from_millis(ms)).await;
            }
            1 => {
                c.count("closed and opened again", 1);
                let (uri, _, _, _, _) = state[d].clone();
                p.tell("textDocument/didClose", json!({"textDocument": {"uri": uri}})).await;
                let t = document(corpus, &mut c.rng);
                state[d] = (uri.clone(), t.clone(), 1000 + state[d].2, None, String::new());
                p.tell("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "logos", "version": state[d].2, "text": t}})).await;
            }
            2 => {
                let b = boundary(&state[d].1, &mut c.rng);
                let what = *c.rng.pick(POSITIONAL);
                let (m, q) = request(&state[d].1, &state[d].0, what, b);
                pending.push(p.ask_start(&m, q).await);
                c.count("requests between edits", 1);
            }
            3 => {
                let uri = state[d].0.clone();
                let Some(v) = p.ask("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})).await else { return c.inconclusive("no answer") };
                if let Some(a) = v["data"].as_array() {
                    state[d].3 = Some(a.clone());
                    state[d].4 = v["resultId"].as_str().unwrap_or("").to_string();
                }
            }
            _ => {
                let n = 1 + c.rng.below(3);
                let mut t = state[d].1.clone();
                let ch: Vec<Value> = (0..n).map(|_| edit(&mut t, corpus, &mut c.rng)).collect();
                state[d].1 = t;
                state[d].2 += 1;
                let (uri, v) = (state[d].0.clone(), state[d].2);
                p.tell("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": ch})).await;
                c.count("edits", n as u64);
            }
        }
    }
    for id in pending {
        let Some(v) = p.answer(id).await else { return c.inconclusive("no answer") };
        if v.get("error").is_some() {
            c.fail("request failed", v.to_string());
        }
    }
    for d in 0..docs {
        let (uri, t, version, _, _) = &state[d];
        if !p.settle(uri, *version, 0).await {
            let (uri, t, version) = (uri.clone(), t.clone(), *version);
            return silent(c, &mut p, &uri, version, &t).await;
        }
    }
    c.eval();
    for d in 0..docs {
        let (uri, t, version, _, _) = state[d].clone();
        c.nontrivial(&t);
        let all: Vec<_> = p.published.iter().filter(|x| x.0 == uri).cloned().collect();
        c.count("diagnostics published", all.len() as u64);
        let vs: Vec<i64> = all.iter().filter_map(|x| x.1).collect();
        if vs.windows(2).any(|w| w[0] > w[1]) {
            c.fail("older diagnostics after newer", format!("{vs:?}"));
        }
        let last = all.last().unwrap().clone();
        if last.1 != Some(version) {
            c.fail("last diagnostics are not of the newest version", format!("{:?} but {version}", last.1));
        }
        let Some(mut f) = fresh(&state, d).await else { return c.inconclusive("fresh server gave no diagnostics") };
        let show = |a: &Value| a.to_string().chars().take(500).collect::<String>();
        if tidy("", f.published.last().unwrap().2.clone()) != tidy("", last.2.clone()) {
            c.fail_with("diagnostics differ from a fresh opening", format!("{} but fresh {}", show(&last.2), show(&f.published.last().unwrap().2)), json!({"text": t}));
        }
        let texts: Texts = state.iter().map(|s| (s.0.clone(), s.1.clone())).collect();
        let mut n = 0;
        if let Some(bad) = ranges_ok(&t, &texts, &last.2, &mut n) {
            c.fail_with("a diagnostic lies outside the text", bad, json!({"text": t, "diagnostics": last.2}));
        }
        let mut asks: Vec<(&str, usize)> = WHOLE.iter().map(|w| (*w, boundary(&t, &mut c.rng))).collect();
        for _ in 0..6 {
            let b = boundary(&t, &mut c.rng);
            asks.push((*c.rng.pick(POSITIONAL), b));
        }
        for (w, b) in asks {
            let (m, q) = request(&t, &uri, w, b);
            let (x, y) = (p.ask(&m, q.clone()).await, f.ask(&m, q.clone()).await);
            let (Some(x), Some(y)) = (x, y) else { return c.inconclusive("no answer") };
            c.count("answers compared", 1);
            c.seen("kinds of answer", &(w, x.is_null()));
            if x.get("error").is_some() {
                c.fail_with("request failed", format!("{m}: {x}"), json!({"text": t}));
            }
            let (x, y) = (tidy(&m, x), tidy(&m, y));
            let mut same = x == y;
            // some answers about a broken document vary from one fresh server to the next
            for _ in 0..if same { 0 } else { 12 } {
                let Some(mut g) = fresh(&state, d).await else { return c.inconclusive("fresh server gave no diagnostics") };
                let y = g.ask(&m, q.clone()).await;
                g.task.abort();
                if y.map(|y| tidy(&m, y)).as_ref() == Some(&x) {
                    c.count("answers that vary between fresh servers", 1);
                    same = true;
                    break;
                }
            }
            if !same {
                c.fail_with(&format!("{w} differs from a fresh opening"), format!("at {b}: {} but fresh {}", show(&x), show(&y)), json!({"text": t}));
            }
            if w == "semanticTokens/full" {
                if let Some(a) = x["data"].as_array() {
                    c.count("semantic tokens", a.len() as u64 / 5);
                    if let Some(bad) = tokens_ok(&t, a) {
                        c.fail_with("semantic tokens overlap or leave the text", bad, json!({"text": t}));
                    }
                }
            } else if let Some(bad) = ranges_ok(&t, &texts, &x, &mut n) {
                c.fail_with(&format!("{w} names a range outside the text"), bad, json!({"text": t, "answer": show(&x)}));
            }
        }
        c.count("ranges", n);
        // a difference of semantic tokens rebuilds the full list
        let Some(full) = p.ask("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})).await else { return c.inconclusive("no answer") };
        if let (Some(a), Some(id)) = (full["data"].as_array(), full["resultId"].as_str()) {
            let mut t2 = t.clone();
            let ch = vec![edit(&mut t2, corpus, &mut c.rng)];
            p.tell("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version + 1}, "contentChanges": ch})).await;
            if !p.settle(&uri, version + 1, 0).await {
                return silent(c, &mut p, &uri, version + 1, &t2).await;
            }
            (state[d].1, state[d].2) = (t2.clone(), version + 1);
            let Some(dl) = p.ask("textDocument/semanticTokens/full/delta", json!({"textDocument": {"uri": uri}, "previousResultId": id})).await else { return c.inconclusive("no answer") };
            let now = if dl.get("edits").is_some() {
                c.count("token differences", 1);
                patch_tokens(a, &dl["edits"])
            } else {
                dl["data"].as_array().cloned()
            };
            let Some(want) = p.ask("textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri}})).await else { return c.inconclusive("no answer") };
            if now.as_ref() != want["data"].as_array() {
                c.fail_with("token difference rebuilds another list", show(&dl), json!({"text": t2, "before": t}));
            }
        }
        f.task.abort();
    }
    p.task.abort();
}

/// The text the scheduler keeps is the text the editor has.
fn keeping(c: &mut Case<'_>, corpus: &[String]) {
    use tower_lsp::lsp_types::Url;
    let s = logicaffeine_lsp::scheduler::Scheduler::new();
    let uri = Url::parse("file:///k.lg").unwrap();
    let mut t = document(corpus, &mut c.rng);
    s.open(uri.clone(), t.clone(), 1);
    c.eval();
    for v in 2..2 + c.rng.below(30) as i32 {
        let before = t.clone();
        let e: Vec<Value> = (0..1 + c.rng.below(3)).map(|_| edit(&mut t, corpus, &mut c.rng)).collect();
        let ch = serde_json::from_value(json!(e)).unwrap();
        c.count("kept edits", e.len() as u64);
        if c.sut("apply changes", || s.apply_changes(&uri, ch, v)).is_none() {
            return;
        }
        let got = s.current_text(&uri);
        if got != Some((t.clone(), v)) {
            c.fail_with("kept text differs from the editor's", format!("{:?} but should be {:?}", got, t), json!({"before": before, "edits": e}));
            return;
        }
        c.nontrivial(&t);
    }
}

pub fn c25(rep: &Report) {
    let corpus = corpus();
    rep.rule("after any history of edits, requests, closings and reopenings the server holds the editor's text, publishes diagnostics of the newest version last, and answers as a server that just opened that text");
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    rep.cases("keeping", scale(4000, 60000), |c| keeping(c, &corpus));
    rep.cases_with("session", scale(200, 3000), 24, 280.0, |c| {
        let ended = rt.block_on(async { tokio::time::timeout(Duration::from_secs(240), run(c, &corpus)).await.is_ok() });
        if !ended {
            c.inconclusive("session did not end");
        }
    });
    rep.require("edits", 300);
    rep.require("answers compared", 500);
    rep.require("token differences", 20);
    rep.require("closed and opened again", 20);
    rep.require("kept edits", 1000);
}
