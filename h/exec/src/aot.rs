//! C21: a program compiled to Rust and built prints what the language says.
use crate::engines::{against, cfg_for, note, Seen};
use crate::gen::Expect;
use crate::make;
use logicaffeine_compile::compile;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vkit::serde_json::{self, json, Value};
use vkit::{guard, Case, Report};

/// The runtime libraries, built from the working tree by cargo; where they ended up.
struct Libs {
    deps: PathBuf,
    externs: Vec<(String, PathBuf)>,
}
fn libs() -> Libs {
    let root = std::env::var("VK_VERIF").unwrap_or("/verif".into());
    let target = std::env::var("VK_AOT_TARGET").unwrap_or(format!("{root}/target/aot"));
    let o = Command::new("cargo")
        .args(["build", "--release", "--offline", "--locked", "--message-format=json"])
        .arg("--manifest-path")
        .arg(std::env::var("VK_AOT_MANIFEST").unwrap_or(format!("{root}/h/aot/Cargo.toml")))
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .expect("cargo");
    assert!(o.status.success(), "runtime libraries do not build: {}", String::from_utf8_lossy(&o.stderr));
    let mut externs = vec![];
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if ["logicaffeine_data", "logicaffeine_system", "rayon", "tokio"].contains(&name.as_str()) {
            for f in v["filenames"].as_array().unwrap() {
                let f = f.as_str().unwrap();
                if f.ends_with(".rlib") {
                    externs.push((name.clone(), PathBuf::from(f)));
                }
            }
        }
    }
    assert!(externs.len() == 4, "libraries found: {externs:?}");
    Libs { deps: Path::new(&target).join("release/deps"), externs }
}

/// Build one crate holding every program as a module; names those whose module has compile errors.
fn rustc(l: &Libs, dir: &Path, mods: &[(usize, String)], release: bool) -> Result<PathBuf, Vec<(usize, String)>> {
    let mut src = String::from("#![allow(warnings)]\n");
    let mut spans = vec![];
    for (i, code) in mods {
        let from = src.matches('\n').count() + 1;
        src.push_str(&format!("mod p{i} {{\n{}\n}}\n", code.replace("\nfn main()", "\npub fn main()").replace("\nasync fn main()", "\npub async fn main()")));
        spans.push((*i, from, src.matches('\n').count()));
    }
    src.push_str("fn main() {\n    match std::env::args().nth(1).unwrap().as_str() {\n");
    for (i, _) in mods {
        src.push_str(&format!("        \"{i}\" => {{ let _ = p{i}::main(); }}\n"));
    }
    src.push_str("        _ => std::process::exit(77),\n    }\n}\n");
    let file = dir.join("all.rs");
    std::fs::write(&file, &src).unwrap();
    let bin = dir.join("all");
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-name", "all", "--error-format=json", "-C", "debuginfo=0", "-C", "strip=debuginfo"]);
    if release {
        c.args(["-C", "opt-level=2", "-C", "codegen-units=4"]);
    } else {
        c.args(["-C", "opt-level=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on"]);
    }
    c.arg("-L").arg(format!("dependency={}", l.deps.display()));
    for (n, p) in &l.externs {
        c.arg("--extern").arg(format!("{n}={}", p.display()));
    }
    let o = c.arg("-o").arg(&bin).arg(&file).env("TMPDIR", dir).output().expect("rustc");
    if o.status.success() {
        return Ok(bin);
    }
    let mut bad = vec![];
    let text = String::from_utf8_lossy(&o.stderr).to_string();
    for line in text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(line) else { continue };
        if v["level"] != "error" {
            continue;
        }
        for s in v["spans"].as_array().into_iter().flatten() {
            let mut s = s;
            while s["file_name"] != file.to_str().unwrap() && s["expansion"]["span"].is_object() {
                s = &s["expansion"]["span"];
            }
            let at = s["line_start"].as_u64().unwrap_or(0) as usize;
            if let Some((i, ..)) = spans.iter().find(|(_, a, b)| at >= *a && at <= *b) {
                if !bad.iter().any(|(j, _)| j == i) {
                    bad.push((*i, v["rendered"].as_str().unwrap_or("").to_string()));
                }
            }
        }
    }
    assert!(!bad.is_empty(), "rustc failed without naming a program: {}", &text[..text.len().min(4000)]);
    Err(bad)
}

pub enum Ran {
    Done(Seen),
    Slow,
}
pub fn run(bin: &Path, arg: &str, secs: u64, dir: &Path) -> Ran {
    let mut p = Command::new(bin)
        .arg(arg)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("run");
    let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = so.read_to_end(&mut b);
        b
    });
    let e = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        b
    });
    let t = Instant::now();
    let st = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = p.kill();
            let _ = p.wait();
            return Ran::Slow;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let (a, e) = (a.join().unwrap(), e.join().unwrap());
    let err = if st.success() { None } else { Some(format!("{st}: {}", String::from_utf8_lossy(&e))) };
    Ran::Done(Seen { out: String::from_utf8_lossy(&a).trim_end().to_string(), err })
}

struct Item {
    text: String,
    want: Want,
}
enum Want {
    Model(Expect, Vec<&'static str>),
    Interp(Seen),
}

fn batch(c: &mut Case, l: &Libs, items: &[Item], release: bool) {
    let dir = PathBuf::from(std::env::var("VK_SCRATCH").unwrap_or("/tmp".into())).join(format!("aot-{}-{}", c.label, c.idx));
    std::fs::create_dir_all(&dir).unwrap();
    let mut mods = vec![];
    for (i, it) in items.iter().enumerate() {
        match c.sut("translate", || compile::compile_to_rust(&it.text)) {
            Some(Ok(s)) => mods.push((i, s)),
            Some(Err(e)) => {
                c.count("refused_by_compiler", 1);
                if let Ok(d) = std::env::var("VK_SHOW") {
                    let f = format!("{d}/REF-{}-{}-{i}", c.label, c.idx);
                    std::fs::write(format!("{f}.err"), format!("{e:?}")).unwrap();
                    std::fs::write(format!("{f}.lg"), &it.text).unwrap();
                }
            }
            None => {}
        }
    }
    let mut built = None;
    for _ in 0..8 {
        if mods.is_empty() {
            break;
        }
        match rustc(l, &dir, &mods, release) {
            Ok(b) => {
                built = Some(b);
                break;
            }
            Err(bad) => {
                c.count("rust_rejected", bad.len() as u64);
                if let Ok(d) = std::env::var("VK_SHOW") {
                    for (i, m) in &bad {
                        let _ = std::fs::create_dir_all(&d);
                        let f = format!("{d}/{}-{}-{i}", c.label, c.idx);
                        std::fs::write(format!("{f}.err"), m).unwrap();
                        std::fs::write(format!("{f}.lg"), &items[*i].text).unwrap();
                    }
                }
                mods.retain(|(i, _)| !bad.iter().any(|(j, _)| j == i));
            }
        }
    }
    if let Some(bin) = built {
        for (i, code) in &mods {
            let it = &items[*i];
            c.eval();
            match run(&bin, &i.to_string(), 20, &dir) {
                Ran::Slow => c.count("gave_up_waiting", 1),
                Ran::Done(got) => {
                    c.nontrivial(&it.text);
                    c.count(if release { "runs:optimised" } else { "runs:debug" }, 1);
                    c.count("lines_compared", got.out.lines().count() as u64);
                    let bad = match &it.want {
                        Want::Model(x, _) => against(x, &got),
                        Want::Interp(w) => {
                            if w.err.is_some() != got.err.is_some() {
                                Some(("error-presence", format!("{:?} but interpreter {:?}", got.err, w.err)))
                            } else if w.out != got.out {
                                Some(("output", format!("{:?} but interpreter {:?}", got.out, w.out)))
                            } else {
                                None
                            }
                        }
                    };
                    if let Some((k, why)) = bad {
                        if let Ok(d) = std::env::var("VK_SHOW") {
                            let _ = std::fs::create_dir_all(&d);
                            let f = format!("{d}/BAD-{}-{}-{i}", c.label, c.idx);
                            std::fs::write(format!("{f}.lg"), &it.text).unwrap();
                            std::fs::write(format!("{f}.rs"), code).unwrap();
                            std::fs::write(format!("{f}.why"), format!("{k} {why} release {release}")).unwrap();
                        }
                        let tags = if let Want::Model(_, t) = &it.want { t.clone() } else { vec![] };
                        c.fail_with(&format!("compiled:{k}"), format!("{why}; optimised build {release}; tags {tags:?}\n{}", it.text), json!({"program": it.text, "rust": code}));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c21(rep: &Report) {
    rep.rule("random programs translated to Rust, built with the compiler against the runtime libraries of the working tree and run as processes; printed lines and failure compared with an independent evaluator; non-trivial = distinct program text that was built and run");
    let l = libs();
    rep.cases("compiled", vkit::scale(40, 320), |c| {
        let mut items = vec![];
        while items.len() < 40 {
            let mut cfg = cfg_for(&mut c.rng);
            cfg.big = false;
            cfg.aot = true;
            let (p, x, text) = make::program(&mut c.rng, &cfg, true);
            if x.big {
                c.count("left_out_big", 1);
                continue;
            }
            note(c, &p, &x, &text);
            items.push(Item { text, want: Want::Model(x, p.tags.clone()) });
        }
        let release = c.idx % 2 == 1;
        batch(c, &l, &items, release);
    });
    rep.require("lines_compared", 2000);
    rep.require("runs:debug", 50);
    rep.require("runs:optimised", 50);
}
