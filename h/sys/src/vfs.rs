//! C08: the virtual file system against a model, hostile paths, and concurrent atomic writes.
//! The whole process runs as an unprivileged user here: a path that escapes the base directory
//! can reach nothing but this check's own scratch files.
use logicaffeine_system::fs::{NativeVfs, UringVfs, Vfs, VfsError};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vkit::serde_json::json;
use vkit::{Case, Report};

type V = Arc<dyn Vfs + Send + Sync>;

/// Give the driver's files for this run to `nobody`, then become it.
pub fn drop_privileges() {
    unsafe {
        if libc::geteuid() != 0 {
            return;
        }
        // the directory of the run's output files, and its scratch directory
        let dirs = [std::env::var("VK_OUT").ok().and_then(|p| Some(Path::new(&p).parent()?.to_path_buf())), std::env::var("VK_SCRATCH").ok().map(PathBuf::from)];
        for p in dirs.into_iter().flatten() {
            let c = std::ffi::CString::new(p.to_string_lossy().into_owned()).unwrap();
            libc::chown(c.as_ptr(), 65534, 65534);
        }
        if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 || libc::setuid(0) == 0 {
            eprintln!("could not drop privileges");
            std::process::exit(2);
        }
    }
}

fn scratch(c: &mut Case, what: &str) -> PathBuf {
    let p = PathBuf::from(std::env::var("VK_SCRATCH").unwrap_or("/tmp/vk".into())).join(format!("{what}{}-{:016x}", std::process::id(), c.rng.u64()));
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}

fn open(c: &mut Case, base: &Path) -> (V, &'static str) {
    if c.rng.bool() {
        if let Ok(u) = UringVfs::new(base.to_path_buf()) {
            c.count("io_uring_cases", 1);
            return (Arc::new(u), "io_uring");
        }
        c.count("io_uring_unavailable", 1);
    }
    c.count("native_cases", 1);
    (Arc::new(NativeVfs::new(base.to_path_buf())), "native")
}

/// Everything below `p`, as relative path -> Some(content) or None for a directory.
fn snapshot(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(root: &Path, p: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            let q = e.path();
            let rel = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            if q.is_dir() {
                out.insert(rel, None);
                go(root, &q, out);
            } else {
                out.insert(rel, std::fs::read(&q).ok());
            }
        }
    }
    let mut m = BTreeMap::new();
    go(p, p, &mut m);
    m
}

const NAMES: [&str; 6] = ["a", "b", "dir", "dir/x", "dir/sub/y", "a.tmp"];

/// Well-formed paths: the store behaves like a simple map from path to content.
fn model(c: &mut Case) {
    let base = scratch(c, "m");
    let (v, name) = open(c, &base);
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    let parents = |p: &str| -> Vec<String> {
        let mut out = vec![];
        let mut q = Path::new(p).parent();
        while let Some(x) = q {
            if x.as_os_str().is_empty() {
                break;
            }
            out.push(x.to_string_lossy().into_owned());
            q = x.parent();
        }
        out
    };
    let mut hist = vec![];
    for uid in 0..(4 + c.rng.below(25)) {
        let p = c.rng.pick(&NAMES).to_string();
        let is_dir = dirs.contains(&p);
        // a path under a file is not a well-formed request
        if parents(&p).iter().any(|q| m.contains_key(q)) {
            continue;
        }
        // the same file under an equivalent spelling
        let spelled = match c.rng.below(5) {
            0 => format!("./{p}"),
            1 => format!("q/../{p}"),
            2 => p.replace('/', "//"),
            _ => p.clone(),
        };
        let n = match c.rng.below(4) {
            0 => 0,
            1 => c.rng.below(20_000),
            _ => c.rng.below(40),
        };
        let mut data = format!("{uid}:").into_bytes();
        data.extend(c.rng.bytes(n));
        let bad: Option<String> = rt().block_on(async {
            match c.rng.below(9) {
                0 | 1 if !is_dir => {
                    hist.push(format!("write {spelled} {}", data.len()));
                    if let Err(e) = v.write(&spelled, &data).await {
                        return Some(format!("write failed: {e:?}"));
                    }
                    dirs.extend(parents(&p));
                    m.insert(p.clone(), data);
                }
                2 | 3 if !is_dir => {
                    hist.push(format!("append {spelled} {}", data.len()));
                    if let Err(e) = v.append(&spelled, &data).await {
                        return Some(format!("append failed: {e:?}"));
                    }
                    dirs.extend(parents(&p));
                    m.entry(p.clone()).or_default().extend(data);
                }
                4 => {
                    hist.push(format!("read {spelled}"));
                    match (v.read(&spelled).await, m.get(&p)) {
                        (Ok(g), Some(w)) if g == *w => {}
                        (Err(_), None) => {}
                        (g, w) => return Some(format!("read {:?}, stored {:?}", g.map(|x| x.len()), w.map(|x| x.len()))),
                    }
                    if let Some(w) = m.get(&p) {
                        match (v.read_to_string(&spelled).await, String::from_utf8(w.clone())) {
                            (Ok(a), Ok(b)) if a == b => {}
                            (Err(_), Err(_)) => {}
                            _ => return Some("text read disagrees with the stored bytes".into()),
                        }
                    }
                }
                5 if !is_dir => {
                    hist.push(format!("remove {spelled}"));
                    let r = v.remove(&spelled).await;
                    if r.is_ok() != m.remove(&p).is_some() {
                        return Some(format!("remove returned {r:?}"));
                    }
                }
                6 => {
                    hist.push(format!("exists {spelled}"));
                    match v.exists(&spelled).await {
                        Ok(b) if b == (m.contains_key(&p) || is_dir) => {}
                        r => return Some(format!("exists returned {r:?}")),
                    }
                }
                7 => {
                    let q = c.rng.pick(&NAMES).to_string();
                    if is_dir || dirs.contains(&q) || parents(&q).iter().any(|x| !dirs.contains(x)) || parents(&q).iter().any(|x| m.contains_key(x)) {
                        return None;
                    }
                    hist.push(format!("rename {spelled} {q}"));
                    let r = v.rename(&spelled, &q).await;
                    match m.get(&p).cloned() {
                        Some(w) => {
                            if r.is_err() {
                                return Some(format!("rename failed: {r:?}"));
                            }
                            m.remove(&p);
                            m.insert(q, w);
                        }
                        None => {
                            if r.is_ok() {
                                return Some("rename of a missing file succeeded".into());
                            }
                        }
                    }
                }
                _ => {
                    hist.push("list".into());
                    let d = if dirs.contains("dir") && c.rng.bool() { "dir" } else { "." };
                    let mut want: Vec<(bool, String)> = vec![];
                    for k in m.keys().map(|k| (k, false)).chain(dirs.iter().map(|k| (k, true))) {
                        let par = Path::new(k.0).parent().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                        if par == if d == "." { "" } else { d } {
                            want.push((k.1, Path::new(k.0).file_name().unwrap().to_string_lossy().into_owned()));
                        }
                    }
                    want.sort();
                    let mut got: Vec<(bool, String)> = match v.list_dir(d).await {
                        Ok(g) => g.into_iter().map(|e| (e.is_directory, e.name)).collect(),
                        Err(e) => return Some(format!("list failed: {e:?}")),
                    };
                    got.sort();
                    if got != want {
                        return Some(format!("listed {got:?}, expected {want:?}"));
                    }
                }
            }
            None
        });
        c.count("file_operations", 1);
        if let Some(b) = bad {
            c.fail_with(&format!("vfs:{name}:model"), b, json!({"history": hist}));
            let _ = std::fs::remove_dir_all(&base);
            return;
        }
    }
    c.eval();
    let mut want: BTreeMap<String, Option<Vec<u8>>> = m.into_iter().map(|(k, v)| (k, Some(v))).collect();
    want.extend(dirs.into_iter().map(|d| (d, None)));
    let got = snapshot(&base);
    if got != want {
        c.fail_with(&format!("vfs:{name}:left-behind"), format!("directory holds {:?}, expected {:?}", got.keys(), want.keys()), json!({"history": hist}));
    }
    c.nontrivial(&hist);
    let _ = std::fs::remove_dir_all(&base);
}

/// Hostile paths on every operation: nothing outside the base directory is read or changed.
fn hostile(c: &mut Case) {
    let top = scratch(c, "h");
    let base = top.join("l1/l2/l3/base");
    std::fs::create_dir_all(&base).unwrap();
    // bait at every level, absolute and relative
    let secret = b"OUTSIDE-SECRET".to_vec();
    for d in [top.clone(), top.join("l1"), top.join("l1/l2"), top.join("l1/l2/l3")] {
        std::fs::write(d.join("bait"), &secret).unwrap();
        std::fs::create_dir_all(d.join("baitdir")).unwrap();
        std::fs::write(d.join("baitdir/inner"), &secret).unwrap();
    }
    std::fs::write(base.join("inside"), b"in").unwrap();
    std::fs::create_dir_all(base.join("d/e")).unwrap();
    let outside = || {
        let mut s = snapshot(&top);
        s.retain(|k, _| !k.starts_with("l1/l2/l3/base/"));
        s
    };
    let before = outside();
    let (v, name) = open(c, &base);
    let abs = top.to_string_lossy().into_owned();
    for _ in 0..12 {
        let target = ["bait", "baitdir/inner", "fresh", "baitdir", ""][c.rng.below(5)];
        let mut path = String::new();
        match c.rng.below(6) {
            // absolute, under several disguises
            0 => path = format!("{abs}/{target}"),
            1 => path = format!("{}{abs}/{target}", ["/", "..", "../", "./", "d/../..", "....", "..//", "/../"][c.rng.below(8)]),
            // relative climbs, mixed with ordinary components
            _ => {
                for _ in 0..1 + c.rng.below(8) {
                    path.push_str(["..", "..", "..", ".", "d", "d/e", "....", "..;", ".. ", "inside"][c.rng.below(10)]);
                    path.push_str(["/", "/", "/", "/./", "//"][c.rng.below(5)]);
                }
                path.push_str(target);
            }
        }
        let path2 = if c.rng.chance(1, 3) { path.clone() } else { "inside".to_string() };
        let op = c.rng.below(9);
        let leaked: Option<String> = rt().block_on(async {
            match op {
                0 => match v.read(&path).await {
                    Ok(d) if d == secret => Some("read returned a file outside the base directory".to_string()),
                    _ => None,
                },
                1 => match v.read_to_string(&path).await {
                    Ok(d) if d.as_bytes() == secret => Some("read returned a file outside the base directory".to_string()),
                    _ => None,
                },
                2 => v.write(&path, b"clobber").await.err().and(None),
                3 => v.append(&path, b"clobber").await.err().and(None),
                4 => v.remove(&path).await.err().and(None),
                5 => v.create_dir_all(&path).await.err().and(None),
                6 => v.rename(&path, &path2).await.err().and(None),
                7 => v.rename(&path2, &path).await.err().and(None),
                _ => match v.list_dir(&path).await {
                    Ok(l) if l.iter().any(|e| e.name.starts_with("bait")) && !base.join("bait").exists() && !snapshot(&base).keys().any(|k| k.contains("bait")) => {
                        Some("listing shows a directory outside the base directory".to_string())
                    }
                    _ => None,
                },
            }
        });
        c.count("hostile_paths", 1);
        c.seen("path_shapes", &path);
        let after = outside();
        let bad = leaked.or_else(|| (after != before).then(|| "the tree outside the base directory changed".to_string()));
        if let Some(b) = bad {
            c.fail_with(&format!("vfs:{name}:escape"), format!("{b}: operation {op} on {path:?}"), json!({"path": path, "second": path2, "operation": op}));
            let _ = std::fs::remove_dir_all(&top);
            return;
        }
    }
    c.eval();
    c.nontrivial(&top);
    let _ = std::fs::remove_dir_all(&top);
}

/// Concurrent whole-file writes and reads: a reader always sees one complete written version,
/// the neighbours of the file are left alone, and nothing is left behind.
fn atomic(c: &mut Case) {
    let base = scratch(c, "w");
    let (v, name) = open(c, &base);
    std::fs::write(base.join("f.tmp"), b"neighbour").unwrap();
    std::fs::write(base.join("f"), version(0, 0, 50)).unwrap();
    let writers = 2 + c.rng.below(4);
    let per = 4 + c.rng.below(8);
    let big = c.rng.bool();
    let r: Result<u64, String> = rt().block_on(async {
        let mut hs = vec![];
        for w in 1..=writers {
            let v = v.clone();
            hs.push(tokio::spawn(async move {
                for k in 0..per {
                    let n = if big { 30_000 + 1000 * (w * 7 + k) } else { 10 + w * 100 + k };
                    v.write("f", &version(w, k, n)).await.map_err(|e| format!("concurrent write failed: {e:?}"))?;
                    tokio::task::yield_now().await;
                }
                Ok::<u64, String>(0)
            }));
        }
        for _ in 0..3 {
            let v = v.clone();
            hs.push(tokio::spawn(async move {
                let mut n = 0;
                for _ in 0..per * 3 {
                    match v.read("f").await {
                        Ok(d) => {
                            if !whole(&d) {
                                return Err(format!("a reader saw {} bytes that no writer wrote as a whole", d.len()));
                            }
                            n += 1;
                        }
                        Err(VfsError::NotFound(_)) => return Err("the file disappeared during an overwrite".into()),
                        Err(e) => return Err(format!("read failed: {e:?}")),
                    }
                    tokio::task::yield_now().await;
                }
                Ok(n)
            }));
        }
        let mut total = 0;
        for h in hs {
            total += h.await.map_err(|e| format!("task died: {e}"))??;
        }
        Ok(total)
    });
    c.eval();
    match r {
        Err(e) => c.fail_with(&format!("vfs:{name}:atomic-write"), e, json!({"writers": writers, "per": per, "big": big})),
        Ok(n) => {
            c.count("consistent_reads", n);
            let s = snapshot(&base);
            if s.get("f.tmp") != Some(&Some(b"neighbour".to_vec())) {
                c.fail(&format!("vfs:{name}:clobbered-neighbour"), "another file in the directory was overwritten");
            } else if s.len() != 2 || !whole(s["f"].as_ref().unwrap()) {
                c.fail(&format!("vfs:{name}:left-behind"), format!("after concurrent writes the directory holds {:?}", s.keys()));
            } else {
                // the last write of some writer is what remains
                let d = s["f"].as_ref().unwrap();
                let k = d[1] as usize;
                if k != per - 1 {
                    c.fail(&format!("vfs:{name}:stale-version"), format!("final content is version {k} of a writer that wrote {per}"));
                }
            }
        }
    }
    c.nontrivial(&(writers, per, big, name));
    let _ = std::fs::remove_dir_all(&base);
}

/// Concurrent appends: every record appears exactly once, whole, in each writer's own order.
fn appends(c: &mut Case) {
    let base = scratch(c, "a");
    let (v, name) = open(c, &base);
    let writers = 2 + c.rng.below(5);
    let per = 5 + c.rng.below(15);
    let r: Result<(), String> = rt().block_on(async {
        let mut hs = vec![];
        for w in 0..writers {
            let v = v.clone();
            hs.push(tokio::spawn(async move {
                for k in 0..per {
                    v.append("log", format!("<{w}:{k}:{}>\n", "z".repeat((w * 37 + k * 11) % 200)).as_bytes()).await.map_err(|e| format!("{e:?}"))?;
                }
                Ok::<(), String>(())
            }));
        }
        for h in hs {
            h.await.map_err(|e| format!("task died: {e}"))??;
        }
        Ok(())
    });
    c.eval();
    if let Err(e) = r {
        c.fail(&format!("vfs:{name}:append-error"), e);
        return;
    }
    let text = String::from_utf8_lossy(&std::fs::read(base.join("log")).unwrap_or_default()).into_owned();
    let mut next = vec![0usize; writers];
    for line in text.lines() {
        let ok = line.strip_prefix('<').and_then(|l| l.strip_suffix('>')).and_then(|l| {
            let mut f = l.split(':');
            let (w, k, z): (usize, usize, &str) = (f.next()?.parse().ok()?, f.next()?.parse().ok()?, f.next()?);
            if w >= writers || next[w] != k || z.len() != (w * 37 + k * 11) % 200 {
                return None;
            }
            next[w] += 1;
            Some(())
        });
        if ok.is_none() {
            c.fail(&format!("vfs:{name}:append-order"), format!("unexpected record {:?}", &line[..line.len().min(60)]));
            return;
        }
    }
    if next.iter().any(|n| *n != per) {
        c.fail(&format!("vfs:{name}:append-lost"), format!("records per writer {next:?}, each wrote {per}"));
    }
    c.count("appended_records", (writers * per) as u64);
    c.nontrivial(&text);
    let _ = std::fs::remove_dir_all(&base);
}

fn version(w: usize, k: usize, n: usize) -> Vec<u8> {
    let mut v = vec![w as u8, k as u8];
    v.extend((n as u32).to_le_bytes());
    v.resize(6 + n, (w * 31 + k * 7) as u8);
    v
}
fn whole(d: &[u8]) -> bool {
    d.len() >= 6 && {
        let n = u32::from_le_bytes(d[2..6].try_into().unwrap()) as usize;
        let fill = (d[0] as usize * 31 + d[1] as usize * 7) as u8;
        d.len() == 6 + n && d[6..].iter().all(|b| *b == fill)
    }
}

pub fn c08(rep: &Report) {
    rep.rule("operation sequences over equivalent path spellings against a model file system, hostile paths with bait outside the base directory, and concurrent whole-file writes, reads and appends on real threads; non-trivial = distinct operation history or path set");
    rep.cases("model", vkit::scale(1200, 20_000), model);
    rep.cases("hostile", vkit::scale(1200, 20_000), hostile);
    rep.cases_with("atomic", vkit::scale(60, 1000), 4, 120.0, atomic);
    rep.cases_with("appends", vkit::scale(60, 1000), 4, 120.0, appends);
    rep.require("hostile_paths", 5000);
    rep.require("file_operations", 5000);
    rep.require("consistent_reads", 500);
}
