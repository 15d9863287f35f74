//! C06/C07: the persistent journal under crashes, torn appends, I/O faults, power loss,
//! corruption, and concurrent mutate/compact.
use crate::interpose::{self, Disk, Ev};
use async_trait::async_trait;
use logicaffeine_data::crdt::ORSet;
use logicaffeine_system::distributed::Distributed;
use logicaffeine_system::fs::{DirEntry, NativeVfs, UringVfs, Vfs, VfsError, VfsResult};
use logicaffeine_system::storage::Persistent;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use vkit::serde_json::json;
use vkit::{Case, Report, Rng};

type Set = ORSet<u64>;
type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone)]
struct VOp {
    kind: &'static str,
    path: String,
    before: Files,
    after: Files,
    bytes: Vec<u8>,
}

struct Pend(usize);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// In-memory file store that logs each operation, can delay inside it, and can fail it.
struct Mem {
    files: Mutex<Files>,
    log: Mutex<Vec<VOp>>,
    keep_log: bool,
    rng: Mutex<Rng>,
    max_delay: usize,
    fault: usize, // 1 in `fault` appends/writes/renames fails; 0 = never
    faults: Mutex<u64>,
    /// acked/issued bookkeeping snapshots for crash points taken inside an operation
    acked: Arc<Mutex<BTreeSet<u64>>>,
    acked_at: Mutex<Vec<BTreeSet<u64>>>,
}

impl Mem {
    fn new(files: Files, rng: Rng) -> Mem {
        Mem {
            files: Mutex::new(files),
            log: Mutex::new(vec![]),
            keep_log: false,
            rng: Mutex::new(rng),
            max_delay: 0,
            fault: 0,
            faults: Mutex::new(0),
            acked: Arc::new(Mutex::new(BTreeSet::new())),
            acked_at: Mutex::new(vec![]),
        }
    }
    async fn delay(&self) {
        if self.max_delay > 0 {
            let n = self.rng.lock().unwrap().below(self.max_delay + 1);
            Pend(n).await
        }
    }
    fn fails(&self) -> bool {
        let f = self.fault > 0 && self.rng.lock().unwrap().chance(1, self.fault);
        if f {
            *self.faults.lock().unwrap() += 1;
        }
        f
    }
    fn note(&self, kind: &'static str, path: &str, before: Files, bytes: &[u8]) {
        if self.keep_log {
            self.acked_at.lock().unwrap().push(self.acked.lock().unwrap().clone());
            let after = self.files.lock().unwrap().clone();
            self.log.lock().unwrap().push(VOp { kind, path: path.into(), before, after, bytes: bytes.to_vec() });
        }
    }
}

fn io_err(s: &str) -> VfsError {
    VfsError::IoError(std::io::Error::new(std::io::ErrorKind::Other, s.to_string()))
}

#[async_trait]
impl Vfs for Mem {
    async fn read(&self, path: &str) -> VfsResult<Vec<u8>> {
        self.delay().await;
        self.files.lock().unwrap().get(path).cloned().ok_or_else(|| io_err("missing"))
    }
    async fn read_to_string(&self, path: &str) -> VfsResult<String> {
        String::from_utf8(self.read(path).await?).map_err(|_| io_err("utf8"))
    }
    async fn write(&self, path: &str, c: &[u8]) -> VfsResult<()> {
        self.delay().await;
        if self.fails() {
            return Err(io_err("injected write failure"));
        }
        let before = self.files.lock().unwrap().clone();
        self.files.lock().unwrap().insert(path.into(), c.to_vec());
        self.note("write", path, before, c);
        self.delay().await;
        Ok(())
    }
    async fn append(&self, path: &str, c: &[u8]) -> VfsResult<()> {
        self.delay().await;
        let before = self.files.lock().unwrap().clone();
        if self.fails() {
            let n = self.rng.lock().unwrap().below(c.len() + 1);
            self.files.lock().unwrap().entry(path.into()).or_default().extend_from_slice(&c[..n]);
            return Err(io_err("injected append failure"));
        }
        self.files.lock().unwrap().entry(path.into()).or_default().extend_from_slice(c);
        self.note("append", path, before, c);
        self.delay().await;
        Ok(())
    }
    async fn exists(&self, path: &str) -> VfsResult<bool> {
        self.delay().await;
        Ok(self.files.lock().unwrap().contains_key(path))
    }
    async fn remove(&self, path: &str) -> VfsResult<()> {
        self.delay().await;
        let before = self.files.lock().unwrap().clone();
        self.files.lock().unwrap().remove(path).ok_or_else(|| io_err("missing"))?;
        self.note("remove", path, before, &[]);
        Ok(())
    }
    async fn create_dir_all(&self, _: &str) -> VfsResult<()> {
        Ok(())
    }
    async fn rename(&self, from: &str, to: &str) -> VfsResult<()> {
        self.delay().await;
        if self.fails() {
            return Err(io_err("injected rename failure"));
        }
        let before = self.files.lock().unwrap().clone();
        {
            let mut f = self.files.lock().unwrap();
            let v = f.remove(from).ok_or_else(|| io_err("missing"))?;
            f.insert(to.into(), v);
        }
        self.note("rename", to, before, &[]);
        self.delay().await;
        Ok(())
    }
    async fn list_dir(&self, _: &str) -> VfsResult<Vec<DirEntry>> {
        Ok(vec![])
    }
}

enum Store {
    P(Persistent<Set>),
    D(Distributed<Set>),
}
const J: &str = "state.lsf";
impl Store {
    async fn mount(kind: usize, vfs: Arc<dyn Vfs + Send + Sync>) -> VfsResult<Store> {
        Ok(if kind == 0 { Store::P(Persistent::mount(vfs, J).await?) } else { Store::D(Distributed::mount(vfs, J, None).await?) })
    }
    async fn mutate(&self, f: impl FnOnce(&mut Set) + Send) -> VfsResult<()> {
        match self {
            Store::P(p) => p.mutate(f).await,
            Store::D(d) => d.mutate(f).await,
        }
    }
    async fn compact(&self) -> VfsResult<()> {
        match self {
            Store::P(p) => p.compact().await,
            Store::D(d) => d.compact().await,
        }
    }
    async fn get(&self) -> BTreeSet<u64> {
        match self {
            Store::P(p) => p.get().await.iter().copied().collect(),
            Store::D(d) => d.get().await.iter().copied().collect(),
        }
    }
}

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}
fn block<T>(f: impl Future<Output = T>) -> T {
    rt().block_on(f)
}

fn mem(files: Files, c: &mut Case) -> Mem {
    Mem::new(files, Rng::new(c.rng.u64()))
}

/// Remount `files`, check the recovered value, then prove the store still works: new updates
/// survive another remount.
fn recover(c: &mut Case, kind: usize, files: &Files, ok: &dyn Fn(&BTreeSet<u64>) -> bool, want: &str, data: &dyn Fn() -> vkit::serde_json::Value) -> bool {
    let m = Arc::new(mem(files.clone(), c));
    let st = match block(Store::mount(kind, m.clone())) {
        Ok(s) => s,
        Err(e) => {
            c.fail_with("journal:mount-failed", format!("mount failed after a crash: {e:?}; {want}"), data());
            return false;
        }
    };
    let v = block(st.get());
    if !ok(&v) {
        c.fail_with("journal:recovered-value", format!("recovered {v:?}; {want}"), data());
        return false;
    }
    let extra = 1_000_000 + c.rng.below(1000) as u64;
    let n = 1 + c.rng.below(3) as u64;
    for i in 0..n {
        if block(st.mutate(move |s| s.add(extra + i))).is_err() {
            c.fail_with("journal:mutate-after-recovery", "mutate failed on a recovered store", data());
            return false;
        }
    }
    if c.rng.chance(1, 4) && block(st.compact()).is_err() {
        c.fail_with("journal:compact-after-recovery", "compact failed on a recovered store", data());
        return false;
    }
    drop(st);
    let again = match block(Store::mount(kind, m)) {
        Ok(s) => s,
        Err(e) => {
            c.fail_with("journal:lost-after-recovery", format!("updates acknowledged after recovery cannot be mounted: {e:?}"), data());
            return false;
        }
    };
    let mut exp = v.clone();
    exp.extend(extra..extra + n);
    let got = block(again.get());
    if got != exp {
        c.fail_with("journal:lost-after-recovery", format!("after recovery and {n} more acknowledged updates a remount shows {got:?}, expected {exp:?}"), data());
        return false;
    }
    true
}

/// Sequential history; every store operation and every torn-append length is a crash point.
fn crash_points(c: &mut Case) {
    let kind = c.rng.below(2);
    let mut m = mem(Files::new(), c);
    m.keep_log = true;
    let m = Arc::new(m);
    let mut st = block(Store::mount(kind, m.clone())).unwrap();
    let mut model: BTreeSet<u64> = BTreeSet::new();
    // model value before/after each logged operation
    let mut states: Vec<(BTreeSet<u64>, BTreeSet<u64>)> = vec![];
    let mut hist = vec![];
    let steps = 2 + c.rng.below(12);
    for uid in 0..steps as u64 {
        let before = model.clone();
        match c.rng.below(10) {
            0 => {
                if block(st.compact()).is_err() {
                    c.fail("journal:compact-error", "compact failed without a fault");
                    return;
                }
                hist.push("compact".to_string());
            }
            1 => {
                drop(st);
                st = match block(Store::mount(kind, m.clone())) {
                    Ok(s) => s,
                    Err(e) => {
                        c.fail_with("journal:mount-failed", format!("clean remount failed: {e:?}"), json!({"history": hist}));
                        return;
                    }
                };
                let got = block(st.get());
                if got != model {
                    c.fail_with("journal:recovered-value", format!("clean remount shows {got:?}, expected {model:?}"), json!({"history": hist}));
                    return;
                }
                hist.push("remount".into());
            }
            2 | 3 if !model.is_empty() => {
                let v = *c.rng.pick(&model.iter().copied().collect::<Vec<_>>());
                block(st.mutate(move |s| s.remove(&v))).unwrap();
                model.remove(&v);
                hist.push(format!("remove {v}"));
            }
            _ => {
                block(st.mutate(move |s| s.add(uid))).unwrap();
                model.insert(uid);
                hist.push(format!("add {uid}"));
            }
        }
        let n = m.log.lock().unwrap().len();
        while states.len() < n {
            states.push((before.clone(), model.clone()));
        }
    }
    let log = m.log.lock().unwrap().clone();
    c.eval();
    for (i, op) in log.iter().enumerate() {
        let (b, a) = states[i].clone();
        let mut crash: Vec<(Files, bool, String)> = vec![];
        if op.kind == "append" {
            let n = op.bytes.len();
            let mut cuts: Vec<usize> = vec![0, 1, 4, 7, 8, 9, n / 2, n - 1, n];
            cuts.push(c.rng.below(n + 1));
            cuts.sort();
            cuts.dedup();
            for k in cuts.into_iter().filter(|k| *k <= n) {
                let mut f = op.before.clone();
                f.entry(op.path.clone()).or_default().extend_from_slice(&op.bytes[..k]);
                crash.push((f, k == n, format!("append torn after {k} of {n} bytes")));
            }
        } else {
            crash.push((op.before.clone(), false, format!("before {}", op.kind)));
            crash.push((op.after.clone(), false, format!("after {}", op.kind)));
        }
        for (files, complete, how) in crash {
            c.count("crash_points", 1);
            let want = format!("crash point {i} ({how}): expected {b:?} or {a:?}");
            let (b2, a2) = (b.clone(), a.clone());
            let okf = move |v: &BTreeSet<u64>| if complete { *v == a2 } else { *v == b2 || *v == a2 };
            let h = hist.clone();
            let d = move || json!({"history": h, "crash": how.clone(), "op": i, "store": kind});
            if !recover(c, kind, &files, &okf, &want, &d) {
                return;
            }
        }
    }
    // nothing beyond what was acknowledged at the end may be missing
    if log.len() > 3 {
        c.nontrivial(&format!("{kind}{hist:?}"));
    }
    c.seen("histories", &hist);
    c.sample(|| json!({"store": if kind == 0 { "persistent" } else { "distributed" }, "history": hist, "operations": log.len()}));
}

/// I/O errors: an update whose call returned success survives, whatever failed around it.
fn io_faults(c: &mut Case) {
    let kind = c.rng.below(2);
    let mut m = mem(Files::new(), c);
    m.fault = 2 + c.rng.below(6);
    let m = Arc::new(m);
    let st = block(Store::mount(kind, m.clone())).unwrap();
    let (mut acked, mut issued) = (BTreeSet::new(), BTreeSet::new());
    let mut hist = vec![];
    for uid in 0..(3 + c.rng.below(15)) as u64 {
        if c.rng.chance(1, 6) {
            let r = block(st.compact());
            hist.push(format!("compact {}", r.is_ok()));
        } else {
            issued.insert(uid);
            let r = block(st.mutate(move |s| s.add(uid)));
            if r.is_ok() {
                acked.insert(uid);
            }
            hist.push(format!("add {uid} {}", r.is_ok()));
        }
    }
    let nf = *m.faults.lock().unwrap();
    c.count("faults_injected", nf);
    c.eval();
    let files = m.files.lock().unwrap().clone();
    let want = format!("acknowledged {acked:?}, issued {issued:?}");
    let (ak, is) = (acked.clone(), issued.clone());
    let okf = move |v: &BTreeSet<u64>| ak.is_subset(v) && v.is_subset(&is);
    let h = hist.clone();
    let d = move || json!({"history": h, "store": kind});
    if recover(c, kind, &files, &okf, &want, &d) && nf > 0 && !acked.is_empty() {
        c.nontrivial(&format!("{kind}{hist:?}"));
    }
}

/// A damaged journal is reported or recovers to a state that really existed; nothing invented.
fn corruption(c: &mut Case) {
    let kind = c.rng.below(2);
    let m = Arc::new(mem(Files::new(), c));
    let st = block(Store::mount(kind, m.clone())).unwrap();
    let mut states = vec![BTreeSet::new()];
    let mut ends = vec![];
    let mut model = BTreeSet::new();
    for uid in 0..(1 + c.rng.below(6)) as u64 {
        block(st.mutate(move |s| s.add(uid))).unwrap();
        model.insert(uid);
        states.push(model.clone());
        ends.push(m.files.lock().unwrap().get(J).map_or(0, |v| v.len()));
    }
    let good = m.files.lock().unwrap().clone();
    c.eval();
    for _ in 0..20 {
        let mut f = good.clone();
        let v = f.get_mut(J).unwrap();
        // Set when the damage lies in the last bytes of an acknowledged entry, where it cannot
        // pass for an append that was cut short.
        let mut inside = false;
        let what = match c.rng.below(4) {
            3 => {
                let i = *c.rng.pick(&ends) - 1 - c.rng.below(4);
                v[i] ^= 1 << c.rng.below(8);
                inside = true;
                format!("bit flip at byte {i}, inside a stored entry")
            }
            0 => {
                let i = c.rng.below(v.len());
                v[i] ^= 1 << c.rng.below(8);
                format!("bit flip at byte {i}")
            }
            1 => {
                let i = c.rng.below(v.len());
                let n = (1 + c.rng.below(12)).min(v.len() - i);
                for b in &mut v[i..i + n] {
                    *b = c.rng.u8();
                }
                format!("{n} bytes overwritten at {i}")
            }
            _ => {
                let n = c.rng.below(24);
                let b = c.rng.bytes(n);
                v.extend(b);
                format!("{n} junk bytes at the end")
            }
        };
        let m2 = Arc::new(mem(f, c));
        let r = c.sut("mounting a damaged journal", || block(Store::mount(kind, m2.clone())));
        let Some(r) = r else { return };
        match r {
            Err(_) => c.count("damage_reported", 1),
            Ok(s) => {
                let got = block(s.get());
                if !states.contains(&got) {
                    c.fail_with("journal:invented-state", format!("{what}: mount succeeded with {got:?}, which the store never held"), json!({"store": kind, "what": what}));
                    return;
                }
                if inside && got != model {
                    c.fail_with("journal:damage-unreported", format!("{what}: mount succeeded without the damaged entry, showing {got:?}"), json!({"store": kind, "what": what}));
                    return;
                }
                c.count("damage_recovered", 1);
            }
        }
    }
    c.nontrivial(&format!("{kind}{:?}", good.get(J)));
}

/// A real directory, with the process's own file syscalls recorded: after power loss at any
/// point, everything flushed plus any part of the rest must still hold every acknowledged update.
fn power_loss(c: &mut Case) {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let kind = c.rng.below(2);
    let root = std::path::PathBuf::from(std::env::var("VK_SCRATCH").unwrap_or("/tmp/vk".into())).join(format!("pl{}-{}", std::process::id(), c.rng.u64()));
    std::fs::create_dir_all(&root).unwrap();
    let root_s = root.to_string_lossy().into_owned();
    let steps = 3 + c.rng.below(8);
    let mut hist = vec![];
    let mut model = BTreeSet::new();
    interpose::start(&root_s);
    let st = block(Store::mount(kind, Arc::new(NativeVfs::new(root.clone())))).unwrap();
    for uid in 0..steps as u64 {
        if c.rng.chance(1, 4) {
            block(st.compact()).unwrap();
            hist.push("compact".to_string());
        } else {
            interpose::mark(format!("issue {uid}"));
            block(st.mutate(move |s| s.add(uid))).unwrap();
            interpose::mark(format!("ack {uid}"));
            model.insert(uid);
            hist.push(format!("add {uid}"));
        }
    }
    drop(st);
    let log = interpose::stop();
    // the recorded events must explain the directory, or the recording missed something
    let mut disk = Disk::default();
    for e in &log {
        disk.apply(e);
    }
    for ent in std::fs::read_dir(&root).unwrap() {
        let p = ent.unwrap().path();
        let real = std::fs::read(&p).unwrap();
        let modelled = disk.names.get(p.to_string_lossy().as_ref()).and_then(|i| disk.seen.get(i));
        if modelled != Some(&real) {
            c.inconclusive(&format!("file events not fully recorded for {}", p.display()));
            let _ = std::fs::remove_dir_all(&root);
            return;
        }
    }
    c.eval();
    c.count("file_events", log.len() as u64);
    c.count("flushes", log.iter().filter(|e| matches!(e, Ev::Fsync { .. })).count() as u64);
    let (mut acked, mut issued) = (BTreeSet::new(), BTreeSet::new());
    let mut disk = Disk::default();
    for (i, e) in log.iter().enumerate() {
        disk.apply(e);
        if let Ev::Mark(s) = e {
            let (k, u) = s.split_once(' ').unwrap();
            let u: u64 = u.parse().unwrap();
            if k == "ack" {
                acked.insert(u);
            } else {
                issued.insert(u);
            }
        }
        for variant in 0..3 {
            let mut files = Files::new();
            let mut any = false;
            for (name, ino) in &disk.names {
                let un = disk.unflushed(*ino);
                any |= un > 0;
                let keep = match variant {
                    0 => 0,
                    1 => un,
                    _ => c.rng.below(un + 1),
                };
                let short = name.strip_prefix(&root_s).unwrap_or(name).trim_start_matches('/').to_string();
                files.insert(short, disk.after_loss(*ino, keep));
            }
            if variant > 0 && !any {
                continue;
            }
            c.count("power_loss_states", 1);
            let (ak, is) = (acked.clone(), issued.clone());
            let want = format!("power loss after event {i} ({}): acknowledged {ak:?}, issued {is:?}", ["nothing unflushed kept", "all kept", "part kept"][variant]);
            let okf = move |v: &BTreeSet<u64>| ak.is_subset(v) && v.is_subset(&is);
            let h = hist.clone();
            let d = move || json!({"history": h, "event": i, "variant": variant, "store": kind});
            if !recover(c, kind, &files, &okf, &want, &d) {
                let _ = std::fs::remove_dir_all(&root);
                return;
            }
        }
    }
    c.nontrivial(&format!("{kind}{hist:?}"));
    let _ = std::fs::remove_dir_all(&root);
}

/// Poll `tasks` in a seeded random order until all finish.
fn drive<'a>(rng: &mut Rng, mut tasks: Vec<Pin<Box<dyn Future<Output = ()> + 'a>>>, mut order: Option<&mut Vec<u8>>) -> bool {
    let waker = Waker::noop();
    let mut cx = Context::from_waker(waker);
    let mut live: Vec<usize> = (0..tasks.len()).collect();
    let mut polls = 0;
    while !live.is_empty() {
        let k = rng.below(live.len());
        let t = live[k];
        if let Some(o) = order.as_deref_mut() {
            o.push(t as u8);
        }
        if tasks[t].as_mut().poll(&mut cx).is_ready() {
            live.remove(k);
        }
        polls += 1;
        if polls > 2_000_000 {
            return false;
        }
    }
    true
}

/// Concurrent mutators and compactors on one store under a seeded interleaving; each store
/// operation is also a crash point.
fn concurrent(c: &mut Case) {
    let _g = rt().enter();
    let kind = c.rng.below(2);
    let mut m = mem(Files::new(), c);
    m.max_delay = 3;
    m.keep_log = true;
    let acked = m.acked.clone();
    let issued: Arc<Mutex<BTreeSet<u64>>> = Arc::new(Mutex::new(BTreeSet::new()));
    let m = Arc::new(m);
    let st = Arc::new(block(Store::mount(kind, m.clone())).unwrap());
    let nt = 2 + c.rng.below(4);
    let errors = Arc::new(Mutex::new(vec![]));
    let mut tasks: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
    for t in 0..nt {
        let (st, acked, issued, errors) = (st.clone(), acked.clone(), issued.clone(), errors.clone());
        let n = 1 + c.rng.below(6);
        let compactor = t > 0 && c.rng.chance(1, 2);
        tasks.push(Box::pin(async move {
            for k in 0..n as u64 {
                if compactor {
                    if st.compact().await.is_err() {
                        errors.lock().unwrap().push("compact failed");
                    }
                    continue;
                }
                let uid = t as u64 * 100 + k;
                issued.lock().unwrap().insert(uid);
                if st.mutate(move |s| s.add(uid)).await.is_ok() {
                    acked.lock().unwrap().insert(uid);
                } else {
                    errors.lock().unwrap().push("mutate failed");
                }
            }
        }));
    }
    let mut order = vec![];
    let mut rng = Rng::new(c.rng.u64());
    if !drive(&mut rng, tasks, Some(&mut order)) {
        c.fail_with("journal:stuck", "concurrent mutate/compact made no progress in 2 million polls", json!({"order_prefix": &order[..200]}));
        return;
    }
    c.eval();
    c.seen("interleavings", &order);
    if let Some(e) = errors.lock().unwrap().first() {
        c.fail("journal:spurious-error", format!("{e} without any injected fault"));
        return;
    }
    let live = block(st.get());
    let all = issued.lock().unwrap().clone();
    if live != all {
        c.fail_with("journal:lost-in-memory", format!("live value {live:?}, acknowledged {all:?}"), json!({"order": order}));
        return;
    }
    let log = m.log.lock().unwrap().clone();
    let acked_at = m.acked_at.lock().unwrap().clone();
    let o2 = order.clone();
    let d = move || json!({"order": o2, "store": kind});
    for (i, op) in log.iter().enumerate() {
        // crash right after this operation; updates acknowledged before it must survive
        let ak = acked_at[i].clone();
        let is = all.clone();
        let want = format!("crash after operation {i} ({}): acknowledged {ak:?}", op.kind);
        let okf = move |v: &BTreeSet<u64>| ak.is_subset(v) && v.is_subset(&is);
        c.count("crash_points", 1);
        if !recover(c, kind, &op.after, &okf, &want, &d) {
            return;
        }
    }
    let ak = all.clone();
    let okf = move |v: &BTreeSet<u64>| *v == ak;
    let files = m.files.lock().unwrap().clone();
    if !recover(c, kind, &files, &okf, &format!("clean shutdown: expected {all:?}"), &d) {
        return;
    }
    if all.len() >= 3 && log.iter().any(|o| o.kind != "append") {
        c.nontrivial(&order);
    }
}

/// Automatic compaction keeps the journal bounded without losing anything.
fn auto_compaction(c: &mut Case) {
    let m = Arc::new(mem(Files::new(), c));
    let st = block(Distributed::<logicaffeine_data::crdt::GCounter>::mount(m.clone(), J, None)).unwrap();
    let n = 900 + c.rng.below(2200) as u64;
    let mut max = 0;
    for _ in 0..n {
        block(st.mutate(|g| g.increment(1))).unwrap();
        max = max.max(block(st.entry_count()));
    }
    c.eval();
    c.count("auto_compacted_updates", n);
    if n > 1100 && max >= n {
        c.fail("journal:never-compacts", format!("{n} updates left {max} entries; no automatic compaction"));
    }
    let again = block(Distributed::<logicaffeine_data::crdt::GCounter>::mount(m, J, None)).unwrap();
    let v = block(again.get()).value();
    if v != n {
        c.fail("journal:auto-compaction-lost", format!("{n} increments, recovered {v}"));
    }
    c.nontrivial(&n);
}

/// Updates arriving from the network while local updates and compactions run: they reach
/// memory and survive a remount.
fn remote_updates(c: &mut Case) {
    use logicaffeine_system::network::gossip;
    let topic = format!("t{}-{}", std::process::id(), c.rng.u64());
    let mut m = mem(Files::new(), c);
    m.max_delay = 2;
    let m = Arc::new(m);
    let seed = c.rng.u64();
    let n = 3 + c.rng.below(10);
    let m2 = m.clone();
    let r = block(async move {
        let mut rng = Rng::new(seed);
        let st = Distributed::<Set>::mount(m2, J, Some(topic.clone())).await.unwrap();
        let peer_id = rng.u64() | 1;
        let mut peer: Set = ORSet::new(peer_id);
        let mut want = BTreeSet::new();
        // the subscription is registered by a background task: wait for it
        let hello = 9_999u64;
        peer.add(hello);
        want.insert(hello);
        let bytes = bincode::serialize(&peer).unwrap();
        let mut up = false;
        for _ in 0..400 {
            gossip::on_message(&topic, bytes.clone()).await;
            tokio::time::sleep(std::time::Duration::from_millis(5)).await;
            if st.get().await.contains(&hello) {
                up = true;
                break;
            }
        }
        if !up {
            return None;
        }
        for i in 0..n as u64 {
            match rng.below(4) {
                0 => st.compact().await.unwrap(),
                1 => {
                    st.mutate(|s| s.add(100 + i)).await.unwrap();
                    want.insert(100 + i);
                }
                2 => {
                    // junk on the topic is ignored
                    gossip::on_message(&topic, rng.bytes(9)).await;
                }
                _ => {
                    peer.add(i);
                    want.insert(i);
                    gossip::on_message(&topic, bincode::serialize(&peer).unwrap()).await;
                }
            }
        }
        // every delivered update becomes visible, then durable
        let mut live = BTreeSet::new();
        for _ in 0..2000 {
            live = st.get().await.iter().copied().collect();
            if live == want {
                break;
            }
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
        let mut durable = BTreeSet::new();
        for _ in 0..1000 {
            if let Ok(p) = Persistent::<Set>::mount(Arc::new(Mem::new(m.files.lock().unwrap().clone(), Rng::new(1))), J).await {
                durable = p.get().await.iter().copied().collect();
                if durable == want {
                    break;
                }
            }
            tokio::time::sleep(std::time::Duration::from_millis(2)).await;
        }
        gossip::unsubscribe(&topic).await;
        Some((want, live, durable))
    });
    let Some((want, live, durable)) = r else {
        c.inconclusive("subscription never became active");
        return;
    };
    c.eval();
    if live != want {
        c.fail("journal:remote-update-lost", format!("delivered {want:?}, the live value settled at {live:?}"));
    } else if durable != want {
        c.fail("journal:remote-update-not-durable", format!("delivered {want:?}, journal holds {durable:?}"));
    }
    c.count("remote_updates", want.len() as u64);
    c.nontrivial(&seed);
}

/// The io_uring and native stores agree with the in-memory one on the same history.
fn backends(c: &mut Case) {
    let root = std::path::PathBuf::from(std::env::var("VK_SCRATCH").unwrap_or("/tmp/vk".into())).join(format!("be{}-{}", std::process::id(), c.rng.u64()));
    std::fs::create_dir_all(&root).unwrap();
    let uring = UringVfs::new(root.join("u"));
    let mut stores: Vec<(&str, Arc<dyn Vfs + Send + Sync>)> = vec![("native", Arc::new(NativeVfs::new(root.join("n"))))];
    match uring {
        Ok(u) => stores.push(("io_uring", Arc::new(u))),
        Err(_) => c.count("io_uring_unavailable", 1),
    }
    let kind = c.rng.below(2);
    let seed = c.rng.u64();
    for (name, vfs) in stores {
        let mut rng = Rng::new(seed);
        let mut st = block(Store::mount(kind, vfs.clone())).unwrap();
        let mut model = BTreeSet::new();
        for uid in 0..(3 + rng.below(8)) as u64 {
            match rng.below(6) {
                0 => block(st.compact()).unwrap(),
                1 => {
                    drop(st);
                    st = block(Store::mount(kind, vfs.clone())).unwrap();
                }
                _ => {
                    block(st.mutate(move |s| s.add(uid))).unwrap();
                    model.insert(uid);
                }
            }
        }
        drop(st);
        let got = block(async { Store::mount(kind, vfs.clone()).await.unwrap().get().await });
        if got != model {
            c.fail_with("journal:backend", format!("{name}: recovered {got:?}, expected {model:?}"), json!({"seed": seed, "store": kind}));
            break;
        }
        c.count(&format!("backend_{name}"), 1);
    }
    c.eval();
    c.nontrivial(&seed);
    let _ = std::fs::remove_dir_all(&root);
}

pub fn c06(rep: &Report) {
    rep.rule("update/remove/compact/remount histories; every store operation, torn append length, injected I/O error, power-loss point of the recorded syscalls, and journal damage is followed by a remount judged against the acknowledged updates; non-trivial = distinct history with at least a few operations");
    rep.cases("crash_points", vkit::scale(8000, 60_000), crash_points);
    rep.cases("io_faults", vkit::scale(20_000, 200_000), io_faults);
    rep.cases("corruption", vkit::scale(600, 10_000), corruption);
    rep.cases_with("power_loss", vkit::scale(300, 3000), 1, 120.0, power_loss);
    rep.cases("backends", vkit::scale(40, 400), backends);
    rep.require("crash_points", 5000);
    rep.require("faults_injected", 2000);
    rep.require("power_loss_states", 500);
    rep.require("flushes", 100);
}

pub fn c07(rep: &Report) {
    rep.rule("concurrent mutators and compactors on one store under seeded interleavings, each store operation a crash point, plus network-delivered updates and automatic compaction; non-trivial = interleaving with at least 3 updates and a compaction");
    rep.cases("concurrent", vkit::scale(30_000, 300_000), concurrent);
    rep.cases("auto_compaction", vkit::scale(8, 60), auto_compaction);
    rep.cases_with("remote_updates", vkit::scale(60, 600), 4, 120.0, remote_updates);
    rep.require("crash_points", 10_000);
    rep.require("remote_updates", 100);
}
