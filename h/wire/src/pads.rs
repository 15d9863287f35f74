//! One-time pads: no pad byte protects two messages, and each message opens once.
use logicaffeine_compile::concurrency::pnp::*;
use std::sync::{Arc, Mutex};
use vkit::{scale, Case, Report};

/// What an observer sees of a frame: where its pad starts and how much it uses.
fn span(f: &[u8], blob: usize) -> Option<(u64, u64)> {
    let at = frame_offset(f)?;
    Some((at, at + blob as u64 + MAC_KEY_LEN as u64))
}

fn overlap(spans: &[(u64, u64)]) -> Option<((u64, u64), (u64, u64))> {
    let mut s = spans.to_vec();
    s.sort();
    s.windows(2).find(|w| w[1].0 < w[0].1).map(|w| (w[0], w[1]))
}

/// A ledger that stops the sender at a chosen write, before or after it is kept.
struct Failing {
    inner: FileLedger,
    left: Mutex<i64>,
    after: bool,
}
impl PadLedgerStore for Failing {
    fn load_cursor(&self) -> u64 {
        self.inner.load_cursor()
    }
    fn commit_cursor(&self, cursor: u64) {
        let mut l = self.left.lock().unwrap_or_else(|e| e.into_inner());
        *l -= 1;
        let now = *l < 0;
        drop(l);
        if now && !self.after {
            panic!("power lost before the ledger write");
        }
        self.inner.commit_cursor(cursor);
        if now {
            panic!("power lost after the ledger write");
        }
    }
}

/// A sender that stops and restarts, at any point, never uses a pad byte again.
fn restarts(c: &mut Case) {
    let dir = std::env::var("VK_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let path = format!("{dir}/ledger-{}-{}", std::process::id(), vkit::hash_of(&(c.label.clone(), c.idx)));
    let len = 600 + c.rng.below(3000);
    let pad = c.rng.bytes(len);
    let role = *c.rng.pick(&[Role::Initiator, Role::Responder]);
    let peer = if role == Role::Initiator { Role::Responder } else { Role::Initiator };
    let pool = PadPool::shared_unchecked(pad);
    let half = if role == Role::Initiator { len / 2 } else { len - len / 2 } as u64;
    let recv = pool.recv_suite(peer);
    let mut spans = vec![];
    let mut frames: Vec<Vec<u8>> = vec![];
    let mut full = false;
    c.eval();
    for life in 0..2 + c.rng.below(5) {
        let led: Arc<dyn PadLedgerStore> = if c.rng.bool() {
            Arc::new(Failing { inner: FileLedger::new(&path), left: Mutex::new(c.rng.below(6) as i64), after: c.rng.bool() })
        } else {
            Arc::new(FileLedger::new(&path))
        };
        let s = pool.send_suite(role).with_ledger(led);
        for _ in 0..c.rng.below(8) {
            let n = c.rng.below(120);
            let blob = c.rng.bytes(n);
            let before = s_remaining(&s);
            match vkit::guard(|| s.seal(&blob)) {
                Ok(Some(f)) => {
                    c.count("pad frames", 1);
                    match span(&f, n) {
                        Some(x) => spans.push(x),
                        None => c.fail("frame without an offset", format!("{n} bytes")),
                    }
                    match c.sut("open", || recv.open(&f)) {
                        Some(Some(b)) if b == blob => {}
                        Some(o) => c.fail("pad frame did not open", format!("life {life}, {n} bytes, got {:?}", o.map(|x| x.len()))),
                        None => return,
                    }
                    frames.push(f);
                }
                Ok(None) => {
                    full = true;
                    c.count("pad refusals", 1);
                    if before.is_some_and(|b| b >= n + MAC_KEY_LEN) {
                        c.fail("pad refused while enough was left", format!("{before:?} left for {n}"));
                    }
                }
                Err(_) => {
                    c.count("stops at the ledger", 1);
                    break;
                }
            }
        }
        c.count("restarts", 1);
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(std::path::Path::new(&path).with_extension("tmp"));
    c.nontrivial(&(spans.clone(), full));
    if let Some((a, b)) = overlap(&spans) {
        c.fail("pad used twice", format!("{a:?} and {b:?}"));
    }
    if let Some(x) = spans.iter().find(|x| x.1 > half) {
        c.fail("pad used past its half", format!("{x:?} of {half}"));
    }
    // Every frame opened already: none opens again.
    for f in &frames {
        if let Some(Some(_)) = c.sut("replay", || recv.open(f)) {
            c.fail("replayed frame opened", format!("offset {:?}", frame_offset(f)));
        }
        c.count("replays", 1);
    }
}

fn s_remaining(s: &PnpSuite) -> Option<usize> {
    vkit::guard(|| s.send_remaining()).ok()
}

/// Any order within the window opens each frame once; altered ones never open.
fn orders(c: &mut Case) {
    let len = 2000 + c.rng.below(4000);
    let pool = PadPool::shared_unchecked(c.rng.bytes(len)).with_epoch(c.rng.below(4) as u32);
    let (s, r) = (pool.send_suite(Role::Initiator), pool.recv_suite(Role::Responder));
    let window = *c.rng.pick(&[0u64, 100, 500, 1 << 20]);
    let r = r.with_recv_window(window);
    let mut sent = vec![];
    for _ in 0..2 + c.rng.below(12) {
        let n = c.rng.below(90);
        let blob = c.rng.bytes(n);
        if let Some(f) = s.seal(&blob) {
            sent.push((blob, f));
        }
    }
    let mut order: Vec<usize> = (0..sent.len()).flat_map(|i| [i, i]).collect();
    if c.rng.bool() {
        c.rng.shuffle(&mut order);
    } else {
        for _ in 0..c.rng.below(9) {
            let i = c.rng.below(order.len() - 1);
            order.swap(i, i + 1);
        }
    }
    c.eval();
    c.nontrivial(&(window, order.clone()));
    let mut opened = vec![0; sent.len()];
    let mut newest = 0;
    for &i in &order {
        let (blob, f) = &sent[i];
        if c.rng.chance(1, 3) {
            let mut m = f.clone();
            if c.rng.chance(3, 4) {
                let j = c.rng.below(m.len());
                m[j] ^= 1 << c.rng.below(8);
            } else {
                let j = c.rng.below(m.len());
                m.truncate(j);
            }
            c.count("altered pad frames", 1);
            if let Some(Some(_)) = c.sut("altered", || r.open(&m)) {
                c.fail("altered pad frame opened", format!("frame {i}"));
            }
        }
        let (at, end) = span(f, blob.len()).unwrap_or((0, 0));
        let Some(got) = c.sut("open", || r.open(f)) else { return };
        c.count("pad opens", 1);
        match got {
            Some(b) => {
                opened[i] += 1;
                if b != *blob {
                    c.fail("pad frame opened as something else", format!("frame {i}"));
                }
                if opened[i] > 1 {
                    c.fail("pad frame opened twice", format!("frame {i} in {order:?} with window {window}"));
                }
                newest = newest.max(end);
            }
            None => {
                c.count("pad frames refused", 1);
                if opened[i] == 0 && at + window >= newest {
                    c.fail("frame inside the window refused", format!("offset {at}, newest {newest}, window {window}"));
                }
            }
        }
    }
    // Another epoch, another direction, another pad: never.
    if let Some((_, f)) = sent.first() {
        let other = [
            PadPool::shared_unchecked(c.rng.bytes(len)).with_epoch(pool.epoch()).recv_suite(Role::Responder),
            pool.recv_suite(Role::Initiator),
        ];
        for o in &other {
            if let Some(Some(_)) = c.sut("stranger", || o.open(f)) {
                c.fail("pad frame opened by a stranger", String::new());
            }
        }
    }
    // Announcing the next pad is authenticated like a message, and is not one.
    let (e, k) = (c.rng.u32(), { let b: [u8; 32] = c.rng.bytes(32).try_into().unwrap(); b });
    if let Some(f) = s.seal_roll(e, &k) {
        if let Some(Some(_)) = c.sut("roll as data", || r.open(&f)) {
            c.fail("roll opened as a message", String::new());
        }
        let fresh = pool.recv_suite(Role::Responder);
        if c.sut("roll", || fresh.open_roll(&f)) != Some(Some((e, k))) {
            c.fail("roll changed", format!("{e}"));
        }
        let mut m = f.clone();
        let j = c.rng.below(m.len());
        m[j] ^= 1 << c.rng.below(8);
        let fresh = pool.recv_suite(Role::Responder);
        if let Some(Some(_)) = c.sut("altered roll", || fresh.open_roll(&m)) {
            c.fail("altered roll opened", String::new());
        }
        c.count("rolls", 1);
    }
}

/// Several threads sealing over one pad never share a byte of it.
fn threads(c: &mut Case) {
    let pool = PadPool::shared_unchecked(c.rng.bytes(40_000));
    let s = Arc::new(pool.send_suite(Role::Responder));
    let r = Arc::new(pool.recv_suite(Role::Initiator));
    let sizes: Vec<Vec<usize>> = (0..4).map(|_| (0..60).map(|_| c.rng.below(90)).collect()).collect();
    c.eval();
    let got = c.sut("threads", || {
        let hs: Vec<_> = sizes
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, ns)| {
                let (s, r) = (s.clone(), r.clone());
                std::thread::spawn(move || {
                    let mut out = vec![];
                    for n in ns {
                        if let Some(f) = s.seal(&vec![t as u8; n]) {
                            let ok = r.open(&f) == Some(vec![t as u8; n]);
                            out.push((span(&f, n).unwrap_or((0, 0)), ok, t));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("thread")).collect::<Vec<_>>()
    });
    let Some(got) = got else { return };
    let spans: Vec<_> = got.iter().map(|x| x.0).collect();
    let mut by: Vec<_> = got.iter().map(|x| (x.0 .0, x.2)).collect();
    by.sort();
    let turns: Vec<usize> = by.iter().map(|x| x.1).collect();
    c.nontrivial(&turns);
    c.seen("interleavings of sealing threads", &turns);
    c.count("frames sealed by threads", spans.len() as u64);
    if let Some((a, b)) = overlap(&spans) {
        c.fail("pad used twice", format!("{a:?} and {b:?} by threads"));
    }
    if got.iter().any(|x| !x.1) {
        c.fail("frame did not open under threads", String::new());
    }
}

/// A pad that carries structure is refused when it is provisioned.
fn provision(c: &mut Case) {
    c.eval();
    let n = 4096 + c.rng.below(4096);
    let good = c.rng.bytes(n);
    let bad: Vec<u8> = match c.rng.below(4) {
        0 => vec![c.rng.u8(); n],
        1 => { let p = c.rng.bytes(37); p.iter().cycle().take(n).copied().collect() }
        2 => (0..n).map(|_| b"0123456789abcdef"[c.rng.below(16)]).collect(),
        _ => good.iter().map(|b| b & 0x1f).collect(),
    };
    c.nontrivial(&(good.clone(), bad.clone()));
    c.count("pads provisioned", 2);
    match c.sut("pad", || PadPool::shared(good.clone()).map(|p| (p.commitment(), p.direction_len()))) {
        Some(Ok((k, d))) => {
            if k != PadPool::shared_unchecked(good.clone()).commitment() || d * 2 > n {
                c.fail("pad commitment differs", String::new());
            }
            let mut other = good.clone();
            let i = c.rng.below(n);
            other[i] ^= 1;
            if PadPool::shared_unchecked(other).commitment() == k {
                c.fail("two pads share a commitment", format!("differ at {i}"));
            }
        }
        Some(Err(e)) => c.fail("random pad refused", format!("{e:?} for {n} bytes")),
        None => return,
    }
    if let Some(Ok(_)) = c.sut("weak pad", || PadPool::shared(bad.clone()).map(|_| ())) {
        c.fail("weak pad accepted", format!("{n} bytes starting {:?}", &bad[..16]));
    }
}

pub fn c24(rep: &Report) {
    rep.rule("no pad byte is used by two frames, over restarts, stops at any ledger write and threads; a frame opens at most once, and never when altered");
    rep.cases("restarts", scale(2500, 25000), restarts);
    rep.cases("orders", scale(4000, 40000), orders);
    rep.cases_with("threads", scale(60, 600), 2, 300.0, threads);
    rep.cases("provision", scale(300, 3000), provision);
    for (k, n) in [("pad frames", 500), ("restarts", 300), ("stops at the ledger", 100), ("replays", 300), ("pad refusals", 20), ("altered pad frames", 300), ("pad opens", 500), ("pad frames refused", 100), ("rolls", 100), ("frames sealed by threads", 1000), ("pads provisioned", 100)] {
        rep.require(k, n);
    }
}
