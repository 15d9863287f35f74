//! Damaged, truncated and made-up messages are refused, without a crash and
//! without memory the receiver's own limits do not allow.
use crate::trip::{self, codec, decode, dials, encode, plain, registry, under, Dials};
use crate::vals::{self, canon};
use logicaffeine_compile::concurrency::marshal::*;
use logicaffeine_compile::concurrency::{channel, fec, stream};
use logicaffeine_compile::interpreter::RuntimeValue as V;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use vkit::{scale, Case, Report, Rng};

fn short(s: &str) -> String {
    s.chars().take(200).collect()
}

/// A checked message with any byte after the first altered, cut short or lengthened is refused.
fn damage(c: &mut Case) {
    let v = vals::value(&mut c.rng, 2);
    let d = Dials { checked: true, ..dials(&mut c.rng) };
    if d.json && !vals::finite(&v) {
        return;
    }
    let Some(Ok(b)) = c.sut("encoding", || encode(&d, "me", &v)) else { return };
    c.eval();
    c.nontrivial(&vkit::hash_of(&b));
    for _ in 0..scale(24, 60) {
        let mut m = b.clone();
        let what = match c.rng.below(6) {
            0 | 1 => {
                let i = 1 + c.rng.below(m.len() - 1);
                m[i] ^= 1 << c.rng.below(8);
                "one bit"
            }
            2 => {
                let i = 1 + c.rng.below(m.len() - 1);
                m[i] = m[i].wrapping_add(1 + c.rng.below(255) as u8);
                "one byte"
            }
            3 => {
                let k = c.rng.below(m.len());
                m.truncate(k);
                "cut short"
            }
            4 => {
                let k = 1 + c.rng.below(9);
                let t = c.rng.bytes(k);
                m.extend(t);
                "lengthened"
            }
            _ => {
                let (i, j) = (1 + c.rng.below(m.len() - 1), 1 + c.rng.below(m.len() - 1));
                if m[i] == m[j] {
                    continue;
                }
                m.swap(i, j);
                "two bytes swapped"
            }
        };
        let Some(got) = c.sut(&format!("damaged ({what})"), || decode(&d, &m).map(|x| canon(&x.1))) else { return };
        c.count("damaged messages", 1);
        c.seen("kinds of damage", &what.to_string());
        if got.is_some() {
            c.fail("damaged message accepted", format!("{what} under {d:?} for {}", short(&canon(&v))));
        }
    }
}

/// Every proper beginning of a message is refused, checked or not.
fn truncated(c: &mut Case) {
    let v = vals::value(&mut c.rng, 2);
    let d = dials(&mut c.rng);
    if d.json && !vals::finite(&v) {
        return;
    }
    let Some(Ok(b)) = c.sut("encoding", || encode(&d, "me", &v)) else { return };
    c.eval();
    c.nontrivial(&vkit::hash_of(&b));
    let mut at: Vec<usize> = if b.len() < 60 { (0..b.len()).collect() } else { (0..40).map(|_| c.rng.below(b.len())).collect() };
    at.push(b.len() - 1);
    for k in at {
        let Some(got) = c.sut("truncated", || decode(&d, &b[..k]).map(|x| canon(&x.1))) else { return };
        c.count("truncated messages", 1);
        if let Some(g) = got {
            c.fail("truncated message accepted", format!("{k} of {} bytes under {d:?}: {} read as {}", b.len(), short(&canon(&v)), short(&g)));
        }
    }
}

/// The largest collection and text inside a value, and how deep it nests.
fn extent(v: &V) -> (usize, usize, usize) {
    let join = |a: (usize, usize, usize), b: (usize, usize, usize)| (a.0.max(b.0), a.1.max(b.1), a.2.max(b.2));
    let seq = |n: usize, vs: &[V]| {
        let mut e = (n, 0, 0);
        for x in vs {
            e = join(e, extent(x));
        }
        (e.0, e.1, e.2 + 1)
    };
    match v {
        V::Text(t) => (0, t.len(), 0),
        V::Peer(t) => (0, t.len(), 0),
        V::List(l) => {
            let vs = l.borrow().to_values();
            seq(vs.len(), &vs)
        }
        V::Set(s) => seq(s.borrow().len(), &s.borrow()),
        V::Map(m) => {
            let m = m.borrow();
            let vs: Vec<V> = m.iter().flat_map(|(k, x)| [k.clone(), x.clone()]).collect();
            seq(m.len(), &vs)
        }
        V::Tuple(t) => seq(0, t),
        V::Struct(s) => seq(0, &s.fields.values().cloned().collect::<Vec<_>>()),
        V::Inductive(i) => seq(0, &i.args),
        _ => (0, 0, 0),
    }
}

/// A receiver's limits refuse what exceeds them and nothing that does not.
fn limits(c: &mut Case) {
    let v = if c.rng.bool() { let n = 2 + c.rng.below(90); vals::rows(&mut c.rng, n, 1) } else { vals::value(&mut c.rng, 3) };
    let (n, t, depth) = extent(&v);
    let mut d = dials(&mut c.rng);
    d.json = false;
    let Some(Ok(b)) = c.sut("encoding", || encode(&d, "me", &v)) else { return };
    c.eval();
    c.nontrivial(&(n, t, depth, vkit::hash_of(&b)));
    let mut ask = |c: &mut Case, l: ReceiveLimits| c.sut("limited", || with_receive_limits(l, || decode(&d, &b)).map(|x| canon(&x.1)));
    let def = ReceiveLimits::default();
    let within = ReceiveLimits { max_elements: n.max(16), max_string_bytes: t.max(16), ..def };
    let Some(got) = ask(c, within) else { return };
    c.count("within limits", 1);
    match got {
        None => c.fail("refused within limits", format!("largest collection {n}, longest text {t}, {within:?} under {d:?} for {}", short(&canon(&v)))),
        Some(g) if g != canon(&v) => c.fail("limits changed a value", format!("under {d:?}")),
        _ => {}
    }
    // A text list is one collection of pieces inside some forms: only the element and
    // text limits of what the receiver would end up holding are judged.
    if n > 16 {
        let Some(got) = ask(c, ReceiveLimits { max_elements: n - 1, ..def }) else { return };
        c.count("over the element limit", 1);
        if got.is_some() {
            c.fail("element limit not kept", format!("{n} elements with a limit of {} under {d:?} for {}", n - 1, short(&canon(&v))));
        }
    }
    if t > 16 {
        let Some(got) = ask(c, ReceiveLimits { max_string_bytes: t - 1, ..def }) else { return };
        c.count("over the text limit", 1);
        if got.is_some() {
            c.fail("text limit not kept", format!("{t} bytes with a limit of {} under {d:?} for {}", t - 1, short(&canon(&v))));
        }
    }
    let Some(got) = ask(c, ReceiveLimits { max_bytes: b.len().saturating_sub(16).min(b.len() / 2), ..def }) else { return };
    c.count("over the byte limit", 1);
    if got.is_some() && b.len() > 64 {
        c.fail("byte limit not kept", format!("{} bytes with a limit of {}", b.len(), b.len() / 2));
    }
    // Nesting.
    let k = 1 + c.rng.below(50);
    let mut w = V::Int(7);
    for i in 0..k {
        w = match (i + k) % 3 {
            0 => V::Tuple(std::rc::Rc::new(vec![w])),
            1 => vals::list(vec![w, V::Bool(true)]),
            _ => V::Tuple(std::rc::Rc::new(vec![V::Nothing, w])),
        };
    }
    let Some(Ok(b)) = c.sut("encoding", || encode(&d, "me", &w)) else { return };
    for (lim, fine) in [(k + 2, true), (k.saturating_sub(2), false)] {
        let l = ReceiveLimits { max_depth: lim, ..def };
        let Some(got) = c.sut("nested", || with_receive_limits(l, || decode(&d, &b)).is_some()) else { return };
        c.count("nesting limits", 1);
        if got != fine && (fine || k > 2) {
            c.fail(if fine { "refused within nesting limit" } else { "nesting limit not kept" }, format!("{k} deep with a limit of {lim} under {d:?}"));
        }
    }
}

const ELEMS: usize = 1000;
const TEXT: usize = 2000;
const BYTES: usize = 100_000;
const TIGHT: ReceiveLimits = ReceiveLimits { max_bytes: BYTES, max_depth: 12, max_elements: ELEMS, max_string_bytes: TEXT, accept_computed: true };

/// Messages that were once valid, then altered; and messages nobody would send.
fn make_hostile(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 12) {
        let k = r.below(40);
        return r.bytes(k);
    }
    let mut d = Dials { checked: false, ..dials(r) };
    if r.chance(3, 4) {
        d.comp = WireCompression::None;
    }
    let n = r.below(40);
    let v = match r.below(4) {
        0 => vals::value(r, 3),
        1 => vals::rows(r, n, 1),
        2 => vals::list(vals::ints(r, n).into_iter().map(V::Int).collect()),
        _ => vals::value(r, 2),
    };
    d.json &= vals::finite(&v);
    let Ok(mut b) = encode(&d, "m", &v) else { return vec![] };
    if b.len() > 3000 {
        b.truncate(3000);
    }
    for _ in 0..1 + r.below(6) {
        if b.is_empty() {
            break;
        }
        // Leave the sender alone most of the time, to get past it.
        let lo = if r.chance(9, 10) && b.len() > 4 { 3 } else { 0 };
        let i = lo + r.below(b.len() - lo);
        match r.below(9) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u8(),
            2 => b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            3 => {
                // A count of any size.
                let x = *r.pick(&[ELEMS as u64 - 1, ELEMS as u64, ELEMS as u64 + 1, 1 << 20, 1 << 31, 1 << 32, 1 << 40, 1 << 60, u64::MAX, u64::MAX / 2]);
                let mut y = x;
                let mut vi = vec![];
                while y >= 0x80 {
                    vi.push(y as u8 | 0x80);
                    y >>= 7;
                }
                vi.push(y as u8);
                let j = (i + r.below(3)).min(b.len());
                b.splice(i..j, vi);
            }
            4 => {
                b.remove(i);
            }
            5 => b.insert(i, r.u8()),
            6 => {
                let j = (i + r.below(20)).min(b.len());
                let s = b[i..j].to_vec();
                let k = r.below(b.len());
                b.splice(k..k, s);
            }
            7 => {
                let k = r.below(b.len());
                b.truncate(k.max(1));
            }
            _ => {
                let j = (i + 8).min(b.len());
                for x in &mut b[i..j] {
                    *x = 0xff;
                }
            }
        }
    }
    b
}

/// Large bodies that compress to almost nothing, and lying size prefixes.
fn make_bomb(r: &mut Rng) -> Vec<u8> {
    let comp = *r.pick(&[WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd]);
    let d = Dials { comp, lvl: WireCompressionLevel::Fast, checked: r.bool(), ..plain() };
    let n = *r.pick(&[8 << 20, 24 << 20, 48 << 20]);
    let v = vals::text(&"a".repeat(n));
    let mut b = encode(&d, "m", &v).unwrap_or_default();
    if comp == WireCompression::Lz4 && !d.checked && r.bool() && b.len() > 5 {
        b[1..5].copy_from_slice(&r.pick(&[0x7fff_ffffu32, u32::MAX, 1 << 30]).to_le_bytes());
    }
    b
}

fn read_all(b: &[u8], reg: bool) -> bool {
    let go = || {
        with_receive_limits(TIGHT, || {
            let a = message_from_wire(b);
            let v = message_from_wire_view(b);
            let mut cache = WireSchemaCache::sequential();
            let _ = message_from_wire_cached(b, &mut cache).is_some();
            let mut cache = WireSchemaCache::content_addressed();
            let _ = message_from_wire_cached(b, &mut cache).is_some();
            let _ = decode_value_raw(b.get(3..).unwrap_or(&[])).is_some();
            let _ = (peek_deferrable_sender(b), peek_stream_sender(b), describe_columns(b));
            if let Some(w) = view_message(b) {
                let _ = (w.as_int(), w.as_float(), w.as_bool(), w.structs_len(), w.int_list_len(), w.float_list_len());
                let _ = (w.as_i64_slice().map(<[i64]>::len), w.as_f64_slice().map(<[f64]>::len), w.as_byte_slice().map(<[u8]>::len));
                for i in [0, 1, 5, 1000, usize::MAX] {
                    let _ = (w.int_list_get(i), w.float_list_get(i));
                    for k in ["x", "value", "a"] {
                        let _ = w.structs_row_field_value(i, k);
                        let _ = w.structs_row_field(i, k).and_then(|y| y.decode());
                    }
                    let _ = w.structs_fixed_i64_col(i).map(<[u8]>::len);
                }
                let _ = w.struct_field("x").and_then(|y| y.decode());
                let _ = w.decode();
                let _ = w.structs_schema();
                if let Some(cur) = w.structs_cursor() {
                    for fi in 0..cur.field_count().min(12) + 1 {
                        let _ = cur.i64_column(fi);
                        for i in [0, 1, 5, usize::MAX] {
                            let _ = (cur.value(i, fi), cur.i64(i, fi));
                        }
                    }
                }
            }
            a.is_some() || v.is_some()
        })
    };
    if reg {
        with_type_registry(registry(), go)
    } else {
        go()
    }
}

/// Child: read each message of a file under the allocation monitor, one line each.
pub fn child(path: &str) {
    vkit::install_hook();
    let mut f = std::fs::File::open(path).expect("batch");
    let mut all = vec![];
    f.read_to_end(&mut all).expect("batch");
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(format!("{path}.out")).expect("out");
    let mut at = 0;
    let mut i = 0;
    while at < all.len() {
        let n = u32::from_le_bytes(all[at..at + 4].try_into().unwrap()) as usize;
        let b = &all[at + 4..at + 4 + n];
        at += 4 + n;
        let (r, peak, largest) = vkit::alloc::measured(|| read_all(b, i % 3 == 0));
        let line = match r {
            Ok(x) => format!("{} {peak} {largest}\n", if x { "read" } else { "refused" }),
            Err(p) => format!("panic {peak} {largest} {} @ {}\n", p.message.replace('\n', " "), p.location),
        };
        out.write_all(line.as_bytes()).expect("out");
        i += 1;
    }
}

fn batch(c: &mut Case, msgs: &[Vec<u8>], peak_for: impl Fn(&[u8]) -> usize, largest_for: impl Fn(&[u8]) -> usize) {
    let dir = std::env::var("VK_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let path = format!("{dir}/batch-{}-{}", std::process::id(), vkit::hash_of(&(c.label.clone(), c.idx)));
    let mut blob = vec![];
    for m in msgs {
        blob.extend((m.len() as u32).to_le_bytes());
        blob.extend(m);
    }
    if std::fs::write(&path, &blob).is_err() {
        c.inconclusive("could not write the batch");
        return;
    }
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("self"));
    cmd.args(["child", &path]).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            Ok(())
        });
    }
    let Ok(mut ch) = cmd.spawn() else {
        c.inconclusive("could not start the reader");
        return;
    };
    let t0 = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed().as_secs() > 120 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let out = std::fs::read_to_string(format!("{path}.out")).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(format!("{path}.out"));
    let lines: Vec<&str> = out.lines().collect();
    c.count("hostile messages", lines.len() as u64);
    let hex = |m: &[u8]| m.iter().take(400).map(|b| format!("{b:02x}")).collect::<String>();
    for (l, m) in lines.iter().zip(msgs) {
        let f: Vec<&str> = l.splitn(4, ' ').collect();
        let (peak, largest) = (f[1].parse::<usize>().unwrap_or(0), f[2].parse::<usize>().unwrap_or(0));
        c.count(&format!("hostile messages {}", if f[0] == "panic" { "crashing" } else { f[0] }), 1);
        if f[0] == "panic" {
            let at = f[3].rsplit(" @ ").next().unwrap_or("");
            let place: String = at.rsplit('/').next().unwrap_or(at).split(':').next().unwrap_or("").to_string();
            let what: String = f[3].chars().take(60).filter(|x| !x.is_ascii_digit()).collect();
            c.fail_with(&format!("crash on a hostile message: {place} {what}"), f[3].to_string(), vkit::serde_json::json!({"message": hex(m)}));
        } else if largest > largest_for(m) {
            c.fail_with("one request larger than the limits allow", format!("{largest} bytes asked for at once by a message of {} ({} live)", m.len(), peak), vkit::serde_json::json!({"message": hex(m)}));
        } else if peak > peak_for(m) {
            c.fail_with("more memory than the limits allow", format!("{peak} bytes live for a message of {}", m.len()), vkit::serde_json::json!({"message": hex(m)}));
        }
    }
    match st {
        None => {
            if std::env::var("VK_SHOW").is_ok() {
                eprintln!("unfinished: {}", msgs.get(lines.len()).map(|m| hex(m)).unwrap_or_default());
            }
            c.inconclusive("reader did not finish")
        }
        Some(s) if s.success() => {}
        Some(s) => {
            let i = lines.len().min(msgs.len().saturating_sub(1));
            match s.signal() {
                // The address-space limit turns an unbounded request into an abort.
                Some(6) | Some(11) => c.fail_with("reader died on a hostile message", format!("signal {:?} at message {i} of {} bytes", s.signal(), msgs[i].len()), vkit::serde_json::json!({"message": hex(&msgs[i])})),
                _ => c.inconclusive("reader stopped"),
            }
        }
    }
}

fn hostile(c: &mut Case) {
    let msgs: Vec<Vec<u8>> = (0..400).map(|_| make_hostile(&mut c.rng)).collect();
    c.eval();
    for m in &msgs {
        c.nontrivial(&vkit::hash_of(m));
    }
    // Every collection costs the sender a tag and a count; every element the receiver a slot.
    batch(c, &msgs, |m| (8 << 20) + m.len() * ELEMS * 64, |m| (4 << 20) + 64 * m.len());
}

fn bombs(c: &mut Case) {
    let msgs: Vec<Vec<u8>> = (0..3).map(|_| make_bomb(&mut c.rng)).collect();
    c.eval();
    for m in &msgs {
        c.nontrivial(&vkit::hash_of(m));
    }
    c.count("bombs", msgs.len() as u64);
    // The compressors' own fixed tables are allowed for.
    batch(c, &msgs, |m| (14 << 20) + 4 * m.len(), |m| (9 << 20) + 4 * m.len());
}

/// The framing layers around a message: garbage in, nothing out, no crash.
fn frames(c: &mut Case) {
    let r = &mut c.rng;
    let k = r.below(60);
    let mut g = r.bytes(k);
    match r.below(5) {
        0 => g.splice(0..0, *b"LCHS").for_each(drop),
        1 => g.insert(0, 0xFD),
        2 => g.insert(0, 0xFE),
        3 => g.splice(0..0, [0xC0, 1, r.below(3) as u8, 0]).for_each(drop),
        _ => {}
    }
    c.eval();
    c.nontrivial(&g);
    c.sut("handshake", || (parse_handshake_frame(&g), decode_peer_profile(&g)).1.is_some());
    c.sut("batch", || deframe_stream_message(&g).map(|v| v.len()));
    c.sut("envelope", || channel::open(&g));
    c.sut("part", || fec::shard_header(&g));
    c.sut("stream", || {
        let mut d = stream::StreamDeframer::new();
        let mut n = 0;
        for ch in g.chunks(7) {
            d.push(ch);
            n += d.drain_frames(|_| {});
        }
        n
    });
    // Altered parts of a split message.
    let (k, extra) = (1 + c.rng.below(5), c.rng.below(4));
    let data = { let n = c.rng.below(50); c.rng.bytes(n) };
    if let Some(mut sh) = fec::frame_redundant(7, &data, k, k + extra) {
        for _ in 0..1 + c.rng.below(4) {
            let i = c.rng.below(sh.len());
            match c.rng.below(4) {
                0 if !sh[i].is_empty() => { let j = c.rng.below(sh[i].len()); sh[i][j] = c.rng.u8() }
                1 => { let j = c.rng.below(sh[i].len() + 1); sh[i].truncate(j) }
                2 => { let n = c.rng.below(20); sh[i] = c.rng.bytes(n) }
                _ => { let j = c.rng.below(sh.len()); sh.swap(i, j) }
            }
        }
        c.sut("altered parts", || fec::reconstruct_redundant(&sh).is_some());
        let have: Vec<(usize, Vec<u8>)> = sh.iter().map(|s| (c.rng.below(300), s.clone())).collect();
        let (a, b, d) = (c.rng.below(100), c.rng.below(12), c.rng.below(270));
        c.sut("altered parts", || fec::decode(a, b, d, &have).is_some());
    }
    // A sealed frame altered anywhere does not open.
    let key: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
    let s = channel::PqSuite::new(key);
    let blob = { let n = c.rng.below(40); c.rng.bytes(n) };
    let f = channel::seal_with(&s, &blob);
    let mut m = f.clone();
    if c.rng.bool() {
        let i = c.rng.below(m.len());
        m[i] ^= 1 << c.rng.below(8);
    } else {
        let i = c.rng.below(m.len());
        m.truncate(i);
    }
    if let Some(Some(_)) = c.sut("altered seal", || channel::open_with(&s, &m)) {
        c.fail("altered sealed frame opened", format!("{} bytes", blob.len()));
    }
    c.count("garbage frames", 1);
}

/// A receiver without the sender's type table reads the value or refuses it.
fn strangers(c: &mut Case) {
    let n = c.rng.below(9);
    let v = vals::rows(&mut c.rng, n, 1);
    let d = Dials { reg: true, json: false, ..dials(&mut c.rng) };
    let (k, g) = codec(&d);
    let Some(Ok(b)) = c.sut("encoding", || under(&d, || message_to_wire_with("me", &v, k, g))) else { return };
    c.eval();
    c.nontrivial(&vkit::hash_of(&b));
    let Some(got) = c.sut("stranger without a table", || message_from_wire(&b).map(|x| canon(&x.1))) else { return };
    c.count("strangers", 1);
    if got.is_some_and(|g| g != canon(&v)) {
        c.fail("read without a type table as something else", short(&canon(&v)));
    }
}

pub fn c23(rep: &Report) {
    let _ = trip::plain();
    rep.rule("a damaged checked message, any beginning of a message, and any message over the receiver's limits is refused; no message crashes the receiver or makes it hold more than its limits allow");
    rep.cases("damage", scale(700, 7000), damage);
    rep.cases("truncated", scale(700, 7000), truncated);
    rep.cases("limits", scale(1500, 15000), limits);
    rep.cases("frames", scale(4000, 40000), frames);
    rep.cases("strangers", scale(800, 8000), strangers);
    rep.cases("bombs", scale(16, 60), bombs);
    rep.cases("hostile", scale(120, 1500), hostile);
    for (k, n) in [("damaged messages", 1000), ("truncated messages", 1000), ("within limits", 300), ("over the element limit", 50), ("over the text limit", 20), ("over the byte limit", 100), ("nesting limits", 100), ("garbage frames", 1000), ("strangers", 100), ("bombs", 6), ("hostile messages", 2000), ("hostile messages read", 20), ("hostile messages refused", 500)] {
        rep.require(k, n);
    }
}
