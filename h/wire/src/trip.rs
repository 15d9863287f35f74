//! What is sent is what arrives, whatever the sender's settings.
use crate::vals::{self, canon, canon_ordered};
use logicaffeine_compile::concurrency::marshal::*;
use logicaffeine_compile::concurrency::{channel, fec, stream};
use logicaffeine_compile::interpreter::RuntimeValue as V;
use vkit::{scale, Case, Report, Rng};

#[derive(Clone, Copy, Debug)]
pub struct Dials {
    pub json: bool,
    pub checked: bool,
    pub num: WireNumerics,
    pub st: WireStructure,
    pub fl: WireFloats,
    pub comp: WireCompression,
    pub lvl: WireCompressionLevel,
    pub dedup: bool,
    pub flat: bool,
    pub view: bool,
    pub reg: bool,
}

pub fn plain() -> Dials {
    Dials {
        json: false,
        checked: false,
        num: WireNumerics::Varint,
        st: WireStructure::Off,
        fl: WireFloats::Memcpy,
        comp: WireCompression::None,
        lvl: WireCompressionLevel::Balanced,
        dedup: false,
        flat: false,
        view: false,
        reg: false,
    }
}

pub fn dials(r: &mut Rng) -> Dials {
    Dials {
        json: r.chance(1, 9),
        checked: r.bool(),
        num: *r.pick(&[WireNumerics::Varint, WireNumerics::Fixed, WireNumerics::GroupVarint]),
        st: *r.pick(&[WireStructure::Off, WireStructure::Affine, WireStructure::Auto, WireStructure::Auto]),
        fl: *r.pick(&[WireFloats::Memcpy, WireFloats::XorDelta]),
        comp: *r.pick(&[WireCompression::None, WireCompression::None, WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd]),
        lvl: *r.pick(&[WireCompressionLevel::Fast, WireCompressionLevel::Balanced, WireCompressionLevel::Max]),
        dedup: r.chance(1, 3),
        flat: r.chance(1, 3),
        view: r.chance(1, 3),
        reg: r.chance(1, 3),
    }
}

pub fn registry() -> WireTypeRegistry {
    WireTypeRegistry::new(vals::schemas()).with_enums(vals::enums())
}

pub fn under<T>(d: &Dials, f: impl FnOnce() -> T) -> T {
    let g = || {
        with_numerics(d.num, || {
            with_structure(d.st, || {
                with_floats(d.fl, || {
                    with_compression_codec(d.comp, || {
                        with_compression_level(d.lvl, || with_dedup(d.dedup, || with_flat_lists(d.flat, || with_struct_view(d.view, f))))
                    })
                })
            })
        })
    };
    if d.reg {
        with_type_registry(registry(), g)
    } else {
        g()
    }
}

pub fn codec(d: &Dials) -> (WireCodec, WireIntegrity) {
    (
        if d.json { WireCodec::Json } else { WireCodec::Native },
        if d.checked { WireIntegrity::Checked } else { WireIntegrity::Raw },
    )
}

pub fn encode(d: &Dials, from: &str, v: &V) -> Result<Vec<u8>, String> {
    let (c, i) = codec(d);
    under(d, || message_to_wire_with(from, v, c, i))
}

/// The receiver uses its own settings: only the shared type table matters to it.
pub fn decode(d: &Dials, b: &[u8]) -> Option<(String, V)> {
    if d.reg {
        with_type_registry(registry(), || message_from_wire(b))
    } else {
        message_from_wire(b)
    }
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

/// First place where the two texts differ, with a little before it.
fn differ(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let mut lo = i.saturating_sub(40).min(s.len());
        while !s.is_char_boundary(lo) { lo -= 1 }
        s[lo..].chars().take(120).collect::<String>()
    };
    format!("sent …{}… but received …{}…", cut(a), cut(b))
}

fn sender(r: &mut Rng) -> String {
    r.pick(&["", "a", "agent-7", "日本", "x y\n"]).to_string()
}

fn kind(v: &V) -> &'static str {
    match v {
        V::List(l) => match l.borrow().to_values().first() {
            None => "empty list",
            Some(V::Int(_)) => "integers",
            Some(V::Float(_)) => "floats",
            Some(V::Text(_)) => "texts",
            Some(V::Bool(_)) => "bools",
            Some(V::Struct(_)) => "records",
            Some(V::Inductive(_)) => "variants",
            _ => "mixed list",
        },
        V::Map(_) => "map",
        V::Set(_) => "set",
        V::Struct(_) => "record",
        V::Tuple(_) => "tuple",
        _ => "scalar",
    }
}

fn roundtrip(c: &mut Case) {
    let v = vals::value(&mut c.rng, 3);
    let want = canon(&v);
    let from = sender(&mut c.rng);
    c.eval();
    c.seen("kind of value", &kind(&v).to_string());
    c.nontrivial(&want);

    // In-process hand-over keeps the order of sets and maps too.
    match c.sut("handing a value over", || materialize(&v).map(rebuild)) {
        Some(Ok(w)) => {
            let (a, b) = (canon_ordered(&v), canon_ordered(&w));
            if a != b {
                c.fail("handed over changed", differ(&a, &b));
            }
            c.count("values handed over", 1);
            // A rebuilt copy encodes to the same bytes: nothing depends on where it lives.
            let p = plain();
            if let (Ok(x), Ok(y)) = (encode(&p, &from, &v), encode(&p, &from, &w)) {
                if x != y {
                    c.fail("same value different bytes", format!("{} and {} bytes for {}", x.len(), y.len(), short(&want)));
                }
            }
        }
        Some(Err(e)) => c.fail("not sendable", format!("{e:?} for {}", short(&want))),
        None => return,
    }

    // The value alone.
    match c.sut("raw value", || encode_value_raw(&v).map(|b| decode_value_raw(&b))) {
        Some(Ok(Some(w))) => {
            let got = canon(&w);
            if got != want {
                c.fail("raw value changed", differ(&want, &got));
            }
        }
        Some(Ok(None)) => c.fail("raw value refused", short(&want)),
        Some(Err(e)) => c.fail("raw value not encoded", e),
        None => return,
    }

    if let q @ V::Quantity(_) = vals::quantity(&mut c.rng) {
        let shown = |v: &V| match v {
            V::Quantity(q) => q.display(),
            o => canon(o),
        };
        let ways = [
            materialize(&q).ok().map(rebuild),
            encode_value_raw(&q).ok().and_then(|b| decode_value_raw(&b)),
            encode(&plain(), "", &q).ok().and_then(|b| message_from_wire(&b)).map(|x| x.1),
        ];
        let odd = vals::odd_quantity(&mut c.rng);
        let back = encode(&plain(), "", &odd).ok().and_then(|b| message_from_wire(&b)).map(|x| canon(&x.1));
        if back.as_ref() != Some(&canon(&odd)) {
            c.fail("quantity changed", format!("{} arrived as {back:?}", canon(&odd)));
        }
        for w in ways {
            let got = w.as_ref().map(shown);
            if got.as_ref() != Some(&shown(&q)) {
                c.fail("quantity shown differently", format!("{} arrived as {got:?}", shown(&q)));
            }
        }
        c.count("quantities shown", 3);
    }

    let mut ds = vec![plain()];
    for st in [WireStructure::Affine, WireStructure::Auto] {
        ds.push(Dials { st, ..plain() });
    }
    for _ in 0..scale(6, 14) {
        ds.push(dials(&mut c.rng));
    }
    for d in ds {
        if d.json && !vals::finite(&v) {
            continue;
        }
        let Some(enc) = c.sut("encoding", || encode(&d, &from, &v)) else { return };
        let bytes = match enc {
            Ok(b) => b,
            Err(e) => {
                c.fail("not encoded", format!("{e} under {d:?} for {}", short(&want)));
                continue;
            }
        };
        c.count("messages sent", 1);
        let want = if d.json { vals::canon_json(&v) } else { want.clone() };
        c.seen("sender settings", &format!("{d:?}"));
        let Some(dec) = c.sut("decoding", || decode(&d, &bytes)) else { return };
        match dec {
            None => c.fail("own message refused", format!("under {d:?} for {}", short(&want))),
            Some((f, w)) => {
                let got = canon(&w);
                if got != want || f != from {
                    c.fail_with("arrived changed", format!("under {d:?}: {}", differ(&want, &got)), vkit::serde_json::json!({"sent": short(&want)}));
                }
            }
        }
        // Reading in place gives the same value as decoding.
        let Some(dec) = c.sut("reading in place", || {
            if d.reg { with_type_registry(registry(), || message_from_wire_view(&bytes)) } else { message_from_wire_view(&bytes) }
                .map(|(f, w)| (f, canon(&w)))
        }) else { return };
        match dec {
            None => c.fail("own message refused in place", format!("under {d:?} for {}", short(&want))),
            Some((f, got)) if got != want || f != from => c.fail("arrived changed in place", format!("under {d:?}: {}", differ(&want, &got))),
            _ => c.count("messages read in place", 1),
        }
        view(c, &d, &bytes, &v);
    }
}

/// Every single reading the in-place view offers agrees with the value that was sent.
fn view(c: &mut Case, d: &Dials, bytes: &[u8], v: &V) {
    let go = || -> Vec<String> {
        let mut bad = vec![];
        let Some(w) = view_message(bytes) else { return bad };
        let mut ok = |name: &str, good: bool| {
            if !good {
                bad.push(name.to_string());
            }
        };
        if let Some(x) = w.as_int() {
            ok("integer", canon(v) == format!("i{x}"));
        }
        if let Some(x) = w.as_float() {
            ok("float", matches!(v, V::Float(f) if f.to_bits() == x.to_bits()));
        }
        if let Some(x) = w.as_bool() {
            ok("bool", canon(v) == x.to_string());
        }
        if let Some(x) = w.decode() {
            ok("whole", canon(&x) == canon(v));
        }
        if let V::Struct(s) = v {
            for (k, x) in &s.fields {
                if let Some(y) = w.struct_field(k).and_then(|y| y.decode()) {
                    ok("field", canon(&y) == canon(x));
                }
            }
        }
        if let V::List(l) = v {
            let vs = l.borrow().to_values();
            if let Some(n) = w.int_list_len() {
                ok("integer count", n == vs.len());
            }
            for (i, x) in vs.iter().enumerate() {
                if let Some(y) = w.int_list_get(i) {
                    ok("integer at", canon(x) == format!("i{y}"));
                }
                if let Some(y) = w.float_list_get(i) {
                    ok("float at", matches!(x, V::Float(f) if f.to_bits() == y.to_bits()));
                }
            }
            ok("integer past the end", w.int_list_get(vs.len()).is_none());
            ok("float past the end", w.float_list_get(vs.len()).is_none());
            if let Some(xs) = w.as_i64_slice() {
                ok("integer slice", xs.len() == vs.len() && xs.iter().zip(&vs).all(|(a, b)| canon(b) == format!("i{a}")));
            }
            if let Some(xs) = w.as_f64_slice() {
                ok("float slice", xs.len() == vs.len() && xs.iter().zip(&vs).all(|(a, b)| matches!(b, V::Float(f) if f.to_bits() == a.to_bits())));
            }
            if let Some(n) = w.structs_len() {
                ok("record count", n == vs.len());
            }
            if let Some(V::Struct(s0)) = vs.first() {
                for (i, x) in vs.iter().enumerate() {
                    let V::Struct(s) = x else { continue };
                    for k in s0.fields.keys() {
                        let Some(f) = s.fields.get(k) else { continue };
                        if let Some(y) = w.structs_row_field_value(i, k) {
                            ok("record field", canon(&y) == canon(f));
                        }
                        if let Some(y) = w.structs_row_field(i, k).and_then(|y| y.decode()) {
                            ok("record field in place", canon(&y) == canon(f));
                        }
                    }
                }
                for k in s0.fields.keys() {
                    ok("record past the end", w.structs_row_field_value(vs.len(), k).is_none());
                }
                if let Some(cur) = w.structs_cursor() {
                    ok("cursor count", cur.len() == vs.len());
                    for k in s0.fields.keys() {
                        let Some(fi) = cur.field_index(k) else {
                            ok("cursor field", false);
                            continue;
                        };
                        let col = cur.i64_column(fi);
                        for (i, x) in vs.iter().enumerate() {
                            let V::Struct(s) = x else { continue };
                            let Some(f) = s.fields.get(k) else { continue };
                            if let Some(y) = cur.value(i, fi) {
                                ok("cursor value", canon(&y) == canon(f));
                            }
                            if let Some(y) = cur.i64(i, fi) {
                                ok("cursor integer", canon(f) == format!("i{y}"));
                            }
                            if let Some(col) = &col {
                                ok("cursor column", col.get(i).map(|y| format!("i{y}")) == Some(canon(f)));
                            }
                        }
                    }
                }
            }
        }
        bad
    };
    if d.reg || d.json {
        return;
    }
    if let Some(bad) = c.sut("viewing", go) {
        c.count("messages viewed", 1);
        if let Some(b) = bad.first() {
            c.fail(&format!("view disagrees: {b}"), format!("{d:?} for {}", short(&canon(v))));
        }
    }
}

/// The chooser never does worse than any fixed choice, and still arrives.
fn choosers(c: &mut Case) {
    let v = vals::value(&mut c.rng, 2);
    let want = canon(&v);
    let from = sender(&mut c.rng);
    c.eval();
    c.nontrivial(&want);
    let get = |c: &mut Case, what: &str, b: Option<Result<Vec<u8>, String>>| -> Option<usize> {
        let b = match b? {
            Ok(b) => b,
            Err(e) => {
                c.fail("not encoded", format!("{what}: {e}"));
                return None;
            }
        };
        let w = c.sut("decoding", || message_from_wire(&b))?;
        match w {
            Some((f, w)) if canon(&w) == want && f == from => {}
            Some((_, w)) => c.fail("arrived changed", format!("{what}: {}", differ(&want, &canon(&w)))),
            None => c.fail("own message refused", format!("{what} for {}", short(&want))),
        }
        c.count("chosen messages", 1);
        Some(b.len())
    };
    let x = c.sut("smallest", || message_to_wire_best(&from, &v, WireGoal::Smallest));
    let Some(best) = get(c, "smallest", x) else { return };
    let x = c.sut("fastest", || message_to_wire_best(&from, &v, WireGoal::Fastest));
    get(c, "fastest", x);
    let x = c.sut("auto", || message_to_wire_auto(&from, &v));
    let Some(auto) = get(c, "auto", x) else { return };
    let x = c.sut("default", || message_to_wire(&from, &v));
    let Some(def) = get(c, "default", x) else { return };
    if auto > def {
        c.fail("automatic choice larger than default", format!("{auto} > {def} bytes for {}", short(&want)));
    }
    for num in [WireNumerics::Varint, WireNumerics::Fixed, WireNumerics::GroupVarint] {
        for st in [WireStructure::Off, WireStructure::Affine, WireStructure::Auto] {
            for comp in [WireCompression::None, WireCompression::Deflate, WireCompression::Lz4, WireCompression::Zstd] {
                let d = Dials { num, st, comp, fl: *c.rng.pick(&[WireFloats::Memcpy, WireFloats::XorDelta]), ..plain() };
                let Some(Ok(b)) = c.sut("encoding", || under(&d, || message_to_wire(&from, &v))) else { continue };
                if best > b.len() {
                    c.fail("smallest is not smallest", format!("{best} > {} under {d:?} for {}", b.len(), short(&want)));
                }
            }
        }
    }
    // A negotiated send uses only what both ends have, and arrives there.
    let reg = registry();
    let mut prof = |r: &mut Rng| PeerProfile {
        limits: ReceiveLimits::default(),
        registry_epoch: if r.bool() { reg.epoch() } else { r.below(3) as u64 },
        features: r.u32() & 0x3f,
    };
    let (mine, theirs) = (prof(&mut c.rng), prof(&mut c.rng));
    let bytes = make_handshake_frame(&from, &theirs);
    match c.sut("handshake", || parse_handshake_frame(&bytes)) {
        Some(Some((f, p))) if f == from && p == theirs => {}
        Some(o) => c.fail("handshake changed", format!("{theirs:?} arrived as {o:?}")),
        None => return,
    }
    let neg = negotiate(&mine, &theirs);
    let both = mine.features & theirs.features;
    if (neg.use_type_id && (both & FEAT_TYPE_ID == 0 || mine.registry_epoch != theirs.registry_epoch || mine.registry_epoch == 0))
        || match neg.compression {
            WireCompression::None => both & (FEAT_DEFLATE | FEAT_LZ4 | FEAT_ZSTD) != 0,
            WireCompression::Deflate => both & FEAT_DEFLATE == 0,
            WireCompression::Lz4 => both & FEAT_LZ4 == 0,
            WireCompression::Zstd => both & FEAT_ZSTD == 0,
        }
    {
        c.fail("negotiated a capability one side lacks", format!("{mine:?} {theirs:?} {neg:?}"));
    }
    if !neg.use_type_id || mine.registry_epoch == reg.epoch() {
        let Some(Ok(b)) = c.sut("negotiated", || message_to_wire_negotiated(&from, &v, &neg, registry())) else { return };
        let got = if neg.use_type_id { with_type_registry(registry(), || message_from_wire(&b)) } else { message_from_wire(&b) };
        c.count("negotiated messages", 1);
        match got {
            Some((f, w)) if f == from && canon(&w) == want => {}
            Some((_, w)) => c.fail("arrived changed", format!("negotiated: {}", differ(&want, &canon(&w)))),
            None => c.fail("own message refused", format!("negotiated {neg:?} for {}", short(&want))),
        }
        if b.len() > def {
            c.fail("negotiated larger than default", format!("{} > {def}", b.len()));
        }
    }
}

/// A conversation sharing a schema memory: lost, repeated and reordered messages may
/// be refused but never read as something else; an undisturbed one is never refused.
fn conversation(c: &mut Case) {
    let lossy = c.rng.bool();
    let seqm = !lossy && c.rng.bool();
    let mk = |r: &mut Rng| {
        if seqm {
            WireSchemaCache::sequential()
        } else if r.bool() {
            WireSchemaCache::content_addressed().with_keyframe(1 + r.below(4) as u32)
        } else {
            WireSchemaCache::content_addressed()
        }
    };
    let senders = if seqm { 1 } else { 1 + c.rng.below(3) };
    let mut out: Vec<WireSchemaCache> = (0..senders).map(|_| mk(&mut c.rng)).collect();
    let mut inn = mk(&mut c.rng);
    let mut msgs = vec![];
    c.eval();
    for i in 0..4 + c.rng.below(14) {
        let s = c.rng.below(senders);
        let v = if c.rng.chance(3, 4) { let n = c.rng.below(8); vals::rows(&mut c.rng, n, 1) } else { vals::value(&mut c.rng, 2) };
        let mut d = dials(&mut c.rng);
        d.json = false;
        d.reg = false;
        let (k, g) = codec(&d);
        let from = format!("s{s}-{i}");
        let cache = &mut out[s];
        match c.sut("encoding", || under(&d, || message_to_wire_cached(&from, &v, k, g, cache))) {
            Some(Ok(b)) => msgs.push((from, v, b)),
            Some(Err(e)) => {
                c.fail("not encoded", e);
                return;
            }
            None => return,
        }
    }
    let mut order: Vec<usize> = (0..msgs.len()).collect();
    if lossy {
        order.retain(|_| c.rng.chance(4, 5));
        for _ in 0..c.rng.below(6) {
            if order.len() > 1 {
                let i = c.rng.below(order.len() - 1);
                order.swap(i, i + 1);
            }
        }
        if let Some(&x) = order.first() {
            order.push(x);
        }
    }
    c.nontrivial(&vkit::hash_of(&order));
    let mut refused = 0;
    for &i in &order {
        let (from, v, b) = &msgs[i];
        let Some(got) = c.sut("decoding", || message_from_wire_cached(b, &mut inn)) else { return };
        match got {
            Some((f, w)) => {
                if f != *from || canon(&w) != canon(v) {
                    c.fail("conversation changed a message", format!("message {i} of {order:?}: {}", differ(&canon(v), &canon(&w))));
                }
                c.count("conversation messages", 1);
            }
            None => {
                refused += 1;
                if !lossy {
                    c.fail("undisturbed conversation refused", format!("message {i}: {}", short(&canon(v))));
                }
            }
        }
    }
    c.count("conversation messages refused after loss", refused);
}

/// A stream cut into pieces anywhere gives the same messages in the same order.
fn pieces(c: &mut Case) {
    let n = c.rng.below(9);
    let bodies: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let k = *c.rng.pick(&[0usize, 1, 3, 127, 128, 129, 300, 16383, 16384, 17000]);
            c.rng.bytes(k)
        })
        .collect();
    let mut all = vec![];
    for b in &bodies {
        stream::frame_for_stream(b, &mut all);
    }
    c.eval();
    c.nontrivial(&vkit::hash_of(&all));
    let mut cuts = vec![];
    let mut at = 0;
    while at < all.len() {
        let k = match c.rng.below(5) {
            0 => 1,
            1 => 1 + c.rng.below(4),
            2 => 1 + c.rng.below(300),
            3 => 1 + c.rng.below(20000),
            _ => 2,
        }
        .min(all.len() - at);
        cuts.push(k);
        at += k;
    }
    let got = c.sut("deframing", || {
        let mut d = stream::StreamDeframer::new();
        let mut got: Vec<Vec<u8>> = vec![];
        let mut at = 0;
        for k in &cuts {
            d.push(&all[at..at + k]);
            at += k;
            d.drain_frames(|f| got.push(f.to_vec()));
        }
        (got, d.is_empty())
    });
    let Some((got, empty)) = got else { return };
    c.count("stream pieces", cuts.len() as u64);
    if got != bodies || !empty {
        c.fail("stream changed by how it was cut", format!("{} bodies became {} (lengths {:?} / {:?})", bodies.len(), got.len(), bodies.iter().map(Vec::len).collect::<Vec<_>>(), got.iter().map(Vec::len).collect::<Vec<_>>()));
    }
    // The batch form.
    let vs: Vec<V> = (0..c.rng.below(6)).map(|_| vals::value(&mut c.rng, 2)).collect();
    let from = sender(&mut c.rng);
    let d = Dials { json: false, reg: false, ..dials(&mut c.rng) };
    let Some(Ok(b)) = c.sut("batch", || under(&d, || frame_stream_message(&from, &vs))) else {
        return;
    };
    let who = peek_stream_sender(&b);
    let Some(got) = c.sut("batch back", || deframe_stream_message(&b)) else { return };
    let want: Vec<String> = vs.iter().map(canon).collect();
    let got = got.map(|g| g.iter().map(canon).collect::<Vec<_>>());
    c.count("batches", 1);
    if who.as_deref() != Some(from.as_str()) || got.as_ref() != Some(&want) {
        c.fail("batch changed", format!("under {d:?} from {who:?}: {} sent, {:?} received", want.len(), got.map(|g| g.len())));
    }
}

/// Any `k` of the `n` parts are enough, in any order, with repeats; fewer are not.
fn parts(c: &mut Case) {
    let wide = c.rng.chance(1, 6);
    let k = 1 + c.rng.below(if wide { 60 } else { 9 });
    let n = (k + c.rng.below(if wide { 120 } else { 8 })).min(256);
    let len = *c.rng.pick(&[0usize, 1, 2, 3, 7, 8, 9, 63, 64, 65, 1000]) + c.rng.below(5);
    let data = c.rng.bytes(len);
    c.eval();
    c.nontrivial(&(k, n, vkit::hash_of(&data)));
    let id = c.rng.u64();
    let Some(framed) = c.sut("splitting", || fec::frame_redundant(id, &data, k, n)) else { return };
    let Some(sh) = framed else {
        c.fail("not split", format!("{k} of {n}, {len} bytes"));
        return;
    };
    if sh.len() != n {
        c.fail("wrong number of parts", format!("{} not {n}", sh.len()));
        return;
    }
    for _ in 0..4 {
        let mut idx: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut idx);
        let take = match c.rng.below(4) {
            0 if k > 1 => k - 1,
            1 => n.min(k + 1),
            _ => k,
        };
        let mut have: Vec<Vec<u8>> = idx[..take].iter().map(|&i| sh[i].clone()).collect();
        if c.rng.bool() {
            let d = have[c.rng.below(have.len())].clone();
            have.insert(c.rng.below(have.len() + 1), d);
        }
        let Some(got) = c.sut("joining", || fec::reconstruct_redundant(&have)) else { return };
        c.seen("subsets joined", &(k, n, idx[..take].to_vec()));
        c.count("joins", 1);
        if take >= k {
            if got != Some((id, data.clone())) {
                c.fail("parts did not give the message back", format!("{k} of {n}, {len} bytes, had {:?}", &idx[..take]));
            }
        } else if got.is_some() {
            c.fail("too few parts gave a message", format!("{take} of {k} needed"));
        }
    }
}

/// Both ends of a handshake share keys; what one seals the other opens, once each in order.
fn sealed(c: &mut Case) {
    let a = |r: &mut Rng| -> [u8; 32] { r.bytes(32).try_into().unwrap() };
    let (d, z, m) = (a(&mut c.rng), a(&mut c.rng), a(&mut c.rng));
    c.eval();
    c.nontrivial(&(d, z, m));
    let Some(((i_send, i_recv), (r_recv, r_send))) = c.sut("handshake", || {
        let hs = channel::pq_handshake_initiator(&d, &z);
        let (ct, i2r, r2i) = channel::pq_handshake_responder(&hs.ek, &m);
        (channel::pq_handshake_finish(&hs, &ct), (i2r, r2i))
    }) else {
        return;
    };
    let mut frames = std::collections::BTreeSet::new();
    for _ in 0..6 {
        let k = c.rng.below(200);
        let blob = c.rng.bytes(k);
        let forth = c.rng.bool();
        let (s, o, wrong) = if forth { (&i_send, &r_recv, &i_recv) } else { (&r_send, &i_recv, &r_recv) };
        let f = channel::seal_with(s, &blob);
        c.count("sealed frames", 1);
        if channel::open_with(o, &f) != Some(blob.clone()) {
            c.fail("sealed frame did not open", format!("{k} bytes"));
        }
        if channel::open_with(wrong, &f).is_some() {
            c.fail("frame opened in the wrong direction", format!("{k} bytes"));
        }
        if !frames.insert(f) {
            c.fail("two sends sealed alike", format!("{k} bytes"));
        }
    }
    let blob = c.rng.bytes(9);
    if channel::open(&channel::seal(channel::SUITE_NULL, &blob)) != Some(blob) {
        c.fail("plain envelope changed", "".to_string());
    }
}

/// Columns written straight to the wire arrive as the records they stand for.
fn columns(c: &mut Case) {
    let n = c.rng.below(70);
    let xs = vals::ints(&mut c.rng, n);
    let fs = vals::floats(&mut c.rng, n);
    c.eval();
    c.nontrivial(&vkit::hash_of(&xs));
    let d = Dials { json: false, reg: false, ..dials(&mut c.rng) };
    let Some(b) = c.sut("columns", || under(&d, || build_columnar_record("me", "Row", &[("a", WireColumn::Ints(&xs)), ("b", WireColumn::Floats(&fs))]))) else { return };
    let Some(got) = c.sut("decoding", || message_from_wire(&b)) else { return };
    let want = {
        let col = |v: Vec<V>| canon(&vals::list(v));
        (col(xs.iter().map(|x| V::Int(*x)).collect()), col(fs.iter().map(|x| V::Float(*x)).collect()))
    };
    c.count("column records", 1);
    match got {
        Some((f, V::Struct(s))) if f == "me" && s.type_name == "Row" && s.fields.len() == 2 => {
            let (a, b) = (s.fields.get("a").map(canon), s.fields.get("b").map(canon));
            if a.as_ref() != Some(&want.0) || b.as_ref() != Some(&want.1) {
                c.fail("columns changed", format!("{d:?}: {} | {}", differ(&want.0, &a.unwrap_or_default()), differ(&want.1, &b.unwrap_or_default())));
            }
        }
        Some((_, o)) => c.fail("columns changed", format!("received {}", short(&canon(&o)))),
        None => c.fail("own message refused", format!("columns of {n} under {d:?}")),
    }
}

/// A recorded finding: one float the JSON form does not give back exactly.
fn json_probe(c: &mut Case) {
    let x = f64::from_bits(0x431a_553f_8878_fa04);
    let d = Dials { json: true, ..plain() };
    c.eval();
    c.nontrivial(&"probe");
    let got = c.sut("json", || encode(&d, "a", &V::Float(x)).ok().and_then(|b| decode(&d, &b)));
    c.count("json probe", 1);
    match got {
        Some(Some((_, V::Float(y)))) if y.to_bits() == x.to_bits() => {}
        Some(Some((_, V::Float(y)))) => c.fail("json-float-0x431a553f8878fa04-one-ulp", format!("{x:e} arrived as {y:e}")),
        Some(o) => c.fail("json float lost", format!("{:?}", o.map(|o| canon(&o.1)))),
        None => {}
    }
}

pub fn c22(rep: &Report) {
    rep.cases("json float", 1, json_probe);
    rep.rule("a value sent under any settings arrives equal, bit for bit for floats, at a receiver that knows nothing of those settings");
    rep.cases("sealed", scale(150, 1500), sealed);
    rep.cases("parts", scale(1200, 12000), parts);
    rep.cases("columns", scale(1500, 15000), columns);
    rep.cases("pieces", scale(1000, 10000), pieces);
    rep.cases("conversation", scale(1000, 15000), conversation);
    rep.cases("choosers", scale(300, 3000), choosers);
    rep.cases("roundtrip", scale(3000, 60000), roundtrip);
    rep.require("messages sent", 1000);
    rep.require("messages viewed", 200);
    rep.require("quantities shown", 200);
    rep.require("values handed over", 200);
    rep.require("chosen messages", 100);
    rep.require("conversation messages", 100);
    rep.require("conversation messages refused after loss", 1);
    rep.require("stream pieces", 100);
    rep.require("joins", 100);
    rep.require("column records", 50);
    rep.require("sealed frames", 50);
}
