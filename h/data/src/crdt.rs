//! C01–C03: replicated values. A simulated cluster of replicas edits real CRDTs while a
//! causal-history reference model (sets of unique operation ids) tracks what each replica
//! has seen. Every observation is judged against the model.
use logicaffeine_data::crdt::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vkit::serde_json::json;
use vkit::{Case, Report, Rng};

type Hist = BTreeSet<u32>;

#[derive(Clone, Debug)]
enum Op {
    Inc(u64),
    Dec(u64),
    Write { ts: u64 },
    Add(u8),
    Rem(u8),
    KeyInc(u8, u64),
    KeyRem(u8),
    Ins,
    Del(u32),
}

struct OpRec {
    op: Op,
    past: Hist,
}

/// One replicated type under monitoring.
trait Kind: Sync {
    const NAME: &'static str;
    type S: Clone + Merge + Serialize + DeserializeOwned;
    fn new(rep: u64) -> Self::S;
    /// Perform a random local edit with unique id `uid`; the list model is checked inline.
    fn edit(s: &mut Self::S, rng: &mut Rng, uid: u32, ts: &mut u64, grow_only: bool) -> Result<Op, String>;
    /// Observable value, canonical.
    fn view(s: &Self::S) -> String;
    /// What the value must be given everything seen; `None` if only convergence is specified.
    fn expect(hist: &Hist, log: &[OpRec]) -> Option<String>;
    /// Order facts for sequences.
    fn seq(_s: &Self::S) -> Option<Vec<u32>> {
        None
    }
    const MAX_REPLICAS: usize = 5;
    /// Value text is known to be order-free.
    fn check_extra(_s: &Self::S) -> Result<(), String> {
        Ok(())
    }
}

struct GC;
impl Kind for GC {
    const NAME: &'static str = "gcounter";
    type S = GCounter;
    fn new(r: u64) -> GCounter {
        GCounter::with_replica_id(r)
    }
    fn edit(s: &mut GCounter, rng: &mut Rng, _: u32, _: &mut u64, _: bool) -> Result<Op, String> {
        let n = if rng.chance(1, 8) { 0 } else { rng.below(1 << rng.clone().below(20)) as u64 };
        let b = s.value();
        s.increment(n);
        if s.value() != b + n {
            return Err(format!("increment({n}) took value {b} to {}", s.value()));
        }
        Ok(Op::Inc(n))
    }
    fn view(s: &GCounter) -> String {
        s.value().to_string()
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        Some(h.iter().map(|i| if let Op::Inc(n) = log[*i as usize].op { n } else { 0 }).sum::<u64>().to_string())
    }
}

struct PN;
impl Kind for PN {
    const NAME: &'static str = "pncounter";
    type S = PNCounter;
    fn new(r: u64) -> PNCounter {
        PNCounter::with_replica_id(r)
    }
    fn edit(s: &mut PNCounter, rng: &mut Rng, _: u32, _: &mut u64, _: bool) -> Result<Op, String> {
        let n = rng.below(1 << rng.clone().below(20)) as u64;
        Ok(if rng.bool() {
            s.increment(n);
            Op::Inc(n)
        } else {
            s.decrement(n);
            Op::Dec(n)
        })
    }
    fn view(s: &PNCounter) -> String {
        s.value().to_string()
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        Some(
            h.iter()
                .map(|i| match log[*i as usize].op {
                    Op::Inc(n) => n as i64,
                    Op::Dec(n) => -(n as i64),
                    _ => 0,
                })
                .sum::<i64>()
                .to_string(),
        )
    }
}

struct Lww;
impl Kind for Lww {
    const NAME: &'static str = "lww";
    type S = LWWRegister<u32>;
    fn new(_: u64) -> Self::S {
        LWWRegister::new(u32::MAX, 0)
    }
    fn edit(s: &mut Self::S, rng: &mut Rng, uid: u32, ts: &mut u64, _: bool) -> Result<Op, String> {
        // Globally distinct timestamps; a local write carries one above the local register's.
        *ts += 1 + rng.below(5) as u64;
        s.set(uid, *ts);
        Ok(Op::Write { ts: *ts })
    }
    fn view(s: &Self::S) -> String {
        s.get().to_string()
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        let best = h.iter().max_by_key(|i| if let Op::Write { ts } = log[**i as usize].op { ts } else { 0 });
        Some(best.map(|i| i.to_string()).unwrap_or(u32::MAX.to_string()))
    }
}

struct Mv;
impl Kind for Mv {
    const NAME: &'static str = "mvregister";
    type S = MVRegister<u32>;
    fn new(r: u64) -> Self::S {
        MVRegister::new(r)
    }
    fn edit(s: &mut Self::S, rng: &mut Rng, uid: u32, _: &mut u64, _: bool) -> Result<Op, String> {
        if rng.chance(1, 3) {
            s.resolve(uid)
        } else {
            s.set(uid)
        }
        Ok(Op::Write { ts: 0 })
    }
    fn view(s: &Self::S) -> String {
        let mut v: Vec<u32> = s.values().into_iter().copied().collect();
        v.sort();
        format!("{v:?}")
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        let v: Vec<u32> =
            h.iter().copied().filter(|i| !h.iter().any(|j| log[*j as usize].past.contains(i))).collect();
        Some(format!("{v:?}"))
    }
    fn check_extra(s: &Self::S) -> Result<(), String> {
        if s.has_conflict() != (s.values().len() > 1) {
            return Err("has_conflict disagrees with the number of values".into());
        }
        Ok(())
    }
}

/// The same register with few distinct values, so that concurrent writes often agree; judged
/// on which values are present.
struct MvSame;
impl Kind for MvSame {
    const NAME: &'static str = "mvregister_equal_writes";
    type S = MVRegister<u32>;
    fn new(r: u64) -> Self::S {
        MVRegister::new(r)
    }
    fn edit(s: &mut Self::S, rng: &mut Rng, _: u32, _: &mut u64, _: bool) -> Result<Op, String> {
        let v = rng.below(3) as u32;
        s.set(v);
        Ok(Op::Write { ts: v as u64 })
    }
    fn view(s: &Self::S) -> String {
        let v: BTreeSet<u64> = s.values().into_iter().map(|v| *v as u64).collect();
        format!("{v:?}")
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        let v: BTreeSet<u64> = h
            .iter()
            .filter(|i| !h.iter().any(|j| log[*j as usize].past.contains(i)))
            .map(|i| if let Op::Write { ts } = log[*i as usize].op { ts } else { 9 })
            .collect();
        Some(format!("{v:?}"))
    }
}

fn set_view<'a>(it: impl Iterator<Item = &'a u8>) -> String {
    let v: BTreeSet<u8> = it.copied().collect();
    format!("{v:?}")
}

struct OrAdd;
impl Kind for OrAdd {
    const NAME: &'static str = "orset_addwins";
    type S = ORSet<u8, AddWins>;
    fn new(r: u64) -> Self::S {
        ORSet::new(r)
    }
    fn edit(s: &mut Self::S, rng: &mut Rng, _: u32, _: &mut u64, grow: bool) -> Result<Op, String> {
        let e = rng.below(6) as u8;
        if grow || rng.chance(3, 5) {
            if rng.bool() {
                s.add(e)
            } else {
                s.insert(e)
            }
            if !s.contains(&e) {
                return Err(format!("add({e}) left the element absent"));
            }
            Ok(Op::Add(e))
        } else {
            s.remove(&e);
            if s.contains(&e) {
                return Err(format!("remove({e}) left the element present"));
            }
            Ok(Op::Rem(e))
        }
    }
    fn view(s: &Self::S) -> String {
        set_view(s.iter())
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        Some(add_wins(h, log))
    }
    fn check_extra(s: &Self::S) -> Result<(), String> {
        if s.len() != s.iter().count() || s.is_empty() != (s.len() == 0) || (0..6u8).any(|e| s.contains(&e) != s.iter().any(|x| *x == e)) {
            return Err("len/iter/contains disagree".into());
        }
        Ok(())
    }
}
fn add_wins(h: &Hist, log: &[OpRec]) -> String {
    let mut v = BTreeSet::new();
    for i in h {
        let e = match log[*i as usize].op {
            Op::Add(e) | Op::KeyInc(e, _) => e,
            _ => continue,
        };
        let killed = h.iter().any(|j| matches!(log[*j as usize].op, Op::Rem(x) | Op::KeyRem(x) if x == e) && log[*j as usize].past.contains(i));
        if !killed {
            v.insert(e);
        }
    }
    format!("{v:?}")
}

struct Om;
impl Kind for Om {
    const NAME: &'static str = "ormap";
    type S = ORMap<u8, PNCounter>;
    fn new(r: u64) -> Self::S {
        ORMap::new(r)
    }
    fn edit(s: &mut Self::S, rng: &mut Rng, _: u32, _: &mut u64, grow: bool) -> Result<Op, String> {
        let k = rng.below(4) as u8;
        if grow || rng.chance(3, 4) {
            let n = rng.below(9) as u64 + 1;
            let before = s.get_or_insert(k).value();
            s.get_mut(&k).ok_or("get_mut after insert is None")?.increment(n);
            let after = s.get(&k).ok_or("get after insert is None")?.value();
            if after != before + n as i64 {
                return Err(format!("entry {k} went {before} -> {after} on +{n}"));
            }
            Ok(Op::KeyInc(k, n))
        } else {
            s.remove(&k);
            if s.contains_key(&k) || s.get(&k).is_some() {
                return Err(format!("remove({k}) left the key present"));
            }
            Ok(Op::KeyRem(k))
        }
    }
    fn view(s: &Self::S) -> String {
        let m: BTreeMap<u8, i64> = s.iter().map(|(k, v)| (*k, v.value())).collect();
        format!("{m:?}")
    }
    fn expect(h: &Hist, log: &[OpRec]) -> Option<String> {
        let keys: String = add_wins(h, log);
        let mut m: BTreeMap<u8, i64> = BTreeMap::new();
        for i in h {
            if let Op::KeyInc(k, n) = log[*i as usize].op {
                *m.entry(k).or_default() += n as i64;
            }
        }
        m.retain(|k, _| keys.trim_matches(&['{', '}'][..]).split(", ").any(|x| x == k.to_string()));
        Some(format!("{m:?}"))
    }
    fn check_extra(s: &Self::S) -> Result<(), String> {
        if s.len() != s.keys().count() || s.iter().count() != s.len() || s.is_empty() != (s.len() == 0) {
            return Err("len/keys/iter disagree".into());
        }
        Ok(())
    }
}

macro_rules! seq_kind {
    ($k:ident, $t:ident, $name:expr) => {
        struct $k;
        impl Kind for $k {
            const NAME: &'static str = $name;
            type S = $t<u32>;
            fn new(r: u64) -> Self::S {
                $t::new(r)
            }
            fn edit(s: &mut Self::S, rng: &mut Rng, uid: u32, _: &mut u64, grow: bool) -> Result<Op, String> {
                let mut model = s.to_vec();
                let what;
                let op;
                let n = model.len();
                if n == 0 || rng.chance(1, 4) {
                    s.append(uid);
                    model.push(uid);
                    op = Op::Ins;
                    what = "append".to_string();
                } else {
                    match rng.below(if grow { 2 } else { 3 }) {
                        0 => {
                            let i = rng.below(n);
                            s.insert_before(i, uid);
                            model.insert(i, uid);
                            op = Op::Ins;
                            what = format!("insert_before({i})");
                        }
                        1 => {
                            let i = rng.below(n);
                            s.insert_after(i, uid);
                            model.insert(i + 1, uid);
                            op = Op::Ins;
                            what = format!("insert_after({i})");
                        }
                        _ => {
                            let i = rng.below(n);
                            let gone = model.remove(i);
                            s.remove(i);
                            op = Op::Del(gone);
                            what = format!("remove({i})");
                        }
                    }
                }
                if s.to_vec() != model {
                    return Err(format!("{what} gave {:?}, a list gives {:?}", s.to_vec(), model));
                }
                Ok(op)
            }
            fn view(s: &Self::S) -> String {
                format!("{:?}", s.to_vec())
            }
            fn expect(_: &Hist, _: &[OpRec]) -> Option<String> {
                None
            }
            fn seq(s: &Self::S) -> Option<Vec<u32>> {
                Some(s.to_vec())
            }
            fn check_extra(s: &Self::S) -> Result<(), String> {
                let v = s.to_vec();
                if s.len() != v.len() || s.iter().copied().collect::<Vec<_>>() != v || (0..v.len()).any(|i| s.get(i) != Some(&v[i])) || s.get(v.len()).is_some() {
                    return Err("len/iter/get/to_vec disagree".into());
                }
                Ok(())
            }
        }
    };
}
seq_kind!(Rg, RGA, "rga");
seq_kind!(Ya, YATA, "yata");

fn roundtrip<S: Serialize + DeserializeOwned>(s: &S) -> Result<S, String> {
    let b = bincode::serialize(s).map_err(|e| format!("serialize: {e}"))?;
    bincode::deserialize(&b).map_err(|e| format!("deserialize: {e}"))
}

struct Cluster<K: Kind> {
    st: Vec<K::S>,
    hist: Vec<Hist>,
    log: Vec<OpRec>,
    ts: u64,
    net: Vec<(K::S, Hist)>,
    trace: Vec<String>,
    order: HashMap<(u32, u32), bool>,
    del: BTreeSet<u32>,
}

impl<K: Kind> Cluster<K> {
    fn new(n: usize) -> Self {
        Cluster {
            st: (0..n).map(|i| K::new(i as u64 * 7 + 1)).collect(),
            hist: vec![Hist::new(); n],
            log: vec![],
            ts: 0,
            net: vec![],
            trace: vec![],
            order: HashMap::new(),
            del: BTreeSet::new(),
        }
    }
    fn edit(&mut self, r: usize, rng: &mut Rng, grow: bool) -> Result<(), String> {
        let uid = self.log.len() as u32;
        let op = K::edit(&mut self.st[r], rng, uid, &mut self.ts, grow)
            .map_err(|e| format!("local edit on replica {r}: {e}"))?;
        self.trace.push(format!("r{r}:{op:?}#{uid}"));
        self.log.push(OpRec { op, past: self.hist[r].clone() });
        self.hist[r].insert(uid);
        Ok(())
    }
    /// Judge replica `r`'s value against the causal model.
    fn judge(&mut self, r: usize, intent: bool) -> Result<(), (String, String)> {
        self.judge_state(&self.st[r].clone(), &self.hist[r].clone(), intent, &format!("replica {r}"))
    }
    fn judge_state(&mut self, s: &K::S, h: &Hist, intent: bool, who: &str) -> Result<(), (String, String)> {
        if intent {
            K::check_extra(s).map_err(|e| ("accessors".to_string(), format!("{who}: {e}")))?;
            if let Some(want) = K::expect(h, &self.log) {
                let got = K::view(s);
                if got != want {
                    return Err(("value".into(), format!("{who} holds {got}, its history means {want}")));
                }
            }
            if let Some(v) = K::seq(s) {
                let ins: BTreeSet<u32> = h.iter().copied().filter(|i| matches!(self.log[*i as usize].op, Op::Ins)).collect();
                let del: BTreeSet<u32> = h.iter().filter_map(|i| if let Op::Del(x) = self.log[*i as usize].op { Some(x) } else { None }).collect();
                let want: BTreeSet<u32> = ins.difference(&del).copied().collect();
                let got: BTreeSet<u32> = v.iter().copied().collect();
                if got != want || got.len() != v.len() {
                    return Err(("elements".into(), format!("{who} shows {v:?}, expected exactly {want:?}")));
                }
                for i in 0..v.len() {
                    for j in i + 1..v.len() {
                        let (a, b) = (v[i], v[j]);
                        let (key, val) = if a < b { ((a, b), true) } else { ((b, a), false) };
                        if let Some(old) = self.order.insert(key, val) {
                            if old != val {
                                return Err(("order".into(), format!("{who}: elements {} and {} changed relative order: {v:?}", key.0, key.1)));
                            }
                        }
                    }
                }
            }
        }
        let _ = &self.del;
        Ok(())
    }
}

fn history_case<K: Kind>(c: &mut Case, intent: bool, replicas: usize) {
    let n = if replicas == 0 { 2 + c.rng.below(K::MAX_REPLICAS - 1) } else { replicas };
    let steps = 6 + c.rng.below(44);
    let mut cl = Cluster::<K>::new(n);
    let mut merges = 0u64;
    let mut stale = 0u64;
    macro_rules! bad {
        ($sig:expr, $d:expr, $cl:expr) => {{
            c.fail_with(&format!("{}:{}", K::NAME, $sig), $d, json!({"trace": $cl.trace, "replicas": n}));
            return;
        }};
    }
    for _ in 0..steps {
        let r = c.rng.below(n);
        match c.rng.below(10) {
            0..=4 => {
                let mut rng = c.rng.clone();
                let e = cl.edit(r, &mut rng, false);
                c.rng = rng;
                if let Err(e) = e {
                    bad!("local-edit", e, cl);
                }
            }
            5 | 6 => {
                // publish a snapshot (possibly through the wire form)
                let s = if c.rng.bool() {
                    match roundtrip(&cl.st[r]) {
                        Ok(s) => s,
                        Err(e) => bad!("serde", e, cl),
                    }
                } else {
                    cl.st[r].clone()
                };
                if K::view(&s) != K::view(&cl.st[r]) {
                    bad!("serde", format!("value changed across serialization: {} -> {}", K::view(&cl.st[r]), K::view(&s)), cl);
                }
                cl.net.push((s, cl.hist[r].clone()));
                cl.trace.push(format!("r{r}:publish m{}", cl.net.len() - 1));
            }
            7 | 8 => {
                // deliver any message ever published: reordered, duplicated, late
                if cl.net.is_empty() {
                    continue;
                }
                let m = c.rng.below(cl.net.len());
                let (s, h) = cl.net[m].clone();
                let before = K::view(&cl.st[r]);
                let known = h.is_subset(&cl.hist[r]);
                cl.st[r].merge(&s);
                cl.hist[r].extend(h);
                cl.trace.push(format!("r{r}:recv m{m}"));
                merges += 1;
                if known {
                    stale += 1;
                    if K::view(&cl.st[r]) != before {
                        bad!("stale-merge", format!("replica {r}: merging an already-seen state changed {before} to {}", K::view(&cl.st[r])), cl);
                    }
                }
            }
            _ => {
                // direct pairwise sync
                let o = c.rng.below(n);
                if o == r {
                    let before = K::view(&cl.st[r]);
                    let me = cl.st[r].clone();
                    cl.st[r].merge(&me);
                    if K::view(&cl.st[r]) != before {
                        bad!("idempotence", format!("self-merge changed {before} to {}", K::view(&cl.st[r])), cl);
                    }
                } else {
                    let (s, h) = (cl.st[o].clone(), cl.hist[o].clone());
                    cl.st[r].merge(&s);
                    cl.hist[r].extend(h);
                    cl.trace.push(format!("r{r}:pull r{o}"));
                    merges += 1;
                }
            }
        }
        if let Err((s, d)) = cl.judge(r, intent) {
            bad!(s, d, cl);
        }
        // Any two replicas with the same history show the same value.
        for o in 0..n {
            if o != r && cl.hist[o] == cl.hist[r] && K::view(&cl.st[o]) != K::view(&cl.st[r]) {
                bad!("divergence", format!("replicas {r} and {o} saw the same updates but show {} and {}", K::view(&cl.st[r]), K::view(&cl.st[o])), cl);
            }
        }
    }
    c.eval();
    c.count("merges", merges);
    c.count("stale_or_duplicate_merges", stale);
    c.count("edits", cl.log.len() as u64);
    // Merge laws on the reached states.
    for _ in 0..4 {
        let (a, b, d) = (cl.st[c.rng.below(n)].clone(), cl.st[c.rng.below(n)].clone(), cl.st[c.rng.below(n)].clone());
        let m = |x: &K::S, y: &K::S| {
            let mut z = x.clone();
            z.merge(y);
            z
        };
        let (ab, ba) = (m(&a, &b), m(&b, &a));
        if K::view(&ab) != K::view(&ba) {
            bad!("commutativity", format!("a⊔b = {} but b⊔a = {}", K::view(&ab), K::view(&ba)), cl);
        }
        let (l, rr) = (m(&ab, &d), m(&a, &m(&b, &d)));
        if K::view(&l) != K::view(&rr) {
            bad!("associativity", format!("(a⊔b)⊔c = {} but a⊔(b⊔c) = {}", K::view(&l), K::view(&rr)), cl);
        }
        if K::view(&m(&ab, &b)) != K::view(&ab) || K::view(&m(&ab, &a)) != K::view(&ab) {
            bad!("idempotence", format!("re-merging a part of {} changed it", K::view(&ab)), cl);
        }
        c.count("merge_law_triples", 1);
    }
    // Heal: fold every replica into every other in a random order per replica.
    let finals: Vec<(K::S, Hist)> = cl.st.iter().cloned().zip(cl.hist.iter().cloned()).collect();
    let mut views = Vec::new();
    for r in 0..n {
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        let mut s = finals[r].0.clone();
        let mut h = finals[r].1.clone();
        for o in order {
            s.merge(&finals[o].0);
            h.extend(finals[o].1.iter());
        }
        if let Err((sig, d)) = cl.judge_state(&s, &h, intent, &format!("healed replica {r}")) {
            bad!(sig, d, cl);
        }
        views.push(K::view(&s));
    }
    if views.iter().any(|v| v != &views[0]) {
        bad!("divergence", format!("after everyone merged everyone: {views:?}"), cl);
    }
    let concurrent = cl.log.iter().enumerate().any(|(i, o)| {
        cl.log.iter().enumerate().take(i).any(|(j, _)| !o.past.contains(&(j as u32)) && !cl.log[j].past.contains(&(i as u32)))
    });
    if concurrent && merges > 0 {
        c.nontrivial(&(K::NAME, &cl.trace));
        c.seen("final values", &(K::NAME, &views[0]));
        c.count(&format!("concurrent_histories:{}", K::NAME), 1);
    }
    let trace = cl.trace.clone();
    c.sample(|| json!({"type": K::NAME, "replicas": n, "trace": trace, "final": views[0]}));
}

fn all_kinds(rep: &Report, intent: bool, n: u64) {
    rep.cases("gcounter", n, |c| history_case::<GC>(c, intent, 0));
    rep.cases("pncounter", n, |c| history_case::<PN>(c, intent, 0));
    rep.cases("lww", n, |c| history_case::<Lww>(c, intent, 0));
    rep.cases("mvregister", n, |c| history_case::<Mv>(c, intent, 0));
    rep.cases("mvregister_equal_writes", n, |c| history_case::<MvSame>(c, intent, 0));
    rep.cases("orset_addwins", n, |c| history_case::<OrAdd>(c, intent, 0));
    rep.cases("ormap", n, |c| history_case::<Om>(c, intent, 0));
    rep.cases("rga", n, |c| history_case::<Rg>(c, intent, 0));
    rep.cases("yata", n, |c| history_case::<Ya>(c, intent, 0));
    for k in ["gcounter", "pncounter", "lww", "mvregister", "orset_addwins", "ormap", "rga", "yata"] {
        rep.require(&format!("concurrent_histories:{k}"), 50);
    }
}

pub fn c01(rep: &Report) {
    rep.rule("random cluster histories (2-5 replicas; edits, snapshots published/serialized, delivered late, duplicated and out of order, pairwise pulls) on each replicated type; non-trivial = contains concurrent edits and at least one merge");
    let n = vkit::scale(40_000, 1_000_000);
    all_kinds(rep, false, n);
    rep.cases("removewins_sessions", n, removewins_sessions);
    rep.cases("removewins_three", 1, removewins_three);
}

/// Two remove-wins replicas that edit independently and then exchange states, repeatedly:
/// after each exchange they agree; an element both knew survives iff neither side ended up
/// without it, a new one iff some side ended up with it.
fn removewins_sessions(c: &mut Case) {
    let mut a: ORSet<u8, RemoveWins> = ORSet::new(1);
    let mut b: ORSet<u8, RemoveWins> = ORSet::new(2);
    let mut trace = vec![];
    let mut conflict = false;
    for round in 0..1 + c.rng.below(5) {
        let base: BTreeSet<u8> = a.iter().copied().collect();
        // Elements removed and re-added between two exchanges: only agreement is specified.
        let (mut removed, mut churned) = (BTreeSet::new(), BTreeSet::new());
        for _ in 0..c.rng.below(8) {
            let e = c.rng.below(4) as u8;
            let add = c.rng.chance(3, 5);
            let left = c.rng.bool();
            let s = if left { &mut a } else { &mut b };
            if add {
                s.add(e)
            } else {
                s.remove(&e);
                removed.insert(e);
            }
            if add && removed.contains(&e) {
                churned.insert(e);
            }
            trace.push(format!("{}{}{e}", if left { "A" } else { "B" }, if add { "+" } else { "-" }));
        }
        let (va, vb): (BTreeSet<u8>, BTreeSet<u8>) = (a.iter().copied().collect(), b.iter().copied().collect());
        conflict |= va != vb;
        let want: BTreeSet<u8> = (0..4u8)
            .filter(|e| if base.contains(e) { va.contains(e) && vb.contains(e) } else { va.contains(e) || vb.contains(e) })
            .collect();
        let (a0, b0) = (a.clone(), b.clone());
        a.merge(&b0);
        b.merge(&a0);
        trace.push("sync".into());
        let (ga, gb): (BTreeSet<u8>, BTreeSet<u8>) = (a.iter().copied().collect(), b.iter().copied().collect());
        if ga != gb || (0..4u8).any(|e| !churned.contains(&e) && ga.contains(&e) != want.contains(&e)) {
            c.fail_with("orset_removewins:session", format!("round {round}: A shows {ga:?}, B shows {gb:?}, expected {want:?}"), json!(trace));
            return;
        }
    }
    c.eval();
    if conflict {
        c.nontrivial(&trace);
        c.count("removewins_conflicts", 1);
    }
}

/// Fixed history: A removes what it saw, B re-adds it, C adds it knowing neither. Two
/// replicas that receive the same three states in different orders must agree.
fn removewins_three(c: &mut Case) {
    let mut a: ORSet<u8, RemoveWins> = ORSet::new(1);
    let mut b: ORSet<u8, RemoveWins> = ORSet::new(2);
    let mut d: ORSet<u8, RemoveWins> = ORSet::new(3);
    a.add(9);
    b.merge(&a);
    a.remove(&9);
    b.add(9);
    d.add(9);
    let mut x = a.clone();
    x.merge(&d);
    x.merge(&b);
    let mut y = b.clone();
    y.merge(&d);
    y.merge(&a);
    c.eval();
    if x.contains(&9) != y.contains(&9) {
        c.fail("orset_removewins:three-replica-divergence", format!("(A⊔C)⊔B contains={} but (B⊔C)⊔A contains={}", x.contains(&9), y.contains(&9)));
    }
}

pub fn c02(rep: &Report) {
    rep.rule("the same histories judged, after every step, against a causal-history model: counter conservation, max-timestamp write, set of maximal writes, add-wins membership, list-edit intent, element preservation and order stability; non-trivial = contains concurrent edits and at least one merge");
    all_kinds(rep, true, vkit::scale(40_000, 1_000_000));
    rep.cases("removewins_pair", vkit::scale(2000, 40_000), removewins_pair);
}

/// Two replicas that agreed on an element; one removes while the other re-adds: the removal wins.
fn removewins_pair(c: &mut Case) {
    let mut a: ORSet<u8, RemoveWins> = ORSet::new(1);
    let mut b: ORSet<u8, RemoveWins> = ORSet::new(2);
    for _ in 0..c.rng.below(4) {
        a.add(c.rng.below(4) as u8);
    }
    a.add(9);
    b.merge(&a);
    a.merge(&b);
    let before: BTreeSet<u8> = a.iter().copied().filter(|x| *x != 9).collect();
    a.remove(&9);
    for _ in 0..1 + c.rng.below(3) {
        b.add(9);
    }
    let (a0, b0) = (a.clone(), b.clone());
    a.merge(&b0);
    b.merge(&a0);
    c.eval();
    for (who, s) in [("remover", &a), ("adder", &b)] {
        if s.contains(&9) {
            c.fail("orset_removewins:bias", format!("{who}: concurrent remove did not win over add"));
        }
        let rest: BTreeSet<u8> = s.iter().copied().collect();
        if rest != before {
            c.fail("orset_removewins:bystander", format!("{who}: other elements changed {before:?} -> {rest:?}"));
        }
    }
    c.nontrivial(&(before.len(), c.idx % 64));
    c.count("removewins_conflicts", 1);
}

// ── C03: delta synchronisation ───────────────────────────────────────────────

trait DKind: Kind
where
    Self::S: DeltaCrdt,
{
}
impl DKind for PN {}
impl DKind for Mv {}
impl DKind for MvSame {}
impl DKind for OrAdd {}
impl DKind for Om {}
impl DKind for Rg {}
impl DKind for Ya {}

fn delta_case<K: DKind>(c: &mut Case)
where
    K::S: DeltaCrdt,
{
    let n = 2 + c.rng.below(4);
    let mut cl = Cluster::<K>::new(n);
    let mut applied = 0u64;
    let mut refused = 0u64;
    let mut kept: Vec<(<K::S as DeltaCrdt>::Delta, Hist, Hist)> = Vec::new(); // delta, base history, source history
    for _ in 0..10 + c.rng.below(50) {
        let r = c.rng.below(n);
        match c.rng.below(10) {
            0..=4 => {
                let mut rng = c.rng.clone();
                let e = cl.edit(r, &mut rng, true);
                c.rng = rng;
                if let Err(e) = e {
                    c.fail_with(&format!("{}:local-edit", K::NAME), e, json!(cl.trace));
                    return;
                }
            }
            5..=8 => {
                let o = c.rng.below(n);
                if o == r {
                    continue;
                }
                let base = cl.st[r].version();
                match cl.st[o].delta_since(&base) {
                    None => {
                        refused += 1;
                        if !cl.hist[o].is_subset(&cl.hist[r]) {
                            c.fail_with(&format!("{}:delta-withheld", K::NAME), format!("r{o} says r{r} is up to date but r{r} lacks updates {:?}", cl.hist[o].difference(&cl.hist[r]).collect::<Vec<_>>()), json!(cl.trace));
                            return;
                        }
                    }
                    Some(d) => {
                        let d = match roundtrip(&d) {
                            Ok(d) => d,
                            Err(e) => {
                                c.fail(&format!("{}:delta-serde", K::NAME), e);
                                return;
                            }
                        };
                        kept.push((d.clone(), cl.hist[r].clone(), cl.hist[o].clone()));
                        let mut full = cl.st[r].clone();
                        full.merge(&cl.st[o]);
                        cl.st[r].apply_delta(&d);
                        let once = K::view(&cl.st[r]);
                        if c.rng.bool() {
                            cl.st[r].apply_delta(&d);
                            if K::view(&cl.st[r]) != once {
                                c.fail_with(&format!("{}:delta-idempotence", K::NAME), format!("applying a delta twice changed {once} to {}", K::view(&cl.st[r])), json!(cl.trace));
                                return;
                            }
                        }
                        let oh = cl.hist[o].clone();
                        cl.hist[r].extend(oh);
                        cl.trace.push(format!("r{r}:delta from r{o}"));
                        applied += 1;
                        if once != K::view(&full) {
                            c.fail_with(&format!("{}:delta-vs-merge", K::NAME), format!("r{r} after delta from r{o} shows {once}, full merge shows {}", K::view(&full)), json!(cl.trace));
                            return;
                        }
                    }
                }
            }
            _ => {
                // a delta computed against an older base, delivered to a replica that already has that base
                if kept.is_empty() {
                    continue;
                }
                let (d, base, src) = kept[c.rng.below(kept.len())].clone();
                if base.is_subset(&cl.hist[r]) {
                    cl.st[r].apply_delta(&d);
                    cl.hist[r].extend(src);
                    cl.trace.push(format!("r{r}:late delta"));
                    applied += 1;
                }
            }
        }
        if let Err((s, d)) = cl.judge(r, true) {
            c.fail_with(&format!("{}:delta-{s}", K::NAME), d, json!(cl.trace));
            return;
        }
    }
    c.eval();
    c.count("deltas_applied", applied);
    c.count("deltas_not_needed", refused);
    if applied > 0 {
        c.nontrivial(&(K::NAME, &cl.trace));
        c.count(&format!("delta_histories:{}", K::NAME), 1);
    }
    let t = cl.trace.clone();
    c.sample(|| json!({"type": K::NAME, "trace": t}));
}

/// A bounded delta buffer either serves everything a peer lacks or refuses.
fn buffer_case(c: &mut Case) {
    let n = 2 + c.rng.below(3);
    let cap = 1 + c.rng.below(6);
    // One server replica accumulates updates (its own and peers'); each push is the delta of that step.
    let mut server = PNCounter::with_replica_id(100);
    let mut buf: DeltaBuffer<Vec<u32>> = DeltaBuffer::new(cap);
    let mut clocks: Vec<(VClock, Hist)> = vec![(VClock::new(), Hist::new())];
    let mut all = Hist::new();
    let mut peers: Vec<(VClock, Hist)> = (0..n).map(|_| (VClock::new(), Hist::new())).collect();
    let mut uid = 0u32;
    let mut ver = VClock::new();
    let mut trace = vec![];
    for _ in 0..5 + c.rng.below(30) {
        match c.rng.below(3) {
            0 => {
                // server-side update
                server.increment(1);
                ver.increment(100);
                all.insert(uid);
                buf.push(ver.clone(), vec![uid]);
                clocks.push((ver.clone(), all.clone()));
                trace.push(format!("push #{uid}"));
                uid += 1;
            }
            1 => {
                // a peer makes an update of its own (unknown to the server)
                let p = c.rng.below(n);
                peers[p].0.increment(p as u64);
                trace.push(format!("peer{p} local"));
            }
            _ => {
                let p = c.rng.below(n);
                let ans = buf.deltas_since(&peers[p].0);
                if ans.is_some() != buf.can_serve(&peers[p].0) {
                    c.fail("buffer:can_serve", "can_serve disagrees with deltas_since");
                    return;
                }
                match ans {
                    Some(ds) => {
                        let got: Hist = ds.into_iter().flatten().collect();
                        let mut have = peers[p].1.clone();
                        have.extend(got);
                        if have != all {
                            c.fail_with("buffer:incomplete-serve", format!("peer {p} asked at {:?}, was served, and still lacks {:?}", peers[p].0, all.difference(&have).collect::<Vec<_>>()), json!(trace));
                            return;
                        }
                        peers[p].1 = have;
                        c.count("buffer_served", 1);
                    }
                    None => {
                        peers[p].1 = all.clone(); // full state transfer
                        c.count("buffer_refused", 1);
                    }
                }
                let v = ver.clone();
                peers[p].0.merge(&v);
                trace.push(format!("peer{p} sync"));
            }
        }
        if buf.len() > cap {
            c.fail("buffer:overfull", format!("buffer of {cap} holds {}", buf.len()));
            return;
        }
    }
    c.eval();
    if uid as usize > cap {
        c.nontrivial(&trace);
        c.count("buffer_evicting_histories", 1);
    }
}

pub fn c03(rep: &Report) {
    rep.rule("grow-only cluster histories synchronised by deltas computed against the receiver's version, serialized, applied once or twice, late, and compared with a full-state merge and with the causal model; bounded delta buffers under eviction; non-trivial = at least one delta applied / eviction happened");
    let n = vkit::scale(30_000, 800_000);
    rep.cases("d_pncounter", n, delta_case::<PN>);
    rep.cases("d_mvregister", n, delta_case::<Mv>);
    rep.cases("d_mvregister_equal_writes", n, delta_case::<MvSame>);
    rep.cases("d_orset", n, delta_case::<OrAdd>);
    rep.cases("d_ormap", n, delta_case::<Om>);
    rep.cases("d_rga", n, delta_case::<Rg>);
    rep.cases("d_yata", n, delta_case::<Ya>);
    rep.cases("d_buffer", n, buffer_case);
    for k in ["pncounter", "mvregister", "orset_addwins", "ormap", "rga", "yata"] {
        rep.require(&format!("delta_histories:{k}"), 50);
    }
    rep.require("buffer_evicting_histories", 50);
}
