//! C09: relay pub/sub delivery, topic identity, shared-state merging, file chunking.
use futures::{SinkExt, StreamExt};
use logicaffeine_data::crdt::{GCounter, ORSet};
use logicaffeine_system::addr::{canonical_topic, multiaddr_to_ws_url};
use logicaffeine_system::crdt::Synced;
use logicaffeine_system::memory::Zone;
use logicaffeine_system::network::{gossip, FileSipper};
use logicaffeine_system::relay::{serve, RelayClient, RelayFrame};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::time::Duration;
use vkit::serde_json::json;
use vkit::{Case, Report, Rng};

fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}

/// Every message published while subscribed arrives exactly once, in its publisher's order,
/// at every other subscriber of that topic and nowhere else.
fn relay(c: &mut Case) {
    let nc = 2 + c.rng.below(5);
    let nt = 1 + c.rng.below(3);
    let per = 1 + c.rng.below(20);
    let seed = c.rng.u64();
    type Got = BTreeMap<usize, Vec<(String, String)>>;
    let r: Result<(Vec<Vec<bool>>, Vec<Vec<usize>>, Got), String> = rt().block_on(async move {
        let mut rng = Rng::new(seed);
        let server = serve("127.0.0.1:0").await.map_err(|e| format!("!{e}"))?;
        let mut clients = vec![];
        for _ in 0..nc {
            clients.push(RelayClient::connect(&server.url()).await.map_err(|e| format!("!{e}"))?);
        }
        // a misbehaving client: junk frames, then server-only frames, then it vanishes
        if rng.bool() {
            let (mut ws, _) = tokio_tungstenite::connect_async(server.url()).await.map_err(|e| format!("!{e}"))?;
            use tokio_tungstenite::tungstenite::Message;
            let junk = rng.bytes(20);
            let _ = ws.send(Message::Binary(junk)).await;
            let _ = ws.send(Message::Text("not a frame".into())).await;
            let _ = ws.send(Message::Binary(RelayFrame::Event { topic: "t0".into(), data: b"forged".to_vec() }.to_bytes())).await;
            let _ = ws.send(Message::Binary(RelayFrame::Subscribe { topic: "t0".into() }.to_bytes())).await;
            let _ = tokio::time::timeout(Duration::from_secs(2), ws.next()).await;
            drop(ws);
        }
        let mut subs = vec![vec![false; nt]; nc];
        for (i, cl) in clients.iter_mut().enumerate() {
            for t in 0..nt {
                if rng.chance(2, 3) {
                    for _ in 0..1 + rng.below(2) {
                        // subscribing twice must not double deliveries
                        tokio::time::timeout(Duration::from_secs(20), cl.subscribe(&format!("t{t}"))).await.map_err(|_| "subscribe was never acknowledged".to_string())?.map_err(|e| format!("!{e}"))?;
                    }
                    subs[i][t] = true;
                }
            }
        }
        // everyone also listens on a private end marker
        for cl in clients.iter_mut() {
            cl.subscribe("end").await.map_err(|e| format!("!{e}"))?;
        }
        let mut sent = vec![vec![0usize; nt]; nc];
        for _ in 0..per {
            for i in 0..nc {
                let t = rng.below(nt);
                let n = sent[i][t];
                sent[i][t] += 1;
                clients[i].publish(&format!("t{t}"), format!("{i}:{n}:{}", "p".repeat(rng.below(300))).into_bytes()).map_err(|e| format!("!{e}"))?;
            }
        }
        for cl in clients.iter() {
            cl.publish("end", b"end".to_vec()).map_err(|e| format!("!{e}"))?;
        }
        let mut got: Got = BTreeMap::new();
        for (i, cl) in clients.iter_mut().enumerate() {
            let mut ends = 0;
            while ends < nc - 1 {
                match tokio::time::timeout(Duration::from_secs(20), cl.next_event()).await {
                    Err(_) => return Err(format!("client {i} received {ends} of {} end markers and then nothing for 20 s", nc - 1)),
                    Ok(None) => return Err(format!("client {i} was disconnected")),
                    Ok(Some((t, d))) => {
                        if t == "end" {
                            ends += 1;
                        } else {
                            got.entry(i).or_default().push((t, String::from_utf8_lossy(&d).into_owned()));
                        }
                    }
                }
            }
        }
        let injected = server.inject("t0", b"injected").await;
        let want: usize = subs.iter().filter(|s| s[0]).count();
        if injected != want {
            return Err(format!("server-side delivery reached {injected} clients, {want} are subscribed"));
        }
        Ok((subs, sent, got))
    });
    let (subs, sent, got) = match r {
        Ok(x) => x,
        Err(e) if e.starts_with('!') => {
            c.inconclusive(&e);
            return;
        }
        Err(e) => {
            c.fail_with("relay:undelivered", e, json!({"seed": seed, "clients": nc}));
            return;
        }
    };
    c.eval();
    for i in 0..nc {
        let mut next = vec![vec![0usize; nt]; nc];
        for (topic, d) in got.get(&i).map(|v| &v[..]).unwrap_or(&[]) {
            let t: usize = topic[1..].parse().unwrap_or(99);
            let mut f = d.split(':');
            let (Some(p), Some(n)) = (f.next().and_then(|x| x.parse::<usize>().ok()), f.next().and_then(|x| x.parse::<usize>().ok())) else {
                c.fail("relay:forged", format!("client {i} received {d:?}, which nobody published"));
                return;
            };
            if t >= nt || !subs[i][t] {
                c.fail("relay:wrong-topic", format!("client {i} received topic {topic} without subscribing"));
                return;
            }
            if p == i {
                c.fail("relay:echo", format!("client {i} received its own message"));
                return;
            }
            if next[p][t] != n {
                c.fail("relay:order", format!("client {i} received message {n} of publisher {p}, expected {}", next[p][t]));
                return;
            }
            next[p][t] += 1;
            c.count("deliveries", 1);
        }
        for p in 0..nc {
            for t in 0..nt {
                let want = if p != i && subs[i][t] { sent[p][t] } else { 0 };
                if next[p][t] != want {
                    c.fail("relay:lost", format!("client {i} received {} of {want} messages from {p} on t{t}", next[p][t]));
                    return;
                }
            }
        }
    }
    c.nontrivial(&seed);
}

/// After unsubscribing or disconnecting, nothing more is delivered to that connection, and the
/// others are unaffected.
fn unsubscribe(c: &mut Case) {
    let n1 = c.rng.below(6);
    let n2 = 1 + c.rng.below(6);
    let r: Result<(usize, usize, usize), String> = rt().block_on(async move {
        use tokio_tungstenite::tungstenite::Message;
        let server = serve("127.0.0.1:0").await.map_err(|e| format!("!{e}"))?;
        let mut stay = RelayClient::connect(&server.url()).await.map_err(|e| format!("!{e}"))?;
        stay.subscribe("x").await.map_err(|e| format!("!{e}"))?;
        let p = RelayClient::connect(&server.url()).await.map_err(|e| format!("!{e}"))?;
        let (mut ws, _) = tokio_tungstenite::connect_async(server.url()).await.map_err(|e| format!("!{e}"))?;
        let frame = |f: RelayFrame| Message::Binary(f.to_bytes());
        let mut events = 0;
        for t in ["x", "sync"] {
            ws.send(frame(RelayFrame::Subscribe { topic: t.into() })).await.map_err(|e| format!("!{e}"))?;
        }
        let mut acks = 0;
        while acks < 2 {
            match tokio::time::timeout(Duration::from_secs(20), ws.next()).await {
                Ok(Some(Ok(Message::Binary(b)))) => match RelayFrame::from_bytes(&b) {
                    Some(RelayFrame::SubAck { .. }) => acks += 1,
                    _ => return Err("something other than an acknowledgement arrived".into()),
                },
                _ => return Err("no acknowledgement".into()),
            }
        }
        for k in 0..n1 {
            p.publish("x", vec![k as u8]).map_err(|e| format!("!{e}"))?;
        }
        p.publish("sync", vec![1]).map_err(|e| format!("!{e}"))?;
        loop {
            match tokio::time::timeout(Duration::from_secs(20), ws.next()).await {
                Ok(Some(Ok(Message::Binary(b)))) => match RelayFrame::from_bytes(&b) {
                    Some(RelayFrame::Event { topic, .. }) if topic == "sync" => break,
                    Some(RelayFrame::Event { .. }) => events += 1,
                    _ => {}
                },
                _ => return Err("a published message never arrived".into()),
            }
        }
        ws.send(frame(RelayFrame::Unsubscribe { topic: "x".into() })).await.map_err(|e| format!("!{e}"))?;
        // a second acknowledged subscription proves the unsubscribe was processed
        ws.send(frame(RelayFrame::Subscribe { topic: "fence".into() })).await.map_err(|e| format!("!{e}"))?;
        let mut late = 0;
        let mut fenced = false;
        loop {
            match tokio::time::timeout(Duration::from_secs(20), ws.next()).await {
                Ok(Some(Ok(Message::Binary(b)))) => match RelayFrame::from_bytes(&b) {
                    Some(RelayFrame::SubAck { topic }) if topic == "fence" => {
                        fenced = true;
                        for k in 0..n2 {
                            p.publish("x", vec![k as u8]).map_err(|e| format!("!{e}"))?;
                        }
                        p.publish("sync", vec![2]).map_err(|e| format!("!{e}"))?;
                    }
                    Some(RelayFrame::Event { topic, .. }) if topic == "sync" && fenced => break,
                    Some(RelayFrame::Event { topic, .. }) if topic == "x" && fenced => late += 1,
                    _ => {}
                },
                _ => return Err("a published message never arrived".into()),
            }
        }
        let mut stayed = 0;
        while stayed < n1 + n2 {
            match tokio::time::timeout(Duration::from_secs(20), stay.next_event()).await {
                Ok(Some(_)) => stayed += 1,
                _ => break,
            }
        }
        Ok((events, late, stayed))
    });
    match r {
        Err(e) if e.starts_with('!') => c.inconclusive(&e),
        Err(e) => c.fail("relay:undelivered", e),
        Ok((events, late, stayed)) => {
            c.eval();
            if late > 0 {
                c.fail("relay:after-unsubscribe", format!("{late} messages arrived after unsubscribing"));
            }
            if events != n1 || stayed != n1 + n2 {
                c.fail("relay:lost", format!("{events} of {n1} before unsubscribing, {stayed} of {} at the other subscriber", n1 + n2));
            }
            c.nontrivial(&(n1, n2));
        }
    }
}

/// Two spellings of one address name one peer; distinct addresses do not collide.
fn addresses(c: &mut Case) {
    let host = match c.rng.below(3) {
        0 => ("ip4", format!("{}.{}.{}.{}", c.rng.u8(), c.rng.u8(), c.rng.u8(), c.rng.u8())),
        1 => ("dns4", format!("h{}.example", c.rng.below(100))),
        _ => ("ip6", format!("fe80::{:x}", c.rng.below(65536))),
    };
    let port = c.rng.below(65536);
    let (suffix, scheme) = [("", "ws"), ("/ws", "ws"), ("/wss", "wss"), ("/tls/ws", "ws"), ("/p2p/QmX", "ws"), ("/wss/p2p/QmX", "wss")][c.rng.below(6)];
    let multi = format!("/{}/{}/tcp/{port}{suffix}", host.0, host.1);
    let want = if host.0 == "ip6" { format!("{scheme}://[{}]:{port}", host.1) } else { format!("{scheme}://{}:{port}", host.1) };
    c.eval();
    // "/tls/ws" leaves the scheme to the last transport named; only check it maps somewhere sane
    let got = multiaddr_to_ws_url(&multi);
    if suffix != "/tls/ws" && got.as_deref() != Ok(&want[..]) {
        c.fail("addr:url", format!("{multi} maps to {got:?}, expected {want}"));
    }
    if suffix != "/tls/ws" && canonical_topic(&multi) != canonical_topic(&format!("  {want} ")) {
        c.fail("addr:topic", format!("{multi} and {want} name different peers"));
    }
    if canonical_topic(&canonical_topic(&multi)) != canonical_topic(&multi) {
        c.fail("addr:idempotent", format!("naming {multi} twice changes the name"));
    }
    // malformed addresses are errors, never panics or silent success
    for bad in ["", "/", "/ip4", "/ip4/", "/ip4/1.2.3.4", "/tcp/80", "/ip4/1.2.3.4/tcp/", "/ip4/1.2.3.4/tcp/99999", "/ip4/1.2.3.4/udp/80", "http://x", "/ip6//tcp/1"] {
        if let Ok(u) = multiaddr_to_ws_url(bad) {
            c.fail("addr:accepted", format!("{bad:?} was accepted as {u}"));
        }
    }
    c.nontrivial(&multi);
}

/// States received for a shared value are merged (never replace, never lost), whatever the
/// order, duplication and junk between them.
fn synced(c: &mut Case) {
    let topic = format!("s{}-{}", std::process::id(), c.rng.u64());
    let seed = c.rng.u64();
    let r = rt().block_on(async move {
        let mut rng = Rng::new(seed);
        let s = Synced::new(ORSet::<u64>::new(rng.u64() | 1), &topic).await;
        let cnt_topic = format!("{topic}-c");
        let cnt = Synced::new(GCounter::with_replica_id(7), &cnt_topic).await;
        let mut peers: Vec<ORSet<u64>> = (0..3).map(|_| ORSet::new(rng.u64() | 1)).collect();
        let mut pc: Vec<GCounter> = (0..3).map(|i| GCounter::with_replica_id(100 + i)).collect();
        let mut want = std::collections::BTreeSet::new();
        let mut total = 0u64;
        let mut msgs: Vec<(bool, Vec<u8>)> = vec![];
        for k in 0..4 + rng.below(10) as u64 {
            let p = rng.below(3);
            peers[p].add(k);
            want.insert(k);
            msgs.push((false, bincode::serialize(&peers[p]).unwrap()));
            pc[p].increment(k);
            total += k;
            msgs.push((true, bincode::serialize(&pc[p]).unwrap()));
            if rng.chance(1, 3) {
                let m = rng.pick(&msgs).clone();
                msgs.push(m);
            }
            if rng.chance(1, 3) {
                let junk = rng.bytes(7);
                msgs.push((rng.bool(), junk));
            }
        }
        rng.shuffle(&mut msgs);
        for (i, (which, m)) in msgs.into_iter().enumerate() {
            gossip::on_message(if which { &cnt_topic } else { &topic }, m).await;
            if i % 3 == 0 {
                s.mutate(|x| x.add(1000 + i as u64)).await;
                want.insert(1000 + i as u64);
                cnt.mutate(|x| x.increment(1)).await;
                total += 1;
            }
        }
        let mut ok = (false, false);
        let mut seen = (Default::default(), 0);
        for _ in 0..3000 {
            let v: std::collections::BTreeSet<u64> = s.get().await.iter().copied().collect();
            let n = cnt.get().await.value();
            ok = (v == want, n == total);
            seen = (v, n);
            if ok == (true, true) {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        gossip::unsubscribe(&topic).await;
        gossip::unsubscribe(&cnt_topic).await;
        (ok, seen, want, total)
    });
    c.eval();
    let (ok, seen, want, total) = r;
    if !ok.0 {
        c.fail_with("sync:set", format!("merged to {:?}, expected {want:?}", seen.0), json!({"seed": seed}));
    }
    if !ok.1 {
        c.fail_with("sync:counter", format!("merged to {}, expected {total}", seen.1), json!({"seed": seed}));
    }
    c.nontrivial(&seed);
}

/// Chunks of a file, in any order and fetched any number of times, reassemble to it exactly
/// and match the manifest's hashes.
fn chunks(c: &mut Case) {
    let dir = std::path::PathBuf::from(std::env::var("VK_SCRATCH").unwrap_or("/tmp".into()));
    let p = dir.join(format!("chunk{}-{:x}", std::process::id(), c.rng.u64()));
    let cs = match c.rng.below(3) {
        0 => 1 + c.rng.below(8),
        1 => 1 + c.rng.below(5000),
        _ => 4096,
    };
    let n = match c.rng.below(4) {
        0 => cs * (1 + c.rng.below(6)),
        1 => cs * (1 + c.rng.below(6)) + 1,
        2 => 1,
        _ => 1 + c.rng.below(30_000),
    };
    let n = n.min(cs * 3000);
    let data = c.rng.bytes(n);
    std::fs::write(&p, &data).unwrap();
    let zone = Zone::new_mapped(&p).unwrap();
    let s = FileSipper::with_chunk_size(&zone, cs);
    let m = s.manifest();
    c.eval();
    let mut order: Vec<usize> = (0..m.chunk_count).collect();
    c.rng.shuffle(&mut order);
    let mut parts: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for i in order {
        let ch = s.get_chunk_with_hash(i);
        let h: [u8; 32] = Sha256::digest(&ch.data).into();
        if ch.hash != h || m.chunk_hashes.get(i) != Some(&h) || s.get_chunk(i) != &ch.data[..] {
            c.fail("chunk:hash", format!("chunk {i} of {} does not match its hash", m.chunk_count));
            break;
        }
        parts.insert(ch.index, ch.data);
    }
    let whole: Vec<u8> = parts.into_values().flatten().collect();
    if whole != data || m.total_size != n as u64 || m.chunk_hashes.len() != m.chunk_count || !s.get_chunk(m.chunk_count).is_empty() {
        c.fail("chunk:reassembly", format!("{n} bytes in chunks of {cs}: reassembled {} bytes, manifest says {}", whole.len(), m.total_size));
    }
    c.count("chunks", m.chunk_count as u64);
    c.nontrivial(&(n, cs));
    drop(zone);
    let _ = std::fs::remove_file(&p);
}

pub fn c09(rep: &Report) {
    rep.rule("live relay servers with several clients publishing uniquely numbered messages, address spellings, shared values fed shuffled/duplicated/junk states, and chunked files; non-trivial = distinct scenario");
    rep.cases_with("relay", vkit::scale(120, 2000), 4, 300.0, relay);
    rep.cases_with("unsubscribe", vkit::scale(30, 300), 4, 300.0, unsubscribe);
    rep.cases("addresses", vkit::scale(3000, 50_000), addresses);
    rep.cases_with("synced", vkit::scale(60, 600), 4, 120.0, synced);
    rep.cases("chunks", vkit::scale(600, 10_000), chunks);
    rep.require("deliveries", 2000);
    rep.require("chunks", 1000);
}
