//! C10: the cryptographic kernels against independent implementations, and tamper rejection.
use chacha20::cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};
use chacha20poly1305::aead::{Aead, KeyInit, Payload};
use logicaffeine_base::{Word16, Word8};
use logicaffeine_system::{aead, keccak, mldsa, mlkem, ntt};
use ml_dsa::KeyGen;
use ml_kem::kem::Decapsulate;
use ml_kem::{EncapsulateDeterministic, EncodedSizeUser, KemCore, MlKem768};
use sha3::digest::{ExtendableOutput, Update, XofReader};
use sha3::Digest;
use vkit::serde_json::json;
use vkit::{Case, Report};

fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}
fn eq(c: &mut Case, sig: &str, what: impl FnOnce() -> String, got: &[u8], want: &[u8]) {
    c.count("outputs_compared", 1);
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        c.fail(sig, format!("{}: differs from the reference at byte {at} (lengths {} and {})", what(), got.len(), want.len()));
    }
}
fn eq_i(c: &mut Case, sig: &str, what: &str, got: &[i64], want: &[i64]) {
    c.count("outputs_compared", 1);
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        c.fail(sig, format!("{what}: differs from the reference at {at}: {:?} and {:?}", got.get(at), want.get(at)));
    }
}
fn arr<const N: usize>(c: &mut Case) -> [u8; N] {
    // extremes as well as uniform bytes
    match c.rng.below(8) {
        0 => [0; N],
        1 => [0xff; N],
        _ => std::array::from_fn(|_| c.rng.u8()),
    }
}

fn hashes(c: &mut Case) {
    let n = match c.rng.below(4) {
        0 => c.rng.below(20),
        // around the block sizes of each mode
        1 => [72usize, 136, 144, 168][c.rng.below(4)] * (1 + c.rng.below(4)) + c.rng.below(5) - 2,
        _ => c.rng.below(1200),
    };
    let m = c.rng.bytes(n);
    let outlen = match c.rng.below(3) {
        0 => c.rng.below(8),
        1 => [136, 168][c.rng.below(2)] * (1 + c.rng.below(3)) + c.rng.below(3) - 1,
        _ => c.rng.below(900),
    };
    c.eval();
    eq(c, "sha3-256", || format!("{n} bytes"), &keccak::sha3_256_bytes(&m), &sha3::Sha3_256::digest(&m));
    eq(c, "sha3-512", || format!("{n} bytes"), &keccak::sha3_512_bytes(&m), &sha3::Sha3_512::digest(&m));
    let mut want = vec![0; outlen];
    let mut h = sha3::Shake128::default();
    h.update(&m);
    h.finalize_xof().read(&mut want);
    eq(c, "shake128", || format!("{n} bytes, {outlen} out"), &keccak::shake128_bytes(&m, outlen), &want);
    let mut h = sha3::Shake256::default();
    h.update(&m);
    h.finalize_xof().read(&mut want);
    eq(c, "shake256", || format!("{n} bytes, {outlen} out"), &keccak::shake256_bytes(&m, outlen), &want);
    // the forms the language calls
    let mi = ints(&m);
    eq_i(c, "sha3-256:seq", "sequence form", &keccak::sha3_256(&mi).to_vec(), &ints(&sha3::Sha3_256::digest(&m)));
    let m8: Vec<Word8> = m.iter().map(|b| Word8(*b)).collect();
    let got: Vec<u8> = ntt::sha3_512_w8_seq(&m8).to_vec().iter().map(|w| w.0).collect();
    eq(c, "sha3-512:w8", || "byte-word form".into(), &got, &sha3::Sha3_512::digest(&m));
    let got: Vec<u8> = ntt::shake256_w8_seq(&m8, outlen as i64).to_vec().iter().map(|w| w.0).collect();
    eq(c, "shake256:w8", || "byte-word form".into(), &got, &want);
    c.nontrivial(&(n, outlen));
}

fn seal(c: &mut Case) {
    let key: [u8; 32] = arr(c);
    let nonce: [u8; 12] = arr(c);
    let n = match c.rng.below(4) {
        0 => c.rng.below(20),
        1 => 64 * c.rng.below(12) + c.rng.below(5),
        2 => 256 + c.rng.below(600),
        _ => c.rng.below(5000),
    };
    let pt = c.rng.bytes(n);
    let alen = c.rng.below(70);
    let aad = c.rng.bytes(alen);
    c.eval();
    let ct = aead::chacha20poly1305_seal(&key, &nonce, &aad, &pt);
    let o = chacha20poly1305::ChaCha20Poly1305::new(&key.into());
    let want = o.encrypt(&nonce.into(), Payload { msg: &pt, aad: &aad }).unwrap();
    eq(c, "aead:seal", || format!("{n} bytes, {alen} associated"), &ct, &want);
    if aead::chacha20poly1305_open(&key, &nonce, &aad, &ct).as_deref() != Some(&pt[..]) {
        c.fail("aead:open", format!("{n} bytes do not open to what was sealed"));
    }
    // every change of one bit anywhere, of the associated data, key, nonce or length is refused
    for _ in 0..12 {
        let (mut k, mut no, mut a, mut s) = (key, nonce, aad.clone(), ct.clone());
        let what = match c.rng.below(7) {
            0 => {
                let i = c.rng.below(32);
                k[i] ^= 1 << c.rng.below(8);
                "key"
            }
            1 => {
                let i = c.rng.below(12);
                no[i] ^= 1 << c.rng.below(8);
                "nonce"
            }
            2 => {
                if a.is_empty() {
                    a.push(0);
                } else {
                    let i = c.rng.below(a.len());
                    a[i] ^= 1 << c.rng.below(8);
                }
                "associated data"
            }
            3 => {
                a.push(0);
                "associated data length"
            }
            4 => {
                let i = c.rng.below(s.len() + 1);
                s.truncate(i);
                if s.len() == ct.len() {
                    s.push(0);
                }
                "sealed length"
            }
            5 => {
                // the tag, including its highest bits
                let l = s.len();
                s[l - 1 - c.rng.below(16)] ^= 1 << c.rng.below(8);
                "tag"
            }
            _ => {
                let i = c.rng.below(s.len());
                s[i] ^= 1 << c.rng.below(8);
                "sealed bytes"
            }
        };
        c.count("tampered_messages", 1);
        let r = c.sut("opening a tampered message", || aead::chacha20poly1305_open(&k, &no, &a, &s));
        if let Some(Some(_)) = r {
            c.fail_with("aead:accepts-tampered", format!("a message with changed {what} opened"), json!({"what": what}));
        }
    }
    // cipher alone from any counter, authenticator alone
    let ctr = match c.rng.below(3) {
        0 => c.rng.below(5) as u32,
        1 => c.rng.u32() >> 1,
        _ => c.rng.u32() % 1_000_000,
    };
    let mut buf = pt.clone();
    let mut ch = chacha20::ChaCha20::new(&key.into(), &nonce.into());
    if ch.try_seek(ctr as u64 * 64).is_ok() {
        ch.apply_keystream(&mut buf);
        eq(c, "chacha20", || format!("counter {ctr}, {n} bytes"), &aead::chacha20_xor(&key, &nonce, ctr, &pt), &buf);
    }
    let p = {
        use poly1305::universal_hash::KeyInit;
        poly1305::Poly1305::new(&key.into()).compute_unpadded(&pt)
    };
    eq(c, "poly1305", || format!("{n} bytes"), &aead::poly1305(&key, &pt), &p);
    // messages that drive the accumulator to the edge of the field
    let hot = vec![0xffu8; 16 * (1 + c.rng.below(40))];
    let p = {
        use poly1305::universal_hash::KeyInit;
        poly1305::Poly1305::new(&key.into()).compute_unpadded(&hot)
    };
    eq(c, "poly1305", || format!("{} bytes of ff", hot.len()), &aead::poly1305(&key, &hot), &p);
    c.nontrivial(&ct);
}

fn kem(c: &mut Case) {
    let (d, z, m): ([u8; 32], [u8; 32], [u8; 32]) = (arr(c), arr(c), arr(c));
    let (ek, dk) = mlkem::keygen(&d, &z);
    let (odk, oek) = MlKem768::generate_deterministic(&d.into(), &z.into());
    c.eval();
    eq(c, "mlkem:ek", || "encapsulation key".into(), &ek, &oek.as_bytes());
    eq(c, "mlkem:dk", || "decapsulation key".into(), &dk, &odk.as_bytes());
    let (ct, ss) = mlkem::encaps(&ek, &m);
    let (oct, oss) = oek.encapsulate_deterministic(&m.into()).unwrap();
    eq(c, "mlkem:ciphertext", || "ciphertext".into(), &ct, &oct);
    eq(c, "mlkem:secret", || "shared secret".into(), &ss, &oss);
    eq(c, "mlkem:decaps", || "recovered secret".into(), &mlkem::decaps(&dk, &ct), &oss);
    for _ in 0..4 {
        let mut bad = ct.clone();
        for _ in 0..1 + c.rng.below(3) {
            let i = c.rng.below(bad.len());
            bad[i] ^= 1 << c.rng.below(8);
        }
        if c.rng.chance(1, 8) {
            bad = c.rng.bytes(ct.len());
        }
        c.count("tampered_messages", 1);
        let got = mlkem::decaps(&dk, &bad);
        let arr = ml_kem::Ciphertext::<MlKem768>::try_from(bad.as_slice()).unwrap();
        let want = odk.decapsulate(&arr).unwrap();
        eq(c, "mlkem:reject", || "secret from a changed ciphertext".into(), &got, &want);
        if bad != ct && got == ss {
            c.fail("mlkem:accepts-tampered", "a changed ciphertext yields the real secret");
        }
    }
    // sequence wrappers carry the same bytes
    let kp = mlkem::mlkem_keypair_seq(&ints(&d), &ints(&z)).to_vec();
    eq_i(c, "mlkem:keypair-seq", "key pair", &kp, &[ints(&ek), ints(&dk)].concat());
    eq_i(c, "mlkem:decaps-seq", "recovered secret", &mlkem::mlkem_decaps_seq(&ints(&dk), &ints(&ct)).to_vec(), &ints(&ss));
    c.nontrivial(&ek);
}

fn dsa(c: &mut Case) {
    let seed: [u8; 32] = arr(c);
    let n = match c.rng.below(3) {
        0 => c.rng.below(4),
        _ => c.rng.below(400),
    };
    let m = c.rng.bytes(n);
    let cl = match c.rng.below(4) {
        0 => 0,
        1 => 255,
        _ => c.rng.below(255),
    };
    let ctx = c.rng.bytes(cl);
    let (pk, sk) = mldsa::keygen(&seed);
    let kp = ml_dsa::MlDsa65::key_gen_internal(&seed.into());
    c.eval();
    eq(c, "mldsa:pk", || "public key".into(), &pk, kp.verifying_key().encode().as_slice());
    eq(c, "mldsa:sk", || "secret key".into(), &sk, kp.signing_key().encode().as_slice());
    let sig = mldsa::sign(&sk, &m, &ctx);
    let osig = kp.signing_key().sign_deterministic(&m, &ctx).unwrap();
    eq(c, "mldsa:signature", || format!("{n} bytes, {cl} context"), &sig, osig.encode().as_slice());
    if !mldsa::verify(&pk, &m, &ctx, &sig) {
        c.fail("mldsa:rejects-genuine", "a fresh signature does not verify");
    }
    for _ in 0..10 {
        let (mut p2, mut m2, mut c2, mut s2) = (pk.clone(), m.clone(), ctx.clone(), sig.clone());
        let what = match c.rng.below(8) {
            0 => {
                let i = c.rng.below(p2.len());
                p2[i] ^= 1 << c.rng.below(8);
                "public key"
            }
            1 => {
                m2.push(0);
                "message"
            }
            2 => {
                c2.push(0);
                if c2.len() > 255 {
                    c2.truncate(10);
                }
                "context"
            }
            3 => {
                // the hint section, where a signature could have a second encoding
                let l = s2.len();
                let i = l - 1 - c.rng.below(61);
                s2[i] ^= 1 << c.rng.below(8);
                "hint"
            }
            4 => {
                // re-ordering the hint positions, or using its padding
                let l = s2.len();
                let off = l - 61;
                let (a, b) = (off + c.rng.below(55), off + c.rng.below(55));
                s2.swap(a, b);
                if s2 == sig {
                    s2[off + 54] ^= 0x40;
                }
                "hint order"
            }
            5 => {
                s2.truncate(s2.len() - 1);
                "length"
            }
            6 => {
                // move a byte between context and message: same concatenation
                if c2.is_empty() {
                    if m2.is_empty() {
                        m2.push(1);
                    } else {
                        c2.push(m2.remove(0));
                    }
                } else {
                    m2.insert(0, c2.pop().unwrap());
                }
                "context boundary"
            }
            _ => {
                let i = c.rng.below(s2.len());
                s2[i] ^= 1 << c.rng.below(8);
                "signature"
            }
        };
        c.count("tampered_messages", 1);
        let got = c.sut("verifying a tampered signature", || mldsa::verify(&p2, &m2, &c2, &s2));
        if got == Some(true) {
            c.fail_with("mldsa:accepts-tampered", format!("a signature with changed {what} verifies"), json!({"what": what}));
        }
    }
    c.nontrivial(&sig);
}

const Q: i64 = 3329;
fn schoolbook(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut r = vec![0i64; 256];
    for i in 0..256 {
        for j in 0..256 {
            let p = a[i] * b[j] % Q;
            if i + j < 256 {
                r[i + j] += p;
            } else {
                r[i + j - 256] -= p;
            }
        }
    }
    r.into_iter().map(|x| x.rem_euclid(Q)).collect()
}

fn polys(c: &mut Case) {
    let gen = |c: &mut Case| -> Vec<i64> {
        let k = c.rng.below(4);
        (0..256)
            .map(|i| match k {
                0 => [0, 1, Q - 1, Q / 2, Q / 2 + 1][c.rng.below(5)],
                1 => Q - 1,
                2 => (i == 3) as i64 * (Q - 1),
                _ => c.rng.below(Q as usize) as i64,
            })
            .collect()
    };
    let (a, b) = (gen(c), gen(c));
    c.eval();
    let (na, nb) = (ntt::mlkem_ntt(&a).to_vec(), ntt::mlkem_ntt(&b).to_vec());
    let prod = ntt::mlkem_inv_ntt(&ntt::mlkem_base_mul(&na, &nb).to_vec()).to_vec();
    eq_i(c, "ntt:product", "polynomial product", &prod, &schoolbook(&a, &b));
    let w = |v: &[i64]| v.iter().map(|x| Word16(*x as u16)).collect::<Vec<_>>();
    let u = |v: &[Word16]| v.iter().map(|x| x.0 as i64).collect::<Vec<_>>();
    let (wa, wb) = (w(&a), w(&b));
    let nwa = ntt::mlkem_ntt_w16(&wa);
    eq_i(c, "ntt:w16", "narrow transform", &u(&nwa).iter().map(|x| x % Q).collect::<Vec<_>>(), &na);
    let pw = ntt::mlkem_inv_ntt_w16(&ntt::mlkem_base_mul_w16(&nwa, &ntt::mlkem_ntt_w16(&wb)));
    eq_i(c, "ntt:w16-product", "narrow polynomial product", &u(&pw).iter().map(|x| x % Q).collect::<Vec<_>>(), &schoolbook(&a, &b));
    eq_i(c, "ntt:add", "modular sum", &u(&ntt::mlkem_add_mod_q_w16(&wa, &wb).to_vec()), &a.iter().zip(&b).map(|(x, y)| (x + y) % Q).collect::<Vec<_>>());
    eq_i(c, "ntt:sub", "modular difference", &u(&ntt::mlkem_sub_mod_q_w16(&wa, &wb).to_vec()), &a.iter().zip(&b).map(|(x, y)| (x - y).rem_euclid(Q)).collect::<Vec<_>>());
    // rounding and packing, from their definitions
    let d = [1usize, 4, 5, 10, 11][c.rng.below(5)];
    let comp: Vec<i64> = a.iter().map(|x| ((x * (1 << d) * 2 + Q) / (2 * Q)) % (1 << d)).collect();
    eq_i(c, "compress", &format!("compress to {d} bits"), &ntt::mlkem_compress(&a, d as i64).to_vec(), &comp);
    eq_i(c, "compress:w16", &format!("compress to {d} bits"), &u(&ntt::mlkem_compress_w16(&wa, d)), &comp);
    let dec: Vec<i64> = comp.iter().map(|y| (y * Q * 2 + (1 << d)) / (2 << d)).collect();
    eq_i(c, "decompress", &format!("decompress from {d} bits"), &ntt::mlkem_decompress(&comp, d as i64).to_vec(), &dec);
    eq_i(c, "decompress:w16", &format!("decompress from {d} bits"), &u(&ntt::mlkem_decompress_w16(&w(&comp), d)), &dec);
    for (vals, d) in [(&comp, d), (&a, 12)] {
        let mut bits = vec![0u8; 32 * d];
        for (i, v) in vals.iter().enumerate() {
            for k in 0..d {
                if v >> k & 1 == 1 {
                    bits[(i * d + k) / 8] |= 1 << ((i * d + k) % 8);
                }
            }
        }
        eq_i(c, "pack", &format!("{d}-bit packing"), &ntt::mlkem_byte_encode(vals, d as i64).to_vec(), &ints(&bits));
        eq(c, "pack:w16", || format!("{d}-bit packing"), &ntt::mlkem_byte_encode_w16(&w(vals), d), &bits);
        eq_i(c, "unpack", &format!("{d}-bit unpacking"), &ntt::mlkem_byte_decode(&ints(&bits), d as i64).to_vec(), vals);
        eq_i(c, "unpack:w16", &format!("{d}-bit unpacking"), &u(&ntt::mlkem_byte_decode_w16(&bits, d)), vals);
    }
    // noise and uniform sampling, from their definitions
    for eta in [2usize, 3] {
        let buf = c.rng.bytes(64 * eta);
        let bit = |i: usize| (buf[i / 8] >> (i % 8) & 1) as i64;
        let want: Vec<i64> = (0..256).map(|i| (0..eta).map(|k| bit(2 * i * eta + k)).sum::<i64>() - (0..eta).map(|k| bit(2 * i * eta + eta + k)).sum::<i64>()).collect();
        let got = if eta == 2 { ntt::mlkem_cbd2(&ints(&buf)) } else { ntt::mlkem_cbd3(&ints(&buf)) };
        eq_i(c, "cbd", &format!("noise of width {eta}"), &got.to_vec(), &want);
        let gw = if eta == 2 { ntt::mlkem_cbd2_w16(&buf) } else { ntt::mlkem_cbd3_w16(&buf) };
        eq_i(c, "cbd:w16", &format!("noise of width {eta}"), &u(&gw), &want.iter().map(|x| x.rem_euclid(Q)).collect::<Vec<_>>());
    }
    let seed: [u8; 32] = arr(c);
    let (i, j) = (c.rng.below(4) as i64, c.rng.below(4) as i64);
    let mut want = vec![];
    let mut h = sha3::Shake128::default();
    h.update(&seed);
    h.update(&[i as u8, j as u8]);
    let mut x = h.finalize_xof();
    while want.len() < 256 {
        let mut t = [0u8; 3];
        x.read(&mut t);
        for v in [t[0] as i64 + 256 * (t[1] as i64 % 16), t[1] as i64 / 16 + 16 * t[2] as i64] {
            if v < Q && want.len() < 256 {
                want.push(v);
            }
        }
    }
    eq_i(c, "sample", "uniform sampling", &ntt::mlkem_sample_a(&ints(&seed), i, j).to_vec(), &want);
    eq_i(c, "sample:w16", "uniform sampling", &u(&ntt::mlkem_sample_a_w16(&seed, i, j)), &want);
    c.nontrivial(&(a, b));
}

pub fn c10(rep: &Report) {
    rep.rule("random and extreme keys, messages and lengths around block boundaries compared byte for byte with independent implementations, then tampered variants that must be refused; non-trivial = distinct key/message pair");
    rep.cases("hashes", vkit::scale(60_000, 600_000), hashes);
    rep.cases("seal", vkit::scale(40_000, 400_000), seal);
    rep.cases("kem", vkit::scale(8000, 100_000), kem);
    rep.cases("dsa", vkit::scale(4000, 50_000), dsa);
    rep.cases("polys", vkit::scale(15_000, 200_000), polys);
    rep.require("outputs_compared", 50_000);
    rep.require("tampered_messages", 20_000);
}
