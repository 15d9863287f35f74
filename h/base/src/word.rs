//! C17: wrapping words, vector lanes and the two legacy digests against wide integer arithmetic,
//! lane-by-lane evaluation and the RustCrypto implementations.
use logicaffeine_base::hash::{md5, md5_x4, md5_x8, sha1, to_hex};
use logicaffeine_base::word::*;
use vkit::{scale, Case, Report, Rng};

fn eq<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, args: String, got: T, want: T) {
    c.eval();
    if got != want {
        c.fail(&format!("{what}:wrong"), format!("{what}({args}) gave {got:?}, expected {want:?}"));
    }
}
fn w(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 2, u64::MAX, 1 << 63, (1 << 63) - 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x8000, 0x7fff, 0x80, 0x7f, 0xff]),
        1 => 1u64 << r.below(64),
        2 => r.below(300) as u64,
        _ => r.u64(),
    }
}
// reference arithmetic modulo 2^k in 128 bits, rotations one bit at a time
fn md(x: u128, k: u32) -> u64 {
    (x & ((1u128 << k) - 1)) as u64
}
fn rot(x: u64, n: u32, k: u32) -> u64 {
    let mut x = x;
    for _ in 0..n % k {
        x = md((x as u128) << 1 | (x >> (k - 1)) as u128, k);
    }
    x
}
macro_rules! width {
    ($c:expr, $t:ident, $p:ty, $k:expr, $a:expr, $b:expr, $n:expr) => {{
        let (a, b, n) = ($a as $p as u64, $b as $p as u64, $n);
        let (x, y) = ($t(a as $p), $t(b as $p));
        let args = format!("{}-bit {a}, {b}, {n}", $k);
        let g = |w: $t| w.get() as u64;
        let m = 1u128 << $k;
        eq($c, "add", args.clone(), (g(x.add(y)), g(x + y)), (md(a as u128 + b as u128, $k), md(a as u128 + b as u128, $k)));
        let s = md(m + a as u128 - b as u128, $k);
        eq($c, "sub", args.clone(), (g(x.sub(y)), g(x - y)), (s, s));
        let s = md(a as u128 * b as u128, $k);
        eq($c, "mul", args.clone(), (g(x.mul(y)), g(x * y)), (s, s));
        eq($c, "and/or/xor", args.clone(), (g(x & y), g(x | y), g(x ^ y), g(x.bitand(y)), g(x.bitor(y)), g(x.bitxor(y))), (a & b, a | b, a ^ b, a & b, a | b, a ^ b));
        eq($c, "not", args.clone(), (g(!x), g(x.not())), (md(m - 1 - a as u128, $k), md(m - 1 - a as u128, $k)));
        eq($c, "shift left", args.clone(), g(x.shl(n)), md((a as u128) << (n % $k), $k));
        eq($c, "shift right", args.clone(), g(x.shr(n)), a >> (n % $k));
        eq($c, "rotate left", args.clone(), g(x.rotl(n)), rot(a, n, $k));
        eq($c, "rotate right", args.clone(), g(x.rotr(n)), rot(a, $k - n % $k, $k));
        if b != 0 {
            eq($c, "divide", args.clone(), (g(x / y), g(x % y)), (a / b, a % b));
        }
        eq($c, "text", args.clone(), x.to_string(), a.to_string());
        eq($c, "order", args.clone(), x.cmp(&y), a.cmp(&b));
    }};
}
fn words(c: &mut Case) {
    let (a, b, n) = (w(&mut c.rng), w(&mut c.rng), c.rng.below(200) as u32);
    c.nontrivial(&(a, b, n));
    width!(c, Word8, u8, 8u32, a, b, n);
    width!(c, Word16, u16, 16u32, a, b, n);
    width!(c, Word32, u32, 32u32, a, b, n);
    width!(c, Word64, u64, 64u32, a, b, n);
    let (p, q) = (WordVal::from_u64(32, a).unwrap(), WordVal::from_u64(64, b).unwrap());
    eq(c, "mixed widths refused", format!("{a} {b}"), p.add(q).is_none() && p.mul(q).is_none() && q.sub(p).is_none() && p.bitxor(q).is_none() && q.bitand(p).is_none() && p.bitor(q).is_none(), true);
    for (k, v) in [(32u32, p), (64, q)] {
        let x = if k == 32 { a as u32 as u64 } else { b };
        let o = WordVal::from_u64(k, a ^ b).unwrap();
        let y = md((a ^ b) as u128, k);
        eq(c, "carrier add", format!("{k}: {x} {y}"), v.add(o).map(|r| r.to_u64()), Some(md(x as u128 + y as u128, k)));
        eq(c, "carrier sub", format!("{k}: {x} {y}"), v.sub(o).map(|r| r.to_u64()), Some(md((1u128 << k) + x as u128 - y as u128, k)));
        eq(c, "carrier mul", format!("{k}: {x} {y}"), v.mul(o).map(|r| r.to_u64()), Some(md(x as u128 * y as u128, k)));
        eq(c, "carrier bits", format!("{k}: {x} {y}"), (v.bitand(o).map(|r| r.to_u64()), v.bitor(o).map(|r| r.to_u64()), v.bitxor(o).map(|r| r.to_u64()), v.not().to_u64()), (Some(x & y), Some(x | y), Some(x ^ y), md(!x as u128, k)));
        eq(c, "carrier shifts", format!("{k}: {x} {n}"), (v.shl(n).to_u64(), v.shr(n).to_u64(), v.rotl(n).to_u64(), v.rotr(n).to_u64()), (md((x as u128) << (n % k), k), x >> (n % k), rot(x, n, k), rot(x, k - n % k, k)));
        eq(c, "carrier width", format!("{k}"), v.width(), k);
    }
}
fn arr<const N: usize, T>(r: &mut Rng, f: impl Fn(u64) -> T) -> [T; N] {
    std::array::from_fn(|_| f(w(r)))
}
fn lanes(c: &mut Case) {
    let n = c.rng.below(130) as u32;
    // 8 × 32
    let (a, b): ([u32; 8], [u32; 8]) = (arr(&mut c.rng, |x| x as u32), arr(&mut c.rng, |x| x as u32));
    c.nontrivial(&(a, b));
    let (x, y) = (Lanes8Word32(a), Lanes8Word32(b));
    let ar = format!("{a:x?} {b:x?} {n}");
    let z = |f: &dyn Fn(u32, u32) -> u32| -> [u32; 8] { std::array::from_fn(|i| f(a[i], b[i])) };
    let k = |v: u128| md(v, 32) as u32;
    eq(c, "8×32 add", ar.clone(), (x + y).0, z(&|p, q| k(p as u128 + q as u128)));
    eq(c, "8×32 sub", ar.clone(), (x - y).0, z(&|p, q| k((1u128 << 32) + p as u128 - q as u128)));
    eq(c, "8×32 bits", ar.clone(), ((x & y).0, (x | y).0, (x ^ y).0, (!x).0), (z(&|p, q| p & q), z(&|p, q| p | q), z(&|p, q| p ^ q), z(&|p, _| !p)));
    eq(c, "8×32 rotate", ar.clone(), x.rotl(n).0, z(&|p, _| rot(p as u64, n, 32) as u32));
    for h in [4usize, 2, 1] {
        let lo: [u32; 8] = std::array::from_fn(|i| a[i / (2 * h) * (2 * h) + i % h]);
        let hi: [u32; 8] = std::array::from_fn(|i| a[i / (2 * h) * (2 * h) + h + i % h]);
        let bl: [u32; 8] = std::array::from_fn(|i| if i / h % 2 == 0 { a[i] } else { b[i] });
        eq(c, "8×32 butterfly moves", format!("{ar} stride {h}"), (x.ntt_bcast_lo(h).0, x.ntt_bcast_hi(h).0, x.ntt_blend(y, h).0), (lo, hi, bl));
    }
    // Montgomery product: congruent to a·b·2^-32 modulo q, and small
    let q: i64 = 8_380_417;
    let qinv: i64 = 58_728_449;
    let (ma, mb): ([u32; 8], [u32; 8]) = (arr(&mut c.rng, |v| ((v as i64).rem_euclid(2 * q) - q) as i32 as u32), arr(&mut c.rng, |v| ((v as i64).rem_euclid(2 * q) - q) as i32 as u32));
    let m = Lanes8Word32(ma).montmul32(Lanes8Word32(mb), Lanes8Word32([q as u32; 8]), Lanes8Word32([qinv as u32; 8])).0;
    for i in 0..8 {
        let (p, r, t) = (ma[i] as i32 as i128, mb[i] as i32 as i128, m[i] as i32 as i128);
        eq(c, "Montgomery product", format!("{p} {r}"), ((t * (1i128 << 32) - p * r).rem_euclid(q as i128), t.abs() < q as i128), (0, true));
    }
    // 4 × 32
    let (a, b): ([u32; 4], [u32; 4]) = (arr(&mut c.rng, |x| x as u32), arr(&mut c.rng, |x| x as u32));
    let (x, y) = (Lanes4Word32(a), Lanes4Word32(b));
    let ar = format!("{a:x?} {b:x?}");
    let s: [u32; 4] = std::array::from_fn(|i| k(a[i] as u128 + b[i] as u128));
    let e: [u32; 4] = std::array::from_fn(|i| a[i] ^ b[i]);
    eq(c, "4×32", ar.clone(), ((x + y).0, (x ^ y).0), (s, e));
    // 16 × 8
    let (a, b): ([u8; 16], [u8; 16]) = (arr(&mut c.rng, |x| x as u8), arr(&mut c.rng, |x| x as u8));
    let (x, y) = (Lanes16Word8(a), Lanes16Word8(b));
    let ar = format!("{a:x?} {b:x?}");
    let g = |f: &dyn Fn(usize) -> u8| -> [u8; 16] { std::array::from_fn(f) };
    eq(c, "16×8 shuffle", ar.clone(), x.shuffle(y).0, g(&|i| if b[i] >= 128 { 0 } else { a[b[i] as usize % 16] }));
    eq(c, "16×8 interleave", ar.clone(), (x.interleave_lo(y).0, x.interleave_hi(y).0), (g(&|i| if i % 2 == 0 { a[i / 2] } else { b[i / 2] }), g(&|i| if i % 2 == 0 { a[8 + i / 2] } else { b[8 + i / 2] })));
    let sh = n % 8;
    eq(c, "16×8 bytes", ar.clone(), ((x & y).0, x.shr_bytes(sh).0, x.byte_add(y).0), (g(&|i| a[i] & b[i]), g(&|i| a[i] >> sh), g(&|i| ((a[i] as u32 + b[i] as u32) % 256) as u8)));
    let pair = |i: usize| (a[2 * i] as i32 * b[2 * i] as i8 as i32 + a[2 * i + 1] as i32 * b[2 * i + 1] as i8 as i32).max(-32768).min(32767) as i16;
    eq(c, "16×8 multiply-add", ar.clone(), x.maddubs(y).0, g(&|i| pair(i / 2).to_le_bytes()[i % 2]));
    let sat = |v: [u8; 2]| match i16::from_le_bytes(v) { t if t < 0 => 0, t if t > 255 => 255, t => t as u8 };
    eq(c, "16×8 pack", ar, x.packus(y).0, g(&|i| if i < 8 { sat([a[2 * i], a[2 * i + 1]]) } else { sat([b[2 * i - 16], b[2 * i - 15]]) }));
    // 4 × 64
    let (a, b): ([u64; 4], [u64; 4]) = (arr(&mut c.rng, |x| x), arr(&mut c.rng, |x| x));
    let (x, y) = (Lanes4Word64(a), Lanes4Word64(b));
    let ar = format!("{a:x?} {b:x?} {n}");
    let z = |f: &dyn Fn(u64, u64) -> u64| -> [u64; 4] { std::array::from_fn(|i| f(a[i], b[i])) };
    eq(c, "4×64 add", ar.clone(), (x + y).0, z(&|p, q| md(p as u128 + q as u128, 64)));
    eq(c, "4×64 wide product", ar.clone(), x.mul_lo32_wide(y).0, z(&|p, q| (p as u32 as u128 * q as u32 as u128) as u64));
    eq(c, "4×64 bits", ar.clone(), ((x ^ y).0, (x & y).0, x.and(y).0, x.andnot(y).0), (z(&|p, q| p ^ q), z(&|p, q| p & q), z(&|p, q| p & q), z(&|p, q| !p & q)));
    eq(c, "4×64 rotate", ar.clone(), x.rotl(n).0, z(&|p, _| rot(p, n, 64)));
    eq(c, "4×64 sum", ar, x.hsum(), md(a.iter().map(|v| *v as u128).sum(), 64));
    // 16 × 16
    let (a, b): ([u16; 16], [u16; 16]) = (arr(&mut c.rng, |x| x as u16), arr(&mut c.rng, |x| x as u16));
    let (x, y) = (Lanes16Word16(a), Lanes16Word16(b));
    let ar = format!("{a:x?} {b:x?}");
    let z = |f: &dyn Fn(u16, u16) -> u16| -> [u16; 16] { std::array::from_fn(|i| f(a[i], b[i])) };
    eq(c, "16×16 add", ar.clone(), x.add(y).0, z(&|p, q| md(p as u128 + q as u128, 16) as u16));
    eq(c, "16×16 sub", ar.clone(), x.sub(y).0, z(&|p, q| md(65536 + p as u128 - q as u128, 16) as u16));
    eq(c, "16×16 low product", ar.clone(), x.mullo(y).0, z(&|p, q| (p as u32 * q as u32 % 65536) as u16));
    eq(c, "16×16 high product", ar.clone(), x.mulhi(y).0, z(&|p, q| ((p as i16 as i64 * q as i16 as i64).div_euclid(65536)) as u16));
    for h in [8usize, 4, 2] {
        let lo: [u16; 16] = std::array::from_fn(|i| a[i / (2 * h) * (2 * h) + i % h]);
        let hi: [u16; 16] = std::array::from_fn(|i| a[i / (2 * h) * (2 * h) + h + i % h]);
        let bl: [u16; 16] = std::array::from_fn(|i| if i / h % 2 == 0 { a[i] } else { b[i] });
        eq(c, "16×16 butterfly moves", format!("{ar} stride {h}"), (x.ntt_bcast_lo(h).0, x.ntt_bcast_hi(h).0, x.ntt_blend(y, h).0), (lo, hi, bl));
    }
}
fn ref_md5(d: &[u8]) -> [u8; 16] {
    use md5::Digest;
    md5::Md5::digest(d).into()
}
fn ref_sha1(d: &[u8]) -> [u8; 20] {
    use sha1::Digest;
    sha1::Sha1::digest(d).into()
}
fn digests(c: &mut Case) {
    let len = match c.rng.below(4) {
        0 => c.rng.below(70),
        1 => *c.rng.pick(&[0usize, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 1000]),
        _ => c.rng.below(600),
    };
    let d = c.rng.bytes(len);
    c.nontrivial(&d);
    c.seen("message length", &len);
    eq(c, "md5", format!("{len} bytes {d:02x?}"), md5(&d), ref_md5(&d));
    eq(c, "sha1", format!("{len} bytes {d:02x?}"), sha1(&d), ref_sha1(&d));
    eq(c, "hex", format!("{d:02x?}"), to_hex(&d), d.iter().map(|b| format!("{b:02x}")).collect::<String>());
    // batches (of equal lengths, as their contract says)
    let many: Vec<Vec<u8>> = (0..8).map(|_| c.rng.bytes(len)).collect();
    let m4: [&[u8]; 4] = std::array::from_fn(|i| &many[i][..]);
    let m8: [&[u8]; 8] = std::array::from_fn(|i| &many[i][..]);
    eq(c, "md5 batch of 4", format!("{:?}", m4.map(|m| m.len())), md5_x4(m4), m4.map(ref_md5));
    eq(c, "md5 batch of 8", format!("{:?}", m8.map(|m| m.len())), md5_x8(m8), m8.map(ref_md5));
    // SHA-1 one block, through the vector steps the language exposes
    let blk: [u8; 64] = c.rng.bytes(64).try_into().unwrap();
    let st: [u32; 5] = arr(&mut c.rng, |x| x as u32);
    let got = sha1_block_by_lanes(st, &blk);
    eq(c, "sha1 block by vector steps", format!("{st:x?} {blk:02x?}"), got, sha1_block_plain(st, &blk));
    // each software step equals the step the lanes take
    let (a, b): ([u32; 4], [u32; 4]) = (arr(&mut c.rng, |x| x as u32), arr(&mut c.rng, |x| x as u32));
    let (x, y) = (Lanes4Word32(a), Lanes4Word32(b));
    use logicaffeine_base::sha_ops as s;
    let f = c.rng.below(4) as u32;
    eq(c, "sha1 steps agree", format!("{a:x?} {b:x?} {f}"), (x.sha1rnds4(y, f).0, x.sha1msg1(y).0, x.sha1msg2(y).0, x.sha1nexte(y).0), (s::sha1rnds4(a, b, f), s::sha1msg1(a, b), s::sha1msg2(a, b), s::sha1nexte(a, b)));
}
fn sha1_block_plain(st: [u32; 5], blk: &[u8; 64]) -> [u32; 5] {
    let mut wv = [0u32; 80];
    for i in 0..80 {
        wv[i] = if i < 16 { u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap()) } else { (wv[i - 3] ^ wv[i - 8] ^ wv[i - 14] ^ wv[i - 16]).rotate_left(1) };
    }
    let [mut a, mut b, mut c, mut d, mut e] = st;
    for (i, x) in wv.iter().enumerate() {
        let (f, k) = match i / 20 {
            0 => (b & c | !b & d, 0x5A827999u32),
            1 => (b ^ c ^ d, 0x6ED9EBA1),
            2 => (b & c | b & d | c & d, 0x8F1BBCDC),
            _ => (b ^ c ^ d, 0xCA62C1D6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = t;
    }
    [st[0].wrapping_add(a), st[1].wrapping_add(b), st[2].wrapping_add(c), st[3].wrapping_add(d), st[4].wrapping_add(e)]
}
fn sha1_block_by_lanes(st: [u32; 5], blk: &[u8; 64]) -> [u32; 5] {
    let word = |i: usize| u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
    // the first message word sits in the top lane, as in the instruction set
    let mut m: Vec<Lanes4Word32> = (0..4).map(|g| Lanes4Word32([word(4 * g + 3), word(4 * g + 2), word(4 * g + 1), word(4 * g)])).collect();
    for g in 4..20 {
        let t = m[g - 4].sha1msg1(m[g - 3]) ^ m[g - 2];
        m.push(t.sha1msg2(m[g - 1]));
    }
    let mut abcd = Lanes4Word32([st[3], st[2], st[1], st[0]]);
    let mut e = Lanes4Word32([0, 0, 0, st[4]]) + m[0];
    for g in 0..20 {
        let prev = abcd;
        abcd = abcd.sha1rnds4(e, (g / 5) as u32);
        if g < 19 {
            e = prev.sha1nexte(m[g + 1]);
        } else {
            e = prev.sha1nexte(Lanes4Word32([0, 0, 0, 0]));
        }
    }
    let v = abcd.0;
    [st[0].wrapping_add(v[3]), st[1].wrapping_add(v[2]), st[2].wrapping_add(v[1]), st[3].wrapping_add(v[0]), st[4].wrapping_add(e.0[3])]
}

pub fn check(rep: &Report) {
    rep.rule("random and boundary words at every width, vectors of every lane shape, and messages around block boundaries; expected results are computed in 128-bit arithmetic, lane by lane, or with md-5 and sha1");
    rep.cases("words", scale(400_000, 4_000_000), words);
    rep.cases("lanes", scale(200_000, 2_000_000), lanes);
    rep.cases("digests", scale(100_000, 1_000_000), digests);
}
