//! C14: the exact number types, each operation judged against num-bigint/num-rational.
use logicaffeine_base::numeric::*;
use num_bigint::{BigInt as NB, Sign};
use num_integer::Integer;
use num_rational::BigRational as NR;
use num_traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vkit::{scale, Case, Report, Rng};

/// A reference integer biased to limb edges: all-ones limbs, powers of two, lone high bits.
pub fn gen_int(r: &mut Rng) -> NB {
    let neg = r.bool();
    let m: NB = match r.below(9) {
        0 => NB::from(r.edgy_i64()).abs(),
        1 => NB::from(r.below(12) as u64),
        2 => (NB::one() << r.below(260)) + NB::from(r.range(-2, 2)),
        3 => {
            let k = 1 + r.below(6);
            NB::from_bytes_le(Sign::Plus, &(0..k * 8).map(|_| *r.pick(&[0u8, 0xff, 0xff, 0, 1, 0x80])).collect::<Vec<_>>())
        }
        4 => {
            let k = 1 + r.below(5);
            let mut v = Vec::new();
            for _ in 0..k {
                let limb = match r.below(5) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1 << 63,
                    3 => 1,
                    _ => r.u64(),
                };
                v.extend_from_slice(&limb.to_le_bytes());
            }
            NB::from_bytes_le(Sign::Plus, &v)
        }
        5 => NB::from(10u32).pow(r.below(60) as u32) + NB::from(r.range(-1, 1)),
        6 => NB::from(r.u64()),
        7 => {
            let n = r.below(40);
            NB::from_bytes_le(Sign::Plus, &r.bytes(n))
        }
        _ => NB::from(r.u64()) * NB::from(r.u64()) * NB::from(1 + r.below(1000) as u64),
    };
    let m = m.abs();
    if neg {
        -m
    } else {
        m
    }
}
pub fn big(n: &NB) -> BigInt {
    let (s, b) = n.to_bytes_le();
    BigInt::from_le_bytes(s == Sign::Minus, &b)
}
fn nb(b: &BigInt) -> NB {
    let (neg, bytes) = b.to_le_bytes();
    let m = NB::from_bytes_le(Sign::Plus, &bytes);
    if neg {
        -m
    } else {
        m
    }
}
pub fn rat(n: &NR) -> Rational {
    Rational::new(big(n.numer()), big(n.denom())).unwrap()
}
fn gen_rat(r: &mut Rng) -> NR {
    let small = r.bool();
    let mut n = gen_int(r);
    let mut d = gen_int(r);
    if small {
        n = NB::from(r.range(-60, 60));
        d = NB::from(1 + r.below(40) as i64);
    }
    if d.is_zero() {
        d = NB::one();
    }
    NR::new(n, d)
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Expect `got` (rendered) to equal `want`; also that the value is canonical.
fn same(c: &mut Case, op: &str, args: &str, got: String, want: String) {
    c.eval();
    if got != want {
        c.fail(&format!("{op}:wrong"), format!("{op}({args}) gave {got}, expected {want}"));
    }
}
fn sameb(c: &mut Case, op: &str, args: &str, got: &BigInt, want: &NB) {
    c.eval();
    let text = got.to_string();
    if text != want.to_string() || nb(got) != *want {
        c.fail(&format!("{op}:wrong"), format!("{op}({args}) gave {text} (bytes {}), expected {want}", nb(got)));
        return;
    }
    // one value, one representation: equality and hash agree with a freshly built one
    let fresh = big(want);
    if *got != fresh || hash(got) != hash(&fresh) || got.cmp(&fresh) != Ordering::Equal {
        c.fail(&format!("{op}:canonical"), format!("{op}({args}) = {text} is not equal to the same number built afresh"));
    }
    if got.is_zero() != want.is_zero() || got.is_negative() != want.is_negative() || got.is_positive() != want.is_positive() || got.is_odd() != want.is_odd() {
        c.fail(&format!("{op}:predicates"), format!("{op}({args}) = {text}: sign or parity test wrong"));
    }
    if got.to_i64() != want.to_i64() {
        c.fail(&format!("{op}:narrow"), format!("{op}({args}) = {text}: to_i64 {:?} expected {:?}", got.to_i64(), want.to_i64()));
    }
}
fn samer(c: &mut Case, op: &str, args: &str, got: &Rational, want: &NR) {
    c.eval();
    let w = if want.is_integer() { want.numer().to_string() } else { format!("{}/{}", want.numer(), want.denom()) };
    let text = got.to_string();
    if text != w {
        c.fail(&format!("{op}:wrong"), format!("{op}({args}) gave {text}, expected {w}"));
        return;
    }
    let fresh = rat(want);
    if *got != fresh || hash(got) != hash(&fresh) || got.cmp(&fresh) != Ordering::Equal {
        c.fail(&format!("{op}:canonical"), format!("{op}({args}) = {text} differs from the same fraction built afresh"));
    }
    if got.is_integer() != want.is_integer() || got.is_negative() != want.is_negative() || got.is_zero() != want.is_zero() {
        c.fail(&format!("{op}:predicates"), format!("{op}({args}) = {text}: predicate wrong"));
    }
}

fn ints(c: &mut Case) {
    let (a, b) = (gen_int(&mut c.rng), gen_int(&mut c.rng));
    // related operands reach cancellation, exact division and borrow chains
    let b = match c.rng.below(6) {
        0 => -&a,
        1 => &a + NB::from(c.rng.range(-2, 2)),
        _ => b,
    };
    let a = if c.rng.chance(1, 5) { &a * &b + NB::from(c.rng.range(-2, 2)) } else { a };
    let (x, y) = (big(&a), big(&b));
    let args = format!("{a}, {b}");
    c.nontrivial(&args);
    c.seen("operand limb counts", &(a.bits() / 64, b.bits() / 64));
    sameb(c, "int make", &args, &x, &a);
    sameb(c, "int add", &args, &x.add(&y), &(&a + &b));
    sameb(c, "int sub", &args, &x.sub(&y), &(&a - &b));
    sameb(c, "int mul", &args, &x.mul(&y), &(&a * &b));
    sameb(c, "int neg", &args, &x.negated(), &-&a);
    sameb(c, "int abs", &args, &x.abs(), &a.abs());
    same(c, "int cmp", &args, format!("{:?}", x.cmp(&y)), format!("{:?}", a.cmp(&b)));
    same(c, "int eq", &args, format!("{}", x == y), format!("{}", a == b));
    match x.div_rem(&y) {
        None => same(c, "int div_rem", &args, "none".into(), if b.is_zero() { "none".into() } else { "some".into() }),
        Some((q, m)) => {
            if b.is_zero() {
                c.fail("int div_rem:zero", format!("division of {a} by zero gave a value"));
            } else {
                sameb(c, "int quotient", &args, &q, &(&a / &b));
                sameb(c, "int remainder", &args, &m, &(&a % &b));
            }
        }
    }
    let e = c.rng.below(12) as u32;
    sameb(c, "int pow", &format!("{a}, {e}"), &x.pow(e), &Pow::pow(&a, e));
    // text
    let s = a.to_string();
    match BigInt::parse_decimal(&s) {
        Some(p) => sameb(c, "int parse", &s, &p, &a),
        None => c.fail("int parse:none", format!("refused {s}")),
    }
    let mut bad: Vec<char> = s.chars().collect();
    let at = c.rng.below(bad.len() + 1);
    bad.insert(at, *c.rng.pick(&['x', ' ', '.', '-', '_', '٣', '+', '/', ':']));
    let bad: String = bad.into_iter().collect();
    let ok = {
        let body = bad.strip_prefix('-').or(bad.strip_prefix('+')).unwrap_or(&bad);
        !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit())
    };
    same(c, "int parse damaged", &bad, format!("{}", BigInt::parse_decimal(&bad).is_some()), format!("{ok}"));
    if let Some(i) = a.to_i64() {
        sameb(c, "int from_i64", &args, &BigInt::from_i64(i), &a);
    }
    // float view: within one unit in the last place of the nearest double
    let f = x.to_f64();
    let w = a.to_f64().unwrap();
    c.eval();
    let close = f == w || (f.is_finite() && w.is_finite() && ((f.to_bits() as i64) - (w.to_bits() as i64)).abs() <= 2);
    if !close {
        c.fail("int to_f64", format!("{a}.to_f64() = {f:e}, nearest double is {w:e}"));
    }
}

fn nb_floor(q: &NR) -> NB {
    q.numer().div_floor(q.denom())
}
fn ref_round(q: &NR, mode: RoundingMode) -> NB {
    let fl = nb_floor(q);
    let frac = q - NR::from(fl.clone());
    if frac.is_zero() {
        return fl;
    }
    let up = &fl + 1;
    let neg = q.is_negative();
    let half = frac.cmp(&NR::new(1.into(), 2.into()));
    match mode {
        RoundingMode::Floor => fl,
        RoundingMode::Ceiling => up,
        RoundingMode::Down => if neg { up } else { fl },
        RoundingMode::Up => if neg { fl } else { up },
        _ => match half {
            Ordering::Less => fl,
            Ordering::Greater => up,
            Ordering::Equal => match mode {
                RoundingMode::HalfUp => if neg { fl } else { up },
                RoundingMode::HalfDown => if neg { up } else { fl },
                _ => if fl.is_even() { fl } else { up },
            },
        },
    }
}
const MODES: [RoundingMode; 7] = [
    RoundingMode::Down, RoundingMode::Up, RoundingMode::Floor, RoundingMode::Ceiling,
    RoundingMode::HalfUp, RoundingMode::HalfDown, RoundingMode::HalfEven,
];

fn rationals(c: &mut Case) {
    let a = gen_rat(&mut c.rng);
    let b = match c.rng.below(6) {
        0 => -&a,
        1 if !a.is_zero() => a.recip(),
        2 => &a + NR::from(NB::one()),
        _ => gen_rat(&mut c.rng),
    };
    // half-way points are where rounding modes part
    let a = if c.rng.chance(1, 4) { NR::new(c.rng.edgy_i64().into(), 2.into()) } else { a };
    let (x, y) = (rat(&a), rat(&b));
    let args = format!("{a}, {b}");
    c.nontrivial(&args);
    samer(c, "ratio make", &args, &x, &a);
    // any multiple of numerator and denominator is the same fraction
    let k = loop {
        let k = gen_int(&mut c.rng);
        if !k.is_zero() {
            break k;
        }
    };
    samer(c, "ratio reduce", &format!("{a} times {k}"), &Rational::new(big(&(a.numer() * &k)), big(&(a.denom() * &k))).unwrap(), &a);
    samer(c, "ratio add", &args, &x.add(&y), &(&a + &b));
    samer(c, "ratio sub", &args, &x.sub(&y), &(&a - &b));
    samer(c, "ratio mul", &args, &x.mul(&y), &(&a * &b));
    samer(c, "ratio neg", &args, &x.negated(), &-&a);
    samer(c, "ratio abs", &args, &x.abs(), &a.abs());
    match x.div(&y) {
        None => same(c, "ratio div", &args, "none".into(), if b.is_zero() { "none".into() } else { "some".into() }),
        Some(q) if b.is_zero() => c.fail("ratio div:zero", format!("{a} / 0 gave {q}")),
        Some(q) => samer(c, "ratio div", &args, &q, &(&a / &b)),
    }
    match x.recip() {
        None => same(c, "ratio recip", &args, "none".into(), if a.is_zero() { "none".into() } else { "some".into() }),
        Some(q) if a.is_zero() => c.fail("ratio recip:zero", format!("1/0 gave {q}")),
        Some(q) => samer(c, "ratio recip", &args, &q, &a.recip()),
    }
    same(c, "ratio cmp", &args, format!("{:?}", x.cmp(&y)), format!("{:?}", a.cmp(&b)));
    same(c, "ratio eq", &args, format!("{}", x == y), format!("{}", a == b));
    sameb(c, "ratio floor", &args, &x.floor(), &nb_floor(&a));
    sameb(c, "ratio ceil", &args, &x.ceil(), &a.ceil().to_integer());
    sameb(c, "ratio round", &args, &x.round(), &ref_round(&a, RoundingMode::HalfUp));
    same(c, "ratio to_i64", &args, format!("{:?}", x.to_i64()), format!("{:?}", if a.is_integer() { a.numer().to_i64() } else { None }));
    let e = c.rng.range(-5, 6) as i32;
    match x.pow(e) {
        None => same(c, "ratio pow", &format!("{a}, {e}"), "none".into(), if a.is_zero() && e < 0 { "none".into() } else { "some".into() }),
        Some(p) if a.is_zero() && e < 0 => c.fail("ratio pow:zero", format!("0^{e} gave {p}")),
        Some(p) => samer(c, "ratio pow", &format!("{a}, {e}"), &p, &Pow::pow(a.clone(), e)),
    }
    let text = format!("{}/{}", a.numer(), a.denom());
    match Rational::parse(&text) {
        Some(p) => samer(c, "ratio parse", &text, &p, &a),
        None => c.fail("ratio parse:none", format!("refused {text}")),
    }
    if a.numer().bits() <= 53 && a.denom().bits() <= 53 {
        let f = x.to_f64();
        let w = a.numer().to_f64().unwrap() / a.denom().to_f64().unwrap();
        same(c, "ratio to_f64", &args, format!("{f:e}"), format!("{w:e}"));
    }
}

fn dec_ref(d: &Decimal) -> NR {
    NR::new(nb(d.coefficient()), NB::from(10u32).pow(d.scale()))
}
fn decimals(c: &mut Case) {
    let mk = |r: &mut Rng| -> (Decimal, NR) {
        let coeff = if r.bool() { NB::from(r.range(-100_000, 100_000)) } else { gen_int(r) };
        let s = if r.bool() { r.below(5) } else { r.below(25) } as u32;
        (Decimal::from_coeff_scale(big(&coeff), s), NR::new(coeff, NB::from(10u32).pow(s)))
    };
    let (x, a) = mk(&mut c.rng);
    let (y, b) = mk(&mut c.rng);
    let args = format!("{x}, {y}");
    c.nontrivial(&args);
    let sd = |c: &mut Case, op: &str, args: &str, got: &Decimal, want: &NR| {
        c.eval();
        let t = got.to_string();
        // judged through the printed text, parsed independently
        let (neg, body) = match t.strip_prefix('-') {
            Some(b) => (true, b),
            None => (false, &t[..]),
        };
        let (i, f) = body.split_once('.').unwrap_or((body, ""));
        let ok = !i.is_empty() && i.bytes().all(|b| b.is_ascii_digit()) && f.bytes().all(|b| b.is_ascii_digit());
        if !ok {
            c.fail(&format!("{op}:text"), format!("{op}({args}) printed {t}"));
            return;
        }
        let m: NB = format!("{i}{f}").parse().unwrap();
        let v = NR::new(if neg { -m } else { m }, NB::from(10u32).pow(f.len() as u32));
        if v != *want || dec_ref(got) != *want {
            c.fail(&format!("{op}:wrong"), format!("{op}({args}) gave {t}, expected {want}"));
        }
        if f.len() as u32 != got.scale() {
            c.fail(&format!("{op}:scale"), format!("{op}({args}) prints {t} at scale {}", got.scale()));
        }
    };
    sd(c, "decimal make", &args, &x, &a);
    sd(c, "decimal add", &args, &x.add(&y), &(&a + &b));
    sd(c, "decimal sub", &args, &x.sub(&y), &(&a - &b));
    sd(c, "decimal mul", &args, &x.mul(&y), &(&a * &b));
    sd(c, "decimal neg", &args, &x.negated(), &-&a);
    same(c, "decimal cmp", &args, format!("{:?}", x.cmp(&y)), format!("{:?}", a.cmp(&b)));
    same(c, "decimal eq", &args, format!("{}", x == y), format!("{}", a == b));
    // the same value at another scale is equal, orders equal and hashes equal
    let wide = x.rescale(x.scale() + c.rng.below(6) as u32, RoundingMode::Down);
    sd(c, "decimal widen", &args, &wide, &a);
    c.eval();
    if wide != x || hash(&wide) != hash(&x) || wide.cmp(&x) != Ordering::Equal {
        c.fail("decimal:scale-equality", format!("{x} and {wide} do not agree in equality, order or hash"));
    }
    for mode in MODES {
        let s = c.rng.below(x.scale() as usize + 2) as u32;
        let p = NB::from(10u32).pow(s);
        let want = NR::new(ref_round(&(&a * NR::from(p.clone())), mode), p.clone());
        sd(c, "decimal rescale", &format!("{x}, {s}, {mode:?}"), &x.rescale(s, mode), &want);
        match x.div(&y, s, mode) {
            None => same(c, "decimal div", &args, "none".into(), if b.is_zero() { "none".into() } else { "some".into() }),
            Some(q) if b.is_zero() => c.fail("decimal div:zero", format!("{x} / 0 gave {q}")),
            Some(q) => {
                let want = NR::new(ref_round(&(&a / &b * NR::from(p.clone())), mode), p);
                sd(c, "decimal div", &format!("{args}, {s}, {mode:?}"), &q, &want)
            }
        }
    }
    // ties, built on purpose
    let k = gen_int(&mut c.rng);
    let tie = Decimal::from_coeff_scale(big(&(&k * NB::from(10) + NB::from(5))), 1);
    let q = NR::new(&k * NB::from(10) + NB::from(5), 10.into());
    for mode in MODES {
        sd(c, "decimal tie", &format!("{tie}, {mode:?}"), &tie.rescale(0, mode), &NR::from(ref_round(&q, mode)));
    }
    let t = x.to_string();
    match Decimal::parse(&t) {
        Some(p) => {
            sd(c, "decimal parse", &t, &p, &a);
            same(c, "decimal parse scale", &t, p.scale().to_string(), x.scale().to_string());
        }
        None => c.fail("decimal parse:none", format!("refused {t}")),
    }
    samer(c, "decimal to_rational", &t, &x.to_rational(), &a);
}

fn modulars(c: &mut Case) {
    let m = loop {
        let m = match c.rng.below(4) {
            0 => NB::from(1 + c.rng.below(30) as u64),
            1 => NB::from(*c.rng.pick(&[2u64, 97, 1_000_000_007, (1 << 61) - 1, 1 << 32, u64::MAX, 3329, 8380417])),
            _ => gen_int(&mut c.rng).abs(),
        };
        if !m.is_zero() {
            break m;
        }
    };
    let (a, b) = (gen_int(&mut c.rng), gen_int(&mut c.rng));
    let args = format!("{a}, {b} mod {m}");
    c.nontrivial(&args);
    let mk = |v: &NB| Modular::new(big(v), big(&m)).unwrap();
    let (x, y) = (mk(&a), mk(&b));
    let rd = |v: NB| v.mod_floor(&m);
    let sm = |c: &mut Case, op: &str, got: &Modular, want: NB| {
        sameb(c, op, &args, got.value(), &want);
        if nb(got.modulus()) != m {
            c.fail(&format!("{op}:modulus"), format!("{op}({args}) changed the modulus to {}", got.modulus()));
        }
    };
    sm(c, "mod make", &x, rd(a.clone()));
    sm(c, "mod add", &x.add(&y).unwrap(), rd(&a + &b));
    sm(c, "mod sub", &x.sub(&y).unwrap(), rd(&a - &b));
    sm(c, "mod mul", &x.mul(&y).unwrap(), rd(&a * &b));
    sm(c, "mod neg", &x.negated(), rd(-&a));
    let e = if c.rng.bool() { c.rng.below(9) as u64 } else { c.rng.u64() >> c.rng.below(64) };
    sm(c, "mod pow", &x.pow(e), rd(a.clone()).modpow(&NB::from(e), &m));
    let g = rd(b.clone()).gcd(&m);
    match y.inverse() {
        None => same(c, "mod inverse", &args, "none".into(), if g.is_one() { "some".into() } else { "none".into() }),
        Some(i) => {
            c.eval();
            if !g.is_one() || rd(nb(i.value()) * &b) != rd(NB::one()) {
                c.fail("mod inverse:wrong", format!("inverse of {b} mod {m} given as {}", i.value()));
            }
        }
    }
    match x.div(&y) {
        None => same(c, "mod div", &args, "none".into(), if g.is_one() { "some".into() } else { "none".into() }),
        Some(q) => {
            c.eval();
            if !g.is_one() || rd(nb(q.value()) * &b) != rd(a.clone()) {
                c.fail("mod div:wrong", format!("{args}: quotient {}", q.value()));
            }
        }
    }
    let m2 = &m + 1;
    let z = Modular::new(big(&b), big(&m2)).unwrap();
    c.eval();
    if x.add(&z).is_some() || x.mul(&z).is_some() || x.sub(&z).is_some() || x.div(&z).is_some() {
        c.fail("mod mismatch", format!("operation between moduli {m} and {m2} gave a value"));
    }
    if Modular::new(big(&a), big(&-&m)).is_some() || Modular::new(big(&a), BigInt::zero()).is_some() {
        c.fail("mod nonpositive", format!("modulus {} accepted", -&m));
    }
}

fn complexes(c: &mut Case) {
    let p = [gen_rat(&mut c.rng), gen_rat(&mut c.rng), gen_rat(&mut c.rng), gen_rat(&mut c.rng)];
    let p = p.map(|q| if c.rng.chance(1, 5) { NR::from(NB::from(c.rng.range(-1, 1))) } else { q });
    let [a, b, d, e] = p;
    let x = Complex::new(rat(&a), rat(&b));
    let y = Complex::new(rat(&d), rat(&e));
    let args = format!("{x}, {y}");
    c.nontrivial(&args);
    let sc = |c: &mut Case, op: &str, got: &Complex, re: NR, im: NR| {
        samer(c, op, &args, got.re(), &re);
        samer(c, op, &args, got.im(), &im);
    };
    sc(c, "complex add", &x.add(&y), &a + &d, &b + &e);
    sc(c, "complex sub", &x.sub(&y), &a - &d, &b - &e);
    sc(c, "complex mul", &x.mul(&y), &a * &d - &b * &e, &a * &e + &b * &d);
    sc(c, "complex conjugate", &x.conjugate(), a.clone(), -&b);
    sc(c, "complex neg", &x.negated(), -&a, -&b);
    let n = &d * &d + &e * &e;
    match x.div(&y) {
        None => same(c, "complex div", &args, "none".into(), if n.is_zero() { "none".into() } else { "some".into() }),
        Some(q) if n.is_zero() => c.fail("complex div:zero", format!("{x} / 0 gave {q}")),
        Some(q) => sc(c, "complex div", &q, (&a * &d + &b * &e) / &n, (&b * &d - &a * &e) / &n),
    }
    samer(c, "complex norm", &args, &x.norm_sqr(), &(&a * &a + &b * &b));
    let k = c.rng.range(0, 5) as i32;
    let (mut re, mut im) = (NR::one(), NR::zero());
    for _ in 0..k {
        (re, im) = (&re * &a - &im * &b, &re * &b + &im * &a);
    }
    sc(c, "complex pow", &x.pow(k).unwrap(), re.clone(), im.clone());
    let nn = &re * &re + &im * &im;
    if k > 0 && !nn.is_zero() {
        sc(c, "complex pow neg", &x.pow(-k).unwrap(), &re / &nn, -&im / &nn);
    }
    let t = x.to_string();
    match Complex::parse(&t) {
        Some(q) => sc(c, "complex parse", &q, a, b),
        None => c.fail("complex parse:none", format!("refused {t}")),
    }
}

fn gen_f64(r: &mut Rng, near: &NR) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 => r.edgy_i64() as f64,
        2 => r.edgy_i64() as f64 / 2f64.powi(r.below(60) as i32),
        3 => *r.pick(&[0.0, -0.0, 1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740992.0, 9223372036854775808.0, -9223372036854775808.0]),
        _ => {
            let f = near.numer().to_f64().unwrap() / near.denom().to_f64().unwrap();
            let bits = f.to_bits() as i64 + r.range(-2, 2);
            f64::from_bits(bits as u64)
        }
    }
}
fn exact_f64(f: f64) -> Option<NR> {
    NR::from_float(f)
}
fn floats(c: &mut Case) {
    let q = if c.rng.bool() { NR::from(gen_int(&mut c.rng)) } else { gen_rat(&mut c.rng) };
    let f = gen_f64(&mut c.rng, &q);
    let args = format!("{q}, {f:e}");
    c.nontrivial(&args);
    let want = if f.is_nan() {
        None
    } else if f.is_infinite() {
        Some(if f > 0.0 { Ordering::Less } else { Ordering::Greater })
    } else {
        Some(q.cmp(&exact_f64(f).unwrap()))
    };
    let r = rat(&q);
    same(c, "ratio against float", &args, format!("{:?}", cmp_rational_f64_exact(&r, f)), format!("{want:?}"));
    if q.is_integer() {
        same(c, "int against float", &args, format!("{:?}", cmp_bigint_f64_exact(&big(q.numer()), f)), format!("{want:?}"));
        if let Some(i) = q.numer().to_i64() {
            same(c, "machine int against float", &args, format!("{:?}", cmp_i64_f64_exact(i, f)), format!("{want:?}"));
            same(c, "hash of int", &args, format!("{}", numeric_hash_i64(i)), format!("{}", numeric_hash_bigint(&big(q.numer()))));
        }
        same(c, "hash of whole ratio", &args, format!("{}", numeric_hash_rational(&r)), format!("{}", numeric_hash_bigint(&big(q.numer()))));
    }
    match rational_from_f64_exact(f) {
        None => same(c, "float to ratio", &args, "none".into(), if f.is_finite() { "some".into() } else { "none".into() }),
        Some(x) => {
            if !f.is_finite() {
                c.fail("float to ratio:infinite", format!("{f} became {x}"));
            } else {
                let e = exact_f64(f).unwrap();
                samer(c, "float to ratio", &args, &x, &e);
                // values that compare equal hash equal, whatever their type
                same(c, "hash of float", &args, format!("{}", numeric_hash_f64(f)), format!("{}", numeric_hash_rational(&rat(&e))));
                if e.is_integer() {
                    same(c, "hash of whole float", &args, format!("{}", numeric_hash_f64(f)), format!("{}", numeric_hash_bigint(&big(e.numer()))));
                }
                c.count("finite floats converted exactly", 1);
            }
        }
    }
}

pub fn check(rep: &Report) {
    rep.rule("operands are drawn to sit on limb, sign, power-of-two and power-of-ten edges, and half of the pairs are related (negation, multiple, neighbour); every result is compared by value, printed text, canonical form and predicates with num-bigint / num-rational");
    rep.cases("ints", scale(24_000, 200_000), ints);
    rep.cases("rationals", scale(6_000, 60_000), rationals);
    rep.cases("decimals", scale(4_000, 40_000), decimals);
    rep.cases("modulars", scale(5_000, 50_000), modulars);
    rep.cases("complexes", scale(2_500, 25_000), complexes);
    rep.cases("floats", scale(20_000, 200_000), floats);
    rep.require("finite floats converted exactly", 1000);
}
