//! C16: quantities, money and identifiers against an independently written unit table,
//! num-rational arithmetic and the published identifier layouts.
use logicaffeine_base::dimension::{BaseDim, Dimension};
use logicaffeine_base::money::{currency, Money, RateTable};
use logicaffeine_base::numeric::{BigInt, Decimal, Rational};
use logicaffeine_base::quantity::{units, Quantity};
use logicaffeine_base::uuid::{encode_canonical, encode_many, Uuid, Variant};
use num_bigint::BigInt as NB;
use num_rational::BigRational as NR;
use num_traits::{Signed, Zero};
use std::collections::HashSet;
use vkit::{scale, Case, Report, Rng};

fn big(n: &NB) -> BigInt {
    BigInt::parse_decimal(&n.to_string()).unwrap()
}
fn rat(r: &NR) -> Rational {
    Rational::new(big(r.numer()), big(r.denom())).unwrap()
}
fn show(r: &NR) -> String {
    if r.is_integer() { r.numer().to_string() } else { format!("{}/{}", r.numer(), r.denom()) }
}
fn nr(s: &str) -> NR {
    // product of decimal / fraction factors separated by '*' or '/'
    let mut out = NR::from_integer(1.into());
    let mut div = false;
    for part in s.split_inclusive(['*', '/']) {
        let (t, next) = match part.chars().last() {
            Some('*') => (&part[..part.len() - 1], false),
            Some('/') => (&part[..part.len() - 1], true),
            _ => (part, false),
        };
        let (m, e) = match t.split_once('e') {
            Some((m, e)) => (m, e.parse::<i32>().unwrap()),
            None => (t, 0),
        };
        let (w, f) = m.split_once('.').unwrap_or((m, ""));
        let n: NB = format!("{w}{f}").parse().unwrap();
        let mut v = NR::from_integer(n);
        let e = e - f.len() as i32;
        let p = NR::from_integer(NB::from(10u32).pow(e.unsigned_abs()));
        v = if e < 0 { v / p } else { v * p };
        out = if div { out / v } else { out * v };
        div = next;
    }
    out
}

// name(s) ; dimension (L M T I K N J A S B with exponents) ; size in SI units ; zero point
const UNITS: &str = "
meter,metre,m;L1;1
kilometer,km;L1;1000
centimeter,cm;L1;0.01
millimeter,mm;L1;0.001
micron,um;L1;1e-6
nanometer,nm;L1;1e-9
inch,in,inches;L1;0.0254
foot,ft,feet;L1;0.3048
yard,yd;L1;0.9144
mile,mi;L1;1609.344
nautical mile,nmi;L1;1852
angstrom;L1;1e-10
light year,ly;L1;299792458*31557600
astronomical unit,au;L1;149597870700
kilogram,kg;M1;1
gram,g;M1;0.001
milligram,mg;M1;1e-6
microgram,ug;M1;1e-9
tonne,metric ton;M1;1000
pound,lb;M1;0.45359237
ounce,oz;M1;0.45359237/16
stone;M1;0.45359237*14
carat;M1;0.0002
second,s;T1;1
millisecond,ms;T1;0.001
microsecond,us;T1;1e-6
nanosecond,ns;T1;1e-9
minute,min;T1;60
hour,hr;T1;3600
day;T1;86400
week;T1;604800
year;T1;365.25*86400
kelvin;K1;1
celsius;K1;1;273.15
fahrenheit;K1;5/9;459.67*5/9
rankine;K1;5/9
reaumur;K1;1.25;273.15
liter,l;L3;0.001
milliliter,ml;L3;1e-6
cubic meter,m3;L3;1
gallon;L3;231*0.0254*0.0254*0.0254
quart;L3;231*0.0254*0.0254*0.0254/4
pint;L3;231*0.0254*0.0254*0.0254/8
cup;L3;231*0.0254*0.0254*0.0254/16
tablespoon;L3;231*0.0254*0.0254*0.0254/256
teaspoon;L3;231*0.0254*0.0254*0.0254/768
fluid ounce;L3;231*0.0254*0.0254*0.0254/128
square meter,m2;L2;1
square foot;L2;0.3048*0.3048
square inch;L2;0.0254*0.0254
hectare;L2;10000
acre;L2;43560*0.3048*0.3048
m/s;L1T-1;1
km/h;L1T-1;1000/3600
mph;L1T-1;1609.344/3600
knot;L1T-1;1852/3600
hertz;T-1;1
kilohertz;T-1;1000
megahertz;T-1;1e6
gigahertz;T-1;1e9
joule;M1L2T-2;1
kilojoule;M1L2T-2;1000
calorie;M1L2T-2;4.184
kilocalorie;M1L2T-2;4184
watt hour;M1L2T-2;3600
kilowatt hour;M1L2T-2;3.6e6
electronvolt;M1L2T-2;1.602176634e-19
watt;M1L2T-3;1
kilowatt;M1L2T-3;1000
megawatt;M1L2T-3;1e6
horsepower;M1L2T-3;550*0.3048*0.45359237*9.80665
pascal;M1L-1T-2;1
kilopascal;M1L-1T-2;1000
bar;M1L-1T-2;1e5
atmosphere;M1L-1T-2;101325
psi;M1L-1T-2;0.45359237*9.80665/0.0254/0.0254
bit;B1;1
byte;B1;8
kilobyte;B1;8000
megabyte;B1;8e6
gigabyte;B1;8e9
terabyte;B1;8e12
petabyte;B1;8e15
turn;A1;1
degree;A1;1/360
gradian;A1;1/400
arcminute;A1;1/21600
arcsecond;A1;1/1296000
gray;L2T-2;1
sievert;L2T-2;1
rad;L2T-2;0.01
rem;L2T-2;0.01
becquerel;T-1;1
curie;T-1;3.7e10
roentgen;I1T1M-1;2.58e-4
katal;N1T-1;1
lumen;J1S1;1
lux;J1S1L-2;1
phot;J1S1L-2;10000
foot candle;J1S1L-2;1/0.3048/0.3048
nit;J1L-2;1
siemens;M-1L-2T3I2;1
farad;M-1L-2T4I2;1
microfarad;M-1L-2T4I2;1e-6
nanofarad;M-1L-2T4I2;1e-9
picofarad;M-1L-2T4I2;1e-12
weber;M1L2T-2I-1;1
maxwell;M1L2T-2I-1;1e-8
henry;M1L2T-2I-2;1
tesla;M1T-2I-1;1
gauss;M1T-2I-1;1e-4
pascal second;M1L-1T-1;1
poise;M1L-1T-1;0.1
centipoise;M1L-1T-1;0.001
stokes;L2T-1;1e-4
centistokes;L2T-1;1e-6
gpm;L3T-1;231*0.0254*0.0254*0.0254/60
cfm;L3T-1;0.3048*0.3048*0.3048/60
l/s;L3T-1;0.001
molar;N1L-3;1000
millimolar;N1L-3;1
bps;B1T-1;1
kbps;B1T-1;1000
mbps;B1T-1;1e6
gbps;B1T-1;1e9
byte per second;B1T-1;8
newton per meter;M1T-2;1
stick;L3;231*0.0254*0.0254*0.0254/32
dash;L3;231*0.0254*0.0254*0.0254/768/8
pinch;L3;231*0.0254*0.0254*0.0254/768/16
smidgen;L3;231*0.0254*0.0254*0.0254/768/32
fathom;L1;1.8288
cable;L1;185.2
league;L1;4828.032
light second;L1;299792458
light minute;L1;299792458*60
each;;1
pair;;2
dozen;;12
score;;20
gross;;144
ream;;500
percent;;0.01
permille;;0.001
ppm;;1e-6
ppb;;1e-9
basis point;;1e-4
megameter;L1;1e6
gigameter;L1;1e9
picometer;L1;1e-12
nanogram;M1;1e-12
gigawatt;M1L2T-3;1e9
terawatt;M1L2T-3;1e12
";

#[derive(Clone)]
struct U {
    name: &'static str,
    dim: [i32; 10],
    scale: NR,
    zero: NR,
}
fn catalogue() -> Vec<U> {
    let mut out = vec![];
    for line in UNITS.lines().filter(|l| !l.is_empty()) {
        let f: Vec<&'static str> = line.split(';').collect();
        let mut dim = [0i32; 10];
        let cs: Vec<char> = f[1].chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let ax = "LMTIKNJASB".find(cs[i]).unwrap();
            let mut j = i + 1;
            while j < cs.len() && !cs[j].is_ascii_uppercase() {
                j += 1;
            }
            dim[ax] = cs[i + 1..j].iter().collect::<String>().parse().unwrap();
            i = j;
        }
        for name in f[0].split(',') {
            out.push(U { name, dim, scale: nr(f[2]), zero: f.get(3).map_or_else(NR::zero, |z| nr(z)) });
        }
    }
    out
}
fn dims(d: Dimension) -> Option<[i32; 10]> {
    let mut o = [0; 10];
    for (i, b) in BaseDim::ALL.iter().enumerate() {
        let e = d.exponent(*b);
        if e.denominator() != 1 {
            return None;
        }
        o[i] = e.numerator();
    }
    Some(o)
}
fn gen_nr(r: &mut Rng) -> NR {
    let n = match r.below(4) {
        0 => r.edgy_i64(),
        1 => r.range(-20, 20),
        _ => r.range(-100_000, 100_000),
    };
    let d = match r.below(3) {
        0 => 1,
        1 => r.range(1, 12),
        _ => *r.pick(&[1i64, 10, 100, 1000, 7, 9, 1_000_000]),
    };
    NR::new(n.into(), d.into())
}
fn eq<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, args: String, got: T, want: T) {
    c.eval();
    if got != want {
        c.fail(&format!("{what}:wrong"), format!("{what}({args}) gave {got:?}, expected {want:?}"));
    }
}

fn quantities(c: &mut Case, cat: &[U]) {
    let u = c.rng.pick(cat).clone();
    let same: Vec<&U> = cat.iter().filter(|v| v.dim == u.dim).collect();
    let v = (*c.rng.pick(&same)).clone();
    let other = c.rng.pick(cat).clone();
    let case = |r: &mut Rng, s: &str| match r.below(4) { 0 => s.to_uppercase(), 1 => format!(" {s} "), _ => s.to_string() };
    let (un, vn, on) = (case(&mut c.rng, u.name), case(&mut c.rng, v.name), case(&mut c.rng, other.name));
    let (Some(su), Some(sv), Some(so)) = (units::by_name(&un), units::by_name(&vn), units::by_name(&on)) else {
        c.fail("unit unknown", format!("one of {un:?}, {vn:?}, {on:?} is not known"));
        return;
    };
    let (x, y, z) = (gen_nr(&mut c.rng), gen_nr(&mut c.rng), gen_nr(&mut c.rng));
    c.nontrivial(&(u.name, v.name, show(&x)));
    c.seen("unit", &u.name);
    let (qx, qy, qz) = (Quantity::of(rat(&x), &su), Quantity::of(rat(&y), &sv), Quantity::of(rat(&z), &so));
    let (sx, sy, sz) = (&x * &u.scale + &u.zero, &y * &v.scale + &v.zero, &z * &other.scale + &other.zero);
    eq(c, "size", format!("{} {}", show(&x), u.name), qx.magnitude_si().to_string(), show(&sx));
    eq(c, "dimension", u.name.to_string(), dims(qx.dimension()), Some(u.dim));
    eq(c, "conversion", format!("{} {} in {}", show(&x), u.name, v.name), qx.in_unit(&sv).map(|r| r.to_string()), Some(show(&((&sx - &v.zero) / &v.scale))));
    eq(c, "round trip", format!("{} {}", show(&x), u.name), qx.in_unit(&su).map(|r| r.to_string()), Some(show(&x)));
    eq(c, "sum", format!("{} {} and {} {}", show(&x), u.name, show(&y), v.name), qx.add(&qy).map(|q| q.magnitude_si().to_string()), Some(show(&(&sx + &sy))));
    eq(c, "difference", format!("{} {} and {} {}", show(&x), u.name, show(&y), v.name), qx.sub(&qy).map(|q| q.magnitude_si().to_string()), Some(show(&(&sx - &sy))));
    if other.dim != u.dim {
        c.count("mixed dimensions refused", 1);
        let refused = qx.add(&qz).is_none() && qx.sub(&qz).is_none() && qx.in_unit(&so).is_none();
        eq(c, "mixing refused", format!("{} with {}", u.name, other.name), refused, true);
    } else {
        eq(c, "same dimension accepted", format!("{} with {}", u.name, other.name), qx.add(&qz).is_some(), true);
    }
    let p = qx.mul(&qz);
    let mut d = u.dim;
    for i in 0..10 {
        d[i] += other.dim[i];
    }
    eq(c, "product", format!("{} {} by {} {}", show(&x), u.name, show(&z), other.name), (p.magnitude_si().to_string(), dims(p.dimension())), (show(&(&sx * &sz)), Some(d)));
    let q = qx.div(&qz);
    let mut d = u.dim;
    for i in 0..10 {
        d[i] -= other.dim[i];
    }
    let want = if sz.is_zero() { None } else { Some((show(&(&sx / &sz)), Some(d))) };
    eq(c, "quotient", format!("{} {} by {} {}", show(&x), u.name, show(&z), other.name), q.map(|q| (q.magnitude_si().to_string(), dims(q.dimension()))), want);
    // best unit: same value, and no ladder entry is a better fit
    let ladder: Vec<_> = same.iter().filter(|w| w.zero.is_zero()).take(6).map(|w| (units::by_name(w.name).unwrap(), (*w).clone())).collect();
    let us: Vec<_> = ladder.iter().map(|l| l.0.clone()).collect();
    if let Some((m, w)) = qx.in_best_unit(&us) {
        eq(c, "best unit value", format!("{} {}", show(&x), u.name), Quantity::of(m.clone(), w) == qx, true);
        let one = NR::from_integer(1.into());
        let mags: Vec<NR> = ladder.iter().map(|l| (&sx / &l.1.scale).abs()).collect();
        let want = mags.iter().filter(|m| **m >= one).min().or_else(|| mags.iter().max()).unwrap();
        eq(c, "best unit", format!("{} {}", show(&x), u.name), m.abs().to_string(), show(want));
    }
    // powers and roots of dimensions undo each other
    let k = c.rng.range(1, 6) as i32;
    eq(c, "dimension power and root", u.name.to_string(), qx.dimension().powi(k).nth_root(k), qx.dimension());
    eq(c, "dimension root and power", u.name.to_string(), qx.dimension().nth_root(k).powi(k), qx.dimension());
    eq(c, "dimension inverse", u.name.to_string(), qx.dimension().mul(qx.dimension().recip()).is_dimensionless(), true);
}

const CUR: [(&str, u32); 30] = [("USD", 2), ("EUR", 2), ("GBP", 2), ("CHF", 2), ("CAD", 2), ("AUD", 2), ("NZD", 2), ("SGD", 2), ("HKD", 2), ("CNY", 2), ("INR", 2), ("BRL", 2), ("MXN", 2), ("ZAR", 2), ("SEK", 2), ("NOK", 2), ("DKK", 2), ("RUB", 2), ("TRY", 2), ("PLN", 2), ("JPY", 0), ("KRW", 0), ("ISK", 0), ("VND", 0), ("CLP", 0), ("BHD", 3), ("KWD", 3), ("OMR", 3), ("JOD", 3), ("TND", 3)];
/// nearest multiple of 10^-scale, ties to even
fn bankers(x: &NR, scale: u32) -> NB {
    let y = x * NR::from_integer(NB::from(10).pow(scale));
    let f = y.floor().to_integer();
    let r = &y - NR::from_integer(f.clone());
    let half = NR::new(1.into(), 2.into());
    let up = r > half || (r == half && (&f % NB::from(2)) != NB::zero());
    if up { f + 1 } else { f }
}
fn dec_text(n: &NB, scale: u32) -> String {
    let s = n.abs().to_string();
    let s = if scale > 0 && s.len() <= scale as usize { format!("{}{}", "0".repeat(scale as usize + 1 - s.len()), s) } else { s };
    let t = if scale == 0 { s } else { format!("{}.{}", &s[..s.len() - scale as usize], &s[s.len() - scale as usize..]) };
    if n.is_negative() { format!("-{t}") } else { t }
}
fn monies(c: &mut Case) {
    let gen = |r: &mut Rng| {
        let n: i64 = match r.below(3) { 0 => r.edgy_i64(), 1 => r.range(-5000, 5000), _ => r.range(-1_000_000_000, 1_000_000_000) };
        let s = r.below(7) as u32;
        (n, s)
    };
    let (ca, sa) = *c.rng.pick(&CUR);
    let (cb, sb) = *c.rng.pick(&CUR);
    let lower = c.rng.bool();
    let (Some(a), Some(b)) = (currency::by_code(&if lower { ca.to_lowercase() } else { ca.into() }), currency::by_code(cb)) else {
        c.fail("currency unknown", format!("{ca} or {cb}"));
        return;
    };
    let ((n1, s1), (n2, s2), (n3, s3)) = (gen(&mut c.rng), gen(&mut c.rng), gen(&mut c.rng));
    c.nontrivial(&(ca, n1, s1));
    let val = |n: i64, s: u32| NR::new(n.into(), NB::from(10).pow(s));
    let m1 = Money::of(Decimal::from_coeff_scale(BigInt::from_i64(n1), s1), a);
    let m2 = Money::of(Decimal::from_coeff_scale(BigInt::from_i64(n2), s2), a);
    let m3 = Money::of(Decimal::from_coeff_scale(BigInt::from_i64(n3), s3), b);
    let (q1, q2, q3) = (bankers(&val(n1, s1), sa), bankers(&val(n2, s2), sa), bankers(&val(n3, s3), sb));
    let t = |q: &NB, s: u32, code: &str| format!("{} {code}", dec_text(q, s));
    eq(c, "amount", format!("{n1}e-{s1} {ca}"), m1.to_string(), t(&q1, sa, ca));
    eq(c, "sum", format!("{m1} + {m2}"), m1.add(&m2).map(|m| m.to_string()), Some(t(&(&q1 + &q2), sa, ca)));
    eq(c, "difference", format!("{m1} - {m2}"), m1.sub(&m2).map(|m| m.to_string()), Some(t(&(&q1 - &q2), sa, ca)));
    let k = if c.rng.bool() { c.rng.range(-50, 50) } else { c.rng.edgy_i64() };
    eq(c, "multiple", format!("{m1} × {k}"), m1.scale_int(k).to_string(), t(&(&q1 * NB::from(k)), sa, ca));
    let want = if q2.is_zero() { None } else { Some(show(&NR::new(q1.clone(), q2.clone()))) };
    eq(c, "ratio", format!("{m1} / {m2}"), m1.ratio(&m2).map(|r| r.to_string()), want);
    eq(c, "equality", format!("{m1} = {m2}"), m1 == m2, q1 == q2);
    if ca != cb {
        c.count("mixed currencies refused", 1);
        eq(c, "mixing refused", format!("{m1} with {m3}"), m1.add(&m3).is_none() && m1.sub(&m3).is_none() && m1.ratio(&m3).is_none() && m1 != m3, true);
    }
    let mut tab = RateTable::new();
    let rate = |r: &mut Rng| NR::new(r.range(1, 100_000).into(), r.range(1, 10_000).into());
    let (ra, rb) = (rate(&mut c.rng), rate(&mut c.rng));
    let missing = c.rng.chance(1, 8);
    tab.set(&ca.to_lowercase(), rat(&ra));
    if !missing || ca == cb {
        tab.set(cb, rat(&rb));
    }
    let (ra, rb) = if ca == cb { (rb.clone(), rb) } else { (ra, rb) };
    let v = NR::new(q1.clone(), NB::from(10).pow(sa)) * ra / rb;
    let want = if missing && ca != cb { None } else { Some(t(&bankers(&v, sb), sb, cb)) };
    eq(c, "exchange", format!("{m1} to {cb}"), tab.convert(&m1, b).map(|m| m.to_string()), want);
    let _ = (q3, sb);
}

fn hex(b: &[u8; 16]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if matches!(i, 4 | 6 | 8 | 10) {
            s.push('-');
        }
        s += &format!("{x:02x}");
    }
    s
}
fn b16(r: &mut Rng) -> [u8; 16] {
    let mut b = [0u8; 16];
    for x in &mut b {
        *x = if r.chance(1, 6) { *r.pick(&[0u8, 0xff, 0x80, 0x0f, 0xf0, 0x9f]) } else { r.u8() };
    }
    b
}
fn ids(c: &mut Case) {
    use md5::Digest;
    let b = b16(&mut c.rng);
    let u = Uuid::from_bytes(b);
    c.nontrivial(&b);
    let t = hex(&b);
    eq(c, "id text", t.clone(), u.to_string(), t.clone());
    let mut buf = [0u8; 36];
    encode_canonical(&b, &mut buf);
    eq(c, "id text in place", t.clone(), String::from_utf8_lossy(&buf).to_string(), t.clone());
    // every accepted spelling, random letter case
    let mix = |r: &mut Rng, s: &str| -> String { s.chars().map(|ch| if r.bool() { ch.to_ascii_uppercase() } else { ch }).collect() };
    let m = mix(&mut c.rng, &t);
    let simple = m.replace('-', "");
    for s in [m.clone(), simple.clone(), format!("{{{m}}}"), format!("urn:uuid:{m}"), format!(" {m}\n")] {
        eq(c, "id parse", s.clone(), Uuid::parse(&s).map(|u| u.to_bytes()), Some(b));
    }
    // one altered byte: accepted exactly when it still spells an id
    let mut v = m.clone().into_bytes();
    let i = c.rng.below(36);
    v[i] = if c.rng.bool() { *c.rng.pick(b"gGxX/:@`-{} \x00\x7f09afAF") } else { c.rng.u8() & 0x7f };
    let s = String::from_utf8(v.clone()).unwrap();
    let ok = v.iter().enumerate().all(|(i, x)| if matches!(i, 8 | 13 | 18 | 23) { *x == b'-' } else { x.is_ascii_hexdigit() });
    if s.trim().len() == 36 {
        c.count(if ok { "altered ids still valid" } else { "altered ids refused" }, 1);
        let got = c.sut(&format!("parse {s:?}"), || Uuid::parse(&s));
        if let Some(got) = got {
            eq(c, "altered id parse", s.clone(), got.is_some(), ok);
            if let Some(g) = got {
                eq(c, "altered id value", s.clone(), hex(&g.to_bytes()), s.to_lowercase());
            }
        }
    }
    // batches
    let n = 1 + c.rng.below(9);
    let all: Vec<Uuid> = (0..n).map(|_| Uuid::from_bytes(b16(&mut c.rng))).collect();
    let packed: String = all.iter().map(|u| hex(u.as_bytes())).collect();
    eq(c, "batch text", format!("{n} ids"), encode_many(&all), packed.clone().into_bytes());
    eq(c, "batch parse", format!("{n} ids"), Uuid::parse_many(packed.as_bytes()), Some(all.clone()));
    let mut bad = packed.into_bytes();
    let at = c.rng.below(bad.len());
    if bad[at] != b'-' {
        bad[at] = b'g';
    } else {
        bad[at] = b'0';
    }
    eq(c, "damaged batch refused", format!("{n} ids, position {at}"), Uuid::parse_many(&bad).is_none(), true);
    // layouts
    let stamp = |mut x: [u8; 16], v: u8| {
        x[6] = x[6] & 0x0f | v << 4;
        x[8] = x[8] & 0x3f | 0x80;
        x
    };
    eq(c, "v4", t.clone(), Uuid::new_v4(b).to_bytes(), stamp(b, 4));
    eq(c, "v8", t.clone(), Uuid::new_v8(b).to_bytes(), stamp(b, 8));
    let name_len = *c.rng.pick(&[0usize, 1, 5, 20, 39, 40, 47, 48, 55, 56, 63, 64, 239, 240, 241, 500]);
    let name = c.rng.bytes(name_len);
    let mut m5 = md5::Md5::new();
    m5.update(b);
    m5.update(&name);
    eq(c, "v3", format!("{t} {name:02x?}"), Uuid::new_v3(u, &name).to_bytes(), stamp(m5.finalize().into(), 3));
    let mut s1 = sha1::Sha1::new();
    sha1::Digest::update(&mut s1, b);
    sha1::Digest::update(&mut s1, &name);
    let d: [u8; 20] = sha1::Digest::finalize(s1).into();
    eq(c, "v5", format!("{t} {name:02x?}"), Uuid::new_v5(u, &name).to_bytes(), stamp(d[..16].try_into().unwrap(), 5));
    let (ts, seq) = (c.rng.u64(), c.rng.u32() as u16);
    let node: [u8; 6] = c.rng.bytes(6).try_into().unwrap();
    let t60 = ts & ((1 << 60) - 1);
    let tail = |x: &mut [u8; 16]| {
        x[8..10].copy_from_slice(&seq.to_be_bytes());
        x[10..].copy_from_slice(&node);
    };
    let mut x = [0u8; 16];
    x[..4].copy_from_slice(&(t60 as u32).to_be_bytes());
    x[4..6].copy_from_slice(&((t60 >> 32) as u16).to_be_bytes());
    x[6..8].copy_from_slice(&((t60 >> 48) as u16).to_be_bytes());
    tail(&mut x);
    eq(c, "v1", format!("{ts} {seq} {node:?}"), Uuid::new_v1(ts, seq, node).to_bytes(), stamp(x, 1));
    let mut x = [0u8; 16];
    x[..6].copy_from_slice(&(t60 >> 12).to_be_bytes()[2..]);
    x[6..8].copy_from_slice(&((t60 & 0xfff) as u16).to_be_bytes());
    tail(&mut x);
    eq(c, "v6", format!("{ts} {seq} {node:?}"), Uuid::new_v6(ts, seq, node).to_bytes(), stamp(x, 6));
    let r10: [u8; 10] = c.rng.bytes(10).try_into().unwrap();
    let ms = ts >> 16;
    let mut x = [0u8; 16];
    x[..6].copy_from_slice(&ms.to_be_bytes()[2..]);
    x[6..].copy_from_slice(&r10);
    eq(c, "v7", format!("{ms}"), Uuid::new_v7(ms, r10).to_bytes(), stamp(x, 7));
    // ids made later sort later
    let later = (ms + 1 + c.rng.below(5) as u64) & 0xffff_ffff_ffff;
    if later > ms {
        eq(c, "v7 order", format!("{ms} {later}"), Uuid::new_v7(ms, [0xff; 10]) < Uuid::new_v7(later, [0; 10]), true);
    }
    let l60 = t60.wrapping_add(1 + c.rng.below(1 << 14) as u64);
    if l60 < 1 << 60 {
        eq(c, "v6 order", format!("{t60} {l60}"), Uuid::new_v6(t60, 0xffff, [0xff; 6]) < Uuid::new_v6(l60, 0, [0; 6]), true);
    }
    let want = match b[8] >> 5 {
        0..=3 => Variant::Ncs,
        4 | 5 => Variant::Rfc4122,
        6 => Variant::Microsoft,
        _ => Variant::Future,
    };
    eq(c, "variant", t.clone(), u.variant() == want, true);
    eq(c, "version", t, u.version(), b[6] >> 4);
}

pub fn check(rep: &Report) {
    rep.rule("random amounts in every catalogued unit and currency, and random identifiers; expected values come from a separately written unit table, num-rational and byte layouts written out from RFC 9562");
    let cat = catalogue();
    let names: HashSet<&str> = cat.iter().map(|u| u.name).collect();
    assert_eq!(names.len(), cat.len());
    rep.cases("quantities", scale(150_000, 1_500_000), |c| quantities(c, &cat));
    rep.cases("money", scale(250_000, 2_500_000), monies);
    rep.cases("identifiers", scale(150_000, 1_500_000), ids);
    rep.require("mixed dimensions refused", 1000);
    rep.require("mixed currencies refused", 1000);
    rep.require("altered ids refused", 1000);
    rep.require("altered ids still valid", 100);
}
