//! Values of every kind a message can carry, shaped so that every column form of
//! the codec is reached, and an exact text form to compare them by.
use logicaffeine_base::quantity::units as u;
use logicaffeine_base::word::{Word32, Word64, WordVal};
use logicaffeine_base::{BigInt, Complex, Decimal, Modular, Quantity, Rational, Uuid};
use logicaffeine_base::money::Money;
use logicaffeine_compile::interpreter::{
    InductiveValue, ListRepr, MapStorage, QuantityValue, RuntimeValue as V, StructValue,
};
use std::cell::RefCell;
use std::rc::Rc;
use vkit::Rng;

pub fn list(vs: Vec<V>) -> V {
    V::List(Rc::new(RefCell::new(ListRepr::from_values(vs))))
}
pub fn text(s: &str) -> V {
    V::Text(Rc::new(s.to_string()))
}

/// Integer columns by the law that generates them.
pub fn ints(r: &mut Rng, n: usize) -> Vec<i64> {
    let base = if r.chance(1, 3) { r.edgy_i64() } else { r.range(-2000, 2000) };
    let kind = r.below(18);
    let mut v: Vec<i64> = match kind {
        0 => {
            let st = if r.bool() { r.range(-9, 9) } else { r.edgy_i64() };
            (0..n).map(|i| base.wrapping_add(st.wrapping_mul(i as i64))).collect()
        }
        1 => {
            let mut a = base;
            (0..n).map(|_| { a = a.wrapping_add(r.range(0, 7)); a }).collect()
        }
        2 => {
            let (mut a, mut d) = (base, r.range(-5, 5));
            (0..n).map(|_| { d += r.range(-1, 1); a = a.wrapping_add(d); a }).collect()
        }
        3 => { let top = 1 << r.below(40); (0..n).map(|_| base.wrapping_add(r.range(0, top))).collect() },
        4 => {
            let mut x = r.edgy_i64();
            (0..n).map(|_| { if r.chance(1, 6) { x = r.edgy_i64(); } x }).collect()
        }
        5 => {
            let d: Vec<i64> = (0..1 + r.below(5)).map(|_| r.edgy_i64()).collect();
            (0..n).map(|_| *r.pick(&d)).collect()
        }
        6 => {
            let c: Vec<i64> = (0..1 + r.below(5)).map(|_| r.range(-30, 30)).collect();
            (0..n as i64).map(|i| c.iter().rev().fold(0i64, |a, k| a.wrapping_mul(i).wrapping_add(*k))).collect()
        }
        7 => {
            let q = r.range(-4, 5);
            let mut a = r.range(-5, 5);
            (0..n).map(|_| { let x = a; a = a.wrapping_mul(q); x }).collect()
        }
        8 => {
            let p: Vec<i64> = (0..1 + r.below(9)).map(|_| r.range(-500, 500)).collect();
            (0..n).map(|i| p[i % p.len()]).collect()
        }
        9 => (0..n).map(|_| if r.chance(1, 12) { r.edgy_i64() } else { base }).collect(),
        10 => {
            let (c1, c2) = (r.range(-3, 3), r.range(-3, 3));
            let (mut a, mut b) = (r.range(-9, 9), r.range(-9, 9));
            (0..n).map(|_| { let x = a; let t = c1.wrapping_mul(b).wrapping_add(c2.wrapping_mul(a)); a = b; b = t; x }).collect()
        }
        11 => {
            let mut s = r.u32() | 1;
            (0..n).map(|_| { let b = s & 1; s = (s >> 1) ^ (0u32.wrapping_sub(b) & 0xB400); b as i64 }).collect()
        }
        12 => (0..n).map(|_| r.u8() as i64).collect(),
        13 => (0..n).map(|_| r.edgy_i64()).collect(),
        14 => (0..n as i64).map(|i| (i * r.range(3, 3)) % 7 + base % 100).collect(),
        15 => (0..n as i64).map(|i| if i % 3 == 0 { i } else { -i }).collect(),
        16 => (0..n).map(|_| r.i64()).collect(),
        _ => (0..n).map(|_| r.range(-3, 200)).collect(),
    };
    // One element off the law: the law must not be applied to it.
    if n > 2 && r.chance(1, 4) {
        let i = r.below(n);
        v[i] = if r.bool() { v[i].wrapping_add(r.range(-1, 1)) } else { r.edgy_i64() };
    }
    v
}

fn fl(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::from_bits(0x7ff8_0000_0000_0001 | (r.u64() & 0xffff) << 3),
        5 => f64::from_bits(r.u64()),
        6 => f64::MIN_POSITIVE / 3.0,
        7 => r.range(-100, 100) as f64,
        8 => f64::MAX,
        9 => r.range(-1000, 1000) as f64 / 8.0,
        _ => (r.f64() - 0.5) * 10f64.powi(r.range(-20, 20) as i32),
    }
}

pub fn floats(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = match r.below(8) {
        0 => { let x = fl(r); vec![x; n] }
        1 => { let (a, s) = (r.range(-50, 50) as f64 / 4.0, r.range(-9, 9) as f64 / 2.0); (0..n).map(|i| a + i as f64 * s).collect() }
        2 => { let x = fl(r); (0..n).map(|_| if r.chance(1, 12) { fl(r) } else { x }).collect() }
        3 => { let p: Vec<f64> = (0..1 + r.below(6)).map(|_| fl(r)).collect(); (0..n).map(|i| p[i % p.len()]).collect() }
        4 => { let (mut a, q) = (r.range(1, 9) as f64, [2.0, 0.5, -1.5, 3.0, 0.1][r.below(5)]); (0..n).map(|_| { let x = a; a *= q; x }).collect() }
        5 => { let mut a = 20.0; (0..n).map(|_| { a += (r.f64() - 0.5) * 0.1; a }).collect() }
        6 => { let a = r.f64() * 10.0; (0..n).map(|i| a + i as f64 * 0.1).collect() }
        _ => (0..n).map(|_| fl(r)).collect(),
    };
    if n > 2 && r.chance(1, 4) {
        let i = r.below(n);
        v[i] = if r.bool() { -v[i] } else { fl(r) };
    }
    v
}

pub fn word(r: &mut Rng) -> String {
    const P: &[&str] = &["", "a", "ab", "é", "日本", "user-", "item", "x\0y", "\u{10ffff}", "line\nbreak", "\"q\"", "zz", "-", "0"];
    let mut s = String::new();
    for _ in 0..r.below(4) {
        s.push_str(r.pick::<&str>(P));
    }
    if r.chance(1, 20) {
        s.push_str(&"long".repeat(r.below(90)));
    }
    s
}

pub fn strings(r: &mut Rng, n: usize) -> Vec<String> {
    let w = word(r);
    let x = word(r);
    let mut v: Vec<String> = match r.below(9) {
        0 => (0..n).map(|i| format!("{w}{i}{x}")).collect(),
        1 => (0..n).map(|i| format!("{w}{i:05}")).collect(),
        2 => { let d: Vec<String> = (0..1 + r.below(4)).map(|_| word(r)).collect(); (0..n).map(|_| r.pick(&d).clone()).collect() }
        3 => (0..n).map(|i| format!("{w}/{}/{}{x}", i / 10, i % 10)).collect(),
        4 => (0..n).map(|_| format!("{w}{}{x}", r.range(-50, 5000))).collect(),
        5 => (0..n).map(|i| format!("{w}{:03}-{}", i, r.range(0, 99))).collect(),
        6 => (0..n).map(|i| format!("{}{w}", 7 * i as i64 - 3)).collect(),
        7 => { let mut p = String::new(); (0..n).map(|_| { if r.chance(1, 3) && !p.is_empty() { p.pop(); } else { p.push(*r.pick(&['a', 'b', 'é'])); } p.clone() }).collect() }
        _ => (0..n).map(|_| word(r)).collect(),
    };
    if n > 2 && r.chance(1, 4) {
        let i = r.below(n);
        v[i] = if r.bool() { word(r) } else { format!("{}0", v[i]) };
    }
    if r.chance(1, 6) {
        v.sort();
    }
    v
}

fn big(r: &mut Rng) -> BigInt {
    let k = 1 + r.below(40);
    BigInt::from_le_bytes(r.bool(), &r.bytes(k))
}
fn rat(r: &mut Rng) -> Rational {
    loop {
        let (a, b) = if r.bool() { (BigInt::from_i64(r.range(-99, 99)), BigInt::from_i64(r.range(1, 60))) } else { (big(r), big(r)) };
        if let Some(q) = Rational::new(a, b) {
            return q;
        }
    }
}

/// A quantity in a unit the receiver can find by the symbol it travels under, so
/// that it also reads the same; other units arrive in base units, as documented.
pub fn quantity(r: &mut Rng) -> V {
    let n = ["m", "km", "cm", "in", "ft", "yd", "mi", "kg", "g", "mg", "lb", "oz", "h", "min", "m/s", "km/h", "kn", "gal", "pt", "bar", "psi"];
    let unit = u::by_name(r.pick::<&str>(&n)).expect("unit");
    let q = Quantity::of(rat(r), &unit);
    V::Quantity(Rc::new(QuantityValue { q, unit }))
}

pub fn odd_quantity(r: &mut Rng) -> V {
    let us = [u::celsius(), u::fahrenheit(), u::kelvin(), u::litre(), u::acre(), u::week(), u::us_pint(), u::megametre(), u::tesla(), u::byte(), u::mile_per_gallon()];
    let unit = r.pick(&us).clone();
    let q = Quantity::of(rat(r), &unit);
    V::Quantity(Rc::new(QuantityValue { q, unit }))
}

pub fn scalar(r: &mut Rng) -> V {
    match r.below(24) {
        0 | 1 => V::Int(r.edgy_i64()),
        2 => V::from_bigint(big(r)),
        3 => V::from_rational(rat(r)),
        4 => {
            let k = 1 + r.below(14);
            V::Decimal(Rc::new(Decimal::from_le_bytes(r.bool(), &r.bytes(k), r.below(30) as u32)))
        }
        5 => V::Complex(Rc::new(Complex::new(rat(r), rat(r)))),
        6 => match Modular::new(big(r), big(r)) {
            Some(m) => V::Modular(Rc::new(m)),
            None => V::Nothing,
        },
        7 | 8 => V::Float(fl(r)),
        9 => V::Bool(r.bool()),
        10 | 11 => text(&word(r)),
        12 => V::Char(*r.pick(&['a', '\0', 'é', '日', '\u{10ffff}', '"', '\\'])),
        13 => V::Nothing,
        14 => V::Duration(r.edgy_i64()),
        15 => V::Date(r.edgy_i64() as i32),
        16 => V::Moment(r.edgy_i64()),
        17 => V::Span { months: r.edgy_i64() as i32, days: r.edgy_i64() as i32 },
        18 => V::Time(r.edgy_i64()),
        19 => V::Peer(Rc::new(word(r))),
        20 => V::Word(if r.bool() { WordVal::W32(Word32(r.u32())) } else { WordVal::W64(Word64(r.u64())) }),
        21 => quantity(r),
        22 => {
            let c = logicaffeine_base::currency::by_code(r.pick::<&str>(&["USD", "EUR", "JPY", "GBP"])).expect("currency");
            let k = 1 + r.below(10);
            V::Money(Rc::new(Money::of(Decimal::from_le_bytes(r.bool(), &r.bytes(k), r.below(5) as u32), c)))
        }
        _ => {
            let mut b = [0u8; 16];
            b.copy_from_slice(&r.bytes(16));
            V::Uuid(Rc::new(Uuid::from_bytes(b)))
        }
    }
}

const TYPES: &[(&str, &[&str])] = &[
    ("Point", &["x", "y"]),
    ("Reading", &["at", "label", "ok", "value"]),
    ("Empty", &[]),
    ("Node", &["next", "tag"]),
    ("Wide", &["a", "b", "c", "d", "e", "f", "g", "h", "i"]),
];
pub const ENUMS: &[(&str, &[(&str, usize)])] =
    &[("Shape", &[("Circle", 1), ("Rect", 2), ("Dot", 0)]), ("Colour", &[("Red", 0), ("Green", 0), ("Blue", 0)]), ("Tree", &[("Leaf", 0), ("Fork", 2)])];

pub fn schemas() -> Vec<(String, Vec<String>)> {
    TYPES.iter().map(|(n, f)| (n.to_string(), f.iter().map(|x| x.to_string()).collect())).collect()
}
pub fn enums() -> Vec<(String, Vec<String>)> {
    ENUMS.iter().map(|(n, c)| (n.to_string(), c.iter().map(|x| x.0.to_string()).collect())).collect()
}

fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4..=7 => r.below(40),
        8 => r.below(130),
        _ => r.below(600),
    }
}

/// A field's values across `n` rows.
fn column(r: &mut Rng, n: usize, depth: usize) -> Vec<V> {
    match r.below(7) {
        0 | 1 => ints(r, n).into_iter().map(V::Int).collect(),
        2 => floats(r, n).into_iter().map(V::Float).collect(),
        3 => strings(r, n).iter().map(|s| text(s)).collect(),
        4 => (0..n).map(|_| V::Bool(r.chance(1, 4))).collect(),
        5 => (0..n).map(|_| scalar(r)).collect(),
        _ if depth > 0 && n < 20 => (0..n).map(|_| value(r, depth - 1)).collect(),
        _ => (0..n).map(|i| V::Int(i as i64)).collect(),
    }
}

fn strukt(t: &(&str, &[&str]), vals: Vec<V>) -> V {
    V::Struct(Box::new(StructValue {
        type_name: t.0.to_string(),
        fields: t.1.iter().map(|f| f.to_string()).zip(vals).collect(),
    }))
}

pub fn rows(r: &mut Rng, n: usize, depth: usize) -> V {
    let t = r.pick(TYPES);
    let cols: Vec<Vec<V>> = t.1.iter().map(|_| column(r, n, depth)).collect();
    let mut vs: Vec<V> = (0..n).map(|i| strukt(t, cols.iter().map(|c| c[i].clone()).collect())).collect();
    if n > 1 && r.chance(1, 8) {
        let i = r.below(n);
        let t2 = r.pick(TYPES);
        let vals = t2.1.iter().map(|_| scalar(r)).collect();
        vs[i] = strukt(t2, vals);
    }
    list(vs)
}

fn variant(r: &mut Rng, e: &(&str, &[(&str, usize)]), depth: usize) -> V {
    let c = r.pick(e.1);
    let args = (0..c.1)
        .map(|_| if depth > 0 && e.0 == "Tree" { variant(r, e, depth - 1) } else { V::Int(r.range(-9, 99)) })
        .collect();
    V::Inductive(Box::new(InductiveValue { inductive_type: e.0.to_string(), constructor: c.0.to_string(), args }))
}

fn dedup(vs: Vec<V>) -> Vec<V> {
    let mut seen = std::collections::HashSet::new();
    let mut out: Vec<V> = vec![];
    for v in vs {
        // Equal by the language's equality is one member, whatever its spelling.
        if seen.insert(canon(&v)) && !out.iter().any(|o| *o == v) {
            out.push(v);
        }
    }
    out
}

fn orderly(v: &V) -> bool {
    !matches!(v, V::Float(f) if f.is_nan())
}

pub fn value(r: &mut Rng, depth: usize) -> V {
    if depth == 0 {
        return if r.chance(1, 3) { let n = r.below(12); list(ints(r, n).into_iter().map(V::Int).collect()) } else { scalar(r) };
    }
    let n = size(r);
    match r.below(17) {
        0 => scalar(r),
        1 | 2 | 3 => list(ints(r, n).into_iter().map(V::Int).collect()),
        4 => list(floats(r, n).into_iter().map(V::Float).collect()),
        5 | 6 => list(strings(r, n).iter().map(|s| text(s)).collect()),
        7 => {
            let b: Vec<V> = match r.below(3) {
                0 => (0..n).map(|i| V::Bool(i % 3 == 0)).collect(),
                1 => { let mut x = r.bool(); (0..n).map(|_| { if r.chance(1, 9) { x = !x; } V::Bool(x) }).collect() }
                _ => (0..n).map(|_| V::Bool(r.bool())).collect(),
            };
            list(b)
        }
        8 | 9 => rows(r, n, depth - 1),
        10 => {
            let e = r.pick(ENUMS);
            let k = n.min(60);
            list((0..k).map(|_| variant(r, e, 2)).collect())
        }
        11 => {
            let k = n.min(30);
            list((0..k).map(|_| value(r, depth - 1)).collect())
        }
        12 => V::Tuple(Rc::new((0..r.below(5)).map(|_| value(r, depth - 1)).collect())),
        13 => {
            let vs: Vec<V> = match r.below(3) {
                0 => ints(r, n).into_iter().map(V::Int).collect(),
                1 => strings(r, n).iter().map(|s| text(s)).collect(),
                _ => (0..n.min(20)).map(|_| scalar(r)).filter(orderly).collect(),
            };
            V::Set(Rc::new(RefCell::new(dedup(vs))))
        }
        14 => {
            let ks: Vec<V> = match r.below(3) {
                0 => ints(r, n).into_iter().map(V::Int).collect(),
                1 => strings(r, n).iter().map(|s| text(s)).collect(),
                _ => (0..n.min(20)).map(|_| scalar(r)).filter(orderly).collect(),
            };
            let ks = dedup(ks);
            let vs = column(r, ks.len(), depth - 1);
            let mut m = MapStorage::default();
            for (k, v) in ks.into_iter().zip(vs) {
                m.insert(k, v);
            }
            V::Map(Rc::new(RefCell::new(m)))
        }
        15 => {
            let t = r.pick(TYPES);
            let vals = t.1.iter().map(|_| value(r, depth - 1)).collect();
            strukt(t, vals)
        }
        _ => {
            // One shared part reached from several places.
            let s = value(r, depth - 1);
            let mut vs: Vec<V> = (0..2 + r.below(5)).map(|_| s.clone()).collect();
            if r.bool() {
                vs.push(V::Int(1));
            }
            if r.bool() { V::Tuple(Rc::new(vs)) } else { list(vs) }
        }
    }
}

/// Exact text of a value. Sets and maps are unordered here; `ordered` keeps their order.
pub fn canon(v: &V) -> String {
    let mut s = String::new();
    put(v, false, &mut s);
    s
}
/// The text of the value as the JSON form's number reader gives it back: that reader
/// can be one unit out in the last place (a recorded finding with its own probe).
pub fn canon_json(v: &V) -> String {
    let mut s = String::new();
    JSON.with(|j| j.set(true));
    put(v, false, &mut s);
    JSON.with(|j| j.set(false));
    s
}
thread_local!(static JSON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
pub fn json_float(f: f64) -> f64 {
    serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap()
}
pub fn canon_ordered(v: &V) -> String {
    let mut s = String::new();
    put(v, true, &mut s);
    s
}

fn put(v: &V, ord: bool, o: &mut String) {
    use std::fmt::Write;
    let seq = |open: &str, vs: &[V], sort: bool, o: &mut String| {
        o.push_str(open);
        let mut parts: Vec<String> = vs.iter().map(|x| { let mut t = String::new(); put(x, ord, &mut t); t }).collect();
        if sort {
            parts.sort();
        }
        o.push_str(&parts.join(","));
        o.push(')');
    };
    match v {
        V::Int(n) => write!(o, "i{n}").unwrap(),
        V::BigInt(b) => write!(o, "big{b}").unwrap(),
        V::Rational(q) => write!(o, "rat{}/{}", q.numerator(), q.denominator()).unwrap(),
        V::Decimal(d) => write!(o, "dec{:?}", d.to_le_bytes()).unwrap(),
        V::Complex(c) => write!(o, "cx{}/{}+{}/{}", c.re().numerator(), c.re().denominator(), c.im().numerator(), c.im().denominator()).unwrap(),
        V::Modular(m) => write!(o, "mod{}%{}", m.value(), m.modulus()).unwrap(),
        V::Float(f) if JSON.with(|j| j.get()) => write!(o, "f{:016x}", json_float(*f).to_bits()).unwrap(),
        V::Float(f) => write!(o, "f{:016x}", f.to_bits()).unwrap(),
        V::Bool(b) => write!(o, "{b}").unwrap(),
        V::Text(t) => write!(o, "t{t:?}").unwrap(),
        V::Char(c) => write!(o, "c{c:?}").unwrap(),
        V::List(l) => seq("L(", &l.borrow().to_values(), false, o),
        V::Tuple(t) => seq("T(", t, false, o),
        V::Set(s) => seq("S(", &s.borrow(), !ord, o),
        V::Map(m) => {
            let mut parts: Vec<String> = m
                .borrow()
                .iter()
                .map(|(k, x)| { let mut t = String::new(); put(k, ord, &mut t); t.push_str("=>"); put(x, ord, &mut t); t })
                .collect();
            if !ord {
                parts.sort();
            }
            write!(o, "M({})", parts.join(",")).unwrap()
        }
        V::Struct(s) => {
            let mut parts: Vec<String> =
                s.fields.iter().map(|(k, x)| { let mut t = format!("{k}:"); put(x, ord, &mut t); t }).collect();
            parts.sort();
            write!(o, "{}{{{}}}", s.type_name, parts.join(",")).unwrap()
        }
        V::Inductive(i) => {
            write!(o, "{}::{}", i.inductive_type, i.constructor).unwrap();
            seq("(", &i.args, false, o)
        }
        V::Nothing => o.push_str("nothing"),
        V::Duration(n) => write!(o, "dur{n}").unwrap(),
        V::Date(n) => write!(o, "date{n}").unwrap(),
        V::Moment(n) => write!(o, "mom{n}").unwrap(),
        V::Span { months, days } => write!(o, "span{months},{days}").unwrap(),
        V::Time(n) => write!(o, "time{n}").unwrap(),
        V::Peer(p) => write!(o, "peer{p:?}").unwrap(),
        V::Word(w) => write!(o, "w{}:{}", w.width(), w.to_u64()).unwrap(),
        V::Quantity(q) => write!(o, "q{}/{} {}", q.q.magnitude_si().numerator(), q.q.magnitude_si().denominator(), q.q.dimension()).unwrap(),
        V::Money(m) => write!(o, "money{:?}{}", m.amount.to_le_bytes(), m.currency.code).unwrap(),
        V::Uuid(x) => write!(o, "uuid{:?}", x.to_bytes()).unwrap(),
        other => write!(o, "?{other:?}").unwrap(),
    }
}

pub fn finite(v: &V) -> bool {
    match v {
        V::Float(f) => f.is_finite(),
        V::List(l) => l.borrow().to_values().iter().all(finite),
        V::Tuple(t) => t.iter().all(finite),
        V::Set(s) => s.borrow().iter().all(finite),
        V::Map(m) => m.borrow().iter().all(|(k, x)| finite(k) && finite(x)),
        V::Struct(s) => s.fields.values().all(finite),
        V::Inductive(i) => i.args.iter().all(finite),
        _ => true,
    }
}
