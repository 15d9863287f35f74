//! Program shapes an optimiser recognises, with their details drawn at random:
//! bounds, strides, off-by-ones, divisors, early exits, aliasing, overflow.
use crate::gen::*;
use crate::make::Maker;

type F = fn(&mut Maker, &mut Vec<S>);

pub fn any(m: &mut Maker, out: &mut Vec<S>) {
    loop {
        let (tag, need, f) = TABLE[m.r.below(TABLE.len())];
        let ok = match need {
            "" => true,
            "maps" => m.cfg.maps,
            "text" => m.cfg.text,
            "floats" => m.cfg.floats,
            "closures" => m.cfg.closures,
            "structs" => m.cfg.structs,
            "enums" => m.cfg.enums,
            "sets" => m.cfg.sets,
            "big" => m.cfg.big,
            "nested" => m.cfg.nested,
            _ => false,
        };
        if ok {
            m.p.tags.push(tag);
            f(m, out);
            return;
        }
    }
}

pub const TABLE: &[(&str, &str, F)] = &[
    ("closed_sum", "", closed_sum),
    ("fill_sum", "", fill_sum),
    ("prefix", "", prefix_sum),
    ("reverse", "", reverse),
    ("rotate", "", rotate),
    ("bubble", "", bubble),
    ("sieve", "", sieve),
    ("histogram", "", histogram),
    ("dp", "", dp),
    ("bsearch", "", bsearch),
    ("matrix", "", matrix),
    ("divloop", "", divloop),
    ("lcg", "", lcg),
    ("bits", "", bits),
    ("tailrec", "", tailrec),
    ("fib", "", fib),
    ("gcd", "", gcd),
    ("mutual", "", mutual),
    ("ackermann", "", ackermann),
    ("static_arg", "", static_arg),
    ("licm", "", licm),
    ("cse", "", cse),
    ("alias", "", alias),
    ("alias_loop", "", alias_loop),
    ("step_exit", "", step_exit),
    ("break_mid", "", break_mid),
    ("rebind", "", rebind),
    ("pipeline", "", pipeline),
    ("seq_fn", "", seq_fn),
    ("shrinking", "", shrinking),
    ("early", "", early),
    ("queens", "", queens),
    ("dead", "", dead),
    ("merge", "", merge),
    ("collatz", "", collatz),
    ("slices", "", slices),
    ("nested_loops", "", nested_loops),
    ("split_loop", "", split_loop),
    ("affine_arr", "", affine_arr),
    ("recursive_seq", "", recursive_seq),
    ("overflow_acc", "big", overflow_acc),
    ("factorial", "big", factorial),
    ("edge_arith", "big", edge_arith),
    ("i32_edge", "big", i32_edge),
    ("powmod", "", powmod),
    ("map_count", "maps", map_count),
    ("map_sparse", "maps", map_sparse),
    ("two_sum", "maps", two_sum),
    ("memo_map", "maps", memo_map),
    ("strbuild", "text", strbuild),
    ("strsearch", "text", strsearch),
    ("char_freq", "text", char_freq),
    ("floats", "floats", floats),
    ("leibniz", "floats", leibniz),
    ("mandel", "floats", mandel),
    ("hof", "closures", hof),
    ("capture", "closures", capture),
    ("structs", "structs", structs),
    ("soa", "structs", soa),
    ("tree", "enums", tree),
    ("shapes", "enums", shapes),
    ("set_ops", "sets", set_ops),
    ("grid", "nested", grid),
    ("rows_alias", "nested", rows_alias),
];

fn hot(m: &mut Maker) -> i64 {
    match m.r.below(5) {
        0 => m.r.range(0, 3),
        1 => m.r.range(3, 30),
        _ => m.r.range(30, m.cfg.hot.max(31)),
    }
}
fn small(m: &mut Maker) -> i64 {
    m.r.range(0, 14)
}
/// `for`/`while` from lo while < or <= n, in either surface.
fn count_loop(m: &mut Maker, out: &mut Vec<S>, i: &str, lo: i64, hi_incl: E, body: Vec<S>) {
    if m.r.chance(1, 3) {
        out.push(S::ForRange(i.into(), int(lo), hi_incl, body));
    } else {
        out.push(letm(i, int(lo)));
        let mut bd = body;
        bd.push(incr(i, 1));
        let c = if m.r.bool() { bin(Op::Le, v(i), hi_incl) } else { lt(v(i), add(hi_incl, int(1))) };
        out.push(while_(c, bd));
    }
}
fn fill_seq(m: &mut Maker, out: &mut Vec<S>, n: i64) -> String {
    let (xs, i) = (m.fresh("xs"), m.fresh("i"));
    out.push(letm(&xs, E::NewSeq(Ty::Int)));
    let (a, c, k) = (m.r.range(-9, 40), m.r.range(-50, 50), *m.r.pick(&[5i64, 10, 17, 100, 1000]));
    let e = match m.r.below(4) {
        0 => add(mul(v(&i), int(a)), int(c)),
        1 => modulo(add(mul(v(&i), int(a.abs() + 1)), int(c.abs())), int(k)),
        2 => int(c),
        _ => sub(modulo(mul(mul(v(&i), v(&i)), int(a)), int(k)), int(c)),
    };
    count_loop(m, out, &i, 0, int(n - 1), vec![push(e, &xs)]);
    xs
}

fn closed_sum(m: &mut Maker, out: &mut Vec<S>) {
    let (s, i) = (m.fresh("s"), m.fresh("i"));
    let n = hot(m);
    let (a, c) = (m.r.range(-7, 7), m.r.range(-100, 100));
    out.push(letm(&s, int(m.r.range(-5, 5))));
    let lo = m.r.range(-2, 3);
    let term = match m.r.below(5) {
        0 => v(&i),
        1 => add(mul(v(&i), int(a)), int(c)),
        2 => mul(v(&i), v(&i)),
        3 => int(c),
        _ => mul(mul(v(&i), v(&i)), v(&i)),
    };
    let o = *m.r.pick(&[Op::Add, Op::Add, Op::Sub]);
    let mut body = vec![set(&s, bin(o, v(&s), term))];
    let step = if m.r.chance(1, 4) { m.r.range(2, 5) } else { 1 };
    body.push(incr(&i, step));
    if m.r.chance(1, 5) {
        // the counter is read after its increment
        body.push(set(&s, add(v(&s), v(&i))));
    }
    out.push(letm(&i, int(lo)));
    let c = *m.r.pick(&[Op::Lt, Op::Le]);
    out.push(while_(bin(c, v(&i), int(n)), body));
    out.push(show(v(&s)));
    out.push(show(v(&i)));
    m.export(&s, Ty::Int, true);
}
fn fill_sum(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let xs = fill_seq(m, out, n);
    let (s, x) = (m.fresh("s"), m.fresh("x"));
    out.push(letm(&s, int(0)));
    if m.r.bool() {
        out.push(S::ForIn(x.clone(), v(&xs), vec![set(&s, add(v(&s), v(&x)))]));
    } else {
        let body = vec![set(&s, modulo(add(mul(v(&s), int(31)), idx(v(&xs), v(&x))), int(1000000007)))];
        count_loop(m, out, &x, 1, len(v(&xs)), body);
    }
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
    m.export(&xs, Ty::seq(Ty::Int), true);
}
fn prefix_sum(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).max(1);
    let xs = fill_seq(m, out, n);
    let i = m.fresh("i");
    let k = m.r.range(1, 3);
    let body = vec![S::SetIdx(
        xs.clone(),
        v(&i),
        modulo(add(idx(v(&xs), v(&i)), idx(v(&xs), sub(v(&i), int(k)))), int(1000003)),
    )];
    count_loop(m, out, &i, k + 1, len(v(&xs)), body);
    out.push(show(idx(v(&xs), int(n))));
    if n < 40 {
        out.push(show(v(&xs)));
    }
    m.export(&xs, Ty::seq(Ty::Int), true);
}
fn reverse(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let xs = fill_seq(m, out, n);
    let (lo, hi, t) = (m.fresh("lo"), m.fresh("hi"), m.fresh("t"));
    let ys = m.fresh("ys");
    out.push(letm(&ys, v(&xs)));
    out.push(letm(&lo, int(1)));
    let top = if m.r.bool() || n == 0 { len(v(&xs)) } else { int(m.r.range(1, n)) };
    out.push(letm(&hi, top));
    out.push(while_(
        lt(v(&lo), v(&hi)),
        vec![
            let_(&t, idx(v(&xs), v(&lo))),
            S::SetIdx(xs.clone(), v(&lo), idx(v(&xs), v(&hi))),
            S::SetIdx(xs.clone(), v(&hi), v(&t)),
            incr(&lo, 1),
            set(&hi, sub(v(&hi), int(1))),
        ],
    ));
    out.push(show(bin(Op::Eq, v(&xs), v(&ys))));
    if n < 60 {
        out.push(show(v(&xs)));
        out.push(show(v(&ys)));
    }
    m.export(&xs, Ty::seq(Ty::Int), true);
}
fn rotate(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).max(2);
    let xs = fill_seq(m, out, n);
    let (t, i, k) = (m.fresh("t"), m.fresh("i"), m.fresh("k"));
    let rounds = m.r.range(1, 3);
    let body = vec![
        let_(&t, idx(v(&xs), int(1))),
        letm(&i, int(1)),
        while_(lt(v(&i), len(v(&xs))), vec![S::SetIdx(xs.clone(), v(&i), idx(v(&xs), add(v(&i), int(1)))), incr(&i, 1)]),
        S::SetIdx(xs.clone(), len(v(&xs)), v(&t)),
    ];
    out.push(S::ForRange(k, int(1), int(rounds), body));
    out.push(show(idx(v(&xs), int(1))));
    if n < 60 {
        out.push(show(v(&xs)));
    }
    m.export(&xs, Ty::seq(Ty::Int), true);
}
fn bubble(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(0, 22);
    let xs = fill_seq(m, out, n);
    let (i, j, x, y) = (m.fresh("i"), m.fresh("j"), m.fresh("x"), m.fresh("y"));
    let c = *m.r.pick(&[Op::Gt, Op::Lt]);
    out.push(letm(&i, int(0)));
    out.push(while_(
        lt(v(&i), len(v(&xs))),
        vec![
            letm(&j, int(1)),
            while_(
                lt(v(&j), sub(len(v(&xs)), v(&i))),
                vec![
                    let_(&x, idx(v(&xs), v(&j))),
                    let_(&y, idx(v(&xs), add(v(&j), int(1)))),
                    if_(
                        bin(c, v(&x), v(&y)),
                        vec![S::SetIdx(xs.clone(), v(&j), v(&y)), S::SetIdx(xs.clone(), add(v(&j), int(1)), v(&x))],
                    ),
                    incr(&j, 1),
                ],
            ),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&xs)));
    m.export(&xs, Ty::seq(Ty::Int), true);
}
fn sieve(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).max(2);
    let (fl, i, j, c) = (m.fresh("fl"), m.fresh("i"), m.fresh("j"), m.fresh("c"));
    out.push(letm(&fl, E::NewSeq(Ty::Bool)));
    out.push(letm(&i, int(0)));
    out.push(while_(bin(Op::Le, v(&i), int(n)), vec![push(E::Bool(true), &fl), incr(&i, 1)]));
    out.push(letm(&c, int(0)));
    out.push(set(&i, int(2)));
    out.push(while_(
        bin(Op::Le, v(&i), int(n)),
        vec![
            if_(
                idx(v(&fl), v(&i)),
                vec![
                    incr(&c, 1),
                    letm(&j, mul(v(&i), v(&i))),
                    while_(bin(Op::Le, v(&j), int(n)), vec![S::SetIdx(fl.clone(), v(&j), E::Bool(false)), set(&j, add(v(&j), v(&i)))]),
                ],
            ),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&c)));
    m.export(&c, Ty::Int, true);
}
fn histogram(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let k = m.r.range(1, 12);
    let (h, i, x, sd) = (m.fresh("h"), m.fresh("i"), m.fresh("x"), m.fresh("sd"));
    out.push(letm(&h, E::NewSeq(Ty::Int)));
    out.push(letm(&i, int(0)));
    out.push(while_(lt(v(&i), int(k)), vec![push(int(0), &h), incr(&i, 1)]));
    out.push(letm(&sd, int(m.r.range(1, 1000))));
    out.push(set(&i, int(0)));
    out.push(while_(
        lt(v(&i), int(n)),
        vec![
            set(&sd, modulo(add(mul(v(&sd), int(1103515245)), int(12345)), int(2147483648))),
            let_(&x, add(modulo(bin(Op::Div, v(&sd), int(65536)), int(k)), int(1))),
            S::SetIdx(h.clone(), v(&x), add(idx(v(&h), v(&x)), int(1))),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&h)));
    m.export(&h, Ty::seq(Ty::Int), true);
}
fn dp(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(1, 120);
    let (d, cs, c, j, i) = (m.fresh("d"), m.fresh("cs"), m.fresh("c"), m.fresh("j"), m.fresh("i"));
    let coins: Vec<E> = (0..m.r.range(1, 4)).map(|_| int(m.r.range(1, 25))).collect();
    out.push(letm(&d, E::List(vec![int(1)])));
    out.push(letm(&cs, E::List(coins)));
    out.push(letm(&i, int(1)));
    out.push(while_(bin(Op::Le, v(&i), int(n)), vec![push(int(0), &d), incr(&i, 1)]));
    out.push(S::ForIn(
        c.clone(),
        v(&cs),
        vec![
            letm(&j, v(&c)),
            while_(
                bin(Op::Le, v(&j), int(n)),
                vec![
                    S::SetIdx(
                        d.clone(),
                        add(v(&j), int(1)),
                        modulo(add(idx(v(&d), add(v(&j), int(1))), idx(v(&d), add(sub(v(&j), v(&c)), int(1)))), int(1000000007)),
                    ),
                    incr(&j, 1),
                ],
            ),
        ],
    ));
    out.push(show(idx(v(&d), int(n + 1))));
    m.export(&d, Ty::seq(Ty::Int), true);
}
fn bsearch(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).max(1);
    let (xs, i, lo, hi, mid, f, t) = (m.fresh("xs"), m.fresh("i"), m.fresh("lo"), m.fresh("hi"), m.fresh("mid"), m.fresh("f"), m.fresh("t"));
    let a = m.r.range(1, 9);
    out.push(letm(&xs, E::NewSeq(Ty::Int)));
    count_loop(m, out, &i, 1, int(n), vec![push(mul(v(&i), int(a)), &xs)]);
    out.push(letm(&f, int(0)));
    let target = m.r.range(0, n * a + 2);
    out.push(let_(&t, int(target)));
    out.push(letm(&lo, int(1)));
    out.push(letm(&hi, len(v(&xs))));
    out.push(while_(
        bin(Op::And, bin(Op::Le, v(&lo), v(&hi)), bin(Op::Eq, v(&f), int(0))),
        vec![
            let_(&mid, bin(Op::Div, add(v(&lo), v(&hi)), int(2))),
            S::If(
                vec![
                    (bin(Op::Eq, idx(v(&xs), v(&mid)), v(&t)), vec![set(&f, v(&mid))]),
                    (lt(idx(v(&xs), v(&mid)), v(&t)), vec![set(&lo, add(v(&mid), int(1)))]),
                ],
                Some(vec![set(&hi, sub(v(&mid), int(1)))]),
            ),
        ],
    ));
    out.push(show(v(&f)));
    out.push(show(v(&lo)));
    m.export(&f, Ty::Int, true);
}
fn matrix(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(1, 7);
    let a = fill_seq(m, out, n * n);
    let bb = fill_seq(m, out, n * n);
    let (c, i, j, k, s) = (m.fresh("c"), m.fresh("i"), m.fresh("j"), m.fresh("k"), m.fresh("s"));
    out.push(letm(&c, E::NewSeq(Ty::Int)));
    out.push(letm(&i, int(0)));
    out.push(while_(
        lt(v(&i), int(n)),
        vec![
            letm(&j, int(0)),
            while_(
                lt(v(&j), int(n)),
                vec![
                    letm(&s, int(0)),
                    letm(&k, int(0)),
                    while_(
                        lt(v(&k), int(n)),
                        vec![
                            set(
                                &s,
                                modulo(
                                    add(
                                        v(&s),
                                        mul(
                                            idx(v(&a), add(add(mul(v(&i), int(n)), v(&k)), int(1))),
                                            idx(v(&bb), add(add(mul(v(&k), int(n)), v(&j)), int(1))),
                                        ),
                                    ),
                                    int(1000003),
                                ),
                            ),
                            incr(&k, 1),
                        ],
                    ),
                    push(v(&s), &c),
                    incr(&j, 1),
                ],
            ),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&c)));
    m.export(&c, Ty::seq(Ty::Int), true);
}
fn divloop(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (i, s, x) = (m.fresh("i"), m.fresh("s"), m.fresh("x"));
    let (d1, d2) = (
        *m.r.pick(&[1i64, 2, 3, 5, 7, 8, 10, 16, 60, 100, 641, 1000, 65536, 1000003, -1, -2, -3, -7, -8, -100]),
        *m.r.pick(&[1i64, 2, 3, 5, 7, 8, 10, 13, 64, 97, 128, 1009, -2, -5, -16]),
    );
    let (a, c) = (m.r.range(-2000, 90_000), m.r.range(-100_000, 100_000));
    out.push(letm(&s, int(0)));
    let body = vec![
        let_(&x, add(mul(v(&i), int(a)), int(c))),
        set(&s, add(v(&s), bin(*m.r.pick(&[Op::Div, Op::FloorDiv]), v(&x), int(d1)))),
        set(&s, sub(v(&s), modulo(v(&x), int(d2)))),
    ];
    let lo = m.r.range(-3, 1);
    count_loop(m, out, &i, lo, int(n), body);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn lcg(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (i, s, acc) = (m.fresh("i"), m.fresh("s"), m.fresh("acc"));
    let md = *m.r.pick(&[2147483648i64, 4294967296, 1 << 40, 1000000007, 65521]);
    out.push(letm(&s, int(m.r.range(1, 100_000))));
    out.push(letm(&acc, int(0)));
    let body = vec![
        set(&s, modulo(add(mul(v(&s), int(1103515245)), int(12345)), int(md))),
        set(&acc, bin(Op::BitXor, v(&acc), bin(*m.r.pick(&[Op::Div, Op::Mod]), v(&s), int(m.r.range(2, 65536))))),
    ];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&s)));
    out.push(show(v(&acc)));
    m.export(&acc, Ty::Int, true);
}
fn bits(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (i, h, c, x) = (m.fresh("i"), m.fresh("h"), m.fresh("c"), m.fresh("x"));
    out.push(letm(&h, int(m.r.range(1, 1 << 30))));
    out.push(letm(&c, int(0)));
    let body = vec![
        set(&h, bin(Op::BitAnd, bin(Op::BitXor, v(&h), bin(Op::Shl, v(&h), int(m.r.range(1, 13)))), int((1 << 31) - 1))),
        set(&h, bin(Op::BitXor, v(&h), bin(Op::Shr, v(&h), int(m.r.range(1, 17))))),
        letm(&x, v(&h)),
        while_(
            bin(Op::Ne, v(&x), int(0)),
            vec![set(&x, bin(Op::BitAnd, v(&x), sub(v(&x), int(1)))), incr(&c, 1)],
        ),
    ];
    count_loop(m, out, &i, 1, int(n.min(60)), body);
    out.push(show(v(&h)));
    out.push(show(v(&c)));
    if !m.cfg.aot {
        out.push(show(E::Builtin("count_ones", vec![v(&h)])));
    }
    m.export(&c, Ty::Int, true);
}
fn tailrec(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("loopf");
    let n = m.r.range(0, 200);
    let step = match m.r.below(3) {
        0 => add(v("acc"), v("n")),
        1 => modulo(add(mul(v("acc"), int(31)), v("n")), int(1000003)),
        _ => sub(mul(v("n"), int(2)), v("acc")),
    };
    // swapping the arguments makes the order of parallel assignment observable
    let swap = m.r.bool();
    let rec = if swap {
        call(&f, vec![sub(v("n"), int(1)), add(v("other"), v("n")), step])
    } else {
        call(&f, vec![sub(v("n"), int(1)), step, v("other")])
    };
    let mut body = vec![if_(bin(Op::Le, v("n"), int(0)), vec![ret(sub(v("acc"), v("other")))])];
    if m.r.bool() {
        body.push(if_(bin(Op::Eq, modulo(v("n"), int(3)), int(0)), vec![ret(call(&f, vec![sub(v("n"), int(2)), v("other"), add(v("acc"), int(1))]))]));
    }
    body.push(ret(rec));
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int), ("acc".into(), Ty::Int), ("other".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body,
    });
    let r = m.fresh("r");
    out.push(letm(&r, call(&f, vec![int(n), int(m.r.range(-3, 3)), int(m.r.range(0, 5))])));
    out.push(show(v(&r)));
    m.export(&r, Ty::Int, true);
}
fn fib(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("fibf");
    let n = m.r.range(0, 13);
    let (c1, c2) = (m.r.range(1, 2), m.r.range(2, 3));
    let mut comb = add(call(&f, vec![sub(v("n"), int(c1))]), call(&f, vec![sub(v("n"), int(c2))]));
    if m.r.bool() {
        comb = modulo(add(mul(comb, int(3)), v("n")), int(10007));
    }
    let base = *m.r.pick(&["n", "1"]);
    let be = if base == "n" { v("n") } else { int(1) };
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![if_(lt(v("n"), int(2)), vec![ret(be)]), ret(comb)],
    });
    let i = m.fresh("i");
    if m.r.bool() {
        out.push(S::ForRange(i.clone(), int(-1), int(n), vec![show(call(&f, vec![v(&i)]))]));
    } else {
        out.push(show(call(&f, vec![int(n)])));
    }
}
fn gcd(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("gcdf");
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("p".into(), Ty::Int), ("q".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![if_(bin(Op::Eq, v("q"), int(0)), vec![ret(v("p"))]), ret(call(&f, vec![v("q"), modulo(v("p"), v("q"))]))],
    });
    let (i, s) = (m.fresh("i"), m.fresh("s"));
    let n = hot(m).min(120);
    let k = m.r.range(-30, 60);
    out.push(letm(&s, int(0)));
    let body = vec![set(&s, add(v(&s), call(&f, vec![v(&i), int(k)])))];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn mutual(m: &mut Maker, out: &mut Vec<S>) {
    let (f, g) = (m.fresh("evenf"), m.fresh("oddf"));
    let mk = |nm: &str, other: &str, base: i64, k: i64| Func {
        name: nm.into(),
        params: vec![("n".into(), Ty::Int), ("t".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![
            if_(bin(Op::Le, v("n"), int(0)), vec![ret(add(v("t"), int(base)))]),
            ret(call(other, vec![sub(v("n"), int(1)), add(v("t"), int(k))])),
        ],
    };
    let (k1, k2) = (m.r.range(-5, 5), m.r.range(-5, 5));
    m.p.funcs.push(mk(&f, &g, 100, k1));
    m.p.funcs.push(mk(&g, &f, 200, k2));
    let n = m.r.range(0, 90);
    out.push(show(call(&f, vec![int(n), int(0)])));
    out.push(show(call(&g, vec![int(n), int(7)])));
}
fn ackermann(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("ackf");
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("m".into(), Ty::Int), ("n".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![
            if_(bin(Op::Eq, v("m"), int(0)), vec![ret(add(v("n"), int(1)))]),
            if_(bin(Op::Eq, v("n"), int(0)), vec![ret(call(&f, vec![sub(v("m"), int(1)), int(1)]))]),
            ret(call(&f, vec![sub(v("m"), int(1)), call(&f, vec![v("m"), sub(v("n"), int(1))])])),
        ],
    });
    let (x, y) = (m.r.range(0, 2), m.r.range(0, 5));
    out.push(show(call(&f, vec![int(x), int(y)])));
}
fn static_arg(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("powf");
    let kind = m.r.below(3);
    let body = match kind {
        0 => vec![
            if_(bin(Op::Le, v("n"), int(0)), vec![ret(int(1))]),
            ret(modulo(mul(v("x"), call(&f, vec![v("x"), sub(v("n"), int(1))])), int(1000003))),
        ],
        1 => vec![
            letm("r", int(0)),
            if_else(bin(Op::Gt, v("n"), int(3)), vec![set("r", mul(v("x"), int(2)))], vec![set("r", sub(v("x"), v("n")))]),
            ret(v("r")),
        ],
        _ => vec![
            letm("r", v("x")),
            letm("k", int(0)),
            while_(lt(v("k"), v("n")), vec![set("r", add(mul(v("r"), int(3)), v("k"))), set("r", modulo(v("r"), int(9973))), incr("k", 1)]),
            ret(v("r")),
        ],
    };
    m.p.funcs.push(Func { name: f.clone(), params: vec![("x".into(), Ty::Int), ("n".into(), Ty::Int)], ret: Some(Ty::Int), body });
    let (i, s) = (m.fresh("i"), m.fresh("s"));
    out.push(letm(&s, int(0)));
    let k = m.r.range(0, 9);
    let n = hot(m).min(60);
    count_loop(m, out, &i, 0, int(n), vec![set(&s, add(v(&s), call(&f, vec![v(&i), int(k)])))]);
    out.push(show(v(&s)));
    out.push(show(call(&f, vec![int(m.r.range(-9, 9)), int(m.r.range(0, 6))])));
    m.export(&s, Ty::Int, true);
}
fn licm(m: &mut Maker, out: &mut Vec<S>) {
    // an invariant that would fail if evaluated eagerly, behind a guard or in a zero-trip loop
    let (i, s, z, xs) = (m.fresh("i"), m.fresh("s"), m.fresh("z"), m.fresh("xs"));
    let n = *m.r.pick(&[0i64, 0, 1, 5, 50]);
    let zero = if n == 0 || m.r.bool() { int(0) } else { int(m.r.range(1, 9)) };
    out.push(letm(&z, zero));
    out.push(letm(&s, int(0)));
    out.push(letm(&xs, E::List((0..m.r.range(0, 3)).map(int).collect())));
    let inv = match m.r.below(3) {
        0 => bin(Op::Div, int(m.r.range(1, 1000)), v(&z)),
        1 => modulo(int(m.r.range(1, 1000)), v(&z)),
        _ => idx(v(&xs), add(v(&z), int(1))),
    };
    let guard = match m.r.below(3) {
        0 => bin(Op::And, bin(Op::Ne, v(&z), int(0)), bin(Op::Gt, len(v(&xs)), v(&z))),
        1 => bin(Op::And, bin(Op::Gt, v(&z), int(0)), bin(Op::Gt, len(v(&xs)), v(&z))),
        _ => E::Bool(n == 0),
    };
    let body = vec![if_(guard, vec![set(&s, add(v(&s), inv))]), set(&s, add(v(&s), mul(v(&z), int(3))))];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn cse(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(3, 20);
    let xs = fill_seq(m, out, n);
    let (x, y, z, i) = (m.fresh("x"), m.fresh("y"), m.fresh("z"), m.fresh("i"));
    let k = m.r.range(1, n);
    let e = add(mul(idx(v(&xs), int(k)), int(3)), len(v(&xs)));
    out.push(letm(&i, int(k)));
    out.push(letm(&x, e.clone()));
    match m.r.below(4) {
        0 => out.push(S::SetIdx(xs.clone(), int(k), add(idx(v(&xs), int(k)), int(5)))),
        1 => out.push(push(int(9), &xs)),
        2 => out.push(S::SetIdx(xs.clone(), v(&i), int(-4))),
        _ => {}
    }
    out.push(letm(&y, e.clone()));
    out.push(letm(&z, sub(e, idx(v(&xs), v(&i)))));
    for n in [&x, &y, &z] {
        out.push(show(v(n)));
        m.export(n, Ty::Int, true);
    }
}
fn alias(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(1, 12);
    let xs = fill_seq(m, out, n);
    let (ys, zs, f, x) = (m.fresh("ys"), m.fresh("zs"), m.fresh("bump"), m.fresh("x"));
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("xs".into(), Ty::seq(Ty::Int)), ("k".into(), Ty::Int)],
        ret: Some(Ty::seq(Ty::Int)),
        body: {
            let mut bd = vec![];
            if m.r.bool() {
                bd.push(push(v("k"), "xs"));
            }
            bd.push(S::SetIdx("xs".into(), int(1), add(idx(v("xs"), int(1)), v("k"))));
            bd.push(ret(v("xs")));
            bd
        },
    });
    out.push(letm(&ys, v(&xs)));
    out.push(letm(&zs, call(&f, vec![v(&ys), int(m.r.range(1, 9))])));
    match m.r.below(4) {
        0 => out.push(S::SetIdx(ys.clone(), int(1), int(77))),
        1 => out.push(push(int(5), &xs)),
        2 => out.push(set(&ys, call(&f, vec![v(&ys), int(2)]))),
        _ => out.push(S::ForIn(x.clone(), v(&xs), vec![push(v(&x), &ys)])),
    }
    for n in [&xs, &ys, &zs] {
        out.push(show(v(n)));
        m.export(n, Ty::seq(Ty::Int), true);
    }
}
/// A copy is kept while a loop rewrites the original in place.
fn alias_loop(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(2, 20);
    let xs = fill_seq(m, out, n);
    let (ys, i, t) = (m.fresh("ys"), m.fresh("i"), m.fresh("t"));
    out.push(letm(&ys, v(&xs)));
    let (w, other) = if m.r.bool() { (xs.clone(), ys.clone()) } else { (ys.clone(), xs.clone()) };
    let k = m.r.range(2, 9);
    let (lo, hi, body) = match m.r.below(4) {
        0 => (1, n, vec![S::SetIdx(w.clone(), v(&i), add(mul(idx(v(&w), v(&i)), int(k)), int(1)))]),
        1 => (2, n, vec![S::SetIdx(w.clone(), v(&i), add(idx(v(&w), sub(v(&i), int(1))), v(&i)))]),
        2 => (1, n - 1, vec![letm(&t, idx(v(&w), v(&i))), S::SetIdx(w.clone(), v(&i), idx(v(&w), add(v(&i), int(1)))), S::SetIdx(w.clone(), add(v(&i), int(1)), v(&t))]),
        _ => (1, n, vec![push(add(idx(v(&w), v(&i)), int(k)), &w)]),
    };
    count_loop(m, out, &i, lo, int(hi), body);
    if m.r.bool() {
        out.push(S::SetIdx(other.clone(), int(1), add(idx(v(&w), int(2)), int(k))));
    }
    for n in [&xs, &ys] {
        out.push(show(v(n)));
        m.export(n, Ty::seq(Ty::Int), true);
    }
}
/// What a counter holds once its loop is over, used in arithmetic and a test.
fn step_exit(m: &mut Maker, out: &mut Vec<S>) {
    let (i, a, c) = (m.fresh("i"), m.fresh("a"), m.fresh("c"));
    let (n, st) = (m.r.range(0, 25), m.r.range(1, 6));
    out.push(letm(&i, int(m.r.range(-3, 3))));
    out.push(letm(&a, int(0)));
    let mut body = vec![incr(&a, 1)];
    if m.r.bool() {
        body.push(set(&i, add(v(&i), int(st))));
    } else {
        body.insert(0, set(&i, add(v(&i), int(st))));
    }
    out.push(while_(if m.r.bool() { lt(v(&i), int(n)) } else { bin(Op::Le, v(&i), int(n)) }, body));
    out.push(letm(&c, add(mul(modulo(v(&i), int(m.r.range(2, 9))), int(m.r.range(2, 60))), v(&a))));
    out.push(if_else(bin(Op::Gt, v(&i), int(n + m.r.range(0, 3))), vec![show(sub(v(&i), int(n)))], vec![show(v(&a))]));
    for x in [&i, &a, &c] {
        out.push(show(v(x)));
        m.export(x, Ty::Int, true);
    }
}
/// A loop left from its middle, with values of the half-done round.
fn break_mid(m: &mut Maker, out: &mut Vec<S>) {
    let (i, x, c) = (m.fresh("i"), m.fresh("x"), m.fresh("c"));
    let (n, stop, a, z) = (m.r.range(1, 20), m.r.range(0, 24), m.r.range(1, 50), m.r.range(-3, 3));
    out.push(letm(&i, int(0)));
    out.push(letm(&x, int(z)));
    let mut body = vec![set(&x, int(a)), if_(bin(Op::Eq, v(&i), int(stop)), vec![S::Break]), set(&x, int(z)), incr(&i, 1)];
    if m.r.chance(1, 3) {
        body.swap(2, 3);
    }
    out.push(while_(bin(Op::Le, v(&i), int(n)), body));
    out.push(letm(&c, add(mul(modulo(v(&x), int(4)), int(10)), modulo(v(&i), int(5)))));
    out.push(if_else(bin(Op::Gt, v(&i), int(n)), vec![show(int(1))], vec![show(int(0))]));
    for y in [&i, &x, &c] {
        out.push(show(v(y)));
        m.export(y, Ty::Int, true);
    }
}
/// A list variable given another list, then indexed by its new length.
fn rebind(m: &mut Maker, out: &mut Vec<S>) {
    let (xs, ys, k) = (m.fresh("xs"), m.fresh("ys"), m.fresh("k"));
    let list = |m: &mut Maker| E::List((0..m.r.range(1, 6)).map(|_| int(m.r.range(-9, 99))).collect());
    let (l1, l2) = (list(m), list(m));
    out.push(letm(&xs, l1));
    out.push(letm(&ys, l2));
    let to = match m.r.below(3) {
        0 => v(&ys),
        1 => E::Copy(b(v(&ys))),
        _ => {
            let f = m.fresh("mk");
            m.p.funcs.push(Func {
                name: f.clone(),
                params: vec![("n".into(), Ty::Int)],
                ret: Some(Ty::seq(Ty::Int)),
                body: vec![letm("r", E::NewSeq(Ty::Int)), S::ForRange("i".into(), int(1), v("n"), vec![push(mul(v("i"), v("i")), "r")]), ret(v("r"))],
            });
            call(&f, vec![int(m.r.range(1, 6))])
        }
    };
    out.push(set(&xs, to));
    for _ in 0..m.r.below(3) {
        let w = if m.r.bool() { &xs } else { &ys };
        out.push(push(int(m.r.range(0, 9)), w));
    }
    out.push(letm(&k, modulo(int(m.r.range(0, 2000)), len(v(&xs)))));
    out.push(S::SetIdx(xs.clone(), add(v(&k), int(1)), int(77)));
    out.push(S::SetIdx(xs.clone(), add(modulo(int(m.r.range(0, 2000)), len(v(&xs))), int(1)), int(78)));
    out.push(show(len(v(&xs))));
    for n in [&xs, &ys] {
        out.push(show(v(n)));
        m.export(n, Ty::seq(Ty::Int), true);
    }
}
fn pipeline(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let xs = fill_seq(m, out, n);
    let (ys, zs, s, x, y, z) = (m.fresh("ys"), m.fresh("zs"), m.fresh("s"), m.fresh("x"), m.fresh("y"), m.fresh("z"));
    out.push(letm(&ys, E::NewSeq(Ty::Int)));
    let e = add(mul(v(&x), int(m.r.range(-3, 5))), int(m.r.range(-9, 9)));
    out.push(S::ForIn(x.clone(), v(&xs), vec![push(e, &ys)]));
    out.push(letm(&zs, E::NewSeq(Ty::Int)));
    let k = m.r.range(2, 5);
    out.push(S::ForIn(y.clone(), v(&ys), vec![if_(bin(*m.r.pick(&[Op::Eq, Op::Ne]), modulo(v(&y), int(k)), int(0)), vec![push(v(&y), &zs)])]));
    out.push(letm(&s, int(0)));
    out.push(S::ForIn(z.clone(), v(&zs), vec![set(&s, modulo(add(mul(v(&s), int(7)), v(&z)), int(1000003)))]));
    out.push(show(v(&s)));
    match m.r.below(3) {
        0 => out.push(show(len(v(&ys)))),
        1 => out.push(show(len(v(&zs)))),
        _ => {}
    }
    m.export(&s, Ty::Int, true);
}
fn seq_fn(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(0, 25);
    let xs = fill_seq(m, out, n);
    let f = m.fresh("fold");
    let mut bd = vec![letm("s", int(0)), letm("i", int(1))];
    bd.push(while_(
        bin(Op::Le, v("i"), len(v("xs"))),
        vec![
            if_(bin(Op::Gt, idx(v("xs"), v("i")), v("k")), vec![set("s", add(v("s"), idx(v("xs"), v("i"))))]),
            incr("i", 1),
        ],
    ));
    bd.push(ret(v("s")));
    m.p.funcs.push(Func { name: f.clone(), params: vec![("xs".into(), Ty::seq(Ty::Int)), ("k".into(), Ty::Int)], ret: Some(Ty::Int), body: bd });
    let i = m.fresh("i");
    let s = m.fresh("s");
    out.push(letm(&s, int(0)));
    count_loop(m, out, &i, -2, int(6), vec![set(&s, add(v(&s), call(&f, vec![v(&xs), v(&i)])))]);
    out.push(show(v(&s)));
    m.export(&xs, Ty::seq(Ty::Int), true);
    m.export(&s, Ty::Int, true);
}
fn shrinking(m: &mut Maker, out: &mut Vec<S>) {
    // the bound changes while the loop runs
    let n = hot(m).max(2);
    let xs = fill_seq(m, out, n);
    let (i, s, t) = (m.fresh("i"), m.fresh("s"), m.fresh("t"));
    out.push(letm(&s, int(0)));
    out.push(letm(&i, int(1)));
    let k = m.r.range(2, 5);
    let change = if m.r.bool() {
        S::Pop(xs.clone(), Some(t.clone()))
    } else {
        S::Pop(xs.clone(), None)
    };
    out.push(while_(
        bin(Op::Le, v(&i), len(v(&xs))),
        vec![
            set(&s, add(v(&s), idx(v(&xs), v(&i)))),
            if_(bin(Op::Eq, modulo(v(&i), int(k)), int(0)), vec![change]),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&s)));
    out.push(show(len(v(&xs))));
    m.export(&s, Ty::Int, true);
}
fn early(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("find");
    let n = m.r.range(0, 30);
    let xs = fill_seq(m, out, n);
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("xs".into(), Ty::seq(Ty::Int)), ("k".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![
            letm("i", int(0)),
            S::ForIn("x".into(), v("xs"), vec![incr("i", 1), if_(bin(Op::Ge, v("x"), v("k")), vec![ret(v("i"))])]),
            ret(int(-1)),
        ],
    });
    let (i, j, c) = (m.fresh("i"), m.fresh("j"), m.fresh("c"));
    out.push(letm(&c, int(0)));
    let b1 = m.r.range(1, 9);
    out.push(S::ForRange(
        i.clone(),
        int(1),
        int(12),
        vec![
            S::ForRange(j.clone(), int(1), int(12), vec![if_(bin(Op::Gt, mul(v(&i), v(&j)), int(b1 * 5)), vec![S::Break]), incr(&c, 1)]),
            if_(bin(Op::Eq, v(&i), int(b1)), vec![S::Break]),
        ],
    ));
    out.push(show(v(&c)));
    out.push(show(call(&f, vec![v(&xs), int(m.r.range(-10, 50))])));
    m.export(&c, Ty::Int, true);
}
fn queens(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("solve");
    let n = m.r.range(1, 6);
    let args = |c: E, l: E, r: E| vec![v("row"), c, l, r];
    let _ = args;
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("row".into(), Ty::Int), ("cols".into(), Ty::Int), ("dl".into(), Ty::Int), ("dr".into(), Ty::Int), ("n".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![
            if_(bin(Op::Eq, v("row"), v("n")), vec![ret(int(1))]),
            letm("cnt", int(0)),
            letm(
                "avail",
                bin(
                    Op::BitAnd,
                    sub(bin(Op::Shl, int(1), v("n")), int(1)),
                    bin(Op::BitXor, bin(Op::BitOr, v("cols"), bin(Op::BitOr, v("dl"), v("dr"))), int(-1)),
                ),
            ),
            while_(
                bin(Op::Ne, v("avail"), int(0)),
                vec![
                    let_("bit", bin(Op::BitAnd, v("avail"), sub(int(0), v("avail")))),
                    set("avail", bin(Op::BitXor, v("avail"), v("bit"))),
                    set(
                        "cnt",
                        add(
                            v("cnt"),
                            call(
                                &f,
                                vec![
                                    add(v("row"), int(1)),
                                    bin(Op::BitOr, v("cols"), v("bit")),
                                    bin(Op::Shl, bin(Op::BitOr, v("dl"), v("bit")), int(1)),
                                    bin(Op::Shr, bin(Op::BitOr, v("dr"), v("bit")), int(1)),
                                    v("n"),
                                ],
                            ),
                        ),
                    ),
                ],
            ),
            ret(v("cnt")),
        ],
    });
    out.push(show(call(&f, vec![int(0), int(0), int(0), int(0), int(n)])));
}
fn dead(m: &mut Maker, out: &mut Vec<S>) {
    // unused results whose computation is observable
    let f = m.fresh("noisy");
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![show(add(v("n"), int(1))), ret(mul(v("n"), int(2)))],
    });
    let (u, w) = (m.fresh("u"), m.fresh("w"));
    out.push(let_(&u, call(&f, vec![int(m.r.range(0, 9))])));
    out.push(letm(&w, int(3)));
    out.push(set(&w, call(&f, vec![v(&w)])));
    out.push(set(&w, int(4)));
    out.push(S::Do(call(&f, vec![int(m.r.range(0, 9))])));
    let sc = bin(*m.r.pick(&[Op::And, Op::Or]), bin(Op::Gt, v(&w), int(m.r.range(3, 5))), bin(Op::Gt, call(&f, vec![v(&w)]), int(0)));
    out.push(if_(sc, vec![show(int(1))]));
    m.export(&w, Ty::Int, true);
}
fn merge(m: &mut Maker, out: &mut Vec<S>) {
    let (f, g) = (m.fresh("mergef"), m.fresh("sortf"));
    let q = Ty::seq(Ty::Int);
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("l".into(), q.clone()), ("r".into(), q.clone())],
        ret: Some(q.clone()),
        body: vec![
            letm("res", E::NewSeq(Ty::Int)),
            letm("i", int(1)),
            letm("j", int(1)),
            while_(
                bin(Op::And, bin(Op::Le, v("i"), len(v("l"))), bin(Op::Le, v("j"), len(v("r")))),
                vec![if_else(
                    bin(*m.r.pick(&[Op::Le, Op::Lt]), idx(v("l"), v("i")), idx(v("r"), v("j"))),
                    vec![push(idx(v("l"), v("i")), "res"), incr("i", 1)],
                    vec![push(idx(v("r"), v("j")), "res"), incr("j", 1)],
                )],
            ),
            while_(bin(Op::Le, v("i"), len(v("l"))), vec![push(idx(v("l"), v("i")), "res"), incr("i", 1)]),
            while_(bin(Op::Le, v("j"), len(v("r"))), vec![push(idx(v("r"), v("j")), "res"), incr("j", 1)]),
            ret(v("res")),
        ],
    });
    m.p.funcs.push(Func {
        name: g.clone(),
        params: vec![("xs".into(), q.clone())],
        ret: Some(q.clone()),
        body: vec![
            letm("n", len(v("xs"))),
            if_(lt(v("n"), int(2)), vec![ret(E::Copy(b(v("xs"))))]),
            let_("mid", bin(Op::Div, v("n"), int(2))),
            letm("l", E::Slice(b(v("xs")), b(int(1)), b(v("mid")))),
            letm("r", E::Slice(b(v("xs")), b(add(v("mid"), int(1))), b(v("n")))),
            ret(call(&f, vec![call(&g, vec![v("l")]), call(&g, vec![v("r")])])),
        ],
    });
    let n = m.r.range(0, 40);
    let xs = fill_seq(m, out, n);
    out.push(show(call(&g, vec![v(&xs)])));
    out.push(show(v(&xs)));
    m.export(&xs, q, true);
}
fn collatz(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).min(50);
    let (i, x, c) = (m.fresh("i"), m.fresh("x"), m.fresh("c"));
    out.push(letm(&c, int(0)));
    let body = vec![
        letm(&x, v(&i)),
        while_(
            bin(Op::Gt, v(&x), int(1)),
            vec![
                if_else(
                    bin(Op::Eq, modulo(v(&x), int(2)), int(0)),
                    vec![set(&x, bin(Op::Div, v(&x), int(2)))],
                    vec![set(&x, add(mul(int(3), v(&x)), int(1)))],
                ),
                incr(&c, 1),
            ],
        ),
    ];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&c)));
    m.export(&c, Ty::Int, true);
}
fn slices(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(2, 30);
    let xs = fill_seq(m, out, n);
    let lo = m.r.range(1, n);
    let hi = m.r.range(lo, n);
    let (ys, zs) = (m.fresh("ys"), m.fresh("zs"));
    out.push(letm(&ys, E::Slice(b(v(&xs)), b(int(lo)), b(int(hi)))));
    out.push(letm(&zs, bin(Op::Followed, v(&ys), v(&xs))));
    out.push(S::SetIdx(ys.clone(), int(1), int(-1)));
    out.push(push(int(8), &zs));
    for n in [&xs, &ys, &zs] {
        out.push(show(v(n)));
        m.export(n, Ty::seq(Ty::Int), true);
    }
}
fn nested_loops(m: &mut Maker, out: &mut Vec<S>) {
    let (i, j, k, s) = (m.fresh("i"), m.fresh("j"), m.fresh("k"), m.fresh("s"));
    let (n1, n2) = (m.r.range(0, 20), m.r.range(0, 20));
    out.push(letm(&s, int(1)));
    out.push(letm(&k, int(m.r.range(1, 9))));
    let inner = vec![
        set(&s, add(v(&s), mul(mul(v(&i), v(&k)), int(2)))),
        if_(bin(Op::Eq, modulo(add(v(&i), v(&j)), int(3)), int(0)), vec![set(&s, sub(v(&s), mul(v(&i), v(&k))))]),
    ];
    let mut outer = vec![];
    let hi = if m.r.bool() { v(&i) } else { int(n2) };
    count_loop(m, &mut outer, &j, 1, hi, inner);
    if m.r.chance(1, 3) {
        outer.push(set(&k, add(v(&k), int(1))));
    }
    count_loop(m, out, &i, 1, int(n1), outer);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn split_loop(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (i, s) = (m.fresh("i"), m.fresh("s"));
    let k = m.r.range(-1, n + 1);
    out.push(letm(&s, int(0)));
    let c = *m.r.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq]);
    let body = vec![if_else(bin(c, v(&i), int(k)), vec![set(&s, add(v(&s), v(&i)))], vec![set(&s, sub(mul(v(&i), int(2)), v(&s)))])];
    count_loop(m, out, &i, 0, int(n), body);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn affine_arr(m: &mut Maker, out: &mut Vec<S>) {
    // an array that is an affine function of its index, then read (and sometimes written) elsewhere
    let n = hot(m).max(3);
    let (xs, i, s, j) = (m.fresh("xs"), m.fresh("i"), m.fresh("s"), m.fresh("j"));
    let (a, c) = (m.r.range(-5, 9), m.r.range(-20, 20));
    out.push(letm(&xs, E::NewSeq(Ty::Int)));
    count_loop(m, out, &i, 0, int(n - 1), vec![push(add(mul(v(&i), int(a)), int(c)), &xs)]);
    if m.r.chance(1, 3) {
        out.push(S::SetIdx(xs.clone(), int(m.r.range(1, n)), int(999)));
    }
    out.push(letm(&s, int(0)));
    count_loop(m, out, &j, 1, int(n), vec![set(&s, add(v(&s), idx(v(&xs), v(&j))))]);
    out.push(show(v(&s)));
    out.push(show(idx(v(&xs), int(m.r.range(1, n)))));
    m.export(&s, Ty::Int, true);
}
fn recursive_seq(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("build");
    let q = Ty::seq(Ty::Int);
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int), ("acc".into(), q.clone())],
        ret: Some(q.clone()),
        body: vec![
            if_(bin(Op::Le, v("n"), int(0)), vec![ret(v("acc"))]),
            letm("grown", v("acc")),
            push(mul(v("n"), v("n")), "grown"),
            ret(call(&f, vec![sub(v("n"), int(1)), v("grown")])),
        ],
    });
    let (st, rs) = (m.fresh("st"), m.fresh("rs"));
    out.push(letm(&st, E::List(vec![int(7)])));
    out.push(letm(&rs, call(&f, vec![int(m.r.range(0, 25)), v(&st)])));
    out.push(show(v(&rs)));
    out.push(show(v(&st)));
    m.export(&rs, q, true);
}
fn overflow_acc(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).min(150);
    let (i, s) = (m.fresh("i"), m.fresh("s"));
    let start = match m.r.below(4) {
        0 => i64::MAX - m.r.range(0, 2000),
        1 => -(i64::MAX - m.r.range(0, 2000)),
        2 => 1 << 62,
        _ => m.r.range(1, 9),
    };
    out.push(letm(&s, int(start)));
    let e = match m.r.below(4) {
        0 => add(v(&s), mul(v(&i), int(m.r.range(1, 50)))),
        1 => sub(v(&s), mul(v(&i), int(m.r.range(1, 50)))),
        2 => add(mul(v(&s), int(m.r.range(2, 3))), v(&i)),
        _ => sub(mul(v(&s), int(-2)), v(&i)),
    };
    let mut body = vec![set(&s, e)];
    if m.r.bool() {
        body.push(if_(bin(Op::Gt, v(&s), int(i64::MAX - 5)), vec![set(&s, bin(Op::Div, v(&s), int(1000)))]));
    }
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn factorial(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("fact");
    let n = m.r.range(0, 32);
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![if_(bin(Op::Le, v("n"), int(1)), vec![ret(int(1))]), ret(mul(v("n"), call(&f, vec![sub(v("n"), int(1))])))],
    });
    out.push(show(call(&f, vec![int(n)])));
    let x = m.fresh("x");
    out.push(letm(&x, bin(*m.r.pick(&[Op::Div, Op::Mod, Op::Sub]), call(&f, vec![int(n)]), call(&f, vec![int(m.r.range(0, n))]))));
    out.push(show(v(&x)));
    m.export(&x, Ty::Int, true);
}
fn edge_arith(m: &mut Maker, out: &mut Vec<S>) {
    let (a, c) = (m.fresh("ea"), m.fresh("eb"));
    let (x, y) = (m.r.edgy_i64(), m.r.edgy_i64());
    out.push(letm(&a, int(x)));
    out.push(letm(&c, int(y)));
    for _ in 0..m.r.range(2, 5) {
        let o = *m.r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod, Op::FloorDiv, Op::Lt, Op::Ge, Op::Eq]);
        if matches!(o, Op::Div | Op::Mod | Op::FloorDiv) && y == 0 {
            continue;
        }
        out.push(show(bin(o, v(&a), v(&c))));
    }
    out.push(show(sub(int(0), v(&a))));
    out.push(show(E::Builtin("abs", vec![v(&c)])));
    m.export(&a, Ty::Int, true);
}
fn i32_edge(m: &mut Maker, out: &mut Vec<S>) {
    // sequence elements that cross the 32-bit range late
    let n = hot(m).max(4);
    let (xs, i, s, j) = (m.fresh("xs"), m.fresh("i"), m.fresh("s"), m.fresh("j"));
    let base = *m.r.pick(&[i32::MAX as i64 - 5, i32::MIN as i64 + 3, 65530, 250, 120, (1 << 31) - 1, 4294967290]);
    let st = *m.r.pick(&[1i64, 2, -1, 1000]);
    out.push(letm(&xs, E::NewSeq(Ty::Int)));
    count_loop(m, out, &i, 1, int(n), vec![push(add(int(base), mul(v(&i), int(st))), &xs)]);
    out.push(letm(&s, int(0)));
    let w = m.r.bool();
    let mut body = vec![set(&s, add(v(&s), idx(v(&xs), v(&j))))];
    if w {
        body.push(S::SetIdx(xs.clone(), v(&j), add(idx(v(&xs), v(&j)), int(*m.r.pick(&[1, 2147483647, 4294967296, -2147483648])))));
    }
    count_loop(m, out, &j, 1, len(v(&xs)), body);
    out.push(show(v(&s)));
    out.push(show(idx(v(&xs), int(n))));
    out.push(show(idx(v(&xs), int(1))));
    m.export(&s, Ty::Int, true);
}
fn powmod(m: &mut Maker, out: &mut Vec<S>) {
    let (bs, e, r, md) = (m.fresh("bs"), m.fresh("e"), m.fresh("r"), m.fresh("md"));
    out.push(letm(&bs, int(m.r.range(2, 1000))));
    out.push(letm(&e, int(m.r.range(0, 1 << 20))));
    out.push(let_(&md, int(*m.r.pick(&[1000000007i64, 998244353, 97, 2147483647]))));
    out.push(letm(&r, int(1)));
    out.push(while_(
        bin(Op::Gt, v(&e), int(0)),
        vec![
            if_(bin(Op::Eq, modulo(v(&e), int(2)), int(1)), vec![set(&r, modulo(mul(v(&r), v(&bs)), v(&md)))]),
            set(&bs, modulo(mul(v(&bs), v(&bs)), v(&md))),
            set(&e, bin(Op::Div, v(&e), int(2))),
        ],
    ));
    out.push(show(v(&r)));
    m.export(&r, Ty::Int, true);
}
fn map_count(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (mp, i, k, s) = (m.fresh("mp"), m.fresh("i"), m.fresh("k"), m.fresh("s"));
    let md = m.r.range(1, 60);
    let off = *m.r.pick(&[0i64, 0, -20, 1000000, 5]);
    out.push(letm(&mp, E::NewMap(Ty::Int, Ty::Int)));
    let body = vec![
        let_(&k, add(modulo(mul(v(&i), int(m.r.range(1, 37))), int(md)), int(off))),
        if_else(
            E::Contains(b(v(&mp)), b(v(&k))),
            vec![S::SetIdx(mp.clone(), v(&k), add(idx(v(&mp), v(&k)), int(1)))],
            vec![S::SetIdx(mp.clone(), v(&k), int(1))],
        ),
    ];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(len(v(&mp))));
    out.push(letm(&s, int(0)));
    let (a, c) = (m.fresh("a"), m.fresh("c"));
    out.push(S::ForPair(a.clone(), c.clone(), v(&mp), vec![set(&s, modulo(add(mul(v(&s), int(7)), add(mul(v(&a), int(3)), v(&c))), int(1000003)))]));
    out.push(show(v(&s)));
    if m.r.bool() {
        out.push(show(v(&mp)));
    }
    m.export(&mp, Ty::map(Ty::Int, Ty::Int), true);
}
fn map_sparse(m: &mut Maker, out: &mut Vec<S>) {
    let n = m.r.range(1, 60);
    let (mp, i, k, c) = (m.fresh("mp"), m.fresh("i"), m.fresh("k"), m.fresh("c"));
    out.push(letm(&mp, E::NewMap(Ty::Int, Ty::Int)));
    let mult = *m.r.pick(&[1i64, -1, 1 << 32, 4294967296 * 3, 1 << 40, 65536, -7]);
    out.push(letm(&c, int(0)));
    let body = vec![
        let_(&k, mul(v(&i), int(mult))),
        S::SetIdx(mp.clone(), v(&k), v(&i)),
        if_(E::Contains(b(v(&mp)), b(sub(v(&k), int(mult)))), vec![incr(&c, 1)]),
    ];
    count_loop(m, out, &i, 0, int(n), body);
    if m.r.bool() {
        out.push(S::RemoveFrom(int(mult * m.r.range(0, 3)), mp.clone()));
    }
    out.push(show(v(&c)));
    out.push(show(len(v(&mp))));
    out.push(show(v(&mp)));
    m.export(&mp, Ty::map(Ty::Int, Ty::Int), true);
}
fn two_sum(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).min(150);
    let xs = fill_seq(m, out, n);
    let (mp, c, x, t) = (m.fresh("mp"), m.fresh("c"), m.fresh("x"), m.fresh("t"));
    out.push(letm(&mp, E::NewMap(Ty::Int, Ty::Int)));
    out.push(letm(&c, int(0)));
    out.push(let_(&t, int(m.r.range(-20, 200))));
    out.push(S::ForIn(
        x.clone(),
        v(&xs),
        vec![if_(E::Contains(b(v(&mp)), b(sub(v(&t), v(&x)))), vec![incr(&c, 1)]), S::SetIdx(mp.clone(), v(&x), int(1))],
    ));
    out.push(show(v(&c)));
    m.export(&c, Ty::Int, true);
}
fn memo_map(m: &mut Maker, out: &mut Vec<S>) {
    let (mp, i) = (m.fresh("mp"), m.fresh("i"));
    let n = m.r.range(2, if m.cfg.big { 120 } else { 80 });
    out.push(letm(&mp, E::NewMap(Ty::Int, Ty::Int)));
    out.push(S::SetIdx(mp.clone(), int(0), int(0)));
    out.push(S::SetIdx(mp.clone(), int(1), int(1)));
    let body = vec![S::SetIdx(mp.clone(), v(&i), add(idx(v(&mp), sub(v(&i), int(1))), idx(v(&mp), sub(v(&i), int(2)))))];
    count_loop(m, out, &i, 2, int(n), body);
    out.push(show(idx(v(&mp), int(n))));
}
fn strbuild(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m).min(120);
    let (s, t, i) = (m.fresh("s"), m.fresh("t"), m.fresh("i"));
    out.push(letm(&s, E::Text("".into())));
    out.push(letm(&t, v(&s)));
    let piece = match m.r.below(4) {
        0 => bin(Op::Concat, v(&s), E::Text("ab".into())),
        1 => bin(Op::Concat, v(&s), v(&i)),
        2 => bin(Op::Concat, bin(Op::Concat, v(&s), modulo(v(&i), int(3))), E::Text(",".into())),
        _ => E::Interp(vec![("".into(), Some(v(&s))), ("<".into(), Some(v(&i))), (">".into(), None)]),
    };
    let mut body = vec![set(&s, piece)];
    if m.r.chance(1, 3) {
        body.push(if_(bin(Op::Eq, modulo(v(&i), int(7)), int(0)), vec![set(&t, v(&s))]));
    }
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(len(v(&s))));
    out.push(show(v(&s)));
    out.push(show(v(&t)));
    m.export(&t, Ty::Text, true);
}
fn strsearch(m: &mut Maker, out: &mut Vec<S>) {
    let (h, nd, i, j, c, ok) = (m.fresh("h"), m.fresh("nd"), m.fresh("i"), m.fresh("j"), m.fresh("c"), m.fresh("ok"));
    let n = m.r.range(0, 60) as usize;
    let hay: String = (0..n).map(|_| *m.r.pick(&['a', 'b', 'a', 'c'])).collect();
    let k = m.r.range(1, 4) as usize;
    let ned: String = (0..k).map(|_| *m.r.pick(&['a', 'b', 'a'])).collect();
    out.push(let_(&h, E::Text(hay)));
    out.push(let_(&nd, E::Text(ned)));
    out.push(letm(&c, int(0)));
    out.push(letm(&i, int(1)));
    out.push(while_(
        bin(Op::Le, v(&i), add(sub(len(v(&h)), len(v(&nd))), int(1))),
        vec![
            letm(&ok, int(1)),
            letm(&j, int(0)),
            while_(
                lt(v(&j), len(v(&nd))),
                vec![
                    if_(
                        bin(Op::Ne, idx(v(&h), add(v(&i), v(&j))), idx(v(&nd), add(v(&j), int(1)))),
                        vec![set(&ok, int(0)), set(&j, len(v(&nd)))],
                    ),
                    incr(&j, 1),
                ],
            ),
            if_(bin(Op::Eq, v(&ok), int(1)), vec![incr(&c, 1)]),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&c)));
    out.push(show(E::Contains(b(v(&h)), b(v(&nd)))));
    m.export(&c, Ty::Int, true);
}
fn char_freq(m: &mut Maker, out: &mut Vec<S>) {
    let (h, c, mp) = (m.fresh("h"), m.fresh("ch"), m.fresh("mp"));
    let n = m.r.range(0, 40) as usize;
    let hay: String = (0..n).map(|_| *m.r.pick(&['a', 'b', ' ', 'c', 'z', '1'])).collect();
    out.push(let_(&h, E::Text(hay)));
    if m.cfg.maps {
        out.push(letm(&mp, E::NewMap(Ty::Text, Ty::Int)));
        out.push(S::ForIn(
            c.clone(),
            v(&h),
            vec![if_else(
                E::Contains(b(v(&mp)), b(v(&c))),
                vec![S::SetIdx(mp.clone(), v(&c), add(idx(v(&mp), v(&c)), int(1)))],
                vec![S::SetIdx(mp.clone(), v(&c), int(1))],
            )],
        ));
        out.push(show(v(&mp)));
    }
}
fn floats(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (i, x, s) = (m.fresh("i"), m.fresh("x"), m.fresh("fs"));
    let (a, c) = (*m.r.pick(&[0.1, 0.25, 1.5, 3.0, 0.7]), *m.r.pick(&[0.0, 1.0, 0.3, 10.5]));
    out.push(letm(&s, E::Float(0.0)));
    out.push(letm(&x, E::Float(c)));
    let body = vec![
        set(&s, add(v(&s), mul(v(&x), E::Float(a)))),
        set(&x, add(v(&x), E::Float(a))),
        if_(bin(Op::Gt, v(&s), E::Float(1000.0)), vec![set(&s, bin(Op::Div, v(&s), E::Float(3.0)))]),
    ];
    count_loop(m, out, &i, 1, int(n), body);
    out.push(show(v(&s)));
    out.push(show(v(&x)));
    out.push(show(E::Builtin("sqrt", vec![E::Builtin("abs", vec![v(&s)])])));
    m.export(&s, Ty::Float, true);
}
fn leibniz(m: &mut Maker, out: &mut Vec<S>) {
    let n = hot(m);
    let (k, sg, s) = (m.fresh("k"), m.fresh("sg"), m.fresh("fs"));
    out.push(letm(&s, E::Float(0.0)));
    out.push(letm(&sg, E::Float(1.0)));
    out.push(letm(&k, E::Float(0.0)));
    out.push(while_(
        lt(v(&k), E::Float(n as f64)),
        vec![
            set(&s, add(v(&s), bin(Op::Div, v(&sg), add(mul(E::Float(2.0), v(&k)), E::Float(1.0))))),
            set(&sg, sub(E::Float(0.0), v(&sg))),
            set(&k, add(v(&k), E::Float(1.0))),
        ],
    ));
    out.push(show(mul(v(&s), E::Float(4.0))));
    m.export(&s, Ty::Float, true);
}
fn mandel(m: &mut Maker, out: &mut Vec<S>) {
    let (zr, zi, t, i) = (m.fresh("zr"), m.fresh("zi"), m.fresh("t"), m.fresh("i"));
    let (cr, ci) = (m.r.range(-20, 10) as f64 / 10.0, m.r.range(-12, 12) as f64 / 10.0);
    out.push(letm(&zr, E::Float(0.0)));
    out.push(letm(&zi, E::Float(0.0)));
    out.push(letm(&i, int(0)));
    out.push(while_(
        bin(Op::And, lt(v(&i), int(50)), bin(Op::Le, add(mul(v(&zr), v(&zr)), mul(v(&zi), v(&zi))), E::Float(4.0))),
        vec![
            let_(&t, add(sub(mul(v(&zr), v(&zr)), mul(v(&zi), v(&zi))), E::Float(cr))),
            set(&zi, add(mul(mul(E::Float(2.0), v(&zr)), v(&zi)), E::Float(ci))),
            set(&zr, v(&t)),
            incr(&i, 1),
        ],
    ));
    out.push(show(v(&i)));
    out.push(show(bin(Op::Gt, v(&zr), E::Float(0.0))));
    m.export(&i, Ty::Int, true);
}
fn hof(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("applyf");
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("g".into(), Ty::Fn(1)), ("x".into(), Ty::Int)],
        ret: Some(Ty::Int),
        body: vec![ret(add(call("g", vec![v("x")]), call("g", vec![add(v("x"), int(1))])))],
    });
    let (g, i, s, k) = (m.fresh("g"), m.fresh("i"), m.fresh("s"), m.fresh("k"));
    out.push(letm(&k, int(m.r.range(-5, 5))));
    let w = m.fresh("w");
    out.push(let_(&g, E::Closure(vec![w.clone()], b(add(mul(v(&w), int(m.r.range(-4, 4))), v(&k))))));
    if m.r.bool() {
        out.push(set(&k, int(1000)));
    }
    out.push(letm(&s, int(0)));
    let n = m.r.range(0, 30);
    count_loop(m, out, &i, 1, int(n), vec![set(&s, add(v(&s), call(&f, vec![v(&g), v(&i)])))]);
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn capture(m: &mut Maker, out: &mut Vec<S>) {
    let f = m.fresh("maker");
    m.p.funcs.push(Func {
        name: f.clone(),
        params: vec![("n".into(), Ty::Int)],
        ret: Some(Ty::Fn(1)),
        body: vec![ret(E::Closure(vec!["z".into()], b(add(v("z"), v("n")))))],
    });
    let (g, h) = (m.fresh("g"), m.fresh("h"));
    out.push(let_(&g, call(&f, vec![int(m.r.range(-9, 9))])));
    out.push(let_(&h, call(&f, vec![int(m.r.range(-9, 9))])));
    out.push(show(call(&g, vec![call(&h, vec![int(m.r.range(0, 9))])])));
}
fn need_point(m: &mut Maker) -> usize {
    if m.p.structs.is_empty() {
        m.p.structs.push(StructDef { name: "Point".into(), fields: vec![("x".into(), Ty::Int), ("y".into(), Ty::Int)] });
    }
    0
}
fn new_point(m: &mut Maker, si: usize, x: E, y: E) -> E {
    let fs = m.p.structs[si].fields.clone();
    let args = fs
        .iter()
        .enumerate()
        .map(|(i, (_, t))| match (i, t) {
            (0, _) => x.clone(),
            (1, _) => y.clone(),
            (_, Ty::Text) => E::Text("t".into()),
            (_, Ty::Bool) => E::Bool(true),
            _ => E::Float(1.5),
        })
        .collect();
    E::New(si, args)
}
fn structs(m: &mut Maker, out: &mut Vec<S>) {
    let si = need_point(m);
    let (p, q, i) = (m.fresh("pt"), m.fresh("qt"), m.fresh("i"));
    let (x, y) = (m.r.range(-9, 9), m.r.range(-9, 9));
    let e = new_point(m, si, int(x), int(y));
    out.push(letm(&p, e));
    out.push(letm(&q, v(&p)));
    let n = hot(m).min(60);
    let body = vec![
        S::SetField(p.clone(), si, 0, modulo(add(E::Field(b(v(&p)), si, 0), v(&i)), int(1009))),
        S::SetField(p.clone(), si, 1, sub(E::Field(b(v(&p)), si, 1), E::Field(b(v(&p)), si, 0))),
    ];
    count_loop(m, out, &i, 1, int(n), body);
    if m.cfg.aot {
        out.push(show(E::Field(b(v(&p)), si, 0)));
        out.push(show(E::Field(b(v(&q)), si, 0)));
        out.push(show(E::Field(b(v(&q)), si, 1)));
    } else {
        out.push(show(v(&p)));
        out.push(show(v(&q)));
    }
    out.push(show(E::Field(b(v(&p)), si, 1)));
    m.export(&p, Ty::Struct(si), true);
}
fn soa(m: &mut Maker, out: &mut Vec<S>) {
    let si = need_point(m);
    let n = m.r.range(1, 40);
    let (ps, i, p, s) = (m.fresh("ps"), m.fresh("i"), m.fresh("pt"), m.fresh("s"));
    out.push(letm(&ps, E::NewSeq(Ty::Struct(si))));
    let k = m.r.range(-3, 9);
    let e = new_point(m, si, mul(v(&i), int(k)), sub(int(100), v(&i)));
    count_loop(m, out, &i, 1, int(n), vec![push(e, &ps)]);
    out.push(letm(&s, int(0)));
    if m.r.bool() {
        out.push(S::ForIn(p.clone(), v(&ps), vec![set(&s, add(v(&s), mul(E::Field(b(v(&p)), si, 0), E::Field(b(v(&p)), si, 1))))]));
    } else {
        let j = m.fresh("j");
        let body = vec![
            letm(&p, idx(v(&ps), v(&j))),
            S::SetField(p.clone(), si, 0, add(E::Field(b(v(&p)), si, 0), int(1))),
            S::SetIdx(ps.clone(), v(&j), v(&p)),
            set(&s, add(v(&s), E::Field(b(idx(v(&ps), v(&j))), si, 0))),
        ];
        count_loop(m, out, &j, 1, len(v(&ps)), body);
    }
    out.push(show(v(&s)));
    if n < 6 && !m.cfg.aot {
        out.push(show(v(&ps)));
    }
    m.export(&s, Ty::Int, true);
}
fn tree(m: &mut Maker, out: &mut Vec<S>) {
    let name = if m.p.enums.iter().any(|e| e.name == "Tree") { return } else { "Tree" };
    let ei = m.p.enums.len();
    m.p.enums.push(EnumDef {
        name: name.into(),
        variants: vec![
            ("Leaf".into(), vec![("value".into(), Ty::Int)]),
            ("Branch".into(), vec![("left".into(), Ty::Enum(ei)), ("right".into(), Ty::Enum(ei))]),
        ],
    });
    let (mk, sm) = (m.fresh("grow"), m.fresh("total"));
    m.p.funcs.push(Func {
        name: mk.clone(),
        params: vec![("d".into(), Ty::Int), ("k".into(), Ty::Int)],
        ret: Some(Ty::Enum(ei)),
        body: vec![
            if_(bin(Op::Le, v("d"), int(0)), vec![ret(E::Variant(ei, 0, vec![v("k")]))]),
            ret(E::Variant(ei, 1, vec![call(&mk, vec![sub(v("d"), int(1)), mul(v("k"), int(2))]), call(&mk, vec![sub(v("d"), int(2)), add(v("k"), int(1))])])),
        ],
    });
    m.p.funcs.push(Func {
        name: sm.clone(),
        params: vec![("t".into(), Ty::Enum(ei))],
        ret: Some(Ty::Int),
        body: vec![
            letm("res", int(0)),
            S::Inspect(
                v("t"),
                ei,
                vec![
                    (0, vec!["val".into()], vec![set("res", v("val"))]),
                    (1, vec!["lt".into(), "rt".into()], vec![set("res", sub(mul(call(&sm, vec![v("lt")]), int(3)), call(&sm, vec![v("rt")])))]),
                ],
                None,
            ),
            ret(v("res")),
        ],
    });
    let t = m.fresh("t");
    let d = m.r.range(0, 6);
    out.push(letm(&t, call(&mk, vec![int(d), int(m.r.range(1, 5))])));
    out.push(show(call(&sm, vec![v(&t)])));
    if d < 4 && !m.cfg.aot {
        out.push(show(v(&t)));
    }
}
fn shapes(m: &mut Maker, out: &mut Vec<S>) {
    if m.p.enums.is_empty() || m.p.enums[0].name != "Shape" {
        return closed_sum(m, out);
    }
    let f = m.fresh("area");
    let vs = m.p.enums[0].variants.clone();
    let mut arms = vec![];
    for (k, (_, fs)) in vs.iter().enumerate() {
        let names: Vec<String> = (0..fs.len()).map(|i| format!("z{i}")).collect();
        let e = match k {
            0 => mul(v("z0"), v("z0")),
            1 => mul(v("z0"), v("z1")),
            2 => int(-1),
            _ => len(v("z0")),
        };
        arms.push((k, names, vec![ret(e)]));
    }
    m.p.funcs.push(Func { name: f.clone(), params: vec![("s".into(), Ty::Enum(0))], ret: Some(Ty::Int), body: vec![S::Inspect(v("s"), 0, arms, None), ret(int(0))] });
    let (xs, x, s) = (m.fresh("ss"), m.fresh("x"), m.fresh("s"));
    let n = m.r.range(1, 6);
    out.push(letm(&xs, E::NewSeq(Ty::Enum(0))));
    for _ in 0..n {
        let e = m.expr(&Ty::Enum(0), 0);
        out.push(push(e, &xs));
    }
    out.push(letm(&s, int(0)));
    out.push(S::ForIn(x.clone(), v(&xs), vec![if m.cfg.aot { show(v(&s)) } else { show(v(&x)) }, set(&s, add(mul(v(&s), int(10)), call(&f, vec![v(&x)])))]));
    out.push(show(v(&s)));
    m.export(&s, Ty::Int, true);
}
fn set_ops(m: &mut Maker, out: &mut Vec<S>) {
    let (a, c, i) = (m.fresh("sa"), m.fresh("sb"), m.fresh("i"));
    out.push(letm(&a, E::NewSet(Ty::Int)));
    out.push(letm(&c, E::NewSet(Ty::Int)));
    let n = m.r.range(0, 30);
    let (k1, k2) = (m.r.range(2, 15), m.r.range(2, 15));
    let body = vec![S::AddTo(modulo(mul(v(&i), v(&i)), int(k1)), a.clone()), S::AddTo(modulo(mul(v(&i), int(3)), int(k2)), c.clone())];
    count_loop(m, out, &i, 0, int(n), body);
    out.push(show(v(&a)));
    for o in [Op::Union, Op::Inter, Op::Diff] {
        out.push(show(bin(o, v(&a), v(&c))));
    }
    out.push(S::RemoveFrom(int(m.r.range(0, 5)), a.clone()));
    out.push(show(bin(Op::Eq, v(&a), v(&c))));
    m.export(&a, Ty::set(Ty::Int), true);
    m.export(&c, Ty::set(Ty::Int), true);
}
fn grid(m: &mut Maker, out: &mut Vec<S>) {
    let (g, row, i, j, s) = (m.fresh("g"), m.fresh("row"), m.fresh("i"), m.fresh("j"), m.fresh("s"));
    let (h, w) = (m.r.range(1, 8), m.r.range(1, 8));
    out.push(letm(&g, E::NewSeq(Ty::seq(Ty::Int))));
    let mut bd = vec![letm(&row, E::NewSeq(Ty::Int))];
    count_loop(m, &mut bd, &j, 1, int(w), vec![push(add(mul(v(&i), int(10)), v(&j)), &row)]);
    bd.push(push(v(&row), &g));
    if m.r.chance(1, 3) {
        // the row pushed must not see this
        bd.push(push(int(-1), &row));
    }
    count_loop(m, out, &i, 1, int(h), bd);
    out.push(S::SetIdx2(g.clone(), int(m.r.range(1, h)), int(m.r.range(1, w)), int(-7)));
    out.push(letm(&s, int(0)));
    let (a, c) = (m.fresh("i"), m.fresh("j"));
    let mut bd = vec![];
    count_loop(m, &mut bd, &c, 1, int(w), vec![set(&s, modulo(add(mul(v(&s), int(3)), idx(idx(v(&g), v(&a)), v(&c))), int(1000003)))]);
    count_loop(m, out, &a, 1, len(v(&g)), bd);
    out.push(show(v(&s)));
    out.push(show(v(&g)));
    m.export(&g, Ty::seq(Ty::seq(Ty::Int)), true);
}
fn rows_alias(m: &mut Maker, out: &mut Vec<S>) {
    let (g, h, r) = (m.fresh("g"), m.fresh("h"), m.fresh("r"));
    out.push(letm(&g, E::List(vec![E::List(vec![int(1), int(2)]), E::List(vec![int(3)])])));
    out.push(letm(&h, v(&g)));
    out.push(letm(&r, idx(v(&g), int(1))));
    match m.r.below(4) {
        0 => out.push(push(int(9), &r)),
        1 => out.push(S::SetIdx2(h.clone(), int(1), int(2), int(50))),
        2 => out.push(S::SetIdx(g.clone(), int(2), v(&r))),
        _ => {
            out.push(S::SetIdx(r.clone(), int(1), int(11)));
            out.push(push(v(&r), &h));
            out.push(push(int(4), &r));
        }
    }
    for n in [&g, &h] {
        out.push(show(v(n)));
    }
    out.push(show(v(&r)));
    m.export(&r, Ty::seq(Ty::Int), true);
}
