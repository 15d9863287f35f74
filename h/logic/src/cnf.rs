//! Formula generators and an evaluator that shares nothing with the solvers under test:
//! clauses are signed integers, satisfiability is decided by enumerating assignments,
//! refutations are replayed by a propagator of our own.

use logicaffeine_proof::cdcl::Lit;
use vkit::Rng;

/// A clause over variables 1.. in the usual signed notation.
pub type Cl = Vec<i32>;

#[derive(Clone, Debug)]
pub struct F {
    pub n: usize,
    pub cls: Vec<Cl>,
    pub kind: &'static str,
}

pub fn lit(l: i32) -> Lit {
    Lit::new((l.unsigned_abs() - 1) as u32, l > 0)
}
pub fn unlit(l: Lit) -> i32 {
    let v = l.var() as i32 + 1;
    if l.is_positive() { v } else { -v }
}
pub fn to(cls: &[Cl]) -> Vec<Vec<Lit>> {
    cls.iter().map(|c| c.iter().map(|&l| lit(l)).collect()).collect()
}
pub fn from(cls: &[Vec<Lit>]) -> Vec<Cl> {
    cls.iter().map(|c| c.iter().map(|&l| unlit(l)).collect()).collect()
}

/// Truth of a clause set under an assignment given as bits.
pub struct Table {
    masks: Vec<(u32, u32)>,
    n: usize,
}
impl Table {
    pub fn new(n: usize, cls: &[Cl]) -> Self {
        let masks = cls
            .iter()
            .map(|c| {
                let (mut p, mut q) = (0u32, 0u32);
                for &l in c {
                    if l > 0 { p |= 1 << (l - 1) } else { q |= 1 << (-l - 1) }
                }
                (p, q)
            })
            .collect();
        Table { masks, n }
    }
    pub fn holds(&self, a: u32) -> bool {
        self.masks.iter().all(|&(p, q)| (a & p) | (!a & q) != 0)
    }
    pub fn models(&self) -> Vec<u32> {
        (0..1u32 << self.n).filter(|&a| self.holds(a)).collect()
    }
    pub fn first(&self) -> Option<u32> {
        (0..1u32 << self.n).find(|&a| self.holds(a))
    }
}

pub fn satisfied(cls: &[Cl], m: &[bool]) -> bool {
    cls.iter().all(|c| c.iter().any(|&l| m.get(l.unsigned_abs() as usize - 1).copied().map_or(false, |b| b == (l > 0))))
}

pub fn bits(n: usize, a: u32) -> Vec<bool> {
    (0..n).map(|i| a >> i & 1 == 1).collect()
}

/// A plain backtracking decision procedure for formulas too wide to enumerate. None when it gives up.
pub fn dpll(n: usize, cls: &[Cl], budget: &mut u64) -> Option<bool> {
    fn go(cls: &[Cl], a: &mut Vec<i8>, budget: &mut u64) -> Option<bool> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let mut set = Vec::new();
        let r = loop {
            let mut changed = false;
            let mut conflict = false;
            let mut open: Option<i32> = None;
            let mut shortest = usize::MAX;
            for c in cls {
                let mut free = 0;
                let mut f = 0;
                let mut sat = false;
                for &l in c {
                    let v = a[l.unsigned_abs() as usize];
                    if v == 0 {
                        if f != l {
                            free += 1;
                            f = l;
                        }
                    } else if (v > 0) == (l > 0) {
                        sat = true;
                        break;
                    }
                }
                if sat {
                    continue;
                }
                if free == 0 {
                    conflict = true;
                    break;
                }
                if free == 1 {
                    a[f.unsigned_abs() as usize] = if f > 0 { 1 } else { -1 };
                    set.push(f.unsigned_abs() as usize);
                    changed = true;
                } else if free < shortest {
                    shortest = free;
                    open = Some(f);
                }
            }
            if conflict {
                break Some(false);
            }
            if changed {
                continue;
            }
            match open {
                None => break Some(true),
                Some(l) => {
                    let v = l.unsigned_abs() as usize;
                    let mut out = Some(false);
                    for s in [l, -l] {
                        a[v] = if s > 0 { 1 } else { -1 };
                        match go(cls, a, budget) {
                            Some(false) => {}
                            other => {
                                out = other;
                                break;
                            }
                        }
                    }
                    a[v] = 0;
                    break out;
                }
            }
        };
        for v in set {
            a[v] = 0;
        }
        r
    }
    go(cls, &mut vec![0i8; n + 1], budget)
}

/// Does unit propagation over `db` from the given true literals reach a conflict?
pub fn propagates_to_conflict(n: usize, db: &[Cl], assume: &[i32]) -> bool {
    let mut a = vec![0i8; n + 1];
    let mut grow = |a: &mut Vec<i8>, l: i32| {
        let v = l.unsigned_abs() as usize;
        if v >= a.len() {
            a.resize(v + 1, 0);
        }
        let want = if l > 0 { 1 } else { -1 };
        if a[v] == -want {
            return false;
        }
        a[v] = want;
        true
    };
    for &l in assume {
        if !grow(&mut a, l) {
            return true;
        }
    }
    loop {
        let mut changed = false;
        for c in db {
            let mut unit = 0i32;
            let mut many = false;
            let mut sat = false;
            for &l in c {
                let v = a.get(l.unsigned_abs() as usize).copied().unwrap_or(0);
                if v == 0 {
                    if unit == 0 {
                        unit = l;
                    } else if unit != l {
                        many = true;
                    }
                } else if (v > 0) == (l > 0) {
                    sat = true;
                    break;
                }
            }
            if sat || many {
                continue;
            }
            if unit == 0 {
                return true;
            }
            grow(&mut a, unit);
            changed = true;
        }
        if !changed {
            return false;
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Rup(Cl),
    Assign(Cl, Vec<i32>),
    /// images of the positive literals
    Subst(Cl, Vec<i32>),
    Del(Cl),
}

fn canon(c: &[i32]) -> Cl {
    let mut c = c.to_vec();
    c.sort();
    c.dedup();
    c
}

/// Replays a refutation. `Err` names the first step that does not follow.
pub fn replay(n: usize, original: &[Cl], steps: &[Step]) -> Result<(), String> {
    let mut db = original.to_vec();
    let neg = |c: &[i32]| c.iter().map(|l| -l).collect::<Vec<_>>();
    for (i, s) in steps.iter().enumerate() {
        match s {
            Step::Rup(c) => {
                if !propagates_to_conflict(n, &db, &neg(c)) {
                    return Err(format!("step {i}: clause {c:?} does not follow by propagation"));
                }
                db.push(c.clone());
            }
            Step::Assign(c, w) => {
                if w.iter().any(|l| w.contains(&-l)) || !c.iter().any(|l| w.contains(l)) {
                    return Err(format!("step {i}: witness {w:?} does not satisfy {c:?}"));
                }
                for d in &db {
                    if d.iter().any(|l| w.contains(l)) {
                        continue;
                    }
                    let rest: Vec<i32> = d.iter().copied().filter(|l| !w.contains(&-l)).collect();
                    let mut a = neg(c);
                    a.extend(neg(&rest));
                    if !propagates_to_conflict(n, &db, &a) {
                        return Err(format!("step {i}: {c:?} with witness {w:?} is not redundant against {d:?}"));
                    }
                }
                db.push(c.clone());
            }
            Step::Subst(c, img) => {
                let ap = |l: i32| {
                    let v = l.unsigned_abs() as usize;
                    let m = img.get(v - 1).copied().unwrap_or(v as i32);
                    if l > 0 { m } else { -m }
                };
                let mut vars: Vec<u32> = img.iter().map(|l| l.unsigned_abs()).collect();
                vars.sort();
                vars.dedup();
                if vars.len() != img.len() {
                    return Err(format!("step {i}: the substitution is not a permutation"));
                }
                let have: std::collections::HashSet<Cl> = db.iter().map(|c| canon(c)).collect();
                for d in &db {
                    let im: Cl = d.iter().map(|&l| ap(l)).collect();
                    if !have.contains(&canon(&im)) {
                        return Err(format!("step {i}: {img:?} is not a symmetry of the clause set"));
                    }
                }
                let mut a = neg(c);
                a.extend(c.iter().map(|&l| -ap(l)));
                if !propagates_to_conflict(n, &db, &a) {
                    return Err(format!("step {i}: {c:?} under {img:?} is not redundant"));
                }
                db.push(c.clone());
            }
            Step::Del(c) => {
                let k = canon(c);
                if let Some(p) = db.iter().position(|d| canon(d) == k) {
                    db.swap_remove(p);
                }
            }
        }
    }
    if propagates_to_conflict(n, &db, &[]) { Ok(()) } else { Err("no contradiction at the end".into()) }
}

fn rand_clause(r: &mut Rng, n: usize, k: usize) -> Cl {
    let mut c = Cl::new();
    while c.len() < k.min(n) {
        let v = r.range(1, n as i64) as i32;
        if !c.iter().any(|l| l.abs() == v) {
            c.push(if r.bool() { v } else { -v });
        }
    }
    c
}

fn xor_clauses(vars: &[usize], rhs: bool) -> Vec<Cl> {
    let k = vars.len();
    (0..1u32 << k)
        .filter(|a| (a.count_ones() % 2 == 1) != rhs)
        .map(|a| (0..k).map(|i| if a >> i & 1 == 1 { -(vars[i] as i32) } else { vars[i] as i32 }).collect())
        .collect()
}

fn amo(vars: &[usize], out: &mut Vec<Cl>) {
    for i in 0..vars.len() {
        for j in i + 1..vars.len() {
            out.push(vec![-(vars[i] as i32), -(vars[j] as i32)]);
        }
    }
}

/// All `k`-subsets of `vars`.
pub fn subsets(vars: &[usize], k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    if vars.len() < k {
        return vec![];
    }
    let mut out = subsets(&vars[1..], k);
    for mut s in subsets(&vars[1..], k - 1) {
        s.insert(0, vars[0]);
        out.push(s);
    }
    out
}

pub const KINDS: &[&str] = &[
    "random", "threshold", "pigeonhole", "parity", "colouring", "components", "symmetric", "onehot-mod", "horn", "two",
    "ordering", "cover", "cardinality", "mixed", "messy",
];

fn base(r: &mut Rng, kind: &'static str, max_n: usize) -> (usize, Vec<Cl>) {
    let mut cls: Vec<Cl> = Vec::new();
    match kind {
        "random" => {
            let n = r.range(2, max_n as i64) as usize;
            let m = r.range(1, 5 * n as i64) as usize;
            for _ in 0..m {
                let k = [1, 2, 2, 3, 3, 3, 3, 4, 5][r.below(9)];
                cls.push(rand_clause(r, n, k));
            }
            (n, cls)
        }
        "threshold" => {
            let n = r.range(5, max_n as i64) as usize;
            let m = (n as f64 * (3.6 + 1.6 * r.f64())) as usize;
            for _ in 0..m {
                cls.push(rand_clause(r, n, 3));
            }
            (n, cls)
        }
        "pigeonhole" => {
            let shapes: Vec<(usize, usize)> = [(2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4), (5, 3), (5, 5), (6, 5)]
                .into_iter()
                .filter(|&(p, h)| p * h <= max_n)
                .collect();
            let (p, h) = *r.pick(&shapes);
            let v = |i: usize, j: usize| i * h + j + 1;
            for i in 0..p {
                cls.push((0..h).map(|j| v(i, j) as i32).collect());
            }
            for j in 0..h {
                amo(&(0..p).map(|i| v(i, j)).collect::<Vec<_>>(), &mut cls);
            }
            if r.chance(30, 100) {
                for i in 0..p {
                    amo(&(0..h).map(|j| v(i, j)).collect::<Vec<_>>(), &mut cls);
                }
            }
            (p * h, cls)
        }
        "parity" => {
            let n = r.range(3, max_n as i64) as usize;
            let m = r.range(2, n as i64 + 2) as usize;
            for _ in 0..m {
                let k = r.range(1, 4.min(n as i64)) as usize;
                let mut vs: Vec<usize> = (1..=n).collect();
                r.shuffle(&mut vs);
                cls.extend(xor_clauses(&vs[..k], r.bool()));
            }
            (n, cls)
        }
        "colouring" => {
            let k = r.range(2, 4) as usize;
            let nodes = r.range(2, (max_n / k).max(2) as i64) as usize;
            let v = |i: usize, c: usize| (i * k + c + 1) as i32;
            for i in 0..nodes {
                cls.push((0..k).map(|c| v(i, c)).collect());
                if r.chance(70, 100) {
                    amo(&(0..k).map(|c| v(i, c) as usize).collect::<Vec<_>>(), &mut cls);
                }
            }
            let p = 0.4 + 0.6 * r.f64();
            for i in 0..nodes {
                for j in i + 1..nodes {
                    if r.f64() < p {
                        for c in 0..k {
                            cls.push(vec![-v(i, c), -v(j, c)]);
                        }
                    }
                }
            }
            (nodes * k, cls)
        }
        "components" => {
            let copies = r.range(2, 3) as usize;
            let sub_kind = *r.pick(&["random", "threshold", "parity", "symmetric"]);
            let (n, sub) = base(r, sub_kind, (max_n / copies).max(5).min(max_n));
            let mut total = 0;
            for i in 0..copies {
                if total + n > max_n {
                    break;
                }
                let off = total as i32;
                let this = if r.chance(75, 100) || i == 0 { sub.clone() } else { base(r, "random", n.max(2)).1 };
                for c in &this {
                    if c.iter().all(|l| l.unsigned_abs() as usize <= n) {
                        cls.push(c.iter().map(|&l| if l > 0 { l + off } else { l - off }).collect());
                    }
                }
                total += n;
            }
            (total, cls)
        }
        "symmetric" => {
            // close a few clauses under a random group of variable permutations
            let n = r.range(4, max_n.min(10) as i64) as usize;
            let mut gens: Vec<Vec<usize>> = Vec::new();
            for _ in 0..r.range(1, 2) {
                let mut p: Vec<usize> = (0..n).collect();
                match r.below(4) {
                    0 => p.rotate_left(r.range(1, n as i64 - 1) as usize),
                    1 => {
                        let k = r.range(2, n as i64) as usize;
                        p[..k].rotate_left(1);
                    }
                    2 => {
                        let h = n / 2;
                        for i in 0..h {
                            p.swap(i, i + h);
                        }
                    }
                    _ => {
                        let (a, b) = (r.below(n), r.below(n));
                        p.swap(a, b);
                    }
                }
                gens.push(p);
            }
            let mut seen: std::collections::BTreeSet<Cl> = Default::default();
            for _ in 0..r.range(1, 5) {
                let k = r.range(2, 4) as usize;
                let mut todo = vec![canon(&rand_clause(r, n, k))];
                while let Some(c) = todo.pop() {
                    if seen.len() < 160 && seen.insert(c.clone()) {
                        for g in &gens {
                            todo.push(canon(
                                &c.iter()
                                    .map(|&l| {
                                        let w = g[l.unsigned_abs() as usize - 1] as i32 + 1;
                                        if l > 0 { w } else { -w }
                                    })
                                    .collect::<Vec<_>>(),
                            ));
                        }
                    }
                }
            }
            (n, seen.into_iter().collect())
        }
        "onehot-mod" => {
            let m = *r.pick(&[2usize, 3, 3, 4, 5, 6]);
            let g = r.range(1, (max_n / m).max(1) as i64) as usize;
            let v = |i: usize, c: usize| (i * m + c + 1) as i32;
            for i in 0..g {
                cls.push((0..m).map(|c| v(i, c)).collect());
                amo(&(0..m).map(|c| v(i, c) as usize).collect::<Vec<_>>(), &mut cls);
            }
            for _ in 0..r.range(1, g as i64 + 1) {
                let k = r.range(1, 2.min(g as i64)) as usize;
                let mut vs: Vec<usize> = (0..g).collect();
                r.shuffle(&mut vs);
                let co: Vec<usize> = (0..k).map(|_| r.range(1, m as i64 - 1) as usize).collect();
                let rhs = r.below(m);
                for t in 0..m.pow(k as u32) {
                    let ds: Vec<usize> = (0..k).map(|i| t / m.pow(i as u32) % m).collect();
                    if (0..k).map(|i| co[i] * ds[i]).sum::<usize>() % m != rhs {
                        cls.push((0..k).map(|i| -v(vs[i], ds[i])).collect());
                    }
                }
            }
            (g * m, cls)
        }
        "horn" => {
            let n = r.range(2, max_n as i64) as usize;
            let flip = r.bool();
            for _ in 0..r.range(2, 3 * n as i64) {
                let k = r.range(1, 4.min(n as i64)) as usize;
                let mut c: Cl = rand_clause(r, n, k).iter().map(|l| -l.abs()).collect();
                if r.chance(80, 100) {
                    c[0] = -c[0];
                }
                if flip {
                    c = c.iter().map(|l| -l).collect();
                }
                cls.push(c);
            }
            (n, cls)
        }
        "two" => {
            let n = r.range(2, max_n as i64) as usize;
            for _ in 0..r.range(n as i64 / 2 + 1, 2 * n as i64 + 2) {
                let k = if r.chance(10, 100) { 1 } else { 2 };
                cls.push(rand_clause(r, n, k));
            }
            (n, cls)
        }
        "ordering" => {
            // a strict order without a least element
            let k = if max_n >= 12 { r.range(3, 4) } else { 3 } as usize;
            let mut id = std::collections::HashMap::new();
            let mut n = 0;
            for i in 0..k {
                for j in 0..k {
                    if i != j {
                        n += 1;
                        id.insert((i, j), n as i32);
                    }
                }
            }
            for i in 0..k {
                for j in 0..k {
                    if i == j {
                        continue;
                    }
                    if i < j {
                        cls.push(vec![-id[&(i, j)], -id[&(j, i)]]);
                        if r.chance(50, 100) {
                            cls.push(vec![id[&(i, j)], id[&(j, i)]]);
                        }
                    }
                    for l in 0..k {
                        if l != i && l != j {
                            cls.push(vec![-id[&(i, j)], -id[&(j, l)], id[&(i, l)]]);
                        }
                    }
                }
                cls.push((0..k).filter(|&j| j != i).map(|j| id[&(j, i)]).collect());
            }
            (n, cls)
        }
        "cover" => {
            // exactly-one groups over a set system
            let n = r.range(3, max_n as i64) as usize;
            for _ in 0..r.range(2, n as i64) {
                let mut vs: Vec<usize> = (1..=n).collect();
                r.shuffle(&mut vs);
                let k = r.range(2, 4.min(n as i64)) as usize;
                cls.push(vs[..k].iter().map(|&v| v as i32).collect());
                amo(&vs[..k], &mut cls);
            }
            (n, cls)
        }
        "cardinality" => {
            let n = r.range(3, max_n.min(9) as i64) as usize;
            for _ in 0..r.range(1, 3) {
                let mut vs: Vec<usize> = (1..=n).collect();
                r.shuffle(&mut vs);
                let g = r.range(2, n as i64) as usize;
                let k = r.range(0, g as i64 - 1) as usize;
                let sign = if r.bool() { -1 } else { 1 };
                // at most k (or, flipped, at least g-k)
                for s in subsets(&vs[..g], k + 1) {
                    cls.push(s.iter().map(|&v| sign * v as i32).collect());
                }
            }
            cls.truncate(220);
            (n, cls)
        }
        "mixed" => {
            let k1 = *r.pick(&["parity", "pigeonhole", "cover", "cardinality", "onehot-mod", "colouring"]);
            let (n1, mut a) = base(r, k1, max_n);
            let k2 = *r.pick(&["parity", "random", "two", "horn"]);
            let (n2, b) = base(r, k2, max_n);
            a.extend(b);
            (n1.max(n2), a)
        }
        _ => {
            // messy: repeated literals, tautologies, duplicates, unit and empty clauses, unused variables
            let n = r.range(1, max_n as i64) as usize;
            for _ in 0..r.range(0, 3 * n as i64) {
                let k = r.below(5);
                let k = if k == 0 && r.chance(90, 100) { 1 } else { k };
                let c: Cl = (0..k)
                    .map(|_| {
                        let v = r.range(1, n as i64) as i32;
                        if r.bool() { v } else { -v }
                    })
                    .collect();
                if r.chance(10, 100) {
                    cls.push(c.clone());
                }
                cls.push(c);
            }
            (n, cls)
        }
    }
}

/// A formula of a random family, possibly relabelled, sign-flipped and damaged.
pub fn formula(r: &mut Rng, max_n: usize) -> F {
    let kind = *r.pick(KINDS);
    formula_of(r, kind, max_n)
}

pub fn formula_of(r: &mut Rng, kind: &'static str, max_n: usize) -> F {
    let (mut n, mut cls) = base(r, kind, max_n);
    // damage a recogniser could overlook
    if r.chance(45, 100) {
        for _ in 0..r.range(1, 2) {
            if cls.is_empty() {
                break;
            }
            let i = r.below(cls.len());
            match r.below(6) {
                0 => {
                    cls.remove(i);
                }
                1 => {
                    if !cls[i].is_empty() {
                        let j = r.below(cls[i].len());
                        cls[i][j] = -cls[i][j];
                    }
                }
                2 => {
                    if cls[i].len() > 1 {
                        let j = r.below(cls[i].len());
                        cls[i].remove(j);
                    }
                }
                3 => {
                    let v = r.range(1, n as i64) as i32;
                    let v = if r.bool() { v } else { -v };
                    cls[i].push(v);
                }
                4 => {
                    let k = r.range(1, 3) as usize;
                    let c = rand_clause(r, n, k);
                    cls.push(c);
                }
                _ => {
                    let j = r.below(cls.len());
                    let c = cls[j].clone();
                    cls.push(c);
                }
            }
        }
    }
    if r.chance(60, 100) {
        let mut p: Vec<i32> = (1..=n as i32).collect();
        r.shuffle(&mut p);
        for c in &mut cls {
            for l in c.iter_mut() {
                let w = p[l.unsigned_abs() as usize - 1];
                *l = if *l > 0 { w } else { -w };
            }
        }
    }
    if r.chance(35, 100) {
        let flip: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        for c in &mut cls {
            for l in c.iter_mut() {
                if flip[l.unsigned_abs() as usize - 1] {
                    *l = -*l;
                }
            }
        }
    }
    if r.chance(60, 100) {
        r.shuffle(&mut cls);
        for c in &mut cls {
            r.shuffle(c);
        }
    }
    if n < max_n && r.chance(10, 100) {
        n += 1;
    }
    F { n, cls, kind }
}
