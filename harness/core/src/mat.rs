//! Lock-step histories: one matrix of bugi and one plain array go through the same operations.
use crate::dense::M;
use crate::{conv, trap, Ctx, Rng};
use bugi::matrix::{CompressedRow, Dictionary, LinearMatrix, MatrixLike, Norm};

pub struct Caps {
    pub name: &'static str,
    /// positions whose value can be changed
    pub writable: Box<dyn Fn(usize, usize) -> bool>,
    /// every position is writable
    pub full: bool,
    pub transpose: bool,
}

/// an index, mostly valid; hostile ones are just outside or chosen to overflow offset arithmetic
pub fn index(rng: &mut Rng, n: usize, hostile: bool) -> usize {
    if hostile && rng.chance(0.5) {
        match rng.below(8) {
            0 => n,
            1 => n + 1,
            2 => usize::MAX,
            3 => usize::MAX - rng.below(4),
            4 => 1 << 63,
            5 => (1usize << 32) + rng.below(3),
            6 => (usize::MAX / n.max(1)).wrapping_add(1).max(n),
            _ => n + rng.below(20),
        }
    } else {
        rng.below(n)
    }
}

fn int(rng: &mut Rng) -> f64 {
    rng.irange(-9, 9) as f64
}

pub fn int_m(rng: &mut Rng, r: usize, c: usize, density: f64) -> M {
    M::from_fn(r, c, |_, _| if rng.chance(density) { int(rng) } else { 0.0 })
}

/// compares every element by three routes, and the iterators
pub fn compare<T: MatrixLike>(c: &mut Ctx, t: &T, m: &M, who: &str, deep: bool) {
    let shape = t.shape();
    if !c.check(shape == (m.r, m.c), "shape", || format!("{}: shape {:?} instead of {:?}", who, shape, (m.r, m.c))) {
        return;
    }
    for i in 0..m.r {
        for j in 0..m.c {
            let x = t[(i, j)];
            if !c.check(x == m.at(i, j), "element", || format!("{}: element ({}, {}) is {} instead of {}", who, i, j, x, m.at(i, j))) {
                return;
            }
            let g = t.get((i, j)).copied();
            if !c.check(g == Some(x), "get", || format!("{}: get({}, {}) gives {:?} instead of {}", who, i, j, g, x)) {
                return;
            }
        }
    }
    c.add("elements compared", (m.r * m.c) as u64);
    if !deep {
        return;
    }
    let bad = |a: &[f64], b: &[f64]| a != b;
    for i in 0..m.r {
        let a: Vec<f64> = t.row(i).cloned().collect();
        let b: Vec<f64> = (0..m.c).map(|j| m.at(i, j)).collect();
        c.check(!bad(&a, &b), "row iteration", || format!("{}: row {} gives {:?} instead of {:?}", who, i, a, b));
    }
    for j in 0..m.c {
        let a: Vec<f64> = t.col(j).cloned().collect();
        let b: Vec<f64> = (0..m.r).map(|i| m.at(i, j)).collect();
        c.check(!bad(&a, &b), "column iteration", || format!("{}: column {} gives {:?} instead of {:?}", who, j, a, b));
    }
    let a: Vec<f64> = t.diag().cloned().collect();
    let b: Vec<f64> = (0..m.r.min(m.c)).map(|i| m.at(i, i)).collect();
    c.check(!bad(&a, &b), "diagonal iteration", || format!("{}: {:?} instead of {:?}", who, a, b));
    let a: Vec<f64> = t.flat().cloned().collect();
    c.check(!bad(&a, &m.flat()), "flat iteration", || format!("{}: {:?} instead of {:?}", who, a, m.flat()));
    let a: Vec<(usize, usize)> = t.indices().collect();
    let b: Vec<(usize, usize)> = (0..m.r).flat_map(|i| (0..m.c).map(move |j| (i, j))).collect();
    c.check(a == b, "index iteration", || format!("{}: {:?} instead of {:?}", who, a, b));
    // storages may list stored zeros, but each position at most once
    let mut a: Vec<((usize, usize), f64)> = t.nzs().collect();
    a.sort_by(|x, y| x.0.cmp(&y.0));
    let n = a.len();
    a.dedup_by_key(|x| x.0);
    c.check(n == a.len(), "non-zero iteration", || format!("{}: a position listed twice", who));
    a.retain(|x| x.1 != 0.0);
    let b: Vec<((usize, usize), f64)> = b.into_iter().map(|l| (l, m.at(l.0, l.1))).filter(|x| x.1 != 0.0).collect();
    c.check(a == b, "non-zero iteration", || format!("{}: {:?} instead of {:?}", who, a, b));
    let f = t.frobenius();
    let g = m.flat().iter().map(|x| x * x).sum::<f64>().sqrt();
    // squares of very small and very large numbers leave the range
    let plain = m.max() == 0.0 || (1e-120..1e120).contains(&m.max());
    c.check(!plain || (f - g).abs() <= 1e-12 * g, "frobenius norm", || format!("{}: {} instead of {}", who, f, g));
    c.count("iterations compared");
}

/// one operation on both; `hostile` mixes in positions that do not exist
pub fn step<T: MatrixLike>(c: &mut Ctx, t: &mut T, m: &mut M, caps: &Caps, hostile: bool) -> String {
    let who = caps.name;
    let (nr, nc) = (m.r, m.c);
    let i = index(&mut c.rng, nr, hostile);
    let j = index(&mut c.rng, nc, hostile);
    let inside = i < nr && j < nc;
    let can = inside && (caps.writable)(i, j);
    let v = int(&mut c.rng);
    let op = c.rng.below(17);
    let what = format!("op {} at ({}, {}) value {}", op, i, j, v);
    let full = caps.full;
    // operations on whole rows and columns that do not exist must panic
    let must = |c: &mut Ctx, ok: bool, r: Result<(), String>, what: &str| match (ok, r) {
        (true, Err(e)) => c.fail("operation panic", format!("{}: {}: {}", who, what, e)),
        (false, Ok(())) => c.fail("out of range accepted", format!("{}: {}", who, what)),
        (false, Err(_)) => c.count("out-of-range refusals"),
        _ => {}
    };
    match op {
        0 | 1 => {
            let g = match trap(|| t.get((i, j)).copied()) {
                Ok(g) => g,
                Err(e) => {
                    c.fail("checked access panic", format!("{}: {}: {}", who, what, e));
                    None
                }
            };
            let want = if inside { Some(m.at(i, j)) } else { None };
            c.check(g == want, "get", || format!("{}: get({}, {}) gives {:?} instead of {:?}", who, i, j, g, want));
            if !inside {
                c.count("out-of-range refusals");
            }
            let g = trap(|| t[(i, j)]);
            match (&g, want) {
                (Ok(x), Some(y)) if *x == y => {}
                (Err(_), None) => {}
                _ => c.fail("index", format!("{}: [({}, {})] gives {:?} instead of {:?}", who, i, j, g, want)),
            }
        }
        2 => {
            if let Err(e) = trap(|| t.put((i, j), v)) {
                c.fail("checked access panic", format!("{}: put {}: {}", who, what, e));
            }
            if can {
                m.set(i, j, v);
            }
        }
        3 => {
            let mut calls = 0;
            if let Err(e) = trap(|| {
                t.mutate((i, j), |x| {
                    *x = *x * 2.0 + v;
                    calls += 1;
                })
            }) {
                c.fail("checked access panic", format!("{}: mutate {}: {}", who, what, e));
            }
            c.check(calls == can as i32, "mutate calls", || format!("{}: closure called {} times at ({}, {})", who, calls, i, j));
            if can {
                m.set(i, j, m.at(i, j) * 2.0 + v);
            }
        }
        4 => {
            let g = match trap(|| t.get_mut((i, j)).map(|x| std::mem::replace(x, v))) {
                Ok(g) => g,
                Err(e) => {
                    c.fail("checked access panic", format!("{}: get_mut {}: {}", who, what, e));
                    None
                }
            };
            let want = if can { Some(m.at(i, j)) } else { None };
            c.check(g == want, "get_mut", || format!("{}: get_mut({}, {}) held {:?} instead of {:?}", who, i, j, g, want));
            if can {
                m.set(i, j, v);
            }
        }
        5 => {
            let r = trap(|| t[(i, j)] = v);
            must(c, can, r, &format!("assignment, {}", what));
            if can {
                m.set(i, j, v);
            }
        }
        6 => {
            let r = trap(|| t.row(i).count());
            match (i < nr, r) {
                (true, Ok(k)) => {
                    c.check(k == nc, "row length", || format!("{}: {} of {}", who, k, nc));
                }
                (false, Err(_)) => c.count("out-of-range refusals"),
                (_, r) => c.fail("row access", format!("{}: row {}: {:?}", who, i, r)),
            }
            let r = trap(|| t.col(j).count());
            match (j < nc, r) {
                (true, Ok(k)) => {
                    c.check(k == nr, "column length", || format!("{}: {} of {}", who, k, nr));
                }
                (false, Err(_)) => c.count("out-of-range refusals"),
                (_, r) => c.fail("column access", format!("{}: column {}: {:?}", who, j, r)),
            }
        }
        7 if full => {
            let k = if hostile && c.rng.chance(0.3) { nc + 1 } else { nc };
            let new: Vec<f64> = (0..k).map(|_| int(&mut c.rng)).collect();
            let ok = k == nc && (i < nr || nc == 0);
            let r = trap(|| t.set_row(i, new.clone()));
            must(c, ok, r, &format!("set_row {}", i));
            if ok && i < nr {
                for q in 0..nc {
                    m.set(i, q, new[q]);
                }
            }
        }
        8 if full => {
            let k = if hostile && c.rng.chance(0.3) { nr + 1 } else { nr };
            let new: Vec<f64> = (0..k).map(|_| int(&mut c.rng)).collect();
            let ok = k == nr && (j < nc || nr == 0);
            let r = trap(|| t.set_col(j, new.clone()));
            must(c, ok, r, &format!("set_col {}", j));
            if ok && j < nc {
                for q in 0..nr {
                    m.set(q, j, new[q]);
                }
            }
        }
        9 if full && nc > 0 => {
            let k = index(&mut c.rng, nr, hostile);
            let ok = i < nr && k < nr;
            let r = trap(|| t.swap_rows(i, k));
            must(c, ok, r, &format!("swap_rows {} {}", i, k));
            if ok {
                for q in 0..nc {
                    let (a, b) = (m.at(i, q), m.at(k, q));
                    m.set(i, q, b);
                    m.set(k, q, a);
                }
            }
        }
        10 if full && nr > 0 => {
            let k = index(&mut c.rng, nc, hostile);
            let ok = j < nc && k < nc;
            let r = trap(|| t.swap_cols(j, k));
            must(c, ok, r, &format!("swap_cols {} {}", j, k));
            if ok {
                for q in 0..nr {
                    let (a, b) = (m.at(q, j), m.at(q, k));
                    m.set(q, j, b);
                    m.set(q, k, a);
                }
            }
        }
        11 if full && nc > 0 => {
            let r = trap(|| t.mutate_row(i, |x| *x = v - *x));
            must(c, i < nr, r, &format!("mutate_row {}", i));
            if i < nr {
                for q in 0..nc {
                    m.set(i, q, v - m.at(i, q));
                }
            }
        }
        12 if full && nr > 0 => {
            let r = trap(|| t.mutate_col(j, |x| *x = v - *x));
            must(c, j < nc, r, &format!("mutate_col {}", j));
            if j < nc {
                for q in 0..nr {
                    m.set(q, j, v - m.at(q, j));
                }
            }
        }
        13 if full => {
            // arithmetic with a changed copy of itself
            let mut o = t.clone();
            let mut om = m.clone();
            if nr > 0 && nc > 0 {
                let l = (c.rng.below(nr), c.rng.below(nc));
                o.put(l, v);
                om.set(l.0, l.1, v);
            }
            let plus = c.rng.chance(0.5);
            let r = trap(|| if plus { t.add_ass(&o) } else { t.sub_ass(&o) });
            must(c, true, r, "elementwise arithmetic");
            for q in 0..nr {
                for w in 0..nc {
                    let x = m.at(q, w) + if plus { om.at(q, w) } else { -om.at(q, w) };
                    m.set(q, w, x);
                }
            }
            tame(t, m);
        }
        14 => product(c, t, m, who),
        15 if caps.transpose => {
            t.transpose();
            *m = m.t();
        }
        _ => {
            if let Err(e) = trap(|| format!("{}{}{:?}", t.disp(), t, t).len()) {
                c.fail("display panic", format!("{}: {}", who, e));
            }
        }
    }
    what
}

/// keeps the numbers small, so that all arithmetic stays exact
fn tame<T: MatrixLike>(t: &mut T, m: &mut M) {
    if m.max() > 1e6 {
        for i in 0..m.r {
            for j in 0..m.c {
                m.set(i, j, 1.0);
                t.put((i, j), 1.0);
            }
        }
    }
}

pub fn product<T: MatrixLike>(c: &mut Ctx, t: &T, m: &M, who: &str) {
    let wrong = c.rng.chance(0.1);
    let inner = if wrong { m.c + 1 } else { m.c };
    let k = c.rng.range(1, 4);
    let dens = c.rng.unit();
    let o = int_m(&mut c.rng, inner, k, dens);
    let kind = c.rng.below(3);
    let into = c.rng.below(3);
    let r = trap(|| match (kind, into) {
        (0, 0) => conv::dense(&t.mul::<_, LinearMatrix>(&conv::lin(&o))),
        (0, 1) => conv::dense(&t.mul::<_, CompressedRow>(&conv::lin_col(&o))),
        (0, _) => conv::dense(&t.mul::<_, Dictionary>(&conv::lin_col(&o))),
        (1, 0) => conv::dense(&t.mul::<_, LinearMatrix>(&CompressedRow::from_flat((o.r, o.c), o.flat()))),
        (1, _) => conv::dense(&t.mul::<_, CompressedRow>(&CompressedRow::from_flat((o.r, o.c), o.flat()))),
        (_, 0) => conv::dense(&t.mul::<_, LinearMatrix>(&conv::dict(&o))),
        (_, _) => conv::dense(&t.mul::<_, Dictionary>(&conv::dict(&o))),
    });
    match r {
        Ok(p) => {
            if wrong {
                c.fail("product of wrong shapes", format!("{}: {:?} times {:?} gave {:?}", who, (m.r, m.c), (o.r, o.c), p));
                return;
            }
            let want = m.mul(&o);
            c.check(p == want, "product", || format!("{} times other: {:?} instead of {:?}", who, p, want));
            c.count("products compared");
        }
        Err(e) => {
            c.check(wrong, "product panic", || format!("{}: {}", who, e));
        }
    }
}
