//! C06: the eigensolver against an independent dense eigensolver.
use bugi::matrix::solve::eigen::{DeterminantSearcher, EigenPair, EigenSystem};
use bugi::matrix::solve::System;
use bugi::matrix::{CompressedRow, MatrixLike};
use verif_core::dense::*;
use verif_core::{conv, main_loop, Ctx, Plan};

const VALUE: f64 = 2e-5;
const RESID: f64 = 5e-3;

fn problem(c: &mut Ctx) -> Option<(M, M, Vec<f64>, M, String)> {
    let large = c.idx % 2003 == 2002;
    let n = match c.rng.below(12) {
        _ if large => c.rng.range(70, 200),
        0 => 1,
        1 => 2,
        2 => c.rng.range(20, if c.thorough { 60 } else { 36 }),
        _ => c.rng.range(2, 16),
    };
    let (name, e) = pattern(&mut c.rng, n);
    if large {
        c.count("problems of 70 to 200 unknowns");
    }
    let kind = c.rng.below(4);
    let margin = *c.rng.pick(&[0.01, 0.3, 1.0]);
    let rng = &mut c.rng;
    let mut k = spd(rng, n, &e, margin);
    let mut m = match rng.below(4) {
        0 => M::eye(n),
        1 => M::from_fn(n, n, |i, j| if i == j { 0.5 + rng.unit() } else { 0.0 }),
        _ => {
            let sub: Vec<(usize, usize)> = e.iter().cloned().filter(|_| rng.chance(0.7)).collect();
            let mut m = spd(rng, n, &sub, 1.0);
            // keep it well conditioned
            for i in 0..n {
                m.set(i, i, m.at(i, i) + 0.5);
            }
            m
        }
    };
    if kind == 0 {
        // prescribed spread of eigenvalues over many decades
        let d: Vec<f64> = (0..n).map(|_| rng.logf(0.03, 30.0)).collect();
        k = M::from_fn(n, n, |i, j| k.at(i, j) * d[i] * d[j]);
    }
    let mut parts = String::new();
    if rng.chance(0.25) && n <= 20 {
        // alike parts, as of a symmetric structure: every eigenvalue comes several times
        let copies = rng.range(2, if n <= 3 { 12 } else if n <= 6 { 6 } else { 3 });
        let eps: f64 = *rng.pick(&[0.0, 0.0, 0.0, 1e-15, 1e-13, 1e-11, 1e-10, 1e-9, 1e-7, 1e-5, 1e-3]);
        let place = rng.perm(n * copies);
        let mut at = vec![0; n * copies];
        for (i, p) in place.iter().enumerate() {
            at[*p] = i;
        }
        let same = |i: usize, j: usize| at[i] / n == at[j] / n;
        k = M::from_fn(n * copies, n * copies, |i, j| if same(i, j) { k.at(at[i] % n, at[j] % n) * (1.0 + eps).powi((at[i] / n) as i32) } else { 0.0 });
        m = M::from_fn(n * copies, n * copies, |i, j| if same(i, j) { m.at(at[i] % n, at[j] % n) } else { 0.0 });
        parts = format!(" {} parts, {:e} apart", copies, eps);
    }
    if parts.is_empty() && rng.chance(0.15) {
        // whole numbers, as in textbooks; pivots may vanish exactly
        k = M::from_fn(n, n, |_, _| 0.0);
        for (a, b) in &e {
            let x = rng.irange(1, 3) as f64;
            for (i, j, y) in [(*a, *b, -x), (*b, *a, -x), (*a, *a, x), (*b, *b, x)] {
                k.set(i, j, k.at(i, j) + y);
            }
        }
        for i in 0..n {
            k.set(i, i, k.at(i, i) + rng.irange(0, 2) as f64);
        }
        chol(&k)?;
        m = M::from_fn(n, n, |i, j| if i == j { 1.0 } else { 0.0 });
        if rng.chance(0.5) {
            for i in 0..n {
                m.set(i, i, rng.irange(1, 3) as f64);
            }
        }
        let (w, v) = geigh_vec(&k, &m)?;
        if w[0] < 1e-6 * w[n - 1] {
            // singular: a part with nothing to hold it
            return None;
        }
        return Some((k, m, w, v, format!("n={} {} whole numbers", n, name)));
    }
    let (sk, sm) = (rng.logf(1e-6, 1e12), rng.logf(1e-6, 1e6));
    k = k.scale(sk);
    m = m.scale(sm);
    let (w, v) = geigh_vec(&k, &m)?;
    Some((k, m, w, v, format!("n={} {} kind {} margin {}{}", n, name, kind, margin, parts)))
}

fn case(c: &mut Ctx) {
    let (k, m, w, vec, text) = match problem(c) {
        Some(x) => x,
        None => {
            c.count("skipped: reference failed");
            return;
        }
    };
    let n = k.r;
    // groups of eigenvalues too close to tell their vectors apart
    let gaps: Vec<f64> = w.windows(2).map(|p| (p[1] - p[0]) / p[1]).collect();
    let alike = gaps.iter().cloned().filter(|g| *g < 0.05).fold(0.0, f64::max);
    let gap = gaps.iter().cloned().filter(|g| *g >= 0.05).fold(1.0, f64::min);
    let many = gaps.iter().any(|g| *g < 0.05);
    c.describe(format!("{} smallest gap {:.3} K={:?} M={:?} eigenvalues {:?}", text, gap, if n <= 4 { k.flat() } else { vec![] }, if n <= 4 { m.flat() } else { vec![] }, w));
    if (0..n).any(|i| i + 6 < n && (w[i + 6] - w[i]) <= 0.01 * w[i + 6]) {
        c.count("problems with more than six eigenvalues alike");
    }
    let far = |i: usize, j: usize| (w[i] - w[j]).abs() > 0.04 * w[i].max(w[j]);
    let whole = text.contains("whole");
    if many {
        c.count(if alike > 1e-6 { "problems with close eigenvalues" } else { "problems with repeated eigenvalues" });
    }
    c.sigf(&k.flat());
    c.sigf(&m.flat());
    let sys = match c.rng.below(3) {
        0 => System::from_km(&conv::lin(&k), &conv::lin(&m)),
        1 => System::from_km(&conv::dict(&k), &CompressedRow::from_flat(n, m.flat())),
        _ => {
            let mut s = System::new(n);
            // entered in random order, some coefficients in parts (exact in binary)
            let mut parts = Vec::new();
            for i in 0..n * n {
                let l = (i / n, i % n);
                for (mass, x) in [(false, k.at(l.0, l.1)), (true, m.at(l.0, l.1))] {
                    if x == 0.0 {
                        continue;
                    }
                    match c.rng.below(4) {
                        0 => parts.extend([(mass, l, x / 2.0), (mass, l, x / 2.0)]),
                        1 => parts.extend([(mass, l, x), (mass, l, 2.0 * x), (mass, l, -2.0 * x)]),
                        _ => parts.push((mass, l, x)),
                    }
                }
            }
            c.rng.shuffle(&mut parts);
            for (mass, l, x) in parts {
                if mass {
                    s.add_m_coefficient(l, x);
                } else {
                    s.add_k_coefficient(l, x);
                }
            }
            c.count("problems entered in parts");
            s
        }
    };
    let mut s = match c.run("setup panic", || DeterminantSearcher::new(EigenSystem::new(sys))) {
        Some(s) => s,
        None => return,
    };
    // counts below shifts between the eigenvalues
    for _ in 0..4 {
        let i = c.rng.below(n + 1);
        if i > 0 && i < n && gaps[i - 1] < 0.05 {
            continue;
        }
        let lo = if i == 0 { 0.0 } else { w[i - 1] };
        let hi = if i == n { w[n - 1] * 3.0 } else { w[i] };
        let t = c.rng.f(0.02, 0.98);
        let x = lo + (hi - lo) * t;
        if let Some(q) = c.run("count panic", || s.eigenvalues_under(x)) {
            c.check(q == i, "count below a shift", || format!("{} below {} instead of {}", q, x, i));
            c.count("counts compared");
        }
    }
    if whole {
        for x in 1..40 {
            let x = x as f64 / 2.0;
            if w.iter().all(|y| (x - y).abs() > 0.01 * y) {
                let i = w.iter().filter(|y| **y < x).count();
                if let Some(q) = c.run("count panic", || s.eigenvalues_under(x)) {
                    c.check(q == i, "count below a shift", || format!("{} below {} instead of {}", q, x, i));
                    c.count("counts below whole shifts compared");
                }
            }
        }
    }
    let want = if n > 62 { c.rng.range(1, 10) } else if c.rng.chance(0.4) { n } else { c.rng.range(1, n) };
    let twice = c.rng.chance(0.2);
    if twice {
        let first = c.rng.range(1, want);
        c.run("search panic", || s.find_eigens(first));
    }
    let pairs = match c.run("search panic", || s.find_eigens(want)) {
        Some(p) => p,
        None => return,
    };
    if !c.check(pairs.len() == want, "number of pairs", || format!("{} instead of {}", pairs.len(), want)) {
        return;
    }
    c.nontrivial = n > 1;
    if c.rng.chance(0.2) {
        // asked again for fewer or as many, the searcher repeats itself
        let fewer = c.rng.range(0, want);
        let same = |a: &[EigenPair], b: &[EigenPair]| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.value() == q.value() && p.vector() == q.vector());
        if let Some((again, all)) = c.run("search panic", || (s.find_eigens(fewer), s.eigenpairs())) {
            c.check(same(&again, &pairs[..fewer]), "asked again", || format!("{} pairs asked for again: {:?}", fewer, again.iter().map(|p| p.value()).collect::<Vec<_>>()));
            c.check(all.len() >= want && same(&all[..want], &pairs), "asked again", || format!("all pairs found: {:?}", all.iter().map(|p| p.value()).collect::<Vec<_>>()));
            let p = c.rng.below(want);
            if (p == 0 || far(p - 1, p)) && p + 1 < n && far(p, p + 1) {
                let x = (w[p] + w[p + 1]) / 2.0;
                if let Some(q) = c.run("count panic", || s.eigenvalues_under(x)) {
                    c.check(q == p + 1, "count below a shift", || format!("{} below {} after the search instead of {}", q, x, p + 1));
                }
            }
            c.count("searches asked again");
        }
    }
    c.add("eigenpairs compared", want as u64);
    for (i, p) in pairs.iter().enumerate() {
        let err = (p.value() - w[i]).abs() / w[i];
        if !c.check(err <= VALUE, "eigenvalue", || format!("pair {}: {} instead of {} (relative error {:e}); all {:?}", i, p.value(), w[i], err, pairs.iter().map(|p| p.value()).collect::<Vec<_>>())) {
            return;
        }
        let v = p.vector();
        if v.len() != n || v.iter().any(|x| !x.is_finite()) {
            c.fail("eigenvector", format!("pair {}: {:?}", i, v));
            return;
        }
        let nm = dot(v, &m.mulv(v));
        c.check((nm - 1.0).abs() <= 1e-6, "eigenvector norm", || format!("pair {}: v'Mv = {}", i, nm));
        // share of the other eigenvectors in it
        let mv = m.mulv(v);
        let share = (0..n).filter(|&j| far(i, j)).map(|j| (0..n).map(|r| vec.at(r, j) * mv[r]).sum::<f64>().powi(2)).sum::<f64>().sqrt();
        c.check(share <= RESID, "eigenvector", || format!("pair {}: share of other eigenvectors {:e}", i, share));
        for (j, q) in pairs.iter().enumerate().take(i) {
            let o = dot(q.vector(), &m.mulv(v)).abs();
            c.check(o <= RESID, "orthogonality", || format!("pairs {} and {}: {:e}", j, i, o));
            if o > 1e-3 {
                c.count("stat: orthogonality worse than 1e-3");
            }
        }
        if err > 1e-6 {
            c.count("stat: value worse than 1e-6");
        }
        if share > 1e-3 {
            c.count("stat: share worse than 1e-3");
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 40000,
            thorough: 800000,
            rule: "random generalized eigenproblems (ten sparsity patterns, 1 to 36 unknowns, one in 2000 with 70 to 200, unit, diagonal and consistent mass, spread, close and repeated eigenvalues, any scale) solved for the n lowest pairs in one or two calls; every value, norm, residual, orthogonality and eigenvalue count compared with an independent dense eigensolver; non-trivial: more than one unknown; distinct by matrices",
            need: &["searches asked again", "problems entered in parts", "eigenpairs compared", "counts compared", "problems with repeated eigenvalues", "problems with close eigenvalues", "problems with more than six eigenvalues alike", "problems of 70 to 200 unknowns"],
        },
        case,
    );
}
