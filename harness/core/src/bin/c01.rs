//! C01: linear solvers against residuals, reference solutions and singular systems.
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::matrix::solve::{Solver, System};
use verif_core::dense::*;
use verif_core::{conv, main_loop, trap, Ctx, Plan, Rng};

fn size(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(20) {
        0 => 1,
        1 => 2,
        2 => rng.range(40, if thorough { 200 } else { 120 }),
        3..=7 => rng.range(2, 5),
        _ => rng.range(3, 30),
    }
}

fn rhs(rng: &mut Rng, n: usize) -> Vec<f64> {
    let s = rng.logf(1e-9, 1e9);
    match rng.below(8) {
        0 => vec![0.0; n],
        1 => {
            let mut b = vec![0.0; n];
            b[rng.below(n)] = s;
            b
        }
        2 => (0..n).map(|_| if rng.chance(0.3) { s * rng.sym() } else { 0.0 }).collect(),
        _ => (0..n).map(|_| s * rng.sym()).collect(),
    }
}

fn residual(k: &M, b: &[f64], x: &[f64]) -> f64 {
    let r: Vec<f64> = k.mulv(x).iter().zip(b).map(|(a, b)| a - b).collect();
    let d = k.inf() * maxabs(x) + maxabs(b);
    if maxabs(&r) == 0.0 {
        0.0
    } else {
        maxabs(&r) / d
    }
}

fn direct<S: Solver>(c: &mut Ctx, who: &'static str, sys: System, k: &M, b: &[f64], tol: f64) -> Option<Vec<f64>> {
    match trap(|| S::new(sys).solve()) {
        Err(e) => {
            c.fail("solver panic", format!("{}: {}", who, e));
            None
        }
        Ok(Err(())) => {
            c.fail("solvable system refused", format!("{} reported an error on a solvable system", who));
            None
        }
        Ok(Ok(x)) => {
            if x.len() != b.len() || x.iter().any(|v| !v.is_finite()) {
                c.fail("non-finite", format!("{}: answer {:?}", who, x));
                return None;
            }
            let r = residual(k, b, &x);
            c.check(r <= tol, "residual", || format!("{}: relative residual {:e} x={:?}", who, r, x));
            c.count(&format!("answers checked: {}", who));
            Some(x)
        }
    }
}

fn refused<S: Solver>(c: &mut Ctx, who: &'static str, sys: System) {
    match trap(|| S::new(sys).solve()) {
        Err(e) => c.fail("panic instead of error", format!("{} on a singular system: {}", who, e)),
        Ok(Ok(x)) => c.fail("singular accepted", format!("{} reported success on a singular or indefinite system: {:?}", who, x)),
        Ok(Err(())) => c.count(&format!("refusals: {}", who)),
    }
}

fn show(k: &M, b: &[f64]) -> String {
    if k.r <= 6 {
        format!("n={} K={:?} b={:?}", k.r, k.flat(), b)
    } else {
        format!("n={} ({} nonzeros)", k.r, k.flat().iter().filter(|x| **x != 0.0).count())
    }
}

fn definite(c: &mut Ctx) {
    let n = size(&mut c.rng, c.thorough);
    let (name, e) = pattern(&mut c.rng, n);
    let margin = *c.rng.pick(&[1e-6, 1e-3, 0.1, 1.0]);
    let mut k = spd(&mut c.rng, n, &e, margin);
    // uniform and uneven scalings keep it positive definite
    let s = c.rng.logf(1e-12, 1e12);
    k = k.scale(s);
    let mut uneven = false;
    if c.rng.chance(0.3) {
        uneven = true;
        let d: Vec<f64> = (0..n).map(|_| c.rng.logf(1e-3, 1e3)).collect();
        k = M::from_fn(n, n, |i, j| k.at(i, j) * d[i] * d[j]);
    }
    let b = rhs(&mut c.rng, n);
    let (how, sys) = conv::system(&mut c.rng, &k, &b);
    c.describe(format!("positive definite, {} pattern, margin {}, uneven {}, entered as {}: {}", name, margin, uneven, how, show(&k, &b)));
    c.sigf(&k.flat());
    c.sigf(&b);
    c.nontrivial = maxabs(&b) > 0.0;
    c.count(&format!("pattern: {}", name));
    let g = direct::<DenseGaussSolver>(c, "dense gauss", sys.clone(), &k, &b, 1e-11);
    let h = direct::<CholeskyEnvelopeSolver>(c, "envelope cholesky", sys.clone(), &k, &b, 1e-11);
    if let (Some(g), Some(h), Some(x)) = (g, h, solve(&k, &b)) {
        if cond(&k) < 1e6 {
            let s = maxabs(&x);
            for (who, y) in [("dense gauss", g), ("envelope cholesky", h)] {
                let d: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
                c.check(maxabs(&d) <= 1e-8 * s, "wrong solution", || format!("{}: {:?} instead of {:?}", who, y, x));
            }
            c.count("compared with a reference solution");
        }
    }
    iterative(c, sys, &k, &b);
}

/// successive over-relaxation is known to converge here: what is returned must be within tolerance
fn iterative(c: &mut Ctx, sys: System, k: &M, b: &[f64]) {
    let n = k.r;
    // a reference run tells whether convergence within the iteration limit is beyond doubt
    let mut u = vec![0.0; n];
    let mut quick = maxabs(b) == 0.0;
    for _ in 0..100 {
        let old = u.clone();
        for i in 0..n {
            let s: f64 = (0..n).filter(|&j| j != i).map(|j| k.at(i, j) * u[j]).sum();
            u[i] += 1.3 * ((b[i] - s) / k.at(i, i) - u[i]);
        }
        let d: Vec<f64> = u.iter().zip(&old).map(|(a, b)| a - b).collect();
        if norm(&d) <= 1e-5 * norm(&u) {
            quick = true;
            break;
        }
    }
    match trap(|| GaussSeidelSolver::new(sys).solve()) {
        Err(e) if e.contains("failed to converge") && !quick => c.count("iterations that gave up"),
        Err(e) => c.fail("iteration panic", e),
        Ok(Err(())) => {
            if quick {
                c.fail("iteration refused", "error although the iteration converges");
            }
        }
        Ok(Ok(x)) => {
            if x.len() != n || x.iter().any(|v| !v.is_finite()) {
                c.fail("non-finite", format!("gauss-seidel: {:?}", x));
                return;
            }
            let r: Vec<f64> = k.mulv(&x).iter().zip(b).map(|(a, b)| a - b).collect();
            let lim = 1e-3 * k.norm() * norm(&x);
            c.check(norm(&r) <= lim, "iteration tolerance", || format!("gauss-seidel: residual {:e}, limit {:e}", norm(&r), lim));
            if lim > 0.0 {
                let f = (norm(&r) / lim * 1000.0) as u64;
                c.add("sum of residual/limit (thousandths)", f);
            }
            c.count("answers checked: gauss-seidel");
        }
    }
}

/// dense elimination on unsymmetric and indefinite systems
fn general(c: &mut Ctx) {
    let n = size(&mut c.rng, false).min(40);
    let kind = c.rng.below(6);
    let rng = &mut c.rng;
    let mut k = match kind {
        0 => {
            // signed permutation: every pivot but one per column is zero
            let p = rng.perm(n);
            let mut m = M::new(n, n);
            for i in 0..n {
                let x = if rng.chance(0.5) { 1.0 } else { -1.0 } * rng.logf(0.1, 10.0);
                m.set(i, p[i], x);
            }
            m
        }
        1 => M::from_fn(n, n, |_, _| rng.sym()),
        2 => M::from_fn(n, n, |i, j| if i == j { 0.0 } else { -rng.unit() - 0.1 }),
        3 => M::from_fn(n, n, |_, _| rng.irange(-3, 3) as f64),
        4 => {
            // symmetric indefinite with zero diagonal blocks (saddle point)
            let h = n / 2;
            let a = M::from_fn(n, n, |_, _| rng.sym());
            M::from_fn(n, n, |i, j| if i >= h && j >= h { 0.0 } else { a.at(i.min(j), i.max(j)) })
        }
        _ => {
            let d: Vec<f64> = (0..n).map(|_| rng.logf(1e-4, 1e4)).collect();
            M::from_fn(n, n, |i, j| d[i] * (rng.sym() + if i == j { 3.0 } else { 0.0 }))
        }
    };
    if rng.chance(0.3) {
        // tiny leading pivot, which must not be chosen
        k.set(0, 0, 1e-14 * k.at(0, 0));
    }
    if cond(&k) > 1e7 {
        c.count("general systems skipped: ill conditioned");
        return;
    }
    let b = rhs(&mut c.rng, n);
    let (how, sys) = conv::system(&mut c.rng, &k, &b);
    c.describe(format!("general kind {} entered as {}: {}", kind, how, show(&k, &b)));
    c.sigf(&k.flat());
    c.sigf(&b);
    c.nontrivial = maxabs(&b) > 0.0;
    if let (Some(x), Some(y)) = (direct::<DenseGaussSolver>(c, "dense gauss", sys, &k, &b, 1e-9), solve(&k, &b)) {
        let d: Vec<f64> = y.iter().zip(&x).map(|(a, b)| a - b).collect();
        c.check(maxabs(&d) <= 1e-6 * maxabs(&y), "wrong solution", || format!("dense gauss: {:?} instead of {:?}", x, y));
        c.count("general systems solved");
    }
}

/// systems without a (definite) solution, exactly so in floating point
fn singular(c: &mut Ctx) {
    let n = size(&mut c.rng, false).min(40);
    let (name, e) = pattern(&mut c.rng, n);
    let mut k = spd(&mut c.rng, n, &e, 1.0);
    let kind = c.rng.below(4);
    let i = c.rng.below(n);
    match kind {
        0 => {
            // an unknown nothing holds
            for j in 0..n {
                k.set(i, j, 0.0);
                k.set(j, i, 0.0);
            }
        }
        1 if n >= 2 => {
            // two unknowns held only against each other; powers of four keep the arithmetic exact
            let j = (i + 1 + c.rng.below(n - 1)) % n;
            for l in 0..n {
                for q in [i, j] {
                    k.set(q, l, 0.0);
                    k.set(l, q, 0.0);
                }
            }
            let s = 4f64.powi(c.rng.irange(-9, 9) as i32);
            k.set(i, i, s);
            k.set(j, j, s);
            k.set(i, j, -s);
            k.set(j, i, -s);
        }
        _ => {
            // clearly indefinite but regular: only the positive definite solver must refuse
            let x = k.at(i, i);
            k.set(i, i, -x - 0.1);
        }
    }
    let b = if c.rng.chance(0.2) { vec![0.0; n] } else { rhs(&mut c.rng, n) };
    let (how, sys) = conv::system(&mut c.rng, &k, &b);
    c.describe(format!("singular kind {} {} entered as {}: {}", kind, name, how, show(&k, &b)));
    c.sigf(&k.flat());
    c.nontrivial = true;
    refused::<CholeskyEnvelopeSolver>(c, "envelope cholesky", sys.clone());
    if kind < 1 || (kind == 1 && n >= 2) {
        refused::<DenseGaussSolver>(c, "dense gauss", sys);
    } else {
        direct::<DenseGaussSolver>(c, "dense gauss", sys, &k, &b, 1e-9);
    }
}

/// systems far beyond the size of a test's: long rows, wide fronts, distant pivots
fn large(c: &mut Ctx) {
    if c.rng.chance(0.4) {
        // dense elimination with exchanges across the whole matrix
        let n = c.rng.range(150, 330);
        let rng = &mut c.rng;
        let sparse = rng.chance(0.5);
        let p = rng.perm(n);
        let d: Vec<f64> = (0..n).map(|_| rng.logf(0.1, 10.0) * if rng.chance(0.5) { 1.0 } else { -1.0 }).collect();
        let k = M::from_fn(n, n, |i, j| {
            if p[i] == j {
                // the large entries lie on a permutation
                d[i] * if sparse { 1.0 } else { n as f64 }
            } else if sparse {
                0.0
            } else {
                rng.sym()
            }
        });
        let b = rhs(&mut c.rng, n);
        let (how, sys) = conv::system(&mut c.rng, &k, &b);
        c.describe(format!("large unsymmetric system of {} unknowns (sparse {}), entered as {}", n, sparse, how));
        c.sigf(&b);
        c.nontrivial = maxabs(&b) > 0.0;
        direct::<DenseGaussSolver>(c, "dense gauss", sys, &k, &b, 1e-9);
        c.count("large unsymmetric systems");
        return;
    }
    let (n, name, e) = loop {
        let n = if c.rng.chance(0.5) { c.rng.range(150, 400) } else { c.rng.range(400, 1100) };
        let (name, e) = pattern(&mut c.rng, n);
        if e.len() < 80000 {
            break (n, name, e);
        }
    };
    let margin = *c.rng.pick(&[0.1, 1.0]);
    let s = c.rng.logf(1e-9, 1e9);
    let k = spd(&mut c.rng, n, &e, margin).scale(s);
    let b = rhs(&mut c.rng, n);
    let (how, sys) = conv::system(&mut c.rng, &k, &b);
    c.describe(format!("large positive definite system, {} pattern, margin {}, entered as {}: {}", name, margin, how, show(&k, &b)));
    c.sigf(&b);
    c.nontrivial = maxabs(&b) > 0.0;
    direct::<CholeskyEnvelopeSolver>(c, "envelope cholesky", sys.clone(), &k, &b, 1e-11);
    if n <= 330 {
        direct::<DenseGaussSolver>(c, "dense gauss", sys.clone(), &k, &b, 1e-11);
    }
    if n <= 500 {
        iterative(c, sys, &k, &b);
    }
    c.count("large positive definite systems");
}

fn case(c: &mut Ctx) {
    if c.idx % 2003 == 2002 {
        large(c);
        return;
    }
    match c.idx % 8 {
        0 => singular(c),
        1 | 2 => general(c),
        _ => definite(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 60000,
            thorough: 1200000,
            rule: "random symmetric positive definite systems (some of several hundred unknowns; paths, bands, grids, stars, trees, cliques, blocks, disconnected and edgeless graphs, renumbered, 1 to 120 unknowns, uniform and uneven scaling, entered through every route) solved by all three solvers and judged by residual and an independent solution; unsymmetric, indefinite and permuted systems by dense elimination; singular and indefinite systems, which must be refused; non-trivial: right-hand side not zero or system singular; distinct by matrix and right-hand side",
            need: &["large unsymmetric systems", "large positive definite systems", "answers checked: dense gauss", "answers checked: envelope cholesky", "answers checked: gauss-seidel", "general systems solved", "refusals: dense gauss", "refusals: envelope cholesky"],
        },
        case,
    );
}
