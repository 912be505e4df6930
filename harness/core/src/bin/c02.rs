//! C02: factors, determinants and inverses must reproduce the matrix they came from.
use bugi::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root, solve_ldl, solve_ll};
use bugi::matrix::{CompressedRow, ConstMatrix, Diagonal, Dictionary, Inverse, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use verif_core::dense::*;
use verif_core::{conv, main_loop, trap, Ctx, Plan};

fn size(c: &mut Ctx, big: usize) -> usize {
    match c.rng.below(10) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => c.rng.range(4, big),
        _ => c.rng.range(2, 9.min(big)),
    }
}

fn diff(a: &M, b: &M) -> f64 {
    let d = a.sub(b).max();
    if d.is_nan() || a.flat().iter().any(|x| x.is_nan()) {
        f64::INFINITY
    } else {
        d
    }
}

fn absmul(a: &M, b: &M) -> M {
    let f = |m: &M| M::from_fn(m.r, m.c, |i, j| m.at(i, j).abs());
    f(a).mul(&f(b))
}

fn vdiff(a: &[f64], b: &[f64]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    a.iter().zip(b).map(|(x, y)| if x == y { 0.0 } else { (x - y).abs() }).fold(0.0, |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x) })
}

/// LU without pivoting, on matrices all of whose leading minors are well away from zero
fn lu(c: &mut Ctx) {
    let n = if large(c) { c.rng.range(60, 200) } else { size(c, 30) };
    let rng = &mut c.rng;
    let kind = rng.below(3);
    let mut a = M::new(n, n);
    if kind == 0 {
        // product of integer factors: everything is exact
        let l = M::from_fn(n, n, |i, j| if i == j { 1.0 } else if j < i && n < 12 { rng.irange(-2, 2) as f64 } else { 0.0 });
        let u = M::from_fn(n, n, |i, j| if i == j { *rng.pick(&[1.0, -1.0, 2.0]) } else if j > i && n < 12 { rng.irange(-2, 2) as f64 } else { 0.0 });
        a = l.mul(&u);
    } else {
        for i in 0..n {
            for j in 0..n {
                let x = if kind == 2 && rng.chance(0.6) { 0.0 } else { rng.sym() };
                a.set(i, j, x);
            }
        }
        for i in 0..n {
            let s: f64 = (0..n).map(|j| a.at(i, j).abs()).sum();
            a.set(i, i, if rng.chance(0.5) { 1.0 } else { -1.0 } * (s + 0.1 + rng.unit()));
        }
        let s = rng.logf(1e-6, 1e6);
        a = a.scale(s);
    }
    c.describe(format!("lu n={} A={:?}", n, if n <= 5 { a.flat() } else { vec![] }));
    c.sigf(&a.flat());
    c.nontrivial = n > 1;
    let store = c.rng.below(4);
    let (l, u): (LowerTriangular, UpperTriangular) = match c.run("lu panic", || match store {
        0 => conv::lin_col(&a).lu_decompose(),
        1 => conv::dict(&a).lu_decompose(),
        2 => CompressedRow::from_flat(n, a.flat()).lu_decompose(),
        _ => conv::lin(&a).lu_decompose(),
    }) {
        Some(x) => x,
        None => return,
    };
    let (ld, ud) = (conv::dense(&l), conv::dense(&u));
    let lim = 1e-13 * absmul(&ld, &ud).max() * n as f64;
    c.check(diff(&ld.mul(&ud), &a) <= lim, "lu product", || format!("L U differs from A by {:e}", diff(&ld.mul(&ud), &a)));
    for i in 0..n {
        for j in 0..n {
            let ok = (j <= i || ld.at(i, j) == 0.0) && (i <= j || ud.at(i, j) == 0.0) && (i != j || ld.at(i, i) == 1.0);
            c.check(ok, "lu shape", || format!("factor entry ({}, {}): L {} U {}", i, j, ld.at(i, j), ud.at(i, j)));
        }
    }
    c.count("lu factorizations");
    // determinant along this route
    let det: f64 = (0..n).map(|i| ud.at(i, i)).product();
    if let Some(d) = c.run("det_lu panic", || conv::lin(&a).det_lu()) {
        // the product of very many pivots may leave the range of numbers
        let fits = (1e-280..1e280).contains(&det.abs());
        c.check(!fits || (d - det).abs() <= 1e-10 * det.abs(), "det_lu", || format!("det_lu {} expected {}", d, det));
    }
    // substitution with the factors
    let b: Vec<f64> = (0..n).map(|_| c.rng.sym()).collect();
    if let Some(y) = c.run("forward_sub panic", || l.forward_sub(&b)) {
        let r = vdiff(&ld.mulv(&y), &b);
        let s = absmul(&ld, &M { r: n, c: 1, a: y.clone() }).max() + 1.0;
        c.check(r <= 1e-12 * s * n as f64, "forward substitution", || format!("L y differs from b by {:e}", r));
        if let Some(x) = c.run("backward_sub panic", || u.backward_sub(&y)) {
            let r = vdiff(&ud.mulv(&x), &y);
            let s = absmul(&ud, &M { r: n, c: 1, a: x.clone() }).max() + maxabs(&y);
            c.check(r <= 1e-12 * s * n as f64, "backward substitution", || format!("U x differs from y by {:e}", r));
            c.count("triangular substitutions");
        }
    }
    if let Some((li, ui)) = c.run("tri_inv panic", || (l.tri_inv(), u.tri_inv())) {
        let (li, ui) = (conv::dense(&li), conv::dense(&ui));
        for (f, i, who) in [(&ld, &li, "lower"), (&ud, &ui, "upper")] {
            let p = f.mul(i);
            let s = absmul(f, i).max() * n as f64;
            c.check(diff(&p, &M::eye(n)) <= 1e-12 * s, "triangular inverse", || format!("{} factor times inverse off by {:e}", who, diff(&p, &M::eye(n))));
        }
        if let Some(inv) = c.run("inv_lu panic", || conv::lin(&a).inv_lu()) {
            let p = a.mul(&conv::dense(&inv));
            let s = absmul(&absmul(&absmul(&ld, &ud), &ui), &li).max() * n as f64;
            c.check(diff(&p, &M::eye(n)) <= 1e-12 * s, "inverse by lu", || format!("A inv_lu(A) off by {:e}", diff(&p, &M::eye(n))));
        }
        c.count("triangular inverses");
    }
}

/// now and then a matrix far larger than a test's
fn large(c: &Ctx) -> bool {
    c.idx / 10 % 397 == 396
}

/// determinants of large matrices: permuted triangles with a known diagonal
fn det_large(c: &mut Ctx) {
    let n = c.rng.range(60, 200);
    let rng = &mut c.rng;
    let d: Vec<f64> = (0..n).map(|_| *rng.pick(&[1.0, -1.0, 2.0, -0.5, 0.5])).collect();
    let upper = rng.chance(0.5);
    let dense = rng.chance(0.5);
    let t = M::from_fn(n, n, |i, j| {
        if i == j {
            d[i]
        } else if (j > i) == upper && dense {
            // small enough for the determinant to be well determined
            rng.sym() / n as f64
        } else {
            0.0
        }
    });
    let p = rng.perm(n);
    let mut sign = 1.0;
    let mut seen = vec![false; n];
    for i in 0..n {
        let (mut j, mut len) = (i, 0);
        while !seen[j] {
            seen[j] = true;
            j = p[j];
            len += 1;
        }
        if len > 0 && len % 2 == 0 {
            sign = -sign;
        }
    }
    let m = M::from_fn(n, n, |i, j| t.at(p[i], j));
    let exact = sign * d.iter().product::<f64>();
    c.describe(format!("determinant of a permuted triangle of {} rows, dense {}", n, dense));
    c.sigf(&m.flat());
    c.nontrivial = true;
    let store = c.rng.below(3);
    if let Some(r) = c.run("determinant panic", || match store {
        0 => conv::lin(&m).determinant(),
        1 => conv::lin_col(&m).determinant(),
        _ => conv::lin(&m).det_lu_pivot(),
    }) {
        match r {
            Ok(x) => {
                c.check((x - exact).abs() <= 1e-9 * exact.abs(), "determinant", || format!("{} instead of {}", x, exact));
            }
            Err(_) => c.fail("regular reported singular", format!("error although the determinant is {}", exact)),
        }
    }
    c.count("large determinants");
}

/// integer matrices with exactly known determinants
fn det(c: &mut Ctx) {
    if large(c) {
        det_large(c);
        return;
    }
    let n = size(c, 9);
    let rng = &mut c.rng;
    let k = *rng.pick(&[1i64, 2, 5]);
    let kind = rng.below(5);
    let mut a: Vec<Vec<i128>> = (0..n).map(|_| (0..n).map(|_| rng.irange(-k, k) as i128).collect()).collect();
    match kind {
        0 if n > 1 => {
            // exactly singular: one column (or row) of zeros
            let j = rng.below(n);
            let row = rng.chance(0.5);
            for i in 0..n {
                if row {
                    a[j][i] = 0
                } else {
                    a[i][j] = 0
                }
            }
        }
        1 => {
            // permutation with signs
            let p = rng.perm(n);
            for i in 0..n {
                for j in 0..n {
                    a[i][j] = if p[i] == j { if rng.chance(0.5) { 1 } else { -1 } } else { 0 };
                }
            }
        }
        2 => {
            for i in 0..n {
                for j in 0..n {
                    if rng.chance(0.6) {
                        a[i][j] = 0
                    }
                }
            }
        }
        _ => {}
    }
    // any unit of measurement: a power of two changes no digit
    let pow = if rng.chance(0.3) { rng.irange(-(900 / n as i64).min(100), (900 / n as i64).min(100)) as i32 } else { 0 };
    let s = 2f64.powi(pow);
    let m = M::from_fn(n, n, |i, j| a[i][j] as f64 * s);
    c.describe(format!("determinant n={} kind {} A={:?}", n, kind, m.flat()));
    c.sigf(&m.flat());
    let exact = match idet(&a) {
        Some(d) => d as f64 * s.powi(n as i32),
        None => return,
    };
    c.nontrivial = exact != 0.0 || kind == 0;
    // Hadamard's bound scales the rounding error
    let had: f64 = (0..n).map(|i| (0..n).map(|j| m.at(i, j).powi(2)).sum::<f64>().sqrt().max(s)).product();
    if pow != 0 {
        c.count("determinants at other scales");
    }
    let tol = 1e-11 * had;
    for route in 0..3 {
        let r = c.run("determinant panic", || match route {
            0 => conv::lin(&m).determinant(),
            1 => conv::lin_col(&m).determinant(),
            _ => conv::lin(&m).det_lu_pivot(),
        });
        match r {
            None => {}
            Some(Ok(d)) => {
                c.check((d - exact).abs() <= tol, "determinant", || format!("route {}: {} instead of {}", route, d, exact));
                c.check(!(kind == 0 && n > 2), "singular not reported", || format!("route {}: determinant {} of a matrix with a zero row or column", route, d));
                c.count("determinants compared");
            }
            Some(Err(_)) => {
                c.check(exact == 0.0, "regular reported singular", || format!("route {}: error although the determinant is {}", route, exact));
                c.count("singular matrices reported");
            }
        }
    }
    // the inverse, where the exact determinant says there is one and it is well conditioned
    if exact != 0.0 && cond(&m) < 1e5 {
        inverse(c, &m, "integer");
    }
}

fn judge_inverse(c: &mut Ctx, a: &M, inv: Option<M>, who: &str, kappa: f64) {
    let n = a.r;
    if let Some(x) = inv {
        let lim = 1e-13 * kappa * n as f64 * n as f64;
        let e = if (x.r, x.c) != (n, n) { f64::INFINITY } else { diff(&a.mul(&x), &M::eye(n)).max(diff(&x.mul(a), &M::eye(n))) };
        c.check(e <= lim, "inverse", || format!("{}: A times its inverse is off by {:e} (limit {:e}): {:?}", who, e, lim, x.flat()));
        c.count("inverses compared");
    }
}

fn inverse(c: &mut Ctx, a: &M, what: &str) {
    let n = a.r;
    let kappa = cond(a);
    let r = c.run("inverse panic", || conv::dense(&conv::lin(a).inverse()));
    judge_inverse(c, a, r, what, kappa);
    let r = match c.rng.below(4) {
        0 => c.run("inverse panic", || conv::dense(&conv::lin_col(a).inverse())),
        1 => c.run("inverse panic", || conv::dense(&CompressedRow::from_flat(n, a.flat()).inverse())),
        2 => c.run("inverse panic", || conv::dense(&Dictionary::from_flat(n, a.flat()).inverse())),
        _ => match n {
            1 => c.run("inverse panic", || conv::dense(&ConstMatrix::<1>::from_flat(n, a.flat()).inverse())),
            2 => c.run("inverse panic", || conv::dense(&ConstMatrix::<4>::from_flat(n, a.flat()).inverse())),
            3 => c.run("inverse panic", || conv::dense(&ConstMatrix::<9>::from_flat(n, a.flat()).inverse())),
            _ => None,
        },
    };
    judge_inverse(c, a, r, what, kappa);
}

fn inverses(c: &mut Ctx) {
    let n = if large(c) { c.rng.range(30, 60) } else { size(c, 16) };
    let rng = &mut c.rng;
    let kind = rng.below(4);
    let a = match kind {
        0 => M::from_fn(n, n, |_, _| rng.sym()),
        1 => {
            let p = rng.perm(n);
            let v: Vec<f64> = (0..n).map(|_| rng.sym() + 1.5).collect();
            M::from_fn(n, n, |i, j| if p[i] == j { v[i] } else { 0.0 })
        }
        2 => M::from_fn(n, n, |i, j| if i == j { 0.0 } else { rng.unit() + 0.2 }),
        _ => {
            let e = pattern(rng, n).1;
            spd(rng, n, &e, 0.5)
        }
    };
    let s = c.rng.logf(1e-6, 1e6);
    let a = a.scale(s);
    if !(cond(&a) < 1e6) {
        return;
    }
    c.describe(format!("inverse n={} kind {} A={:?}", n, kind, if n <= 5 { a.flat() } else { vec![] }));
    c.sigf(&a.flat());
    c.nontrivial = true;
    inverse(c, &a, "real");
}

/// a lower envelope matrix holding the lower half of A
fn env(c: &mut Ctx, a: &M) -> Option<LowerRowEnvelope> {
    let n = a.r;
    let full = c.rng.chance(0.5);
    let d = conv::dict(a);
    c.run("envelope conversion panic", || {
        if full {
            LowerRowEnvelope::from(d)
        } else {
            LowerRowEnvelope::from_flat(n, (0..n * n).map(|i| if i % n <= i / n { a.at(i / n, i % n) } else { 0.0 }).collect::<Vec<_>>())
        }
    })
}

fn inside(c: &mut Ctx, a: &LowerRowEnvelope, l: &LowerRowEnvelope, ld: &M) {
    c.check(a.shape() == l.shape(), "factor shape", || format!("{:?} for {:?}", l.shape(), a.shape()));
    let e = a.envelope();
    for i in 0..ld.r {
        for j in 0..ld.c {
            if j > i || i - j >= e[i] {
                c.check(ld.at(i, j) == 0.0, "factor outside envelope", || format!("entry ({}, {}) is {}", i, j, ld.at(i, j)));
            }
        }
    }
}

fn envelope(c: &mut Ctx) {
    let n = if large(c) { c.rng.range(120, 420) } else { size(c, 60) };
    if n > 100 {
        c.count("large factorizations");
    }
    let (name, e) = pattern(&mut c.rng, n);
    let definite = c.rng.chance(0.5);
    let a = if definite {
        let m = *c.rng.pick(&[1e-3, 0.1, 1.0]);
        let s = c.rng.logf(1e-9, 1e9);
        spd(&mut c.rng, n, &e, m).scale(s)
    } else {
        // indefinite, from factors of bounded size: unit L within the pattern's envelope, D of mixed signs
        let mut first: Vec<usize> = (0..n).collect();
        for &(i, j) in &e {
            first[j] = first[j].min(i);
        }
        let rng = &mut c.rng;
        let w = 1.0 / (1.0 + (n as f64).sqrt());
        let l = M::from_fn(n, n, |i, j| if i == j { 1.0 } else if j < i && j >= first[i] { rng.sym() * w } else { 0.0 });
        let d = M::from_fn(n, n, |i, j| if i == j { (0.5 + rng.unit()) * if rng.chance(0.5) { 1.0 } else { -1.0 } } else { 0.0 });
        let a = l.mul(&d).mul(&l.t());
        M::from_fn(n, n, |i, j| a.at(i.max(j), i.min(j)))
    };
    c.describe(format!("envelope n={} {} definite={} A={:?}", n, name, definite, if n <= 5 { a.flat() } else { vec![] }));
    c.sigf(&a.flat());
    c.nontrivial = n > 1;
    let le = match env(c, &a) {
        Some(x) => x,
        None => return,
    };
    let b = side(c, n, a.max());
    // the result slices hold anything beforehand
    let mut x: Vec<f64> = (0..n).map(|_| *c.rng.pick(&[0.0, 1.0, -7.5, 1e6])).collect();
    if definite {
        if let Some(l) = c.run("cholesky panic", || cholesky_envelope(&le)) {
            let ld = conv::dense(&l);
            inside(c, &le, &l, &ld);
            let p = ld.mul(&ld.t());
            c.check(diff(&p, &a) <= 1e-13 * a.max() * n as f64, "cholesky product", || format!("L L' differs from A by {:e}", diff(&p, &a)));
            c.check((0..n).all(|i| ld.at(i, i) > 0.0), "cholesky diagonal", || format!("diagonal {:?}", (0..n).map(|i| ld.at(i, i)).collect::<Vec<_>>()));
            c.count("cholesky factorizations");
            if c.run("solve_ll panic", || solve_ll(&l, &b, &mut x)).is_some() {
                let r = vdiff(&a.mulv(&x), &b);
                let lim = 1e-12 * n as f64 * (a.inf() * maxabs(&x) + maxabs(&b));
                c.check(r <= lim, "cholesky substitution", || format!("residual {:e}, limit {:e}", r, lim));
            }
            substitution(c, &l, &ld);
        }
    }
    let mut x: Vec<f64> = (0..n).map(|_| *c.rng.pick(&[0.0, 1.0, -7.5, 1e6])).collect();
    if let Some((l, d)) = c.run("ldl panic", || cholesky_envelope_no_root(&le)) {
        let (ld, dd) = (conv::dense(&l), conv::dense(&d));
        inside(c, &le, &l, &ld);
        let p = ld.mul(&dd).mul(&ld.t());
        let s = absmul(&absmul(&ld, &dd), &ld.t()).max();
        c.check(diff(&p, &a) <= 1e-13 * s * n as f64, "ldl product", || format!("L D L' differs from A by {:e}", diff(&p, &a)));
        c.check((0..n).all(|i| ld.at(i, i) == 1.0), "ldl diagonal", || "diagonal of L is not one".to_string());
        c.count(if definite { "ldl factorizations, definite" } else { "ldl factorizations, indefinite" });
        let neg = (0..n).filter(|&i| dd.at(i, i) < 0.0).count();
        c.check(d.num_neg() == neg, "num_neg", || format!("{} counted, {} negative", d.num_neg(), neg));
        // Sylvester's law: as many negative pivots as negative eigenvalues
        if n <= 24 {
            let (w, _) = eigh(&a);
            if w.iter().all(|x| x.abs() > 1e-9 * a.max()) {
                let want = w.iter().filter(|x| **x < 0.0).count();
                c.check(neg == want, "inertia", || format!("{} negative pivots, {} negative eigenvalues", neg, want));
                c.count("inertia compared");
            }
        }
        if c.run("solve_ldl panic", || solve_ldl(&l, &d, &b, &mut x)).is_some() {
            let r = vdiff(&a.mulv(&x), &b);
            let lim = 1e-12 * n as f64 * (s * n as f64 * maxabs(&x) + maxabs(&b));
            c.check(r <= lim, "ldl substitution", || format!("residual {:e}, limit {:e}", r, lim));
        }
    }
}

/// a right-hand side, now and then with few entries, at the start, at the end or anywhere
fn side(c: &mut Ctx, n: usize, top: f64) -> Vec<f64> {
    let mut b: Vec<f64> = (0..n).map(|_| top * c.rng.sym()).collect();
    let k = c.rng.below(n + 1);
    match c.rng.below(6) {
        0 => b[..k].iter_mut().for_each(|x| *x = 0.0),
        1 => b[k..].iter_mut().for_each(|x| *x = 0.0),
        2 => b.iter_mut().for_each(|x| if c.rng.chance(0.6) { *x = 0.0 }),
        _ => {}
    }
    b
}

/// substitution with an envelope factor and with its diagonal blocks
fn substitution(c: &mut Ctx, l: &LowerRowEnvelope, ld: &M) {
    let n = ld.r;
    let b = side(c, n, 1.0);
    let dirty = |c: &mut Ctx, k: usize| -> Vec<f64> { (0..k).map(|_| *c.rng.pick(&[0.0, 3.0, -1e5])).collect() };
    let scale = |m: &M, x: &[f64]| absmul(m, &M { r: x.len(), c: 1, a: x.to_vec() }).max() + 1.0;
    let mut x = dirty(c, n);
    if c.run("solve panic", || l.solve(&b, &mut x)).is_some() {
        let r = vdiff(&ld.mulv(&x), &b);
        c.check(r <= 1e-12 * n as f64 * scale(ld, &x), "envelope substitution", || format!("L x differs from b by {:e}", r));
    }
    let mut x = dirty(c, n);
    if c.run("solve_transposed panic", || l.solve_transposed(&b, &mut x)).is_some() {
        let r = vdiff(&ld.t().mulv(&x), &b);
        c.check(r <= 1e-12 * n as f64 * scale(&ld.t(), &x), "envelope transposed substitution", || format!("L' x differs from b by {:e}", r));
    }
    let s = c.rng.below(n);
    let e = s + c.rng.below(n - s) + 1;
    let mut x = dirty(c, e - s);
    let bs = &b[s..e];
    if c.run("solve_submatrix panic", || l.solve_submatrix(bs, &mut x, (s, e))).is_some() {
        let idx: Vec<usize> = (s..e).collect();
        let sub = ld.sub_index(&idx);
        let r = vdiff(&sub.mulv(&x), bs);
        c.check(r <= 1e-12 * n as f64 * scale(&sub, &x), "envelope submatrix substitution", || format!("rows {}..{}: off by {:e}", s, e, r));
        c.count("envelope substitutions");
    }
}

fn diagonal(c: &mut Ctx) {
    let n = c.rng.range(1, 12);
    let v: Vec<f64> = (0..n).map(|_| c.rng.irange(-9, 9) as f64).map(|x| if x == 0.0 && c.idx % 2 == 0 { -0.0 } else { x }).collect();
    c.describe(format!("diagonal {:?}", v));
    c.sigf(&v);
    let d: Diagonal = v.clone().into();
    c.check(d.num_neg() == v.iter().filter(|x| **x < 0.0).count(), "num_neg", || format!("{}", d.num_neg()));
    c.check((d.product() - v.iter().product::<f64>()).abs() <= 1e-9 * v.iter().product::<f64>().abs(), "diagonal product", || format!("{}", d.product()));
    let s = c.rng.f(0.1, 3.0);
    let p: f64 = v.iter().map(|x| x * s).product();
    c.check((d.product_scaled(s) - p).abs() <= 1e-9 * p.abs(), "diagonal scaled product", || format!("{}", d.product_scaled(s)));
    // entries so large or small that only their scaled product is a number
    let (k, e) = (c.rng.range(1, 300), c.rng.irange(-300, 300));
    let u: Vec<f64> = (0..k).map(|_| c.rng.f(0.5, 2.0) * if c.rng.chance(0.5) { 1.0 } else { -1.0 }).collect();
    let s = 2f64.powi(-e as i32);
    let big: Diagonal = u.iter().map(|x| x / s).collect::<Vec<f64>>().into();
    let p: f64 = u.iter().product();
    let got = big.product_scaled(s);
    c.check((got - p).abs() <= 1e-12 * p.abs(), "scaled product of many entries", || format!("{} instead of {} for {} entries times 2^{}", got, p, k, e));
    let m = v.iter().sum::<f64>() / n as f64;
    c.check((d.mean() - m).abs() <= 1e-9, "diagonal mean", || format!("{} instead of {}", d.mean(), m));
    if v.iter().all(|x| *x != 0.0) {
        c.nontrivial = true;
        let b: Vec<f64> = (0..n).map(|_| c.rng.sym()).collect();
        let mut x = b.clone();
        if c.run("diagonal solve panic", || d.solve(&mut x)).is_some() {
            let y: Vec<f64> = x.iter().zip(&v).map(|(a, b)| a * b).collect();
            c.check(vdiff(&y, &b) <= 1e-12, "diagonal solve", || format!("{:?}", x));
        }
    }
    c.count("diagonals");
}

/// what is not square has no determinant and no inverse
fn rectangular(c: &mut Ctx) {
    let (r, k) = (c.rng.range(1, 6), c.rng.range(1, 6));
    if r == k {
        return;
    }
    let m = M::from_fn(r, k, |_, _| c.rng.sym());
    c.describe(format!("not square: {}x{} {:?}", r, k, m.flat()));
    c.sigf(&m.flat());
    let which = c.rng.below(3);
    // a panic reports it too
    let d = trap(|| match which {
        0 => conv::lin(&m).determinant().ok(),
        1 => conv::lin_col(&m).determinant().ok(),
        _ => conv::lin(&m).det_lu_pivot().ok(),
    });
    c.check(!matches!(d, Ok(Some(_))), "determinant of no square", || format!("{:?}", d));
    let i = trap(|| conv::lin(&m).inverse().flat().cloned().collect::<Vec<_>>());
    c.check(i.is_err(), "inverse of no square", || format!("{:?}", i));
    c.count("not square");
    c.nontrivial = true;
}

fn case(c: &mut Ctx) {
    if c.idx % 50 == 3 {
        rectangular(c);
        return;
    }
    match c.idx % 10 {
        0..=2 => lu(c),
        3..=4 => det(c),
        5 => inverses(c),
        6 => {
            if c.rng.chance(0.3) {
                diagonal(c)
            } else {
                inverses(c)
            }
        }
        _ => envelope(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 150000,
            thorough: 3000000,
            rule: "random matrices (integer with exact determinants, permutations, diagonally dominant, products of exact factors, positive definite and indefinite of ten sparsity patterns, 1 to 60 rows and now and then hundreds, several storages): LU, LL', LDL' factors multiplied back and checked for shape and envelope, inertia against eigenvalues, substitutions into dirty result slices, determinants against exact integers, inverses multiplied out; non-trivial: more than one row and (for determinants) not zero unless made so; distinct by matrix",
            need: &["large determinants", "large factorizations", "determinants at other scales", "lu factorizations", "determinants compared", "singular matrices reported", "inverses compared", "cholesky factorizations", "ldl factorizations, indefinite", "inertia compared", "envelope substitutions", "triangular inverses"],
        },
        case,
    );
}
