//! C03: every storage scheme in lock step with a plain array.
use bugi::matrix::graph::Graph;
use bugi::matrix::{dot, Average, BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use verif_core::dense::*;
use verif_core::mat::*;
use verif_core::{conv, main_loop, Ctx, Plan};

fn history<T: MatrixLike>(c: &mut Ctx, mut t: T, mut m: M, caps: Caps) -> (T, M) {
    let n = c.rng.range(4, 24);
    let mut log = Vec::new();
    let start = c.what.clone();
    compare(c, &t, &m, caps.name, true);
    for k in 0..n {
        let hostile = c.rng.chance(0.1);
        log.push(step(c, &mut t, &mut m, &caps, hostile));
        c.describe(format!("{} {}: {}", start, caps.name, log.join("; ")));
        compare(c, &t, &m, caps.name, k + 1 == n);
        if !c.violations.is_empty() {
            break;
        }
    }
    if m.r > 0 && m.c > 0 && c.rng.chance(0.2) {
        printed(c, &t, &m);
    }
    c.add("operations", n as u64);
    c.count(&format!("histories: {}", caps.name));
    (t, m)
}

/// the printed form has a line for each row, with the numbers of that row to the digits shown
fn printed<T: MatrixLike>(c: &mut Ctx, t: &T, m: &M) {
    let forms = match c.run("printing panic", || [t.to_string(), t.disp()]) {
        Some(f) => f,
        None => return,
    };
    for text in &forms {
        let rows: Vec<Vec<f64>> = text
            .lines()
            .filter_map(|l| l.split_whitespace().map(|w| w.parse::<f64>().ok()).collect::<Option<Vec<f64>>>())
            .filter(|r| !r.is_empty())
            .collect();
        let same = rows.len() == m.r
            && rows.iter().enumerate().all(|(i, r)| {
                r.len() == m.c && r.iter().enumerate().all(|(j, x)| (x - m.at(i, j)).abs() <= 0.06 * m.at(i, j).abs() + 1e-5)
            });
        c.check(same, "printed", || format!("{:?} is printed as {:?}", m, text));
    }
    c.count("printed forms read");
}

fn anywhere(name: &'static str, transpose: bool) -> Caps {
    Caps { name, writable: Box::new(|_, _| true), full: true, transpose }
}

/// the largest size of a case: mostly small, now and then tens, rarely hundreds of rows
fn most(c: &mut Ctx, small: usize) -> usize {
    if c.idx < 2000 {
        return small;
    }
    if c.rng.chance(0.002) {
        c.count("matrices of up to 300 rows");
        return c.rng.range(66, 300);
    }
    if c.rng.chance(0.04) {
        c.count("matrices of up to 40 rows");
        return 40;
    }
    small
}

/// a size up to the largest one of this case
fn size(c: &mut Ctx, small: usize) -> usize {
    let m = most(c, small);
    if m > 40 {
        return m;
    }
    c.rng.range(1, m)
}

fn shape(c: &mut Ctx) -> (usize, usize) {
    if c.rng.chance(0.04) {
        return *c.rng.pick(&[(0, 0), (0, 3), (3, 0), (1, 0), (0, 1)]);
    }
    let m = most(c, 6);
    if m > 40 {
        return if c.rng.chance(0.5) { (m, c.rng.range(1, m)) } else { (c.rng.range(1, m), m) };
    }
    (c.rng.range(1, m), c.rng.range(1, m))
}

fn linear(c: &mut Ctx) {
    let (r, k) = shape(c);
    let m = int_m(&mut c.rng, r, k, 0.7);
    let how = c.rng.below(6);
    c.describe(format!("built by {} from {:?}", how, m));
    c.sigf(&m.flat());
    c.sig(how);
    let rows = |m: &M| -> Vec<Vec<f64>> { (0..m.r).map(|i| (0..m.c).map(|j| m.at(i, j)).collect()).collect() };
    let t = match c.run("construction panic", || match how {
        0 if r > 0 => LinearMatrix::from_rows(rows(&m)),
        1 => conv::lin_col(&m),
        2 => LinearMatrix::from(conv::dict(&m)),
        3 => {
            let mut t = LinearMatrix::zeros((m.r, m.c));
            for i in 0..m.r {
                for j in 0..m.c {
                    t[(i, j)] = m.at(i, j);
                }
            }
            t
        }
        _ => conv::lin(&m),
    }) {
        Some(t) => t,
        None => return,
    };
    let (t, m) = history(c, t, m, anywhere("linear", true));
    operators(c, t, m);
}

fn operators(c: &mut Ctx, mut t: LinearMatrix, mut m: M) {
    let mut o = int_m(&mut c.rng, m.r, m.c, 0.7);
    let mut ot = if c.rng.chance(0.5) { conv::lin(&o) } else { conv::lin_col(&o) };
    c.check((t == ot) == (m == o), "equality", || format!("{:?} == {:?} gives {}", m, o, t == ot));
    let mut copy = conv::lin_col(&m);
    c.check(t == copy, "equality", || format!("{:?} differs from its own copy by columns", m));
    if m.r > 0 && m.c > 0 {
        let l = (c.rng.below(m.r), c.rng.below(m.c));
        copy[l] += 1.0;
        c.check(!(t == copy), "equality", || format!("{:?} equals a copy changed at {:?}", m, l));
    }
    let (s, d) = (&t + &ot, &t - &ot);
    let f = |g: fn(f64, f64) -> f64| M::from_fn(m.r, m.c, |i, j| g(m.at(i, j), o.at(i, j)));
    compare(c, &s, &f(|a, b| a + b), "sum", false);
    compare(c, &d, &f(|a, b| a - b), "difference", false);
    t += ot.clone();
    m = f(|a, b| a + b);
    compare(c, &t, &m, "in-place sum", false);
    for _ in 0..c.rng.range(1, 4) {
        let s = c.rng.irange(-3, 3) as f64 * *c.rng.pick(&[1.0, 0.5]);
        if c.rng.chance(0.5) {
            t *= s;
            m = M::from_fn(m.r, m.c, |i, j| m.at(i, j) * s);
        } else {
            t += s;
            m = M::from_fn(m.r, m.c, |i, j| m.at(i, j) + s);
        }
        c.count("scalar operations");
        compare(c, &t, &m, "scalar operations", true);
        if !c.violations.is_empty() {
            return;
        }
    }
    if m.r == m.c {
        // turned around, stored the other way
        ot.transpose();
        o = o.t();
        c.check((t == ot) == (m == o), "equality", || format!("{:?} == {:?} gives {}", m, o, t == ot));
        t += ot.clone();
        m = M::from_fn(m.r, m.c, |i, j| m.at(i, j) + o.at(i, j));
        compare(c, &t, &m, "in-place sum with a transpose", true);
        compare(c, &(&ot - &t), &M::from_fn(m.r, m.c, |i, j| o.at(i, j) - m.at(i, j)), "difference with a transpose", true);
    }
    if m.r != m.c {
        ot.transpose();
        o = o.t();
        let _ = &o;
        let x = verif_core::trap(|| &t + &ot);
        c.check(x.is_err(), "sum of wrong shapes", || "accepted".to_string());
        c.check(!(t == ot), "equality", || "matrices of different shapes are equal".to_string());
    }
    c.count("operator checks");
    c.nontrivial = true;
}

fn constant(c: &mut Ctx) {
    if c.idx >= 2000 && c.rng.chance(0.02) {
        let s = *c.rng.pick(&[(12, 12), (9, 16), (18, 8), (1, 144), (3, 48)]);
        return fixed::<144>(c, s);
    }
    let s = *c.rng.pick(&[(2, 3), (3, 2), (1, 6), (6, 1)]);
    fixed::<6>(c, s);
}

fn fixed<const N: usize>(c: &mut Ctx, (r, k): (usize, usize)) {
    let m = int_m(&mut c.rng, r, k, 0.8);
    c.describe(format!("{:?}", m));
    c.sigf(&m.flat());
    c.nontrivial = true;
    let mut a = [0.0; N];
    a.copy_from_slice(&m.flat());
    let how = c.rng.below(3);
    let t = match c.run("construction panic", || match how {
        0 => ConstMatrix::<N>::from_flat_array((r, k), a),
        1 => ConstMatrix::<N>::from_flat((r, k), m.flat()),
        _ => {
            let mut t = ConstMatrix::<N>::zeros((r, k));
            for i in 0..r {
                t.set_row(i, (0..k).map(|j| m.at(i, j)).collect());
            }
            t
        }
    }) {
        Some(t) => t,
        None => return,
    };
    c.check(t == ConstMatrix::<N>::from_flat((r, k), m.flat()), "equality", || "fixed size matrix differs from its copy".into());
    if r != k {
        let u = ConstMatrix::<N>::from_flat((k, r), m.flat());
        c.check(!(t == u), "equality", || "fixed size matrices of different shapes are equal".into());
    }
    let mut u = t.clone();
    let l = (c.rng.below(r), c.rng.below(k));
    u[l] += 1.0;
    c.check(!(t == u), "equality", || format!("fixed size matrix equals a copy changed at {:?}", l));
    history(c, t, m, anywhere("fixed size", false));
    for (s, n) in [((2usize, 2usize), N), ((13, 13), N), ((r, k), N - 1), ((r, k), N + 1), ((r, k), 0), ((usize::MAX, 2), N)] {
        let x = verif_core::trap(|| ConstMatrix::<N>::from_flat(s, vec![1.0; n]));
        c.check(x.is_err(), "wrong shape accepted", || format!("fixed size {} from shape {:?} and {} values", N, s, n));
    }
}

fn triangular(c: &mut Ctx) {
    let n = size(c, 6);
    let lower = c.rng.chance(0.5);
    let m = M::from_fn(n, n, |i, j| if (j <= i) == lower || i == j { c.rng.irange(-9, 9) as f64 } else { 0.0 });
    c.describe(format!("{:?}", m));
    c.sigf(&m.flat());
    c.sig(lower);
    c.nontrivial = true;
    let caps = |name, lower: bool| Caps { name, writable: Box::new(move |i, j| i == j || (j < i) == lower), full: false, transpose: false };
    if lower {
        let mut t = LowerTriangular::zeros(n);
        for i in 0..n {
            for j in 0..=i {
                t[(i, j)] = m.at(i, j);
            }
        }
        let u = t.clone();
        c.check(t == u, "equality", || "lower triangular differs from its copy".into());
        let l = c.rng.below(n * (n + 1) / 2);
        let (mut i, mut j) = (0, l);
        while j > i {
            j -= i + 1;
            i += 1;
        }
        let mut v = t.clone();
        v[(i, j)] += 1.0;
        c.check(!(t == v), "equality", || format!("lower triangular equals a copy changed at ({}, {})", i, j));
        let mut v = LowerTriangular::zeros(n + 1);
        for i in 0..n {
            for j in 0..=i {
                v[(i, j)] = m.at(i, j);
            }
        }
        c.check(!(t == v) && !(v == t), "equality", || "lower triangular equals a larger one".into());
        history(c, t, m, caps("lower triangular", true));
    } else {
        let mut t = UpperTriangular::zeros((n, n));
        for i in 0..n {
            for j in i..n {
                t[(i, j)] = m.at(i, j);
            }
        }
        let mut u = t.clone();
        c.check(t == u, "equality", || "upper triangular differs from its copy".into());
        let j = c.rng.below(n);
        let i = c.rng.below(j + 1);
        u[(i, j)] += 1.0;
        c.check(!(t == u), "equality", || format!("upper triangular equals a copy changed at ({}, {})", i, j));
        let mut v = UpperTriangular::zeros(n + 1);
        for j in 0..n {
            for i in 0..=j {
                v[(i, j)] = m.at(i, j);
            }
        }
        c.check(!(t == v) && !(v == t), "equality", || "upper triangular equals a larger one".into());
        history(c, t, m, caps("upper triangular", false));
    }
}

fn diagonal(c: &mut Ctx) {
    let n = size(c, 6);
    let v: Vec<f64> = (0..n).map(|_| c.rng.irange(-9, 9) as f64).collect();
    let m = M::from_fn(n, n, |i, j| if i == j { v[i] } else { 0.0 });
    c.describe(format!("{:?}", v));
    c.sigf(&v);
    c.nontrivial = true;
    let mut t: Diagonal = v.clone().into();
    for i in 0..n {
        c.check(t[i] == v[i], "diagonal index", || format!("[{}] is {}", i, t[i]));
        t[i] = v[i];
    }
    let u = t.clone();
    c.check(t == u, "equality", || "diagonal differs from its copy".into());
    let i = c.rng.below(n);
    let mut u = t.clone();
    u[i] += 1.0;
    c.check(!(t == u), "equality", || format!("diagonal equals a copy changed at {}", i));
    let mut w = v.clone();
    w.push(0.0);
    let u: Diagonal = w.into();
    c.check(!(t == u) && !(u == t), "equality", || "diagonal equals a larger one".into());
    c.check(verif_core::trap(|| t[n]).is_err(), "out of range accepted", || format!("[{}] of {} diagonal entries", n, n));
    history(c, t, m, Caps { name: "diagonal", writable: Box::new(|i, j| i == j), full: false, transpose: false });
}

fn compressed(c: &mut Ctx) {
    let (r, k) = shape(c);
    let dens = c.rng.unit();
    let m = int_m(&mut c.rng, r, k, dens);
    let how = c.rng.below(4);
    c.describe(format!("built by {} from {:?}", how, m));
    c.sigf(&m.flat());
    c.sig(how);
    c.nontrivial = m.max() > 0.0;
    let mut vals: Vec<((usize, usize), f64)> = conv::lin(&m).nzs().collect();
    c.rng.shuffle(&mut vals);
    let zero = m.max() == 0.0;
    let t = match c.run("construction panic", || match how {
        0 => CompressedRow::from_labeled_vals((r, k), vals),
        1 => CompressedRow::from(conv::dict(&m)),
        2 if zero => CompressedRow::zeros((r, k)),
        _ => CompressedRow::from_flat((r, k), m.flat()),
    }) {
        Some(t) => t,
        None => return,
    };
    let nz: Vec<(usize, usize)> = m.flat().iter().enumerate().filter(|x| *x.1 != 0.0).map(|x| (x.0 / k, x.0 % k)).collect();
    c.check(t.non_zero_count() == nz.len(), "non-zero count", || format!("{} instead of {}", t.non_zero_count(), nz.len()));
    let stored = nz.clone();
    let (t, m) = history(c, t, m, Caps { name: "compressed row", writable: Box::new(move |i, j| stored.contains(&(i, j))), full: false, transpose: false });
    for i in 0..r {
        let a: Option<Vec<(usize, f64)>> = c.run("row_nzs panic", || t.row_nzs(i).collect());
        let b: Vec<(usize, f64)> = nz.iter().filter(|l| l.0 == i).map(|l| (l.1, m.at(i, l.1))).collect();
        c.check(a.as_ref() == Some(&b), "row non-zeros", || format!("row {}: {:?} instead of {:?}", i, a, b));
    }
    let bad = vec![((0, 0), 1.0), ((r + c.rng.below(3), 0), 5.0)];
    let x = verif_core::trap(|| CompressedRow::from_labeled_vals((r, k), bad));
    if let Ok(x) = x {
        // whatever is made of it, no position may show the value
        let seen: Vec<f64> = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).map(|l| x[l]).collect();
        c.check(!seen.contains(&5.0), "value out of place", || format!("a value labelled outside shape {:?} shows up inside: {:?}", (r, k), seen));
    }
}

fn envelope(c: &mut Ctx) {
    let n = size(c, 8);
    let env: Vec<usize> = (0..n).map(|i| c.rng.range(1, i + 1)).collect();
    let how = c.rng.below(4);
    // the first stored entry of a row is not zero, so that every route finds the same envelope
    let m = M::from_fn(n, n, |i, j| {
        if j > i || i - j >= env[i] {
            0.0
        } else if i - j + 1 == env[i] {
            1.0 + c.rng.below(8) as f64
        } else if c.rng.chance(0.3) {
            0.0
        } else {
            c.rng.irange(-9, 9) as f64
        }
    });
    c.describe(format!("envelope {:?} built by {} from {:?}", env, how, m));
    c.sigf(&m.flat());
    c.sig(how);
    c.nontrivial = n > 1;
    let upper = int_m(&mut c.rng, n, n, 0.4);
    let mut t = match c.run("construction panic", || match how {
        0 => LowerRowEnvelope::from_flat(n, m.flat()),
        1 => {
            let mut t = LowerRowEnvelope::from_envelope(env.clone());
            for i in 0..n {
                let (s, row) = t.row_stored_mut(i);
                for (q, x) in row.iter_mut().enumerate() {
                    *x = m.at(i, s + q);
                }
            }
            t
        }
        2 => {
            // values above the diagonal are ignored
            let f = M::from_fn(n, n, |i, j| if j > i { upper.at(i, j) } else { m.at(i, j) });
            LowerRowEnvelope::from(conv::dict(&f))
        }
        _ => {
            let f = M::from_fn(n, n, |i, j| if i == j { m.at(i, j) + 100.0 } else { m.at(i.max(j), i.min(j)) });
            let b = BiEnvelope::from(conv::dict(&f));
            let mut t = LowerRowEnvelope::from_bienv(&b);
            for i in 0..n {
                t[(i, i)] -= 100.0;
            }
            t
        }
    }) {
        Some(t) => t,
        None => return,
    };
    c.check(t.envelope() == env, "envelope", || format!("{:?} instead of {:?}", t.envelope(), env));
    c.check(t.non_zero_count() == env.iter().sum::<usize>(), "non-zero count", || format!("{}", t.non_zero_count()));
    let e2 = env.clone();
    let (t2, m2) = history(c, t.clone(), m.clone(), Caps { name: "lower envelope", writable: Box::new(move |i, j| j <= i && i - j < e2[i]), full: false, transpose: false });
    for i in 0..n {
        let (s, row) = t2.row_stored(i);
        let want: Vec<f64> = (i + 1 - env[i]..=i).map(|j| m2.at(i, j)).collect();
        c.check(s == i + 1 - env[i] && row == want.as_slice(), "stored row", || format!("row {}: ({}, {:?}) instead of {:?}", i, s, row, want));
        let (s, row) = t2.row_stored_nodiag(i);
        c.check(s == i + 1 - env[i] && row == &want[..want.len() - 1], "stored row", || format!("row {} without diagonal: ({}, {:?})", i, s, row));
    }
    // adding a multiple of a two-sided matrix that fits inside
    let sub: Vec<usize> = env.iter().map(|&e| c.rng.range(1, e)).collect();
    let mut f = M::from_fn(n, n, |i, j| if j <= i && i - j < sub[i] { c.rng.irange(-5, 5) as f64 } else { 0.0 });
    for i in 0..n {
        for j in 0..i {
            f.set(j, i, f.at(i, j));
        }
        if c.rng.chance(0.8) {
            f.set(i, i, 3.0);
        }
    }
    let b = match c.run("conversion panic", || BiEnvelope::from(conv::dict(&f))) {
        Some(b) => b,
        None => return,
    };
    let scale = c.rng.irange(-3, 3) as f64;
    if c.run("add_scaled panic", || t.add_scaled_bienv(&b, scale)).is_some() {
        let w = M::from_fn(n, n, |i, j| if j <= i { m.at(i, j) + scale * f.at(i, j) } else { 0.0 });
        compare(c, &t, &w, "lower envelope after scaled sum", true);
        c.count("scaled sums");
    }
}

fn two_sided(c: &mut Ctx) {
    let n = size(c, 8);
    let dens = c.rng.unit();
    let m = int_m(&mut c.rng, n, n, dens);
    c.describe(format!("{:?}", m));
    c.sigf(&m.flat());
    c.nontrivial = m.max() > 0.0;
    let t = match c.run("construction panic", || BiEnvelope::from(conv::dict(&m))) {
        Some(t) => t,
        None => return,
    };
    let run: Vec<Option<(usize, usize)>> = (0..n)
        .map(|i| {
            let z: Vec<usize> = (0..n).filter(|&j| m.at(i, j) != 0.0).collect();
            z.first().map(|&a| (a, *z.last().unwrap() + 1))
        })
        .collect();
    for i in 0..n {
        let (s, row) = t.row_stored(i);
        let full: Vec<f64> = (0..n).map(|j| if j >= s && j - s < row.len() { row[j - s] } else { 0.0 }).collect();
        let want: Vec<f64> = (0..n).map(|j| m.at(i, j)).collect();
        c.check(full == want, "stored row", || format!("row {}: ({}, {:?}) instead of {:?}", i, s, row, want));
    }
    let (t, m) = history(c, t, m, Caps { name: "two-sided envelope", writable: Box::new(move |i, j| run[i].map_or(false, |r| j >= r.0 && j < r.1)), full: false, transpose: false });
    let x: Vec<f64> = (0..n).map(|_| c.rng.irange(-9, 9) as f64).collect();
    let mut y = vec![7.0; n];
    if c.run("mul_vec panic", || t.mul_vec(&x, &mut y)).is_some() {
        c.check(y == m.mulv(&x), "matrix times vector", || format!("{:?} instead of {:?}", y, m.mulv(&x)));
        c.count("matrix-vector products");
    }
}

fn dictionary(c: &mut Ctx) {
    let (r, k) = shape(c);
    let (r, k) = if c.rng.chance(0.5) { (r, r) } else { (r, k) };
    let dens = c.rng.unit();
    let m = int_m(&mut c.rng, r, k, dens);
    c.describe(format!("{:?}", m));
    c.sigf(&m.flat());
    c.nontrivial = m.max() > 0.0;
    let t = if c.rng.chance(0.5) && r * k > 0 { conv::dict_shuffled(&mut c.rng, &m, 0) } else { conv::dict(&m) };
    // structure
    let nz: Vec<(usize, usize)> = m.flat().iter().enumerate().filter(|x| *x.1 != 0.0).map(|x| (x.0 / k, x.0 % k)).collect();
    let mut e: Vec<(usize, usize)> = t.edges().collect();
    e.sort();
    c.check(e == nz, "edges", || format!("{:?} instead of {:?}", e, nz));
    let env: Vec<usize> = (0..r).map(|i| nz.iter().filter(|l| l.0 == i && l.1 <= i).map(|l| i - l.1 + 1).max().unwrap_or(0)).collect();
    c.check(t.envelope() == env, "envelope", || format!("{:?} instead of {:?}", t.envelope(), env));
    for (i, (a, b)) in t.row_bounds().into_iter().enumerate() {
        let z: Vec<usize> = nz.iter().filter(|l| l.0 == i).map(|l| l.1).collect();
        let ok = if z.is_empty() { a >= b } else { a == z[0] && b == z[z.len() - 1] + 1 };
        c.check(ok, "row bounds", || format!("row {}: ({}, {}) for columns {:?}", i, a, b, z));
    }
    if let Some(x) = c.run("transposed panic", || t.transposed()) {
        compare(c, &x, &m.t(), "transposed dictionary", true);
    }
    let o = {
        let w = c.rng.range(1, 5);
        let d = c.rng.unit();
        int_m(&mut c.rng, k, w, d)
    };
    if let Some(p) = c.run("mul_dict panic", || t.mul_dict(&conv::dict(&o))) {
        compare(c, &p, &m.mul(&o), "sparse product", true);
        c.count("sparse products");
    }
    if r == k {
        let mask: Vec<bool> = (0..r).map(|_| c.rng.chance(0.6)).collect();
        let idx: Vec<usize> = (0..r).filter(|&i| mask[i]).collect();
        if let Some(x) = c.run("mask panic", || t.clone().mask(&mask)) {
            compare(c, &x, &m.sub_index(&idx), "masked dictionary", true);
            c.count("masks");
        }
        if r > 0 {
            // renumbering by an ordering computed for some graph
            let edges: Vec<(usize, usize)> = (0..r).map(|i| (i, c.rng.below(r))).collect();
            if let Some(p) = c.run("ordering panic", || Graph::from_edges(r, edges).reverse_cuthill_mckee()) {
                let mut x = t.clone();
                if c.run("permute panic", || x.permute(&p)).is_some() {
                    let w = M::from_fn(r, r, |i, j| m.at(p.unpermute(i), p.unpermute(j)));
                    compare(c, &x, &w, "renumbered dictionary", true);
                }
            }
        }
        let sym = M::from_fn(r, r, |i, j| m.at(i.min(j), i.max(j)));
        let mut a: Vec<(usize, usize)> = conv::dict(&sym).edges_lower().map(|(x, y)| (x.min(y), x.max(y))).collect();
        a.sort();
        let n0 = a.len();
        a.dedup();
        let b: Vec<(usize, usize)> = nz.iter().cloned().filter(|l| l.0 <= l.1).collect();
        c.check(a == b && n0 == a.len(), "triangle edges", || format!("{:?} instead of {:?}", a, b));
    }
    if let Some(x) = c.run("conversion panic", || LinearMatrix::from(t.clone())) {
        compare(c, &x, &m, "dictionary to dense", false);
    }
    if let Some(x) = c.run("conversion panic", || CompressedRow::from(t.clone())) {
        compare(c, &x, &m, "dictionary to compressed row", true);
    }
    if r == k && r > 0 {
        if let Some(x) = c.run("conversion panic", || BiEnvelope::from(t.clone())) {
            compare(c, &x, &m, "dictionary to two-sided envelope", true);
        }
        if let Some(x) = c.run("conversion panic", || LowerRowEnvelope::from(t.clone())) {
            compare(c, &x, &M::from_fn(r, r, |i, j| if j <= i { m.at(i, j) } else { 0.0 }), "dictionary to lower envelope", true);
        }
        c.count("conversions");
    }
    history(c, t, m, anywhere("dictionary", false));
}

fn special(c: &mut Ctx) {
    let n = size(c, 6);
    c.describe(format!("special matrices of size {}", n));
    let id = M::eye(n);
    compare(c, &LinearMatrix::eye(n), &id, "eye", false);
    compare(c, &Dictionary::eye(n), &id, "eye", false);
    compare(c, &LowerTriangular::eye(n), &id, "eye", false);
    compare(c, &UpperTriangular::eye(n), &id, "eye", false);
    compare(c, &Diagonal::eye(n), &id, "eye", false);
    if n > 1 {
        let th = c.rng.f(-7.0, 7.0);
        let a = c.rng.below(n);
        let b = (a + 1 + c.rng.below(n - 1)) % n;
        let w = M::from_fn(n, n, |i, j| match (i == a, i == b, j == a, j == b) {
            (true, _, true, _) | (_, true, _, true) => th.cos(),
            (true, _, _, true) => -th.sin(),
            (_, true, true, _) => th.sin(),
            _ => (i == j) as i32 as f64,
        });
        c.sigf(&[th]);
        for r in [conv::dense(&LinearMatrix::rotation(n, a, b, th)), conv::dense(&Dictionary::rotation(n, a, b, th))] {
            c.check((r.r, r.c) == (n, n) && r.sub(&w).max() <= 1e-15, "rotation", || format!("{:?} instead of {:?}", r, w));
        }
        c.check(verif_core::trap(|| LinearMatrix::rotation(n, a, a, th)).is_err(), "out of range accepted", || "rotation of one axis onto itself".into());
        c.check(verif_core::trap(|| LinearMatrix::rotation(n, a, n, th)).is_err(), "out of range accepted", || "rotation with an axis outside".into());
    }
    let v: Vec<f64> = (0..n).map(|_| c.rng.irange(-9, 9) as f64).collect();
    c.sigf(&v);
    c.nontrivial = true;
    compare(c, &LinearMatrix::row_vec(v.clone()), &M { r: 1, c: n, a: v.clone() }, "row vector", true);
    compare(c, &LinearMatrix::col_vec(v.clone()), &M { r: n, c: 1, a: v.clone() }, "column vector", true);
    compare(c, &LinearMatrix::from(v.clone()), &M { r: n, c: 1, a: v.clone() }, "vector", true);
    let w: Vec<f64> = (0..n).map(|_| c.rng.irange(-9, 9) as f64).collect();
    c.check(dot(&v, &w) == v.iter().zip(&w).map(|(a, b)| a * b).sum::<f64>(), "dot", || format!("{:?} {:?}", v, w));
    let mut a: Average<f64> = Average::new();
    c.check(a.clone().consume().is_none(), "average", || "of nothing".into());
    for x in &v {
        a.update(*x);
    }
    let want = v.iter().sum::<f64>() / n as f64;
    let got = a.consume().unwrap_or(f64::NAN);
    c.check((got - want).abs() <= 1e-12 * 9.0, "average", || format!("{} instead of {} for {:?}", got, want, v));
    for (s, k) in [((2usize, 2usize), 3usize), ((2, 2), 5), ((1 << 33, 1 << 31), 0), ((usize::MAX, 2), 4)] {
        let x = verif_core::trap(|| LinearMatrix::from_flat(s, vec![1.0; k]).shape());
        c.check(x.is_err(), "wrong shape accepted", || format!("dense from shape {:?} and {} values", s, k));
    }
    c.check(verif_core::trap(|| LinearMatrix::from_rows(vec![vec![1.0, 2.0], vec![1.0]])).is_err(), "wrong shape accepted", || "rows of different lengths".into());
    c.count("special matrices");
}

fn n_small(m: &M) -> bool {
    m.flat().iter().any(|x| *x != 0.0 && x.abs() < f64::MIN_POSITIVE)
}

/// only zero is zero: matrices of very small and very large numbers, converted and multiplied
fn magnitudes(c: &mut Ctx) {
    let (r, k) = (size(c, 6), size(c, 6));
    let r = if c.rng.chance(0.5) { k } else { r };
    let two = |k: i32| 2f64.powi(k / 2) * 2f64.powi(k - k / 2);
    let scale = |c: &mut Ctx| two(*c.rng.pick(&[-1074, -1070, -1060, -1022, -1000, -300, -100, -60, -52, -30, 52, 300]));
    let dens = c.rng.unit();
    let s = scale(c);
    let m = int_m(&mut c.rng, r, k, dens).scale(s);
    let w = c.rng.range(1, 5);
    // below 2^-1000 whole multiples of the smallest number stay exact only with whole factors
    let s2 = if s > 1e50 || s < 1e-301 { 1.0 } else { 2f64.powi(*c.rng.pick(&[-40, 0, 40])) };
    let o = int_m(&mut c.rng, k, w, 0.8).scale(s2);
    c.describe(format!("{:?} times {:?}", m, o));
    c.sigf(&m.flat());
    c.sigf(&o.flat());
    c.nontrivial = m.max() > 0.0;
    let p = m.mul(&o);
    let d = conv::dict(&m);
    compare(c, &conv::lin(&m), &m, "dense of any magnitude", true);
    compare(c, &d, &m, "dictionary of any magnitude", true);
    compare(c, &CompressedRow::from_flat((r, k), m.flat()), &m, "compressed row of any magnitude", true);
    compare(c, &Dictionary::from_flat((r, k), m.flat()), &m, "dictionary of any magnitude", true);
    let nz: Vec<((usize, usize), f64)> = conv::lin(&m).nzs().collect();
    compare(c, &CompressedRow::from_labeled_vals((r, k), nz.clone()), &m, "labelled values of any magnitude", true);
    if s < 1e-307 && n_small(&m) {
        c.count("subnormal numbers");
    }
    let n = m.flat().iter().filter(|x| **x != 0.0).count();
    c.check(nz.len() == n, "non-zero count", || format!("{} instead of {} non-zeros", nz.len(), n));
    compare(c, &CompressedRow::from(d.clone()), &m, "dictionary to compressed row", true);
    compare(c, &LinearMatrix::from(d.clone()), &m, "dictionary to dense", true);
    if let Some(x) = c.run("product panic", || {
        let x: LinearMatrix = conv::lin(&m).mul(&conv::lin(&o));
        let y: LinearMatrix = CompressedRow::from_flat((r, k), m.flat()).mul(&conv::lin(&o));
        let z: LinearMatrix = conv::lin(&m).mul(&conv::dict(&o));
        (x, y, z, d.mul_dict(&conv::dict(&o)))
    }) {
        compare(c, &x.0, &p, "product of any magnitude", false);
        compare(c, &x.1, &p, "compressed row product of any magnitude", false);
        compare(c, &x.2, &p, "product of any magnitude", false);
        compare(c, &x.3, &p, "sparse product of any magnitude", false);
    }
    if r == k {
        let b = BiEnvelope::from(d.clone());
        compare(c, &b, &m, "dictionary to two-sided envelope", true);
        let low = M::from_fn(r, r, |i, j| if j <= i { m.at(i, j) } else { 0.0 });
        compare(c, &LowerRowEnvelope::from(d.clone()), &low, "dictionary to lower envelope", true);
        let unit = M::from_fn(r, r, |i, j| if i == j { s } else { low.at(i, j) });
        compare(c, &LowerRowEnvelope::from_flat(r, unit.flat()), &unit, "lower envelope of any magnitude", true);
        let x: Vec<f64> = (0..r).map(|_| c.rng.irange(-9, 9) as f64 * s2).collect();
        let mut y = vec![7.0; r];
        if c.run("mul_vec panic", || b.mul_vec(&x, &mut y)).is_some() {
            c.check(y == m.mulv(&x), "matrix times vector", || format!("{:?} instead of {:?}", y, m.mulv(&x)));
        }
        let mask: Vec<bool> = (0..r).map(|_| c.rng.chance(0.7)).collect();
        let idx: Vec<usize> = (0..r).filter(|&i| mask[i]).collect();
        compare(c, &d.mask(&mask), &m.sub_index(&idx), "masked dictionary", true);
    }
    c.count("matrices of any magnitude");
}

fn case(c: &mut Ctx) {
    if c.idx % 120 >= 114 {
        return magnitudes(c);
    }
    match c.idx % 12 {
        0 | 1 => linear(c),
        2 => constant(c),
        3 => triangular(c),
        4 => {
            if c.rng.chance(0.5) {
                diagonal(c)
            } else {
                special(c)
            }
        }
        5 | 6 => compressed(c),
        7 | 8 => envelope(c),
        9 => two_sided(c),
        _ => dictionary(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 120000,
            thorough: 4000000,
            rule: "random histories (mostly up to 8 rows, one in 25 up to 40 rows, one in 500 up to 300) of 4 to 24 operations (reads, writes, row and column operations, arithmetic, products, transposes, a tenth of them at positions that do not exist) on each of nine storage schemes built by every constructor and conversion, in lock step with a plain array of exact integers and compared element by element after each operation; matrices of very small and large numbers built, converted and multiplied; structure queries, conversions, masks, renumberings and sparse products against their definitions; distinct by initial contents and constructor",
            need: &["histories: linear", "histories: fixed size", "histories: lower triangular", "histories: upper triangular", "histories: diagonal", "histories: compressed row", "histories: lower envelope", "histories: two-sided envelope", "histories: dictionary", "products compared", "scaled sums", "masks", "conversions", "out-of-range refusals", "matrices of any magnitude", "subnormal numbers", "matrices of up to 40 rows", "matrices of up to 300 rows"],
        },
        case,
    );
}
