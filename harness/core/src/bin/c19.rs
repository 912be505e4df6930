//! C19: numerical integration is exact for the polynomials its order promises.
use bugi::element::integrate::{gauss_segment_mat, gauss_tri};
use bugi::matrix::{LinearMatrix, MatrixLike};
use verif_core::{main_loop, Ctx, Plan};

const SEG_TOL: f64 = 5e-14;
const TRI_TOL: f64 = 5e-15;
fn fact(n: u32) -> f64 {
    (1..=n).map(|x| x as f64).product()
}

type Poly = Vec<((u32, u32), f64)>;

fn poly(c: &mut Ctx, deg: u32, sc: f64) -> Poly {
    let mut p = Vec::new();
    for i in 0..=deg {
        for j in 0..=deg - i {
            if c.rng.chance(0.7) {
                p.push(((i, j), c.rng.sym() * sc));
            }
        }
    }
    // the top degree is what separates the rules
    let i = c.rng.below(deg as usize + 1) as u32;
    p.push(((i, deg - i), sc * (0.5 + c.rng.unit())));
    p
}

fn eval(p: &Poly, x: f64, y: f64) -> f64 {
    p.iter().map(|((i, j), a)| a * x.powi(*i as i32) * y.powi(*j as i32)).sum()
}

/// integral along the segment, by expanding in the parameter (coefficients of products of linear factors)
fn seg_exact(p: &Poly, a: (f64, f64), b: (f64, f64)) -> f64 {
    // x = m + h t, t in [-1,1]
    let (mx, hx, my, hy) = ((a.0 + b.0) / 2.0, (b.0 - a.0) / 2.0, (a.1 + b.1) / 2.0, (b.1 - a.1) / 2.0);
    let mut s = 0.0;
    for ((i, j), k) in p {
        let mut q = vec![1.0];
        let mut mulc = |m: f64, h: f64, n: u32| {
            for _ in 0..n {
                let mut r = vec![0.0; q.len() + 1];
                for (d, v) in q.iter().enumerate() {
                    r[d] += v * m;
                    r[d + 1] += v * h;
                }
                q = r;
            }
        };
        mulc(mx, hx, *i);
        mulc(my, hy, *j);
        s += k * q.iter().enumerate().map(|(d, v)| if d % 2 == 0 { v * 2.0 / (d as f64 + 1.0) } else { 0.0 }).sum::<f64>();
    }
    s * (hx * hx + hy * hy).sqrt()
}

fn case(c: &mut Ctx) {
    let sc = c.rng.logf(1e-3, 1e3);
    let (r, k) = (c.rng.range(1, 4), c.rng.range(1, 4));
    if c.idx % 3 == 0 {
        let deg = c.rng.below(3) as u32;
        let ps: Vec<Poly> = (0..r * k).map(|_| poly(c, deg, sc)).collect();
        c.describe(format!("triangle, degree {}, {}x{} polynomials {:?}", deg, r, k, ps));
        for p in &ps {
            c.sigf(&p.iter().map(|x| x.1).collect::<Vec<_>>());
        }
        let got: Option<LinearMatrix> = c.run("triangle", || {
            gauss_tri(|p| LinearMatrix::from_flat((r, k), ps.iter().map(|q| eval(q, p[0], p[1])).collect::<Vec<_>>()))
        });
        if let Some(g) = got {
            for i in 0..r {
                for j in 0..k {
                    let want: f64 = ps[i * k + j].iter().map(|((a, b), x)| x * fact(*a) * fact(*b) / fact(a + b + 2)).sum();
                    let size: f64 = ps[i * k + j].iter().map(|x| x.1.abs()).sum();
                    c.check((g[(i, j)] - want).abs() <= TRI_TOL * size, "triangle", || format!("entry ({},{}): {} instead of {}", i, j, g[(i, j)], want));
                    c.count("triangle integrals");
                }
            }
            c.nontrivial = true;
        }
        // every sample lies inside the triangle
        return;
    }
    let order = c.rng.range(1, 4);
    let deg = c.rng.range(0, 2 * order - 1) as u32;
    let ext = c.rng.logf(1e-2, 3.0);
    let off = if c.rng.chance(0.5) { 0.0 } else { 1.0 };
    let a = (off * c.rng.sym(), off * c.rng.sym());
    let th = c.rng.f(0.0, 7.0);
    let th = if c.rng.chance(0.3) { (th / 1.5707963267948966f64).floor() * 1.5707963267948966 } else { th };
    let b = if c.idx % 101 == 100 { a } else { (a.0 + ext * th.cos(), a.1 + ext * th.sin()) };
    let ps: Vec<Poly> = (0..r * k).map(|_| poly(c, deg, sc)).collect();
    c.describe(format!("segment {:?}-{:?}, order {}, degree {}, {}x{} polynomials {:?}", a, b, order, deg, r, k, ps));
    c.sigf(&[a.0, a.1, b.0, b.1]);
    let reach = 1.0f64.max(a.0.abs() + ext).max(a.1.abs() + ext);
    // the tables hold 15 decimals; the rest is rounding, proportional to the terms' sizes
    let top = |p: &Poly| p.iter().map(|((i, j), v)| v.abs() * reach.powi((i + j) as i32)).sum::<f64>();
    let got = c.run("segment", || {
        gauss_segment_mat(
            |p| LinearMatrix::from_flat((r, k), ps.iter().map(|q| eval(q, p[0], p[1])).collect::<Vec<_>>()),
            a.into(),
            b.into(),
            order,
        )
    });
    if let Some(g) = got {
        if !c.check(g.shape() == (r, k), "segment", || format!("shape {:?}", g.shape())) {
            return;
        }
        for i in 0..r {
            for j in 0..k {
                let want = seg_exact(&ps[i * k + j], a, b);
                let tol = SEG_TOL * top(&ps[i * k + j]) * ext;
                let e = (g[(i, j)] - want).abs() / tol;
                c.check((g[(i, j)] - want).abs() <= tol, "segment", || {
                    format!("entry ({},{}): {} instead of {} (tolerance {:e})", i, j, g[(i, j)], want, tol)
                });
                c.count("segment integrals");
            }
        }
        if a == b {
            c.count("segments of no length");
        }
        c.count(["", "order 1", "order 2", "order 3", "order 4"][order]);
        c.nontrivial = true;
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 200000,
            thorough: 4000000,
            rule: "random matrices of polynomials up to the degree each rule must integrate exactly, over the reference triangle and random segments, compared with the exact integrals; non-trivial: integrated; distinct by coefficients or segment",
            need: &["triangle integrals", "order 1", "order 2", "order 3", "order 4", "segments of no length"],
        },
        case,
    );
}
