//! C16: geometric predicates and point algebra against exact integer arithmetic.
use bugi::verif_hooks as sp;
use sp::{Orient, Point};
use std::convert::TryInto;
use verif_core::{main_loop, trap, Ctx, Plan, Rng};

type I = i128;

/// a coordinate grid: integers times a power of two, so that every intermediate value is exact
struct Grid {
    r: i64,
    s: f64,
}

fn grid(rng: &mut Rng, span: i64) -> Grid {
    let e = match rng.below(4) {
        0 => 0,
        1 => rng.irange(-40, 40) as i32,
        _ => rng.irange(-3, 3) as i32,
    };
    Grid { r: *rng.pick(&[1, 2, 3, 5, 12, span]), s: 2f64.powi(e) }
}

fn pt(g: &Grid, v: &[i64]) -> Point {
    Point::new(&v.iter().map(|x| *x as f64 * g.s).collect::<Vec<_>>())
}

fn rand(rng: &mut Rng, g: &Grid, d: usize) -> Vec<i64> {
    (0..d).map(|_| rng.irange(-g.r, g.r)).collect()
}

/// points on one circle (or sphere) around a grid point, if the radius has several
fn concyclic(rng: &mut Rng, d: usize, n: usize) -> Vec<Vec<i64>> {
    let base: &[i64] = match (d, rng.below(4)) {
        (2, 0) => &[3, 4],
        (2, 1) => &[1, 7],
        (2, 2) => &[5, 12],
        (2, _) => &[2, 1],
        (_, 0) => &[1, 2, 2],
        (_, 1) => &[0, 3, 4],
        (_, 2) => &[2, 3, 6],
        _ => &[1, 1, 3],
    };
    let c: Vec<i64> = (0..d).map(|_| rng.irange(-6, 6)).collect();
    (0..n)
        .map(|_| {
            let p = rng.perm(d);
            (0..d).map(|i| c[i] + if rng.chance(0.5) { base[p[i]] } else { -base[p[i]] }).collect()
        })
        .collect()
}

fn points(rng: &mut Rng, g: &Grid, d: usize, n: usize) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = match rng.below(6) {
        0 => concyclic(rng, d, n),
        1 => {
            // on one line
            let a = rand(rng, g, d);
            let u: Vec<i64> = (0..d).map(|_| rng.irange(-2, 2)).collect();
            (0..n)
                .map(|_| {
                    let t = rng.irange(-3, 3);
                    (0..d).map(|i| a[i] + t * u[i]).collect()
                })
                .collect()
        }
        2 => {
            // in one plane of the grid
            let i = rng.below(d);
            let x = rng.irange(-g.r, g.r);
            (0..n)
                .map(|_| {
                    let mut p = rand(rng, g, d);
                    p[i] = x;
                    p
                })
                .collect()
        }
        _ => (0..n).map(|_| rand(rng, g, d)).collect(),
    };
    if rng.chance(0.1) {
        let (i, j) = (rng.below(n), rng.below(n));
        v[i] = v[j].clone();
    }
    v
}

fn orient2(a: &[i64], b: &[i64], c: &[i64]) -> I {
    let f = |x: i64, y: i64| (x - y) as I;
    f(b[0], a[0]) * f(c[1], a[1]) - f(c[0], a[0]) * f(b[1], a[1])
}

fn det3(m: [[I; 3]; 3]) -> I {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}

fn orient3(a: &[i64], b: &[i64], c: &[i64], d: &[i64]) -> I {
    // sign of the determinant with rows (p, 1)
    let r = |p: &[i64]| [(p[0] - d[0]) as I, (p[1] - d[1]) as I, (p[2] - d[2]) as I];
    det3([r(a), r(b), r(c)])
}

/// determinant with rows (p, p.p, 1), last row subtracted: positive inside for counterclockwise corners
fn circle2(a: &[i64], b: &[i64], c: &[i64], p: &[i64]) -> I {
    let r = |q: &[i64]| {
        let (x, y) = ((q[0] - p[0]) as I, (q[1] - p[1]) as I);
        [x, y, x * x + y * y]
    };
    det3([r(a), r(b), r(c)])
}

fn det4(m: [[I; 4]; 4]) -> I {
    let mut s = 0;
    for j in 0..4 {
        let mut q = [[0; 3]; 3];
        for i in 1..4 {
            let mut k = 0;
            for l in 0..4 {
                if l != j {
                    q[i - 1][k] = m[i][l];
                    k += 1;
                }
            }
        }
        s += if j % 2 == 0 { 1 } else { -1 } * m[0][j] * det3(q);
    }
    s
}

fn sphere3(a: &[i64], b: &[i64], c: &[i64], d: &[i64], p: &[i64]) -> I {
    let r = |q: &[i64]| {
        let (x, y, z) = ((q[0] - p[0]) as I, (q[1] - p[1]) as I, (q[2] - p[2]) as I);
        [x, y, z, x * x + y * y + z * z]
    };
    det4([r(a), r(b), r(c), r(d)])
}

fn plane(c: &mut Ctx) {
    let g = grid(&mut c.rng, 40);
    let v = points(&mut c.rng, &g, 2, 4);
    let (a, b, d, p) = (&v[0], &v[1], &v[2], &v[3]);
    c.describe(format!("points {:?} times {:e}", v, g.s));
    c.sig(&v);
    c.sigf(&[g.s]);
    c.nontrivial = true;
    let q: Vec<Point> = v.iter().map(|x| pt(&g, x)).collect();
    let o = orient2(a, b, d);
    c.count(if o == 0 { "degenerate triangles" } else if o > 0 { "counterclockwise triangles" } else { "clockwise triangles" });
    if o != 0 {
        // inside, by signs only
        let s = [orient2(a, b, p), orient2(b, d, p), orient2(d, a, p)];
        let inside = s.iter().all(|x| *x * o >= 0);
        // barycentric coordinates: exact ratios
        let w = [s[1] as f64 / o as f64, s[2] as f64 / o as f64, s[0] as f64 / o as f64];
        if let Some(x) = c.run("bary panic", || sp::bary_coor(q[3], (q[0], q[1], q[2]))) {
            let e = (x.0 - w[0]).abs().max((x.1 - w[1]).abs()).max((x.2 - w[2]).abs());
            let m = 1.0 + w.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
            c.check(e <= 1e-14 * m, "barycentric", || format!("{:?} instead of {:?}", x, w));
        }
        if let Some(x) = c.run("in_triangle panic", || sp::in_triangle(q[3], (q[0], q[1], q[2]))) {
            c.check(x == inside, "in triangle", || format!("{} instead of {}", x, inside));
            if inside && s.iter().any(|x| *x == 0) {
                c.count("points on a triangle's edge");
            }
            c.count(if inside { "points inside a triangle" } else { "points outside a triangle" });
        }
    }
    // in-circle: promised for counterclockwise corners; clockwise ones turn the sign
    let ic = circle2(a, b, d, p);
    if let Some(x) = c.run("in_circle panic", || sp::in_circle(q[3], (q[0], q[1], q[2]))) {
        if o > 0 {
            c.check(x == (ic > 0), "in circle", || format!("{} although the determinant is {}", x, ic));
            c.count(if ic > 0 { "points inside a circle" } else if ic == 0 { "points on a circle" } else { "points outside a circle" });
        } else if o == 0 {
            c.check(x == (ic > 0), "in circle of a degenerate triangle", || format!("{} although the determinant is {}", x, ic));
        }
        // any even reordering of the corners changes nothing
        for t in [(q[1], q[2], q[0]), (q[2], q[0], q[1])] {
            if let Some(y) = c.run("in_circle panic", || sp::in_circle(q[3], t)) {
                c.check(y == x, "in circle depends on the first corner", || format!("{} and {}", x, y));
            }
        }
    }
    match c.run("circumcenter panic", || sp::circumcenter((q[0], q[1], q[2]))) {
        None => {}
        Some(None) => {
            c.check(o == 0, "circumcenter", || "none for a proper triangle".to_string());
        }
        Some(Some(x)) => {
            if o == 0 {
                c.fail("circumcenter", format!("{:?} for a degenerate triangle", x));
            } else {
                let r: Vec<f64> = (0..3).map(|i| ((x[0] - q[i][0]).powi(2) + (x[1] - q[i][1]).powi(2)).sqrt()).collect();
                let m = r[0].max(r[1]).max(r[2]);
                let far = q.iter().take(3).map(|p| p[0].abs().max(p[1].abs())).fold(0.0, f64::max);
                // a long circumradius amplifies rounding of its centre
                let l = (0..3).map(|i| ((q[i][0] - q[(i + 1) % 3][0]).powi(2) + (q[i][1] - q[(i + 1) % 3][1]).powi(2)).sqrt()).fold(0.0, f64::max);
                let lim = 1e-12 * (m + far) * (1.0 + m / l);
                c.check(x.dim() == 2 && (r[0] - r[1]).abs() <= lim && (r[1] - r[2]).abs() <= lim, "circumcenter", || format!("{:?} at distances {:?}", x, r));
                c.count("circumcentres");
            }
        }
    }
}

fn space(c: &mut Ctx) {
    let g = grid(&mut c.rng, 20);
    let v = points(&mut c.rng, &g, 3, 5);
    c.describe(format!("points {:?} times {:e}", v, g.s));
    c.sig(&v);
    c.sigf(&[g.s]);
    c.nontrivial = true;
    let q: Vec<Point> = v.iter().map(|x| pt(&g, x)).collect();
    let o = orient3(&v[0], &v[1], &v[2], &v[3]);
    let tet = (q[0], q[1], q[2], q[3]);
    if let Some(x) = c.run("tetrahedron_dir panic", || sp::tetrahedron_dir(tet)) {
        let want = if o == 0 { Orient::Zero } else if o > 0 { Orient::Positive } else { Orient::Negative };
        c.check(x == want, "tetrahedron orientation", || format!("{:?}, determinant {}", x, o));
        c.count(if o == 0 { "degenerate tetrahedra" } else { "proper tetrahedra" });
    }
    let ins = sphere3(&v[0], &v[1], &v[2], &v[3], &v[4]);
    if let Some(x) = c.run("in_sphere panic", || sp::in_sphere(q[4], tet)) {
        // positive inside for corners of positive orientation
        if o > 0 {
            c.check(x == (ins > 0), "in sphere", || format!("{} although the determinant is {}", x, ins));
            c.count(if ins > 0 { "points inside a sphere" } else if ins == 0 { "points on a sphere" } else { "points outside a sphere" });
        }
    }
}

fn algebra(c: &mut Ctx) {
    let d = c.rng.range(1, 3);
    let g = grid(&mut c.rng, 1000);
    let (va, vb) = (rand(&mut c.rng, &g, d), rand(&mut c.rng, &g, d));
    let (a, b) = (pt(&g, &va), pt(&g, &vb));
    c.describe(format!("{:?} and {:?} times {:e}", va, vb, g.s));
    c.sig((&va, &vb));
    c.sigf(&[g.s]);
    c.nontrivial = true;
    let s = c.rng.irange(-9, 9) as f64;
    let is = |p: Point, want: Vec<f64>| p.dim() == want.len() && (0..want.len()).all(|i| p[i] == want[i]) && p.to_vec() == want;
    let f = |h: &dyn Fn(f64, f64) -> f64| -> Vec<f64> { (0..d).map(|i| h(va[i] as f64 * g.s, vb[i] as f64 * g.s)).collect() };
    c.check(is(a + b, f(&|x, y| x + y)), "sum", || format!("{:?}", a + b));
    c.check(is(a - b, f(&|x, y| x - y)), "difference", || format!("{:?}", a - b));
    c.check(is(a * s, f(&|x, _| x * s)), "scaled", || format!("{:?} for {}", a * s, s));
    c.check(is(a.mid(b), f(&|x, y| (x + y) / 2.0)), "midpoint", || format!("{:?}", a.mid(b)));
    c.check(is(Point::zero(d), vec![0.0; d]), "zero", || format!("{:?}", Point::zero(d)));
    let dot: I = (0..d).map(|i| (va[i] * vb[i]) as I).sum();
    c.check(a.dot(b) == dot as f64 * g.s * g.s, "dot product", || format!("{} instead of {}", a.dot(b), dot));
    let sq: I = va.iter().map(|x| (x * x) as I).sum();
    let close = |x: f64, y: f64| (x - y).abs() <= 4e-16 * y.abs();
    c.check(close(a.norm(), (sq as f64).sqrt() * g.s), "norm", || format!("{} of squared {}", a.norm(), sq));
    let ds: I = (0..d).map(|i| ((va[i] - vb[i]) as I).pow(2)).sum();
    c.check(close(a.dist(b), (ds as f64).sqrt() * g.s), "distance", || format!("{} of squared {}", a.dist(b), ds));
    if sq > 0 {
        let u = a.unit();
        let r = (sq as f64).sqrt();
        c.check(u.dim() == d && (0..d).all(|i| (u[i] - va[i] as f64 / r).abs() <= 4e-16), "unit vector", || format!("{:?}", u));
    }
    c.check(a.dim() == d, "dimension", || format!("{}", a.dim()));
    c.check((a == b) == (va == vb), "equality", || format!("{:?} {:?}", a, b));
    let mut m = a;
    let i = c.rng.below(d);
    m[i] = 7.5;
    c.check((0..d).all(|j| m[j] == if j == i { 7.5 } else { a[j] }), "component write", || format!("{:?}", m));
    // components that do not exist
    for i in [d, d + 1, 3, 4, 1 << 20, usize::MAX] {
        if i >= d {
            c.check(trap(|| a[i]).is_err(), "component outside read", || format!("component {} of {:?}", i, a));
            c.check(
                trap(|| {
                    let mut m = a;
                    m[i] = 1.0;
                    m
                })
                .is_err(),
                "component outside written",
                || format!("component {} of {:?}", i, a),
            );
        }
    }
    // other dimensions
    let e = 1 + (d + c.rng.below(2)) % 3;
    let w = pt(&g, &rand(&mut c.rng, &g, e));
    if e != d {
        c.check(trap(|| a + w).is_err(), "mixed sum", || format!("{:?} {:?}", a, w));
        c.check(trap(|| a - w).is_err(), "mixed difference", || format!("{:?} {:?}", a, w));
        c.check(trap(|| a.dist(w)).is_err(), "mixed distance", || format!("{:?} {:?}", a, w));
        // the midpoint and the product use the components both have
        let k = d.min(e);
        let both = |x: &Point| -> Vec<f64> { (0..k).map(|i| x[i]).collect() };
        let mean: Vec<f64> = both(&a).iter().zip(both(&w)).map(|(x, y)| (x + y) / 2.0).collect();
        let (m, n) = (a.mid(w), w.mid(a));
        c.check(is(m, mean.clone()) && m == Point::new(&mean) && n == m, "mixed midpoint", || format!("{:?} and {:?} for {:?} {:?}", m, n, a, w));
        let r = mean.iter().map(|x| x * x).sum::<f64>().sqrt();
        c.check((m.norm() - r).abs() <= 4e-16 * r, "mixed midpoint's norm", || format!("{} instead of {} for {:?} {:?}", m.norm(), r, a, w));
        let s: f64 = both(&a).iter().zip(both(&w)).map(|(x, y)| x * y).sum();
        c.check(a.dot(w) == s && w.dot(a) == s, "mixed product", || format!("{} for {:?} {:?}", a.dot(w), a, w));
        c.check(a != w, "points of different dimension equal", || format!("{:?} {:?}", a, w));
        c.count("mixed dimensions");
    }
    let one: Result<f64, _> = a.try_into();
    let two: Result<(f64, f64), _> = a.try_into();
    let three: Result<(f64, f64, f64), _> = a.try_into();
    let ok = match d {
        1 => one.ok() == Some(a[0]) && two.is_err() && three.is_err(),
        2 => two.ok() == Some((a[0], a[1])) && one.is_err() && three.is_err(),
        _ => three.ok() == Some((a[0], a[1], a[2])) && one.is_err() && two.is_err(),
    };
    c.check(ok, "conversion", || format!("{:?}", a));
    let back: Vec<f64> = a.into();
    c.check(back == a.to_vec(), "conversion", || format!("{:?}", back));
    let t = std::convert::TryFrom::try_from(back.clone());
    c.check(t == Ok(a), "conversion", || format!("{:?}", t));
    c.check(<Point as std::convert::TryFrom<Vec<f64>>>::try_from(vec![1.0; 4]).is_err(), "four components accepted", || String::new());
    c.check(<Point as std::convert::TryFrom<Vec<f64>>>::try_from(vec![]).is_err(), "no components accepted", || String::new());
    c.check(trap(|| Point::new(&[1.0; 4])).is_err(), "four components accepted", || String::new());
    // built from a number, a pair or a triple
    let x = a.to_vec();
    let built = match d {
        1 => Point::from(x[0]),
        2 => Point::from((x[0], x[1])),
        _ => Point::from((x[0], x[1], x[2])),
    };
    c.check(built == a && built.dim() == d, "built from its components", || format!("{:?} instead of {:?}", built, a));
    if d == 2 {
        let u = Point::from((va[0].unsigned_abs() as u32, va[1].unsigned_abs() as u32));
        c.check(is(u, vec![va[0].abs() as f64, va[1].abs() as f64]), "built from whole numbers", || format!("{:?}", u));
    }
    // printed: the components in order, to four places
    let text = format!("{}", a);
    let nums: Option<Vec<f64>> = text.strip_prefix('(').and_then(|t| t.strip_suffix(')')).map(|t| t.split(", ").filter_map(|n| n.parse().ok()).collect());
    let ok = nums.map_or(false, |n| n.len() == d && (0..d).all(|i| (n[i] - x[i]).abs() <= 0.5000001e-4 + 4e-16 * x[i].abs()));
    c.check(ok, "printed form", || format!("{} for {:?}", text, x));
    c.count("points compared");
}

/// coordinates too long for exact products: only what is clear of rounding is asked
fn wide(c: &mut Ctx) {
    let r = *c.rng.pick(&[1_000_000i64, 60_000, 2_000]);
    let off = *c.rng.pick(&[0i64, 0, 1, 30]) * r;
    let g = Grid { r, s: 10f64.powi(c.rng.irange(-9, 6) as i32) };
    let pair = c.rng.chance(0.5);
    let d = if pair { 2 } else { 3 };
    let mut v: Vec<Vec<i64>> = (0..d + 2).map(|_| rand(&mut c.rng, &g, d)).collect();
    for p in &mut v {
        for x in p.iter_mut() {
            *x += off;
        }
    }
    c.describe(format!("points {:?} times {:e}", v, g.s));
    c.sig(&v);
    c.sigf(&[g.s]);
    c.nontrivial = true;
    let q: Vec<Point> = v.iter().map(|x| pt(&g, x)).collect();
    let m = (r + off) as f64;
    let clear = |x: I, deg: i32| (x as f64).abs() > 1e-13 * m.powi(deg);
    if pair {
        let o = orient2(&v[0], &v[1], &v[2]);
        let tri = (q[0], q[1], q[2]);
        let s = [orient2(&v[0], &v[1], &v[3]), orient2(&v[1], &v[2], &v[3]), orient2(&v[2], &v[0], &v[3])];
        if clear(o, 2) && s.iter().all(|x| clear(*x, 2)) {
            let want = s.iter().all(|x| (*x > 0) == (o > 0));
            if let Some(x) = c.run("in_triangle panic", || sp::in_triangle(q[3], tri)) {
                c.check(x == want, "in triangle", || format!("{} instead of {}", x, want));
                c.count("long coordinates in a triangle");
            }
        }
        let ic = circle2(&v[0], &v[1], &v[2], &v[3]);
        if clear(o, 2) && o > 0 && clear(ic, 4) {
            if let Some(x) = c.run("in_circle panic", || sp::in_circle(q[3], tri)) {
                c.check(x == (ic > 0), "in circle", || format!("{} although the determinant is {}", x, ic));
                c.count("long coordinates in a circle");
            }
        }
    } else {
        let o = orient3(&v[0], &v[1], &v[2], &v[3]);
        let tet = (q[0], q[1], q[2], q[3]);
        if clear(o, 3) {
            if let Some(x) = c.run("tetrahedron_dir panic", || sp::tetrahedron_dir(tet)) {
                c.check(x == if o > 0 { Orient::Positive } else { Orient::Negative }, "tetrahedron orientation", || format!("{:?}, determinant {}", x, o));
                c.count("long coordinates in a tetrahedron");
            }
            let ins = sphere3(&v[0], &v[1], &v[2], &v[3], &v[4]);
            if o > 0 && clear(ins, 5) {
                if let Some(x) = c.run("in_sphere panic", || sp::in_sphere(q[4], tet)) {
                    c.check(x == (ins > 0), "in sphere", || format!("{} although the determinant is {}", x, ins));
                    c.count("long coordinates in a sphere");
                }
            }
        }
    }
}

fn case(c: &mut Ctx) {
    match c.idx % 5 {
        0 | 1 => plane(c),
        2 => space(c),
        3 => wide(c),
        _ => algebra(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 1000000,
            thorough: 40000000,
            rule: "random small-integer points times powers of two in one, two and three dimensions, a third of them collinear, coplanar, cocircular, cospherical or repeated; and points with coordinates of up to 31 bits where the answer is clear of rounding; every predicate and operation compared with integer arithmetic; non-trivial: all; distinct by coordinates",
            need: &["degenerate triangles", "clockwise triangles", "points inside a triangle", "points on a circle", "points inside a circle", "degenerate tetrahedra", "proper tetrahedra", "points inside a sphere", "points on a sphere", "circumcentres", "points compared", "mixed dimensions", "long coordinates in a triangle", "long coordinates in a circle", "long coordinates in a tetrahedron", "long coordinates in a sphere"],
        },
        case,
    );
}
