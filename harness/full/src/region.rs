//! Plane regions: exact tests, and a generator of valid polygons with holes.
use spacemath::{orient2, Orient};
use verif_core::fem::V2;
use verif_core::Rng;

pub fn sub(a: V2, b: V2) -> V2 {
    (a.0 - b.0, a.1 - b.1)
}
pub fn dist(a: V2, b: V2) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}
pub fn orient(a: V2, b: V2, c: V2) -> Orient {
    orient2(a, b, c)
}
pub fn seg_dist(p: V2, a: V2, b: V2) -> f64 {
    let d = sub(b, a);
    let l = d.0 * d.0 + d.1 * d.1;
    let q = sub(p, a);
    let t = if l > 0.0 { ((q.0 * d.0 + q.1 * d.1) / l).max(0.0).min(1.0) } else { 0.0 };
    dist(p, (a.0 + t * d.0, a.1 + t * d.1))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Meet {
    No,
    Touch,
    Cross,
}

pub fn meet(a: V2, b: V2, p: V2, q: V2) -> Meet {
    let (s, t, u, v) = (orient(a, b, p), orient(a, b, q), orient(p, q, a), orient(p, q, b));
    if s.is_nonzero() && t.is_nonzero() && u.is_nonzero() && v.is_nonzero() {
        return if s != t && u != v { Meet::Cross } else { Meet::No };
    }
    let on = |o: Orient, a: V2, b: V2, x: V2| o.is_zero() && x.0 >= a.0.min(b.0) && x.0 <= a.0.max(b.0) && x.1 >= a.1.min(b.1) && x.1 <= a.1.max(b.1);
    if on(s, a, b, p) || on(t, a, b, q) || on(u, p, q, a) || on(v, p, q, b) {
        Meet::Touch
    } else {
        Meet::No
    }
}

pub fn area(p: &[V2]) -> f64 {
    let o = p[0];
    (1..p.len() - 1).map(|i| verif_core::fem::area2(o, p[i], p[i + 1])).sum::<f64>() / 2.0
}

pub fn inside(p: V2, poly: &[V2]) -> bool {
    let mut c = false;
    for i in 0..poly.len() {
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        if (a.1 > p.1) != (b.1 > p.1) {
            let o = orient(a, b, p);
            if (o == Orient::Positive) == (b.1 > a.1) {
                c = !c;
            }
        }
    }
    c
}

/// outer boundary counter-clockwise, holes clockwise
#[derive(Clone, Debug)]
pub struct Region {
    pub kind: String,
    pub polys: Vec<Vec<V2>>,
}

impl Region {
    pub fn walls(&self) -> Vec<(V2, V2)> {
        let mut w = Vec::new();
        for p in &self.polys {
            for i in 0..p.len() {
                w.push((p[i], p[(i + 1) % p.len()]));
            }
        }
        w
    }
    pub fn area(&self) -> f64 {
        self.polys.iter().map(|p| area(p)).sum()
    }
    /// smallest distance between walls that do not share an end, and smallest angle between those that do
    pub fn quality(&self) -> (f64, f64) {
        let w = self.walls();
        let (mut d, mut ang) = (f64::MAX, f64::MAX);
        for (i, x) in w.iter().enumerate() {
            d = d.min(dist(x.0, x.1));
            for y in &w[i + 1..] {
                if x.1 == y.0 || x.0 == y.1 || x.0 == y.0 || x.1 == y.1 {
                    continue;
                }
                if meet(x.0, x.1, y.0, y.1) != Meet::No {
                    return (0.0, 0.0);
                }
                for (p, q) in [(x.0, *y), (x.1, *y), (y.0, *x), (y.1, *x)] {
                    d = d.min(seg_dist(p, q.0, q.1));
                }
            }
        }
        for p in &self.polys {
            let n = p.len();
            for i in 0..n {
                let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
                let (u, v) = (sub(c, b), sub(a, b));
                // angle on the inner side, the left of the walls
                let mut t = (u.0 * v.1 - u.1 * v.0).atan2(u.0 * v.0 + u.1 * v.1);
                if t <= 0.0 {
                    t += 2.0 * std::f64::consts::PI;
                }
                ang = ang.min(t);
            }
        }
        (d, ang)
    }
}

fn rectilinear(rng: &mut Rng) -> Vec<V2> {
    // outline of a random staircase between two profiles over n columns
    let n = rng.range(1, 4);
    let mut lo = vec![];
    let mut hi = vec![];
    for i in 0..n {
        let (l, h) = (rng.irange(0, 2), rng.irange(4, 7));
        lo.push(if i > 0 && rng.chance(0.4) { lo[i - 1] } else { l });
        hi.push(if i > 0 && rng.chance(0.4) { hi[i - 1] } else { h });
    }
    let w: Vec<f64> = (0..n).map(|_| rng.range(1, 4) as f64).collect();
    let mut x = vec![0.0];
    for a in &w {
        x.push(x[x.len() - 1] + a);
    }
    let mut p = Vec::new();
    for i in 0..n {
        p.push((x[i], lo[i] as f64));
        p.push((x[i + 1], lo[i] as f64));
    }
    for i in (0..n).rev() {
        p.push((x[i + 1], hi[i] as f64));
        p.push((x[i], hi[i] as f64));
    }
    // corners that are none
    let m = p.len();
    let keep = rng.chance(0.3);
    let mut q = Vec::new();
    for i in 0..m {
        let (a, b, c) = (p[(i + m - 1) % m], p[i], p[(i + 1) % m]);
        if b == a {
            continue;
        }
        if !keep && orient(a, b, c).is_zero() && b != c {
            continue;
        }
        if b == c {
            // the doubled corner is a true corner or the middle of a straight wall
            let d = p[(i + 2) % m];
            if !keep && orient(a, b, d).is_zero() {
                continue;
            }
        }
        q.push(b);
    }
    q
}

fn outline(rng: &mut Rng, convex: bool) -> (String, Vec<V2>) {
    match if convex { rng.below(3) } else { rng.below(6) } {
        0 => {
            let (w, h) = (rng.range(1, 6) as f64, rng.range(1, 6) as f64);
            ("rectangle".into(), vec![(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)])
        }
        1 | 2 => {
            let n = rng.range(3, 9);
            let (rx, ry) = (rng.f(1.0, 4.0), rng.f(1.0, 4.0));
            let mut t: Vec<f64> = if rng.chance(0.4) {
                (0..n).map(|i| i as f64 / n as f64).collect()
            } else {
                (0..n).map(|i| (i as f64 + 0.7 * rng.unit()) / n as f64).collect()
            };
            t.sort_by(|a, b| a.partial_cmp(b).unwrap());
            ("convex".into(), t.iter().map(|a| (rx * (a * std::f64::consts::TAU).cos(), ry * (a * std::f64::consts::TAU).sin())).collect())
        }
        3 => {
            let n = rng.range(5, 12);
            let p = (0..n)
                .map(|i| {
                    let a = (i as f64 + 0.4 * rng.sym()) / n as f64 * std::f64::consts::TAU;
                    let r = rng.f(1.5, 5.0);
                    (r * a.cos(), r * a.sin())
                })
                .collect();
            ("star-shaped".into(), p)
        }
        _ => ("rectilinear".into(), rectilinear(rng)),
    }
}

/// A random valid region whose walls keep `gap` (relative to its extent) apart and meet at `min_angle` or more.
pub fn gen(rng: &mut Rng, max_holes: usize, gap: f64, min_angle: f64) -> Region {
    loop {
        let (kind, mut p) = outline(rng, false);
        if area(&p) < 0.0 {
            p.reverse();
        }
        let ext = p.iter().map(|a| a.0.abs().max(a.1.abs())).fold(0.0, f64::max);
        let mut r = Region { kind, polys: vec![p.clone()] };
        let holes = if max_holes > 0 && rng.chance(0.5) { rng.range(1, max_holes) } else { 0 };
        for _ in 0..6 * holes {
            if r.polys.len() > holes {
                break;
            }
            let (k, h) = outline(rng, rng.clone().chance(0.7));
            let mut h = if area(&h) > 0.0 { h.into_iter().rev().collect::<Vec<_>>() } else { h };
            let s = rng.f(0.05, 0.3) * if rng.chance(0.5) { 1.0 } else { 0.5 };
            let at = (ext * rng.sym(), ext * rng.sym());
            for q in h.iter_mut() {
                *q = (at.0 + s * q.0, at.1 + s * q.1);
            }
            let mut t = r.clone();
            if !h.iter().all(|&q| inside(q, &p)) || r.polys[1..].iter().any(|o| inside(h[0], o) || inside(o[0], &h)) {
                continue;
            }
            t.polys.push(h);
            t.kind += &format!(" with {} hole", k);
            let (d, a) = t.quality();
            if d > gap * ext && a > min_angle {
                r = t;
            }
        }
        // vertices in the middle of walls, as authors use to mark a stretch
        for k in 0..r.polys.len() {
            while rng.chance(0.25) {
                let n = r.polys[k].len();
                let i = rng.below(n);
                let (a, b) = (r.polys[k][i], r.polys[k][(i + 1) % n]);
                let t = *rng.pick(&[0.5, 0.25, 1.0 / 3.0, 0.4]);
                let m = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
                r.polys[k].insert(i + 1, m);
            }
        }
        // where and how the author draws it
        if rng.chance(0.5) {
            let th = rng.f(0.0, 7.0);
            for q in r.polys.iter_mut().flatten() {
                *q = (q.0 * th.cos() - q.1 * th.sin(), q.0 * th.sin() + q.1 * th.cos());
            }
            r.kind += " turned";
        }
        if rng.chance(0.4) {
            // some far from the origin
            let far = if rng.chance(0.2) { rng.logf(20.0, 1e5) } else { 20.0 };
            let o = (far * rng.sym(), far * rng.sym());
            for q in r.polys.iter_mut().flatten() {
                *q = (q.0 + o.0, q.1 + o.1);
            }
        }
        if rng.chance(0.3) {
            let s = rng.logf(0.1, 30.0);
            for q in r.polys.iter_mut().flatten() {
                *q = (q.0 * s, q.1 * s);
            }
        }
        for q in r.polys.iter_mut() {
            let k = rng.below(q.len());
            q.rotate_left(k);
        }
        if rng.chance(0.3) && r.polys.len() > 1 {
            // the outer boundary need not come first
            r.polys.rotate_left(1);
        }
        let w: Vec<V2> = r.polys.iter().flatten().copied().collect();
        let sp = |f: fn(&V2) -> f64| w.iter().map(f).fold(f64::MIN, f64::max) - w.iter().map(f).fold(f64::MAX, f64::min);
        let ext = sp(|p| p.0).max(sp(|p| p.1));
        let (d, a) = r.quality();
        if d > gap * ext && a > min_angle && r.area() > 0.0 {
            return r;
        }
    }
}

/// A region with details far smaller than itself: pinholes, slits, small steps.
pub fn details(rng: &mut Rng) -> Region {
    loop {
        let (w, h) = (rng.f(1.0, 4.0), rng.f(1.0, 4.0));
        let d = rng.logf(2e-3, 3e-2);
        let kind = rng.below(3);
        let mut r = match kind {
            0 => {
                // a slit from the top, anywhere along it
                let (x, y) = (rng.f(0.2, 0.7) * w, rng.f(0.3, 0.7) * h);
                Region { kind: "slit".into(), polys: vec![vec![(0.0, 0.0), (w, 0.0), (w, h), (x + d, h), (x + d, y), (x, y), (x, h), (0.0, h)]] }
            }
            1 => {
                // a small step in a side
                let e = d * rng.f(0.5, 2.0);
                let x = rng.f(0.2, 0.8) * w;
                Region { kind: "step".into(), polys: vec![vec![(0.0, 0.0), (w, 0.0), (w, h), (x, h), (x, h - e), (0.0, h - e)]] }
            }
            _ => {
                let (_, p) = outline(rng, true);
                Region { kind: "pinholes".into(), polys: vec![p] }
            }
        };
        if kind == 2 || rng.chance(0.3) {
            for _ in 0..rng.range(1, 4) {
                let (_, mut q) = outline(rng, true);
                q.reverse();
                let e = d * rng.f(0.3, 1.0);
                let out = r.polys[0].clone();
                let k = rng.below(out.len());
                let t = rng.f(0.02, 0.6);
                let at = (out[k].0 * (1.0 - t) + t * w / 3.0, out[k].1 * (1.0 - t) + t * h / 3.0);
                for v in q.iter_mut() {
                    *v = (at.0 + e * v.0, at.1 + e * v.1);
                }
                if q.iter().all(|v| inside(*v, &out)) && !r.polys[1..].iter().any(|o| inside(q[0], o) || inside(o[0], &q)) {
                    r.polys.push(q);
                }
            }
        }
        if rng.chance(0.5) {
            let th = rng.f(0.0, 7.0);
            for q in r.polys.iter_mut().flatten() {
                *q = (q.0 * th.cos() - q.1 * th.sin(), q.0 * th.sin() + q.1 * th.cos());
            }
        }
        for q in r.polys.iter_mut() {
            let k = rng.below(q.len());
            q.rotate_left(k);
        }
        let (d, a) = r.quality();
        if d > 1e-3 && a > 60.5f64.to_radians() && r.area() > 0.0 && (kind < 2 || r.polys.len() > 1) {
            return r;
        }
    }
}

/// A plate with up to dozens of holes, with every unit of its outline marked now and then.
/// Corners lie on a grid of unit squares, and walls are whole units long.
pub fn plate(rng: &mut Rng, holes: (usize, usize), marks: bool) -> Region {
    let (nx, ny) = loop {
        let (nx, ny) = (rng.range(1, 10), rng.range(1, 8));
        if nx * ny >= holes.0 && nx * ny <= holes.1 {
            break (nx, ny);
        }
    };
    let (w, h) = (3 * nx + 2, 3 * ny + 2);
    let mut out: Vec<V2> = Vec::new();
    let corners = [(0, 0), (w, 0), (w, h), (0, h)];
    for i in 0..4 {
        let (a, b) = (corners[i], corners[(i + 1) % 4]);
        out.push((a.0 as f64, a.1 as f64));
        if marks {
            let n = if i % 2 == 0 { w } else { h };
            for k in 1..n {
                let t = k as f64 / n as f64;
                let at = |x: usize, y: usize| (x as f64 + t * (y as f64 - x as f64)).round();
                out.push((at(a.0, b.0), at(a.1, b.1)));
            }
        }
    }
    let mut polys = vec![out];
    for i in 0..nx {
        for j in 0..ny {
            let (x, y) = (3.0 * i as f64 + 2.0, 3.0 * j as f64 + 2.0);
            let mut q = vec![(x, y), (x, y + 1.0), (x + 1.0, y + 1.0), (x + 1.0, y)];
            let k = rng.below(4);
            q.rotate_left(k);
            polys.push(q);
        }
    }
    let at = rng.below(polys.len());
    polys.swap(0, at);
    if rng.chance(0.5) {
        let th = rng.f(0.0, 7.0);
        for q in polys.iter_mut().flatten() {
            *q = (q.0 * th.cos() - q.1 * th.sin(), q.0 * th.sin() + q.1 * th.cos());
        }
    }
    Region { kind: format!("plate with {} holes", nx * ny), polys }
}
