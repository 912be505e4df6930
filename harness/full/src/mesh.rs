//! What a mesh must be, judged from the assemblage alone against the region it was made for.
use crate::bbnd::{merge, Spec};
use crate::region::{dist, orient, seg_dist, Region};
use bugi::element::constraint::Constraint;
use bugi::element::ElementAssemblage;
use spacemath::Orient;
use std::collections::HashMap;
use verif_core::fem::{area2, V2};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Method {
    Chew,
    Ruppert,
}

pub fn circumradius(a: V2, b: V2, c: V2) -> f64 {
    dist(a, b) * dist(b, c) * dist(c, a) / (2.0 * area2(a, b, c).abs())
}

/// whether Chew's method promises a mesh: every wall divides into pieces of h to sqrt(3) h, and
/// the points where it divides keep h apart
pub fn suits_chew(r: &Region, h: f64) -> bool {
    let mut pts: Vec<V2> = Vec::new();
    for (a, b) in r.walls() {
        let d = dist(a, b);
        let n = (d / h).floor();
        let piece = d / n;
        // keep clear of limits that rounding may decide
        let exact = (a.0 == b.0 || a.1 == b.1) && n * h == d;
        if n < 1.0 || piece > 1.7320508 * h || !exact && (piece < h * (1.0 + 1e-9) || (d / h).ceil() - d / h < 1e-9) {
            return false;
        }
        if (d / (h * 3f64.sqrt())).floor() == n {
            return false;
        }
        for i in 0..n as usize {
            let t = i as f64 / n;
            pts.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
        }
    }
    let tol = h * (1.0 - 1e-12);
    for i in 0..pts.len() {
        for j in 0..i {
            let (dx, dy) = (pts[i].0 - pts[j].0, pts[i].1 - pts[j].1);
            if dx.abs() < h && dy.abs() < h && dx.hypot(dy) < tol {
                return false;
            }
        }
    }
    true
}

pub struct View {
    pub p: Vec<V2>,
    pub t: Vec<[usize; 3]>,
    pub forces: Vec<(usize, usize, V2)>,
    pub cons: Vec<Constraint>,
    pub conc: usize,
}

pub fn view(e: &ElementAssemblage) -> View {
    let c = |p: bugi::verif_hooks::Point| (p[0], p[1]);
    View {
        p: e.nodes().into_iter().map(c).collect(),
        t: e.element_descriptors()
            .into_iter()
            .map(|d| {
                let n = d.into_parts();
                [n[0].into_idx(), n[1].into_idx(), n[2].into_idx()]
            })
            .collect(),
        forces: e.dist_forces().into_iter().map(|((a, b), f)| (a.into_idx(), b.into_idx(), c(f))).collect(),
        cons: {
            let mut v = vec![Constraint::Free; e.nodes().len()];
            for (n, k) in e.constraints() {
                v[n.into_idx()] = k;
            }
            v
        },
        conc: e.conc_forces().len(),
    }
}

#[derive(Default)]
pub struct Stats {
    pub nodes: usize,
    pub tris: usize,
    pub interior_edges: usize,
    pub wall_edges: usize,
}

/// Lists what is wrong with a mesh. `single` are constraints on single vertices of the boundary.
pub fn faults(v: &View, r: &Region, spec: &Spec, single: &[((usize, usize), Constraint)], m: Method, h: f64, st: &mut Stats) -> Vec<String> {
    let mut out = Vec::new();
    let all: Vec<V2> = r.polys.iter().flatten().copied().collect();
    let ext = all.iter().map(|a| all.iter().map(|b| dist(*a, *b)).fold(0.0, f64::max)).fold(0.0, f64::max);
    let mag = all.iter().map(|a| a.0.abs().max(a.1.abs())).fold(ext, f64::max);
    st.nodes = v.p.len();
    st.tris = v.t.len();
    // every triangle turns left; every directed edge belongs to one
    let mut edge: HashMap<(usize, usize), usize> = HashMap::new();
    let mut used = vec![false; v.p.len()];
    let mut total = 0.0;
    for t in &v.t {
        let [a, b, c] = *t;
        if a >= v.p.len() || b >= v.p.len() || c >= v.p.len() {
            out.push(format!("triangle {:?} names no node", t));
            return out;
        }
        if orient(v.p[a], v.p[b], v.p[c]) != Orient::Positive {
            out.push(format!("triangle {:?} {:?} {:?} is not counter-clockwise", v.p[a], v.p[b], v.p[c]));
        }
        for (i, j, k) in [(a, b, c), (b, c, a), (c, a, b)] {
            used[i] = true;
            if edge.insert((i, j), k).is_some() {
                out.push(format!("edge {:?} - {:?} has two triangles on one side", v.p[i], v.p[j]));
            }
        }
        total += area2(v.p[a], v.p[b], v.p[c]) / 2.0;
        let cr = circumradius(v.p[a], v.p[b], v.p[c]);
        if cr > h * (1.0 + 1e-9) {
            out.push(format!("circumradius {} of a triangle exceeds the size {}", cr, h));
        }
        if m == Method::Ruppert {
            let leg = dist(v.p[a], v.p[b]).min(dist(v.p[b], v.p[c])).min(dist(v.p[c], v.p[a]));
            if cr / leg > 1.415 * (1.0 + 1e-9) {
                out.push(format!("triangle {:?} {:?} {:?} is too thin: {}", v.p[a], v.p[b], v.p[c], cr / leg));
            }
        }
    }
    let want = r.area();
    if (total - want).abs() > 1e-9 * (want + ext * ext) + 1e-12 * mag * ext {
        out.push(format!("the triangles cover {} of an area of {}", total, want));
    }
    if let Some(i) = used.iter().position(|u| !u) {
        out.push(format!("node {} at {:?} belongs to no triangle", i, v.p[i]));
    }
    // nodes are distinct, the vertices given among them
    let mut at: HashMap<[u64; 2], usize> = HashMap::new();
    for (i, p) in v.p.iter().enumerate() {
        if at.insert([(p.0 + 0.0).to_bits(), (p.1 + 0.0).to_bits()], i).is_some() {
            out.push(format!("two nodes at {:?}", p));
        }
    }
    let mut lone: HashMap<(usize, usize), usize> = edge.keys().filter(|e| !edge.contains_key(&(e.1, e.0))).map(|&e| (e, 0)).collect();
    st.wall_edges = lone.len();
    st.interior_edges = (edge.len() - lone.len()) / 2;
    // walls are tiled by the edges that have a triangle on one side only
    let tol = 1e-9 * ext + 1e-13 * mag;
    let mut load: HashMap<(usize, usize), V2> = HashMap::new();
    let mut hold: HashMap<usize, Vec<Constraint>> = HashMap::new();
    let mut fsum = 0.0;
    for (k, p) in spec.polys.iter().enumerate() {
        let n = p.len();
        for i in 0..n {
            let j = (i + 1) % n;
            let (a, b) = (p[i].0, p[j].0);
            let l = dist(a, b);
            let mut on: Vec<(f64, usize)> = (0..v.p.len())
                .filter(|&q| seg_dist(v.p[q], a, b) <= tol)
                .map(|q| (((v.p[q].0 - a.0) * (b.0 - a.0) + (v.p[q].1 - a.1) * (b.1 - a.1)) / (l * l), q))
                .collect();
            on.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
            if on.len() < 2 || v.p[on[0].1] != a || v.p[on[on.len() - 1].1] != b {
                out.push(format!("an end of the wall {:?} - {:?} is no node", a, b));
                continue;
            }
            for w in on.windows(2) {
                let e = (w[0].1, w[1].1);
                match lone.get_mut(&e) {
                    Some(c) => *c += 1,
                    None => out.push(format!("{:?} - {:?} on a wall is no edge of the boundary of the mesh", v.p[e.0], v.p[e.1])),
                }
                let d = dist(v.p[e.0], v.p[e.1]);
                if m == Method::Chew && (d < h * (1.0 - 1e-9) || d > 3f64.sqrt() * h * (1.0 + 1e-9)) {
                    out.push(format!("a piece of {} on a wall with size {}", d, h));
                }
                for f in &spec.forces {
                    if (f.0, f.1) == ((k, i), (k, j)) || (f.1, f.0) == ((k, i), (k, j)) {
                        let s = load.entry((e.0.min(e.1), e.0.max(e.1))).or_insert((0.0, 0.0));
                        *s = (s.0 + f.2 .0, s.1 + f.2 .1);
                        fsum += f.2 .0.abs() + f.2 .1.abs();
                    }
                }
            }
            for c in &spec.cons {
                if (c.0, c.1) == ((k, i), (k, j)) || (c.1, c.0) == ((k, i), (k, j)) {
                    for q in &on {
                        hold.entry(q.1).or_default().push(c.2);
                    }
                }
            }
        }
    }
    for (e, n) in &lone {
        if *n != 1 {
            out.push(format!("edge {:?} - {:?} has a triangle on one side only but is no piece of a wall", v.p[e.0], v.p[e.1]));
        }
    }
    // Delaunay across every inner edge
    for (&(a, b), &c) in &edge {
        if a > b {
            continue;
        }
        if let Some(&d) = edge.get(&(b, a)) {
            let (pa, pb, pc, pd) = (v.p[a], v.p[b], v.p[c], v.p[d]);
            // the angles facing the edge add up to no more than two right angles
            let ang = |o: V2| {
                let (x, y) = ((pa.0 - o.0, pa.1 - o.1), (pb.0 - o.0, pb.1 - o.1));
                (x.0 * y.1 - x.1 * y.0).abs().atan2(x.0 * y.0 + x.1 * y.1)
            };
            let s = ang(pc) + ang(pd);
            if s > std::f64::consts::PI + 1e-5 {
                out.push(format!("{:?} lies in the circle through {:?} {:?} {:?} (angles {})", pd, pa, pb, pc, s));
            }
        }
    }
    // loads and constraints
    let mut got: HashMap<(usize, usize), V2> = HashMap::new();
    for &(a, b, f) in &v.forces {
        let s = got.entry((a.min(b), a.max(b))).or_insert((0.0, 0.0));
        *s = (s.0 + f.0, s.1 + f.1);
    }
    for (e, f) in &load {
        let g = got.remove(e);
        let ok = g.map_or(false, |g| (g.0 - f.0).abs() <= 1e-12 * fsum && (g.1 - f.1).abs() <= 1e-12 * fsum);
        if !ok {
            out.push(format!("force {:?} instead of {:?} on {:?} - {:?}", g, f, v.p[e.0], v.p[e.1]));
        }
    }
    for (e, f) in got {
        out.push(format!("force {:?} on {:?} - {:?} where none is", f, v.p[e.0], v.p[e.1]));
    }
    if v.conc > 0 {
        out.push("a concentrated force that was not given".into());
    }
    for ((k, i), c) in single {
        let p = r.polys[*k][*i];
        if let Some(q) = (0..v.p.len()).find(|&q| v.p[q] == p) {
            hold.entry(q).or_default().push(*c);
        }
    }
    for q in 0..v.p.len() {
        let w = merge(hold.get(&q).map_or(&[][..], |h| &h[..]));
        if v.cons[q] != w {
            out.push(format!("node {:?} is held by {:?} instead of {:?}", v.p[q], v.cons[q], w));
        }
    }
    out
}
