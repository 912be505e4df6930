//! Model generator and an independent reference for linear triangle finite elements.
use crate::dense::M;
use crate::Rng;
use bugi::element::constraint::Constraint;
use bugi::element::material::Material;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};

pub type V2 = (f64, f64);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cond {
    Stress(f64),
    Strain(f64),
    Axi,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub kind: String,
    pub pts: Vec<V2>,
    pub tris: Vec<[usize; 3]>,
    pub cond: Cond,
    pub e: f64,
    pub nu: f64,
    pub rho: f64,
    pub name: &'static str,
    /// constraint additions, in order
    pub cons: Vec<(usize, Constraint)>,
    pub conc: Vec<(usize, V2)>,
    pub line: Vec<((usize, usize), V2)>,
}

pub fn area2(a: V2, b: V2, c: V2) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}

fn dist(a: V2, b: V2) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}

impl Cond {
    pub fn to_bugi(self) -> Condition {
        match self {
            Cond::Stress(t) => Condition::PlaneStress(t),
            Cond::Strain(t) => Condition::PlaneStrain(t),
            Cond::Axi => Condition::Axisymmetric,
        }
    }
    pub fn thick(self, r: f64) -> f64 {
        match self {
            Cond::Stress(t) | Cond::Strain(t) => t,
            Cond::Axi => r,
        }
    }
}

/// full 3D isotropic law: strain (xx, yy, engineering xy, zz) -> stress (xx, yy, xy, zz)
pub fn law(cond: Cond, e: f64, nu: f64, s: [f64; 4]) -> [f64; 4] {
    let lam = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
    let mu = e / (2.0 * (1.0 + nu));
    let (exx, eyy, gxy) = (s[0], s[1], s[2]);
    let ezz = match cond {
        // plane stress: zz strain follows from zero zz stress
        Cond::Stress(_) => -lam / (lam + 2.0 * mu) * (exx + eyy),
        Cond::Strain(_) => 0.0,
        Cond::Axi => s[3],
    };
    let tr = exx + eyy + ezz;
    [lam * tr + 2.0 * mu * exx, lam * tr + 2.0 * mu * eyy, mu * gxy, lam * tr + 2.0 * mu * ezz]
}

/// gradients of the three linear shape functions, and twice the signed area
pub fn grads(p: [V2; 3]) -> ([V2; 3], f64) {
    let d = area2(p[0], p[1], p[2]);
    let g = |i: usize| {
        let (a, b) = (p[(i + 1) % 3], p[(i + 2) % 3]);
        ((a.1 - b.1) / d, (b.0 - a.0) / d)
    };
    ([g(0), g(1), g(2)], d)
}

/// strain of an element for nodal displacements at barycentric position w
pub fn strain(p: [V2; 3], u: [V2; 3], w: [f64; 3], axi: bool) -> [f64; 4] {
    let (g, _) = grads(p);
    let mut s = [0.0; 4];
    for i in 0..3 {
        s[0] += g[i].0 * u[i].0;
        s[1] += g[i].1 * u[i].1;
        s[2] += g[i].1 * u[i].0 + g[i].0 * u[i].1;
    }
    if axi {
        let r: f64 = (0..3).map(|i| w[i] * p[i].0).sum();
        let ur: f64 = (0..3).map(|i| w[i] * u[i].0).sum();
        s[3] = ur / r;
    }
    s
}

fn tri_rule(fine: bool) -> Vec<([f64; 3], f64)> {
    if !fine {
        let (a, b) = (1.0 / 6.0, 2.0 / 3.0);
        return vec![
            ([b, a, a], 1.0 / 3.0),
            ([a, b, a], 1.0 / 3.0),
            ([a, a, b], 1.0 / 3.0),
        ];
    }
    // midpoint of a 24x24 subdivision's cells with the 3-point rule in each: accurate to ~1e-8 for smooth fields
    let n = 24;
    let mut out = Vec::new();
    let base = tri_rule(false);
    let h = 1.0 / n as f64;
    for i in 0..n {
        for j in 0..n - i {
            let mut cell = |v: [(f64, f64); 3]| {
                for (w, wt) in &base {
                    let x: f64 = (0..3).map(|k| w[k] * v[k].0).sum();
                    let y: f64 = (0..3).map(|k| w[k] * v[k].1).sum();
                    out.push(([1.0 - x - y, x, y], wt * h * h));
                }
            };
            let (x, y) = (i as f64 * h, j as f64 * h);
            cell([(x, y), (x + h, y), (x, y + h)]);
            if i + j + 2 <= n {
                cell([(x + h, y + h), (x + h, y), (x, y + h)]);
            }
        }
    }
    out
}

impl Model {
    pub fn n(&self) -> usize {
        self.pts.len()
    }

    pub fn material(&self) -> Material {
        Material { name: self.name, youngs: self.e, poisson: self.nu, density: self.rho }
    }

    pub fn build(&self) -> ElementAssemblage {
        let mut el = ElementAssemblage::new(self.material(), self.cond.to_bugi());
        let ids = el.add_nodes(&self.pts);
        for t in &self.tris {
            el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
        }
        for &(n, c) in &self.cons {
            el.add_constraint(ids[n], c);
        }
        for &(n, f) in &self.conc {
            el.add_conc_force(ids[n], f.into());
        }
        for &((a, b), f) in &self.line {
            el.add_dist_line_force(ids[a], ids[b], f.into());
        }
        el
    }

    pub fn edge_len(&self, a: usize, b: usize) -> f64 {
        dist(self.pts[a], self.pts[b])
    }

    /// stiffness of one element, by node and direction
    pub fn elem_k(&self, t: &[usize; 3], rule: &[([f64; 3], f64)]) -> [[f64; 6]; 6] {
        let axi = self.cond == Cond::Axi;
        let p = [self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]];
        let (_, d) = grads(p);
        let a = d.abs() / 2.0;
        let mut k = [[0.0; 6]; 6];
        for (w, wt) in rule {
            let r: f64 = (0..3).map(|i| w[i] * p[i].0).sum();
            // columns: unit displacement of each of the six dofs
            let mut eps = [[0.0; 4]; 6];
            let mut sig = [[0.0; 4]; 6];
            for c in 0..6 {
                let mut u = [(0.0, 0.0); 3];
                if c % 2 == 0 {
                    u[c / 2].0 = 1.0;
                } else {
                    u[c / 2].1 = 1.0;
                }
                eps[c] = strain(p, u, *w, axi);
                sig[c] = law(self.cond, self.e, self.nu, eps[c]);
            }
            for i in 0..6 {
                for j in 0..6 {
                    let mut s = 0.0;
                    for q in 0..4 {
                        // zz does work only in the axisymmetric case
                        if q < 3 || axi {
                            s += eps[i][q] * sig[j][q];
                        }
                    }
                    k[i][j] += s * a * wt * self.cond.thick(r);
                }
            }
        }
        k
    }

    fn rule(&self, fine: bool) -> Vec<([f64; 3], f64)> {
        if self.cond == Cond::Axi {
            tri_rule(fine)
        } else {
            vec![([1.0 / 3.0; 3], 1.0)]
        }
    }

    /// reference global stiffness; `fine` integrates the axisymmetric terms almost exactly
    pub fn k(&self, fine: bool) -> M {
        let n = self.n();
        let mut k = M::new(2 * n, 2 * n);
        let rule = self.rule(fine);
        for t in &self.tris {
            let e = self.elem_k(t, &rule);
            for i in 0..6 {
                for j in 0..6 {
                    k.add(2 * t[i / 2] + i % 2, 2 * t[j / 2] + j % 2, e[i][j]);
                }
            }
        }
        k
    }

    /// the nodal forces of a displacement field, element by element, and the largest row sum of stiffness magnitudes
    pub fn forces(&self, u: &[V2], fine: bool) -> (Vec<f64>, f64) {
        let mut f = vec![0.0; 2 * self.n()];
        let mut s = vec![0.0; 2 * self.n()];
        let rule = self.rule(fine);
        for t in &self.tris {
            let e = self.elem_k(t, &rule);
            for i in 0..6 {
                let at = 2 * t[i / 2] + i % 2;
                for j in 0..6 {
                    let d = u[t[j / 2]];
                    f[at] += e[i][j] * if j % 2 == 0 { d.0 } else { d.1 };
                    s[at] += e[i][j].abs();
                }
            }
        }
        let top = s.iter().cloned().fold(0.0, f64::max);
        (f, top)
    }

    /// reference consistent mass
    pub fn m(&self) -> M {
        let n = self.n();
        let mut m = M::new(2 * n, 2 * n);
        for t in &self.tris {
            let p = [self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]];
            let a = area2(p[0], p[1], p[2]).abs() / 2.0;
            let f = match self.cond {
                Cond::Axi => {
                    // 3-point rule on h_i h_j r
                    for (w, wt) in tri_rule(false) {
                        let r: f64 = (0..3).map(|i| w[i] * p[i].0).sum();
                        for i in 0..3 {
                            for j in 0..3 {
                                for d in 0..2 {
                                    m.add(2 * t[i] + d, 2 * t[j] + d, self.rho * a * wt * r * w[i] * w[j]);
                                }
                            }
                        }
                    }
                    continue;
                }
                Cond::Stress(th) | Cond::Strain(th) => self.rho * th * a / 12.0,
            };
            for i in 0..3 {
                for j in 0..3 {
                    for d in 0..2 {
                        m.add(2 * t[i] + d, 2 * t[j] + d, if i == j { 2.0 * f } else { f });
                    }
                }
            }
        }
        m
    }

    /// reference nodal loads: concentrated plus distributed (force per length times length, half to each end)
    pub fn load(&self) -> Vec<f64> {
        let mut r = vec![0.0; 2 * self.n()];
        for &(n, f) in &self.conc {
            r[2 * n] += f.0;
            r[2 * n + 1] += f.1;
        }
        for &((a, b), f) in &self.line {
            let l = self.edge_len(a, b);
            for n in [a, b] {
                r[2 * n] += 0.5 * l * f.0;
                r[2 * n + 1] += 0.5 * l * f.1;
            }
        }
        r
    }

    /// the constraint each node ends up with (union of plain directions; plain wins over skew)
    pub fn final_cons(&self) -> Vec<Constraint> {
        let mut x = vec![false; self.n()];
        let mut y = vec![false; self.n()];
        let mut ang: Vec<Option<f64>> = vec![None; self.n()];
        for &(n, c) in &self.cons {
            match c {
                Constraint::XFixed => x[n] = true,
                Constraint::YFixed => y[n] = true,
                Constraint::XYFixed => {
                    x[n] = true;
                    y[n] = true;
                }
                Constraint::AngleFixed(a) => ang[n] = Some(a),
                Constraint::Free => {}
            }
        }
        (0..self.n())
            .map(|i| match (x[i], y[i], ang[i]) {
                (true, true, _) => Constraint::XYFixed,
                (true, false, _) => Constraint::XFixed,
                (false, true, _) => Constraint::YFixed,
                (false, false, Some(a)) => Constraint::AngleFixed(a),
                _ => Constraint::Free,
            })
            .collect()
    }

    /// orthonormal basis of the allowed displacements, one column per free direction: (node, unit vector)
    pub fn free_dirs(&self) -> Vec<(usize, V2)> {
        let mut out = Vec::new();
        for (i, c) in self.final_cons().into_iter().enumerate() {
            match c {
                Constraint::Free => {
                    out.push((i, (1.0, 0.0)));
                    out.push((i, (0.0, 1.0)));
                }
                Constraint::XFixed => out.push((i, (0.0, 1.0))),
                Constraint::YFixed => out.push((i, (1.0, 0.0))),
                Constraint::XYFixed => {}
                Constraint::AngleFixed(a) => out.push((i, (-a.sin(), a.cos()))),
            }
        }
        out
    }

    /// projects a full symmetric matrix onto the free directions
    pub fn project(&self, k: &M) -> M {
        let d = self.free_dirs();
        let q = |a: (usize, V2), b: (usize, V2)| {
            let (i, u) = a;
            let (j, v) = b;
            u.0 * (k.at(2 * i, 2 * j) * v.0 + k.at(2 * i, 2 * j + 1) * v.1)
                + u.1 * (k.at(2 * i + 1, 2 * j) * v.0 + k.at(2 * i + 1, 2 * j + 1) * v.1)
        };
        M::from_fn(d.len(), d.len(), |i, j| q(d[i], d[j]))
    }

    pub fn project_vec(&self, r: &[f64]) -> Vec<f64> {
        self.free_dirs().iter().map(|&(i, u)| u.0 * r[2 * i] + u.1 * r[2 * i + 1]).collect()
    }

    pub fn expand(&self, z: &[f64]) -> Vec<f64> {
        let mut u = vec![0.0; 2 * self.n()];
        for (&(i, d), x) in self.free_dirs().iter().zip(z) {
            u[2 * i] += d.0 * x;
            u[2 * i + 1] += d.1 * x;
        }
        u
    }

    /// worst |constraint . displacement|
    pub fn constraint_error(&self, u: &[V2]) -> f64 {
        self.final_cons()
            .into_iter()
            .zip(u)
            .map(|(c, d)| match c {
                Constraint::Free => 0.0,
                Constraint::XFixed => d.0.abs(),
                Constraint::YFixed => d.1.abs(),
                Constraint::XYFixed => d.0.abs().max(d.1.abs()),
                Constraint::AngleFixed(a) => (d.0 * a.cos() + d.1 * a.sin()).abs(),
            })
            .fold(0.0, f64::max)
    }

    pub fn describe(&self) -> String {
        let mut s = format!(
            "{} {:?} E={:e} nu={} rho={} nodes={} tris={}",
            self.kind,
            self.cond,
            self.e,
            self.nu,
            self.rho,
            self.n(),
            self.tris.len()
        );
        if self.n() <= 9 {
            s += &format!(" pts={:?} tris={:?}", self.pts, self.tris);
        }
        if self.n() > 60 {
            return s + &format!(" {} constraints, {} point loads, {} edge loads", self.cons.len(), self.conc.len(), self.line.len());
        }
        s += &format!(" cons={:?} conc={:?} line={:?}", self.cons, self.conc, self.line);
        s
    }

    pub fn edges(&self) -> Vec<((usize, usize), usize)> {
        // undirected edges with the number of triangles on each
        let mut v: Vec<(usize, usize)> = Vec::new();
        for t in &self.tris {
            for i in 0..3 {
                let (a, b) = (t[i], t[(i + 1) % 3]);
                v.push((a.min(b), a.max(b)));
            }
        }
        v.sort();
        let mut out: Vec<((usize, usize), usize)> = Vec::new();
        for e in v {
            match out.last_mut() {
                Some(l) if l.0 == e => l.1 += 1,
                _ => out.push((e, 1)),
            }
        }
        out
    }

    pub fn area(&self) -> f64 {
        self.tris.iter().map(|t| area2(self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]).abs() / 2.0).sum()
    }

    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.n()];
        for t in &self.tris {
            for &i in t {
                u[i] = true;
            }
        }
        u
    }
}

/// A model of hundreds of nodes, supported all over so that it stays well conditioned, with loads all over.
pub fn gen_large(rng: &mut Rng, nodes: usize, axi: bool, angles: bool) -> Model {
    let (e, nu, rho, name) = gen_material(rng);
    let mut pts: Vec<V2> = Vec::new();
    let mut tris: Vec<[usize; 3]> = Vec::new();
    let kind = rng.below(3);
    let kind = if kind == 2 {
        // a wheel: one node that every element shares, and a ring of more elements around it
        let n = (nodes / 2).max(4);
        pts.push((0.0, 0.0));
        for (r, turn) in [(1.0, 0.0), (1.3, 0.5)] {
            for i in 0..n {
                let t = (i as f64 + turn + rng.f(-0.1, 0.1)) * std::f64::consts::TAU / n as f64;
                pts.push((r * t.cos(), r * t.sin()));
            }
        }
        for i in 0..n {
            let j = (i + 1) % n;
            tris.push([0, 1 + i, 1 + j]);
            tris.push([1 + i, 1 + n + i, 1 + j]);
            tris.push([1 + j, 1 + n + i, 1 + n + j]);
        }
        "wheel"
    } else {
        let ny = if kind == 0 { (nodes as f64).sqrt() as usize } else { rng.range(1, 3) };
        let nx = (nodes / (ny + 1)).max(2) - 1;
        for j in 0..=ny {
            for i in 0..=nx {
                pts.push((i as f64 + rng.f(-0.22, 0.22), j as f64 + rng.f(-0.22, 0.22)));
            }
        }
        for j in 0..ny {
            for i in 0..nx {
                let a = j * (nx + 1) + i;
                let (b, c, d) = (a + 1, a + nx + 2, a + nx + 1);
                if rng.chance(0.5) {
                    tris.push([a, b, c]);
                    tris.push([a, c, d]);
                } else {
                    tris.push([a, b, d]);
                    tris.push([b, c, d]);
                }
            }
        }
        ["large grid", "long strip"][kind]
    };
    let n = pts.len();
    let s = rng.logf(0.01, 10.0);
    let (tx, ty) = (s * rng.f(-3.0, 3.0), s * rng.f(-3.0, 3.0));
    for p in pts.iter_mut() {
        *p = (s * p.0 + tx, s * p.1 + ty);
    }
    let cond = match rng.below(if axi { 3 } else { 2 }) {
        0 => Cond::Stress(s * rng.logf(0.01, 1.0)),
        1 => Cond::Strain(s * rng.logf(0.01, 1.0)),
        _ => {
            let m = pts.iter().map(|p| p.0).fold(f64::MAX, f64::min);
            let shift = s * rng.f(1.0, 5.0) - m;
            pts.iter_mut().for_each(|p| p.0 += shift);
            Cond::Axi
        }
    };
    if rng.chance(0.8) {
        let p = rng.perm(n);
        let mut q = pts.clone();
        (0..n).for_each(|i| q[p[i]] = pts[i]);
        pts = q;
        tris.iter_mut().for_each(|t| t.iter_mut().for_each(|i| *i = p[*i]));
        rng.shuffle(&mut tris);
    }
    if rng.chance(0.5) {
        for t in tris.iter_mut() {
            if rng.chance(0.5) {
                t.swap(1, 2);
            }
        }
    }
    let mut m = Model { kind: kind.to_string(), pts, tris, cond, e, nu, rho, name, cons: vec![], conc: vec![], line: vec![] };
    let share = *rng.pick(&[0.1, 0.25, 0.6]);
    for i in 0..n {
        if rng.chance(share) {
            let k = match rng.below(if angles { 6 } else { 4 }) {
                0 => Constraint::XFixed,
                1 => Constraint::YFixed,
                2 | 3 => Constraint::XYFixed,
                _ => Constraint::AngleFixed(rng.f(-7.0, 7.0)),
            };
            m.cons.push((i, k));
        }
    }
    // held fast at a few nodes of one element at least
    for i in m.tris[0] {
        m.cons.retain(|c| c.0 != i);
        m.cons.push((i, Constraint::XYFixed));
    }
    rng.shuffle(&mut m.cons);
    let f = rng.logf(1e-3, 1e6);
    let share = *rng.pick(&[0.02, 0.3, 0.9]);
    for i in rng.perm(n) {
        if rng.chance(share) {
            let v = along(rng, f);
            m.conc.push((i, v));
        }
    }
    let mut es = m.edges();
    rng.shuffle(&mut es);
    for (e, _) in es {
        if rng.chance(share) {
            let l = m.edge_len(e.0, e.1);
            let v = along(rng, f / l);
            m.line.push((if rng.chance(0.5) { e } else { (e.1, e.0) }, v));
        }
    }
    m.conc.push((rng.below(n), (f, f)));
    m
}

pub struct GenOpts {
    pub max_cells: usize,
    pub axi: bool,
    pub angles: bool,
    pub flips: bool,
    pub unused: bool,
    /// share of models made of several alike parts that share no node
    pub parts: f64,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { max_cells: 5, axi: true, angles: true, flips: true, unused: true, parts: 0.05 }
    }
}

/// Random mesh: structured grids with jitter, holes and random diagonals, strips, fans, single triangles.
pub fn gen_mesh(rng: &mut Rng, o: &GenOpts) -> (String, Vec<V2>, Vec<[usize; 3]>) {
    let kind = rng.below(8);
    // drawn on squared paper: square cells, edges along the axes, the origin at a node
    let plain = rng.chance(0.2);
    let j = if plain { 0.0 } else { 1.0 };
    let (mut pts, mut tris, name): (Vec<V2>, Vec<[usize; 3]>, &str);
    match kind {
        0 => {
            // one triangle
            loop {
                let mut p = vec![(rng.sym(), rng.sym()), (rng.sym(), rng.sym()), (rng.sym(), rng.sym())];
                if plain {
                    p.iter_mut().for_each(|p| *p = ((2.0 * p.0).round(), (2.0 * p.1).round()));
                }
                if area2(p[0], p[1], p[2]).abs() > 0.2 {
                    pts = p;
                    break;
                }
            }
            tris = vec![[0, 1, 2]];
            name = "single";
        }
        1 => {
            // fan around a centre, closed or open
            let n = rng.range(3, 8);
            let closed = rng.chance(0.6);
            pts = vec![(0.0, 0.0)];
            for i in 0..n {
                let t = i as f64 * std::f64::consts::TAU / n as f64;
                let r = 1.0 + j * rng.f(-0.3, 0.3);
                pts.push((r * t.cos(), r * t.sin()));
            }
            tris = Vec::new();
            let m = if closed { n } else { n - 1 };
            for i in 0..m {
                tris.push([0, 1 + i, 1 + (i + 1) % n]);
            }
            name = "fan";
        }
        2 => {
            // strip as in the repository's own example
            let n = rng.range(2, 4 * o.max_cells.max(2));
            pts = Vec::new();
            for i in 0..=n {
                let x = i as f64 * 0.5 + j * rng.f(-0.1, 0.1);
                pts.push((x, if i % 2 == 0 { 0.0 } else { 1.0 } + j * rng.f(-0.1, 0.1)));
            }
            tris = (0..n - 1).map(|i| [i, i + 1, i + 2]).collect();
            name = "strip";
        }
        _ => {
            let nx = rng.range(1, o.max_cells);
            let ny = rng.range(1, o.max_cells);
            let holes = nx * ny > 6 && rng.chance(0.4);
            pts = Vec::new();
            for y in 0..=ny {
                for x in 0..=nx {
                    pts.push((x as f64 + j * rng.f(-0.22, 0.22), y as f64 + j * rng.f(-0.22, 0.22)));
                }
            }
            let id = |i: usize, j: usize| j * (nx + 1) + i;
            tris = Vec::new();
            for j in 0..ny {
                for i in 0..nx {
                    if holes && i > 0 && j > 0 && i + 1 < nx && j + 1 < ny && rng.chance(0.5) {
                        continue;
                    }
                    let (a, b, c, d) = (id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1));
                    if rng.chance(0.5) {
                        tris.push([a, b, c]);
                        tris.push([a, c, d]);
                    } else {
                        tris.push([a, b, d]);
                        tris.push([b, c, d]);
                    }
                }
            }
            name = if holes { "grid with holes" } else { "grid" };
        }
    }
    // drop nodes no triangle uses, optionally keep one
    let mut used = vec![false; pts.len()];
    for t in &tris {
        for &i in t {
            used[i] = true;
        }
    }
    let mut map = vec![usize::MAX; pts.len()];
    let mut np = Vec::new();
    for i in 0..pts.len() {
        if used[i] {
            map[i] = np.len();
            np.push(pts[i]);
        }
    }
    pts = np;
    for t in tris.iter_mut() {
        for i in t.iter_mut() {
            *i = map[*i];
        }
    }
    if o.unused && rng.chance(0.1) {
        pts.push((rng.sym(), rng.sym()));
    }
    // affine map of bounded distortion
    let th = rng.f(0.0, std::f64::consts::TAU);
    let s = if rng.chance(0.2) { rng.logf(1e-8, 1e8) } else { rng.logf(0.01, 100.0) };
    let sy = s * rng.f(0.5, 2.0);
    let sh = rng.f(-0.4, 0.4);
    let (tx, ty) = (s * rng.f(-3.0, 3.0), s * rng.f(-3.0, 3.0));
    let at = *rng.pick(&pts);
    let turn = rng.below(4);
    let unit = *rng.pick(&[1.0, 1.0, 0.5, 2.0, 10.0, 0.1, 25.4]);
    for p in pts.iter_mut() {
        if plain {
            let (x, y) = (unit * (p.0 - at.0), unit * (p.1 - at.1));
            *p = [(x, y), (-y, x), (-x, -y), (y, -x)][turn];
            continue;
        }
        let (x, y) = (s * (p.0 + sh * p.1), sy * p.1);
        *p = (x * th.cos() - y * th.sin() + tx, x * th.sin() + y * th.cos() + ty);
    }
    // renumber nodes, shuffle elements, rotate and flip their node lists
    if rng.chance(0.7) {
        let p = rng.perm(pts.len());
        let mut q = vec![(0.0, 0.0); pts.len()];
        for i in 0..pts.len() {
            q[p[i]] = pts[i];
        }
        pts = q;
        for t in tris.iter_mut() {
            for i in t.iter_mut() {
                *i = p[*i];
            }
        }
        rng.shuffle(&mut tris);
    }
    let flip_all = o.flips && rng.chance(0.3);
    let mixed = o.flips && rng.chance(0.5);
    for t in tris.iter_mut() {
        let r = rng.below(3);
        t.rotate_left(r);
        let ccw = area2(pts[t[0]], pts[t[1]], pts[t[2]]) > 0.0;
        let want_cw = flip_all || (mixed && rng.chance(0.5));
        if ccw == want_cw {
            t.swap(1, 2);
        }
    }
    let name = format!("{}{}{}", if plain { "plain " } else { "" }, name, if mixed { " mixed orientation" } else if flip_all { " clockwise" } else { "" });
    (name, pts, tris)
}

/// what the named materials are: aluminium 6061 in SI units, and a unit material
pub fn named_material(name: &str) -> Option<Material> {
    match name {
        "AL6061" => Some(Material { name: "AL6061", youngs: 68.9e9, poisson: 0.33, density: 2700.0 }),
        "TEST" => Some(Material { name: "TEST", youngs: 1.0, poisson: 0.0, density: 1.0 }),
        _ => None,
    }
}

pub fn gen_material(rng: &mut Rng) -> (f64, f64, f64, &'static str) {
    match rng.below(4) {
        k if k < 2 => {
            let m = named_material(["AL6061", "TEST"][k]).unwrap();
            (m.youngs, m.poisson, m.density, m.name)
        }
        _ => {
            // materials that widen when stretched are rare, but lawful
            let nu = if rng.chance(0.15) { rng.f(-0.8, 0.0) } else { rng.f(0.0, 0.45) };
            (rng.logf(1e-2, 1e12), nu, rng.logf(0.1, 1e4), "RANDOM")
        }
    }
}

/// A random, properly constrained, reasonably conditioned model with loads.
pub fn gen_model(rng: &mut Rng, o: &GenOpts) -> Model {
    loop {
        let (kind, mut pts, mut tris) = gen_mesh(rng, o);
        // plates may lie on each other: now and then an element is there twice
        if rng.chance(0.02) {
            let [a, b, c] = *rng.pick(&tris);
            let p = rng.below(3);
            tris.push([[a, b, c], [b, c, a], [c, a, b]][p]);
        }
        let (e, nu, rho, name) = gen_material(rng);
        let size = {
            let xs: Vec<f64> = pts.iter().map(|p| p.0).collect();
            let ys: Vec<f64> = pts.iter().map(|p| p.1).collect();
            let sp = |v: &[f64]| v.iter().cloned().fold(f64::MIN, f64::max) - v.iter().cloned().fold(f64::MAX, f64::min);
            sp(&xs).max(sp(&ys))
        };
        let cond = match rng.below(if o.axi { 5 } else { 4 }) {
            0 | 1 => Cond::Stress(size * rng.logf(0.01, 1.0)),
            2 | 3 => Cond::Strain(size * rng.logf(0.01, 1.0)),
            _ => {
                let m = pts.iter().map(|p| p.0).fold(f64::MAX, f64::min);
                let shift = size * rng.f(0.1, 2.0) - m;
                for p in pts.iter_mut() {
                    p.0 += shift;
                }
                Cond::Axi
            }
        };
        let mut m = Model { kind, pts, tris, cond, e, nu, rho, name, cons: vec![], conc: vec![], line: vec![] };
        let used = m.used();
        let n = m.n();
        let k = rng.range(2, 3 + n / 2);
        for i in 0..n {
            if !used[i] {
                m.cons.push((i, Constraint::XYFixed));
            }
        }
        for _ in 0..k {
            let i = rng.below(n);
            let c = match rng.below(if o.angles { 5 } else { 4 }) {
                0 => Constraint::XFixed,
                1 => Constraint::YFixed,
                2 | 3 => Constraint::XYFixed,
                _ => Constraint::AngleFixed(rng.f(-7.0, 7.0)),
            };
            // skew constraints are combined with nothing else here (C12 covers accumulation)
            if let Constraint::AngleFixed(_) = c {
                if m.cons.iter().any(|x| x.0 == i) {
                    continue;
                }
            } else if m.cons.iter().any(|x| x.0 == i && matches!(x.1, Constraint::AngleFixed(_))) {
                continue;
            }
            m.cons.push((i, c));
        }
        if m.free_dirs().is_empty() {
            continue;
        }
        let kp = m.project(&m.k(false));
        let sc = kp.max();
        if crate::dense::chol(&kp.scale(1.0 / sc)).is_none() || crate::dense::cond(&kp) > 1e7 {
            continue;
        }
        if rng.chance(o.parts) && m.n() <= 20 {
            repeat(rng, &mut m, size);
        }
        gen_loads(rng, &mut m);
        return m;
    }
}

/// several alike parts, with their nodes numbered anyhow
fn repeat(rng: &mut Rng, m: &mut Model, size: f64) {
    let n = m.n();
    let k = if n <= 4 && rng.chance(0.25) { rng.range(4, 10) } else { rng.range(2, 3) };
    let at = rng.perm(n * k);
    let apart = if rng.chance(0.5) { 0.0 } else { size * rng.f(1.0, 3.0) };
    let mut pts = vec![(0.0, 0.0); n * k];
    let (mut tris, mut cons) = (vec![], vec![]);
    for q in 0..k {
        for i in 0..n {
            // bodies of revolution are moved along the axis
            let p = m.pts[i];
            let s = apart * q as f64;
            pts[at[q * n + i]] = (if m.cond == Cond::Axi { p.0 } else { p.0 - s }, p.1 + s);
        }
        tris.extend(m.tris.iter().map(|t| [at[q * n + t[0]], at[q * n + t[1]], at[q * n + t[2]]]));
        cons.extend(m.cons.iter().map(|c| (at[q * n + c.0], c.1)));
    }
    rng.shuffle(&mut tris);
    m.pts = pts;
    m.tris = tris;
    m.cons = cons;
    m.kind += &format!(" in {} parts", k);
}

/// a load, now and then along an axis
fn along(rng: &mut Rng, f: f64) -> V2 {
    let v = (f * rng.sym(), f * rng.sym());
    match rng.below(6) {
        0 => (v.0, 0.0),
        1 => (0.0, v.1),
        _ => v,
    }
}

pub fn gen_loads(rng: &mut Rng, m: &mut Model) {
    let f = rng.logf(1e-3, 1e6);
    let n = m.n();
    m.conc.clear();
    m.line.clear();
    let vec = |rng: &mut Rng| match rng.below(4) {
        0 => (f * rng.sym(), 0.0),
        1 => (0.0, f * rng.sym()),
        _ => (f * rng.sym(), f * rng.sym()),
    };
    let which = rng.below(6);
    if which != 1 {
        for i in rng.perm(n).into_iter().take(rng.range(1, 3)) {
            let v = vec(rng);
            m.conc.push((i, v));
        }
    }
    if which != 0 {
        let mut es = m.edges();
        rng.shuffle(&mut es);
        let k = rng.range(1, 4);
        // prefer edges that touch each other and loaded nodes
        for (e, _) in es.into_iter().take(k) {
            let v = vec(rng);
            let v = (v.0 / m.edge_len(e.0, e.1), v.1 / m.edge_len(e.0, e.1));
            m.line.push((if rng.chance(0.5) { e } else { (e.1, e.0) }, v));
        }
        // a load on the edge next to an already loaded one
        if rng.chance(0.5) {
            let (a, _) = m.line[0].0;
            if let Some((e, _)) = m
                .edges()
                .into_iter()
                .find(|(e, _)| (e.0 == a || e.1 == a) && !m.line.iter().any(|l| l.0 == *e || l.0 == (e.1, e.0)))
            {
                let v = vec(rng);
                m.line.push((e, v));
            }
        }
    }
    // loads a node carries together: 5 always puts a point force at the end of a loaded edge
    if which == 5 && !m.line.is_empty() {
        let a = m.line[0].0 .0;
        if !m.conc.iter().any(|c| c.0 == a) {
            let v = vec(rng);
            m.conc.push((a, v));
        }
    }
    if rng.chance(0.03) {
        for c in m.conc.iter_mut() {
            c.1 = (0.0, 0.0);
        }
        for c in m.line.iter_mut() {
            c.1 = (0.0, 0.0);
        }
    }
}

/// the model with something added at the end of its lists: elements on old or new nodes, constraints, loads
pub fn grow(rng: &mut Rng, m: &Model) -> Option<Model> {
    let mut g = m.clone();
    let used = m.used();
    let taken = |m: &Model, i: usize| m.cons.iter().any(|x| x.0 == i);
    let skew = |m: &Model, i: usize| m.cons.iter().any(|x| x.0 == i && matches!(x.1, Constraint::AngleFixed(_)));
    for _ in 0..rng.range(1, 3) {
        match rng.below(6) {
            0 | 1 => {
                // an element on a new node beside the border
                let es: Vec<_> = g.edges().into_iter().filter(|e| e.1 == 1).collect();
                if es.is_empty() {
                    continue;
                }
                let (a, b) = rng.pick(&es).0;
                let t = g.tris.iter().find(|t| t.contains(&a) && t.contains(&b))?;
                let o = *t.iter().find(|&&i| i != a && i != b)?;
                let p = (g.pts[a].0 + g.pts[b].0 - g.pts[o].0, g.pts[a].1 + g.pts[b].1 - g.pts[o].1);
                if g.cond == Cond::Axi && p.0 <= 0.2 * g.pts[a].0.min(g.pts[b].0) {
                    continue;
                }
                g.pts.push(p);
                let mut t = [a, b, g.n() - 1];
                rng.shuffle(&mut t);
                g.tris.push(t);
            }
            2 | 3 => {
                // an element between nodes already there
                let v: Vec<usize> = rng.perm(m.n()).into_iter().filter(|&i| used[i]).take(3).collect();
                if v.len() < 3 || g.tris.iter().any(|t| v.iter().all(|i| t.contains(i))) {
                    continue;
                }
                let l = (0..3).map(|i| g.edge_len(v[i], v[(i + 1) % 3])).fold(0.0, f64::max);
                if area2(g.pts[v[0]], g.pts[v[1]], g.pts[v[2]]).abs() > 0.1 * l * l {
                    g.tris.push([v[0], v[1], v[2]]);
                }
            }
            4 => {
                let i = rng.below(g.n());
                if rng.chance(0.5) {
                    if !skew(&g, i) {
                        let k = *rng.pick(&[Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed]);
                        g.cons.push((i, k));
                    }
                } else if !taken(&g, i) {
                    g.cons.push((i, Constraint::AngleFixed(rng.f(-7.0, 7.0))));
                }
            }
            _ => {
                let f = maxabs2(&g.load()).max(1e-3);
                let v = along(rng, f);
                if rng.chance(0.5) {
                    g.conc.push((rng.below(g.n()), v));
                } else {
                    let (e, _) = *rng.pick(&g.edges());
                    let l = g.edge_len(e.0, e.1);
                    if !g.line.iter().any(|x| x.0 == e || x.0 == (e.1, e.0)) {
                        g.line.push((e, (v.0 / l, v.1 / l)));
                    }
                }
            }
        }
    }
    let same = g.n() == m.n() && g.tris.len() == m.tris.len() && g.cons.len() == m.cons.len() && g.conc.len() == m.conc.len() && g.line.len() == m.line.len();
    if same || g.free_dirs().is_empty() {
        return None;
    }
    let kp = g.project(&g.k(false));
    let sc = kp.max();
    if crate::dense::chol(&kp.scale(1.0 / sc)).is_none() || crate::dense::cond(&kp) > 1e7 {
        return None;
    }
    Some(g)
}

fn maxabs2(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, x| x.abs().max(a))
}

/// adds to an assemblage built from `m` what `g` has more
pub fn extend(el: &mut ElementAssemblage, m: &Model, g: &Model) {
    let mut ids: Vec<NodeId> = el.node_ids().collect();
    if g.n() > m.n() {
        ids.extend(el.add_nodes(&g.pts[m.n()..]));
    }
    for t in &g.tris[m.tris.len()..] {
        el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
    }
    for &(n, c) in &g.cons[m.cons.len()..] {
        el.add_constraint(ids[n], c);
    }
    for &(n, f) in &g.conc[m.conc.len()..] {
        el.add_conc_force(ids[n], f.into());
    }
    for &((a, b), f) in &g.line[m.line.len()..] {
        el.add_dist_line_force(ids[a], ids[b], f.into());
    }
}

pub fn disp_of(d: &bugi::element::Deformation<'_>, m: &Model) -> Vec<V2> {
    // a huge scale factor keeps the node positions from swamping the displacements
    let s = 2f64.powi(300);
    d.displaced_nodes(s).iter().zip(&m.pts).map(|(q, p)| ((q[0] - p.0) / s, (q[1] - p.1) / s)).collect()
}

pub fn node(i: usize) -> NodeId {
    NodeId::new(i)
}

pub fn flat(u: &[V2]) -> Vec<f64> {
    u.iter().flat_map(|d| [d.0, d.1]).collect()
}

/// equilibrium residual of displacements on the free directions, relative to the forces involved
pub fn residual(m: &Model, k: &M, r: &[f64], u: &[V2]) -> f64 {
    let uf = flat(u);
    let f = k.mulv(&uf);
    let d: Vec<f64> = f.iter().zip(r).map(|(a, b)| a - b).collect();
    let num = crate::dense::maxabs(&m.project_vec(&d));
    let den = k.inf() * crate::dense::maxabs(&uf) + crate::dense::maxabs(r);
    if num == 0.0 {
        0.0
    } else {
        num / den
    }
}
