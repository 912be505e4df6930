//! Independent dense linear algebra used as the reference; shares no code with bugi.
use crate::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub a: Vec<f64>,
}

impl M {
    pub fn new(r: usize, c: usize) -> Self {
        M { r, c, a: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> Self {
        let mut m = M::new(n, n);
        for i in 0..n {
            m.set(i, i, 1.0);
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> f64) -> Self {
        let mut m = M::new(r, c);
        for i in 0..r {
            for j in 0..c {
                m.set(i, j, f(i, j));
            }
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, x: f64) {
        self.a[i * self.c + j] = x;
    }
    #[inline]
    pub fn add(&mut self, i: usize, j: usize, x: f64) {
        self.a[i * self.c + j] += x;
    }
    pub fn t(&self) -> M {
        M::from_fn(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        let mut m = M::new(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let x = self.at(i, k);
                if x != 0.0 {
                    for j in 0..o.c {
                        m.add(i, j, x * o.at(k, j));
                    }
                }
            }
        }
        m
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        assert_eq!(self.c, v.len());
        (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j) * v[j]).sum()).collect()
    }
    pub fn max(&self) -> f64 {
        self.a.iter().fold(0.0, |m, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
    }
    pub fn norm(&self) -> f64 {
        self.a.iter().map(|x| x * x).sum::<f64>().sqrt()
    }
    /// infinity norm
    pub fn inf(&self) -> f64 {
        (0..self.r).map(|i| (0..self.c).map(|j| self.at(i, j).abs()).sum::<f64>()).fold(0.0, f64::max)
    }
    pub fn sub(&self, o: &M) -> M {
        assert_eq!((self.r, self.c), (o.r, o.c));
        M { r: self.r, c: self.c, a: self.a.iter().zip(&o.a).map(|(x, y)| x - y).collect() }
    }
    pub fn scale(&self, s: f64) -> M {
        M { r: self.r, c: self.c, a: self.a.iter().map(|x| x * s).collect() }
    }
    pub fn sub_index(&self, idx: &[usize]) -> M {
        M::from_fn(idx.len(), idx.len(), |i, j| self.at(idx[i], idx[j]))
    }
    pub fn flat(&self) -> Vec<f64> {
        self.a.clone()
    }
}

pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// LU with partial pivoting; None if a pivot vanishes.
pub fn solve(a: &M, b: &[f64]) -> Option<Vec<f64>> {
    let n = a.r;
    let mut a = a.clone();
    let mut b = b.to_vec();
    for k in 0..n {
        let p = (k..n).max_by(|&i, &j| a.at(i, k).abs().partial_cmp(&a.at(j, k).abs()).unwrap())?;
        if a.at(p, k) == 0.0 {
            return None;
        }
        if p != k {
            for j in 0..n {
                let t = a.at(k, j);
                a.set(k, j, a.at(p, j));
                a.set(p, j, t);
            }
            b.swap(k, p);
        }
        for i in k + 1..n {
            let f = a.at(i, k) / a.at(k, k);
            if f != 0.0 {
                for j in k..n {
                    let x = a.at(k, j);
                    a.add(i, j, -f * x);
                }
                b[i] -= f * b[k];
            }
        }
    }
    for i in (0..n).rev() {
        let s: f64 = (i + 1..n).map(|j| a.at(i, j) * b[j]).sum();
        b[i] = (b[i] - s) / a.at(i, i);
    }
    Some(b)
}

pub fn inverse(a: &M) -> Option<M> {
    let n = a.r;
    let mut inv = M::new(n, n);
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        let x = solve(a, &e)?;
        for i in 0..n {
            inv.set(i, j, x[i]);
        }
    }
    Some(inv)
}

/// condition number in the infinity norm (infinite if singular)
pub fn cond(a: &M) -> f64 {
    match inverse(a) {
        Some(i) => a.inf() * i.inf(),
        None => f64::INFINITY,
    }
}

/// Cholesky factor (lower), None if not positive definite.
pub fn chol(a: &M) -> Option<M> {
    let n = a.r;
    let mut l = M::new(n, n);
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = (0..j).map(|k| l.at(i, k) * l.at(j, k)).sum();
            if i == j {
                let d = a.at(i, i) - s;
                if !(d > 0.0) {
                    return None;
                }
                l.set(i, i, d.sqrt());
            } else {
                l.set(i, j, (a.at(i, j) - s) / l.at(j, j));
            }
        }
    }
    Some(l)
}

/// Cyclic Jacobi: eigenvalues (ascending) and eigenvectors (columns) of a symmetric matrix.
pub fn eigh(a: &M) -> (Vec<f64>, M) {
    let n = a.r;
    let mut a = a.clone();
    let mut v = M::eye(n);
    for _ in 0..100 {
        let off: f64 = (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| a.at(i, j).powi(2)).sum::<f64>()).sum();
        let dia: f64 = (0..n).map(|i| a.at(i, i).powi(2)).sum();
        if off <= 1e-30 * dia || off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                let apq = a.at(p, q);
                if apq == 0.0 {
                    continue;
                }
                let th = (a.at(q, q) - a.at(p, p)) / (2.0 * apq);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.at(k, p), a.at(k, q));
                    a.set(k, p, c * x - s * y);
                    a.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (a.at(p, k), a.at(q, k));
                    a.set(p, k, c * x - s * y);
                    a.set(q, k, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (v.at(k, p), v.at(k, q));
                    v.set(k, p, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    let mut ix: Vec<usize> = (0..n).collect();
    ix.sort_by(|&i, &j| a.at(i, i).partial_cmp(&a.at(j, j)).unwrap());
    let w = ix.iter().map(|&i| a.at(i, i)).collect();
    let vv = M::from_fn(n, n, |i, j| v.at(i, ix[j]));
    (w, vv)
}

/// Generalized symmetric problem K x = w M x with M positive definite.
/// Small eigenvalues are obtained from the inverse problem, for relative accuracy.
pub fn geigh(k: &M, m: &M) -> Option<Vec<f64>> {
    // K = L L'; eigenvalues of L^-1 M L^-T are 1/w
    if let Some(l) = chol(k) {
        let x = fwd(&l, m);
        let y = fwd(&l, &x.t());
        let (w, _) = eigh(&sym(&y));
        if w.iter().all(|x| *x > 0.0) {
            let mut w: Vec<f64> = w.iter().map(|x| 1.0 / x).collect();
            w.reverse();
            return Some(w);
        }
        return None;
    }
    let l = chol(m)?;
    let x = fwd(&l, k);
    let y = fwd(&l, &x.t());
    Some(eigh(&sym(&y)).0)
}

/// The eigenvectors as well (as columns, unit norm in M), for positive definite K.
pub fn geigh_vec(k: &M, m: &M) -> Option<(Vec<f64>, M)> {
    let l = chol(k)?;
    let n = k.r;
    let x = fwd(&l, m);
    let y = fwd(&l, &x.t());
    let (w, q) = eigh(&sym(&y));
    if w.iter().any(|x| *x <= 0.0) {
        return None;
    }
    let mut v = M::new(n, n);
    for j in 0..n {
        // back substitution with L'
        let mut z: Vec<f64> = (0..n).map(|i| q.at(i, n - 1 - j)).collect();
        for i in (0..n).rev() {
            let s: f64 = (i + 1..n).map(|p| l.at(p, i) * z[p]).sum();
            z[i] = (z[i] - s) / l.at(i, i);
        }
        let f = dot(&z, &m.mulv(&z)).sqrt();
        for i in 0..n {
            v.set(i, j, z[i] / f);
        }
    }
    Some(((0..n).map(|j| 1.0 / w[n - 1 - j]).collect(), v))
}

fn sym(a: &M) -> M {
    M::from_fn(a.r, a.c, |i, j| 0.5 * (a.at(i, j) + a.at(j, i)))
}

/// L^-1 B
fn fwd(l: &M, b: &M) -> M {
    let n = l.r;
    let mut x = b.clone();
    for j in 0..b.c {
        for i in 0..n {
            let s: f64 = (0..i).map(|k| l.at(i, k) * x.at(k, j)).sum();
            let v = (x.at(i, j) - s) / l.at(i, i);
            x.set(i, j, v);
        }
    }
    x
}

/// Exact determinant of an integer matrix (Bareiss); None on overflow.
pub fn idet(a: &[Vec<i128>]) -> Option<i128> {
    let n = a.len();
    let mut a = a.to_vec();
    let mut sign = 1i128;
    let mut prev = 1i128;
    for k in 0..n.saturating_sub(1) {
        if a[k][k] == 0 {
            match (k + 1..n).find(|&i| a[i][k] != 0) {
                Some(i) => {
                    a.swap(k, i);
                    sign = -sign;
                }
                None => return Some(0),
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let x = a[i][j].checked_mul(a[k][k])?.checked_sub(a[i][k].checked_mul(a[k][j])?)?;
                a[i][j] = x / prev;
            }
        }
        prev = a[k][k];
    }
    Some(sign * if n == 0 { 1 } else { a[n - 1][n - 1] })
}

/// Random sparsity pattern over n vertices (undirected edges), many kinds of graph.
pub fn pattern(rng: &mut Rng, n: usize) -> (&'static str, Vec<(usize, usize)>) {
    let mut e = Vec::new();
    let kind = rng.below(10);
    let name = match kind {
        0 => {
            for i in 1..n {
                e.push((i - 1, i));
            }
            "path"
        }
        1 => {
            let w = 1 + rng.below(5);
            for i in 0..n {
                for d in 1..=w {
                    if i + d < n && rng.chance(0.8) {
                        e.push((i, i + d));
                    }
                }
            }
            "band"
        }
        2 => {
            let k = 1 + (n as f64).sqrt() as usize;
            for i in 0..n {
                if i % k + 1 < k && i + 1 < n {
                    e.push((i, i + 1));
                }
                if i + k < n {
                    e.push((i, i + k));
                }
            }
            "grid"
        }
        3 => {
            for i in 1..n {
                e.push((0, i));
            }
            "star"
        }
        4 => {
            for i in 1..n {
                e.push((rng.below(i), i));
            }
            "tree"
        }
        5 => {
            for i in 0..n {
                for j in 0..i {
                    e.push((j, i));
                }
            }
            "clique"
        }
        6 => {
            let p = rng.unit() * 3.0 / (n as f64);
            for i in 0..n {
                for j in 0..i {
                    if rng.chance(p) {
                        e.push((j, i));
                    }
                }
            }
            "sparse random"
        }
        7 => {
            // blocks
            let b = 1 + rng.below(4);
            for i in 0..n {
                for j in 0..i {
                    if i / b == j / b {
                        e.push((j, i));
                    }
                }
            }
            "blocks"
        }
        8 => "edgeless",
        _ => {
            for i in 1..n {
                e.push((i - 1, i));
            }
            if n > 2 {
                e.push((0, n - 1));
            }
            "cycle"
        }
    };
    if rng.chance(0.6) {
        let p = rng.perm(n);
        for x in e.iter_mut() {
            *x = (p[x.0], p[x.1]);
        }
    }
    for x in e.iter_mut() {
        if x.0 > x.1 {
            *x = (x.1, x.0);
        }
    }
    (name, e)
}

/// Random symmetric positive definite matrix with the given pattern (strictly diagonally dominant
/// by a random margin), optionally congruence scaled.
pub fn spd(rng: &mut Rng, n: usize, edges: &[(usize, usize)], margin: f64) -> M {
    let mut m = M::new(n, n);
    for &(i, j) in edges {
        let x = rng.sym();
        m.set(i, j, x);
        m.set(j, i, x);
    }
    for i in 0..n {
        let s: f64 = (0..n).filter(|&j| j != i).map(|j| m.at(i, j).abs()).sum();
        m.set(i, i, s * (1.0 + margin * rng.unit()) + margin * (0.1 + rng.unit()));
    }
    m
}
