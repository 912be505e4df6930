//! Conversions between the harness's plain matrices and bugi's.
use crate::dense::M;
use crate::Rng;
use bugi::matrix::solve::System;
use bugi::matrix::{CompressedRow, Dictionary, LinearMatrix, MatrixLike};

pub fn lin(m: &M) -> LinearMatrix {
    LinearMatrix::from_flat((m.r, m.c), m.flat())
}

/// the same matrix stored by columns
pub fn lin_col(m: &M) -> LinearMatrix {
    let mut x = LinearMatrix::from_flat((m.c, m.r), m.t().flat());
    x.transpose();
    x
}

pub fn dict(m: &M) -> Dictionary {
    Dictionary::from_flat((m.r, m.c), m.flat())
}

/// a dictionary filled entry by entry in random order, with a few stored zeros
pub fn dict_shuffled(rng: &mut Rng, m: &M, zeros: usize) -> Dictionary {
    let mut d = Dictionary::zeros((m.r, m.c));
    for i in rng.perm(m.r * m.c) {
        let (r, c) = (i / m.c, i % m.c);
        if m.at(r, c) != 0.0 {
            d[(r, c)] = m.at(r, c);
        }
    }
    for _ in 0..zeros {
        let (r, c) = (rng.below(m.r), rng.below(m.c));
        d[(r, c)] += 0.0;
    }
    d
}

pub fn dense<T: MatrixLike>(t: &T) -> M {
    let (r, c) = t.shape();
    M::from_fn(r, c, |i, j| t[(i, j)])
}

/// A system K x = b, entered one way or another.
pub fn system(rng: &mut Rng, k: &M, b: &[f64]) -> (&'static str, System) {
    let n = k.r;
    let col = LinearMatrix::from_flat((n, 1), b.to_vec());
    match rng.below(6) {
        0 => ("dense", System::from_kr(&lin(k), &col)),
        1 => ("dense by columns", System::from_kr(&lin_col(k), &LinearMatrix::col_vec(b.to_vec()))),
        2 => ("compressed row", System::from_kr(&CompressedRow::from_flat(n, k.flat()), &CompressedRow::from_flat((n, 1), b.to_vec()))),
        3 => {
            let z = rng.below(3);
            ("dictionary", System::from_kr(&dict_shuffled(rng, k, z), &col))
        }
        _ => {
            let mut s = System::new(n);
            // contributions in random order, some in two halves (exact in binary)
            let mut parts: Vec<((usize, usize), f64)> = Vec::new();
            for i in 0..n {
                for j in 0..n {
                    let x = k.at(i, j);
                    if x != 0.0 {
                        if rng.chance(0.3) {
                            parts.push(((i, j), x / 2.0));
                            parts.push(((i, j), x / 2.0));
                        } else {
                            parts.push(((i, j), x));
                        }
                    }
                }
            }
            rng.shuffle(&mut parts);
            if parts.is_empty() {
                parts.push(((0, 0), 0.0));
            }
            for (l, x) in parts {
                s.add_k_coefficient(l, x);
            }
            for i in rng.perm(n) {
                s.add_rhs_val(i, b[i] / 2.0);
                s.add_rhs_val(i, b[i] / 2.0);
            }
            ("coefficients", s)
        }
    }
}
