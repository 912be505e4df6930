//! C04: hostile indices, shapes and sizes against the safe API. The deciding observers are the sanitizer of the build
//! (unsafe-precondition checks or AddressSanitizer) and the lock-step array, which shows values from elsewhere.
use bugi::element::constraint::Constraint;
use bugi::element::material::AL6061;
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, ElementDescriptor, NodeId};
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::solve::direct::{cholesky_envelope, cholesky_envelope_no_root, solve_ldl, solve_ll, CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{BiEnvelope, CompressedRow, ConstMatrix, Diagonal, Dictionary, Inverse, LinearMatrix, LowerRowEnvelope, LowerTriangular, MatrixLike, UpperTriangular};
use bugi::verif_hooks::Point;
use bugi::visual::{VisOptions, Visualizer};
use verif_core::dense::M;
use verif_core::mat::*;
use verif_core::{conv, main_loop, trap, Ctx, Plan, Rng};

fn history<T: MatrixLike>(c: &mut Ctx, mut t: T, mut m: M, caps: Caps) {
    let n = c.rng.range(3, 20);
    let mut log = Vec::new();
    let start = c.what.clone();
    for _ in 0..n {
        let hostile = c.rng.chance(0.7);
        log.push(step(c, &mut t, &mut m, &caps, hostile));
        c.describe(format!("{} {}: {}", start, caps.name, log.join("; ")));
        compare(c, &t, &m, caps.name, false);
        if !c.violations.is_empty() {
            break;
        }
    }
    c.add("operations", n as u64);
    c.count(&format!("hostile histories: {}", caps.name));
}

fn anywhere(name: &'static str, transpose: bool) -> Caps {
    Caps { name, writable: Box::new(|_, _| true), full: true, transpose }
}

fn histories(c: &mut Ctx) {
    let (mut r, mut k) = (c.rng.range(1, 7), c.rng.range(1, 7));
    if c.idx >= 3000 && c.rng.chance(0.003) {
        (r, k) = (c.rng.range(60, 300), c.rng.range(1, 300));
        c.count("hostile histories of hundreds of rows");
    }
    if c.rng.chance(0.05) {
        r = 0;
    }
    if c.rng.chance(0.05) {
        k = 0;
    }
    let kind = c.rng.below(9);
    if (3..7).contains(&kind) || kind == 8 {
        r = r.max(1);
        k = r;
    }
    let dens = c.rng.unit();
    let m = int_m(&mut c.rng, r, k, dens);
    c.describe(format!("{:?}", m));
    c.sigf(&m.flat());
    c.sig((kind, r, k));
    c.nontrivial = true;
    match kind {
        0 => history(c, conv::lin(&m), m, anywhere("linear", true)),
        1 => history(c, conv::lin_col(&m), m, anywhere("linear by columns", true)),
        2 => {
            let (r, k) = *c.rng.pick(&[(2, 3), (3, 2), (1, 6), (6, 1)]);
            let m = int_m(&mut c.rng, r, k, 0.8);
            c.describe(format!("{:?}", m));
            history(c, ConstMatrix::<6>::from_flat((r, k), m.flat()), m, anywhere("fixed size", false))
        }
        3 => {
            let m = M::from_fn(r, r, |i, j| if j <= i { m.at(i, j) } else { 0.0 });
            let mut t = LowerTriangular::zeros(r);
            (0..r).for_each(|i| (0..=i).for_each(|j| t[(i, j)] = m.at(i, j)));
            history(c, t, m, Caps { name: "lower triangular", writable: Box::new(|i, j| j <= i), full: false, transpose: false })
        }
        4 => {
            let m = M::from_fn(r, r, |i, j| if j >= i { m.at(i, j) } else { 0.0 });
            let mut t = UpperTriangular::zeros(r);
            (0..r).for_each(|i| (i..r).for_each(|j| t[(i, j)] = m.at(i, j)));
            history(c, t, m, Caps { name: "upper triangular", writable: Box::new(|i, j| j >= i), full: false, transpose: false })
        }
        5 => {
            let v: Vec<f64> = (0..r).map(|i| m.at(i, i)).collect();
            let m = M::from_fn(r, r, |i, j| if i == j { v[i] } else { 0.0 });
            history(c, Diagonal::from(v), m, Caps { name: "diagonal", writable: Box::new(|i, j| i == j), full: false, transpose: false })
        }
        6 => {
            let env: Vec<usize> = (0..r).map(|i| c.rng.range(1, i + 1)).collect();
            let m = M::from_fn(r, r, |i, j| if j <= i && i - j < env[i] { m.at(i, j) } else { 0.0 });
            let mut t = LowerRowEnvelope::from_envelope(env.clone());
            for i in 0..r {
                let (s, row) = t.row_stored_mut(i);
                row.iter_mut().enumerate().for_each(|(q, x)| *x = m.at(i, s + q));
            }
            history(c, t, m, Caps { name: "lower envelope", writable: Box::new(move |i, j| j <= i && i - j < env[i]), full: false, transpose: false })
        }
        7 => {
            if c.rng.chance(0.5) {
                history(c, conv::dict(&m), m, anywhere("dictionary", false))
            } else {
                let s = m.clone();
                let t = CompressedRow::from_flat((r, k), m.flat());
                history(c, t, m, Caps { name: "compressed row", writable: Box::new(move |i, j| s.at(i, j) != 0.0), full: false, transpose: false })
            }
        }
        _ => {
            let run: Vec<Option<(usize, usize)>> = (0..r)
                .map(|i| {
                    let z: Vec<usize> = (0..r).filter(|&j| m.at(i, j) != 0.0).collect();
                    z.first().map(|&a| (a, *z.last().unwrap() + 1))
                })
                .collect();
            let t = BiEnvelope::from(conv::dict(&m));
            history(c, t, m, Caps { name: "two-sided envelope", writable: Box::new(move |i, j| run[i].map_or(false, |r| j >= r.0 && j < r.1)), full: false, transpose: false })
        }
    }
}

/// a slice length: right, short, long or empty
fn len(rng: &mut Rng, n: usize) -> usize {
    match rng.below(6) {
        0 | 1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => 0,
        _ => rng.below(12),
    }
}

fn vec(rng: &mut Rng, n: usize) -> Vec<f64> {
    (0..n).map(|_| rng.irange(1, 9) as f64).collect()
}

/// a shape whose storage, if it were made, is small; or one whose element count overflows
fn bad_shape(rng: &mut Rng) -> (usize, usize) {
    *rng.pick(&[(0, 0), (0, 5), (5, 0), (2, 3), (3, 2), (6, 1), (1, 6), (1 << 32, 1 << 32), (usize::MAX, 2), (2, usize::MAX), (usize::MAX, usize::MAX), (1 << 63, 2), ((1 << 32) + 1, 1 << 32)])
}

fn refuse<T: std::fmt::Debug>(c: &mut Ctx, what: String, r: Result<T, String>) {
    match r {
        Ok(x) => c.fail("out of range accepted", format!("{} gave {:?}", what, x)),
        Err(_) => c.count("out-of-range refusals"),
    }
}

fn calls(c: &mut Ctx) {
    let n = c.rng.range(1, 6);
    let dens = c.rng.unit();
    let mut m = int_m(&mut c.rng, n, n, dens);
    for i in 0..n {
        m.set(i, i, 20.0 + i as f64);
    }
    c.sigf(&m.flat());
    c.nontrivial = true;
    let steps = c.rng.range(2, 10);
    let mut log = vec![format!("{:?}", m)];
    let env = |m: &M| LowerRowEnvelope::from(conv::dict(m));
    for _ in 0..steps {
        let op = c.rng.below(30);
        let i = index(&mut c.rng, n, true);
        let j = index(&mut c.rng, n, true);
        let (la, lb) = (len(&mut c.rng, n), len(&mut c.rng, n));
        let a = vec(&mut c.rng, la);
        let mut x = vec(&mut c.rng, lb);
        log.push(format!("op {} with {} {} and lengths {} {}", op, i, j, la, lb));
        c.describe(log.join("; "));
        c.count("hostile calls");
        let fits = la == n && lb == n;
        match op {
            0 => {
                let r = trap(|| env(&m).row_stored(i).1.to_vec());
                if i >= n {
                    refuse(c, format!("row_stored({}) of {} rows", i, n), r);
                }
            }
            1 => {
                let r = trap(|| env(&m).row_stored_nodiag(i).1.to_vec());
                if i >= n {
                    refuse(c, format!("row_stored_nodiag({}) of {} rows", i, n), r);
                }
            }
            2 => {
                let r = trap(|| env(&m).row_stored_mut(i).1.to_vec());
                if i >= n {
                    refuse(c, format!("row_stored_mut({}) of {} rows", i, n), r);
                }
            }
            3 => {
                let r = trap(|| BiEnvelope::from(conv::dict(&m)).row_stored(i).1.to_vec());
                if i >= n {
                    refuse(c, format!("two-sided row_stored({}) of {} rows", i, n), r);
                }
            }
            4 => {
                let r = trap(|| CompressedRow::from(conv::dict(&m)).row_nzs(i).collect::<Vec<_>>());
                if i >= n {
                    refuse(c, format!("row_nzs({}) of {} rows", i, n), r);
                }
            }
            5 => {
                let r = trap(|| env(&m).solve(&a, &mut x));
                if !fits {
                    refuse(c, format!("solve of {} unknowns with {} and {} values", n, la, lb), r);
                }
            }
            6 => {
                let r = trap(|| env(&m).solve_transposed(&a, &mut x));
                if !fits {
                    refuse(c, format!("solve_transposed of {} unknowns with {} and {} values", n, la, lb), r);
                }
            }
            7 => {
                let r = trap(|| env(&m).solve_submatrix(&a, &mut x, (i, j)));
                if i <= j && (j > n || la != lb || la != j - i) {
                    // (a backwards range reaches nothing)
                    refuse(c, format!("solve_submatrix {} to {} of {} with {} and {} values", i, j, n, la, lb), r);
                }
            }
            8 => {
                let r = trap(|| BiEnvelope::from(conv::dict(&m)).mul_vec(&a, &mut x));
                if !fits {
                    refuse(c, format!("mul_vec of {} columns with {} and {} values", n, la, lb), r);
                }
            }
            9 => {
                let e: Vec<usize> = (0..n).map(|r| if c.rng.chance(0.7) { c.rng.range(1, r + 1) } else { index(&mut c.rng, r + 2, true) }).collect();
                let bad = e.iter().enumerate().any(|(r, &x)| x == 0 || x > r + 1);
                let r = trap(|| LowerRowEnvelope::from_envelope(e.clone()));
                match (bad, r) {
                    (true, r) => refuse(c, format!("envelope {:?}", e), r.map(|t| t.envelope())),
                    (false, Ok(t)) => compare(c, &t, &M::from_fn(n, n, |_, _| 0.0), "empty envelope", false),
                    (false, Err(e)) => c.fail("panic", e),
                }
            }
            10 => {
                let k = c.rng.range(1, 6);
                let f = int_m(&mut c.rng, k, k, 0.8);
                let mut t = env(&m);
                let b = BiEnvelope::from(conv::dict(&f));
                let r = trap(|| t.add_scaled_bienv(&b, 2.0));
                if k != n {
                    refuse(c, format!("sum of {} and {} rows", n, k), r);
                    let w = M::from_fn(n, n, |i, j| if j <= i { m.at(i, j) } else { 0.0 });
                    compare(c, &t, &w, "lower envelope after a refused sum", false);
                }
            }
            11 => {
                let s = bad_shape(&mut c.rng);
                let k = c.rng.below(8);
                let v = vec(&mut c.rng, k);
                let fit = s.0.checked_mul(s.1) == Some(k);
                let kind = c.rng.below(5);
                let r = trap(|| match kind {
                    0 => LinearMatrix::from_flat(s, v.clone()).flat().count(),
                    1 => ConstMatrix::<6>::from_flat(s, v.clone()).flat().count(),
                    2 if s.0 < 10 && s.1 < 10 => CompressedRow::from_flat(s, v.clone()).flat().count(),
                    3 if s.0 < 10 && s.1 < 10 => Dictionary::from_flat(s, v.clone()).flat().count(),
                    _ => LinearMatrix::from_flat(s, v.clone()).flat().count(),
                });
                match r {
                    Ok(seen) => {
                        c.check(Some(seen) == s.0.checked_mul(s.1) && (fit || kind == 2 || kind == 3), "wrong shape accepted", || format!("shape {:?} from {} values by {} shows {}", s, k, kind, seen));
                    }
                    Err(_) => c.count("out-of-range refusals"),
                }
            }
            12 => {
                let s = bad_shape(&mut c.rng);
                if s.0.checked_mul(s.1).map_or(true, |x| x < 100) {
                    let r = trap(|| LinearMatrix::zeros(s).flat().count());
                    match (r, s.0.checked_mul(s.1)) {
                        (Ok(k), Some(w)) if k == w => {}
                        (Err(_), None) => c.count("out-of-range refusals"),
                        (r, _) => c.fail("wrong shape accepted", format!("zeros({:?}): {:?} elements", s, r)),
                    }
                }
                let r = trap(|| ConstMatrix::<6>::zeros(s).flat().count());
                c.check(r.as_ref().map_or(true, |&k| k == 6 && s.0.checked_mul(s.1) == Some(6)), "wrong shape accepted", || format!("fixed size zeros({:?}): {:?}", s, r));
            }
            13 => {
                let k = c.rng.range(0, 6);
                let vals: Vec<((usize, usize), f64)> = (0..k).map(|q| ((index(&mut c.rng, n, q % 2 == 0), index(&mut c.rng, n, q % 2 == 1)), 1.0 + q as f64)).collect();
                let bad = vals.iter().any(|v| (v.0).0 >= n || (v.0).1 >= n);
                let text = format!("{:?}", vals);
                let r = trap(|| CompressedRow::from_labeled_vals((n, n), vals).flat().cloned().collect::<Vec<f64>>());
                if bad {
                    refuse(c, format!("labels {} in {} rows", text, n), r);
                }
            }
            14 => {
                let k = len(&mut c.rng, n).max(1);
                let mask: Vec<bool> = (0..k).map(|_| c.rng.chance(0.6)).collect();
                let r = trap(|| conv::dict(&m).mask(&mask));
                if let Ok(t) = r {
                    let _ = trap(|| conv::dense(&t));
                }
            }
            15 => {
                let k = c.rng.range(1, 6);
                let e: Vec<(usize, usize)> = (1..k).map(|q| (q, q - 1)).collect();
                let p = Graph::from_edges(k, e).reverse_cuthill_mckee();
                let mut d = conv::dict(&m);
                if trap(|| d.permute(&p)).is_ok() {
                    let _ = trap(|| conv::dense(&d));
                }
            }
            16 => {
                let mut t = LowerTriangular::zeros(n);
                (0..n).for_each(|q| (0..=q).for_each(|w| t[(q, w)] = m.at(q, w)));
                let r = trap(|| t.forward_sub(&a));
                if let Ok(y) = r {
                    c.check(la == n && y.len() == n, "wrong length accepted", || format!("forward_sub of {} with {} gives {}", n, la, y.len()));
                }
            }
            17 => {
                let mut t = UpperTriangular::zeros(n);
                (0..n).for_each(|q| (q..n).for_each(|w| t[(q, w)] = m.at(q, w)));
                let r = trap(|| t.backward_sub(&a));
                if let Ok(y) = r {
                    c.check(la == n && y.len() == n, "wrong length accepted", || format!("backward_sub of {} with {} gives {}", n, la, y.len()));
                }
            }
            18 => {
                let d: Diagonal = vec(&mut c.rng, n).into();
                let r = trap(|| d.solve(&mut x));
                if lb > n {
                    let _ = r;
                }
                let r = trap(|| d[i]);
                if i >= n {
                    refuse(c, format!("diagonal [{}] of {}", i, n), r);
                }
            }
            19 => {
                // square-only operations on anything
                let (r, k) = (c.rng.range(1, 5), c.rng.range(1, 5));
                let f = int_m(&mut c.rng, r, k, 0.8);
                let t = conv::lin(&f);
                let kind = c.rng.below(6);
                let rhs = len(&mut c.rng, r);
                let rhs = LinearMatrix::col_vec(vec(&mut c.rng, rhs.max(1)));
                let _ = trap(|| match kind {
                    0 => t.inverse().flat().count(),
                    1 => t.det_lu() as usize,
                    2 => t.lu_decompose().0.flat().count(),
                    3 => t.clone().solve_gausselim(rhs).map_or(0, |x| x.flat().count()),
                    4 => t.inv_lu().flat().count(),
                    _ => t.determinant().unwrap_or(0.0) as usize,
                });
            }
            20 => {
                let e = env(&m);
                let _ = trap(|| cholesky_envelope(&e)).map(|l| trap(|| solve_ll(&l, &a, &mut x)));
            }
            21 => {
                let e = env(&m);
                let k = len(&mut c.rng, n).max(1);
                let d: Diagonal = vec(&mut c.rng, k).into();
                let _ = trap(|| cholesky_envelope_no_root(&e)).map(|(l, _)| trap(|| solve_ldl(&l, &d, &a, &mut x)));
            }
            22 => {
                let mut s = System::new(n);
                let r = trap(|| s.add_k_coefficient((i, j), 1.0));
                if i >= n || j >= n {
                    refuse(c, format!("stiffness at ({}, {}) of {} unknowns", i, j, n), r);
                }
                let r = trap(|| s.add_m_coefficient((i, j), 1.0));
                if i >= n || j >= n {
                    refuse(c, format!("mass at ({}, {}) of {} unknowns", i, j, n), r);
                }
                let r = trap(|| s.add_rhs_val(i, 1.0));
                if i >= n {
                    refuse(c, format!("right-hand side at {} of {} unknowns", i, n), r);
                }
            }
            23 => {
                let k = c.rng.range(1, 6);
                let (r2, c2) = (len(&mut c.rng, n).max(1), c.rng.range(1, 2));
                let f = int_m(&mut c.rng, n, k, 0.8);
                let b = int_m(&mut c.rng, r2, c2, 0.8);
                let gauss = c.rng.chance(0.5);
                let r = trap(|| {
                    let s = System::from_kr(&conv::lin(&f), &conv::lin(&b));
                    if gauss {
                        DenseGaussSolver::new(s).solve().map(|x| x.len())
                    } else {
                        CholeskyEnvelopeSolver::new(s).solve().map(|x| x.len())
                    }
                });
                if k != n || r2 != n {
                    if let Ok(Ok(x)) = r {
                        c.fail("wrong shape accepted", format!("system {}x{} with {} values solved into {}", n, k, r2, x));
                    }
                }
            }
            24 => {
                let k = c.rng.range(1, 6);
                let f = int_m(&mut c.rng, k, c.idx as usize % 3 + 1, 0.8);
                let r = trap(|| conv::dict(&m).mul_dict(&conv::dict(&f)));
                if k != n {
                    refuse(c, format!("{}x{} times {} rows", n, n, k), r.map(|x| x.shape()));
                }
            }
            25 => {
                let rows: Vec<Vec<f64>> = (0..n).map(|_| { let k = c.rng.range(0, 3); vec(&mut c.rng, k) }).collect();
                let even = rows.iter().all(|r| r.len() == rows[0].len());
                let r = trap(|| LinearMatrix::from_rows(rows.clone()));
                if !even {
                    refuse(c, format!("rows {:?}", rows), r.map(|x| x.shape()));
                }
            }
            26 => {
                let p = Permutation::identity(n);
                let r = trap(|| (p.permute(i), p.unpermute(i)));
                if i >= n {
                    refuse(c, format!("position {} of {} permuted", i, n), r);
                }
                let mut v = a.clone();
                let r = trap(|| p.permute_slice(&mut v));
                if la > n {
                    let _ = r;
                }
            }
            27 => {
                let k = c.rng.range(1, 5);
                let (r, q) = (c.rng.range(1, 5), c.rng.range(1, 5));
                let f = conv::lin(&int_m(&mut c.rng, n, k, 0.8));
                let g = conv::lin_col(&int_m(&mut c.rng, r, q, 0.8));
                let mut h = f.clone();
                let x = trap(|| {
                    let _ = &f + &g;
                });
                let y = trap(|| h += g.clone());
                if (n, k) != (r, q) {
                    refuse(c, format!("sum of {}x{} and {}x{}", n, k, r, q), x);
                    refuse(c, format!("in-place sum of {}x{} and {}x{}", n, k, r, q), y);
                    c.check(h == f, "refused operation changed the matrix", || format!("sum of {}x{} and {}x{}", n, k, r, q));
                }
            }
            28 => {
                let v = (index(&mut c.rng, n, true), index(&mut c.rng, n, true));
                let r = trap(|| Graph::from_edges(n, vec![v]).vertex_count());
                if v.0 >= n || v.1 >= n {
                    refuse(c, format!("edge {:?} among {} vertices", v, n), r);
                }
                let mut g = Graph::from_lol((0..n).map(|q| vec![(q + 1) % n, v.0]));
                let mask = vec![true; len(&mut c.rng, n)];
                let r = trap(|| g.adjacent(i).to_vec());
                if i >= n {
                    refuse(c, format!("neighbours of vertex {} of {}", i, n), r);
                }
                let _ = trap(|| g.degree(i));
                let _ = trap(|| g.degree_masked(i, &mask));
                let _ = trap(|| g.adjacent_masked(i, &mask).to_vec());
                if v.0 >= n {
                    let _ = trap(|| g.far_node(i));
                    let _ = trap(|| g.reverse_cuthill_mckee());
                }
            }
            _ => {
                let t = conv::lin(&m);
                let r = trap(|| t.row(i).cloned().collect::<Vec<f64>>());
                if i >= n {
                    refuse(c, format!("row {} of {}", i, n), r);
                }
                let r = trap(|| CompressedRow::from(conv::dict(&m)).col(j).cloned().collect::<Vec<f64>>());
                if j >= n {
                    refuse(c, format!("column {} of {}", j, n), r);
                }
                let r = trap(|| LinearMatrix::rotation(n, i, j, 1.0));
                if i >= n || j >= n || i == j {
                    refuse(c, format!("rotation of axes {} and {} of {}", i, j, n), r.map(|x| x.shape()));
                }
            }
        }
        if !c.violations.is_empty() {
            return;
        }
    }
}

fn scenes(c: &mut Ctx) {
    let d = c.rng.range(1, 3);
    let n = c.rng.range(1, 6);
    let pts: Vec<Vec<f64>> = (0..n).map(|_| (0..d).map(|_| if c.rng.chance(0.03) { f64::NAN } else { c.rng.irange(-9, 9) as f64 }).collect()).collect();
    let id = |c: &mut Ctx| if c.rng.chance(0.05) { index(&mut c.rng, n, true) } else { c.rng.below(n) };
    let edges: Vec<(usize, usize)> = (0..c.rng.below(5)).map(|_| (id(c), id(c))).collect();
    let tris: Vec<(usize, usize, usize)> = (0..c.rng.below(4)).map(|_| (id(c), id(c), id(c))).collect();
    let k = if c.rng.chance(0.1) { len(&mut c.rng, n) } else { n };
    let vals: Vec<f64> = (0..k).map(|_| if c.rng.chance(0.02) { f64::NAN } else { c.rng.sym() }).collect();
    let size = *c.rng.pick(if cfg!(miri) { &[0u32, 1, 2, 3] } else { &[0u32, 1, 2, 3, 4, 5, 7, 16, 33, 60] });
    let color = *c.rng.pick(&[0usize, 1, 2, 3, 5, 7, 8, 100, usize::MAX]);
    let with_vals = c.rng.chance(0.5);
    c.describe(format!("points {:?} edges {:?} triangles {:?} values {:?} size {} colour {}", pts, edges, tris, vals, size, color));
    c.sig((size, color, with_vals, &edges, &tris));
    pts.iter().for_each(|p| c.sigf(p));
    c.nontrivial = true;
    let path = c.scratch.join("p.png");
    let _ = std::fs::remove_file(&path);
    let ps: Vec<Point> = pts.iter().map(|p| Point::new(p)).collect();
    let r = trap(|| {
        let mut v: Visualizer = ps.clone().into();
        if !with_vals {
            v.add_points(ps.clone(), color);
        }
        v.set_edges(edges.clone());
        v.set_triangles(tris.clone());
        if with_vals {
            v.set_vals(vals.clone());
        }
        v.draw(path.to_str().unwrap(), VisOptions::new().im_size(size));
    });
    c.count(if r.is_ok() { "pictures drawn" } else { "pictures refused" });
    // points
    let p = Point::new(&pts[0]);
    let i = index(&mut c.rng, d, true);
    let r = trap(|| p[i]);
    if i >= d {
        refuse(c, format!("component {} of {}", i, d), r);
    }
    let mut q = p;
    let r = trap(|| q[i] = 1.0);
    if i >= d {
        refuse(c, format!("write to component {} of {}", i, d), r);
    }
    let k = c.rng.below(8);
    let v = vec(&mut c.rng, k);
    let r = trap(|| Point::new(&v).to_vec());
    if let Ok(w) = r {
        c.check(w == v, "wrong length accepted", || format!("point from {:?} is {:?}", v, w));
    }
    let r = trap(|| Point::zero(k).to_vec());
    if let Ok(w) = r {
        c.check(w == vec![0.0; k], "wrong length accepted", || format!("origin of {} dimensions is {:?}", k, w));
    }
}

fn models(c: &mut Ctx) {
    let n = c.rng.range(3, 6);
    let pts: Vec<(f64, f64)> = (0..n).map(|_| (c.rng.irange(-5, 5) as f64, c.rng.irange(-5, 5) as f64)).collect();
    let mut log = vec![format!("{:?}", pts)];
    c.sig(format!("{:?}", pts));
    c.nontrivial = true;
    let mut el = ElementAssemblage::new(AL6061, Condition::PlaneStress(1.0));
    let ids = el.add_nodes(&pts);
    c.check(ids.iter().enumerate().all(|(i, x)| x.into_idx() == i), "node numbers", || format!("{:?}", ids));
    for _ in 0..c.rng.range(1, 8) {
        let hostile = c.rng.chance(0.3);
        let t: Vec<usize> = (0..3).map(|_| index(&mut c.rng, n, hostile)).collect();
        let op = c.rng.below(5);
        log.push(format!("op {} nodes {:?}", op, t));
        c.describe(log.join("; "));
        let id = |q: usize| NodeId::new(t[q]);
        match op {
            0 | 1 => {
                let before = el.element_descriptors().len();
                let r = trap(|| el.add_element(ElementDescriptor::new([id(0), id(1), id(2)])));
                if t.iter().any(|&x| x >= n) {
                    refuse(c, format!("element on nodes {:?} of {}", t, n), r);
                    let _ = before;
                }
            }
            2 => {
                let _ = trap(|| el.add_conc_force(id(0), Point::new(&[1.0, 2.0])));
            }
            3 => {
                let _ = trap(|| el.add_dist_line_force(id(0), id(1), Point::new(&[1.0, 2.0])));
            }
            _ => {
                let r = trap(|| el.add_constraint(id(0), Constraint::XYFixed));
                if t[0] >= n {
                    refuse(c, format!("constraint on node {} of {}", t[0], n), r);
                }
            }
        }
        let r = trap(|| el.node(id(0)).to_vec());
        if t[0] >= n {
            refuse(c, format!("node {} of {}", t[0], n), r);
        } else {
            let w = pts[t[0]];
            c.check(r == Ok(vec![w.0, w.1]), "node", || format!("node {} is {:?}", t[0], r));
        }
        c.count("hostile model calls");
    }
    c.check(el.nodes().len() == n, "nodes changed", || format!("{} of {}", el.nodes().len(), n));
    let _ = trap(|| el.calc_displacements::<DenseGaussSolver>().displacement_norms());
    let _ = trap(|| el.calc_displacements::<CholeskyEnvelopeSolver>().von_mises());
    let _ = trap(|| (el.triangles(), el.edges()));
}

fn case(c: &mut Ctx) {
    match c.idx % 10 {
        0..=5 => histories(c),
        6 | 7 => calls(c),
        8 => scenes(c),
        _ => models(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 400000,
            thorough: 3000000,
            rule: "random histories on every storage scheme in lock step with a plain array, most operations at positions just outside, huge, or chosen to overflow offset arithmetic; single hostile calls (wrong lengths, shapes, ranges, labels, vertices, permutations) to every public type; pictures and models with hostile sizes, indices and not-a-numbers; run under unsafe-precondition and overflow checks, then again optimized without them under AddressSanitizer; distinct by contents and shape",
            need: &["out-of-range refusals", "hostile calls", "hostile model calls", "pictures drawn", "hostile histories: linear", "hostile histories: linear by columns", "hostile histories: fixed size", "hostile histories: lower triangular", "hostile histories: upper triangular", "hostile histories: diagonal", "hostile histories: compressed row", "hostile histories: dictionary", "hostile histories: lower envelope", "hostile histories: two-sided envelope"],
        },
        case,
    );
}
