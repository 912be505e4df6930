//! C09: every applied load reaches the structure exactly once.
//! Nodal forces are recovered from the displacements through an independent stiffness matrix.
use bugi::element::element::Element;
use bugi::element::ElementAssemblage;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use verif_core::dense::{cond, maxabs};
use verif_core::fem::*;
use verif_core::{main_loop, Ctx, Plan};

/// builds the model adding its loads in the given order (indices into conc then line)
fn build_ordered(m: &Model, order: &[usize]) -> ElementAssemblage {
    let mut bare = m.clone();
    bare.conc.clear();
    bare.line.clear();
    let mut el = bare.build();
    for &i in order {
        if i < m.conc.len() {
            let (n, f) = m.conc[i];
            el.add_conc_force(node(n), f.into());
        } else {
            let ((a, b), f) = m.line[i - m.conc.len()];
            el.add_dist_line_force(node(a), node(b), f.into());
        }
    }
    el
}

/// hundreds of elements and loads
fn large(c: &mut Ctx) {
    let nodes = *c.rng.pick(&[60, 150, 300, 700]);
    let mut m = gen_large(&mut c.rng, nodes, true, true);
    if c.rng.chance(0.4) {
        // few loads, so that each one is seen, wherever its element is in the list
        let k = c.rng.range(1, 6);
        c.rng.shuffle(&mut m.line);
        m.line.truncate(k);
        m.conc.truncate(k);
    }
    c.describe(m.describe());
    c.sigf(&flat(&m.pts));
    let want = m.load();
    c.sigf(&want);
    let scale = maxabs(&want);
    let order = c.rng.perm(m.conc.len() + m.line.len());
    let mut el = match c.run("build", || build_ordered(&m, &order)) {
        Some(e) => e,
        None => return,
    };
    let u = match c.run("cholesky", || disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &m)) {
        Some(u) => u,
        None => return,
    };
    let judge = |fine: bool| {
        let (f, top) = m.forces(&u, fine);
        let d: Vec<f64> = f.iter().zip(&want).map(|(a, b)| a - b).collect();
        let d = m.project_vec(&d);
        let worst = (0..d.len()).fold((0, 0.0f64), |a, i| if d[i].abs() > a.1 || d[i].is_nan() { (i, d[i].abs()) } else { a });
        (worst, 1e-13 * top * maxabs(&flat(&u)))
    };
    let (mut worst, mut floor) = judge(false);
    let mut tol = 1e-7;
    if !(worst.1 <= tol * scale + floor) && m.cond == Cond::Axi {
        (worst, floor) = judge(true);
        tol = 1e-3;
    }
    if floor > 1e-4 * scale {
        c.count("models skipped: ill conditioned");
        return;
    }
    c.check(worst.1 <= tol * scale + floor, "nodal force", || {
        let d = m.free_dirs()[worst.0];
        format!("node {} direction {:?} carries a force off by {:e} (largest applied {:e})", d.0, d.1, worst.1, scale)
    });
    c.add("nodal forces checked", m.free_dirs().len() as u64);
    c.count("models of hundreds of elements");
    c.nontrivial = true;
}

/// a load, now and then along an axis or nothing
fn vector(c: &mut Ctx, f: f64) -> (f64, f64) {
    let v = (f * c.rng.sym(), f * c.rng.sym());
    match c.rng.below(8) {
        0 => (v.0, 0.0),
        1 => (0.0, v.1),
        2 if c.rng.chance(0.2) => (0.0, 0.0),
        _ => v,
    }
}

fn case(c: &mut Ctx) {
    if c.idx % 401 == 400 {
        return large(c);
    }
    let o = GenOpts { max_cells: 3, ..Default::default() };
    let mut m = gen_model(&mut c.rng, &o);
    if m.kind.starts_with("plain") {
        c.count("models on squared paper");
    }
    let k = m.k(false);
    if cond(&m.project(&k)) > 1e5 {
        c.count("models skipped: ill conditioned");
        return;
    }
    // loads that crowd together: on the edges around one or two nodes, interior edges included
    let f = c.rng.logf(1e-3, 1e6);
    let n = m.n();
    let hub = c.rng.below(n);
    let mut es = m.edges();
    c.rng.shuffle(&mut es);
    es.sort_by_key(|(e, _)| if e.0 == hub || e.1 == hub { 0 } else { 1 });
    m.conc.clear();
    m.line.clear();
    let nl = c.rng.range(0, 5.min(es.len()));
    for (e, shared) in es.iter().take(nl) {
        let l = m.edge_len(e.0, e.1);
        let v = vector(c, f / l);
        m.line.push((if c.rng.chance(0.5) { *e } else { (e.1, e.0) }, v));
        c.count(if *shared > 1 { "distributed loads: interior edge" } else { "distributed loads: boundary edge" });
        if c.rng.chance(0.15) {
            // the same edge again, in either sense, perhaps several times, perhaps undone in between
            for _ in 0..c.rng.range(1, 4) {
                let v = if c.rng.chance(0.2) {
                    let s = m.line.iter().filter(|x| x.0 == *e || x.0 == (e.1, e.0)).fold((0.0, 0.0), |a, x| (a.0 + x.1 .0, a.1 + x.1 .1));
                    c.count("distributed loads: undone");
                    (-s.0, -s.1)
                } else {
                    vector(c, f / l)
                };
                m.line.push((if c.rng.chance(0.5) { *e } else { (e.1, e.0) }, v));
                c.count("distributed loads: repeated edge");
            }
        }
    }
    let nc = if nl == 0 { c.rng.range(1, 3) } else { c.rng.range(0, 3) };
    for _ in 0..nc {
        let at = if c.rng.chance(0.6) { hub } else { c.rng.below(n) };
        if m.conc.iter().any(|x| x.0 == at) {
            c.count("concentrated loads: repeated node");
        }
        let v = vector(c, f);
        m.conc.push((at, v));
        c.count("concentrated loads");
        if c.rng.chance(0.1) {
            // undone, and perhaps another one after that
            let s = m.conc.iter().filter(|x| x.0 == at).fold((0.0, 0.0), |a, x| (a.0 + x.1 .0, a.1 + x.1 .1));
            m.conc.push((at, (-s.0, -s.1)));
            if c.rng.chance(0.7) {
                let v = vector(c, f);
                m.conc.push((at, v));
            }
            c.count("concentrated loads: undone");
        }
    }
    c.describe(m.describe());
    c.sigf(&flat(&m.pts));
    let want = m.load();
    c.sigf(&want);
    let scale = maxabs(&want).max(f * 1e-3);
    let total = m.conc.len() + m.line.len();
    let mut first: Option<Vec<V2>> = None;
    for round in 0..3 {
        let order = c.rng.perm(total);
        let el = c.run("build", || build_ordered(&m, &order));
        let mut el = match el {
            Some(e) => e,
            None => return,
        };
        // what the model says it carries
        let sum = |v: Vec<V2>| v.iter().fold((0.0, 0.0), |a, b| (a.0 + b.0, a.1 + b.1));
        let cf = sum(el.conc_forces().iter().map(|(_, p)| (p[0], p[1])).collect());
        let wf = sum(m.conc.iter().map(|x| x.1).collect());
        c.check((cf.0 - wf.0).abs().max((cf.1 - wf.1).abs()) <= 1e-12 * f * total as f64, "listing", || {
            format!("listed concentrated forces sum to {:?}, applied {:?}", cf, wf)
        });
        let u = if round % 2 == 0 {
            c.run("gauss", || disp_of(&el.calc_displacements::<DenseGaussSolver>(), &m))
        } else {
            c.run("cholesky", || disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &m))
        };
        let u = match u {
            Some(u) => u,
            None => return,
        };
        let judge = |fine: bool| {
            let k = if fine { m.k(true) } else { k.clone() };
            let got = k.mulv(&flat(&u));
            let (g, w) = (m.project_vec(&got), m.project_vec(&want));
            (0..g.len())
                .map(|i| (g[i] - w[i]).abs())
                .enumerate()
                .fold((0usize, 0.0f64), |a, b| if b.1 > a.1 || b.1.is_nan() { (b.0, b.1) } else { a })
        };
        let mut worst = judge(false);
        let tol = if worst.1 > 1e-7 * scale && m.cond == Cond::Axi {
            worst = judge(true);
            1e-3
        } else {
            1e-7
        };
        c.check(worst.1 <= tol * scale, "nodal force", || {
            let d = m.free_dirs()[worst.0];
            format!("round {}: node {} direction {:?} carries a force off by {:e} (largest applied {:e})", round, d.0, d.1, worst.1, scale)
        });
        c.add("nodal forces checked", m.free_dirs().len() as u64);
        if let Some(f0) = &first {
            let um = maxabs(&flat(f0));
            let d = f0.iter().zip(&u).map(|(a, b)| (a.0 - b.0).abs().max((a.1 - b.1).abs())).fold(0.0, f64::max);
            // loads that cancel leave rounding errors only
            let nothing = maxabs(&m.project_vec(&want)) <= 1e-6 * f;
            c.check(d <= 1e-8 * um || nothing || d.is_nan() == um.is_nan() && um == 0.0, "order", || {
                format!("the displacements depend on the order of adding loads: {:e} of {:e}", d, um)
            });
            c.count("orders compared");
        } else {
            first = Some(u);
        }
    }
    c.nontrivial = true;
    // the edge integral itself
    let el = m.build();
    let t = *c.rng.pick(&m.tris);
    let e = Element::new(&el, [node(t[0]), node(t[1]), node(t[2])]);
    for i in 0..3 {
        let (a, b) = if c.rng.chance(0.5) { (t[i], t[(i + 1) % 3]) } else { (t[(i + 1) % 3], t[i]) };
        let q = c.rng.sym();
        let v = if c.rng.chance(0.5) { (q, 0.0) } else { (0.0, q) };
        if let Some(r) = c.run("edge integral", || e.int_f_l((node(a), node(b)), v.into())) {
            let l = m.edge_len(a, b);
            let s: Option<f64> = r.map(|x| x.iter().map(|y| y.1).sum());
            c.check(s.map_or(false, |s| (s - q * l).abs() <= 1e-9 * l), "edge integral", || {
                format!("edge ({},{}) of length {:e} under {:e} per length carries {:?}", a, b, l, q, s)
            });
            c.count("edge integrals");
        }
    }
    if let Some(x) = (0..m.n()).find(|x| !t.contains(x)) {
        let r = c.run("edge integral", || e.int_f_l((node(t[0]), node(x)), (1.0, 0.0).into()));
        c.check(r.map_or(false, |r| r.is_none()), "edge integral", || "an edge the element does not have was integrated".into());
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 20000,
            thorough: 400000,
            rule: "random models with crowded loads (several distributed and concentrated loads meeting at nodes, on interior and boundary edges, repeated, in both senses; one in 400 of hundreds of elements and loads), each built three times with the loads added in different orders; the force at every unsupported degree of freedom is recovered from the displacements with an independent stiffness and compared with the applied one; non-trivial: solved; distinct by node positions and loads",
            need: &["models on squared paper", "nodal forces checked", "distributed loads: interior edge", "distributed loads: repeated edge", "distributed loads: undone", "concentrated loads: undone", "concentrated loads: repeated node", "orders compared", "models of hundreds of elements"],
        },
        case,
    );
}
