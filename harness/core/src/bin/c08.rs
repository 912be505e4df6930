//! C08: static displacements against equilibrium of an independent element model.
use bugi::element::constraint::Constraint;
use bugi::element::Deformation;
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use verif_core::dense::maxabs;
use verif_core::fem::*;
use verif_core::{main_loop, Ctx, Plan};

const TOL: f64 = 1e-9;

fn judge(c: &mut Ctx, m: &Model, u: &[V2], who: &str) {
    if u.iter().any(|d| !d.0.is_finite() || !d.1.is_finite()) {
        c.fail("non-finite", format!("{}: non-finite displacement {:?}", who, u));
        return;
    }
    let r = m.load();
    let mut res = residual(m, &m.k(false), &r, u);
    if res > TOL && m.cond == Cond::Axi {
        res = res.min(residual(m, &m.k(true), &r, u));
        c.check(res <= 1e-6, "equilibrium", || format!("{}: relative out-of-balance force {:e}", who, res));
    } else {
        c.check(res <= TOL, "equilibrium", || format!("{}: relative out-of-balance force {:e}; u={:?}", who, res, u));
    }
    let ce = m.constraint_error(u);
    let um = maxabs(&flat(u));
    c.check(ce <= 1e-12 * um, "constraint", || format!("{}: constraint violated by {:e} (largest displacement {:e})", who, ce, um));
    for (i, k) in m.final_cons().iter().enumerate() {
        c.count(match k {
            Constraint::Free => continue,
            Constraint::XFixed => "constraints checked: x",
            Constraint::YFixed => "constraints checked: y",
            Constraint::XYFixed => "constraints checked: xy",
            Constraint::AngleFixed(_) => "constraints checked: angle",
        });
        let _ = i;
    }
    c.add("equilibrium equations checked", m.free_dirs().len() as u64);
}

/// the ways a result can be read agree with each other
fn accessors(c: &mut Ctx, m: &Model, d: &Deformation, u: &[V2]) {
    let um = maxabs(&flat(u));
    let norms = d.displacement_norms();
    if !c.check(norms.len() == m.n(), "displacement norms", || format!("{} of {} nodes", norms.len(), m.n())) {
        return;
    }
    for (i, (a, b)) in u.iter().zip(&norms).enumerate() {
        c.check((a.0.hypot(a.1) - b).abs() <= 1e-12 * um, "displacement norms", || format!("node {}: {:?} has norm {}", i, a, b));
    }
    // positions move in proportion to the scale, from the node's own place
    let size = maxabs(&flat(&m.pts));
    let s = if um > 0.0 { size / um * c.rng.f(-2.0, 2.0) } else { 1.0 };
    let at = d.displaced_nodes(s);
    for i in 0..m.n() {
        let want = (m.pts[i].0 + s * u[i].0, m.pts[i].1 + s * u[i].1);
        let e = (at[i][0] - want.0).abs().max((at[i][1] - want.1).abs());
        c.check(e <= 1e-12 * (size + um * s.abs()), "displaced nodes", || format!("node {}: {:?} instead of {:?}", i, at[i], want));
    }
    let rest = d.displaced_nodes(0.0);
    c.check((0..m.n()).all(|i| rest[i][0] == m.pts[i].0 && rest[i][1] == m.pts[i].1), "undisplaced nodes", || String::new());
    c.check(d.frequency().is_none(), "static result with a frequency", || String::new());
    c.count("accessors compared");
}

/// hundreds of nodes, some in hundreds of elements, supported and loaded all over
fn large(c: &mut Ctx) {
    let nodes = *c.rng.pick(&[120, 300, 700]);
    let m = gen_large(&mut c.rng, nodes, true, true);
    c.describe(m.describe());
    c.sigf(&flat(&m.pts));
    c.sigf(&m.load());
    let mut el = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    let gauss = nodes < 150;
    let u = c.run("solve", || {
        if gauss {
            disp_of(&el.calc_displacements::<DenseGaussSolver>(), &m)
        } else {
            disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &m)
        }
    });
    let u = match u {
        Some(u) if u.len() == m.n() => u,
        Some(u) => return c.fail("number of displacements", format!("{} for {} nodes", u.len(), m.n())),
        None => return,
    };
    let um = maxabs(&flat(&u));
    let r = m.load();
    let res = |fine: bool| {
        let (f, top) = m.forces(&u, fine);
        let d: Vec<f64> = f.iter().zip(&r).map(|(a, b)| a - b).collect();
        maxabs(&m.project_vec(&d)) / (top * um + maxabs(&r))
    };
    let (mut x, mut tol) = (res(false), TOL);
    if !(x <= TOL) && m.cond == Cond::Axi {
        (x, tol) = (res(true), 1e-6);
    }
    c.check(x <= tol, "equilibrium", || format!("relative out-of-balance force {:e}", x));
    let ce = m.constraint_error(&u);
    c.check(ce <= 1e-12 * um, "constraint", || format!("constraint violated by {:e} (largest displacement {:e})", ce, um));
    c.nontrivial = um > 0.0;
    c.add("equilibrium equations checked", m.free_dirs().len() as u64);
    c.count("models of hundreds of nodes");
    let skew = m.cons.iter().filter(|x| matches!(x.1, Constraint::AngleFixed(_))).count();
    if skew > 64 {
        c.count("models with more than 64 skew constraints");
    }
}

fn case(c: &mut Ctx) {
    if c.idx % 503 == 502 {
        return large(c);
    }
    if c.idx % 8 == 7 {
        return patch(c);
    }
    let big = c.idx % 50 == 49;
    let o = GenOpts { max_cells: if big { 9 } else { 4 }, ..Default::default() };
    let m = gen_model(&mut c.rng, &o);
    if m.kind.starts_with("plain") {
        c.count("models on squared paper");
    }
    c.describe(m.describe());
    c.sigf(&flat(&m.pts));
    c.sigf(&m.load());
    c.count(match m.cond {
        Cond::Stress(_) => "plane stress models",
        Cond::Strain(_) => "plane strain models",
        Cond::Axi => "axisymmetric models",
    });
    c.add("elements", m.tris.len() as u64);
    let mut el = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    if let Some((d, u)) = c.run("gauss", || {
        let d = el.calc_displacements::<DenseGaussSolver>();
        let u = disp_of(&d, &m);
        (d, u)
    }) {
        judge(c, &m, &u, "dense gauss");
        accessors(c, &m, &d, &u);
        c.nontrivial = maxabs(&flat(&u)) > 0.0;
        c.count("solves: dense gauss");
    }
    if let Some(u) = c.run("cholesky", || disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &m)) {
        judge(c, &m, &u, "envelope cholesky");
        c.count("solves: envelope cholesky");
    }
    if c.rng.chance(0.25) {
        // the model goes on to change after it was solved
        let mut at = m;
        for _ in 0..c.rng.range(1, 3) {
            let g = match grow(&mut c.rng, &at) {
                Some(g) => g,
                None => return,
            };
            if c.run("change panic", || extend(&mut el, &at, &g)).is_none() {
                return;
            }
            let gauss = c.rng.chance(0.5);
            let u = c.run("solve after a change", || {
                if gauss {
                    disp_of(&el.calc_displacements::<DenseGaussSolver>(), &g)
                } else {
                    disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &g)
                }
            });
            match u {
                Some(u) => judge(c, &g, &u, "after a change"),
                None => return,
            }
            c.count("solves after a change");
            at = g;
        }
    }
}

/// patch test: uniform stress applied through the boundary edges, statically determinate support
fn patch(c: &mut Ctx) {
    let o = GenOpts { axi: false, unused: false, max_cells: 4, ..Default::default() };
    let (kind, pts, tris) = gen_mesh(&mut c.rng, &o);
    let (e, nu, rho, name) = gen_material(&mut c.rng);
    let t = c.rng.logf(1e-3, 1e3);
    let cond = if c.rng.chance(0.5) { Cond::Stress(t) } else { Cond::Strain(t) };
    let mut m = Model { kind, pts, tris, cond, e, nu, rho, name, cons: vec![], conc: vec![], line: vec![] };
    let s = [c.rng.sym() * e * 1e-3, c.rng.sym() * e * 1e-3, c.rng.sym() * e * 1e-3];
    // tractions: outward normal of each boundary edge
    for tr in m.tris.clone() {
        let ccw = area2(m.pts[tr[0]], m.pts[tr[1]], m.pts[tr[2]]) > 0.0;
        for i in 0..3 {
            let (mut a, mut b) = (tr[i], tr[(i + 1) % 3]);
            if !ccw {
                std::mem::swap(&mut a, &mut b);
            }
            let key = (a.min(b), a.max(b));
            if m.edges().iter().find(|x| x.0 == key).unwrap().1 != 1 {
                continue;
            }
            let (p, q) = (m.pts[a], m.pts[b]);
            let l = m.edge_len(a, b);
            let n = ((q.1 - p.1) / l, -(q.0 - p.0) / l);
            let f = ((s[0] * n.0 + s[2] * n.1) * t, (s[2] * n.0 + s[1] * n.1) * t);
            let e = if c.rng.chance(0.5) { (a, b) } else { (b, a) };
            m.line.push((e, f));
        }
    }
    // pin one node, roll another along the direction between them
    let a = c.rng.below(m.n());
    let b = (0..m.n()).max_by(|&i, &j| m.edge_len(a, i).partial_cmp(&m.edge_len(a, j)).unwrap()).unwrap();
    let d = (m.pts[b].0 - m.pts[a].0, m.pts[b].1 - m.pts[a].1);
    let th = d.1.atan2(d.0) + std::f64::consts::FRAC_PI_2;
    m.cons.push((a, Constraint::XYFixed));
    m.cons.push((b, Constraint::AngleFixed(th)));
    if verif_core::dense::cond(&m.project(&m.k(false))) > 1e7 {
        c.count("patch tests skipped: ill conditioned");
        return;
    }
    c.describe(format!("patch test stress {:?} {}", s, m.describe()));
    c.sigf(&flat(&m.pts));
    c.sigf(&s);
    let mut el = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    // exact strain by inverting the law
    let col = |i: usize| {
        let mut v = [0.0; 4];
        v[i] = 1.0;
        law(m.cond, e, nu, v)
    };
    let (c0, c1, c2) = (col(0), col(1), col(2));
    let det = c0[0] * c1[1] - c0[1] * c1[0];
    let exx = (s[0] * c1[1] - s[1] * c1[0]) / det;
    let eyy = (s[1] * c0[0] - s[0] * c0[1]) / det;
    let gxy = s[2] / c2[2];
    let pa = m.pts[a];
    // u = E x + w J x, w chosen to satisfy the roller
    let field = |p: V2, w: f64| {
        let (x, y) = (p.0 - pa.0, p.1 - pa.1);
        (exx * x + (gxy / 2.0 - w) * y, (gxy / 2.0 + w) * x + eyy * y)
    };
    let (ct, st) = (th.cos(), th.sin());
    let f0 = field(m.pts[b], 0.0);
    let f1 = field(m.pts[b], 1.0);
    let (g0, g1) = (f0.0 * ct + f0.1 * st, f1.0 * ct + f1.1 * st);
    let w = -g0 / (g1 - g0);
    let exact: Vec<V2> = m.pts.iter().map(|&p| field(p, w)).collect();
    let um = maxabs(&flat(&exact));
    for (who, u) in [
        ("dense gauss", c.run("gauss", || disp_of(&el.calc_displacements::<DenseGaussSolver>(), &m))),
        ("envelope cholesky", c.run("cholesky", || disp_of(&el.calc_displacements::<CholeskyEnvelopeSolver>(), &m))),
    ] {
        if let Some(u) = u {
            let err = u.iter().zip(&exact).map(|(a, b)| (a.0 - b.0).abs().max((a.1 - b.1).abs())).fold(0.0, f64::max);
            c.check(err <= 1e-6 * um, "patch", || format!("{}: patch test error {:e} of {:e}", who, err, um));
            c.count("patch tests");
            c.nontrivial = true;
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 60000,
            thorough: 800000,
            rule: "random triangulated models (single triangles, fans, strips, grids with jitter, holes and random diagonals; renumbered, mixed orientation; plane stress, plane strain, axisymmetric; x, y, xy and skew constraints; concentrated and distributed loads; one in 500 of 120 to 700 nodes, with wheels and long strips), each solved by both direct solvers and judged by equilibrium with an independently computed stiffness, a quarter then changed (elements, nodes, constraints or loads added) and solved again, plus patch tests against the exact linear field; non-trivial: some displacement is not zero; distinct by node positions and loads",
            need: &["models on squared paper", "solves: dense gauss", "solves: envelope cholesky", "constraints checked: angle", "patch tests", "solves after a change", "axisymmetric models", "models of hundreds of nodes", "models with more than 64 skew constraints"],
        },
        case,
    );
}
