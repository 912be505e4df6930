//! C10: stress recovery and the von Mises criterion.
use bugi::element::constraint::Constraint;
use bugi::element::stress::{StressState, StressType};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::{LinearMatrix, MatrixLike};
use verif_core::dense::{maxabs, M};
use verif_core::fem::*;
use verif_core::{main_loop, trap, Ctx, Plan};

fn tensor_vm(t: &M) -> f64 {
    let p = (t.at(0, 0) + t.at(1, 1) + t.at(2, 2)) / 3.0;
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = t.at(i, j) - if i == j { p } else { 0.0 };
            s += d * d;
        }
    }
    (1.5 * s).sqrt()
}

fn tensor(xx: f64, yy: f64, zz: f64, xy: f64, yz: f64, xz: f64) -> M {
    M { r: 3, c: 3, a: vec![xx, xy, xz, xy, yy, yz, xz, yz, zz] }
}

/// components of a plane or axisymmetric state (xx, yy, xy, zz), by what the API offers
fn components(s: &StressState) -> Option<Vec<f64>> {
    match s.state_type {
        StressType::Plane => {
            let c = s.to_cauchy();
            Some(vec![c[(0, 0)], c[(1, 1)], c[(0, 1)]])
        }
        _ => {
            // no accessor: read the printed form, if it still has this shape
            let t = format!("{:?}", s);
            let a = t.find("data: [")? + 7;
            let b = a + t[a..].find(']')?;
            let v: Vec<f64> = t[a..b].split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if v.len() >= 4 {
                Some(v[..4].to_vec())
            } else {
                None
            }
        }
    }
}

fn states(c: &mut Ctx) {
    let sc = c.rng.logf(1e-6, 1e12);
    let kind = c.rng.below(4);
    let len = [1, 3, 4, 6][kind];
    let mut v: Vec<f64> = (0..len).map(|_| sc * c.rng.sym()).collect();
    if c.rng.chance(0.3) {
        for x in v.iter_mut() {
            if c.rng.chance(0.5) {
                *x = 0.0;
            }
        }
    }
    if c.rng.chance(0.1) {
        let h = v[0];
        for (i, x) in v.iter_mut().enumerate() {
            let normal = if len == 6 { i < 3 } else { i != 2 };
            *x = if normal { h } else { 0.0 };
        }
    }
    c.describe(format!("stress vector {:?}", v));
    c.sigf(&v);
    c.nontrivial = maxabs(&v) > 0.0;
    c.count(["bar states", "plane states", "axisymmetric states", "three-dimensional states", "models of hundreds of nodes", "stresses averaged over more than 255 elements"][kind]);
    let make = |v: &[f64], col: bool| {
        StressState::from_vector(if col { LinearMatrix::col_vec(v.to_vec()) } else { LinearMatrix::row_vec(v.to_vec()) })
    };
    let tens = |v: &[f64]| match len {
        1 => tensor(v[0], 0.0, 0.0, 0.0, 0.0, 0.0),
        3 => tensor(v[0], v[1], 0.0, v[2], 0.0, 0.0),
        4 => tensor(v[0], v[1], v[3], v[2], 0.0, 0.0),
        _ => tensor(v[0], v[1], v[2], v[3], v[4], v[5]),
    };
    let col = c.rng.chance(0.5);
    let s = match c.run("state", || make(&v, col)) {
        Some(s) => s,
        None => return,
    };
    let t = tens(&v);
    let want = tensor_vm(&t);
    let tol = 1e-10 * sc;
    if let Some(vm) = c.run("von mises", || s.von_mises()) {
        c.check((vm - want).abs() <= tol && vm >= 0.0, "von mises", || format!("von Mises {} instead of {}", vm, want));
    }
    // other axes
    let th = c.rng.f(-7.0, 7.0);
    let (i, j) = if len == 6 { *c.rng.pick(&[(0, 1), (1, 2), (0, 2)]) } else { (0, 1) };
    if len >= 3 {
        let mut q = M::eye(3);
        q.set(i, i, th.cos());
        q.set(i, j, -th.sin());
        q.set(j, i, th.sin());
        q.set(j, j, th.cos());
        let r = q.mul(&t).mul(&q.t());
        let rv = match len {
            3 => vec![r.at(0, 0), r.at(1, 1), r.at(0, 1)],
            4 => vec![r.at(0, 0), r.at(1, 1), r.at(0, 1), r.at(2, 2)],
            _ => vec![r.at(0, 0), r.at(1, 1), r.at(2, 2), r.at(0, 1), r.at(1, 2), r.at(0, 2)],
        };
        if let Some(vm) = c.run("von mises", || make(&rv, col).von_mises()) {
            c.check((vm - want).abs() <= tol, "axes", || format!("von Mises {} in rotated axes, {} before", vm, want));
        }
    }
    if len != 4 {
        if let Some(k) = c.run("cauchy", || s.to_cauchy()) {
            let d = [0, 1, 0, 2, 0, 0, 3][len];
            let ok = k.shape() == (d, d) && (0..d).all(|a| (0..d).all(|b| (k[(a, b)] - t.at(a, b)).abs() <= tol));
            c.check(ok, "cauchy", || format!("Cauchy tensor {:?} instead of {:?}", k, t.a));
            c.count("cauchy tensors");
        }
    }
    // linear combinations, as the averaging uses them
    let w: Vec<f64> = (0..len).map(|_| sc * c.rng.sym()).collect();
    let (a, b) = (c.rng.f(0.5, 4.0), c.rng.f(0.5, 4.0));
    if let Some(vm) = c.run("combination", || ((make(&v, col) * a + make(&w, !col)) / b).von_mises()) {
        let z: Vec<f64> = v.iter().zip(&w).map(|(x, y)| (x * a + y) / b).collect();
        let want = tensor_vm(&tens(&z));
        c.check((vm - want).abs() <= 20.0 * tol, "combination", || format!("({:?}*{}+{:?})/{}: von Mises {} instead of {}", v, a, w, b, vm, want));
    }
}

fn recovery(c: &mut Ctx) {
    let big = c.rng.chance(0.05);
    let o = GenOpts { max_cells: if big { 8 } else { 4 }, ..Default::default() };
    let large = c.idx % 301 == 299;
    let mut m = if large {
        let nodes = *c.rng.pick(&[60, 700, 700]);
        gen_large(&mut c.rng, nodes, true, true)
    } else {
        gen_model(&mut c.rng, &o)
    };
    if large {
        c.count("models of hundreds of nodes");
    }
    if !large && m.cond == Cond::Axi && c.rng.chance(0.4) {
        // move the model so that its innermost node lies on the axis, held there
        let (i, p) = m.pts.iter().cloned().enumerate().min_by(|a, b| a.1 .0.partial_cmp(&b.1 .0).unwrap()).unwrap();
        for q in m.pts.iter_mut() {
            q.0 -= p.0;
        }
        m.cons.retain(|x| x.0 != i);
        m.cons.push((i, if m.used()[i] { Constraint::XFixed } else { Constraint::XYFixed }));
        let kp = m.project(&m.k(false));
        if kp.r == 0 || kp.a.iter().any(|x| !x.is_finite()) || verif_core::dense::cond(&kp) > 1e7 {
            return;
        }
        c.count("models touching the axis");
    }
    c.describe(m.describe());
    c.sigf(&flat(&m.pts));
    c.sigf(&m.load());
    let mut el = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    let gauss = !large && c.rng.chance(0.5);
    let d = c.run("solve", || if gauss { el.calc_displacements::<DenseGaussSolver>() } else { el.calc_displacements::<CholeskyEnvelopeSolver>() });
    let d = match d {
        Some(d) => d,
        None => return,
    };
    let u = disp_of(&d, &m);
    let axi = m.cond == Cond::Axi;
    // reference: per element, then averaged
    let n = m.n();
    let mut sum = vec![[0.0f64; 4]; n];
    let mut cnt = vec![0usize; n];
    let mut size = f64::MAX;
    let mut tol_scale = 0.0f64;
    for t in &m.tris {
        let p = [m.pts[t[0]], m.pts[t[1]], m.pts[t[2]]];
        let uu = [u[t[0]], u[t[1]], u[t[2]]];
        let (g, _) = grads(p);
        for x in &g {
            size = size.min(1.0 / (x.0.abs() + x.1.abs()));
        }
        for i in 0..3 {
            let mut w = [0.0; 3];
            w[i] = 1.0;
            let mut s = strain(p, uu, w, axi);
            if axi {
                s[3] = if p[i].0 == 0.0 { s[0] } else { uu[i].0 / p[i].0 };
                if p[i].0 != 0.0 {
                    tol_scale = tol_scale.max(uu[i].0.abs() / p[i].0.abs());
                }
            }
            let q = law(m.cond, m.e, m.nu, s);
            for k in 0..4 {
                sum[t[i]][k] += q[k];
            }
            cnt[t[i]] += 1;
        }
    }
    let um = maxabs(&flat(&u));
    tol_scale = (tol_scale + um / size) * m.e / (1.0 - 2.0 * m.nu);
    let tol = 1e-10 * tol_scale;
    let got = match c.run("stresses", || d.stresses()) {
        Some(s) => s,
        None => return,
    };
    let vms = match c.run("von mises", || d.von_mises()) {
        Some(s) => s,
        None => return,
    };
    if !c.check(got.len() == n && vms.len() == n, "count", || format!("{} stresses, {} von Mises values for {} nodes", got.len(), vms.len(), n)) {
        return;
    }
    for i in 0..n {
        if cnt[i] == 0 {
            c.check(got[i].is_none() && vms[i] == 0.0, "unused node", || format!("node {} is in no element but has stress {:?}", i, got[i]));
            c.count("nodes outside every element");
            continue;
        }
        let want: Vec<f64> = sum[i].iter().map(|x| x / cnt[i] as f64).collect();
        let s = match &got[i] {
            Some(s) => s.clone(),
            None => {
                c.fail("missing", format!("no stress at node {}", i));
                continue;
            }
        };
        let comp = trap(|| components(&s));
        match comp {
            Ok(Some(v)) => {
                let names = ["xx", "yy", "xy", "zz"];
                for k in 0..v.len().min(if axi { 4 } else { 3 }) {
                    c.check((v[k] - want[k]).abs() <= tol, "stress", || {
                        format!("node {} in {} elements: sigma_{} = {:e}, expected {:e} (tolerance {:e})", i, cnt[i], names[k], v[k], want[k], tol)
                    });
                }
                c.count("nodal stresses compared");
                if cnt[i] > 255 {
                    c.count("stresses averaged over more than 255 elements");
                }
                if cnt[i] > 1 {
                    c.count("averaged nodal stresses");
                }
            }
            Ok(None) => c.count("stress components unreadable"),
            Err(e) => c.fail("stress", e),
        }
        let full = tensor_vm(&tensor(want[0], want[1], want[3], want[2], 0.0, 0.0));
        let inplane = tensor_vm(&tensor(want[0], want[1], 0.0, want[2], 0.0, 0.0));
        let ok = (vms[i] - full).abs() <= 4.0 * tol;
        if !ok {
            // known: plane strain values leave out the out-of-plane normal stress; any other value is new
            let known = matches!(m.cond, Cond::Strain(_)) && (vms[i] - inplane).abs() <= 4.0 * tol;
            c.fail(
                if known { "plane-strain-von-mises" } else { "von mises" },
                format!("node {}: von Mises {:e}, full tensor gives {:e} (without zz {:e})", i, vms[i], full, inplane),
            );
        }
        c.count("nodal von Mises values compared");
    }
    c.nontrivial = um > 0.0;
}

fn case(c: &mut Ctx) {
    if c.idx % 3 == 0 {
        states(c)
    } else {
        recovery(c)
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 24000,
            thorough: 500000,
            rule: "stress vectors of every kind against the full-tensor invariants and in rotated axes, and nodal stresses of random solved models against element-by-element recovery from the returned displacements (models touching the axis and unused nodes included, nodes shared by hundreds of elements in one model of 300); non-trivial: some stress or displacement is not zero; distinct by stress vector, or node positions and loads",
            need: &["nodal stresses compared", "averaged nodal stresses", "nodal von Mises values compared", "models touching the axis", "nodes outside every element", "cauchy tensors", "three-dimensional states", "models of hundreds of nodes", "stresses averaged over more than 255 elements"],
        },
        case,
    );
}
