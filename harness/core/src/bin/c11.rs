//! C11: modal analysis against reference modes of independently assembled stiffness and mass.
use bugi::element::constraint::Constraint;
use verif_core::dense::{chol, cond, dot, geigh_vec, maxabs};
use verif_core::fem::*;
use verif_core::{main_loop, Ctx, Plan};

/// limits of what the eigensolver promises (calibrated over some 10^6 cases, see DESIGN.md)
const FREQ: f64 = 1e-5;
const SHARE: f64 = 5e-3;

fn case(c: &mut Ctx) {
    let big = c.idx % 40 == 39;
    let o = GenOpts { max_cells: if big { 5 } else { 3 }, axi: false, parts: 0.2, ..Default::default() };
    let large = c.idx % 2003 == 2002;
    let mut m = if large {
        let nodes = *c.rng.pick(&[60, 90, 120]);
        gen_large(&mut c.rng, nodes, false, true)
    } else {
        gen_model(&mut c.rng, &o)
    };
    if c.rng.chance(0.5) {
        m.conc.clear();
        m.line.clear();
    }
    // a model that is analysed, changed and analysed again
    let before = if !large && c.rng.chance(0.2) {
        grow(&mut c.rng, &m).map(|g| std::mem::replace(&mut m, g))
    } else {
        None
    };
    let (k, mass) = (m.project(&m.k(false)), m.project(&m.m()));
    let n = k.r;
    if m.used().iter().any(|u| !u) && chol(&mass).is_none() {
        c.count("skipped: massless directions");
        return;
    }
    let (w, v) = match geigh_vec(&k, &mass) {
        Some(x) => x,
        None => {
            c.count("skipped: reference failed");
            return;
        }
    };
    if (n > 60 && !large) || cond(&mass) > 1e6 {
        c.count("skipped: many unknowns");
        return;
    }
    if large {
        c.count("models of 60 to 120 nodes");
    }
    let want = match c.rng.below(4) {
        0 => n.min(c.rng.range(1, 10)),
        1 => n.min(c.rng.range(1, 30)),
        _ => n.min(c.rng.range(1, 4)),
    };
    let gap = w.windows(2).take(want).map(|p| (p[1] - p[0]) / p[1]).fold(1.0, f64::min);
    c.describe(format!("{} of {} modes, gap {:.3}, {}", want, n, gap, m.describe()));
    if gap < 0.05 {
        c.count(if gap < 1e-9 { "models with repeated frequencies" } else { "models with close frequencies" });
    }
    if (0..n).any(|i| i + 6 < n && w[i + 6] - w[i] <= 1e-9 * w[i + 6]) {
        c.count("models with more than six frequencies alike");
    }
    c.sigf(&flat(&m.pts));
    c.sigf(&w);
    c.sig(want);
    c.nontrivial = n > 1;
    c.count(match m.cond {
        Cond::Stress(_) => "plane stress models",
        _ => "plane strain models",
    });
    if m.final_cons().iter().any(|x| matches!(x, Constraint::AngleFixed(_))) {
        c.count("models with skew constraints");
    }
    let mut el = match c.run("build", || before.as_ref().unwrap_or(&m).build()) {
        Some(e) => e,
        None => return,
    };
    if let Some(b) = &before {
        let kb = b.project(&b.k(false));
        let mb = b.project(&b.m());
        if kb.r == 0 || chol(&mb).is_none() || geigh_vec(&kb, &mb).is_none() {
            c.count("skipped: first analysis not judged");
            return;
        }
        let first = want.min(kb.r);
        if c.run("modes panic", || el.calc_modes(first).len()).is_none() || c.run("change panic", || extend(&mut el, b, &m)).is_none() {
            return;
        }
        c.count("models changed between analyses");
    }
    let res = c.run("modes panic", || {
        el.calc_modes(want).iter().map(|d| (d.frequency(), disp_of(d, &m), d.displacement_norms())).collect::<Vec<_>>()
    });
    let res = match res {
        Some(r) => r,
        None => return,
    };
    if !c.check(res.len() == want, "number of modes", || format!("{} instead of {}", res.len(), want)) {
        return;
    }
    let fm = m.m();
    let mut vecs: Vec<Vec<f64>> = Vec::new();
    for (i, (f, u, norms)) in res.iter().enumerate() {
        let f = match f {
            Some(f) if f.is_finite() => *f,
            x => {
                c.fail("frequency", format!("mode {}: {:?}", i, x));
                return;
            }
        };
        let exact = w[i].sqrt();
        let err = (f - exact).abs() / exact;
        if !c.check(err <= FREQ, "frequency", || format!("mode {}: {} instead of {} (relative error {:e}); all {:?}", i, f, exact, err, res.iter().map(|r| r.0).collect::<Vec<_>>())) {
            return;
        }
        if err > 5e-7 {
            c.count("stat: frequency worse than 5e-7");
        }
        let uf = flat(u);
        let um = maxabs(&uf);
        if !c.check(um.is_finite() && um > 0.0, "mode shape", || format!("mode {}: {:?}", i, u)) {
            return;
        }
        let ce = m.constraint_error(u);
        c.check(ce <= 1e-12 * um, "constraint", || format!("mode {}: constraint violated by {:e} of {:e}", i, ce, um));
        let nd = u.iter().zip(norms).map(|(a, b)| (a.0.hypot(a.1) - b).abs()).fold(0.0, f64::max);
        c.check(nd <= 1e-12 * um, "displacement norms", || format!("mode {}: by {:e} of {:e}", i, nd, um));
        // the shape, up to sign, of unit modal mass
        let z = m.project_vec(&uf);
        let mz = mass.mulv(&z);
        let unit = dot(&z, &mz);
        c.check((unit - 1.0).abs() <= 1e-6, "modal mass", || format!("mode {}: {}", i, unit));
        let share = (0..n).filter(|&j| (w[j] - w[i]).abs() > 0.04 * w[i].max(w[j])).map(|j| (0..n).map(|r| v.at(r, j) * mz[r]).sum::<f64>().powi(2)).sum::<f64>().sqrt();
        c.check(share <= SHARE, "mode shape", || format!("mode {}: share of other modes {:e}", i, share));
        if share > 1e-3 {
            c.count("stat: share worse than 1e-3");
        }
        let full = dot(&uf, &fm.mulv(&uf));
        c.check((full - unit).abs() <= 1e-9 * unit, "mode shape outside the constraints", || format!("mode {}: {} and {}", i, full, unit));
        for (j, p) in vecs.iter().enumerate() {
            let o = dot(p, &fm.mulv(&uf)).abs();
            c.check(o <= SHARE, "orthogonality", || format!("modes {} and {}: {:e}", j, i, o));
        }
        vecs.push(uf);
        c.count("modes compared");
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 40000,
            thorough: 600000,
            rule: "random plane stress and plane strain models (as for C08, up to 60 free directions, one in 2000 up to 220, all constraint kinds) some of several alike parts, so that frequencies repeat, some changed after a first analysis; frequency, modal mass, shape, orthogonality and constraints of every mode compared with an independent assembly of stiffness and consistent mass and an independent eigensolver; non-trivial: more than one free direction; distinct by node positions and spectrum",
            need: &["modes compared", "plane stress models", "plane strain models", "models with skew constraints", "models changed between analyses", "models with repeated frequencies", "models with close frequencies", "models with more than six frequencies alike", "models of 60 to 120 nodes"],
        },
        case,
    );
}
