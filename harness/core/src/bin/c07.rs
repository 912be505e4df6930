//! C07: the same model described differently gives the same results (metamorphic relations).
use bugi::element::constraint::Constraint;
use bugi::element::element::Element;
use bugi::element::{ElementAssemblage, NodeId};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use verif_core::dense::{cond, geigh, maxabs};
use verif_core::fem::*;
use verif_core::{main_loop, Ctx, Plan, Rng};

#[derive(Clone, Debug)]
struct Static {
    u: Vec<V2>,
    norms: Vec<f64>,
    vm: Vec<f64>,
    /// plane states only: xx, yy, xy per node
    sig: Vec<Option<[f64; 3]>>,
}

fn solve(c: &mut Ctx, m: &Model, gauss: bool, what: &str) -> Option<Static> {
    c.run(&format!("panic: {}", what), || {
        let mut el = m.build();
        let d = if gauss { el.calc_displacements::<DenseGaussSolver>() } else { el.calc_displacements::<CholeskyEnvelopeSolver>() };
        let sig = if m.cond == Cond::Axi {
            vec![]
        } else {
            d.stresses()
                .iter()
                .map(|s| {
                    s.as_ref().map(|s| {
                        let t = s.to_cauchy();
                        [t[(0, 0)], t[(1, 1)], t[(0, 1)]]
                    })
                })
                .collect()
        };
        Static { u: disp_of(&d, m), norms: d.displacement_norms(), vm: d.von_mises(), sig }
    })
}

fn modes(c: &mut Ctx, m: &Model, n: usize, what: &str) -> Option<Vec<(f64, Vec<f64>)>> {
    c.run(&format!("panic: modes, {}", what), || {
        let mut el = m.build();
        el.calc_modes(n).iter().map(|d| (d.frequency().unwrap_or(f64::NAN), d.displacement_norms())).collect()
    })
}

/// What a change of description does to results.
struct Law {
    name: &'static str,
    /// node i of the original is node map[i] of the other
    map: Vec<usize>,
    rot: f64,
    u: f64,
    sigma: f64,
    freq: f64,
    shape: f64,
}

fn rotate_con(k: Constraint, a: f64) -> Constraint {
    match k {
        Constraint::XFixed => Constraint::AngleFixed(a),
        Constraint::YFixed => Constraint::AngleFixed(a + std::f64::consts::FRAC_PI_2),
        Constraint::AngleFixed(t) => Constraint::AngleFixed(t + a),
        k => k,
    }
}

fn rot(v: V2, a: f64) -> V2 {
    (v.0 * a.cos() - v.1 * a.sin(), v.0 * a.sin() + v.1 * a.cos())
}

fn change(rng: &mut Rng, m: &Model) -> (Model, Law) {
    let n = m.n();
    let mut o = m.clone();
    let mut l = Law { name: "", map: (0..n).collect(), rot: 0.0, u: 1.0, sigma: 1.0, freq: 1.0, shape: 1.0 };
    let axi = m.cond == Cond::Axi;
    match rng.below(9) {
        0 => {
            l.name = "moved";
            let size = m.pts.iter().flat_map(|p| [p.0.abs(), p.1.abs()]).fold(0.0, f64::max);
            let t = (if axi { 0.0 } else { 3.0 * size * rng.sym() }, 3.0 * size * rng.sym());
            for p in o.pts.iter_mut() {
                *p = (p.0 + t.0, p.1 + t.1);
            }
        }
        1 | 2 if !axi => {
            l.name = "rotated";
            let a = match rng.below(4) {
                0 => std::f64::consts::FRAC_PI_2,
                1 => std::f64::consts::PI,
                _ => rng.f(-7.0, 7.0),
            };
            l.rot = a;
            for p in o.pts.iter_mut() {
                *p = rot(*p, a);
            }
            o.cons = m.final_cons().into_iter().enumerate().filter(|(_, k)| *k != Constraint::Free).map(|(i, k)| (i, rotate_con(k, a))).collect();
            for f in o.conc.iter_mut() {
                f.1 = rot(f.1, a);
            }
            for f in o.line.iter_mut() {
                f.1 = rot(f.1, a);
            }
        }
        3 => {
            l.name = "renumbered";
            let p = rng.perm(n);
            l.map = p.clone();
            for i in 0..n {
                o.pts[p[i]] = m.pts[i];
            }
            for t in o.tris.iter_mut() {
                for i in t.iter_mut() {
                    *i = p[*i];
                }
            }
            for x in o.cons.iter_mut() {
                x.0 = p[x.0];
            }
            for x in o.conc.iter_mut() {
                x.0 = p[x.0];
            }
            for x in o.line.iter_mut() {
                x.0 = (p[x.0 .0], p[x.0 .1]);
            }
        }
        4 => {
            l.name = "elements relisted";
            rng.shuffle(&mut o.tris);
            let mirror = rng.below(3);
            for t in o.tris.iter_mut() {
                let r = rng.below(3);
                t.rotate_left(r);
                if mirror == 0 || mirror == 1 && rng.chance(0.5) {
                    t.swap(1, 2);
                }
            }
        }
        5 => {
            l.name = "loads and constraints reordered";
            rng.shuffle(&mut o.cons);
            rng.shuffle(&mut o.conc);
            rng.shuffle(&mut o.line);
            for x in o.line.iter_mut() {
                if rng.chance(0.5) {
                    x.0 = (x.0 .1, x.0 .0);
                }
            }
            // a load given in two parts
            if let Some(x) = o.conc.last().cloned() {
                if rng.chance(0.5) {
                    let h = (x.1 .0 / 2.0, x.1 .1 / 2.0);
                    o.conc.last_mut().unwrap().1 = h;
                    o.conc.insert(0, (x.0, h));
                }
            }
            if let Some(x) = o.line.last().cloned() {
                if rng.chance(0.5) {
                    let h = (x.1 .0 / 2.0, x.1 .1 / 2.0);
                    o.line.last_mut().unwrap().1 = h;
                    let e = if rng.chance(0.5) { x.0 } else { (x.0 .1, x.0 .0) };
                    o.line.insert(0, (e, h));
                }
            }
            if let Some(&x) = o.cons.first() {
                if !matches!(x.1, Constraint::AngleFixed(_)) {
                    o.cons.push(x);
                }
            }
        }
        6 => {
            l.name = "stiffness and density scaled";
            let s = rng.logf(1e-3, 1e3);
            let d = rng.logf(1e-2, 1e2);
            o.e *= s;
            o.rho *= d;
            l.u = 1.0 / s;
            l.freq = (s / d).sqrt();
            l.shape = 1.0 / d.sqrt();
        }
        7 => {
            l.name = "loads scaled";
            let s = *rng.pick(&[-1.0, 2.0, 1e-6, 1e6, 0.37]);
            for x in o.conc.iter_mut() {
                x.1 = (x.1 .0 * s, x.1 .1 * s);
            }
            for x in o.line.iter_mut() {
                x.1 = (x.1 .0 * s, x.1 .1 * s);
            }
            l.u = s;
            l.sigma = s.abs();
        }
        _ => {
            let s = rng.logf(1e-2, 1e2);
            match o.cond {
                Cond::Axi => {
                    // lengths scaled, all forces kept: stiffness grows by s, stresses fall by s squared
                    l.name = "lengths scaled";
                    for p in o.pts.iter_mut() {
                        *p = (p.0 * s, p.1 * s);
                    }
                    for x in o.line.iter_mut() {
                        x.1 = (x.1 .0 / s, x.1 .1 / s);
                    }
                    l.u = 1.0 / s;
                    l.sigma = 1.0 / (s * s);
                    l.freq = 1.0 / s;
                    l.shape = s.powf(-1.5);
                }
                Cond::Stress(t) | Cond::Strain(t) => {
                    let plane = matches!(o.cond, Cond::Stress(_));
                    let make = |t: f64| if plane { Cond::Stress(t) } else { Cond::Strain(t) };
                    if rng.chance(0.5) {
                        l.name = "thickness scaled";
                        o.cond = make(t * s);
                        l.u = 1.0 / s;
                        l.sigma = 1.0 / s;
                        l.shape = 1.0 / s.sqrt();
                    } else {
                        l.name = "lengths scaled";
                        for p in o.pts.iter_mut() {
                            *p = (p.0 * s, p.1 * s);
                        }
                        for x in o.line.iter_mut() {
                            x.1 = (x.1 .0 / s, x.1 .1 / s);
                        }
                        l.sigma = 1.0 / s;
                        l.freq = 1.0 / s;
                        l.shape = 1.0 / s;
                    }
                }
            }
        }
    }
    if l.name.is_empty() {
        l.name = "unchanged";
    }
    if axi && (l.name == "rotated") {
        unreachable!();
    }
    (o, l)
}

fn case(c: &mut Ctx) {
    let o = GenOpts { max_cells: 4, ..Default::default() };
    let large = c.idx % 503 == 502;
    let m = if large {
        let nodes = *c.rng.pick(&[60, 150, 300, 700]);
        gen_large(&mut c.rng, nodes, true, true)
    } else {
        gen_model(&mut c.rng, &o)
    };
    let (other, law) = change(&mut c.rng, &m);
    c.describe(format!("{} ({:?}) of {}", law.name, (law.rot, law.u), m.describe()));
    c.sigf(&flat(&m.pts));
    c.sigf(&m.load());
    c.sig(law.name);
    let gauss = !large && c.rng.chance(0.4);
    let (a, b) = match (solve(c, &m, gauss, "original"), solve(c, &other, gauss, law.name)) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    c.count(&format!("pairs compared: {}", law.name));
    let ua = maxabs(&flat(&a.u));
    let um = ua * law.u.abs();
    c.nontrivial = um > 0.0;
    // what rounding leaves when the supports take every load
    let noise = if large {
        // supported and loaded all over
        0.0
    } else {
        let kp = m.project(&m.k(false));
        1e-12 * maxabs(&m.load()) * cond(&kp) / kp.max()
    };
    let n = m.n();
    let mut worst = 0.0f64;
    for i in 0..n {
        let want = rot((a.u[i].0 * law.u, a.u[i].1 * law.u), law.rot);
        let got = b.u[law.map[i]];
        worst = worst.max((want.0 - got.0).abs()).max((want.1 - got.1).abs());
        worst = worst.max((a.norms[i] * law.u.abs() - b.norms[law.map[i]]).abs());
    }
    c.check(worst <= 1e-7 * um + noise * law.u.abs(), "displacements differ", || format!("{}: by {:e} of {:e}", law.name, worst, um));
    // stresses are judged against the largest of what a strain of this displacement could make
    let sm = maxabs(&a.vm).max(a.sig.iter().flatten().map(|s| maxabs(s)).fold(0.0, f64::max)) * law.sigma;
    let hmin = m.edges().iter().map(|(e, _)| m.edge_len(e.0, e.1)).fold(f64::MAX, f64::min);
    let floor = m.e * (ua + 1e8 * noise) / hmin * law.sigma / (1.0 - 2.0 * m.nu);
    let lim = 1e-7 * sm + 1e-8 * floor;
    for i in 0..n {
        let d = (a.vm[i] * law.sigma - b.vm[law.map[i]]).abs();
        if !c.check(d <= lim, "von Mises differs", || format!("{}: node {}: {:e} and {:e} (limit {:e})", law.name, i, a.vm[i] * law.sigma, b.vm[law.map[i]], lim)) {
            break;
        }
    }
    if m.cond != Cond::Axi {
        let sg = if law.u < 0.0 { -1.0 } else { 1.0 } * law.sigma;
        for i in 0..n {
            let (p, q) = (a.sig[i], b.sig[law.map[i]]);
            let ok = match (p, q) {
                (None, None) => true,
                (Some(s), Some(t)) => {
                    let (co, si) = (law.rot.cos(), law.rot.sin());
                    let w = [
                        sg * (s[0] * co * co + s[1] * si * si - 2.0 * s[2] * si * co),
                        sg * (s[0] * si * si + s[1] * co * co + 2.0 * s[2] * si * co),
                        sg * ((s[0] - s[1]) * si * co + s[2] * (co * co - si * si)),
                    ];
                    (0..3).all(|k| (w[k] - t[k]).abs() <= lim)
                }
                _ => false,
            };
            if !c.check(ok, "stresses differ", || format!("{}: node {}: {:?} and {:?} (limit {:e}, factor {})", law.name, i, p, q, lim, sg)) {
                break;
            }
        }
        c.count("stress fields compared");
    }
    if large {
        c.count("models of hundreds of nodes");
        return;
    }
    if c.idx % 5 == 0 && m.cond != Cond::Axi {
        modal(c, &m, &other, &law);
    }
    if c.idx % 4 == 1 {
        steps(c, &m);
    }
    if c.idx % 3 == 0 {
        rigid(c, &m);
    }
}

/// a model built up in steps, with results asked for in between, against the same model built at once
fn steps(c: &mut Ctx, m: &Model) {
    let gauss = c.rng.chance(0.4);
    let ask = |el: &mut ElementAssemblage, m: &Model| {
        let d = if gauss { el.calc_displacements::<DenseGaussSolver>() } else { el.calc_displacements::<CholeskyEnvelopeSolver>() };
        (disp_of(&d, m), d.von_mises())
    };
    let mut el = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    let mut at = m.clone();
    let modal = m.cond != Cond::Axi && c.rng.chance(0.3);
    for _ in 0..c.rng.range(1, 3) {
        if modal && c.rng.chance(0.5) && at.project(&at.m()).r <= 20 {
            c.run("panic: modes of a model built in steps", || el.calc_modes(1).len());
        }
        if c.run("panic: model built in steps", || ask(&mut el, &at)).is_none() {
            return;
        }
        let g = match grow(&mut c.rng, &at) {
            Some(g) => g,
            None => break,
        };
        if c.run("panic: model changed", || extend(&mut el, &at, &g)).is_none() {
            return;
        }
        at = g;
    }
    // asked twice: results do not use themselves up
    for round in 0..2 {
        let (a, b) = match (c.run("panic: model built in steps", || ask(&mut el, &at)), c.run("panic: model built at once", || ask(&mut at.build(), &at))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let kp = at.project(&at.k(false));
        let noise = 1e-12 * maxabs(&at.load()) * cond(&kp) / kp.max();
        let um = maxabs(&flat(&b.0));
        let worst = flat(&a.0).iter().zip(flat(&b.0)).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
        c.check(worst <= 1e-7 * um + noise, "displacements differ", || format!("built in steps, answer {}: by {:e} of {:e}; {}", round, worst, um, at.describe()));
        let hmin = at.edges().iter().map(|(e, _)| at.edge_len(e.0, e.1)).fold(f64::MAX, f64::min);
        let lim = 1e-7 * maxabs(&b.1) + 1e-8 * at.e * (um + 1e8 * noise) / hmin / (1.0 - 2.0 * at.nu);
        let worst = a.1.iter().zip(&b.1).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
        c.check(worst <= lim && a.1.len() == b.1.len(), "von Mises differs", || format!("built in steps, answer {}: by {:e} (limit {:e})", round, worst, lim));
    }
    c.count("models built in steps");
}

fn modal(c: &mut Ctx, m: &Model, other: &Model, law: &Law) {
    let w = match geigh(&m.project(&m.k(false)), &m.project(&m.m())) {
        Some(w) if !w.is_empty() => w,
        _ => return,
    };
    let want = c.rng.range(1, 3).min(w.len());
    if w.len() > 30 || w.windows(2).take(want).any(|p| p[1] < 1.08 * p[0]) {
        c.count("modal comparisons skipped: close or many frequencies");
        return;
    }
    if let (Some(p), Some(q)) = (modes(c, m, want, "original"), modes(c, other, want, law.name)) {
        if !c.check(p.len() == q.len(), "number of modes differs", || format!("{} and {}", p.len(), q.len())) {
            return;
        }
        for k in 0..p.len() {
            let f = p[k].0 * law.freq;
            if !c.check((f - q[k].0).abs() <= 1e-5 * f, "frequencies differ", || format!("{}: mode {}: {} and {}", law.name, k, f, q[k].0)) {
                return;
            }
            let sc = maxabs(&p[k].1) * law.shape;
            let d = (0..m.n()).map(|i| (p[k].1[i] * law.shape - q[k].1[law.map[i]]).abs()).fold(0.0, f64::max);
            c.check(d <= 0.02 * sc, "mode shapes differ", || format!("{}: mode {}: by {:e} of {:e}", law.name, k, d, sc));
            c.count("modes compared");
        }
    }
}

/// a rigid motion imposed on the elements strains nothing
fn rigid(c: &mut Ctx, m: &Model) {
    let el: ElementAssemblage = match c.run("build", || m.build()) {
        Some(e) => e,
        None => return,
    };
    let axi = m.cond == Cond::Axi;
    let t = (if axi { 0.0 } else { c.rng.sym() }, c.rng.sym());
    let w = if axi { 0.0 } else { c.rng.sym() };
    let pts = m.pts.clone();
    let size = pts.iter().flat_map(|p| [p.0.abs(), p.1.abs()]).fold(0.0, f64::max);
    let field = move |id: NodeId| {
        let p = pts[id.into_idx()];
        (t.0 * size - w * p.1, t.1 * size + w * p.0)
    };
    let hmin = m.tris.iter().map(|t| area2(m.pts[t[0]], m.pts[t[1]], m.pts[t[2]]).abs() / (m.edge_len(t[0], t[1]).max(m.edge_len(t[1], t[2])))).fold(f64::MAX, f64::min);
    let lim = 1e-10 * m.e * 2.0 * size / hmin / (1.0 - 2.0 * m.nu);
    for d in el.element_descriptors() {
        let e = Element::new(&el, d.into_parts());
        let f = field.clone();
        if let Some(s) = c.run("stresses", || e.stresses(Box::new(move |id| f(id).into()))) {
            for (id, s) in s {
                let v = s.von_mises();
                c.check(v <= lim, "rigid motion stresses", || format!("node {:?}: von Mises {:e} (limit {:e})", id, v, lim));
                c.count("rigid motion stresses");
            }
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 40000,
            thorough: 600000,
            rule: "random models (as for C08, one in 500 of 60 to 700 nodes) solved as given and after one change of description: moved, rotated with its loads and constraints, renumbered, elements and their nodes relisted in another order and sense, loads and constraints in another order, direction or split in parts, stiffness, density, thickness, lengths or loads scaled; displacements, stresses, von Mises values and, for a fifth, modes compared through the physical law; models built up in steps with results asked for in between; plus rigid motions imposed on every element; non-trivial: displacements not zero; distinct by model and change",
            need: &["pairs compared: moved", "pairs compared: rotated", "pairs compared: renumbered", "pairs compared: elements relisted", "pairs compared: loads and constraints reordered", "pairs compared: stiffness and density scaled", "pairs compared: thickness scaled", "pairs compared: lengths scaled", "models built in steps", "modes compared", "rigid motion stresses", "models of hundreds of nodes"],
        },
        case,
    );
}
