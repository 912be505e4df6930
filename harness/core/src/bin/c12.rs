//! C12: constraint accumulation, elimination of degrees of freedom, text form.
use bugi::element::constraint::{Constraint, DofTransform};
use bugi::element::strain::Condition;
use bugi::element::{ElementAssemblage, NodeId};
use bugi::matrix::MatrixLike;
use verif_core::dense::{dot, maxabs, M};
use verif_core::fem::gen_material;
use verif_core::{conv, main_loop, trap, Ctx, Plan, Rng};

fn angle(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => 0.0,
        1 => std::f64::consts::FRAC_PI_2 * rng.irange(-4, 4) as f64,
        2 => std::f64::consts::FRAC_PI_4 * rng.irange(-9, 9) as f64,
        3 => 1e-9 * rng.sym(),
        4 => rng.f(-100.0, 100.0),
        _ => rng.f(-3.2, 3.2),
    }
}

fn any(rng: &mut Rng) -> Constraint {
    match rng.below(6) {
        0 => Constraint::Free,
        1 => Constraint::XFixed,
        2 => Constraint::YFixed,
        3 => Constraint::XYFixed,
        _ => Constraint::AngleFixed(angle(rng)),
    }
}

/// histories of additions
fn accumulate(c: &mut Ctx) {
    let (e, nu, rho, name) = gen_material(&mut c.rng);
    let mut el = ElementAssemblage::new(bugi::element::material::Material { name, youngs: e, poisson: nu, density: rho }, Condition::PlaneStress(1.0));
    let mut model: Vec<(bool, bool, Vec<f64>)> = Vec::new();
    let mut ids: Vec<NodeId> = Vec::new();
    let mut log = Vec::new();
    let large = c.idx % 1503 == 1500;
    for _ in 0..if large { c.rng.range(300, 1500) } else { c.rng.range(2, 25) } {
        if ids.is_empty() || c.rng.chance(if large { 0.02 } else { 0.2 }) {
            let pts: Vec<(f64, f64)> = (0..c.rng.range(1, if large { 100 } else { 4 })).map(|_| (c.rng.sym(), c.rng.sym())).collect();
            ids.extend(el.add_nodes(&pts));
            model.resize(ids.len(), (false, false, vec![]));
            log.push(format!("{} nodes", pts.len()));
            continue;
        }
        let i = c.rng.below(ids.len());
        let k = if c.rng.chance(0.75) { *c.rng.pick(&[Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed]) } else { any(&mut c.rng) };
        log.push(format!("{}:{:?}", i, k));
        if c.run("addition panic", || el.add_constraint(ids[i], k)).is_none() {
            return;
        }
        match k {
            Constraint::Free => c.count("additions: free"),
            Constraint::XFixed => model[i].0 = true,
            Constraint::YFixed => model[i].1 = true,
            Constraint::XYFixed => {
                model[i].0 = true;
                model[i].1 = true;
            }
            Constraint::AngleFixed(a) => {
                model[i].2.push(a);
                c.count("additions: angle");
            }
        }
        c.count("additions");
    }
    c.describe(format!("additions {}", log.join(" ")));
    c.sig(&log);
    c.nontrivial = true;
    let got = el.constraints();
    c.check(got.len() == ids.len(), "number of constraints", || format!("{} for {} nodes", got.len(), ids.len()));
    for (i, (id, k)) in got.iter().enumerate() {
        c.check(*id == ids[i], "constraint of another node", || format!("{:?} at {}", id, i));
        let m = &model[i];
        let ok = match (m.0, m.1, k) {
            (true, true, Constraint::XYFixed) | (true, false, Constraint::XFixed) | (false, true, Constraint::YFixed) => true,
            (false, false, Constraint::Free) => m.2.is_empty(),
            (false, false, Constraint::AngleFixed(a)) => match m.2.len() {
                0 => false,
                1 => *a == m.2[0],
                _ => a.is_finite(),
            },
            _ => false,
        };
        c.check(ok, "accumulated constraint", || format!("node {}: {:?} after {:?}", i, k, m));
        let plain = m.0 || m.1;
        c.check(k.is_plain() == plain, "is_plain", || format!("{:?}", k));
        if plain || m.2.is_empty() {
            c.check(k.plain_dim_struck(0) == m.0 && k.plain_dim_struck(1) == m.1, "plain_dim_struck", || format!("{:?}", k));
        }
        c.count("accumulated constraints compared");
    }
    if large {
        c.count("histories of hundreds of additions");
    }
}

/// what is struck is exactly the constrained directions, and everything else is kept
fn transform(c: &mut Ctx) {
    let large = c.idx % 3003 == 3001;
    let n = if large { *c.rng.pick(&[66, 130, 260]) } else { c.rng.range(1, 8) };
    let angled = large && c.rng.chance(0.4);
    let cons: Vec<Constraint> = (0..n)
        .map(|_| {
            if angled && c.rng.chance(0.9) {
                Constraint::AngleFixed(angle(&mut c.rng))
            } else {
                any(&mut c.rng)
            }
        })
        .collect();
    if large {
        c.count("constraint vectors of hundreds of nodes");
    }
    c.describe(format!("constraints {:?}", cons));
    c.sig(format!("{:?}", cons));
    let free: usize = cons
        .iter()
        .map(|k| match k {
            Constraint::Free => 2,
            Constraint::XYFixed => 0,
            _ => 1,
        })
        .sum();
    c.nontrivial = free < 2 * n;
    let d = match c.run("transform panic", || DofTransform::from_constraints(&cons)) {
        Some(d) => d,
        None => return,
    };
    // columns of the basis, as observed
    let mut cols: Vec<Vec<f64>> = Vec::new();
    for j in 0..free {
        let mut z = vec![0.0; free];
        z[j] = 1.0;
        match c.run("unbar panic", || d.unbar_vec(&z)) {
            Some(u) => cols.push(u),
            None => return,
        }
    }
    for (j, u) in cols.iter().enumerate() {
        if !c.check(u.len() == 2 * n, "length of displacements", || format!("{}", u.len())) {
            return;
        }
        for (i, k) in cons.iter().enumerate() {
            let (x, y) = (u[2 * i], u[2 * i + 1]);
            let e = match k {
                Constraint::Free => 0.0,
                Constraint::XFixed => x.abs(),
                Constraint::YFixed => y.abs(),
                Constraint::XYFixed => x.abs().max(y.abs()),
                Constraint::AngleFixed(a) => (x * a.cos() + y * a.sin()).abs(),
            };
            c.check(e <= 1e-14, "struck direction moves", || format!("unit displacement {} moves node {} ({:?}) along its constraint by {:e}", j, i, k, e));
        }
        for (i, w) in cols.iter().enumerate().take(j + 1) {
            let o = dot(u, w);
            c.check((o - if i == j { 1.0 } else { 0.0 }).abs() <= 1e-13, "directions not orthonormal", || format!("{} and {}: {}", i, j, o));
        }
    }
    c.add("directions checked", free as u64);
    // loads: work is kept
    let s = c.rng.logf(1e-9, 1e9);
    let r: Vec<f64> = (0..2 * n).map(|_| s * c.rng.sym()).collect();
    let z: Vec<f64> = (0..free).map(|_| c.rng.sym()).collect();
    let (rb, u) = match c.run("vector panic", || (d.bar_vec(&r), d.unbar_vec(&z))) {
        Some(x) => x,
        None => return,
    };
    if !c.check(rb.len() == free, "length of the reduced load", || format!("{} instead of {}", rb.len(), free)) {
        return;
    }
    for j in 0..free {
        let w = dot(&cols[j], &r);
        c.check((rb[j] - w).abs() <= 1e-13 * s, "reduced load", || format!("direction {}: {} instead of {}", j, rb[j], w));
    }
    c.check((dot(&rb, &z) - dot(&r, &u)).abs() <= 1e-12 * s * n as f64, "work", || format!("{} and {}", dot(&rb, &z), dot(&r, &u)));
    // restoring and eliminating again is the identity
    if let Some(back) = c.run("vector panic", || d.bar_vec(&u)) {
        let e = back.iter().zip(&z).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
        c.check(back.len() == free && e <= 1e-13, "round trip", || format!("{:?} became {:?}", z, back));
    }
    // matrices: energy is kept
    let sym = c.rng.chance(0.7);
    let dens = if large { c.rng.f(0.0, 0.05) } else { c.rng.unit() };
    let mut k = M::from_fn(2 * n, 2 * n, |_, _| if c.rng.chance(dens) { s * c.rng.sym() } else { 0.0 });
    if sym {
        k = M::from_fn(2 * n, 2 * n, |i, j| k.at(i.min(j), i.max(j)));
    }
    let dict = conv::dict_shuffled(&mut c.rng, &k, 2);
    if let Some(kb) = c.run("matrix panic", || d.bar_matrix(&dict)) {
        if !c.check(kb.shape() == (free, free), "shape of the reduced matrix", || format!("{:?} instead of {}", kb.shape(), free)) {
            return;
        }
        let kb = conv::dense(&kb);
        let mut worst = 0.0f64;
        for i in 0..free {
            let kc = k.t().mulv(&cols[i]);
            for j in 0..free {
                worst = worst.max((kb.at(i, j) - dot(&kc, &cols[j])).abs());
            }
        }
        c.check(worst <= 1e-12 * s, "reduced matrix", || format!("off by {:e} of {:e}", worst, s));
        let (e1, e2) = (dot(&z, &kb.mulv(&z)), dot(&u, &k.mulv(&u)));
        c.check((e1 - e2).abs() <= 1e-12 * s * (n * n) as f64, "energy", || format!("{} and {}", e1, e2));
        c.count(if sym { "symmetric matrices" } else { "other matrices" });
    }
    let _ = maxabs(&rb);
}

fn text(c: &mut Ctx) {
    let k = match c.rng.below(3) {
        0 => any(&mut c.rng),
        _ => Constraint::AngleFixed(match c.rng.below(5) {
            0 => c.rng.logf(1e-300, 1e300) * if c.rng.chance(0.5) { 1.0 } else { -1.0 },
            1 => {
                let x = f64::from_bits(c.rng.u64());
                if x.is_finite() {
                    x
                } else {
                    -0.0
                }
            }
            2 => c.rng.irange(-400, 400) as f64,
            _ => angle(&mut c.rng),
        }),
    };
    let s = k.to_string();
    c.describe(format!("{:?} as text {:?}", k, s));
    c.sig(&s);
    c.nontrivial = true;
    match trap(|| s.parse::<Constraint>()) {
        Ok(Ok(back)) => {
            let same = match (k, back) {
                (Constraint::AngleFixed(a), Constraint::AngleFixed(b)) => a.to_bits() == b.to_bits(),
                (a, b) => a == b,
            };
            c.check(same, "text round trip", || format!("{:?} came back as {:?}", k, back));
        }
        x => c.fail("text round trip", format!("{:?} became {:?}", s, x)),
    }
    c.count("texts round-tripped");
    // other text
    let mut t: Vec<char> = s.chars().collect();
    match c.rng.below(5) {
        0 => t = c.rng.pick(&["", " ", "z", "xyz", "xx", "X", "XY", "angle", "angle:", "angle: ", "angle:x", "angle:1,5", "fixed", "x,y", "0", "angle:1 2", "ange:1", ":1", "xangle:1", "none"]).chars().collect(),
        1 => {
            let i = c.rng.below(t.len() + 1);
            t.insert(i, *c.rng.pick(&['x', 'y', ' ', ':', 'a', '\n', 'é', '1', '\u{2603}']));
        }
        2 => {
            let i = c.rng.below(t.len());
            t.remove(i);
        }
        3 => {
            let (i, j) = (c.rng.below(t.len()), c.rng.below(t.len()));
            t.swap(i, j);
        }
        _ => {
            let i = c.rng.below(t.len());
            t[i] = *c.rng.pick(&['x', 'y', ' ', ':', '€', '-']);
        }
    }
    let t: String = t.into_iter().collect();
    let want = match t.as_str() {
        "x" => Some(Constraint::XFixed),
        "y" => Some(Constraint::YFixed),
        "xy" => Some(Constraint::XYFixed),
        "yx" => return,
        "free" => Some(Constraint::Free),
        s => s.strip_prefix("angle:").and_then(|x| x.parse().ok()).map(Constraint::AngleFixed),
    };
    match trap(|| t.parse::<Constraint>()) {
        Ok(got) => {
            c.check(got.ok() == want, "other text", || format!("{:?} read as {:?}, expected {:?}", t, got, want));
        }
        Err(e) => c.fail("parse panic", format!("{:?}: {}", t, e)),
    }
    c.count("mutated texts");
}

fn case(c: &mut Ctx) {
    match c.idx % 3 {
        0 => accumulate(c),
        1 => transform(c),
        _ => text(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 300000,
            thorough: 6000000,
            rule: "random histories of constraint additions (mostly up to 25, now and then hundreds) to nodes added before and between them, compared with a set model; random constraint vectors (mostly up to 8 nodes, now and then 66 to 260) whose reduced vectors and matrices are compared with the observed orthonormal basis of allowed displacements; every kind of constraint as text and back, and mutated texts; non-trivial: something is constrained; distinct by history, constraints or text",
            need: &["accumulated constraints compared", "directions checked", "symmetric matrices", "texts round-tripped", "mutated texts", "additions: free", "additions: angle", "constraint vectors of hundreds of nodes", "histories of hundreds of additions"],
        },
        case,
    );
}
