//! C15: meshes conform to the region they are made for, and carry its loads and constraints.
use bugi::element::constraint::Constraint;
use bugi::element::strain::Condition;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use bugi::mesher::plane::PlaneTriangulation;
use bugi::mesher::Vertex;
use verif_core::fem::V2;
use verif_core::{main_loop, Ctx, Plan};
use verif_full::bbnd::{dress, merge, Spec};
use verif_full::mesh::{faults, suits_chew, view, Method, Stats};
use verif_full::region::{self, dist, meet, seg_dist, Meet, Region};

fn bound(spec: &Spec, single: &[((usize, usize), Constraint)]) -> PlaneBoundary {
    let mut b = PlaneBoundary::new();
    let mut ids: Vec<Vec<Vertex>> = Vec::new();
    for p in &spec.polys {
        ids.push(b.store_polygon(&p.iter().map(|v| v.0).collect::<Vec<V2>>()));
    }
    if let Some(x) = spec.cond {
        b.set_condition(x.to_bugi());
    }
    if let Some(m) = &spec.material {
        b.set_material(m.parse().unwrap());
    }
    let at = |v: (usize, usize)| ids[v.0][v.1];
    for f in &spec.forces {
        b.store_distributed_force(at(f.0), at(f.1), f.2.into());
    }
    for k in &spec.cons {
        b.store_distributed_constraint(at(k.0), at(k.1), k.2);
    }
    for (v, k) in single {
        b.store_constraint(at(*v), *k);
    }
    b
}

/// the boundary alone, after it was divided
fn divided(c: &mut Ctx, spec: &Spec, h: f64) {
    let mut b = match c.run("crash", || bound(spec, &[])) {
        Some(b) => b,
        None => return,
    };
    let before: Vec<Segment> = b.all_walls().collect();
    let base: Vec<Segment> = b.all_base_walls().collect();
    let vs = b.all_vertices().count();
    if c.run("crash", || b.divide_all_segments(h)).is_none() {
        return;
    }
    let base2: Vec<Segment> = b.all_base_walls().collect();
    c.check(base == base2 && base == before, "walls", || "dividing the walls changed the base walls".into());
    let after: Vec<Segment> = b.all_walls().take(200000).collect();
    let mut k = 0;
    let mut pieces = 0;
    for w in &before {
        let (p, q): (V2, V2) = (w.get().0.into(), w.get().1.into());
        let l = dist(p, q);
        let n = (l / h).floor() as usize;
        pieces += n;
        let part = &after[k.min(after.len())..(k + n).min(after.len())];
        k += n;
        let ok = part.len() == n
            && part[0].0 == w.0
            && part[n - 1].1 == w.1
            && part.windows(2).all(|x| x[0].1 == x[1].0)
            && part.iter().enumerate().all(|(i, s)| {
                let (a, z): (V2, V2) = (s.get().0.into(), s.get().1.into());
                let t = i as f64 / n as f64;
                (dist(a, z) - l / n as f64).abs() < 1e-9 * l && dist(a, (p.0 + t * (q.0 - p.0), p.1 + t * (q.1 - p.1))) < 1e-9 * l + 1e-13 * (p.0.abs() + p.1.abs()) && b.is_segment(*s)
            })
            && (n == 1 || !b.is_segment(*w));
        c.check(ok, "division", || format!("wall {:?} - {:?} with size {} was divided into {:?}", p, q, h, part.iter().map(|s| s.get()).collect::<Vec<_>>()));
    }
    c.check(after.len() == pieces, "division", || format!("{} pieces instead of {}", after.len(), pieces));
    c.check(b.all_vertices().count() == vs + pieces - before.len(), "division", || "number of vertices".into());
    c.count("boundaries divided");
}

#[derive(Clone, Debug)]
struct Piece {
    s: Segment,
    f: V2,
    held: Vec<Constraint>,
}

fn place(v: Vertex) -> V2 {
    Segment(v, v).get().0.into()
}

/// the boundary alone, its walls divided, split, loaded and held in any order
fn edits(c: &mut Ctx, spec: &Spec) {
    let mut b = match c.run("crash", || bound(spec, &[])) {
        Some(b) => b,
        None => return,
    };
    let base: Vec<Segment> = b.all_base_walls().collect();
    let mut walls: Vec<Vec<Piece>> = Vec::new();
    let mut corner: Vec<(Vertex, Constraint)> = Vec::new();
    let mut k = 0;
    for (i, p) in spec.polys.iter().enumerate() {
        for j in 0..p.len() {
            let (x, y) = ((i, j), (i, (j + 1) % p.len()));
            let same = |a: &(usize, usize), b: &(usize, usize)| (*a, *b) == (x, y) || (*a, *b) == (y, x);
            let mut f = (0.0, 0.0);
            for q in spec.forces.iter().filter(|q| same(&q.0, &q.1)) {
                f = (f.0 + q.2 .0, f.1 + q.2 .1);
            }
            walls.push(vec![Piece { s: base[k], f, held: spec.cons.iter().filter(|q| same(&q.0, &q.1)).map(|q| q.2).collect() }]);
            k += 1;
        }
    }
    let fscale: f64 = spec.forces.iter().map(|f| f.2 .0.abs() + f.2 .1.abs()).sum::<f64>().max(1.0);
    let mut total = fscale;
    let mut trace = String::new();
    for _ in 0..c.rng.range(1, 8) {
        let w = c.rng.below(walls.len());
        let i = c.rng.below(walls[w].len());
        let Piece { s, f, held } = walls[w][i].clone();
        let (p, q): (V2, V2) = (s.get().0.into(), s.get().1.into());
        let l = dist(p, q);
        match c.rng.below(5) {
            0 | 1 => {
                trace += &format!("split {:?}; ", s);
                let (x, y, m) = match c.run("crash", || b.split_segment(s)) {
                    Some(r) => r,
                    None => return,
                };
                let at = place(m);
                let mid = (p.0 / 2.0 + q.0 / 2.0, p.1 / 2.0 + q.1 / 2.0);
                let ok = x == Segment(s.0, m) && y == Segment(m, s.1) && dist(at, mid) <= 1e-15 * (p.0.abs() + p.1.abs() + q.0.abs() + q.1.abs());
                c.check(ok, "split", || format!("splitting {:?} gave {:?} {:?} {:?}", s, x, y, m));
                walls[w].splice(i..=i, [x, y].map(|s| Piece { s, f, held: held.clone() }));
            }
            2 => {
                let n = c.rng.range(1, 6) as f64;
                let h = l / n / 1.3;
                let n = (l / h).floor() as usize;
                trace += &format!("divide {:?} by {}; ", s, h);
                let before: std::collections::HashSet<Vertex> = b.all_vertices().copied().collect();
                if c.run("crash", || b.divide_segment(s, h)).is_none() {
                    return;
                }
                let mut new: Vec<Vertex> = b.all_vertices().copied().filter(|v| !before.contains(v)).collect();
                if !c.check(new.len() + 1 == n, "division", || format!("{:?} divided by {} got {} vertices", s, h, new.len())) {
                    return;
                }
                new.sort_by(|a, b| dist(place(*a), p).partial_cmp(&dist(place(*b), p)).unwrap());
                let mut all = vec![s.0];
                all.extend(new);
                all.push(s.1);
                walls[w].splice(i..=i, all.windows(2).map(|v| Piece { s: Segment(v[0], v[1]), f, held: held.clone() }));
            }
            3 => {
                let g = (fscale * c.rng.sym(), fscale * c.rng.sym());
                total += g.0.abs() + g.1.abs();
                let t = if c.rng.chance(0.5) { s } else { s.rev() };
                trace += &format!("load {:?} {:?}; ", t, g);
                b.store_distributed_force(t.0, t.1, g.into());
                walls[w][i].f = (f.0 + g.0, f.1 + g.1);
            }
            _ => {
                let k = *c.rng.pick(&[Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed]);
                if c.rng.chance(0.5) {
                    let t = if c.rng.chance(0.5) { s } else { s.rev() };
                    trace += &format!("hold {:?} {:?}; ", t, k);
                    b.store_distributed_constraint(t.0, t.1, k);
                    walls[w][i].held.push(k);
                } else {
                    trace += &format!("hold {:?} {:?}; ", s.0, k);
                    b.store_constraint(s.0, k);
                    corner.push((s.0, k));
                }
            }
        }
    }
    let want: Vec<Segment> = walls.iter().flatten().map(|p| p.s).collect();
    let got: Vec<Segment> = b.all_walls().take(10000).collect();
    c.check(got == want, "edited walls", || format!("after {}walls {:?} instead of {:?}", trace, got, want));
    c.check(b.all_base_walls().collect::<Vec<_>>() == base, "edited walls", || format!("after {}the base walls changed", trace));
    c.check(want.iter().all(|s| b.is_segment(*s) && !b.is_segment(s.rev()) && b.on_wall(s.0)), "edited walls", || format!("after {}a wall is no segment", trace));
    c.check(base.iter().all(|s| want.contains(s) || !b.is_segment(*s)), "edited walls", || format!("after {}an old wall is still there", trace));
    let forces = b.all_distributed_forces();
    for p in walls.iter().flatten() {
        let mut f = (0.0, 0.0);
        for (_, g) in forces.iter().filter(|x| x.0 == p.s || x.0 == p.s.rev()) {
            let g: V2 = (*g).into();
            f = (f.0 + g.0, f.1 + g.1);
        }
        c.check((f.0 - p.f.0).abs() + (f.1 - p.f.1).abs() <= 1e-12 * total, "edited loads", || format!("after {}force {:?} instead of {:?} on {:?}", trace, f, p.f, p.s));
    }
    c.check(forces.iter().all(|x| b.is_segment(x.0) || b.is_segment(x.0.rev())), "edited loads", || format!("after {}a force on no wall", trace));
    let cons = b.all_constraints();
    for v in b.all_vertices() {
        let got: Vec<Constraint> = cons.iter().filter(|x| x.0 == *v).map(|x| x.1).collect();
        let mut want: Vec<Constraint> = corner.iter().filter(|x| x.0 == *v).map(|x| x.1).collect();
        for p in walls.iter().flatten().filter(|p| p.s.has(*v)) {
            want.extend(&p.held);
        }
        c.check(merge(&got) == merge(&want), "edited constraints", || format!("after {}{:?} is held by {:?} instead of {:?}", trace, v, got, want));
    }
    // what is seen from the middle of a wall
    let all: Vec<Vertex> = b.all_vertices().copied().collect();
    let mag = all.iter().map(|v| place(*v)).fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()));
    for _ in 0..4 {
        let s = *c.rng.pick(&want);
        let x = *c.rng.pick(&all);
        let m: V2 = s.mid().into();
        let p = place(x);
        let near = |a: V2, z: V2| seg_dist(m, a, z).min(seg_dist(p, a, z));
        let (mut crossed, mut unclear) = (false, false);
        for w in &base {
            let (a, z): (V2, V2) = (w.get().0.into(), w.get().1.into());
            let gap = seg_dist(a, m, p).min(seg_dist(z, m, p)).min(near(a, z));
            match meet(a, z, m, p) {
                // a wall that holds either point does not hide it
                _ if near(a, z) < 1e-12 * mag => {}
                Meet::No if gap > 1e-6 * mag => {}
                Meet::Cross if gap > 1e-6 * mag => crossed = true,
                _ => unclear = true,
            }
        }
        if unclear && !crossed {
            c.count("views too close to call");
            continue;
        }
        if let Some(got) = c.run("crash", || b.midpoint_visible(s, x)) {
            c.check(got != crossed, "view", || format!("the middle of {:?} is {}visible from {:?}", s, if got { "" } else { "not " }, x));
            c.count(if crossed { "views hidden" } else { "views free" });
        }
    }
    c.count("boundaries edited");
}

/// one wall divided into hundreds or thousands of pieces
fn many(c: &mut Ctx) {
    let n = *c.rng.pick(&[140.0, 300.0, 700.0, 33000.0, 70000.0]);
    let (w, h) = (c.rng.logf(1e-3, 1e3), c.rng.f(2.0, 4.0));
    let size = w / (n + 0.5);
    let r = Region { kind: String::new(), polys: vec![vec![(0.0, 0.0), (w, 0.0), (w, h * size), (0.0, h * size)]] };
    let spec = dress(&mut c.rng, &r.polys, true);
    c.describe(format!("{:?} divided by {}", spec, size));
    c.nontrivial = true;
    c.sigf(&[w, h]);
    divided(c, &spec, size);
    c.count("walls divided into hundreds of pieces");
}

fn case(c: &mut Ctx) {
    let m = if c.idx % 2 == 0 { Method::Chew } else { Method::Ruppert };
    if c.idx % 9001 == 9000 {
        return many(c);
    }
    let large = c.idx % 2003 == 2002;
    let small = m == Method::Ruppert && c.rng.chance(0.04);
    let (r, h) = loop {
        let r: Region = {
            let gap = *c.rng.pick(&[0.003, 0.01, 0.03]);
            let mut r = if large {
                let marks = c.rng.chance(0.5);
                region::plate(&mut c.rng, (4, 16), marks)
            } else if small {
                region::details(&mut c.rng)
            } else {
                region::gen(&mut c.rng, 3, gap, 60.5f64.to_radians())
            };
            // in whatever unit the author works
            if c.rng.chance(0.4) {
                let s = c.rng.logf(1e-9, 1e9);
                for q in r.polys.iter_mut().flatten() {
                    *q = (q.0 * s, q.1 * s);
                }
            }
            r
        };
        let area = r.area();
        let per: f64 = r.walls().iter().map(|w| dist(w.0, w.1)).sum();
        let fine = c.rng.chance(0.1);
        let most = if large || fine { 1500.0 } else { 300.0 };
        // sizes an author might ask for, coarse to fine
        let mut found = None;
        for _ in 0..60 {
            let h = match c.rng.below(3) {
                0 => {
                    // a whole part of some wall
                    let w = *c.rng.pick(&r.walls());
                    dist(w.0, w.1) / c.rng.range(1, 12) as f64
                }
                1 => {
                    let s = c.rng.logf(area.sqrt() / 30.0, area.sqrt());
                    let e = 10f64.powi(s.log10().floor() as i32 - 1);
                    (s / e).round() * e
                }
                _ => c.rng.logf(area.sqrt() / 30.0, area.sqrt()),
            };
            if h <= 0.0 || area / (h * h) + per / h > most {
                continue;
            }
            if m == Method::Ruppert || suits_chew(&r, h) {
                found = Some(h);
                break;
            }
        }
        if let Some(h) = found {
            if large {
                c.count("plates with many holes");
            } else if small {
                c.count("regions with small details");
            }
            break (r, h);
        }
        c.count("skipped: no size suits");
    };
    let mut spec = dress(&mut c.rng, &r.polys, true);
    let mut single = Vec::new();
    if c.rng.chance(0.3) {
        for _ in 0..c.rng.range(1, 3) {
            let k = c.rng.below(r.polys.len());
            let i = c.rng.below(r.polys[k].len());
            let x = *c.rng.pick(&[Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed, Constraint::Free]);
            single.push(((k, i), x));
        }
    }
    match c.rng.below(40) {
        0 => spec.cond = None,
        1 => spec.material = None,
        _ => {}
    }
    let text = spec.write(&mut c.rng.clone());
    
    c.nontrivial = true;
    c.sig(&text);
    c.sigf(&[h]);
    if m == Method::Chew && c.rng.chance(0.3) {
        divided(c, &spec, h);
    }
    if c.rng.chance(0.15) {
        edits(c, &spec);
    }
    // a triangulation may be made before, looked at, refined in steps, or completed with a material later
    let wrap = c.rng.chance(0.1);
    let look = c.rng.chance(0.05);
    let coarse = if m == Method::Ruppert && c.rng.chance(0.15) { Some(h * c.rng.logf(1.0, 8.0)) } else { None };
    let chew_first = coarse.map_or(false, |g| suits_chew(&r, g));
    // points inside the body that the mesh shall have, and what holds them
    let mut inner: Vec<(V2, Constraint)> = Vec::new();
    if c.rng.chance(0.15) {
        let all: Vec<V2> = r.polys.iter().flatten().copied().collect();
        let span = |f: fn(&V2) -> f64| (all.iter().map(f).fold(f64::MAX, f64::min), all.iter().map(f).fold(f64::MIN, f64::max));
        let (xs, ys) = (span(|p| p.0), span(|p| p.1));
        let ext = (xs.1 - xs.0).max(ys.1 - ys.0);
        let gap = match coarse {
            Some(g) if chew_first => g,
            _ if m == Method::Chew => h,
            _ => 0.02 * ext,
        };
        let want = c.rng.range(1, 4) as usize;
        for _ in 0..30 {
            let q = (c.rng.f(xs.0, xs.1), c.rng.f(ys.0, ys.1));
            let clear = r.polys.iter().filter(|p| region::inside(q, p)).count() == 1
                && region::inside(q, &r.polys[0])
                && r.walls().iter().all(|w| region::seg_dist(q, w.0, w.1) >= gap)
                && inner.iter().all(|p| dist(p.0, q) >= gap);
            if clear && inner.len() < want {
                let k = *c.rng.pick(&[Constraint::Free, Constraint::Free, Constraint::XFixed, Constraint::YFixed, Constraint::XYFixed]);
                inner.push((q, k));
            }
        }
    }
    let late = c.rng.chance(0.1);
    c.describe(format!("{:?} size {} single {:?} inner {:?} wrap {} coarse {:?} chew first {} late {} {}\n{}", m, h, single, inner, wrap, coarse, chew_first, late, r.kind, text));
    let made = c.run("crash", || {
        let mut early = spec.clone();
        if late {
            early.cond = None;
            early.material = None;
        }
        let mut b = bound(&early, &single);
        for (q, k) in &inner {
            let v = b.store_vertex(*q);
            b.store_constraint(v, *k);
        }
        let mut t = PlaneTriangulation::new(b);
        if wrap {
            t.gift_wrap();
        }
        if let Some(g) = coarse {
            if chew_first {
                t.chew_mesh(g);
            } else {
                t.ruppert_mesh(g);
            }
        }
        if look {
            t.visualize();
            t.bound.visualize();
        }
        match m {
            Method::Chew => t.chew_mesh(h),
            Method::Ruppert => t.ruppert_mesh(h),
        }
        if look {
            t.visualize();
        }
        if late {
            if let Some(x) = spec.cond {
                t.bound.set_condition(x.to_bugi());
            }
            if let Some(m) = &spec.material {
                t.bound.set_material(m.parse().unwrap());
            }
        }
        t.assemble()
    });
    for (k, name) in [(wrap, "boundaries wrapped before"), (look, "triangulations looked at"), (coarse.is_some(), "meshes refined in steps"), (chew_first, "Chew meshes refined by Ruppert's method"), (late, "condition and material given late")] {
        if k {
            c.count(name);
        }
    }
    let made = match made {
        Some(x) => x,
        None => return,
    };
    if spec.cond.is_none() || spec.material.is_none() {
        c.check(made.is_err(), "accepted", || "assembled without a material or a condition".into());
        c.count("incomplete boundaries refused");
        return;
    }
    let e = match made {
        Ok(e) => e,
        Err(x) => {
            c.fail("refused", format!("not assembled: {}", x));
            return;
        }
    };
    let mut st = Stats::default();
    let mut v = view(&e);
    for (q, k) in &inner {
        match (0..v.p.len()).find(|&i| v.p[i] == *q) {
            Some(i) => {
                let got = std::mem::replace(&mut v.cons[i], Constraint::Free);
                c.check(got == *k, "inner", || format!("the vertex {:?} inside is held by {:?} instead of {:?}", q, got, k));
            }
            None => c.fail("inner", format!("the vertex {:?} inside is no node", q)),
        }
        c.count("vertices inside the body");
    }
    let f = faults(&v, &r, &spec, &single, m, h, &mut st);
    c.check(f.is_empty(), "mesh", || format!("{} faults: {}", f.len(), f.iter().take(4).cloned().collect::<Vec<_>>().join("; ")));
    let want = spec.cond.unwrap().to_bugi();
    let same = match (e.condition(), want) {
        (Condition::PlaneStress(a), Condition::PlaneStress(b)) | (Condition::PlaneStrain(a), Condition::PlaneStrain(b)) => a == b,
        (Condition::Axisymmetric, Condition::Axisymmetric) => true,
        _ => false,
    };
    c.check(same, "condition", || format!("{:?} instead of {:?}", e.condition(), want));
    let (got, want) = (e.material(), verif_core::fem::named_material(spec.material.as_deref().unwrap_or("")));
    c.check(want.map_or(false, |w| w.name == got.name && w.youngs == got.youngs && w.poisson == got.poisson && w.density == got.density), "material", || format!("material {:?} instead of {:?}", got, want));
    c.count(&format!("{:?} meshes", m));
    c.count(&format!("kind: {}", r.kind.split(' ').next().unwrap()));
    c.add("nodes", st.nodes as u64);
    c.add("triangles", st.tris as u64);
    c.add("inner edges tested for Delaunay", st.interior_edges as u64);
    c.add("wall pieces", st.wall_edges as u64);
    c.add("loaded walls", spec.forces.len() as u64);
    c.add("held walls", spec.cons.len() as u64);
    if r.polys.len() > 1 {
        c.count("regions with holes");
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 100000,
            thorough: 2000000,
            rule: "random regions (rectangles, convex, star-shaped, rectilinear; holes, turned, moved, scaled, marks on walls; one in 2000 a plate with up to 16 holes) with loads and constraints on walls and corners, meshed by both methods with sizes that suit; every mesh is non-trivial; distinct by description and size",
            need: &["Chew meshes", "Ruppert meshes", "regions with holes", "inner edges tested for Delaunay", "loaded walls", "held walls", "boundaries divided", "boundaries edited", "views hidden", "views free", "boundaries wrapped before", "meshes refined in steps", "condition and material given late", "vertices inside the body", "plates with many holes", "regions with small details", "walls divided into hundreds of pieces"],
        },
        case,
    );
}
