//! The boundary file format: an independent reader and a writer.
use crate::region::{dist, meet, Meet};
use crate::text::{number, odd_number, spell};
use bugi::element::constraint::Constraint;
use bugi::mesher::bounds::{PlaneBoundary, Segment};
use std::collections::HashMap;
use verif_core::fem::{Cond, V2};
use verif_core::Rng;

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub polys: Vec<Vec<(V2, Option<String>)>>,
    pub cond: Option<Cond>,
    pub material: Option<String>,
    /// between vertices, by polygon and position
    pub forces: Vec<((usize, usize), (usize, usize), V2)>,
    pub cons: Vec<((usize, usize), (usize, usize), Constraint)>,
}

pub enum Verdict {
    Good(Spec),
    Bad(String),
    Unclear(&'static str),
}

type R<T> = Result<T, String>;

struct P {
    unclear: Option<&'static str>,
}

impl P {
    fn num(&mut self, s: &str) -> R<f64> {
        if odd_number(s) {
            self.unclear = Some("number");
            return Ok(0.0);
        }
        let x = number(s).ok_or(format!("{:?} is no number", s))?;
        if !x.is_finite() || x.abs() > 1e100 {
            self.unclear = Some("huge number");
        }
        Ok(x)
    }
}

fn label(s: &str) -> R<String> {
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric()) {
        Ok(s.to_string())
    } else {
        Err(format!("{:?} is no label", s))
    }
}

pub fn read(bytes: &[u8]) -> Verdict {
    let text = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Verdict::Bad("not UTF-8".into()),
    };
    // whether empty lines are allowed is left open
    if text.is_empty() || text.starts_with('\n') || text.ends_with('\n') || text.contains("\n\n") {
        let t: Vec<&str> = text.split('\n').filter(|l| !l.is_empty()).collect();
        let mut p = P { unclear: None };
        return match parse(&t, &mut p) {
            Err(e) if p.unclear.is_none() => Verdict::Bad(e),
            _ => Verdict::Unclear("empty lines"),
        };
    }
    let mut p = P { unclear: None };
    let res = parse(&text.split('\n').collect::<Vec<_>>(), &mut p);
    match (p.unclear, res) {
        (Some(w), _) => Verdict::Unclear(w),
        (None, Ok(s)) => Verdict::Good(s),
        (None, Err(e)) => Verdict::Bad(e),
    }
}

fn parse(lines: &[&str], p: &mut P) -> R<Spec> {
    let mut s = Spec::default();
    let mut names: HashMap<String, (usize, usize)> = HashMap::new();
    let mut forces = Vec::new();
    let mut cons = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        if l == "polygon" {
            let mut vs = Vec::new();
            loop {
                let l = lines.get(i).copied().ok_or("the polygon does not end")?;
                i += 1;
                if l == "end" {
                    break;
                }
                let f: Vec<&str> = l.split(' ').collect();
                if f.len() != 2 && f.len() != 3 {
                    return Err(format!("{:?} is no vertex", l));
                }
                let at = (p.num(f[0])?, p.num(f[1])?);
                let name = if f.len() == 3 { Some(label(f[2])?) } else { None };
                if let Some(n) = &name {
                    if names.insert(n.clone(), (s.polys.len(), vs.len())).is_some() {
                        p.unclear = Some("label given twice");
                    }
                }
                vs.push((at, name));
            }
            s.polys.push(vs);
        } else if let Some(c) = l.strip_prefix("condition ") {
            if s.cond.is_some() {
                p.unclear = Some("two conditions");
            }
            s.cond = Some(if c == "axisymmetric" {
                Cond::Axi
            } else if let Some(t) = c.strip_prefix("planestrain ") {
                Cond::Strain(p.num(t)?)
            } else if let Some(t) = c.strip_prefix("planestress ") {
                Cond::Stress(p.num(t)?)
            } else {
                return Err(format!("condition {:?}", c));
            });
        } else if let Some(m) = l.strip_prefix("material ") {
            if s.material.is_some() {
                p.unclear = Some("two materials");
            }
            if m != "AL6061" && m != "TEST" {
                return Err(format!("material {:?}", m));
            }
            s.material = Some(m.to_string());
        } else if let Some(r) = l.strip_prefix("distributed_force ") {
            let f: Vec<&str> = r.split(' ').collect();
            if f.len() != 4 {
                return Err(format!("{:?}", l));
            }
            forces.push((label(f[0])?, label(f[1])?, (p.num(f[2])?, p.num(f[3])?)));
        } else if let Some(r) = l.strip_prefix("distributed_constraint ") {
            let f: Vec<&str> = r.splitn(3, ' ').collect();
            if f.len() != 3 {
                return Err(format!("{:?}", l));
            }
            let c = match f[2] {
                "x" => Constraint::XFixed,
                "y" => Constraint::YFixed,
                "xy" => Constraint::XYFixed,
                "free" => Constraint::Free,
                c => {
                    let a = c.strip_prefix("angle:").ok_or(format!("constraint {:?}", c))?;
                    if odd_number(a) || number(a).map_or(false, |x| !x.is_finite()) {
                        p.unclear = Some("number");
                    }
                    Constraint::AngleFixed(number(a).ok_or(format!("constraint {:?}", c))?)
                }
            };
            cons.push((label(f[0])?, label(f[1])?, c));
        } else {
            return Err(format!("line {:?}", l));
        }
    }
    let mut walls: Vec<(V2, V2)> = Vec::new();
    for poly in &s.polys {
        if poly.len() < 3 {
            return Err("a polygon of fewer than three vertices".into());
        }
        let n = poly.len();
        for i in 0..n {
            walls.push((poly[i].0, poly[(i + 1) % n].0));
        }
    }
    if walls.is_empty() {
        p.unclear = Some("no polygon");
    }
    let mut crossed = false;
    let mut k = 0;
    for poly in &s.polys {
        let n = poly.len();
        for i in 0..n {
            let w = walls[k + i];
            if w.0 == w.1 {
                p.unclear = Some("degenerate polygon");
            }
            for j in 0..walls.len() {
                if j == k + i {
                    continue;
                }
                let same = j >= k && j < k + n;
                let adjacent = same && ((j - k + 1) % n == i || (i + 1) % n == j - k);
                match meet(w.0, w.1, walls[j].0, walls[j].1) {
                    Meet::No => {}
                    Meet::Cross => crossed = true,
                    Meet::Touch => {
                        if !adjacent {
                            p.unclear = Some("polygons touch");
                        } else {
                            // neighbours that fold back on each other
                            let (a, b, c) = if (i + 1) % n == j - k { (w.0, w.1, walls[j].1) } else { (walls[j].0, w.0, w.1) };
                            let d = (a.0 - b.0) * (c.0 - b.0) + (a.1 - b.1) * (c.1 - b.1);
                            if crate::region::orient(a, b, c).is_zero() && d > 0.0 || dist(a, b) == 0.0 {
                                p.unclear = Some("degenerate polygon");
                            }
                        }
                    }
                }
            }
        }
        k += n;
    }
    if crossed {
        return Err("walls cross".into());
    }
    let find = |n: &String| names.get(n).copied().ok_or(format!("no vertex {:?}", n));
    let wall = |a: (usize, usize), b: (usize, usize)| {
        let n = if a.0 == b.0 { s.polys[a.0].len() } else { 0 };
        if a.0 == b.0 && ((a.1 + 1) % n == b.1 || (b.1 + 1) % n == a.1) {
            Ok(())
        } else {
            Err(format!("no wall between {:?} and {:?}", a, b))
        }
    };
    for (a, b, f) in forces {
        let (a, b) = (find(&a)?, find(&b)?);
        wall(a, b)?;
        s.forces.push((a, b, f));
    }
    for (a, b, c) in cons {
        let (a, b) = (find(&a)?, find(&b)?);
        wall(a, b)?;
        s.cons.push((a, b, c));
    }
    Ok(s)
}

/// plain constraints add up, a skew one gives way to them
pub fn merge(list: &[Constraint]) -> Constraint {
    let x = list.iter().any(|c| matches!(c, Constraint::XFixed | Constraint::XYFixed));
    let y = list.iter().any(|c| matches!(c, Constraint::YFixed | Constraint::XYFixed));
    let a = list.iter().find_map(|c| if let Constraint::AngleFixed(a) = c { Some(*a) } else { None });
    match (x, y, a) {
        (true, true, _) => Constraint::XYFixed,
        (true, false, _) => Constraint::XFixed,
        (false, true, _) => Constraint::YFixed,
        (false, false, Some(a)) => Constraint::AngleFixed(a),
        _ => Constraint::Free,
    }
}

impl Spec {
    pub fn at(&self, v: (usize, usize)) -> V2 {
        self.polys[v.0][v.1].0
    }

    /// what each vertex is held by, from the walls that end there
    pub fn held(&self, v: (usize, usize)) -> Vec<Constraint> {
        self.cons.iter().filter(|c| c.0 == v || c.1 == v).map(|c| c.2).collect()
    }

    pub fn write(&self, rng: &mut Rng) -> String {
        let mut items = Vec::new();
        for p in &self.polys {
            let mut t = String::from("polygon\n");
            for (v, l) in p {
                t += &format!("{} {}", spell(rng, v.0), spell(rng, v.1));
                if let Some(l) = l {
                    t += &format!(" {}", l);
                }
                t.push('\n');
            }
            items.push(t + "end");
        }
        // polygons keep their order; anything else may come anywhere
        let mut rest = Vec::new();
        match self.cond {
            Some(Cond::Axi) => rest.push("condition axisymmetric".to_string()),
            Some(Cond::Stress(t)) => rest.push(format!("condition planestress {}", spell(rng, t))),
            Some(Cond::Strain(t)) => rest.push(format!("condition planestrain {}", spell(rng, t))),
            None => {}
        }
        if let Some(m) = &self.material {
            rest.push(format!("material {}", m));
        }
        let name = |v: (usize, usize)| self.polys[v.0][v.1].1.clone().unwrap();
        for (a, b, f) in &self.forces {
            rest.push(format!("distributed_force {} {} {} {}", name(*a), name(*b), spell(rng, f.0), spell(rng, f.1)));
        }
        for (a, b, c) in &self.cons {
            let c = match c {
                Constraint::Free => "free".to_string(),
                Constraint::XFixed => "x".to_string(),
                Constraint::YFixed => "y".to_string(),
                Constraint::XYFixed => "xy".to_string(),
                Constraint::AngleFixed(a) => format!("angle:{}", spell(rng, *a)),
            };
            rest.push(format!("distributed_constraint {} {} {}", name(*a), name(*b), c));
        }
        if rng.chance(0.5) {
            rng.shuffle(&mut rest);
        }
        if rng.chance(0.7) {
            items.extend(rest);
        } else {
            for r in rest {
                let i = rng.below(items.len() + 1);
                items.insert(i, r);
            }
        }
        items.join("\n")
    }
}

fn pt(p: spacemath::two::Point) -> V2 {
    p.into()
}

fn key(a: V2, b: V2) -> [u64; 4] {
    let k = |p: V2| [(p.0 + 0.0).to_bits(), (p.1 + 0.0).to_bits()];
    let (x, y) = (k(a), k(b));
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    [x[0], x[1], y[0], y[1]]
}

/// compares what was read with what the file states
pub fn differences(got: &PlaneBoundary, want: &Spec) -> Vec<String> {
    let mut out = Vec::new();
    let c = got.condition().map(|c| format!("{:?}", c));
    let w = want.cond.map(|c| format!("{:?}", c.to_bugi()));
    if c != w {
        out.push(format!("condition {:?} instead of {:?}", c, w));
    }
    let m = got.material().map(|m| m.name.to_string());
    if m != want.material {
        out.push(format!("material {:?} instead of {:?}", m, want.material));
    }
    let n = got.all_vertices().count();
    let all: usize = want.polys.iter().map(|p| p.len()).sum();
    if n != all {
        out.push(format!("{} vertices instead of {}", n, all));
    }
    let at: Vec<V2> = got.all_vertices().map(|&v| pt(Segment(v, v).get().0)).collect();
    let stated: Vec<V2> = want.polys.iter().flatten().map(|v| v.0).collect();
    if at != stated {
        out.push(format!("vertices {:?} instead of {:?}", at, stated));
    }
    let mut walls = Vec::new();
    for p in &want.polys {
        for i in 0..p.len() {
            walls.push((p[i].0, p[(i + 1) % p.len()].0));
        }
    }
    for (name, got) in [("walls", got.all_walls()), ("base walls", got.all_base_walls())] {
        let g: Vec<(V2, V2)> = got.take(all + 5).map(|s| (pt(s.get().0), pt(s.get().1))).collect();
        if g != walls {
            out.push(format!("{} {:?} instead of {:?}", name, g, walls));
        }
    }
    let mut f: HashMap<[u64; 4], V2> = HashMap::new();
    for (s, v) in got.all_distributed_forces() {
        let e = f.entry(key(pt(s.get().0), pt(s.get().1))).or_insert((0.0, 0.0));
        let v = pt(v);
        *e = (e.0 + v.0, e.1 + v.1);
    }
    let mut g: HashMap<[u64; 4], V2> = HashMap::new();
    for &(a, b, v) in &want.forces {
        let e = g.entry(key(want.at(a), want.at(b))).or_insert((0.0, 0.0));
        *e = (e.0 + v.0, e.1 + v.1);
    }
    let near = |a: f64, b: f64, s: f64| (a - b).abs() <= 1e-12 * s;
    // a force that comes to nothing need not be kept
    let s: f64 = want.forces.iter().map(|f| f.2 .0.abs() + f.2 .1.abs()).sum();
    f.retain(|_, v| !near(v.0, 0.0, s) || !near(v.1, 0.0, s));
    g.retain(|_, v| !near(v.0, 0.0, s) || !near(v.1, 0.0, s));
    let ok = f.len() == g.len()
        && g.iter().all(|(k, v)| f.get(k).map_or(false, |u| {
            near(u.0, v.0, s) && near(u.1, v.1, s)
        }));
    if !ok {
        out.push(format!("distributed forces {:?} instead of {:?}", f.values(), want.forces));
    }
    let mut held: HashMap<[u64; 4], Vec<Constraint>> = HashMap::new();
    for (v, c) in got.all_constraints() {
        let p = pt(Segment(v, v).get().0);
        held.entry(key(p, p)).or_default().push(c);
    }
    for i in 0..want.polys.len() {
        for j in 0..want.polys[i].len() {
            let p = want.at((i, j));
            let g = merge(&held.remove(&key(p, p)).unwrap_or_default());
            let w = merge(&want.held((i, j)));
            if g != w {
                out.push(format!("vertex {:?} is held by {:?} instead of {:?}", p, g, w));
            }
        }
    }
    for (_, c) in held {
        out.push(format!("a constraint {:?} on no vertex", c));
    }
    out
}

/// labels, loads, constraints, material and condition for a region
pub fn dress(rng: &mut Rng, polys: &[Vec<V2>], angles: bool) -> Spec {
    let mut used = std::collections::HashSet::new();
    let mut s = Spec::default();
    let p_label = *rng.pick(&[0.3, 1.0, 1.0]);
    for p in polys {
        let mut q = Vec::new();
        for &v in p {
            let l = if rng.chance(p_label) {
                let l = loop {
                    let l: String = if rng.chance(0.5) {
                        (*rng.pick(&["a", "b", "c", "d", "e", "f", "g", "h", "E", "e1", "1", "2", "end", "x", "nan", "polygon", "0", "left", "A1"])).to_string()
                    } else if rng.chance(0.1) {
                        // long names that differ at one end only
                        let k = rng.range(0, 99);
                        if rng.chance(0.5) { format!("upperleftouterwall{}", k) } else { format!("{}upperleftouterwall", k) }
                    } else {
                        (0..rng.range(1, 4)).map(|_| *rng.pick(b"abcdefghijXYZE0123456789") as char).collect()
                    };
                    if used.insert(l.clone()) {
                        break l;
                    }
                };
                Some(l)
            } else {
                None
            };
            q.push((v, l));
        }
        s.polys.push(q);
    }
    let mut marked = Vec::new();
    for (k, p) in s.polys.iter().enumerate() {
        for i in 0..p.len() {
            let j = (i + 1) % p.len();
            if p[i].1.is_some() && p[j].1.is_some() {
                marked.push(if rng.chance(0.5) { ((k, i), (k, j)) } else { ((k, j), (k, i)) });
            }
        }
    }
    let f = rng.logf(1e-3, 1e6);
    if !marked.is_empty() {
        let most = if marked.len() > 20 { 40 } else { 4 };
        for _ in 0..rng.below(most) {
            let (a, b) = *rng.pick(&marked);
            s.forces.push((a, b, match rng.below(3) {
                0 => (f * rng.sym(), 0.0),
                1 => (0.0, f * rng.sym()),
                _ => (f * rng.sym(), f * rng.sym()),
            }));
            if rng.chance(0.1) {
                s.forces.push((b, a, (f * rng.sym(), f * rng.sym())));
            }
            if rng.chance(0.05) {
                // forces that cancel, with or without another
                let (_, _, v) = *s.forces.last().unwrap();
                s.forces.push(if rng.chance(0.5) { (a, b, (-v.0, -v.1)) } else { (b, a, (-v.0, -v.1)) });
                if rng.chance(0.7) {
                    s.forces.push((a, b, (f * rng.sym(), f * rng.sym())));
                }
            }
        }
        for _ in 0..rng.below(most) {
            let (a, b) = *rng.pick(&marked);
            let (a, b) = if rng.chance(0.3) { (b, a) } else { (a, b) };
            let c = match rng.below(if angles { 6 } else { 5 }) {
                0 | 1 => Constraint::XFixed,
                2 | 3 => Constraint::YFixed,
                4 => Constraint::XYFixed,
                _ => Constraint::AngleFixed(rng.f(-4.0, 4.0)),
            };
            let angled = |v: (usize, usize)| s.held(v).iter().any(|c| matches!(c, Constraint::AngleFixed(_)));
            if matches!(c, Constraint::AngleFixed(_)) && (angled(a) || angled(b)) {
                continue;
            }
            s.cons.push((a, b, c));
        }
    }
    let t = rng.logf(1e-3, 10.0);
    s.cond = Some(*rng.pick(&[Cond::Stress(t), Cond::Strain(t), Cond::Axi]));
    s.material = Some(rng.pick(&["AL6061", "TEST"]).to_string());
    s
}
