//! The mesh file format: an independent reader and a writer in varied notation.
use crate::text::{number, odd_number, spell, whole};
use bugi::element::constraint::Constraint;
use bugi::element::{ElementAssemblage, ElementDescriptor};
use verif_core::fem::{Cond, V2};
use verif_core::Rng;

#[derive(Clone, Debug)]
pub struct Spec {
    pub material: String,
    pub cond: Cond,
    pub pts: Vec<V2>,
    pub tris: Vec<[usize; 3]>,
    pub cons: Vec<(usize, Constraint)>,
    pub conc: Vec<(usize, V2)>,
    pub line: Vec<((usize, usize), V2)>,
}

pub enum Verdict {
    Good(Spec),
    Bad(String),
    /// the text uses something this reader takes no position on
    Unclear,
}

struct Reader<'a> {
    lines: Vec<&'a str>,
    at: usize,
    unclear: bool,
}

type R<T> = Result<T, String>;

impl<'a> Reader<'a> {
    fn next(&mut self) -> R<&'a str> {
        let l = self.lines.get(self.at).copied().ok_or("the text ends early")?;
        self.at += 1;
        Ok(l)
    }
    fn exact(&mut self, s: &str) -> R<()> {
        let l = self.next()?;
        if l == s {
            Ok(())
        } else {
            Err(format!("line {:?} instead of {:?}", l, s))
        }
    }
    fn named(&mut self, name: &str) -> R<&'a str> {
        let l = self.next()?;
        l.strip_prefix(name).and_then(|r| r.strip_prefix(' ')).ok_or(format!("line {:?} is no {}", l, name))
    }
    fn num(&mut self, s: &str) -> R<f64> {
        if odd_number(s) {
            self.unclear = true;
            return Ok(0.0);
        }
        let x = number(s).ok_or(format!("{:?} is no number", s))?;
        if !x.is_finite() {
            return Err(format!("{:?} is out of range", s));
        }
        Ok(x)
    }
    fn vec2(&mut self, s: &str) -> R<V2> {
        let p: Vec<&str> = s.split('/').collect();
        if p.len() != 2 {
            return Err(format!("{:?} is no pair", s));
        }
        Ok((self.num(p[0])?, self.num(p[1])?))
    }
    fn section<T>(&mut self, name: &str, numbered: bool, mut f: impl FnMut(&mut Self, &str) -> R<T>) -> R<Vec<T>> {
        self.exact(&format!("${}", name))?;
        let n = self.named("count")?;
        let n = whole(n).ok_or("bad count")?;
        let mut out = Vec::new();
        for i in 0..n {
            let mut l = self.next()?;
            if numbered {
                let (k, r) = l.split_once(' ').ok_or(format!("line {:?} has no number", l))?;
                if whole(k) != Some(i) {
                    return Err(format!("line {:?} should be number {}", l, i));
                }
                l = r;
            }
            out.push(f(self, l)?);
        }
        self.exact(&format!("$End{}", name))?;
        Ok(out)
    }
}

fn idx(s: &str, n: usize) -> R<usize> {
    let i = whole(s).ok_or(format!("{:?} is no node", s))?;
    if i as u128 >= n as u128 {
        return Err(format!("there is no node {}", i));
    }
    Ok(i as usize)
}

pub fn read(bytes: &[u8]) -> Verdict {
    let text = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(_) => return Verdict::Bad("not UTF-8".into()),
    };
    let lines = text.split('\n').filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let mut r = Reader { lines, at: 0, unclear: false };
    let res = spec(&mut r);
    if r.unclear {
        return Verdict::Unclear;
    }
    match res {
        Ok(s) => Verdict::Good(s),
        Err(e) => Verdict::Bad(e),
    }
}

fn spec(r: &mut Reader) -> R<Spec> {
    r.exact("$Header")?;
    if whole(r.named("version")?) != Some(1) {
        return Err("version".into());
    }
    let material = r.named("material")?.to_string();
    if material != "AL6061" && material != "TEST" {
        return Err(format!("material {:?}", material));
    }
    let c = r.named("condition")?;
    let cond = if c == "axisymmetric" {
        Cond::Axi
    } else if let Some(t) = c.strip_prefix("planestress ") {
        Cond::Stress(r.num(t)?)
    } else if let Some(t) = c.strip_prefix("planestrain ") {
        Cond::Strain(r.num(t)?)
    } else {
        return Err(format!("condition {:?}", c));
    };
    r.exact("$EndHeader")?;
    let pts = r.section("Nodes", true, |r, l| r.vec2(l))?;
    let n = pts.len();
    let tris = r.section("Elements", true, |_, l| {
        let p: Vec<&str> = l.split('/').collect();
        if p.len() != 3 {
            return Err(format!("{:?} is no triangle", l));
        }
        Ok([idx(p[0], n)?, idx(p[1], n)?, idx(p[2], n)?])
    })?;
    for t in &tris {
        // a shape that cannot be computed with
        // (either answer will do, a crash will not)
        let a = verif_core::fem::area2(pts[t[0]], pts[t[1]], pts[t[2]]);
        let reach = t.iter().map(|&i| pts[i].0.abs().max(pts[i].1.abs())).fold(0.0, f64::max);
        if !a.is_finite() || reach > 1e140 {
            r.unclear = true;
        }
    }
    let cons = r.section("Constraints", false, |r, l| {
        let (k, c) = l.split_once(' ').ok_or("constraint")?;
        let c = match c {
            "x" => Constraint::XFixed,
            "y" => Constraint::YFixed,
            "xy" => Constraint::XYFixed,
            "free" => Constraint::Free,
            c => {
                let a = c.strip_prefix("angle:").ok_or(format!("constraint {:?}", c))?;
                if odd_number(a) || number(a).map_or(false, |x| !x.is_finite()) {
                    r.unclear = true;
                }
                Constraint::AngleFixed(number(a).ok_or(format!("constraint {:?}", c))?)
            }
        };
        Ok((idx(k, n)?, c))
    })?;
    let conc = r.section("Forces", false, |r, l| {
        let (k, f) = l.split_once(' ').ok_or("force")?;
        Ok((idx(k, n)?, r.vec2(f)?))
    })?;
    let line = r.section("DistForces", false, |r, l| {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() != 3 {
            return Err(format!("{:?} is no distributed force", l));
        }
        Ok(((idx(p[0], n)?, idx(p[1], n)?), r.vec2(p[2])?))
    })?;
    if r.at != r.lines.len() {
        return Err(format!("{:?} after the last section", r.lines[r.at]));
    }
    Ok(Spec { material, cond, pts, tris, cons, conc, line })
}

impl Spec {
    /// the model by the crate's own interface
    pub fn build(&self) -> ElementAssemblage {
        let m = verif_core::fem::named_material(&self.material).expect("a named material");
        let mut el = ElementAssemblage::new(m, self.cond.to_bugi());
        let ids = el.add_nodes(&self.pts);
        for t in &self.tris {
            el.add_element(ElementDescriptor::new([ids[t[0]], ids[t[1]], ids[t[2]]]));
        }
        for &(n, c) in &self.cons {
            el.add_constraint(ids[n], c);
        }
        for &(n, f) in &self.conc {
            el.add_conc_force(ids[n], f.into());
        }
        for &((a, b), f) in &self.line {
            el.add_dist_line_force(ids[a], ids[b], f.into());
        }
        el
    }

    pub fn write(&self, rng: &mut Rng) -> String {
        let mut ls: Vec<String> = vec!["$Header".into(), "version 1".into(), format!("material {}", self.material)];
        ls.push(match self.cond {
            Cond::Axi => "condition axisymmetric".into(),
            Cond::Stress(t) => format!("condition planestress {}", spell(rng, t)),
            Cond::Strain(t) => format!("condition planestrain {}", spell(rng, t)),
        });
        ls.extend(vec!["$EndHeader".to_string(), "$Nodes".into(), format!("count {}", self.pts.len())]);
        for (i, p) in self.pts.iter().enumerate() {
            ls.push(format!("{} {}/{}", i, spell(rng, p.0), spell(rng, p.1)));
        }
        ls.extend(vec!["$EndNodes".to_string(), "$Elements".into(), format!("count {}", self.tris.len())]);
        for (i, t) in self.tris.iter().enumerate() {
            ls.push(format!("{} {}/{}/{}", i, t[0], t[1], t[2]));
        }
        ls.extend(vec!["$EndElements".to_string(), "$Constraints".into(), format!("count {}", self.cons.len())]);
        for (n, c) in &self.cons {
            ls.push(format!(
                "{} {}",
                n,
                match c {
                    Constraint::Free => "free".to_string(),
                    Constraint::XFixed => "x".to_string(),
                    Constraint::YFixed => "y".to_string(),
                    Constraint::XYFixed => "xy".to_string(),
                    Constraint::AngleFixed(a) => format!("angle:{}", spell(rng, *a)),
                }
            ));
        }
        ls.extend(vec!["$EndConstraints".to_string(), "$Forces".into(), format!("count {}", self.conc.len())]);
        for (n, f) in &self.conc {
            ls.push(format!("{} {}/{}", n, spell(rng, f.0), spell(rng, f.1)));
        }
        ls.extend(vec!["$EndForces".to_string(), "$DistForces".into(), format!("count {}", self.line.len())]);
        for ((a, b), f) in &self.line {
            ls.push(format!("{} {} {}/{}", a, b, spell(rng, f.0), spell(rng, f.1)));
        }
        ls.push("$EndDistForces".into());
        let mut out = String::new();
        for l in ls {
            while rng.chance(0.07) {
                out += *rng.pick(&["\n", "#\n", "# a note\n", "#$Nodes\n", "\n\n"]);
            }
            out += &l;
            out.push('\n');
        }
        if rng.chance(0.3) {
            out.pop();
        } else if rng.chance(0.3) {
            out += *rng.pick(&["\n\n", "# end", "# end\n"]);
        }
        out
    }
}

fn same(a: f64, b: f64) -> bool {
    a == b
}

/// what a reader sees of two models, compared
pub fn differences(got: &ElementAssemblage, want: &ElementAssemblage) -> Vec<String> {
    let mut out = Vec::new();
    if got.material().name != want.material().name
        || !same(got.material().youngs, want.material().youngs)
        || !same(got.material().poisson, want.material().poisson)
        || !same(got.material().density, want.material().density)
    {
        out.push(format!("material {:?} instead of {:?}", got.material(), want.material()));
    }
    let c = format!("{:?} / {:?}", got.condition(), want.condition());
    if format!("{:?}", got.condition()) != format!("{:?}", want.condition()) {
        out.push(format!("condition {}", c));
    }
    let (a, b) = (got.nodes(), want.nodes());
    if a.len() != b.len() {
        out.push(format!("{} nodes instead of {}", a.len(), b.len()));
    } else if let Some(i) = (0..a.len()).find(|&i| a[i].dim() != b[i].dim() || (0..a[i].dim()).any(|d| !same(a[i][d], b[i][d]))) {
        out.push(format!("node {}: {:?} instead of {:?}", i, a[i], b[i]));
    }
    let parts = |e: &ElementAssemblage| e.element_descriptors().into_iter().map(|d| d.into_parts().map(|n| n.into_idx())).collect::<Vec<_>>();
    let (a, b) = (parts(got), parts(want));
    if a.len() != b.len() {
        out.push(format!("{} elements instead of {}", a.len(), b.len()));
    } else if let Some(i) = (0..a.len()).find(|&i| a[i] != b[i]) {
        out.push(format!("element {}: {:?} instead of {:?}", i, a[i], b[i]));
    }
    let (a, b) = (got.constraints(), want.constraints());
    if a.len() != b.len() {
        out.push(format!("{} constraints instead of {}", a.len(), b.len()));
    } else if let Some(i) = (0..a.len()).find(|&i| a[i] != b[i]) {
        out.push(format!("constraint {:?} instead of {:?}", a[i], b[i]));
    }
    let conc = |e: &ElementAssemblage| {
        let mut v: Vec<(usize, Vec<f64>)> = e.conc_forces().into_iter().map(|(n, f)| (n.into_idx(), f.to_vec())).collect();
        v.sort_by_key(|x| x.0);
        v
    };
    if conc(got) != conc(want) {
        out.push(format!("forces {:?} instead of {:?}", conc(got), conc(want)));
    }
    let line = |e: &ElementAssemblage| {
        let mut v: Vec<((usize, usize), Vec<f64>)> =
            e.dist_forces().into_iter().map(|((a, b), f)| ((a.into_idx(), b.into_idx()), f.to_vec())).collect();
        v.sort_by_key(|x| x.0);
        v
    };
    if line(got) != line(want) {
        out.push(format!("distributed forces {:?} instead of {:?}", line(got), line(want)));
    }
    out
}
