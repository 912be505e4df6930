//! C14: boundary files are read as written; text that is none is refused.
use bugi::file::{read_to_bound, FileError};
use verif_core::{main_loop, trap, Ctx, Plan};
use verif_full::bbnd::{differences, dress, read, Spec, Verdict};
use verif_full::region;
use verif_full::text::mutate;

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// polygons of hundreds of vertices, or dozens of polygons
fn large(c: &mut Ctx) -> region::Region {
    if c.rng.chance(0.5) {
        c.count("boundaries of many polygons");
        let marks = c.rng.chance(0.5);
        return region::plate(&mut c.rng, (4, 40), marks);
    }
    c.count("polygons of hundreds of vertices");
    let wheel = |n: usize, r: f64, back: bool, c: &mut Ctx| -> Vec<(f64, f64)> {
        let mut p: Vec<(f64, f64)> = (0..n)
            .map(|i| {
                let t = i as f64 * std::f64::consts::TAU / n as f64;
                let s = r * c.rng.f(0.999, 1.0);
                (s * t.cos(), s * t.sin())
            })
            .collect();
        if back {
            p.reverse();
        }
        p
    };
    let n = *c.rng.pick(&[70, 140, 260, 520]);
    let mut polys = vec![wheel(n, 1.0, false, c)];
    if c.rng.chance(0.5) {
        let n = *c.rng.pick(&[5, 260]);
        polys.push(wheel(n, 0.5, true, c));
    }
    region::Region { kind: "wheel".into(), polys }
}

fn spec(c: &mut Ctx) -> Spec {
    let r = if c.idx % 2003 == 2000 { large(c) } else { region::gen(&mut c.rng, 3, 1e-3, 0.05) };
    let mut polys = r.polys;
    // any scale will do for reading
    let s = c.rng.logf(1e-9, 1e9);
    if c.rng.chance(0.3) {
        for p in polys.iter_mut().flatten() {
            *p = (p.0 * s, p.1 * s);
        }
    } else if c.rng.chance(0.5) {
        // round numbers, as authors write them
        let t: Vec<Vec<_>> = polys.iter().map(|p| p.iter().map(|v| ((v.0 * 8.0).round() / 8.0, (v.1 * 8.0).round() / 8.0)).collect()).collect();
        let r = region::Region { kind: String::new(), polys: t.clone() };
        if r.quality().0 > 0.0 && r.quality().1 > 0.01 {
            polys = t;
        }
    }
    let mut s = dress(&mut c.rng, &polys, true);
    if c.rng.chance(0.05) {
        s.cond = None;
    }
    if c.rng.chance(0.05) {
        s.material = None;
    }
    s
}

fn judge(c: &mut Ctx, bytes: &[u8]) {
    let path = c.scratch.join("in.bbnd");
    std::fs::write(&path, bytes).expect("scratch file");
    let got = match trap(|| read_to_bound(&path)) {
        Ok(g) => g,
        Err(e) => {
            c.fail("crash", format!("reading: {}", e));
            return;
        }
    };
    match (read(bytes), got) {
        (Verdict::Unclear(w), _) => c.count(&format!("left open: {}", w)),
        (Verdict::Good(s), Ok(b)) => {
            c.count("well formed texts");
            if s.polys.is_empty() {
                return;
            }
            match trap(|| differences(&b, &s)) {
                Ok(d) => {
                    c.check(d.is_empty(), "reading", || d.join("; "));
                }
                Err(e) => c.fail("crash", format!("looking at the boundary: {}", e)),
            }
        }
        (Verdict::Good(_), Err(e)) => c.fail("refused", format!("a well formed file is refused: {}", e)),
        (Verdict::Bad(why), Ok(_)) => c.fail("accepted", format!("accepted although malformed: {}", why)),
        (Verdict::Bad(_), Err(e)) => {
            c.count("malformed texts refused");
            c.check(
                matches!(e, FileError::BadParse(_)) || matches!(e, FileError::NoOpen) && std::str::from_utf8(bytes).is_err(),
                "error",
                || format!("refused with {:?}", e),
            );
        }
    }
    let _ = std::fs::remove_file(&path);
}

fn case(c: &mut Ctx) {
    c.nontrivial = true;
    match c.idx % 16 {
        0 => {
            let (what, want) = *c.rng.pick(&[("b", "NoExt"), ("b.txt", "BadType"), ("b.bmsh", "BadType"), ("b.BBND", "BadType"), ("none.bbnd", "NoOpen"), ("none/b.bbnd", "NoOpen"), ("dir.bbnd", "NoOpen")]);
            c.describe(format!("reading {}", what));
            c.sig(what);
            let path = c.scratch.join(what);
            let s = spec(c);
            if what.starts_with("b") {
                std::fs::write(&path, s.write(&mut c.rng)).unwrap();
            } else if what.starts_with("dir") {
                std::fs::create_dir_all(&path).unwrap();
            }
            if let Some(r) = c.run("crash", || read_to_bound(&path)) {
                let got = match r {
                    Ok(_) => "a boundary".to_string(),
                    Err(e) => format!("{:?}", e),
                };
                c.check(got.starts_with(want), "name", || format!("{}: {} instead of {}", what, got, want));
                c.count("file names");
            }
        }
        1..=6 => {
            let s = spec(c);
            let text = s.write(&mut c.rng);
            c.describe(&text);
            c.sig(&text);
            c.add("polygons", s.polys.len() as u64);
            c.add("distributed forces", s.forces.len() as u64);
            c.add("distributed constraints", s.cons.len() as u64);
            match read(text.as_bytes()) {
                Verdict::Good(t) => assert!(t.polys == s.polys && t.forces.len() == s.forces.len() && t.forces.iter().all(|f| s.forces.contains(f)) && t.cond == s.cond, "writer and reader of the harness disagree"),
                Verdict::Bad(e) => panic!("harness: {}\n{}", e, text),
                Verdict::Unclear(_) => {}
            }
            judge(c, text.as_bytes());
            c.count("files in varied notation");
        }
        _ => {
            let s = spec(c);
            let mut text = s.write(&mut c.rng);
            if c.rng.chance(0.15) {
                // walls that cross, names that are not walls
                let mut t = s.clone();
                let k = c.rng.below(t.polys.len());
                let n = t.polys[k].len();
                let (i, j) = (c.rng.below(n), c.rng.below(n));
                match c.rng.below(3) {
                    0 => {
                        let (a, b) = (t.polys[k][i].0, t.polys[k][j].0);
                        t.polys[k][i].0 = b;
                        t.polys[k][j].0 = a;
                    }
                    1 => {
                        let l = c.rng.below(t.polys.len());
                        let d = (c.rng.sym(), c.rng.sym());
                        for v in t.polys[l].iter_mut() {
                            v.0 = (v.0 .0 + d.0, v.0 .1 + d.1);
                        }
                    }
                    _ => t.polys[k].truncate(c.rng.range(1, 3)),
                }
                t.forces.retain(|f| t.polys[f.0 .0].len() > f.0 .1 && t.polys[f.1 .0].len() > f.1 .1);
                t.cons.retain(|f| t.polys[f.0 .0].len() > f.0 .1 && t.polys[f.1 .0].len() > f.1 .1);
                let labels: Vec<_> = (0..t.polys.len()).flat_map(|k| (0..t.polys[k].len()).map(move |i| (k, i))).filter(|&(k, i)| t.polys[k][i].1.is_some()).collect();
                if !labels.is_empty() && c.rng.chance(0.3) {
                    t.forces.push((*c.rng.pick(&labels), *c.rng.pick(&labels), (1.0, 2.0)));
                }
                text = t.write(&mut c.rng);
            }
            let bytes = if c.rng.chance(0.1) { text.as_bytes().to_vec() } else { mutate(&mut c.rng, &text) };
            c.describe(show(&bytes));
            c.sig(&bytes);
            judge(c, &bytes);
            c.count("mutated files");
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 600000,
            thorough: 12000000,
            rule: "boundary files for random regions with holes (now and then dozens of them, or hundreds of vertices), labels, loads and constraints in varied notation and order, compared item by item with what they state; and mutated files judged by an independent reader; every case is non-trivial; distinct by text",
            need: &["well formed texts", "malformed texts refused", "mutated files", "file names", "distributed forces", "distributed constraints", "boundaries of many polygons", "polygons of hundreds of vertices"],
        },
        case,
    );
}
