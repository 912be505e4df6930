//! C13: mesh files keep the model; text that is no mesh file is refused.
use bugi::file::{read_to_elas, save_elas, FileError};
use bugi::matrix::solve::direct::DenseGaussSolver;
use verif_core::dense::maxabs;
use verif_core::fem::*;
use verif_core::{main_loop, trap, Ctx, Plan};
use verif_full::bmsh::{differences, read, Spec, Verdict};
use verif_full::text::{awkward, mutate};

fn model(c: &mut Ctx) -> (Model, Spec) {
    let o = GenOpts { max_cells: 3, ..Default::default() };
    let mut m = loop {
        let m = gen_model(&mut c.rng, &o);
        if m.name != "RANDOM" {
            break m;
        }
    };
    // the scale at which the author works
    let s = *c.rng.pick(&[1.0, 1.0, 1e-3, 1e-6, 1e-9, 1e3, 1e6, 0.0254]);
    for p in m.pts.iter_mut() {
        *p = (p.0 * s, p.1 * s);
    }
    m.cond = match m.cond {
        Cond::Stress(t) => Cond::Stress(t * s),
        Cond::Strain(t) => Cond::Strain(t * s),
        x => x,
    };
    let f = *c.rng.pick(&[1.0, 1e-6, 1e6, 1e-3]);
    for x in m.conc.iter_mut() {
        x.1 = (x.1 .0 * f, x.1 .1 * f);
    }
    for x in m.line.iter_mut() {
        x.1 = (x.1 .0 * f, x.1 .1 * f);
    }
    let spec = Spec {
        material: m.name.to_string(),
        cond: m.cond,
        pts: m.pts.clone(),
        tris: m.tris.clone(),
        cons: m.cons.clone(),
        conc: m.conc.clone(),
        line: m.line.clone(),
    };
    (m, spec)
}

/// a file's content need not be a model anyone can solve
fn wild(c: &mut Ctx) -> Spec {
    let large = c.idx % 4800 == 4785 || c.idx % 4800 == 4789 || c.idx % 4800 == 4800 - 1;
    let n = if !large {
        c.rng.range(3, 8)
    } else if c.idx % 24000 == 4785 || c.idx % 24000 == 4789 {
        c.count("files of more than 65536 nodes");
        c.rng.range(65600, 68000)
    } else {
        c.count("files of hundreds of nodes");
        c.rng.range(130, 1200)
    };
    let few = if large { *c.rng.pick(&[6, n, 2 * n]) } else { 6 };
    let scale = c.rng.logf(1e-9, 1e9);
    let pts: Vec<V2> = (0..n).map(|_| if c.rng.chance(0.5) { (awkward(&mut c.rng), awkward(&mut c.rng)) } else { (scale * c.rng.sym(), scale * c.rng.sym()) }).collect();
    let mut pts = pts;
    if c.rng.chance(0.02) {
        let s = c.rng.logf(1e140, 1e300);
        for p in pts.iter_mut() {
            *p = (c.rng.sym() * s, c.rng.sym() * s);
        }
    }
    let tris = (0..c.rng.below(few))
        .map(|_| {
            let a = c.rng.below(n);
            let b = (a + 1 + c.rng.below(n - 1)) % n;
            loop {
                let d = c.rng.below(n);
                if d != a && d != b {
                    return [a, b, d];
                }
            }
        })
        .collect();
    use bugi::element::constraint::Constraint::*;
    let cons = (0..c.rng.below(few))
        .map(|_| {
            let a = awkward(&mut c.rng);
            (c.rng.below(n), *c.rng.pick(&[Free, XFixed, YFixed, XYFixed, AngleFixed(a)]))
        })
        .collect();
    let conc = (0..c.rng.below(few.max(6) - 1)).map(|_| (c.rng.below(n), (awkward(&mut c.rng), awkward(&mut c.rng)))).collect();
    let line = (0..c.rng.below(few.max(6) - 1)).map(|_| ((c.rng.below(n), c.rng.below(n)), (awkward(&mut c.rng), awkward(&mut c.rng)))).collect();
    let t = awkward(&mut c.rng).abs();
    Spec {
        material: c.rng.pick(&["TEST", "AL6061"]).to_string(),
        cond: *c.rng.pick(&[Cond::Stress(t), Cond::Strain(t), Cond::Axi]),
        pts,
        tris,
        cons,
        conc,
        line,
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn parse_and_judge(c: &mut Ctx, bytes: &[u8], key: &str) {
    let path = c.scratch.join("in.bmsh");
    std::fs::write(&path, bytes).expect("scratch file");
    let got = match trap(|| read_to_elas(&path)) {
        Ok(g) => g,
        Err(e) => {
            c.fail("crash", format!("reading: {}", e));
            return;
        }
    };
    match (read(bytes), got) {
        (Verdict::Unclear, _) => c.count("unclear texts"),
        (Verdict::Good(s), Ok(e)) => {
            c.count("well formed texts");
            let w = s.build();
            let d = differences(&e, &w);
            c.check(d.is_empty(), key, || d.join("; "));
        }
        (Verdict::Good(_), Err(e)) => c.fail("refused", format!("a well formed file is refused: {}", e)),
        (Verdict::Bad(why), Ok(_)) => c.fail("accepted", format!("accepted although malformed: {}", why)),
        (Verdict::Bad(_), Err(FileError::BadParse(_))) => c.count("malformed texts refused"),
        (Verdict::Bad(_), Err(e)) => {
            c.count("malformed texts refused");
            // anything but a parse error would blame the wrong thing
            c.check(matches!(e, FileError::NoOpen) && std::str::from_utf8(bytes).is_err(), "error", || format!("refused with {:?}", e));
        }
    }
    let _ = std::fs::remove_file(&path);
}

fn case(c: &mut Ctx) {
    c.nontrivial = true;
    match c.idx % 16 {
        0 | 1 => {
            let solvable = c.rng.chance(0.6) && c.idx % 4800 != 4785;
            let (m, spec) = if solvable {
                let (m, s) = model(c);
                (Some(m), s)
            } else {
                (None, wild(c))
            };
            c.describe(format!("saved model {:?}", spec));
            c.sigf(&spec.pts.iter().map(|p| p.0).collect::<Vec<_>>());
            let path = c.scratch.join("out.bmsh");
            let _ = std::fs::remove_file(&path);
            let e = match trap(|| spec.build()) {
                Ok(e) => e,
                Err(_) => {
                    c.count("models too large to build");
                    return;
                }
            };
            if c.run("save", || save_elas(&path, e)).is_none() {
                return;
            }
            let text = std::fs::read(&path).unwrap_or_default();
            if let Verdict::Unclear = read(&text) {
                return;
            }
            let back = match c.run("crash", || read_to_elas(&path)) {
                Some(Ok(b)) => b,
                Some(Err(e)) => {
                    c.fail("round trip", format!("the saved file is refused: {}\n{}", e, show(&text)));
                    return;
                }
                None => return,
            };
            let want = spec.build();
            let d = differences(&back, &want);
            c.check(d.is_empty(), "round trip", || d.join("; "));
            c.count("round trips");
            // a reader of the documented format sees the same model
            match read(&text) {
                Verdict::Good(s) => {
                    let d = differences(&s.build(), &want);
                    c.check(d.is_empty(), "written text", || d.join("; "));
                }
                Verdict::Bad(e) => c.fail("written text", format!("{}\n{}", e, show(&text))),
                Verdict::Unclear => {}
            }
            if let (Some(m), true) = (m, d.is_empty()) {
                let (mut a, mut b) = (want, back);
                let u = trap(|| disp_of(&a.calc_displacements::<DenseGaussSolver>(), &m));
                let v = trap(|| disp_of(&b.calc_displacements::<DenseGaussSolver>(), &m));
                match (u, v) {
                    (Ok(u), Ok(v)) => {
                        let big = maxabs(&flat(&u));
                        let e = flat(&u).iter().zip(flat(&v)).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
                        c.check(e <= 1e-6 * big, "displacements", || format!("differ by {:e} of {:e}", e, big));
                        c.count("displacements compared");
                    }
                    (Err(_), Err(_)) => c.count("neither solvable"),
                    (x, y) => c.fail("displacements", format!("{:?} / {:?}", x.err(), y.err())),
                }
            }
            // saving again writes the same model
            let again = c.scratch.join("again.bmsh");
            if let Some(Ok(b)) = c.run("crash", || read_to_elas(&path)) {
                save_elas(&again, b);
                if let Ok(b2) = read_to_elas(&again) {
                    let w = spec.build();
                    let d = differences(&b2, &w);
                    c.check(d.is_empty(), "round trip", || format!("second: {}", d.join("; ")));
                }
            }
        }
        2 => {
            // names and places
            let (what, want) = *c.rng.pick(&[("m", "NoExt"), ("m.txt", "BadType"), ("m.bbnd", "BadType"), ("m.BMSH", "BadType"), ("none.bmsh", "NoOpen"), ("none/m.bmsh", "NoOpen"), ("dir.bmsh", "NoOpen")]);
            c.describe(format!("reading {}", what));
            c.sig(what);
            let path = c.scratch.join(what);
            let s = wild(c);
            let text = s.write(&mut c.rng);
            if what.starts_with("m") {
                std::fs::write(&path, &text).unwrap();
            } else if what.starts_with("dir") {
                std::fs::create_dir_all(&path).unwrap();
            }
            if let Some(r) = c.run("crash", || read_to_elas(&path)) {
                let got = match r {
                    Ok(_) => "a model".to_string(),
                    Err(e) => format!("{:?}", e),
                };
                c.check(got.starts_with(want), "name", || format!("{}: {} instead of {}", what, got, want));
                c.count("file names");
            }
        }
        3 | 4 | 5 => {
            let s = if c.rng.chance(0.3) { model(c).1 } else { wild(c) };
            let text = s.write(&mut c.rng);
            c.describe(&text);
            c.sig(&text);
            // the harness reads back what it wrote
            match read(text.as_bytes()) {
                Verdict::Good(t) => assert!(differences(&t.build(), &s.build()).is_empty(), "writer and reader of the harness disagree"),
                Verdict::Bad(e) => panic!("harness: {}\n{}", e, text),
                Verdict::Unclear => {}
            }
            parse_and_judge(c, text.as_bytes(), "reading");
            c.count("files in varied notation");
        }
        _ => {
            let s = if c.rng.chance(0.2) { model(c).1 } else { wild(c) };
            let text = s.write(&mut c.rng);
            let bytes = mutate(&mut c.rng, &text);
            c.describe(show(&bytes));
            c.sig(&bytes);
            parse_and_judge(c, &bytes, "reading");
            c.count("mutated files");
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 120000,
            thorough: 4000000,
            rule: "models at many scales and sizes (now and then hundreds of nodes, or more than 65536) saved and read back (data and displacements), files in varied notation, and mutated files judged by an independent reader of the documented format; every case is non-trivial; distinct by text or coordinates",
            need: &["round trips", "displacements compared", "well formed texts", "malformed texts refused", "mutated files", "file names", "files of hundreds of nodes", "files of more than 65536 nodes"],
        },
        case,
    );
}
