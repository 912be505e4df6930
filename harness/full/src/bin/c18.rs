//! C18: the program does what its arguments say, with the library's results, and reports what it cannot do.
use bugi::file::{read_to_elas, save_elas};
use bugi::matrix::solve::direct::{CholeskyEnvelopeSolver, DenseGaussSolver};
use bugi::matrix::solve::iterative::GaussSeidelSolver;
use bugi::mesher::plane::PlaneTriangulation;
use bugi::visual::{color, VisOptions, Visualizer};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use verif_core::fem::*;
use verif_core::{main_loop, trap, Ctx, Plan};
use verif_full::mesh::{faults, suits_chew, view, Method, Stats};
use verif_full::region::{self, dist};
use verif_full::text::mutate;
use verif_full::{bbnd, bmsh};

struct Ran {
    ok: bool,
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

/// runs the program in `dir` with limits on its time and memory
fn run(dir: &Path, args: &[String]) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let bin = Path::new(&std::env::var("VERIF_BIN").expect("VERIF_BIN")).join("bugi");
    let o = Command::new("/bin/sh")
        .args(["-c", "ulimit -c 0; ulimit -t 60; ulimit -v 4000000; exec \"$0\" \"$@\""])
        .arg(bin)
        .args(args)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .expect("the program starts");
    Ran {
        ok: o.status.success(),
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut res = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let name = e.file_name().to_string_lossy().into_owned();
        if e.path().is_dir() {
            res.insert(format!("{}/", name), vec![]);
            res.extend(files(&e.path()).into_iter().map(|(n, b)| (format!("{}/{}", name, n), b)));
        } else {
            res.insert(name, std::fs::read(e.path()).unwrap_or_default());
        }
    }
    res
}

/// short or long form, together or apart, in any place among the arguments
fn opt(c: &mut Ctx, args: &mut Vec<Vec<String>>, short: Option<&str>, long: &str, value: &str) {
    let n = if short.is_some() { c.rng.below(4) } else { 2 + c.rng.below(2) };
    args.push(match n {
        0 => vec![format!("-{}", short.unwrap()), value.into()],
        1 if !value.starts_with('-') => vec![format!("-{}{}", short.unwrap(), value)],
        2 => vec![format!("--{}", long), value.into()],
        _ => vec![format!("--{}={}", long, value)],
    });
}

fn line_up(c: &mut Ctx, command: &str, opts: Vec<Vec<String>>, plain: &[&str]) -> Vec<String> {
    // the plain arguments keep their order
    let mut opts = opts;
    c.rng.shuffle(&mut opts);
    let mut groups: Vec<Vec<String>> = opts;
    let mut at = 0;
    for p in plain {
        let i = at + c.rng.below(groups.len() - at + 1);
        groups.insert(i, vec![p.to_string()]);
        at = i + 1;
    }
    let mut v = vec![command.to_string()];
    v.extend(groups.into_iter().flatten());
    v
}

fn same_picture(a: &Path, b: &Path) -> Result<(), String> {
    let open = |p: &Path| image::open(p).map(|i| i.to_rgb8()).map_err(|e| format!("{}: {}", p.display(), e));
    let (x, y) = (open(a)?, open(b)?);
    if x.dimensions() != y.dimensions() {
        return Err(format!("{:?} pixels instead of {:?}", x.dimensions(), y.dimensions()));
    }
    let n = (x.width() * x.height()) as f64;
    let off = x.pixels().zip(y.pixels()).filter(|(p, q)| (0..3).any(|i| (p.0[i] as i32 - q.0[i] as i32).abs() > 8)).count();
    // rounding may move a vertex by a pixel where a sum came in another order
    if off as f64 > 0.0005 * n + 4.0 * (n.sqrt()).min(64.0) {
        return Err(format!("{} of {} pixels differ", off, n));
    }
    Ok(())
}

fn blank(p: &Path) -> bool {
    image::open(p).map(|i| i.to_rgb8()).map_or(true, |i| {
        let f = *i.get_pixel(0, 0);
        i.pixels().all(|p| *p == f)
    })
}

fn fresh(c: &Ctx) -> PathBuf {
    let d = c.scratch.join("run");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("res")).unwrap();
    d
}

/// sometimes an earlier run has left a file where the result goes
fn stale(c: &mut Ctx, dir: &Path, name: &str) {
    if c.rng.chance(0.15) {
        let n = c.rng.range(0, 3) * 40000;
        std::fs::write(dir.join(name), vec![b'#'; n]).unwrap();
        c.count("over an earlier file");
    }
}

fn large(c: &Ctx) -> bool {
    (400..408).contains(&(c.idx % 408))
}

fn model(c: &mut Ctx, axi: bool) -> Model {
    loop {
        if large(c) {
            let nodes = if axi { c.rng.range(100, 250) } else { c.rng.range(60, 90) };
            let m = verif_core::fem::gen_large(&mut c.rng, nodes, axi, true);
            if m.name == "RANDOM" || !axi && m.free_dirs().len() < 105 {
                continue;
            }
            c.count("models of many nodes");
            return m;
        }
        let o = GenOpts { max_cells: c.rng.range(1, 4), axi, ..Default::default() };
        let m = gen_model(&mut c.rng, &o);
        if m.name != "RANDOM" {
            return m;
        }
    }
}

fn save(m: &Model, c: &mut Ctx, to: &Path) {
    let s = bmsh::Spec { material: m.name.to_string(), cond: m.cond, pts: m.pts.clone(), tris: m.tris.clone(), cons: m.cons.clone(), conc: m.conc.clone(), line: m.line.clone() };
    if c.rng.chance(0.5) {
        save_elas(to, s.build());
    } else {
        let t = s.write(&mut c.rng);
        std::fs::write(to, t).unwrap();
    }
}

/// exactly these files are new, and the others as they were
fn compare_files(c: &mut Ctx, before: &BTreeMap<String, Vec<u8>>, dir: &Path, new: &[String]) {
    let after = files(dir);
    for (n, b) in before {
        if !new.contains(n) {
            c.check(after.get(n) == Some(b), "files", || format!("{} was changed", n));
        }
    }
    for n in after.keys() {
        c.check(before.contains_key(n) || new.contains(n), "files", || format!("{} was written and not asked for", n));
    }
    for n in new {
        c.check(after.contains_key(n), "files", || format!("{} was not written", n));
    }
}

struct Look {
    opts: Vec<Vec<String>>,
    map: Option<&'static str>,
    size: u32,
    mesh: bool,
    scale: f64,
}

fn look(c: &mut Ctx) -> Look {
    let mut l = Look { opts: vec![], map: None, size: 1024, mesh: true, scale: 50.0 };
    if c.rng.chance(0.6) {
        let m = *c.rng.pick(&["hot", "rgb"]);
        l.map = Some(m);
        opt(c, &mut l.opts, Some("c"), "colormap", m);
    }
    if c.rng.chance(0.9) {
        l.size = if large(c) { c.rng.range(1000, 2200) } else if c.rng.chance(0.15) { c.rng.range(1, 40) } else { c.rng.range(40, 400) } as u32;
        let s = l.size.to_string();
        opt(c, &mut l.opts, Some("i"), "imsize", &s);
    }
    if c.rng.chance(0.6) {
        l.mesh = c.rng.chance(0.5);
        let s = l.mesh.to_string();
        opt(c, &mut l.opts, None, "showmesh", &s);
    }
    l
}

fn options(l: &Look) -> VisOptions {
    let mut o = VisOptions::new().im_size(l.size).show_mesh(l.mesh);
    if let Some(m) = l.map {
        o = if m == "hot" { o.color_map(Box::new(|x| color::hot_map(x))) } else { o.color_map(Box::new(|x| color::rgb_map(x))) };
    }
    o
}

fn linear(c: &mut Ctx) {
    let dir = fresh(c);
    let m = model(c, true);
    let input = *c.rng.pick(&["m.bmsh", "my part.bmsh", "a.b.bmsh", "out.bmsh", "out.png.bmsh", "b.bbnd.bmsh", "res/m.bmsh"]);
    save(&m, c, &dir.join(input));
    let mut l = look(c);
    let solver = *c.rng.pick(&["", "densegauss", "cholesky", "gaussseidel"]);
    if !solver.is_empty() {
        opt(c, &mut l.opts, Some("s"), "solver", solver);
    }
    let value = *c.rng.pick(&["", "displacement", "vonmises"]);
    if !value.is_empty() {
        opt(c, &mut l.opts, Some("n"), "nodevalue", value);
    }
    let out = *c.rng.pick(&["", "result.png", "r 1.png", "res/r.png", "./res/../r.png", "m.bmsh.png", "out_00.png", "linear.png", "modal.png"]);
    if !out.is_empty() {
        opt(c, &mut l.opts, Some("o"), "out", out);
    }
    let mut e = match read_to_elas(dir.join(input)) {
        Ok(e) => e,
        Err(e) => panic!("harness: own file refused: {}", e),
    };
    // what the library says
    let mut want = match trap(|| {
        let d = match solver {
            "cholesky" => e.calc_displacements::<CholeskyEnvelopeSolver>(),
            "gaussseidel" => e.calc_displacements::<GaussSeidelSolver>(),
            _ => e.calc_displacements::<DenseGaussSolver>(),
        };
        let (u, v) = (d.displacement_norms(), d.von_mises());
        let top = u.iter().cloned().fold(0.0, f64::max);
        (u, v, top, d)
    }) {
        Ok(x) => x,
        Err(_) => {
            c.count("skipped: the library cannot solve it");
            return;
        }
    };
    // exaggerations that show; the default otherwise
    if c.rng.chance(0.7) {
        let ext = m.pts.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
        let s = if want.2 > 0.0 { ext / want.2 * c.rng.f(-0.1, 0.3) } else { c.rng.f(0.0, 100.0) };
        l.scale = format!("{:.4e}", s).parse().unwrap();
        let t = if c.rng.chance(0.5) { format!("{:.4e}", s) } else { format!("{}", l.scale) };
        opt(c, &mut l.opts, Some("x"), "scale", &t);
        if l.opts.last().unwrap().len() == 2 && t.starts_with('-') {
            // a value that looks like an option has to be joined to its name
            *l.opts.last_mut().unwrap() = vec![format!("--scale={}", t)];
        }
    }
    let args = line_up(c, "linear", l.opts.drain(..).collect::<Vec<_>>(), &[input]);
    c.describe(format!("bugi {:?} on {}", args, m.describe()));
    c.sig(&args);
    c.sigf(&m.pts.iter().map(|p| p.0).collect::<Vec<_>>());
    let picture = c.scratch.join("want.png");
    let dval = if value == "vonmises" { want.1.clone() } else { want.0.clone() };
    let drawn = trap(|| {
        let mut vis = want.3.visualize(l.scale);
        vis.set_vals(dval);
        vis.draw(picture.to_str().unwrap(), options(&l));
    });
    if drawn.is_err() {
        c.count("skipped: the library cannot draw it");
        return;
    }
    let name = if out.is_empty() { "out.png".to_string() } else { out.replace("./res/../", "") };
    stale(c, &dir, &name);
    let before = files(&dir);
    let r = run(&dir, &args);
    if !c.check(r.ok, "exit", || format!("exit {:?}/{:?}: {}", r.code, r.signal, r.err)) {
        return;
    }
    compare_files(c, &before, &dir, &[name.clone()]);
    let (u, v) = (want.2, want.1.iter().cloned().fold(f64::MIN, f64::max));
    let lines: Vec<&str> = r.out.lines().collect();
    let num = |s: &str| s.parse::<f64>().ok();
    let p = lines.get(0).and_then(|l| l.strip_prefix("max von mises: ")).and_then(num);
    let q = lines.get(1).and_then(|l| l.strip_prefix("max displacement: ")).and_then(num);
    let near = |a: Option<f64>, b: f64| a.map_or(false, |a| (a - b).abs() <= 1e-6 * b.abs() || a == b);
    c.check(lines.len() == 2 && near(p, v) && near(q, u), "printed", || format!("printed {:?}, library: {} and {}", r.out, v, u));
    if let Err(e) = same_picture(&dir.join(&name), &picture) {
        c.fail("picture", e);
    }
    c.count("linear runs");
    c.count(&format!("solver {:?}", solver));
    c.nontrivial = true;
    want.0.clear();
}

fn modal(c: &mut Ctx) {
    let dir = fresh(c);
    let many = c.rng.chance(0.15);
    let m = loop {
        let m = model(c, false);
        if !many || m.free_dirs().len() >= 11 {
            break m;
        }
    };
    let input = "m.bmsh";
    save(&m, c, &dir.join(input));
    let mut l = look(c);
    let n = if large(c) {
        l.opts.retain(|o| !o[0].contains("im") && !o[0].starts_with("-i"));
        l.size = 60;
        opt(c, &mut l.opts, Some("i"), "imsize", "60");
        c.count("runs of more than 99 modes");
        c.rng.range(100, 104)
    } else if many { c.rng.range(8, m.free_dirs().len().min(13)) } else { c.rng.range(1, m.free_dirs().len().min(4)) };
    let mut e = match read_to_elas(dir.join(input)) {
        Ok(e) => e,
        Err(e) => panic!("harness: own file refused: {}", e),
    };
    let modes = match trap(|| e.calc_modes(n)) {
        Ok(x) => x,
        Err(_) => {
            c.count("skipped: the library finds no modes");
            return;
        }
    };
    let top = modes.iter().map(|d| d.displacement_norms().into_iter().fold(0.0, f64::max)).fold(0.0, f64::max);
    if c.rng.chance(0.8) && top > 0.0 {
        let ext = m.pts.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
        l.scale = format!("{:.4e}", ext / top * c.rng.f(0.0, 0.3)).parse().unwrap();
        let t = format!("{}", l.scale);
        opt(c, &mut l.opts, Some("x"), "scale", &t);
    }
    let num = n.to_string();
    let args = line_up(c, "modal", l.opts.drain(..).collect::<Vec<_>>(), &[input, &num]);
    c.describe(format!("bugi {:?} on {}", args, m.describe()));
    c.sig(&args);
    c.sigf(&m.pts.iter().map(|p| p.0).collect::<Vec<_>>());
    let mut pictures = vec![];
    for (i, d) in modes.iter().enumerate() {
        let p = c.scratch.join(format!("want{}.png", i));
        let drawn = trap(|| {
            let mut vis = d.visualize(l.scale);
            vis.set_vals(d.displacement_norms());
            vis.draw(p.to_str().unwrap(), options(&l));
        });
        if drawn.is_err() {
            c.count("skipped: the library cannot draw it");
            return;
        }
        pictures.push(p);
    }
    let before = files(&dir);
    let r = run(&dir, &args);
    if !c.check(r.ok, "exit", || format!("exit {:?}/{:?}: {}", r.code, r.signal, r.err)) {
        return;
    }
    let names: Vec<String> = (0..modes.len()).map(|i| format!("out_{:02}.png", i)).collect();
    compare_files(c, &before, &dir, &names);
    let lines: Vec<&str> = r.out.lines().collect();
    c.check(lines.len() == modes.len() && modes.len() == n, "printed", || format!("{} modes asked for, {} found, {} printed", n, modes.len(), lines.len()));
    for (i, d) in modes.iter().enumerate() {
        let w = d.frequency().unwrap();
        let p = lines.get(i).and_then(|l| l.strip_prefix(&format!("mode {:02} frequency (rad/s): ", i))).and_then(|x| x.parse::<f64>().ok());
        c.check(p.map_or(false, |p| (p - w).abs() <= 1e-5 + 1e-6 * w), "printed", || format!("mode {}: {:?}, library: {}", i, lines.get(i), w));
        if dir.join(&names[i]).exists() {
            if let Err(e) = same_picture(&dir.join(&names[i]), &pictures[i]) {
                c.fail("picture", format!("mode {}: {}", i, e));
            }
        }
    }
    c.count("modal runs");
    c.add("modes", n as u64);
    if n > 10 {
        c.count("runs of more than ten modes");
    }
    c.nontrivial = true;
}

fn mesh(c: &mut Ctx) {
    let dir = fresh(c);
    let m = if c.rng.chance(0.5) { Method::Chew } else { Method::Ruppert };
    let (r, h) = loop {
        let most = if large(c) { 900.0 } else { 250.0 };
        let r = if large(c) { region::plate(&mut c.rng, (4, 12), false) } else { region::gen(&mut c.rng, 2, 0.02, 61f64.to_radians()) };
        let (area, per) = (r.area(), r.walls().iter().map(|w| dist(w.0, w.1)).sum::<f64>());
        let h = (0..40)
            .map(|_| c.rng.logf(area.sqrt() / 15.0, area.sqrt()))
            .map(|h| format!("{:.5e}", h).parse::<f64>().unwrap())
            .find(|&h| area / (h * h) + per / h < most && (m == Method::Ruppert || suits_chew(&r, h)));
        if let Some(h) = h {
            break (r, h);
        }
    };
    let spec = bbnd::dress(&mut c.rng, &r.polys, true);
    let text = spec.write(&mut c.rng);
    let input = *c.rng.pick(&["b.bbnd", "my body.bbnd", "x.y.bbnd", "m.bmsh.bbnd", "out.bbnd", "res/b.bbnd"]);
    std::fs::write(dir.join(input), &text).unwrap();
    let mut opts = vec![];
    let hs = if c.rng.chance(0.5) { format!("{:e}", h) } else { format!("{}", h) };
    opt(c, &mut opts, Some("s"), "elementsize", &hs);
    if m == Method::Ruppert || c.rng.chance(0.5) {
        opt(c, &mut opts, Some("m"), "mesher", if m == Method::Chew { "chew" } else { "ruppert" });
    }
    let (mut im, mut ms, mut size) = ("out.png".to_string(), "out.bmsh".to_string(), 1024);
    if c.rng.chance(0.6) {
        im = (*c.rng.pick(&["i.png", "im age.png", "res/i.png", "mesh.png", "my mesh.bmsh.png", "res/../i.png", "out.png", "bmsh.png"])).to_string();
        opt(c, &mut opts, Some("I"), "imageout", &im.clone());
    }
    if c.rng.chance(0.6) {
        ms = (*c.rng.pick(&["n.bmsh", "me sh.bmsh", "res/n.bmsh", "image.bmsh", "i.png.bmsh", "out.png.bmsh", "out.bmsh", "x.y.bmsh"])).to_string();
        opt(c, &mut opts, Some("M"), "meshout", &ms.clone());
    }
    if c.rng.chance(0.9) {
        size = if c.rng.chance(0.15) { c.rng.range(1, 60) } else { c.rng.range(60, 400) } as u32;
        opt(c, &mut opts, Some("i"), "imsize", &size.to_string());
    }
    let args = line_up(c, "mesh", opts, &[input]);
    c.describe(format!("bugi {:?} on {}\n{}", args, r.kind, text));
    c.sig(&args);
    c.sig(&text);
    stale(c, &dir, &im.replace("res/../", ""));
    stale(c, &dir, &ms);
    let before = files(&dir);
    let got = run(&dir, &args);
    if !c.check(got.ok, "exit", || format!("exit {:?}/{:?}: {}", got.code, got.signal, got.err)) {
        return;
    }
    compare_files(c, &before, &dir, &[im.replace("res/../", ""), ms.clone()]);
    let e = match trap(|| read_to_elas(dir.join(&ms))) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) => {
            c.fail("mesh", format!("the mesh file is refused: {}", e));
            return;
        }
        Err(e) => {
            c.fail("mesh", format!("the mesh file cannot be read: {}", e));
            return;
        }
    };
    let mut st = Stats::default();
    let f = faults(&view(&e), &r, &spec, &[], m, h, &mut st);
    c.check(f.is_empty(), "mesh", || format!("{} faults: {}", f.len(), f.iter().take(4).cloned().collect::<Vec<_>>().join("; ")));
    c.check(format!("{:?}", e.condition()) == format!("{:?}", spec.cond.unwrap().to_bugi()), "mesh", || format!("condition {:?}", e.condition()));
    let (got, want) = (e.material(), verif_core::fem::named_material(spec.material.as_deref().unwrap_or("")));
    c.check(want.map_or(false, |w| w.name == got.name && w.youngs == got.youngs && w.poisson == got.poisson && w.density == got.density), "mesh", || format!("material {:?} instead of {:?}", got, want));
    // the picture shows the mesh that was saved
    let picture = c.scratch.join("want.png");
    let pts: Vec<spacemath::two::Point> = e.nodes().iter().map(|p| (p[0], p[1]).into()).collect();
    let mut vis: Visualizer = pts.into();
    vis.set_edges(e.edges());
    vis.draw(picture.to_str().unwrap(), VisOptions::new().im_size(size));
    if dir.join(&im).exists() {
        c.check(size < 30 || !blank(&dir.join(&im)), "picture", || "the picture is blank".into());
        if let Err(e) = same_picture(&dir.join(&im), &picture) {
            c.fail("picture", e);
        }
    }
    c.count("mesh runs");
    c.count(&format!("method {:?}", m));
    c.add("nodes", st.nodes as u64);
    // and on to the next command
    if c.rng.chance(0.3) {
        let before = files(&dir);
        let sol = run(&dir, &["linear".into(), ms.clone(), "-i".into(), "100".into(), "-o".into(), "l.png".into()]);
        let mut e = e;
        match trap(|| e.calc_displacements::<DenseGaussSolver>().displacement_norms()) {
            Ok(u) if u.iter().all(|x| x.is_finite()) => {
                let top = u.iter().cloned().fold(0.0, f64::max);
                let q = sol.out.lines().nth(1).and_then(|l| l.strip_prefix("max displacement: ")).and_then(|x| x.parse::<f64>().ok());
                // an unsupported body has no answer to agree on
                let held = spec.cons.iter().any(|k| matches!(k.2, bugi::element::constraint::Constraint::XYFixed));
                if held {
                    c.check(sol.ok && q.map_or(false, |q| (q - top).abs() <= 1e-6 * top), "chain", || format!("linear on the mesh printed {:?} ({}), library: {}", sol.out, sol.err, top));
                    compare_files(c, &before, &dir, &["l.png".into()]);
                    c.count("meshes solved");
                }
            }
            _ => c.count("meshes of unsupported bodies"),
        }
    }
    c.nontrivial = true;
}

/// what cannot be done is refused: a message, a non-zero exit, nothing changed
fn refuse(c: &mut Ctx) {
    let dir = fresh(c);
    let m = model(c, true);
    save(&m, c, &dir.join("m.bmsh"));
    let spec = bbnd::dress(&mut c.rng, &[vec![(0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0)]], true);
    std::fs::write(dir.join("b.bbnd"), spec.write(&mut c.rng)).unwrap();
    let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let odd = *c.rng.pick(&["x", "", "1.0x", "one", "0x10", "1,5", "--", "1e", "ten"]);
    let odd_int = *c.rng.pick(&["x", "", "1.5", "1e2", "-3", "3 4", "99999999999999999999999"]);
    let bad_path = *c.rng.pick(&["none.bmsh", "none.bbnd", "no/dir.bmsh", "m", "b", "."]);
    let args: Vec<String> = match c.rng.below(17) {
        // results that cannot be written
        16 => match c.rng.below(3) {
            0 => s(&["linear", "m.bmsh", "--out=no/such/dir.png"]),
            1 => s(&["mesh", "b.bbnd", "-s", "0.9", "--imageout=no/such/dir.png"]),
            _ => s(&["mesh", "b.bbnd", "-s", "0.9", "--meshout=no/such/dir.bmsh"]),
        },
        0 => s(&["linear", bad_path]),
        1 => s(&["modal", bad_path, "1"]),
        2 => s(&["mesh", bad_path, "-s", "0.5"]),
        3 => s(&["linear", "b.bbnd"]),
        4 => s(&["modal", "b.bbnd", "2"]),
        5 => s(&["mesh", "m.bmsh", "-s", "0.5"]),
        6 => s(&["mesh", "b.bbnd"]),
        7 => s(&["mesh", "b.bbnd", &format!("--elementsize={}", c.rng.pick(&[odd, "0", "-1", "-0.5", "nan", "inf", "-inf"]))]),
        8 => {
            let o = *c.rng.pick(&["--solver=lu", "--solver=", "--solver=Cholesky", "--nodevalue=stress", "--nodevalue=", "--colormap=grey", "--colormap=", "--showmesh=yes", "--showmesh=", "--showmesh=1"]);
            s(&["linear", "m.bmsh", o])
        }
        9 => {
            let o = *c.rng.pick(&["--colormap=grey", "--colormap=", "--showmesh=yes", "--showmesh=0", "--solver=cholesky", "--nodevalue=displacement", "--out=x.png"]);
            s(&["modal", "m.bmsh", "1", o])
        }
        10 => s(&["mesh", "b.bbnd", "-s", "0.5", c.rng.pick(&["--mesher=delaunay", "--mesher=", "--mesher=Chew", "--imsize=x", "--imsize=-5", "--imsize=1.5"])]),
        11 => s(&["linear", "m.bmsh", &if c.rng.chance(0.5) { format!("--scale={}", odd) } else { format!("--imsize={}", odd_int) }]),
        12 => match c.rng.below(3) {
            0 => s(&["modal", "m.bmsh", "1", &format!("--scale={}", odd)]),
            1 => s(&["modal", "m.bmsh", "1", &format!("--imsize={}", odd_int)]),
            _ => s(&["modal", "m.bmsh", "--", odd_int]),
        },
        13 => match c.rng.below(6) {
            0 => s(&["linear"]),
            1 => s(&["modal", "m.bmsh"]),
            2 => s(&["solve", "m.bmsh"]),
            3 => s(&["linear", "m.bmsh", "extra"]),
            4 => s(&["linear", "--unknown", "m.bmsh"]),
            _ => s(&["mesh", "-s", "0.5"]),
        },
        14 => loop {
            // a mesh file that is none
            let t = std::fs::read_to_string(dir.join("m.bmsh")).unwrap();
            let b = mutate(&mut c.rng, &t);
            if let bmsh::Verdict::Bad(_) = bmsh::read(&b) {
                std::fs::write(dir.join("m.bmsh"), b).unwrap();
                break if c.rng.chance(0.5) { s(&["linear", "m.bmsh"]) } else { s(&["modal", "m.bmsh", "1"]) };
            }
        },
        _ => loop {
            let t = std::fs::read_to_string(dir.join("b.bbnd")).unwrap();
            let b = mutate(&mut c.rng, &t);
            if let bbnd::Verdict::Bad(_) = bbnd::read(&b) {
                std::fs::write(dir.join("b.bbnd"), b).unwrap();
                break s(&["mesh", "b.bbnd", "-s", "0.5"]);
            }
        },
    };
    c.describe(format!("bugi {:?}", args));
    c.sig(&args);
    c.sig(files(&dir).get("m.bmsh").map(|b| b.len()));
    let before = files(&dir);
    let r = run(&dir, &args);
    c.check(!r.ok, "accepted", || format!("exit 0; printed {:?} {:?}", r.out, r.err));
    c.check(!matches!(r.signal, Some(9) | Some(24) | Some(11)), "hang", || format!("ended by signal {:?}", r.signal));
    c.check(!r.err.trim().is_empty(), "message", || "no message".into());
    let after = files(&dir);
    for (n, b) in &before {
        c.check(after.get(n) == Some(b), "files", || format!("{} was changed", n));
    }
    c.count("refusals");
    c.nontrivial = true;
}

fn case(c: &mut Ctx) {
    let _ = PlaneTriangulation::new;
    match c.idx % 8 {
        0 | 1 => linear(c),
        2 => modal(c),
        3 | 4 => mesh(c),
        _ => refuse(c),
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 3000,
            thorough: 100000,
            rule: "the program run on generated mesh and boundary files (one in fifty of hundreds of nodes, with a hundred modes or pictures of thousands of pixels) with random options in varied spelling and order, its exit, prints and files compared with the library's answer; and runs that must be refused; a case is non-trivial when the run was judged; distinct by arguments and input",
            need: &["linear runs", "modal runs", "mesh runs", "refusals", "meshes solved", "over an earlier file", "runs of more than ten modes", "runs of more than 99 modes", "models of many nodes", "method Chew", "method Ruppert", "solver \"cholesky\"", "solver \"gaussseidel\""],
        },
        case,
    );
}
