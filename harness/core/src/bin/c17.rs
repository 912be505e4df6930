//! C17: pictures, decoded again and compared pixel by pixel with what should be visible.
use bugi::verif_hooks::Point;
use bugi::visual::{color, VisOptions, Visualizer};
use image::Rgb;
use std::collections::HashMap;
use verif_core::fem::{disp_of, gen_model, GenOpts};
use verif_core::{main_loop, Ctx, Plan};

const BACK: [u8; 3] = [50, 50, 50];
const EDGE: [u8; 3] = [0, 255, 0];
const MARK: [[u8; 3]; 4] = [[255, 0, 0], [255, 255, 0], [0, 0, 255], [255, 0, 255]];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Map {
    Default,
    Hot,
    Rgb,
    Own,
}

fn own(v: f64) -> [u8; 3] {
    [(40.0 + 200.0 * v) as u8, (240.0 - 200.0 * v) as u8, 17]
}

fn level(x: f64) -> f64 {
    (x * 255.0).max(0.0).min(255.0)
}

/// the documented ramps: black-red-yellow-white, and blue-green-red
fn map(m: Map, v: f64) -> [f64; 3] {
    match m {
        Map::Default | Map::Hot => [level(3.0 * v), level(3.0 * v - 1.0), level(3.0 * v - 2.0)],
        Map::Rgb => {
            let p = |c: f64| level(1.5 - 4.0 * (v - c).abs());
            [p(0.75), p(0.5), p(0.25)]
        }
        Map::Own => {
            let o = own(v.max(0.0).min(1.0));
            [o[0] as f64, o[1] as f64, o[2] as f64]
        }
    }
}

fn near(c: [u8; 3], w: [f64; 3], tol: f64) -> bool {
    (0..3).all(|i| (c[i] as f64 - w[i]).abs() <= tol)
}

struct Scene {
    pts: Vec<Vec<f64>>,
    cols: Vec<usize>,
    edges: Vec<(usize, usize)>,
    tris: Vec<(usize, usize, usize)>,
    vals: Option<Vec<f64>>,
    size: Option<u32>,
    mesh: bool,
    map: Map,
}

fn scene(c: &mut Ctx) -> Scene {
    let r = &mut c.rng;
    let dim = *r.pick(&[1, 2, 2, 2, 2, 3]);
    let n = match r.below(6) {
        0 => 1,
        1 => r.range(1, 3),
        _ => r.range(2, 12),
    };
    let s = match r.below(4) {
        0 => r.logf(1e-90, 1e90),
        _ => r.logf(1e-3, 1e3),
    };
    let o: Vec<f64> = (0..dim).map(|_| if r.chance(0.5) { 0.0 } else { s * 10.0 * r.sym() }).collect();
    let kind = r.below(6);
    let stretch = if r.chance(0.2) { r.logf(1e-3, 1.0) } else { 1.0 };
    let mut pts: Vec<Vec<f64>> = (0..n)
        .map(|_| {
            (0..dim)
                .map(|d| {
                    let x = match kind {
                        0 => r.irange(-3, 3) as f64,
                        1 => 0.0,
                        2 if d == 0 => 0.0,
                        _ => r.sym(),
                    };
                    o[d] + s * x * if d == 1 { stretch } else { 1.0 }
                })
                .collect()
        })
        .collect();
    if n > 1 && r.chance(0.1) {
        let (i, j) = (r.below(n), r.below(n));
        pts[i] = pts[j].clone();
    }
    let cols: Vec<usize> = {
        // extra points come after the first ones
        let k = if r.chance(0.3) { r.range(1, n) } else { n };
        let col = r.below(4);
        (0..n).map(|i| if i < k { 0 } else { col }).collect()
    };
    let mut edges = Vec::new();
    if r.chance(0.8) {
        for _ in 0..r.range(0, n + 2) {
            edges.push((r.below(n), r.below(n)));
        }
    }
    let mut tris = Vec::new();
    if n >= 3 && r.chance(0.8) {
        for _ in 0..r.range(1, 4) {
            let p = r.perm(n);
            tris.push((p[0], p[1], p[2]));
        }
    }
    let vals = if r.chance(0.75) {
        let v = r.logf(1e-6, 1e12);
        let off = if r.chance(0.5) { 0.0 } else { v * r.sym() };
        let constant = r.chance(0.15);
        Some((0..n).map(|_| if constant { off } else { off + v * r.sym() }).collect())
    } else {
        None
    };
    let size = match r.below(8) {
        0 => None,
        1 => Some(r.range(1, 20) as u32),
        2 => Some(r.range(150, 330) as u32),
        _ => Some(r.range(16, 90) as u32),
    };
    Scene { pts, cols, edges, tris, vals, size, mesh: r.chance(0.75), map: *r.pick(&[Map::Default, Map::Hot, Map::Rgb, Map::Own]) }
}

/// parallel projection: turned about y by 0.5, then about x by 0.79
fn flatten(p: &[f64]) -> (f64, f64) {
    match p.len() {
        1 => (p[0], 0.0),
        2 => (p[0], p[1]),
        _ => {
            let (a, b) = (0.79f64, 0.5f64);
            let (x, y, z) = (p[0] * b.cos() + p[2] * b.sin(), p[1], -p[0] * b.sin() + p[2] * b.cos());
            (x, y * a.cos() - z * a.sin())
        }
    }
}

/// exact positions in the picture: longest side over 80 per cent of it, centred, y upwards
fn place(pts: &[Vec<f64>], size: u32) -> Vec<(f64, f64)> {
    let q: Vec<(f64, f64)> = pts.iter().map(|p| flatten(p)).collect();
    let ext = |f: &dyn Fn(&(f64, f64)) -> f64| {
        let v: Vec<f64> = q.iter().map(|p| f(p)).collect();
        (v.iter().cloned().fold(f64::MAX, f64::min), v.iter().cloned().fold(f64::MIN, f64::max))
    };
    let ((x0, x1), (y0, y1)) = (ext(&|p| p.0), ext(&|p| p.1));
    let range = (x1 - x0).max(y1 - y0);
    let h = size as f64 / 2.0;
    q.iter()
        .map(|p| {
            if range == 0.0 {
                return (h, h);
            }
            let k = 0.8 * size as f64 / range;
            ((p.0 - (x0 + x1) / 2.0) * k + h, h - (p.1 - (y0 + y1) / 2.0) * k)
        })
        .collect()
}

fn orient(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}

fn compare(c: &mut Ctx, img: &image::RgbImage, s: &Scene, size: u32) {
    if !c.check(img.dimensions() == (size, size), "picture size", || format!("{:?} instead of {}", img.dimensions(), size)) {
        return;
    }
    let exact = place(&s.pts, size);
    let tie = |x: f64| ((x - x.floor()) - 0.5).abs() < 1e-6;
    if exact.iter().any(|p| tie(p.0) || tie(p.1)) {
        c.count("pictures with positions between two pixels");
        // every node is still marked within a pixel of its place
        if s.mesh {
            for (i, p) in exact.iter().enumerate() {
                let last = size as i64 - 1;
                let (x, y) = (p.0.round() as i64, p.1.round() as i64);
                let found = (x - 1..=x + 1).any(|u| (y - 1..=y + 1).any(|v| MARK.contains(&img.get_pixel(u.max(0).min(last) as u32, v.max(0).min(last) as u32).0)));
                c.check(found, "node not marked", || format!("node {} at {:?}", i, p));
            }
        }
        return;
    }
    let last = size as i64 - 1;
    let px: Vec<(i64, i64)> = exact.iter().map(|p| ((p.0.round() as i64).max(0).min(last), (p.1.round() as i64).max(0).min(last))).collect();
    // layer 1: triangles
    let norm: Option<Vec<f64>> = s.vals.as_ref().map(|v| {
        let lo = v.iter().cloned().fold(f64::MAX, f64::min);
        let hi = v.iter().cloned().fold(f64::MIN, f64::max);
        v.iter().map(|x| if hi > lo { (x - lo) / (hi - lo) } else { 0.0 }).collect()
    });
    #[derive(Clone, Default)]
    struct Cell {
        fills: Vec<([f64; 3], f64)>,
        strict: bool,
        any: bool,
        edge: bool,
        mark: Option<usize>,
    }
    let mut cells: HashMap<(i64, i64), Cell> = HashMap::new();
    if let Some(v) = &norm {
        for t in &s.tris {
            let p = [px[t.0], px[t.1], px[t.2]];
            let w = [v[t.0], v[t.1], v[t.2]];
            let o = orient(p[0], p[1], p[2]);
            let (x0, x1) = (p.iter().map(|q| q.0).min().unwrap(), p.iter().map(|q| q.0).max().unwrap());
            let (y0, y1) = (p.iter().map(|q| q.1).min().unwrap(), p.iter().map(|q| q.1).max().unwrap());
            for x in x0..=x1 {
                for y in y0..=y1 {
                    let q = (x, y);
                    let b = [orient(p[1], p[2], q), orient(p[2], p[0], q), orient(p[0], p[1], q)];
                    if o == 0 {
                        if b.iter().all(|z| *z == 0) {
                            cells.entry(q).or_default().any = true;
                        }
                        continue;
                    }
                    if b.iter().all(|z| z * o >= 0) {
                        let val: f64 = (0..3).map(|i| b[i] as f64 / o as f64 * w[i]).sum();
                        let e = cells.entry(q).or_default();
                        e.fills.push((map(s.map, val), val));
                        if b.iter().all(|z| z * o > 0) {
                            e.strict = true;
                        }
                    }
                }
            }
        }
    }
    // layer 2: edges, one pixel per step along the longer direction, the nearest ones
    let mut wanted: Vec<Vec<(i64, i64)>> = Vec::new();
    if s.mesh {
        for &(i, j) in &s.edges {
            let (a, b) = (px[i], px[j]);
            let (dx, dy) = (b.0 - a.0, b.1 - a.1);
            let n = dx.abs().max(dy.abs());
            for k in 0..=n {
                let f = if n == 0 { 0.0 } else { k as f64 / n as f64 };
                let (x, y) = (a.0 as f64 + f * dx as f64, a.1 as f64 + f * dy as f64);
                let mut cand = vec![(x.round() as i64, y.round() as i64)];
                if dx.abs() == n && tie(y) {
                    cand = vec![(x.round() as i64, y.floor() as i64), (x.round() as i64, y.ceil() as i64)];
                } else if dy.abs() == n && tie(x) {
                    cand = vec![(x.floor() as i64, y.round() as i64), (x.ceil() as i64, y.round() as i64)];
                }
                for q in &cand {
                    if cand.len() == 1 {
                        cells.entry(*q).or_default().edge = true;
                    } else {
                        cells.entry(*q).or_default().any = true;
                    }
                }
                wanted.push(cand);
            }
        }
        // layer 3: marks
        for (i, p) in px.iter().enumerate() {
            for x in p.0 - 1..=p.0 + 1 {
                for y in p.1 - 1..=p.1 + 1 {
                    if x >= 0 && y >= 0 && x <= last && y <= last {
                        cells.entry((x, y)).or_default().mark = Some(s.cols[i]);
                    }
                }
            }
        }
    }
    let blank = Cell::default();
    let mut filled = 0;
    // rows and columns with nothing to show
    let (mut rows, mut cols) = (vec![false; size as usize], vec![false; size as usize]);
    for q in cells.keys() {
        if q.0 >= 0 && q.1 >= 0 && q.0 <= last && q.1 <= last {
            cols[q.0 as usize] = true;
            rows[q.1 as usize] = true;
        }
    }
    for y in 0..=last {
        for x in 0..=last {
            let got = img.get_pixel(x as u32, y as u32).0;
            if got == BACK && !(rows[y as usize] && cols[x as usize]) {
                continue;
            }
            let e = cells.get(&(x, y)).unwrap_or(&blank);
            let ok;
            let what;
            if let Some(m) = e.mark {
                // overlapping marks: the last one
                ok = got == MARK[m];
                what = "mark";
            } else if e.edge {
                ok = got == EDGE;
                what = "edge";
            } else {
                let fill = if e.fills.is_empty() { got == BACK } else { e.fills.iter().any(|f| near(got, f.0, 1.6)) };
                ok = fill || (e.any && (got == EDGE || e.fills.is_empty() && norm.is_some()));
                what = if e.fills.is_empty() { "background" } else { "fill" };
                if e.strict {
                    filled += 1;
                }
            }
            if !ok {
                c.fail(what, format!("pixel ({}, {}) is {:?}, expected {} (fills {:?}, edge {}, mark {:?}); nodes at {:?}", x, y, got, what, e.fills, e.edge, e.mark, px));
                return;
            }
        }
    }
    for w in &wanted {
        let ok = w.iter().any(|q| {
            let g = img.get_pixel(q.0 as u32, q.1 as u32).0;
            g == EDGE || cells[q].mark.is_some()
        });
        if !c.check(ok, "gap in an edge", || format!("none of {:?}; nodes at {:?}", w, px)) {
            return;
        }
    }
    c.add("pixels compared", (size as u64).pow(2));
    c.add("filled pixels", filled);
    c.add("edge steps", wanted.len() as u64);
    if s.mesh {
        c.add("marks", px.len() as u64);
    }
    c.nontrivial = filled > 0 || !wanted.is_empty();
}

fn options(s: &Scene) -> VisOptions {
    let mut o = VisOptions::new().show_mesh(s.mesh);
    if let Some(n) = s.size {
        o = o.im_size(n);
    }
    match s.map {
        Map::Default => o,
        Map::Hot => o.color_map(color::hot_map_boxed()),
        Map::Rgb => o.color_map(color::rgb_map_boxed()),
        Map::Own => o.color_map(Box::new(|v| Rgb(own(v.max(0.0).min(1.0))))),
    }
}

fn read(c: &mut Ctx, path: &str) -> Option<image::RgbImage> {
    match image::open(path) {
        Ok(i) => Some(i.to_rgb8()),
        Err(e) => {
            c.fail("no picture", format!("{}", e));
            None
        }
    }
}

/// thousands of points, edges and triangles
fn crowd(c: &mut Ctx) -> Scene {
    let r = &mut c.rng;
    let (nx, ny) = (r.range(20, 60), r.range(20, 60));
    let s = r.logf(1e-3, 1e3);
    let at = r.perm(nx * ny);
    let mut pts = vec![vec![]; nx * ny];
    for i in 0..nx {
        for j in 0..ny {
            pts[at[i * ny + j]] = vec![s * (i as f64 + 0.3 * r.sym()), s * (j as f64 + 0.3 * r.sym())];
        }
    }
    let (mut edges, mut tris) = (vec![], vec![]);
    for i in 0..nx - 1 {
        for j in 0..ny - 1 {
            let (a, b, d, e) = (at[i * ny + j], at[(i + 1) * ny + j], at[(i + 1) * ny + j + 1], at[i * ny + j + 1]);
            edges.extend([(a, b), (b, d), (a, d)]);
            tris.extend([(a, b, d), (a, d, e)]);
        }
    }
    // some are left out, so that each one that is drawn can be seen
    let keep = *r.pick(&[1.0, 0.7]);
    edges.retain(|_| r.chance(keep));
    tris.retain(|_| r.chance(keep));
    r.shuffle(&mut edges);
    r.shuffle(&mut tris);
    let n = pts.len();
    let vals = if r.chance(0.8) { Some((0..n).map(|_| r.sym()).collect()) } else { None };
    let k = r.range(n / 2, n);
    let col = r.below(4);
    let (size, mesh, map) = (Some(r.range(200, 700) as u32), r.chance(0.5), *r.pick(&[Map::Hot, Map::Rgb]));
    c.count("pictures of thousands of elements");
    Scene { pts, cols: (0..n).map(|i| if i < k { 0 } else { col }).collect(), edges, tris, vals, size, mesh, map }
}

/// a picture of thousands of pixels across
fn poster(c: &mut Ctx) -> Scene {
    let mut s = scene(c);
    s.size = Some(if c.idx / 2500 % 4 != 1 { c.rng.range(1200, 2400) } else { c.rng.range(4700, 5000) } as u32);
    s.tris.truncate(1);
    s.edges.truncate(5);
    c.count(if s.size > Some(4096) { "pictures of more than 4096 pixels across" } else { "pictures of more than 1000 pixels across" });
    s
}

fn scenes(c: &mut Ctx) {
    let mut s = match c.idx % 2500 {
        2400 => crowd(c),
        2401 => poster(c),
        _ => scene(c),
    };
    c.describe(format!("points {:?} colours {:?} edges {:?} triangles {:?} values {:?} size {:?} mesh {} map {:?}", s.pts, s.cols, s.edges, s.tris, s.vals, s.size, s.mesh, s.map));
    c.sig(c.what.clone());
    c.count(&format!("pictures in {} dimensions", s.pts[0].len()));
    let path = c.scratch.join("p.png").to_str().unwrap().to_string();
    let _ = std::fs::remove_file(&path);
    let k = s.cols.iter().take_while(|x| **x == s.cols[0]).count();
    let p = |v: &[Vec<f64>]| v.iter().map(|x| Point::new(x)).collect::<Vec<Point>>();
    let vis = c.run("setup panic", || {
        let mut v: Visualizer = p(&s.pts[..k]).into();
        if k < s.pts.len() {
            v.add_points(p(&s.pts[k..]), s.cols[k]);
        }
        v.set_edges(s.edges.clone());
        v.set_triangles(s.tris.clone());
        if let Some(x) = &s.vals {
            v.set_vals(x.clone());
        }
        v
    });
    let mut vis = match vis {
        Some(v) => v,
        None => return,
    };
    if c.run("draw panic", || vis.draw(&path, options(&s))).is_none() {
        return;
    }
    if let Some(img) = read(c, &path) {
        let size = s.size.unwrap_or(256);
        compare(c, &img, &s, size);
        c.count(&format!("colour map {:?}", s.map));
    }
    // the same scene again with other options
    if c.rng.chance(0.2) {
        s.size = Some(c.rng.range(20, 120) as u32);
        s.mesh = !s.mesh;
        s.map = *c.rng.pick(&[Map::Default, Map::Hot, Map::Rgb, Map::Own]);
        // and with other contents: only what was set last is shown
        let n = s.pts.len();
        if c.rng.chance(0.3) {
            s.edges = (0..c.rng.range(0, 3)).map(|_| (c.rng.below(n), c.rng.below(n))).collect();
            vis.set_edges(s.edges.clone());
            c.count("edges set again");
        }
        if n >= 3 && c.rng.chance(0.3) {
            s.tris = (0..c.rng.range(0, 3)).map(|_| c.rng.perm(n)).map(|p| (p[0], p[1], p[2])).collect();
            vis.set_triangles(s.tris.clone());
            c.count("triangles set again");
        }
        if s.vals.is_none() && c.rng.chance(0.3) {
            // more points of another colour, within what is shown already or beyond it
            let k = c.rng.range(1, 3);
            let more: Vec<Vec<f64>> = (0..k)
                .map(|_| {
                    let (a, b, f) = (c.rng.below(n), c.rng.below(n), c.rng.f(-0.5, 1.5));
                    s.pts[a].iter().zip(s.pts[b].iter()).map(|(x, y)| x + f * (y - x)).collect()
                })
                .collect();
            let col = c.rng.below(4);
            if c.run("setup panic", || vis.add_points(p(&more), col)).is_none() {
                return;
            }
            s.pts.extend(more);
            s.cols.extend(vec![col; k]);
            c.count("points added later");
        }
        if s.vals.is_some() && c.rng.chance(0.5) || c.rng.chance(0.1) {
            let (v, off) = (c.rng.logf(1e-6, 1e12), c.rng.sym());
            let x: Vec<f64> = (0..s.pts.len()).map(|_| v * (off + c.rng.sym())).collect();
            if c.run("setup panic", || vis.set_vals(x.clone())).is_none() {
                return;
            }
            s.vals = Some(x);
            c.count("values set again");
        }
        c.describe(format!("{}, then points {:?} colours {:?} edges {:?} triangles {:?} values {:?} size {:?} mesh {} map {:?}", c.what, s.pts, s.cols, s.edges, s.tris, s.vals, s.size, s.mesh, s.map));
        if c.run("draw panic", || vis.draw(&path, options(&s))).is_some() {
            if let Some(img) = read(c, &path) {
                let n = s.size.unwrap();
                compare(c, &img, &s, n);
                c.count("redrawn scenes");
            }
        }
    }
}

/// the picture of a computed deformation
fn results(c: &mut Ctx) {
    use bugi::matrix::solve::direct::CholeskyEnvelopeSolver;
    let m = gen_model(&mut c.rng, &GenOpts { max_cells: 3, ..Default::default() });
    c.describe(m.describe());
    c.sig(m.describe());
    let path = c.scratch.join("r.png").to_str().unwrap().to_string();
    let _ = std::fs::remove_file(&path);
    let rel = if c.rng.chance(0.15) { 0.0 } else { c.rng.f(-0.3, 0.3) };
    let with = c.rng.chance(0.8);
    let size = c.rng.range(30, 200) as u32;
    let out = c.run("panic", || {
        let mut el = m.build();
        let d = el.calc_displacements::<CholeskyEnvelopeSolver>();
        let u = disp_of(&d, &m);
        let um = u.iter().map(|x| x.0.abs().max(x.1.abs())).fold(0.0, f64::max);
        let pm = m.pts.iter().map(|x| x.0.abs().max(x.1.abs())).fold(0.0, f64::max);
        let scale = if um > 0.0 { rel * pm / um } else { 1.0 };
        let mut v = d.visualize(scale);
        let vm = d.von_mises();
        if with {
            v.set_vals(vm.clone());
        }
        v.draw(&path, VisOptions::new().im_size(size));
        let pts: Vec<Vec<f64>> = if scale == 0.0 {
            m.pts.iter().map(|p| vec![p.0, p.1]).collect()
        } else {
            d.displaced_nodes(scale).iter().map(|p| p.to_vec()).collect()
        };
        (pts, vm)
    });
    if let Some((pts, vm)) = out {
        if vm.iter().any(|v| !v.is_finite()) {
            return;
        }
        let s = Scene {
            cols: vec![0; pts.len()],
            pts,
            edges: m.edges().iter().map(|e| e.0).collect(),
            tris: m.tris.iter().map(|t| (t[0], t[1], t[2])).collect(),
            vals: if with { Some(vm) } else { None },
            size: Some(size),
            mesh: true,
            map: Map::Default,
        };
        if let Some(img) = read(c, &path) {
            compare(c, &img, &s, size);
            c.count("pictures of results");
        }
    }
}

fn maps(c: &mut Ctx) {
    let v = match c.rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => c.rng.range(0, 12) as f64 / 12.0,
        _ => c.rng.unit(),
    };
    c.describe(format!("colours of {}", v));
    for (m, got) in [(Map::Hot, color::hot_map(v).0), (Map::Rgb, color::rgb_map(v).0), (Map::Hot, color::hot_map_boxed()(v).0), (Map::Rgb, color::rgb_map_boxed()(v).0)] {
        let w = map(m, v);
        c.check(near(got, w, 1.0), "colour map", || format!("{:?} of {} is {:?} instead of {:?}", m, v, got, w));
    }
    c.count("map values compared");
}

fn case(c: &mut Ctx) {
    maps(c);
    if c.idx % 10 == 9 {
        results(c);
    } else {
        scenes(c);
    }
}


fn main() {
    main_loop(
        Plan {
            quick: 40000,
            thorough: 600000,
            rule: "random scenes (points in one to three dimensions at any scale, coincident, collinear and stretched; edges; overlapping and degenerate triangles; values, constant values, extra coloured points; picture sizes 1 to 330, now and then thousands of elements or pixels across; default, built-in and own colour maps; with and without mesh; drawn twice, with contents replaced and points added in between) and pictures of computed deformations, decoded from the written file and compared pixel by pixel with an independent rasterization in exact integers; non-trivial: something is filled or a line drawn; distinct by scene",
            need: &["pixels compared", "filled pixels", "edge steps", "marks", "pictures of results", "redrawn scenes", "edges set again", "triangles set again", "points added later", "values set again", "pictures in 1 dimensions", "pictures in 3 dimensions", "colour map Own", "colour map Rgb", "pictures of thousands of elements", "pictures of more than 1000 pixels across", "pictures of more than 4096 pixels across"],
        },
        case,
    );
}
