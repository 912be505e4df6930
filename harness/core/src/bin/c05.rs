//! C05: reordering against permutation and breadth-first oracles.
use bugi::matrix::graph::{Graph, Permutation};
use bugi::matrix::solve::direct::CholeskyEnvelopeSolver;
use bugi::matrix::solve::{Solver, System};
use bugi::matrix::{Dictionary, LinearMatrix, MatrixLike};
use std::collections::BTreeSet;
use verif_core::dense::*;
use verif_core::{conv, main_loop, trap, Ctx, Plan, Rng};

type Adj = Vec<BTreeSet<usize>>;

fn size(rng: &mut Rng, thorough: bool) -> usize {
    match rng.below(12) {
        0 => 1,
        1 => 2,
        2 => rng.range(40, if thorough { 300 } else { 120 }),
        3 | 4 => rng.range(2, 5),
        _ => rng.range(3, 30),
    }
}

fn adjacency(n: usize, e: &[(usize, usize)]) -> Adj {
    let mut a = vec![BTreeSet::new(); n];
    for &(x, y) in e {
        if x != y {
            a[x].insert(y);
            a[y].insert(x);
        }
    }
    a
}

fn distances(a: &Adj, from: usize) -> Vec<Option<usize>> {
    let mut d = vec![None; a.len()];
    d[from] = Some(0);
    let mut q = std::collections::VecDeque::from([from]);
    while let Some(v) = q.pop_front() {
        for &w in &a[v] {
            if d[w].is_none() {
                d[w] = Some(d[v].unwrap() + 1);
                q.push_back(w);
            }
        }
    }
    d
}

fn ecc(a: &Adj, v: usize) -> usize {
    distances(a, v).into_iter().flatten().max().unwrap()
}

/// length of the longest path in v's component, which must be a tree: from the far end of any search
fn longest_path(a: &Adj, v: usize) -> usize {
    let d = distances(a, v);
    let w = (0..a.len()).filter(|&w| d[w].is_some()).max_by_key(|&w| d[w].unwrap()).unwrap();
    ecc(a, w)
}

/// component label of each vertex, and whether each component is a tree
fn components(a: &Adj) -> (Vec<usize>, Vec<bool>) {
    let mut comp = vec![usize::MAX; a.len()];
    let mut tree = Vec::new();
    for v in 0..a.len() {
        if comp[v] != usize::MAX {
            continue;
        }
        let d = distances(a, v);
        let members: Vec<usize> = (0..a.len()).filter(|&w| d[w].is_some()).collect();
        let edges: usize = members.iter().map(|&w| a[w].len()).sum::<usize>() / 2;
        for &w in &members {
            comp[w] = tree.len();
        }
        tree.push(edges + 1 == members.len());
    }
    (comp, tree)
}

/// whether a search for ever more distant vertices can end at r: there are y and z, each the furthest
/// from the other, so that the search had come to a stop, and r is one of the furthest from z
fn search_end(a: &Adj, r: usize) -> bool {
    let n = a.len();
    let d: Vec<Vec<Option<usize>>> = (0..n).map(|v| distances(a, v)).collect();
    let e: Vec<usize> = d.iter().map(|x| x.iter().flatten().max().cloned().unwrap()).collect();
    (0..n).any(|z| d[z][r] == Some(e[z]) && (0..n).any(|y| e[y] == e[z] && d[y][z] == Some(e[z])))
}

fn same(c: &mut Ctx, g: &Graph, a: &Adj, who: &str) -> bool {
    let n = a.len();
    if !c.check(g.vertex_count() == n, "vertex count", || format!("{}: {} vertices instead of {}", who, g.vertex_count(), n)) {
        return false;
    }
    for v in 0..n {
        let got = g.adjacent(v).to_vec();
        let set: BTreeSet<usize> = got.iter().cloned().collect();
        if !c.check(set == a[v] && set.len() == got.len(), "adjacency", || format!("{}: neighbours of {} are {:?} instead of {:?}", who, v, got, a[v])) {
            return false;
        }
        if !c.check(g.degree(v) == a[v].len(), "degree", || format!("{}: degree of {} is {} instead of {}", who, v, g.degree(v), a[v].len())) {
            return false;
        }
    }
    true
}

fn permutation(c: &mut Ctx, p: &Permutation, n: usize) -> Option<Vec<usize>> {
    let f: Vec<usize> = (0..n).map(|i| p.permute(i)).collect();
    let mut seen = vec![false; n];
    for &x in &f {
        if x >= n || seen[x] {
            c.fail("not a permutation", format!("{:?}", f));
            return None;
        }
        seen[x] = true;
    }
    for i in 0..n {
        if !c.check(p.unpermute(f[i]) == i && p.permute(p.unpermute(i)) == i, "unpermute", || format!("vertex {}: {:?}", i, p)) {
            return None;
        }
    }
    let inv = p.clone().invert();
    for i in 0..n {
        if !c.check(inv.permute(f[i]) == i && inv.unpermute(i) == f[i], "inverse permutation", || format!("vertex {}: {:?} inverse {:?}", i, p, inv)) {
            return None;
        }
    }
    c.check(inv.clone().invert() == *p, "double inverse", || format!("{:?}", p));
    // slices: entry i moves to place p(i), and the inverse brings it back
    let mut xs: Vec<usize> = (0..n).map(|i| 1000 + i).collect();
    let orig = xs.clone();
    p.permute_slice(&mut xs);
    for i in 0..n {
        if !c.check(xs[f[i]] == orig[i], "permuted slice", || format!("{:?} gave {:?}", f, xs)) {
            return None;
        }
    }
    inv.permute_slice(&mut xs);
    c.check(xs == orig, "slice not restored", || format!("{:?} gave {:?}", f, xs));
    let id = Permutation::identity(n);
    c.check((0..n).all(|i| id.permute(i) == i && id.unpermute(i) == i), "identity", || format!("{:?}", id));
    let mut bad = vec![0u8; n + 1];
    c.check(trap(|| p.permute_slice(&mut bad)).is_err(), "wrong length accepted", || String::new());
    c.count("permutations checked");
    Some(f)
}

/// A breadth-first order: components one after another, every vertex discovered from the earliest
/// possible neighbour, parents in order.
fn breadth_first(c: &mut Ctx, a: &Adj, f: &[usize]) {
    let n = a.len();
    let (comp, tree) = components(a);
    let mut order = vec![0; n];
    for v in 0..n {
        order[n - 1 - f[v]] = v;
    }
    let pos: Vec<usize> = (0..n).map(|v| n - 1 - f[v]).collect();
    let mut seen = BTreeSet::new();
    let mut last_parent = 0;
    for i in 0..n {
        let v = order[i];
        if seen.insert(comp[v]) {
            // root of a component
            c.check(i == 0 || comp[order[i - 1]] != comp[v], "component order", || format!("{:?}", order));
            last_parent = i;
            if tree[comp[v]] {
                let d = longest_path(a, v);
                c.check(ecc(a, v) == d, "root not peripheral", || format!("a tree's ordering starts at {} of eccentricity {} (longest path {})", v, ecc(a, v), d));
                c.count("tree components");
            } else {
                if n <= 30 {
                    c.check(search_end(a, v), "root not pseudo-peripheral", || format!("the ordering starts at {} of eccentricity {}", v, ecc(a, v)));
                    c.count("roots compared");
                }
                c.count("other components");
            }
            continue;
        }
        if !c.check(comp[order[i - 1]] == comp[v], "components interleaved", || format!("order {:?}", order)) {
            return;
        }
        let parent = a[v].iter().map(|&w| pos[w]).min().unwrap();
        if !c.check(parent < i && parent >= last_parent, "not breadth first", || format!("order {:?}: {} is reached from place {} after {}", order, v, parent, last_parent)) {
            return;
        }
        last_parent = parent;
    }
    c.add("level structure steps", n as u64);
}

/// graphs of any size: long paths, hubs with very many neighbours, tens of thousands of vertices
fn large(c: &mut Ctx) {
    let n = match c.rng.below(5) {
        0 => c.rng.range(66000, 70000),
        1 | 2 => c.rng.range(1000, 6000),
        _ => c.rng.range(250, 1000),
    };
    let kind = c.rng.below(6);
    let mut e: Vec<(usize, usize)> = Vec::new();
    let parts = c.rng.range(1, 3);
    for p in 0..parts {
        let (s, t) = (n * p / parts, n * (p + 1) / parts);
        match kind {
            0 => e.extend((s + 1..t).map(|i| (i - 1, i))),
            1 => e.extend((s + 1..t).map(|i| (s, i))),
            2 => e.extend((s + 1..t).map(|i| (s + c.rng.below(i - s), i))),
            3 => {
                let k = ((t - s) as f64).sqrt() as usize + 1;
                for i in s..t {
                    if (i - s) % k + 1 < k && i + 1 < t {
                        e.push((i, i + 1));
                    }
                    if i + k < t {
                        e.push((i, i + k));
                    }
                }
            }
            4 => {
                // a ring whose vertices all meet a hub, too
                for i in s + 1..t {
                    e.push((s, i));
                    e.push((i, if i + 1 < t { i + 1 } else { s + 1 }));
                }
            }
            _ => {
                e.extend((s + 1..t).map(|i| (i - 1, i)));
                for _ in 0..(t - s) / 2 {
                    let i = c.rng.range(s, t - 1);
                    let j = (i + c.rng.range(2, 20)).min(t - 1);
                    e.push((i, j));
                }
            }
        }
    }
    let q = c.rng.perm(n);
    for x in e.iter_mut() {
        *x = if c.rng.chance(0.5) { (q[x.0], q[x.1]) } else { (q[x.1], q[x.0]) };
    }
    c.rng.shuffle(&mut e);
    let a = adjacency(n, &e);
    c.describe(format!("large graph of kind {}, {} vertices, {} components, {} edges", kind, n, parts, e.len()));
    c.sig(n);
    c.sig(e.len());
    c.nontrivial = true;
    let mut g = match c.run("construction", || Graph::from_edges(n, e.clone())) {
        Some(g) => g,
        None => return,
    };
    if !same(c, &g, &a, "from edges") {
        return;
    }
    let v = c.rng.below(n);
    if let Some((w, len)) = c.run("far node", || g.far_node(v)) {
        let dist = distances(&a, v);
        let far = dist.iter().flatten().max().cloned().unwrap();
        c.check(len == far && dist[w] == Some(far), "far node", || format!("from {}: ({}, {}), eccentricity {}", v, w, len, far));
    }
    let p = match c.run("ordering", || g.reverse_cuthill_mckee()) {
        Some(p) => p,
        None => return,
    };
    let f = match permutation(c, &p, n) {
        Some(f) => f,
        None => return,
    };
    breadth_first(c, &a, &f);
    c.count("large graphs");
    if n >= 66000 {
        c.count("graphs of more than 65536 vertices");
        return;
    }
    // a system with these couplings, solved in the order found
    let mut d = Dictionary::zeros((n, n));
    let deg: Vec<f64> = (0..n).map(|i| a[i].len() as f64 + 0.5 + c.rng.unit()).collect();
    for i in 0..n {
        d[(i, i)] = deg[i];
        for &j in &a[i] {
            d[(i, j)] = -1.0;
        }
    }
    let b: Vec<f64> = (0..n).map(|_| c.rng.sym()).collect();
    let sys = System::from_kr(&d, &LinearMatrix::from_flat((n, 1), b.clone()));
    match c.run("solve", || CholeskyEnvelopeSolver::new(sys).solve()) {
        Some(Ok(x)) => {
            let worst = (0..n).map(|i| (deg[i] * x[i] - a[i].iter().map(|&j| x[j]).sum::<f64>() - b[i]).abs()).fold(0.0, f64::max);
            c.check(worst <= 1e-9 * n as f64, "wrong answer", || format!("residual {:e}", worst));
            c.count("large systems solved");
        }
        Some(Err(())) => c.fail("reordered system refused", "error on a positive definite system"),
        None => {}
    }
}

fn case(c: &mut Ctx) {
    if c.idx % 2003 == 2002 {
        large(c);
        return;
    }
    let n = size(&mut c.rng, c.thorough);
    let (name, edges) = pattern(&mut c.rng, n);
    let a = adjacency(n, &edges);
    let (comp, _) = components(&a);
    let parts = comp.iter().max().unwrap() + 1;
    c.describe(format!("{} graph, {} vertices, {} components, edges {:?}", name, n, parts, edges.iter().take(60).collect::<Vec<_>>()));
    c.sig(n);
    c.sig(&edges);
    c.nontrivial = !edges.is_empty();
    c.count(&format!("pattern: {}", name));
    if parts > 1 {
        c.count("disconnected graphs");
    }

    // the same graph from edges in any order and direction, repeated, with loops
    let mut list = Vec::new();
    for &(x, y) in &edges {
        for _ in 0..c.rng.range(1, 2) {
            list.push(if c.rng.chance(0.5) { (x, y) } else { (y, x) });
        }
    }
    for _ in 0..c.rng.below(3) {
        let v = c.rng.below(n);
        list.push((v, v));
    }
    c.rng.shuffle(&mut list);
    let mut g = match c.run("construction", || Graph::from_edges(n, list.clone())) {
        Some(g) => g,
        None => return,
    };
    if !same(c, &g, &a, "from edges") {
        return;
    }
    let lol: Vec<Vec<usize>> = a.iter().map(|s| s.iter().cloned().collect()).collect();
    let h = Graph::from_lol(lol);
    if !same(c, &h, &a, "from lists") {
        return;
    }
    c.check(g == h, "constructors disagree", || format!("{:?} and {:?}", g, h));
    c.check(trap(|| Graph::from_edges(n, vec![(0, n)])).is_err(), "bad edge accepted", || String::new());
    c.check(trap(|| g.adjacent(n).len()).is_err(), "bad vertex accepted", || String::new());

    // a symmetric matrix gives the same graph
    let k = spd(&mut c.rng, n, &edges, 1.0);
    let dict = conv::dict_shuffled(&mut c.rng, &k, 0);
    let gm = Graph::from_edges(n, dict.edges_lower());
    let gf = Graph::from_edges(n, dict.edges());
    same(c, &gm, &a, "from a matrix");
    same(c, &gf, &a, "from a matrix, both triangles");
    c.check(gm == g && gf == g, "matrix graph differs", || format!("{:?} {:?}", gm, g));

    // masked neighbourhoods
    let mask: Vec<bool> = (0..n).map(|_| c.rng.chance(0.6)).collect();
    for _ in 0..4.min(n) {
        let v = c.rng.below(n);
        let want: BTreeSet<usize> = a[v].iter().cloned().filter(|&w| mask[w]).collect();
        let got: Vec<usize> = g.adjacent_masked(v, &mask).to_vec();
        c.check(got.len() == want.len() && got.iter().cloned().collect::<BTreeSet<_>>() == want, "masked neighbours", || format!("of {}: {:?} instead of {:?}", v, got, want));
        let d = g.degree_masked(v, &mask);
        c.check(d == want.len(), "masked degree", || format!("of {}: {} instead of {}", v, d, want.len()));
        // the furthest vertex, of the least degree among those
        if let Some((w, len)) = c.run("far node", || g.far_node(v)) {
            let dist = distances(&a, v);
            let e = dist.iter().flatten().max().cloned().unwrap();
            if c.check(len == e && dist[w] == Some(e), "far node", || format!("from {}: ({}, {}), eccentricity {}", v, w, len, e)) {
                let least = (0..n).filter(|&x| dist[x] == Some(e)).map(|x| a[x].len()).min().unwrap();
                c.check(a[w].len() == least, "far node degree", || format!("from {}: {} of degree {}, least {}", v, w, a[w].len(), least));
            }
            c.count("far nodes");
        }
    }
    if let Some(p) = c.run("pseudo-peripheral", || g.pseudo_peripheral()) {
        c.check(p < n && comp[p] == comp[0] && ecc(&a, p) >= ecc(&a, 0), "pseudo-peripheral", || format!("{} (eccentricity {}), from eccentricity {}", p, ecc(&a, p), ecc(&a, 0)));
    }

    if n <= 30 {
        if let Some(p) = c.run("pseudo-peripheral", || g.pseudo_peripheral()) {
            c.check(search_end(&a, p), "not pseudo-peripheral", || format!("{} of eccentricity {}", p, ecc(&a, p)));
        }
    }

    let p = match c.run("ordering", || g.reverse_cuthill_mckee()) {
        Some(p) => p,
        None => return,
    };
    let f = match permutation(c, &p, n) {
        Some(f) => f,
        None => return,
    };
    breadth_first(c, &a, &f);
    same(c, &g, &a, "after ordering");

    // the permuted matrix is the same matrix with renamed unknowns
    let mut pk = dict.clone();
    pk.permute(&p);
    let d = conv::dense(&pk);
    let want = M::from_fn(n, n, |i, j| k.at(p.unpermute(i), p.unpermute(j)));
    c.check(pk.shape() == (n, n) && d.flat() == want.flat(), "permuted matrix", || format!("{:?} instead of {:?}", d.flat(), want.flat()));
    pk.permute(&p.clone().invert());
    c.check(conv::dense(&pk).flat() == k.flat(), "matrix not restored", || String::new());

    // the system: what is solved after reordering is the system given
    let m = spd(&mut c.rng, n, &edges, 1.0);
    // loads everywhere, here and there, at one place, or nowhere
    let share = *c.rng.pick(&[1.0, 1.0, 0.3, 0.0]);
    let mut b: Vec<f64> = (0..n).map(|_| if c.rng.chance(share) { c.rng.sym() } else { 0.0 }).collect();
    if share == 0.0 && c.rng.chance(0.9) {
        b[c.rng.below(n)] = c.rng.f(0.5, 1.0);
        c.count("systems loaded at one place");
    }
    let mut sys = System::from_kr(&dict, &LinearMatrix::from_flat((n, 1), b.clone()));
    let mut ksys = System::from_km(&dict, &conv::dict(&m));
    let before: Vec<usize> = sys.k_envelope().collect();
    let plain: Vec<usize> = (0..n).map(|i| i + 1 - (0..=i).find(|&j| k.at(i, j) != 0.0).unwrap()).collect();
    c.check(before == plain, "envelope", || format!("{:?} instead of {:?}", before, plain));
    if c.run("reordering", || {
        sys.reduce_envelope();
        ksys.reduce_envelope();
    })
    .is_none()
    {
        return;
    }
    c.check(sys.dofs() == n, "dofs", || format!("{}", sys.dofs()));
    let after: Vec<usize> = sys.k_envelope().collect();
    c.check(after.len() == n && (0..n).all(|i| (1..=i + 1).contains(&after[i])), "reordered envelope", || format!("{:?}", after));
    let me: Vec<usize> = ksys.m_envelope().collect();
    let ke: Vec<usize> = ksys.k_envelope().collect();
    c.check(me == ke, "mass reordered differently", || format!("{:?} {:?}", me, ke));
    // the solver reorders on its own; its answer is in the caller's order
    let fresh = System::from_kr(&dict, &LinearMatrix::from_flat((n, 1), b.clone()));
    if let Some(r) = c.run("solve", || CholeskyEnvelopeSolver::new(fresh).solve()) {
        match r {
            Err(()) => c.fail("reordered system refused", "error on a positive definite system"),
            Ok(x) => {
                let r: Vec<f64> = k.mulv(&x).iter().zip(&b).map(|(a, b)| a - b).collect();
                c.check(maxabs(&r) <= 1e-9 * (k.inf() * maxabs(&x) + maxabs(&b)), "wrong answer", || format!("residual {:e}", maxabs(&r)));
                c.count("systems solved");
            }
        }
    }
    // unknowns that touch nothing, anywhere
    if n < 40 && c.rng.chance(0.3) {
        let mut d2 = Dictionary::zeros((n + 1, n + 1));
        for i in 0..n {
            for j in 0..n {
                if k.at(i, j) != 0.0 {
                    d2[(i, j)] = k.at(i, j);
                }
            }
        }
        d2.permute(&Permutation::identity(n + 1));
        let mut g2 = Graph::from_edges(n + 1, d2.edges_lower());
        if let Some(p2) = c.run("ordering", || g2.reverse_cuthill_mckee()) {
            permutation(c, &p2, n + 1);
        }
    }
}

fn main() {
    main_loop(
        Plan {
            quick: 40000,
            thorough: 1000000,
            rule: "random graphs of 1 to 120 (thorough 300) vertices, now and then thousands to 70000 (paths, bands, grids, stars, trees, cliques, cycles, blocks, random, edgeless, renumbered), built from edge lists in any order and direction with repeats and loops, from lists and from matrices; every ordering is checked to be a permutation, breadth first by component, started at an end of a longest path in trees; permuted matrices, slices and systems are compared entry by entry and solved; non-trivial: at least one edge; distinct by edges",
            need: &["large graphs", "large systems solved", "systems loaded at one place", "permutations checked", "disconnected graphs", "tree components", "other components", "systems solved", "far nodes"],
        },
        case,
    );
}
