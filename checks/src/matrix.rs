//! P15, P16, P19
use crate::approx::in_pool;
use crate::common::*;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};
use walky::solvers::is_hamiltonian_cycle;

// ---- P15

#[derive(Clone, Serialize, Deserialize)]
struct Points {
    p: Vec<[f64; 2]>,
    pool: usize,
}

fn shrink_points(c: &Points) -> Vec<Points> {
    let mut v = vec![];
    for k in [c.p.len() / 4, c.p.len() / 2, c.p.len() * 3 / 4] {
        if k > 20 {
            v.push(Points { p: c.p[..k].to_vec(), ..c.clone() });
            v.push(Points { p: c.p[c.p.len() - k..].to_vec(), ..c.clone() });
        }
    }
    for i in 0..c.p.len() {
        let mut x = c.clone();
        x.p.remove(i);
        v.push(x);
    }
    if c.pool != 1 {
        v.push(Points { pool: 1, ..c.clone() });
    }
    for i in 0..c.p.len() {
        for k in 0..2 {
            for y in [0.0, 1.0] {
                if c.p[i][k] != 0.0 && c.p[i][k] != y {
                    let mut x = c.clone();
                    x.p[i][k] = y;
                    v.push(x);
                }
            }
        }
    }
    v
}

fn coordinate(g: &mut Gen, mode: usize) -> f64 {
    match mode {
        0 => g.f64(),
        1 => g.below(5) as f64,
        2 => g.normal() * 1000.0,
        3 => (g.f64() - 0.5) * 10f64.powi(g.range(0, 200) as i32 - 100),
        _ => *g.pick(&[0.0, -0.0, 1.0, -1.0, 3.0, 4.0, 1e-9, 1e9]),
    }
}

fn run_points(c: &Points, cx: &mut Cx) -> CheckResult {
    let n = c.p.len();
    cx.nontrivial_if(n >= 3);
    cx.label(if n <= 20 { "few_points" } else { "many_points" });
    let a = NAMatrix::from_points(&c.p);
    let b = in_pool(c.pool, || NAMatrix::par_from_points(&c.p));
    ensure!(a.dim() == n && b.dim() == n, "dimensions {} and {} for {n} points", a.dim(), b.dim());
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (a.get(i, j), b.get(i, j));
            ensure!(x == y, "entry ({i},{j}) is {x} sequentially and {y} in parallel");
            ensure!(x == a.get(j, i), "entry ({i},{j}) is {x}, ({j},{i}) is {}", a.get(j, i));
            ensure!(i != j || x == 0.0, "diagonal entry {i} is {x}");
            let d = (c.p[i][0] - c.p[j][0]).hypot(c.p[i][1] - c.p[j][1]);
            // squares lose everything below 1e-154
            ensure!((x - d).abs() <= 1e-12 * d + 1e-150, "entry ({i},{j}) is {x}, the distance of {:?} and {:?} is {d}", c.p[i], c.p[j]);
        }
    }
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
struct Convert {
    inst: Inst,
    order: u64,
}

fn shuffled_graph(inst: &Inst, order: u64) -> Graph {
    let mut g = Gen::new(order);
    let v: Vec<Vec<Edge>> = (0..inst.n)
        .map(|i| {
            let mut e: Vec<Edge> = (0..inst.n).filter(|&j| j != i).map(|j| Edge { to: j, cost: inst.d(i, j) }).collect();
            if order != 0 {
                g.shuffle(&mut e);
            }
            e
        })
        .collect();
    Graph::from(v)
}

fn run_convert(c: &Convert, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let n = inst.n;
    cx.nontrivial_if(n >= 3 && inst.w.windows(2).any(|w| w[0] != w[1]));
    let g = shuffled_graph(inst, c.order);
    let same = |m: &dyn Fn(usize, usize) -> f64, dim: usize, who: &str| -> CheckResult {
        ensure!(dim == n, "{who} has dimension {dim} instead of {n}");
        for i in 0..n {
            for j in 0..n {
                let (x, y) = (m(i, j), inst.d(i, j));
                ensure!(x == y, "{who}: entry ({i},{j}) is {x} instead of {y}");
            }
        }
        Ok(())
    };
    let a: NAMatrix = (&g).into();
    same(&|i, j| a.get(i, j), a.dim(), "NAMatrix from the list")?;
    let b = VecMatrix::from(g.clone());
    same(&|i, j| b.get(i, j), b.dim(), "VecMatrix from the list")?;
    let c2: NAMatrix = (&b).into();
    same(&|i, j| c2.get(i, j), c2.dim(), "NAMatrix from VecMatrix")?;
    let d: NAMatrix = (&a).into();
    same(&|i, j| d.get(i, j), d.dim(), "NAMatrix from NAMatrix")?;
    let e = VecMatrix::from((0..n).map(|i| (0..n).map(|j| inst.d(i, j)).collect()).collect::<Vec<Vec<f64>>>());
    same(&|i, j| e.get(i, j), e.dim(), "VecMatrix from rows")?;
    ensure!(b == e, "VecMatrix from the list and from rows differ");
    ensure!(a == c2, "NAMatrix from the list and from VecMatrix differ");
    // an asymmetric matrix keeps its orientation
    if n >= 2 {
        let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (i * n + j) as f64).collect()).collect();
        let m: NAMatrix = (&VecMatrix::from(rows)).into();
        for i in 0..n {
            for j in 0..n {
                ensure!(m.get(i, j) == (i * n + j) as f64, "conversion of an asymmetric matrix: entry ({i},{j}) is {}", m.get(i, j));
            }
        }
    }
    Ok(())
}

fn shrink_writes(c: &Writes) -> Vec<Writes> {
    let mut v = vec![];
    for k in [c.ops.len() / 4, c.ops.len() / 2, c.ops.len() * 3 / 4] {
        if k > 10 {
            v.push(Writes { n: c.n, ops: c.ops[..k].to_vec() });
            v.push(Writes { n: c.n, ops: c.ops[c.ops.len() - k..].to_vec() });
        }
    }
    for i in 0..c.ops.len() {
        let mut x = c.clone();
        x.ops.remove(i);
        v.push(x);
    }
    let used = c.ops.iter().map(|o| o.0.max(o.1) + 1).max().unwrap_or(1);
    if used < c.n {
        v.push(Writes { n: used, ..c.clone() });
    }
    v
}

fn shrink_convert(c: &Convert) -> Vec<Convert> {
    let mut v: Vec<Convert> = c.inst.shrink(1, false).into_iter().map(|inst| Convert { inst, order: c.order }).collect();
    if c.order != 0 {
        v.push(Convert { inst: c.inst.clone(), order: 0 });
    }
    v
}

#[derive(Clone, Serialize, Deserialize)]
struct Writes {
    n: usize,
    ops: Vec<(usize, usize, f64)>,
}

fn run_writes(c: &Writes, cx: &mut Cx) -> CheckResult {
    fn go<M: AdjacencyMatrix>(c: &Writes, who: &str) -> CheckResult {
        let n = c.n;
        let mut m = M::from_dim(n);
        let mut model = vec![vec![f64::INFINITY; n]; n];
        for (i, r) in model.iter_mut().enumerate() {
            r[i] = 0.0;
        }
        let agree = |m: &M, model: &Vec<Vec<f64>>, after: &str| -> CheckResult {
            ensure!(m.dim() == n, "{who}: dimension {} instead of {n}", m.dim());
            for i in 0..n {
                for j in 0..n {
                    ensure!(m.get(i, j) == model[i][j], "{who}: entry ({i},{j}) is {} instead of {} {after}", m.get(i, j), model[i][j]);
                }
            }
            Ok(())
        };
        agree(&m, &model, "when fresh")?;
        for (k, &(i, j, x)) in c.ops.iter().enumerate() {
            m.set(i, j, x);
            model[i][j] = x;
            // of a large matrix the written row and column
            let wrong = (0..n).any(|t| m.get(i, t) != model[i][t] || m.get(t, j) != model[t][j]);
            if n <= 7 || wrong {
                agree(&m, &model, &format!("after write {k}: {:?}", c.ops[k]))?;
            }
        }
        agree(&m, &model, "at the end")
    }
    cx.nontrivial_if(c.n >= 2 && c.ops.iter().any(|o| o.0 != o.1));
    go::<NAMatrix>(c, "NAMatrix")?;
    go::<VecMatrix>(c, "VecMatrix")
}

// ---- P16

#[derive(Clone, Serialize, Deserialize)]
struct Walk {
    rows: Vec<Vec<f64>>,
    path: Vec<usize>,
}

fn shrink_walk(c: &Walk) -> Vec<Walk> {
    let mut v = vec![];
    let l = c.path.len();
    for k in [l / 4, l / 2, l * 3 / 4] {
        if k > 10 {
            v.push(Walk { path: c.path[..k].to_vec(), ..c.clone() });
        }
    }
    if l <= 100 {
        for i in 0..l {
            let mut x = c.clone();
            x.path.remove(i);
            v.push(x);
        }
    }
    let used = c.path.iter().max().map_or(1, |m| m + 1);
    if used < c.rows.len() {
        v.push(Walk { rows: c.rows[..used].iter().map(|r| r[..used].to_vec()).collect(), path: c.path.clone() });
    }
    v
}

fn both(rows: &[Vec<f64>]) -> (NAMatrix, VecMatrix) {
    let n = rows.len();
    let mut a = NAMatrix::from_dim(n);
    for i in 0..n {
        for j in 0..n {
            a.set(i, j, rows[i][j]);
        }
    }
    (a, VecMatrix::from(rows.to_vec()))
}

fn run_walk(c: &Walk, cx: &mut Cx) -> CheckResult {
    let p = &c.path;
    cx.nontrivial_if(p.len() >= 3);
    cx.label(match p.len() { 0 => "empty", 1 => "single", _ => "longer" });
    let path: f64 = p.windows(2).map(|w| c.rows[w[0]][w[1]]).sum();
    let circle = if p.len() < 2 { 0.0 } else { path + c.rows[*p.last().unwrap()][p[0]] };
    let (a, b) = both(&c.rows);
    for (who, x, y) in [("NAMatrix", a.evaluate_path(p), a.evaluate_circle(p)), ("VecMatrix", b.evaluate_path(p), b.evaluate_circle(p))] {
        ensure!(oracle::eq(x, path), "{who}: path cost {x} of {p:?}, it is {path}");
        ensure!(oracle::eq(y, circle), "{who}: cycle cost {y} of {p:?}, it is {circle}");
    }
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
struct Metric {
    inst: Inst,
}

fn run_metric(c: &Metric, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let n = inst.n;
    let mut worst = f64::NEG_INFINITY;
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                worst = worst.max(inst.d(i, j) - (inst.d(i, k) + inst.d(k, j)));
            }
        }
    }
    let grey = 1e-12 + 8.0 * f64::EPSILON * inst.max();
    if (worst - 1e-10).abs() <= grey {
        cx.label("within_rounding_of_the_slack");
        return Ok(());
    }
    let want = worst < 1e-10;
    cx.label(if want { "metric" } else { "not_metric" });
    if worst > 0.0 && want {
        cx.label("within_the_slack");
    }
    cx.nontrivial_if(n >= 3);
    let (a, b) = (na(inst).is_metric(), vm(inst).is_metric());
    ensure!(a == want && b == want, "is_metric says {a} (NAMatrix) and {b} (VecMatrix), the worst detour saves {worst}");
    Ok(())
}

fn gen_metric(g: &mut Gen, n: usize) -> Metric {
    let mut inst = if g.chance(0.85) { Inst::metric(g, n) } else { Inst::any(g, n) };
    if n >= 2 && g.chance(0.7) {
        let k = g.below(inst.w.len());
        let mut w = inst.w.clone();
        let by = *g.pick(&[1e-11, 5e-11, 1.5e-10, 1e-9, 1e-6, 0.01, 0.5, 1.0, 100.0]);
        if g.bool() {
            // just beyond the cheapest detour
            let (mut a, mut b) = (0, 1);
            for i in 0..n {
                for j in i + 1..n {
                    if Inst::index(n, i, j) == k {
                        (a, b) = (i, j);
                    }
                }
            }
            let detour = (0..n).filter(|&c| c != a && c != b).map(|c| inst.d(a, c) + inst.d(c, b)).fold(f64::INFINITY, f64::min);
            if detour.is_finite() {
                w[k] = detour + by;
            }
        } else if g.bool() {
            w[k] += by;
        } else {
            w[k] = (w[k] - by).max(0.0);
        }
        inst = Inst { n, kind: inst.kind, seed: None, w };
    }
    Metric { inst }
}

#[derive(Clone, Serialize, Deserialize)]
struct Cycle {
    n: usize,
    path: Vec<usize>,
}

fn run_cycle(c: &Cycle, cx: &mut Cx) -> CheckResult {
    let p = &c.path;
    let mut inner = p[..p.len() - 1].to_vec();
    inner.sort();
    let want = inner == (0..c.n).collect::<Vec<_>>();
    cx.nontrivial_if(c.n >= 3);
    cx.label(if want { "hamiltonian" } else { "not_hamiltonian" });
    let (a, b) = (NAMatrix::from_dim(c.n), VecMatrix::from_dim(c.n));
    let (x, y) = (is_hamiltonian_cycle(p, &a), is_hamiltonian_cycle(p, &b));
    ensure!(x == want && y == want, "is_hamiltonian_cycle says {x} and {y} for {p:?} with {} cities", c.n);
    Ok(())
}

fn shrink_cycle(c: &Cycle) -> Vec<Cycle> {
    let mut v = vec![];
    // leave out a city
    if c.n > 1 {
        for x in (0..c.n).rev().take(20) {
            let mut path: Vec<usize> = c.path.iter().filter(|&&y| y != x).map(|&y| if y > x { y - 1 } else { y }).collect();
            if let (Some(&a), Some(&b)) = (path.first(), path.last()) {
                if a != b || path.len() == 1 {
                    path.push(a);
                }
                v.push(Cycle { n: c.n - 1, path });
            }
        }
    }
    for i in 1..c.path.len() - 1 {
        let mut x = c.clone();
        x.path.remove(i);
        v.push(x);
    }
    v
}

fn gen_cycle(g: &mut Gen, n: usize) -> Cycle {
    let mut p = g.perm(n);
    p.push(p[0]);
    for _ in 0..*g.pick(&[0, 0, 1, 1, 2, 3]) {
        let l = p.len();
        match g.below(6) {
            0 if l > 2 => {
                let k = g.range(1, l - 2);
                p.remove(k);
            }
            1 => {
                let k = g.range(1, l - 1);
                let x = *g.pick(&p);
                p.insert(k, x);
            }
            2 if l > 2 => {
                let k = g.range(1, l - 2);
                p[k] = g.below(n);
            }
            3 if l > 2 => {
                let k = g.range(1, l - 2);
                p[k] = n + g.below(3);
            }
            4 => {
                // another start city, at both ends
                let x = g.below(n);
                p[0] = x;
                p[l - 1] = x;
            }
            _ => {
                // leave out a city and repeat another
                if l > 3 {
                    let (a, b) = (g.range(1, l - 2), g.range(0, l - 2));
                    p[a] = p[b];
                }
            }
        }
    }
    Cycle { n, path: p }
}

// ---- P19

#[derive(Clone, Serialize, Deserialize)]
struct History {
    n: usize,
    first: Vec<(usize, usize, f64)>,
    ops: Vec<(usize, usize, f64)>,
}

fn run_history(c: &History, cx: &mut Cx) -> CheckResult {
    let n = c.n;
    let mut lists: Vec<Vec<Edge>> = vec![vec![]; n];
    let mut model: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
    let mut weight = 0.0;
    for &(a, b, w) in &c.first {
        lists[a].push(Edge { to: b, cost: w });
        lists[b].push(Edge { to: a, cost: w });
        model[a].push((b, w));
        model[b].push((a, w));
        weight += w;
    }
    let mut g = Graph::from(lists);
    let agree = |g: &Graph, model: &Vec<Vec<(usize, f64)>>, weight: f64, when: &str| -> CheckResult {
        ensure!(g.num_vertices() == n, "{} vertices instead of {n} {when}", g.num_vertices());
        for v in 0..n {
            ensure!(g.vertex_degree(v) == model[v].len(), "degree of {v} is {} instead of {} {when}", g.vertex_degree(v), model[v].len());
            ensure!(g[v].degree() == model[v].len(), "degree of {v} is {} instead of {} {when}", g[v].degree(), model[v].len());
            let mut got: Vec<(usize, u64)> = g[v].iter().map(|e| (e.to, e.cost.to_bits())).collect();
            let mut want: Vec<(usize, u64)> = model[v].iter().map(|e| (e.0, e.1.to_bits())).collect();
            got.sort();
            want.sort();
            ensure!(got == want, "vertex {v} has the edges {:?} instead of {:?} {when}", g[v].iter().collect::<Vec<_>>(), model[v]);
        }
        let (u, d) = (g.undirected_edge_weight(), g.directed_edge_weight());
        ensure!(oracle::eq(u, weight), "undirected weight {u} instead of {weight} {when}");
        ensure!(oracle::eq(d, 2.0 * weight), "directed weight {d} instead of {} {when}", 2.0 * weight);
        Ok(())
    };
    agree(&g, &model, weight, "at first")?;
    let mut seen = std::collections::HashSet::new();
    let mut parallel = false;
    for (k, &(a, b, w)) in c.ops.iter().enumerate() {
        g.add_undirected_edge(a, b, w);
        model[a].push((b, w));
        model[b].push((a, w));
        weight += w;
        parallel |= !seen.insert((a.min(b), a.max(b)));
        agree(&g, &model, weight, &format!("after insertion {k} of {:?}", c.ops))?;
    }
    cx.nontrivial_if(c.ops.len() >= 2 && n >= 3);
    if parallel {
        cx.label("parallel_edges");
    }
    Ok(())
}

fn edge(g: &mut Gen, n: usize) -> (usize, usize, f64) {
    let a = g.below(n);
    let b = (a + 1 + g.below(n - 1)) % n;
    let w = match g.below(4) {
        0 => g.below(3) as f64,
        1 => g.f64() * 100.0,
        2 => g.range(1, 1000) as f64,
        _ => 10f64.powi(g.range(0, 8) as i32 - 4),
    };
    (a, b, w)
}

fn shrink_history(c: &History) -> Vec<History> {
    let mut v = vec![];
    for k in [c.ops.len() / 4, c.ops.len() / 2, c.ops.len() * 3 / 4] {
        if k > 10 {
            v.push(History { ops: c.ops[..k].to_vec(), ..c.clone() });
            v.push(History { ops: c.ops[c.ops.len() - k..].to_vec(), ..c.clone() });
        }
    }
    for i in 0..c.first.len() {
        let mut x = c.clone();
        x.first.remove(i);
        v.push(x);
    }
    for i in 0..c.ops.len() {
        let mut x = c.clone();
        x.ops.remove(i);
        v.push(x);
    }
    let used = c.first.iter().chain(&c.ops).map(|e| e.0.max(e.1) + 1).max().unwrap_or(2).max(2);
    if used < c.n {
        v.push(History { n: used, ..c.clone() });
    }
    for i in 0..c.ops.len() {
        if c.ops[i].2 != 1.0 {
            let mut x = c.clone();
            x.ops[i].2 = 1.0;
            v.push(x);
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P15",
            assumptions: vec!["coordinates are finite and their squares do not overflow", "Euclidean distances are compared with relative tolerance 1e-12"],
            subs: vec![
                Box::new(Sub::<Points> {
                    name: "points",
                    rule: "0..20 random points (a tenth 21..150) of five kinds of coordinates, both constructors, worker pool size. Non-trivial: at least 3 points",
                    quick: 200_000,
                    thorough: 5_000_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 50 == 3 { g.range(21, 150) } else { g.range(0, 20) };
                        let mode = g.below(5);
                        Points { p: (0..n).map(|_| [coordinate(g, mode), coordinate(g, mode)]).collect(), pool: g.range(0, 8) }
                    },
                    run: run_points,
                    shrink: shrink_points,
                }),
                Box::new(Sub::<Points> {
                    name: "points_large",
                    rule: "as points with 151..1200 points",
                    quick: 120,
                    thorough: 3_000,
                    threads: 4,
                    gen: |g, _| {
                        let n = if g.chance(0.7) { g.range(151, 600) } else { g.range(601, 1200) };
                        let mode = g.below(5);
                        Points { p: (0..n).map(|_| [coordinate(g, mode), coordinate(g, mode)]).collect(), pool: g.range(0, 8) }
                    },
                    run: run_points,
                    shrink: shrink_points,
                }),
                Box::new(Sub::<Convert> {
                    name: "conversions",
                    rule: "random complete adjacency list (31 families, n=1..16, random order of the edges), both representations and the conversions between them. Non-trivial: n>=3 and not all distances equal",
                    quick: 200_000,
                    thorough: 5_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 1, 16);
                        Convert { inst: Inst::any(g, n), order: if g.chance(0.3) { 0 } else { g.u64() } }
                    },
                    run: run_convert,
                    shrink: shrink_convert,
                }),
                Box::new(Sub::<Convert> {
                    name: "conversions_large",
                    rule: "as conversions with n=17..200 (every 500th time up to 1100)",
                    quick: 3_000,
                    thorough: 50_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 500 == 7 { giant(g, 201) } else if g.chance(0.8) { g.range(17, 70) } else { g.range(71, 200) };
                        Convert { inst: Inst::any(g, n), order: if g.chance(0.3) { 0 } else { g.u64() } }
                    },
                    run: run_convert,
                    shrink: shrink_convert,
                }),
                Box::new(Sub::<Writes> {
                    name: "writes",
                    rule: "history of 0..25 writes to a fresh matrix with n=1..7, every entry compared with a model after every write. Non-trivial: a write off the diagonal",
                    quick: 200_000,
                    thorough: 5_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(1, 7);
                        Writes { n, ops: (0..g.range(0, 25)).map(|_| (g.below(n), g.below(n), g.below(100) as f64 / 4.0)).collect() }
                    },
                    run: run_writes,
                    shrink: shrink_writes,
                }),
                Box::new(Sub::<Writes> {
                    name: "writes_large",
                    rule: "as writes with n=8..120 (every 100th time 240..300) and up to 300 writes; row and column compared after every write, everything at the end",
                    quick: 3_000,
                    thorough: 100_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 100 == 50 { g.range(240, 300) } else { g.range(8, 120) };
                        Writes { n, ops: (0..g.range(0, 300)).map(|_| (g.below(n), g.below(n), g.below(100) as f64 / 4.0)).collect() }
                    },
                    run: run_writes,
                    shrink: shrink_writes,
                }),
            ],
        },
        Prop {
            id: "P16",
            assumptions: vec!["the Hamiltonian-cycle test is only asked about sequences whose first and last city are equal (its documented precondition)", "the metric test is not judged within rounding of its slack of 1e-10"],
            subs: vec![
                Box::new(Sub::<Walk> {
                    name: "costs",
                    rule: "random matrix with n=1..9 (also asymmetric, also with a nonzero diagonal), random city sequence of length 0..14, both representations. Non-trivial: length >= 3",
                    quick: 400_000,
                    thorough: 10_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(1, 9);
                        let big = g.bool();
                        let rows = (0..n).map(|_| (0..n).map(|_| if big { g.f64() * 1e6 } else { g.below(20) as f64 }).collect()).collect();
                        Walk { rows, path: (0..g.range(0, 14)).map(|_| g.below(n)).collect() }
                    },
                    run: run_walk,
                    shrink: shrink_walk,
                }),
                Box::new(Sub::<Walk> {
                    name: "costs_long",
                    rule: "as costs with n=10..60 and a sequence of length 15..5000",
                    quick: 2_000,
                    thorough: 50_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(10, 60);
                        let big = g.bool();
                        let rows = (0..n).map(|_| (0..n).map(|_| if big { g.f64() * 1e6 } else { g.below(20) as f64 }).collect()).collect();
                        let len = if g.chance(0.8) { g.range(15, 300) } else { g.range(301, 5000) };
                        Walk { rows, path: (0..len).map(|_| g.below(n)).collect() }
                    },
                    run: run_walk,
                    shrink: shrink_walk,
                }),
                Box::new(Sub::<Metric> {
                    name: "metric",
                    rule: "metric instance (14 families, n=1..9), often with one distance raised or lowered (by amounts from 1e-11 up), or any other instance. Non-trivial: n>=3",
                    quick: 400_000,
                    thorough: 10_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 1, 9);
                        gen_metric(g, n)
                    },
                    run: run_metric,
                    shrink: |c| c.inst.shrink(1, false).into_iter().map(|inst| Metric { inst }).collect(),
                }),
                Box::new(Sub::<Metric> {
                    name: "metric_large",
                    rule: "as metric with n=10..60 (every 20th time 61..140, every 200th time 200..320)",
                    quick: 12_000,
                    thorough: 200_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 200 == 60 { g.range(200, 320) } else if i % 20 == 7 { g.range(61, 140) } else if g.chance(0.8) { g.range(10, 25) } else { g.range(26, 60) };
                        gen_metric(g, n)
                    },
                    run: run_metric,
                    shrink: |c| c.inst.shrink(1, false).into_iter().map(|inst| Metric { inst }).collect(),
                }),
                Box::new(Sub::<Cycle> {
                    name: "hamiltonian",
                    rule: "closed sequence over n=1..9 cities: a random tour with 0..3 edits (cities left out, repeated, replaced, out of range). Non-trivial: n>=3",
                    quick: 400_000,
                    thorough: 10_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(1, 9);
                        gen_cycle(g, n)
                    },
                    run: run_cycle,
                    shrink: shrink_cycle,
                }),
                Box::new(Sub::<Cycle> {
                    name: "hamiltonian_large",
                    rule: "as hamiltonian with n=10..400 (every 1000th time up to 1100)",
                    quick: 20_000,
                    thorough: 200_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 1000 == 7 { giant(g, 401) } else if g.chance(0.8) { g.range(10, 70) } else { g.range(71, 400) };
                        gen_cycle(g, n)
                    },
                    run: run_cycle,
                    shrink: shrink_cycle,
                }),
            ],
        },
        Prop {
            id: "P19",
            assumptions: vec!["neighbour lists are compared as multisets", "weights are compared with relative tolerance 1e-9"],
            subs: vec![Box::new(Sub::<History> {
                name: "insertions",
                rule: "graph with n=2..9 vertices built from 0..6 random edges, then 0..25 insertions; degrees, neighbours and weights compared with an edge list after each. Non-trivial: at least 2 insertions and 3 vertices",
                quick: 200_000,
                thorough: 5_000_000,
                threads: 0,
                gen: |g, _| {
                    let n = g.range(2, 9);
                    let first = (0..g.below(7)).map(|_| edge(g, n)).collect();
                    let ops = (0..g.range(0, 25)).map(|_| edge(g, n)).collect();
                    History { n, first, ops }
                },
                run: run_history,
                shrink: shrink_history,
            }),
            Box::new(Sub::<History> {
                name: "insertions_large",
                rule: "as insertions with n=10..60 (every 100th time up to 1100), 0..200 edges at first and up to 200 insertions",
                quick: 1_500,
                thorough: 50_000,
                threads: 0,
                gen: |g, i| {
                    let n = if i % 100 == 7 { giant(g, 61) } else { g.range(10, 60) };
                    let first = (0..g.below(200)).map(|_| edge(g, n)).collect();
                    let ops = (0..g.range(0, 200)).map(|_| edge(g, n)).collect();
                    History { n, first, ops }
                },
                run: run_history,
                shrink: shrink_history,
            })],
        },
    ]
}
