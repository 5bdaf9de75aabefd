//! P21: the multi-threaded entry points under AddressSanitizer. A report aborts the process; the
//! parent then looks for the case.
#[path = "../../checks/src/affinity.rs"]
mod affinity;
#[path = "../../checks/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../checks/src/miri.rs"]
mod miri;

use affinity::with_processors;
use common::*;
use engine::{ensure, oracle, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use walky::computation_mode::PAR_COMPUTATION as PAR;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::n_nearest_neighbour;

#[no_mangle]
pub extern "C" fn __asan_default_options() -> *const libc::c_char {
    c"abort_on_error=1:detect_leaks=0:redzone=256:max_redzone=2048:detect_stack_use_after_return=1:quarantine_size_mb=64:strict_init_order=0:handle_segv=1".as_ptr()
}

/// Is this program built the way it has to be? Reading a poisoned byte must be noticed.
fn sanitized() -> bool {
    extern "C" {
        fn __asan_address_is_poisoned(p: *const libc::c_void) -> libc::c_int;
    }
    let v = vec![0u8; 16];
    unsafe { __asan_address_is_poisoned(v.as_ptr().add(16) as *const libc::c_void) != 0 }
}

#[derive(Clone, Serialize, Deserialize)]
enum What {
    Mst,
    MstExcluded(Vec<usize>),
    OneTree,
    Neighbour(usize),
    Matching(Vec<usize>, usize),
    Christofides,
    Exact(usize),
    Points(Vec<[f64; 2]>),
}

#[derive(Clone, Serialize, Deserialize)]
struct Case {
    what: What,
    inst: Inst,
    pool: usize,
    seed: u64,
}

fn pool(k: usize) -> &'static rayon::ThreadPool {
    static POOLS: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
    POOLS[k].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())
}

fn gen(g: &mut Gen, idx: u64) -> Case {
    let top = if g.chance(0.02) { 500 } else if g.chance(0.1) { 150 } else { 24 };
    let n = match idx % 8 {
        5 => g.range(3, top.min(200)),
        3 => size(g, 1, top.min(200)),
        2 => size(g, 1, top.min(150)),
        6 => g.range(2, 7),
        _ => size(g, 1, top),
    };
    let inst = if idx % 8 == 5 { Inst::metric(g, n) } else { Inst::any(g, n) };
    let what = match idx % 8 {
        0 => What::Mst,
        1 => {
            let k = g.range(0, n - 1);
            What::MstExcluded(g.subset(n, k))
        }
        2 if n >= 2 => What::OneTree,
        3 => What::Neighbour(g.range(1, n)),
        4 => {
            let k = g.range(0, n / 2) * 2;
            let mut v = g.subset(n, k);
            g.shuffle(&mut v);
            What::Matching(v, *g.pick(&[0, 1, 3, 20]))
        }
        5 => What::Christofides,
        6 => What::Exact(g.range(1, 8)),
        7 => What::Points((0..n).map(|_| [g.f64() * 100.0, g.f64() * 100.0]).collect()),
        _ => What::Mst,
    };
    Case { what, inst, pool: g.range(1, 8), seed: g.u64() }
}

fn run(c: &Case, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    let m = na(inst);
    rand::verif_seed(c.seed);
    cx.nontrivial_if(inst.n >= 3 && c.pool >= 2);
    pool(c.pool).install(|| {
        rand::verif_seed(c.seed);
        match &c.what {
            What::Mst => {
                cx.label("mst");
                let t = walky::mst::prim::<PAR>(&m);
                ensure!(t.num_vertices() == inst.n, "{} vertices in the tree", t.num_vertices());
            }
            What::MstExcluded(x) => {
                cx.label("mst_excluded");
                let t = walky::mst::prim_with_excluded_node_multi_threaded(&m, x);
                ensure!(t.num_vertices() == inst.n, "{} vertices in the tree", t.num_vertices());
            }
            What::OneTree => {
                cx.label("one_tree");
                let b = walky::one_tree::one_tree_lower_bound::<PAR>(&m);
                ensure!(b.is_finite(), "bound {b}");
            }
            What::Neighbour(k) => {
                cx.label("nearest_neighbour");
                let (_, t) = n_nearest_neighbour::<PAR>(&m, *k);
                ensure!(oracle::is_perm(&t, inst.n), "{t:?}");
            }
            What::Matching(v, tries) => {
                cx.label("matching");
                let got = approx_min_cost_matching::<PAR>(&m, v.clone(), *tries);
                let mut a: Vec<usize> = got.iter().flatten().copied().collect();
                let mut b = v.clone();
                a.sort_unstable();
                b.sort_unstable();
                ensure!(a == b, "{got:?} is no perfect matching of {b:?}");
            }
            What::Christofides => {
                cx.label("christofides");
                let (cost, _) = christofides::<PAR>(&m);
                ensure!(cost.is_finite(), "cost {cost}");
            }
            What::Exact(k) => {
                cx.label("exact");
                let (cost, t) = with_processors(*k, || walky::solvers::exact::threaded_solver(&m));
                valid_tour(inst, cost, &t, "threaded solver")?;
            }
            What::Points(p) => {
                cx.label("points");
                let a = NAMatrix::par_from_points(p);
                ensure!(a.dim() == p.len(), "dimension {}", a.dim());
                for i in 0..p.len() {
                    for j in 0..p.len() {
                        let d = ((p[i][0] - p[j][0]).powi(2) + (p[i][1] - p[j][1]).powi(2)).sqrt();
                        ensure!((a.get(i, j) - d).abs() < 1e-9, "distance {i}-{j}: {} instead of {d}", a.get(i, j));
                    }
                }
            }
        }
        Ok(())
    })?;
    ensure!(same_matrix(&m, inst), "the distances were changed");
    Ok(())
}

fn shrink(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let min = match &c.what {
        What::Mst => 1,
        What::MstExcluded(x) => x.iter().max().map_or(1, |m| m + 1),
        What::Matching(x, _) => x.iter().max().map_or(1, |m| m + 1),
        What::Neighbour(k) => *k,
        What::Christofides => 3,
        What::Points(p) => {
            if p.len() > 1 {
                out.push(Case { what: What::Points(p[..p.len() / 2].to_vec()), ..c.clone() });
                out.push(Case { what: What::Points(p[..p.len() - 1].to_vec()), ..c.clone() });
            }
            1
        }
        _ => 2,
    };
    for inst in c.inst.shrink(min, matches!(c.what, What::Christofides)) {
        out.push(Case { inst, ..c.clone() });
    }
    if c.pool > 1 {
        out.push(Case { pool: 1, ..c.clone() });
        out.push(Case { pool: c.pool - 1, ..c.clone() });
    }
    out
}

fn gen_interpreted(g: &mut Gen, idx: u64) -> miri::Interpreted {
    let what = ["mst", "one_tree", "neighbour", "matching", "christofides", "points", "matching", "exact"][(idx % 8) as usize];
    let n = match what {
        "mst" | "points" | "neighbour" => g.range(1, 10),
        "one_tree" => g.range(3, 7),
        "christofides" => g.range(3, 9),
        "exact" => g.range(2, 4),
        _ => g.range(2, 16),
    };
    let inst = if what == "christofides" { Inst::metric(g, n) } else { Inst::any(g, n) };
    let mut xs = vec![];
    let mut points = vec![];
    match what {
        "mst" => {
            let k = if g.bool() { 0 } else { g.range(0, n - 1) };
            xs = g.subset(n, k);
        }
        "neighbour" => xs = vec![g.range(1, n)],
        "matching" => {
            let k = g.range(0, n / 2) * 2;
            xs = g.subset(n, k);
            g.shuffle(&mut xs);
            xs.insert(0, *g.pick(&[0, 1, 3, 10]));
        }
        "points" => points = (0..n).map(|_| [g.f64() * 100.0, g.f64() * 100.0]).collect(),
        _ => {}
    }
    miri::Interpreted {
        what: what.into(),
        inst,
        xs,
        points,
        workers: g.range(2, 4),
        processors: g.range(2, 3),
        repeat: 1,
        seed: g.below(1 << 30) as u32,
        rate: 0.002 * 50f64.powf(g.f64()),
    }
}

fn run_interpreted(c: &miri::Interpreted, cx: &mut Cx) -> CheckResult {
    let inst = &c.inst;
    cx.label(c.what.clone());
    cx.nontrivial_if(inst.n >= 3);
    miri::run(c, cx, |line| {
        match c.what.as_str() {
            "exact" => {
                let (cost, t) = miri::solution(line);
                valid_tour(inst, cost, &t, "threaded solver")?;
            }
            "neighbour" => ensure!(oracle::is_perm(&miri::solution(line).1, inst.n), "{line}"),
            "matching" => {
                let mut a: Vec<usize> = line.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
                let mut b = c.xs[1..].to_vec();
                a.sort_unstable();
                b.sort_unstable();
                ensure!(a == b, "{line} is no perfect matching of {b:?}");
            }
            "points" => {
                let p = &c.points;
                let a: Vec<f64> = line.split(',').filter(|x| !x.is_empty()).map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
                ensure!(a.len() == p.len() * p.len(), "{} entries for {} points", a.len(), p.len());
                for i in 0..p.len() {
                    for j in 0..p.len() {
                        let d = ((p[i][0] - p[j][0]).powi(2) + (p[i][1] - p[j][1]).powi(2)).sqrt();
                        let got = a[i * p.len() + j];
                        ensure!((got - d).abs() < 1e-9, "distance {i}-{j}: {got} instead of {d}");
                    }
                }
            }
            _ => {}
        }
        Ok(())
    })
}

fn shrink_interpreted(c: &miri::Interpreted) -> Vec<miri::Interpreted> {
    let mut v = vec![];
    let min = match c.what.as_str() {
        "matching" => {
            if c.xs.len() >= 3 {
                v.push(miri::Interpreted { xs: c.xs[..c.xs.len() - 2].to_vec(), ..c.clone() });
            }
            c.xs[1..].iter().max().map_or(1, |m| m + 1)
        }
        "mst" => c.xs.iter().max().map_or(1, |m| m + 1),
        "neighbour" => c.xs[0],
        "exact" => 2,
        _ => 3,
    };
    v.extend(miri::shrink(c, min, c.what == "christofides"));
    v
}

/// A matching large enough that the rounds are split over threads; the cities are on a line.
#[derive(Clone, Serialize, Deserialize)]
struct Big {
    n: usize,
    tries: usize,
    pool: usize,
    seed: u64,
}

fn run_big(c: &Big, cx: &mut Cx) -> CheckResult {
    let mut g = Gen::new(c.seed);
    let x: Vec<f64> = (0..c.n).map(|_| g.below(1000) as f64).collect();
    let mut m = NAMatrix::from_dim(c.n);
    for j in 0..c.n {
        for i in 0..c.n {
            m.set(i, j, (x[i] - x[j]).abs());
        }
    }
    let mut vs = g.perm(c.n);
    vs.truncate(c.n / 2 * 2);
    cx.nontrivial_if(vs.len() >= 8000);
    let mut got: Vec<usize> = pool(c.pool).install(|| {
        rand::verif_seed(c.seed);
        approx_min_cost_matching::<PAR>(&m, vs.clone(), c.tries).into_iter().flatten().collect()
    });
    got.sort_unstable();
    vs.sort_unstable();
    ensure!(got == vs, "no perfect matching of {} vertices", vs.len());
    for j in 0..c.n {
        for i in 0..c.n {
            ensure!(m.get(i, j) == (x[i] - x[j]).abs(), "the distances were changed");
        }
    }
    Ok(())
}

fn main() {
    if !sanitized() {
        println!("ERROR: built without AddressSanitizer");
        std::process::exit(2);
    }
    let props = vec![Prop {
        id: "P21",
        assumptions: vec!["AddressSanitizer sees accesses outside of allocations (up to 2 KiB away at least), not wrong accesses inside of one"],
        subs: vec![Box::new(Sub {
            name: "asan",
            rule: "multi-threaded entry point x instance (n 1..150, some up to 500) x pool of 1..8 threads x seed, under AddressSanitizer; non-trivial: at least three cities and two threads",
            quick: 16_000,
            thorough: 400_000,
            threads: 0,
            gen,
            run,
            shrink,
        }),
        Box::new(Sub {
            name: "interpreted",
            rule: "multi-threaded entry point x small instance (n up to 16) x 2..4 workers x seed, interpreted by Miri, which interleaves the threads at random basic blocks and reports data races, accesses out of bounds and uses of uninitialised memory; non-trivial: at least three cities",
            quick: 160,
            thorough: 10_000,
            threads: 0,
            gen: gen_interpreted,
            run: run_interpreted,
            shrink: shrink_interpreted,
        }),
        Box::new(Sub {
            name: "asan_matching_split",
            rule: "multi-threaded matching of 8000..8300 vertices under AddressSanitizer; non-trivial: at least 8000 vertices",
            quick: 1,
            thorough: 20,
            threads: 1,
            gen: |g, _| Big { n: g.range(8000, 8300), tries: g.range(1, 2), pool: g.range(2, 8), seed: g.u64() },
            run: run_big,
            shrink: |c| {
                [c.n / 2, c.n * 3 / 4, c.n - 1].into_iter().filter(|&n| n >= 4 && n < c.n).map(|n| Big { n, ..c.clone() }).collect()
            },
        })],
    }];
    std::process::exit(engine::main(props));
}
