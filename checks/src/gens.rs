//! P20: the bundled generators, run as programs.
use crate::cli::{program, run, temp};
use engine::{ensure, guarded, oracle, CheckResult, Cx, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use std::process::Command;
use walky::computation_mode::SEQ_COMPUTATION as SEQ;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::parser::TravellingSalesmanProblemInstance as Tsp;

fn accept(text: &str, n: usize, who: &str) -> Result<NAMatrix, String> {
    let short: String = text.chars().take(3000).collect();
    let t = match guarded(|| Tsp::parse_from_xml(text)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("{who}: not accepted ({e}):\n{short}")),
        Err(e) => return Err(format!("{who}: not accepted ({e}):\n{short}")),
    };
    ensure!(t.graph.num_vertices() == n, "{who}: {} cities instead of {n}", t.graph.num_vertices());
    let m: NAMatrix = (&t.graph).into();
    for i in 0..n {
        for j in 0..n {
            let d = m.get(i, j);
            ensure!(d == m.get(j, i) && d.is_finite() && d >= 0.0, "{who}: distance ({i},{j}) is {d}, back {}", m.get(j, i));
            ensure!((i == j) == (d == 0.0), "{who}: distance ({i},{j}) is {d}");
            for k in 0..n {
                let s = m.get(i, k) + m.get(k, j);
                ensure!(d <= s + 1e-9 * s, "{who}: the way from {i} to {j} is {d}, over {k} only {s}");
            }
        }
    }
    let (c, t) = walky::solvers::approximate::nearest_neighbour::nearest_neighbour::<SEQ>(&m);
    ensure!(oracle::is_perm(&t, n) && c.is_finite(), "{who}: nearest neighbour finds {t:?}");
    Ok(m)
}

#[derive(Clone, Serialize, Deserialize)]
struct Fast {
    n: usize,
    seed: u64,
    /// about half of the random numbers agree in this many leading bits
    narrow: u32,
}

fn run_fast(c: &Fast, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.n >= 3);
    let o = run(Command::new(program("gen_matrix_fast")).arg(c.n.to_string()).env("VERIF_RAND_SEED", c.seed.to_string()).env("VERIF_RAND_NARROW", c.narrow.to_string()))?;
    ensure!(o.code == Some(0), "gen_matrix_fast {} ends with {:?}: {}", c.n, o.code, o.err);
    accept(&o.out, c.n, &format!("gen_matrix_fast {}", c.n))?;
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
struct Series {
    from: usize,
    to: usize,
    seed: u32,
    narrow: u32,
    /// an earlier series in the same folder
    stale: bool,
}

/// Starts a generator script with seeded random numbers, in `dir`.
const START: &str = "
import sys, os, runpy, types
import numpy
sys.dont_write_bytecode = True
numpy.random.seed(int(sys.argv[1]))
import random
random.seed(int(sys.argv[1]))
# simple_gen.py also solves its instance with a library that is not installed; its answer is not used
m = types.ModuleType('python_tsp'); e = types.ModuleType('python_tsp.exact')
e.solve_tsp_dynamic_programming = lambda matrix: (list(range(len(matrix))), 0.0)
sys.modules['python_tsp'] = m; sys.modules['python_tsp.exact'] = e
script = sys.argv[2]
narrow = int(sys.argv[3])
if narrow:
    # about half of the random numbers lie close together
    rand, pick = numpy.random.rand, numpy.random.RandomState(int(sys.argv[1]) ^ 1)
    def close(*dims):
        x = rand(*dims)
        return numpy.where(pick.rand(*dims) < 0.5, x, 0.36 + x * 0.5 ** narrow)
    numpy.random.rand = close
sys.argv = sys.argv[2:3] + sys.argv[4:]
sys.path.insert(0, os.path.dirname(script))
runpy.run_path(script, run_name='__main__')
";

fn python(dir: &std::path::Path, seed: u32, narrow: u32, script: &str, args: &[String]) -> Result<crate::cli::Output, String> {
    let utils = std::env::var("VERIF_REPO").unwrap_or("/repo".into()) + "/utils/";
    run(Command::new("python3-vt")
        .args(["-c", START, &seed.to_string(), &(utils + script), &narrow.to_string()])
        .args(args)
        .current_dir(dir)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("OPENBLAS_NUM_THREADS", "1"))
}

fn run_series(c: &Series, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.to > c.from && c.to >= 3);
    let dir = temp("series");
    std::fs::create_dir_all(&dir).unwrap();
    let r = series(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn series(c: &Series, dir: &std::path::Path) -> CheckResult {
    let who = format!("benchmark_gen.py {} {}", c.from, c.to);
    if c.stale {
        std::fs::create_dir_all(dir.join("results")).unwrap();
        std::fs::write(dir.join("results").join(format!("{}.xml", c.to)), "stale").unwrap();
        std::fs::write(dir.join("results").join(format!("{}.xml", c.from)), "stale").unwrap();
    }
    let o = python(dir, c.seed, c.narrow, "benchmark_gen.py", &[c.from.to_string(), c.to.to_string()])?;
    ensure!(o.code == Some(0), "{who} ends with {:?}: {}", o.code, o.err);
    let mut files: Vec<String> = std::fs::read_dir(dir.join("results"))
        .map_err(|e| format!("{who}: no results ({e})"))?
        .map(|f| f.unwrap().file_name().to_string_lossy().into_owned())
        .collect();
    files.sort();
    let mut want: Vec<String> = (c.from..=c.to).map(|k| format!("{k}.xml")).collect();
    want.sort();
    ensure!(files == want, "{who}: files {files:?} instead of {want:?}");
    let read = |k: usize| accept(&std::fs::read_to_string(dir.join("results").join(format!("{k}.xml"))).unwrap(), k, &format!("{who}: {k}.xml"));
    let big = read(c.to)?;
    for k in c.from..c.to {
        let m = read(k)?;
        for i in 0..k {
            for j in 0..k {
                ensure!(m.get(i, j) == big.get(i, j), "{who}: distance ({i},{j}) is {} in {k}.xml and {} in {}.xml", m.get(i, j), big.get(i, j), c.to);
            }
        }
    }
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
struct Simple {
    n: usize,
    seed: u32,
    narrow: u32,
    format: String,
}

fn run_simple(c: &Simple, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.n >= 3);
    let dir = temp("simple");
    std::fs::create_dir_all(&dir).unwrap();
    let who = format!("simple_gen.py {} {}", c.format, c.n);
    let o = python(&dir, c.seed, c.narrow, "simple_gen.py", &[c.format.clone(), c.n.to_string()]);
    let _ = std::fs::remove_dir_all(&dir);
    let o = o?;
    ensure!(o.code == Some(0), "{who} ends with {:?}: {}", o.code, o.err);
    accept(&o.out, c.n, &who)?;
    Ok(())
}

// ------------------------------------------------------------------ P23

/// Calls the functions of the helper modules; one JSON document in, one out.
const CALLS: &str = "
import sys, os, io, json, contextlib
import numpy
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VERIF_UTILS'])
import tsp_logic, NN_approx
for m, f in [(NN_approx, 'tsp_nearest_neighbour'), (NN_approx, 'main'), (tsp_logic, 'convert_to_xml'), (tsp_logic, 'convert_to_rust_code')]:
    if not hasattr(m, f):
        print('no function', f)
        sys.exit(7)
job = json.load(open(sys.argv[1]))
def quiet(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a)
    return r, out.getvalue()
answer = {'traces': [], 'xml': [], 'rust': [], 'mains': []}
for m in job['matrices']:
    m = numpy.array(m, dtype=float)
    before = m.copy()
    t = []
    for s in range(len(m)):
        (path, cost), _ = quiet(NN_approx.tsp_nearest_neighbour, m, s)
        t.append([[int(x) for x in path], float(cost)])
    answer['traces'].append(t)
    answer['xml'].append(tsp_logic.convert_to_xml(m))
    answer['rust'].append(tsp_logic.convert_to_rust_code(m))
    if not numpy.array_equal(m, before):
        answer['xml'][-1] = 'the matrix was changed'
for seed, size in job['mains']:
    answer['mains'].append(quiet(NN_approx.main, seed, size)[1])
json.dump(answer, sys.stdout)
";

#[derive(Clone, Serialize, Deserialize)]
struct Help {
    insts: Vec<Inst>,
    /// seed and size of a printed trace
    mains: Vec<(u32, usize)>,
}

#[derive(Deserialize)]
struct Helped {
    traces: Vec<Vec<(Vec<usize>, f64)>>,
    xml: Vec<String>,
    rust: Vec<String>,
    mains: Vec<String>,
}

fn greedy(path: &[usize], cost: f64, start: usize, inst: &Inst, who: &str) -> CheckResult {
    ensure!(path.first() == Some(&start), "{who}: {path:?} does not begin at {start}");
    crate::common::valid_tour(inst, cost, path, who)?;
    for k in 1..path.len() {
        let step = inst.d(path[k - 1], path[k]);
        for &x in &path[k..] {
            ensure!(inst.d(path[k - 1], x) >= step, "{who}: {path:?} goes from {} to {}, but {x} is nearer", path[k - 1], path[k]);
        }
    }
    Ok(())
}

/// `Vertex { edges: vec![Edge { to: 1, cost: 0.5 }, ...] }` for every city, as text pieces
fn read_rust(text: &str) -> Result<Vec<Vec<(usize, f64)>>, String> {
    let bad = |why: &str| format!("Rust form {why}: {}", text.chars().take(2000).collect::<String>());
    let squeezed: String = text.chars().filter(|c| !c.is_whitespace()).collect();
    let t = squeezed.strip_prefix("letgraph=Graph{vertices:vec![").and_then(|t| t.strip_suffix("]};")).ok_or(bad("has no frame"))?;
    let mut all = vec![];
    let mut rest = t;
    while !rest.is_empty() {
        rest = rest.strip_prefix("Vertex{edges:vec![").ok_or(bad("lacks a vertex"))?;
        let end = rest.find("]}").ok_or(bad("lacks an end"))?;
        let mut v = vec![];
        for e in rest[..end].split("},").filter(|e| !e.is_empty()) {
            let e = e.strip_prefix("Edge{to:").ok_or(bad("has a bad edge"))?.trim_end_matches('}');
            let (to, cost) = e.split_once(",cost:").ok_or(bad("has a bad edge"))?;
            v.push((to.parse().map_err(|_| bad("has a bad number"))?, cost.parse().map_err(|_| bad("has a bad cost"))?));
        }
        all.push(v);
        rest = rest[end + 2..].trim_start_matches(',');
    }
    Ok(all)
}

fn check_rust(text: &str, inst: &Inst, who: &str) -> CheckResult {
    let got = read_rust(text)?;
    ensure!(got.len() == inst.n, "{who}: {} cities instead of {}", got.len(), inst.n);
    for (i, v) in got.iter().enumerate() {
        let mut v = v.clone();
        v.sort_by_key(|e| e.0);
        let want: Vec<(usize, f64)> = (0..inst.n).filter(|&j| j != i && inst.d(i, j) != 0.0).map(|j| (j, inst.d(i, j))).collect();
        ensure!(v == want, "{who}: city {i} has the connections {v:?} instead of {want:?}");
    }
    Ok(())
}

fn run_help(c: &Help, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.insts.iter().any(|i| i.n >= 4) || c.mains.iter().any(|m| m.1 >= 4));
    let dir = temp("help");
    std::fs::create_dir_all(&dir).unwrap();
    let matrices: Vec<Vec<Vec<f64>>> = c.insts.iter().map(|m| (0..m.n).map(|i| (0..m.n).map(|j| m.d(i, j)).collect()).collect()).collect();
    let job = dir.join("job.json");
    std::fs::write(&job, serde_json::json!({"matrices": matrices, "mains": c.mains}).to_string()).unwrap();
    let utils = std::env::var("VERIF_REPO").unwrap_or("/repo".into()) + "/utils";
    let o = run(Command::new("python3-vt")
        .args(["-c", CALLS, job.to_str().unwrap()])
        .current_dir(&dir)
        .env("VERIF_UTILS", utils)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("OPENBLAS_NUM_THREADS", "1"));
    let _ = std::fs::remove_dir_all(&dir);
    let o = o?;
    if o.code == Some(7) {
        cx.label(format!("inconclusive: {}", o.out.trim()));
        return Ok(());
    }
    ensure!(o.code == Some(0), "the helpers end with {:?}: {}", o.code, o.err);
    let h: Helped = serde_json::from_str(&o.out).map_err(|e| format!("the helpers answer {:?}: {e}", o.out))?;
    for (k, inst) in c.insts.iter().enumerate() {
        for (s, (path, cost)) in h.traces[k].iter().enumerate() {
            greedy(path, *cost, s, inst, &format!("trace of start {s}"))?;
        }
        check_rust(&h.rust[k], inst, "Rust form")?;
        if inst.n >= 2 {
            let t = match guarded(|| Tsp::parse_from_xml(&h.xml[k])) {
                Ok(Ok(t)) => t,
                Ok(Err(e)) => return Err(format!("XML form not accepted ({e}): {}", h.xml[k])),
                Err(e) => return Err(format!("XML form not accepted ({e}): {}", h.xml[k])),
            };
            ensure!(t.graph.num_vertices() == inst.n, "XML form: {} cities instead of {}", t.graph.num_vertices(), inst.n);
            let m: NAMatrix = (&t.graph).into();
            for i in 0..inst.n {
                for j in 0..inst.n {
                    // 16 digits are written
                    let (d, x) = (m.get(i, j), inst.d(i, j));
                    ensure!((d - x).abs() <= 1e-15 * x, "XML form: distance ({i},{j}) is {d} instead of {x}");
                }
            }
        }
    }
    for (out, &(seed, size)) in h.mains.iter().zip(&c.mains) {
        check_main(out, size).map_err(|e| format!("NN_approx with seed {seed} and {size} cities: {e}\n{out}"))?;
    }
    Ok(())
}

fn numbers(text: &str) -> Vec<usize> {
    text.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect()
}

/// The printed matrix, then for every start its path and cost, then the Rust form.
fn check_main(out: &str, size: usize) -> CheckResult {
    let head = out.split("Starting at").next().unwrap();
    let m = numbers(head);
    ensure!(m.len() == size * size, "the matrix has {} entries", m.len());
    for i in 0..size {
        for j in 0..size {
            ensure!((m[i * size + j] == 0) == (i == j) && m[i * size + j] == m[j * size + i], "entry ({i},{j}) is {}, back {}", m[i * size + j], m[j * size + i]);
        }
    }
    let inst = Inst::from_fn(size, "given", |i, j| m[i * size + j] as f64);
    let paths: Vec<Vec<usize>> = out.lines().filter_map(|l| l.strip_prefix("Path:")).map(numbers).collect();
    let costs: Vec<f64> = out.lines().filter_map(|l| l.strip_prefix("Cost:")).filter_map(|l| l.trim().parse().ok()).collect();
    ensure!(paths.len() == size && costs.len() == size, "{} paths and {} costs", paths.len(), costs.len());
    for s in 0..size {
        greedy(&paths[s], costs[s], s, &inst, &format!("start {s}"))?;
    }
    let rust = out.lines().find(|l| l.trim_start().starts_with("let graph")).ok_or("no Rust form")?;
    check_rust(rust.trim(), &inst, "Rust form")
}

fn shrink_help(c: &Help) -> Vec<Help> {
    let mut v = vec![];
    if c.insts.len() + c.mains.len() > 1 {
        for i in 0..c.insts.len() {
            v.push(Help { insts: vec![c.insts[i].clone()], mains: vec![] });
        }
        for i in 0..c.mains.len() {
            v.push(Help { insts: vec![], mains: vec![c.mains[i]] });
        }
        return v;
    }
    for i in c.insts.iter().flat_map(|i| i.shrink(1, false)) {
        v.push(Help { insts: vec![i], mains: vec![] });
    }
    for &(s, n) in &c.mains {
        if n > 2 {
            v.push(Help { insts: vec![], mains: vec![(s, n - 1)] });
        }
    }
    v
}

fn run_rust_form(c: &Simple, cx: &mut Cx) -> CheckResult {
    cx.nontrivial_if(c.n >= 3);
    let dir = temp("simple");
    std::fs::create_dir_all(&dir).unwrap();
    let form = |f: &str| {
        let o = python(&dir, c.seed, c.narrow, "simple_gen.py", &[f.to_string(), c.n.to_string()])?;
        ensure!(o.code == Some(0), "simple_gen.py {f} {} ends with {:?}: {}", c.n, o.code, o.err);
        Ok(o.out)
    };
    let r = form("xml").and_then(|x| Ok((x, form(&c.format)?)));
    let _ = std::fs::remove_dir_all(&dir);
    let (xml, rust) = r?;
    let m = accept(&xml, c.n, "simple_gen.py xml")?;
    let got = read_rust(rust.trim())?;
    ensure!(got.len() == c.n, "{} cities instead of {}", got.len(), c.n);
    for (i, v) in got.iter().enumerate() {
        let mut to: Vec<usize> = v.iter().map(|e| e.0).collect();
        to.sort();
        ensure!(to == (0..c.n).filter(|&j| j != i).collect::<Vec<_>>(), "city {i} is connected to {to:?}");
        for &(j, x) in v {
            ensure!((x - m.get(i, j)).abs() <= 1e-15 * x, "the Rust form has the distance {x} from {i} to {j}, the XML form {}", m.get(i, j));
            ensure!(got[j].iter().any(|e| e.0 == i && e.1 == x), "the Rust form has the distance {x} from {i} to {j}, but not back");
        }
    }
    Ok(())
}

fn helper_props() -> Prop {
    Prop {
        id: "P23",
        assumptions: vec![
            "numpy prints the matrices it is asked to print; the helpers are called through the functions and main programs they have today",
            "simple_gen.py is run with a stand-in for the python_tsp library, whose answer it does not use for its output",
        ],
        subs: vec![
            Box::new(Sub::<Help> {
                name: "helpers",
                rule: "6 matrices (31 families, n=1..14, some up to 60 or 130) through the tracer (every start), the XML and the Rust conversion, and 3 printed traces (2..30 cities, random seeds); against step-by-step greediness, path cost, and the matrix. Non-trivial: a matrix with n>=4",
                quick: 250,
                thorough: 6_000,
                threads: 0,
                gen: |g, i| Help {
                    insts: (0..6).map(|k| { let n = if i % 80 == 40 && k == 0 { g.range(80, 130) } else if i % 10 == 3 && k < 3 { g.range(15, 60) } else { g.range(1, 14) }; Inst::any(g, n) }).collect(),
                    mains: (0..3).map(|_| { let most = if g.chance(0.1) { 30 } else { 12 }; (g.u64() as u32, g.range(2, most)) }).collect(),
                },
                run: run_help,
                shrink: shrink_help,
            }),
            Box::new(Sub::<Simple> {
                name: "simple_gen_rust",
                rule: "the simple generator in Rust and in XML format with the same seed, n=2..25 (some up to 80): the same symmetric distances. Non-trivial: n>=3",
                quick: 60,
                thorough: 1_500,
                threads: 0,
                gen: |g, i| Simple { n: if i % 12 == 5 { g.range(26, 80) } else { g.range(2, 25) }, seed: g.u64() as u32, narrow: if i % 3 == 1 { g.range(1, 28) as u32 } else { 0 }, format: g.pick(&["rust", "RUST", "Rust"]).to_string() },
                run: run_rust_form,
                shrink: |c| if c.n > 2 { vec![Simple { n: 2, ..c.clone() }, Simple { n: c.n - 1, ..c.clone() }] } else { vec![] },
            }),
        ],
    }
}

pub fn props() -> Vec<Prop> {
    vec![helper_props(), Prop {
        id: "P20",
        assumptions: vec![
            "the random numbers of the generators are seeded by the harness; coinciding random points (probability about 1e-15) do not occur",
            "simple_gen.py is run with a stand-in for the python_tsp library, whose answer it does not use for its output",
        ],
        subs: vec![
            Box::new(Sub::<Fast> {
                name: "gen_matrix_fast",
                rule: "the generator program for n=2..40 (some up to 250, every 500th time 500..700) with random seeds, in a third of the cases with points that lie close together; document accepted, size, symmetry, triangle inequality. Non-trivial: n>=3",
                quick: 10_000,
                thorough: 200_000,
                threads: 0,
                gen: |g, i| Fast { n: if i % 500 == 77 { g.range(500, 700) } else if i % 100 == 9 { g.range(41, 250) } else if g.chance(0.3) { g.range(2, 5) } else { g.range(2, 40) }, seed: g.u64(), narrow: if i % 3 == 1 { g.range(1, 28) as u32 } else { 0 } },
                run: run_fast,
                shrink: |c| {
                    let mut v = if c.n > 2 { vec![Fast { n: 2, ..c.clone() }, Fast { n: c.n / 2 + 1, ..c.clone() }, Fast { n: c.n - 1, ..c.clone() }] } else { vec![] };
                    if c.narrow > 0 {
                        v.extend([0, c.narrow - 1].map(|narrow| Fast { narrow, ..c.clone() }));
                    }
                    v
                },
            }),
            Box::new(Sub::<Series> {
                name: "benchmark_gen",
                rule: "the benchmark series generator for 2<=from<=to<=16 (some up to 45, every 120th time up to 140) with random seeds, in a third of the cases with points that lie close together, with and without an earlier result folder; one accepted file per size, smaller ones are restrictions. Non-trivial: from<to, to>=3",
                quick: 250,
                thorough: 6_000,
                threads: 0,
                gen: |g, i| {
                    let to = if i % 120 == 60 { g.range(101, 140) } else if i % 25 == 9 { g.range(17, 45) } else { g.range(2, 16) };
                    Series { from: if g.chance(0.2) { to } else if to > 100 { g.range(to - 4, to) } else { g.range(2, to) }, to, seed: g.u64() as u32, narrow: if i % 3 == 1 { g.range(1, 28) as u32 } else { 0 }, stale: g.chance(0.3) }
                },
                run: run_series,
                shrink: |c| {
                    let mut v = vec![];
                    if c.from < c.to {
                        v.push(Series { from: c.from + 1, ..c.clone() });
                        if c.to > 2 {
                            v.push(Series { to: c.to - 1, ..c.clone() });
                        }
                    }
                    if c.narrow > 0 {
                        v.extend([0, c.narrow - 1].map(|narrow| Series { narrow, ..c.clone() }));
                    }
                    if c.stale {
                        v.push(Series { stale: false, ..c.clone() });
                    }
                    v
                },
            }),
            Box::new(Sub::<Simple> {
                name: "simple_gen",
                rule: "the simple generator in XML format for n=2..25 (some up to 80) with random seeds, in a third of the cases with points that lie close together. Non-trivial: n>=3",
                quick: 120,
                thorough: 3_000,
                threads: 0,
                gen: |g, i| Simple { n: if i % 12 == 5 { g.range(26, 80) } else { g.range(2, 25) }, seed: g.u64() as u32, narrow: if i % 3 == 1 { g.range(1, 28) as u32 } else { 0 }, format: g.pick(&["xml", "XML", "Xml"]).to_string() },
                run: run_simple,
                shrink: |c| if c.n > 2 { vec![Simple { n: 2, ..c.clone() }, Simple { n: c.n - 1, ..c.clone() }] } else { vec![] },
            }),
        ],
    }]
}
