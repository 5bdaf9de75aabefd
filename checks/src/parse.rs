//! P13, P14
use crate::doc::{notation, Doc};
use engine::{ensure, guarded, CheckResult, Cx, Gen, Inst, Prop, Sub};
use serde::{Deserialize, Serialize};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};
use walky::parser::TravellingSalesmanProblemInstance as Tsp;

fn run_read(d: &Doc, cx: &mut Cx) -> CheckResult {
    let n = d.vertices.len();
    cx.label(if d.style == 0 { "plain_layout" } else { "varied_layout" });
    cx.nontrivial_if(n >= 3 && d.style != 0);
    let text = d.text();
    let t = match guarded(|| Tsp::parse_from_xml(&text)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("rejected with {e}:\n{text}")),
        Err(e) => return Err(format!("rejected with {e}:\n{text}")),
    };
    let word = |got: &str, want: &str, what: &str| -> CheckResult {
        ensure!(got == want, "the {what} is {got:?}, should be {want:?}:\n{text}");
        Ok(())
    };
    word(&t.name, &d.name, "name")?;
    word(&t.source, &d.source, "source")?;
    word(&t.description, &d.description, "description")?;
    word(&t.double_precision.to_string(), &d.double_precision.to_string(), "double precision")?;
    word(&t.ignored_digits.to_string(), &d.ignored_digits.to_string(), "number of ignored digits")?;
    ensure!(t.graph.num_vertices() == n, "{} vertices instead of {n}:\n{text}", t.graph.num_vertices());
    let mut want = vec![vec![0.0f64; n]; n];
    for (i, v) in d.vertices.iter().enumerate() {
        let got: Vec<(usize, f64)> = t.graph[i].iter().map(|e| (e.to, e.cost)).collect();
        let exp: Vec<(usize, f64)> = v.iter().map(|(to, c)| (*to, c.parse::<f64>().unwrap())).collect();
        ensure!(got == exp, "vertex {i} has the edges {got:?} instead of {exp:?}:\n{text}");
        for (j, c) in exp {
            want[i][j] = c;
        }
    }
    let a: NAMatrix = (&t.graph).into();
    let b = VecMatrix::from(t.graph.clone());
    ensure!(a.dim() == n && b.dim() == n, "matrix dimension {} and {} for {n} vertices", a.dim(), b.dim());
    for i in 0..n {
        for j in 0..n {
            ensure!(a.get(i, j) == want[i][j], "NAMatrix entry ({i},{j}) is {} instead of {}", a.get(i, j), want[i][j]);
            ensure!(b.get(i, j) == want[i][j], "VecMatrix entry ({i},{j}) is {} instead of {}", b.get(i, j), want[i][j]);
        }
    }
    Ok(())
}

fn shrink_doc(d: &Doc) -> Vec<Doc> {
    let mut v = vec![];
    if d.style != 0 {
        for s in [0, 1, 3, 5, 7] {
            if s < d.style {
                v.push(Doc { style: s, ..d.clone() });
            }
        }
    }
    let n = d.vertices.len();
    if n > 2 {
        for c in (0..n).rev() {
            let mut x = d.clone();
            x.vertices.remove(c);
            for vs in x.vertices.iter_mut() {
                vs.retain(|e| e.0 != c);
                for e in vs.iter_mut() {
                    if e.0 > c {
                        e.0 -= 1;
                    }
                }
            }
            v.push(x);
        }
    }
    for w in ["name", "source", "description"] {
        let mut x = d.clone();
        let f = match w {
            "name" => &mut x.name,
            "source" => &mut x.source,
            _ => &mut x.description,
        };
        if f != "a" {
            *f = "a".into();
            v.push(x);
        }
    }
    if d.double_precision > 1 {
        v.push(Doc { double_precision: 1, ..d.clone() });
    }
    if d.ignored_digits > 1 {
        v.push(Doc { ignored_digits: 1, ..d.clone() });
    }
    // costs
    for i in 0..n {
        for j in 0..i {
            for t in ["1", "2.5"] {
                let mut x = d.clone();
                let mut changed = false;
                for (a, b) in [(i, j), (j, i)] {
                    for e in x.vertices[a].iter_mut() {
                        if e.0 == b && e.1 != t && e.1 != "1" {
                            e.1 = t.into();
                            changed = true;
                        }
                    }
                }
                if changed {
                    v.push(x);
                }
            }
        }
    }
    // sort the edges
    let mut x = d.clone();
    let mut changed = false;
    for vs in x.vertices.iter_mut() {
        let before: Vec<usize> = vs.iter().map(|e| e.0).collect();
        vs.sort_by_key(|e| e.0);
        changed |= before != vs.iter().map(|e| e.0).collect::<Vec<_>>();
    }
    if changed {
        v.push(x);
    }
    v
}

// ---- P14

#[derive(Clone, Serialize, Deserialize)]
pub struct Bad {
    pub fault: String,
    pub text: String,
}

pub const STRUCTURAL: &[&str] = &[
    "drop_edge", "drop_both_directions", "duplicate_edge", "extra_duplicate", "self_loop", "extra_self_loop",
    "out_of_range", "far_out_of_range", "one_direction_cost", "one_ulp", "nan", "drop_vertex", "empty_vertex",
    "swap_targets", "many_costs", "sign", "dup_and_loop", "circulant",
];
pub const TEXTUAL: &[&str] = &[
    "truncate", "drop_field", "wrong_end_tag", "bad_cost", "bad_target", "no_cost", "drop_bracket", "bad_precision",
    "drop_quote", "empty", "no_graph", "not_xml",
];

/// A document that must be rejected, made from a valid one by the named fault.
pub fn corrupt(g: &mut Gen, fault: &str, n: usize) -> Bad {
    // distances: distinct, so that swapping matters
    let kind = *g.pick(&["uniform", "euclid", "int_big", "int_small", "equal"]);
    let inst = Inst::new(n, kind, g.u64());
    let mut d = Doc::describe(g, &inst, false);
    if g.bool() {
        d = Doc::plain(&inst);
    }
    let text = |d: &Doc| Bad { fault: fault.into(), text: d.text() };
    let v = g.below(n);
    let e = g.below(n - 1);
    let to = d.vertices[v][e].0;
    let set = |d: &mut Doc, i: usize, j: usize, t: String| {
        for x in d.vertices[i].iter_mut() {
            if x.0 == j {
                x.1 = t.clone();
            }
        }
    };
    match fault {
        "drop_edge" => {
            d.vertices[v].remove(e);
        }
        "drop_both_directions" => {
            d.vertices[v].remove(e);
            d.vertices[to].retain(|x| x.0 != v);
        }
        "duplicate_edge" => {
            // replaces another edge of the vertex, so that their number stays right
            if n < 3 {
                let c = d.vertices[v][e].clone();
                d.vertices[v].push(c);
            } else {
                let f = (e + 1 + g.below(n - 2)) % (n - 1);
                let keep_cost = g.bool();
                d.vertices[v][f].0 = to;
                if keep_cost {
                    d.vertices[v][f].1 = d.vertices[v][e].1.clone();
                }
            }
        }
        "extra_duplicate" => {
            let c = d.vertices[v][e].clone();
            let at = g.range(0, n - 1);
            d.vertices[v].insert(at, c);
        }
        "self_loop" => {
            let c = if g.bool() { "0".to_string() } else { d.vertices[v][e].1.clone() };
            d.vertices[v][e] = (v, c);
        }
        "extra_self_loop" => {
            // a full matrix, diagonal included
            let all = g.bool();
            for i in 0..n {
                if all || i == v {
                    let at = g.range(0, n - 1);
                    d.vertices[i].insert(at, (i, "0".into()));
                }
            }
        }
        "dup_and_loop" => {
            let c = d.vertices[v][e].1.clone();
            d.vertices[v].push((v, c));
        }
        "circulant" => {
            // right number of edges everywhere, symmetric, but one pair of vertices has loops instead
            d.vertices[v][e].0 = v;
            for x in d.vertices[to].iter_mut() {
                if x.0 == v {
                    x.0 = to;
                }
            }
        }
        "out_of_range" => d.vertices[v][e].0 = n,
        "far_out_of_range" => d.vertices[v][e].0 = *g.pick(&[n + 1, 2 * n + 7, 1 << 40, usize::MAX]),
        "one_direction_cost" => {
            let x = inst.d(v, to);
            let f = *g.pick(&[1.0, 0.5, 1e-3, 1e3]);
            d.vertices[v][e].1 = notation(g, x + f);
        }
        "one_ulp" => {
            let x = inst.d(v, to).max(1e-300);
            let y = f64::from_bits(x.to_bits() + 1);
            d.vertices[v][e].1 = format!("{y:e}");
            set(&mut d, to, v, format!("{x:e}"));
        }
        "many_costs" => {
            // a directed instance: every connection differs between its directions
            for i in 0..n {
                for x in d.vertices[i].iter_mut() {
                    if x.0 < i {
                        let y = inst.d(i, x.0) + 1.0 + g.below(3) as f64;
                        x.1 = notation(g, y);
                    }
                }
            }
        }
        "sign" => {
            let x = inst.d(v, to) + 1.0;
            d.vertices[v][e].1 = format!("{x}");
            set(&mut d, to, v, format!("-{x}"));
        }
        "nan" => {
            d.vertices[v][e].1 = "NaN".into();
            if g.bool() {
                set(&mut d, to, v, "NaN".into());
            }
        }
        "drop_vertex" => {
            d.vertices.remove(v);
        }
        "empty_vertex" => {
            if g.bool() {
                d.vertices.push(vec![]);
            } else {
                d.vertices[v].clear();
            }
        }
        "swap_targets" => {
            // exchange two targets of one vertex whose costs differ
            if n < 3 || inst.d(v, to) == inst.d(v, d.vertices[v][(e + 1) % (n - 1)].0) {
                d.vertices[v].remove(e);
            } else {
                let f = (e + 1) % (n - 1);
                let t = d.vertices[v][f].0;
                d.vertices[v][f].0 = to;
                d.vertices[v][e].0 = t;
            }
        }
        _ => {
            let t = d.text();
            let t = match fault {
                "truncate" => {
                    let end = t.find("</graph>").unwrap() + "</graph>".len();
                    let mut k = g.range(0, end - 1);
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t[..k].to_string()
                }
                "drop_field" => {
                    let d2 = Doc { style: 0, ..d };
                    let t = d2.text();
                    let f = *g.pick(&["name", "source", "description", "doublePrecision", "ignoredDigits"]);
                    let a = t.find(&format!("<{f}>")).unwrap();
                    let b = t.find(&format!("</{f}>")).unwrap() + f.len() + 3;
                    format!("{}{}", &t[..a], &t[b..])
                }
                "wrong_end_tag" => {
                    // the plain layout has no comments, which could hold the chosen tag
                    let t = Doc { style: 0, ..d }.text();
                    let tags: Vec<usize> = t.match_indices("</").map(|x| x.0).collect();
                    let a = *g.pick(&tags[..tags.len() - 1]);
                    let b = a + t[a..].find('>').unwrap();
                    format!("{}</wrong{}", &t[..a], &t[b..])
                }
                "bad_cost" => {
                    d.vertices[v][e].1 = g.pick(&["", "abc", "1.2.3", "1,5", "0x10", "1e", "--1", "1 2"]).to_string();
                    d.text()
                }
                "bad_target" => {
                    let t = Doc { style: 0, ..d }.text();
                    let tags: Vec<usize> = t.match_indices("</edge>").map(|x| x.0).collect();
                    let b = *g.pick(&tags);
                    let a = t[..b].rfind('>').unwrap() + 1;
                    format!("{}{}{}", &t[..a], g.pick(&["x", "-1", "1.5", "1 2", "18446744073709551616", "1e0", ""]), &t[b..])
                }
                "no_cost" => {
                    let t = Doc { style: 0, ..d }.text();
                    let tags: Vec<usize> = t.match_indices("<edge cost=\"").map(|x| x.0).collect();
                    let a = *g.pick(&tags);
                    let b = a + t[a..].find('>').unwrap();
                    format!("{}<edge{}{}", &t[..a], g.pick(&["", " price=\"1\"", " Cost=\"1\""]), &t[b..])
                }
                "drop_bracket" => {
                    // only element brackets of the plain layout
                    let t = Doc { style: 0, ..Doc::plain(&inst) }.text();
                    let last = t.find("</travelling").unwrap();
                    let at: Vec<usize> = t[..last].match_indices(['<', '>']).map(|x| x.0).collect();
                    let a = *g.pick(&at);
                    format!("{}{}", &t[..a], &t[a + 1..])
                }
                "drop_quote" => {
                    let t = Doc { style: 0, ..Doc::plain(&inst) }.text();
                    let at: Vec<usize> = t.match_indices('"').map(|x| x.0).collect();
                    let a = *g.pick(&at);
                    format!("{}{}", &t[..a], &t[a + 1..])
                }
                "bad_precision" => {
                    let t = Doc { style: 0, ..d }.text();
                    let f = *g.pick(&["doublePrecision", "ignoredDigits"]);
                    let a = t.find(&format!("<{f}>")).unwrap() + f.len() + 2;
                    let b = t.find(&format!("</{f}>")).unwrap();
                    format!("{}{}{}", &t[..a], g.pick(&["", "x", "-1", "4294967296", "1.5"]), &t[b..])
                }
                "no_graph" => {
                    let t = Doc { style: 0, ..d }.text();
                    let a = t.find("<graph>").unwrap();
                    let b = t.find("</graph>").unwrap() + 8;
                    let r = *g.pick(&["", "<graph></graph>", "<graph/>"]);
                    format!("{}{r}{}", &t[..a], &t[b..])
                }
                "empty" => g.pick(&["", " ", "\n\n"]).to_string(),
                "not_xml" => g.pick(&["hello", "{\"name\": 1}", "<a/>", "<?xml version=\"1.0\"?>", "<travellingSalesmanProblemInstance/>", "NAME: berlin52\nTYPE: TSP\n", "\u{0}\u{1}\u{2}"]).to_string(),
                _ => panic!("unknown fault {fault}"),
            };
            return Bad { fault: fault.into(), text: t };
        }
    }
    text(&d)
}

pub fn gen_bad(g: &mut Gen, i: u64) -> Bad {
    let n = g.range(2, 7);
    gen_bad_of(g, i, n)
}

fn gen_bad_of(g: &mut Gen, i: u64, n: usize) -> Bad {
    let k = i as usize % (STRUCTURAL.len() + TEXTUAL.len());
    let fault = if k < STRUCTURAL.len() { STRUCTURAL[k] } else { TEXTUAL[k - STRUCTURAL.len()] };
    corrupt(g, fault, n)
}

fn run_reject(c: &Bad, cx: &mut Cx) -> CheckResult {
    cx.label(c.fault.clone());
    cx.nontrivial_if(true);
    if let Ok(Ok(t)) = guarded(|| Tsp::parse_from_xml(&c.text)) {
        return Err(format!("a document with the fault {:?} was accepted as {} vertices:\n{}", c.fault, t.graph.num_vertices(), c.text));
    }
    Ok(())
}

/// complete and undirected, from the definition
fn valid(g: &Graph) -> Result<(), String> {
    let n = g.num_vertices();
    let mut cost = vec![vec![None; n]; n];
    for i in 0..n {
        for e in g[i].iter() {
            if e.to >= n {
                return Err(format!("edge {i}->{} leads nowhere", e.to));
            }
            if e.to == i {
                return Err(format!("self loop at {i}"));
            }
            if cost[i][e.to].is_some() {
                return Err(format!("edge {i}->{} twice", e.to));
            }
            cost[i][e.to] = Some(e.cost);
        }
    }
    for i in 0..n {
        for j in 0..n {
            if i != j && cost[i][j].is_none() {
                return Err(format!("no edge {i}->{j}"));
            }
            if i != j && cost[i][j] != cost[j][i] {
                return Err(format!("edge {i}->{j} costs {:?}, back {:?}", cost[i][j], cost[j][i]));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Serialize, Deserialize)]
struct Mutant {
    bytes: String,
}

fn run_mutant(c: &Mutant, cx: &mut Cx) -> CheckResult {
    match guarded(|| Tsp::parse_from_xml(&c.bytes)) {
        Ok(Ok(t)) => {
            cx.label("accepted");
            cx.nontrivial_if(t.graph.num_vertices() >= 2);
            valid(&t.graph).map_err(|e| format!("accepted although {e}:\n{}", c.bytes))
        }
        Ok(Err(_)) => {
            cx.label("error");
            Ok(())
        }
        Err(_) => {
            cx.label("abort");
            cx.nontrivial_if(true);
            Ok(())
        }
    }
}

fn gen_mutant(g: &mut Gen) -> Mutant {
    let n = g.range(2, 5);
    let inst = Inst::new(n, *g.pick(&["int_small", "equal", "int_tiny", "uniform"]), g.u64());
    let mut b = if g.chance(0.7) { Doc::plain(&inst).text().into_bytes() } else { Doc::describe(g, &inst, false).text().into_bytes() };
    let start = b.windows(7).position(|w| w == b"<graph>").unwrap_or(0);
    for _ in 0..g.range(1, 4) {
        let pos = |g: &mut Gen, len: usize| if start < len && g.chance(0.9) { g.range(start, len) } else { g.range(0, len) };
        match g.below(6) {
            0 => {
                // replace a digit
                let at: Vec<usize> = (start.min(b.len())..b.len()).filter(|&i| b[i].is_ascii_digit()).collect();
                if !at.is_empty() {
                    let i = *g.pick(&at);
                    b[i] = b'0' + g.below(10) as u8;
                }
            }
            1 | 2 => {
                // lines: remove, double, exchange, move
                let mut lines: Vec<Vec<u8>> = b.split(|&c| c == b'\n').map(|l| l.to_vec()).collect();
                let edges: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].windows(5).any(|w| w == b"<edge")).collect();
                if !edges.is_empty() {
                    let i = *g.pick(&edges);
                    let j = *g.pick(&edges);
                    match g.below(4) {
                        0 => {
                            lines.remove(i);
                        }
                        1 => {
                            let l = lines[i].clone();
                            lines.insert(j, l);
                        }
                        2 => lines.swap(i, j),
                        _ => {
                            let l = lines[i].clone();
                            lines[j] = l;
                        }
                    }
                }
                b = lines.join(&b'\n');
            }
            3 => {
                let i = pos(g, b.len());
                if i < b.len() {
                    b[i] = *g.pick(b"0123456789.<>/\"'= e-+&xNn\n");
                }
            }
            4 => {
                let (i, j) = (pos(g, b.len()), pos(g, b.len()));
                let (i, j) = (i.min(j), i.max(j).min(i.min(j) + 60));
                let k = pos(g, b.len());
                let s = b[i..j].to_vec();
                b.splice(k..k, s);
            }
            _ => {
                let i = pos(g, b.len());
                let j = (i + g.range(0, 40)).min(b.len());
                b.drain(i..j);
            }
        }
    }
    Mutant { bytes: String::from_utf8_lossy(&b).into_owned() }
}

// predicates

#[derive(Clone, Serialize, Deserialize)]
struct Digraph {
    n: usize,
    edges: Vec<Vec<(usize, f64)>>,
}

fn run_predicates(c: &Digraph, cx: &mut Cx) -> CheckResult {
    let g = Graph::from(
        c.edges.iter().map(|v| v.iter().map(|&(to, cost)| Edge { to, cost }).collect::<Vec<_>>()).collect::<Vec<_>>(),
    );
    let n = c.n;
    let multi = c.edges.iter().any(|v| (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0)));
    let loops = c.edges.iter().enumerate().any(|(i, v)| v.iter().any(|e| e.0 == i));
    let has = |i: usize, j: usize| c.edges[i].iter().any(|e| e.0 == j);
    let complete = (0..n).all(|i| (0..n).all(|j| i == j || has(i, j)));
    let differs = (0..n).any(|i| c.edges[i].iter().any(|a| c.edges[a.0].iter().any(|b| b.0 == i && b.1 != a.1)));
    let one_way = (0..n).any(|i| c.edges[i].iter().any(|a| !has(a.0, i)));
    cx.nontrivial_if(n >= 3);
    for (b, l) in [(multi, "multi_edge"), (loops, "self_loop"), (complete, "complete"), (differs, "different_costs"), (one_way, "one_way")] {
        if b {
            cx.label(l);
        }
    }
    let m = walky::preconditions::is_multi_edge(&g);
    ensure!(m == multi, "is_multi_edge says {m} for {:?}", c.edges);
    if !multi && !loops {
        let f = walky::preconditions::is_fully_connected(&g);
        ensure!(f == complete, "is_fully_connected says {f} for {:?}", c.edges);
    }
    if !multi && !one_way {
        let u = walky::preconditions::is_undirected(&g);
        ensure!(u != differs, "is_undirected says {u} for {:?}", c.edges);
    }
    if !multi && differs {
        ensure!(!walky::preconditions::is_undirected(&g), "is_undirected says true for {:?}", c.edges);
    }
    let holds = Tsp { name: "".into(), source: "".into(), description: "".into(), double_precision: 0, ignored_digits: 0, graph: g.clone() }
        .do_conditions_hold();
    let ok = valid(&g);
    ensure!(holds == ok.is_ok(), "do_conditions_hold says {holds} for {:?}, but {ok:?}", c.edges);
    Ok(())
}

fn gen_digraph(g: &mut Gen, n: usize) -> Digraph {
    let vals = g.range(1, 3);
    let inst = Inst::from_fn(n, "d", |_, _| g.range(1, vals) as f64);
    let mut edges: Vec<Vec<(usize, f64)>> =
        (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| (j, inst.d(i, j))).collect()).collect();
    for v in edges.iter_mut() {
        if g.chance(0.3) {
            g.shuffle(v);
        }
    }
    for _ in 0..g.below(4) {
        let v = g.below(n);
        let k = edges[v].len();
        match g.below(6) {
            0 if k > 0 => {
                let e = g.below(k);
                edges[v].remove(e);
            }
            1 if k > 0 => {
                let e = g.below(k);
                let c = &mut edges[v][e].1;
                *c = match g.below(4) {
                    0 => *c + 1.0,
                    1 => f64::from_bits(c.to_bits() + 1),
                    2 => *c * (1.0 + 1e-10),
                    _ => *c + 1e-7,
                };
            }
            2 if k > 0 => {
                let e = g.below(k);
                edges[v][e].0 = g.below(n);
            }
            3 => {
                let at = g.range(0, k);
                let to = g.below(n);
                edges[v].insert(at, (to, g.range(1, vals) as f64));
            }
            4 if k > 0 => {
                let e = g.below(k);
                let to = edges[v].remove(e).0;
                edges[to].retain(|x| x.0 != v);
            }
            _ => {
                let at = g.range(0, k);
                edges[v].insert(at, (v, 0.0));
            }
        }
    }
    Digraph { n, edges }
}

fn shrink_digraph(c: &Digraph) -> Vec<Digraph> {
    let mut v = vec![];
    for r in 0..c.n {
        if c.n > 1 {
            let mut edges = c.edges.clone();
            edges.remove(r);
            for vs in edges.iter_mut() {
                vs.retain(|e| e.0 != r);
                for e in vs.iter_mut() {
                    if e.0 > r {
                        e.0 -= 1;
                    }
                }
            }
            v.push(Digraph { n: c.n - 1, edges });
        }
    }
    for i in 0..c.n {
        for k in 0..c.edges[i].len() {
            let mut x = c.clone();
            x.edges[i].remove(k);
            v.push(x);
            if c.edges[i][k].1 != 1.0 {
                let mut x = c.clone();
                x.edges[i][k].1 = 1.0;
                v.push(x);
            }
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            assumptions: vec![
                "texts have no leading or trailing white space (the XML library trims them) and use the predefined and numeric entities only",
                "the nearest double of a decimal text is what Rust's own parser gives",
            ],
            subs: vec![
                Box::new(Sub::<Doc> {
                    name: "read",
                    rule: "random instance with n=2..9 written by an independent writer in a random layout (white space, comments, declaration, document type, byte order mark, CDATA, processing instructions, quoting, entities, edge order, number notation with up to 30 digits). Non-trivial: n>=3 and not the plain layout",
                    quick: 600_000,
                    thorough: 3_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = size(g, 2, 9);
                        let inst = Inst::any(g, n);
                        let free = g.bool();
                        Doc::describe(g, &inst, free)
                    },
                    run: run_read,
                    shrink: shrink_doc,
                }),
                Box::new(Sub::<Doc> {
                    name: "read_large",
                    rule: "as read with n=10..60",
                    quick: 6_000,
                    thorough: 30_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(10, 60);
                        let inst = Inst::any(g, n);
                        let free = g.bool();
                        Doc::describe(g, &inst, free)
                    },
                    run: run_read,
                    shrink: shrink_doc,
                }),
                Box::new(Sub::<Doc> {
                    name: "read_huge",
                    rule: "as read with n=61..260 (every 60th time 1025..1040)",
                    quick: 120,
                    thorough: 1_500,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 60 == 7 { g.range(1025, 1040) } else { g.range(61, 260) };
                        let inst = Inst::any(g, n);
                        let free = g.bool();
                        Doc::describe(g, &inst, free)
                    },
                    run: run_read,
                    shrink: shrink_doc,
                }),
            ],
        },
        Prop {
            id: "P14",
            assumptions: vec!["an abort (assertion) while reading counts as a rejection"],
            subs: vec![
                Box::new(Sub::<Bad> {
                    name: "reject",
                    rule: "valid random document (n=2..7) with one of 18 structural or 12 textual faults, each of which must be rejected. Every case is non-trivial",
                    quick: 600_000,
                    thorough: 5_000_000,
                    threads: 0,
                    gen: gen_bad,
                    run: run_reject,
                    shrink: |_| vec![],
                }),
                Box::new(Sub::<Mutant> {
                    name: "mutate",
                    rule: "valid document with 1..4 random edits of bytes, digits, lines or fragments; if it is accepted, the graph read must be complete and undirected. Non-trivial: accepted, or rejected by the precondition test",
                    quick: 1_000_000,
                    thorough: 8_000_000,
                    threads: 0,
                    gen: |g, _| gen_mutant(g),
                    run: run_mutant,
                    shrink: |c| {
                        let lines: Vec<&str> = c.bytes.split('\n').collect();
                        (0..lines.len())
                            .map(|i| {
                                let mut l = lines.clone();
                                l.remove(i);
                                Mutant { bytes: l.join("\n") }
                            })
                            .collect()
                    },
                }),
                Box::new(Sub::<Digraph> {
                    name: "predicates",
                    rule: "complete graph with n=1..7 and up to 3 random edits (edges dropped, added, redirected, doubled, self loops, changed costs); the predicates against their definitions. Non-trivial: n>=3",
                    quick: 1_000_000,
                    thorough: 10_000_000,
                    threads: 0,
                    gen: |g, _| {
                        let n = g.range(1, 7);
                        gen_digraph(g, n)
                    },
                    run: run_predicates,
                    shrink: shrink_digraph,
                }),
                Box::new(Sub::<Digraph> {
                    name: "predicates_large",
                    rule: "as predicates with n=8..80 (every 1000th time 257..300, every 2000th time 1030..1100)",
                    quick: 20_000,
                    thorough: 200_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if i % 1000 == 7 { g.range(257, 300) } else if i % 2000 == 1500 { g.range(1030, 1100) } else if g.chance(0.8) { g.range(8, 24) } else { g.range(25, 80) };
                        gen_digraph(g, n)
                    },
                    run: run_predicates,
                    shrink: shrink_digraph,
                }),
                Box::new(Sub::<Bad> {
                    name: "reject_large",
                    rule: "as reject with n=8..60, some 257..320",
                    quick: 20_000,
                    thorough: 200_000,
                    threads: 0,
                    gen: |g, i| {
                        let n = if g.chance(0.8) { g.range(8, 20) } else if g.chance(0.01) { g.range(257, 320) } else { g.range(21, 60) };
                        gen_bad_of(g, i, n)
                    },
                    run: run_reject,
                    shrink: |_| vec![],
                }),
                Box::new(Sub::<Bad> {
                    name: "reject_cli",
                    rule: "as reject, through the command line tool with a random command: failure status and no result on standard output",
                    quick: 20_000,
                    thorough: 100_000,
                    threads: 0,
                    gen: gen_bad,
                    run: crate::cli::run_reject_cli,
                    shrink: |_| vec![],
                }),
                Box::new(Sub::<crate::cli::Bytes> {
                    name: "reject_bytes",
                    rule: "valid document (n=2..6) with a byte sequence that is not UTF-8 in a name, number, between tags or anywhere, or in UTF-16 without a mark, given to the command line tool: failure status and no result. Non-trivial: the bytes are not UTF-8",
                    quick: 4_000,
                    thorough: 40_000,
                    threads: 0,
                    gen: crate::cli::gen_bytes,
                    run: crate::cli::run_bytes,
                    shrink: |_| vec![],
                }),
            ],
        },
    ]
}

use crate::common::size;
