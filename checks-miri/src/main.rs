//! The program that Miri interprets for P02 and P21 (see checks/src/miri.rs): it runs one multi-threaded
//! entry point of walky, prints what it returns, and leaves judging to the caller.
//!
//! arguments: entry point, workers, repetitions, n, the n(n-1)/2 distances (bits of the doubles in
//! hexadecimal digits, separated by commas), a list of numbers
use walky::computation_mode::PAR_COMPUTATION as PAR;
use walky::datastructures::{AdjacencyMatrix, Graph, NAMatrix};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::n_nearest_neighbour;

fn list<T>(s: &str, f: impl Fn(&str) -> T) -> Vec<T> {
    s.split(',').filter(|x| !x.is_empty()).map(f).collect()
}

fn show(xs: &[usize]) -> String {
    let v: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
    v.join(",")
}

fn edges(g: &Graph) -> String {
    let v: Vec<String> = (0..g.num_vertices())
        .flat_map(|i| g[i].iter().map(move |e| format!("{i}-{}-{:x}", e.to, e.cost.to_bits())))
        .collect();
    v.join(",")
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() < 6 {
        return;
    }
    let number = |i: usize| a[i].parse::<usize>().unwrap();
    let n = number(3);
    let bits = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
    let w = list(&a[4], bits);
    let mut m = NAMatrix::from_dim(n);
    let mut k = 0;
    for i in 0..n {
        m.set(i, i, 0.0);
        for j in i + 1..n {
            m.set(i, j, w[k]);
            m.set(j, i, w[k]);
            k += 1;
        }
    }
    let what = a[0].as_str();
    let points: Vec<[f64; 2]> = if what == "points" { list(&a[5], bits).chunks(2).map(|c| [c[0], c[1]]).collect() } else { vec![] };
    let xs: Vec<usize> = if what == "points" { vec![] } else { list(&a[5], |s| s.parse().unwrap()) };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(number(1)).build().unwrap();
    for _ in 0..number(2) {
        pool.install(|| match what {
            "exact" => {
                let (c, t) = walky::solvers::exact::threaded_solver(&m);
                println!("= {:x} {}", c.to_bits(), show(&t));
            }
            "mst" => println!("= {}", edges(&walky::mst::prim_with_excluded_node_multi_threaded(&m, &xs))),
            "one_tree" => println!("= {:x}", walky::one_tree::one_tree_lower_bound::<PAR>(&m).to_bits()),
            "neighbour" => {
                let (c, t) = n_nearest_neighbour::<PAR>(&m, xs[0]);
                println!("= {:x} {}", c.to_bits(), show(&t));
            }
            "matching" => {
                let v = approx_min_cost_matching::<PAR>(&m, xs[1..].to_vec(), xs[0]);
                println!("= {}", show(&v.into_iter().flatten().collect::<Vec<_>>()));
            }
            "christofides" => {
                let (c, t) = christofides::<PAR>(&m);
                println!("= {:x} {}", c.to_bits(), show(&t));
            }
            "points" => {
                let p = NAMatrix::par_from_points(&points);
                let v: Vec<String> = (0..p.dim()).flat_map(|i| (0..p.dim()).map(move |j| (i, j))).map(|(i, j)| format!("{:x}", p.get(i, j).to_bits())).collect();
                println!("= {}", v.join(","));
            }
            _ => unreachable!("{what}"),
        });
    }
    let mut k = 0;
    let mut same = m.dim() == n;
    for i in 0..n {
        for j in i + 1..n {
            same &= m.get(i, j).to_bits() == w[k].to_bits() && m.get(j, i).to_bits() == w[k].to_bits();
            k += 1;
        }
    }
    println!("{}", if same { "unchanged" } else { "changed" });
    // the workers are not worth waiting for
    std::mem::forget(pool);
}
