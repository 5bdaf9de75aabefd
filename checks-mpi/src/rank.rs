//! One MPI process: makes one call into the library and prints what it returned.
mod job;
#[path = "../../checks/src/common.rs"]
#[allow(dead_code)]
mod common;

use job::*;
use mpi::topology::SystemCommunicator;
use mpi::traits::*;
use walky::computation_mode::MPI_COMPUTATION as MPI;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::{approx_min_cost_matching, bootstrap_mpi_matching_calc, mpi_improve_matching};
use walky::solvers::approximate::nearest_neighbour::{n_nearest_neighbour, nearest_neighbour, nearest_neighbour_mpi};
use walky::solvers::exact;

/// what processes other than 0 do while process 0 improves a matching, see `approx_run` in walky
fn follow() -> Vec<[usize; 2]> {
    let world = SystemCommunicator::world();
    let root = world.process_at_rank(0);
    let mut tries = 0;
    let (mut matching, graph) = bootstrap_mpi_matching_calc(&root, &mut [], world.rank(), &mut tries, &NAMatrix::from_dim(1));
    mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
    matching
}

fn main() {
    let mut arg = std::env::args().nth(1).unwrap();
    if let Some(file) = arg.strip_prefix('@') {
        arg = std::fs::read_to_string(file).unwrap();
    }
    let t: Task = serde_json::from_str(&arg).unwrap();
    let m = common::na(&t.inst);
    let tour = |(c, p): (f64, Vec<usize>)| Answer::Tour(c, p);
    let answer = match &t.job {
        Job::Static(k) => tour(exact::static_mpi_solver_generic(&m, *k)),
        Job::StaticDefault => tour(exact::static_mpi_solver(&m)),
        Job::Dynamic => tour(exact::dynamic_mpi_solver(&m)),
        Job::NearestNeighbour => {
            if t.inst.n % 2 == 0 {
                tour(nearest_neighbour::<MPI>(&m))
            } else {
                tour(nearest_neighbour_mpi(&m))
            }
        }
        Job::SomeStarts(k) => tour(n_nearest_neighbour::<MPI>(&m, *k)),
        Job::OneTree => {
            let b = walky::one_tree::one_tree_lower_bound::<MPI>(&m);
            Answer::Bound(b.is_finite().then_some(b))
        }
        Job::Mst => {
            let g = walky::mst::prim::<MPI>(&m);
            Answer::Tree(g.iter().map(|v| v.iter().map(|e| (e.to, e.cost)).collect()).collect())
        }
        Job::Christofides => {
            let _universe = mpi::initialize().unwrap();
            if SystemCommunicator::world().rank() == 0 {
                tour(christofides::<MPI>(&m))
            } else {
                follow();
                Answer::Nothing
            }
        }
        Job::Matching(initial, tries) => {
            let _universe = mpi::initialize().unwrap();
            let world = SystemCommunicator::world();
            if world.rank() == 0 {
                let mut matching = initial.clone();
                mpi_improve_matching(&m, &mut matching, *tries, world);
                Answer::Matching(matching)
            } else {
                Answer::Matching(follow())
            }
        }
        Job::ApproxMatching(vs, tries) => {
            let _universe = mpi::initialize().unwrap();
            if SystemCommunicator::world().rank() == 0 {
                Answer::Matching(approx_min_cost_matching::<MPI>(&m, vs.clone(), *tries))
            } else {
                Answer::Matching(follow())
            }
        }
    };
    println!("{MARK}{}", serde_json::to_string(&answer).unwrap());
}
