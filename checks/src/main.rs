mod affinity;
mod cli;
mod doc;
mod parse;
mod sched;
mod approx;
mod common;
mod exact;
mod gens;
mod history;
mod matrix;
mod meta;
mod miri;
mod trees;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let [_, mode, file] = &args[..] {
        if mode == "history" {
            std::process::exit(history::child(file));
        }
    }
    let mut props = vec![];
    props.extend(exact::props());
    props.extend(trees::props());
    props.extend(approx::props());
    props.extend(parse::props());
    props.extend(cli::props());
    props.extend(gens::props());
    props.extend(matrix::props());
    props.extend(meta::props());
    props.extend(history::props());
    std::process::exit(engine::main(props));
}
