//! Black-box checks: the public API and the commands only.
mod build_ops;
mod cli;
mod cnfops;
mod dimacs;
mod dump;
mod env;
mod faults;
mod header;
mod local;
mod options;
mod proof;
mod report;
mod solve;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[0] == options::PROBE {
        return options::probe();
    }
    if let [_, x, name, chunk] = &a[..]
        && x == "fingerprints"
    {
        return env::fingerprints(name, chunk.parse().unwrap());
    }
    mc::engine::main(|| {
        let mut v = Vec::new();
        v.extend(solve::props());
        v.extend(proof::props());
        v.extend(dimacs::props());
        v.extend(cli::props());
        v.extend(env::props());
        v.extend(cnfops::props());
        v.extend(build_ops::props());
        v.extend(dump::props());
        v.extend(faults::props());
        v.extend(report::props());
        v.extend(header::props());
        v.extend(options::props());
        v.extend(local::props());
        v
    });
}
