//! Deterministic simulation of hcl-rs: seeded search over schedules, faults and histories.

mod accessors;
mod canon;
mod choice;
mod cli;
mod cx;
mod damage;
mod evalsim;
mod gen;
mod io;
mod known;
mod make;
mod model;
mod props;
mod routes;
mod runner;
mod sched;
mod owntypes;
mod serdesim;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
