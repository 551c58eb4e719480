#![allow(deprecated)]
//! Command line of the simulator.
//!   patsim check ID [--tier quick|thorough] [--runs N]   explore, shrink, report
//!   patsim replay FILE                                   re-run a recorded failure
//!   patsim digests ID N                                  one digest per seed
//!   patsim worker ID BASE FIRST STRIDE COUNT / shrink ID SEED FILE   (internal)
mod drive;
mod jconc;
mod jmodel;
mod jnet;
mod jrestore;
mod jstore;
mod jworld;
mod net;
mod pmem;
mod pmodel;
mod pnet;
mod props;
mod psim;
mod pworld;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(drive::run(&a[1..]));
}
