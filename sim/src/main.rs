#![allow(deprecated)]
extern crate alloc;
mod abi;
mod agree;
mod c;
mod core;
mod engine;
mod f;
mod host;
mod exit;
mod idx;
mod json;
mod m;
mod model;
mod rng;
mod run;
fn main() {
    std::process::exit(run::main());
}
