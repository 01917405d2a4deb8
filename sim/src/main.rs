//! Deterministic simulation of substrate-parser. See /verif/DESIGN.md.
mod alloc;
mod driver;
mod findings;
mod gen;
mod mem;
mod meta;
mod minimise;
mod model;
mod narrow;
mod ops;
mod oracle;
mod prng;
mod props;
mod solo;

#[global_allocator]
static ALLOC: alloc::Capped = alloc::Capped;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
