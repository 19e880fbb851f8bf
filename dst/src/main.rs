//! Deterministic simulation of instant-xml: see /verif/DESIGN.md.
#![allow(dead_code)]

mod alloc;
mod hooks;
mod known;
mod model;
mod props;
mod runner;
mod sim;
mod xml;
mod zoo;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    sim::install_panic_hook();
    std::process::exit(runner::main());
}
