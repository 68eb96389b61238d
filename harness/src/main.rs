#![allow(dead_code)]
//! Property-based testing harness for the `ntfs` crate. See /verif/DESIGN.md.
mod alloc_track;
mod disk;
mod enc;
#[macro_use]
mod engine;
mod api;
mod guided;
mod props;
mod runner;
mod vol;
mod world;

#[global_allocator]
static GLOBAL: alloc_track::Counting = alloc_track::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(args));
}
