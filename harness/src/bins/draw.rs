#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../cli.rs"]
mod cli;
#[path = "../driver.rs"]
mod driver;
#[path = "../imp.rs"]
mod imp;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../text.rs"]
mod text;
#[path = "../props/analysis.rs"]
mod analysis;
#[path = "../props/explore.rs"]
mod explore;
#[path = "../props/draw.rs"]
mod draw;
#[path = "../props/out.rs"]
mod out;
#[path = "../props/repeat.rs"]
mod repeat;
#[path = "../props/aut.rs"]
mod aut;

fn main() {
    // no rendering of graphs in this process
    std::env::set_var("PATH", "");
    let mut v = vec![];
    v.extend(draw::props());
    v.extend(aut::props());
    v.extend(repeat::props());
    driver::drive(v)
}
