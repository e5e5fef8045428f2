#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../cli.rs"]
mod cli;
#[path = "../driver.rs"]
mod driver;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../text.rs"]
mod text;
#[path = "../props/io.rs"]
mod io;

fn main() {
    let mut v = vec![];
    v.extend(io::props());
    driver::drive(v)
}
