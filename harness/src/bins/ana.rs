#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../driver.rs"]
mod driver;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../props/analysis.rs"]
mod analysis;

fn main() {
    let mut v = vec![];
    v.extend(analysis::props());
    driver::drive(v)
}
