#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../driver.rs"]
mod driver;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../props/transfo.rs"]
mod transfo;

fn main() {
    let mut v = vec![];
    v.extend(transfo::props());
    driver::drive(v)
}
