#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../driver.rs"]
mod driver;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../imp.rs"]
mod imp;
#[path = "../props/semantics.rs"]
mod semantics;

fn main() {
    let mut v = vec![];
    v.extend(semantics::props());
    driver::drive(v)
}
