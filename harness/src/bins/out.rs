#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../cli.rs"]
mod cli;
#[path = "../driver.rs"]
mod driver;
#[path = "../imp.rs"]
mod imp;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../text.rs"]
mod text;
#[path = "../props/explore.rs"]
mod explore;
#[path = "../props/out.rs"]
mod out;
#[path = "../props/exp.rs"]
mod exp;

fn main() {
    let mut v = vec![];
    v.extend(out::props());
    v.extend(exp::props());
    driver::drive(v)
}
