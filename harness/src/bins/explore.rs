#![allow(dead_code)]
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[macro_use]
#[path = "../common.rs"]
mod common;
#[path = "../cli.rs"]
mod cli;
#[path = "../driver.rs"]
mod driver;
#[path = "../imp.rs"]
mod imp;
#[path = "../sem.rs"]
mod sem;
#[path = "../term.rs"]
mod term;
#[path = "../text.rs"]
mod text;
#[path = "../props/explore.rs"]
mod explore;

fn main() {
    let mut v = vec![];
    v.extend(explore::props());
    driver::drive(v)
}
