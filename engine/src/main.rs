#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
mod big;
mod exec;
mod intrin;
mod ir;
mod mem;
mod report;
mod solver;
mod stubs;
mod term;
use rustc_public::mir::mono::Instance;
use std::ops::ControlFlow;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let want = std::env::var("MIRSYM_ENTRY").unwrap_or_default();
    let out = std::env::var("MIRSYM_OUT").unwrap_or("/dev/stdout".into());
    let r: Result<(), _> = rustc_public::run_with_tcx!(&args, |_tcx| {
        let child = std::thread::Builder::new();
        let _ = child;
        report::main(&want, &out);
        ControlFlow::<(), ()>::Break(())
    });
    if !std::path::Path::new(&out).exists() {
        eprintln!("{:?}", r.is_ok());
        std::process::exit(3);
    }
}
pub fn all_fns() -> Vec<Instance> {
    rustc_public::all_local_items().into_iter().filter_map(|it| Instance::try_from(it).ok()).collect()
}
