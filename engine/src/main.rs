#![allow(unused)]
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_public_bridge;
extern crate rustc_hir;
mod expr; mod prove; mod state; mod interp; mod exec; mod models; mod ob; mod ck_kernel;
mod ck_pack; mod ck_macro; mod ck_misc; mod job;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::ops::ControlFlow;
use interp::*;
use expr::*;
use state::*;

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let is = args.iter().any(|a| a == "matrixmultiply") && args.iter().any(|a| a == "lib") ;
    if !is {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    if let Ok(d) = std::env::var("MMSA_DUMP") {
        let envs: Vec<String> = std::env::vars().filter(|(k, _)| k.starts_with("CARGO") || k == "OUT_DIR").map(|(k, v)| format!("{}:{}", ob::js(&k), ob::js(&v))).collect();
        let av: Vec<String> = args.iter().map(|a| ob::js(a)).collect();
        std::fs::write(&d, format!("{{\"args\":[{}],\"cwd\":{},\"env\":{{{}}}}}", av.join(","), ob::js(&std::env::current_dir().unwrap().display().to_string()), envs.join(","))).expect("write");
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let job = std::env::var("MMSA_JOB").is_ok();
    args.push("-Zmir-opt-level=1".into());
    let r: Result<(), _> = rustc_public::run_with_tcx!(args.as_slice(), |tcx| { let tcx: interp::Tcx = unsafe { std::mem::transmute(tcx) }; run(tcx); if job { std::process::exit(0); } ControlFlow::<(), ()>::Continue(()) });
    if r.is_err() { std::process::exit(1); }
}
fn run(tcx: Tcx) {
    if let (Ok(j), Ok(o)) = (std::env::var("MMSA_JOB"), std::env::var("MMSA_OUT")) {
        let t = std::time::Instant::now();
        let mut r = job::run(tcx, &j);
        r.stats.insert("time ms".into(), t.elapsed().as_millis() as i128);
        std::fs::write(&o, r.json()).expect("write");
    }
    if let Ok(t) = std::env::var("MMSA_TEST") { dev::test(tcx, &t); }
}
mod dev;
