#![allow(dead_code, unused_imports)]
use globalsearch::local_solver::builders::*;
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::{Array1, Array2, array};

fn fail(msg: &str) -> ! {
    println!("FAILED: {msg}");
    std::process::exit(1)
}
