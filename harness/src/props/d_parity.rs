//! C08: parallel = sequential = builds with other features
use super::c_stage1::*;
use super::common::*;
use crate::ensure;
use crate::fw::*;
use crate::gen_::*;
use crate::model::*;
use crate::prob::*;
use proptest::prelude::*;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Server {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static SERVERS: RefCell<BTreeMap<String, Server>> = const { RefCell::new(BTreeMap::new()) };
}
fn ask(path: &str, what: &str, c: &RunCase) -> Value {
    SERVERS.with(|s| {
        let mut s = s.borrow_mut();
        let sv = s.entry(path.to_string()).or_insert_with(|| {
            let mut child = Command::new(path)
                .env("RAYON_NUM_THREADS", "4")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("parity server");
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            Server { child, inp, out }
        });
        writeln!(sv.inp, "{}", serde_json::to_string(&(what, c)).unwrap()).expect("send");
        let mut line = String::new();
        sv.out.read_line(&mut line).expect("receive");
        serde_json::from_str(&line).unwrap_or(Value::Null)
    })
}

/// name -> path of the builds with other features
fn variants() -> Vec<(String, String)> {
    std::env::var("VH_VARIANTS")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.split_once('='))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

pub fn c08(ctx: &Ctx) {
    let o = ROpt { target: true, p: POpt { odd_scales: true, ..PLAIN }, ..RUN };
    ctx.sub(
        "stage1",
        "Stage 1 with and without parallel processing; non-trivial when the population reaches the parallel evaluation threshold or custom points are given",
        ctx.n(20000, 500000),
        || prop_oneof![4 => wild_stage1(POpt { max_dim: 6, odd_scales: true, ..PLAIN }), 2 => stage1_case(POpt { cons: true, ..PLAIN })],
        |c: &RunCase| {
            let mut a = c.clone();
            a.parallel = true;
            let mut b = c.clone();
            b.parallel = false;
            let (p, q) = (Prob::new(&c.prob), Prob::new(&c.prob));
            match (stage1(&a, &p), stage1(&b, &q)) {
                (None, None) => Ok(Info::nt(false)),
                (Some(x), Some(y)) => {
                    ensure!(same_bits(&x.0, &y.0), "the reference sets differ: parallel {} sequential {}", show(&x.0), show(&y.0));
                    ensure!(same_vec(&x.1, &y.1), "the best candidates differ: {:?} and {:?}", x.1, y.1);
                    ensure!(sorted(&p.log.points()) == sorted(&q.log.points()), "the evaluated points differ");
                    Ok(Info::nt(c.pop >= 20 || !c.custom.is_empty()).label(c.custom.len() >= 100, "100+ custom"))
                }
                (x, _) => Err(format!("Stage 1 {} in parallel but not sequentially", if x.is_some() { "succeeds" } else { "fails" })),
            }
        },
    );
    ctx.sub(
        "batch1",
        "a run with batch size 1 (or 0), in parallel mode, and with parallelism off; non-trivial when Stage 2 did something",
        ctx.n(10000, 250000),
        || (prop_oneof![2 => run_case(o), 3 => rich_case(o), 1 => run_case(ROpt { p: POpt { cons: true, ..PLAIN }, ..o })], 0usize..2).boxed(),
        |(c, b): &(RunCase, usize)| {
            let mut x = c.clone();
            x.parallel = true;
            x.batch = Some(*b);
            let mut y = c.clone();
            y.parallel = false;
            let (a, b) = (outcome(&x, 0), outcome(&y, 0));
            compare("batch size 1 and parallelism off", &a, &b, false)?;
            // a batch size without parallelism means nothing
            let mut z = y.clone();
            z.batch = None;
            compare("parallelism off with and without a batch size", &b, &outcome(&z, 0), true)?;
            Ok(Info::nt(a.log.len() > c.pop + 30))
        },
    );
    let vs = variants();
    if vs.is_empty() && !matches!(ctx.mode, Mode::Replay { .. }) && std::env::var("VH_SUB").is_err() {
        panic!("VH_VARIANTS is not set");
    }
    for (name, path) in &vs {
        let has_rayon = name.contains("rayon");
        let has_argmin = name.contains("argmin");
        ctx.sub(
            &format!("build-{name}"),
            "the same run in this build and in one with other features; non-trivial when the run made more than the Stage 1 evaluations",
            ctx.n(4000, 80000),
            || (prop_oneof![2 => run_case(ROpt { sequential_only: !has_rayon, ..o }), 3 => rich_case(ROpt { sequential_only: !has_rayon, ..o }), 1 => run_case(ROpt { sequential_only: !has_rayon, p: POpt { cons: true, ..PLAIN }, ..o }), 1 => stage1_case(PLAIN)], cobyla(), any::<bool>()).boxed(),
            |(c, cob, st): &(RunCase, Solver, bool)| {
                let mut c = c.clone();
                if !has_rayon {
                    c.parallel = false;
                    c.batch = None;
                }
                if !has_argmin {
                    c.solver = cob.clone();
                }
                let p = Prob::new(&c.prob);
                let (what, r): (&str, Result<Pts, String>) = if *st {
                    ("stage1", stage1(&c, &p).map(|(mut s, b)| { s.push((b, 0.0)); s }).ok_or("error".into()))
                } else {
                    ("run", c.optimizer(&p).run().map(|s| set_vec(&s)).map_err(|e| e.to_string()))
                };
                let v = ask(path, what, &c);
                ensure!(!v.is_null(), "the {name} build crashed");
                if p.log.ranaway() || v["ran"] == true {
                    return Ok(Info::nt(false));
                }
                let mine: Result<Vec<Vec<u64>>, String> =
                    r.map(|s| s.iter().map(|(x, f)| x.iter().chain([f]).map(|v| v.to_bits()).collect()).collect());
                let theirs: Result<Vec<Vec<u64>>, String> = serde_json::from_value(v["r"].clone()).map_err(|e| e.to_string())?;
                match (&mine, &theirs) {
                    (Ok(a), Ok(b)) => {
                        ensure!(a == b, "{what}: this build returns {} points, the {name} build {}; first difference at {:?}", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y));
                        let mut log: Vec<Vec<u64>> = p.log.points().iter().map(|(x, f)| x.iter().chain([f]).map(|v| v.to_bits()).collect()).collect();
                        log.sort();
                        let h = log.iter().flatten().fold(7u64, |h, v| (h ^ v).wrapping_mul(0x100000001b3));
                        ensure!(v["log"].as_u64() == Some(log.len() as u64) && v["hash"].as_u64() == Some(h), "{what}: the evaluated points differ ({} here, {} in the {name} build)", log.len(), v["log"]);
                    }
                    (Err(_), Err(e)) => ensure!(e != "panic", "the {name} build panics"),
                    _ => return Err(format!("{what}: this build {}, the {name} build {}", if mine.is_ok() { "succeeds" } else { "fails" }, if theirs.is_ok() { "succeeds".to_string() } else { format!("{theirs:?}") })),
                }
                Ok(Info::nt(p.log.obj() as usize > c.pop + 30))
            },
        );
    }
}
