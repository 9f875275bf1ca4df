//! C09 round trip, C10 latest/cleanup, C11 crash while saving, C12 damaged files
use crate::ck::*;
use crate::ensure;
use crate::fw::*;
use globalsearch::checkpoint::{CheckpointError, CheckpointManager, read_checkpoint_file};
use globalsearch::types::{CheckpointConfig, OQNLPCheckpoint};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn manager(dir: &Path, name: &str, keep_all: bool) -> Result<CheckpointManager, String> {
    CheckpointManager::new(CheckpointConfig {
        checkpoint_dir: dir.to_path_buf(),
        checkpoint_name: name.into(),
        save_frequency: 1,
        keep_all,
        auto_resume: false,
    })
    .map_err(|e| e.to_string())
}
fn same_ck(what: &str, a: &OQNLPCheckpoint, b: &OQNLPCheckpoint) -> Result<(), String> {
    match diff_flat(&flat(a, true), &flat(b, true)) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: saved and loaded state differ: {d}")),
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.sub(
        "roundtrip",
        "an arbitrary state with arbitrary bit patterns in every floating-point field is saved and loaded through all three readers; non-trivial when it has a solution set, remembered solutions and reference points",
        ctx.n(60000, 2000000),
        || (ck_spec(60), any::<bool>(), prop_oneof![Just("run"), Just("a b"), Just("x.y"), Just("ü"), Just("oqnlp_checkpoint")].prop_map(|s| s.to_string())).boxed(),
        |(s, keep, name): &(CkSpec, bool, String)| {
            let k = s.build();
            let dir = ctx.tmp();
            let m = manager(&dir.0.join("sub/deep"), name, *keep)?;
            ensure!(!m.checkpoint_exists(), "a checkpoint exists before any save");
            let p = m.save_checkpoint(&k, s.iteration).map_err(|e| format!("save: {e}"))?;
            ensure!(m.checkpoint_exists(), "no checkpoint exists after a save");
            same_ck("latest", &k, &m.load_latest_checkpoint().map_err(|e| format!("load: {e}"))?)?;
            same_ck("path", &k, &m.load_checkpoint_from_path(&p).map_err(|e| format!("load path: {e}"))?)?;
            same_ck("reader", &k, &read_checkpoint_file(&p).map_err(|e| format!("read: {e}"))?)?;
            // cloning a state is exact as well
            same_ck("clone", &k, &k.clone())?;
            Ok(Info::nt(s.n_set.unwrap_or(0) > 0 && s.n_found > 0 && s.n_ref > 0)
                .label(true, ["lbfgs", "neldermead", "steepest", "trust", "newtoncg", "cobyla"][s.solver as usize % 6]))
        },
    );
    ctx.sub(
        "large",
        "states with reference sets of up to 20000 points; non-trivial when the file exceeds 1 MB",
        ctx.n(40, 600),
        || (ck_spec(10), 5_000usize..20_000).boxed(),
        |(s, n): &(CkSpec, usize)| {
            let mut s = s.clone();
            s.n_ref = *n;
            s.dim = 5;
            let k = s.build();
            let dir = ctx.tmp();
            let m = manager(&dir.0, "big", false)?;
            let p = m.save_checkpoint(&k, 1).map_err(|e| format!("save: {e}"))?;
            same_ck("latest", &k, &m.load_latest_checkpoint().map_err(|e| format!("load: {e}"))?)?;
            Ok(Info::nt(std::fs::metadata(p).map(|m| m.len() > 100_000).unwrap_or(false)))
        },
    );
}

// ---- C10 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Save { name: u8, keep: bool, iter: u32 },
    /// many saves of consecutive iterations
    Burst { name: u8, iter: u32, count: u16 },
    Cleanup { name: u8, keep: bool, n: u16 },
    Noise { kind: u8, name: u8 },
    Reopen,
}
// (in single-file mode `run_7` is saved as `run_7.bin`)
const NAMES: [&str; 7] = ["run", "run_b", "other", "run_b_long", "run_7", "run_b_000", "r"];

fn ops() -> BoxedStrategy<Vec<Op>> {
    let it = prop_oneof![
        4 => 0u32..8,
        2 => 8u32..120,
        1 => prop_oneof![Just(999_998u32), Just(999_999), Just(1_000_000), Just(1_000_001), Just(9_999_999), Just(10_000_000), Just(4_000_000_000)],
    ];
    prop::collection::vec(
        prop_oneof![
            60 => (0u8..7, any::<bool>(), it).prop_map(|(name, keep, iter)| Op::Save { name, keep: keep || iter % 3 == 0, iter }),
            20 => (0u8..7, prop::bool::weighted(0.8), prop_oneof![6 => 1u16..5, 1 => 5u16..400, 1 => Just(u16::MAX)]).prop_map(|(name, keep, n)| Op::Cleanup { name, keep, n }),
            20 => (0u8..12, 0u8..7).prop_map(|(kind, name)| Op::Noise { kind, name }),
            10 => Just(Op::Reopen),
            1 => (0u8..7, prop_oneof![Just(0u32), 0u32..1_000_300], 20u16..300).prop_map(|(name, iter, count)| Op::Burst { name, iter, count }),
        ],
        1..40,
    )
    .boxed()
}

pub fn c10(ctx: &Ctx) {
    ctx.sub(
        "directory",
        "a sequence of saves under several names and modes, cleanups and unrelated files in one directory, compared with a model after every step; non-trivial when a cleanup removed something or three or more saves went to one archive",
        ctx.n(8000, 300000),
        ops,
        |ops: &Vec<Op>| {
            let tmp = ctx.tmp();
            let dir = tmp.0.as_path();
            let spec = CkSpec {
                solver: 5,
                line: 0,
                ints: vec![1],
                floats: vec![0],
                dim: 1,
                n_set: None,
                n_ref: 0,
                n_found: 0,
                flags: 0,
                stamp: String::new(),
                iteration: 0,
            };
            let mut archive: BTreeMap<u8, BTreeMap<u32, u64>> = BTreeMap::new();
            let mut single: BTreeMap<u8, u64> = BTreeMap::new();
            let mut noise: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            let mut dirs: BTreeSet<String> = BTreeSet::new();
            let (mut removed, mut n_saves) = (0, 0u64);
            for op in ops {
                match op {
                    Op::Save { name, keep, iter } => {
                        n_saves += 1;
                        let mut s = spec.clone();
                        s.ints = vec![n_saves];
                        s.iteration = *iter as usize;
                        let k = s.build();
                        manager(dir, NAMES[*name as usize], *keep)?
                            .save_checkpoint(&k, *iter as usize)
                            .map_err(|e| format!("save: {e}"))?;
                        if *keep {
                            archive.entry(*name).or_default().insert(*iter, n_saves);
                        } else {
                            single.insert(*name, n_saves);
                        }
                    }
                    Op::Burst { name, iter, count } => {
                        let m = manager(dir, NAMES[*name as usize], true)?;
                        for i in 0..*count as u32 {
                            n_saves += 1;
                            let mut s = spec.clone();
                            s.ints = vec![n_saves];
                            s.iteration = (iter + i) as usize;
                            m.save_checkpoint(&s.build(), s.iteration).map_err(|e| format!("save: {e}"))?;
                            archive.entry(*name).or_default().insert(iter + i, n_saves);
                        }
                    }
                    Op::Cleanup { name, keep, n } => {
                        manager(dir, NAMES[*name as usize], *keep)?
                            .cleanup_old_checkpoints(*n as usize)
                            .map_err(|e| format!("cleanup: {e}"))?;
                        if *keep {
                            let a = archive.entry(*name).or_default();
                            while a.len() > *n as usize {
                                a.pop_first();
                                removed += 1;
                            }
                        }
                    }
                    Op::Noise { kind, name } => {
                        let n = NAMES[*name as usize];
                        let f = match kind {
                            0 => format!("{n}_notes.txt"),
                            1 => format!("{n}_.bin"),
                            2 => format!("{n}_abc.bin"),
                            3 => format!("{n}_000424242.bin.bak"),
                            4 => format!("{n}_424242.txt"),
                            5 => format!("{n}_424242.bin.tmp"),
                            6 => format!("x{n}_500000.bin"),
                            7 if n.ends_with(|c: char| c.is_ascii_digit()) => format!("{n}x500000.bin"),
                            7 => format!("{n}500000.bin"),
                            9 => format!("{n}_424242.bin~"),
                            10 => format!("{n}_+424242.bin"),
                            8 => format!("{}_700000.bin", n.to_uppercase()),
                            _ => {
                                let d = format!("{n}_dir");
                                std::fs::create_dir_all(dir.join(&d)).map_err(|e| e.to_string())?;
                                dirs.insert(d);
                                continue;
                            }
                        };
                        let body = format!("unrelated {f}").into_bytes();
                        std::fs::write(dir.join(&f), &body).map_err(|e| e.to_string())?;
                        noise.insert(f, body);
                    }
                    Op::Reopen => {}
                }
                // the files are exactly the expected ones
                let mut have = BTreeSet::new();
                for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
                    have.insert(e.map_err(|e| e.to_string())?.file_name().to_string_lossy().to_string());
                }
                for (f, body) in &noise {
                    ensure!(std::fs::read(dir.join(f)).is_ok_and(|b| b == *body), "the unrelated file {f} was touched by {op:?}");
                    have.remove(f);
                }
                for d in &dirs {
                    ensure!(have.remove(d), "the directory {d} is gone after {op:?}");
                }
                let want: usize = single.len() + archive.values().map(|a| a.len()).sum::<usize>();
                ensure!(have.len() == want, "after {op:?} there are {have:?}, expected {want} checkpoint files");
                for name in 0..NAMES.len() as u8 {
                    for keep in [false, true] {
                        let m = manager(dir, NAMES[name as usize], keep)?;
                        let expect = if keep {
                            archive.get(&name).and_then(|a| a.last_key_value()).map(|(i, v)| (Some(*i), *v))
                        } else {
                            single.get(&name).map(|v| (None, *v))
                        };
                        ensure!(
                            m.checkpoint_exists() == expect.is_some(),
                            "{} (keep_all {keep}): existence is reported as {} after {op:?}",
                            NAMES[name as usize],
                            m.checkpoint_exists()
                        );
                        match (m.load_latest_checkpoint(), expect) {
                            (Ok(k), Some((it, v))) => {
                                ensure!(
                                    k.params.seed == v && it.is_none_or(|i| i as usize == k.current_iteration),
                                    "{} (keep_all {keep}): loaded save number {} (iteration {}) instead of {v} ({it:?}) after {op:?}",
                                    NAMES[name as usize],
                                    k.params.seed,
                                    k.current_iteration
                                );
                            }
                            (Err(CheckpointError::CheckpointNotFound { .. }), None) => {}
                            (Ok(k), None) => return Err(format!("loaded iteration {} although nothing was saved under {}", k.current_iteration, NAMES[name as usize])),
                            (Err(e), _) => return Err(format!("{} (keep_all {keep}): loading fails after {op:?}: {e}", NAMES[name as usize])),
                        }
                    }
                }
            }
            Ok(Info::nt(removed > 0 || archive.values().any(|a| a.len() >= 3))
                .label(removed > 0, "cleanup removed")
                .label(!noise.is_empty(), "unrelated files")
                .label(archive.values().any(|a| a.len() > 64), "more than 64 files")
                .label(archive.values().any(|a| a.keys().any(|k| *k > 999_999)), "7-digit iteration")
                .label(archive.values().any(|a| a.contains_key(&0)), "iteration 0"))
        },
    );
}

// ---- C11 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CrashCase {
    keep: bool,
    old: Vec<(u32, CkSpec)>,
    new: (u32, CkSpec),
    /// which file operation is hit; 0 fail, 1 die before, 2 die in the middle, 3 die after
    at: u8,
    kind: u8,
    errno: u8,
}
#[derive(Serialize, Deserialize)]
struct SaveJob {
    dir: PathBuf,
    keep: bool,
    iter: u32,
    spec: CkSpec,
}

/// child: save one checkpoint with the fault armed, report through the exit code
pub fn child_save(args: &[String]) -> i32 {
    let job: SaveJob = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("job")).expect("job json");
    let k = job.spec.build();
    let m = manager(&job.dir, "run", job.keep).expect("manager");
    let arm: Option<extern "C" fn(i32)> = unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, c"fault_arm".as_ptr());
        if p.is_null() { None } else { Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn(i32)>(p)) }
    };
    let count: Option<extern "C" fn() -> i64> = unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, c"fault_count".as_ptr());
        if p.is_null() { None } else { Some(std::mem::transmute::<*mut libc::c_void, extern "C" fn() -> i64>(p)) }
    };
    let (Some(arm), Some(count)) = (arm, count) else { return 99 };
    arm(1);
    let r = m.save_checkpoint(&k, job.iter as usize);
    let n = count();
    arm(0);
    println!("{n}");
    if r.is_ok() { 0 } else { 10 }
}

pub fn c11(ctx: &Ctx) {
    let lib = std::env::var("VH_FAULT_LIB").unwrap_or_else(|_| "/verif/target/libfault.so".into());
    let exe = std::env::current_exe().expect("exe");
    ctx.assume("a crash is modelled as the process ending at, inside or after any file operation (write, open for writing, rename, unlink, sync, truncate, link) made during the save; loss of operating-system buffers in a power failure is not modelled");
    ctx.sub(
        "fault",
        "a save hit by an error or a crash at a chosen file operation after a history of saves; non-trivial when the fault was reached and a previous checkpoint existed",
        ctx.n(6000, 120000),
        || {
            (
                any::<bool>(),
                prop::collection::vec((0u32..20, ck_spec(40)), 0..4),
                (0u32..30, ck_spec(60)),
                (prop_oneof![8 => 0u8..5, 1 => 5u8..9], 0u8..4, prop_oneof![Just(28u8), Just(5), Just(27), Just(13)]),
            )
                .prop_map(|(keep, old, new, (at, kind, errno))| CrashCase { keep, old, new, at, kind, errno })
                .boxed()
        },
        |c: &CrashCase| {
            let tmp = ctx.tmp();
            let dir = tmp.0.join("ck");
            let m = manager(&dir, "run", c.keep)?;
            let mut best: Option<(u32, OQNLPCheckpoint)> = None;
            for (it, s) in &c.old {
                let k = s.build();
                m.save_checkpoint(&k, *it as usize).map_err(|e| format!("save: {e}"))?;
                if !c.keep || best.as_ref().is_none_or(|b| *it >= b.0) {
                    best = Some((*it, k));
                }
            }
            let job = tmp.0.join("job.json");
            std::fs::write(&job, serde_json::to_string(&SaveJob { dir: dir.clone(), keep: c.keep, iter: c.new.0, spec: c.new.1.clone() }).unwrap()).map_err(|e| e.to_string())?;
            let out = Command::new(&exe)
                .args(["child", "save"])
                .arg(&job)
                .env("LD_PRELOAD", &lib)
                .env("FAULT_DIR", &dir)
                .env("FAULT_AT", c.at.to_string())
                .env("FAULT_KIND", c.kind.to_string())
                .env("FAULT_ERRNO", c.errno.to_string())
                .stderr(Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let code = out.status.code();
            let ops: Option<i64> = String::from_utf8_lossy(&out.stdout).trim().parse().ok();
            let what = match code {
                Some(0) => "saved",
                Some(10) => "failed",
                Some(77) => "crashed",
                _ => return Err(format!("the saving process ended with {:?} (is the fault library there?)", out.status)),
            };
            let new = c.new.1.build();
            // which states may be found now
            let wins = !c.keep || best.as_ref().is_none_or(|b| c.new.0 >= b.0);
            let same = |a: &OQNLPCheckpoint, b: &OQNLPCheckpoint| diff_flat(&flat(a, true), &flat(b, true)).is_none();
            let desc = format!("save {what} with a fault of kind {} at operation {} (errno {})", c.kind, c.at, c.errno);
            let got = m.load_latest_checkpoint();
            match (&got, &best) {
                (Ok(k), _) => {
                    let is_new = wins && same(k, &new);
                    let is_old = best.as_ref().is_some_and(|b| same(k, &b.1));
                    let must_new = what == "saved" && wins;
                    ensure!(if must_new { is_new } else { is_new || is_old }, "{desc}: the latest checkpoint is neither the complete old nor the complete new state (old {is_old}, new {is_new})");
                }
                (Err(CheckpointError::CheckpointNotFound { .. }), None) => ensure!(what != "saved", "{desc}: nothing can be loaded"),
                (Err(e), Some(_)) => return Err(format!("{desc}: the previous checkpoint cannot be loaded any more: {e}")),
                (Err(e), None) => return Err(format!("{desc}: loading fails: {e}")),
            }
            ensure!(m.checkpoint_exists() == got.is_ok(), "{desc}: existence is reported wrongly");
            // an archive keeps all its other members whole
            if c.keep {
                let mut last: BTreeMap<u32, OQNLPCheckpoint> = BTreeMap::new();
                for (it, s) in &c.old {
                    last.insert(*it, s.build());
                }
                for (it, k) in &last {
                    if *it == c.new.0 {
                        continue;
                    }
                    let p = dir.join(format!("run_{it:06}.bin"));
                    ensure!(read_checkpoint_file(&p).is_ok_and(|x| same(&x, k)), "{desc}: the checkpoint of iteration {it} was damaged");
                }
            }
            // and saving works again afterwards
            let mut s2 = c.new.1.clone();
            s2.stamp = "again".into();
            let k2 = s2.build();
            let it2 = 1000;
            m.save_checkpoint(&k2, it2).map_err(|e| format!("{desc}: a later save fails: {e}"))?;
            ensure!(m.load_latest_checkpoint().is_ok_and(|k| same(&k, &k2)), "{desc}: a later save is not found");
            let hit = what != "saved" || ops.is_some_and(|n| n > c.at as i64);
            Ok(Info::nt(hit && best.is_some()).label(true, what).label(hit && what == "saved", "survived the fault"))
        },
    );
}

// ---- C12 -----------------------------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Damage {
    Truncate(u16),
    Flip(Vec<(u16, u8)>),
    Set(u16, Vec<u8>),
    /// overwrite 8 bytes with a length
    Len(u16, u64),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Random(Vec<u8>),
    Append(Vec<u8>),
    Swap(u16, u16, u8),
}
fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        2 => any::<u16>().prop_map(Damage::Truncate),
        3 => prop::collection::vec((any::<u16>(), 0u8..8), 1..4).prop_map(Damage::Flip),
        2 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..9)).prop_map(|(a, b)| Damage::Set(a, b)),
        4 => (any::<u16>(), prop_oneof![Just(u64::MAX), Just(1 << 40), Just(1 << 32), Just(1 << 31), Just(50_000_000), Just(1_000_000), Just(65_536), 0u64..64])
            .prop_map(|(a, b)| Damage::Len(a, b)),
        1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 1..40)).prop_map(|(a, b)| Damage::Insert(a, b)),
        1 => (any::<u16>(), 1u8..40).prop_map(|(a, b)| Damage::Delete(a, b)),
        1 => prop::collection::vec(prop_oneof![3 => any::<u8>(), 2 => Just(0u8), 1 => Just(255u8)], 0..400).prop_map(Damage::Random),
        1 => prop::collection::vec(any::<u8>(), 1..30).prop_map(Damage::Append),
        1 => (any::<u16>(), any::<u16>(), 1u8..17).prop_map(|(a, b, n)| Damage::Swap(a, b, n)),
    ]
    .boxed()
}
fn apply(d: &Damage, v: &mut Vec<u8>) {
    let at = |a: u16, n: usize| a as usize % n.max(1);
    match d {
        Damage::Truncate(a) => {
            let n = at(*a, v.len() + 1);
            v.truncate(n)
        }
        Damage::Flip(f) => {
            for (a, b) in f {
                let n = v.len();
                if n > 0 {
                    v[at(*a, n)] ^= 1 << b;
                }
            }
        }
        Damage::Set(a, b) => {
            let i = at(*a, v.len());
            for (k, x) in b.iter().enumerate() {
                if i + k < v.len() {
                    v[i + k] = *x;
                }
            }
        }
        Damage::Len(a, l) => {
            // most length fields of the format are 8-byte aligned to something small: try any offset
            let i = at(*a, v.len());
            for (k, x) in l.to_le_bytes().iter().enumerate() {
                if i + k < v.len() {
                    v[i + k] = *x;
                }
            }
        }
        Damage::Insert(a, b) => {
            let i = at(*a, v.len() + 1);
            v.splice(i..i, b.iter().cloned());
        }
        Damage::Delete(a, n) => {
            let i = at(*a, v.len());
            let e = (i + *n as usize).min(v.len());
            v.drain(i..e);
        }
        Damage::Random(b) => *v = b.clone(),
        Damage::Append(b) => v.extend(b),
        Damage::Swap(a, b, n) => {
            for k in 0..*n as usize {
                let l = v.len();
                if l > 0 {
                    v.swap((*a as usize + k) % l, (*b as usize + k) % l);
                }
            }
        }
    }
}

struct Reader {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Reader {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static READER: RefCell<Option<Reader>> = const { RefCell::new(None) };
}
/// child: read checkpoint files named on stdin under a memory limit
pub fn child_read() -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 768 << 20, rlim_max: 768 << 20 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return 0 };
        let (how, path) = line.split_once(' ').unwrap();
        let path = PathBuf::from(path);
        let back = path.with_extension("back");
        let r = std::panic::catch_unwind(|| -> Result<(), String> {
            let k = if how == "reader" {
                read_checkpoint_file(&path)
            } else {
                let m = manager(path.parent().unwrap(), "run", false)?;
                if how == "latest" { m.load_latest_checkpoint() } else { m.load_checkpoint_from_path(&path) }
            };
            match k {
                Ok(k) => {
                    // write it back: what was read must be what the file says
                    let bdir = back.with_extension("d");
                    let m = manager(&bdir, "b", false)?;
                    let p = m.save_checkpoint(&k, 0).map_err(|e| e.to_string())?;
                    std::fs::rename(p, &back).map_err(|e| e.to_string())?;
                    Ok(())
                }
                Err(e) => Err(e.to_string()),
            }
        });
        let ans = match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => format!("err {}", e.replace('\n', " ")),
            Err(_) => "panic".to_string(),
        };
        println!("{ans}");
        let _ = std::io::stdout().flush();
    }
    0
}
fn read_in_child(how: &str, path: &Path) -> Result<String, String> {
    READER.with(|r| {
        let mut r = r.borrow_mut();
        if r.is_none() {
            let mut child = Command::new(std::env::current_exe().unwrap())
                .args(["child", "read"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| e.to_string())?;
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            *r = Some(Reader { child, inp, out });
        }
        let rd = r.as_mut().unwrap();
        let sent = writeln!(rd.inp, "{how} {}", path.display());
        let mut line = String::new();
        let got = rd.out.read_line(&mut line);
        if sent.is_err() || got.is_err() || line.is_empty() {
            let st = rd.child.wait();
            *r = None;
            return Err(format!("the reading process died: {st:?}"));
        }
        Ok(line.trim().to_string())
    })
}

pub fn c12(ctx: &Ctx) {
    ctx.assume("memory is bounded by an address-space limit of 768 MB on the reading process");
    ctx.sub(
        "damage",
        "an encoded state with one to three random damages, or arbitrary bytes, read in a memory-limited process; non-trivial when the bytes differ from the valid encoding",
        ctx.n(60000, 3000000),
        || (ck_spec(30), prop::collection::vec(damage(), 0..4), 0u8..3).boxed(),
        |(s, ds, how): &(CkSpec, Vec<Damage>, u8)| {
            let tmp = ctx.tmp();
            let m = manager(&tmp.0, "run", false)?;
            let p = m.save_checkpoint(&s.build(), 0).map_err(|e| e.to_string())?;
            let valid = std::fs::read(&p).map_err(|e| e.to_string())?;
            let mut bytes = valid.clone();
            for d in ds {
                apply(d, &mut bytes);
            }
            std::fs::write(&p, &bytes).map_err(|e| e.to_string())?;
            let how = ["reader", "latest", "path"][*how as usize % 3];
            let ans = read_in_child(how, &p).map_err(|e| format!("{e} on {} damaged bytes", bytes.len()))?;
            let mut after = vec![];
            std::fs::File::open(&p).and_then(|mut f| f.read_to_end(&mut after)).map_err(|e| format!("the file is gone: {e}"))?;
            ensure!(after == bytes, "reading modified the file");
            ensure!(ans != "panic", "reading panics");
            if ans == "ok" {
                let back = std::fs::read(p.with_extension("back")).map_err(|e| format!("write back: {e}"))?;
                ensure!(bytes.starts_with(&back), "the state read from {} bytes encodes to {} other bytes", bytes.len(), back.len());
            } else {
                ensure!(bytes != valid, "a valid file is refused: {ans}");
                ensure!(!ans.contains("not found"), "a damaged file is reported as missing");
            }
            Ok(Info::nt(bytes != valid).label(ans == "ok" && bytes != valid, "still a valid state").label(ans != "ok", "refused"))
        },
    );
    ctx.sub(
        "missing",
        "missing files, directories and unusual paths; non-trivial always",
        ctx.n(200, 2000),
        || (0u8..6, any::<bool>()).boxed(),
        |(k, keep): &(u8, bool)| {
            let tmp = ctx.tmp();
            let m = manager(&tmp.0.join("d"), "run", *keep)?;
            let p = match k {
                0 => tmp.0.join("nothing.bin"),
                1 => tmp.0.join("no/such/dir/x.bin"),
                2 => PathBuf::new(),
                3 => tmp.0.join("d"),
                4 => {
                    std::fs::write(tmp.0.join("f"), b"").map_err(|e| e.to_string())?;
                    tmp.0.join("f")
                }
                _ => tmp.0.join("x".repeat(300)),
            };
            for r in [m.load_checkpoint_from_path(&p), read_checkpoint_file(&p)] {
                match r {
                    Ok(_) => return Err(format!("a state was read from {p:?}")),
                    Err(CheckpointError::CheckpointNotFound { path }) => {
                        ensure!(!p.exists(), "an existing path is reported as missing");
                        ensure!(path == p, "the error names {path:?} instead of {p:?}");
                    }
                    Err(_) => ensure!(p.exists(), "a missing file is not reported as not found"),
                }
            }
            ensure!(matches!(m.load_latest_checkpoint(), Err(CheckpointError::CheckpointNotFound { .. })), "an empty directory has a latest checkpoint");
            ensure!(!m.checkpoint_exists(), "an empty directory has a checkpoint");
            Ok(Info::nt(true))
        },
    );
}
