//! Running batches of simulated runs over worker processes, minimising and replaying violations.
//!
//! A batch is the runs `0..n` of one property under one seed; run `i` is decided by
//! `mix(seed, property, i)` alone. Shards only spread the work: results do not depend on them.

use crate::alloc::MEMORY_EXIT;
use crate::known;
use crate::props::{self, Env, Prop};
use crate::sim::{self, fnv, isolated, mix, take_panic, Check, FnvSet, Src, Violation};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs::{self, File};
use std::io::{BufWriter, Write as _};
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A run that burns this much CPU does not end by itself (runs take milliseconds).
const HANG_CPU: f64 = 20.0;
/// ... or sits still for this long.
const HANG_WALL: f64 = 90.0;
/// ... or sleeps for this long with all of its threads.
const STILL: f64 = 10.0;

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or_default();
    match arg(0) {
        "check" => check(&args[1..]),
        "worker" => worker(&args[1..]),
        "one" => one(&args[1..]),
        "seq" => seq(&args[1..]),
        "replay" => replay(arg(1)),
        "selftest" => selftest(&args[1..]),
        "selfcheck" => selfcheck(arg(1).parse().unwrap_or(500)),
        _ => {
            eprintln!("usage: dst check|replay|selftest|selfcheck ...");
            2
        }
    }
}

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .expect("harness")
        .to_owned()
}

fn prop(id: &str) -> Prop {
    props::props()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
}

fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    mix(&[seed, fnv(id.as_bytes()), run])
}

/// One simulated run: fresh thread, fresh hash seeds, everything else from the tape.
fn execute(prop: &Prop, env: &Env, src: &mut Src) -> Check {
    let hash_seed = src.raw();
    let run = prop.run;
    let src = &mut *src;
    let out = isolated(hash_seed, move || {
        crate::hooks::reset();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(env, src)));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(Violation {
                class: "panic".into(),
                detail: take_panic(),
            }),
        };
        src.stats.runs += 1;
        src.end_run();
        r
    });
    match out {
        Ok(r) => r,
        Err(_) => Err(Violation {
            class: "panic".into(),
            detail: "the run's thread died".into(),
        }),
    }
}

// Workers

fn num<T: std::str::FromStr>(args: &[String], i: usize) -> T {
    args.get(i).and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        eprintln!("bad argument {i}");
        std::process::exit(2)
    })
}

/// worker ID SEED RUNS SHARD SHARDS DIR DEADLINE DIGEST
fn worker(args: &[String]) -> i32 {
    let prop = prop(&args[0]);
    let (seed, runs, shard, shards): (u64, u64, u64, u64) =
        (num(args, 1), num(args, 2), num(args, 3), num(args, 4));
    let dir = PathBuf::from(&args[5]);
    let deadline: f64 = num(args, 6);
    let digest = args.get(7).is_some_and(|d| d == "digest");
    let env = Env::new();
    let state = File::create(dir.join(format!("state-{shard}"))).expect("harness: state file");
    let start = Instant::now();
    let mut stats = sim::Stats::default();
    let mut samples = Vec::new();
    let mut sum = 0u64;
    let mut found = None;
    let mut run = shard;
    while run < runs {
        let _ = state.write_all_at(format!("{run:020}").as_bytes(), 0);
        let mut src = Src::from_seed(run_seed(seed, prop.id, run));
        std::mem::swap(&mut src.stats, &mut stats);
        let sample = run / shards == 1 && shard < 6;
        src.tracing = digest || sample;
        let r = execute(&prop, &env, &mut src);
        std::mem::swap(&mut src.stats, &mut stats);
        if digest {
            let text = format!("{run} {:?} {:?} {r:?}", src.tape, src.trace);
            sum = sum.wrapping_add(fnv(text.as_bytes()));
        }
        if sample {
            samples.push(format!(
                "run {run}: {}",
                sim::clip_to(&src.trace.join(" | "), 1200)
            ));
        }
        if let Err(v) = r {
            found = Some((run, v));
            break;
        }
        run += shards;
        if start.elapsed().as_secs_f64() > deadline {
            break;
        }
    }
    let mut out = BufWriter::new(
        File::create(dir.join(format!("out-{shard}"))).expect("harness: output file"),
    );
    let mut w = |s: String| writeln!(out, "{s}").expect("harness: output file");
    w(format!("n\truns\t{}", stats.runs));
    w(format!("n\tevaluations\t{}", stats.evaluations));
    w(format!("n\tsteps\t{}", stats.steps));
    w(format!("n\tbytes\t{}", stats.bytes));
    w(format!("digest\t{sum}"));
    for (k, v) in &stats.faults {
        w(format!("f\t{k}\t{v}"));
    }
    for (k, v) in &stats.probes {
        w(format!("p\t{k}\t{v}"));
    }
    for (k, v) in &stats.shapes {
        w(format!("s\t{k}\t{v}"));
    }
    for s in &samples {
        w(format!("sample\t{}", esc(s)));
    }
    for d in &stats.distinct {
        w(format!("d\t{d:x}"));
    }
    for d in &stats.interleavings {
        w(format!("i\t{d:x}"));
    }
    if let Some((run, v)) = found {
        w(format!(
            "violation\t{run}\t{}\t{}",
            esc(&v.class),
            esc(&v.detail)
        ));
    }
    w("end".into());
    out.flush().expect("harness: output file");
    // Threads may have been left behind
    std::process::exit(0)
}

fn esc(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if c.is_control() => {
                let _ = write!(out, "\\u{{{:x}}}", c as u32);
            }
            c => out.push(c),
        }
    }
    out
}

#[derive(Default)]
struct Batch {
    n: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    shapes: BTreeMap<String, u64>,
    samples: Vec<String>,
    distinct: FnvSet,
    interleavings: FnvSet,
    digest: u64,
    /// First violation: run, class, detail
    found: Option<(u64, String, String)>,
    shards: u64,
}

impl Batch {
    fn n(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or_default()
    }
    fn found(&mut self, run: u64, class: &str, detail: &str) {
        if self.found.as_ref().map_or(true, |f| run < f.0) {
            self.found = Some((run, class.to_owned(), detail.to_owned()));
        }
    }
    fn read(&mut self, path: &Path) -> bool {
        let Ok(text) = fs::read_to_string(path) else {
            return false;
        };
        let mut ended = false;
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "n" => *self.n.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "f" => {
                    *self.faults.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0)
                }
                "p" => {
                    *self.probes.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0)
                }
                "s" => {
                    *self.shapes.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0)
                }
                "sample" => self.samples.push(f[1].into()),
                "d" => {
                    self.distinct
                        .insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                "i" => {
                    self.interleavings
                        .insert(u64::from_str_radix(f[1], 16).unwrap_or(0));
                }
                "digest" => self.digest = self.digest.wrapping_add(f[1].parse().unwrap_or(0)),
                "violation" => self.found(f[1].parse().unwrap_or(0), f[2], f[3]),
                "end" => ended = true,
                _ => {}
            }
        }
        ended
    }
}

/// A scratch directory of this process, removed at the end.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = std::env::temp_dir();
        for i in 0..1000 {
            let dir = base.join(format!("dst-{}-{i}", std::process::id()));
            if fs::create_dir(&dir).is_ok() {
                return Scratch(dir);
            }
        }
        eprintln!("cannot create a scratch directory");
        std::process::exit(2)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn this() -> Command {
    let exe = std::env::current_exe().expect("harness: own path");
    let mut c = Command::new(exe);
    c.stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    c
}

/// CPU seconds used by a child of ours.
fn cpu(child: &Child) -> f64 {
    let text = fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
    let Some((_, rest)) = text.rsplit_once(") ") else {
        return 0.0;
    };
    let f: Vec<&str> = rest.split(' ').collect();
    let get = |i: usize| f.get(i).and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.0);
    (get(11) + get(12)) / 100.0
}

/// Tells when a child of ours sleeps for good: over `STILL`, no CPU time used and no thread of it
/// seen running, runnable or waiting for the disk.
struct Still {
    used: f64,
    since: Instant,
}

impl Still {
    fn new() -> Self {
        Still {
            used: -1.0,
            since: Instant::now(),
        }
    }
    fn blocked(&mut self, child: &Child) -> bool {
        let used = cpu(child);
        let asleep = || {
            let tasks = fs::read_dir(format!("/proc/{}/task", child.id()));
            tasks.into_iter().flatten().flatten().all(|t| {
                let stat = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
                stat.rsplit_once(") ")
                    .is_none_or(|(_, rest)| rest.starts_with('S'))
            })
        };
        if used != self.used || !asleep() {
            *self = Still {
                used,
                since: Instant::now(),
            };
        }
        self.since.elapsed().as_secs_f64() > STILL
    }
}

struct Live {
    child: Child,
    still: Still,
    shard: u64,
    at: String,
    cpu: f64,
    since: Instant,
}

fn batch(id: &str, seed: u64, runs: u64, shards: u64, deadline: f64, digest: bool) -> Batch {
    let scratch = Scratch::new();
    let mut out = Batch {
        shards,
        ..Batch::default()
    };
    let mut live: Vec<Live> = (0..shards)
        .map(|shard| {
            let mut c = this();
            c.args(["worker", id]);
            c.args([seed, runs, shard, shards].map(|n| n.to_string()));
            c.arg(&scratch.0).arg(deadline.to_string());
            if digest {
                c.arg("digest");
            }
            Live {
                child: c.spawn().expect("harness: cannot start a worker"),
                still: Still::new(),
                shard,
                at: String::new(),
                cpu: 0.0,
                since: Instant::now(),
            }
        })
        .collect();
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < live.len() {
            let l = &mut live[i];
            let at = fs::read_to_string(scratch.0.join(format!("state-{}", l.shard)))
                .unwrap_or_default();
            let run: u64 = at.trim().parse().unwrap_or(l.shard);
            match l.child.try_wait() {
                Ok(Some(status)) => {
                    let ended = out.read(&scratch.0.join(format!("out-{}", l.shard)));
                    if !ended {
                        let (class, detail) = match (status.code(), status.signal()) {
                            (Some(MEMORY_EXIT), _) => {
                                ("memory", "the run held more than 1 GiB".to_owned())
                            }
                            (Some(c), _) => ("crash", format!("the process ended with status {c}")),
                            (_, Some(s)) => {
                                ("crash", format!("the process was ended by signal {s}"))
                            }
                            _ => ("crash", "the process ended".to_owned()),
                        };
                        out.found(run, class, &detail);
                    }
                    live.remove(i);
                    continue;
                }
                Ok(None) => {}
                Err(e) => panic!("harness: {e}"),
            }
            let used = cpu(&l.child);
            if at != l.at {
                l.at = at;
                l.cpu = used;
                l.since = Instant::now();
            }
            let (on_cpu, still) = (used - l.cpu, l.since.elapsed().as_secs_f64());
            let asleep = l.still.blocked(&l.child);
            let hangs = on_cpu > HANG_CPU || (still > HANG_WALL && on_cpu < 1.0) || asleep;
            // A worker beyond a known violation has nothing to add
            let beyond = out.found.as_ref().is_some_and(|f| run > f.0);
            if hangs || beyond {
                let _ = l.child.kill();
                let _ = l.child.wait();
                if hangs {
                    out.found(
                        run,
                        "hang",
                        &format!("the run did not end in {on_cpu:.0} s of CPU, {still:.0} s"),
                    );
                }
                live.remove(i);
                continue;
            }
            i += 1;
        }
    }
    out
}

// Single executions in a process of their own

struct Outcome {
    class: Option<String>,
    detail: String,
    tape: Vec<u64>,
    trace: Vec<String>,
}

/// one ID DIR seed N | tape: prints what happened to DIR/one-out
fn one(args: &[String]) -> i32 {
    let prop = prop(&args[0]);
    let dir = PathBuf::from(&args[1]);
    let mut src = match args[2].as_str() {
        "seed" => Src::from_seed(num(args, 3)),
        _ => Src::from_tape(tape_from(
            &fs::read_to_string(dir.join("tape")).unwrap_or_default(),
        )),
    };
    if args[2] == "seed" {
        src.eager(File::create(dir.join("eager")).expect("harness: eager tape"));
    }
    src.tracing = true;
    let env = Env::new();
    let r = execute(&prop, &env, &mut src);
    report(&dir, r, &src);
    std::process::exit(0)
}

fn report(dir: &Path, r: Check, src: &Src) {
    let mut text = String::new();
    if let Err(v) = &r {
        let _ = writeln!(text, "class\t{}\t{}", esc(&v.class), esc(&v.detail));
    }
    let _ = writeln!(text, "tape\t{}", tape_text(&src.tape));
    for t in &src.trace {
        let _ = writeln!(text, "trace\t{}", esc(&sim::clip_to(t, 2000)));
    }
    text.push_str("end\n");
    let _ = fs::write(dir.join("one-out"), text);
}

fn tape_text(t: &[u64]) -> String {
    let v: Vec<String> = t.iter().map(|n| format!("{n:x}")).collect();
    v.join(" ")
}
fn tape_from(s: &str) -> Vec<u64> {
    s.split_whitespace()
        .filter_map(|w| u64::from_str_radix(w, 16).ok())
        .collect()
}

/// seq ID DIR SEED: executes the runs listed in DIR/runs in this one process
fn seq(args: &[String]) -> i32 {
    let prop = prop(&args[0]);
    let dir = PathBuf::from(&args[1]);
    let seed: u64 = num(args, 2);
    let list = fs::read_to_string(dir.join("runs")).unwrap_or_default();
    let list: Vec<u64> = list
        .split_whitespace()
        .filter_map(|w| w.parse().ok())
        .collect();
    let env = Env::new();
    for (i, run) in list.iter().enumerate() {
        let mut src = Src::from_seed(run_seed(seed, prop.id, *run));
        let last = i + 1 == list.len();
        src.tracing = last;
        let r = execute(&prop, &env, &mut src);
        if last || r.is_err() {
            report(&dir, r, &src);
            break;
        }
    }
    std::process::exit(0)
}

fn child_outcome(mut c: Command, dir: &Path, cpu_limit: f64) -> Outcome {
    let file = dir.join("one-out");
    let _ = fs::remove_file(&file);
    let mut child = c.spawn().expect("harness: cannot start a child");
    let start = Instant::now();
    let mut still = Still::new();
    let mut pause = 1;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause + 1).min(20);
        let wall = start.elapsed().as_secs_f64();
        if wall > 1.0 && (cpu(&child) > cpu_limit || wall > HANG_WALL || still.blocked(&child)) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let mut out = Outcome {
        class: None,
        detail: String::new(),
        tape: Vec::new(),
        trace: Vec::new(),
    };
    let text = fs::read_to_string(&file).unwrap_or_default();
    if text.ends_with("end\n") {
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "class" => {
                    out.class = Some(f[1].into());
                    out.detail = f[2].into();
                }
                "tape" => out.tape = tape_from(f[1]),
                "trace" => out.trace.push(f[1].into()),
                _ => {}
            }
        }
        return out;
    }
    let eager = fs::read_to_string(dir.join("eager")).unwrap_or_default();
    out.tape = tape_from(&eager);
    let (class, detail) = match status {
        None => (
            "hang",
            format!("the run did not end in {cpu_limit:.0} s of CPU"),
        ),
        Some(s) if s.code() == Some(MEMORY_EXIT) => {
            ("memory", "the run held more than 1 GiB".to_owned())
        }
        Some(s) => ("crash", format!("the process ended: {s}")),
    };
    out.class = Some(class.into());
    out.detail = detail;
    out
}

fn by_seed(id: &str, dir: &Path, run_seed: u64) -> Outcome {
    let _ = fs::remove_file(dir.join("eager"));
    let mut c = this();
    c.args(["one", id])
        .arg(dir)
        .args(["seed", &run_seed.to_string()]);
    child_outcome(c, dir, HANG_CPU)
}
fn by_tape(id: &str, dir: &Path, tape: &[u64], cpu_limit: f64) -> Outcome {
    let _ = fs::remove_file(dir.join("eager"));
    let _ = fs::write(dir.join("tape"), tape_text(tape));
    let mut c = this();
    c.args(["one", id]).arg(dir).arg("tape");
    let mut out = child_outcome(c, dir, cpu_limit);
    if out.tape.is_empty() {
        out.tape = tape.to_vec();
    }
    out
}
fn by_seq(id: &str, dir: &Path, seed: u64, runs: &[u64]) -> Outcome {
    let text: Vec<String> = runs.iter().map(u64::to_string).collect();
    let _ = fs::write(dir.join("runs"), text.join("\n"));
    let mut c = this();
    c.args(["seq", id]).arg(dir).arg(seed.to_string());
    child_outcome(c, dir, HANG_CPU.max(runs.len() as f64))
}

/// Shorten the tape while the violation stays of the same class. All candidates run in processes of
/// their own, several at a time.
fn minimise(
    id: &str,
    scratch: &Path,
    tape: Vec<u64>,
    class: &str,
    budget: Duration,
) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut tried = 0;
    let limit = match class {
        "hang" => 3.0,
        _ => HANG_CPU,
    };
    let lanes = lanes();
    let dirs: Vec<PathBuf> = (0..lanes)
        .map(|i| {
            let d = scratch.join(format!("lane-{i}"));
            let _ = fs::create_dir(&d);
            d
        })
        .collect();
    // The first candidate (in order) that still fails, so that the result does not depend on timing
    let mut first = |cands: &[Vec<u64>]| -> Option<(usize, Vec<u64>)> {
        tried += cands.len() as u64;
        let outs: Vec<Outcome> = std::thread::scope(|s| {
            let hs: Vec<_> = cands
                .iter()
                .zip(&dirs)
                .map(|(c, d)| s.spawn(move || by_tape(id, d, c, limit)))
                .collect();
            hs.into_iter()
                .map(|h| h.join().expect("harness: lane"))
                .collect()
        });
        outs.into_iter()
            .enumerate()
            .find_map(|(i, o)| match o.class.as_deref() == Some(class) {
                // What was really drawn may be shorter than what was offered
                true => {
                    let mut t = o.tape;
                    if t.len() > cands[i].len() {
                        t = cands[i].clone();
                    }
                    Some((i, t))
                }
                false => None,
            })
    };
    let trim = |t: &mut Vec<u64>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    trim(&mut best);
    let mut again = true;
    while again && start.elapsed() < budget {
        again = false;
        let mut chunk = best.len().next_power_of_two() / 2;
        while chunk >= 1 && start.elapsed() < budget {
            for kind in 0..3 {
                let mut pos = 0;
                while pos < best.len() && start.elapsed() < budget {
                    let mut cands = Vec::new();
                    let mut ends = Vec::new();
                    let mut p = pos;
                    while cands.len() < lanes && p < best.len() {
                        let end = (p + chunk).min(best.len());
                        let mut c = best.clone();
                        match kind {
                            0 => {
                                c.drain(p..end);
                            }
                            1 => c[p..end].iter_mut().for_each(|v| *v = 0),
                            _ => c[p..end].iter_mut().for_each(|v| *v /= 2),
                        }
                        if c != best {
                            cands.push(c);
                            ends.push(p);
                        }
                        p = end;
                    }
                    if cands.is_empty() {
                        break;
                    }
                    match first(&cands) {
                        Some((i, t)) => {
                            pos = ends[i];
                            if kind != 0 && t.len() >= best.len() && t == best {
                                pos = p;
                            }
                            if t.len() < best.len() || t != best {
                                again = true;
                            }
                            best = t;
                            trim(&mut best);
                            if kind == 1 {
                                pos += chunk;
                            }
                        }
                        None => pos = p,
                    }
                }
            }
            chunk /= 2;
        }
    }
    (best, tried)
}

fn lanes() -> usize {
    std::thread::available_parallelism()
        .map_or(4, |n| n.get())
        .clamp(1, 16)
}

// Checking a property

fn option(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

/// check ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
fn check(args: &[String]) -> i32 {
    let start = Instant::now();
    let prop = prop(&args[0]);
    let env_var = |n: &str| std::env::var(n).ok();
    let tier = option(args, "--tier")
        .or_else(|| env_var("VERIF_TIER"))
        .filter(|t| t == "thorough")
        .map_or("quick", |_| "thorough");
    let seed: u64 = option(args, "--seed")
        .or_else(|| env_var("VERIF_SEED"))
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let runs = option(args, "--runs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(match tier {
            "quick" => prop.quick,
            _ => prop.thorough,
        });
    let workers = option(args, "--workers")
        .and_then(|s| s.parse().ok())
        .unwrap_or(lanes() as u64);
    let deadline = match tier {
        "quick" => 240.0,
        _ => 3000.0,
    };

    let mut known_now = Vec::new();
    for f in known::list(&root().join("known-findings.txt").to_string_lossy()) {
        if f.property != prop.id {
            continue;
        }
        let probe = known::PROBES
            .iter()
            .find(|p| p.key == f.key && p.property == f.property);
        let fails = probe.is_some_and(|p| sim::guard(p.fails).unwrap_or(true));
        if fails {
            println!("KNOWN-FINDING: property={} {}", f.property, f.text);
            known_now.push(f.key);
        }
    }
    let mut b = batch(prop.id, seed, runs, workers, deadline, false);
    let wall = start.elapsed().as_secs_f64();
    let found = b.found.take();
    let mut code = 0;
    let mut line = String::new();
    if let Some((run, class, detail)) = &found {
        let path = write_replay(&prop, seed, *run, class, detail, workers);
        line = format!("VIOLATION property={} replay={}", prop.id, path.display());
        println!(
            "violation of {} in run {run} of seed {seed}: {class}: {detail}",
            prop.id
        );
        code = 1;
    }
    evidence(
        &prop,
        tier,
        seed,
        &b,
        wall,
        start.elapsed().as_secs_f64(),
        found.is_some(),
        &known_now,
    );
    println!(
        "{}: {} runs, {} executions, {} distinct cases, {:.1} s",
        prop.id,
        b.n("runs"),
        b.n("evaluations"),
        b.distinct.len(),
        wall
    );
    if !line.is_empty() {
        println!("{line}");
    }
    code
}

fn write_replay(
    prop: &Prop,
    seed: u64,
    run: u64,
    class: &str,
    detail: &str,
    shards: u64,
) -> PathBuf {
    let scratch = Scratch::new();
    let id = prop.id;
    let mut text = format!("dst-replay 1\nproperty {id}\nseed {seed}\nrun {run}\n");
    let first = by_seed(id, &scratch.0, run_seed(seed, id, run));
    if let Some(class) = first.class.clone() {
        let (tape, tried) = minimise(
            id,
            &scratch.0,
            first.tape.clone(),
            &class,
            Duration::from_secs(60),
        );
        let mut last = by_tape(id, &scratch.0, &tape, HANG_CPU);
        let mut tape = tape;
        if last.class.as_deref() != Some(&class) {
            tape = first.tape.clone();
            last = first;
        }
        let _ = writeln!(text, "kind tape\nclass {class}\ndetail {}", last.detail);
        let _ = writeln!(
            text,
            "minimised {} choices, {tried} candidates tried",
            tape.len()
        );
        let _ = writeln!(text, "tape {}", tape_text(&tape));
        for t in &last.trace {
            let _ = writeln!(text, "trace {t}");
        }
    } else {
        // It takes what earlier runs in the same process left behind
        let all: Vec<u64> = (0..=run).filter(|i| i % shards == run % shards).collect();
        let mut n = 2;
        let mut list = all.clone();
        let mut last = None;
        loop {
            let tail = &all[all.len() - n.min(all.len())..];
            let o = by_seq(id, &scratch.0, seed, tail);
            if o.class.is_some() {
                list = tail.to_vec();
                last = Some(o);
                break;
            }
            if n >= all.len() {
                break;
            }
            n *= 4;
        }
        // Leave out what is not needed
        if last.is_some() {
            let start = Instant::now();
            let mut chunk = list.len().next_power_of_two() / 2;
            while chunk >= 1 && start.elapsed() < Duration::from_secs(60) {
                let mut pos = 0;
                while pos + 1 < list.len() && start.elapsed() < Duration::from_secs(60) {
                    let mut cand = list.clone();
                    let end = (pos + chunk).min(list.len() - 1);
                    cand.drain(pos..end);
                    let o = by_seq(id, &scratch.0, seed, &cand);
                    match o.class.is_some() {
                        true => {
                            list = cand;
                            last = Some(o);
                        }
                        false => pos = end,
                    }
                }
                chunk /= 2;
            }
        }
        let (class, detail, trace) = match last {
            Some(o) => (o.class.unwrap_or_default(), o.detail, o.trace),
            None => (
                class.to_owned(),
                format!("{detail} (not seen again when repeated)"),
                Vec::new(),
            ),
        };
        let _ = writeln!(text, "kind sequence\nclass {class}\ndetail {detail}");
        let v: Vec<String> = list.iter().map(u64::to_string).collect();
        let _ = writeln!(text, "runs {}", v.join(" "));
        for t in &trace {
            let _ = writeln!(text, "trace {t}");
        }
    }
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{seed}-{run}.txt"));
    fs::write(&path, text).expect("harness: cannot write the replay file");
    path
}

fn replay(path: &str) -> i32 {
    let text = fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let field = |name: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(name).and_then(|r| r.strip_prefix(' ')))
            .unwrap_or_default()
            .to_owned()
    };
    let prop = prop(&field("property"));
    let scratch = Scratch::new();
    let out = match field("kind").as_str() {
        "tape" => by_tape(prop.id, &scratch.0, &tape_from(&field("tape")), HANG_CPU),
        _ => {
            let runs: Vec<u64> = field("runs")
                .split(' ')
                .filter_map(|w| w.parse().ok())
                .collect();
            by_seq(
                prop.id,
                &scratch.0,
                field("seed").parse().unwrap_or(0),
                &runs,
            )
        }
    };
    for t in &out.trace {
        println!("{t}");
    }
    match out.class {
        Some(class) => {
            println!("{class}: {}", out.detail);
            let same = class == field("class") && out.detail == field("detail");
            println!(
                "{}",
                match same {
                    true => "exactly as recorded",
                    false => "differs from what was recorded",
                }
            );
            println!("VIOLATION property={} replay={path}", prop.id);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if c.is_control() || c == '\u{FFFE}' || c == '\u{FFFF}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}
fn json_list<'a>(items: impl IntoIterator<Item = &'a str>) -> String {
    let v: Vec<String> = items.into_iter().map(json).collect();
    format!("[{}]", v.join(", "))
}
fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    b: &Batch,
    wall: f64,
    total: f64,
    violated: bool,
    known: &[String],
) {
    let runs = b.n("runs");
    let per_hour = (runs as f64 / wall.max(0.001) * 3600.0) as u64;
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": {},\n    \"simulated_runs\": {runs},\n    \"runs_per_hour\": {per_hour},\n    \"simulated_time\": {},\n    \"logical_steps\": {},\n    \"document_bytes\": {},\n    \"faults_injected\": {},\n    \"conditions_reached\": {},\n    \"distinct_interleavings\": {},\n    \"shapes\": {},\n    \"simulated_world\": {},\n    \"real_components\": {},\n    \"stub_components\": {},\n    \"known_findings_reexamined\": {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {total:.3},\n  \"violations\": {}\n}}\n",
        json(prop.id),
        json(tier),
        b.n("evaluations"),
        b.distinct.len(),
        json(prop.rule),
        json_list(b.samples.iter().map(String::as_str)),
        json("logical: the library reads no clock; time is the number of steps the scheduler, sinks and readers took"),
        b.n("steps"),
        b.n("bytes"),
        json_map(&b.faults),
        json_map(&b.probes),
        b.interleavings.len(),
        json_map(&b.shapes),
        json(prop.simulated),
        json(prop.real),
        json(prop.stub),
        json_list(known.iter().map(String::as_str)),
        json_list(prop.assumptions.iter().copied()),
        u8::from(violated),
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", prop.id)), text).expect("harness: cannot write evidence");
}

/// The same seeds with different numbers of workers, twice: all logs must be identical.
fn selftest(args: &[String]) -> i32 {
    let runs: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let mut code = 0;
    for p in props::props() {
        for seed in [1, 99] {
            let a = batch(p.id, seed, runs, 8, 600.0, true);
            let b = batch(p.id, seed, runs, 8, 600.0, true);
            let c = batch(p.id, seed, runs, 3, 600.0, true);
            let same = a.digest == b.digest && a.digest == c.digest;
            println!(
                "{} seed {seed}: {runs} runs, log digest {:016x}, {}",
                p.id,
                a.digest,
                match same {
                    true => "identical",
                    false => "DIFFERENT",
                }
            );
            if !same {
                code = 1;
            }
        }
    }
    code
}

/// The model, the reference parser and the zoo against each other.
fn selfcheck(n: u64) -> i32 {
    use crate::{model, xml};
    let mut bad = 0;
    for (i, s) in crate::props::Env::new().shapes.iter().enumerate() {
        for k in 0..n {
            let mut src = Src::from_seed(mix(&[i as u64, k]));
            let v = model::gen(&mut src, &s.ty(), model::Gen::default());
            let t = model::document(&s.ty(), &v);
            if !model::read(&s.ty(), &t).is_ok_and(|r| model::same(&v, &r)) {
                bad += 1;
                println!(
                    "{} model: {:?}: {v:?}",
                    s.name,
                    model::read(&s.ty(), &t).map(|_| ())
                );
            }
            let plain = xml::encode_plain(&t);
            match xml::parse(&plain) {
                xml::Verdict::Tree(g) if g.clone().sorted() == t.clone().sorted() => {}
                other => {
                    bad += 1;
                    println!("{} reference parser: {plain}: {other:?}", s.name);
                }
            }
            if !(s.read)(&plain).is_ok_and(|g| model::same(&v, &g)) {
                bad += 1;
                println!(
                    "{} read: {:?}: {plain}",
                    s.name,
                    (s.read)(&plain).map(|_| ())
                );
            }
        }
    }
    println!("{bad} disagreements");
    i32::from(bad > 0)
}
