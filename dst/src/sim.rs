//! The simulator core: one seed decides everything.
//!
//! Every decision of a run (values, faults, schedules, hash seeds) is drawn through [`Src`], which
//! records it on a tape. A run is a pure function of its tape and the code under test: replaying the
//! tape repeats the execution, editing the tape is how failures are minimised (0 is always the
//! simplest choice).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write as _;

/// SplitMix64: small, fast, and stable across platforms and toolchains.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x51_7c_c1_b7_27_22_0a_95u64;
    for p in parts {
        h = Rng::new(h ^ p.wrapping_mul(0x2545_f491_4f6c_dd1d)).next();
    }
    h
}

/// FNV-1a, used wherever a stable fingerprint is needed.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
pub type FnvSet = HashSet<u64, BuildHasherDefault<Fnv>>;

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut f = Fnv::default();
    f.write(bytes);
    f.0
}

/// A violation of the property under check.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    /// Kind of violation; minimisation keeps it fixed.
    pub class: String,
    /// What was observed and what was expected.
    pub detail: String,
}

pub type Check = Result<(), Violation>;

pub fn violation<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! bail {
    ($class:expr, $($t:tt)*) => { return $crate::sim::violation($class, format!($($t)*)) };
}

/// What the runs of a batch covered; everything here is counted, not configured.
#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    /// Executions of library operations (a write, a read, a session).
    pub evaluations: u64,
    /// Faults that actually fired, by kind.
    pub faults: BTreeMap<&'static str, u64>,
    /// Rare conditions reached.
    pub probes: BTreeMap<&'static str, u64>,
    /// Simulated logical steps (sink calls, node pulls, scheduler switches).
    pub steps: u64,
    /// Fingerprints of distinct non-trivial cases.
    pub distinct: FnvSet,
    /// Fingerprints of distinct interleavings (schedules) seen.
    pub interleavings: FnvSet,
    /// Shapes exercised.
    pub shapes: BTreeMap<&'static str, u64>,
    pub bytes: u64,
}

impl Stats {
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_default() += 1;
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_default() += 1;
    }
}

pub struct Src {
    rng: Rng,
    input: Option<Vec<u64>>,
    pub tape: Vec<u64>,
    pub stats: Stats,
    pub tracing: bool,
    pub trace: Vec<String>,
    eager: Option<std::fs::File>,
    fp: Fnv,
    nontrivial: bool,
}

/// A worker stops counting distinct cases here (memory); the reported number is then a lower bound.
pub const MAX_DISTINCT: usize = 500_000;

/// A run draws at most this many choices from the generator; afterwards everything is 0.
const MAX_TAPE: usize = 200_000;

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Self::build(Rng::new(seed), None)
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Self::build(Rng::new(0), Some(tape))
    }
    fn build(rng: Rng, input: Option<Vec<u64>>) -> Self {
        Src {
            rng,
            input,
            tape: Vec::new(),
            stats: Stats::default(),
            tracing: false,
            trace: Vec::new(),
            eager: None,
            fp: Fnv::default(),
            nontrivial: false,
        }
    }
    /// Write every choice to `file` as it is made, for runs that may take the process down.
    pub fn eager(&mut self, file: std::fs::File) {
        self.eager = Some(file);
    }

    /// A number below `n` (0 if `n` is 0); 0 is the simplest choice.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = match &self.input {
            Some(tape) => tape.get(self.tape.len()).copied().unwrap_or(0).min(n - 1),
            None if self.tape.len() >= MAX_TAPE => 0,
            None => self.rng.next() % n,
        };
        self.tape.push(v);
        if let Some(f) = &mut self.eager {
            let _ = f.write_all(format!("{v:x}\n").as_bytes());
        }
        v as usize
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &self.input {
            Some(tape) => tape.get(self.tape.len()).copied().unwrap_or(0),
            None if self.tape.len() >= MAX_TAPE => 0,
            None => self.rng.next(),
        };
        self.tape.push(v);
        if let Some(f) = &mut self.eager {
            let _ = f.write_all(format!("{v:x}\n").as_bytes());
        }
        v
    }
    /// True in `num` of `den` cases; false is the simplest choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Small numbers mostly, sometimes up to `max`.
    pub fn small(&mut self, max: usize) -> usize {
        match self.below(8) {
            0..=3 => self.below(max.min(3) + 1),
            4..=6 => self.below(max.min(6) + 1),
            _ => self.below(max + 1),
        }
    }

    /// Describe what happens, for the replay file; never draws.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// A fault fired.
    pub fn fault(&mut self, kind: &'static str) {
        self.stats.fault(kind);
        self.nontrivial = true;
        self.fp(kind.as_bytes());
    }
    /// Add something to the fingerprint of this case.
    pub fn fp(&mut self, bytes: &[u8]) {
        self.fp.write(bytes);
        self.fp.write(&[0xff]);
    }
    pub fn fp_n(&mut self, n: usize) {
        self.fp.write(&(n as u64).to_le_bytes());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// End of one case: count its fingerprint.
    pub fn case(&mut self) {
        self.stats.evaluations += 1;
        if self.nontrivial && self.stats.distinct.len() < MAX_DISTINCT {
            self.stats.distinct.insert(self.fp.0);
        }
    }
    pub fn end_run(&mut self) {
        self.fp = Fnv::default();
        self.nontrivial = false;
    }
}

/// Run `f` on a fresh thread (fresh hash seeds, fresh thread-locals, fixed stack size) and wait.
pub fn isolated<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|h| h.set(hash_seed));
                f()
            })
            .expect("harness: cannot spawn thread")
            .join()
    })
}

pub const STACK: usize = 4 << 20;

thread_local! {
    pub static HASH_SEED: Cell<u64> = const { Cell::new(1) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The standard library seeds its hash maps through this symbol: the seed becomes ours.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut rng = Rng::new(HASH_SEED.try_with(|h| h.get()).unwrap_or(1));
    let mut i = 0;
    while i < len {
        let v = rng.next().to_le_bytes();
        for b in v {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _harness = hook::Mode::set(false);
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => (*s).to_owned(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_owned(),
            },
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()));
        let text = format!("{msg} at {}", loc.unwrap_or_default());
        PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn take_panic() -> String {
    PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".to_owned())
}

/// Run library code; a panic is returned as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| take_panic())
}

/// Shorten text for messages, at a character boundary.
pub fn clip(s: &str) -> String {
    clip_to(s, 600)
}
pub fn clip_to(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    let mut out = s[..end].to_owned();
    let _ = write!(out, "...[{} bytes]", s.len());
    out
}
