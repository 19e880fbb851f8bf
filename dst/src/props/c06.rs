//! C06: concurrent, interleaved and nested use under a token-passing scheduler.

use super::*;
use crate::bail;
use crate::hooks::{self, Act};
use crate::sim::{isolated, HASH_SEED, STACK};
use crate::xml::{self, Style};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C06",
    quick: 50_000,
    thorough: 2_000_000,
    run,
    rule: "distinct (set of operations, schedule) pairs with at least two clients and two switches",
    simulated: "2 to 5 clients on their own threads, of which exactly one runs at a time; the seeded scheduler decides who runs next at every sink write, user conversion, reader step and operation boundary, after any number of basic blocks inside the library, and before any access of the library to memory shared by all threads; operations fail, panic, are fed damaged input or call the library again from inside a conversion, a Display implementation or a sink; buffers are used again for other documents; the seeds of the standard library's hash maps are chosen per thread",
    real: REAL,
    stub: "scheduler, sinks and input (simulated); getrandom (seeded)",
    assumptions: &[
        "the library and the derived code are compiled with preemption points at basic blocks and at loads and stores of static memory; code of the standard library that is not inlined into them and xmlparser run without preemption",
        "interleavings are sequentially consistent: reorderings of a weaker memory model are not explored",
    ],
};

#[derive(Clone, Debug)]
enum What {
    Write {
        shape: usize,
        val: Val,
        fault: Fault,
        transient: bool,
    },
    Read {
        shape: usize,
        doc: String,
    },
    Capture {
        doc: String,
    },
    Pull {
        doc: String,
    },
    /// Several readers at once, taking turns as `turns` says
    Crowd {
        docs: Vec<String>,
        turns: Vec<u8>,
    },
}

#[derive(Clone, Debug)]
enum Hook {
    Fail,
    Panic,
    Reenter(Box<Op>),
    /// The sink calls the library
    Sink(Box<Op>),
}

#[derive(Clone, Debug)]
struct Op {
    what: What,
    hook: Option<(usize, Hook)>,
}

pub fn env() -> &'static Env {
    static ENV: OnceLock<Env> = OnceLock::new();
    ENV.get_or_init(Env::new)
}

/// Threads were left behind: this process cannot go on.
pub static POISONED: AtomicBool = AtomicBool::new(false);

type Yield = Rc<dyn Fn(&'static str)>;

fn gen_doc(src: &mut Src, pick: &dyn Fn(&mut Src, bool) -> usize, cx: Gen) -> (usize, String) {
    let shape = pick(src, false);
    let ty = env().shapes[shape].ty();
    let val = model::gen(
        src,
        &ty,
        Gen {
            poison: false,
            ..cx
        },
    );
    let style = Style::gen(src);
    let mut doc = xml::encode(src, &style, &model::document(&ty, &val));
    if src.chance(1, 4) {
        let donor = doc.clone();
        doc = damage(src, &doc, &donor);
    }
    (shape, doc)
}

/// Close to the default limits, or just beyond
fn deep(src: &mut Src) -> String {
    let mut t = Tree::new("", "a");
    let levels = match src.chance(1, 8) {
        true => 33,
        false => 10 + src.below(23),
    };
    for i in 1..levels {
        let mut outer = Tree::new(src.pick(&["", "urn:a", "urn:b"]), "a");
        outer.content.push(XNode::Elem(t));
        let wide = match src.below(6) {
            0 => 15 + src.below(18),
            _ => src.small(3),
        };
        outer.attrs = (0..wide)
            .map(|k| (String::new(), format!("k{k}"), i.to_string()))
            .collect();
        t = outer;
    }
    let style = Style {
        prefixes: src.chance(1, 2),
        ..Style::plain()
    };
    xml::encode(src, &style, &t)
}

fn gen_op(src: &mut Src, depth: usize, kin: Option<usize>) -> Op {
    let env = env();
    // Types with user conversions are where nesting, failures and yields happen
    let pick = |src: &mut Src, writes: bool| loop {
        if let Some(i) = kin.filter(|i| env.shapes[*i].writes() || !writes) {
            return i;
        }
        let i = match src.chance(1, 2) {
            true => zoo::shape(
                &env.shapes,
                src.pick(&[
                    "users",
                    "user elements",
                    "user boxes",
                    "user forward",
                    "user transparent",
                    "user display",
                ]),
            ),
            false => env.index(src, writes),
        };
        if env.shapes[i].writes() || !writes {
            return i;
        }
    };
    let cx = Gen {
        depth: 2 + src.below(3),
        poison: src.chance(1, 10),
        list: 3,
        ..Gen::default()
    }
    .vary(src);
    let what = match src.below(9) {
        0 => {
            let n = 2 + src.below(4);
            let docs = (0..n)
                .map(|_| match src.chance(1, 2) {
                    true => deep(src),
                    false => gen_doc(src, &pick, cx).1,
                })
                .collect();
            let n = 10 + src.below(60);
            What::Crowd {
                docs,
                turns: (0..n).map(|_| src.below(40) as u8).collect(),
            }
        }
        1..=4 => {
            let shape = pick(src, true);
            let val = model::gen(src, &env.shapes[shape].ty(), cx);
            let fault = match src.below(5) {
                0 => Fault::Call {
                    k: src.below(40),
                    partial: src.below(3),
                },
                1 => Fault::Full { n: src.below(200) },
                2 => Fault::Panic { k: src.below(40) },
                _ => Fault::None,
            };
            What::Write {
                shape,
                val,
                fault,
                transient: src.chance(1, 2),
            }
        }
        k => {
            let (shape, mut doc) = gen_doc(src, &pick, cx);
            if k > 6 && src.chance(1, 4) {
                doc = deep(src);
            }
            match k {
                5 | 6 => What::Read { shape, doc },
                7 => What::Capture { doc },
                _ => What::Pull { doc },
            }
        }
    };
    let hook = match src.below(6) {
        1 => Some((src.below(5), Hook::Fail)),
        2 => Some((src.below(5), Hook::Panic)),
        3 | 4 if depth < 2 => {
            let k = src.below(4);
            Some((k, Hook::Reenter(Box::new(gen_op(src, depth + 1, kin)))))
        }
        5 if depth < 2 && matches!(what, What::Write { .. }) => {
            let k = src.below(30);
            Some((k, Hook::Sink(Box::new(gen_op(src, depth + 1, kin)))))
        }
        _ => None,
    };
    Op { what, hook }
}

/// Run one operation; everything it can be observed by is in the result.
fn exec(op: &Op, y: &Option<Yield>) -> String {
    hooks::reset();
    if let Some(y) = y {
        hooks::set_yielder(y.clone());
    }
    let nested: Rc<RefCell<Vec<String>>> = Rc::default();
    if let Some((k, hook)) = &op.hook {
        let act = match hook {
            Hook::Fail => Some(Act::Fail(Error::Other("injected".into()))),
            Hook::Panic => Some(Act::Panic),
            Hook::Reenter(inner) => {
                let (inner, y, nested) = (inner.clone(), y.clone(), nested.clone());
                Some(Act::Reenter(Rc::new(move |_| {
                    let r = exec(&inner, &y);
                    nested.borrow_mut().push(r);
                })))
            }
            Hook::Sink(_) => None,
        };
        if let Some(act) = act {
            hooks::at(*k, act);
        }
    }
    let writes = Cell::new(0);
    let pause = || {
        if let Some(y) = y {
            y("step")
        }
        if let Some((k, Hook::Sink(inner))) = &op.hook {
            if writes.replace(writes.get() + 1) == *k {
                hooks::suspended(|| {
                    let r = exec(inner, y);
                    nested.borrow_mut().push(r);
                });
            }
        }
    };
    let shapes = &env().shapes;
    // Documents are received into a buffer that is used again and again
    let mut buffer = BUFFER.take();
    buffer.clear();
    if let What::Read { doc, .. } | What::Capture { doc } | What::Pull { doc } = &op.what {
        buffer.push_str(doc);
    }
    let library = hook::Mode::set(true);
    let out = match &op.what {
        What::Write {
            shape,
            val,
            fault,
            transient,
        } => {
            let mut sink = Sink::new(*fault, *transient);
            sink.before = Some(&pause);
            let r = guard(|| shapes[*shape].write(val, &mut sink));
            format!("{} {r:?} {:?} {}", shapes[*shape].name, sink.got, sink.late)
        }
        What::Read { shape, .. } => {
            let r = guard(|| (shapes[*shape].read)(&buffer));
            format!("{} {r:?}", shapes[*shape].name)
        }
        What::Capture { .. } => format!("{:?}", guard(|| any(&buffer))),
        What::Pull { .. } => format!("{:?}", guard(|| walk(&buffer, &pause))),
        What::Crowd { docs, turns } => match guard(|| crowd(docs, turns, &pause)) {
            Ok(list) => list.join(APART),
            Err(e) => format!("panic: {e}"),
        },
    };
    drop(library);
    BUFFER.set(buffer);
    let report = hooks::report();
    let nested = nested.borrow();
    format!(
        "{out} conversions {:?} late {} nested {nested:?}",
        report.calls, report.late
    )
}

thread_local! {
    static BUFFER: Cell<String> = const { Cell::new(String::new()) };
}

const APART: &str = " | ";

/// Several readers alive at once
fn crowd(docs: &[String], turns: &[u8], pause: &dyn Fn()) -> Vec<String> {
    use std::hash::Hasher;
    let mut readers: Vec<_> = docs.iter().map(|d| Some(Deserializer::new(d))).collect();
    let mut logs: Vec<crate::sim::Fnv> = docs.iter().map(|_| Default::default()).collect();
    let mut turn = 0;
    while readers.iter().any(Option::is_some) {
        let (i, steps) = match turns.get(turn) {
            Some(t) => (*t as usize % docs.len(), 1 + *t as usize / 6),
            // Whatever is left
            None => (turn % docs.len(), usize::MAX),
        };
        turn += 1;
        {
            let _harness = hook::Mode::set(false);
            pause();
        }
        let mut over = false;
        match &mut readers[i] {
            Some(Ok(d)) => {
                // One level deeper with every element, back out when the turn ends
                let mut left = steps;
                over = turn_of(d, &mut left, &mut logs[i]);
            }
            Some(Err(e)) => {
                logs[i].write(format!("{e:?}").as_bytes());
                over = true;
            }
            None => {}
        }
        if over {
            readers[i] = None;
        }
    }
    logs.iter().map(|l| format!("{:x}", l.0)).collect()
}

/// Read nodes; true at the end of the document.
fn turn_of(d: &mut Deserializer<'_, '_>, left: &mut usize, log: &mut crate::sim::Fnv) -> bool {
    use std::hash::Hasher;
    while *left > 0 {
        *left = left.saturating_sub(1);
        match d.next() {
            None => return true,
            Some(n @ Err(_)) => {
                log.write(format!("{n:?}").as_bytes());
                return true;
            }
            Some(Ok(Node::Open(e))) => log.write(format!("{:?}", d.element_id(&e)).as_bytes()),
            Some(Ok(Node::Attribute(a))) => {
                log.write(format!("{:?} {a:?}", d.attribute_id(&a)).as_bytes())
            }
            Some(Ok(n)) => log.write(format!("{n:?}").as_bytes()),
        }
    }
    false
}

/// Node by node, giving others a chance to run before every node
fn walk(doc: &str, pause: &dyn Fn()) -> Result<u64, Error> {
    use std::hash::Hasher;
    fn go(
        d: &mut Deserializer<'_, '_>,
        pause: &dyn Fn(),
        log: &mut crate::sim::Fnv,
    ) -> Result<(), Error> {
        loop {
            {
                let _harness = hook::Mode::set(false);
                pause();
            }
            match d.next() {
                None => return Ok(()),
                Some(Err(e)) => return Err(e),
                Some(Ok(Node::Open(e))) => {
                    log.write(format!("{:?}", d.element_id(&e)?).as_bytes());
                    go(&mut d.nested(e), pause, log)?;
                }
                Some(Ok(Node::Attribute(a))) => {
                    log.write(format!("{:?} {a:?}", d.attribute_id(&a)?).as_bytes())
                }
                Some(Ok(n)) => log.write(format!("{n:?}").as_bytes()),
            }
        }
    }
    let mut log = crate::sim::Fnv::default();
    go(&mut Deserializer::new(doc)?, pause, &mut log)?;
    Ok(log.0)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Starting,
    Parked,
    Running,
    /// Running, but blocked on something that is not ours
    Stuck,
    Done,
}

struct Sched {
    status: Vec<Status>,
    turn: Option<usize>,
    quantum: usize,
    /// Preempt after this many basic blocks, or before this many-th shared access
    fine: (u64, u64),
    preempted: (u64, u64),
    tids: Vec<String>,
    results: Vec<Vec<String>>,
    switches: u64,
}

struct Shared {
    m: Mutex<Sched>,
    cv: Condvar,
    main: Condvar,
}

impl Shared {
    fn park(&self, me: usize, preempted: bool) {
        let mut s = self.m.lock().unwrap();
        if s.status[me] == Status::Running && s.quantum > 0 && !preempted {
            s.quantum -= 1;
            return;
        }
        if preempted {
            match s.fine.1 == u64::MAX {
                true => s.preempted.0 += 1,
                false => s.preempted.1 += 1,
            }
        }
        s.status[me] = Status::Parked;
        if s.turn == Some(me) {
            s.turn = None;
        }
        self.main.notify_one();
        while s.turn != Some(me) {
            s = self.cv.wait(s).unwrap();
        }
        s.status[me] = Status::Running;
        s.switches += 1;
        hook::arm(s.fine.0, s.fine.1);
    }
}

/// A preemption is due inside the library.
fn preempt(data: *const ()) {
    // Set by the thread that runs, which outlives its operations
    let (shared, me) = unsafe { &*data.cast::<(Arc<Shared>, usize)>() };
    shared.park(*me, true);
}

fn thread_state(tid: &str) -> Option<(char, u64)> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let mut it = rest.split(' ');
    let state = it.next()?.chars().next()?;
    let utime = it.nth(10)?.parse().ok()?;
    Some((state, utime))
}

fn run(_: &Env, src: &mut Src) -> Check {
    let clients = 2 + src.below(4);
    // Clients often do much the same
    let kin = match src.below(4) {
        1 => Some(src.below(env().shapes.len())),
        _ => None,
    };
    let base = match src.below(4) {
        1 => Some(gen_op(src, 0, kin)),
        _ => None,
    };
    let ops: Vec<Vec<Op>> = (0..clients)
        .map(|_| {
            (0..1 + src.below(3))
                .map(|_| match &base {
                    Some(op) if src.chance(1, 2) => op.clone(),
                    _ => gen_op(src, 0, kin),
                })
                .collect()
        })
        .collect();
    let seeds: Vec<u64> = (0..clients + 2).map(|_| src.raw()).collect();
    // What every operation does alone: on two threads with different hash seeds, in both orders
    let mut alone: Vec<Vec<String>> = Vec::new();
    for list in &ops {
        alone.push(list.iter().map(|op| solo(op, seeds[0])).collect());
    }
    for (list, want) in ops.iter().zip(&alone).rev() {
        for (op, want) in list.iter().zip(want).rev() {
            let got = solo(op, seeds[1]);
            if got != *want {
                bail!(
                    "depends on history or hash seeds",
                    "{op:?} alone: {} then {}",
                    clip(want),
                    clip(&got)
                );
            }
            nested_alone(op, want, seeds[1])?;
            crowd_alone(op, want, seeds[1])?;
        }
    }
    for (c, list) in ops.iter().enumerate() {
        for (op, r) in list.iter().zip(&alone[c]) {
            src.note(|| format!("client {c}: {op:?} alone gives {r}"));
            src.fp(r.as_bytes());
            if let Some((_, h)) = &op.hook {
                src.stats.fault(match h {
                    Hook::Fail => "conversion fails",
                    Hook::Panic => "conversion panics",
                    Hook::Reenter(_) => "nested operation",
                    Hook::Sink(_) => "sink uses the library",
                });
            }
            if let What::Write { fault, .. } = &op.what {
                match fault {
                    Fault::None => {}
                    Fault::Panic { .. } => src.stats.fault("sink panic"),
                    _ => src.stats.fault("sink error"),
                }
            }
        }
    }

    let shared = Arc::new(Shared {
        m: Mutex::new(Sched {
            status: vec![Status::Starting; clients],
            turn: None,
            quantum: 0,
            fine: (u64::MAX, u64::MAX),
            preempted: (0, 0),
            tids: vec![String::new(); clients],
            results: vec![Vec::new(); clients],
            switches: 0,
        }),
        cv: Condvar::new(),
        main: Condvar::new(),
    });
    let mut handles = Vec::new();
    for (me, list) in ops.iter().enumerate() {
        let (shared, list, seed) = (shared.clone(), list.clone(), seeds[me + 2]);
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                HASH_SEED.with(|h| h.set(seed));
                let tid = std::fs::read_link("/proc/thread-self")
                    .ok()
                    .and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned()))
                    .unwrap_or_default();
                shared.m.lock().unwrap().tids[me] = tid;
                let y: Option<Yield> = {
                    let shared = shared.clone();
                    Some(Rc::new(move |_| shared.park(me, false)))
                };
                let data = Box::new((shared.clone(), me));
                hook::set_handler(Some((preempt, (&raw const *data).cast())));
                for op in &list {
                    shared.park(me, false);
                    let r = exec(op, &y);
                    shared.m.lock().unwrap().results[me].push(r);
                }
                hook::set_handler(None);
                let mut s = shared.m.lock().unwrap();
                s.status[me] = Status::Done;
                if s.turn == Some(me) {
                    s.turn = None;
                }
                shared.main.notify_one();
            })
            .expect("harness: cannot spawn thread");
        handles.push(h);
    }

    let mut order = crate::sim::Fnv::default();
    let mut trace = String::new();
    loop {
        // Wait until nobody runs, or whoever runs is blocked
        let ready: Vec<usize> = match settle(&shared) {
            Settled::Ready(r) => r,
            Settled::Done => break,
            Settled::Deadlock(who) => {
                POISONED.store(true, Ordering::SeqCst);
                bail!(
                    "deadlock",
                    "clients {who:?} are blocked inside the library; operations: {}",
                    clip(&format!(
                        "{:?}",
                        who.iter().map(|c| &ops[*c]).collect::<Vec<_>>()
                    ))
                );
            }
        };
        let next = *src.pick(&ready);
        let never = u64::MAX;
        let (quantum, fine) = match src.below(8) {
            0 | 1 => (0, (never, never)),
            2 => (src.below(4), (never, never)),
            3 => (src.below(60), (never, never)),
            4 => (1000, (1 + src.below(8) as u64, never)),
            5 | 6 => {
                let most = 8 << src.below(12);
                (1000, (1 + src.below(most) as u64, never))
            }
            _ => (1000, (never, 1 + src.below(4) as u64)),
        };
        use std::hash::Hasher;
        order.write_u8(next as u8);
        order.write_u64(quantum as u64);
        order.write_u64(fine.0);
        order.write_u64(fine.1);
        src.stats.steps += 1;
        if src.tracing {
            trace.push_str(&match fine {
                (u64::MAX, u64::MAX) => format!(" {next}x{}", quantum + 1),
                (n, u64::MAX) => format!(" {next}:{n}b"),
                (_, n) => format!(" {next}:{n}s"),
            });
        }
        let mut s = shared.m.lock().unwrap();
        s.turn = Some(next);
        s.quantum = quantum;
        s.fine = fine;
        s.status[next] = Status::Running;
        drop(s);
        shared.cv.notify_all();
    }
    for h in handles {
        let _ = h.join();
    }
    src.note(|| format!("schedule (client x steps, :b preempted after basic blocks, :s before a shared access):{trace}"));
    src.stats.interleavings.insert(order.0);
    src.nontrivial();
    src.fp_n(order.0 as usize);
    let s = shared.m.lock().unwrap();
    for _ in 0..s.preempted.0 {
        src.stats.fault("preemption inside the library");
    }
    for _ in 0..s.preempted.1 {
        src.stats.fault("preemption at a shared access");
    }
    for c in 0..clients {
        for (i, op) in ops[c].iter().enumerate() {
            src.stats.evaluations += 1;
            let got = s.results[c].get(i).map(String::as_str).unwrap_or("nothing");
            if got != alone[c][i] {
                bail!(
                    "not isolated",
                    "client {c}, operation {i}: {op:?} gave {} instead of {}",
                    clip(got),
                    clip(&alone[c][i])
                );
            }
        }
    }
    drop(s);
    // One after another on the same thread, in the same memory
    let serial = isolated(seeds[0], || -> Vec<Vec<String>> {
        ops.iter()
            .map(|l| l.iter().map(|op| exec(op, &None)).collect())
            .collect()
    });
    for (c, list) in serial.unwrap_or_default().iter().enumerate() {
        for (i, got) in list.iter().enumerate() {
            if *got != alone[c][i] {
                bail!(
                    "depends on history or hash seeds",
                    "{:?} after others: {} instead of {}",
                    ops[c][i],
                    clip(got),
                    clip(&alone[c][i])
                );
            }
        }
    }
    // And afterwards, whatever failed or panicked
    for (list, want) in ops.iter().zip(&alone) {
        for (op, want) in list.iter().zip(want) {
            let got = solo(op, seeds[0]);
            if got != *want {
                bail!(
                    "depends on history or hash seeds",
                    "{op:?} afterwards: {} instead of {}",
                    clip(&got),
                    clip(want)
                );
            }
        }
    }
    src.case();
    Ok(())
}

/// Alone on a fresh thread. An operation that never comes back ends the run.
fn solo(op: &Op, seed: u64) -> String {
    match isolated(seed, || exec(op, &None)) {
        Ok(s) => s,
        Err(_) => "harness panic".to_owned(),
    }
}

/// A nested operation gives what it gives alone.
fn nested_alone(op: &Op, result: &str, seed: u64) -> Check {
    if let Some((_, Hook::Reenter(inner) | Hook::Sink(inner))) = &op.hook {
        let at = result.rfind(" nested [").unwrap_or(0);
        // Nested results are quoted inside the outer one
        let mut first = result;
        if let Some(i) = result.find(" nested [\"") {
            first = &result[i..];
        } else if result[at..].starts_with(" nested []") {
            return Ok(());
        }
        let want = format!("{:?}", solo(inner, seed));
        if !first.contains(&want) {
            bail!(
                "nested operation affected",
                "{inner:?} inside {op:?} gave {} instead of {}",
                clip(first),
                clip(&want)
            );
        }
    }
    Ok(())
}

/// Every reader of a crowd gives what it gives alone.
fn crowd_alone(op: &Op, result: &str, seed: u64) -> Check {
    let What::Crowd { docs, .. } = &op.what else {
        return Ok(());
    };
    for (i, doc) in docs.iter().enumerate() {
        let one = Op {
            what: What::Crowd {
                docs: vec![doc.clone()],
                turns: Vec::new(),
            },
            hook: None,
        };
        let want = solo(&one, seed);
        let of = |s: &str| {
            s.split(" conversions ")
                .next()
                .and_then(|s| s.split(APART).nth(i))
                .map(str::to_owned)
        };
        let (want, got) = (
            want.split(" conversions ").next().map(str::to_owned),
            of(result),
        );
        if want != got {
            bail!(
                "affected by another reader",
                "{doc:?} among {docs:?} gave {got:?} instead of {want:?}"
            );
        }
    }
    Ok(())
}

enum Settled {
    Ready(Vec<usize>),
    Done,
    Deadlock(Vec<usize>),
}

fn settle(shared: &Shared) -> Settled {
    let mut s = shared.m.lock().unwrap();
    let mut last: Option<(usize, u64)> = None;
    let mut quiet = 0;
    let start = Instant::now();
    loop {
        let busy: Vec<usize> = (0..s.status.len())
            .filter(|i| matches!(s.status[*i], Status::Starting | Status::Running))
            .collect();
        if busy.is_empty() {
            let ready: Vec<usize> = (0..s.status.len())
                .filter(|i| s.status[*i] == Status::Parked)
                .collect();
            if !ready.is_empty() {
                return Settled::Ready(ready);
            }
            let stuck: Vec<usize> = (0..s.status.len())
                .filter(|i| s.status[*i] == Status::Stuck)
                .collect();
            if stuck.is_empty() {
                return Settled::Done;
            }
            // Nobody else is left to unblock them; allow for a slow machine
            if start.elapsed() > Duration::from_secs(10) {
                return Settled::Deadlock(stuck);
            }
        }
        s = shared
            .main
            .wait_timeout(s, Duration::from_millis(3))
            .unwrap()
            .0;
        for i in busy {
            if s.status[i] != Status::Running || s.turn != Some(i) {
                continue;
            }
            // Blocked: asleep without using any time, again and again
            let tid = s.tids[i].clone();
            match thread_state(&tid) {
                Some(('S', t)) if last == Some((i, t)) => quiet += 1,
                Some((_, t)) => {
                    last = Some((i, t));
                    quiet = 0;
                }
                None => {}
            }
            if quiet > 8 {
                s.status[i] = Status::Stuck;
                s.turn = None;
                quiet = 0;
                last = None;
            }
        }
    }
}
