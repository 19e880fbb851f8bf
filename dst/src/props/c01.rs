//! C01: a small store of documents, written through sinks that fail, tear and crash.

use super::*;
use crate::xml::{self, Verdict};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C01",
    quick: 600_000,
    thorough: 24_000_000,
    run,
    rule: "distinct histories of writes (type, document, fault, outcome) in which a fault fired, a value was refused, or the document has more than one element",
    simulated: "a store of up to 4 slots; each write goes to a temporary file through a fault-injecting sink and replaces the slot on acknowledgement; crashes lose the temporary file, retries repeat the write, every slot is read back after every crash and at the end",
    real: REAL,
    stub: "storage and sink (simulated), reference XML reader and reference document model (the oracle)",
    assumptions: &[
        "equality is that of the zoo's model values; Some(\"\") and None direct text are the same document and not generated",
        "known findings (namespace names that need escaping, see known-findings.txt) are not generated by the random runs",
    ],
};

/// The document has to mean the value, by an independent reader and by the library.
pub fn check_doc(shape: &Shape, v: &Val, doc: &str, when: &str) -> Check {
    let ty = shape.ty();
    let t = match xml::parse(doc) {
        Verdict::Tree(t) => t,
        Verdict::Reject(why) | Verdict::Open(why) => bail!(
            "not well-formed",
            "{when}: {} wrote a document that is not well-formed ({why}): {}",
            shape.name,
            clip(doc)
        ),
    };
    match model::read(&ty, &t) {
        Ok(got) if model::same(v, &got) => {}
        got => bail!(
            "means something else",
            "{when}: {} document means {} instead of {}: {}",
            shape.name,
            short(&got),
            short(v),
            clip(doc)
        ),
    }
    match no_panic!("read back", (shape.read)(doc)) {
        Ok(got) if model::same(v, &got) => Ok(()),
        got => bail!(
            "reads back differently",
            "{when}: {} reads back as {} instead of {}: {}",
            shape.name,
            short(&got),
            short(v),
            clip(doc)
        ),
    }
}

pub fn gen_fault(src: &mut Src, calls: usize, len: usize) -> (Fault, bool) {
    let fault = match src.below(3) {
        0 => Fault::Call {
            k: src.below(calls.max(1)),
            partial: 0,
        },
        1 => Fault::Call {
            k: src.below(calls.max(1)),
            partial: 1 + src.below(12),
        },
        _ => Fault::Full {
            n: src.below(len.max(1)),
        },
    };
    (fault, src.chance(1, 2))
}

fn run(env: &Env, src: &mut Src) -> Check {
    let mut slots: Vec<Option<(usize, Val, String)>> = vec![None; 1 + src.below(4)];
    let ops = 1 + src.below(6);
    for op in 0..ops {
        src.stats.steps += 1;
        if src.chance(1, 6) {
            // Crash: only acknowledged documents survive
            src.fault("crash and recovery");
            src.note(|| format!("step {op}: crash; every slot is read back"));
            reread(env, src, &slots, "after a crash")?;
            continue;
        }
        let slot = src.below(slots.len());
        let index = env.index(src, true);
        let shape = &env.shapes[index];
        *src.stats.shapes.entry(shape.name).or_default() += 1;
        src.fp(shape.name.as_bytes());
        let cx = Gen {
            depth: 2 + src.below(5),
            poison: src.chance(1, 8),
            list: 4,
            ..Gen::default()
        }
        .vary(src);
        let v = model::gen(src, &shape.ty(), cx);
        let refused = model::forbidden(&v);
        // Size of the healthy document, to aim faults
        let mut probe = Sink::new(Fault::None, false);
        let healthy = no_panic!("write", shape.write(&v, &mut probe));
        if refused && healthy.is_ok() {
            bail!(
                "unwritable value acknowledged",
                "{} acknowledged a value with forbidden characters: {} as {}",
                shape.name,
                short(&v),
                clip(&probe.got)
            );
        }
        if !refused && healthy.is_err() {
            bail!(
                "refused",
                "{} refused {}: {healthy:?}",
                shape.name,
                short(&v)
            );
        }
        if refused {
            src.fault("text XML forbids");
            src.note(|| {
                format!(
                    "step {op}: slot {slot}: {} {v:?} is refused: {healthy:?}",
                    shape.name
                )
            });
        }
        let mut attempts = 0;
        while src.chance(1, 3) && attempts < 3 {
            attempts += 1;
            let (fault, transient) = gen_fault(src, probe.calls, probe.got.len());
            let mut sink = Sink::new(fault, transient);
            let r = no_panic!("write", shape.write(&v, &mut sink));
            src.stats.steps += sink.calls as u64;
            src.note(|| format!("step {op}: slot {slot}: {} {v:?} through {fault:?} (transient: {transient}): {r:?}, {} bytes", shape.name, sink.got.len()));
            if sink.fired {
                src.fault("interrupted write");
            }
            if r.is_ok() {
                // Acknowledged: then it has to be the document
                check_doc(shape, &v, &sink.got, "acknowledged by a failing sink")?;
                slots[slot] = Some((index, v.clone(), sink.got));
            } else if src.chance(1, 4) {
                src.fault("crash and recovery");
                reread(env, src, &slots, "after a crash during a write")?;
            }
        }
        if refused {
            src.case();
            continue;
        }
        let mut sink = Sink::new(Fault::None, false);
        let r = no_panic!("write", shape.write(&v, &mut sink));
        src.stats.steps += sink.calls as u64;
        src.stats.bytes += sink.got.len() as u64;
        if r.is_err() {
            bail!(
                "refused",
                "{} refused {} the second time: {r:?}",
                shape.name,
                short(&v)
            );
        }
        src.note(|| {
            format!(
                "step {op}: slot {slot}: {} {v:?} acknowledged as {}",
                shape.name, sink.got
            )
        });
        if sink.got.matches('<').count() > 2 {
            src.nontrivial();
        }
        src.fp(sink.got.as_bytes());
        check_doc(shape, &v, &sink.got, "acknowledged")?;
        if attempts > 0 {
            // The first document was written before the interruptions
            check_doc(shape, &v, &probe.got, "written again")?;
        }
        slots[slot] = Some((index, v, sink.got));
        src.case();
    }
    reread(env, src, &slots, "at the end")
}

fn reread(env: &Env, src: &mut Src, slots: &[Option<(usize, Val, String)>], when: &str) -> Check {
    for s in slots.iter().flatten() {
        src.stats.evaluations += 1;
        check_doc(&env.shapes[s.0], &s.1, &s.2, when)?;
    }
    Ok(())
}
