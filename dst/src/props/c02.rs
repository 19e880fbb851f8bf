//! C02: every fault point of a sink.

use super::*;
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C02",
    quick: 400_000,
    thorough: 16_000_000,
    run,
    rule: "distinct (type, document, fault point) triples in which the sink fault fired",
    simulated: "an output sink that fails at a chosen call or byte (clean, short or full), stays broken or recovers, or panics; for documents of up to 80 sink calls every call is a fault point once",
    real: REAL,
    stub: "output sink (simulated)",
    assumptions: &["the writer is to_writer on a value; user code in the zoo does not swallow sink errors"],
};

fn run(env: &Env, src: &mut Src) -> Check {
    let shape = env.writable(src);
    let cx = Gen {
        depth: 2 + src.below(4),
        poison: false,
        list: 3,
        ..Gen::default()
    }
    .vary(src);
    let v = model::gen(src, &shape.ty(), cx);
    let healthy = match no_panic!("write", shape.string(&v)) {
        Ok(s) => s,
        // Not this property's business
        Err(_) => return Ok(()),
    };
    let mut sink = Sink::new(Fault::None, false);
    let r = no_panic!("write", shape.write(&v, &mut sink));
    if r.is_err() || sink.got != healthy {
        bail!(
            "healthy sinks differ",
            "{} {}: {r:?}; {} instead of {}",
            shape.name,
            short(&v),
            clip(&sink.got),
            clip(&healthy)
        );
    }
    src.fp(healthy.as_bytes());
    src.note(|| format!("{} {v:?}: {healthy} in {} pieces", shape.name, sink.calls));
    let calls = sink.calls;
    let mut faults = Vec::new();
    if calls <= 80 {
        faults.extend((0..calls).map(|k| (Fault::Call { k, partial: 0 }, k % 2 == 0)));
    }
    for _ in 0..1 + src.below(8) {
        faults.push(super::c01::gen_fault(src, calls, healthy.len()));
    }
    if src.chance(1, 4) {
        faults.push((
            Fault::Panic {
                k: src.below(calls),
            },
            false,
        ));
    }
    for (fault, transient) in faults {
        one(src, shape, &v, &healthy, fault, transient)?;
    }
    // Whatever happened, a healthy sink still receives the document
    match no_panic!("write after faults", shape.string(&v)) {
        Ok(s) if s == healthy => Ok(()),
        other => bail!(
            "later write affected",
            "{}: after failed writes, a healthy sink received {} instead of {}",
            shape.name,
            short(&other),
            clip(&healthy)
        ),
    }
}

fn one(
    src: &mut Src,
    shape: &Shape,
    v: &Val,
    healthy: &str,
    fault: Fault,
    transient: bool,
) -> Check {
    let mut sink = Sink::new(fault, transient);
    let r = guard(|| shape.write(v, &mut sink));
    src.stats.steps += sink.calls as u64;
    src.note(|| {
        format!(
            "{fault:?} (transient: {transient}): {r:?}, accepted {:?}, {} later calls",
            sink.got, sink.late
        )
    });
    if sink.late > 0 {
        bail!(
            "written past a failure",
            "{} with {fault:?}: {} more writes after the sink failed; accepted {}",
            shape.name,
            sink.late,
            clip(&sink.got)
        );
    }
    if !healthy.starts_with(&sink.got) {
        bail!(
            "not a prefix",
            "{} with {fault:?}: accepted {} of {}",
            shape.name,
            clip(&sink.got),
            clip(healthy)
        );
    }
    let kind = match fault {
        Fault::Panic { .. } => {
            if sink.fired && r.is_ok() {
                bail!(
                    "panic swallowed",
                    "{} swallowed a panic of the sink",
                    shape.name
                );
            }
            "sink panic"
        }
        _ => {
            match (&r, sink.fired) {
                (Err(msg), _) => bail!("panic", "{} with {fault:?}: {msg}", shape.name),
                (Ok(Ok(())), false) if sink.got == healthy => {}
                (Ok(Err(Error::Format(_))), true) => {}
                (Ok(r), fired) => bail!(
                    "not reported",
                    "{} with {fault:?} (fired: {fired}): {r:?}, sink accepted {} of {}",
                    shape.name,
                    clip(&sink.got),
                    clip(healthy)
                ),
            }
            match fault {
                Fault::Full { .. } => "sink full",
                Fault::Call { partial: 0, .. } if transient => "sink error, transient",
                Fault::Call { partial: 0, .. } => "sink error, persistent",
                _ => "sink short write",
            }
        }
    };
    if sink.fired {
        src.fault(kind);
    }
    // The same fault again
    let mut again = Sink::new(fault, transient);
    let r2 = guard(|| shape.write(v, &mut again));
    if again.got != sink.got || format!("{r2:?}") != format!("{r:?}") {
        bail!(
            "not repeatable",
            "{} with {fault:?}: {r:?} and {}, then {r2:?} and {}",
            shape.name,
            clip(&sink.got),
            clip(&again.got)
        );
    }
    src.fp_n(sink.got.len());
    src.case();
    Ok(())
}
