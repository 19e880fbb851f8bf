//! C04: corrupted input, under a step and memory budget.

use super::*;
use crate::alloc;
use crate::xml::{self, Style};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C04",
    quick: 600_000,
    thorough: 24_000_000,
    run,
    rule: "distinct corrupted inputs (by content) that were read at least twice by every consumer",
    simulated: "a channel that loses, duplicates, flips, reorders, splices and inserts; consumers: the type itself, another type, generic capture, node by node, and a program of random reader operations; memory is metered by a counting allocator, steps by the driver, the stack is 4 MiB",
    real: REAL,
    stub: "input channel (simulated), allocator wrapper (counts, forwards to the system allocator)",
    assumptions: &[
        "input is a &str: damage that is not UTF-8 cannot reach the library",
        "the memory budget is 1500 bytes per input byte plus 256 KiB, including the harness's own copy of the value and its text; for generic capture alone it is 200 bytes per input byte plus 16 KiB, for reading without keeping anything 100 bytes per input byte plus 16 KiB",
    ],
};

fn budget(len: usize) -> usize {
    1500 * len + (256 << 10)
}

fn run(env: &Env, src: &mut Src) -> Check {
    let kind = src.below(10);
    let shape = match kind {
        3..=5 => env.scalars(src),
        _ => env.any(src),
    };
    let cx = small_gen(src).vary(src);
    let v = model::gen(src, &shape.ty(), cx);
    let tree = model::document(&shape.ty(), &v);
    let style = Style::gen(src);
    let intact = xml::encode(src, &style, &tree);
    let other = env.any(src);
    let gen = small_gen(src).vary(src);
    let w = model::gen(src, &other.ty(), gen);
    let donor = xml::encode_plain(&model::document(&other.ty(), &w));
    let input = match kind {
        0 => {
            // Not a document at all
            let n = src.below(40);
            src.fault("damage: token soup");
            (0..n).map(|_| *src.pick(SOUP)).collect::<String>()
        }
        1 => {
            // A long, repetitive document
            src.fault("damage: repeated many times");
            let piece: String = (0..1 + src.below(3)).map(|_| *src.pick(SOUP)).collect();
            let n = 200 + src.below(3000);
            let head = match src.chance(1, 2) {
                true => intact.chars().take(src.below(60)).collect::<String>(),
                false => "<a>".to_owned(),
            };
            head + &piece.repeat(n)
        }
        2 => {
            // A word of the document becomes very long
            let n = 500 + src.below(5000);
            src.fault("damage: oversized token");
            let chars: Vec<char> = intact.chars().collect();
            let at = src.below(chars.len());
            let mut s: String = chars[..at].iter().collect();
            s.push_str(
                &src.pick(&["a", "0", "9", "&", "&#", "é", " ", ":", "-"])
                    .repeat(n),
            );
            s.extend(&chars[at..]);
            s
        }
        3..=5 => {
            let mut t = tree.clone();
            spoil(src, &mut t);
            if src.chance(1, 4) {
                spoil(src, &mut t);
            }
            xml::encode(src, &style, &t)
        }
        _ => damage(src, &intact, &donor),
    };
    src.fp(input.as_bytes());
    src.stats.bytes += input.len() as u64;
    src.note(|| format!("{}: {input:?}", shape.name));
    let first = consume(src, shape, other, &input)?;
    let program: Vec<u8> = (0..src.below(60)).map(|_| src.below(12) as u8).collect();
    let ops = operate(src, &input, &program)?;
    src.case();
    // Nothing of it is left behind
    match no_panic!("read", (shape.read)(&intact)) {
        Ok(got) if model::same_unordered(&v, &got) => {}
        got => bail!(
            "later document affected",
            "after reading {}, {} reads {} as {} instead of {}",
            clip(&input),
            shape.name,
            clip(&intact),
            short(&got),
            short(&v)
        ),
    }
    let second = consume(src, shape, other, &input)?;
    if first != second || ops != operate(src, &input, &program)? {
        bail!(
            "not repeatable",
            "{}: {first:?}, then {second:?}",
            clip(&input)
        );
    }
    src.case();
    Ok(())
}

fn consume(
    src: &mut Src,
    shape: &Shape,
    other: &Shape,
    input: &str,
) -> Result<Vec<String>, crate::sim::Violation> {
    let mut out = Vec::new();
    for (what, f) in [
        (
            "typed",
            &(|| format!("{:?}", (shape.read)(input))) as &dyn Fn() -> String,
        ),
        ("other type", &|| format!("{:?}", (other.read)(input))),
        ("capture", &|| format!("{:?}", any(input))),
    ] {
        let (r, peak) = alloc::peak(|| guard(f));
        match r {
            Ok(s) => out.push(crate::sim::clip_to(&s, 4000)),
            Err(msg) => bail!("panic", "{what} read of {}: {msg}", clip(input)),
        }
        memory(what, input, peak)?;
    }
    let (r, peak) = alloc::peak(|| guard(|| pull(input, None)));
    let p = match r {
        Ok(p) => p,
        Err(msg) => bail!("panic", "pulling {}: {msg}", clip(input)),
    };
    src.stats.steps += p.steps as u64;
    // The reader itself, nothing kept but what capture keeps
    for (what, per_byte, f) in [
        (
            "generic capture",
            200,
            &(|| drop(instant_xml::from_str::<AnyElement<'_>>(input))) as &dyn Fn(),
        ),
        ("skipping", 100, &|| {
            if let Ok(mut d) = Deserializer::new(input) {
                let _ = d.ignore();
            }
        }),
    ] {
        let (_, peak) = alloc::peak(|| guard(f));
        if peak > per_byte * input.len() + (16 << 10) {
            bail!(
                "memory",
                "{what} of {} bytes held {peak} bytes at once: {}",
                input.len(),
                clip(input)
            );
        }
    }
    if p.out == Pull::Endless || !p.ended {
        bail!(
            "endless",
            "pulling {} did not end after {} steps",
            clip(input),
            p.steps
        );
    }
    memory("pull", input, peak)?;
    out.push(crate::sim::clip_to(&format!("{:?}", p.out), 4000));
    Ok(out)
}

fn memory(what: &str, input: &str, peak: usize) -> Check {
    if peak > budget(input.len()) {
        bail!(
            "memory",
            "{what} read of {} bytes held {peak} bytes at once: {}",
            input.len(),
            clip(input)
        );
    }
    Ok(())
}

/// Run a program of reader operations, errors ignored.
fn operate(src: &mut Src, input: &str, program: &[u8]) -> Result<String, crate::sim::Violation> {
    let mut steps = 0;
    let (r, peak) = alloc::peak(|| {
        guard(|| {
            let mut log = crate::sim::Fnv::default();
            if let Ok(mut d) = Deserializer::new(input) {
                ops(&mut d, program, &mut log, &mut steps, 0);
                let limit = 8 * input.len() + 256;
                let mut n = 0;
                while d.next().is_some() {
                    n += 1;
                    if n > limit {
                        return Err(());
                    }
                }
                steps += n;
            }
            Ok(log.0)
        })
    });
    src.stats.steps += steps as u64;
    memory("operations", input, peak)?;
    match r {
        Ok(Ok(h)) => Ok(format!("{h:x}")),
        Ok(Err(())) => bail!(
            "endless",
            "operations {program:?} on {} do not end",
            clip(input)
        ),
        Err(msg) => bail!("panic", "operations {program:?} on {}: {msg}", clip(input)),
    }
}

fn ops(
    d: &mut Deserializer<'_, '_>,
    program: &[u8],
    log: &mut crate::sim::Fnv,
    steps: &mut usize,
    depth: usize,
) {
    use std::hash::Hasher;
    let mut open = None;
    let mut attr = None;
    for (i, op) in program.iter().enumerate() {
        *steps += 1;
        let rest = &program[i + 1..];
        let said = match op {
            0..=3 => match d.next() {
                None => return,
                Some(Ok(Node::Open(e))) => {
                    open = Some(e);
                    format!("{:?}", d.element_id(&e))
                }
                Some(Ok(Node::Attribute(a))) => {
                    let s = format!("{a:?}");
                    attr = Some(a);
                    s
                }
                Some(n) => format!("{n:?}"),
            },
            4 => match (open.take(), depth < 20) {
                (Some(e), true) => {
                    let mut n = d.nested(e);
                    let s = format!("{:?}", n.parent());
                    ops(&mut n, rest, log, steps, depth + 1);
                    s
                }
                _ => String::new(),
            },
            5 => match open.take() {
                Some(e) => format!("{:?}", d.nested(e).ignore()),
                None => String::new(),
            },
            6 => format!("{:?}", d.take_str()),
            7 => match open.take() {
                Some(e) => format!("{:?}", d.nested(e).take_str()),
                None => String::new(),
            },
            8 => format!(
                "{:?} {:?} {:?}",
                d.parent(),
                d.namespace("p"),
                d.namespace("")
            ),
            9 => match d.next() {
                None => return,
                Some(Err(e)) => format!("{e}"),
                Some(Ok(n)) => {
                    let mut one = d.for_node(n);
                    let s = format!("{:?}", one.take_str());
                    s + &format!("{:?}", one.next().is_some())
                }
            },
            10 => match &attr {
                Some(a) => format!("{:?}", d.attribute_id(a)),
                None => String::new(),
            },
            _ => match open.take() {
                Some(e) => format!("{:?}", d.nested(e).deserialize::<AnyElement<'_>>()),
                None => format!("{:?}", d.deserialize::<String>()),
            },
        };
        log.write(said.as_bytes());
    }
}
