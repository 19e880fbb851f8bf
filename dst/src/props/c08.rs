//! C08: relays that rewrite the document into equivalent forms.

use super::*;
use crate::xml::{self, Style, Verdict};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C08",
    quick: 350_000,
    thorough: 14_000_000,
    run,
    rule: "distinct received documents that differ from what was sent",
    simulated: "chains of 1 to 4 relays between writer and reader, each of which parses the document and writes it in another equivalent form",
    real: REAL,
    stub: "relays (simulated: reference XML reader and encoder)",
    assumptions: &[
        "line ends and white space inside attribute values are only sent as references (their normalisation is left open)",
        "namespace names with references are not generated (known finding)",
    ],
};

fn run(env: &Env, src: &mut Src) -> Check {
    // An arbitrary document, or one of a type
    let shape = match src.chance(1, 4) {
        true => env.named("generic element"),
        false => env.any(src),
    };
    let ty = shape.ty();
    let gen = small_gen(src).vary(src);
    let v = model::gen(src, &ty, gen);
    let sent = model::document(&ty, &v);
    let mut doc = match shape.writes() && src.chance(1, 2) {
        true => match no_panic!("write", shape.string(&v)) {
            Ok(s) => s,
            Err(_) => return Ok(()),
        },
        false => xml::encode_plain(&sent),
    };
    let hops = 1 + src.below(4);
    for hop in 0..hops {
        let received = match xml::parse(&doc) {
            Verdict::Tree(t) => t,
            // C01 and C11 report what the library writes
            _ => return Ok(()),
        };
        if received.clone().sorted() != sent.clone().sorted() {
            return Ok(());
        }
        let style = Style::gen(src);
        let next = xml::encode(src, &style, &received);
        if next != doc {
            src.stats.steps += 1;
            for kind in style.fired() {
                src.fault(kind);
            }
        }
        doc = next;
        src.note(|| format!("relay {hop}: {doc}"));
        match xml::parse(&doc) {
            Verdict::Tree(t) if t.clone().sorted() == sent.clone().sorted() => {}
            other => panic!("harness: relay changed the document: {other:?} {doc}"),
        }
        read(shape, &v, &doc)?;
        src.stats.evaluations += 1;
    }
    src.fp(doc.as_bytes());
    src.case();
    Ok(())
}

fn read(shape: &Shape, v: &Val, doc: &str) -> Check {
    let sent = match xml::parse(doc) {
        Verdict::Tree(t) => t,
        _ => return Ok(()),
    };
    // Attribute order is that of the document
    let want = match v {
        Val::Any(_) => Val::Any(sent.clone()),
        _ => v.clone(),
    };
    match no_panic!("read", (shape.read)(doc)) {
        Ok(got) if model::same_unordered(&want, &got) => {}
        got => bail!(
            "read differently",
            "{}: {} reads as {} instead of {}",
            shape.name,
            clip(doc),
            short(&got),
            short(&want)
        ),
    }
    match no_panic!("capture", any_owned(doc)) {
        Ok(t) if model::same_tree(&sent, &t) => {}
        got => bail!(
            "captured differently",
            "{} is captured as {}",
            clip(doc),
            short(&got)
        ),
    }
    match no_panic!("pull", pull(doc, None)).out {
        Pull::Tree(t) if t == sent => Ok(()),
        got => bail!(
            "pulled differently",
            "{} is pulled as {}",
            clip(doc),
            short(&got)
        ),
    }
}
