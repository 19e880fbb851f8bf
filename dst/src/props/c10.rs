//! C10: readers that stop, fail or are dropped part-way.

use super::*;
use crate::hooks;
use crate::xml::{self, Style};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C10",
    quick: 500_000,
    thorough: 20_000_000,
    run,
    rule: "distinct (document, abandonment plan) pairs in which at least one reader stopped early",
    simulated: "consumers cancelled after any number of reader steps: hand-written conversions inside derived types, and node-by-node programs that drop, half-read, skip or never enter nested elements, at any depth",
    real: REAL,
    stub: "consumers (simulated through the conversion seam), reference model of the undisturbed value",
    assumptions: &["a reader error after an abandonment is a refusal; nodes seen by a program before that error are not part of an accepted value"],
};

fn run(env: &Env, src: &mut Src) -> Check {
    match src.below(3) {
        0 => program(src),
        _ => typed(env, src),
    }
}

fn typed(env: &Env, src: &mut Src) -> Check {
    let shape = env.named("abandoning");
    *src.stats.shapes.entry(shape.name).or_default() += 1;
    let gen = Gen {
        depth: 3 + src.below(3),
        poison: false,
        list: 3,
        ..Gen::default()
    }
    .vary(src);
    let v = model::gen(src, &shape.ty(), gen);
    let mut tree = model::document(&shape.ty(), &v);
    fill(src, &mut tree);
    let style = match src.chance(1, 2) {
        true => Style::gen(src),
        false => Style::plain(),
    };
    let doc = xml::encode(src, &style, &tree);
    if tree.depth() > 30 {
        return Ok(());
    }
    src.fp(doc.as_bytes());
    // Undisturbed
    hooks::reset();
    match no_panic!("read", (shape.read)(&doc)) {
        Ok(got) if model::same_unordered(&v, &got) => {}
        got => bail!(
            "undisturbed read",
            "{} reads as {} instead of {}",
            clip(&doc),
            short(&got),
            short(&v)
        ),
    }
    for _ in 0..1 + src.below(4) {
        let quits: Vec<Vec<u8>> = (0..src.below(6))
            .map(|_| (0..src.below(7)).map(|_| src.below(12) as u8).collect())
            .collect();
        hooks::reset();
        hooks::set_quits(quits.clone());
        let got = no_panic!("read with abandonments", (shape.read)(&doc));
        let report = hooks::report();
        for _ in 0..report.quits {
            src.fault("conversion stops early");
        }
        for q in &quits {
            src.fp(q);
        }
        src.note(|| {
            format!(
                "{doc}: abandonments {quits:?} ({} reached): {got:?}",
                report.quits
            )
        });
        match got {
            Err(_) => src.stats.probe("refused after abandonment"),
            Ok(got) if model::same_unordered(&v, &got) => {
                src.stats.probe("unaffected by abandonment")
            }
            Ok(got) => bail!(
                "leaked",
                "{} with abandonments {quits:?} reads as {} instead of {}",
                clip(&doc),
                short(&got),
                short(&v)
            ),
        }
        src.case();
    }
    Ok(())
}

/// Put content that looks like the surroundings into the elements that will be abandoned.
fn fill(src: &mut Src, t: &mut Tree) {
    let mut i = 0;
    while i < t.content.len() {
        if let XNode::Elem(c) = &mut t.content[i] {
            match c.name.as_str() {
                "quit" | "qs" | "w" => bait(src, c, 3),
                _ => fill(src, c),
            }
        }
        i += 1;
    }
}

fn bait(src: &mut Src, t: &mut Tree, depth: usize) {
    for _ in 0..src.below(3) {
        let name = *src.pick(&["id", "key", "x", "a"]);
        if !t.attrs.iter().any(|a| a.1 == name) {
            t.attrs.push((String::new(), name.into(), "leak".into()));
        }
    }
    for _ in 0..src.below(4) {
        if src.chance(1, 3) || depth == 0 {
            t.text(*src.pick(&["leak", "7", " ", "\n"]));
            continue;
        }
        let mut c = Tree::new(
            "",
            src.pick(&[
                "name", "n", "Item", "quit", "qs", "leaf", "Wrap", "inner", "Quits", "foreign", "w",
            ]),
        );
        match (c.name.as_str(), src.chance(1, 2)) {
            ("name", true) => c.text("leak"),
            ("n", true) => c.text("7"),
            ("Item", true) => {
                c.attrs.push((String::new(), "key".into(), "leak".into()));
                let mut n = Tree::new("", "name");
                n.text("leak");
                c.content.push(XNode::Elem(n));
            }
            _ => bait(src, &mut c, depth - 1),
        }
        t.content.push(XNode::Elem(c));
    }
}

// Node by node

struct Plan<'s> {
    src: &'s mut Src,
    drops: bool,
    dropped: usize,
    /// Same choices the second time would be pointless: everything is drawn while walking
    actions: Vec<u8>,
}

fn program(src: &mut Src) -> Check {
    let tree = model::gen_tree(
        src,
        4,
        Gen {
            depth: 4,
            poison: false,
            list: 3,
            ..Gen::default()
        },
    );
    let style = Style::gen(src);
    let doc = xml::encode(src, &style, &tree);
    let truth = match xml::parse(&doc) {
        xml::Verdict::Tree(t) => t,
        other => panic!("harness: {other:?}"),
    };
    src.fp(doc.as_bytes());
    let drops = src.chance(2, 3);
    let mut seen = Tree::new(&truth.ns, &truth.name);
    let mut plan = Plan {
        src,
        drops,
        dropped: 0,
        actions: Vec::new(),
    };
    let r = guard(|| {
        let mut d = Deserializer::new(&doc)?;
        walk(&mut d, &mut seen, &mut plan, 0)
    });
    let Plan {
        src,
        dropped,
        actions,
        ..
    } = plan;
    for _ in 0..dropped {
        src.fault("nested reader dropped");
    }
    if actions.iter().any(|a| *a != 0) {
        src.nontrivial();
    }
    src.fp(&actions);
    src.note(|| format!("{doc}: actions {actions:?}: {r:?}, saw {seen:?}"));
    let r = match r {
        Ok(r) => r,
        Err(msg) => bail!("panic", "{} with actions {actions:?}: {msg}", clip(&doc)),
    };
    match r {
        Err(e) if dropped == 0 => bail!(
            "skip refused",
            "{} with actions {actions:?}: {e}",
            clip(&doc)
        ),
        Err(_) => src.stats.probe("refused after abandonment"),
        Ok(()) if agrees(&truth, &seen) => src.stats.probe("unaffected by abandonment"),
        Ok(()) => bail!(
            "leaked",
            "{} with actions {actions:?} was seen as {}",
            clip(&doc),
            short(&seen)
        ),
    }
    src.case();
    Ok(())
}

/// Marks an element that was not read completely
const PARTIAL: &str = "\u{0}partial";

fn walk(
    d: &mut Deserializer<'_, '_>,
    t: &mut Tree,
    plan: &mut Plan<'_>,
    depth: usize,
) -> Result<(), Error> {
    while let Some(node) = d.next() {
        match node? {
            Node::Attribute(a) => {
                let id = d.attribute_id(&a)?;
                t.attrs
                    .push((id.ns.into(), id.name.into(), a.value.to_string()));
            }
            Node::Text(s) => t.text(&s),
            Node::Open(e) => {
                let id = d.element_id(&e)?;
                let mut c = Tree::new(id.ns, id.name);
                let action = match plan.drops {
                    true => plan.src.below(7),
                    false => plan.src.below(4),
                } as u8;
                plan.actions.push(action);
                match action {
                    // Read completely
                    0 => walk(&mut d.nested(e), &mut c, plan, depth + 1)?,
                    // Skipped
                    1 => {
                        d.nested(e).ignore()?;
                        c.attrs.push((String::new(), PARTIAL.into(), String::new()));
                    }
                    // Partly read, then skipped
                    2 | 3 => {
                        let mut n = d.nested(e);
                        for _ in 0..plan.src.below(5) {
                            match n.next() {
                                None => break,
                                Some(Ok(Node::Open(e))) => n.nested(e).ignore()?,
                                Some(r) => drop(r?),
                            }
                        }
                        n.ignore()?;
                        c.attrs.push((String::new(), PARTIAL.into(), String::new()));
                    }
                    // Partly read, then dropped
                    4 => {
                        plan.dropped += 1;
                        let mut n = d.nested(e);
                        for _ in 0..plan.src.below(5) {
                            match n.next() {
                                None => break,
                                Some(Ok(Node::Open(e))) => {
                                    walk(&mut n.nested(e), &mut Tree::default(), plan, depth + 1)?
                                }
                                Some(r) => drop(r?),
                            }
                        }
                        c.attrs.push((String::new(), PARTIAL.into(), String::new()));
                    }
                    // Never entered
                    5 => {
                        plan.dropped += 1;
                        c.attrs.push((String::new(), PARTIAL.into(), String::new()));
                    }
                    // One text taken
                    _ => {
                        plan.dropped += 1;
                        drop(d.nested(e).take_str());
                        c.attrs.push((String::new(), PARTIAL.into(), String::new()));
                    }
                }
                t.content.push(XNode::Elem(c));
            }
            _ => {}
        }
    }
    Ok(())
}

fn agrees(truth: &Tree, seen: &Tree) -> bool {
    if (&truth.ns, &truth.name) != (&seen.ns, &seen.name) {
        return false;
    }
    if seen.attrs.iter().any(|a| a.1 == PARTIAL) {
        return true;
    }
    truth.attrs == seen.attrs
        && truth.content.len() == seen.content.len()
        && truth
            .content
            .iter()
            .zip(&seen.content)
            .all(|(a, b)| match (a, b) {
                (XNode::Text(a), XNode::Text(b)) => a == b,
                (XNode::Elem(a), XNode::Elem(b)) => agrees(a, b),
                _ => false,
            })
}
