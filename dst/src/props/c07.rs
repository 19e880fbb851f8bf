//! C07: fragments of typed documents are lost, duplicated, reordered or come from elsewhere.

use super::*;
use crate::model::Fail;
use crate::xml::{self, Style};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C07",
    quick: 1_500_000,
    thorough: 60_000_000,
    run,
    rule: "distinct (type, document after the faults) pairs where at least one fault changed the document",
    simulated: "a channel that delivers the fragments (attributes, child elements, texts) of a typed document lost, duplicated, reordered, misdelivered to another parent, renamed, or mixed with foreign ones",
    real: REAL,
    stub: "channel (simulated), reference reader of types (the oracle)",
    assumptions: &[
        "several direct texts, partially present optional groups (transparent structs) and elements inside scalars are left open by the property and skipped (counted as probes)",
    ],
};

fn run(env: &Env, src: &mut Src) -> Check {
    let shape = env.any(src);
    let ty = shape.ty();
    let gen = small_gen(src).vary(src);
    let v = model::gen(src, &ty, gen);
    let mut tree = model::document(&ty, &v);
    let before = tree.clone();
    let n = match src.below(4) {
        0..=1 => 1,
        2 => 2,
        _ => 1 + src.below(5),
    };
    // Does the loss or the duplication of one fragment explain everything?
    let mut plain = n == 1;
    for _ in 0..n {
        plain &= fault(env, src, &mut tree);
    }
    if tree == before {
        return Ok(());
    }
    let want = model::read(&ty, &tree);
    let style = match src.chance(1, 4) {
        true => Style::gen(src),
        false => Style::plain(),
    };
    let doc = xml::encode(src, &style, &tree);
    src.fp(doc.as_bytes());
    src.note(|| format!("{} {v:?} arrives as {doc}; expected {want:?}", shape.name));
    let got = no_panic!("read", (shape.read)(&doc));
    src.case();
    match (&want, &got) {
        (Err(Fail::Open(why)), _) => src.stats.probe(why),
        (Ok(want), Ok(got)) if model::same_unordered(want, got) => {
            src.stats.probe("read as the reference does")
        }
        // Not well formed: refusing it is right as well, even where nothing reads the attribute
        (Ok(_), Err(_)) if doubled(&tree) => {
            src.stats.probe("duplicate attribute nobody reads refused")
        }
        (Ok(want), got) => bail!(
            match got {
                Ok(_) => "misread",
                Err(_) => "refused",
            },
            "{}: {} reads as {} instead of {}",
            shape.name,
            clip(&doc),
            short(got),
            short(want)
        ),
        (Err(fail), Ok(got)) => bail!(
            match fail {
                Fail::Missing => "missing fragment accepted",
                Fail::Duplicate => "duplicate fragment accepted",
                _ => "bad fragment accepted",
            },
            "{}: {} reads as {}, expected {fail:?}",
            shape.name,
            clip(&doc),
            short(got)
        ),
        // With a single fragment lost or duplicated, the error says what is wrong
        (Err(Fail::Duplicate), Err(e)) if plain => {
            src.stats.probe("refused as duplicate");
            if !matches!(e, Error::DuplicateValue(_)) {
                bail!(
                    "not reported as duplicate",
                    "{}: {}: {e:?}",
                    shape.name,
                    clip(&doc)
                );
            }
        }
        (Err(Fail::Missing), Err(e)) if plain => {
            src.stats.probe("refused as missing");
            if !matches!(e, Error::MissingValue(_)) {
                bail!(
                    "not reported as missing",
                    "{}: {}: {e:?}",
                    shape.name,
                    clip(&doc)
                );
            }
        }
        (Err(_), Err(_)) => src.stats.probe("refused"),
    }
    Ok(())
}

fn pick_mut<'a>(src: &mut Src, t: &'a mut Tree) -> &'a mut Tree {
    let mut n = src.below(t.size());
    t.nth_mut(&mut n).expect("harness: element")
}

/// Damage one place; was it a fragment lost or delivered twice, and nothing else?
fn fault(env: &Env, src: &mut Src, root: &mut Tree) -> bool {
    let kind = src.below(15);
    let mut exact = true;
    let donor = match kind {
        8 | 9 => {
            let mut copy = root.clone();
            Some(pick_mut(src, &mut copy).clone())
        }
        _ => None,
    };
    let t = pick_mut(src, root);
    let len = t.content.len();
    match kind {
        0 | 1 if len > 0 => {
            let at = src.below(len);
            let kind = match t.content.remove(at) {
                XNode::Elem(_) => "element lost",
                XNode::Text(_) => "text lost",
            };
            src.fault(kind);
        }
        2 if !t.attrs.is_empty() => {
            let at = src.below(t.attrs.len());
            t.attrs.remove(at);
            src.fault("attribute lost");
        }
        3 | 4 if t.elems().next().is_some() => {
            let at: Vec<usize> = (0..len)
                .filter(|i| matches!(t.content[*i], XNode::Elem(_)))
                .collect();
            let copy = t.content[*src.pick(&at)].clone();
            let to = src.below(len + 1);
            t.content.insert(to, copy);
            src.fault("element duplicated");
        }
        5 | 6 if len > 1 => {
            for i in (1..len).rev() {
                let j = src.below(i + 1);
                t.content.swap(i, i - j);
            }
            src.fault("elements reordered");
        }
        7 if t.attrs.len() > 1 => {
            for i in (1..t.attrs.len()).rev() {
                let j = src.below(i + 1);
                t.attrs.swap(i, i - j);
            }
            src.fault("attributes reordered");
        }
        8 => {
            // A fragment of another part of the document
            let to = src.below(len + 1);
            let donor = donor.expect("harness: donor");
            if donor.depth() < 12 {
                t.content.insert(to, XNode::Elem(donor));
                src.fault("fragment misdelivered");
            }
        }
        9 => {
            let other = &env.shapes[src.below(env.shapes.len())];
            let v = model::gen(
                src,
                &other.ty(),
                Gen {
                    depth: 2,
                    poison: false,
                    list: 2,
                    ..Gen::default()
                },
            );
            let mut f = model::document(&other.ty(), &v);
            // Same name from elsewhere, or another name from here
            if let Some(d) = donor {
                match src.below(4) {
                    0 => f.name = d.name,
                    1 => f.ns = d.ns,
                    2 => {
                        f.ns = d.ns;
                        f.name = d.name;
                    }
                    _ => {}
                }
            }
            let to = src.below(len + 1);
            t.content.insert(to, XNode::Elem(f));
            src.fault("foreign element inserted");
        }
        10 => {
            let ns = *src.pick(&["", "urn:a", "urn:b", "urn:foreign", xml::XML_NS]);
            let name = *src.pick(&["id", "a", "key", "foreign", "n", "lang"]);
            if !t.attrs.iter().any(|(n, l, _)| n == ns && l == name) {
                let to = src.below(t.attrs.len() + 1);
                let v = *src.pick(&["", "1", "x", "&<>"]);
                t.attrs.insert(to, (ns.into(), name.into(), v.into()));
                src.fault("foreign attribute inserted");
            }
        }
        11 => {
            match src.below(3) {
                0 => t.ns = src.pick(&["", "urn:a", "urn:b", "urn:p"]).to_string(),
                1 => t.name.push('x'),
                _ => {
                    if let Some(a) = t.attrs.first_mut() {
                        a.1.push('x');
                    }
                }
            }
            src.fault("fragment renamed");
        }
        12 => {
            // Indentation, or stray text
            let s = *src.pick(&[" ", "\n  ", "\t", "\r\n", "x", "1", " 7 ", "<&>", "\u{a0}"]);
            let everywhere = s.trim().is_empty() && src.chance(1, 2);
            match everywhere {
                true => indent(t, s),
                false => {
                    let to = src.below(len + 1);
                    t.content.insert(to, XNode::Text(s.to_owned()));
                }
            }
            src.fault("text inserted");
        }
        13 | 14 if !t.attrs.is_empty() => {
            let mut copy = src.pick(&t.attrs).clone();
            let before = copy.2.clone();
            match src.below(4) {
                0..=1 => {}
                2 => copy.2.push('1'),
                _ => copy.2 = src.pick(&["", "1", "x", "true"]).to_string(),
            }
            // A bad value may be reported before the duplicate
            exact = copy.2 == before;
            let to = src.below(t.attrs.len() + 1);
            t.attrs.insert(to, copy);
            src.fault("attribute duplicated");
        }
        _ => {}
    }
    join(t);
    exact && matches!(kind, 0..=4 | 13..=14)
}

/// Does an attribute occur twice on the same element?
fn doubled(t: &Tree) -> bool {
    t.attrs
        .iter()
        .enumerate()
        .any(|(i, a)| t.attrs[..i].iter().any(|b| a.0 == b.0 && a.1 == b.1))
        || t.elems().any(doubled)
}

/// White space around all elements that have no text of their own
fn indent(t: &mut Tree, s: &str) {
    if t.content.is_empty() || t.content.iter().any(|n| matches!(n, XNode::Text(_))) {
        return;
    }
    let mut content = Vec::new();
    for mut n in t.content.drain(..) {
        if let XNode::Elem(e) = &mut n {
            indent(e, s);
        }
        content.push(XNode::Text(s.to_owned()));
        content.push(n);
    }
    content.push(XNode::Text(s.to_owned()));
    t.content = content;
}

/// Adjacent texts are one
fn join(t: &mut Tree) {
    let content = std::mem::take(&mut t.content);
    for n in content {
        match n {
            XNode::Text(s) => t.text(&s),
            n => t.content.push(n),
        }
    }
}
