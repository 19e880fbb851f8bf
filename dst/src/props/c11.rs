//! C11: names written in any nesting and any history of writer calls.

use super::*;
use crate::model::Model;
use crate::xml::{self, Verdict};
use crate::zoo::{A, B, C, P, Q};
use crate::{bail, no_panic};
use instant_xml::ser::{Context, Element, Prefix};
use instant_xml::{Serializer, ToXml};

pub const PROP: Prop = Prop {
    id: "C11",
    quick: 1_200_000,
    thorough: 48_000_000,
    run,
    rule: "distinct documents or call histories with at least two elements",
    simulated: "programs writing values of nested namespaced types, and random histories of writer calls, in which calls are out of order or name undeclared prefixes",
    real: REAL,
    stub: "reference XML reader (the oracle), model of the intended document",
    assumptions: &[
        "contexts passed to write_start name the element's own namespace as default, as derived code does; elements started without a context in a new namespace have text only (known finding)",
        "attributes in the element's own namespace are only written where a prefix is declared for it (known finding)",
    ],
};

fn run(env: &Env, src: &mut Src) -> Check {
    match src.below(2) {
        0 => typed(env, src),
        _ => history(src),
    }
}

fn typed(env: &Env, src: &mut Src) -> Check {
    let shape = match src.below(4) {
        0 => env.writable(src),
        1 => env.named(src.pick(&[
            "namespaces",
            "other namespace",
            "namespace path",
            "forced prefix",
            "namespaced tuple",
        ])),
        _ => env.named("namespace tree"),
    };
    *src.stats.shapes.entry(shape.name).or_default() += 1;
    let gen = Gen {
        depth: 3 + src.below(6),
        poison: false,
        list: 4,
        ..Gen::default()
    }
    .vary(src);
    let v = model::gen(src, &shape.ty(), gen);
    let want = model::document(&shape.ty(), &v);
    let doc = match no_panic!("write", shape.string(&v)) {
        Ok(s) => s,
        Err(e) => bail!("refused", "{} {}: {e}", shape.name, short(&v)),
    };
    src.fp(doc.as_bytes());
    if want.size() > 1 {
        src.nontrivial();
        src.stats.fault("nested namespaces written");
    }
    src.note(|| format!("{} {v:?} written as {doc}", shape.name));
    match xml::parse(&doc) {
        Verdict::Tree(got) => {
            if names(&got) != names(&want) {
                bail!(
                    "wrong name or namespace",
                    "{} written as {}: names {} instead of {}",
                    shape.name,
                    clip(&doc),
                    short(&names(&got)),
                    short(&names(&want))
                );
            }
        }
        Verdict::Reject(why) | Verdict::Open(why) => {
            bail!("not well-formed", "{} ({why}): {}", shape.name, clip(&doc))
        }
    }
    src.case();
    Ok(())
}

/// Names only; attribute order carries no meaning
fn names(t: &Tree) -> Tree {
    let mut n = Tree::new(&t.ns, &t.name);
    n.attrs = t
        .attrs
        .iter()
        .map(|(ns, name, _)| (ns.clone(), name.clone(), String::new()))
        .collect();
    n.attrs.sort();
    n.content = t.elems().map(|e| XNode::Elem(names(e))).collect();
    n
}

// Histories of calls

enum El {
    E0(Element<'static, 0>),
    E1(Element<'static, 1>),
    E2(Element<'static, 2>),
    E3(Element<'static, 3>),
}

struct Frame {
    el: Option<El>,
    tree: Tree,
    /// (prefix, namespace) of its context
    decls: Vec<(&'static str, &'static str)>,
    /// Only text may follow
    leaf: bool,
    ns: &'static str,
}

const NSS: &[&str] = &["", A, B, C, P, Q];
const PFX: &[&str] = &["p", "q", "a", "x-y.z"];
const NAMES: &[&str] = &["e", "item", "x-1", "N", "ü"];
const ANAMES: &[&str] = &["k", "v", "w", "id"];

/// Is a prefix for `ns` in scope? None: the documented rules leave it open.
fn declared(frames: &[Frame], ns: &str) -> Option<bool> {
    let mut prefixes: Vec<&str> = Vec::new();
    let mut state = Some(false);
    for f in frames {
        for (p, n) in &f.decls {
            if *n == ns {
                prefixes.push(p);
                // A context may declare the same prefix twice; the later rules decide
                state = match f.decls.iter().any(|(q, m)| q == p && m != n) {
                    true => None,
                    false => Some(true),
                };
            }
        }
        if f.decls
            .iter()
            .any(|(p, n)| *n != ns && prefixes.contains(p))
            && state.is_some()
        {
            state = match f.decls.iter().any(|(_, n)| *n == ns) {
                true => state,
                false => None,
            };
        }
    }
    state
}

macro_rules! start {
    ($ser:expr, $name:expr, $ns:expr, $decls:expr, $force:expr, $n:literal, $var:ident) => {{
        let mut cx = Context::<$n>::default();
        cx.default_ns = $ns;
        cx.force_prefix = $force;
        for (i, (p, n)) in $decls.iter().enumerate() {
            cx.prefixes[i] = Prefix { prefix: p, ns: n };
        }
        $ser.write_start($name, $ns, Some(cx)).map(El::$var)
    }};
}

fn start<W: fmt::Write + ?Sized>(
    ser: &mut Serializer<'_, W>,
    name: &'static str,
    ns: &'static str,
    cx: Option<(&[(&'static str, &'static str)], bool)>,
) -> Result<El, Error> {
    match cx {
        None => ser.write_start(name, ns, None::<Context<0>>).map(El::E0),
        Some((decls, force)) => match decls.len() {
            0 => start!(ser, name, ns, decls, force, 0, E0),
            1 => start!(ser, name, ns, decls, force, 1, E1),
            2 => start!(ser, name, ns, decls, force, 2, E2),
            _ => start!(ser, name, ns, decls, force, 3, E3),
        },
    }
}

fn close<W: fmt::Write + ?Sized>(ser: &mut Serializer<'_, W>, el: El) -> Result<(), Error> {
    match el {
        El::E0(e) => ser.write_close(e),
        El::E1(e) => ser.write_close(e),
        El::E2(e) => ser.write_close(e),
        El::E3(e) => ser.write_close(e),
    }
}

/// Shared output, so that it can be watched between calls
struct Out<'a>(&'a std::cell::RefCell<String>);
impl fmt::Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

fn history(src: &mut Src) -> Check {
    let buf = std::cell::RefCell::new(String::new());
    let mut log: Vec<String> = Vec::new();
    let r = guard(|| drive(src, &buf, &mut log));
    let doc = buf.borrow().clone();
    let want = match r {
        Ok(Ok(t)) => t,
        Ok(Err(mut v)) => {
            v.detail = format!("{} after {:?}; output {}", v.detail, log, clip(&doc));
            return Err(v);
        }
        Err(msg) => bail!("panic", "{msg} after {log:?}"),
    };
    src.fp(doc.as_bytes());
    src.fp(log.join(" ").as_bytes());
    src.note(|| format!("calls {}: {doc}", log.join(", ")));
    if want.size() > 1 {
        src.nontrivial();
    }
    match xml::parse(&doc) {
        Verdict::Tree(got) => {
            if got.clone().sorted() != want.clone().sorted() {
                bail!(
                    "wrong name or namespace",
                    "{} says {} instead of {} after {}",
                    clip(&doc),
                    short(&got),
                    short(&want),
                    clip(&log.join(", "))
                );
            }
        }
        Verdict::Reject(why) | Verdict::Open(why) => {
            bail!(
                "not well-formed",
                "({why}) {} after {}",
                clip(&doc),
                clip(&log.join(", "))
            )
        }
    }
    src.case();
    Ok(())
}

fn drive(
    src: &mut Src,
    buf: &std::cell::RefCell<String>,
    log: &mut Vec<String>,
) -> Result<Tree, crate::sim::Violation> {
    let mut out = Out(buf);
    let ser = &mut Serializer::new(&mut out);
    let mut frames: Vec<Frame> = Vec::new();
    let mut root: Option<Tree> = None;
    let mut in_tag = false;
    // Now and then a long or a deep history
    let (mut budget, deepest) = match src.below(20) {
        0..=17 => (4 + src.below(40), 7),
        18 => (100 + src.below(200), 7),
        _ => (60 + src.below(100), 29),
    };
    loop {
        src.stats.steps += 1;
        budget = budget.saturating_sub(1);
        for ns in NSS.iter().filter(|ns| !ns.is_empty()) {
            match declared(&frames, ns) {
                Some(want) if want != ser.prefix(ns).is_some() => bail!(
                    "wrong prefix reported",
                    "prefix({ns:?}) is {:?} with {} open elements",
                    ser.prefix(ns),
                    frames.len()
                ),
                _ => {}
            }
        }
        if frames.is_empty() && root.is_some() {
            if !ser.default_ns().is_empty() {
                bail!(
                    "declaration outlives its element",
                    "default_ns() is {:?} after the root",
                    ser.default_ns()
                );
            }
            break;
        }
        // A call that has to be refused
        if !frames.is_empty() && src.chance(1, 5) {
            let before = buf.borrow().len();
            let mut gone = false;
            let (what, r): (&'static str, Result<(), Error>) = match (in_tag, src.below(4)) {
                (true, 0) => {
                    let ns = *src.pick(NSS);
                    let decls: &[(&str, &str)] = &[("p", Q), ("q", P)];
                    let cx = src.chance(1, 2).then_some((decls, false));
                    (
                        "start inside a tag",
                        start(ser, "refused", ns, cx).map(drop),
                    )
                }
                (true, 1) => ("text inside a tag", ser.write_str("refused")),
                (true, 2) => {
                    let unknown: Vec<&&str> = NSS
                        .iter()
                        .filter(|ns| {
                            !ns.is_empty()
                                && declared(&frames, ns) == Some(false)
                                && **ns != ser.default_ns()
                                && **ns != frames[frames.len() - 1].ns
                        })
                        .collect();
                    match unknown.is_empty() {
                        true => continue,
                        false => (
                            "attribute with an undeclared prefix",
                            ser.write_attr("refused", *src.pick(&unknown), "refused"),
                        ),
                    }
                }
                (true, _) => {
                    // The element is given up with the call: it can only be empty
                    gone = true;
                    let el = frames.last_mut().expect("harness").el.take();
                    match el {
                        Some(el) => ("close inside a tag", close(ser, el)),
                        None => continue,
                    }
                }
                (false, 0) => (
                    "attribute outside a tag",
                    ser.write_attr("refused", "", "refused"),
                ),
                (false, 1) => ("end of a tag outside a tag", ser.end_start()),
                (false, 2) => ("empty end outside a tag", ser.end_empty()),
                (false, _) => ("attribute outside a tag", ser.write_attr("refused", P, &1)),
            };
            log.push(format!("refused: {what}"));
            src.fault("refused writer call");
            if r.is_ok() {
                bail!("out of order accepted", "{what} was accepted");
            }
            if buf.borrow().len() != before {
                bail!(
                    "refused call left a trace",
                    "{what} wrote {:?}",
                    &buf.borrow()[before..]
                );
            }
            if gone {
                log.push("end_empty".into());
                ok(ser.end_empty(), "end_empty")?;
                in_tag = false;
                pop(&mut frames, &mut root);
            }
            continue;
        }
        if in_tag {
            let done = match src.below(5) {
                0..=2 if budget > 0 => false,
                _ => true,
            };
            if !done {
                let f = &frames[frames.len() - 1];
                let ns = *src.pick(NSS);
                let name = *src.pick(ANAMES);
                let usable = ns.is_empty() || declared(&frames, ns) == Some(true);
                let taken = f.tree.attrs.iter().any(|(n, l, _)| n == ns && l == name);
                if usable && !taken {
                    let value = *src.pick(&["v", "", "a&b<c>\"d'", "1"]);
                    log.push(format!("write_attr({name:?}, {ns:?}, {value:?})"));
                    ok(ser.write_attr(name, ns, value), "write_attr")?;
                    let f = frames.last_mut().expect("harness");
                    f.tree.attrs.push((ns.into(), name.into(), value.into()));
                }
                continue;
            }
            if src.chance(1, 3) {
                log.push("end_empty".into());
                ok(ser.end_empty(), "end_empty")?;
                pop(&mut frames, &mut root);
            } else {
                log.push("end_start".into());
                ok(ser.end_start(), "end_start")?;
            }
            in_tag = false;
            continue;
        }
        let leaf = frames.last().is_some_and(|f| f.leaf);
        let depth = frames.len();
        match src.below(8) {
            0..=3 if !leaf && depth < deepest && (budget > 0 || frames.is_empty()) => {
                let name = *src.pick(NAMES);
                let ns = *src.pick(NSS);
                let plain = src.chance(1, 4);
                let mut decls: Vec<(&'static str, &'static str)> = Vec::new();
                let force = !plain && src.chance(1, 4);
                if !plain {
                    for _ in 0..src.below(4) {
                        let p = *src.pick(PFX);
                        let n = *src.pick(&NSS[1..]);
                        // One prefix means one thing within one context
                        if !decls.iter().any(|(q, _)| *q == p) {
                            decls.push((p, n));
                        }
                    }
                }
                log.push(match plain {
                    true => format!("write_start({name:?}, {ns:?}, None)"),
                    false => {
                        format!("write_start({name:?}, {ns:?}, Some({decls:?}, force: {force}))")
                    }
                });
                let same = ns == ser.default_ns();
                let cx = (!plain).then_some((&decls[..], force));
                let el = match start(ser, name, ns, cx) {
                    Ok(el) => el,
                    Err(e) => bail!("refused", "write_start in order was refused: {e}"),
                };
                in_tag = true;
                frames.push(Frame {
                    el: Some(el),
                    tree: Tree::new(ns, name),
                    decls,
                    leaf: plain && !same,
                    ns,
                });
            }
            4 if !frames.is_empty() => {
                let text = *src.pick(&["t", "some text", "1"]);
                log.push(format!("write_str({text:?})"));
                ok(ser.write_str(text), "write_str")?;
                frames.last_mut().expect("harness").tree.text(text);
            }
            5 if !frames.is_empty() && !leaf && budget > 0 => {
                // A derived value in between
                let ty = zoo::AnyNode::ty();
                let v = model::gen(
                    src,
                    &ty,
                    Gen {
                        depth: 2,
                        poison: false,
                        list: 2,
                        ..Gen::default()
                    },
                );
                let value = zoo::AnyNode::from_val(&v);
                log.push(format!("serialize {v:?}"));
                ok(value.serialize(None, ser), "serialize")?;
                model::write(
                    &ty,
                    &v,
                    ("", ""),
                    &mut frames.last_mut().expect("harness").tree,
                );
            }
            _ if !frames.is_empty() => {
                log.push("write_close".into());
                let el = frames
                    .last_mut()
                    .expect("harness")
                    .el
                    .take()
                    .expect("harness: element");
                ok(close(ser, el), "write_close")?;
                pop(&mut frames, &mut root);
            }
            _ => {}
        }
    }
    Ok(root.expect("harness: root"))
}

fn ok(r: Result<(), Error>, what: &str) -> Check {
    match r {
        Ok(()) => Ok(()),
        Err(e) => bail!("refused", "{what} in order was refused: {e}"),
    }
}

fn pop(frames: &mut Vec<Frame>, root: &mut Option<Tree>) {
    let f = frames.pop().expect("harness: frame");
    match frames.last_mut() {
        Some(p) => p.tree.content.push(XNode::Elem(f.tree)),
        None => *root = Some(f.tree),
    }
}
