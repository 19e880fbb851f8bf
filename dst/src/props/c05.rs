//! C05: resource limits against hostile documents.

use super::*;
use crate::alloc;
use crate::xml::Style;
use crate::{bail, no_panic};
use std::fmt::Write as _;

pub const PROP: Prop = Prop {
    id: "C05",
    quick: 200_000,
    thorough: 8_000_000,
    run,
    rule: "distinct (document layout, limits, consumer) cases in which some element is exactly at, or one beyond, a limit",
    simulated: "hostile senders: documents with every element at its limit, one element beyond, thousands of siblings, 100k-deep or 100k-wide floods; consumers: typed, captured, pulled, skipped at the root, ignored as unknown, partly read then skipped; memory metered, 4 MiB stack",
    real: REAL,
    stub: "sender (simulated), allocator wrapper",
    assumptions: &[
        "max_attributes does not count namespace declarations, max_ns_declarations counts prefix declarations (not the default one)",
        "known finding: with_limits does not govern the root's own start tag, which is parsed under the defaults; custom limits are checked on every other element",
    ],
};

/// Plan of one element: attributes, prefix declarations
#[derive(Clone, Debug)]
struct El {
    attrs: usize,
    decls: usize,
    /// Declares a default namespace, which counts as neither
    default: bool,
    kids: Vec<El>,
    text: bool,
}

impl El {
    fn new() -> Self {
        El {
            attrs: 0,
            decls: 0,
            default: false,
            kids: Vec::new(),
            text: false,
        }
    }
    fn nth(&mut self, n: &mut usize) -> Option<&mut El> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for k in &mut self.kids {
            if let Some(e) = k.nth(n) {
                return Some(e);
            }
        }
        None
    }
    fn size(&self) -> usize {
        1 + self.kids.iter().map(El::size).sum::<usize>()
    }
    fn render(&self, out: &mut String, style: u64, level: usize) {
        let name = NAMES[(style as usize + level) % NAMES.len()];
        let _ = write!(out, "<{name}");
        // Declarations and attributes in any order, some attributes prefixed
        let prefixed = self.decls > 0 && style & 8 != 0;
        let attrs = |out: &mut String| {
            for i in 0..self.attrs {
                match prefixed && i % 3 == 0 {
                    true => {
                        let _ = write!(out, " p0:a{i}=\"{i}\"");
                    }
                    false => {
                        let lang = i == 1 && style & 256 != 0;
                        let _ = match lang {
                            true => write!(out, " xml:lang='&lt;{i}'"),
                            false => write!(out, " a{i}='{i}'"),
                        };
                    }
                }
            }
        };
        if self.default && style & 128 == 0 {
            out.push_str(" xmlns='urn:default'");
        }
        if style & 16 != 0 {
            attrs(out);
        }
        if self.default && style & 128 != 0 {
            out.push_str(" xmlns=\"\"");
        }
        for i in 0..self.decls {
            let _ = write!(out, " xmlns:p{i}=\"urn:{i}\"");
        }
        if style & 16 == 0 {
            attrs(out);
        }
        if self.kids.is_empty() && !self.text && style & 32 != 0 {
            out.push_str("/>");
            return;
        }
        out.push('>');
        if self.text {
            out.push_str("t&amp;");
        }
        for k in &self.kids {
            k.render(out, style, level + 1);
            if style & 64 != 0 {
                out.push_str("<!-- c -->");
            }
        }
        let _ = write!(out, "</{name}>");
    }
}

const NAMES: &[&str] = &["a", "b", "tree", "Item"];

/// Consumers; `Err` is a refusal
fn consume(how: usize, doc: &str, limits: Option<Limits>) -> Result<(), Error> {
    let mut d = Deserializer::new(doc)?;
    if let Some(l) = limits {
        d = d.with_limits(l);
    }
    match how {
        0 => d.deserialize::<AnyElement<'_>>().map(drop),
        1 => d.ignore(),
        2 => match pull_all(&mut d) {
            Ok(()) => Ok(()),
            Err(e) => Err(e),
        },
        // Partly read, then skipped
        3 => loop {
            match d.next() {
                None => return Ok(()),
                Some(Err(e)) => return Err(e),
                Some(Ok(Node::Open(e))) => {
                    let mut n = d.nested(e);
                    for _ in 0..3 {
                        match n.next() {
                            Some(Ok(Node::Open(e))) => n.nested(e).ignore()?,
                            Some(Err(e)) => return Err(e),
                            _ => {}
                        }
                    }
                    n.ignore()?;
                }
                Some(Ok(_)) => {}
            }
        },
        // Unknown to a typed reader
        _ => d.deserialize::<zoo::Lenient>().map(drop),
    }
}

fn pull_all(d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        match d.next() {
            None => return Ok(()),
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(e))) => pull_all(&mut d.nested(e))?,
            Some(Ok(_)) => {}
        }
    }
}

const HOW: &[&str] = &[
    "captured",
    "skipped at the root",
    "pulled",
    "partly read then skipped",
    "ignored by a typed reader",
];

fn run(env: &Env, src: &mut Src) -> Check {
    match src.below(10) {
        0..=6 => boundary(src),
        7 => flood(src),
        8 => many(src),
        _ => typed(env, src),
    }
}

fn layout(src: &mut Src, depth: usize, l: &Limits, full: bool, budget: &mut usize) -> El {
    *budget = budget.saturating_sub(1);
    let at = |src: &mut Src, max: usize| match src.below(3) {
        0 if full => max,
        1 => max.min(src.below(max + 1)),
        _ => 0,
    };
    let mut e = El {
        attrs: at(src, l.max_attributes),
        decls: at(src, l.max_ns_declarations),
        default: src.chance(1, 4),
        kids: Vec::new(),
        text: src.chance(1, 2),
    };
    if depth > 1 {
        let n = src.below(4);
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            e.kids.push(layout(src, depth - 1, l, full, budget));
        }
    }
    e
}

fn boundary(src: &mut Src) -> Check {
    let custom = src.chance(2, 3);
    let mut limits = Limits::default();
    if custom {
        limits.max_attributes = src.below(6);
        limits.max_levels = 1 + src.below(8);
        limits.max_ns_declarations = src.below(5);
        // Keep one of them at its default sometimes
        match src.below(6) {
            0 => limits.max_attributes = Limits::default().max_attributes,
            1 => limits.max_levels = Limits::default().max_levels,
            2 => limits.max_ns_declarations = 100,
            3 => limits.max_levels = 60,
            _ => {}
        }
        // Large ones are rare, as the documents are large then
        if src.chance(1, 30) {
            let edge = *src.pick(&[127, 128, 129, 200, 254, 255, 256, 257, 260, 300]);
            match src.below(3) {
                0 => limits.max_attributes = edge * src.pick(&[1, 1, 2, 4]),
                1 => limits.max_levels = edge,
                _ => limits.max_ns_declarations = edge * src.pick(&[1, 1, 2, 4]),
            }
        }
    }
    // No limit at all: what is left of `limits` only says how large the document is
    let lifted = (custom && src.chance(1, 30)).then(|| src.below(3));
    let mut budget = 12;
    let depth = limits.max_levels.min(2 + src.below(5));
    let mut doc = layout(src, depth, &limits, true, &mut budget);
    // Grow one path to exactly the maximum depth
    let tall = src.chance(1, 2);
    if tall {
        let side = src.chance(1, 2);
        let mut here = &mut doc;
        for level in 1..limits.max_levels {
            if here.kids.is_empty() || (side && level == 1) {
                here.kids.push(El::new());
            }
            let last = here.kids.len() - 1;
            here = &mut here.kids[last];
        }
        here.kids.clear();
        here.attrs = *src.pick(&[0, limits.max_attributes]);
    }
    // The root's own tag is parsed under the defaults
    let default = Limits::default();
    doc.attrs = match custom {
        true => doc
            .attrs
            .min(default.max_attributes)
            .min(limits.max_attributes),
        false => doc.attrs,
    };
    doc.decls = doc.decls.min(match custom {
        true => limits.max_ns_declarations.min(default.max_ns_declarations),
        false => default.max_ns_declarations,
    });
    let how = src.below(HOW.len());
    let style = src.raw() & 0x1ff;
    // The typed reader wants its root in no namespace
    doc.default &= how != 4;
    let mut actual = limits;
    match lifted {
        Some(0) => actual.max_attributes = usize::MAX,
        Some(1) => actual.max_ns_declarations = usize::MAX,
        Some(_) => actual.max_levels = usize::MAX,
        None => {}
    }
    let given = match custom {
        true => Some(actual),
        // with_limits(default) is the same as no call
        false => src.chance(1, 3).then_some(limits),
    };
    let ok = render(&doc, style);
    src.nontrivial();
    src.fp(ok.as_bytes());
    src.fp_n(how);
    src.note(|| format!("{}, limits {given:?}: {}", HOW[how], clip(&ok)));
    if let Err(e) = no_panic!("read", consume(how, &ok, given)) {
        bail!(
            "refused within the limits",
            "{} with {given:?}: {e} for {}",
            HOW[how],
            clip(&ok)
        );
    }
    src.case();
    // Now one element goes one beyond one limit
    let size = doc.size();
    let kind = src.below(3);
    if lifted == Some(kind) {
        return Ok(());
    }
    let mut bad = doc.clone();
    let mut n = match custom && kind != 2 {
        true if size == 1 => return Ok(()),
        true => 1 + src.below(size - 1),
        false => src.below(size),
    };
    match kind {
        0 => {
            src.fault("one attribute too many");
            bad.nth(&mut n).expect("harness").attrs = limits.max_attributes + 1 + src.small(3);
        }
        1 => {
            src.fault("one declaration too many");
            bad.nth(&mut n).expect("harness").decls = limits.max_ns_declarations + 1 + src.small(3);
        }
        _ => {
            src.fault("one level too deep");
            let pos = src.chance(1, 2);
            let mut here = &mut bad;
            for _ in 0..limits.max_levels {
                if here.kids.is_empty() {
                    here.kids.push(El::new());
                }
                let i = match pos {
                    true => 0,
                    false => here.kids.len() - 1,
                };
                here = &mut here.kids[i];
            }
        }
    }
    let over = render(&bad, style);
    src.fp(over.as_bytes());
    src.note(|| format!("beyond a limit: {}", clip(&over)));
    if no_panic!("read", consume(how, &over, given)).is_ok() {
        bail!(
            "accepted beyond the limits",
            "{} with {given:?}: {}",
            HOW[how],
            clip(&over)
        );
    }
    src.case();
    Ok(())
}

fn render(doc: &El, style: u64) -> String {
    let mut s = String::new();
    doc.render(&mut s, style, 0);
    s
}

/// Floods far beyond the limits: refused early, cheaply, without recursion.
fn flood(src: &mut Src) -> Check {
    let n = 2_000 + src.below(30_000);
    let kind = src.below(5);
    let how = src.below(HOW.len());
    let mut doc = String::new();
    let lead = src.below(4);
    for _ in 0..lead {
        doc.push_str("<a>");
    }
    match kind {
        0 => doc.push_str(&"<a>".repeat(n)),
        1 => {
            doc.push_str(&"<a>".repeat(n));
            doc.push_str(&"</a>".repeat(n + lead));
        }
        2 => {
            doc.push_str("<a");
            for i in 0..n {
                let _ = write!(doc, " a{i}=\"\"");
            }
            doc.push_str("/>");
            doc.push_str(&"</a>".repeat(lead));
        }
        3 => {
            doc.push_str("<a");
            for i in 0..n {
                let _ = write!(doc, " xmlns:a{i}=\"\"");
            }
            doc.push_str("/>");
            doc.push_str(&"</a>".repeat(lead));
        }
        _ => {
            doc.push_str(&"<a b=\"&amp;\">".repeat(n));
            doc.push_str("x");
        }
    }
    src.fault(match kind {
        0 | 1 | 4 => "flood of nested elements",
        2 => "flood of attributes",
        _ => "flood of declarations",
    });
    src.fp_n(n);
    src.fp_n(kind);
    src.fp_n(how);
    src.note(|| format!("{}: flood {kind} of {n}", HOW[how]));
    let (r, peak) = alloc::peak(|| guard(|| consume(how, &doc, None)));
    match r {
        Ok(Err(_)) => {}
        Ok(Ok(())) => bail!(
            "accepted beyond the limits",
            "{} flood {kind} of {n}",
            HOW[how]
        ),
        Err(msg) => bail!("panic", "{} flood {kind} of {n}: {msg}", HOW[how]),
    }
    // 32 levels of 64 attributes and 32 declarations fit easily
    if peak > 1 << 20 {
        bail!(
            "memory",
            "{} flood {kind} of {n} held {peak} bytes",
            HOW[how]
        );
    }
    src.stats.bytes += doc.len() as u64;
    src.case();
    Ok(())
}

/// Many elements, each at its limit: accepted, in memory that does not grow with history.
fn many(src: &mut Src) -> Check {
    let n = 100 + src.below(1500);
    let how = src.below(HOW.len());
    let l = Limits::default();
    let style = src.raw() & 0x1ff;
    let mut kid = El {
        default: src.chance(1, 2),
        ..El::new()
    };
    match src.below(4) {
        0 => kid.attrs = l.max_attributes,
        1 => kid.decls = l.max_ns_declarations,
        2 => {
            // As deep as it gets, again and again
            for _ in 0..l.max_levels - 2 {
                kid = El {
                    kids: vec![kid],
                    ..El::new()
                };
            }
        }
        _ => {}
    }
    let mut one = String::new();
    kid.render(&mut one, style, 1);
    let name = NAMES[style as usize % NAMES.len()];
    let doc = format!("<{name}>{}</{name}>", one.repeat(n));
    src.nontrivial();
    src.fault("many siblings at a limit");
    src.fp_n(n);
    src.fp(one.as_bytes());
    src.fp_n(how);
    src.note(|| format!("{}: {n} times {}", HOW[how], clip(&one)));
    let (r, peak) = alloc::peak(|| guard(|| consume(how, &doc, None)));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => bail!(
            "refused within the limits",
            "{} {n} siblings: {e}: {}",
            HOW[how],
            clip(&one)
        ),
        Err(msg) => bail!("panic", "{} {n} siblings: {msg}", HOW[how]),
    }
    // Only the capture keeps anything
    if how != 0 && peak > 1 << 20 {
        bail!("memory", "{} {n} siblings held {peak} bytes", HOW[how]);
    }
    src.stats.bytes += doc.len() as u64;
    src.case();
    Ok(())
}

/// Typed recursion: depth at and beyond the limit through derived readers.
fn typed(env: &Env, src: &mut Src) -> Check {
    let shape = env.named("recursive");
    *src.stats.shapes.entry(shape.name).or_default() += 1;
    let mut l = Limits::default();
    let custom = src.chance(1, 2);
    if custom {
        l.max_levels = 2 + src.below(60);
    }
    let leaf = src.chance(1, 2);
    let build = |levels: usize| {
        let mut t = Tree::new("", "tree");
        t.attrs.push((String::new(), "label".into(), "x".into()));
        let elems = match leaf {
            true => levels - 1,
            false => levels,
        };
        if leaf {
            let mut v = Tree::new("", "value");
            v.text("1");
            t.content.push(XNode::Elem(v));
        }
        for i in 1..elems {
            let mut p = Tree::new("", "tree");
            p.attrs
                .push((String::new(), "label".into(), format!("{i}")));
            p.content.push(XNode::Elem(t));
            t = p;
        }
        t
    };
    let style = Style {
        spacing: src.chance(1, 2),
        ..Style::plain()
    };
    src.fp_n(l.max_levels);
    src.fp_n(leaf as usize);
    src.fp_n(custom as usize);
    src.nontrivial();
    for over in [0, 1] {
        let t = build(l.max_levels + over);
        let doc = crate::xml::encode(src, &style, &t);
        let r = match custom {
            true => no_panic!("read", (shape.read_with)(&doc, l)),
            false => no_panic!("read", (shape.read)(&doc)),
        };
        if over == 1 {
            src.fault("one level too deep");
        }
        src.note(|| {
            format!(
                "typed recursion of {} levels, limit {}: {}",
                l.max_levels + over,
                l.max_levels,
                r.is_ok()
            )
        });
        match (&r, over) {
            (Ok(got), 0) => match model::read(&shape.ty(), &t) {
                Ok(want) if model::same(&want, got) => {}
                want => bail!(
                    "misread at the limit",
                    "{} levels: {} instead of {}",
                    l.max_levels,
                    short(got),
                    short(&want)
                ),
            },
            (Err(_), 1) => {}
            (Err(e), _) => bail!(
                "refused within the limits",
                "typed recursion of {} levels: {e}",
                l.max_levels
            ),
            (Ok(_), _) => bail!(
                "accepted beyond the limits",
                "typed recursion of {} levels, limit {}",
                l.max_levels + 1,
                l.max_levels
            ),
        }
        src.case();
    }
    Ok(())
}
