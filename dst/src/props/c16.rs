//! C16: work and memory in proportion to the document.

use super::*;
use crate::hooks::{self, Act};
use crate::model::Ty;
use crate::xml::{self, Style};
use crate::{alloc, bail};
use hook::{library, meter, Work};

pub const PROP: Prop = Prop {
    id: "C16",
    quick: 40_000,
    thorough: 1_600_000,
    run,
    rule: "distinct (document, part that grows, consumer or sink) cases measured at two sizes a factor of 16 apart",
    simulated: "senders that repeat any part of a document (elements, pieces of text, references, CDATA sections, comments, attribute values, attributes, spacing, names, unknown elements), torn or damaged before or after that part; consumers: the type itself, another type, capture, node by node, skip; writers whose lists or texts grow, with sinks and conversions that fail at the end; long histories of messages",
    real: "instant-xml, instant-xml-macros derive output, xmlparser and the Rust standard library, built with counters in every basic block",
    stub: "sender, sinks (simulated), memcpy and its relatives (count, then do the same), allocator wrapper",
    assumptions: &[
        "work is basic blocks executed; memory traffic is bytes moved, compared or allocated: all of them deterministic",
        "allowed: 1.5 times the proportional work and 2.5 times the proportional traffic, as buffers grow by doubling",
        "one part grows, or two together; nesting depth does not grow; attributes and declarations per element grow under raised limits, except on the root, whose start tag is read under the default limits",
    ],
};

/// Between the two sizes
const FACTOR: usize = 16;

fn over(small: Work, large: Work) -> Option<&'static str> {
    let f = FACTOR as u64;
    if large.blocks > small.blocks * f * 3 / 2 + 30_000 {
        return Some("work grows faster than the document");
    }
    if large.moved > small.moved * f * 5 / 2 + 200_000 {
        return Some("memory traffic grows faster than the document");
    }
    if large.allocated > small.allocated * f * 5 / 2 + 200_000 {
        return Some("allocation grows faster than the document");
    }
    None
}

/// Where something stands in a well-formed document
#[derive(Default)]
struct Spans {
    /// Elements below the root
    elems: Vec<(usize, usize)>,
    /// Pieces of content: runs of characters, sections, comments
    pieces: Vec<(usize, usize)>,
    /// Positions between pieces and elements inside the root
    gaps: Vec<usize>,
    /// Attribute values
    values: Vec<(usize, usize)>,
    /// Just behind the name of a start tag
    tags: Vec<usize>,
}

fn spans(s: &str) -> Spans {
    let mut out = Spans::default();
    let mut open = Vec::new();
    let mut i = 0;
    let find = |from: usize, what: &str| from + s[from..].find(what).expect("harness: well-formed");
    while i < s.len() {
        let rest = &s[i..];
        let inside = !open.is_empty();
        if inside {
            out.gaps.push(i);
        }
        let end = if rest.starts_with("<!--") {
            find(i, "-->") + 3
        } else if rest.starts_with("<![CDATA[") {
            find(i, "]]>") + 3
        } else if rest.starts_with("<?") {
            i = find(i, "?>") + 2;
            continue;
        } else if rest.starts_with("</") {
            let end = find(i, ">") + 1;
            let start = open.pop().expect("harness: well-formed");
            if !open.is_empty() {
                out.elems.push((start, end));
            }
            i = end;
            continue;
        } else if rest.starts_with('<') {
            let start = i;
            i += rest
                .find([' ', '\t', '\n', '\r', '/', '>'])
                .expect("harness: well-formed");
            out.tags.push(i);
            loop {
                i += s[i..].find(['"', '\'', '>']).expect("harness: well-formed");
                let c = s.as_bytes()[i];
                if c == b'>' {
                    break;
                }
                let close = find(i + 1, if c == b'"' { "\"" } else { "'" });
                // Not declarations
                let name = s[start..i]
                    .rsplit([' ', '\t', '\n', '\r'])
                    .find(|n| !n.is_empty() && *n != "=");
                if !name.is_some_and(|n| n.starts_with("xmlns")) {
                    out.values.push((i + 1, close));
                }
                i = close + 1;
            }
            let empty = s.as_bytes()[i - 1] == b'/';
            i += 1;
            match empty {
                true if inside => out.elems.push((start, i)),
                true => {}
                false => open.push(start),
            }
            continue;
        } else {
            i + rest.find('<').unwrap_or(rest.len())
        };
        if inside {
            out.pieces.push((i, end));
        }
        i = end;
    }
    out
}

type Unit = Box<dyn Fn(usize) -> String>;

/// A document of which one part, or two, can be had any number of times
struct Doc {
    head: String,
    unit: Unit,
    /// A second part that grows along with the first
    more: Option<(String, Unit)>,
    tail: String,
    small: usize,
    limits: Option<Limits>,
}

impl Doc {
    fn at(&self, n: usize) -> String {
        let mut s = self.head.clone();
        for i in 0..n {
            s.push_str(&(self.unit)(i));
        }
        if let Some((mid, unit)) = &self.more {
            s.push_str(mid);
            for i in 0..n {
                s.push_str(&unit(i));
            }
        }
        s.push_str(&self.tail);
        s
    }
}

fn gen_doc(src: &mut Src, intact: &str, donor: &str) -> Option<Doc> {
    let sp = spans(intact);
    let insert = |at: usize| (intact[..at].to_owned(), intact[at..].to_owned());
    let around = |(a, b): (usize, usize)| {
        (
            intact[..a].to_owned(),
            intact[a..b].to_owned(),
            intact[b..].to_owned(),
        )
    };
    fn some<T: Copy>(src: &mut Src, v: &[T]) -> Option<T> {
        (!v.is_empty()).then(|| *src.pick(v))
    }
    let mut limits = None;
    let mut target = 1000 + src.below(2500);
    let mut more = None;
    let ((head, tail), unit): ((String, String), Unit) = match src.below(16) {
        0 | 1 => {
            src.fault("sender: element repeated");
            let (h, u, t) = around(some(src, &sp.elems)?);
            ((h, t), Box::new(move |_| u.clone()))
        }
        2 => {
            src.fault("sender: text repeated");
            let (h, u, t) = around(some(src, &sp.pieces)?);
            ((h, t), Box::new(move |_| u.clone()))
        }
        3 => {
            src.fault("sender: attribute value repeated");
            let (h, u, t) = around(some(src, &sp.values)?);
            if u.is_empty() {
                return None;
            }
            ((h, t), Box::new(move |_| u.clone()))
        }
        4..=7 => {
            let at = some(src, &sp.gaps)?;
            let mut u = String::new();
            for _ in 0..1 + src.below(3) {
                match src.below(6) {
                    0 | 1 => {
                        src.fault("sender: unknown elements");
                        u.push_str(*src.pick(&[
                            "<z/>",
                            "<z></z>",
                            "<z a='1'/>",
                            "<p:z xmlns:p='u:z'/>",
                            "<z xmlns='u:z'>t</z>",
                            "<z><z><z/></z></z>",
                        ]));
                    }
                    2 => {
                        src.fault("sender: unknown elements");
                        let cx = small_gen(src);
                        let t = model::gen_tree(src, 1, cx);
                        let style = Style {
                            decl: false,
                            ..Style::gen(src)
                        };
                        u.push_str(body(&xml::encode(src, &style, &t)));
                    }
                    3 if u.is_empty() => {
                        src.fault("sender: another document inside");
                        u.push_str(body(donor));
                    }
                    _ => {
                        src.fault("sender: pieces of text");
                        u.push_str(*src.pick(&[
                            "a",
                            " ",
                            "&amp;",
                            "&#65;",
                            "&#x41;",
                            "<![CDATA[]]>",
                            "<![CDATA[a]]>",
                            "<![CDATA[]]]]>",
                            "<!---->",
                            "<!-- c -->",
                            "\n",
                            "é",
                            "&lt;",
                            "1",
                            "\t \t",
                            "]",
                        ]));
                    }
                }
            }
            (insert(at), Box::new(move |_| u.clone()))
        }
        8 => {
            // The limits of a reader come into force behind the root's own start tag
            let at = match src.chance(2, 3) {
                true => {
                    let mut raised = Limits::default();
                    raised.max_attributes = 1 << 30;
                    raised.max_ns_declarations = 1 << 30;
                    limits = Some(raised);
                    some(src, sp.tags.get(1..).unwrap_or_default())?
                }
                false => {
                    target = 4;
                    some(src, &sp.tags)?
                }
            };
            let kind = src.below(6);
            src.fault(match kind {
                5 => "sender: many declarations",
                _ => "sender: many attributes",
            });
            (
                insert(at),
                Box::new(move |i| match kind {
                    0 => format!(" z{i}='{i}'"),
                    1 => format!(" zzzzzzzzzzzzzzzzzzz{i}=\"&amp;\""),
                    2 => format!(" xml:z{i}=''"),
                    3 => format!(" xml:z{i}='{i}&#65;'"),
                    4 => format!(" z{i}=''"),
                    _ => format!(" xmlns:z{i}='u{i}'"),
                }),
            )
        }
        9 => {
            src.fault("sender: spacing");
            let at = match src.chance(1, 2) {
                true => some(src, &sp.tags)?,
                false => some(src, &sp.gaps)?,
            };
            let u = *src.pick(&[" ", "\n", "\r\n", "\t"]);
            (insert(at), Box::new(move |_| u.to_owned()))
        }
        10 => {
            src.fault("sender: long name");
            let at = some(src, &sp.gaps)?;
            let (h, t) = insert(at);
            let (a, b) = *src.pick(&[
                ("<z", "/>"),
                ("<z z", "=''/>"),
                ("<z xmlns='u:", "'/>"),
                ("<z xmlns:z", "='u'/>"),
                ("<p:z", " xmlns:p='u'/>"),
                ("<z", "></zz>"),
            ]);
            let u = *src.pick(&["z", "é", "z-."]);
            ((h + a, b.to_owned() + &t), Box::new(move |_| u.to_owned()))
        }
        13 | 14 => {
            // Many names in scope, and many elements that are there with them
            src.fault("sender: two parts at once");
            let mut raised = Limits::default();
            raised.max_attributes = 1 << 30;
            raised.max_ns_declarations = 1 << 30;
            limits = Some(raised);
            let kind = src.below(5);
            let start: Unit = Box::new(move |i| match kind {
                0 | 1 => format!(" xmlns:z{i}='u{i}'"),
                2 => format!(" z{i}='{i}'"),
                3 => format!(" xmlns:z{i}='u'"),
                _ => " ".to_owned(),
            });
            let inner = match kind {
                0 | 1 | 3 => src.below(8),
                _ => src.below(4),
            };
            let content: Unit = Box::new(move |i| match inner {
                0 => "<z/>".to_owned(),
                1 => "<z></z>".to_owned(),
                2 => "<z a='1'>t</z>".to_owned(),
                3 => "&#65;t<!-- c -->".to_owned(),
                4 => format!("<z{i}:z/>"),
                5 => format!("<z{i}:z></z{i}:z>"),
                6 => format!("<z z{i}:a=''/>"),
                _ => format!("<z xmlns:y='{i}'><z0:z/></z>"),
            });
            match src.chance(1, 2) {
                true => {
                    let (h, t) = insert(some(src, &sp.gaps)?);
                    more = Some((">".to_owned(), content));
                    ((h + "<z", "</z>".to_owned() + &t), start)
                }
                false => {
                    let tag = some(src, sp.tags.get(1..).unwrap_or_default())?;
                    let gap = sp.gaps.iter().copied().find(|g| *g > tag)?;
                    more = Some((intact[tag..gap].to_owned(), content));
                    ((intact[..tag].to_owned(), intact[gap..].to_owned()), start)
                }
            }
        }
        15 => {
            src.fault("sender: two parts at once");
            let all: Vec<(usize, usize)> = sp
                .elems
                .iter()
                .chain(&sp.pieces)
                .chain(&sp.values)
                .copied()
                .collect();
            let (a, b) = (some(src, &all)?, some(src, &all)?);
            let (a, b) = (a.min(b), a.max(b));
            if a.1 > b.0 || a.0 == a.1 {
                return None;
            }
            let (u, w) = (intact[a.0..a.1].to_owned(), intact[b.0..b.1].to_owned());
            more = Some((intact[a.1..b.0].to_owned(), Box::new(move |_| w.clone())));
            (
                (intact[..a.0].to_owned(), intact[b.1..].to_owned()),
                Box::new(move |_| u.clone()),
            )
        }
        11 => {
            src.fault("sender: after the root");
            let u = *src.pick(&[" ", "<!-- c -->", "<a/>", "x"]);
            (
                (intact.to_owned(), String::new()),
                Box::new(move |_| u.to_owned()),
            )
        }
        _ => {
            src.fault("sender: any part repeated");
            let cut = |src: &mut Src| {
                let mut i = src.below(intact.len() + 1);
                while !intact.is_char_boundary(i) {
                    i -= 1;
                }
                i
            };
            let (a, b) = (cut(src), cut(src));
            let (h, u, t) = around((a.min(b), a.max(b)));
            // Depth does not grow
            let tags = u.matches('<').count() - u.matches("<!").count() - u.matches("<?").count();
            let ends = u.matches("</").count();
            if u.is_empty() || tags - ends != ends + u.matches("/>").count() {
                return None;
            }
            ((h, t), Box::new(move |_| u.clone()))
        }
    };
    let (mut head, mut tail) = (head, tail);
    if src.chance(1, 4) {
        match src.below(4) {
            0 => {
                src.fault("damage: torn");
                let mut i = src.below(tail.len() + 1);
                while !tail.is_char_boundary(i) {
                    i -= 1;
                }
                tail.truncate(i);
            }
            1 => {
                src.fault("damage: behind the part that grows");
                tail = damage(src, &tail, donor);
            }
            2 => {
                src.fault("damage: before the part that grows");
                let cut = head.clone();
                head = damage(src, &cut, donor);
            }
            _ => {
                src.fault("damage: bad reference at the end");
                tail.insert_str(
                    0,
                    *src.pick(&[
                        "&bad;",
                        "<",
                        "&",
                        "\u{1}",
                        "<![CDATA[",
                        "<!--",
                        "</q>",
                        "\"",
                    ]),
                );
            }
        }
    }
    let len = (unit)(0)
        .len()
        .max(more.as_ref().map_or(0, |(_, unit)| unit(0).len()));
    let small = match target {
        4 => 4,
        _ => (target / len).max(6),
    };
    Some(Doc {
        head,
        unit,
        more,
        tail,
        small,
        limits,
    })
}

fn reader<'x>(s: &'x str, limits: Option<Limits>) -> Result<Deserializer<'x, 'x>, Error> {
    let d = Deserializer::new(s)?;
    Ok(match limits {
        Some(l) => d.with_limits(l),
        None => d,
    })
}

fn walk(s: &str, limits: Option<Limits>) -> Result<u64, Error> {
    fn go(d: &mut Deserializer<'_, '_>, seen: &mut u64) -> Result<(), Error> {
        loop {
            match d.next() {
                None => return Ok(()),
                Some(Err(e)) => return Err(e),
                Some(Ok(Node::Open(e))) => {
                    *seen += d.element_id(&e)?.name.len() as u64;
                    go(&mut d.nested(e), seen)?;
                }
                Some(Ok(Node::Attribute(a))) => {
                    *seen += d.attribute_id(&a)?.name.len() as u64 + a.value.len() as u64
                }
                Some(Ok(_)) => *seen += 1,
            }
        }
    }
    let mut seen = 0;
    go(&mut reader(s, limits)?, &mut seen)?;
    Ok(seen)
}

const CONSUMERS: &[&str] = &[
    "read",
    "read as another type",
    "captured",
    "captured and owned",
    "pulled",
    "skipped",
];

/// What one consumer costs, and whether it accepts
fn cost(
    how: usize,
    shape: &Shape,
    other: &Shape,
    doc: &str,
    limits: Option<Limits>,
) -> (Result<bool, String>, Work) {
    let read = |s: &Shape| match limits {
        Some(l) => (s.read_with)(doc, l),
        None => (s.read)(doc),
    };
    let capture = || reader(doc, limits)?.deserialize::<AnyElement<'_>>();
    hooks::reset();
    meter(|| {
        guard(|| match how {
            0 => read(shape).is_ok(),
            1 => read(other).is_ok(),
            2 => library(capture).is_ok(),
            3 => library(|| match capture() {
                Ok(e) => {
                    let e = e.into_owned();
                    let same = e.clone() == e;
                    same
                }
                Err(_) => false,
            }),
            4 => library(|| walk(doc, limits)).is_ok(),
            _ => library(|| reader(doc, limits)?.ignore()).is_ok(),
        })
    })
}

fn run(env: &Env, src: &mut Src) -> Check {
    match src.below(8) {
        0..=4 => reading(env, src),
        5 | 6 => writing(env, src),
        _ => history(env, src),
    }
}

fn received(env: &Env, src: &mut Src) -> (usize, String) {
    let shape = env.any(src);
    let cx = small_gen(src);
    let v = model::gen(src, &shape.ty(), cx);
    let style = Style::gen(src);
    let doc = xml::encode(src, &style, &model::document(&shape.ty(), &v));
    (zoo::shape(&env.shapes, shape.name), doc)
}

fn instrumented(w: Work) -> Check {
    if w.blocks == 0 {
        bail!(
            "harness",
            "C16 needs the build that counts work: run.sh C16"
        );
    }
    Ok(())
}

fn reading(env: &Env, src: &mut Src) -> Check {
    let (a, intact) = received(env, src);
    let (b, donor) = received(env, src);
    let (shape, other) = (&env.shapes[a], &env.shapes[b]);
    let Some(doc) = gen_doc(src, &intact, &donor) else {
        return Ok(());
    };
    let (small, large) = (doc.at(doc.small), doc.at(doc.small * FACTOR));
    src.note(|| {
        format!(
            "{} read from {:?}, then {} of {:?}{}, then {:?}",
            shape.name,
            doc.head,
            doc.small,
            (doc.unit)(0),
            match &doc.more {
                Some((mid, unit)) => format!(", then {mid:?}, then as many of {:?}", unit(0)),
                None => String::new(),
            },
            doc.tail
        )
    });
    src.fp(small.as_bytes());
    src.stats.bytes += (small.len() + large.len()) as u64;
    for how in 0..CONSUMERS.len() {
        src.fp_n(how);
        let before = alloc::live();
        let (s, ws) = cost(how, shape, other, &small, doc.limits);
        let (l, wl) = cost(how, shape, other, &large, doc.limits);
        hooks::reset();
        let after = alloc::live();
        instrumented(ws)?;
        let (s, l) = match (s, l) {
            (Ok(s), Ok(l)) => (s, l),
            (Err(p), _) | (_, Err(p)) => bail!("panic", "{} {}: {p}", CONSUMERS[how], clip(&small)),
        };
        src.stats.steps += ws.blocks + wl.blocks;
        if l {
            src.stats.probe("accepted at the larger size");
        }
        let mut base = ws;
        if !l {
            // A refusal counts the lines and columns up to its place
            base.blocks += 20 * small.len() as u64;
        }
        if let Some(what) = over(base, wl) {
            bail!(
                what,
                "{}, {} {} bytes: {ws:?}, {} bytes: {wl:?}: {} {} times {:?} {} ({s}, {l})",
                shape.name,
                CONSUMERS[how],
                small.len(),
                large.len(),
                clip(&doc.head),
                doc.small,
                clip(&(doc.unit)(0)),
                clip(&doc.tail)
            );
        }
        if after - before > 16 << 10 {
            bail!(
                "memory is not given back",
                "{} {} bytes: {} bytes",
                CONSUMERS[how],
                large.len(),
                after - before
            );
        }
        src.case();
    }
    Ok(())
}

/// Grow one place of a value: its `at`-th text or list
fn grow(ty: &Ty, v: &mut Val, at: &mut usize, n: usize) {
    let here = match v {
        Val::S(s) => !s.is_empty() && matches!(ty, Ty::Sc(model::Sc::Str | model::Sc::User)),
        Val::List(l) => !l.is_empty(),
        _ => false,
    };
    if here {
        if *at == 0 {
            *at = usize::MAX;
            match v {
                Val::S(s) => *s = s.repeat(n),
                Val::List(l) => {
                    let items = std::mem::take(l);
                    *l = (0..n).flat_map(|_| items.iter().cloned()).collect();
                }
                _ => {}
            }
            return;
        }
        *at -= 1;
    }
    if *at == usize::MAX {
        return;
    }
    match (ty, v) {
        (Ty::Opt(t) | Ty::Boxed(t), Val::Some(v)) => grow(t, v, at, n),
        (Ty::Boxed(t), v) => grow(t, v, at, n),
        (Ty::List(t), Val::List(l)) => l.iter_mut().for_each(|v| grow(t, v, at, n)),
        (Ty::Named(d), v) => match (&d().kind, v) {
            (model::DefKind::Struct(f) | model::DefKind::Transparent(f), Val::Rec(vs)) => {
                f.iter().zip(vs).for_each(|(f, v)| grow(&f.ty, v, at, n))
            }
            (model::DefKind::Tuple(t), Val::Rec(vs)) => {
                t.iter().zip(vs).for_each(|(t, v)| grow(t, v, at, n))
            }
            (model::DefKind::Forward(t), Val::Var(i, v)) => grow(&t[*i], v, at, n),
            _ => {}
        },
        (Ty::Any, Val::Any(t)) => {
            if *at == 0 {
                *at = usize::MAX;
                let c = t.content.clone();
                if !c.is_empty() && !matches!(c[0], XNode::Text(_)) {
                    t.content = (0..n).flat_map(|_| c.iter().cloned()).collect();
                }
            } else {
                *at -= 1;
            }
        }
        _ => {}
    }
}

/// Bytes as the sink got them, without keeping them
struct Null {
    n: usize,
    calls: usize,
    limit: usize,
}
impl fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _harness = hook::Mode::set(false);
        self.calls += 1;
        self.n += s.len();
        match self.n > self.limit {
            true => Err(fmt::Error),
            false => Ok(()),
        }
    }
}

fn writing(env: &Env, src: &mut Src) -> Check {
    let shape = env.writable(src);
    let ty = shape.ty();
    let cx = small_gen(src);
    let v = model::gen(src, &ty, cx);
    let place = src.below(6);
    let grown = |n: usize| {
        let (mut w, mut at) = (v.clone(), place);
        grow(&ty, &mut w, &mut at, n);
        (w, at == usize::MAX)
    };
    if !grown(1).1 {
        return Ok(());
    }
    let limit_tail = match src.chance(1, 4) {
        true => {
            src.fault("sink: full near the end");
            Some(src.below(40))
        }
        false => None,
    };
    let fail_last = shape.user && src.chance(1, 4);
    let len = |n: usize| {
        let mut sink = Null {
            n: 0,
            calls: 0,
            limit: usize::MAX,
        };
        hooks::reset();
        let ok = guard(|| shape.write(&grown(n).0, &mut sink).is_ok());
        (ok, sink.n, hooks::report().calls.len())
    };
    let (Ok(true), l1, _) = len(1) else {
        return Ok(());
    };
    let (_, l2, _) = len(9);
    if l2 <= l1 {
        return Ok(());
    }
    src.fault("writer: part of a value grows");
    let unit = (l2 - l1).div_ceil(8);
    let n = ((1000 + src.below(1500)) / unit).max(6);
    let write = |n: usize| {
        let (v, _) = grown(n);
        let (_, total, calls) = len(n);
        let mut sink = Null {
            n: 0,
            calls: 0,
            limit: limit_tail.map_or(usize::MAX, |t| total.saturating_sub(t)),
        };
        hooks::reset();
        if fail_last && calls > 0 {
            hooks::at(calls - 1, Act::Fail(Error::Other("injected".into())));
        }
        let out = meter(|| guard(|| shape.write(&v, &mut sink).is_ok()));
        let (s, ws) = match limit_tail.is_none() && !fail_last {
            true => meter(|| guard(|| shape.string(&v).is_ok())),
            false => out.clone(),
        };
        hooks::reset();
        (out, (s, ws), sink.n, sink.calls)
    };
    let ((s, ws), (ss, wss), s_len, s_calls) = write(n);
    let ((l, wl), (ls, wls), l_len, l_calls) = write(n * FACTOR);
    src.note(|| {
        format!(
            "{} {v:?}: place {place} written {n} and {} times",
            shape.name,
            n * FACTOR
        )
    });
    src.fp(format!("{v:?}{place}{n}").as_bytes());
    instrumented(ws)?;
    for r in [&s, &l, &ss, &ls] {
        if let Err(p) = r {
            bail!("panic", "{}: {p}", shape.name);
        }
    }
    src.stats.bytes += (s_len + l_len) as u64;
    src.stats.steps += ws.blocks + wl.blocks + wss.blocks + wls.blocks;
    if let Some(what) = over(ws, wl).or(over(wss, wls)) {
        bail!(
            what,
            "{} written, {s_len} bytes: {ws:?} {wss:?}, {l_len} bytes: {wl:?} {wls:?}: {} place {place} {n} times ({s:?}, {l:?})",
            shape.name,
            short(&v)
        );
    }
    // Nor does a sink see more calls for its money
    if l_calls > s_calls * FACTOR * 3 / 2 + 16 {
        bail!(
            "sink called too often",
            "{}: {s_calls} calls for {s_len} bytes, {l_calls} for {l_len}",
            shape.name
        );
    }
    src.case();
    Ok(())
}

/// One message after another: none costs more than the first ones, nothing stays behind
fn history(env: &Env, src: &mut Src) -> Check {
    let shape = env.any(src);
    let (a, intact) = received(env, src);
    let (_, donor) = received(env, src);
    let read = &env.shapes[a];
    let cx = small_gen(src);
    let v = model::gen(src, &shape.ty(), cx);
    let rounds = 40 + src.below(24);
    let seed = src.below(1 << 30);
    src.fault("history: many messages");
    // Messages of which some are damaged, and some have names and values of their own every time
    let own = format!(
        "<m00000 xmlns:p00000='urn:00000' a00000='00000'><e00000>t00000&amp;</e00000><p00000:x/>{}</m00000>",
        body(&intact)
    );
    let mut messages = vec![own.clone(), intact.clone()];
    for _ in 0..4 {
        messages.push(match src.below(6) {
            0 => own.replace("</e00000>", "</f00000>"),
            1 => own.replace("<p00000:x/>", "<q00000:x/>"),
            2 => own.replace("&amp;", "&00000;"),
            3 => damage(src, &intact, &donor),
            _ => damage(src, &own, &donor),
        });
    }
    src.note(|| format!("{rounds} times {messages:?}, writing {} {v:?}", shape.name));
    let room = src.below(60);
    let mut costs = Vec::with_capacity(LONG);
    let mut live = Vec::with_capacity(LONG);
    let mut judged = rounds;
    for i in 0.. {
        hooks::reset();
        live.push(alloc::live());
        let id = format!("{:05}", (seed + i * 7919) % 100_000).repeat(20);
        let mut total = Work::default();
        let mut add = |w: Work| {
            total.blocks += w.blocks;
            total.moved += w.moved;
            total.allocated += w.allocated;
        };
        for m in &messages {
            let doc = m.replace("00000", &id);
            for how in [0, 3, 4, 5] {
                let (r, w) = cost(how, read, read, &doc, None);
                if let Err(p) = r {
                    bail!("panic", "{} {}: {p}", CONSUMERS[how], clip(&doc));
                }
                add(w);
                src.stats.evaluations += 1;
            }
        }
        if shape.writes() {
            for limit in [usize::MAX, room] {
                let mut sink = Null {
                    n: 0,
                    calls: 0,
                    limit,
                };
                let (r, w) = meter(|| guard(|| shape.write(&v, &mut sink).is_ok()));
                if let Err(p) = r {
                    bail!("panic", "{}: {p}", shape.name);
                }
                add(w);
            }
        }
        instrumented(total)?;
        src.stats.steps += total.blocks;
        costs.push(total);
        if i + 1 < judged {
            continue;
        }
        let sum = |c: &[Work]| {
            c.iter()
                .fold((0, 0), |a, w| (a.0 + w.blocks, a.1 + w.moved + w.allocated))
        };
        let q = judged / 4;
        // The first rounds may fill caches
        let (first, last) = (sum(&costs[q..2 * q]), sum(&costs[judged - q..]));
        let dearer = last.0 > first.0 * 5 / 4 + 2_000 || last.1 > first.1 * 3 / 2 + 20_000;
        let kept = live[judged - 1] - live[judged / 2];
        let what = match (dearer, kept > 1024) {
            (true, _) => "messages become more expensive",
            (_, true) => "memory is not given back",
            _ => break,
        };
        if judged == LONG {
            bail!(
                what,
                "{first:?}, later {last:?}, kept {kept} bytes in {} times {messages:?}",
                judged - 1 - judged / 2
            );
        }
        // Something that is bounded may still have been growing: look again much later
        judged = LONG;
    }
    src.fp(own.as_bytes());
    src.case();
    Ok(())
}

/// Rounds after which something bounded has stopped growing
const LONG: usize = 1200;

/// A document as a part of another one
fn body(doc: &str) -> &str {
    &doc[doc.find("?>").map_or(0, |i| i + 2)..]
}
