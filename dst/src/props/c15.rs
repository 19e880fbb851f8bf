//! C15: text requested as borrowed lies in the receive buffer unless it needs decoding.

use super::*;
use crate::xml::is_char;
use crate::{alloc, bail, no_panic};
use instant_xml::{Accumulate, FromXml, Id, Kind, ToXml};
use std::borrow::Cow;
use std::ops::Range;

pub const PROP: Prop = Prop {
    id: "C15",
    quick: 1_200_000,
    thorough: 28_000_000,
    run,
    rule: "distinct received documents with at least one text that is borrowed and one that is not",
    simulated: "relays that rewrite texts with references, CDATA sections and comments, a channel that damages copies of the document, and receive buffers used again for the next copy",
    real: REAL,
    stub: "relays, channel and receive buffer (simulated)",
    assumptions: &[
        "text needs no decoding if it arrived as one piece without references; an empty text may point anywhere",
        "fields that wrap the borrowed type (such as Option<Cow<str>>) own their text; they are not requested as borrowed by themselves",
    ],
};

/// A text as it was received
#[derive(Clone, Debug, Default)]
struct Text {
    value: String,
    /// Where the only piece without references is, relative to the document
    span: Option<Range<usize>>,
}

#[derive(Clone, Debug, Default)]
struct Elem {
    name: Range<usize>,
    ns: Text,
    /// Namespace, name and value
    attrs: Vec<(Text, Range<usize>, Text)>,
    text: Option<Text>,
    kids: Vec<Elem>,
}

#[derive(Clone, Debug, FromXml, ToXml)]
pub struct BorIn<'a> {
    #[xml(borrow)]
    t: Cow<'a, str>,
}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(transparent)]
pub struct BorInline<'a> {
    #[xml(borrow)]
    p: Cow<'a, str>,
    #[xml(borrow)]
    q: Cow<'a, str>,
}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct BorX<'a> {
    #[xml(attribute)]
    k: Option<u8>,
    #[xml(borrow)]
    x: Cow<'a, str>,
    #[xml(borrow)]
    y: Cow<'a, str>,
}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct BorBox<'a> {
    #[xml(borrow)]
    b: Cow<'a, str>,
    #[xml(borrow)]
    list: Vec<BorIn<'a>>,
}
/// A user type that keeps what the reader hands out
#[derive(Clone, Debug)]
pub struct Held<'a>(Cow<'a, str>);
impl<'xml, 'a> FromXml<'xml> for Held<'a>
where
    'xml: 'a,
{
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        Some(id) == field
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        *into = Some(Held(deserializer.take_str()?.unwrap_or_default()));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}
/// Bytes by way of the public helper
#[derive(Clone, Debug)]
pub struct Raw<'a>(Cow<'a, [u8]>);
#[derive(Default)]
pub struct RawAcc<'a>(Option<Cow<'a, [u8]>>);
impl<'a> Accumulate<Raw<'a>> for RawAcc<'a> {
    fn try_done(self, field: &'static str) -> Result<Raw<'a>, Error> {
        self.0.map(Raw).ok_or(Error::MissingValue(field))
    }
}
impl<'xml> FromXml<'xml> for Raw<'xml> {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        Some(id) == field
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        instant_xml::de::borrow_cow_slice_u8(&mut into.0, field, deserializer)
    }
    type Accumulator = RawAcc<'xml>;
    const KIND: Kind = Kind::Scalar;
}
#[derive(Clone, Debug, FromXml)]
pub struct Bor<'a> {
    #[xml(attribute, borrow)]
    h: Option<Held<'a>>,
    #[xml(borrow)]
    held: Vec<Held<'a>>,
    #[xml(borrow)]
    raw: Raw<'a>,
    #[xml(borrow)]
    a: Cow<'a, str>,
    #[xml(borrow)]
    inline: BorInline<'a>,
    #[xml(borrow)]
    list: Vec<BorIn<'a>>,
    #[xml(borrow)]
    opt: Option<BorX<'a>>,
    #[xml(borrow)]
    boxed: Option<Box<BorBox<'a>>>,
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

struct Out<'s> {
    doc: String,
    src: &'s mut Src,
    elems: usize,
    big: usize,
}

impl Out<'_> {
    fn chars(&mut self, quote: Option<char>) -> String {
        let n = match self.big > 0 && self.src.chance(1, 3) {
            true => {
                self.big -= 1;
                20_000 + self.src.below(30_000)
            }
            false => 1 + self.src.below(6),
        };
        let mut s = String::new();
        if n > 100 {
            let c = *self.src.pick(&['a', 'é', ';', ']', ' ']);
            s.extend(std::iter::repeat(c).take(n));
            return s;
        }
        for _ in 0..n {
            let c = match self.src.below(5) {
                0 => *self.src.pick(&[
                    'é', '日', '😀', '\u{FFFD}', '\u{85}', ';', '#', '>', '"', '\'', ']', '/',
                    '\u{A0}', '=', '-',
                ]),
                1 => ' ',
                _ => (b'a' + self.src.below(26) as u8) as char,
            };
            if Some(c) != quote && is_char(c) {
                s.push(c);
            }
        }
        // Not the end of a section
        while s.contains("]>") {
            s = s.replace("]>", "]");
        }
        s
    }

    fn reference(&mut self) -> char {
        match self.src.below(4) {
            0 => {
                let (name, c) = *self.src.pick(&[
                    ("amp", '&'),
                    ("lt", '<'),
                    ("gt", '>'),
                    ("quot", '"'),
                    ("apos", '\''),
                ]);
                self.doc.push_str(&format!("&{name};"));
                c
            }
            k => {
                let c = *self
                    .src
                    .pick(&['a', '&', '<', 'é', '😀', '\n', '\u{E000}', 'z', ' ']);
                self.doc.push_str(&match k {
                    1 => format!("&#{};", c as u32),
                    2 => format!("&#x{:x};", c as u32),
                    _ => format!("&#x{:X};", c as u32),
                });
                c
            }
        }
    }

    /// Character data in up to five pieces
    fn content(&mut self) -> Text {
        let mut t = Text::default();
        // Runs: adjacent characters and references are one
        let mut runs: Vec<(Range<usize>, bool)> = Vec::new();
        let mut open = false;
        let n = match self.src.below(6) {
            0 => 0,
            1..=3 => 1,
            k => k - 2,
        };
        for _ in 0..n {
            let start = self.doc.len();
            match self.src.below(8) {
                0..=3 => {
                    let mut s = self.chars(None);
                    if self.doc.ends_with(']') {
                        s = s.replace('>', "");
                    }
                    if s.is_empty() {
                        continue;
                    }
                    self.doc.push_str(&s);
                    t.value.push_str(&s);
                    match (open, runs.last_mut()) {
                        (true, Some(r)) => r.0.end = self.doc.len(),
                        _ => runs.push((start..self.doc.len(), true)),
                    }
                    open = true;
                }
                4 | 5 => {
                    let c = self.reference();
                    t.value.push(c);
                    match (open, runs.last_mut()) {
                        (true, Some(r)) => *r = (r.0.start..self.doc.len(), false),
                        _ => runs.push((start..self.doc.len(), false)),
                    }
                    open = true;
                    self.src.stats.fault("relay: reference");
                }
                6 => {
                    let mut s = match self.src.below(4) {
                        0 => String::new(),
                        _ => self.chars(None),
                    };
                    if self.src.chance(1, 3) {
                        s.push_str(*self.src.pick(&["&amp;", "<a>", "&", "<!--", "]]"]));
                    }
                    self.doc.push_str("<![CDATA[");
                    let at = self.doc.len();
                    self.doc.push_str(&s);
                    if !s.is_empty() {
                        runs.push((at..self.doc.len(), true));
                    }
                    self.doc.push_str("]]>");
                    t.value.push_str(&s);
                    open = false;
                    self.src.stats.fault("relay: CDATA section");
                }
                _ => {
                    self.doc.push_str("<!-- & -->");
                    open = false;
                    self.src.stats.fault("relay: comment");
                }
            }
        }
        if let [(span, true)] = runs.as_slice() {
            if !span.is_empty() {
                t.span = Some(span.clone());
            }
        }
        t
    }

    fn value(&mut self, quote: char) -> Text {
        let mut t = Text::default();
        let start = self.doc.len();
        let mut plain = true;
        for _ in 0..self.src.below(4) {
            if self.src.chance(3, 4) {
                let s = self.chars(Some(quote));
                self.doc.push_str(&s);
                t.value.push_str(&s);
            } else {
                let c = self.reference();
                t.value.push(c);
                plain = false;
            }
        }
        if plain && self.doc.len() > start {
            t.span = Some(start..self.doc.len());
        }
        t
    }

    fn named(&mut self, name: &str) -> Range<usize> {
        let start = self.doc.len();
        self.doc.push_str(name);
        start..self.doc.len()
    }

    /// An element of text
    fn leaf(&mut self, name: &str) -> Text {
        self.elems += 1;
        self.doc.push('<');
        self.named(name);
        if self.src.chance(1, 12) {
            self.doc.push_str(" />");
            return Text::default();
        }
        self.doc.push('>');
        let t = self.content();
        self.doc.push_str(&format!("</{name}>"));
        t
    }

    /// An attribute value between quotes, after the equals sign
    fn quoted(&mut self, text: Option<&str>) -> Text {
        let quote = *self.src.pick(&['"', '\'']);
        self.doc.push('=');
        self.doc.push(quote);
        let v = match text {
            Some(text) => {
                let span = self.named(text);
                Text {
                    value: text.to_owned(),
                    span: Some(span),
                }
            }
            None => self.value(quote),
        };
        self.doc.push(quote);
        v
    }

    fn tree(&mut self, depth: usize, outer: &[(&'static str, Text)]) -> Elem {
        self.elems += 1;
        let mut scope = outer.to_vec();
        let mut e = Elem::default();
        let name = *self.src.pick(&["e", "item", "n.1", "é", "kid"]);
        self.doc.push('<');
        // What is declared here is in scope here
        let mut declare: Vec<&'static str> = Vec::new();
        for p in ["p", "q", ""] {
            if self.src.chance(1, 5) {
                declare.push(p);
            }
        }
        let known =
            |p: &str, declare: &[&str]| declare.contains(&p) || outer.iter().any(|d| d.0 == p);
        let prefix = match *self.src.pick(&["", "", "p", "q"]) {
            p if known(p, &declare) => p,
            _ => "",
        };
        let start = match prefix {
            "" => String::new(),
            p => format!("{p}:"),
        };
        self.doc.push_str(&start);
        e.name = self.named(name);
        let mut pieces: Vec<(&'static str, bool)> = declare.iter().map(|p| (*p, true)).collect();
        for attr in ["u", "v", "w"] {
            if self.src.chance(1, 3) {
                pieces.push((attr, false));
            }
        }
        let mut attrs = Vec::new();
        while !pieces.is_empty() {
            let (what, declares) = pieces.swap_remove(self.src.below(pieces.len()));
            self.doc.push(' ');
            if declares {
                self.doc.push_str("xmlns");
                if !what.is_empty() {
                    self.doc.push_str(&format!(":{what}"));
                }
                let uri = *self.src.pick(&["urn:p", "urn:q", "u", "é:/"]);
                let t = self.quoted(Some(uri));
                scope.push((what, t));
                continue;
            }
            self.elems += 1;
            let p = match *self.src.pick(&["", "", "p", "q", "xml"]) {
                "xml" => "xml",
                p if known(p, &declare) => p,
                _ => "",
            };
            if !p.is_empty() {
                self.doc.push_str(&format!("{p}:"));
            }
            let name = self.named(what);
            let v = self.quoted(None);
            attrs.push((p, name, v));
        }
        let look = |p: &str| match p {
            "xml" => Text {
                value: "http://www.w3.org/XML/1998/namespace".into(),
                span: None,
            },
            p => scope
                .iter()
                .rev()
                .find(|d| d.0 == p)
                .map(|d| d.1.clone())
                .unwrap_or_default(),
        };
        e.ns = look(prefix);
        for (p, name, v) in attrs {
            let ns = match p {
                "" => Text::default(),
                p => look(p),
            };
            e.attrs.push((ns, name, v));
        }
        if self.src.chance(1, 8) {
            self.doc.push_str("/>");
            return e;
        }
        self.doc.push('>');
        let before = self.doc.len();
        let t = self.content();
        if !t.value.is_empty() || self.doc.len() > before {
            e.text = Some(t);
        }
        if depth > 0 {
            for _ in 0..self.src.small(3) {
                let kid = self.tree(depth - 1, &scope);
                e.kids.push(kid);
            }
        }
        self.doc.push_str(&format!("</{start}{name}>"));
        e
    }
}

enum Wrong {
    Copied,
    Elsewhere,
    Value,
}

/// Is `got` the text, and where it should be?
fn check(buffer: &str, base: usize, want: &Text, got: &Cow<'_, str>) -> Result<bool, Wrong> {
    if **got != *want.value {
        return Err(Wrong::Value);
    }
    let inside = |s: &str| {
        let (b, p) = (buffer.as_ptr() as usize, s.as_ptr() as usize);
        (p >= b && p + s.len() <= b + buffer.len()).then(|| p - b)
    };
    match (&want.span, got) {
        (_, got) if got.is_empty() => Ok(false),
        (Some(span), Cow::Borrowed(s)) => match inside(s) {
            Some(at) if at == span.start + base => Ok(true),
            _ => Err(Wrong::Elsewhere),
        },
        (Some(_), Cow::Owned(_)) => Err(Wrong::Copied),
        // Decoded: wherever it lies now, the value is right
        (None, _) => Ok(false),
    }
}

struct Judge<'a> {
    buffer: &'a str,
    base: usize,
    doc: &'a str,
    borrowed: usize,
    owned: usize,
}

impl Judge<'_> {
    fn text(&mut self, what: &str, want: &Text, got: &Cow<'_, str>) -> Check {
        match check(self.buffer, self.base, want, got) {
            Ok(true) => self.borrowed += 1,
            Ok(false) => self.owned += usize::from(!got.is_empty()),
            Err(Wrong::Copied) => bail!(
                "copied",
                "{what} of {} is a copy of {}",
                clip(self.doc),
                clip(got)
            ),
            Err(Wrong::Elsewhere) => bail!(
                "points elsewhere",
                "{what} of {}: {}",
                clip(self.doc),
                clip(got)
            ),
            // C08 and C09 judge values
            Err(Wrong::Value) => bail!(
                "wrong text",
                "{what} of {}: {} instead of {}",
                clip(self.doc),
                clip(got),
                clip(&want.value)
            ),
        }
        Ok(())
    }
    fn name(&mut self, want: &Range<usize>, got: &Cow<'_, str>) -> Check {
        let t = Text {
            value: self.doc[want.clone()].to_owned(),
            span: Some(want.clone()),
        };
        self.text("name", &t, got)
    }
    fn any(&mut self, want: &Elem, got: &AnyElement<'_>) -> Check {
        self.name(&want.name, &got.name)?;
        self.text("namespace", &want.ns, &got.ns)?;
        if want.attrs.len() != got.attributes.len() || want.kids.len() != got.children.len() {
            bail!("wrong structure", "{} captured as {got:?}", clip(self.doc));
        }
        for ((ns, name, value), a) in want.attrs.iter().zip(&got.attributes) {
            self.text("namespace of an attribute", ns, &a.ns)?;
            self.name(name, &a.name)?;
            self.text("attribute", value, &a.value)?;
        }
        match (&want.text, &got.text) {
            (Some(t), Some(g)) => self.text("captured text", t, g)?,
            (Some(t), None) if t.value.is_empty() => {}
            (None, None) => {}
            (None, Some(g)) if g.is_empty() => {}
            _ => bail!("wrong structure", "{} captured as {got:?}", clip(self.doc)),
        }
        want.kids
            .iter()
            .zip(&got.children)
            .try_for_each(|(w, g)| self.any(w, g))
    }
    fn pull(&mut self, want: &Elem, d: &mut Deserializer<'_, '_>) -> Check {
        let (mut attrs, mut kids) = (want.attrs.iter(), want.kids.iter());
        let mut late = Cow::Borrowed("");
        let parent = d.parent();
        self.name(&want.name, &Cow::Borrowed(parent.name))?;
        self.text("pulled namespace", &want.ns, &Cow::Borrowed(parent.ns))?;
        for _ in 0..self.doc.len() + 16 {
            match d.next() {
                None => break,
                Some(Ok(Node::Attribute(a))) => {
                    if let Some((ns, name, value)) = attrs.next() {
                        let id = match d.attribute_id(&a) {
                            Ok(id) => id,
                            Err(e) => bail!("refused", "{}: {e:?}", clip(self.doc)),
                        };
                        self.text("namespace of an attribute", ns, &Cow::Borrowed(id.ns))?;
                        self.name(name, &Cow::Borrowed(a.local))?;
                        self.name(name, &Cow::Borrowed(id.name))?;
                        self.text("pulled attribute", value, &a.value)?;
                    }
                }
                Some(Ok(Node::Text(t))) => late = t,
                Some(Ok(Node::Open(e))) => {
                    if let Some(k) = kids.next() {
                        self.pull(k, &mut d.nested(e))?;
                    }
                }
                Some(Ok(_)) => {}
                Some(Err(e)) => bail!("refused", "{}: {e:?}", clip(self.doc)),
            }
        }
        match &want.text {
            Some(t) => self.text("pulled text", t, &late),
            None => Ok(()),
        }
    }
}

fn run(_: &Env, src: &mut Src) -> Check {
    let typed = src.chance(1, 2);
    let big = src.chance(1, 60);
    // The buffer holds other bytes before and after the document
    let lead = ["", "<", "<a>é", "&amp;"][src.below(4)];
    let trail = ["", ">", "</Bor>", "<a/>"][src.below(4)];
    let mut out = Out {
        doc: String::new(),
        src,
        elems: 1,
        big: if big { 2 } else { 0 },
    };
    let mut flat: Vec<Text> = Vec::new();
    let mut anys: Vec<Elem> = Vec::new();
    let mut root = Elem::default();
    if typed {
        out.doc.push_str("<Bor");
        if out.src.chance(1, 2) {
            out.doc.push_str(" h");
            let v = out.quoted(None);
            flat.push(v);
        }
        out.doc.push('>');
        for _ in 0..out.src.small(3) {
            flat.push(out.leaf("held"));
        }
        flat.push(out.leaf("raw"));
        flat.push(out.leaf("a"));
        flat.push(out.leaf("p"));
        flat.push(out.leaf("q"));
        for _ in 0..out.src.small(3) {
            out.doc.push_str("<BorIn>");
            flat.push(out.leaf("t"));
            out.doc.push_str("</BorIn>");
        }
        if out.src.chance(1, 2) {
            out.doc.push_str("<BorX k='1'>");
            flat.push(out.leaf("x"));
            flat.push(out.leaf("y"));
            out.doc.push_str("</BorX>");
        }
        if out.src.chance(1, 2) {
            out.doc.push_str("<BorBox>");
            flat.push(out.leaf("b"));
            for _ in 0..out.src.small(3) {
                out.doc.push_str("<BorIn>");
                flat.push(out.leaf("t"));
                out.doc.push_str("</BorIn>");
            }
            out.doc.push_str("</BorBox>");
        }
        for _ in 0..out.src.small(2) {
            let e = out.tree(1, &[]);
            anys.push(e);
        }
        out.doc.push_str("</Bor>");
    } else {
        root = out.tree(3, &[]);
    }
    let (doc, elems) = (out.doc, out.elems);
    let damaged = match src.chance(1, 3) {
        true => damage(src, &doc, &doc),
        false => doc.clone(),
    };
    src.fp(doc.as_bytes());
    src.note(|| doc.clone());

    let mut buffer = String::new();
    for copy in [&damaged, &doc] {
        // The same memory again
        buffer.clear();
        buffer.push_str(lead);
        buffer.push_str(copy);
        buffer.push_str(trail);
        let input = &buffer[lead.len()..lead.len() + copy.len()];
        if std::ptr::eq(copy, &damaged) {
            if damaged != doc {
                let _ = no_panic!(
                    "read",
                    instant_xml::from_str::<AnyElement<'_>>(input).map(drop)
                );
            }
            continue;
        }
        let mut judge = Judge {
            buffer: &buffer,
            base: lead.len(),
            doc: &doc,
            borrowed: 0,
            owned: 0,
        };
        let decoded: usize = doc.matches(['&', '!']).count();
        // Nothing large is copied if nothing has to be decoded
        let allowance = 4096 + 2048 * elems;
        if typed {
            let (r, peak) =
                alloc::peak(|| no_panic_result(|| instant_xml::from_str::<Bor<'_>>(input)));
            let got = match r {
                Ok(Ok(got)) => got,
                Ok(Err(e)) => bail!("refused", "{}: {e:?}", clip(&doc)),
                Err(p) => bail!("panic", "{p}"),
            };
            if big && decoded == 0 && peak > allowance {
                bail!("copied", "{peak} bytes allocated for {}", clip(&doc));
            }
            let raw = match &got.raw.0 {
                Cow::Borrowed(b) => std::str::from_utf8(b).map(Cow::Borrowed).ok(),
                Cow::Owned(b) => String::from_utf8(b.clone()).map(Cow::Owned).ok(),
            };
            let Some(raw) = raw else {
                bail!("wrong text", "{} reads as {got:?}", clip(&doc));
            };
            let mut texts: Vec<&Cow<'_, str>> =
                got.h.iter().chain(&got.held).map(|h| &h.0).collect();
            texts.extend([&raw, &got.a, &got.inline.p, &got.inline.q]);
            texts.extend(got.list.iter().map(|i| &i.t));
            if let Some(x) = &got.opt {
                texts.extend([&x.x, &x.y]);
            }
            if let Some(b) = &got.boxed {
                texts.push(&b.b);
                texts.extend(b.list.iter().map(|i| &i.t));
            }
            if texts.len() != flat.len() || anys.len() != got.any.len() {
                bail!("wrong structure", "{} reads as {got:?}", clip(&doc));
            }
            for (want, got) in flat.iter().zip(texts) {
                judge.text("field", want, got)?;
            }
            for (want, got) in anys.iter().zip(&got.any) {
                judge.any(want, got)?;
            }
            src.stats.evaluations += 1;
        } else {
            let (r, peak) =
                alloc::peak(|| no_panic_result(|| instant_xml::from_str::<AnyElement<'_>>(input)));
            let got = match r {
                Ok(Ok(got)) => got,
                Ok(Err(e)) => bail!("refused", "{}: {e:?}", clip(&doc)),
                Err(p) => bail!("panic", "{p}"),
            };
            if big && decoded == 0 && peak > allowance {
                bail!("copied", "{peak} bytes allocated for {}", clip(&doc));
            }
            judge.any(&root, &got)?;
            // An owned copy is independent of the buffer
            let owned = got.clone().into_owned();
            if owned != got {
                bail!("owned copy differs", "{}", clip(&doc));
            }
            match Deserializer::new(input) {
                Ok(mut d) => judge.pull(&root, &mut d)?,
                Err(e) => bail!("refused", "{}: {e:?}", clip(&doc)),
            }
            src.stats.evaluations += 2;
        }
        if judge.borrowed > 0 && judge.owned > 0 {
            src.nontrivial();
        }
        src.stats
            .probes
            .entry("text borrowed")
            .and_modify(|n| *n += judge.borrowed as u64)
            .or_insert(judge.borrowed as u64);
        src.stats
            .probes
            .entry("text decoded")
            .and_modify(|n| *n += judge.owned as u64)
            .or_insert(judge.owned as u64);
    }
    src.case();
    Ok(())
}

fn no_panic_result<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    crate::sim::guard(f)
}
