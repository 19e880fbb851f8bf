//! The properties: each module drives simulated runs of one property and checks its invariants.

use crate::model::{self, Gen, Val};
use crate::sim::{clip, guard, Check, Src};
use crate::xml::{Node as XNode, Tree};
use crate::zoo::{self, Shape};
use instant_xml::de::{Limits, Node};
use instant_xml::{AnyElement, Deserializer, Error};
use std::fmt;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c15;
pub mod c16;

pub struct Env {
    /// First those written by hand, then those made by tools/genzoo.py
    pub shapes: Vec<Shape>,
    hand: usize,
}

impl Env {
    pub fn new() -> Self {
        let mut shapes = zoo::shapes();
        let hand = shapes.len();
        shapes.extend(zoo::generated());
        Env { shapes, hand }
    }
    pub fn named(&self, name: &str) -> &Shape {
        &self.shapes[zoo::shape(&self.shapes, name)]
    }
    /// Any shape: generated ones, each simpler than most written by hand, are chosen less often
    pub fn index(&self, src: &mut Src, writes: bool) -> usize {
        loop {
            let i = match src.chance(1, 3) {
                true => self.hand + src.below(self.shapes.len() - self.hand),
                false => src.below(self.hand),
            };
            if self.shapes[i].writes() || !writes {
                return i;
            }
        }
    }
    /// Any writable shape
    pub fn writable(&self, src: &mut Src) -> &Shape {
        let s = &self.shapes[self.index(src, true)];
        *src.stats.shapes.entry(s.name).or_default() += 1;
        src.fp(s.name.as_bytes());
        s
    }
    /// Mostly shapes made of scalars
    pub fn scalars(&self, src: &mut Src) -> &Shape {
        const SCALAR: &[&str] = &[
            "scalar kit",
            "scalar kits",
            "numbers",
            "number attributes",
            "times",
            "scalar enums",
            "options",
            "lists",
            "user display",
            "raw bytes",
        ];
        match src.chance(1, 3) {
            true => self.any(src),
            false => {
                let s = self.named(src.pick(SCALAR));
                *src.stats.shapes.entry(s.name).or_default() += 1;
                src.fp(s.name.as_bytes());
                s
            }
        }
    }
    /// Any shape
    pub fn any(&self, src: &mut Src) -> &Shape {
        let s = &self.shapes[self.index(src, false)];
        *src.stats.shapes.entry(s.name).or_default() += 1;
        src.fp(s.name.as_bytes());
        s
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&Env, &mut Src) -> Check,
    /// What makes a case count as distinct and non-trivial
    pub rule: &'static str,
    pub simulated: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn props() -> Vec<Prop> {
    vec![
        c01::PROP,
        c02::PROP,
        c03::PROP,
        c04::PROP,
        c05::PROP,
        c06::PROP,
        c07::PROP,
        c08::PROP,
        c09::PROP,
        c10::PROP,
        c11::PROP,
        c12::PROP,
        c15::PROP,
        c16::PROP,
    ]
}

pub const REAL: &str = "instant-xml (Serializer, Deserializer, all impls, AnyElement), instant-xml-macros derive output, xmlparser tokenizer: the real code, built from /repo";

/// What a sink does wrong.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The `k`-th call accepts at most `partial` bytes, then fails
    Call {
        k: usize,
        partial: usize,
    },
    /// The medium is full after `n` bytes
    Full {
        n: usize,
    },
    /// The `k`-th call panics
    Panic {
        k: usize,
    },
}

/// A sink of the simulated world: accepts, fails, tears, recovers as planned.
pub struct Sink<'a> {
    pub got: String,
    pub calls: usize,
    pub fault: Fault,
    /// Later calls would succeed again
    pub transient: bool,
    pub fired: bool,
    /// Calls made after the sink reported a failure
    pub late: usize,
    /// Called before every write
    pub before: Option<&'a dyn Fn()>,
}

impl<'a> Sink<'a> {
    pub fn new(fault: Fault, transient: bool) -> Self {
        Sink {
            got: String::new(),
            calls: 0,
            fault,
            transient,
            fired: false,
            late: 0,
            before: None,
        }
    }
    fn accept(&mut self, s: &str, mut n: usize) {
        n = n.min(s.len());
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.got.push_str(&s[..n]);
    }
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _harness = hook::Mode::set(false);
        if let Some(f) = self.before {
            f();
        }
        let k = self.calls;
        self.calls += 1;
        if self.fired {
            self.late += 1;
            if !self.transient {
                return Err(fmt::Error);
            }
            self.got.push_str(s);
            return Ok(());
        }
        match self.fault {
            Fault::Call { k: at, partial } if at == k => {
                self.fired = true;
                self.accept(s, partial);
                Err(fmt::Error)
            }
            Fault::Full { n } if self.got.len() + s.len() > n => {
                self.fired = true;
                let room = n - self.got.len();
                self.accept(s, room);
                Err(fmt::Error)
            }
            Fault::Panic { k: at } if at == k => {
                self.fired = true;
                panic!("injected: sink panics");
            }
            _ => {
                self.got.push_str(s);
                Ok(())
            }
        }
    }
}

/// Run library code that must not panic.
#[macro_export]
macro_rules! no_panic {
    ($what:expr, $e:expr) => {
        match $crate::sim::guard(|| $e) {
            Ok(v) => v,
            Err(msg) => return $crate::sim::violation("panic", format!("{}: {msg}", $what)),
        }
    };
}

pub fn any(s: &str) -> Result<Tree, Error> {
    instant_xml::from_str::<AnyElement<'_>>(s).map(|e| model::any_tree(&e))
}
/// The same, by way of an owned copy
pub fn any_owned(s: &str) -> Result<Tree, Error> {
    instant_xml::from_str::<AnyElement<'_>>(s).map(|e| {
        let tree = model::any_tree(&e);
        let copy = model::any_tree(&e.into_owned());
        if copy != tree {
            panic!("the owned copy differs from what was captured");
        }
        tree
    })
}
pub fn any_with(s: &str, limits: Limits) -> Result<Tree, Error> {
    Deserializer::new(s)?
        .with_limits(limits)
        .deserialize::<AnyElement<'_>>()
        .map(|e| model::any_tree(&e))
}

/// Outcome of reading node by node.
#[derive(Debug, PartialEq)]
pub enum Pull {
    Tree(Tree),
    Err(Error),
    /// More steps than the budget
    Endless,
    /// The reader contradicted itself
    Odd(String),
}

pub struct PullRun {
    pub out: Pull,
    pub steps: usize,
    /// Reading on after the error came to an end
    pub ended: bool,
}

/// Read node by node, with namespaces resolved through the public operations.
pub fn pull(s: &str, limits: Option<Limits>) -> PullRun {
    let budget = 8 * s.len() + 256;
    let mut steps = 0;
    let mut d = match Deserializer::new(s) {
        Ok(d) => d,
        Err(e) => {
            return PullRun {
                out: Pull::Err(e),
                steps,
                ended: true,
            }
        }
    };
    if let Some(l) = limits {
        d = d.with_limits(l);
    }
    let id = d.parent();
    let mut t = Tree::new(id.ns, id.name);
    let out = match pull_into(&mut d, &mut t, &mut steps, budget) {
        Ok(()) => Pull::Tree(t),
        Err(p) => p,
    };
    let mut ended = false;
    for _ in 0..budget {
        steps += 1;
        if d.next().is_none() {
            ended = true;
            break;
        }
    }
    PullRun { out, steps, ended }
}

fn pull_into(
    d: &mut Deserializer<'_, '_>,
    t: &mut Tree,
    steps: &mut usize,
    budget: usize,
) -> Result<(), Pull> {
    loop {
        *steps += 1;
        if *steps > budget {
            return Err(Pull::Endless);
        }
        match d.next() {
            None => return Ok(()),
            Some(Err(e)) => return Err(Pull::Err(e)),
            Some(Ok(Node::Attribute(a))) => {
                let id = d.attribute_id(&a).map_err(Pull::Err)?;
                if !t.content.is_empty() {
                    return Err(Pull::Odd(format!("attribute {} after content", id.name)));
                }
                t.attrs
                    .push((id.ns.to_owned(), id.name.to_owned(), a.value.to_string()));
            }
            Some(Ok(Node::Text(s))) => t.text(&s),
            Some(Ok(Node::Open(e))) => {
                let id = d.element_id(&e).map_err(Pull::Err)?;
                let mut n = d.nested(e);
                if n.parent() != id {
                    return Err(Pull::Odd(format!(
                        "parent() is {:?}, not {id:?}",
                        n.parent()
                    )));
                }
                let mut c = Tree::new(id.ns, id.name);
                pull_into(&mut n, &mut c, steps, budget)?;
                t.content.push(XNode::Elem(c));
            }
            Some(Ok(node)) => return Err(Pull::Odd(format!("unexpected node {node:?}"))),
        }
    }
}

/// Outcome of an operation, for comparing executions.
pub fn show(r: &Result<Val, Error>) -> String {
    format!("{r:?}")
}

pub fn write_plain(shape: &Shape, v: &Val) -> Result<Result<String, Error>, String> {
    guard(|| shape.string(v))
}

pub fn small_gen(src: &mut Src) -> Gen {
    Gen {
        depth: 2 + src.below(4),
        poison: false,
        list: 3,
        ..Gen::default()
    }
}

pub fn short(v: &impl fmt::Debug) -> String {
    clip(&format!("{v:?}"))
}

/// Random damage to text at the level of characters and markup
pub fn damage(src: &mut Src, s: &str, donor: &str) -> String {
    let mut out: Vec<char> = s.chars().collect();
    let donor: Vec<char> = donor.chars().collect();
    let n = 1 + src.below(3);
    for _ in 0..n {
        let kind = src.below(12);
        let len = out.len();
        let at = src.below(len + 1);
        // Prefer places next to markup
        let at = match src.chance(1, 2) {
            true => {
                let marks: Vec<usize> = (0..len)
                    .filter(|i| {
                        matches!(
                            out[*i],
                            '<' | '>' | '/' | '"' | '\'' | '=' | '&' | ';' | ':' | ' '
                        )
                    })
                    .collect();
                match marks.is_empty() {
                    true => at,
                    false => (*src.pick(&marks) + src.below(2)).min(len),
                }
            }
            false => at,
        };
        match kind {
            // Lost
            0 | 1 => {
                let k = 1 + src.small(12);
                let end = (at + k).min(out.len());
                out.drain(at..end);
                src.fault("damage: characters lost");
            }
            // Duplicated
            2 => {
                let k = 1 + src.small(30);
                let end = (at + k).min(out.len());
                let piece: Vec<char> = out[at..end].to_vec();
                out.splice(end..end, piece);
                src.fault("damage: fragment duplicated");
            }
            // Flipped
            3 | 4 => {
                if at < out.len() {
                    let c = out[at] as u32 ^ (1 << src.below(8));
                    if let Some(c) = char::from_u32(c) {
                        out[at] = c;
                        src.fault("damage: bit flipped");
                    }
                }
            }
            // Overwritten with markup or odd characters
            5..=7 => {
                let piece: Vec<char> = src.pick(SOUP).chars().collect();
                let over = match src.chance(1, 2) {
                    true => piece.len().min(out.len() - at),
                    false => 0,
                };
                out.splice(at..at + over, piece);
                src.fault("damage: markup inserted");
            }
            // Fragments exchanged
            8 => {
                let k = 1 + src.small(20);
                let b = src.below(len + 1);
                let (x, y) = (at.min(b), at.max(b));
                let x_end = (x + k).min(y);
                let y_end = (y + k).min(out.len());
                let first: Vec<char> = out[x..x_end].to_vec();
                let second: Vec<char> = out[y..y_end].to_vec();
                out.splice(y..y_end, first);
                out.splice(x..x_end, second);
                src.fault("damage: fragments reordered");
            }
            // Bytes of another document
            9 => {
                let from = src.below(donor.len() + 1);
                let k = src.small(40);
                let end = (from + k).min(donor.len());
                out.splice(at..at, donor[from..end].to_vec());
                src.fault("damage: spliced with another document");
            }
            // A name replaced by another one of the document
            10 => {
                let names = words(&out);
                if names.len() > 1 {
                    let a = src.pick(&names).clone();
                    let b = src.pick(&names).clone();
                    let piece: Vec<char> = out[b].to_vec();
                    out.splice(a, piece);
                    src.fault("damage: name replaced");
                }
            }
            // Torn: the end belongs to another document
            _ => {
                out.truncate(at);
                let from = src.below(donor.len() + 1);
                out.extend(&donor[from..]);
                src.fault("damage: torn");
            }
        }
    }
    out.into_iter().collect()
}

/// Pieces of scalar texts, and what nearly is one
const SCALARS: &[&str] = &[
    "Z",
    "z",
    "+00:00",
    "-00:00",
    "+01:00",
    "-23:59",
    "+00",
    "T",
    "t",
    " ",
    "  ",
    "\t",
    "\n",
    "\u{a0}",
    "\u{2003}",
    ":",
    "-",
    "+",
    ".",
    ",",
    "0",
    "1",
    "9",
    "00",
    "000",
    "00000000000000000000",
    "99999999999999999999",
    "e",
    "E5",
    "e400",
    "e-400",
    "inf",
    "-inf",
    "NaN",
    "nan",
    "infinity",
    "INF",
    "true",
    "false",
    "True",
    "TRUE",
    "yes",
    "0x",
    "_",
    "%",
    "é",
    "€",
    "😀",
    "٣",
    "３",
    "\u{301}",
    "::",
    "::1",
    "1::",
    "/24",
    "%eth0",
    "1.2.3.4",
    "256",
    ".1",
    "1.",
    "60",
    "24:00:00",
    "23:59:60",
    "02-29",
    "02-30",
    "13",
    "-0",
    "+5",
    "127",
    "128",
    "255",
    "-129",
    "32768",
    "4294967296",
    "18446744073709551616",
    "-1",
    ".000000000",
    ".999999999",
    ".9999999999",
    "T00:00",
    "10000",
    "-0001",
    "W01",
    "f",
    "u8",
    "#",
    "&",
    "<",
    "]]>",
    "\u{feff}",
    "\u{fffd}",
    "\u{10ffff}",
];

fn leaves<'a>(t: &'a mut Tree, out: &mut Vec<&'a mut String>) {
    out.extend(t.attrs.iter_mut().map(|(_, _, v)| v));
    for n in &mut t.content {
        match n {
            XNode::Text(s) => out.push(s),
            XNode::Elem(e) => leaves(e, out),
        }
    }
}

/// Damage concentrated on the text of one scalar
pub fn spoil(src: &mut Src, t: &mut Tree) {
    let mut all = Vec::new();
    leaves(t, &mut all);
    if all.is_empty() {
        return;
    }
    // Rather numbers, dates and addresses than free text
    let formal: Vec<usize> = (0..all.len())
        .filter(|i| {
            all[*i].len() < 60 && all[*i].starts_with(|c: char| c.is_ascii_digit() || c == '-')
        })
        .collect();
    let at = match formal.is_empty() || src.chance(1, 3) {
        true => src.below(all.len()),
        false => *src.pick(&formal),
    };
    let text = &mut *all[at];
    if src.chance(1, 8) {
        // The whole of it, with something around it
        let (before, after) = *src.pick(&[
            ("[", "]"),
            ("(", ")"),
            ("{", "}"),
            ("\"", "\""),
            ("'", "'"),
            ("=", ""),
            ("+", ""),
            ("-", ""),
            ("0x", ""),
            ("0", ""),
            ("0o", ""),
            ("#", ""),
            ("\u{feff}", ""),
            ("", "\u{7f}"),
            ("", ".0"),
            ("", "."),
            ("", "e0"),
            ("", "f"),
            ("", "u"),
            ("", "L"),
            ("", "%"),
            ("", "%eth0"),
            ("", ":80"),
            ("", "/24"),
            ("[", "]:80"),
            ("::ffff:", ""),
            ("", ".1"),
            ("", ","),
            ("", ";"),
            ("", "Z"),
            ("", "T00:00:00"),
            ("", "T00:00:00Z"),
            ("", " UTC"),
            ("", "[UTC]"),
            ("", " "),
            (" ", ""),
            ("\n", "\n"),
            ("\u{a0}", ""),
            ("", "\u{200b}"),
        ]);
        *text = format!("{before}{text}{after}");
        src.fault("scalar dressed up");
        return;
    }
    if src.chance(1, 3) {
        // A wide character where the format has a fixed column, and a suffix
        let bounds: Vec<usize> = (0..=text.len())
            .filter(|i| text.is_char_boundary(*i))
            .collect();
        let a = *src.pick(&bounds);
        if src.chance(1, 2) {
            text.truncate(a);
        }
        text.insert_str(
            a,
            src.pick(&["é", "€", "😀", "٣", "３", "\u{a0}", "é9", "€0"]),
        );
        text.push_str(src.pick(&[
            "", "", "Z", "z", "+00:00", "T", ".", " ", "0", "%", "::", "-01", ":00", ".5",
        ]));
        src.fault("wide character in a scalar");
        return;
    }
    // The format kept, its parts changed: the texts damage must not be read past
    let zone = ["Z", "z", "+00:00"]
        .iter()
        .find_map(|z| text.strip_suffix(z).map(str::len));
    if let Some(at) = zone.filter(|_| src.chance(1, 3)) {
        text.truncate(at);
        let (h, m) = match src.below(3) {
            0 => (0, src.below(62)),
            1 => (src.below(26), 0),
            _ => (src.below(26), *src.pick(&[1, 15, 30, 45, 59, 60])),
        };
        let sign = src.pick(&["+", "-", "\u{2212}", " "]);
        let sep = src.pick(&[":", ":", ":", ""]);
        text.push_str(&format!("{sign}{h:02}{sep}{m:02}"));
        src.fault("offset of a time changed");
        return;
    }
    // A number beside the end of a type's range, or between two values of a floating point type
    if let Some(value) = text.parse::<f64>().ok().filter(|_| src.chance(1, 6)) {
        *text = match text.contains(['.', 'e', 'N', 'f']) {
            false => {
                let edge = 1i128 << *src.pick(&[7, 8, 15, 16, 31, 32, 53, 63, 64]);
                let near = edge + src.below(5) as i128 - 2;
                (if src.chance(1, 2) { near } else { -near }).to_string()
            }
            true => between(value as f32, src.below(3)),
        };
        src.fault("number at an edge");
        return;
    }
    if text.bytes().any(|b| b.is_ascii_digit()) && src.chance(1, 4) {
        let at: Vec<usize> = (0..text.len())
            .filter(|i| text.as_bytes()[*i].is_ascii_digit())
            .collect();
        for _ in 0..1 + src.small(2) {
            let i = *src.pick(&at);
            let d = src.below(10).to_string();
            text.replace_range(i..i + 1, &d);
        }
        src.fault("digit of a scalar changed");
        return;
    }
    for _ in 0..1 + src.small(4) {
        let bounds: Vec<usize> = (0..=text.len())
            .filter(|i| text.is_char_boundary(*i))
            .collect();
        let a = *src.pick(&bounds);
        let b = *src.pick(&bounds);
        let (a, b) = (a.min(b), a.max(b));
        let piece = *src.pick(SCALARS);
        match src.below(10) {
            0 => text.insert_str(0, piece),
            1 => text.push_str(piece),
            2..=3 => text.insert_str(a, piece),
            4 => text.replace_range(a..b, piece),
            // One character for another
            5..=6 => {
                let end = text[a..].chars().next().map_or(a, |c| a + c.len_utf8());
                text.replace_range(a..end, piece);
            }
            7 => text.truncate(a),
            8 => {
                let tail = text.split_off(a);
                *text = tail;
            }
            _ => *text = piece.to_owned(),
        }
    }
    src.fault("scalar text damaged");
}

/// A decimal number beside the middle of `v` and the next `f32`: below it, exactly there, above it
fn between(v: f32, side: usize) -> String {
    if !v.is_finite() || !(1e-6..1e9).contains(&v.abs()) {
        return "16777217.0000000000000000000000001".to_owned();
    }
    let next = f32::from_bits(v.to_bits() + 1);
    let middle = (f64::from(v) + f64::from(next)) / 2.0;
    let exact = format!("{middle:.90}");
    let exact = match exact.trim_end_matches('0') {
        s if s.ends_with('.') => format!("{s}0"),
        s => s.to_owned(),
    };
    match side {
        0 => format!("{exact}00000000000000000001"),
        1 => exact,
        // Its last digit, which is not zero unless the number is whole
        _ => match exact.strip_suffix(|c: char| ('1'..='9').contains(&c)) {
            Some(head) => {
                let last = exact[head.len()..].parse::<u8>().unwrap_or(1) - 1;
                format!("{head}{last}99999999999999999999")
            }
            None => exact,
        },
    }
}

fn words(s: &[char]) -> Vec<std::ops::Range<usize>> {
    let mut out = Vec::new();
    let mut start = None;
    for (i, c) in s.iter().enumerate() {
        let word = c.is_alphanumeric() || matches!(c, ':' | '-' | '.' | '_' | '#');
        match (word, start) {
            (true, None) => start = Some(i),
            (false, Some(b)) => {
                out.push(b..i);
                start = None;
            }
            _ => {}
        }
        if out.len() > 400 {
            break;
        }
    }
    out
}

pub const SOUP: &[&str] = &[
    "<",
    ">",
    "/>",
    "</",
    "<a>",
    "</a>",
    "<a/>",
    "&",
    "&amp;",
    "&#",
    "&#x",
    ";",
    "&#0;",
    "&#55296;",
    "&#xD800;",
    "&#x110000;",
    "&#1114112;",
    "&#-1;",
    "&#+65;",
    "&#x+41;",
    "&#99999999999;",
    "&nbsp;",
    "&AMP;",
    "& ",
    "&;",
    "&#;",
    "&#x;",
    "&#x1;",
    "&#xFFFE;",
    "&#xffff;",
    "&#8;",
    "&#x41;",
    "&lt",
    "&quot",
    "'",
    "\"",
    "=",
    " a=\"1\"",
    " a='1'",
    " a=1",
    " a",
    " xmlns=\"\"",
    " xmlns=\"urn:a\"",
    " xmlns:p=\"urn:p\"",
    " xmlns:p=\"\"",
    " p:a=\"1\"",
    "p:",
    ":",
    "<p:a>",
    "</p:a>",
    "<p:a/>",
    "<!--",
    "-->",
    "<!-- x -->",
    "<!---->",
    "--",
    "<![CDATA[",
    "]]>",
    "<![CDATA[x]]>",
    "<![CDATA[]]>",
    "<?xml version=\"1.0\"?>",
    "<?pi x?>",
    "<?",
    "?>",
    "<!DOCTYPE a>",
    "<!DOCTYPE a [<!ENTITY b \"c\">]>",
    "<!ELEMENT a>",
    "<!",
    "\0",
    "\u{1}",
    "\u{B}",
    "\u{FFFE}",
    "\u{FFFF}",
    "\u{FEFF}",
    "\r",
    "\n",
    "\t",
    " ",
    "é",
    "😀",
    "\u{301}",
    "xml:",
    " xml:lang=\"x\"",
    " xmlns:xml=\"urn:a\"",
    " xmlns:xmlns=\"x\"",
    "<xmlns:a/>",
    "-",
    "1",
    "<1a/>",
    "< a>",
    "<a >",
    "</a >",
    "<//a>",
    "<a//>",
    "<a><a>",
    "</a></a>",
];
