//! Independent XML: a tree model, a strict namespace-aware reader and an encoder that can write the
//! same tree in any equivalent form. Nothing here uses instant-xml or its tokenizer.

use crate::sim::Src;
use std::fmt::Write as _;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Tree {
    pub ns: String,
    pub name: String,
    /// (namespace, local name, value) in document order
    pub attrs: Vec<(String, String, String)>,
    pub content: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Text(String),
    Elem(Tree),
}

impl Tree {
    pub fn new(ns: &str, name: &str) -> Self {
        Tree {
            ns: ns.to_owned(),
            name: name.to_owned(),
            ..Default::default()
        }
    }
    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        match self.content.last_mut() {
            Some(Node::Text(t)) => t.push_str(s),
            _ => self.content.push(Node::Text(s.to_owned())),
        }
    }
    pub fn elems(&self) -> impl Iterator<Item = &Tree> {
        self.content.iter().filter_map(|n| match n {
            Node::Elem(t) => Some(t),
            Node::Text(_) => None,
        })
    }
    pub fn all_text(&self) -> String {
        let mut out = String::new();
        for n in &self.content {
            if let Node::Text(t) = n {
                out.push_str(t);
            }
        }
        out
    }
    pub fn text_runs(&self) -> usize {
        self.content
            .iter()
            .filter(|n| matches!(n, Node::Text(_)))
            .count()
    }
    pub fn size(&self) -> usize {
        1 + self.elems().map(Tree::size).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.elems().map(Tree::depth).max().unwrap_or(0)
    }
    /// The element at a pre-order index.
    pub fn nth_mut(&mut self, n: &mut usize) -> Option<&mut Tree> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for c in &mut self.content {
            if let Node::Elem(t) = c {
                if let Some(found) = t.nth_mut(n) {
                    return Some(found);
                }
            }
        }
        None
    }
    /// Attribute order carries no meaning: bring it into a canonical one.
    pub fn sort_attrs(&mut self) {
        self.attrs.sort();
        for c in &mut self.content {
            if let Node::Elem(t) = c {
                t.sort_attrs();
            }
        }
    }
    pub fn sorted(mut self) -> Self {
        self.sort_attrs();
        self
    }
}

/// What a received string says.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// A well-formed document with this content
    Tree(Tree),
    /// Damaged in a way every reader has to refuse
    Reject(&'static str),
    /// Anything else: not well-formed, or a corner the properties leave open
    Open(&'static str),
}

impl Verdict {
    pub fn tree(self) -> Option<Tree> {
        match self {
            Verdict::Tree(t) => Some(t),
            _ => None,
        }
    }
}

pub fn is_char(c: char) -> bool {
    matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
}

fn is_name_start(c: char) -> bool {
    c == '_'
        || c.is_ascii_alphabetic()
        || matches!(c, '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
fn is_name(c: char) -> bool {
    is_name_start(c)
        || c.is_ascii_digit()
        || matches!(c, '-' | '.' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
    /// Declarations visible at every element, in document order
    scopes: Vec<Scope>,
}

type Res<T> = Result<T, Verdict>;

fn open<T>(why: &'static str) -> Res<T> {
    Err(Verdict::Open(why))
}
fn reject<T>(why: &'static str) -> Res<T> {
    Err(Verdict::Reject(why))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scope {
    default: String,
    pub prefixes: Vec<(String, String)>,
}

impl Scope {
    pub fn get(&self, prefix: &str) -> Option<&str> {
        if prefix == "xml" {
            return Some(XML_NS);
        }
        self.prefixes
            .iter()
            .rev()
            .find(|(p, _)| p == prefix)
            .map(|(_, ns)| ns.as_str())
    }
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.rest().starts_with(p) {
            self.i += p.len();
            true
        } else {
            false
        }
    }
    fn space(&mut self) -> bool {
        let start = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > start
    }
    fn ncname(&mut self) -> Res<&'a str> {
        let start = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            _ => return open("name expected"),
        }
        while let Some(c) = self.peek() {
            if !is_name(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(&self.s[start..self.i])
    }
    fn qname(&mut self) -> Res<(&'a str, &'a str)> {
        let first = self.ncname()?;
        if self.eat(":") {
            let local = self.ncname()?;
            if self.peek() == Some(':') {
                return open("two colons");
            }
            Ok((first, local))
        } else {
            Ok(("", first))
        }
    }
    fn comment(&mut self) -> Res<()> {
        // after "<!--"
        match self.rest().find("--") {
            Some(at) if self.rest()[at..].starts_with("-->") => {
                if self.rest()[..at].chars().any(|c| !is_char(c)) {
                    return open("character in comment");
                }
                self.i += at + 3;
                Ok(())
            }
            _ => open("comment"),
        }
    }
}

/// Expand references. Anything but the five named and valid numeric ones must be refused.
fn expand(raw: &str) -> Res<String> {
    let mut out = String::with_capacity(raw.len());
    let mut rest = raw;
    while let Some(at) = rest.find('&') {
        out.push_str(&rest[..at]);
        rest = &rest[at + 1..];
        let Some(end) = rest.find(';') else {
            return reject("unterminated reference");
        };
        let body = &rest[..end];
        rest = &rest[end + 1..];
        let c = match body {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let (digits, radix) = match body.strip_prefix("#x") {
                    Some(d) => (d, 16),
                    None => match body.strip_prefix('#') {
                        // Not XML, but a known leniency left open by the properties
                        Some(d) if d.starts_with('X') => return open("#X reference"),
                        Some(d) => (d, 10),
                        None => return reject("unknown reference"),
                    },
                };
                if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
                    return reject("malformed reference");
                }
                if digits.len() > 7 {
                    let sig = digits.trim_start_matches('0');
                    if sig.len() > 7 {
                        return reject("reference out of range");
                    }
                    return open("reference with many leading zeros");
                }
                match u32::from_str_radix(digits, radix)
                    .ok()
                    .and_then(char::from_u32)
                    .filter(|c| is_char(*c))
                {
                    Some(c) => c,
                    None => return reject("reference to a forbidden character"),
                }
            }
        };
        out.push(c);
    }
    out.push_str(rest);
    Ok(out)
}

/// Read a received string strictly.
pub fn parse(s: &str) -> Verdict {
    match parse_inner(s) {
        Ok(t) => Verdict::Tree(t),
        Err(v) => v,
    }
}

/// The declarations visible at every element of a well-formed document, in document order.
pub fn scopes(s: &str) -> Vec<Scope> {
    let mut p = P {
        s,
        i: 0,
        scopes: Vec::new(),
    };
    match prolog(&mut p).and_then(|_| element(&mut p, &Scope::default(), 0)) {
        Ok(_) => p.scopes,
        Err(_) => Vec::new(),
    }
}

/// End of the root element, for a well-formed document.
pub fn root_end(s: &str) -> Option<usize> {
    let mut p = P {
        s,
        i: 0,
        scopes: Vec::new(),
    };
    prolog(&mut p).ok()?;
    element(&mut p, &Scope::default(), 0).ok()?;
    Some(p.i)
}

fn prolog(p: &mut P<'_>) -> Res<()> {
    if p.eat("\u{FEFF}") {
        return open("byte order mark");
    }
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\n', '\r']) {
        match p.rest().find("?>") {
            Some(end) => {
                let decl = &p.rest()[..end + 2];
                if !KNOWN_DECLS.contains(&decl) {
                    return open("xml declaration");
                }
                p.i += end + 2;
            }
            None => return reject("truncated"),
        }
    }
    loop {
        p.space();
        if p.eat("<!--") {
            p.comment()?;
        } else if p.rest().starts_with("<?") {
            return open("processing instruction before the root");
        } else if p.rest().starts_with("<!") {
            return open("document type or other declaration before the root");
        } else {
            return Ok(());
        }
    }
}

pub const KNOWN_DECLS: &[&str] = &[
    "<?xml version=\"1.0\"?>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    "<?xml version='1.0' encoding='utf-8' standalone='yes'?>",
    "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>",
];

fn parse_inner(s: &str) -> Res<Tree> {
    let mut p = P {
        s,
        i: 0,
        scopes: Vec::new(),
    };
    if s.is_empty() {
        return reject("empty");
    }
    prolog(&mut p)?;
    if p.rest().is_empty() {
        return reject("no root element");
    }
    let t = element(&mut p, &Scope::default(), 0)?;
    loop {
        p.space();
        if p.eat("<!--") {
            p.comment()?;
        } else {
            break;
        }
    }
    match p.rest().is_empty() {
        true => Ok(t),
        false => open("content after the root element"),
    }
}

fn element(p: &mut P<'_>, outer: &Scope, depth: usize) -> Res<Tree> {
    if depth > 200 {
        return open("too deep for the reference reader");
    }
    if !p.eat("<") {
        return open("element expected");
    }
    let (prefix, name) = p.qname()?;
    let mut scope = outer.clone();
    let mut raw: Vec<(&str, &str, String)> = Vec::new();
    let mut declared: Vec<&str> = Vec::new();
    // A rejection inside the tag only counts once the tag is known to be complete
    let mut pending: Option<&'static str> = None;
    let empty = loop {
        let spaced = p.space();
        if p.eat("/>") {
            break true;
        }
        if p.eat(">") {
            break false;
        }
        if p.rest().is_empty() {
            return reject("truncated");
        }
        if !spaced {
            return open("space expected in tag");
        }
        let (ap, an) = p.qname()?;
        p.space();
        if !p.eat("=") {
            return open("= expected");
        }
        p.space();
        let quote = match p.peek() {
            Some(q @ ('"' | '\'')) => q,
            _ => return open("quote expected"),
        };
        p.i += 1;
        let Some(end) = p.rest().find(quote) else {
            return reject("truncated");
        };
        let value = &p.rest()[..end];
        p.i += end + 1;
        if value.contains('<') || value.chars().any(|c| !is_char(c)) {
            return open("attribute value");
        }
        if ap == "xmlns" || (ap.is_empty() && an == "xmlns") {
            if value.contains('&') {
                return open("reference in a namespace name");
            }
            let key = if ap.is_empty() { "" } else { an };
            if declared.contains(&key) {
                return open("duplicate declaration");
            }
            declared.push(key);
            if ap.is_empty() {
                scope.default = value.to_owned();
            } else {
                if value.is_empty() || an == "xml" || an == "xmlns" {
                    return open("reserved declaration");
                }
                scope.prefixes.push((an.to_owned(), value.to_owned()));
            }
        } else {
            match expand(value) {
                Ok(v) => raw.push((ap, an, v)),
                Err(Verdict::Reject(why)) => pending = pending.or(Some(why)),
                Err(v) => return Err(v),
            }
        }
    };
    if prefix == "xmlns" {
        return open("reserved prefix");
    }
    let mut t = Tree::default();
    t.name = name.to_owned();
    t.ns = match prefix {
        "" => scope.default.clone(),
        _ => match scope.get(prefix) {
            Some(ns) => ns.to_owned(),
            None if depth == 0 => return reject("undeclared root prefix"),
            None => return reject("undeclared element prefix"),
        },
    };
    if let Some(why) = pending {
        return reject(why);
    }
    for (ap, an, v) in raw {
        let ns = match ap {
            "" => String::new(),
            _ => match scope.get(ap) {
                Some(ns) => ns.to_owned(),
                None => return reject("undeclared attribute prefix"),
            },
        };
        if t.attrs.iter().any(|(n, l, _)| *n == ns && l == an) {
            return open("duplicate attribute");
        }
        t.attrs.push((ns, an.to_owned(), v));
    }
    p.scopes.push(scope.clone());
    if empty {
        return Ok(t);
    }
    loop {
        let rest = p.rest();
        if rest.is_empty() {
            return reject("truncated");
        }
        if p.eat("</") {
            if p.rest().is_empty() {
                return reject("truncated");
            }
            let (cp, cn) = p.qname()?;
            p.space();
            if p.rest().is_empty() {
                return reject("truncated");
            }
            if !p.eat(">") {
                return open("> expected");
            }
            if (cp, cn) != (prefix, name) {
                return reject("mismatched closing tag");
            }
            return Ok(t);
        }
        if p.eat("<!--") {
            p.comment()?;
        } else if p.eat("<![CDATA[") {
            let Some(end) = p.rest().find("]]>") else {
                return reject("truncated");
            };
            let text = &p.rest()[..end];
            if text.chars().any(|c| !is_char(c)) {
                return open("character in CDATA");
            }
            p.i += end + 3;
            t.text(text);
        } else if rest.starts_with("<?") {
            return reject("processing instruction");
        } else if rest.starts_with("<!DOCTYPE") {
            return reject("document type");
        } else if rest.starts_with('<') {
            if !rest[1..].starts_with(is_name_start) {
                return open("markup");
            }
            let child = element(p, &scope, depth + 1)?;
            t.content.push(Node::Elem(child));
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            let text = &rest[..end];
            if text.contains("]]>") || text.chars().any(|c| !is_char(c)) {
                return open("text");
            }
            p.i += end;
            let text = expand(text)?;
            t.text(&text);
        }
    }
}

// Encoder

/// How freely a relay rewrites a document; every bit that is off keeps the plain form.
#[derive(Clone, Debug, Default)]
pub struct Style {
    pub prefixes: bool,
    pub refs: bool,
    pub cdata: bool,
    pub comments: bool,
    pub spacing: bool,
    pub attr_order: bool,
    pub redeclare: bool,
    pub decl: bool,
}

impl Style {
    pub fn plain() -> Self {
        Style::default()
    }
    pub fn gen(src: &mut Src) -> Self {
        Style {
            prefixes: src.chance(2, 3),
            refs: src.chance(1, 2),
            cdata: src.chance(1, 2),
            comments: src.chance(1, 3),
            spacing: src.chance(1, 2),
            attr_order: src.chance(1, 2),
            redeclare: src.chance(1, 3),
            decl: src.chance(1, 4),
        }
    }
    pub fn fired(&self) -> Vec<&'static str> {
        let mut v = Vec::new();
        for (on, name) in [
            (self.prefixes, "relay: namespace prefixes rewritten"),
            (self.refs, "relay: character references"),
            (self.cdata, "relay: CDATA sections"),
            (self.comments, "relay: comments"),
            (self.spacing, "relay: tag spacing and quotes"),
            (self.attr_order, "relay: attribute order"),
            (self.redeclare, "relay: declarations moved or repeated"),
            (self.decl, "relay: XML declaration"),
        ] {
            if on {
                v.push(name);
            }
        }
        v
    }
}

pub fn encode(src: &mut Src, style: &Style, t: &Tree) -> String {
    let mut out = String::new();
    if style.decl {
        out.push_str(*src.pick(KNOWN_DECLS));
        if src.chance(1, 2) {
            out.push('\n');
        }
    }
    if style.comments && src.chance(1, 3) {
        comment(src, &mut out);
    }
    enc(src, style, t, &mut out, &Scope::default());
    out
}

/// Encode in the plain form: one default declaration per change, prefixes only for attributes.
pub fn encode_plain(t: &Tree) -> String {
    let mut src = Src::from_tape(Vec::new());
    encode(&mut src, &Style::plain(), t)
}

const PREFIXES: &[&str] = &["p", "q", "a", "ns1", "x-y.z", "_u", "bar", "é", "P"];
const COMMENTS: &[&str] = &[
    "",
    " x ",
    "<a>",
    "&amp;",
    "&bad",
    "-",
    "]]>",
    "</a>",
    "<![CDATA[",
    "ü",
    "xmlns='n'",
];

fn comment(src: &mut Src, out: &mut String) {
    let body = *src.pick(COMMENTS);
    let body = if body.ends_with('-') { " - " } else { body };
    let _ = write!(out, "<!--{body}-->");
}

fn gap(src: &mut Src, style: &Style, out: &mut String, must: bool) {
    if style.spacing {
        let n = src.below(4);
        if must || n > 0 {
            for _ in 0..n.max(1) {
                out.push(*src.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    } else if must {
        out.push(' ');
    }
}

fn fresh_prefix(src: &mut Src, style: &Style, scope: &Scope, taken: &[String]) -> String {
    let free =
        |p: &str, shadow: bool| !taken.iter().any(|t| t == p) && (shadow || scope.get(p).is_none());
    if style.prefixes {
        for _ in 0..4 {
            let p = *src.pick(PREFIXES);
            // Shadowing an outer prefix is fine: names are resolved by scope
            if free(p, src.chance(1, 3)) {
                return p.to_owned();
            }
        }
    }
    let mut i = 0;
    loop {
        let p = format!("n{i}");
        if free(&p, false) {
            return p;
        }
        i += 1;
    }
}

fn enc(src: &mut Src, style: &Style, t: &Tree, out: &mut String, outer: &Scope) {
    // Decide on declarations made here
    let mut scope = outer.clone();
    let mut decls: Vec<(String, String)> = Vec::new(); // prefix ("" = default), uri
    let mut taken: Vec<String> = Vec::new();
    let declare = |scope: &mut Scope,
                   decls: &mut Vec<(String, String)>,
                   taken: &mut Vec<String>,
                   p: String,
                   uri: &str| {
        if p.is_empty() {
            scope.default = uri.to_owned();
        } else {
            scope.prefixes.push((p.clone(), uri.to_owned()));
        }
        taken.push(p.clone());
        decls.push((p, uri.to_owned()));
    };
    if style.redeclare {
        // Repeat what is in scope, hoist what descendants need, or declare something unused
        if src.chance(1, 3) {
            let d = scope.default.clone();
            declare(&mut scope, &mut decls, &mut taken, String::new(), &d);
        }
        let mut uris = Vec::new();
        collect_ns(t, &mut uris, 0);
        for _ in 0..src.below(3) {
            let uri = match uris.is_empty() || src.chance(1, 4) {
                true => "urn:unused".to_owned(),
                false => src.pick(&uris).clone(),
            };
            if uri != XML_NS && !uri.is_empty() && decls.len() < 8 {
                let p = fresh_prefix(src, style, &scope, &taken);
                declare(&mut scope, &mut decls, &mut taken, p, &uri);
            }
        }
    }
    // Prefix of the element itself
    let mut prefix = String::new();
    if t.ns == XML_NS {
        prefix = "xml".into();
    } else if t.ns != scope.default || (style.prefixes && !t.ns.is_empty() && src.chance(1, 3)) {
        let visible: Vec<String> = visible(&scope, &t.ns);
        if !t.ns.is_empty() && !visible.is_empty() && style.prefixes && src.chance(2, 3) {
            prefix = src.pick(&visible).clone();
        } else if !t.ns.is_empty() && style.prefixes && src.chance(1, 2) {
            prefix = fresh_prefix(src, style, &scope, &taken);
            let ns = t.ns.clone();
            declare(&mut scope, &mut decls, &mut taken, prefix.clone(), &ns);
        } else if !taken.iter().any(|p| p.is_empty()) {
            let ns = t.ns.clone();
            declare(&mut scope, &mut decls, &mut taken, String::new(), &ns);
        } else {
            // The default was already repeated on this element: overwrite that declaration
            for d in &mut decls {
                if d.0.is_empty() {
                    d.1 = t.ns.clone();
                }
            }
            scope.default = t.ns.clone();
        }
    }
    // Attributes
    let mut items: Vec<(String, String, bool)> = Vec::new(); // qname, value, is declaration
    for (ns, name, value) in &t.attrs {
        let q = match ns.as_str() {
            "" => name.clone(),
            XML_NS => format!("xml:{name}"),
            _ => {
                let known = visible(&scope, ns);
                let p = match known.is_empty() {
                    false => src.pick(&known).clone(),
                    true => {
                        let p = fresh_prefix(src, style, &scope, &taken);
                        declare(&mut scope, &mut decls, &mut taken, p.clone(), ns);
                        p
                    }
                };
                format!("{p}:{name}")
            }
        };
        items.push((q, value.clone(), false));
    }
    let n_attrs = items.len();
    // A fresh prefix may have hidden the one picked for an earlier name: resolve again
    let resolves = |q: &str, ns: &str| match q.split_once(':') {
        Some((p, _)) => scope.get(p) == Some(ns),
        None => ns.is_empty(),
    };
    let ok = (0..n_attrs).all(|i| resolves(&items[i].0, &t.attrs[i].0))
        && match prefix.as_str() {
            "" => scope.default == t.ns,
            p => scope.get(p) == Some(&t.ns),
        };
    if !ok {
        return enc(
            src,
            &Style {
                prefixes: false,
                redeclare: false,
                ..style.clone()
            },
            t,
            out,
            outer,
        );
    }
    for (p, uri) in &decls {
        let q = match p.is_empty() {
            true => "xmlns".to_owned(),
            false => format!("xmlns:{p}"),
        };
        items.push((q, uri.clone(), true));
    }
    if style.attr_order {
        for i in (1..items.len()).rev() {
            let j = src.below(i + 1);
            items.swap(i, i - j);
        }
    } else {
        items.rotate_left(n_attrs);
    }
    let tag = match prefix.is_empty() {
        true => t.name.clone(),
        false => format!("{prefix}:{}", t.name),
    };
    out.push('<');
    out.push_str(&tag);
    for (q, v, decl) in &items {
        gap(src, style, out, true);
        out.push_str(q);
        gap(src, style, out, false);
        out.push('=');
        gap(src, style, out, false);
        let quote = match style.spacing && src.chance(1, 2) {
            true => '\'',
            false => '"',
        };
        out.push(quote);
        match decl {
            true => out.push_str(v),
            false => chars(src, style, v, out, Some(quote)),
        }
        out.push(quote);
    }
    gap(src, style, out, false);
    if t.content.is_empty() && !src.chance(1, 2) {
        out.push_str("/>");
        return;
    }
    out.push('>');
    for n in &t.content {
        nothing(src, style, out);
        match n {
            Node::Elem(c) => enc(src, style, c, out, &scope),
            Node::Text(s) => text(src, style, s, out),
        }
    }
    nothing(src, style, out);
    let _ = write!(out, "</{tag}");
    gap(src, style, out, false);
    out.push('>');
}

/// Content without any meaning
fn nothing(src: &mut Src, style: &Style, out: &mut String) {
    if style.comments && src.chance(1, 6) {
        comment(src, out);
    }
    if style.cdata && src.chance(1, 20) {
        out.push_str("<![CDATA[]]>");
    }
}

fn visible(scope: &Scope, ns: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for (p, uri) in &scope.prefixes {
        if uri == ns && scope.get(p) == Some(ns) && !out.contains(p) {
            out.push(p.clone());
        }
    }
    out
}

fn collect_ns(t: &Tree, out: &mut Vec<String>, depth: usize) {
    for ns in std::iter::once(&t.ns).chain(t.attrs.iter().map(|a| &a.0)) {
        if !ns.is_empty() && !out.contains(ns) {
            out.push(ns.clone());
        }
    }
    if depth < 3 {
        for c in t.elems() {
            collect_ns(c, out, depth + 1);
        }
    }
}

fn text(src: &mut Src, style: &Style, s: &str, out: &mut String) {
    let chs: Vec<char> = s.chars().collect();
    if !style.cdata && !style.comments {
        chars(src, style, s, out, None);
        return;
    }
    let mut i = 0;
    while i < chs.len() {
        let n = 1 + src.below(chs.len() - i);
        let piece: String = chs[i..i + n].iter().collect();
        i += n;
        let raw_ok = !piece.contains("]]>") && !piece.contains('\r');
        if style.cdata && raw_ok && src.chance(1, 2) {
            let _ = write!(out, "<![CDATA[{piece}]]>");
        } else {
            chars(src, style, &piece, out, None);
        }
        if style.comments && src.chance(1, 4) {
            comment(src, out);
        }
        if i < chs.len() && src.tape.len() > 50_000 {
            let piece: String = chs[i..].iter().collect();
            chars(src, &Style::plain(), &piece, out, None);
            break;
        }
    }
}

/// Write characters as themselves where XML allows it, else (or by choice) as references.
fn chars(src: &mut Src, style: &Style, s: &str, out: &mut String, quote: Option<char>) {
    for c in s.chars() {
        let must = match c {
            '&' | '<' | '\r' => true,
            '\t' | '\n' => quote.is_some(),
            '>' => out.ends_with("]]"),
            _ => Some(c) == quote,
        };
        if must || (style.refs && src.chance(1, 5)) {
            reference(src, style, c, out);
        } else {
            out.push(c);
        }
    }
}

fn reference(src: &mut Src, style: &Style, c: char, out: &mut String) {
    let named = match c {
        '&' => Some("&amp;"),
        '<' => Some("&lt;"),
        '>' => Some("&gt;"),
        '"' => Some("&quot;"),
        '\'' => Some("&apos;"),
        _ => None,
    };
    let form = match style.refs {
        true => src.below(5),
        false => 0,
    };
    let _ = match (form, named) {
        (0, Some(n)) => write!(out, "{n}"),
        (1, _) => write!(out, "&#x{:x};", c as u32),
        (2, _) => write!(out, "&#x{:X};", c as u32),
        (3, _) => write!(out, "&#x{:04x};", c as u32),
        (4, _) => write!(out, "&#{:03};", c as u32),
        _ => write!(out, "&#{};", c as u32),
    };
}
