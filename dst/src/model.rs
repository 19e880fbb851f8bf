//! Executable reference model: what values of the zoo's types look like, which document each one
//! stands for, and what a document means when read as a type. Written from the documented
//! behaviour; shares no code with instant-xml.

use crate::sim::Src;
use crate::xml::{is_char, Node, Tree};
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, Utc};
use std::borrow::Cow;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// Scalar in canonical text form
    S(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    /// Fields of a struct (also tuple and transparent)
    Rec(Vec<Val>),
    /// Forward enum
    Var(usize, Box<Val>),
    /// Scalar enum
    Case(usize),
    Unit,
    /// Generic element
    Any(Tree),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
    Str,
    Bool,
    Int(i128, i128),
    F32,
    F64,
    Char,
    DateTime,
    NaiveDateTime,
    NaiveDate,
    Ip,
    /// Raw bytes that are text (`Cow<[u8]>` with borrow)
    Bytes,
    /// Text handled by a hand-written conversion
    User,
    /// Content skipped by the type
    Skip,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Sc(Sc),
    /// Scalar enum: element namespace and variant texts
    Cases(&'static str, &'static [&'static str]),
    Opt(Box<Ty>),
    Boxed(Box<Ty>),
    List(Box<Ty>),
    Named(fn() -> &'static Def),
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    Attr,
    Elem,
    Direct,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub place: Place,
    pub ns: &'static str,
    pub tag: &'static str,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum DefKind {
    Struct(Vec<Field>),
    Tuple(Vec<Ty>),
    Unit,
    Transparent(Vec<Field>),
    Forward(Vec<Ty>),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub ns: &'static str,
    pub name: &'static str,
    pub kind: DefKind,
}

pub trait Model: Sized {
    fn ty() -> Ty;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}

fn s(v: &Val) -> &str {
    match v {
        Val::S(s) => s,
        other => panic!("harness: scalar expected, got {other:?}"),
    }
}

impl Model for String {
    fn ty() -> Ty {
        Ty::Sc(Sc::Str)
    }
    fn to_val(&self) -> Val {
        Val::S(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        s(v).to_owned()
    }
}
impl Model for Cow<'_, str> {
    fn ty() -> Ty {
        Ty::Sc(Sc::Str)
    }
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        Cow::Owned(s(v).to_owned())
    }
}
impl Model for bool {
    fn ty() -> Ty {
        Ty::Sc(Sc::Bool)
    }
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        s(v) == "true"
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Model for $t {
            fn ty() -> Ty { Ty::Sc(Sc::Int(<$t>::MIN as i128, <$t>::MAX as i128)) }
            fn to_val(&self) -> Val { Val::S(self.to_string()) }
            fn from_val(v: &Val) -> Self { s(v).parse().expect("harness: int") }
        }
    )*};
}
ints!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
macro_rules! floats {
    ($($t:ty => $sc:ident),*) => {$(
        impl Model for $t {
            fn ty() -> Ty { Ty::Sc(Sc::$sc) }
            fn to_val(&self) -> Val { Val::S(format!("{self:?}")) }
            fn from_val(v: &Val) -> Self { s(v).parse().expect("harness: float") }
        }
    )*};
}
floats!(f32 => F32, f64 => F64);
impl Model for char {
    fn ty() -> Ty {
        Ty::Sc(Sc::Char)
    }
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        s(v).chars().next().expect("harness: char")
    }
}
impl Model for IpAddr {
    fn ty() -> Ty {
        Ty::Sc(Sc::Ip)
    }
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        s(v).parse().expect("harness: ip")
    }
}
const NDT: &str = "%Y-%m-%d %H:%M:%S%.9f";
impl Model for NaiveDate {
    fn ty() -> Ty {
        Ty::Sc(Sc::NaiveDate)
    }
    fn to_val(&self) -> Val {
        Val::S(format!("{:?}", self))
    }
    fn from_val(v: &Val) -> Self {
        s(v).parse().expect("harness: date")
    }
}
impl Model for NaiveDateTime {
    fn ty() -> Ty {
        Ty::Sc(Sc::NaiveDateTime)
    }
    fn to_val(&self) -> Val {
        Val::S(self.format(NDT).to_string())
    }
    fn from_val(v: &Val) -> Self {
        NaiveDateTime::parse_from_str(s(v), NDT).expect("harness: datetime")
    }
}
impl Model for DateTime<Utc> {
    fn ty() -> Ty {
        Ty::Sc(Sc::DateTime)
    }
    fn to_val(&self) -> Val {
        Val::S(self.naive_utc().format(NDT).to_string())
    }
    fn from_val(v: &Val) -> Self {
        NaiveDateTime::from_val(v).and_utc()
    }
}
impl Model for () {
    fn ty() -> Ty {
        Ty::Sc(Sc::Skip)
    }
    fn to_val(&self) -> Val {
        Val::S(String::new())
    }
    fn from_val(_: &Val) -> Self {}
}
impl<T: Model> Model for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(T::ty()))
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::None => None,
            Val::Some(v) => Some(T::from_val(v)),
            other => panic!("harness: option expected, got {other:?}"),
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn ty() -> Ty {
        Ty::Boxed(Box::new(T::ty()))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
}
fn items(v: &Val) -> &[Val] {
    match v {
        Val::List(l) => l,
        other => panic!("harness: list expected, got {other:?}"),
    }
}
impl<T: Model> Model for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(Model::to_val).collect())
    }
    fn from_val(v: &Val) -> Self {
        items(v).iter().map(T::from_val).collect()
    }
}
macro_rules! slices {
    ($($t:ty),*) => {$(
impl Model for Cow<'_, [$t]> {
    fn ty() -> Ty {
        Ty::List(Box::new(<$t>::ty()))
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(Model::to_val).collect())
    }
    fn from_val(v: &Val) -> Self {
        Cow::Owned(items(v).iter().map(<$t>::from_val).collect())
    }
}
    )*};
}
slices!(
    u8,
    i32,
    crate::zoo::Item,
    crate::zoo::Figure,
    String,
    crate::zoo::Status,
    crate::zoo::UStr,
    crate::zoo::UAcc,
    crate::zoo::UElem,
    crate::zoo::UDirect
);
impl Model for instant_xml::AnyElement<'_> {
    fn ty() -> Ty {
        Ty::Any
    }
    fn to_val(&self) -> Val {
        Val::Any(any_tree(self))
    }
    fn from_val(_: &Val) -> Self {
        unreachable!("harness: AnyElement is read-only")
    }
}

pub fn any_tree(e: &instant_xml::AnyElement<'_>) -> Tree {
    let mut t = Tree::new(&e.ns, &e.name);
    for a in &e.attributes {
        t.attrs
            .push((a.ns.to_string(), a.name.to_string(), a.value.to_string()));
    }
    if let Some(text) = &e.text {
        t.text(text);
    }
    for c in &e.children {
        t.content.push(Node::Elem(any_tree(c)));
    }
    t
}

pub fn rec(v: &Val) -> &[Val] {
    match v {
        Val::Rec(f) => f,
        other => panic!("harness: record expected, got {other:?}"),
    }
}

/// Struct, transparent struct: `name in ns { place "tag" in ns => field: type, ... }`
#[macro_export]
macro_rules! model_struct {
    ($kind:ident $t:ident $(<$lt:lifetime>)? $(<<$g:ident>>)? = $name:literal in $ns:expr, { $($place:ident $tag:literal in $fns:expr => $f:ident : $ft:ty),* $(,)? }) => {
        impl $(<$lt>)? $(<$g: Model + 'static>)? Model for $t $(<$lt>)? $(<$g>)? {
            fn ty() -> Ty {
                #[allow(unused_imports)]
                fn def $(<$lt>)? $(<$g: Model + 'static>)? () -> &'static Def {
                    $crate::model::cached(std::any::type_name::<$t $(<$g>)?>(), || Def {
                        ns: $ns,
                        name: $name,
                        kind: DefKind::$kind(vec![$(Field { place: Place::$place, ns: $fns, tag: $tag, ty: <$ft as Model>::ty() }),*]),
                    })
                }
                Ty::Named(def $(::<$g>)?)
            }
            fn to_val(&self) -> Val {
                Val::Rec(vec![$(self.$f.to_val()),*])
            }
            #[allow(unused_mut, unused_variables)]
            fn from_val(v: &Val) -> Self {
                let mut it = $crate::model::rec(v).iter();
                $t { $($f: <$ft as Model>::from_val(it.next().unwrap())),* }
            }
        }
    };
}
#[macro_export]
macro_rules! model_tuple {
    ($t:ident $(<$lt:lifetime>)? $(<<$g:ident>>)? = $name:literal in $ns:expr, ( $($i:tt : $ft:ty),* )) => {
        impl $(<$lt>)? $(<$g: Model + 'static>)? Model for $t $(<$lt>)? $(<$g>)? {
            fn ty() -> Ty {
                fn def $(<$lt>)? $(<$g: Model + 'static>)? () -> &'static Def {
                    $crate::model::cached(std::any::type_name::<$t $(<$g>)?>(), || Def { ns: $ns, name: $name, kind: DefKind::Tuple(vec![$(<$ft as Model>::ty()),*]) })
                }
                Ty::Named(def $(::<$g>)?)
            }
            fn to_val(&self) -> Val { Val::Rec(vec![$(self.$i.to_val()),*]) }
            fn from_val(v: &Val) -> Self {
                let mut it = $crate::model::rec(v).iter();
                $t($(<$ft as Model>::from_val(it.next().unwrap())),*)
            }
        }
    };
}
#[macro_export]
macro_rules! model_unit {
    ($t:ident = $name:literal in $ns:expr) => {
        impl Model for $t {
            fn ty() -> Ty {
                fn def() -> &'static Def {
                    $crate::model::cached(std::any::type_name::<$t>(), || Def {
                        ns: $ns,
                        name: $name,
                        kind: DefKind::Unit,
                    })
                }
                Ty::Named(def)
            }
            fn to_val(&self) -> Val {
                Val::Unit
            }
            fn from_val(_: &Val) -> Self {
                $t
            }
        }
    };
}
#[macro_export]
macro_rules! model_cases {
    ($t:ident in $ns:expr, { $($v:ident = $text:expr),* $(,)? }) => {
        impl Model for $t {
            fn ty() -> Ty { Ty::Cases($ns, &[$($text),*]) }
            fn to_val(&self) -> Val {
                let mut i = 0;
                $( if matches!(self, $t::$v) { return Val::Case(i); } i += 1; )*
                let _ = i;
                unreachable!()
            }
            fn from_val(v: &Val) -> Self {
                let Val::Case(n) = v else { panic!("harness: case expected") };
                let mut i = 0;
                $( if *n == i { return $t::$v; } i += 1; )*
                let _ = i;
                unreachable!()
            }
        }
    };
}
#[macro_export]
macro_rules! model_forward {
    ($t:ident $(<$lt:lifetime>)? $(<<$g:ident>>)?, { $($v:ident : $ft:ty),* $(,)? }) => {
        impl $(<$lt>)? $(<$g: Model + 'static>)? Model for $t $(<$lt>)? $(<$g>)? {
            fn ty() -> Ty {
                fn def $(<$lt>)? $(<$g: Model + 'static>)? () -> &'static Def {
                    $crate::model::cached(std::any::type_name::<$t $(<$g>)?>(), || Def { ns: "", name: "", kind: DefKind::Forward(vec![$(<$ft as Model>::ty()),*]) })
                }
                Ty::Named(def $(::<$g>)?)
            }
            fn to_val(&self) -> Val {
                let mut i = 0;
                $( if let $t::$v(inner) = self { return Val::Var(i, Box::new(inner.to_val())); } i += 1; )*
                let _ = i;
                unreachable!()
            }
            fn from_val(v: &Val) -> Self {
                let Val::Var(n, inner) = v else { panic!("harness: variant expected") };
                let mut i = 0;
                $( if *n == i { return $t::$v(<$ft as Model>::from_val(inner)); } i += 1; )*
                let _ = i;
                unreachable!()
            }
        }
    };
}

/// One leaked definition per type.
pub fn cached(name: &'static str, f: impl FnOnce() -> Def) -> &'static Def {
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    let _harness = hook::Mode::set(false);
    static DEFS: Mutex<BTreeMap<&'static str, &'static Def>> = Mutex::new(BTreeMap::new());
    if let Some(d) = DEFS.lock().unwrap().get(name) {
        return d;
    }
    let def: &'static Def = Box::leak(Box::new(f()));
    DEFS.lock().unwrap().entry(name).or_insert(def)
}

// Generation

#[derive(Clone, Copy)]
pub struct Gen {
    pub depth: usize,
    /// Put characters XML forbids into some texts
    pub poison: bool,
    /// Longest list
    pub list: usize,
    /// Some long texts, lists and many attributes, around the sizes at which buffers fill up
    pub big: bool,
    /// One path of the value goes down to `depth`
    pub deep: bool,
}

impl Gen {
    /// Now and then a large or a deep value
    pub fn vary(self, src: &mut Src) -> Gen {
        match src.below(60) {
            0..=55 => self,
            56 | 57 => Gen {
                deep: true,
                depth: 8 + src.below(18),
                list: 2,
                ..self
            },
            _ => Gen { big: true, ..self },
        }
    }
    /// Off the deep path
    fn aside(self) -> Gen {
        match self.deep {
            true => Gen {
                deep: false,
                depth: self.depth.min(1),
                list: 1,
                ..self
            },
            false => self,
        }
    }
}

/// A size close to one at which a buffer or table might end
pub fn edge(src: &mut Src, max: usize) -> usize {
    const EDGES: &[usize] = &[
        8, 16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
    ];
    let n = EDGES.iter().filter(|e| **e + 3 <= max).count();
    // Small ones are more frequent
    let i = src.below(n).min(src.below(n));
    (EDGES[i] + src.below(5)).saturating_sub(2)
}

impl Default for Gen {
    fn default() -> Self {
        Gen {
            depth: 5,
            poison: false,
            list: 4,
            big: false,
            deep: false,
        }
    }
}

const SNIPPETS: &[&str] = &[
    "a",
    "&",
    "<",
    ">",
    "\"",
    "'",
    "&amp;",
    "&lt;",
    "]]>",
    "<!--",
    "-->",
    "<a>",
    "</a>",
    " ",
    "  ",
    "\t",
    "\n",
    "é",
    "日本",
    "😀",
    "\u{FFFD}",
    "\u{80}",
    "x=\"1\"",
    "0",
    "-",
    ";",
    "#",
    "&#65;",
    "%",
    "\u{D7FF}",
    "\u{E000}",
    "\u{10FFFF}",
    "null",
    "true",
    "\r",
    "/>",
    "?>",
    "<?",
    "]]",
    "\u{2028}",
    "\u{feff}",
    "\u{A0}",
    "\u{85}",
    "&&",
    "&;",
    "xmlns",
];
const FORBIDDEN: &[char] = &[
    '\u{0}', '\u{1}', '\u{8}', '\u{B}', '\u{C}', '\u{E}', '\u{1F}', '\u{FFFE}', '\u{FFFF}',
];

pub fn gen_text(src: &mut Src, cx: Gen, allow_empty: bool) -> String {
    let mut out = String::new();
    let n = match src.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2 + src.below(3),
        8 => 5 + src.below(10),
        _ => 20 + src.below(60),
    };
    for _ in 0..n {
        if src.chance(1, 3) {
            out.push_str(*src.pick(SNIPPETS));
        } else {
            out.push((b'a' + src.below(26) as u8) as char);
        }
    }
    if cx.big && src.chance(1, 8) {
        // A run of one piece, with what was drawn above at its end or in its middle
        let piece = match src.below(4) {
            0 => *src.pick(SNIPPETS),
            1 => "é",
            _ => "x",
        };
        let times = edge(src, 70_000) / piece.len();
        let at = match src.chance(1, 3) && times > 0 {
            true => src.below(times),
            false => times,
        };
        let tail = if src.chance(1, 2) { "y" } else { "" };
        out = piece.repeat(at) + &out + &piece.repeat(times - at) + tail;
    }
    if cx.poison && src.chance(1, 3) {
        let c = *src.pick(FORBIDDEN);
        let at = (0..=out.len())
            .filter(|i| out.is_char_boundary(*i))
            .collect::<Vec<_>>();
        let at = *src.pick(&at);
        out.insert(at, c);
    }
    if out.is_empty() && !allow_empty {
        out.push('v');
    }
    out
}

pub fn gen(src: &mut Src, ty: &Ty, cx: Gen) -> Val {
    match ty {
        Ty::Sc(sc) => gen_sc(src, *sc, cx, true),
        Ty::Cases(_, texts) => Val::Case(src.below(texts.len())),
        Ty::Opt(inner) => {
            match src.chance(if cx.depth == 0 { 0 } else { 2 }, 3) || (cx.deep && cx.depth > 0) {
                false => Val::None,
                true => Val::Some(Box::new(gen(src, inner, cx))),
            }
        }
        Ty::Boxed(inner) => gen(src, inner, cx),
        Ty::List(inner) => {
            let n = match cx.depth == 0 && is_named(inner) {
                true => 0,
                false if cx.deep => 1 + src.below(2),
                false if cx.big && src.chance(1, 6) => {
                    edge(src, if is_named(inner) { 70 } else { 600 })
                }
                false => src.small(cx.list),
            };
            let rest = match n > 8 {
                true => Gen {
                    list: 1,
                    depth: cx.depth.min(2),
                    big: false,
                    ..cx
                },
                false => cx.aside(),
            };
            Val::List(
                (0..n)
                    .map(|i| gen(src, inner, if i == 0 { cx } else { rest }))
                    .collect(),
            )
        }
        Ty::Named(def) => {
            let def = def();
            let cx = Gen {
                depth: cx.depth.saturating_sub(1),
                ..cx
            };
            // Where the deep path goes on
            let mut deep = usize::MAX;
            if let (DefKind::Struct(fields) | DefKind::Transparent(fields), true) =
                (&def.kind, cx.deep)
            {
                let named: Vec<usize> = (0..fields.len())
                    .filter(|i| is_named(&fields[*i].ty))
                    .collect();
                if !named.is_empty() {
                    deep = *src.pick(&named);
                }
            }
            match &def.kind {
                DefKind::Unit => Val::Unit,
                DefKind::Struct(fields) | DefKind::Transparent(fields) => Val::Rec(
                    fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| (f, if i == deep { cx } else { cx.aside() }))
                        .map(|(f, cx)| match (&f.ty, f.place) {
                            // Absent and empty direct text are the same document
                            (Ty::Opt(inner), Place::Direct) => match src.chance(1, 2) {
                                false => Val::None,
                                true => Val::Some(Box::new(match **inner {
                                    Ty::Sc(sc) => gen_sc(src, sc, cx, false),
                                    _ => gen(src, inner, cx),
                                })),
                            },
                            _ => gen(src, &f.ty, cx),
                        })
                        .collect(),
                ),
                DefKind::Tuple(tys) => Val::Rec(
                    tys.iter()
                        .map(|t| match t {
                            Ty::Sc(sc) => gen_sc(src, *sc, cx, tys.len() == 1),
                            _ => gen(src, t, cx),
                        })
                        .collect(),
                ),
                DefKind::Forward(vars) => {
                    let n = match cx.depth == 0 {
                        true => 0,
                        false => src.below(vars.len()),
                    };
                    Val::Var(n, Box::new(gen(src, &vars[n], cx)))
                }
            }
        }
        Ty::Any => Val::Any(gen_tree(src, cx.depth.min(3), cx)),
    }
}

fn is_named(ty: &Ty) -> bool {
    match ty {
        Ty::Named(_) => true,
        Ty::Opt(t) | Ty::Boxed(t) | Ty::List(t) => is_named(t),
        _ => false,
    }
}

const NAMES: &[&str] = &[
    "a",
    "b",
    "item",
    "x-1",
    "_y",
    "ü",
    "Foo",
    "id",
    "long.name",
    "A",
];
pub const URIS: &[&str] = &["", "urn:a", "urn:b", "http://example.com/x?y=1#z", "urn:ü"];

/// An arbitrary element
pub fn gen_tree(src: &mut Src, depth: usize, cx: Gen) -> Tree {
    let mut t = Tree::new(src.pick(URIS), src.pick(NAMES));
    for _ in 0..src.small(5) {
        let ns = match src.below(6) {
            0..=3 => "",
            4 => src.pick(URIS),
            _ => crate::xml::XML_NS,
        };
        let name = *src.pick(NAMES);
        if !t.attrs.iter().any(|(n, l, _)| n == ns && l == name) {
            let v = gen_text(src, cx, true);
            t.attrs.push((ns.to_owned(), name.to_owned(), v));
        }
    }
    if cx.big && src.chance(1, 6) {
        for i in 0..edge(src, 52) {
            let name = format!("at{i}");
            t.attrs.push((String::new(), name, i.to_string()));
        }
    }
    let n = match depth {
        0 => src.below(2),
        _ if cx.big && src.chance(1, 6) => edge(src, 140),
        _ => src.small(4),
    };
    let cx = match n > 8 {
        true => Gen { big: false, ..cx },
        false => cx,
    };
    let depth = if n > 8 { 1 } else { depth };
    // Mixed content is rare: where it occurs, only its parts are specified
    let mixed = src.chance(1, 5);
    let text_first = src.chance(1, 2);
    for i in 0..n {
        if (mixed && src.chance(1, 2)) || (i == 0 && text_first) || depth == 0 {
            let s = gen_text(src, cx, true);
            t.text(&s);
        } else {
            t.content.push(Node::Elem(gen_tree(src, depth - 1, cx)));
        }
    }
    t
}

fn gen_sc(src: &mut Src, sc: Sc, cx: Gen, allow_empty: bool) -> Val {
    Val::S(match sc {
        Sc::Str | Sc::Bytes | Sc::User => gen_text(src, cx, allow_empty),
        Sc::Skip => String::new(),
        Sc::Bool => src.chance(1, 2).to_string(),
        Sc::Int(lo, hi) => {
            let v: i128 = match src.below(6) {
                0 => src.below(10) as i128,
                1 => hi,
                2 => lo,
                3 => -(src.below(10) as i128),
                4 => hi - src.below(3) as i128,
                _ => src.raw() as i128 - (1i128 << 63),
            };
            match v >= lo && v <= hi {
                true => v,
                false => lo + v.rem_euclid(hi - lo + 1),
            }
            .to_string()
        }
        Sc::F32 => {
            let v = match src.below(4) {
                0 => src.below(100) as f32 / 4.0,
                1 => *src.pick(&[
                    0.0,
                    -0.0,
                    f32::MAX,
                    f32::MIN,
                    f32::MIN_POSITIVE,
                    f32::EPSILON,
                    1e-45,
                    f32::INFINITY,
                    f32::NEG_INFINITY,
                    f32::NAN,
                    16777217.0,
                    0.1,
                ]),
                _ => f32::from_bits(src.raw() as u32),
            };
            match v.is_nan() {
                true => "NaN".to_owned(),
                false => format!("{v:?}"),
            }
        }
        Sc::F64 => {
            let v = match src.below(4) {
                0 => src.below(100) as f64 / 4.0,
                1 => *src.pick(&[
                    0.0,
                    -0.0,
                    f64::MAX,
                    f64::MIN,
                    f64::MIN_POSITIVE,
                    f64::EPSILON,
                    5e-324,
                    f64::INFINITY,
                    f64::NEG_INFINITY,
                    f64::NAN,
                    9007199254740993.0,
                    0.1,
                    1e300,
                    1e21,
                    123456789.125,
                ]),
                _ => f64::from_bits(src.raw()),
            };
            match v.is_nan() {
                true => "NaN".to_owned(),
                false => format!("{v:?}"),
            }
        }
        Sc::Char => {
            let c = match src.below(3) {
                0 => (b'a' + src.below(26) as u8) as char,
                1 => *src.pick(&[
                    '&',
                    '<',
                    '>',
                    '"',
                    '\'',
                    ' ',
                    '\t',
                    '\n',
                    'é',
                    '😀',
                    '\u{10FFFF}',
                    '\u{E000}',
                ]),
                _ => char::from_u32(src.below(0x11_0000) as u32)
                    .filter(|c| is_char(*c))
                    .unwrap_or('x'),
            };
            match cx.poison && src.chance(1, 3) {
                true => *src.pick(FORBIDDEN),
                false => c,
            }
            .to_string()
        }
        Sc::NaiveDate => gen_date(src).to_val_s(),
        Sc::NaiveDateTime | Sc::DateTime => gen_datetime(src).to_val_s(),
        Sc::Ip => match src.chance(1, 2) {
            false => IpAddr::V4(Ipv4Addr::from(src.raw() as u32)),
            true => match src.below(3) {
                0 => IpAddr::V6(Ipv6Addr::LOCALHOST),
                1 => IpAddr::V6(Ipv4Addr::from(src.raw() as u32).to_ipv6_mapped()),
                _ => IpAddr::V6(Ipv6Addr::from(
                    (u128::from(src.raw()) << 64) | u128::from(src.raw()),
                )),
            },
        }
        .to_string(),
    })
}

trait ToValS {
    fn to_val_s(&self) -> String;
}
impl<T: Model> ToValS for T {
    fn to_val_s(&self) -> String {
        s(&self.to_val()).to_owned()
    }
}

fn gen_date(src: &mut Src) -> NaiveDate {
    let year = match src.below(5) {
        0 => 2020,
        1 => src.below(10_000) as i32,
        2 => 1970,
        3 => *src.pick(&[0, 1, 999, 9999, 1000, 1900, 2000, 2024]),
        _ => 1900 + src.below(200) as i32,
    };
    let start = NaiveDate::from_ymd_opt(year, 1, 1).expect("harness: year");
    let d = start + chrono::Days::new(src.below(365) as u64);
    match d.year() <= 9999 {
        true => d,
        false => start,
    }
}

fn gen_datetime(src: &mut Src) -> NaiveDateTime {
    let d = gen_date(src);
    let nanos = match src.below(5) {
        0 => 0,
        1 => src.below(1000) as u32 * 1_000_000,
        2 => src.below(1_000_000) as u32 * 1000,
        3 => *src.pick(&[1u32, 999_999_999, 100_000_000, 10, 1_000_000]),
        _ => src.below(1_000_000_000) as u32,
    };
    d.and_hms_nano_opt(
        src.below(24) as u32,
        src.below(60) as u32,
        src.below(60) as u32,
        nanos,
    )
    .expect("harness: time")
}

/// Does the value contain text that XML cannot carry?
pub fn forbidden(v: &Val) -> bool {
    match v {
        Val::S(s) => s.chars().any(|c| !is_char(c)),
        Val::Some(v) | Val::Var(_, v) => forbidden(v),
        Val::List(l) | Val::Rec(l) => l.iter().any(forbidden),
        _ => false,
    }
}

// Reference writer

/// ISO form, with as many groups of three fraction digits as needed
fn trimmed(canonical: &str) -> String {
    let mut s = canonical.replacen(' ', "T", 1);
    while s.ends_with("000") {
        s.truncate(s.len() - 3);
    }
    if s.ends_with('.') {
        s.pop();
    }
    s
}

/// Text form of a scalar
pub fn show(sc: Sc, canonical: &str) -> String {
    match sc {
        Sc::F32 => canonical.parse::<f32>().expect("harness: f32").to_string(),
        Sc::F64 => canonical.parse::<f64>().expect("harness: f64").to_string(),
        Sc::DateTime => trimmed(canonical) + "+00:00",
        Sc::NaiveDateTime => trimmed(canonical),
        _ => canonical.to_owned(),
    }
}

/// Append what `val` is written as to `parent`; `id` is the field's namespace and name.
pub fn write(ty: &Ty, val: &Val, id: (&str, &str), parent: &mut Tree) {
    match (ty, val) {
        (Ty::Sc(sc), Val::S(text)) => {
            let mut t = Tree::new(id.0, id.1);
            t.text(&show(*sc, text));
            parent.content.push(Node::Elem(t));
        }
        (Ty::Cases(ns, texts), Val::Case(n)) => {
            let mut t = Tree::new(ns, id.1);
            t.text(texts[*n]);
            parent.content.push(Node::Elem(t));
        }
        (Ty::Opt(_), Val::None) => {}
        (Ty::Opt(inner), Val::Some(v)) => write(inner, v, id, parent),
        (Ty::Boxed(inner), v) => write(inner, v, id, parent),
        (Ty::List(inner), Val::List(l)) => l.iter().for_each(|v| write(inner, v, id, parent)),
        (Ty::Any, Val::Any(t)) => parent.content.push(Node::Elem(t.clone())),
        (Ty::Named(def), v) => {
            let def = def();
            let mut t = Tree::new(def.ns, def.name);
            match (&def.kind, v) {
                (DefKind::Unit, _) => {}
                (DefKind::Forward(vars), Val::Var(n, v)) => {
                    return write(&vars[*n], v, id, parent);
                }
                (DefKind::Transparent(fields), Val::Rec(vals)) => {
                    for (f, v) in fields.iter().zip(vals) {
                        write(&f.ty, v, (f.ns, f.tag), parent);
                    }
                    return;
                }
                (DefKind::Tuple(tys), Val::Rec(vals)) => {
                    for (ty, v) in tys.iter().zip(vals) {
                        match bare(ty, v) {
                            Some(Some(text)) => t.text(&text),
                            Some(None) => {}
                            None => write(ty, v, ("", ""), &mut t),
                        }
                    }
                }
                (DefKind::Struct(fields), Val::Rec(vals)) => {
                    for (f, v) in fields.iter().zip(vals) {
                        match f.place {
                            Place::Attr => {
                                if let Some(Some(text)) = bare(&f.ty, v) {
                                    t.attrs.push((f.ns.to_owned(), f.tag.to_owned(), text));
                                }
                            }
                            Place::Direct => {
                                if let Some(Some(text)) = bare(&f.ty, v) {
                                    t.text(&text);
                                }
                            }
                            Place::Elem => write(&f.ty, v, (f.ns, f.tag), &mut t),
                        }
                    }
                }
                other => panic!("harness: cannot write {other:?}"),
            }
            parent.content.push(Node::Elem(t));
        }
        other => panic!("harness: cannot write {other:?}"),
    }
}

/// Scalar text without an element: None if not a scalar, Some(None) if absent
fn bare(ty: &Ty, v: &Val) -> Option<Option<String>> {
    match (ty, v) {
        (Ty::Sc(sc), Val::S(text)) => Some(Some(show(*sc, text))),
        (Ty::Cases(_, texts), Val::Case(n)) => Some(Some(texts[*n].to_owned())),
        (Ty::Opt(inner), Val::None) => match **inner {
            Ty::Sc(_) | Ty::Cases(..) | Ty::Boxed(_) => Some(None),
            _ => None,
        },
        (Ty::Opt(inner), Val::Some(v)) => bare(inner, v),
        (Ty::Boxed(inner), v) => bare(inner, v),
        _ => None,
    }
}

/// The document a root value stands for
pub fn document(ty: &Ty, val: &Val) -> Tree {
    let mut holder = Tree::default();
    write(ty, val, ("", ""), &mut holder);
    match holder.content.pop() {
        Some(Node::Elem(t)) if holder.content.is_empty() => t,
        other => panic!("harness: not a single root element: {other:?}"),
    }
}

// Reference reader

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// A required fragment is missing
    Missing,
    /// A single-valued fragment occurs more than once
    Duplicate,
    /// A text is not of the type
    Bad,
    /// Refused for another reason
    Refuse(&'static str),
    /// The properties leave the outcome open
    Open(&'static str),
}

impl Fail {
    fn worse(self, other: Fail) -> Fail {
        match (&self, &other) {
            (Fail::Open(_), _) => self,
            (_, Fail::Open(_)) => other,
            _ => self,
        }
    }
}

type Out = Result<Val, Fail>;

pub fn matches(ty: &Ty, id: Option<(&str, &str)>, ns: &str, name: &str) -> bool {
    match ty {
        Ty::Sc(_) => id == Some((ns, name)),
        Ty::Cases(ens, _) => ns == *ens && id.map_or(true, |(_, tag)| tag == name),
        Ty::Opt(t) | Ty::Boxed(t) | Ty::List(t) => matches(t, id, ns, name),
        Ty::Any => true,
        Ty::Named(def) => {
            let def = def();
            match &def.kind {
                DefKind::Forward(vars) => vars.iter().any(|v| matches(v, id, ns, name)),
                DefKind::Transparent(fields) => fields
                    .iter()
                    .any(|f| matches(&f.ty, Some((f.ns, f.tag)), ns, name)),
                _ => def.ns == ns && def.name == name,
            }
        }
    }
}

fn single<'a>(elems: &[&'a Tree]) -> Result<&'a Tree, Fail> {
    match elems {
        [] => Err(Fail::Missing),
        [t] => Ok(t),
        _ => Err(Fail::Duplicate),
    }
}

/// The value of a field of type `ty` from the elements that matched it, in document order
fn finish(ty: &Ty, id: Option<(&str, &str)>, elems: &[&Tree]) -> Out {
    match ty {
        Ty::Sc(Sc::Skip) => single(elems).map(|_| Val::S(String::new())),
        Ty::Sc(sc) => {
            let texts = matches!(sc, Sc::Str | Sc::Bytes | Sc::User);
            if !texts
                && elems
                    .iter()
                    .any(|t| t.content.is_empty() || t.all_text().is_empty())
            {
                return Err(match elems.len() {
                    1 => Fail::Refuse("empty scalar"),
                    _ => Fail::Open("several scalars, one of them empty"),
                });
            }
            let t = single(elems)?;
            if t.elems().next().is_some() {
                return Err(Fail::Open("element inside a scalar"));
            }
            let text = t.all_text();
            lex(*sc, &text).map(Val::S)
        }
        Ty::Cases(_, texts) => {
            let t = single(elems)?;
            if t.elems().next().is_some() {
                return Err(Fail::Open("element inside a scalar"));
            }
            case(texts, &t.all_text())
        }
        Ty::Boxed(inner) => finish(inner, id, elems),
        Ty::Opt(inner) => match elems.is_empty() {
            true => Ok(Val::None),
            false => match finish(inner, id, elems) {
                Ok(v) => Ok(Val::Some(Box::new(v))),
                Err(Fail::Missing) if is_transparent(inner) => {
                    Err(Fail::Open("partial optional group"))
                }
                Err(Fail::Refuse("empty scalar")) => Err(Fail::Open("empty optional scalar")),
                Err(e) => Err(e),
            },
        },
        Ty::List(inner) => {
            let mut out = Vec::new();
            let mut err: Option<Fail> = None;
            for e in elems {
                match finish(inner, id, &[e]) {
                    Ok(v) => out.push(v),
                    Err(Fail::Refuse("empty scalar")) => {
                        return Err(Fail::Open("empty scalar in a list"))
                    }
                    Err(e) => err = Some(err.map_or(e.clone(), |x| x.worse(e))),
                }
            }
            err.map_or(Ok(Val::List(out)), Err)
        }
        Ty::Any => single(elems).map(|t| Val::Any(t.clone())),
        Ty::Named(def) => {
            let def = def();
            match &def.kind {
                DefKind::Transparent(fields) => {
                    let mut per: Vec<Vec<&Tree>> = vec![Vec::new(); fields.len()];
                    for e in elems {
                        for (f, list) in fields.iter().zip(&mut per) {
                            if matches(&f.ty, Some((f.ns, f.tag)), &e.ns, &e.name) {
                                list.push(e);
                                break;
                            }
                        }
                    }
                    let vals = fields
                        .iter()
                        .zip(&per)
                        .map(|(f, list)| finish(&f.ty, Some((f.ns, f.tag)), list))
                        .collect();
                    all(vals).map(Val::Rec)
                }
                DefKind::Forward(vars) => {
                    let t = single(elems)?;
                    for (i, v) in vars.iter().enumerate() {
                        if matches(v, None, &t.ns, &t.name) {
                            return finish(v, None, &[t]).map(|v| Val::Var(i, Box::new(v)));
                        }
                    }
                    Err(Fail::Refuse("no variant"))
                }
                DefKind::Unit => single(elems).map(|_| Val::Unit),
                DefKind::Tuple(tys) => read_tuple(tys, single(elems)?),
                DefKind::Struct(fields) => read_struct(fields, single(elems)?),
            }
        }
    }
}

fn is_transparent(ty: &Ty) -> bool {
    match ty {
        Ty::Named(def) => matches!(def().kind, DefKind::Transparent(_)),
        Ty::Boxed(t) => is_transparent(t),
        _ => false,
    }
}

fn all(vals: Vec<Out>) -> Result<Vec<Val>, Fail> {
    let mut out = Vec::new();
    let mut err: Option<Fail> = None;
    for v in vals {
        match v {
            Ok(v) => out.push(v),
            Err(e) => err = Some(err.map_or(e.clone(), |x| x.worse(e))),
        }
    }
    err.map_or(Ok(out), Err)
}

fn case(texts: &[&str], text: &str) -> Out {
    match texts.iter().position(|t| *t == text) {
        Some(i) => Ok(Val::Case(i)),
        None => Err(Fail::Bad),
    }
}

fn read_tuple(tys: &[Ty], t: &Tree) -> Out {
    if !t.attrs.is_empty() {
        return Err(Fail::Open("attributes on a tuple struct"));
    }
    let mut content = t.content.iter().peekable();
    let mut vals = Vec::new();
    for ty in tys {
        let scalar = matches!(ty, Ty::Sc(_) | Ty::Cases(..));
        vals.push(match (scalar, content.peek()) {
            (true, Some(Node::Text(text))) => {
                content.next();
                match ty {
                    Ty::Sc(sc) => lex(*sc, text).map(Val::S),
                    Ty::Cases(_, texts) => case(texts, text),
                    _ => unreachable!(),
                }
            }
            (true, Some(Node::Elem(_))) => return Err(Fail::Open("element before tuple text")),
            (true, None) => match ty {
                Ty::Sc(Sc::Str | Sc::User) => Ok(Val::S(String::new())),
                _ => Err(Fail::Missing),
            },
            (false, Some(Node::Elem(e))) => {
                content.next();
                match matches(ty, None, &e.ns, &e.name) {
                    true => finish(ty, None, &[e]),
                    false => return Err(Fail::Refuse("wrong element in tuple")),
                }
            }
            (false, Some(Node::Text(_))) => return Err(Fail::Open("text between tuple elements")),
            (false, None) => Err(Fail::Missing),
        });
    }
    if content.next().is_some() {
        return Err(Fail::Open("extra content in a tuple struct"));
    }
    all(vals).map(Val::Rec)
}

fn read_struct(fields: &[Field], t: &Tree) -> Out {
    let mut attrs: Vec<Vec<&str>> = vec![Vec::new(); fields.len()];
    let mut elems: Vec<Vec<&Tree>> = vec![Vec::new(); fields.len()];
    for (ns, name, value) in &t.attrs {
        for (f, list) in fields.iter().zip(&mut attrs) {
            if f.place != Place::Attr {
                continue;
            }
            if (ns.as_str(), name.as_str()) == (f.ns, f.tag) {
                list.push(value);
                break;
            }
            // The field alone says how an attribute is written
            if matches(&f.ty, Some((f.ns, f.tag)), ns, name) {
                return Err(Fail::Open(
                    "an attribute in its type's namespace, not its field's",
                ));
            }
        }
    }
    for e in t.elems() {
        for (f, list) in fields.iter().zip(&mut elems) {
            if f.place == Place::Elem && matches(&f.ty, Some((f.ns, f.tag)), &e.ns, &e.name) {
                list.push(e);
                break;
            }
        }
    }
    let vals = fields
        .iter()
        .enumerate()
        .map(|(i, f)| match f.place {
            Place::Elem => finish(&f.ty, Some((f.ns, f.tag)), &elems[i]),
            Place::Attr => match attrs[i].as_slice() {
                [] => match unboxed(&f.ty) {
                    Ty::Opt(_) => Ok(Val::None),
                    _ => Err(Fail::Missing),
                },
                [v] => scalar(&f.ty, v),
                _ => Err(Fail::Duplicate),
            },
            Place::Direct => match t.text_runs() {
                0 => match unboxed(&f.ty) {
                    Ty::Opt(_) => Ok(Val::None),
                    Ty::Sc(Sc::Str | Sc::User) => Ok(Val::S(String::new())),
                    _ => Err(Fail::Refuse("no text")),
                },
                1 => scalar(&f.ty, &t.all_text()),
                _ => Err(Fail::Open("text in several pieces")),
            },
        })
        .collect();
    all(vals).map(Val::Rec)
}

fn unboxed(ty: &Ty) -> &Ty {
    match ty {
        Ty::Boxed(inner) => unboxed(inner),
        _ => ty,
    }
}

fn scalar(ty: &Ty, text: &str) -> Out {
    match ty {
        Ty::Opt(inner) => scalar(inner, text).map(|v| Val::Some(Box::new(v))),
        Ty::Boxed(inner) => scalar(inner, text),
        Ty::Sc(sc) => lex(*sc, text).map(Val::S),
        Ty::Cases(_, texts) => case(texts, text),
        _ => Err(Fail::Open("not a scalar")),
    }
}

/// Canonical form of a text, as the type
pub fn lex(sc: Sc, text: &str) -> Result<String, Fail> {
    fn f<T: Model>(v: Option<T>) -> Result<String, Fail> {
        v.map(|v| s(&v.to_val()).to_owned()).ok_or(Fail::Bad)
    }
    match sc {
        Sc::Str | Sc::Bytes | Sc::User => Ok(text.to_owned()),
        Sc::Skip => Ok(String::new()),
        Sc::Bool => match text {
            "true" | "1" => Ok("true".into()),
            "false" | "0" => Ok("false".into()),
            _ => Err(Fail::Bad),
        },
        Sc::Int(lo, hi) => match text.trim().parse::<i128>() {
            Ok(0) if lo == 0 && text.contains('-') => Err(Fail::Open("negative zero")),
            Ok(v) if v >= lo && v <= hi => Ok(v.to_string()),
            _ => Err(Fail::Bad),
        },
        Sc::F32 => f::<f32>(text.trim().parse().ok()),
        Sc::F64 => f::<f64>(text.trim().parse().ok()),
        Sc::Char => {
            let mut it = text.chars();
            match (it.next(), it.next()) {
                (Some(c), None) => Ok(c.to_string()),
                _ => Err(Fail::Bad),
            }
        }
        Sc::Ip => f::<IpAddr>(text.parse().ok()),
        Sc::NaiveDate => f(NaiveDate::parse_from_str(text, "%Y-%m-%d").ok()),
        Sc::NaiveDateTime => f(NaiveDateTime::parse_from_str(text, "%Y-%m-%dT%H:%M:%S%.f").ok()),
        Sc::DateTime => match DateTime::parse_from_rfc3339(text) {
            Ok(d) if d.offset().utc_minus_local() == 0 => f(Some(d.with_timezone(&Utc))),
            _ => Err(Fail::Bad),
        },
    }
}

/// What a document means as a root value of type `ty`
pub fn read(ty: &Ty, t: &Tree) -> Out {
    match matches(ty, None, &t.ns, &t.name) {
        true => finish(ty, None, &[t]),
        false => Err(Fail::Refuse("unexpected root element")),
    }
}

/// Equality of values; generic elements keep their text apart from their children.
pub fn same(expected: &Val, got: &Val) -> bool {
    match (expected, got) {
        (Val::Any(e), Val::Any(g)) => same_tree(e, g),
        (Val::Some(e), Val::Some(g)) => same(e, g),
        (Val::Var(i, e), Val::Var(j, g)) => i == j && same(e, g),
        (Val::List(e), Val::List(g)) | (Val::Rec(e), Val::Rec(g)) => {
            e.len() == g.len() && e.iter().zip(g).all(|(e, g)| same(e, g))
        }
        (e, g) => e == g,
    }
}

/// `got` comes from `AnyElement`: at most one text, then the children. Attributes keep their order.
pub fn same_tree(e: &Tree, g: &Tree) -> bool {
    let g_text = g.all_text();
    let text_ok = match e.text_runs() {
        0 | 1 => g_text == e.all_text(),
        // Which of several runs is kept is left open, but it has to be one of them (or all)
        _ => {
            g_text == e.all_text()
                || e.content
                    .iter()
                    .any(|n| matches!(n, Node::Text(t) if *t == g_text))
        }
    };
    e.ns == g.ns
        && e.name == g.name
        && e.attrs == g.attrs
        && text_ok
        && e.elems().count() == g.elems().count()
        && e.elems().zip(g.elems()).all(|(e, g)| same_tree(e, g))
}

/// Like [`same`], but relays may have reordered attributes of nested generic elements.
pub fn same_unordered(want: &Val, got: &Val) -> bool {
    fn norm(v: &Val) -> Val {
        match v {
            Val::Any(t) => Val::Any(t.clone().sorted()),
            Val::Some(v) => Val::Some(Box::new(norm(v))),
            Val::Var(i, v) => Val::Var(*i, Box::new(norm(v))),
            Val::List(l) => Val::List(l.iter().map(norm).collect()),
            Val::Rec(l) => Val::Rec(l.iter().map(norm).collect()),
            other => other.clone(),
        }
    }
    same(want, got) || same(&norm(want), &norm(got))
}
