//! The type zoo: derived types covering the supported shapes, each with its reference model, and
//! hand-written user types whose conversions pass through [`crate::hooks`].

use crate::hooks;
use crate::model::{Def, DefKind, Field, Model, Place, Sc, Ty, Val};
use crate::{model_cases, model_forward, model_struct, model_tuple, model_unit};
use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use hook::library;
use instant_xml::de::{Limits, Node};
use instant_xml::ser::Context;
use instant_xml::{
    Accumulate, AnyElement, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml,
};
use std::borrow::Cow;
use std::fmt;
use std::net::IpAddr;

type Out<'a> = &'a mut dyn fmt::Write;

/// A type of the zoo, with its types erased.
pub struct Shape {
    pub name: &'static str,
    pub ty: fn() -> Ty,
    /// None for types that can only be read
    pub write: Option<fn(&Val, Out<'_>) -> Result<(), Error>>,
    pub to_string: Option<fn(&Val) -> Result<String, Error>>,
    pub read: fn(&str) -> Result<Val, Error>,
    pub read_with: fn(&str, Limits) -> Result<Val, Error>,
    /// Has user conversions
    pub user: bool,
}

impl Shape {
    pub fn ty(&self) -> Ty {
        (self.ty)()
    }
    pub fn writes(&self) -> bool {
        self.write.is_some()
    }
    pub fn write(&self, v: &Val, out: Out<'_>) -> Result<(), Error> {
        (self.write.expect("harness: read-only shape"))(v, out)
    }
    pub fn string(&self, v: &Val) -> Result<String, Error> {
        (self.to_string.expect("harness: read-only shape"))(v)
    }
}

macro_rules! shape {
    (rw $name:literal, $t:ty, $user:literal) => {
        Shape {
            name: $name,
            ty: <$t as Model>::ty,
            write: Some(|v, out| {
                let v = <$t as Model>::from_val(v);
                library(|| instant_xml::to_writer(&v, out))
            }),
            to_string: Some(|v| {
                let v = <$t as Model>::from_val(v);
                library(|| instant_xml::to_string(&v))
            }),
            read: |s| library(|| instant_xml::from_str::<$t>(s)).map(|v| v.to_val()),
            read_with: |s, l| {
                library(|| Deserializer::new(s)?.with_limits(l).deserialize::<$t>())
                    .map(|v| v.to_val())
            },
            user: $user,
        }
    };
    // Written through a twin that borrows everything
    (view $name:literal, $t:ty, $view:path) => {
        Shape {
            write: Some(|v, out| {
                let v = <$t as Model>::from_val(v);
                let v = $view(&v);
                library(|| instant_xml::to_writer(&v, out))
            }),
            to_string: Some(|v| {
                let v = <$t as Model>::from_val(v);
                let v = $view(&v);
                library(|| instant_xml::to_string(&v))
            }),
            ..shape!(rw $name, $t, false)
        }
    };
    (ro $name:literal, $t:ty) => {
        Shape {
            name: $name,
            ty: <$t as Model>::ty,
            write: None,
            to_string: None,
            read: |s| library(|| instant_xml::from_str::<$t>(s)).map(|v| v.to_val()),
            read_with: |s, l| {
                library(|| Deserializer::new(s)?.with_limits(l).deserialize::<$t>())
                    .map(|v| v.to_val())
            },
            user: false,
        }
    };
}

/// A derived struct together with its model.
macro_rules! st {
    ($(#[$m:meta])* $kind:ident $t:ident = $name:literal in $ns:expr, { $( $(#[$fm:meta])* $place:ident $tag:literal in $fns:expr => $f:ident : $ft:ty ),* $(,)? }) => {
        #[derive(Clone, Debug, FromXml, ToXml)]
        $(#[$m])*
        pub struct $t { $( $(#[$fm])* pub $f: $ft ),* }
        model_struct!($kind $t = $name in $ns, { $($place $tag in $fns => $f : $ft),* });
    };
}
macro_rules! fwd {
    ($t:ident { $($v:ident : $ft:ty),* $(,)? }) => {
        #[derive(Clone, Debug, FromXml, ToXml)]
        #[xml(forward)]
        pub enum $t { $($v($ft)),* }
        model_forward!($t, { $($v : $ft),* });
    };
}

pub const Z: &str = "urn:z";
pub const A: &str = "urn:a";
pub const B: &str = "urn:b";
pub const C: &str = "urn:c";
pub const P: &str = "urn:p";
pub const Q: &str = "urn:q";
pub mod deep {
    pub mod er {
        pub const NS: &str = "http://example.com/deep?x=1#y";
    }
}

// Plain structures

st! { Struct Person = "Person" in "", {
    #[xml(attribute)] Attr "id" in "" => id: u32,
    #[xml(attribute)] Attr "nick" in "" => nick: Option<String>,
    Elem "name" in "" => name: String,
    Elem "age" in "" => age: Option<u8>,
    Elem "tags" in "" => tags: Vec<String>,
}}
st! { #[xml(rename = "nums")] Struct Nums = "nums" in "", {
    Elem "a" in "" => a: i8, Elem "b" in "" => b: i16, Elem "c" in "" => c: i32, Elem "d" in "" => d: i64,
    Elem "e" in "" => e: isize, Elem "f" in "" => f: u8, Elem "g" in "" => g: u16, Elem "h" in "" => h: u32,
    Elem "i" in "" => i: u64, Elem "j" in "" => j: usize, Elem "k" in "" => k: f32, Elem "l" in "" => l: f64,
    Elem "m" in "" => m: bool, Elem "n" in "" => n: char,
}}
st! { Struct NumAttrs = "NumAttrs" in "", {
    #[xml(attribute)] Attr "a" in "" => a: i8,
    #[xml(attribute)] Attr "b" in "" => b: i16,
    #[xml(attribute)] Attr "c" in "" => c: i32,
    #[xml(attribute)] Attr "d" in "" => d: i64,
    #[xml(attribute)] Attr "e" in "" => e: isize,
    #[xml(attribute)] Attr "f" in "" => f: u8,
    #[xml(attribute)] Attr "g" in "" => g: u16,
    #[xml(attribute)] Attr "h" in "" => h: u32,
    #[xml(attribute)] Attr "i" in "" => i: u64,
    #[xml(attribute)] Attr "j" in "" => j: usize,
    #[xml(attribute)] Attr "k" in "" => k: f32,
    #[xml(attribute)] Attr "l" in "" => l: f64,
    #[xml(attribute)] Attr "m" in "" => m: bool,
    #[xml(attribute)] Attr "n" in "" => n: char,
    #[xml(attribute)] Attr "o" in "" => o: String,
}}
st! { Struct Times = "Times" in "", {
    #[xml(attribute)] Attr "at" in "" => at: DateTime<Utc>,
    #[xml(attribute)] Attr "day" in "" => day: Option<NaiveDate>,
    #[xml(attribute)] Attr "ip" in "" => ip: Option<IpAddr>,
    #[xml(attribute)] Attr "local" in "" => local: NaiveDateTime,
    Elem "start" in "" => start: DateTime<Utc>,
    Elem "naive" in "" => naive: NaiveDateTime,
    Elem "date" in "" => date: NaiveDate,
    Elem "end" in "" => end: Option<DateTime<Utc>>,
    Elem "more" in "" => more: Vec<NaiveDateTime>,
    Elem "addr" in "" => addr: Vec<IpAddr>,
}}
st! { Struct Opts = "Opts" in "", {
    #[xml(attribute)] Attr "a" in "" => a: Option<u16>,
    #[xml(attribute)] Attr "st" in "" => st: Option<Status>,
    #[xml(attribute)] Attr "b" in "" => b: Option<Box<String>>,
    Elem "c" in "" => c: Option<bool>,
    Elem "Person" in "" => d: Option<Person>,
    Elem "Unit" in "" => e: Option<Box<Unit>>,
    Elem "f" in "" => f: Option<Box<String>>,
    Elem "g" in "" => g: Option<char>,
    Elem "h" in "" => h: Option<Status>,
    Elem "" in "" => i: Option<Shape2>,
    Elem "j" in "" => j: Option<f64>,
}}
st! { Struct Lists = "Lists" in "", {
    Elem "strings" in "" => strings: Vec<String>,
    Elem "bytes" in "" => bytes: Vec<u8>,
    Elem "Item" in "" => items: Vec<Item>,
    Elem "statuses" in "" => statuses: Vec<Status>,
    Elem "" in "" => figs: Vec<Shape2>,
    Elem "boxes" in "" => boxes: Vec<Box<i64>>,
    Elem "Unit" in "" => units: Vec<Unit>,
    Elem "last" in "" => last: u8,
}}
st! { Struct Item = "Item" in "", {
    #[xml(attribute)] Attr "key" in "" => key: String,
    Elem "name" in "" => name: String,
}}
st! { Struct Leaf = "Leaf" in "", {
    #[xml(direct)] Direct "text" in "" => text: String,
}}
st! { Struct DirectStr = "DirectStr" in "", {
    #[xml(attribute)] Attr "lang" in "" => lang: String,
    #[xml(attribute)] Attr "alt" in "" => alt: Option<String>,
    #[xml(direct)] Direct "text" in "" => text: String,
}}
st! { Struct DirectOpt = "DirectOpt" in "", {
    #[xml(attribute)] Attr "n" in "" => n: Option<u32>,
    #[xml(direct)] Direct "text" in "" => text: Option<String>,
}}
st! { Struct DirectInt = "DirectInt" in "", {
    #[xml(direct)] Direct "n" in "" => n: i32,
}}
st! { Struct DirectOptInt = "DirectOptInt" in "", {
    #[xml(attribute)] Attr "unit" in "" => unit: Status,
    #[xml(direct)] Direct "n" in "" => n: Option<u64>,
}}
st! { Struct DirectEnum = "DirectEnum" in "", {
    #[xml(direct)] Direct "s" in "" => s: Status,
}}
st! { Struct DirectTime = "DirectTime" in "", {
    #[xml(direct)] Direct "t" in "" => t: DateTime<Utc>,
}}
st! { Struct DirectKids = "DirectKids" in "", {
    #[xml(attribute)] Attr "a" in "" => a: Option<String>,
    Elem "Item" in "" => items: Vec<Item>,
    Elem "note" in "" => note: Option<String>,
    #[xml(direct)] Direct "text" in "" => text: String,
}}
st! { Struct DirectOptKids = "DirectOptKids" in "", {
    Elem "Leaf" in "" => leaf: Option<Leaf>,
    Elem "k" in "" => k: Vec<u8>,
    #[xml(direct)] Direct "text" in "" => text: Option<String>,
}}
st! { Struct Directs = "Directs" in "", {
    Elem "DirectStr" in "" => a: DirectStr,
    Elem "DirectOpt" in "" => b: Vec<DirectOpt>,
    Elem "DirectInt" in "" => c: Option<DirectInt>,
    Elem "DirectOptInt" in "" => d: Vec<DirectOptInt>,
    Elem "DirectEnum" in "" => e: Vec<DirectEnum>,
    Elem "DirectTime" in "" => f: Option<DirectTime>,
    Elem "DirectOptKids" in "" => g: Vec<DirectOptKids>,
}}
st! { #[xml(rename_all = "camelCase")] Struct CamelCase = "CamelCase" in "", {
    #[xml(attribute)] Attr "firstName" in "" => first_name: String,
    Elem "lastName" in "" => last_name: String,
    #[xml(rename = "odd-name.1")] Elem "odd-name.1" in "" => other_name: Option<u32>,
    Elem "listOfThings" in "" => list_of_things: Vec<Kebab>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "kebab-case")]
pub enum Kebab {
    FirstCase,
    SecondCase,
    X,
}
model_cases!(Kebab in "", { FirstCase = "first-case", SecondCase = "second-case", X = "x" });
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum Status {
    Active,
    #[xml(rename = "a & b <c> \"d\"")]
    Special,
    #[xml(rename = "with space")]
    Space,
    Off,
    #[xml(rename = "]]>")]
    Close,
}
model_cases!(Status in "", { Active = "Active", Special = "a & b <c> \"d\"", Space = "with space", Off = "Off", Close = "]]>" });
#[derive(Clone, Copy, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum Code {
    Zero = 0,
    One = 1,
    Many = 4294967295,
}
model_cases!(Code in "", { Zero = "0", One = "1", Many = "4294967295" });
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, ns("urn:a"))]
pub enum NsCode {
    Alpha,
    Beta,
}
model_cases!(NsCode in A, { Alpha = "Alpha", Beta = "Beta" });
st! { Struct Enums = "Enums" in "", {
    #[xml(attribute)] Attr "at" in "" => at: Code,
    #[xml(attribute)] Attr "opt" in "" => opt: Option<Kebab>,
    Elem "code" in "" => code: Code,
    Elem "status" in "" => status: Status,
    Elem "ns" in A => ns: Vec<NsCode>,
    Elem "boxed" in "" => boxed: Box<Kebab>,
    Elem "EnumAttrs" in B => attrs: Vec<EnumAttrs>,
}}
st! { #[xml(ns(B, p = A, q = Q))] Struct EnumAttrs = "EnumAttrs" in B, {
    #[xml(attribute)] Attr "plain" in "" => plain: NsCode,
    #[xml(attribute)] Attr "opt" in "" => opt: Option<Box<NsCode>>,
    #[xml(attribute, ns(A))] Attr "own" in A => own: Option<NsCode>,
    #[xml(attribute, ns(Q))] Attr "other" in "urn:q" => other: NsCode,
    #[xml(attribute, ns(A))] Attr "code" in A => code: Code,
    #[xml(attribute, ns(Q), rename = "K")] Attr "K" in "urn:q" => kebab: Option<Kebab>,
}}

// Every scalar type in every position

macro_rules! kits {
    ($($kit:ident $name:literal $dir:ident $dname:literal $diropt:ident $doname:literal $tup:ident $tname:literal : $t:ty),* $(,)?) => {
        $(
            st! { Struct $dir = $dname in "", {
                #[xml(direct)] Direct "d" in "" => d: $t,
            }}
            st! { Struct $diropt = $doname in "", {
                #[xml(attribute)] Attr "a" in "" => a: $t,
                #[xml(direct)] Direct "d" in "" => d: Option<$t>,
            }}
            #[derive(Clone, Debug, FromXml, ToXml)]
            pub struct $tup($t);
            model_tuple!($tup = $tname in "", (0: $t));
            st! { Struct $kit = $name in "", {
                #[xml(attribute)] Attr "a" in "" => a: $t,
                #[xml(attribute)] Attr "ao" in "" => ao: Option<$t>,
                #[xml(attribute)] Attr "ab" in "" => ab: Box<$t>,
                #[xml(attribute)] Attr "aob" in "" => aob: Option<Box<$t>>,
                Elem "e" in "" => e: $t,
                Elem "eo" in "" => eo: Option<$t>,
                Elem "eb" in "" => eb: Box<$t>,
                Elem "eob" in "" => eob: Option<Box<$t>>,
                Elem "el" in "" => el: Vec<$t>,
                Elem "elb" in "" => elb: Vec<Box<$t>>,
                Elem "ebl" in "" => ebl: Box<Vec<$t>>,
                Elem $dname in "" => d: Option<$dir>,
                Elem $doname in "" => dopt: Vec<$diropt>,
                Elem $tname in "" => t: Option<Box<$tup>>,
            }}
        )*
        fwd! { Kit { $($kit: Box<$kit>),* } }
    };
}
kits! {
    KI8 "KI8" DI8 "DI8" OI8 "OI8" TI8 "TI8": i8,
    KI16 "KI16" DI16 "DI16" OI16 "OI16" TI16 "TI16": i16,
    KI32 "KI32" DI32 "DI32" OI32 "OI32" TI32 "TI32": i32,
    KI64 "KI64" DI64 "DI64" OI64 "OI64" TI64 "TI64": i64,
    KIsize "KIsize" DIsize "DIsize" OIsize "OIsize" TIsize "TIsize": isize,
    KU8 "KU8" DU8 "DU8" OU8 "OU8" TU8 "TU8": u8,
    KU16 "KU16" DU16 "DU16" OU16 "OU16" TU16 "TU16": u16,
    KU32 "KU32" DU32 "DU32" OU32 "OU32" TU32 "TU32": u32,
    KU64 "KU64" DU64 "DU64" OU64 "OU64" TU64 "TU64": u64,
    KUsize "KUsize" DUsize "DUsize" OUsize "OUsize" TUsize "TUsize": usize,
    KF32 "KF32" DF32 "DF32" OF32 "OF32" TF32 "TF32": f32,
    KF64 "KF64" DF64 "DF64" OF64 "OF64" TF64 "TF64": f64,
    KBool "KBool" DBool "DBool" OBool "OBool" TBool "TBool": bool,
    KChar "KChar" DChar "DChar" OChar "OChar" TChar "TChar": char,
    KString "KString" DString "DString" OString "OString" TString "TString": String,
    KCow "KCow" DCow "DCow" OCow "OCow" TCow "TCow": Cow<'static, str>,
    KTime "KTime" DTime "DTime" OTime "OTime" TTime "TTime": DateTime<Utc>,
    KLocal "KLocal" DLocal "DLocal" OLocal "OLocal" TLocal "TLocal": NaiveDateTime,
    KDay "KDay" DDay "DDay" ODay "ODay" TDay "TDay": NaiveDate,
    KIp "KIp" DIp "DIp" OIp "OIp" TIp "TIp": IpAddr,
    KStatus "KStatus" DStatus "DStatus" OStatus "OStatus" TStatus "TStatus": Status,
    KCode "KCode" DCode "DCode" OCode "OCode" TCode "TCode": Code,
}
st! { Struct Kits = "Kits" in "", {
    #[xml(attribute)] Attr "n" in "" => n: Option<u8>,
    Elem "" in "" => kits: Vec<Kit>,
}}

// Tuple and unit structs

#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Unit;
model_unit!(Unit = "Unit" in "");
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Name(String);
model_tuple!(Name = "Name" in "", (0: String));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Count(i64);
model_tuple!(Count = "Count" in "", (0: i64));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Flag(Code);
model_tuple!(Flag = "Flag" in "", (0: Code));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Pair(Item, Leaf);
model_tuple!(Pair = "Pair" in "", (0: Item, 1: Leaf));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Same(Leaf, Leaf, Box<Leaf>);
model_tuple!(Same = "Same" in "", (0: Leaf, 1: Leaf, 2: Box<Leaf>));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Mixed(i32, Item);
model_tuple!(Mixed = "Mixed" in "", (0: i32, 1: Item));
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(ns("urn:a", p = "urn:p"))]
pub struct NsTuple(NsLeaf, Figure);
model_tuple!(NsTuple = "NsTuple" in A, (0: NsLeaf, 1: Figure));
st! { Struct Tuples = "Tuples" in "", {
    Elem "Name" in "" => name: Name,
    Elem "Count" in "" => count: Option<Count>,
    Elem "Flag" in "" => flag: Vec<Flag>,
    Elem "Pair" in "" => pair: Vec<Pair>,
    Elem "Same" in "" => same: Option<Same>,
    Elem "Mixed" in "" => mixed: Box<Mixed>,
    Elem "NsTuple" in "" => ns: Option<NsTuple>,
    Elem "Unit" in "" => unit: Unit,
}}

// Forward enums

st! { #[xml(rename = "circle")] Struct Circle = "circle" in "", {
    #[xml(attribute)] Attr "r" in "" => r: f64,
}}
st! { #[xml(rename = "Square")] Struct Sq = "Square" in "", {
    Elem "side" in "" => side: u32,
    Elem "name" in "" => name: Option<String>,
}}
fwd! { Figure { Circle: Circle2, Square: Sq, Leaf: Leaf, Unit: Unit, Pair: Box<Pair> } }
st! { #[xml(rename = "Circle")] Struct Circle2 = "Circle" in "", {
    #[xml(attribute)] Attr "r" in "" => r: f32,
}}
fwd! { Shape2 { Circle: Circle2, Square: Sq, Code: Flag, Tup: Same } }
fwd! { Outer { Figure: Figure, Person: Box<Person>, Ns: NsLeaf } }
st! { Struct Figures = "Figures" in "", {
    Elem "one" in "" => one: Figure,
    Elem "person" in "" => person: Option<Person>,
    Elem "Item" in "" => items: Vec<Item>,
}}
st! { Struct Outers = "Outers" in "", {
    Elem "list" in "" => list: Vec<Outer>,
    Elem "k" in "" => k: Option<u8>,
}}
st! { Struct BoxedFig = "BoxedFig" in "", {
    Elem "fig" in "" => fig: Box<Figure>,
    Elem "x" in "" => x: Vec<bool>,
}}

// Transparent structs

st! { #[xml(transparent)] Transparent Inline = "" in "", {
    Elem "Leaf" in "" => leaf: Leaf,
    Elem "n" in "" => n: u32,
    Elem "Item" in "" => items: Vec<Item>,
    Elem "o" in "" => o: Option<String>,
}}
st! { #[xml(transparent)] Transparent InlineOpt = "" in "", {
    Elem "q" in "" => q: String,
    Elem "Unit" in "" => unit: Unit,
}}
st! { Struct Inlines = "Inlines" in "", {
    #[xml(attribute)] Attr "id" in "" => id: u8,
    Elem "before" in "" => before: String,
    Elem "" in "" => inline: Box<Inline>,
    Elem "" in "" => opt: Option<InlineOpt>,
    Elem "after" in "" => after: Option<u8>,
}}
st! { #[xml(transparent)] Transparent InlineOuter = "" in "", {
    Elem "" in "" => inner: InlineOpt,
    Elem "Sq" in "" => sq: Box<Vec<Sq>>,
}}
st! { Struct InlineDeep = "InlineDeep" in "", {
    Elem "" in "" => outer: InlineOuter,
    Elem "Leaf" in "" => leaf: Option<Leaf>,
}}

// Namespaces

st! { #[xml(ns("urn:a"))] Struct NsLeaf = "NsLeaf" in A, {
    #[xml(attribute)] Attr "id" in "" => id: Option<u32>,
    Elem "v" in A => v: String,
}}
st! { #[xml(ns("urn:a", p = "urn:p", q = Q))] Struct NsRoot = "NsRoot" in A, {
    #[xml(attribute)] Attr "plain" in "" => plain: Option<String>,
    #[xml(attribute, ns(P))] Attr "pre" in P => pre: Option<String>,
    #[xml(attribute, ns(Q), rename = "pre")] Attr "pre" in Q => pre2: Option<u8>,
    Elem "own" in A => own: String,
    #[xml(ns("urn:p"))] Elem "pf" in P => pf: Option<String>,
    #[xml(ns(B))] Elem "other" in B => other: Vec<String>,
    #[xml(ns(""))] Elem "none" in "" => none: Option<String>,
    Elem "NsLeaf" in A => leaf: NsLeaf,
    Elem "NsOther" in "" => others: Vec<NsOther>,
    Elem "Item" in "" => items: Vec<Item>,
}}
st! { #[xml(ns(B, p = "urn:p", x-y.z = "urn:z"))] Struct NsOther = "NsOther" in B, {
    #[xml(attribute, ns(P))] Attr "id" in P => id: Option<u32>,
    Elem "v" in B => v: Option<String>,
    #[xml(ns("urn:z"))] Elem "z" in "urn:z" => z: Option<u8>,
    Elem "NsLeaf" in A => leaf: Option<NsLeaf>,
}}
st! { #[xml(ns("urn:a", p = "urn:p", q = Q, b = B, z = "urn:z", c = C, zz = "urn:z", own = "urn:a"))] Struct NsMany = "NsMany" in A, {
    #[xml(attribute)] Attr "k" in "" => k: Option<String>,
    #[xml(attribute, ns(A), rename = "k")] Attr "k" in A => ka: Option<u8>,
    #[xml(attribute, ns(P), rename = "k")] Attr "k" in P => kp: Option<String>,
    #[xml(attribute, ns(Q), rename = "k")] Attr "k" in Q => kq: Option<u8>,
    #[xml(attribute, ns(B), rename = "k")] Attr "k" in B => kb: Option<u8>,
    #[xml(attribute, ns(C), rename = "k")] Attr "k" in C => kc: Option<u8>,
    #[xml(attribute, ns(Z), rename = "k")] Attr "k" in Z => kz: Option<u8>,
    #[xml(ns("urn:z"))] Elem "z" in "urn:z" => z: Option<u8>,
    Elem "NsLeaf" in A => leaf: Option<NsLeaf>,
    Elem "NsOther" in "" => others: Vec<NsOther>,
    Elem "NsMany" in A => inner: Option<Box<NsMany>>,
}}
st! { #[xml(ns(deep::er::NS), rename = "deep")] Struct NsPath = "deep" in deep::er::NS, {
    Elem "a" in deep::er::NS => a: u8,
    #[xml(ns(deep::er::NS))] Elem "b" in deep::er::NS => b: Option<u8>,
    Elem "NsRoot" in A => root: Option<Box<NsRoot>>,
}}
st! { #[xml(ns("urn:a", fp = "urn:a"), force_prefix)] Struct Forced = "Forced" in A, {
    #[xml(attribute)] Attr "k" in "" => k: Option<u8>,
    Elem "NsLeaf" in A => leaf: Option<NsLeaf>,
    Elem "NsOther" in B => other: Option<NsOther>,
    Elem "Forced" in A => again: Option<Box<Forced>>,
}}

// Recursion: a tree of arbitrarily namespaced nodes

macro_rules! node {
    ($(#[$m:meta])* $t:ident = $name:literal in $ns:expr, attr $ans:ident) => {
        st! { $(#[$m])* Struct $t = $name in $ns, {
            #[xml(attribute)] Attr "k" in "" => k: Option<String>,
            #[xml(attribute, ns($ans))] Attr "w" in $ans => w: Option<u8>,
            Elem "own" in $ns => own: Option<u8>,
            #[xml(ns(P))] Elem "pp" in P => pp: Option<u8>,
            #[xml(ns(B))] Elem "bb" in B => bb: Option<u8>,
            #[xml(ns(""))] Elem "none" in "" => none: Option<u8>,
            Elem "" in "" => kids: Vec<AnyNode>,
        }}
    };
    ($(#[$m:meta])* $t:ident = $name:literal in $ns:expr) => {
        st! { $(#[$m])* Struct $t = $name in $ns, {
            #[xml(attribute)] Attr "k" in "" => k: Option<String>,
            Elem "own" in $ns => own: Option<u8>,
            #[xml(ns(P))] Elem "pp" in P => pp: Option<u8>,
            #[xml(ns(A))] Elem "aa" in A => aa: Option<u8>,
            Elem "" in "" => kids: Vec<AnyNode>,
        }}
    };
}
node! { N0 = "N0" in "" }
node! { #[xml(ns("urn:a"))] N1 = "N1" in A }
node! { #[xml(ns("urn:b"))] N2 = "N2" in B }
node! { #[xml(ns("urn:a", p = "urn:p"))] N3 = "N3" in A, attr P }
node! { #[xml(ns("urn:a", a = "urn:a"))] N4 = "N4" in A, attr A }
node! { #[xml(ns("urn:a", a = "urn:a"), force_prefix)] N5 = "N5" in A, attr A }
node! { #[xml(ns("urn:b", p = "urn:q"))] N6 = "N6" in B, attr Q }
node! { #[xml(ns("", p = "urn:p"))] N7 = "N7" in "", attr P }
node! { #[xml(ns("urn:p"))] N8 = "N8" in P }
node! { #[xml(ns("urn:b", x-y.z = "urn:a", p = "urn:p"))] N9 = "N9" in B, attr A }
node! { #[xml(ns("urn:p", p = "urn:p"), force_prefix)] N10 = "N10" in P, attr P }
node! { #[xml(ns("urn:c"), force_prefix)] N11 = "N11" in C }
node! { #[xml(ns("urn:q", a = "urn:p", p = "urn:a"))] N12 = "N12" in Q, attr A }
node! { #[xml(ns("urn:p", b = "urn:b"))] N13 = "N13" in P, attr B }
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(ns("urn:p", p = "urn:p"))]
pub struct NUnit;
model_unit!(NUnit = "NUnit" in P);
fwd! { AnyNode {
    N0: N0, N1: N1, N2: N2, N3: N3, N4: N4, N5: N5, N6: N6, N7: N7, N8: N8, N9: N9, N10: N10, N11: N11,
    N12: N12, N13: N13, Unit: NUnit, Attrs: NAttrs, Code: NLeaf,
} }
st! { #[xml(ns("urn:b", q = "urn:b", p = "urn:c"))] Struct NAttrs = "NAttrs" in B, {
    #[xml(attribute)] Attr "k" in "" => k: String,
    #[xml(attribute, ns(B), rename = "k")] Attr "k" in B => w: Option<u8>,
    #[xml(attribute, ns(C), rename = "k")] Attr "k" in C => x: Option<u8>,
}}
st! { #[xml(ns("urn:c", p = "urn:a"))] Struct NLeaf = "NLeaf" in C, {
    #[xml(attribute, ns(A))] Attr "k" in A => k: Option<u8>,
    #[xml(direct)] Direct "t" in "" => t: Option<String>,
}}

st! { #[xml(rename = "tree")] Struct RTree = "tree" in "", {
    #[xml(attribute)] Attr "label" in "" => label: String,
    Elem "value" in "" => value: Option<i32>,
    Elem "tree" in "" => kids: Vec<RTree>,
}}

// Generics

#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Wrap<T> {
    #[xml(attribute)]
    pub n: u32,
    pub inner: T,
    pub after: Option<String>,
}
impl<T: Model + 'static> Model for Wrap<T> {
    fn ty() -> Ty {
        // One definition per instantiation
        fn def<T: Model + 'static>() -> &'static Def {
            crate::model::cached(std::any::type_name::<T>(), || Def {
                ns: "",
                name: "Wrap",
                kind: DefKind::Struct(vec![
                    Field {
                        place: Place::Attr,
                        ns: "",
                        tag: "n",
                        ty: u32::ty(),
                    },
                    Field {
                        place: Place::Elem,
                        ns: "",
                        tag: "inner",
                        ty: T::ty(),
                    },
                    Field {
                        place: Place::Elem,
                        ns: "",
                        tag: "after",
                        ty: <Option<String>>::ty(),
                    },
                ]),
            })
        }
        Ty::Named(def::<WrapKey<T>>)
    }
    fn to_val(&self) -> Val {
        Val::Rec(vec![
            self.n.to_val(),
            self.inner.to_val(),
            self.after.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        let r = crate::model::rec(v);
        Wrap {
            n: u32::from_val(&r[0]),
            inner: T::from_val(&r[1]),
            after: <Option<String>>::from_val(&r[2]),
        }
    }
}
/// Keeps `Wrap<T>`'s definition apart from `T`'s.
pub struct WrapKey<T>(std::marker::PhantomData<T>);
impl<T: Model> Model for WrapKey<T> {
    fn ty() -> Ty {
        T::ty()
    }
    fn to_val(&self) -> Val {
        unreachable!()
    }
    fn from_val(_: &Val) -> Self {
        unreachable!()
    }
}

// More features of the derive macros: raw identifiers, names the generated code uses itself,
// lifetimes and type parameters everywhere, every renaming rule

st! { Struct RawIdents = "RawIdents" in "", {
    #[xml(attribute)] Attr "fn" in "" => r#fn: u8,
    #[xml(attribute)] Attr "match" in "" => r#match: Option<String>,
    Elem "type" in "" => r#type: String,
    Elem "loop" in "" => r#loop: Vec<u8>,
}}
st! { Struct Taken = "Taken" in "", {
    #[xml(attribute)] Attr "value" in "" => value: u8,
    #[xml(attribute)] Attr "id" in "" => id: Option<u8>,
    #[xml(attribute)] Attr "attr" in "" => attr: Option<u8>,
    Elem "field" in "" => field: u8,
    Elem "deserializer" in "" => deserializer: Option<u8>,
    Elem "serializer" in "" => serializer: Option<u8>,
    Elem "prefix" in "" => prefix: Option<u8>,
    Elem "ns" in "" => ns: Option<u8>,
    Elem "node" in "" => node: Vec<u8>,
    Elem "into" in "" => into: Option<u8>,
    Elem "element" in "" => element: Option<u8>,
    Elem "nested" in "" => nested: Option<u8>,
    Elem "known" in "" => known: Option<u8>,
    Elem "matches" in "" => matches: Option<u8>,
    Elem "default_ns" in "" => default_ns: Option<u8>,
    Elem "text" in "" => text: Option<u8>,
    Elem "error" in "" => error: Option<u8>,
    Elem "result" in "" => result: Option<u8>,
    Elem "cx" in "" => cx: Option<u8>,
    Elem "xml" in "" => xml: String,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "lowercase")]
pub enum RuleLowerE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleLowerE in "", { FirstCase = "firstcase", X = "x", Item2Go = "item2go" });
st! { #[xml(rename_all = "lowercase")] Struct RuleLower = "RuleLower" in "", {
    #[xml(attribute)] Attr "first_name" in "" => first_name: String,
    #[xml(attribute)] Attr "x" in "" => x: Option<RuleLowerE>,
    Elem "item2_go" in "" => item2_go: Option<u8>,
    Elem "list_of_things" in "" => list_of_things: Vec<RuleLowerE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "UPPERCASE")]
pub enum RuleUpperE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleUpperE in "", { FirstCase = "FIRSTCASE", X = "X", Item2Go = "ITEM2GO" });
st! { #[xml(rename_all = "UPPERCASE")] Struct RuleUpper = "RuleUpper" in "", {
    #[xml(attribute)] Attr "FIRST_NAME" in "" => first_name: String,
    #[xml(attribute)] Attr "X" in "" => x: Option<RuleUpperE>,
    Elem "ITEM2_GO" in "" => item2_go: Option<u8>,
    Elem "LIST_OF_THINGS" in "" => list_of_things: Vec<RuleUpperE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "PascalCase")]
pub enum RulePascalE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RulePascalE in "", { FirstCase = "FirstCase", X = "X", Item2Go = "Item2Go" });
st! { #[xml(rename_all = "PascalCase")] Struct RulePascal = "RulePascal" in "", {
    #[xml(attribute)] Attr "FirstName" in "" => first_name: String,
    #[xml(attribute)] Attr "X" in "" => x: Option<RulePascalE>,
    Elem "Item2Go" in "" => item2_go: Option<u8>,
    Elem "ListOfThings" in "" => list_of_things: Vec<RulePascalE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "camelCase")]
pub enum RuleCamelE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleCamelE in "", { FirstCase = "firstCase", X = "x", Item2Go = "item2Go" });
st! { #[xml(rename_all = "camelCase")] Struct RuleCamel = "RuleCamel" in "", {
    #[xml(attribute)] Attr "firstName" in "" => first_name: String,
    #[xml(attribute)] Attr "x" in "" => x: Option<RuleCamelE>,
    Elem "item2Go" in "" => item2_go: Option<u8>,
    Elem "listOfThings" in "" => list_of_things: Vec<RuleCamelE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "snake_case")]
pub enum RuleSnakeE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleSnakeE in "", { FirstCase = "first_case", X = "x", Item2Go = "item2_go" });
st! { #[xml(rename_all = "snake_case")] Struct RuleSnake = "RuleSnake" in "", {
    #[xml(attribute)] Attr "first_name" in "" => first_name: String,
    #[xml(attribute)] Attr "x" in "" => x: Option<RuleSnakeE>,
    Elem "item2_go" in "" => item2_go: Option<u8>,
    Elem "list_of_things" in "" => list_of_things: Vec<RuleSnakeE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "SCREAMING_SNAKE_CASE")]
pub enum RuleScreamE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleScreamE in "", { FirstCase = "FIRST_CASE", X = "X", Item2Go = "ITEM2_GO" });
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE")] Struct RuleScream = "RuleScream" in "", {
    #[xml(attribute)] Attr "FIRST_NAME" in "" => first_name: String,
    #[xml(attribute)] Attr "X" in "" => x: Option<RuleScreamE>,
    Elem "ITEM2_GO" in "" => item2_go: Option<u8>,
    Elem "LIST_OF_THINGS" in "" => list_of_things: Vec<RuleScreamE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "kebab-case")]
pub enum RuleKebabE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleKebabE in "", { FirstCase = "first-case", X = "x", Item2Go = "item2-go" });
st! { #[xml(rename_all = "kebab-case")] Struct RuleKebab = "RuleKebab" in "", {
    #[xml(attribute)] Attr "first-name" in "" => first_name: String,
    #[xml(attribute)] Attr "x" in "" => x: Option<RuleKebabE>,
    Elem "item2-go" in "" => item2_go: Option<u8>,
    Elem "list-of-things" in "" => list_of_things: Vec<RuleKebabE>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "SCREAMING-KEBAB-CASE")]
pub enum RuleLoudE {
    FirstCase,
    X,
    Item2Go,
}
model_cases!(RuleLoudE in "", { FirstCase = "FIRST-CASE", X = "X", Item2Go = "ITEM2-GO" });
st! { #[xml(rename_all = "SCREAMING-KEBAB-CASE")] Struct RuleLoud = "RuleLoud" in "", {
    #[xml(attribute)] Attr "FIRST-NAME" in "" => first_name: String,
    #[xml(attribute)] Attr "X" in "" => x: Option<RuleLoudE>,
    Elem "ITEM2-GO" in "" => item2_go: Option<u8>,
    Elem "LIST-OF-THINGS" in "" => list_of_things: Vec<RuleLoudE>,
}}
fwd! { Ruled { RuleLower: RuleLower, RuleUpper: RuleUpper, RulePascal: RulePascal, RuleCamel: RuleCamel, RuleSnake: RuleSnake, RuleScream: RuleScream, RuleKebab: RuleKebab, RuleLoud: RuleLoud } }
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct TupL<'a>(Cow<'a, str>);
model_tuple!(TupL<'a> = "TupL" in "", (0: Cow<'a, str>));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct TupM<'a>(Cow<'a, str>, Box<Item>);
model_tuple!(TupM<'a> = "TupM" in "", (0: Cow<'a, str>, 1: Box<Item>));
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(ns("urn:b"))]
pub struct TupG<T>(T);
model_tuple!(TupG<<T>> = "TupG" in B, (0: T));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct DirL<'a> {
    #[xml(attribute)]
    pub k: Cow<'a, str>,
    #[xml(attribute)]
    pub o: Option<Cow<'a, str>>,
    #[xml(direct)]
    pub text: Cow<'a, str>,
}
model_struct!(Struct DirL<'a> = "DirL" in "", {
    Attr "k" in "" => k: Cow<'a, str>,
    Attr "o" in "" => o: Option<Cow<'a, str>>,
    Direct "text" in "" => text: Cow<'a, str>,
});
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(forward)]
pub enum FwdL<'a> {
    Tup(TupL<'a>),
    Dir(DirL<'a>),
    Gen(TupG<u8>),
}
model_forward!(FwdL<'a>, { Tup: TupL<'a>, Dir: DirL<'a>, Gen: TupG<u8> });
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(forward)]
pub enum FwdG<T> {
    Inner(T),
    Taken(Taken),
}
model_forward!(FwdG<<T>>, { Inner: T, Taken: Taken });
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(transparent)]
pub struct InlineL<'a> {
    #[xml(borrow)]
    pub x: Cow<'a, str>,
    pub y: TupM<'a>,
    pub z: Option<Cow<'a, str>>,
}
model_struct!(Transparent InlineL<'a> = "" in "", {
    Elem "x" in "" => x: Cow<'a, str>,
    Elem "TupM" in "" => y: TupM<'a>,
    Elem "z" in "" => z: Option<Cow<'a, str>>,
});
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Lifetimes<'a> {
    #[xml(attribute)]
    pub at: Cow<'a, str>,
    #[xml(borrow)]
    pub fwd: Vec<FwdL<'a>>,
    #[xml(borrow)]
    pub inline: InlineL<'a>,
    #[xml(borrow)]
    pub more: Option<Cow<'a, str>>,
    pub items: Cow<'a, [Item]>,
    pub figs: Cow<'a, [Figure]>,
    pub strs: Cow<'a, [String]>,
    pub stats: Cow<'a, [Status]>,
}
model_struct!(Struct Lifetimes<'a> = "Lifetimes" in "", {
    Attr "at" in "" => at: Cow<'a, str>,
    Elem "" in "" => fwd: Vec<FwdL<'a>>,
    Elem "" in "" => inline: InlineL<'a>,
    Elem "more" in "" => more: Option<Cow<'a, str>>,
    Elem "Item" in "" => items: Cow<'a, [Item]>,
    Elem "" in "" => figs: Cow<'a, [Figure]>,
    Elem "strs" in "" => strs: Cow<'a, [String]>,
    Elem "stats" in "" => stats: Cow<'a, [Status]>,
});
st! { Struct Generics = "Generics" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<Box<Status>>,
    Elem "TupG" in B => num: TupG<i16>,
    Elem "" in "" => fwd: Option<FwdG<Item>>,
    Elem "RawIdents" in "" => raw: Vec<RawIdents>,
    Elem "Wrap" in "" => wrap: Option<Wrap<TupG<Status>>>,
}}
st! { #[xml(transparent)] Transparent Single = "" in "", {
    Elem "one" in "" => one: u16,
}}
st! { #[xml(transparent)] Transparent SingleFig = "" in "", {
    Elem "" in "" => fig: Figure,
}}
st! { Struct Singles = "Singles" in "", {
    Elem "" in "" => singles: Vec<Single>,
    Elem "" in "" => fig: SingleFig,
    Elem "end" in "" => end: Option<u8>,
}}

// Written through references

st! { #[xml(ns("urn:a", p = "urn:p"))] Struct Views = "Views" in A, {
    #[xml(attribute)] Attr "s" in "" => s: String,
    #[xml(attribute)] Attr "o" in "" => o: Option<String>,
    #[xml(attribute, ns(P))] Attr "n" in P => n: u32,
    #[xml(attribute)] Attr "b" in "" => b: Option<Status>,
    Elem "t" in A => t: String,
    Elem "boxed" in A => boxed: String,
    #[xml(ns("urn:b"))] Elem "list" in B => list: Vec<String>,
    Elem "words" in A => words: Vec<String>,
    Elem "opt" in A => opt: Option<String>,
    Elem "c" in A => c: Option<char>,
    Elem "nums" in A => nums: Vec<i64>,
    Elem "Item" in "" => items: Vec<Item>,
    Elem "Person" in "" => person: Person,
    Elem "NsLeaf" in A => leaves: Vec<NsLeaf>,
    Elem "" in "" => fig: Option<Figure>,
    Elem "" in "" => inline: Single,
    Elem "Views" in A => inner: Option<Box<Views>>,
    #[xml(direct)] Direct "text" in "" => text: String,
}}
#[derive(ToXml)]
#[xml(ns("urn:a", p = "urn:p"), rename = "Views")]
pub struct ViewOf<'a> {
    #[xml(attribute)]
    s: &'a str,
    #[xml(attribute)]
    o: Option<&'a str>,
    #[xml(attribute, ns(P))]
    n: &'a u32,
    #[xml(attribute)]
    b: &'a Option<Status>,
    t: &'a str,
    boxed: Box<str>,
    #[xml(ns("urn:b"))]
    list: &'a [String],
    words: Box<[&'a str]>,
    opt: Option<Box<str>>,
    c: Option<&'a char>,
    nums: Vec<&'a i64>,
    items: &'a [Item],
    person: &'a Person,
    leaves: Vec<&'a NsLeaf>,
    fig: Option<&'a Figure>,
    inline: &'a Single,
    inner: Option<Box<ViewOf<'a>>>,
    #[xml(direct)]
    text: &'a str,
}
pub fn view(v: &Views) -> ViewOf<'_> {
    ViewOf {
        s: &v.s,
        o: v.o.as_deref(),
        n: &v.n,
        b: &v.b,
        t: &v.t,
        boxed: v.boxed.as_str().into(),
        list: &v.list,
        words: v.words.iter().map(String::as_str).collect(),
        opt: v.opt.as_deref().map(Into::into),
        c: v.c.as_ref(),
        nums: v.nums.iter().collect(),
        items: &v.items,
        person: &v.person,
        leaves: v.leaves.iter().collect(),
        fig: v.fig.as_ref(),
        inline: &v.inline,
        inner: v.inner.as_ref().map(|v| Box::new(view(v))),
        text: &v.text,
    }
}
st! { Struct BoxedOpt = "BoxedOpt" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Box<Option<u16>>,
    #[xml(attribute)] Attr "s" in "" => s: Box<Option<String>>,
    #[xml(attribute)] Attr "e" in "" => e: Box<Option<Status>>,
    #[xml(direct)] Direct "t" in "" => t: Box<Option<u16>>,
}}
st! { Struct BoxedOpts = "BoxedOpts" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<Box<u16>>,
    Elem "n" in "" => n: Box<Option<char>>,
    Elem "BoxedOpt" in "" => one: Box<Option<BoxedOpt>>,
    Elem "Item" in "" => items: Box<Vec<Box<Item>>>,
    Elem "" in "" => fig: Box<Option<Figure>>,
}}

// Borrowing types

/// Bytes read by the library's helper
#[derive(Clone, Debug, PartialEq)]
pub struct Bytes<'a>(Cow<'a, [u8]>);
impl Model for Bytes<'_> {
    fn ty() -> Ty {
        Ty::Sc(Sc::User)
    }
    fn to_val(&self) -> Val {
        Val::S(String::from_utf8(self.0.to_vec()).expect("bytes of a document"))
    }
    fn from_val(v: &Val) -> Self {
        Bytes(Cow::Owned(String::from_val(v).into_bytes()))
    }
}
#[derive(Default)]
pub struct BytesAcc<'a>(Option<Cow<'a, [u8]>>);
impl<'a> Accumulate<Bytes<'a>> for BytesAcc<'a> {
    fn try_done(self, field: &'static str) -> Result<Bytes<'a>, Error> {
        self.0.map(Bytes).ok_or(Error::MissingValue(field))
    }
}
impl<'xml> FromXml<'xml> for Bytes<'xml> {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        Some(id) == field
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        instant_xml::de::borrow_cow_slice_u8(&mut into.0, field, deserializer)
    }
    type Accumulator = BytesAcc<'xml>;
    const KIND: Kind = Kind::Scalar;
}
#[derive(Clone, Debug, FromXml)]
pub struct Blobs<'a> {
    pub id: Option<u8>,
    #[xml(borrow)]
    pub one: Bytes<'a>,
    #[xml(borrow)]
    pub opt: Option<Bytes<'a>>,
    #[xml(borrow)]
    pub all: Vec<Bytes<'a>>,
    pub name: Option<String>,
}
model_struct!(Struct Blobs<'a> = "Blobs" in "", {
    Elem "id" in "" => id: Option<u8>,
    Elem "one" in "" => one: Bytes<'a>,
    Elem "opt" in "" => opt: Option<Bytes<'a>>,
    Elem "all" in "" => all: Vec<Bytes<'a>>,
    Elem "name" in "" => name: Option<String>,
});

#[derive(Clone, Debug, FromXml, ToXml)]
pub struct Borrowed<'a> {
    #[xml(attribute)]
    pub id: u32,
    #[xml(borrow)]
    pub text: Cow<'a, str>,
    pub owned: Cow<'a, str>,
    pub nums: Cow<'a, [i32]>,
    #[xml(direct)]
    pub more: Cow<'a, str>,
}
model_struct!(Struct Borrowed<'a> = "Borrowed" in "", {
    Attr "id" in "" => id: u32,
    Elem "text" in "" => text: Cow<'a, str>,
    Elem "owned" in "" => owned: Cow<'a, str>,
    Elem "nums" in "" => nums: Cow<'a, [i32]>,
    Direct "more" in "" => more: Cow<'a, str>,
});
#[derive(Clone, Debug, FromXml)]
pub struct RawBytes<'a> {
    pub data: Cow<'a, [u8]>,
    #[xml(borrow)]
    pub text: Cow<'a, str>,
    pub skipped: (),
}
model_struct!(Struct RawBytes<'a> = "RawBytes" in "", {
    Elem "data" in "" => data: Cow<'a, [u8]>,
    Elem "text" in "" => text: Cow<'a, str>,
    Elem "skipped" in "" => skipped: (),
});
#[derive(Clone, Debug, FromXml)]
pub struct AnyHolder<'a> {
    #[xml(attribute)]
    pub id: Option<u8>,
    pub name: String,
    #[xml(borrow)]
    pub any: AnyElement<'a>,
}
model_struct!(Struct AnyHolder<'a> = "AnyHolder" in "", {
    Attr "id" in "" => id: Option<u8>,
    Elem "name" in "" => name: String,
    Elem "any" in "" => any: AnyElement<'a>,
});
#[derive(Clone, Debug, FromXml)]
#[xml(ns("urn:a"))]
pub struct AnyList<'a> {
    pub first: Option<u32>,
    #[xml(borrow)]
    pub any: Vec<AnyElement<'a>>,
}
model_struct!(Struct AnyList<'a> = "AnyList" in A, {
    Elem "first" in A => first: Option<u32>,
    Elem "any" in A => any: Vec<AnyElement<'a>>,
});
#[derive(Clone, Debug, FromXml)]
pub struct AnyOpt<'a> {
    pub list: Vec<u8>,
    #[xml(borrow)]
    pub any: Option<Box<AnyElement<'a>>>,
}
model_struct!(Struct AnyOpt<'a> = "AnyOpt" in "", {
    Elem "list" in "" => list: Vec<u8>,
    Elem "any" in "" => any: Option<Box<AnyElement<'a>>>,
});

// User types

/// Scalar with hand-written conversions
#[derive(Clone, Debug, PartialEq)]
pub struct UStr(pub String);
impl Model for UStr {
    fn ty() -> Ty {
        Ty::Sc(Sc::User)
    }
    fn to_val(&self) -> Val {
        Val::S(self.0.clone())
    }
    fn from_val(v: &Val) -> Self {
        UStr(String::from_val(v))
    }
}
impl ToXml for UStr {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        hooks::call("write", &self.0)?;
        self.0.serialize(field, serializer)
    }
}
impl<'xml> FromXml<'xml> for UStr {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        String::matches(id, field)
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let text = deserializer.take_str()?.unwrap_or_default().into_owned();
        hooks::call_for("read", &text, field)?;
        *into = Some(UStr(text));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}

/// Element with hand-written conversions and an accumulator of its own
#[derive(Clone, Debug, PartialEq)]
pub struct UElem(pub String);
impl Model for UElem {
    fn ty() -> Ty {
        fn def() -> &'static Def {
            crate::model::cached("UElem", || Def {
                ns: "",
                name: "u",
                kind: DefKind::Tuple(vec![Ty::Sc(Sc::User)]),
            })
        }
        Ty::Named(def)
    }
    fn to_val(&self) -> Val {
        Val::Rec(vec![Val::S(self.0.clone())])
    }
    fn from_val(v: &Val) -> Self {
        UElem(String::from_val(&crate::model::rec(v)[0]))
    }
}
impl ToXml for UElem {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        _: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        let el = serializer.write_start("u", "", Some(Context::<0>::default()))?;
        serializer.end_start()?;
        hooks::call("write", &self.0)?;
        self.0.serialize(None, serializer)?;
        serializer.write_close(el)
    }
}
#[derive(Default)]
pub struct UElemAcc(Option<String>);
impl Accumulate<UElem> for UElemAcc {
    fn try_done(self, field: &'static str) -> Result<UElem, Error> {
        let text = self.0.ok_or(Error::MissingValue(field))?;
        hooks::call_for("done", &text, field)?;
        Ok(UElem(text))
    }
}
impl<'xml> FromXml<'xml> for UElem {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id == Id { ns: "", name: "u" }
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.0.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let mut text = String::new();
        while let Some(node) = deserializer.next() {
            match node? {
                Node::Text(t) => text.push_str(&t),
                Node::Open(e) => deserializer.nested(e).ignore()?,
                _ => {}
            }
        }
        hooks::call_for("read", &text, field)?;
        into.0 = Some(text);
        Ok(())
    }
    type Accumulator = UElemAcc;
    const KIND: Kind = Kind::Element;
}

/// Element whose reader takes the text and leaves the rest, its end included, to whoever called it.
/// Forward enums and tuple structs allow that; the fields of other structs refuse it.
#[derive(Clone, Debug, PartialEq)]
pub struct ULeave(pub String);
impl Model for ULeave {
    fn ty() -> Ty {
        fn def() -> &'static Def {
            crate::model::cached("ULeave", || Def {
                ns: "",
                name: "leave",
                kind: DefKind::Tuple(vec![Ty::Sc(Sc::User)]),
            })
        }
        Ty::Named(def)
    }
    fn to_val(&self) -> Val {
        Val::Rec(vec![Val::S(self.0.clone())])
    }
    fn from_val(v: &Val) -> Self {
        ULeave(String::from_val(&crate::model::rec(v)[0]))
    }
}
impl ToXml for ULeave {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        _: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        let el = serializer.write_start("leave", "", Some(Context::<0>::default()))?;
        serializer.end_start()?;
        hooks::call("write", &self.0)?;
        self.0.serialize(None, serializer)?;
        serializer.write_close(el)
    }
}
impl<'xml> FromXml<'xml> for ULeave {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id == Id {
            ns: "",
            name: "leave",
        }
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let text = deserializer.take_str()?.unwrap_or_default().into_owned();
        hooks::call_for("read", &text, field)?;
        *into = Some(ULeave(text));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Element;
}

/// Scalar with an accumulator of its own
#[derive(Clone, Debug, PartialEq)]
pub struct UAcc(pub String);
impl Model for UAcc {
    fn ty() -> Ty {
        Ty::Sc(Sc::User)
    }
    fn to_val(&self) -> Val {
        Val::S(self.0.clone())
    }
    fn from_val(v: &Val) -> Self {
        UAcc(String::from_val(v))
    }
}
impl ToXml for UAcc {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        hooks::call("write", &self.0)?;
        self.0.serialize(field, serializer)
    }
}
#[derive(Default)]
pub struct UAccAcc(Option<String>);
impl Accumulate<UAcc> for UAccAcc {
    fn try_done(self, field: &'static str) -> Result<UAcc, Error> {
        let text = self.0.ok_or(Error::MissingValue(field))?;
        hooks::call_for("done", &text, field)?;
        Ok(UAcc(text))
    }
}
impl<'xml> FromXml<'xml> for UAcc {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        String::matches(id, field)
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.0.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let text = deserializer.take_str()?.unwrap_or_default().into_owned();
        hooks::call_for("read", &text, field)?;
        into.0 = Some(text);
        Ok(())
    }
    type Accumulator = UAccAcc;
    const KIND: Kind = Kind::Scalar;
}

/// Text converted by `serialize_with`/`deserialize_with` functions only
#[derive(Clone, Debug, PartialEq)]
pub struct UWith(pub String);
impl Model for UWith {
    fn ty() -> Ty {
        Ty::Sc(Sc::User)
    }
    fn to_val(&self) -> Val {
        Val::S(self.0.clone())
    }
    fn from_val(v: &Val) -> Self {
        UWith(String::from_val(v))
    }
}
impl<'xml> FromXml<'xml> for UWith {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        String::matches(id, field)
    }
    fn deserialize<'cx>(
        _: &mut Self::Accumulator,
        _: &'static str,
        _: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        Err(Error::Other("deserialize_with was not used".into()))
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}
pub fn with_write<W: fmt::Write + ?Sized>(
    value: &UWith,
    serializer: &mut Serializer<'_, W>,
) -> Result<(), Error> {
    let el = serializer.write_start("with", serializer.default_ns(), None::<Context<0>>)?;
    serializer.end_start()?;
    hooks::call("write", &value.0)?;
    value.0.serialize(None, serializer)?;
    serializer.write_close(el)
}
pub fn with_read<'xml>(
    into: &mut Option<UWith>,
    field: &'static str,
    deserializer: &mut Deserializer<'_, 'xml>,
) -> Result<(), Error> {
    if into.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    let text = deserializer.take_str()?.unwrap_or_default().into_owned();
    hooks::call_for("read", &text, field)?;
    *into = Some(UWith(text));
    deserializer.ignore()
}

/// Number written through Display and read through FromStr
#[derive(Clone, Debug, PartialEq)]
pub struct UNum(pub u32);
impl Model for UNum {
    fn ty() -> Ty {
        u32::ty()
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    fn from_val(v: &Val) -> Self {
        UNum(u32::from_val(v))
    }
}
impl fmt::Display for UNum {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        hooks::call("display", "").map_err(|_| fmt::Error)?;
        write!(f, "{}", self.0)
    }
}
impl std::str::FromStr for UNum {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        hooks::call("from_str", s).map_err(|_| ())?;
        s.trim().parse().map(UNum).map_err(|_| ())
    }
}
impl ToXml for UNum {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        instant_xml::display_to_xml(self, field, serializer)
    }
}
impl<'xml> FromXml<'xml> for UNum {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        u32::matches(id, field)
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, deserializer)
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}
/// Character read through FromStr as it is received
#[derive(Clone, Debug, PartialEq)]
pub struct UChar(pub char);
impl Model for UChar {
    fn ty() -> Ty {
        char::ty()
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    fn from_val(v: &Val) -> Self {
        UChar(char::from_val(v))
    }
}
impl std::str::FromStr for UChar {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        hooks::call("from_str", s).map_err(|_| ())?;
        s.parse().map(UChar).map_err(|_| ())
    }
}
impl ToXml for UChar {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        self.0.serialize(field, serializer)
    }
}
impl<'xml> FromXml<'xml> for UChar {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        char::matches(id, field)
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, deserializer)
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}
st! { Struct UNums = "UNums" in "", {
    #[xml(attribute)] Attr "a" in "" => a: UNum,
    #[xml(attribute)] Attr "ca" in "" => ca: Option<UChar>,
    Elem "ch" in "" => ch: Vec<UChar>,
    #[xml(attribute)] Attr "o" in "" => o: Option<UNum>,
    Elem "n" in "" => n: UNum,
    Elem "l" in "" => l: Vec<UNum>,
    Elem "b" in "" => b: Option<Box<UNum>>,
    Elem "s" in "" => s: String,
}}

st! { Struct Users = "Users" in "", {
    #[xml(attribute)] Attr "a" in "" => a: UStr,
    #[xml(attribute)] Attr "b" in "" => b: Option<UStr>,
    Elem "c" in "" => c: UStr,
    Elem "d" in "" => d: Option<UStr>,
    Elem "e" in "" => e: Vec<UStr>,
    Elem "f" in "" => f: Box<UStr>,
    Elem "g" in "" => g: Option<Box<UStr>>,
    #[xml(serialize_with = "with_write", deserialize_with = "with_read")] Elem "with" in "" => with: UWith,
    Elem "UDirect" in "" => h: Vec<UDirect>,
    Elem "UTuple" in "" => i: Option<UTuple>,
    Elem "z" in "" => z: Option<u8>,
}}
// Custom content beside text that may be absent
st! { Struct UNoted = "UNoted" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<u8>,
    #[xml(serialize_with = "with_write", deserialize_with = "with_read")] Elem "with" in "" => with: UWith,
    #[xml(direct)] Direct "t" in "" => t: Option<String>,
}}
st! { Struct UNotes = "UNotes" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<UStr>,
    Elem "UNoted" in "" => notes: Vec<UNoted>,
    #[xml(serialize_with = "with_write", deserialize_with = "with_read")] Elem "with" in "" => with: UWith,
}}
st! { Struct UDirect = "UDirect" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<UStr>,
    #[xml(direct)] Direct "t" in "" => t: UStr,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct UTuple(UStr);
model_tuple!(UTuple = "UTuple" in "", (0: UStr));
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct UPair(UElem, Item);
model_tuple!(UPair = "UPair" in "", (0: UElem, 1: Item));
fwd! { UFwd { Leave: ULeave, Elem: UElem, Direct: UDirect, Pair: Box<UPair>, Deep: Wrap<Vec<UElem>> } }
st! { #[xml(transparent)] Transparent UInline = "" in "", {
    Elem "iu" in "" => iu: UStr,
    Elem "u" in "" => u: UElem,
    #[xml(serialize_with = "with_write", deserialize_with = "with_read")] Elem "with" in "" => with: UWith,
}}
st! { Struct UReq = "UReq" in "", {
    Elem "u" in "" => u: UElem,
    Elem "k" in "" => k: u8,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct ULeftPair(ULeave, Item);
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct ULeftOne(Box<ULeave>);
model_tuple!(ULeftOne = "ULeftOne" in "", (0: Box<ULeave>));
model_tuple!(ULeftPair = "ULeftPair" in "", (0: ULeave, 1: Item));
st! { Struct ULefts = "ULefts" in "", {
    #[xml(attribute)] Attr "k" in "" => k: Option<UStr>,
    Elem "" in "" => one: Box<UFwd>,
    Elem "ULeftPair" in "" => pair: Option<ULeftPair>,
    Elem "ULeftOne" in "" => list: Vec<ULeftOne>,
    Elem "Item" in "" => item: Option<Box<Item>>,
}}
st! { Struct UElems = "UElems" in "", {
    Elem "UReq" in "" => req: UReq,
    Elem "UOpt" in "" => opt: Vec<UOpt>,
    Elem "" in "" => fwd: Vec<UFwd>,
}}
st! { Struct UOpt = "UOpt" in "", {
    Elem "u" in "" => u: Option<UElem>,
    Elem "after" in "" => after: Option<UStr>,
}}
st! { Struct UBox = "UBox" in "", {
    Elem "u" in "" => u: Option<Box<UElem>>,
    Elem "UOpt" in "" => o: Option<Box<UOpt>>,
}}
st! { Struct UFwdOpt = "UFwdOpt" in "", {
    Elem "" in "" => f: Option<UFwd>,
    Elem "UBox" in "" => b: Vec<UBox>,
}}
st! { Struct UInlines = "UInlines" in "", {
    Elem "" in "" => i: UInline,
    Elem "s" in "" => s: Option<UStr>,
}}
st! { Struct UInlineOpt = "UInlineOpt" in "", {
    Elem "" in "" => i: Option<UInline>,
    Elem "UReq" in "" => r: Vec<UReq>,
}}

#[derive(Clone, Debug, FromXml, ToXml)]
pub struct UListed {
    #[xml(attribute)]
    pub k: UAcc,
    #[xml(attribute)]
    pub o: Option<UAcc>,
    pub cs: Cow<'static, [UStr]>,
    pub ca: Cow<'static, [UAcc]>,
    pub cu: Cow<'static, [UElem]>,
    pub cd: Cow<'static, [UDirect]>,
    pub va: Vec<UAcc>,
    pub vb: Vec<Box<UAcc>>,
    pub bv: Box<Vec<UStr>>,
    pub one: UAcc,
    pub ob: Option<Box<UAcc>>,
    pub bo: Box<UAcc>,
    pub boxed: Vec<UBoxed>,
    pub held: Box<Vec<UHeld>>,
}
model_struct!(Struct UListed = "UListed" in "", {
    Attr "k" in "" => k: UAcc,
    Attr "o" in "" => o: Option<UAcc>,
    Elem "cs" in "" => cs: Cow<'static, [UStr]>,
    Elem "ca" in "" => ca: Cow<'static, [UAcc]>,
    Elem "u" in "" => cu: Cow<'static, [UElem]>,
    Elem "UDirect" in "" => cd: Cow<'static, [UDirect]>,
    Elem "va" in "" => va: Vec<UAcc>,
    Elem "vb" in "" => vb: Vec<Box<UAcc>>,
    Elem "bv" in "" => bv: Box<Vec<UStr>>,
    Elem "one" in "" => one: UAcc,
    Elem "ob" in "" => ob: Option<Box<UAcc>>,
    Elem "bo" in "" => bo: Box<UAcc>,
    Elem "UBoxed" in "" => boxed: Vec<UBoxed>,
    Elem "UHeld" in "" => held: Box<Vec<UHeld>>,
});
st! { Struct UBoxed = "UBoxed" in "", {
    Elem "u" in "" => u: Vec<Box<UElem>>,
    #[xml(direct)] Direct "t" in "" => t: UAcc,
}}
st! { Struct UHeld = "UHeld" in "", {
    Elem "u" in "" => u: Box<Vec<UElem>>,
    Elem "w" in "" => w: Option<UAcc>,
}}

/// Element whose reader may stop at any point
#[derive(Clone, Debug)]
pub struct Quit;
impl Model for Quit {
    fn ty() -> Ty {
        fn def() -> &'static Def {
            crate::model::cached("Quit", || Def {
                ns: "",
                name: "quit",
                kind: DefKind::Unit,
            })
        }
        Ty::Named(def)
    }
    fn to_val(&self) -> Val {
        Val::Unit
    }
    fn from_val(_: &Val) -> Self {
        Quit
    }
}
impl ToXml for Quit {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        _: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        serializer.write_start("quit", "", Some(Context::<0>::default()))?;
        serializer.end_empty()
    }
}
impl<'xml> FromXml<'xml> for Quit {
    fn matches(id: Id<'_>, _: Option<Id<'_>>) -> bool {
        id == Id {
            ns: "",
            name: "quit",
        }
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        match hooks::quit_steps() {
            Some(steps) => quit(deserializer, &steps, 0)?,
            None => deserializer.ignore()?,
        }
        *into = Some(Quit);
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Element;
}

/// Scalar whose reader may stop at any point; the derived code consumes the rest
#[derive(Clone, Debug)]
pub struct QuitS;
impl Model for QuitS {
    fn ty() -> Ty {
        Ty::Sc(Sc::Skip)
    }
    fn to_val(&self) -> Val {
        Val::S(String::new())
    }
    fn from_val(_: &Val) -> Self {
        QuitS
    }
}
impl ToXml for QuitS {
    fn serialize<W: fmt::Write + ?Sized>(
        &self,
        field: Option<Id<'_>>,
        serializer: &mut Serializer<'_, W>,
    ) -> Result<(), Error> {
        "".serialize(field, serializer)
    }
}
impl<'xml> FromXml<'xml> for QuitS {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        Some(id) == field
    }
    fn deserialize<'cx>(
        into: &mut Self::Accumulator,
        field: &'static str,
        deserializer: &mut Deserializer<'cx, 'xml>,
    ) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        if let Some(steps) = hooks::quit_steps() {
            quit(deserializer, &steps, 0)?;
        }
        *into = Some(QuitS);
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}

/// Read part of an element. Each step is one reader operation; errors surface unless the step says
/// to swallow them.
fn quit(d: &mut Deserializer<'_, '_>, steps: &[u8], depth: usize) -> Result<(), Error> {
    for (i, step) in steps.iter().enumerate() {
        match step {
            // Stop here
            0 => return Ok(()),
            // Take some text, whatever it is
            1 => drop(d.take_str()),
            // Skip everything
            2 => d.ignore()?,
            // Next node; children are dropped, skipped or entered
            _ => match d.next() {
                None => return Ok(()),
                Some(Err(e)) => {
                    if step % 2 == 1 {
                        return Err(e);
                    }
                }
                Some(Ok(Node::Open(e))) => match step {
                    3 => {}
                    4 => drop(d.nested(e)),
                    5 => drop(d.nested(e).next()),
                    6 if depth < 3 => quit(&mut d.nested(e), &steps[i + 1..], depth + 1)?,
                    7 => drop(d.nested(e).ignore()),
                    _ => d.nested(e).ignore()?,
                },
                Some(Ok(node @ Node::Text(_))) if *step == 8 => drop(d.for_node(node)),
                Some(Ok(node @ Node::Text(_))) if *step == 9 => drop(d.for_node(node).take_str()),
                Some(Ok(_)) => {}
            },
        }
    }
    Ok(())
}

st! { Struct Quits = "Quits" in "", {
    #[xml(attribute)] Attr "id" in "" => id: Option<String>,
    Elem "name" in "" => name: Option<String>,
    Elem "quit" in "" => quit: Option<Quit>,
    Elem "qs" in "" => qs: Vec<QuitS>,
    Elem "Item" in "" => items: Vec<Item>,
    Elem "leaf" in "" => leaf: Option<QuitIn>,
    Elem "n" in "" => n: Vec<u8>,
    Elem "" in "" => fwd: Vec<QuitFwd>,
    #[xml(direct)] Direct "text" in "" => text: Option<String>,
}}
st! { Struct QuitIn = "QuitIn" in "", {
    Elem "quit" in "" => quits: Vec<Quit>,
    Elem "name" in "" => name: Option<String>,
    #[xml(deserialize_with = "quit_with")] Elem "w" in "" => w: QuitW,
}}
fwd! { QuitFwd { In: Wrap<Option<Quit>>, Tup: QuitTup } }
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct QuitTup(Quit, Leaf);
model_tuple!(QuitTup = "QuitTup" in "", (0: Quit, 1: Leaf));
/// Read by an abandoning `deserialize_with` function
pub type QuitW = QuitS;
pub fn quit_with<'xml>(
    into: &mut Option<QuitS>,
    field: &'static str,
    deserializer: &mut Deserializer<'_, 'xml>,
) -> Result<(), Error> {
    if into.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    match hooks::quit_steps() {
        Some(steps) => quit(deserializer, &steps, 0)?,
        None => deserializer.ignore()?,
    }
    *into = Some(QuitS);
    Ok(())
}
st! { Struct QuitRoot = "QuitRoot" in "", {
    Elem "Quits" in "" => quits: Vec<Quits>,
    Elem "QuitIn" in "" => inner: Option<QuitIn>,
    Elem "name" in "" => name: Option<String>,
    Elem "Item" in "" => items: Vec<Item>,
}}

// Generated types

include!("zoo_gen.rs");

pub fn shapes() -> Vec<Shape> {
    vec![
        shape!(rw "person", Person, false),
        shape!(rw "numbers", Nums, false),
        shape!(rw "number attributes", NumAttrs, false),
        shape!(rw "times", Times, false),
        shape!(rw "options", Opts, false),
        shape!(rw "lists", Lists, false),
        shape!(rw "direct string", DirectStr, false),
        shape!(rw "direct option", DirectOpt, false),
        shape!(rw "direct with children", DirectKids, false),
        shape!(rw "optional direct with children", DirectOptKids, false),
        shape!(rw "direct texts", Directs, false),
        shape!(rw "renamed", CamelCase, false),
        shape!(rw "scalar enums", Enums, false),
        shape!(rw "unit struct", Unit, false),
        shape!(rw "tuple string", Name, false),
        shape!(rw "tuple structs", Tuples, false),
        shape!(rw "namespaced tuple", NsTuple, false),
        shape!(rw "forward enum", Figure, false),
        shape!(rw "nested forward enum", Outer, false),
        shape!(rw "forward enum fields", Figures, false),
        shape!(rw "forward enum lists", Outers, false),
        shape!(rw "boxed forward enum", BoxedFig, false),
        shape!(rw "float attribute", Circle, false),
        shape!(rw "transparent", Inlines, false),
        shape!(rw "nested transparent", InlineDeep, false),
        shape!(rw "namespaces", NsRoot, false),
        shape!(rw "many prefixes", NsMany, false),
        shape!(rw "other namespace", NsOther, false),
        shape!(rw "namespace path", NsPath, false),
        shape!(rw "forced prefix", Forced, false),
        shape!(rw "namespace tree", AnyNode, false),
        shape!(rw "recursive", RTree, false),
        shape!(rw "generic over struct", Wrap<Person>, false),
        shape!(rw "generic over list", Wrap<Vec<Figure>>, false),
        shape!(rw "generic over option", Wrap<Option<Status>>, false),
        shape!(rw "borrowed", Borrowed<'_>, false),
        shape!(view "written by reference", Views, view),
        shape!(rw "scalar kit", Kit, false),
        shape!(rw "raw identifiers", RawIdents, false),
        shape!(rw "names of generated code", Taken, false),
        shape!(rw "renaming rules", Ruled, false),
        shape!(rw "lifetimes", Lifetimes<'_>, false),
        shape!(rw "lifetime enum", FwdL<'_>, false),
        shape!(rw "generics", Generics, false),
        shape!(rw "generic tuple", TupG<Item>, false),
        shape!(rw "generic enum", FwdG<Person>, false),
        shape!(rw "single transparents", Singles, false),
        shape!(rw "scalar kits", Kits, false),
        shape!(rw "users", Users, true),
        shape!(rw "user notes", UNotes, true),
        shape!(rw "user elements", UElems, true),
        shape!(rw "user boxes", UBox, true),
        shape!(rw "user forward", UFwdOpt, true),
        shape!(rw "user forward root", UFwd, true),
        shape!(rw "user remainders", ULefts, true),
        shape!(rw "user transparent", UInlines, true),
        shape!(rw "user optional transparent", UInlineOpt, true),
        shape!(rw "user lists", UListed, true),
        shape!(rw "abandoning", QuitRoot, true),
        shape!(rw "user display", UNums, false),
        shape!(ro "raw bytes", RawBytes<'_>),
        shape!(ro "byte strings", Blobs<'_>),
        shape!(rw "boxed options", BoxedOpts, false),
        shape!(ro "generic element", AnyElement<'_>),
        shape!(ro "generic element field", AnyHolder<'_>),
        shape!(ro "generic element list", AnyList<'_>),
        shape!(ro "optional generic element", AnyOpt<'_>),
    ]
}

pub fn shape(shapes: &[Shape], name: &str) -> usize {
    shapes
        .iter()
        .position(|s| s.name == name)
        .expect("harness: no such shape")
}

/// Reads any of the names the limit checks use and ignores everything inside.
#[derive(Debug, FromXml)]
#[xml(forward)]
pub enum Lenient {
    A(LenientA),
    B(LenientB),
    Tree(LenientTree),
    Item(LenientItem),
}
macro_rules! lenient {
    ($t:ident, $name:tt) => {
        #[derive(Debug, FromXml)]
        #[xml(rename = $name)]
        pub struct $t {
            #[allow(dead_code)]
            deep: Option<u8>,
        }
    };
}
lenient!(LenientA, "a");
lenient!(LenientB, "b");
lenient!(LenientTree, "tree");
lenient!(LenientItem, "Item");
