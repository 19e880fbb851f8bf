// Made by tools/genzoo.py 1 120: random combinations of what the derive macros support.

st! { #[xml(rename_all = "lowercase", ns("urn:a", b = "urn:a"), rename = "data")] Struct G0 = "data" in "urn:a", {
     Elem "kind" in "" => kind: Vec<Status>,
    #[xml(attribute)] Attr "v1" in "" => v1: Box<Cow<'static, str>>,
    #[xml(attribute, rename = "Name", ns(A))] Attr "Name" in "urn:a" => value: Option<Box<u8>>,
}}
st! { #[xml(ns("urn:q", q = "urn:a", n.s = Z, p = "urn:c"), rename_all = "UPPERCASE")] Struct G1 = "G1" in "urn:q", {
    #[xml(attribute)] Attr "OTHER" in "" => other: Option<String>,
     Elem "data" in "urn:a" => id: Vec<Box<G0>>,
    #[xml(attribute, rename = "data")] Attr "data" in "" => kind: Option<Box<Cow<'static, str>>>,
    #[xml(attribute)] Attr "TEXT" in "" => text: Option<Box<Status>>,
    #[xml(rename = "v")] Elem "v" in "" => list_of_things: Vec<Status>,
}}
st! { #[xml(ns("urn:c", q = "urn:q", b = "urn:q"))] Struct G2 = "G2" in "urn:c", {
    #[xml(attribute, rename = "g-1")] Attr "g-1" in "" => v1: Option<Box<Code>>,
     Elem "G1" in "urn:q" => value: Option<G1>,
    #[xml(ns(Q), attribute)] Attr "list_of_things" in "urn:q" => list_of_things: Kebab,
    #[xml(rename = "Node.2", attribute)] Attr "Node.2" in "" => name: String,
}}
st! { #[xml(rename_all = "kebab-case", ns("urn:c", a = B), force_prefix)] Struct G3 = "G3" in "urn:c", {} }
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE")] Struct G4 = "G4" in "", {
     Elem "G1" in "urn:q" => id: Vec<G1>,
     Elem "LONG_LONG_NAME" in "" => long_long_name: Option<Kebab>,
    #[xml(ns(""))] Elem "KIND" in "" => kind: u32,
     Elem "G4" in "" => name: Vec<G4>,
     Elem "G2" in "urn:c" => list_of_things: G2,
    #[xml(attribute)] Attr "OTHER" in "" => other: Option<Box<Cow<'static, str>>>,
    #[xml(attribute)] Attr "DATA" in "" => data: NaiveDateTime,
}}
st! { #[xml(rename_all = "lowercase", ns("urn:c", p = P, x-y = C))] Struct G5 = "G5" in "urn:c", {
    #[xml(ns("urn:c"))] Elem "key" in "urn:c" => key: Vec<String>,
    #[xml(rename = "ü")] Elem "ü" in "" => a: Vec<Kebab>,
     Elem "b" in "urn:c" => b: Box<UStr>,
     Elem "data" in "urn:a" => n: Vec<Box<G0>>,
     Elem "G2" in "urn:c" => tag: G2,
    #[xml(ns(P), attribute)] Attr "kind" in "urn:p" => kind: Option<Box<f32>>,
    #[xml(direct)] Direct "v1" in "" => v1: Cow<'static, str>,
}}
st! { #[xml(rename_all = "PascalCase")] Struct G6 = "G6" in "", {
     Elem "data" in "urn:a" => tag: Option<G0>,
    #[xml(attribute, rename = "leaf")] Attr "leaf" in "" => key: Option<u8>,
    #[xml(rename = "x")] Elem "x" in "" => list_of_things: Vec<Box<u32>>,
     Elem "G2" in "urn:c" => kind: Vec<G2>,
    #[xml(attribute)] Attr "Data" in "" => data: Cow<'static, str>,
    #[xml(attribute)] Attr "Value" in "" => value: Box<String>,
}}
st! { #[xml(rename_all = "kebab-case", ns("urn:p"), force_prefix)] Struct G7 = "G7" in "urn:p", {
     Elem "G7" in "urn:p" => name: Option<Box<G7>>,
    #[xml(rename = "g-1")] Elem "g-1" in "" => tag: Option<Status>,
    #[xml(attribute)] Attr "x" in "" => x: Option<Box<Kebab>>,
}}
st! { #[xml(ns("urn:a", a = B), rename = "v", rename_all = "PascalCase")] Struct G8 = "v" in "urn:a", {
     Elem "Id" in "urn:a" => id: i16,
    #[xml(direct)] Direct "a" in "" => a: String,
}}
st! { #[xml(rename = "x", ns(C))] Struct G9 = "x" in "urn:c", {
     Elem "data" in "urn:a" => first_name: Box<Vec<G0>>,
    #[xml(attribute)] Attr "value" in "" => value: Kebab,
}}
st! { #[xml(rename = "type", rename_all = "UPPERCASE", ns(Q), force_prefix)] Struct G10 = "type" in "urn:q", {
    #[xml(attribute, rename = "Item")] Attr "Item" in "" => id: Option<Box<NaiveDate>>,
     Elem "G3" in "urn:c" => list_of_things: Vec<G3>,
    #[xml(attribute)] Attr "TAG" in "" => tag: Code,
    #[xml(attribute)] Attr "TEXT" in "" => text: Option<u32>,
     Elem "FIELD" in "" => field: Option<Status>,
     Elem "OTHER" in "urn:q" => other: Vec<UAcc>,
}}
st! { #[xml(ns(C, n.s = Q, a = Z), rename_all = "SCREAMING_SNAKE_CASE")] Struct G11 = "G11" in "urn:c", {
     Elem "G11" in "urn:c" => x: Vec<G11>,
     Elem "G1" in "urn:q" => long_long_name: Vec<G1>,
     Elem "G2" in "urn:c" => a: Vec<Box<G2>>,
}}
fwd! { G12 { V0: Box<G8> } }
st! { #[xml(rename_all = "UPPERCASE", ns(P, x-y = "urn:b", p = Z))] Struct G13 = "G13" in "urn:p", {
     Elem "G6" in "" => kind: G6,
    #[xml(ns("urn:p"), rename = "_tag")] Elem "_tag" in "urn:p" => v1: Vec<i8>,
     Elem "G13" in "urn:p" => a: Option<Box<G13>>,
     Elem "G3" in "urn:c" => first_name: G3,
     Elem "data" in "urn:a" => other: G0,
}}
st! { #[xml(ns("urn:b", x-y = C), rename_all = "SCREAMING_SNAKE_CASE")] Struct G14 = "G14" in "urn:b", {
    #[xml(attribute)] Attr "ID" in "" => id: String,
     Elem "G6" in "" => node: Vec<G6>,
    #[xml(attribute)] Attr "VALUE" in "" => value: Option<NaiveDate>,
     Elem "v" in "urn:a" => long_long_name: Box<G8>,
     Elem "G1" in "urn:q" => other: Vec<G1>,
}}
st! { #[xml(transparent, rename_all = "SCREAMING-KEBAB-CASE")] Transparent G15 = "" in "", {
     Elem "G6" in "" => long_long_name: Vec<Box<G6>>,
     Elem "A" in "" => a: Option<NaiveDate>,
}}
st! { #[xml(ns(A, x-y = "urn:p", b = P, _u = "urn:c"), rename = "Name", rename_all = "SCREAMING-KEBAB-CASE")] Struct G16 = "Name" in "urn:a", {
     Elem "FIELD" in "urn:a" => field: UAcc,
    #[xml(ns(P), attribute)] Attr "KIND" in "urn:p" => kind: Option<Code>,
    #[xml(attribute, ns(P))] Attr "TAG" in "urn:p" => tag: Option<Box<String>>,
     Elem "v" in "urn:a" => long_long_name: Vec<G8>,
    #[xml(direct)] Direct "list_of_things" in "" => list_of_things: Cow<'static, str>,
}}
st! { #[xml(transparent, rename_all = "PascalCase")] Transparent G17 = "" in "", {
     Elem "G7" in "urn:p" => x: Option<G7>,
     Elem "Tag" in "" => tag: Vec<Cow<'static, str>>,
     Elem "Key" in "" => key: Vec<NaiveDateTime>,
}}
st! { #[xml(rename_all = "UPPERCASE", ns("urn:q", b = B))] Struct G18 = "G18" in "urn:q", {
     Elem "TEXT" in "urn:q" => text: Option<String>,
     Elem "VALUE" in "urn:q" => value: Box<UStr>,
     Elem "x" in "urn:c" => first_name: Box<Vec<G9>>,
     Elem "G18" in "urn:q" => item2_go: Option<Box<G18>>,
     Elem "G13" in "urn:p" => v1: Box<Vec<G13>>,
     Elem "G5" in "urn:c" => tag: G5,
     Elem "NAME" in "" => name: Code,
    #[xml(direct)] Direct "x" in "" => x: Option<Cow<'static, str>>,
}}
st! { #[xml(rename_all = "snake_case", ns(A, q = "urn:a"))] Struct G19 = "G19" in "urn:a", {
     Elem "G18" in "urn:q" => a: Box<G18>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum G20 {
    Item2Go = 0,
    Other = 4294967295,
    FirstCase = 255,
}
model_cases!(G20 in "", { Item2Go = "0", Other = "4294967295", FirstCase = "255" });
st! { #[xml(rename_all = "SCREAMING-KEBAB-CASE", ns("urn:c", a = Q), rename = "Item")] Struct G21 = "Item" in "urn:c", {
     Elem "TAG" in "urn:c" => tag: u8,
     Elem "G6" in "" => value: G6,
    #[xml(rename = "Item")] Elem "Item" in "urn:c" => a: Option<String>,
    #[xml(rename = "leaf")] Elem "leaf" in "" => data: Vec<G20>,
    #[xml(ns("urn:p"))] Elem "N" in "urn:p" => n: Option<NaiveDateTime>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "lowercase")]
pub enum G22 {
    V,
    FirstCase,
    #[xml(rename = "<")]
    Item2Go,
    #[xml(rename = "other 4")]
    Other,
}
model_cases!(G22 in "", { V = "v", FirstCase = "firstcase", Item2Go = "<", Other = "other 4" });
st! { #[xml(ns("", p = "urn:q"), rename_all = "snake_case")] Struct G23 = "G23" in "", {
     Elem "tag" in "" => tag: UAcc,
     Elem "key" in "" => key: Status,
     Elem "Name" in "urn:a" => text: Option<G16>,
}}
st! { #[xml(rename_all = "lowercase", ns("urn:c", a = B, _u = "urn:a"))] Struct G24 = "G24" in "urn:c", {
     Elem "G18" in "urn:q" => long_long_name: Vec<Box<G18>>,
     Elem "list_of_things" in "urn:c" => list_of_things: bool,
     Elem "x" in "urn:c" => other: Vec<Box<G9>>,
    #[xml(attribute, rename = "x")] Attr "x" in "" => b: Option<Box<G20>>,
     Elem "name" in "urn:c" => name: Option<i8>,
     Elem "v" in "urn:a" => a: Option<G8>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "camelCase")]
pub enum G25 {
    Item2Go,
    LongLongName,
    FirstCase,
}
model_cases!(G25 in "", { Item2Go = "item2Go", LongLongName = "longLongName", FirstCase = "firstCase" });
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum G26 {
    FirstCase = 10,
    LongLongName = 7,
    V = 4294967295,
    Other = 2,
}
model_cases!(G26 in "", { FirstCase = "10", LongLongName = "7", V = "4294967295", Other = "2" });
st! { #[xml(ns("urn:z", _u = "urn:c"), rename_all = "UPPERCASE")] Struct G27 = "G27" in "urn:z", {
    #[xml(rename = "type", attribute)] Attr "type" in "" => tag: Box<String>,
    #[xml(rename = "leaf", attribute)] Attr "leaf" in "" => first_name: Box<String>,
    #[xml(attribute, ns(C))] Attr "OTHER" in "urn:c" => other: Box<String>,
    #[xml(ns("urn:a"))] Elem "NAME" in "urn:a" => name: Vec<Box<NaiveDateTime>>,
     Elem "" in "" => node: G15,
     Elem "KIND" in "urn:z" => kind: Cow<'static, str>,
    #[xml(rename = "Name")] Elem "Name" in "urn:z" => a: Vec<NaiveDate>,
}}
st! { #[xml(transparent)] Transparent G28 = "" in "", {
     Elem "type" in "urn:q" => a: Box<Vec<G10>>,
}}
fwd! { G29 { V0: G9, V2: Box<G7>, V3: Box<G21> } }
fwd! { G30 { V0: G11, V2: Box<G4>, V3: Box<G27> } }
fwd! { G31 { V0: Box<G9>, V1: G0 } }
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "SCREAMING_SNAKE_CASE")]
pub enum G32 {
    Item2Go,
}
model_cases!(G32 in "", { Item2Go = "ITEM2_GO" });
st! { #[xml(transparent)] Transparent G33 = "" in "", {
     Elem "name" in "" => name: Box<Vec<f32>>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(ns("urn:c", _u = "urn:p"), force_prefix)]
pub struct G34;
model_unit!(G34 = "G34" in "urn:c");
st! { #[xml(ns("urn:c", x-y = "urn:c"), rename_all = "camelCase")] Struct G35 = "G35" in "urn:c", {
     Elem "u" in "" => tag: Option<UElem>,
     Elem "G13" in "urn:p" => n: G13,
     Elem "" in "" => value: G28,
    #[xml(ns("urn:q"))] Elem "id" in "urn:q" => id: NaiveDate,
    #[xml(rename = "Node.2", ns(""))] Elem "Node.2" in "" => name: u32,
}}
st! { #[xml(rename_all = "UPPERCASE")] Struct G36 = "G36" in "", {
    #[xml(attribute)] Attr "N" in "" => n: i16,
     Elem "VALUE" in "" => value: Option<G22>,
    #[xml(ns(Q))] Elem "KIND" in "urn:q" => kind: Vec<Cow<'static, str>>,
     Elem "G36" in "" => node: Option<Box<G36>>,
    #[xml(attribute)] Attr "OTHER" in "" => other: Option<bool>,
    #[xml(rename = "Item")] Elem "Item" in "" => data: Box<Vec<G25>>,
    #[xml(attribute)] Attr "FIRST_NAME" in "" => first_name: NaiveDate,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct G37(Box<G9>, G7, G34);
model_tuple!(G37 = "G37" in "", (0: Box<G9>, 1: G7, 2: G34));
st! { #[xml(rename_all = "PascalCase", ns("urn:c", q = "urn:z", _u = "urn:z"), rename = "x")] Struct G38 = "x" in "urn:c", {
    #[xml(direct)] Direct "field" in "" => field: String,
}}
fwd! { G39 { V0: Box<G30>, V1: G38 } }
st! { #[xml(ns(A))] Struct G40 = "G40" in "urn:a", {
     Elem "G11" in "urn:c" => other: Option<G11>,
     Elem "G40" in "urn:a" => b: Vec<Box<G40>>,
    #[xml(direct)] Direct "tag" in "" => tag: Option<String>,
}}
st! { #[xml(rename_all = "UPPERCASE")] Struct G41 = "G41" in "", {
    #[xml(ns("urn:p"))] Elem "OTHER" in "urn:p" => other: Option<Box<u8>>,
    #[xml(ns("urn:a"))] Elem "ITEM2_GO" in "urn:a" => item2_go: Vec<Box<f32>>,
}}
st! { #[xml(ns(Q, b = "urn:q"), rename = "Item", rename_all = "SCREAMING_SNAKE_CASE")] Struct G42 = "Item" in "urn:q", {
     Elem "" in "" => x: G33,
}}
fwd! { G43 { V0: G29, V1: Box<G14>, V2: Box<G3> } }
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE")] Struct G44 = "G44" in "", {
    #[xml(attribute)] Attr "FIRST_NAME" in "" => first_name: Option<Box<String>>,
     Elem "LIST_OF_THINGS" in "" => list_of_things: i8,
    #[xml(attribute)] Attr "X" in "" => x: Option<i8>,
    #[xml(attribute)] Attr "FIELD" in "" => field: Option<Box<Cow<'static, str>>>,
     Elem "V1" in "" => v1: Box<Vec<f32>>,
}}
st! { #[xml(ns("urn:a", _u = "urn:a"), rename_all = "PascalCase")] Struct G45 = "G45" in "urn:a", {
     Elem "Item" in "urn:q" => a: Option<G42>,
     Elem "G7" in "urn:p" => n: Vec<G7>,
     Elem "G37" in "" => value: Option<Box<G37>>,
     Elem "Tag" in "" => tag: Option<G26>,
     Elem "X" in "urn:a" => x: Option<Box<UAcc>>,
    #[xml(attribute, ns(A))] Attr "Id" in "urn:a" => id: Box<String>,
    #[xml(attribute, rename = "type")] Attr "type" in "" => long_long_name: Option<Box<String>>,
     Elem "ListOfThings" in "urn:a" => list_of_things: Option<Cow<'static, str>>,
     Elem "G14" in "urn:b" => v1: Option<G14>,
    #[xml(rename = "v", attribute, ns(A))] Attr "v" in "urn:a" => node: Option<i8>,
}}
st! { #[xml(ns(P, x-y = A, a = "urn:p"), rename = "Item", rename_all = "camelCase")] Struct G46 = "Item" in "urn:p", {
     Elem "" in "" => item2_go: G30,
     Elem "other" in "urn:p" => other: Box<Vec<u8>>,
     Elem "G18" in "urn:q" => text: G18,
}}
st! { #[xml(transparent, rename_all = "lowercase")] Transparent G47 = "" in "", {
     Elem "item2_go" in "" => item2_go: Vec<Kebab>,
     Elem "" in "" => id: G33,
     Elem "" in "" => key: Vec<Box<G12>>,
}}
st! { #[xml(ns("urn:b"), force_prefix, rename_all = "snake_case")] Struct G49 = "G49" in "urn:b", {
     Elem "G23" in "" => first_name: Box<Vec<G23>>,
     Elem "" in "" => data: Vec<G31>,
}}
st! { #[xml(rename_all = "kebab-case", ns("urn:a", a = "urn:c"))] Struct G50 = "G50" in "urn:a", {
     Elem "tag" in "urn:a" => tag: Vec<i16>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "kebab-case")]
pub enum G51 {
    LongLongName,
    X,
}
model_cases!(G51 in "", { LongLongName = "long-long-name", X = "x" });
st! { #[xml(rename = "Item", rename_all = "SCREAMING-KEBAB-CASE")] Struct G52 = "Item" in "", {
    #[xml(rename = "g-1", attribute)] Attr "g-1" in "" => kind: Option<String>,
     Elem "" in "" => x: Box<Vec<G31>>,
    #[xml(rename = "v", ns("urn:p"))] Elem "v" in "urn:p" => list_of_things: Option<DateTime<Utc>>,
    #[xml(rename = "Name", ns(""))] Elem "Name" in "" => key: Option<Box<u32>>,
    #[xml(attribute)] Attr "FIRST-NAME" in "" => first_name: Option<i64>,
    #[xml(direct)] Direct "text" in "" => text: Cow<'static, str>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum G53 {
    V = 255,
    Other = 1,
    X = 10,
    LongLongName = 4294967295,
}
model_cases!(G53 in "", { V = "255", Other = "1", X = "10", LongLongName = "4294967295" });
st! { #[xml(ns(Z, a = P))] Struct G54 = "G54" in "urn:z", {
     Elem "G37" in "" => key: Vec<Box<G37>>,
     Elem "" in "" => kind: G28,
     Elem "G24" in "urn:c" => data: G24,
}}
st! { #[xml(ns(Z, a = A, b = "urn:a"), force_prefix, rename = "ü", rename_all = "snake_case")] Struct G55 = "ü" in "urn:z", {
     Elem "G5" in "urn:c" => name: Vec<G5>,
    #[xml(rename = "Name", attribute)] Attr "Name" in "" => node: Option<u8>,
    #[xml(rename = "ü")] Elem "ü" in "" => other: Vec<G53>,
    #[xml(attribute)] Attr "text" in "" => text: Option<Cow<'static, str>>,
     Elem "id" in "urn:z" => id: f64,
    #[xml(ns(A), rename = "ü", attribute)] Attr "ü" in "urn:a" => field: Option<usize>,
}}
fwd! { G56 { V0: G14 } }
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(ns(C, x-y = C))]
pub struct G57(Box<G50>);
model_tuple!(G57 = "G57" in "urn:c", (0: Box<G50>));
fwd! { G58 { V0: G6, V1: G12, V2: G43 } }
st! { #[xml(rename_all = "lowercase", ns("urn:q", a = A, q = "urn:b"))] Struct G59 = "G59" in "urn:q", {
    #[xml(attribute, ns(A))] Attr "field" in "urn:a" => field: G26,
    #[xml(attribute, ns(A))] Attr "b" in "urn:a" => b: Option<f32>,
     Elem "other" in "urn:q" => other: UStr,
     Elem "G7" in "urn:p" => first_name: Vec<Box<G7>>,
    #[xml(ns(C), rename = "g-1")] Elem "g-1" in "urn:c" => item2_go: Box<Vec<Cow<'static, str>>>,
    #[xml(attribute)] Attr "key" in "" => key: Box<Cow<'static, str>>,
     Elem "Item" in "" => node: Vec<Box<G52>>,
}}
st! { #[xml(transparent)] Transparent G60 = "" in "", {
     Elem "v1" in "" => v1: Vec<NaiveDateTime>,
     Elem "Item" in "urn:q" => kind: G42,
}}
st! { #[xml(ns("urn:p", n.s = "urn:q", x-y = Q), rename_all = "UPPERCASE")] Struct G62 = "G62" in "urn:p", {
    #[xml(attribute)] Attr "TEXT" in "" => text: Option<G51>,
    #[xml(attribute)] Attr "ID" in "" => id: Option<Status>,
     Elem "u" in "" => list_of_things: Vec<Box<UElem>>,
     Elem "G40" in "urn:a" => value: Box<Vec<G40>>,
     Elem "" in "" => first_name: Option<Box<G31>>,
    #[xml(rename = "Ns", ns(""))] Elem "Ns" in "" => key: Option<Cow<'static, str>>,
    #[xml(ns(Q), attribute)] Attr "ITEM2_GO" in "urn:q" => item2_go: Option<Box<G32>>,
    #[xml(ns("urn:c"))] Elem "DATA" in "urn:c" => data: Box<Vec<bool>>,
    #[xml(direct)] Direct "x" in "" => x: Cow<'static, str>,
}}
st! { #[xml(ns(P), rename_all = "UPPERCASE")] Struct G63 = "G63" in "urn:p", {
     Elem "x" in "urn:c" => a: Option<Box<G38>>,
     Elem "G63" in "urn:p" => field: Vec<Box<G63>>,
     Elem "N" in "urn:p" => n: Vec<UStr>,
     Elem "" in "" => other: G56,
     Elem "Item" in "urn:q" => tag: Box<Vec<G42>>,
     Elem "FIRST_NAME" in "urn:p" => first_name: Box<Vec<bool>>,
}}
st! { Struct G64 = "G64" in "", {
    #[xml(direct)] Direct "key" in "" => key: DateTime<Utc>,
}}
st! { #[xml(rename_all = "PascalCase", ns("", p = "urn:q"))] Struct G65 = "G65" in "", {
    #[xml(rename = "Item")] Elem "Item" in "" => list_of_things: Box<Vec<u32>>,
    #[xml(ns(Q), attribute, rename = "_tag")] Attr "_tag" in "urn:q" => x: Option<u8>,
    #[xml(ns("urn:a"))] Elem "B" in "urn:a" => b: Cow<'static, str>,
    #[xml(attribute)] Attr "A" in "" => a: G51,
     Elem "Value" in "" => value: Kebab,
    #[xml(attribute)] Attr "Id" in "" => id: Option<G20>,
    #[xml(direct)] Direct "key" in "" => key: String,
}}
st! { #[xml(ns("urn:q", n.s = B), force_prefix, rename_all = "PascalCase")] Struct G66 = "G66" in "urn:q", {
     Elem "G57" in "urn:c" => first_name: G57,
     Elem "Item" in "" => a: Vec<G52>,
    #[xml(rename = "Name", attribute)] Attr "Name" in "" => v1: i8,
    #[xml(rename = "Node.2")] Elem "Node.2" in "urn:q" => other: Vec<u32>,
    #[xml(attribute, rename = "Name", ns(B))] Attr "Name" in "urn:b" => n: Option<u32>,
     Elem "G50" in "urn:a" => node: Vec<G50>,
}}
st! { #[xml(rename = "type", ns("urn:p", b = "urn:a"))] Struct G67 = "type" in "urn:p", {
     Elem "G62" in "urn:p" => other: G62,
     Elem "" in "" => a: Option<G30>,
    #[xml(rename = "Item")] Elem "Item" in "urn:p" => text: Option<NaiveDate>,
     Elem "" in "" => x: Box<G28>,
     Elem "G2" in "urn:c" => list_of_things: G2,
}}
st! { #[xml(rename_all = "PascalCase")] Struct G68 = "G68" in "", {
     Elem "G68" in "" => name: Option<Box<G68>>,
     Elem "" in "" => kind: Vec<G39>,
    #[xml(rename = "Node.2", attribute)] Attr "Node.2" in "" => first_name: Box<String>,
     Elem "G41" in "" => other: Box<Vec<G41>>,
    #[xml(direct)] Direct "n" in "" => n: Option<String>,
}}
st! { #[xml(transparent, rename_all = "UPPERCASE")] Transparent G69 = "" in "", {
     Elem "G50" in "urn:a" => name: Option<G50>,
     Elem "" in "" => v1: G60,
}}
st! { #[xml(ns("urn:p", p = A, b = "urn:c"))] Struct G70 = "G70" in "urn:p", {
    #[xml(rename = "data", attribute)] Attr "data" in "" => field: Option<NaiveDate>,
     Elem "G70" in "urn:p" => name: Option<Box<G70>>,
     Elem "v1" in "urn:p" => v1: Option<UStr>,
     Elem "kind" in "urn:p" => kind: u32,
    #[xml(ns("urn:c"))] Elem "b" in "urn:c" => b: Vec<Cow<'static, str>>,
}}
st! { Struct G71 = "G71" in "", {
    #[xml(attribute)] Attr "other" in "" => other: Option<G20>,
    #[xml(rename = "v", ns(""))] Elem "v" in "" => n: Vec<String>,
}}
fwd! { G72 { V0: G42, V1: Box<G41>, V2: Box<G66>, V3: G50 } }
fwd! { G73 { V0: G40, V2: G39, V4: G65 } }
st! { #[xml(rename = "_tag", ns(C), rename_all = "snake_case")] Struct G74 = "_tag" in "urn:c", {
    #[xml(rename = "_tag", ns("urn:p"))] Elem "_tag" in "urn:p" => v1: Option<NaiveDateTime>,
     Elem "G66" in "urn:q" => n: Option<G66>,
     Elem "G50" in "urn:a" => other: Vec<G50>,
    #[xml(ns("urn:b"))] Elem "first_name" in "urn:b" => first_name: Vec<u32>,
}}
st! { #[xml(transparent)] Transparent G75 = "" in "", {
     Elem "" in "" => value: Option<Box<G72>>,
     Elem "other" in "" => other: Vec<G32>,
    #[xml(rename = "leaf")] Elem "leaf" in "" => node: Vec<String>,
}}
st! { #[xml(rename = "data", rename_all = "camelCase")] Struct G76 = "data" in "", {
    #[xml(rename = "type", attribute)] Attr "type" in "" => tag: String,
    #[xml(attribute)] Attr "field" in "" => field: Option<String>,
     Elem "G68" in "" => list_of_things: Box<G68>,
    #[xml(attribute)] Attr "text" in "" => text: Box<f64>,
     Elem "_tag" in "urn:c" => value: Vec<G74>,
     Elem "G64" in "" => item2_go: Option<G64>,
     Elem "G66" in "urn:q" => kind: G66,
}}
st! { #[xml(ns("urn:c", p = "urn:p"), rename_all = "UPPERCASE")] Struct G78 = "G78" in "urn:c", {
     Elem "G64" in "" => node: Option<G64>,
    #[xml(attribute)] Attr "TEXT" in "" => text: i8,
     Elem "" in "" => key: Box<G47>,
    #[xml(ns("urn:a"))] Elem "X" in "urn:a" => x: Box<Vec<IpAddr>>,
     Elem "" in "" => b: Option<G72>,
    #[xml(attribute)] Attr "DATA" in "" => data: Option<Box<f64>>,
    #[xml(attribute, ns(P), rename = "v")] Attr "v" in "urn:p" => n: Cow<'static, str>,
    #[xml(direct)] Direct "v1" in "" => v1: String,
}}
st! { Struct G79 = "G79" in "", {
     Elem "other" in "" => other: Box<Vec<u32>>,
    #[xml(rename = "g-1")] Elem "g-1" in "" => key: Option<Cow<'static, str>>,
    #[xml(ns(C))] Elem "node" in "urn:c" => node: Box<u32>,
    #[xml(ns("urn:b"))] Elem "v1" in "urn:b" => v1: Vec<Cow<'static, str>>,
    #[xml(ns(""))] Elem "x" in "" => x: Vec<String>,
     Elem "Item" in "urn:q" => b: Option<G42>,
}}
st! { #[xml(rename_all = "lowercase", ns(P))] Struct G80 = "G80" in "urn:p", {
    #[xml(attribute)] Attr "key" in "" => key: i8,
     Elem "Item" in "" => list_of_things: Box<G52>,
    #[xml(ns(A))] Elem "x" in "urn:a" => x: Box<String>,
     Elem "_tag" in "urn:c" => first_name: Option<G74>,
     Elem "" in "" => long_long_name: G72,
    #[xml(ns("urn:z"))] Elem "value" in "urn:z" => value: Option<f64>,
     Elem "G64" in "" => text: Vec<G64>,
    #[xml(direct)] Direct "other" in "" => other: Cow<'static, str>,
}}
st! { #[xml(rename_all = "camelCase", rename = "Item", ns(A))] Struct G81 = "Item" in "urn:a", {
     Elem "ü" in "urn:z" => name: Vec<G55>,
     Elem "G3" in "urn:c" => id: Vec<G3>,
}}
fwd! { G82 { V0: Box<G76>, V1: G65, V2: Box<G29>, V3: G41 } }
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum G83 {
    Other = 10,
    FirstCase = 4294967295,
    LongLongName = 2,
}
model_cases!(G83 in "", { Other = "10", FirstCase = "4294967295", LongLongName = "2" });
st! { #[xml(rename = "leaf")] Struct G84 = "leaf" in "", {
    #[xml(attribute)] Attr "name" in "" => name: Cow<'static, str>,
    #[xml(rename = "ü", attribute)] Attr "ü" in "" => a: Option<NaiveDate>,
    #[xml(attribute, rename = "type")] Attr "type" in "" => data: Box<bool>,
}}
st! { #[xml(rename_all = "kebab-case", ns("urn:p", a = "urn:a", q = "urn:q"))] Struct G85 = "G85" in "urn:p", {
     Elem "G85" in "urn:p" => item2_go: Option<Box<G85>>,
    #[xml(ns(Z))] Elem "v1" in "urn:z" => v1: Box<f32>,
     Elem "leaf" in "" => id: Option<G84>,
    #[xml(ns("urn:c"))] Elem "name" in "urn:c" => name: Option<i8>,
    #[xml(rename = "data")] Elem "data" in "" => first_name: Vec<Kebab>,
     Elem "" in "" => field: G58,
    #[xml(attribute)] Attr "other" in "" => other: Option<usize>,
     Elem "u" in "" => value: Option<UElem>,
}}
st! { #[xml(rename = "v")] Struct G86 = "v" in "", {
     Elem "G62" in "urn:p" => kind: Option<G62>,
     Elem "tag" in "" => tag: Vec<Cow<'static, str>>,
     Elem "G59" in "urn:q" => first_name: Vec<G59>,
    #[xml(attribute)] Attr "x" in "" => x: Option<Cow<'static, str>>,
     Elem "" in "" => key: Box<G69>,
    #[xml(ns(""))] Elem "other" in "" => other: String,
    #[xml(attribute)] Attr "v1" in "" => v1: Cow<'static, str>,
     Elem "G64" in "" => long_long_name: Option<G64>,
    #[xml(attribute)] Attr "a" in "" => a: u32,
    #[xml(direct)] Direct "text" in "" => text: String,
}}
st! { #[xml(ns("urn:z"), rename_all = "lowercase")] Struct G87 = "G87" in "urn:z", {
     Elem "G14" in "urn:b" => item2_go: G14,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "SCREAMING_SNAKE_CASE")]
pub enum G88 {
    Other,
    LongLongName,
    V,
    #[xml(rename = "a&b")]
    FirstCase,
}
model_cases!(G88 in "", { Other = "OTHER", LongLongName = "LONG_LONG_NAME", V = "V", FirstCase = "a&b" });
st! { #[xml(ns("urn:p", q = A, a = "urn:q", x-y = P), rename_all = "SCREAMING_SNAKE_CASE")] Struct G89 = "G89" in "urn:p", {
     Elem "Name" in "urn:a" => n: Box<Vec<G16>>,
     Elem "G87" in "urn:z" => data: Option<G87>,
     Elem "A" in "urn:p" => a: Cow<'static, str>,
     Elem "G68" in "" => value: Box<Vec<G68>>,
}}
fwd! { G90 { V0: Box<G29> } }
st! { #[xml(rename = "ü", ns(A, p = Q))] Struct G91 = "ü" in "urn:a", {
     Elem "" in "" => node: Vec<G72>,
    #[xml(rename = "Ns", ns("urn:a"))] Elem "Ns" in "urn:a" => x: Option<Box<Cow<'static, str>>>,
    #[xml(attribute)] Attr "a" in "" => a: Cow<'static, str>,
     Elem "item2_go" in "urn:a" => item2_go: Option<f32>,
    #[xml(rename = "x")] Elem "x" in "urn:a" => field: Option<f32>,
    #[xml(ns(B))] Elem "list_of_things" in "urn:b" => list_of_things: Box<bool>,
    #[xml(direct)] Direct "value" in "" => value: String,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(rename = "Node.2", ns(Q))]
pub struct G92(Box<G40>);
model_tuple!(G92 = "Node.2" in "urn:q", (0: Box<G40>));
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(rename_all = "SCREAMING-KEBAB-CASE", ns(C), force_prefix)]
pub struct G93;
model_unit!(G93 = "G93" in "urn:c");
st! { #[xml(rename_all = "lowercase", rename = "g-1")] Struct G94 = "g-1" in "", {
    #[xml(attribute, rename = "v")] Attr "v" in "" => v1: Cow<'static, str>,
    #[xml(attribute)] Attr "n" in "" => n: String,
    #[xml(attribute)] Attr "name" in "" => name: Box<String>,
}}
st! { #[xml(rename = "x", rename_all = "UPPERCASE", ns("urn:c", x-y = "urn:c"))] Struct G95 = "x" in "urn:c", {
    #[xml(rename = "Name")] Elem "Name" in "urn:c" => b: Vec<Box<f64>>,
     Elem "v" in "urn:a" => field: Box<Vec<G8>>,
     Elem "KEY" in "" => key: Vec<G26>,
     Elem "G85" in "urn:p" => x: G85,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "PascalCase")]
pub enum G96 {
    Item2Go,
    LongLongName,
    #[xml(rename = "<")]
    FirstCase,
    V,
}
model_cases!(G96 in "", { Item2Go = "Item2Go", LongLongName = "LongLongName", FirstCase = "<", V = "V" });
st! { #[xml(rename_all = "UPPERCASE", rename = "x")] Struct G97 = "x" in "", {
     Elem "" in "" => n: Box<G58>,
    #[xml(ns(""), rename = "_tag")] Elem "_tag" in "" => long_long_name: Vec<i8>,
     Elem "G79" in "" => item2_go: Option<G79>,
     Elem "G71" in "" => field: Option<G71>,
    #[xml(direct)] Direct "id" in "" => id: String,
}}
st! { #[xml(rename_all = "PascalCase")] Struct G98 = "G98" in "", {
     Elem "G98" in "" => key: Vec<Box<G98>>,
     Elem "G71" in "" => other: Vec<G71>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar)]
pub enum G99 {
    V,
    #[xml(rename = "a&b")]
    X,
    Other,
    #[xml(rename = "ü-4")]
    Item2Go,
}
model_cases!(G99 in "", { V = "V", X = "a&b", Other = "Other", Item2Go = "ü-4" });
st! { #[xml(ns(Z, q = Z, a = "urn:b"), rename_all = "PascalCase")] Struct G100 = "G100" in "urn:z", {
     Elem "B" in "urn:z" => b: f64,
     Elem "" in "" => id: Box<G30>,
     Elem "u" in "" => long_long_name: Vec<UElem>,
    #[xml(attribute, ns(B), rename = "Item")] Attr "Item" in "urn:b" => value: Option<G32>,
    #[xml(ns(Z), attribute)] Attr "Key" in "urn:z" => key: f32,
    #[xml(rename = "x")] Elem "x" in "urn:z" => first_name: Option<i16>,
}}
st! { #[xml(rename_all = "snake_case", ns("urn:z", b = "urn:p"))] Struct G101 = "G101" in "urn:z", {
     Elem "kind" in "urn:z" => kind: Box<Vec<u32>>,
     Elem "G101" in "urn:z" => n: Vec<G101>,
     Elem "G27" in "urn:z" => other: Option<G27>,
}}
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE")] Struct G102 = "G102" in "", {
    #[xml(attribute)] Attr "TEXT" in "" => text: Option<Cow<'static, str>>,
    #[xml(rename = "g-1", attribute)] Attr "g-1" in "" => id: Cow<'static, str>,
    #[xml(rename = "Node.2", attribute)] Attr "Node.2" in "" => item2_go: Option<Box<u8>>,
    #[xml(direct)] Direct "value" in "" => value: Option<IpAddr>,
}}
st! { #[xml(rename = "_tag", rename_all = "SCREAMING-KEBAB-CASE")] Struct G103 = "_tag" in "", {
     Elem "" in "" => b: Box<G60>,
     Elem "NAME" in "" => name: Box<IpAddr>,
}}
st! { #[xml(rename = "type", ns("", a = "urn:c"), rename_all = "camelCase")] Struct G104 = "type" in "", {
    #[xml(ns(C), attribute)] Attr "v1" in "urn:c" => v1: G83,
    #[xml(attribute)] Attr "firstName" in "" => first_name: Option<Box<bool>>,
     Elem "G54" in "urn:z" => tag: Vec<G54>,
     Elem "G85" in "urn:p" => long_long_name: Vec<G85>,
     Elem "" in "" => key: Option<G72>,
    #[xml(ns(C), attribute)] Attr "listOfThings" in "urn:c" => list_of_things: Option<String>,
    #[xml(ns(""), rename = "Node.2")] Elem "Node.2" in "" => n: Option<String>,
    #[xml(rename = "v")] Elem "v" in "" => b: Vec<Box<G53>>,
     Elem "item2Go" in "" => item2_go: Vec<bool>,
}}
st! { #[xml(transparent)] Transparent G105 = "" in "", {
     Elem "node" in "" => node: G32,
     Elem "G62" in "urn:p" => data: Vec<Box<G62>>,
     Elem "G70" in "urn:p" => key: Option<Box<G70>>,
}}
st! { #[xml(transparent)] Transparent G106 = "" in "", {
     Elem "text" in "" => text: Vec<Status>,
     Elem "" in "" => kind: Vec<Box<G90>>,
     Elem "key" in "" => key: Box<IpAddr>,
     Elem "type" in "" => list_of_things: Option<G104>,
}}
fwd! { G107 { V0: Box<G30>, V1: G79, V2: G91, V3: Box<G65>, V4: G43 } }
st! { #[xml(rename_all = "camelCase")] Struct G108 = "G108" in "", {
    #[xml(ns(""), rename = "leaf")] Elem "leaf" in "" => long_long_name: i64,
    #[xml(attribute)] Attr "v1" in "" => v1: Option<f32>,
     Elem "u" in "" => field: UElem,
     Elem "G108" in "" => value: Option<Box<G108>>,
    #[xml(attribute)] Attr "key" in "" => key: Option<u32>,
    #[xml(rename = "ü", attribute)] Attr "ü" in "" => first_name: Box<G83>,
    #[xml(direct)] Direct "text" in "" => text: String,
}}
st! { #[xml(rename_all = "kebab-case", ns(P, n.s = Q, a = B))] Struct G109 = "G109" in "urn:p", {
    #[xml(rename = "Node.2")] Elem "Node.2" in "urn:p" => long_long_name: usize,
    #[xml(rename = "type", attribute)] Attr "type" in "" => v1: char,
    #[xml(attribute)] Attr "name" in "" => name: Box<String>,
     Elem "G3" in "urn:c" => first_name: Option<G3>,
}}
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE")] Struct G111 = "G111" in "", {
    #[xml(rename = "data")] Elem "data" in "" => item2_go: Box<Vec<f64>>,
}}
st! { #[xml(ns("urn:a", p = B))] Struct G112 = "G112" in "urn:a", {
    #[xml(attribute)] Attr "b" in "" => b: DateTime<Utc>,
     Elem "leaf" in "" => tag: G84,
    #[xml(attribute, ns(B))] Attr "other" in "urn:b" => other: Option<Box<u32>>,
}}
st! { #[xml(transparent, rename_all = "UPPERCASE")] Transparent G113 = "" in "", {
     Elem "" in "" => kind: Box<Vec<G58>>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
#[xml(scalar, rename_all = "snake_case")]
pub enum G114 {
    FirstCase,
    V,
}
model_cases!(G114 in "", { FirstCase = "first_case", V = "v" });
st! { #[xml(rename_all = "kebab-case", ns("urn:z", _u = "urn:p"), rename = "Name")] Struct G115 = "Name" in "urn:z", {
    #[xml(ns(P), attribute)] Attr "a" in "urn:p" => a: Box<String>,
    #[xml(rename = "Ns")] Elem "Ns" in "urn:z" => n: Option<Box<usize>>,
     Elem "text" in "" => text: Box<G20>,
     Elem "data" in "urn:a" => kind: G0,
    #[xml(direct)] Direct "first_name" in "" => first_name: Option<String>,
}}
st! { #[xml(ns("urn:q", a = "urn:b"), force_prefix, rename_all = "snake_case")] Struct G116 = "G116" in "urn:q", {
     Elem "u" in "" => name: Option<UElem>,
     Elem "g-1" in "" => tag: Box<G94>,
     Elem "G24" in "urn:c" => long_long_name: Box<G24>,
}}
st! { #[xml(rename_all = "SCREAMING_SNAKE_CASE", ns("urn:a", n.s = Z, q = "urn:c"), force_prefix)] Struct G117 = "G117" in "urn:a", {
    #[xml(rename = "x", ns(Z), attribute)] Attr "x" in "urn:z" => name: Option<Box<Cow<'static, str>>>,
     Elem "x" in "" => kind: Box<Vec<G97>>,
     Elem "OTHER" in "urn:a" => other: Option<Box<usize>>,
     Elem "_tag" in "" => value: G103,
    #[xml(attribute)] Attr "LIST_OF_THINGS" in "" => list_of_things: Box<String>,
     Elem "G108" in "" => item2_go: Vec<G108>,
     Elem "A" in "urn:a" => a: Option<UStr>,
    #[xml(ns(Z), attribute)] Attr "TAG" in "urn:z" => tag: Option<Box<G99>>,
}}
#[derive(Clone, Debug, FromXml, ToXml)]
pub struct G118(i16, G73);
model_tuple!(G118 = "G118" in "", (0: i16, 1: G73));
fwd! { G119 { V0: G72, V1: G90, V2: G14, V3: Box<G37> } }

pub fn generated() -> Vec<Shape> {
    vec![
        shape!(rw "generated G68", G68, false),
        shape!(rw "generated G70", G70, true),
        shape!(rw "generated G71", G71, false),
        shape!(rw "generated G72", G72, false),
        shape!(rw "generated G73", G73, false),
        shape!(rw "generated G74", G74, false),
        shape!(rw "generated G76", G76, false),
        shape!(rw "generated G78", G78, false),
        shape!(rw "generated G79", G79, false),
        shape!(rw "generated G80", G80, false),
        shape!(rw "generated G81", G81, true),
        shape!(rw "generated G82", G82, false),
        shape!(rw "generated G84", G84, false),
        shape!(rw "generated G85", G85, true),
        shape!(rw "generated G86", G86, true),
        shape!(rw "generated G87", G87, false),
        shape!(rw "generated G89", G89, true),
        shape!(rw "generated G90", G90, false),
        shape!(rw "generated G91", G91, false),
        shape!(rw "generated G92", G92, false),
        shape!(rw "generated G93", G93, false),
        shape!(rw "generated G94", G94, false),
        shape!(rw "generated G95", G95, true),
        shape!(rw "generated G97", G97, false),
        shape!(rw "generated G98", G98, false),
        shape!(rw "generated G100", G100, true),
        shape!(rw "generated G101", G101, false),
        shape!(rw "generated G102", G102, false),
        shape!(rw "generated G103", G103, false),
        shape!(rw "generated G104", G104, true),
        shape!(rw "generated G107", G107, false),
        shape!(rw "generated G108", G108, true),
        shape!(rw "generated G109", G109, false),
        shape!(rw "generated G111", G111, false),
        shape!(rw "generated G112", G112, false),
        shape!(rw "generated G115", G115, false),
        shape!(rw "generated G116", G116, true),
        shape!(rw "generated G117", G117, true),
        shape!(rw "generated G118", G118, false),
        shape!(rw "generated G119", G119, false),
    ]
}
