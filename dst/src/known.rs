//! Known findings: genuine defects that were recorded instead of repaired. Each is one specific input
//! with the outcome the property asks for; the check re-examines it on every run.

use chrono::{DateTime, NaiveDate, TimeZone, Utc};
use instant_xml::ser::Context;
use instant_xml::{from_str, to_string, FromXml, Serializer, ToXml};

/// One probe: true while the defect is there.
pub struct Probe {
    pub key: &'static str,
    pub property: &'static str,
    pub fails: fn() -> bool,
}

/// A finding of the committed list.
pub struct Finding {
    pub property: String,
    pub key: String,
    pub text: String,
}

/// Lines `finding: property=<id> key=<key> <text>`; everything else (fixed entries, comments) is
/// for readers only.
pub fn list(path: &str) -> Vec<Finding> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("finding: property=")?;
            let (property, rest) = rest.split_once(" key=")?;
            let (key, text) = rest.split_once(' ')?;
            Some(Finding {
                property: property.to_owned(),
                key: key.to_owned(),
                text: text.to_owned(),
            })
        })
        .collect()
}

// The types of the probes

#[derive(Debug, PartialEq, FromXml, ToXml)]
struct Leaf {
    #[xml(attribute)]
    v: String,
}
fn leaf(v: &str) -> Leaf {
    Leaf { v: v.into() }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns("urn:a?x=1&y=2"))]
struct NsAmp {
    v: String,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct TextLeaf(String, Leaf);
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct TwoText(String, u8);
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct OptLeaf(Option<Leaf>);
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct VecLeaf(Vec<Leaf>);
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct When {
    at: DateTime<Utc>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct BoxOpt {
    v: Box<Option<u8>>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct BoxVec {
    v: Box<Vec<u8>>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
struct Tr {
    a: u8,
    b: u8,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct OptTr {
    t: Option<Tr>,
}

fn context() -> Context<0> {
    let mut c = Context::<0>::default();
    c.default_ns = "urn:a";
    c
}

/// `mid` moves to another default namespace without a context, `inner` wants the outer one
struct NoContext;
impl ToXml for NoContext {
    fn serialize<W: std::fmt::Write + ?Sized>(
        &self,
        _: Option<instant_xml::Id<'_>>,
        s: &mut Serializer<'_, W>,
    ) -> Result<(), instant_xml::Error> {
        let outer = s.write_start("outer", "urn:a", Some(context()))?;
        s.end_start()?;
        let mid = s.write_start::<0>("mid", "urn:b", None)?;
        s.end_start()?;
        s.write_start::<0>("inner", "urn:a", None)?;
        s.end_empty()?;
        s.write_close(mid)?;
        s.write_close(outer)
    }
}

/// An attribute in the element's own default namespace, for which no prefix exists
struct OwnNsAttr;
impl ToXml for OwnNsAttr {
    fn serialize<W: std::fmt::Write + ?Sized>(
        &self,
        _: Option<instant_xml::Id<'_>>,
        s: &mut Serializer<'_, W>,
    ) -> Result<(), instant_xml::Error> {
        s.write_start("outer", "urn:a", Some(context()))?;
        s.write_attr("k", "urn:a", &"v")?;
        s.end_empty()
    }
}

/// Acknowledged, but not read back as the same value
fn lost<T>(v: T) -> bool
where
    T: ToXml + PartialEq + for<'x> FromXml<'x>,
{
    match to_string(&v) {
        Ok(doc) => !matches!(from_str::<T>(&doc), Ok(got) if got == v),
        Err(_) => false,
    }
}

fn year(y: i32) -> DateTime<Utc> {
    let day = NaiveDate::from_ymd_opt(y, 1, 2).expect("harness");
    Utc.from_utc_datetime(&day.and_hms_opt(3, 4, 5).expect("harness"))
}

fn limited(n: usize) -> instant_xml::de::Limits {
    let mut l = instant_xml::de::Limits::default();
    l.max_attributes = n;
    l
}

fn limited_root(doc: &str, n: usize) -> bool {
    instant_xml::Deserializer::new(doc)
        .and_then(|d| {
            d.with_limits(limited(n))
                .deserialize::<instant_xml::AnyElement<'_>>()
        })
        .is_ok()
}

pub const PROBES: &[Probe] = &[
    Probe {
        key: "tuple-empty-text-then-element",
        property: "C01",
        fails: || lost(TextLeaf(String::new(), leaf("x"))),
    },
    Probe {
        key: "tuple-two-texts",
        property: "C01",
        fails: || lost(TwoText("1".into(), 2)),
    },
    Probe {
        key: "tuple-optional-element-absent",
        property: "C01",
        fails: || lost(OptLeaf(None)),
    },
    Probe {
        key: "tuple-list",
        property: "C01",
        fails: || lost(VecLeaf(vec![leaf("a"), leaf("b")])),
    },
    Probe {
        key: "datetime-year-beyond-9999",
        property: "C01",
        fails: || lost(When { at: year(12345) }),
    },
    Probe {
        key: "boxed-option-absent",
        property: "C01",
        fails: || lost(BoxOpt { v: Box::new(None) }),
    },
    Probe {
        key: "boxed-list-of-two",
        property: "C01",
        fails: || {
            lost(BoxVec {
                v: Box::new(vec![1, 2]),
            })
        },
    },
    Probe {
        key: "limits-of-the-root-tag",
        property: "C05",
        fails: || {
            let many: String = (0..100).map(|i| format!(" a{i}='1'")).collect();
            limited_root("<a b='1' c='2'/>", 1) || !limited_root(&format!("<a{many}/>"), 200)
        },
    },
    Probe {
        key: "optional-transparent-partly-lost",
        property: "C07",
        fails: || from_str::<OptTr>("<OptTr><a>1</a></OptTr>").is_ok(),
    },
    Probe {
        key: "reference-in-namespace-declaration",
        property: "C08",
        fails: || from_str::<NsAmp>("<NsAmp xmlns=\"urn:a?x=1&amp;y=2\"><v>x</v></NsAmp>").is_err(),
    },
    Probe {
        key: "namespace-needing-escapes",
        property: "C11",
        fails: || {
            let v = NsAmp { v: "x".into() };
            to_string(&v).is_ok_and(|s| s.contains("x=1&y=2"))
        },
    },
    Probe {
        key: "child-of-an-element-started-without-context",
        property: "C11",
        fails: || {
            to_string(&NoContext)
                .is_ok_and(|s| s.contains("<inner") && !s.contains("<inner xmlns=\"urn:a\""))
        },
    },
    Probe {
        key: "attribute-in-the-default-namespace",
        property: "C11",
        fails: || to_string(&OwnNsAttr).is_ok_and(|s| s.contains(" k=")),
    },
];
