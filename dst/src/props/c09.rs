//! C09: damaged documents against a strict independent reader.

use super::*;
use crate::model::Fail;
use crate::sim::Violation;
use crate::xml::{self, Style, Verdict};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C09",
    quick: 1_000_000,
    thorough: 40_000_000,
    run,
    rule: "distinct damaged inputs",
    simulated: "a channel that loses, duplicates, flips, exchanges and inserts characters, names, references, declarations and tags",
    real: REAL,
    stub: "channel (simulated), reference XML reader (the oracle)",
    assumptions: &[
        "input outside the reference reader's strict subset of XML is left open (counted as a probe)",
        "typed reading does not resolve prefixes of attributes and elements it has no use for",
        "for an undeclared prefix on the root element only typed and generic reading have to refuse (pulling does not resolve it)",
    ],
};

fn run(env: &Env, src: &mut Src) -> Check {
    let kind = src.below(5);
    let shape = match kind {
        1..=2 => env.scalars(src),
        _ if src.chance(1, 2) => env.named("generic element"),
        _ => env.any(src),
    };
    let ty = shape.ty();
    let gen = Gen {
        depth: 1 + src.below(4),
        poison: false,
        list: 2,
        ..Gen::default()
    }
    .vary(src);
    let v = model::gen(src, &ty, gen);
    let tree = model::document(&ty, &v);
    let style = Style::gen(src);
    let doc = xml::encode(src, &style, &tree);
    let donor = match src.chance(1, 2) {
        true => doc.clone(),
        false => {
            let t = model::gen_tree(src, 2, Gen::default());
            xml::encode(src, &style, &t)
        }
    };
    let input = match kind {
        0 => damage(src, &doc, &donor),
        1..=2 => {
            let mut t = tree;
            spoil(src, &mut t);
            xml::encode(src, &style, &t)
        }
        _ => aimed(src, &doc, &donor),
    };
    src.fp(input.as_bytes());
    src.stats.bytes += input.len() as u64;
    let verdict = xml::parse(&input);
    src.note(|| format!("{input:?}: {verdict:?}"));
    check(src, &input, &verdict)?;
    typed(src, shape, &input, &verdict)?;
    src.case();
    Ok(())
}

fn check(src: &mut Src, input: &str, verdict: &Verdict) -> Check {
    let captured = no_panic!("capture", any_owned(input));
    let pulled = no_panic!("pull", pull(input, None));
    src.stats.steps += pulled.steps as u64;
    match verdict {
        Verdict::Open(why) => src.stats.probe(why),
        Verdict::Reject(why) => {
            src.stats.probe(why);
            if let Ok(t) = captured {
                bail!(
                    format!("accepted: {why}"),
                    "{input:?} captured as {}",
                    short(&t)
                );
            }
            match pulled.out {
                Pull::Err(_) => {}
                _ if *why == "undeclared root prefix" => {}
                got => bail!(
                    format!("accepted: {why}"),
                    "{input:?} pulled as {}",
                    short(&got)
                ),
            }
        }
        Verdict::Tree(t) => {
            match captured {
                Ok(got) if model::same_tree(t, &got) => src.stats.probe("accepted as received"),
                // Refusing is always allowed here; undamaged documents are C08's
                Err(_) => src.stats.probe("well-formed but refused"),
                Ok(got) => bail!(
                    "reinterpreted",
                    "{input:?} captured as {} instead of {}",
                    short(&got),
                    short(t)
                ),
            }
            match pulled.out {
                Pull::Tree(got) if got == *t => {}
                Pull::Err(_) => {}
                got => bail!(
                    "reinterpreted",
                    "{input:?} pulled as {} instead of {}",
                    short(&got),
                    short(t)
                ),
            }
            if src.chance(1, 3) {
                no_panic!("pull", scopes(input))?;
            }
        }
    }
    Ok(())
}

/// What the reader says prefixes stand for, before and after every element
fn scopes(input: &str) -> Check {
    let scopes = xml::scopes(input);
    let mut prefixes = vec!["xml", "xmlns", "p", "undeclared"];
    for (p, _) in scopes.iter().flat_map(|s| &s.prefixes) {
        if !prefixes.contains(&p.as_str()) {
            prefixes.push(p);
        }
    }
    let Ok(mut d) = Deserializer::new(input) else {
        return Ok(());
    };
    let mut at = 0;
    visible(&mut d, &scopes, &prefixes, &mut at, input).map(drop)
}

/// False once the reader refused the document
fn visible(
    d: &mut Deserializer<'_, '_>,
    scopes: &[xml::Scope],
    prefixes: &[&str],
    at: &mut usize,
    input: &str,
) -> Result<bool, Violation> {
    let me = *at;
    *at += 1;
    let Some(scope) = scopes.get(me) else {
        bail!("reinterpreted", "more elements than received: {input:?}");
    };
    let own = d.parent();
    loop {
        for p in prefixes {
            if d.namespace(p) != scope.get(p) {
                bail!(
                    "wrong declaration in effect",
                    "{p:?} stands for {:?} instead of {:?} in element {me} of {input:?}",
                    d.namespace(p),
                    scope.get(p)
                );
            }
        }
        loop {
            match d.next() {
                None => return Ok(true),
                Some(Err(_)) => return Ok(false),
                Some(Ok(Node::Open(e))) => {
                    let id = d.element_id(&e).ok();
                    let mut nested = d.nested(e);
                    if id.is_some_and(|id| id != nested.parent()) {
                        bail!(
                            "wrong owner",
                            "{:?} for {id:?} in {input:?}",
                            nested.parent()
                        );
                    }
                    if !visible(&mut nested, scopes, prefixes, at, input)? {
                        return Ok(false);
                    }
                    break;
                }
                Some(Ok(node)) => {
                    // What user types for attributes and texts get to see
                    let one = d.for_node(node).parent();
                    if one != own {
                        bail!("wrong owner", "{one:?} for {own:?} in {input:?}");
                    }
                }
            }
        }
    }
}

/// The type itself: what it accepts, it reads as the characters say.
fn typed(src: &mut Src, shape: &Shape, input: &str, verdict: &Verdict) -> Check {
    let got = no_panic!("read", (shape.read)(input));
    let Ok(got) = got else { return Ok(()) };
    match verdict {
        Verdict::Open(_) => {}
        // Only names that are looked at are resolved
        Verdict::Reject("undeclared element prefix" | "undeclared attribute prefix") => src
            .stats
            .probe("undeclared prefix in a part the type skips"),
        Verdict::Reject(why) => bail!(
            format!("accepted: {why}"),
            "{}: {input:?} read as {}",
            shape.name,
            short(&got)
        ),
        Verdict::Tree(t) => match model::read(&shape.ty(), t) {
            Err(Fail::Open(why)) => src.stats.probe(why),
            Ok(want) if model::same_unordered(&want, &got) => {
                src.stats.probe("typed read as received")
            }
            want => bail!(
                "reinterpreted",
                "{}: {input:?} read as {}, reference {}",
                shape.name,
                short(&got),
                short(&want)
            ),
        },
    }
    Ok(())
}

/// Damage at places where a careless reader would not notice.
fn aimed(src: &mut Src, doc: &str, donor: &str) -> String {
    let tags = tags(doc);
    let pick = |src: &mut Src, f: &dyn Fn(&str) -> bool| {
        let some: Vec<(usize, usize)> = tags
            .iter()
            .copied()
            .filter(|(a, b)| f(&doc[*a..*b]))
            .collect();
        match some.is_empty() {
            true => None,
            false => Some(*src.pick(&some)),
        }
    };
    let replace = |a: usize, b: usize, with: &str| format!("{}{with}{}", &doc[..a], &doc[b..]);
    let kind = src.below(12);
    let found = match kind {
        // One closing tag replaced by another name of the document
        0 | 1 => pick(src, &|t| t.starts_with("</")).map(|(a, b)| {
            let (c, d) = *src.pick(&tags);
            let name = name_of(&doc[c..d]).to_owned();
            let name = match src.below(4) {
                0 => name_of(&doc[a..b])
                    .rsplit(':')
                    .next()
                    .unwrap_or("")
                    .to_owned(),
                1 => format!("p:{}", name_of(&doc[a..b])),
                2 => name_of(&doc[a..b]).to_uppercase(),
                _ => name,
            };
            src.fault("closing tag renamed");
            replace(a, b, &format!("</{name}>"))
        }),
        // Crossed closing tags
        2 => {
            let closing: Vec<(usize, usize)> = tags
                .iter()
                .copied()
                .filter(|(a, b)| doc[*a..*b].starts_with("</"))
                .collect();
            match closing.len() > 1 {
                true => {
                    let i = src.below(closing.len() - 1);
                    let ((a, b), (c, d)) = (closing[i], closing[i + 1]);
                    src.fault("closing tags crossed");
                    Some(format!(
                        "{}{}{}{}{}",
                        &doc[..a],
                        &doc[c..d],
                        &doc[b..c],
                        &doc[a..b],
                        &doc[d..]
                    ))
                }
                false => None,
            }
        }
        // A tag lost
        3 => match tags.is_empty() {
            true => None,
            false => {
                let (a, b) = *src.pick(&tags);
                src.fault("tag lost");
                Some(replace(a, b, ""))
            }
        },
        // A declaration lost or its prefix or name changed
        4 | 5 => {
            let decls: Vec<usize> = doc.match_indices("xmlns").map(|(i, _)| i).collect();
            match decls.is_empty() {
                true => None,
                false => {
                    let at = *src.pick(&decls);
                    let end = doc[at..]
                        .find(['=', ' ', '\t', '\n', '\r'])
                        .map_or(doc.len(), |i| at + i);
                    let with = *src.pick(&[
                        "x", "xmlns", "xmlns:p", "xmlns:q", "xmlns:zz", "xmln", "xml:ns", "n:s",
                    ]);
                    src.fault("declaration damaged");
                    Some(replace(at, end, with))
                }
            }
        }
        // A prefix changed in one tag
        6 => pick(src, &|t| t.contains(':')).map(|(a, b)| {
            let colons: Vec<usize> = doc[a..b].match_indices(':').map(|(i, _)| a + i).collect();
            let at = *src.pick(&colons);
            let start = doc[..at]
                .rfind(|c: char| !(c.is_alphanumeric() || "-._".contains(c)))
                .map_or(0, |i| i + doc[i..].chars().next().map_or(1, char::len_utf8));
            src.fault("prefix damaged");
            let with = *src.pick(&["", "p", "q", "zz", "xml", "a", "n0", "n1"]);
            match with.is_empty() {
                true => replace(start, at + 1, ""),
                false => replace(start, at, with),
            }
        }),
        // A prefix added to a tag
        7 => pick(src, &|_| true).map(|(a, b)| {
            let skip = match doc[a..b].starts_with("</") {
                true => 2,
                false => 1,
            };
            src.fault("prefix damaged");
            replace(
                a + skip,
                a + skip,
                src.pick(&["p:", "q:", "xml:", "n0:", "zz:"]),
            )
        }),
        // References
        8 | 9 => {
            let refs: Vec<usize> = doc.match_indices('&').map(|(i, _)| i).collect();
            let with = *src.pick(REFS);
            src.fault("reference damaged");
            match refs.is_empty() || src.chance(1, 4) {
                // Into a text or a value
                true => {
                    let spots: Vec<usize> = doc
                        .char_indices()
                        .filter(|(_, c)| matches!(c, '>' | '"' | '\''))
                        .map(|(i, _)| i + 1)
                        .collect();
                    let at = *src.pick(&spots);
                    Some(replace(at, at, with))
                }
                false => {
                    let at = *src.pick(&refs);
                    let end = doc[at..].find(';').map_or(doc.len(), |i| at + i + 1);
                    Some(replace(at, end, with))
                }
            }
        }
        // Something that does not belong inside the root
        10 => pick(src, &|_| true).map(|(a, b)| {
            let at = *src.pick(&[a, b]);
            src.fault("alien markup inserted");
            replace(
                at,
                at,
                src.pick(&[
                    "<?pi?>",
                    "<?xml version=\"1.0\"?>",
                    "<!DOCTYPE a>",
                    "<!DOCTYPE a [<!ENTITY b \"c\">]>",
                    "<?a b?>",
                    "<!-- x -->",
                    "<![CDATA[<a>]]>",
                    "<!ENTITY a \"b\">",
                ]),
            )
        }),
        // Whole pieces from another document
        _ => pick(src, &|_| true).map(|(a, b)| {
            let other = self::tags(donor);
            let (c, d) = match other.is_empty() {
                true => (0, 0),
                false => *src.pick(&other),
            };
            src.fault("tag of another document");
            match src.chance(1, 2) {
                true => replace(a, b, &donor[c..d]),
                false => replace(b, b, &donor[c..d]),
            }
        }),
    };
    match found {
        Some(s) => s,
        None => damage(src, doc, donor),
    }
}

const REFS: &[&str] = &[
    "&amp",
    "&amp;amp;",
    "&",
    "&;",
    "&#;",
    "&#x;",
    "&lt;",
    "&LT;",
    "&apos;",
    "&apo;",
    "&quot;",
    "&quo;",
    "&gt",
    "& gt;",
    "&nbsp;",
    "&#0;",
    "&#x0;",
    "&#8;",
    "&#x1F;",
    "&#xD800;",
    "&#xDFFF;",
    "&#xFFFE;",
    "&#xFFFF;",
    "&#x110000;",
    "&#1114112;",
    "&#1114111;",
    "&#x10FFFF;",
    "&#65;",
    "&#x41;",
    "&#x4a;",
    "&#x4A;",
    "&#065;",
    "&#x0041;",
    "&#-65;",
    "&#+65;",
    "&#x-41;",
    "&#x+41;",
    "&# 65;",
    "&#65 ;",
    "&#6 5;",
    "&#xg;",
    "&#a;",
    "&#x4g;",
    "&#9;",
    "&#10;",
    "&#13;",
    "&#xE000;",
    "&#x80;",
    "&#4294967361;",
    "&#x100000041;",
    "&#18446744073709551681;",
    "&a;",
    "&ampp;",
    "&am;",
    "&lt&gt;",
    "&amp;lt;",
    "&#38;lt;",
    "&#38;#60;",
    "&é;",
    "&#é;",
];

fn name_of(tag: &str) -> &str {
    let t = tag.trim_start_matches('<').trim_start_matches('/');
    let end = t.find([' ', '\t', '\n', '\r', '>', '/']).unwrap_or(t.len());
    &t[..end]
}

/// Start, end of every tag
fn tags(doc: &str) -> Vec<(usize, usize)> {
    let b = doc.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            i += 1;
            continue;
        }
        let rest = &doc[i..];
        let end = if rest.starts_with("<!--") {
            i = rest.find("-->").map_or(b.len(), |n| i + n + 3);
            continue;
        } else if rest.starts_with("<![CDATA[") {
            i = rest.find("]]>").map_or(b.len(), |n| i + n + 3);
            continue;
        } else if rest.starts_with("<?") {
            i = rest.find("?>").map_or(b.len(), |n| i + n + 2);
            continue;
        } else {
            let mut quote = None;
            let mut end = b.len();
            for (j, c) in b.iter().enumerate().skip(i + 1) {
                match (quote, c) {
                    (None, b'"' | b'\'') => quote = Some(*c),
                    (Some(q), c) if q == *c => quote = None,
                    (None, b'>') => {
                        end = j + 1;
                        break;
                    }
                    _ => {}
                }
            }
            end
        };
        out.push((i, end));
        i = end;
    }
    out
}
