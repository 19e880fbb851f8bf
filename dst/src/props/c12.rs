//! C12: user conversions failing at every invocation.

use super::*;
use crate::bail;
use crate::hooks::{self, Act};
use crate::model::{DefKind, Sc, Ty};
use crate::xml::{self, Style};

pub const PROP: Prop = Prop {
    id: "C12",
    quick: 900_000,
    thorough: 36_000_000,
    run,
    rule: "distinct (type, value, failing invocation, error) cases in which the injected failure fired",
    simulated: "user code (hand-written conversions, accumulators and conversion functions) that fails at its k-th invocation, for every k up to 60 of each operation",
    real: REAL,
    stub: "user code (simulated failures)",
    assumptions: &["MissingValue is not injected into accumulators, where it legitimately means that an optional group is absent"],
};

const SHAPES: &[&str] = &[
    "users",
    "user elements",
    "user boxes",
    "user forward",
    "user transparent",
    "user optional transparent",
    "user lists",
    "user lists",
];

fn errors() -> Vec<Error> {
    vec![
        Error::Other("injected".into()),
        Error::UnexpectedValue("injected".into()),
        Error::MissingValue("injected"),
        Error::DuplicateValue("injected"),
        Error::UnexpectedEndOfStream,
        Error::UnexpectedState("injected"),
        Error::ExpectedScalar("injected".into()),
        Error::MissingTag,
        Error::UnexpectedTag("injected".into()),
        Error::InvalidEntity("injected".into()),
        Error::UnknownPrefix("injected".into()),
        Error::UnexpectedToken("injected".into()),
        Error::UnexpectedNode("injected".into()),
        // What another read failed with
        instant_xml::from_str::<AnyElement<'_>>("<a").expect_err("harness: refused"),
        Error::Format(fmt::Error),
        // As conversions really report them, with the field they were told about
        Error::MissingValue(hooks::FIELD),
        Error::DuplicateValue(hooks::FIELD),
        Error::UnexpectedState(hooks::FIELD),
        Error::UnexpectedValue(hooks::FIELD.into()),
        Error::Other(hooks::FIELD.into()),
        // Messages of all lengths
        Error::UnexpectedValue(String::new()),
        Error::UnexpectedValue("a long story ".repeat(30)),
        Error::Other(String::new()),
        Error::Other("<&>\"' ]]>\n\u{0}é".repeat(9)),
        Error::ExpectedScalar(String::new()),
        Error::UnexpectedTag(String::new()),
        Error::MissingValue(""),
        Error::DuplicateValue(""),
        Error::UnexpectedState(""),
    ]
}

fn run(env: &Env, src: &mut Src) -> Check {
    if src.chance(1, 12) {
        return standard(env, src);
    }
    let shape = match src.chance(1, 4) {
        true => loop {
            let s = &env.shapes[env.index(src, true)];
            if s.user && s.name.starts_with("generated") {
                break s;
            }
        },
        false => env.named(src.pick(SHAPES)),
    };
    *src.stats.shapes.entry(shape.name).or_default() += 1;
    let ty = shape.ty();
    let gen = small_gen(src).vary(src);
    let mut v = model::gen(src, &ty, gen);
    // Every user text its own: invocations can be told apart
    let mut n = 0;
    let mut texts = Vec::new();
    mark(&ty, &mut v, &mut n, &mut texts);
    src.fp(format!("{} {v:?}", shape.name).as_bytes());
    match src.chance(1, 2) {
        true => {
            let op = |_: &mut Src| {
                let mut out = String::new();
                let r = guard(|| shape.write(&v, &mut out));
                r.map(|r| r.map(|()| out))
            };
            check(src, shape, "write", &op, &texts, &["write"], &|_| true)
        }
        false => {
            let style = match src.chance(1, 3) {
                true => Style::gen(src),
                false => Style::plain(),
            };
            let doc = xml::encode(src, &style, &model::document(&ty, &v));
            let op = |_: &mut Src| guard(|| (shape.read)(&doc).map(|v| format!("{v:?}")));
            let good = |s: &str| s == format!("{v:?}");
            check(src, shape, "read", &op, &texts, &["read", "done"], &good)?;
            if src.chance(1, 3) {
                torn(src, shape, &doc)?;
            }
            Ok(())
        }
    }
}

type Op<'a> = &'a dyn Fn(&mut Src) -> Result<Result<String, Error>, String>;

fn check(
    src: &mut Src,
    shape: &Shape,
    what: &str,
    op: Op<'_>,
    texts: &[String],
    sites: &[&str],
    good: &dyn Fn(&str) -> bool,
) -> Check {
    hooks::reset();
    let r = op(src);
    let clean = hooks::report();
    src.note(|| {
        format!(
            "{what} of {}: invocations {:?}: {r:?}",
            shape.name, clean.calls
        )
    });
    match &r {
        Ok(Ok(s)) if good(s) => {}
        r => bail!("undisturbed", "{what} of {}: {}", shape.name, short(r)),
    }
    // Exactly once per value
    for site in sites {
        let mut seen: Vec<&str> = clean
            .calls
            .iter()
            .filter(|c| c.site == *site)
            .map(|c| c.what.as_str())
            .collect();
        seen.sort_unstable();
        let mut want: Vec<&str> = texts.iter().map(String::as_str).collect();
        want.sort_unstable();
        if *site == "done" {
            // Only some values have an accumulator of their own
            let mut dedup = seen.clone();
            dedup.dedup();
            if dedup.len() != seen.len() || seen.iter().any(|s| want.binary_search(s).is_err()) {
                bail!(
                    "not once per value",
                    "{what} of {}: {site} ran for {seen:?}",
                    shape.name
                );
            }
        } else if seen != want {
            bail!(
                "not once per value",
                "{what} of {}: {site} ran for {seen:?}, values are {want:?}",
                shape.name
            );
        }
    }
    inject(src, shape, what, op, &clean)
}

/// A document that is damaged somewhere: what was invoked before the damage fails as in a sound one.
fn torn(src: &mut Src, shape: &Shape, doc: &str) -> Check {
    let doc = match src.chance(1, 3) {
        true => {
            let mut cut = src.below(doc.len());
            while !doc.is_char_boundary(cut) {
                cut -= 1;
            }
            doc[..cut].to_owned()
        }
        false => damage(src, doc, doc),
    };
    src.fault("conversion fails in a damaged document");
    let op = |_: &mut Src| guard(|| (shape.read)(&doc).map(|v| format!("{v:?}")));
    hooks::reset();
    if op(src).is_err() {
        // A panic is not this property's business
        return Ok(());
    }
    let clean = hooks::report();
    inject(src, shape, "read", &op, &clean)
}

/// Every invocation of `clean` fails in turn.
fn inject(src: &mut Src, shape: &Shape, what: &str, op: Op<'_>, clean: &hooks::Report) -> Check {
    let errors = errors();
    let first = src.below(errors.len());
    for k in 0..clean.calls.len().min(60) {
        let mut e = errors[(first + k) % errors.len()].clone();
        if clean.calls[k].site == "done" && matches!(e, Error::MissingValue(_)) {
            e = Error::Other("injected".into());
        }
        hooks::reset();
        hooks::at(k, Act::Fail(e.clone()));
        let r = op(src);
        let report = hooks::report();
        src.note(|| {
            format!(
                "invocation {k} ({:?}) fails with {e:?}: {r:?}, {} later invocations",
                clean.calls[k], report.late
            )
        });
        if !report.failed {
            bail!(
                "not repeatable",
                "{what} of {}: invocation {k} of {:?} did not happen again",
                shape.name,
                clean.calls
            );
        }
        // With the field filled in
        let e = report.error.clone().unwrap_or(e);
        src.fault(match (what, clean.calls[k].site) {
            ("write", _) => "conversion fails on write",
            (_, "done") => "accumulator fails",
            _ => "conversion fails on read",
        });
        match &r {
            Ok(Err(got)) if *got == e => {}
            Ok(Err(got)) => bail!(
                "error replaced",
                "{what} of {}: invocation {k} ({:?}) failed with {e:?}, reported was {got:?}",
                shape.name,
                clean.calls[k]
            ),
            Ok(Ok(got)) => bail!(
                "error swallowed",
                "{what} of {}: invocation {k} ({:?}) failed with {e:?}, result was {}",
                shape.name,
                clean.calls[k],
                clip(got)
            ),
            Err(msg) => bail!("panic", "{what} of {}: {msg}", shape.name),
        }
        if report.late > 0 {
            bail!(
                "invoked after a failure",
                "{what} of {}: {} invocations after {k} ({:?}) failed",
                shape.name,
                report.late,
                clean.calls[k]
            );
        }
        src.fp_n(k);
        src.fp_n(first);
        src.case();
    }
    Ok(())
}

/// User types written through `Display` and read through `FromStr`, whose errors carry no message.
fn standard(env: &Env, src: &mut Src) -> Check {
    let shape = env.named("user display");
    *src.stats.shapes.entry(shape.name).or_default() += 1;
    let ty = shape.ty();
    let gen = small_gen(src).vary(src);
    let v = model::gen(src, &ty, gen);
    let write = src.chance(1, 2);
    let style = Style::gen(src);
    let doc = xml::encode(src, &style, &model::document(&ty, &v));
    let op = || match write {
        true => {
            let mut out = String::new();
            let r = guard(|| shape.write(&v, &mut out));
            (r.map(|r| r.map(|()| String::new())), out)
        }
        false => (
            guard(|| (shape.read)(&doc).map(|v| format!("{v:?}"))),
            String::new(),
        ),
    };
    src.fp(format!("{write} {v:?}").as_bytes());
    hooks::reset();
    let (r, whole) = op();
    let clean = hooks::report();
    match &r {
        Ok(Ok(got)) if write || *got == format!("{v:?}") => {}
        r => bail!("undisturbed", "{}: {}", shape.name, short(r)),
    }
    for k in 0..clean.calls.len().min(60) {
        hooks::reset();
        hooks::at(k, Act::Fail(Error::Other("injected".into())));
        let (r, out) = op();
        let report = hooks::report();
        src.note(|| {
            format!(
                "invocation {k} ({:?}) fails: {r:?}, {} later invocations",
                clean.calls[k], report.late
            )
        });
        if !report.failed {
            bail!(
                "not repeatable",
                "{}: invocation {k} of {:?} did not happen again",
                shape.name,
                clean.calls
            );
        }
        src.fault(match write {
            true => "Display fails",
            false => "FromStr fails",
        });
        match (write, &r) {
            (true, Ok(Err(Error::Format(_)))) | (false, Ok(Err(Error::UnexpectedValue(_)))) => {}
            (_, Err(msg)) => bail!("panic", "{} {v:?}: {msg}", shape.name),
            (_, Ok(Ok(got))) => bail!(
                "error swallowed",
                "{} {v:?}: invocation {k} failed, result was {got}",
                shape.name
            ),
            (_, Ok(Err(e))) => bail!(
                "error replaced",
                "{} {v:?}: invocation {k} failed, reported was {e:?}",
                shape.name
            ),
        }
        if report.late > 0 || !whole.starts_with(&out) {
            bail!(
                "went on after a failure",
                "{} {v:?}: {} invocations after {k} failed, written was {out}",
                shape.name,
                report.late
            );
        }
        src.fp_n(k);
        src.case();
    }
    Ok(())
}

/// Number the user texts of a value.
fn mark(ty: &Ty, v: &mut Val, n: &mut usize, texts: &mut Vec<String>) {
    match (ty, v) {
        (Ty::Sc(Sc::User), Val::S(s)) => {
            s.insert_str(0, &format!("#{n}:"));
            *n += 1;
            texts.push(s.clone());
        }
        (Ty::Opt(t), Val::Some(v)) => mark(t, v, n, texts),
        (Ty::Boxed(t), v) => mark(t, v, n, texts),
        (Ty::List(t), Val::List(l)) => l.iter_mut().for_each(|v| mark(t, v, n, texts)),
        (Ty::Named(def), v) => match (&def().kind, v) {
            (DefKind::Struct(f) | DefKind::Transparent(f), Val::Rec(l)) => {
                f.iter().zip(l).for_each(|(f, v)| mark(&f.ty, v, n, texts))
            }
            (DefKind::Tuple(t), Val::Rec(l)) => {
                t.iter().zip(l).for_each(|(t, v)| mark(t, v, n, texts))
            }
            (DefKind::Forward(t), Val::Var(i, v)) => mark(&t[*i], v, n, texts),
            _ => {}
        },
        _ => {}
    }
}
