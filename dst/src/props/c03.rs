//! C03: documents cut anywhere.

use super::*;
use crate::xml::{self, Style};
use crate::{bail, no_panic};

pub const PROP: Prop = Prop {
    id: "C03",
    quick: 100_000,
    thorough: 4_000_000,
    run,
    rule: "distinct (type, document) pairs cut at every (or, above 500 bytes, 60 chosen) character boundaries",
    simulated: "a transport or file that loses everything after a chosen byte; each prefix is read typed, captured generically and pulled node by node",
    real: REAL,
    stub: "input channel (simulated), reference XML reader (finds the end of the root element)",
    assumptions: &["input is a &str, so cuts happen at character boundaries"],
};

fn run(env: &Env, src: &mut Src) -> Check {
    let shape = env.any(src);
    let ty = shape.ty();
    let cx = small_gen(src).vary(src);
    let v = model::gen(src, &ty, cx);
    let tree = model::document(&ty, &v);
    let doc = match shape.writes() && src.chance(1, 3) {
        true => match no_panic!("write", shape.string(&v)) {
            Ok(s) => s,
            Err(_) => return Ok(()),
        },
        false => {
            let style = Style::gen(src);
            xml::encode(src, &style, &tree)
        }
    };
    let Some(end) = xml::root_end(&doc) else {
        // Written by the library and not well-formed: C01 reports it
        return Ok(());
    };
    // Something may follow the root element
    let tail = *src.pick(&["", "\n", "<!-- x -->", "  "]);
    let doc = format!("{}{tail}", &doc[..end]);
    src.fp(doc.as_bytes());
    src.note(|| format!("{} {v:?}: {doc}", shape.name));
    let mut cuts: Vec<usize> = (0..end).filter(|i| doc.is_char_boundary(*i)).collect();
    if cuts.len() > 500 {
        let mut some = Vec::new();
        for _ in 0..40 {
            some.push(*src.pick(&cuts));
        }
        // The last bytes matter most
        some.extend(cuts.iter().rev().take(20));
        cuts = some;
    }
    for cut in cuts {
        src.fault("input truncated");
        torn(src, shape, &doc[..cut])?;
        src.stats.evaluations += 1;
    }
    for whole in [&doc[..end], &doc[..]] {
        match no_panic!("read", (shape.read)(whole)) {
            Ok(got) if model::same_unordered(&v, &got) => {}
            got => bail!(
                "whole document refused",
                "{}: {} reads as {} instead of {}",
                shape.name,
                clip(whole),
                short(&got),
                short(&v)
            ),
        }
        match no_panic!("capture", any_owned(whole)) {
            Ok(t) if model::same_tree(&tree.clone().sorted(), &t.clone().sorted()) => {}
            got => bail!(
                "whole document refused",
                "captured {} as {}",
                clip(whole),
                short(&got)
            ),
        }
        let p = no_panic!("pull", pull(whole, None));
        match p.out {
            Pull::Tree(t) if t.clone().sorted() == tree.clone().sorted() && p.ended => {}
            got => bail!(
                "whole document refused",
                "pulled {} as {}",
                clip(whole),
                short(&got)
            ),
        }
    }
    src.case();
    Ok(())
}

fn torn(src: &mut Src, shape: &Shape, s: &str) -> Check {
    if let Ok(got) = no_panic!("read torn input", (shape.read)(s)) {
        bail!(
            "torn document accepted",
            "{} read {} as {}",
            shape.name,
            clip_end(s),
            short(&got)
        );
    }
    if let Ok(got) = no_panic!("capture torn input", any(s)) {
        bail!(
            "torn document accepted",
            "captured {} as {}",
            clip_end(s),
            short(&got)
        );
    }
    let p = no_panic!("pull torn input", pull(s, None));
    src.stats.steps += p.steps as u64;
    match p.out {
        Pull::Err(_) if p.ended => Ok(()),
        Pull::Err(_) | Pull::Endless => bail!("endless after truncation", "pulled {}", clip_end(s)),
        got => bail!(
            "torn document accepted",
            "pulled {} as {}",
            clip_end(s),
            short(&got)
        ),
    }
}

fn clip_end(s: &str) -> String {
    match s.len() > 600 {
        true => {
            let mut at = s.len() - 500;
            while !s.is_char_boundary(at) {
                at += 1;
            }
            format!("...{}", &s[at..])
        }
        false => s.to_owned(),
    }
}
