//! The seam at user conversions: every hand-written conversion of the zoo passes through here, and
//! the simulator decides whether it works, fails, panics, yields, re-enters the library or abandons
//! what it was reading.

use instant_xml::Error;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone)]
pub enum Act {
    Fail(Error),
    Panic,
    /// Call the library again from inside the conversion
    Reenter(Rc<dyn Fn(&'static str)>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub site: &'static str,
    pub what: String,
}

#[derive(Default)]
struct Plan {
    at: Vec<(usize, Act)>,
    log: Vec<Call>,
    /// Calls made after one was told to fail
    late: usize,
    failed: bool,
    /// What it failed with
    error: Option<Error>,
    yielder: Option<Rc<dyn Fn(&'static str)>>,
    /// How the next abandoning readers behave
    quits: Vec<Vec<u8>>,
    quit_next: usize,
    quits_fired: usize,
}

thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
}

/// Forget everything about earlier operations on this thread.
pub fn reset() {
    PLAN.with(|p| *p.borrow_mut() = Plan::default());
}

/// Do `act` at the `k`-th conversion call from now (0-based, counted over the operation).
pub fn at(k: usize, act: Act) {
    PLAN.with(|p| p.borrow_mut().at.push((k, act)));
}

pub fn set_yielder(f: Rc<dyn Fn(&'static str)>) {
    PLAN.with(|p| p.borrow_mut().yielder = Some(f));
}

pub fn set_quits(quits: Vec<Vec<u8>>) {
    PLAN.with(|p| p.borrow_mut().quits = quits);
}

pub struct Report {
    pub calls: Vec<Call>,
    pub late: usize,
    pub failed: bool,
    pub error: Option<Error>,
    pub quits: usize,
}

/// What happened since the last `reset`; resets.
pub fn report() -> Report {
    let plan = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
    Report {
        calls: plan.log,
        late: plan.late,
        failed: plan.failed,
        error: plan.error,
        quits: plan.quits_fired,
    }
}

/// Stands for the field the conversion was told about, in errors to inject.
pub const FIELD: &str = "the field";

/// A conversion runs.
pub fn call(site: &'static str, what: &str) -> Result<(), Error> {
    call_for(site, what, "no field")
}

/// A conversion runs for a field.
pub fn call_for(site: &'static str, what: &str, field: &'static str) -> Result<(), Error> {
    let _harness = hook::Mode::set(false);
    let (act, yielder) = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let k = p.log.len();
        p.log.push(Call {
            site,
            what: what.to_owned(),
        });
        if p.failed {
            p.late += 1;
        }
        let mut act = p.at.iter().find(|(n, _)| *n == k).map(|(_, a)| a.clone());
        if let Some(Act::Fail(e)) = &mut act {
            match e {
                Error::MissingValue(s) | Error::DuplicateValue(s) | Error::UnexpectedState(s)
                    if *s == FIELD =>
                {
                    *s = field
                }
                Error::UnexpectedValue(s) | Error::Other(s) if s == FIELD => {
                    *s = format!("{field}: {what}")
                }
                _ => {}
            }
            p.failed = true;
            p.error = Some(e.clone());
        }
        (act, p.yielder.clone())
    });
    if let Some(y) = yielder {
        y(site);
    }
    match act {
        Some(Act::Fail(e)) => Err(e),
        Some(Act::Panic) => panic!("injected: {site} panics"),
        Some(Act::Reenter(f)) => {
            // The nested operations have their own plan
            suspended(|| f(site));
            Ok(())
        }
        None => Ok(()),
    }
}

/// Run `f` with a plan of its own.
pub fn suspended(f: impl FnOnce()) {
    let outer = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
    f();
    PLAN.with(|p| *p.borrow_mut() = outer);
}

/// Steps of an abandoning reader: None means it reads to the end.
pub fn quit_steps() -> Option<Vec<u8>> {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let i = p.quit_next;
        p.quit_next += 1;
        let steps = p.quits.get(i).cloned();
        if steps.is_some() {
            p.quits_fired += 1;
        }
        steps
    })
}
