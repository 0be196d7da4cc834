//! Running the solver, judging its answers, and bookkeeping.
use crate::form::*;
use splr::*;
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{AssertUnwindSafe, catch_unwind},
    path::PathBuf,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Sat(Vec<i32>),
    Unsat,
    Err(String),
}

impl Verdict {
    pub fn tag(&self) -> &'static str {
        match self {
            Verdict::Sat(_) => "sat",
            Verdict::Unsat => "unsat",
            Verdict::Err(_) => "err",
        }
    }
}

pub fn verdict(r: splr::solver::SolverResult) -> Verdict {
    match r {
        Ok(Certificate::SAT(m)) => Verdict::Sat(m),
        Ok(Certificate::UNSAT) => Verdict::Unsat,
        // found during construction
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => Verdict::Unsat,
        Err(e) => Verdict::Err(format!("{e:?}")),
    }
}

thread_local! {
    static PATIENT: Cell<bool> = const { Cell::new(false) };
}

/// the config for the space: `patient` makes restarts rare.
pub fn tuned(mut config: Config) -> Config {
    if PATIENT.get() {
        config.rst_lbd_thr = 1.0e9;
    }
    config
}

pub fn make(config: Config, f: &[Cls]) -> Result<Solver, Verdict> {
    Solver::try_from((tuned(config), f)).map_err(verdict)
}

pub fn run(config: Config, f: &[Cls]) -> Verdict {
    match make(config, f) {
        Ok(mut s) => verdict(s.solve()),
        Err(v) => v,
    }
}

/// judge an answer on a formula over `n` vars.
pub fn judge(f: &[Cls], n: usize, v: &Verdict, sat: impl FnOnce() -> bool) -> Result<(), String> {
    match v {
        Verdict::Sat(m) => {
            model_ok(f, n, m)?;
            Ok(())
        }
        Verdict::Unsat => {
            if sat() {
                Err("the answer is UNSAT, but it is satisfiable".into())
            } else {
                Ok(())
            }
        }
        Verdict::Err(e) => Err(format!("neither a model nor UNSAT was returned but {e}")),
    }
}

pub fn model_ok(f: &[Cls], n: usize, m: &[i32]) -> Result<(), String> {
    if m.len() != n {
        return Err(format!("the model has {} literals for {n} vars: {m:?}", m.len()));
    }
    if let Some(i) = (0..n).find(|i| m[*i].unsigned_abs() as usize != i + 1) {
        return Err(format!("the {}-th literal of the model is {}: {m:?}", i + 1, m[i]));
    }
    if let Some(i) = satisfied(f, m) {
        return Err(format!("the model falsifies clause {:?}: {m:?}", f[i]));
    }
    Ok(())
}

//
// panics
//

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// payload used by observers to stop a run
pub struct Violated(pub String);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let at = i.location().map_or(String::new(), |l| {
            format!("{}:{}", l.file().rsplit("/repo/").next().unwrap(), l.line())
        });
        LAST.with(|l| *l.borrow_mut() = format!("panic at {at}: {msg}"));
    }));
}

/// run something that may panic, and leave no hook behind.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    verif::set_oracle(None);
    verif::set_decider(None);
    verif::set_observer(None);
    r.map_err(|e| match e.downcast::<Violated>() {
        Ok(v) => v.0,
        Err(_) => LAST.with(|l| l.borrow().clone()),
    })
}

//
// bookkeeping
//

pub struct Cx {
    pub scratch: PathBuf,
    pub thorough: bool,
    pub count: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// shell-escaped path to a directory of built commands
    pub bin: PathBuf,
}

impl Cx {
    pub fn add(&mut self, k: &str, n: u64) {
        match self.count.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.count.insert(k.to_string(), n);
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            self.samples.push(s());
        }
    }
}

/// an enumerated set of cases
pub struct Space {
    pub name: String,
    pub size: u64,
    /// what the cases are
    pub rule: String,
    pub run: Box<dyn Fn(u64, &mut Cx) -> Result<(), String>>,
    pub show: Box<dyn Fn(u64) -> String>,
}

impl Space {
    /// a space of formulas, all of which are handled in the same way.
    pub fn formulas(
        name: impl Into<String>,
        rule: impl Into<String>,
        size: u64,
        make: impl Fn(u64) -> Cnf + Clone + 'static,
        check: impl Fn(&Cnf, &mut Cx) -> Result<(), String> + 'static,
    ) -> Space {
        let mk = make.clone();
        Space {
            name: name.into(),
            rule: rule.into(),
            size,
            run: Box::new(move |i, cx| {
                let f = make(i);
                check(&f, cx)
            }),
            show: Box::new(move |i| show(&mk(i))),
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(bool) -> Vec<Space>,
    /// seconds without progress on one case before it counts as a hang
    pub patience: u64,
}

//
// conflicts, counted by the observer hook
//
thread_local! {
    static CONFLICTS: Cell<u64> = const { Cell::new(0) };
}

pub fn count_conflicts() {
    CONFLICTS.with(|c| c.set(0));
    verif::set_observer(Some(Box::new(|p, _, _, _| {
        if p == verif::Place::Conflict {
            CONFLICTS.with(|c| c.set(c.get() + 1));
        }
    })));
}

pub fn conflicts_counted() -> u64 {
    CONFLICTS.with(|c| c.get())
}

/// the same cases with the size of the first stage given, so that small formulas meet
/// in-processors (vivification, reduction, elimination during the search) as well
pub fn staged(k: i64, spaces: Vec<Space>) -> Vec<Space> {
    spaces
        .into_iter()
        .map(|s| {
            let run = s.run;
            Space {
                name: format!("{}@{k}", s.name),
                rule: format!("{}; stages start with {k} conflicts", s.rule),
                size: s.size,
                run: Box::new(move |i, cx| {
                    verif::set_oracle(Some(Box::new(move |c, n| {
                        if c == verif::Choice::StageSize { k } else { n }
                    })));
                    cx.add("in-processed", 1);
                    run(i, cx)
                }),
                show: s.show,
            }
        })
        .collect()
}

/// without restarts but at the ends of stages (the default threshold makes small formulas restart after every conflict)
pub fn patient(spaces: Vec<Space>) -> Vec<Space> {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            PATIENT.set(false);
        }
    }
    spaces
        .into_iter()
        .map(|s| {
            let run = s.run;
            Space {
                name: format!("{}!", s.name),
                rule: format!("{}; no restart within a stage", s.rule),
                size: s.size,
                run: Box::new(move |i, cx| {
                    let _back = Back;
                    PATIENT.set(true);
                    cx.add("without restarts", 1);
                    run(i, cx)
                }),
                show: s.show,
            }
        })
        .collect()
}
