//! Executions of the real search under all schedules within a number of deviations.
//!
//! An execution is determined by the answers at its choice points. Answer 0 is the one the
//! solver would take by itself. The explorer runs a prefix of answers, then takes 0 at each
//! later point, and branches on them as long as the number of the others is within the bound.
use crate::monitor::{Monitor, What};
use mc::{core::*, form::*};
use splr::{Config, assign::*, types::*, verif::*};
use std::{
    cell::RefCell,
    collections::HashSet,
    rc::Rc,
};

/// kinds of choice points, as bits
pub const DECISION: u8 = 1;
pub const RESTART: u8 = 2;
pub const STAGE: u8 = 4;
pub const DEEPEN: u8 = 8;
pub const REDUCE: u8 = 16;
pub const EVERY: u8 = 31;
/// no restart unless it's chosen
pub const RARE: u8 = 64;
/// with DECISION: only the other phase, the first var and the last one
pub const FEW: u8 = 32;

#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// the kinds that are explored
    pub kinds: u8,
    /// number of deviations
    pub deviations: usize,
    /// they happen at the first of the choice points only
    pub horizon: usize,
    /// the size of the first stage; 0: as it is
    pub stage: i64,
    pub eliminator: bool,
    /// limits of the eliminator: literals of a clause, growth, occurrences
    pub limits: [usize; 3],
    /// executions longer than this count as endless
    pub conflicts: u64,
}

#[derive(Default)]
pub struct Run {
    prefix: Vec<u32>,
    /// alternatives at each point
    pub points: Vec<u32>,
    pub diverged: bool,
    pub states: u64,
    pub fresh: u64,
    pub conflicts: u64,
    pub stages: u64,
}

impl Run {
    fn pick(&mut self, alts: u32) -> u32 {
        let i = self.points.len();
        self.points.push(alts);
        match self.prefix.get(i) {
            Some(c) if *c < alts => *c,
            Some(_) => {
                self.diverged = true;
                0
            }
            None => 0,
        }
    }
}

fn fingerprint(asg: &AssignStack, cdb: &splr::cdb::ClauseDB) -> u64 {
    use splr::cdb::ClauseDBIF;
    let mix = |mut x: u64| {
        x ^= x >> 31;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^ (x >> 29)
    };
    let mut h = asg.decision_level() as u64;
    for l in asg.stack_iter() {
        h = mix(h.wrapping_mul(31) ^ usize::from(*l) as u64);
    }
    for vi in 1..=asg.num_vars {
        if asg.level(vi) == 0 && asg.assign(vi).is_some() {
            h = h.wrapping_add(mix(vi as u64 * 7919));
        }
    }
    let mut d = 0u64;
    for c in cdb.iter().skip(1).filter(|c| !c.is_dead()) {
        let k = c.iter().fold(0u64, |a, l| a.wrapping_add(mix(usize::from(*l) as u64 + 77)));
        d = d.wrapping_add(mix(k));
    }
    h ^ mix(d)
}

/// run one schedule
fn execute(f: &Cnf, n: usize, b: Bounds, mon: &Rc<RefCell<Monitor>>, prefix: Vec<u32>, seen: &Rc<RefCell<HashSet<u64>>>) -> (Run, Result<(), String>) {
    let run = Rc::new(RefCell::new(Run { prefix, ..Run::default() }));
    mon.borrow_mut().begin();
    let r = guard(|| {
        let x = run.clone();
        let m = mon.clone();
        set_oracle(Some(Box::new(move |c, natural| match c {
            Choice::Elapsed => 0,
            Choice::StageSize => if b.stage > 0 { b.stage } else { natural },
            Choice::StageEnd => {
                let mut v = natural;
                if b.kinds & STAGE != 0 && x.borrow_mut().pick(2) == 1 {
                    v = 1 - natural;
                }
                if v == 1 {
                    x.borrow_mut().stages += 1;
                    m.borrow_mut().stage_ended();
                }
                v
            }
            Choice::Deepen => {
                if b.kinds & DEEPEN != 0 && x.borrow_mut().pick(2) == 1 {
                    1 - natural
                } else {
                    natural
                }
            }
            Choice::ReduceRank => {
                if b.kinds & REDUCE != 0 && x.borrow_mut().pick(2) == 1 {
                    if natural <= 4 { 100 } else { 1 }
                } else {
                    natural
                }
            }
        })));
        if b.kinds & DECISION != 0 {
            let x = run.clone();
            set_decider(Some(Box::new(move |asg, natural| {
                let free: Vec<VarId> = (1..=asg.num_vars)
                    .filter(|vi| asg.assign(*vi).is_none() && !asg.var(*vi).is(FlagVar::ELIMINATED))
                    .collect();
                if b.kinds & FEW != 0 {
                    return match x.borrow_mut().pick(4) {
                        1 => !natural,
                        2 => Lit::from((free[0], true)),
                        3 => Lit::from((*free.last().unwrap(), false)),
                        _ => natural,
                    };
                }
                match x.borrow_mut().pick(2 * free.len() as u32) {
                    0 => natural,
                    1 => !natural,
                    k => {
                        // the others, in the order of vars
                        let rest: Vec<_> = free.iter().filter(|v| **v != natural.vi()).collect();
                        let k = k as usize - 2;
                        Lit::from((*rest[k / 2], k % 2 == 1))
                    }
                }
            })));
        }
        let x = run.clone();
        let m = mon.clone();
        let seen = seen.clone();
        let mut thr: Option<f64> = None;
        set_observer(Some(Box::new(move |p, asg, cdb, state| {
            let mut r = x.borrow_mut();
            if p == Place::Conflict {
                r.conflicts += 1;
                if r.conflicts > b.conflicts {
                    std::panic::panic_any(Violated(format!("the search isn't over after {} conflicts", b.conflicts)));
                }
                if b.kinds & RESTART != 0 {
                    let natural = *thr.get_or_insert(state.config.rst_lbd_thr);
                    state.config.rst_lbd_thr = match r.pick(3) {
                        1 => -1.0,
                        2 => 1.0e9,
                        _ => natural,
                    };
                }
            } else {
                r.states += 1;
                if seen.borrow_mut().insert(fingerprint(asg, cdb)) {
                    r.fresh += 1;
                }
            }
            drop(r);
            if let Err(e) = m.borrow_mut().look(p, asg, cdb) {
                std::panic::panic_any(Violated(e));
            }
        })));
        let cfg = Config {
            enable_eliminator: b.eliminator,
            elm_cls_lim: b.limits[0],
            elm_grw_lim: b.limits[1],
            elm_var_occ: b.limits[2],
            quiet_mode: true,
            rst_lbd_thr: if b.kinds & RARE != 0 { 1.0e9 } else { Config::default().rst_lbd_thr },
            ..Config::default()
        };
        let v = run_judged(cfg, f, n, mon);
        v
    });
    let r = r.unwrap_or_else(Err);
    (Rc::try_unwrap(run).unwrap_or_else(|_| panic!("hooks are left")).into_inner(), r)
}

fn run_judged(cfg: Config, f: &Cnf, n: usize, mon: &Rc<RefCell<Monitor>>) -> Result<(), String> {
    let v = mc::core::run(cfg, f);
    let m = mon.borrow();
    match m.what {
        What::Answer | What::Elimination => judge(f, n, &v, || m.sat()),
        _ => Ok(()),
    }
}

/// all the schedules within the bounds
pub fn explore(f: &Cnf, what: What, b: Bounds, cx: &mut Cx) -> Result<(), String> {
    let n = num_vars(f);
    let mon = Rc::new(RefCell::new(Monitor::new(what, f, n, b.eliminator)));
    let seen = Rc::new(RefCell::new(HashSet::new()));
    let (mut traces, mut states, mut fresh, mut conflicts, mut stages) = (0u64, 0, 0, 0, 0);
    // depth first: each frame is an execution, and where its next deviation is
    struct Frame {
        prefix: Vec<u32>,
        points: Vec<u32>,
        next: (usize, u32),
    }
    let mut stack: Vec<Frame> = vec![];
    let mut prefix = vec![];
    loop {
        let (r, res) = execute(f, n, b, &mon, prefix.clone(), &seen);
        traces += 1;
        states += r.states;
        fresh += r.fresh;
        conflicts += r.conflicts;
        stages += r.stages;
        if r.diverged {
            cx.add("diverged", 1);
        }
        if let Err(e) = res {
            return Err(format!("{e}; in the schedule {prefix:?} of {b:?}"));
        }
        if stack.len() < b.deviations {
            let mut points = r.points;
            points.truncate(b.horizon);
            stack.push(Frame { next: (prefix.len(), 1), prefix, points });
        }
        // the next deviation
        prefix = loop {
            let Some(fr) = stack.last_mut() else {
                break vec![];
            };
            let (i, a) = fr.next;
            if i >= fr.points.len() {
                stack.pop();
            } else if a >= fr.points[i] {
                fr.next = (i + 1, 1);
            } else {
                fr.next = (i, a + 1);
                let mut p = fr.prefix.clone();
                p.resize(i, 0);
                p.push(a);
                break p;
            }
        };
        if prefix.is_empty() {
            break;
        }
    }
    cx.add("traces", traces);
    cx.add("transitions", states);
    cx.add("states", fresh);
    cx.add("conflicts", conflicts);
    cx.add("stage ends", stages);
    mon.borrow().report(cx);
    Ok(())
}
