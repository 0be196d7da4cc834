//! The assignment stack by itself: every sequence of what a search does with it.
//!
//! A state is a real assignment stack with a real clause database, and what a plain account of
//! the history says: the formula with what was learnt, the last value of each var, the
//! vars that are gone. From each state every operation is tried on a copy. In each state
//! copies decide on and on, until no var is free.
use crate::watch::{St, lit, root, trail};
use mc::{core::*, form::*, spaces::*};
use splr::{
    assign::{property::Tusize, *},
    cdb::ClauseDBIF,
    types::*,
};
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone)]
struct Run {
    s: St,
    /// with what was learnt
    f: Cnf,
    given: usize,
    learnt: Vec<ClauseId>,
    /// by var
    phases: Vec<bool>,
    /// each value that was undone together with others
    past: Vec<Vec<i32>>,
    gone: Vec<usize>,
    added: usize,
    flipped: Vec<bool>,
    /// rewarded since it was undone
    used: Vec<bool>,
}

#[derive(Clone, Debug)]
enum Op {
    /// decide what the order says
    Next,
    Decide(i32),
    Cancel(u32),
    /// the first literal follows after a backjump
    Learn(Cls),
    Assert(i32),
    /// the end of a stage, with a trial of some literals; all that was learnt is forgotten, or not
    Stage(Vec<i32>, bool),
    Reward(usize),
    /// reward it, and flip its phase
    Flip(usize),
    Eliminate(usize),
    AddVar,
}

/// of rewards; much shorter than usual, for the order to change
const DECAY: f64 = 0.5;
const FAR: u32 = u32::MAX;

impl Run {
    fn new(f: &Cnf) -> Option<Run> {
        let mut s = root(f)?;
        if s.asg.propagate_sandbox(&mut s.cdb).is_err() || s.asg.clear_asserted_literals(&mut s.cdb).is_err() {
            return None;
        }
        s.asg.update_activity_decay(DECAY);
        s.asg.rebuild_order();
        let n = s.asg.num_vars;
        let phases = (0..=n).map(|v| v > 0 && s.asg.var(v).is(FlagVar::PHASE)).collect();
        Some(Run { s, f: f.clone(), given: f.len(), learnt: vec![], phases, past: vec![], gone: vec![], added: 0, flipped: vec![false; n + 2], used: vec![false; n + 2] })
    }
    fn n(&self) -> usize {
        self.s.asg.num_vars
    }
    fn free(&self, v: usize) -> bool {
        self.s.value(v as i32).is_none() && !self.gone.contains(&v)
    }
    fn key(&mut self) -> Vec<u64> {
        let k = self.s.key();
        let mut k = vec![(k >> 64) as u64, k as u64];
        for v in 1..=self.n() {
            let x = self.s.asg.var(v);
            k.push(self.s.asg.activity(v).to_bits());
            k.push(x.is(FlagVar::PHASE) as u64 + 2 * self.used[v] as u64 + 4 * self.gone.contains(&v) as u64);
        }
        k.extend(self.f.iter().flatten().map(|l| *l as u64));
        k.extend(self.order(self.s.asg.decision_level()).unwrap_or_default().iter().map(|l| *l as u64));
        k
    }
    /// backtrack, and take down what's undone
    fn back(&mut self, k: u32) -> usize {
        let t: Vec<i32> = self.s.trail();
        let mut keep = t.len();
        if k < self.s.asg.decision_level() {
            keep = self.s.asg.len_upto(k);
            for l in &t[keep..] {
                let v = l.unsigned_abs() as usize;
                self.phases[v] = *l > 0;
                self.used[v] = false;
            }
            self.past.push(t);
        }
        keep
    }
    fn propagate(&mut self) -> Result<(), String> {
        match self.s.asg.propagate(&mut self.s.cdb) {
            Ok(()) => self.s.check(&self.f),
            Err(cc) => {
                self.s.conflict = true;
                self.s.conflicting(cc, &self.f)
            }
        }
    }
    fn cancel(&mut self, k: u32) -> Result<(), String> {
        let keep = self.back(k);
        let t = trail(&self.s.asg);
        self.s.asg.cancel_until(k);
        self.s.undone = t[3 * keep..].to_vec();
        self.s.undone.push(k as u64);
        self.s.conflict = false;
        if self.s.asg.decision_level() != k || trail(&self.s.asg) != t[..3 * keep] {
            return Err(format!("after a backtrack to {k}, the trail is {:?}", self.s.trail()));
        }
        Ok(())
    }
    /// false: the formula is refuted
    fn apply(&mut self, op: &Op) -> Result<bool, String> {
        match op {
            Op::Next => {
                let l = self.s.asg.select_decision_literal();
                self.chosen(l)?;
                self.s.asg.assign_by_decision(l);
                self.propagate()?;
            }
            Op::Decide(l) => {
                self.s.asg.assign_by_decision(lit(*l));
                self.propagate()?;
            }
            Op::Cancel(k) => {
                self.cancel(*k)?;
                self.propagate()?;
            }
            Op::Learn(c) => {
                let level = c[1..].iter().map(|l| self.s.asg.level(l.unsigned_abs() as usize)).max().unwrap_or(0);
                self.s.asg.update_activity_tick();
                self.cancel(level)?;
                let l = lit(c[0]);
                if c.len() == 1 {
                    self.s.asserted.push(c[0]);
                    if self.s.asg.assign_at_root_level(l).is_err() {
                        return Ok(false);
                    }
                } else {
                    let mut ls: Vec<Lit> = c.iter().map(|l| lit(*l)).collect();
                    let r = self.s.cdb.new_clause(&mut self.s.asg, &mut ls, true);
                    let id = r.as_cid();
                    let why = if c.len() == 2 { AssignReason::BinaryLink(!lit(c[1])) } else { AssignReason::Implication(id) };
                    if !matches!(r, RefClause::RegisteredClause(_)) {
                        self.learnt.push(id);
                        self.f.push(c.clone());
                    }
                    self.s.asg.assign_by_implication(l, why, level);
                }
                match self.s.asg.propagate(&mut self.s.cdb) {
                    Ok(()) => self.s.check(&self.f)?,
                    Err(_) if level == 0 => return if self.s.expected(&self.f).is_none() { Ok(false) } else { Err("a conflict at the root level".into()) },
                    Err(cc) => {
                        self.s.conflict = true;
                        self.s.conflicting(cc, &self.f)?;
                    }
                }
            }
            Op::Assert(l) => {
                self.back(0);
                self.s.asserted.push(*l);
                let r = self.s.asg.assign_at_root_level(lit(*l)).is_ok() && self.s.asg.propagate(&mut self.s.cdb).is_ok();
                self.s.undone = vec![FAR as u64];
                if r != self.s.expected(&self.f).is_some() {
                    return Err(format!("{l} is asserted, then propagation finds {}", if r { "no conflict" } else { "a conflict" }));
                }
                if !r {
                    return Ok(false);
                }
                self.s.check(&self.f)?;
            }
            Op::Stage(tried, forget) => {
                self.cancel(0)?;
                self.s.asg.select_rephasing_target();
                self.rephased()?;
                if self.s.asg.clear_asserted_literals(&mut self.s.cdb).is_err() {
                    return if self.s.expected(&self.f).is_none() { Ok(false) } else { Err("a conflict at the root level".into()) };
                }
                let before = self.s.trail();
                for l in tried {
                    if self.s.value(*l).is_some() {
                        continue;
                    }
                    self.s.asg.assign_by_decision(lit(*l));
                    match self.s.asg.propagate_sandbox(&mut self.s.cdb) {
                        Ok(()) => self.s.check(&self.f)?,
                        Err(cc) => {
                            self.s.conflicting(cc, &self.f)?;
                            break;
                        }
                    }
                }
                self.s.asg.backtrack_sandbox();
                if self.s.trail() != before || self.s.asg.decision_level() != 0 {
                    return Err(format!("the sandbox leaves {:?} on the trail", self.s.trail()));
                }
                if *forget {
                    self.s.asserted = (1..=self.n() as i32).flat_map(|v| [v, -v]).filter(|l| self.s.value(*l) == Some(true)).collect();
                    let learnt = self.f.split_off(self.given);
                    let ids = std::mem::take(&mut self.learnt);
                    for (i, (id, c)) in ids.iter().copied().zip(learnt).enumerate() {
                        // it was satisfied, and its id used again
                        if ids[i + 1..].contains(&id) {
                            continue;
                        }
                        let x = &self.s.cdb[id];
                        // a binary one is kept by any reduction, since another clause may have become the same
                        if !x.is_dead() && x.is(FlagClause::LEARNT) && x.len() > 2 {
                            self.s.cdb.remove_clause(id);
                        } else {
                            self.learnt.push(id);
                            self.f.push(c);
                        }
                    }
                }
                self.s.asg.handle(SolverEvent::Stage(if *forget { 4 } else { 1 }));
                self.s.undone.clear();
                self.s.check(&self.f)?;
            }
            Op::Reward(v) => {
                self.used[*v] = true;
                self.s.asg.reward_at_analysis(*v);
            }
            Op::Flip(v) => {
                self.phases[*v] ^= true;
                self.flipped[*v] = true;
                self.s.asg.reward_by_sls(&HashMap::from([(*v, self.phases[*v])]));
            }
            Op::Eliminate(v) => {
                self.gone.push(*v);
                self.s.asg.handle(SolverEvent::Eliminate(*v));
            }
            Op::AddVar => {
                self.cancel(0)?;
                self.s.asg.handle(SolverEvent::NewVar);
                self.s.cdb.handle(SolverEvent::NewVar);
                self.s.asg.handle(SolverEvent::Reinitialize);
                self.s.undone.clear();
                self.s.asg.rebuild_order();
                self.phases.push(self.s.asg.var(self.n()).is(FlagVar::PHASE));
                self.added += 1;
            }
        }
        Ok(true)
    }
    fn chosen(&self, l: Lit) -> Result<(), String> {
        let v = l.vi();
        if v == 0 || v > self.n() || !self.free(v) {
            return Err(format!("{l} is to be decided, but it isn't free; the trail is {:?}", self.s.trail()));
        }
        if bool::from(l) != self.phases[v] {
            return Err(format!("{l} is to be decided, but its value was the other one; the trail is {:?}", self.s.trail()));
        }
        Ok(())
    }
    /// phases changed, if at all, to what they were together
    fn rephased(&mut self) -> Result<(), String> {
        let now: Vec<bool> = (0..=self.n()).map(|v| v > 0 && self.s.asg.var(v).is(FlagVar::PHASE)).collect();
        if now == self.phases {
            return Ok(());
        }
        let ok = self.past.iter().any(|t| {
            (1..=self.n()).all(|v| match t.iter().find(|l| l.unsigned_abs() as usize == v) {
                Some(l) => self.s.value(*l).is_some() || now[v] == (*l > 0),
                None => now[v] == self.phases[v],
            })
        });
        if !ok {
            return Err(format!("the phases {:?} become {now:?} without having been assigned so; before {:?}", self.phases, self.past));
        }
        self.phases = now;
        Ok(())
    }
    /// decide on and on from a level
    fn order(&self, k: u32) -> Result<Vec<i32>, String> {
        let mut t = self.clone();
        if k < t.s.asg.decision_level() {
            t.cancel(k)?;
        }
        let mut v = vec![];
        for _ in 0..(1..=t.n()).filter(|v| t.free(*v)).count() {
            let l = t.s.asg.select_decision_literal();
            t.chosen(l)?;
            t.s.asg.assign_by_decision(l);
            v.push(i32::from(l));
        }
        Ok(v)
    }
    /// the account
    fn books(&self) -> Result<(), String> {
        let a = &self.s.asg;
        let at = |e: String| format!("{e}; the trail is {:?}", self.s.trail());
        let free = (1..=self.n()).filter(|v| self.free(*v)).count();
        let count = a.derefer(Tusize::NumUnassignedVar);
        if count != free {
            return Err(at(format!("{count} vars are counted as unassigned instead of {free}")));
        }
        let asserted = (1..=self.n()).filter(|v| self.s.value(*v as i32).is_some()).count() - a.stack_len();
        for (what, is, should) in [
            ("vars", Tusize::NumVar, self.n()),
            ("eliminated vars", Tusize::NumEliminatedVar, self.gone.len()),
            ("asserted vars", Tusize::NumAssertedVar, asserted),
            ("unasserted vars", Tusize::NumUnassertedVar, self.n() - asserted - self.gone.len()),
        ] {
            if a.derefer(is) != should {
                return Err(at(format!("{} {what} are counted instead of {should}", a.derefer(is))));
            }
        }
        let mut level = 0;
        for (i, l) in a.stack_iter().enumerate() {
            if matches!(a.reason(l.vi()), AssignReason::Decision(k) if k > 0) {
                level += 1;
                if a.decision_vi(level) != l.vi() || a.len_upto(level - 1) != i {
                    return Err(at(format!("level {level} should begin with {l}")));
                }
            }
            if a.level(l.vi()) != level {
                return Err(at(format!("{l} is at level {} instead of {level}", a.level(l.vi()))));
            }
        }
        if level != a.decision_level() {
            return Err(at(format!("the level is {} instead of {level}", a.decision_level())));
        }
        if let Some(v) = (1..=self.n()).find(|v| !(0.0..=1.0).contains(&a.activity(*v))) {
            return Err(at(format!("the activity of {v} is {}", a.activity(v))));
        }
        Ok(())
    }
    fn probe(&self) -> Result<(), String> {
        self.books()?;
        for k in 0..=self.s.asg.decision_level() {
            if k < self.s.asg.decision_level() || !self.s.conflict {
                self.order(k).map_err(|e| format!("{e}, when deciding on and on from level {k}"))?;
            }
        }
        Ok(())
    }
    fn ops(&self, b: Bound) -> Vec<Op> {
        let a = &self.s.asg;
        let dl = a.decision_level();
        let n = self.n();
        if self.s.conflict {
            // what can be learnt: negated decisions, as few as will do, or all
            let d: Vec<i32> = (1..=dl).map(|k| a.decision_vi(k) as i32).map(|v| if self.s.value(v) == Some(true) { v } else { -v }).collect();
            let k = d.len() - 1;
            let mut least: Vec<u32> = vec![];
            for m in 0u32..1 << k {
                if least.iter().any(|x| x & m == *x) {
                    continue;
                }
                let mut g = self.f.to_vec();
                g.extend(self.s.asserted.iter().map(|l| vec![*l]));
                g.push(vec![d[k]]);
                g.extend((0..k).filter(|i| m >> i & 1 == 1).map(|i| vec![d[i]]));
                if !is_sat(&g) {
                    least.push(m);
                }
            }
            if k > 0 && !b.narrow && !least.contains(&((1 << k) - 1)) {
                least.push((1 << k) - 1);
            }
            return least
                .iter()
                .map(|m| {
                    let mut c = vec![-d[k]];
                    c.extend((0..k).rev().filter(|i| m >> i & 1 == 1).map(|i| -d[i]));
                    Op::Learn(c)
                })
                .chain((0..dl).filter(|_| !b.narrow).map(Op::Cancel))
                .collect();
        }
        let free: Vec<i32> = (1..=n).filter(|v| self.free(*v)).map(|v| v as i32).collect();
        let mut v = vec![];
        if !free.is_empty() {
            v.push(Op::Next);
        }
        if b.narrow {
            if let Some(l) = free.first().and_then(|_| self.order(dl).ok()).and_then(|o| o.first().copied()) {
                v.push(Op::Decide(-l));
            }
            v.extend([0, dl.saturating_sub(1)].into_iter().take(dl.min(2) as usize).map(Op::Cancel));
        } else {
            v.extend(free.iter().flat_map(|v| [Op::Decide(*v), Op::Decide(-v)]));
            v.extend((0..dl).map(Op::Cancel));
        }
        let last = if dl > 0 { a.decision_vi(dl) } else { 0 };
        v.extend((1..=n).filter(|v| !b.narrow || *v == last).filter(|v| self.s.value(*v as i32).is_some() && a.level(*v) > 0 && !self.used[*v]).map(Op::Reward));
        v.push(Op::Stage(vec![], true));
        if dl == 0 {
            if b.asserts > self.s.asserted.len() {
                v.extend(free.iter().flat_map(|v| [Op::Assert(*v), Op::Assert(-v)]));
            }
            v.extend(free.iter().zip(free.iter().skip(1)).take(if b.narrow { 1 } else { n }).flat_map(|(v, w)| [Op::Stage(vec![-v, *w], false), Op::Stage(vec![*w, *v], false)]));
            if b.flips {
                v.extend(free.iter().filter(|v| !self.flipped[**v as usize]).map(|v| Op::Flip(*v as usize)));
            }
            v.extend(free.iter().filter(|v| !self.f.iter().flatten().any(|l| l.abs() == **v)).map(|v| Op::Eliminate(*v as usize)));
            if self.added < b.vars {
                v.push(Op::AddVar);
            }
        }
        v
    }
}

#[derive(Clone, Copy, Debug)]
struct Bound {
    depth: usize,
    asserts: usize,
    vars: usize,
    flips: bool,
    /// only the decision in order and its opposite, near and full backtracks, few rewards
    narrow: bool,
}

fn explore(f: &Cnf, b: Bound, cx: &mut Cx) -> Result<(), String> {
    let Some(r0) = guard(|| Run::new(f))? else {
        cx.add("refuted when built", 1);
        return Ok(());
    };
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut queue = VecDeque::from([(r0.clone(), Vec::<Op>::new())]);
    let (mut states, mut trans, mut learnt) = (1u64, 0u64, 0u64);
    guard(|| r0.probe()).unwrap_or_else(Err)?;
    while let Some((r, path)) = queue.pop_front() {
        for op in r.ops(b) {
            let mut t = r.clone();
            trans += 1;
            learnt += matches!(op, Op::Learn(_)) as u64;
            let done = guard(|| t.apply(&op)).unwrap_or_else(Err);
            let mut p = path.clone();
            p.push(op);
            let at = |e: String| format!("{e}; after {p:?}");
            if done.map_err(at)? && seen.insert(guard(|| t.key()).map_err(at)?) {
                states += 1;
                guard(|| t.probe()).unwrap_or_else(Err).map_err(at)?;
                if p.len() < b.depth {
                    queue.push_back((t, p));
                }
            }
        }
    }
    cx.add("states", states);
    cx.add("transitions", trans);
    cx.add("traces", trans);
    cx.add("learnt", learnt);
    Ok(())
}

fn over(b: Bound, fs: FSpace) -> Space {
    let (mk, mk2) = (fs.make.clone(), fs.make.clone());
    Space {
        name: format!("{}~{b:?}", fs.name),
        rule: format!(
            "{}; all sequences of up to {} operations on an assignment stack: decisions in order or not, backtracks, learning by negated decisions, ends of stages with a trial in the sandbox, rewards{}{}{}, elimination of what doesn't occur{}; states are told apart by trail, clauses, watches, rewards, phases and order",
            fs.rule,
            b.depth,
            if b.asserts > 0 { ", assertions" } else { "" },
            if b.flips { ", flipped phases" } else { "" },
            if b.vars > 0 { ", a new var" } else { "" },
            if b.narrow { "; but only decisions in order or the opposite, backtracks by one level or all, rewards of the last decision" } else { "" }
        ),
        size: fs.size,
        run: Box::new(move |i, cx| {
            let c = mk(i);
            cx.sample(|| show(&c));
            explore(&c, b, cx)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// few clauses, in which much follows from little
fn chosen() -> FSpace {
    list(
        "chosen",
        "formulas in which much follows from little, some with vars that don't occur",
        vec![
            vec![vec![6, -6]],
            vec![vec![1, 2], vec![-1, 3], vec![-3, 4], vec![-4, 5]],
            vec![vec![-1, -2, 3], vec![-3, -4, 5], vec![-5, 6, -1]],
            vec![vec![-1, -2, -3, 4], vec![-4, -5], vec![5, -2, 6], vec![-6, -1]],
            vec![vec![1, 2, 3], vec![-1, -2], vec![-2, -3], vec![-1, -3], vec![4, 5, -6]],
            vec![vec![1, 2, 3], vec![1, 2, -3], vec![1, -2, 3], vec![-1, 2, 3], vec![-1, -2, 4], vec![-4, -3, 5]],
            vec![vec![1, 2], vec![3, 4], vec![5, 6], vec![-1, -3], vec![-1, -5], vec![-3, -5], vec![-2, -4], vec![-2, -6], vec![-4, -6]],
        ],
    )
}

pub fn spaces(big: bool) -> Vec<Space> {
    let b = |depth, asserts, vars, flips| Bound { depth, asserts, vars, flips, narrow: false };
    let d = |depth| Bound { depth, asserts: 0, vars: 0, flips: false, narrow: true };
    let k = big as usize;
    vec![
        over(b(4, 1, 1, true), chosen()),
        over(b(4 + k, 1, 1, true), subsets(3, 2..=3, 2 + big as u64)),
        over(b(4, 0, 0, false), dense(4, 3, 1 + big as u64)),
        over(b(3 + k, 0, 0, false), strided(6, &[14, 20, 26], 4, 2)),
        over(d(8 + k), chosen()),
        over(d(6 + 2 * k), dense(4, 3, 2)),
        over(d(7 + 2 * k), strided(6, &[10, 14, 20, 26], 8, 2)),
        over(d(8 + k), strided(8, &[20, 26, 32], 8, 2)),
    ]
}
