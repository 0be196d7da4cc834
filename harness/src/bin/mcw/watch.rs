//! The propagation engine by itself: every sequence of decisions, backtracks and assertions.
//!
//! A state is a real assignment stack with a real clause database. From each one, every
//! operation is tried on a copy; states are told apart by all that propagation reads. What
//! a propagation leaves is compared with the closure of the decisions under the formula.
use mc::{core::*, form::*, spaces::*};
use splr::{
    Config, Solver,
    assign::*,
    cdb::{ClauseDB, ClauseDBIF},
    types::*,
};
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone)]
pub struct St {
    pub asg: AssignStack,
    pub cdb: ClauseDB,
    /// what the last backtrack undid: it may be used again
    pub undone: Vec<u64>,
    pub conflict: bool,
    /// asserted by us
    pub asserted: Vec<i32>,
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Op {
    Decide(i32),
    Cancel(u32),
    Assert(i32),
    /// the same in the sandbox of vivification
    Try(i32),
    Leave,
}

pub fn lit(l: i32) -> Lit {
    Lit::from(l)
}

fn reason(r: AssignReason) -> u64 {
    match r {
        AssignReason::None => 0,
        AssignReason::Decision(n) => 1 + 4 * n as u64,
        AssignReason::BinaryLink(l) => 2 + 4 * usize::from(l) as u64,
        AssignReason::Implication(c) => {
            // the ordinal is in what it displays
            3 + 4 * format!("{c}").bytes().filter(u8::is_ascii_digit).fold(0u64, |a, b| a * 10 + (b - b'0') as u64)
        }
    }
}

pub fn watches(cdb: &mut ClauseDB, l: Lit) -> Vec<(ClauseId, Lit)> {
    let mut it = cdb.watch_cache_iter(l);
    let mut v = vec![];
    while let Some(i) = it.next() {
        v.push(cdb.fetch_watch_cache_entry(l, i));
        it.index += 1;
    }
    v
}

pub fn trail(asg: &AssignStack) -> Vec<u64> {
    asg.stack_iter()
        .flat_map(|l| [usize::from(*l) as u64, asg.level(l.vi()) as u64, reason(asg.reason(l.vi()))])
        .collect()
}

/// a dead clause has no literals
pub fn name(c: ClauseId) -> u64 {
    reason(AssignReason::Implication(c))
}

impl St {
    pub fn key(&mut self) -> u128 {
        let mut k: Vec<u64> = trail(&self.asg);
        k.push(u64::MAX);
        k.extend(&self.undone);
        k.push(u64::MAX);
        for v in 1..=self.asg.num_vars {
            k.push(self.asg.assign(v).map_or(0, |b| 1 + b as u64));
        }
        for c in self.cdb.iter().skip(1) {
            k.push(c.len() as u64);
            k.extend(c.iter().map(|l| usize::from(*l) as u64));
            k.push(c.search_from as u64);
        }
        for i in 2..2 * (self.asg.num_vars + 1) {
            let l = Lit::from(i);
            k.extend(watches(&mut self.cdb, l).into_iter().flat_map(|w| [name(w.0), usize::from(w.1) as u64]));
            k.push(u64::MAX);
            k.extend(self.cdb.binary_links(l).iter().map(|b| usize::from(b.0) as u64));
            k.push(u64::MAX);
        }
        let (mut a, mut b) = (0x9E37_79B9_7F4A_7C15u64, 0xC2B2_AE3D_27D4_EB4Fu64);
        for x in k {
            a = (a ^ x).wrapping_mul(0xFF51_AFD7_ED55_8CCD).rotate_left(29) ^ (a >> 7);
            b = (b.rotate_left(23) ^ x).wrapping_mul(0xC4CE_B9FE_1A85_EC53) ^ (b >> 11);
        }
        (a as u128) << 64 | b as u128
    }
    pub fn value(&self, l: i32) -> Option<bool> {
        self.asg.assign(l.unsigned_abs() as usize).map(|b| b == (l > 0))
    }
    /// the closure of what was decided and asserted; None: it's contradictory
    pub fn expected(&self, f: &Cnf) -> Option<Vec<i8>> {
        let mut v = vec![0i8; self.asg.num_vars + 1];
        let set = |v: &mut Vec<i8>, l: i32| {
            let x = &mut v[l.unsigned_abs() as usize];
            let ok = *x as i32 != -l.signum();
            *x = l.signum() as i8;
            ok
        };
        for l in &self.asserted {
            if !set(&mut v, *l) {
                return None;
            }
        }
        for l in self.asg.stack_iter() {
            if matches!(self.asg.reason(l.vi()), AssignReason::Decision(n) if n > 0) && !set(&mut v, i32::from(*l)) {
                return None;
            }
        }
        close(f, v)
    }
    /// what must hold after a propagation without conflict
    pub fn check(&mut self, f: &Cnf) -> Result<(), String> {
        let Some(v) = self.expected(f) else {
            return Err(format!("no conflict is found, but there is one; the trail is {:?}", self.trail()));
        };
        for vi in 1..=self.asg.num_vars {
            let is = self.asg.assign(vi).map_or(0, |b| if b { 1 } else { -1 });
            if is != v[vi] {
                let w = |x: i8| ["false", "unassigned", "true"][(x + 1) as usize];
                return Err(format!("{vi} is {}, but should be {}; the trail is {:?}", w(is), w(v[vi]), self.trail()));
            }
        }
        self.justified()?;
        self.watched()
    }
    pub fn trail(&self) -> Vec<i32> {
        self.asg.stack_iter().map(|l| i32::from(*l)).collect()
    }
    /// each literal on the trail has a reason before it
    fn justified(&self) -> Result<(), String> {
        let n = self.asg.num_vars;
        let mut at = vec![usize::MAX; n + 1];
        for (i, l) in self.asg.stack_iter().enumerate() {
            if at[l.vi()] != usize::MAX {
                return Err(format!("{} is twice on the trail", l.vi()));
            }
            at[l.vi()] = i;
            if self.value(i32::from(*l)) != Some(true) {
                return Err(format!("{l} is on the trail, but isn't true"));
            }
            let holds = |x: i32| {
                let vi = x.unsigned_abs() as usize;
                self.value(x) == Some(false) && (at[vi] < i || self.asg.level(vi) == 0 && at[vi] == usize::MAX)
            };
            let ok = match self.asg.reason(l.vi()) {
                AssignReason::Decision(_) => true,
                AssignReason::None => false,
                AssignReason::BinaryLink(k) => holds(-i32::from(k)) && self.cdb.binary_links(!k).iter().any(|b| b.0 == *l),
                AssignReason::Implication(c) => {
                    let c = &self.cdb[c];
                    !c.is_dead() && c.lit0() == *l && c.iter().skip(1).all(|k| holds(i32::from(*k)))
                }
            };
            if !ok {
                return Err(format!("{l} doesn't follow by its reason {:?}; the trail is {:?}", self.asg.reason(l.vi()), self.trail()));
            }
        }
        Ok(())
    }
    /// each longer clause is watched by its first two literals, and the others by nothing
    fn watched(&mut self) -> Result<(), String> {
        let mut seen: HashMap<(u64, usize), u32> = HashMap::new();
        for i in 2..2 * (self.asg.num_vars + 1) {
            for (c, k) in watches(&mut self.cdb, Lit::from(i)) {
                if self.cdb[c].is_dead() {
                    return Err(format!("a dead clause is watched by {}", Lit::from(i)));
                }
                // a literal dropped since it's false for good may stay cached
                if !self.cdb[c].contains(k) && !(self.asg.level(k.vi()) == 0 && self.asg.assigned(k) == Some(false)) {
                    return Err(format!("{k} is cached for a clause that doesn't have it"));
                }
                *seen.entry((name(c), i)).or_default() += 1;
            }
        }
        let mut n = 0;
        for (i, c) in self.cdb.iter().enumerate().skip(1).filter(|(_, c)| c.len() > 2) {
            for l in [c.lit0(), c.lit1()] {
                n += 1;
                if seen.get(&(name(ClauseId::from(i)), usize::from(!l))) != Some(&1) {
                    return Err(format!("the clause {:?} isn't watched by {l}", c.iter().map(|l| i32::from(*l)).collect::<Vec<_>>()));
                }
            }
        }
        if n != seen.len() {
            return Err("a clause is watched by other literals than its first two".into());
        }
        Ok(())
    }
    pub fn conflicting(&self, cc: ConflictContext, f: &Cnf) -> Result<(), String> {
        let ok = match cc.1 {
            AssignReason::BinaryLink(k) => {
                self.asg.assigned(cc.0) == Some(false) && self.asg.assigned(k) == Some(true) && self.cdb.binary_links(!k).iter().any(|b| b.0 == cc.0)
            }
            AssignReason::Implication(c) => !self.cdb[c].is_dead() && self.cdb[c].iter().all(|l| self.asg.assigned(*l) == Some(false)),
            _ => false,
        };
        if !ok {
            return Err(format!("the conflict {cc:?} isn't one; the trail is {:?}", self.trail()));
        }
        if self.expected(f).is_some() {
            return Err(format!("there is a conflict, but the decisions don't lead to one; the trail is {:?}", self.trail()));
        }
        self.justified()
    }
    /// apply an operation; false: the formula is refuted
    fn apply(&mut self, op: Op, f: &Cnf) -> Result<bool, String> {
        match op {
            Op::Decide(l) => {
                self.asg.assign_by_decision(lit(l));
                match self.asg.propagate(&mut self.cdb) {
                    Ok(()) => self.check(f)?,
                    Err(cc) => {
                        self.conflict = true;
                        self.conflicting(cc, f)?;
                    }
                }
            }
            Op::Try(l) => {
                self.asg.assign_by_decision(lit(l));
                match self.asg.propagate_sandbox(&mut self.cdb) {
                    Ok(()) => self.check(f)?,
                    Err(cc) => {
                        self.conflict = true;
                        self.conflicting(cc, f)?;
                    }
                }
            }
            Op::Cancel(k) => {
                let t = trail(&self.asg);
                let keep = self.asg.len_upto(k);
                self.asg.cancel_until(k);
                self.undone = t[3 * keep..].to_vec();
                self.undone.push(k as u64);
                self.conflict = false;
                if self.asg.decision_level() != k || trail(&self.asg) != t[..3 * keep] {
                    return Err(format!("after a backtrack to {k}, the trail is {:?}", self.trail()));
                }
                self.check(f)?;
            }
            Op::Leave => {
                self.asg.backtrack_sandbox();
                self.conflict = false;
                if self.asg.decision_level() != 0 {
                    return Err("the sandbox was left above the root level".into());
                }
                self.check(f)?;
            }
            Op::Assert(l) => {
                self.asserted.push(l);
                let r = match self.asg.assign_at_root_level(lit(l)) {
                    Err(e) => Err(format!("{e:?}")),
                    Ok(()) => self.asg.clear_asserted_literals(&mut self.cdb).map_err(|e| format!("{e:?}")),
                };
                let expected = self.expected(f);
                match (r, expected) {
                    (Err(_), None) => return Ok(false),
                    (Err(e), Some(_)) => return Err(format!("asserting {l} fails by {e}, but propagation doesn't refute it")),
                    (Ok(()), None) => return Err(format!("asserting {l} is refuted by propagation, but was accepted")),
                    (Ok(()), Some(v)) => {
                        if !self.asg.stack_is_empty() {
                            return Err(format!("the trail isn't empty after asserting {l}: {:?}", self.trail()));
                        }
                        self.check(f)?;
                        self.reduced(f, &v)?;
                    }
                }
            }
        }
        Ok(true)
    }
    /// the clauses are those of the formula under the root literals
    fn reduced(&self, f: &Cnf, v: &[i8]) -> Result<(), String> {
        let of = |l: i32| v[l.unsigned_abs() as usize] as i32 * l.signum();
        let mut want: Vec<Cls> = f
            .iter()
            .filter(|c| c.iter().all(|l| of(*l) != 1))
            .map(|c| c.iter().copied().filter(|l| of(*l) == 0).collect())
            .map(|mut c: Cls| {
                c.sort();
                c
            })
            .collect();
        let mut have: Vec<Cls> = self
            .cdb
            .iter()
            .skip(1)
            .filter(|c| !c.is_dead())
            .map(|c| {
                let mut c: Cls = c.iter().map(|l| i32::from(*l)).collect();
                c.sort();
                c
            })
            .collect();
        want.sort();
        want.dedup();
        have.sort();
        have.dedup();
        if want != have {
            return Err(format!("after an assertion the clauses should be {want:?}, but are {have:?}"));
        }
        Ok(())
    }
}

fn close(f: &Cnf, mut v: Vec<i8>) -> Option<Vec<i8>> {
    loop {
        let mut more = false;
        for c in f {
            let (mut free, mut unit, mut sat) = (0, 0, false);
            for l in c {
                match v[l.unsigned_abs() as usize] as i32 * l.signum() {
                    1 => {
                        sat = true;
                        break;
                    }
                    0 => {
                        free += 1;
                        unit = *l;
                    }
                    _ => (),
                }
            }
            if sat || free > 1 {
                continue;
            }
            if free == 0 {
                return None;
            }
            v[unit.unsigned_abs() as usize] = unit.signum() as i8;
            more = true;
        }
        if !more {
            return Some(v);
        }
    }
}

pub fn root(f: &Cnf) -> Option<St> {
    let s = Solver::try_from((Config { quiet_mode: true, ..Config::default() }, f.as_ref())).ok()?;
    Some(St { asg: s.asg, cdb: s.cdb, undone: vec![], conflict: false, asserted: vec![] })
}

/// Which operations are tried, and how far.
#[derive(Clone, Copy, Debug)]
pub struct Ops {
    pub asserts: bool,
    pub sandbox: bool,
    /// literals are decided only so that they falsify something
    pub only: bool,
    pub depth: usize,
}

/// breadth first over all the states
fn explore(f: &Cnf, o: Ops, cx: &mut Cx) -> Result<(), String> {
    let Some(mut s) = root(f) else {
        cx.add("refuted when built", 1);
        return Ok(());
    };
    // as the solver does before anything else
    match (s.asg.propagate_sandbox(&mut s.cdb), s.expected(f)) {
        (Err(_), None) => {
            cx.add("refuted when built", 1);
            return Ok(());
        }
        (Err(_), Some(_)) => return Err("propagation refutes it at first, but shouldn't".into()),
        (Ok(()), _) => s.check(f)?,
    }
    let n = s.asg.num_vars as i32;
    let useful: HashSet<i32> = f.iter().flatten().map(|l| -l).collect();
    let mut seen = HashSet::new();
    seen.insert(s.key());
    let mut queue = VecDeque::from([(s, vec![])]);
    let (mut states, mut trans, mut conflicts) = (0u64, 0u64, 0u64);
    while let Some((s, path)) = queue.pop_front() {
        states += 1;
        conflicts += s.conflict as u64;
        if path.len() >= o.depth {
            continue;
        }
        let dl = s.asg.decision_level();
        let mut ops = vec![];
        if !s.conflict {
            for v in 1..=n {
                for l in [v, -v] {
                    if s.value(v).is_none() && (!o.only || useful.contains(&l)) {
                        ops.push(if o.sandbox { Op::Try(l) } else { Op::Decide(l) });
                    }
                }
            }
        }
        if o.sandbox {
            if dl > 0 {
                ops.push(Op::Leave);
            }
        } else {
            ops.extend((0..dl).map(Op::Cancel));
        }
        if o.asserts && dl == 0 {
            for v in 1..=n {
                if s.value(v).is_none() {
                    ops.extend([Op::Assert(v), Op::Assert(-v)]);
                }
            }
        }
        for op in ops {
            let mut t = s.clone();
            trans += 1;
            let mut p: Vec<Op> = path.clone();
            p.push(op);
            let r = guard(|| t.apply(op, f)).unwrap_or_else(Err);
            match r {
                Err(e) => return Err(format!("{e}; after {p:?}")),
                Ok(false) => (),
                Ok(true) => {
                    if seen.insert(t.key()) {
                        queue.push_back((t, p));
                    }
                }
            }
        }
    }
    cx.add("states", states);
    cx.add("transitions", trans);
    cx.add("traces", trans);
    cx.add("conflicts of propagation", conflicts);
    Ok(())
}

pub fn over(o: Ops, tag: &str, fs: FSpace) -> Space {
    let (mk, mk2) = (fs.make.clone(), fs.make.clone());
    let depth = if o.depth < 1000 { format!("all sequences of at most {}", o.depth) } else { "all sequences".into() };
    Space {
        name: format!("{}~{tag}", fs.name),
        rule: format!(
            "{}; {depth} {}{}, each followed by propagation, told apart by trail, clauses, watch lists and what may be used again",
            fs.rule,
            if o.sandbox { "decisions and returns in the sandbox of vivification" } else { "decisions and backtracks" },
            if o.asserts { ", and assertions at the root level" } else { "" }
        ),
        size: fs.size,
        run: Box::new(move |i, cx| {
            let c = mk(i);
            cx.sample(|| show(&c));
            explore(&c, o, cx)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// The histories of one wide clause: falsify all but one literal, go back, falsify all but another.
pub fn wide(widths: Vec<usize>) -> Space {
    // the literals that are spared
    fn spared(w: usize) -> Vec<usize> {
        (0..w).filter(|i| w <= 70 || *i < 4 || w - 4 <= *i || i % (w / 8) == 0).collect()
    }
    let w2 = widths.clone();
    let at = move |i: u64| {
        let mut i = i as usize;
        for w in &w2 {
            let l = spared(*w);
            if i < l.len() {
                return (*w, l[i]);
            }
            i -= l.len();
        }
        unreachable!()
    };
    let at2 = at.clone();
    let text = |w: usize| (1..=w as i32).collect::<Cls>();
    Space {
        name: "wide~histories".into(),
        rule: format!(
            "one clause of n literals, n in {widths:?}: all its literals but x are falsified in one of four orders, then the \
             decisions are taken back but for the first k, then all literals but y are falsified in one of four orders; all x, \
             y (beyond 70 literals: the first and last four and each eighth), pairs of orders, and k in 0, 1, n/4, n/2, 3n/4, n-2, \
             with both kinds of propagation"
        ),
        size: widths.iter().map(|w| spared(*w).len() as u64).sum(),
        run: Box::new(move |i, cx| {
            let (w, x) = at(i);
            let f = vec![text(w)];
            let base = root(&f).ok_or("it can't be built")?;
            let order = |o: usize, but: usize| -> Vec<i32> {
                let mut v: Vec<i32> = (0..w).filter(|k| *k != but).map(|k| k as i32 + 1).collect();
                match o {
                    1 => v.reverse(),
                    2 => v.rotate_left(w / 2),
                    3 => {
                        let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|k| **k % 2 == 0);
                        v = a.into_iter().chain(b).collect();
                    }
                    _ => (),
                }
                v
            };
            let mut n = 0;
            for sandbox in [false, true] {
                for o in 0..4 {
                    let mut first = base.clone();
                    let mut mid = vec![];
                    let ks: Vec<usize> = if sandbox { vec![0] } else { vec![0, 1, w / 4, w / 2, 3 * w / 4, w - 2] };
                    for (done, l) in order(o, x).into_iter().enumerate() {
                        if first.value(l).is_none() {
                            step(&mut first, -l, sandbox, w, &f).map_err(|e| format!("{e}; the first order is {o}, but for {x}"))?;
                        }
                        n += 1;
                        let _ = done;
                    }
                    for k in ks {
                        let mut s = first.clone();
                        if sandbox {
                            s.asg.backtrack_sandbox();
                        } else if (k as u32) < s.asg.decision_level() {
                            s.asg.cancel_until(k as u32);
                        }
                        mid.push((k, s));
                    }
                    for (k, s) in &mid {
                        for p in 0..4 {
                            for y in spared(w) {
                                let mut t = s.clone();
                                for l in order(p, y) {
                                    if t.value(l).is_none() {
                                        step(&mut t, -l, sandbox, w, &f)
                                            .map_err(|e| format!("{e}; the first order is {o}, but for {x}, back to {k}, then order {p}, but for {y}"))?;
                                    }
                                    n += 1;
                                }
                            }
                        }
                    }
                }
            }
            cx.add("transitions", n);
            cx.add("states", n);
            cx.add("traces", n / w as u64);
            Ok(())
        }),
        show: Box::new(move |i| {
            let (w, x) = at2(i);
            format!("a clause of {w} literals, first all but {x}")
        }),
    }
}

/// falsify a literal of the only clause
fn step(s: &mut St, l: i32, sandbox: bool, w: usize, f: &Cnf) -> Result<(), String> {
    s.asg.assign_by_decision(lit(l));
    let r = if sandbox { s.asg.propagate_sandbox(&mut s.cdb) } else { s.asg.propagate(&mut s.cdb) };
    if r.is_err() {
        return Err(format!("a conflict; the trail is {:?}", s.trail()));
    }
    let c = &f[0];
    let falses = c.iter().filter(|l| s.value(**l) == Some(false)).count();
    let trues = c.iter().filter(|l| s.value(**l) == Some(true)).count();
    if falses == w || trues != (falses == w - 1) as usize {
        return Err(format!("{falses} literals are false and {trues} true of {w}; the trail is {:?}", s.trail()));
    }
    if trues == 1 {
        s.check(f)?;
    }
    Ok(())
}
