//! The clause database by itself: every sequence of its operations.
//!
//! A state is a real clause database (with a real assignment stack), and what a plain list of
//! clauses says it should hold. From each state every operation is tried on a copy; afterwards
//! both are compared: clauses, flags, counters, binary links, watches, and what is registered.
use crate::watch::{lit, name, watches};
use mc::{core::*, form::*};
use splr::{
    Config, Solver,
    assign::*,
    cdb::{ClauseDB, ClauseDBIF, ReductionType, property::Tusize},
    types::*,
};
use std::{
    collections::{BTreeMap, HashSet, VecDeque},
    fs,
    rc::Rc,
};

#[derive(Clone, Debug, PartialEq)]
struct Held {
    /// sorted
    lits: Cls,
    learnt: bool,
}

#[derive(Clone)]
struct St {
    asg: AssignStack,
    cdb: ClauseDB,
    held: BTreeMap<u64, Held>,
    sandbox: Option<(u64, Held)>,
    /// what each had at first
    first: BTreeMap<u64, Cls>,
    /// ids in the order in which they became free
    free: Vec<u64>,
    asserted: Vec<i32>,
    added_vars: usize,
}

#[derive(Clone, Debug)]
enum Op {
    New(Cls, bool),
    Remove(u64),
    Permanent(u64),
    /// drop a literal
    Drop(u64, i32),
    Assert(i32),
    Simplify(u64),
    /// remove at most this many learnt clauses
    Reduce(usize),
    /// reduce in another way
    ReduceAll(u8),
    Try(Cls),
    Leave,
    AddVar,
}

/// those with at most two free vars; with many vars, the ones near each that falsifies a clause
fn assignments(n: usize, all: &BTreeMap<u64, Held>) -> Vec<Vec<Option<bool>>> {
    if n <= N + 1 {
        return (0..3u32.pow(n as u32))
            .map(|code| std::iter::once(None).chain((0..n as u32).map(|v| [None, Some(true), Some(false)][(code / 3u32.pow(v) % 3) as usize])).collect::<Vec<_>>())
            .filter(|m| m.iter().filter(|x| x.is_none()).count() <= 3)
            .collect();
    }
    let mut v = vec![];
    for h in all.values() {
        for other in [true, false] {
            let mut m = vec![Some(other); n + 1];
            m[0] = None;
            for l in &h.lits {
                m[l.unsigned_abs() as usize] = Some(*l < 0);
            }
            v.push(m.clone());
            for l in &h.lits {
                for x in [None, Some(*l > 0)] {
                    let mut m = m.clone();
                    m[l.unsigned_abs() as usize] = x;
                    v.push(m);
                }
            }
        }
    }
    v
}

pub fn sorted(c: &[i32]) -> Cls {
    let mut c = c.to_vec();
    c.sort();
    c
}

fn ints(c: &Clause) -> Cls {
    c.iter().map(|l| i32::from(*l)).collect()
}

fn cid(id: u64) -> ClauseId {
    ClauseId::from(((id - 3) / 4) as usize)
}

fn is_learnt(c: &Clause) -> bool {
    c.is(FlagClause::LEARNT)
}

impl St {
    fn new(n: usize, limit: usize, proof: Option<&std::path::Path>) -> Result<St, String> {
        let mut cfg = Config { quiet_mode: true, c_cls_lim: limit, ..Config::default() };
        if let Some(p) = proof {
            cfg.use_certification = true;
            cfg.io_odir = p.parent().unwrap().to_path_buf();
            cfg.io_pfile = p.file_name().unwrap().into();
        }
        let none: &[Cls] = &[];
        let mut s = Solver::try_from((cfg, none)).map_err(|e| format!("{e:?}"))?;
        while s.asg.num_vars < n {
            splr::SatSolverIF::add_var(&mut s);
        }
        Ok(St { asg: s.asg, cdb: s.cdb, held: BTreeMap::new(), sandbox: None, first: BTreeMap::new(), free: vec![], asserted: vec![], added_vars: 0 })
    }
    fn value(&self, l: i32) -> Option<bool> {
        self.asg.assign(l.unsigned_abs() as usize).map(|b| b == (l > 0))
    }
    fn key(&mut self) -> Vec<u64> {
        let mut k = vec![];
        for (i, c) in self.cdb.iter().enumerate().skip(1) {
            k.push(i as u64 * 4 + c.len() as u64 * 1000 + is_learnt(c) as u64);
            k.extend(c.iter().map(|l| usize::from(*l) as u64));
        }
        k.push(u64::MAX);
        for i in 2..2 * (self.asg.num_vars + 1) {
            let l = Lit::from(i);
            k.extend(watches(&mut self.cdb, l).into_iter().flat_map(|w| [name(w.0), usize::from(w.1) as u64]));
            k.push(u64::MAX);
            k.extend(self.cdb.binary_links(l).iter().map(|b| usize::from(b.0) as u64));
            k.push(u64::MAX);
        }
        k.extend(&self.free);
        k.extend(self.asserted.iter().map(|l| *l as u64));
        k.push(self.sandbox.as_ref().map_or(0, |s| s.0));
        k
    }
    /// the id of a binary clause
    fn registered(&self, c: &[i32]) -> Option<u64> {
        let c = sorted(c);
        self.held.iter().map(|(i, h)| (*i, h)).chain(self.sandbox.iter().map(|(i, h)| (*i, h))).find(|(_, h)| h.lits.len() == 2 && h.lits == c).map(|x| x.0)
    }
    fn fresh(&mut self, got: ClauseId) -> Result<u64, String> {
        let id = name(got);
        if self.held.contains_key(&id) || self.sandbox.as_ref().is_some_and(|s| s.0 == id) {
            return Err(format!("the id {got} is given to a new clause, but is in use"));
        }
        self.free.retain(|f| *f != id);
        Ok(id)
    }
    fn gone(&mut self, id: u64) {
        self.held.remove(&id);
        self.free.push(id);
    }
    fn apply(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::New(c, learnt) => {
                let mut v: Vec<Lit> = c.iter().map(|l| lit(*l)).collect();
                let want = if c.len() == 2 { self.registered(c) } else { None };
                match (self.cdb.new_clause(&mut self.asg, &mut v, *learnt), want) {
                    (RefClause::RegisteredClause(r), Some(id)) if name(r) == id => (),
                    (RefClause::Clause(r), None) => {
                        let id = self.fresh(r)?;
                        self.held.insert(id, Held { lits: sorted(c), learnt: *learnt && c.len() > 2 });
                        self.first.insert(id, sorted(c));
                    }
                    (r, _) => return Err(format!("new_clause returns {r:?}, though the clause is {}held", if want.is_some() { "" } else { "not " })),
                }
            }
            Op::Try(c) => {
                let mut v: Vec<Lit> = c.iter().map(|l| lit(*l)).collect();
                let want = if c.len() == 2 { self.registered(c) } else { None };
                match (self.cdb.new_clause_sandbox(&mut self.asg, &mut v), want) {
                    (RefClause::RegisteredClause(r), Some(id)) if name(r) == id => (),
                    (RefClause::Clause(r), None) => {
                        let id = self.fresh(r)?;
                        let learnt = is_learnt(&self.cdb[r]);
                        self.sandbox = Some((id, Held { lits: sorted(c), learnt }));
                        self.first.insert(id, sorted(c));
                    }
                    (r, _) => return Err(format!("new_clause_sandbox returns {r:?}, though the clause is {}held", if want.is_some() { "" } else { "not " })),
                }
            }
            Op::Leave => {
                let (id, _) = self.sandbox.take().unwrap();
                self.cdb.remove_clause_sandbox(cid(id));
                self.free.push(id);
            }
            Op::Remove(id) => {
                self.cdb.remove_clause(cid(*id));
                self.gone(*id);
            }
            Op::Permanent(id) => {
                self.cdb.make_permanent(cid(*id));
                self.held.get_mut(id).unwrap().learnt = false;
            }
            Op::Drop(id, p) => {
                let h = self.held[id].clone();
                let rest: Cls = h.lits.iter().copied().filter(|l| l != p).collect();
                let r = self.cdb.transform_by_elimination(cid(*id), lit(*p));
                let ok = match (&r, rest.len()) {
                    (RefClause::UnitClause(u), 1) => i32::from(*u) == rest[0],
                    (RefClause::RegisteredClause(x), 2) => self.registered(&rest) == Some(name(*x)),
                    (RefClause::Clause(x), k) if k >= 2 => {
                        let ok = name(*x) == *id && (k > 2 || self.registered(&rest).is_none());
                        // a binary clause may or may not stay learnt
                        let learnt = h.learnt && (k > 2 || is_learnt(&self.cdb[*x]));
                        self.held.insert(*id, Held { lits: rest.clone(), learnt });
                        ok
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("dropping {p} of {:?} returns {r:?}", h.lits));
                }
            }
            Op::Assert(l) => {
                self.asg.assign_at_root_level(lit(*l)).map_err(|e| format!("asserting {l}: {e:?}"))?;
                self.asserted.push(*l);
            }
            Op::Simplify(id) => {
                let h = self.held[id].clone();
                let rest: Cls = h.lits.iter().copied().filter(|l| self.value(*l).is_none()).collect();
                let sat = h.lits.iter().any(|l| self.value(*l) == Some(true));
                let reg = if rest.len() == 2 && h.lits.len() > 2 { self.registered(&rest) } else { None };
                let r = self.cdb.transform_by_simplification(&mut self.asg, cid(*id));
                let ok = match &r {
                    RefClause::Dead => sat,
                    _ if sat => false,
                    RefClause::EmptyClause => rest.is_empty(),
                    RefClause::UnitClause(u) => rest.len() == 1 && i32::from(*u) == rest[0],
                    RefClause::RegisteredClause(x) => reg == Some(name(*x)),
                    RefClause::Clause(x) => rest.len() > 1 && reg.is_none() && name(*x) == *id,
                };
                if !ok {
                    return Err(format!("simplifying {:?} under {:?} returns {r:?}", h.lits, self.asserted));
                }
                match r {
                    RefClause::Dead | RefClause::RegisteredClause(_) => self.gone(*id),
                    RefClause::Clause(x) => {
                        let learnt = h.learnt && (rest.len() > 2 || is_learnt(&self.cdb[x]));
                        self.held.insert(*id, Held { lits: rest, learnt });
                    }
                    _ => (),
                }
            }
            Op::Reduce(_) | Op::ReduceAll(_) => {
                let how = match op {
                    Op::Reduce(k) => ReductionType::LBDonADD(*k),
                    Op::ReduceAll(0) => ReductionType::RASonADD(1),
                    Op::ReduceAll(1) => ReductionType::RASonALL(0.5, 0.5),
                    _ => ReductionType::LBDonALL(2, 0.3),
                };
                // all of the same high rank
                splr::verif::set_oracle(Some(Box::new(|c, v| if c == splr::verif::Choice::ReduceRank { 9 } else { v })));
                self.cdb.reduce(&mut self.asg, how);
                splr::verif::set_oracle(None);
                let dead: Vec<u64> = self.held.keys().copied().filter(|i| self.cdb[cid(*i)].is_dead()).collect();
                let learnt = self.held.values().filter(|h| h.learnt).count();
                for id in &dead {
                    if !self.held[id].learnt {
                        return Err(format!("{:?} isn't learnt, but was removed", self.held[id].lits));
                    }
                    self.gone(*id);
                }
                if let Op::Reduce(k) = op
                    && dead.len() != learnt.min(*k)
                {
                    return Err(format!("{} clauses of {learnt} were removed instead of {k}", dead.len()));
                }
            }
            Op::AddVar => {
                self.asg.handle(SolverEvent::NewVar);
                self.cdb.handle(SolverEvent::NewVar);
                self.added_vars += 1;
            }
        }
        self.check()
    }
    fn all(&self) -> BTreeMap<u64, Held> {
        let mut a = self.held.clone();
        a.extend(self.sandbox.clone());
        a
    }
    /// both hold the same
    fn check(&mut self) -> Result<(), String> {
        let all = self.all();
        let mut alive = 0;
        for (i, c) in self.cdb.iter().enumerate().skip(1) {
            let id = name(ClauseId::from(i));
            match (all.get(&id), c.is_dead()) {
                (None, true) => (),
                (None, false) => return Err(format!("{:?} is held, but shouldn't be", ints(c))),
                (Some(h), true) => return Err(format!("{:?} isn't held any more", h.lits)),
                (Some(h), false) => {
                    alive += 1;
                    if sorted(&ints(c)) != h.lits || is_learnt(c) != h.learnt {
                        return Err(format!("{h:?} became {c:?}"));
                    }
                }
            }
        }
        if alive != all.len() {
            return Err("a clause is lost".into());
        }
        // counters
        let count = |p: &dyn Fn(&Held) -> bool| self.held.values().filter(|h| p(h)).count();
        for (k, want) in [
            (Tusize::NumClause, self.held.len()),
            (Tusize::NumBiClause, count(&|h| h.lits.len() == 2)),
            (Tusize::NumLearnt, count(&|h| h.learnt)),
        ] {
            let got = self.cdb.derefer(k);
            if got != want {
                return Err(format!("{k:?} is {got} instead of {want}"));
            }
        }
        // binary links and watches
        let n = self.asg.num_vars;
        for i in 2..2 * (n + 1) {
            let l = Lit::from(i);
            let li = i32::from(l);
            let mut links: Vec<(i32, u64)> = self.cdb.binary_links(l).iter().map(|b| (i32::from(b.0), name(b.1))).collect();
            let mut want: Vec<(i32, u64)> = all
                .iter()
                .filter(|(_, h)| h.lits.len() == 2 && h.lits.contains(&li))
                .map(|(id, h)| (if h.lits[0] == li { h.lits[1] } else { h.lits[0] }, *id))
                .collect();
            links.sort();
            want.sort();
            if links != want {
                return Err(format!("the binary links of {li} are {links:?} instead of {want:?}"));
            }
            let ws = watches(&mut self.cdb, l);
            let mut watching: Vec<u64> = ws.iter().map(|w| name(w.0)).collect();
            let mut want: Vec<u64> = all
                .iter()
                .filter(|(id, h)| h.lits.len() > 2 && [self.cdb[cid(**id)].lit0(), self.cdb[cid(**id)].lit1()].contains(&!l))
                .map(|x| *x.0)
                .collect();
            watching.sort();
            want.sort();
            if watching != want {
                return Err(format!("{li} watches {watching:?} instead of {want:?}"));
            }
            for (c, k) in ws {
                // a literal that was dropped may stay cached: what it was resolved with does the job when it's true
                if !self.first[&name(c)].contains(&i32::from(k)) {
                    return Err(format!("{k} is cached for a clause that doesn't have it"));
                }
            }
        }
        if let (limit @ 1.., e) = (self.limit(), self.cdb.check_size().is_err())
            && e != (self.held.len() > limit)
        {
            return Err(format!("{} clauses held with a limit of {limit}: out of memory {e}", self.held.len()));
        }
        Ok(())
    }
    fn limit(&self) -> usize {
        LIMIT
    }
    /// what only reads, or changes only copies
    fn probe(&self, pool: &[Cls]) -> Result<(), String> {
        let all = self.all();
        let n = self.asg.num_vars as i32;
        // what is registered
        let mut s = self.clone();
        for a in -n..=n {
            for b in a + 1..=n {
                if a == 0 || b == 0 || a == -b || self.value(a).is_some() || self.value(b).is_some() {
                    continue;
                }
                let want = self.registered(&[a, b]);
                match (s.cdb.new_clause_sandbox(&mut s.asg, &mut vec![lit(b), lit(a)]), want) {
                    (RefClause::RegisteredClause(r), Some(id)) if name(r) == id => (),
                    (RefClause::Clause(r), None) if !all.contains_key(&name(r)) => s.cdb.remove_clause_sandbox(r),
                    (r, _) => return Err(format!("[{a}, {b}] is {}, but trying it returns {r:?}", if want.is_some() { "held" } else { "not held" })),
                }
            }
        }
        s.check().map_err(|e| format!("after trying binary clauses: {e}"))?;
        // validation
        if self.sandbox.is_none() {
            for m in assignments(n as usize, &all) {
                let of = |l: i32| m[l.unsigned_abs() as usize].map(|b| b == (l > 0));
                for strict in [false, true] {
                    let bad = |h: &Held| {
                        let sat = h.lits.iter().any(|l| of(*l) == Some(true));
                        let open = h.lits.iter().any(|l| of(*l).is_none());
                        !(strict && h.learnt) && !sat && (strict || !open)
                    };
                    let ok = match self.cdb.validate(&m, strict) {
                        None => !all.values().any(bad),
                        Some(c) => all.get(&name(c)).is_some_and(bad),
                    };
                    if !ok {
                        return Err(format!("validate({:?}, {strict}) is wrong", &m[1..]));
                    }
                }
            }
        }
        // a clause falsified by decisions: minimized by binary clauses, and its rank
        for c in pool.iter().filter(|c| c.iter().all(|l| l.abs() <= n && self.value(*l).is_none())) {
            let mut s = self.clone();
            for l in &c[1..] {
                s.asg.assign_by_decision(lit(-l));
            }
            let mut v: Vec<Lit> = c.iter().map(|l| lit(*l)).collect();
            s.cdb.minimize_with_bi_clauses(&s.asg, &mut v);
            let left: Cls = v.iter().map(|l| i32::from(*l)).collect();
            if left.first() != Some(&c[0]) || left.iter().any(|l| !c.contains(l)) {
                return Err(format!("{c:?} is minimized to {left:?}"));
            }
            if let Some(l) = c.iter().find(|l| !left.contains(l) && self.registered(&[c[0], -**l]).is_none()) {
                return Err(format!("{c:?} is minimized to {left:?}, though no binary clause allows to drop {l}"));
            }
            for (id, h) in &self.held {
                let levels: HashSet<u32> = h.lits.iter().filter(|l| s.value(**l).is_some()).map(|l| s.asg.level(l.unsigned_abs() as usize)).filter(|l| *l > 0).collect();
                if h.lits.iter().all(|l| s.value(*l).is_some()) {
                    let learnt = s.cdb.update_at_analysis(&s.asg, cid(*id));
                    if learnt != h.learnt || s.cdb[cid(*id)].rank as usize != levels.len() {
                        return Err(format!("{:?} with {} levels has the rank {}", h.lits, levels.len(), s.cdb[cid(*id)].rank));
                    }
                }
            }
        }
        Ok(())
    }
    fn ops(&self, pool: &[Cls], b: Bound) -> Vec<Op> {
        if self.sandbox.is_some() {
            return vec![Op::Leave];
        }
        let n = self.asg.num_vars as i32;
        let mut v = vec![];
        for c in pool.iter().filter(|c| c.iter().all(|l| l.abs() <= n && self.value(*l).is_none())) {
            if self.held.len() < b.held {
                v.extend([Op::New(c.clone(), false), Op::New(c.clone(), true)]);
            }
            v.push(Op::Try(c.iter().rev().copied().collect()));
        }
        for (id, h) in &self.held {
            v.push(Op::Remove(*id));
            if h.learnt {
                v.push(Op::Permanent(*id));
            }
            if h.lits.iter().all(|l| self.value(*l).is_none()) {
                v.extend(h.lits.iter().map(|l| Op::Drop(*id, *l)));
            } else {
                v.push(Op::Simplify(*id));
            }
        }
        if self.asserted.len() < b.asserts {
            v.extend((-n..=n).filter(|l| *l != 0 && self.value(*l).is_none()).map(Op::Assert));
        }
        if self.held.values().any(|h| h.learnt) {
            v.extend([Op::Reduce(1), Op::Reduce(2), Op::ReduceAll(0), Op::ReduceAll(1), Op::ReduceAll(2)]);
        }
        if self.added_vars < b.vars {
            v.push(Op::AddVar);
        }
        v
    }
}

/// the limit on the number of clauses in all the explored databases
const LIMIT: usize = 3;

#[derive(Clone, Copy, Debug)]
pub struct Bound {
    n: usize,
    depth: usize,
    held: usize,
    asserts: usize,
    vars: usize,
}

fn explore(pool: &[Cls], b: Bound, cx: &mut Cx) -> Result<(), String> {
    let s = St::new(b.n, LIMIT, None)?;
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut queue = VecDeque::from([(s, Vec::<Op>::new())]);
    let (mut states, mut trans) = (0u64, 0u64);
    while let Some((s, path)) = queue.pop_front() {
        states += 1;
        guard(|| s.probe(pool)).unwrap_or_else(Err).map_err(|e| format!("{e}; after {path:?}"))?;
        if path.len() >= b.depth {
            continue;
        }
        for op in s.ops(pool, b) {
            let mut t = s.clone();
            trans += 1;
            let r = guard(|| t.apply(&op)).unwrap_or_else(Err);
            let mut p = path.clone();
            p.push(op);
            r.map_err(|e| format!("{e}; after {p:?}"))?;
            if seen.insert(t.key()) {
                queue.push_back((t, p));
            }
        }
    }
    cx.add("states", states);
    cx.add("transitions", trans);
    cx.add("traces", trans);
    Ok(())
}

/// without copies, since a copy has no proof: the proof has what is held
fn logged(pool: &[Cls], b: Bound, cx: &mut Cx) -> Result<(), String> {
    let path = cx.scratch.join("store.drat");
    // odometer over the choices
    let mut choice: Vec<usize> = vec![0; b.depth];
    loop {
        let _ = fs::remove_file(&path);
        let mut s = St::new(b.n, LIMIT, Some(&path))?;
        let mut done = vec![];
        let mut width = vec![0; b.depth];
        let mut ever: HashSet<Cls> = HashSet::new();
        for i in 0..b.depth {
            let ops = s.ops(pool, b);
            width[i] = ops.len();
            if ops.is_empty() {
                break;
            }
            let op = ops[choice[i]].clone();
            done.push(op.clone());
            guard(|| s.apply(&op)).unwrap_or_else(Err).map_err(|e| format!("{e}; after {done:?}"))?;
            ever.extend(s.held.values().map(|h| h.lits.clone()));
        }
        cx.add("transitions", b.depth as u64);
        cx.add("states", 1);
        cx.add("traces", 1);
        s.cdb.certificate_save().map_err(|e| format!("{e:?}"))?;
        let text = fs::read_to_string(&path).map_err(|e| format!("HARNESS: {e}"))?;
        let mut log: Vec<Cls> = vec![];
        for l in text.lines().filter(|l| *l != "0") {
            let (del, l) = match l.strip_prefix("d ") {
                Some(l) => (true, l),
                None => (false, l),
            };
            let mut c: Cls = l.split_ascii_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
            if c.pop() != Some(0) || c.contains(&0) {
                return Err(format!("the line {l:?} in a proof; after {done:?}"));
            }
            c.sort();
            if del {
                match log.iter().position(|x| *x == c) {
                    Some(i) => {
                        log.swap_remove(i);
                    }
                    None => return Err(format!("the proof deletes {c:?}, which isn't in it; after {done:?}")),
                }
            } else {
                if c.len() > 1 && !ever.contains(&c) {
                    return Err(format!("the proof adds {c:?}, which was never held; after {done:?}"));
                }
                log.push(c);
            }
        }
        for h in s.held.values() {
            match log.iter().position(|x| *x == h.lits) {
                Some(i) => {
                    log.swap_remove(i);
                }
                None => return Err(format!("{:?} is held, but isn't in the proof; after {done:?}", h.lits)),
            }
        }
        // next
        let Some(i) = (0..b.depth).rev().find(|i| choice[*i] + 1 < width[*i]) else {
            return Ok(());
        };
        choice[i] += 1;
        choice[i + 1..].fill(0);
    }
}

/// vars at first; one more may be added
const N: usize = 4;
const WIDE: usize = 10;

/// clauses that meet in many ways
fn vocabulary() -> Vec<Cls> {
    vec![
        vec![1, 2],
        vec![1, 2, 3],
        vec![1, 2, 3, 4],
        vec![3, 2, -1],
        vec![1, -2, 3],
        vec![3, 2],
        vec![4, 3, 1],
        vec![-1, -2],
        vec![4, -3],
        vec![2, 1, 4, -3],
        vec![-4, 3, 2, 1],
        vec![5, 1, 2],
    ]
}

/// wide ones
fn wide() -> Vec<Cls> {
    vec![
        (1..=10).collect(),
        (1..=8).rev().collect(),
        (3..=10).map(|x| if x % 2 == 0 { x } else { -x }).collect(),
        vec![2, 3, 1, 5, 4, 6, 7, 8, -9],
        vec![10, -1, 9, -2, 8, -3],
        vec![-10, 1, -9, 2, -8],
        vec![2, 1],
        vec![11, 10, 9, 8, 7, 6, 5],
    ]
}

fn pools(k: usize, v: &[Cls]) -> Vec<Vec<Cls>> {
    (0u32..1 << v.len()).filter(|m| m.count_ones() as usize == k).map(|m| (0..v.len()).filter(|i| m >> i & 1 == 1).map(|i| v[i].clone()).collect()).collect()
}

fn space(k: usize, b: Bound, proof: bool) -> Space {
    let v = if b.n == N { vocabulary() } else { wide() };
    let p = Rc::new(pools(k, &v));
    let p2 = p.clone();
    Space {
        name: format!("pools of {k} {b:?}{}", if proof { " logged" } else { "" }),
        rule: format!(
            "each choice of {k} out of {} clauses with {} vars; all sequences of up to {} operations on a database: adding one of these (learnt or not, or in a sandbox), \
             removing, making permanent, dropping a literal, assertions, simplification, reduction, new vars; at most {} clauses, {} assertions, {} new vars{}",
            v.len(),
            b.n,
            b.depth,
            b.held,
            b.asserts,
            b.vars,
            if proof { "; each written as a proof" } else { "; states are told apart by clauses, flags, links, watches and free ids" }
        ),
        size: p.len() as u64,
        run: Box::new(move |i, cx| if proof { logged(&p[i as usize], b, cx) } else { explore(&p[i as usize], b, cx) }),
        show: Box::new(move |i| format!("{:?}", p2[i as usize])),
    }
}

pub fn spaces(big: bool) -> Vec<Space> {
    let b = |depth, held, asserts, vars| Bound { n: N, depth, held, asserts, vars };
    let w = |depth, held, asserts, vars| Bound { n: WIDE, depth, held, asserts, vars };
    let k = big as usize;
    vec![
        space(1, b(6 + k, 4, 2, 1), false),
        space(2, b(5 + k, 4, 2, 1), false),
        space(3, b(4 + k, 4, 2, 0), false),
        space(4, b(3, 4, 1, 0), false),
        space(1, w(4 + k, 3, 1, 0), false),
        space(2, w(3 + k, 3, 2, 1), false),
        space(1, b(4, 4, 2, 1), true),
        space(2, b(3 + k, 4, 1, 0), true),
    ]
}
