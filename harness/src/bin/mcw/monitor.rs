//! What must hold at the places of the search that are observed.
use crate::tab::*;
use crate::store::sorted;
use mc::{core::*, form::*};
use splr::{
    PropertyDereference,
    assign::*,
    cdb::{ClauseDB, ClauseDBIF},
    types::*,
    verif::Place,
};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum What {
    /// only the answer
    Answer,
    /// what remains is equisatisfiable, and its models extend
    Elimination,
    /// the set of models is kept
    Equivalence,
    /// the assignment is closed under propagation, and is justified
    Propagation,
    /// learnt clauses are implied and new
    Learning,
    /// the counters agree with what they count
    Counters,
}

/// before the analysis of a conflict
struct Before {
    db: Vec<Cls>,
    tab: Option<Tab>,
    value: Vec<Option<bool>>,
    levels: Vec<u32>,
    level: u32,
    roots: Vec<i32>,
    trail: Vec<i32>,
}

/// a recorded elimination, and the assignments it extends well (as far as they were tried)
struct Extension {
    tried: Tab,
    good: Tab,
}

pub struct Monitor {
    pub what: What,
    f: Cnf,
    n: usize,
    /// the models, if there are few vars
    tab: Option<Tab>,
    before: Option<Before>,
    staged: bool,
    memo: HashMap<Vec<i32>, Extension>,
    last: u64,
    count: std::collections::BTreeMap<&'static str, u64>,
    sat: Option<bool>,
    eliminator: bool,
    /// clauses known to follow from the formula
    implied: HashSet<Cls>,
    gone: usize,
    looks: u64,
    conflicts: usize,
    counters: Vec<usize>,
    /// the clauses at a conflict, and the numbers of binary and LBD 2 clauses learnt so far
    made: Option<(HashSet<usize>, [usize; 2])>,
}

const MAX: usize = 13;

fn lits(c: &Clause) -> Cls {
    c.iter().map(|l| i32::from(*l)).collect()
}

fn alive(cdb: &ClauseDB) -> impl Iterator<Item = (usize, &Clause)> {
    cdb.iter().enumerate().skip(1).filter(|(_, c)| !c.is_dead())
}

fn roots(asg: &AssignStack) -> Vec<i32> {
    (1..=asg.num_vars)
        .filter(|v| asg.level(*v) == asg.root_level())
        .filter_map(|v| asg.assign(v).map(|b| if b { v as i32 } else { -(v as i32) }))
        .collect()
}

fn value(v: &[Option<bool>], l: i32) -> Option<bool> {
    v[l.unsigned_abs() as usize].map(|b| b == (l > 0))
}

/// close an assignment under the clauses; false: a clause is falsified.
fn close(db: &[Cls], v: &mut [Option<bool>]) -> bool {
    loop {
        let mut more = false;
        for c in db {
            let mut unit = None;
            let mut free = 0;
            let mut sat = false;
            for l in c {
                match value(v, *l) {
                    Some(true) => {
                        sat = true;
                        break;
                    }
                    None => {
                        free += 1;
                        unit = Some(*l);
                    }
                    _ => (),
                }
            }
            if sat || free > 1 {
                continue;
            }
            match unit {
                None => return false,
                Some(l) => {
                    v[l.unsigned_abs() as usize] = Some(l > 0);
                    more = true;
                }
            }
        }
        if !more {
            return true;
        }
    }
}

impl Monitor {
    pub fn new(what: What, f: &Cnf, n: usize, eliminator: bool) -> Monitor {
        Monitor {
            what,
            f: f.clone(),
            n,
            tab: (n <= MAX).then(|| Tab::of(n, f)),
            before: None,
            staged: false,
            memo: HashMap::new(),
            last: 0,
            count: Default::default(),
            sat: None,
            eliminator,
            implied: HashSet::new(),
            gone: 0,
            looks: 0,
            conflicts: 0,
            counters: vec![],
            made: None,
        }
    }
    pub fn sat(&self) -> bool {
        self.sat.unwrap_or_else(|| match &self.tab {
            Some(t) => !t.is_empty(),
            None => is_sat(&self.f),
        })
    }
    pub fn begin(&mut self) {
        self.before = None;
        self.staged = false;
        self.last = 0;
        self.gone = 0;
        self.looks = 0;
        self.conflicts = 0;
        self.counters.clear();
        self.made = None;
        if self.sat.is_none() {
            self.sat = Some(self.sat());
        }
    }
    pub fn stage_ended(&mut self) {
        self.staged = true;
    }
    fn tick(&mut self, k: &'static str) {
        *self.count.entry(k).or_default() += 1;
    }
    pub fn report(&self, cx: &mut Cx) {
        for (k, v) in &self.count {
            cx.add(k, *v);
        }
    }
    pub fn look(&mut self, p: Place, asg: &mut AssignStack, cdb: &mut ClauseDB) -> Result<(), String> {
        match self.what {
            What::Answer => Ok(()),
            What::Elimination => self.elimination(asg, cdb),
            What::Equivalence => self.equivalence(asg, cdb),
            What::Propagation => match p {
                Place::Loop => self.propagation(asg, cdb),
                Place::Conflict => self.justified(asg, cdb),
            },
            What::Counters => self.counters(p, asg, cdb),
            What::Learning => match p {
                Place::Loop => self.learnt(asg, cdb),
                Place::Conflict => self.conflict(asg, cdb),
            },
        }
    }

    //
    // C08
    //
    fn held(&self, asg: &AssignStack, cdb: &ClauseDB, learnt: bool) -> Tab {
        let n = self.n;
        let mut t = Tab::all(n);
        for (_, c) in alive(cdb).filter(|(_, c)| learnt || !c.is(FlagClause::LEARNT)) {
            t.add(n, &lits(c));
        }
        for l in roots(asg) {
            t.add(n, &[l]);
        }
        t
    }
    /// a cheap mark that changes with the clauses and root literals
    fn mark(&self, asg: &AssignStack, cdb: &ClauseDB) -> u64 {
        let mut h = 1u64;
        for (i, c) in alive(cdb) {
            for l in c.iter() {
                h = h.wrapping_add((usize::from(*l) as u64 + 3).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(i as u32 & 63));
            }
            h = h.wrapping_mul(31).wrapping_add(2 * c.len() as u64 + c.is(FlagClause::LEARNT) as u64);
        }
        for l in roots(asg) {
            h = h.wrapping_mul(37).wrapping_add(l as u64);
        }
        h = h.wrapping_mul(41).wrapping_add(asg.eliminated.len() as u64);
        h | 1
    }
    fn equivalence(&mut self, asg: &mut AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        let m = self.mark(asg, cdb);
        if m == self.last {
            return Ok(());
        }
        self.last = m;
        if asg.num_eliminated_vars > 0 {
            return Err("a var is eliminated though elimination is off".into());
        }
        if self.tab.is_none() {
            return self.equivalence_by_clauses(asg, cdb);
        }
        let t = self.held(asg, cdb, true);
        let f = self.tab.as_ref().unwrap();
        if let Some(m) = f.first_not_in(&t, self.n) {
            return Err(format!("the model {m:?} is lost; the clauses are {:?}, and the root literals {:?}", show_db(cdb), roots(asg)));
        }
        // learnt clauses may be dropped at any time
        let t = self.held(asg, cdb, false);
        if let Some(m) = t.first_not_in(f, self.n) {
            return Err(format!("{m:?} isn't a model, but satisfies what is held and not learnt; held are {:?}, and the root literals {:?}", show_db(cdb), roots(asg)));
        }
        self.tick("databases compared");
        Ok(())
    }

    /// the same by the reference solver
    fn equivalence_by_clauses(&mut self, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        let n = self.n;
        let mut held: Vec<Cls> = alive(cdb).map(|(_, c)| lits(c)).collect();
        held.extend(roots(asg).into_iter().map(|l| vec![l]));
        for c in &held {
            let k = sorted(c);
            if !self.implied.contains(&k) {
                // by propagation, or by the reference solver
                let mut v = vec![None; n + 1];
                for x in c {
                    v[x.unsigned_abs() as usize] = Some(*x < 0);
                }
                if close(&self.f, &mut v) {
                    let mut g = self.f.clone();
                    g.extend(c.iter().map(|x| vec![-x]));
                    if mc::refsat::sat(n, &g) {
                        return Err(format!("{c:?} is held, but doesn't follow from the formula"));
                    }
                }
                self.implied.insert(k.clone());
                *self.count.entry("clauses proved").or_default() += 1;
            }
        }
        // learnt clauses may be dropped at any time
        let mut held: Vec<Cls> = alive(cdb).filter(|(_, c)| !c.is(FlagClause::LEARNT)).map(|(_, c)| lits(c)).collect();
        held.extend(roots(asg).into_iter().map(|l| vec![l]));
        let set: HashSet<Cls> = held.iter().map(|c| sorted(c)).collect();
        for c in &self.f {
            let mut k = c.clone();
            k.sort();
            k.dedup();
            if set.contains(&k) || k.windows(2).any(|w| w[0] == -w[1]) || c.iter().any(|x| k.contains(&-x) || set.contains(&vec![*x])) {
                continue;
            }
            let mut v = vec![None; n + 1];
            for x in c {
                v[x.unsigned_abs() as usize] = Some(*x < 0);
            }
            if close(&held, &mut v) {
                let mut g = held.clone();
                g.extend(c.iter().map(|x| vec![-x]));
                if mc::refsat::sat(n, &g) {
                    return Err(format!("the clause {c:?} of the formula doesn't follow from those held and not learnt: {held:?}"));
                }
            }
        }
        self.tick("databases compared");
        Ok(())
    }

    //
    // C22
    //
    fn counters(&mut self, p: Place, asg: &AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        use splr::{assign::property::Tusize as A, cdb::property::Tusize as C};
        if p == Place::Conflict {
            self.conflicts += 1;
        }
        let vars = 1..=asg.num_vars;
        let gone = vars.clone().filter(|v| asg.var(*v).is(FlagVar::ELIMINATED)).count();
        let free = vars.clone().filter(|v| asg.assign(*v).is_none() && !asg.var(*v).is(FlagVar::ELIMINATED)).count();
        let trail: HashSet<usize> = asg.stack_iter().map(|l| l.vi()).collect();
        let asserted = vars.clone().filter(|v| asg.assign(*v).is_some() && !trail.contains(v)).count();
        let db: Vec<&Clause> = alive(cdb).map(|x| x.1).collect();
        let two = db.iter().filter(|c| c.len() == 2).count();
        let learnt = db.iter().filter(|c| c.is(FlagClause::LEARNT)).count();
        for (what, is, should) in [
            ("vars", asg.derefer(A::NumVar), self.n),
            ("eliminated vars", asg.derefer(A::NumEliminatedVar), gone),
            ("asserted vars", asg.derefer(A::NumAssertedVar), asserted),
            ("unasserted vars", asg.derefer(A::NumUnassertedVar), self.n - gone - asserted),
            ("unassigned vars", asg.derefer(A::NumUnassignedVar), free),
            ("conflicts", asg.derefer(A::NumConflict), self.conflicts),
            ("clauses", cdb.derefer(C::NumClause), db.len()),
            ("binary clauses", cdb.derefer(C::NumBiClause), two),
            ("learnt clauses", cdb.derefer(C::NumLearnt), learnt),
        ] {
            if is != should {
                return Err(format!("the number of {what} is {should}, but {is} is reported ({} conflicts)", self.conflicts));
            }
        }
        let (unreachable, n) = (asg.derefer(A::NumUnreachableVar), self.n);
        if unreachable > n {
            return Err(format!("{unreachable} of {n} vars are reported as unreachable"));
        }
        // these never run backwards
        let now = vec![
            asg.derefer(A::NumConflict),
            asg.derefer(A::NumDecision),
            asg.derefer(A::NumPropagation),
            asg.derefer(A::NumRestart),
            asg.derefer(A::NumRephase),
            asg.derefer(A::NumReconflict),
            asg.derefer(A::NumRepropagation),
            asg.derefer(A::NumEliminatedVar),
            asg.derefer(A::NumAssertedVar),
            cdb.derefer(C::NumReduction),
            cdb.derefer(C::NumReRegistration),
            cdb.derefer(C::NumBiLearnt),
            cdb.derefer(C::NumLBD2),
        ];
        if self.counters.iter().zip(&now).any(|(a, b)| a > b) {
            return Err(format!("a counter runs backwards: from {:?} to {now:?}", self.counters));
        }
        self.counters = now;
        let sum = [cdb.derefer(C::NumBiLearnt), cdb.derefer(C::NumLBD2)];
        match p {
            Place::Conflict => {
                self.staged = false;
                self.made = Some((alive(cdb).map(|x| x.0).collect(), sum));
            }
            Place::Loop => {
                // in-processors make clauses of their own
                if let Some((ids, before)) = self.made.take().filter(|_| !self.staged) {
                    let fresh: Vec<&Clause> = alive(cdb).filter(|(i, _)| !ids.contains(i)).map(|x| x.1).collect();
                    let should = [fresh.iter().filter(|c| c.len() == 2).count(), fresh.iter().filter(|c| c.is(FlagClause::LEARNT) && c.rank <= 2).count()];
                    for (i, what) in ["binary clauses", "clauses of LBD 2"].iter().enumerate() {
                        if sum[i] - before[i] != should[i] {
                            return Err(format!("{} {what} were learnt from a conflict, but {} are counted: {fresh:?}", should[i], sum[i] - before[i]));
                        }
                    }
                    self.tick("learnt clauses counted");
                }
            }
        }
        self.tick("counters compared");
        Ok(())
    }

    //
    // C07
    //
    fn elimination(&mut self, asg: &mut AssignStack, cdb: &mut ClauseDB) -> Result<(), String> {
        let m = self.mark(asg, cdb);
        if m == self.last {
            return Ok(());
        }
        self.last = m;
        let n = self.n;
        let gone: Vec<bool> = (0..=n).map(|v| 0 < v && v <= asg.num_vars && asg.var(v).is(FlagVar::ELIMINATED)).collect();
        for (_, c) in alive(cdb) {
            if c.iter().any(|l| gone[l.vi()]) {
                return Err(format!("{:?} has an eliminated var", lits(c)));
            }
        }
        if let Some(v) = (1..=n).find(|v| gone[*v] && asg.assign(*v).is_some()) {
            return Err(format!("{v} is eliminated and assigned"));
        }
        if asg.num_eliminated_vars != self.gone {
            self.tick(if self.looks == 0 { "eliminations before the search" } else { "eliminations during the search" });
            self.gone = asg.num_eliminated_vars;
        }
        self.looks += 1;
        if self.tab.is_none() {
            return self.elimination_by_models(asg, cdb, &gone);
        }
        // learnt clauses may be dropped at any time, so what's said about models must hold without them
        let t = self.held(asg, cdb, false);
        if self.sat() && self.held(asg, cdb, true).is_empty() {
            return Err(format!("it's satisfiable, but what remains isn't: {:?}, {:?}", show_db(cdb), roots(asg)));
        }
        if !t.is_empty() && !self.sat() {
            return Err(format!("it's unsatisfiable, but what remains isn't: {:?}, {:?}", show_db(cdb), roots(asg)));
        }
        self.tick("remainders checked");
        if asg.eliminated.is_empty() {
            // nothing is eliminated: the models of the rest are models
            let f = self.tab.as_ref().unwrap();
            if let Some(m) = t.first_not_in(f, n) {
                return Err(format!("{m:?} isn't a model, but satisfies what remains: {:?}, {:?}", show_db(cdb), roots(asg)));
            }
            return Ok(());
        }
        let key: Vec<i32> = asg.eliminated.iter().map(|l| usize::from(*l) as i32).collect();
        let mut e = self.memo.remove(&key).unwrap_or_else(|| Extension { tried: Tab::none(n), good: Tab::none(n) });
        let mut base: Option<AssignStack> = None;
        let mut bad = None;
        for a in 0..1usize << n {
            if !t.has(a) || (1..=n).any(|v| gone[v] && a >> (v - 1) & 1 == 1) {
                continue;
            }
            if !e.tried.has(a) {
                let base = base.get_or_insert_with(|| {
                    let mut b = asg.clone();
                    b.cancel_until(b.root_level());
                    b
                });
                let mut s = base.clone();
                for v in 1..=n {
                    if !gone[v] && s.assign(v).is_none() {
                        s.assign_by_decision(Lit::from((v, a >> (v - 1) & 1 == 1)));
                    }
                }
                let m = s.extend_model(cdb);
                e.tried.set(a);
                *self.count.entry("models extended").or_default() += 1;
                match to_model(n, &m) {
                    Some(m) if satisfied(&self.f, &m).is_none() => e.good.set(a),
                    m => bad = Some((a, m)),
                }
            } else if !e.good.has(a) {
                bad = Some((a, None));
            }
            if bad.is_some() {
                break;
            }
        }
        self.memo.insert(key, e);
        if let Some((a, m)) = bad {
            return Err(format!(
                "the model {:?} of what remains is extended to {m:?}; eliminated: {:?}",
                bits(n, a),
                gone.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>()
            ));
        }
        Ok(())
    }

    /// with many vars: a model of the rest for each literal that has one
    fn elimination_by_models(&mut self, asg: &mut AssignStack, cdb: &mut ClauseDB, gone: &[bool]) -> Result<(), String> {
        let n = self.n;
        let mut held = show_db(cdb);
        held.extend(roots(asg).into_iter().map(|l| vec![l]));
        if self.sat() && !mc::refsat::sat(n, &held) {
            return Err(format!("it's satisfiable, but what remains is not: {held:?}"));
        }
        // learnt clauses may be dropped at any time
        let mut held: Vec<Cls> = alive(cdb).filter(|(_, c)| !c.is(FlagClause::LEARNT)).map(|(_, c)| lits(c)).collect();
        held.extend(roots(asg).into_iter().map(|l| vec![l]));
        let first = mc::refsat::solve(n, &held);
        if first.is_some() && !self.sat() {
            return Err(format!("it's unsatisfiable, but what remains without learnt clauses is not: {held:?}"));
        }
        self.tick("remainders checked");
        if first.is_none() {
            return Ok(());
        }
        let mut base = asg.clone();
        base.cancel_until(base.root_level());
        let mut try_one = |m: &[bool]| -> Result<(), String> {
            let mut s = base.clone();
            for v in 1..=n {
                if !gone[v] && s.assign(v).is_none() {
                    s.assign_by_decision(Lit::from((v, m[v - 1])));
                }
            }
            let x = s.extend_model(cdb);
            match to_model(n, &x) {
                Some(x) if satisfied(&self.f, &x).is_none() => Ok(()),
                x => Err(format!("the model {m:?} of what remains is extended to {x:?}")),
            }
        };
        let mut count = 0;
        for v in 1..=n as i32 {
            for l in [v, -v] {
                if gone[v as usize] || asg.assign(v as usize).is_some() && asg.level(v as usize) == 0 {
                    continue;
                }
                held.push(vec![l]);
                if let Some(m) = mc::refsat::solve(n, &held) {
                    try_one(&m)?;
                    count += 1;
                }
                held.pop();
            }
        }
        try_one(&first.unwrap())?;
        *self.count.entry("models extended").or_default() += count + 1;
        Ok(())
    }

    //
    // C09
    //
    fn propagation(&mut self, asg: &mut AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        self.justified(asg, cdb)?;
        if asg.remains() {
            return Ok(());
        }
        self.tick("closures checked");
        for (_, c) in alive(cdb) {
            let mut free = 0;
            let mut sat = false;
            for l in c.iter() {
                match asg.assigned(*l) {
                    Some(true) => {
                        sat = true;
                        break;
                    }
                    None => free += 1,
                    _ => (),
                }
            }
            if sat {
                continue;
            }
            if free == 0 {
                return Err(format!("{:?} is falsified, but the search goes on: {:?}", lits(c), trail(asg)));
            }
            if free == 1 {
                return Err(format!("{:?} is unit, but the search goes on: {:?}", lits(c), trail(asg)));
            }
        }
        Ok(())
    }
    fn justified(&mut self, asg: &mut AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        self.tick("trails checked");
        let dl = asg.decision_level();
        let root = asg.root_level();
        let say = |s: String| Err(format!("{s}: the trail is {:?}", trail(asg)));
        let mut pos: Vec<Option<usize>> = vec![None; asg.num_vars + 1];
        let mut unassigned = 0;
        for (i, l) in asg.stack_iter().enumerate() {
            if pos[l.vi()].replace(i).is_some() {
                return say(format!("{l} is twice on the trail"));
            }
            if asg.assigned(*l) != Some(true) {
                return say(format!("{l} is on the trail but isn't assigned"));
            }
            if asg.var(l.vi()).is(FlagVar::ELIMINATED) {
                return say(format!("the eliminated {l} is assigned"));
            }
        }
        for v in 1..=asg.num_vars {
            match asg.assign(v) {
                Some(_) if pos[v].is_none() && asg.level(v) != root => return say(format!("{v} is assigned at level {}, but isn't on the trail", asg.level(v))),
                None if pos[v].is_some() => return say(format!("{v} isn't assigned, but is on the trail")),
                None if !asg.var(v).is(FlagVar::ELIMINATED) => unassigned += 1,
                _ => (),
            }
        }
        let told = asg.derefer(splr::assign::property::Tusize::NumUnassignedVar);
        if told != unassigned {
            return say(format!("{unassigned} vars are unassigned, but {told} are said to be"));
        }
        // bounds[k]: where level k+1 begins
        let bounds: Vec<usize> = (0..dl).map(|k| asg.len_upto(k)).collect();
        let before = |i: usize, l: Lit| match pos[l.vi()] {
            Some(j) => j < i,
            None => true,
        };
        for (i, l) in asg.stack_iter().enumerate() {
            let lv = bounds.iter().filter(|b| **b <= i).count() as u32;
            let v = l.vi();
            if asg.level(v) != lv {
                return say(format!("{l} is at level {} of the trail, but its level is {}", lv, asg.level(v)));
            }
            let decided = lv > 0 && bounds[lv as usize - 1] == i;
            match asg.reason(v) {
                AssignReason::Decision(k) if decided && k == lv => (),
                AssignReason::Decision(0) if lv == root => (),
                r if decided => return say(format!("level {lv} begins with {l} whose reason is {r:?}")),
                AssignReason::BinaryLink(p) => {
                    if asg.assigned(p) != Some(true) || !before(i, p) {
                        return say(format!("{l} is implied by {p}, which isn't assigned before"));
                    }
                    if !alive(cdb).any(|(_, c)| c.len() == 2 && c.iter().any(|x| *x == *l) && c.iter().any(|x| *x == !p)) {
                        return say(format!("{l} is implied by {p}, but there is no such clause"));
                    }
                }
                AssignReason::Implication(cid) => {
                    let c = &cdb[cid];
                    if c.is_dead() {
                        return say(format!("the reason of {l} is dead"));
                    }
                    if !c.iter().any(|x| *x == *l) {
                        return say(format!("the reason of {l} is {:?}", lits(c)));
                    }
                    if let Some(x) = c.iter().find(|x| **x != *l && (asg.assigned(**x) != Some(false) || !before(i, **x))) {
                        return say(format!("the reason of {l} is {:?}, but {x} isn't false before", lits(c)));
                    }
                }
                AssignReason::None if lv == root => (),
                r => return say(format!("{l} is assigned at level {lv} with reason {r:?}")),
            }
        }
        Ok(())
    }

    //
    // C10
    //
    fn conflict(&mut self, asg: &mut AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        let db: Vec<Cls> = alive(cdb).map(|(_, c)| lits(c)).collect();
        let value: Vec<Option<bool>> = (0..=asg.num_vars).map(|v| if v == 0 { None } else { asg.assign(v) }).collect();
        if !db.iter().any(|c| c.iter().all(|l| self::value(&value, *l) == Some(false))) {
            return Err(format!("no clause is falsified at a conflict: {:?}", trail(asg)));
        }
        self.tick("conflicts checked");
        let tab = (self.n <= MAX).then(|| self.held(asg, cdb, true));
        let levels = (0..=asg.num_vars).map(|v| if v == 0 { 0 } else { asg.level(v) }).collect();
        self.before = Some(Before { tab, value, levels, level: asg.decision_level(), roots: roots(asg), trail: trail(asg), db });
        self.staged = false;
        Ok(())
    }
    fn learnt(&mut self, asg: &mut AssignStack, cdb: &ClauseDB) -> Result<(), String> {
        let Some(b) = self.before.take() else {
            return Ok(());
        };
        let n = asg.num_vars;
        if b.level <= asg.decision_level() {
            return Err(format!("the search stays at level {} after the conflict of {:?}", b.level, b.trail));
        }
        if self.staged {
            // in-processors have worked since, and the learnt clause isn't there any more
            if !self.eliminator {
                self.implied_roots(asg, &b)?;
            }
            return Ok(());
        }
        self.implied_roots(asg, &b)?;
        // what is held now and wasn't
        let sorted = |c: &Cls| {
            let mut c = c.clone();
            c.sort();
            c
        };
        let old: HashSet<Cls> = b.db.iter().map(sorted).collect();
        let mut learnt: Vec<Cls> = alive(cdb).map(|(_, c)| sorted(&lits(c))).filter(|c| !old.contains(c)).collect();
        learnt.extend(roots(asg).into_iter().filter(|l| !b.roots.contains(l)).map(|l| vec![l]));
        if learnt.is_empty() {
            return Err(format!("nothing new is learnt from the conflict of {:?}; the clauses were {:?}", b.trail, b.db));
        }
        for l in &learnt {
            self.tick("learnt clauses checked");
            let say = |s: &str| Err(format!("the clause {l:?} learnt from the conflict of {:?} {s}; the clauses were {:?}", b.trail, b.db));
            if let Some(t) = &b.tab {
                if !t.within(&Tab::clause(self.n, l)) {
                    return say("isn't implied");
                }
            } else {
                // by contradiction under propagation
                let mut v = vec![None; n + 1];
                for x in b.roots.iter() {
                    v[x.unsigned_abs() as usize] = Some(*x > 0);
                }
                for x in l {
                    v[x.unsigned_abs() as usize] = Some(*x < 0);
                }
                if close(&b.db, &mut v) {
                    return say("isn't implied by propagation");
                }
            }
        }
        // one of them ends the conflict, and propagation alone didn't find it
        for l in &learnt {
            if l.iter().any(|x| value(&b.value, *x) != Some(false)) {
                continue;
            }
            let mut top = l.iter().filter(|x| b.levels[x.unsigned_abs() as usize] == b.level);
            let (Some(p), None) = (top.next(), top.next()) else {
                continue;
            };
            let mut v = vec![None; n + 1];
            for x in b.roots.iter().copied().chain(l.iter().filter(|x| *x != p).map(|x| -x)) {
                v[x.unsigned_abs() as usize] = Some(x > 0);
            }
            if close(&b.db, &mut v) && value(&v, *p) != Some(true) {
                return Ok(());
            }
        }
        Err(format!("{learnt:?} learnt from the conflict of {:?} say nothing new; the clauses were {:?}", b.trail, b.db))
    }
    fn implied_roots(&self, asg: &AssignStack, b: &Before) -> Result<(), String> {
        for l in roots(asg) {
            if b.roots.contains(&l) {
                continue;
            }
            let ok = match &b.tab {
                Some(t) => t.within(&Tab::clause(self.n, &[l])),
                None => true,
            };
            if !ok {
                return Err(format!("{l} is asserted after the conflict of {:?}, but isn't implied by {:?}", b.trail, b.db));
            }
        }
        Ok(())
    }
}

fn trail(asg: &AssignStack) -> Vec<i32> {
    asg.stack_iter().map(|l| i32::from(*l)).collect()
}

fn show_db(cdb: &ClauseDB) -> Vec<Cls> {
    alive(cdb).map(|(_, c)| lits(c)).collect()
}

fn to_model(n: usize, m: &[Option<bool>]) -> Option<Vec<i32>> {
    (1..=n).map(|v| m[v].map(|b| if b { v as i32 } else { -(v as i32) })).collect()
}
