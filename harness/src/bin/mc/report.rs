//! C28: what a solver prints.
use mc::{core::*, form::*, spaces::*};
use splr::{
    assign::{AssignStack, property::{TEma as AsgEma, Tusize as A}},
    cdb::{ClauseDB, property::{TEma as CdbEma, Tusize as C}},
    state::{LogF64Id, LogUsizeId, Stat, State, StateIF, property::TEma as LevelEma},
    types::*,
    verif::*,
    *,
};
use std::{
    cell::RefCell,
    fs,
    io::{Write, stdout},
    os::fd::AsRawFd,
    path::Path,
    rc::Rc,
};

unsafe extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// what goes to the standard output and error meanwhile
fn captured<T>(scratch: &Path, f: impl FnOnce() -> T) -> Result<(T, [String; 2]), String> {
    let io = |e: std::io::Error| format!("HARNESS: {e}");
    let names = [scratch.join("stdout"), scratch.join("stderr")];
    let files = [fs::File::create(&names[0]).map_err(io)?, fs::File::create(&names[1]).map_err(io)?];
    stdout().flush().map_err(io)?;
    let kept = unsafe { [dup(1), dup(2)] };
    for (i, f) in files.iter().enumerate() {
        if kept[i] < 0 || unsafe { dup2(f.as_raw_fd(), i as i32 + 1) } < 0 {
            return Err("HARNESS: the output can't be captured".into());
        }
    }
    let r = guard(f);
    let flushed = stdout().flush();
    for (i, k) in kept.iter().enumerate() {
        unsafe {
            dup2(*k, i as i32 + 1);
            close(*k);
        }
    }
    flushed.map_err(io)?;
    let text = |p: &Path| fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).map_err(io);
    Ok((r?, [text(&names[0])?, text(&names[1])?]))
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Mode {
    interface: bool,
    quiet: bool,
    plain: bool,
    heat: bool,
    journal: bool,
}

fn modes() -> Vec<Mode> {
    (0..32)
        .map(|m: u32| Mode { interface: m & 1 == 1, quiet: m & 2 == 2, plain: m & 4 == 4, heat: m & 8 == 8, journal: m & 16 == 16 })
        // alike when silent
        .filter(|m| (m.interface && !m.quiet) || (!m.plain && m.heat == m.journal))
        .collect()
}

/// averages and such: what's recorded, its label in the report, the precision of this
const RATES: [(LogF64Id, &str, f64); 9] = [
    (LogF64Id::Progress, "prg%:", 0.000051),
    (LogF64Id::LiteralBlockEntanglement, "entg:", 0.0051),
    (LogF64Id::CLevel, "cLvl:", 0.0051),
    (LogF64Id::BLevel, "bLvl:", 0.0051),
    (LogF64Id::ConflictPerRestart, "/cpr:", 0.0051),
    (LogF64Id::EmaLBD, "LBD:", 0.0051),
    (LogF64Id::TrendLBD, "trnd:", 0.0051),
    (LogF64Id::DecisionPerConflict, "/dpc:", 0.0051),
    (LogF64Id::PropagationPerConflict, "/ppc:", 0.0051),
];

/// without what controls a terminal
fn bare(s: &str) -> String {
    let mut t = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\x1B' {
            t.push(x);
            continue;
        }
        for y in c.by_ref() {
            if y.is_ascii_alphabetic() {
                break;
            }
        }
    }
    t
}

/// the number after a label
fn number(t: &str, label: &str) -> Result<f64, String> {
    let i = t.find(label).ok_or_else(|| format!("no {label} in {t:?}"))? + label.len();
    t[i..].trim_start().split([',', '\n', ' ']).next().unwrap_or("").parse().map_err(|_| format!("{label} is followed by {:?}", &t[i..].chars().take(20).collect::<String>()))
}

/// a row of the heat map: the part of the clauses of an LBD, and that by usage
fn heat_row(t: &str, i: usize) -> Result<Vec<f64>, String> {
    let head = if i < 6 { format!("LBD {} (", i + 1) } else { "LBD>6 (".into() };
    let l = t.lines().find_map(|l| l.trim_start().strip_prefix(&head)).ok_or_else(|| format!("no row {i} of the heat map in {t:?}"))?;
    let x: Vec<f64> = l.split([',', ')', ':', ' ']).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(f64::INFINITY)).collect();
    if x.len() != 9 || x.iter().any(|x| x.is_infinite()) || (x[0] - x[1..].iter().sum::<f64>()).abs() > 0.0051 {
        return Err(format!("a bad row of the heat map: {l:?}"));
    }
    Ok(x)
}

/// the reports in the order of time
fn reports(out: &str, m: Mode) -> Result<Vec<String>, String> {
    let rows = 7 + if m.heat { 7 } else { 0 };
    let mut v: Vec<String> = out.split(&format!("\x1B[{rows}A\x1B[1G")).map(bare).collect();
    let head = v.remove(0);
    for (what, t, fixed) in std::iter::once(("the head", &head, true)).chain(v.iter().map(|t| ("a report", t, !m.journal))) {
        let n = t.matches('\n').count();
        if n < rows || fixed && n != rows {
            return Err(format!("{what} has {n} lines instead of {rows}: {t:?}"));
        }
    }
    if m.plain && out.contains("\x1B[0") {
        return Err(format!("colours: {out:?}"));
    }
    for t in &v {
        // the journal is in the order of time
        let mut last = 0;
        for l in t.lines().filter_map(|l| l.trim_start().strip_prefix("stage(")) {
            let x: usize = match l.split([',', ')']).nth(2).map(|x| x.trim().parse()) {
                Some(Ok(x)) => x,
                _ => return Err(format!("a bad line of the journal: {l:?}")),
            };
            if x < last {
                return Err(format!("stage {x} after {last} in the journal: {t:?}"));
            }
            last = x;
        }
        if m.heat {
            for i in 0..7 {
                heat_row(t, i)?;
            }
        }
    }
    Ok(v)
}

fn printed(f: &Cnf, n: usize, k: i64, cx: &mut Cx) -> Result<(), String> {
    let want = is_sat(f);
    let mut first: Option<(Vec<usize>, Vec<f64>)> = None;
    for m in modes() {
        let cfg = Config { splr_interface: m.interface, quiet_mode: m.quiet, no_color: m.plain, show_cdb_heatmap: m.heat, show_journal: m.journal, ..Config::default() };
        cx.add("evaluations", 1);
        let (r, [out, err]) = captured(&cx.scratch, || {
            if k > 0 {
                set_oracle(Some(Box::new(move |c, v| if c == Choice::StageSize { k } else { v })));
            }
            let mut s = match Solver::try_from((cfg, f.as_ref())) {
                Ok(s) => s,
                // refused while it's built
                Err(Ok(c)) => return Ok((None, matches!(c, Certificate::SAT(_)))),
                Err(Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_))) => return Ok((None, false)),
                Err(Err(e)) => return Err(format!("{e:?}")),
            };
            match s.solve() {
                Ok(c) => Ok((Some(s), matches!(c, Certificate::SAT(_)))),
                Err(e) => Err(format!("{e:?}")),
            }
        })?;
        let ctx = |e: String| format!("{e} ({m:?})");
        let (s, sat) = r.map_err(ctx)?;
        if sat != want {
            return Err(ctx("the verdict is wrong".into()));
        }
        if !err.is_empty() {
            return Err(ctx(format!("it writes {err:?} to the standard error")));
        }
        let loud = m.interface && !m.quiet;
        if !loud && !out.is_empty() {
            return Err(ctx(format!("it writes {out:?} to the standard output")));
        }
        let Some(mut s) = s else {
            continue;
        };
        let counters = vec![
            s.asg.derefer(A::NumConflict),
            s.asg.derefer(A::NumDecision),
            s.asg.derefer(A::NumPropagation),
            s.asg.derefer(A::NumUnassertedVar),
            s.asg.derefer(A::NumAssertedVar),
            s.asg.derefer(A::NumEliminatedVar),
            s.cdb.derefer(C::NumLearnt),
            s.cdb.derefer(C::NumLBD2),
            s.cdb.derefer(C::NumBiClause),
            s.cdb.derefer(C::NumClause) - s.cdb.derefer(C::NumLearnt),
            s.state[Stat::Restart],
            s.state[Stat::VivifiedClause],
            s.state[Stat::VivifiedVar],
            s.state[Stat::Vivification],
            s.state[Stat::Simplify],
            s.state[Stat::SubsumedClause],
        ];
        let ended = [LogUsizeId::NumConflict, LogUsizeId::NumDecision].map(|i| s.state[i]);
        if counters[0] > 0 && ended != counters[..2] {
            return Err(ctx(format!("the last report is of {ended:?} conflicts and decisions, not {:?}", &counters[..2])));
        }
        let (_, last) = captured(&cx.scratch, || s.state.progress(&s.asg, &s.cdb))?;
        use LogUsizeId::*;
        let kept = [NumConflict, NumDecision, NumPropagate, RemainingVar, AssertedVar, EliminatedVar, RemovableClause, LBD2Clause, BiClause, PermanentClause, Restart, VivifiedClause].map(|i| s.state[i]);
        if kept[..] != counters[..kept.len()] {
            return Err(ctx(format!("{kept:?} is recorded for {counters:?}")));
        }
        let mut counters = counters;
        counters.extend([UnreachableCore, Stage, StageCycle, StageSegment, Simplify, SubsumedClause, VivifiedVar, Vivify].map(|i| s.state[i]));
        let rates = RATES.map(|(i, ..)| s.state[i]).to_vec();
        let done = (counters[4] + counters[5]) as f64 / n as f64 * 100.0;
        if n > 0 && (rates[0] - done).abs() > 1e-6 {
            return Err(ctx(format!("the progress is recorded as {} instead of {done}", rates[0])));
        }
        match &first {
            None => first = Some((counters.clone(), rates.clone())),
            Some((c, _)) if *c != counters => return Err(ctx(format!("the statistics are {counters:?} instead of {c:?}"))),
            Some((_, r)) if r.iter().zip(&rates).any(|(a, b)| (a - b).abs() > 1e-9 * (1.0 + a.abs()) || a.is_nan() != b.is_nan()) => {
                return Err(ctx(format!("the rates are {rates:?} instead of {r:?}")));
            }
            _ => (),
        }
        if !loud {
            if last.iter().any(|t| !t.is_empty()) {
                return Err(ctx(format!("a report in spite of all: {last:?}")));
            }
            continue;
        }
        let v = reports(&out, m).map_err(ctx)?;
        if v.is_empty() {
            return Err(ctx(format!("no report: {out:?}")));
        }
        let last_report = number(v.last().unwrap(), "#conflict:").map_err(ctx)?;
        if last_report != counters[0] as f64 {
            return Err(ctx(format!("the last report is of {last_report} conflicts instead of {}", counters[0])));
        }
        let mut conflicts = 0.0;
        for t in &v {
            let c = number(t, "#conflict:").map_err(ctx)?;
            if c < conflicts {
                return Err(ctx(format!("{c} conflicts are reported after {conflicts}")));
            }
            conflicts = c;
            let sum = number(t, "#rem:").map_err(ctx)? + number(t, "#fix:").map_err(ctx)? + number(t, "#elm:").map_err(ctx)?;
            if sum != n as f64 {
                return Err(ctx(format!("the vars in {t:?} aren't {n}")));
            }
        }
        let [out, err] = last;
        let t = match reports(&format!("{}{out}", "\n".repeat(7 + if m.heat { 7 } else { 0 })), m).map_err(ctx)?.pop() {
            Some(t) if err.is_empty() => t,
            _ => return Err(ctx(format!("no report: {out:?} {err:?}"))),
        };
        let labels = ["#conflict:", "#decision:", "#propagate:", "#rem:", "#fix:", "#elm:", "Remv:", "LBD2:", "BinC:", "Perm:", "#RST:", "vivC:"];
        for (l, c) in labels.iter().zip(&counters) {
            if number(&t, l).map_err(ctx)? != *c as f64 {
                return Err(ctx(format!("{l} isn't {c} in {t:?}")));
            }
        }
        if m.heat {
            use splr::cdb::ClauseDBIF;
            let alive: Vec<_> = s.cdb.iter().skip(1).filter(|c| !c.is_dead()).collect();
            for i in 0..7u16 {
                let in_row = |c: &&&Clause| c.rank.clamp(1, 7) == i + 1;
                let row: Vec<&&Clause> = alive.iter().filter(in_row).collect();
                let column = |j: u32| row.iter().filter(|c| (c.used.saturating_add(1) as u32).ilog2().min(7) == j).count();
                let part = |k: usize| if alive.is_empty() { 0.0 } else { k as f64 / alive.len() as f64 };
                let want: Vec<f64> = std::iter::once(part(row.len())).chain((0..8).map(|j| part(column(j)))).collect();
                let got = heat_row(&t, i as usize).map_err(ctx)?;
                if !alive.is_empty() && want.iter().zip(&got).any(|(a, b)| (a - b).abs() > 0.00051) {
                    return Err(ctx(format!("row {i} of the heat map is {got:?} instead of {want:?}")));
                }
            }
            cx.add("heat maps", 1);
        }
        for ((_, l, e), r) in RATES.iter().zip(&rates) {
            if r.is_finite() && (number(&t, l).map_err(ctx)? - r).abs() > *e {
                return Err(ctx(format!("{l} isn't {r} in {t:?}")));
            }
        }
        cx.add("reports", v.len() as u64 + 1);
        cx.add("nontrivial", (counters[0] > 0) as u64);
    }
    Ok(())
}

fn over(f: FSpace, k: i64) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*modes{}", f.name, if k > 0 { format!("@{k}") } else { String::new() }),
        rule: format!(
            "{}; each with {} combinations of interface, quiet, colour, heat map and journal{}",
            f.rule,
            modes().len(),
            if k > 0 { format!("; stages start with {k} conflicts") } else { String::new() }
        ),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            cx.sample(|| show(&f));
            printed(&f, num_vars(&f), k, cx)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// What's said to be a moving average of something that changes from conflict to conflict:
/// with the first value the weight is known, and from then on each next value.
#[derive(Default)]
struct Average {
    last: f64,
    weight: Option<f64>,
}

impl Average {
    fn next(&mut self, what: &str, value: f64, x: f64) -> Result<(), String> {
        let old = std::mem::replace(&mut self.last, value);
        match self.weight {
            None if x == old && value == old => Ok(()),
            None => {
                let w = (value - old) / (x - old);
                self.weight = Some(w);
                if w > 0.0 && w <= 1.0 { Ok(()) } else { Err(format!("the first average of {what} is {value}, of {x}")) }
            }
            Some(w) => {
                let want = w * x + (1.0 - w) * old;
                if (want - value).abs() > 1e-6 * (1.0 + want.abs()) {
                    return Err(format!("the average of {what} goes from {old} to {value} by {x}; its weight was {w}"));
                }
                Ok(())
            }
        }
    }
}

#[derive(Default)]
struct Averages {
    conflicts: u64,
    /// decisions, propagations
    per: [(Average, usize); 2],
    /// levels of conflicts
    level: Average,
    /// the last conflict's level, until the next loop
    pending: Option<f64>,
    back: f64,
    learnt: u64,
    /// without a restart
    stayed: u64,
    /// conflicts per restart; the restarts and conflicts seen, and the conflicts at the last restart if that's sure
    per_restart: Average,
    restarts: u64,
    seen: [usize; 2],
    base: Option<usize>,
}

impl Averages {
    fn see(&mut self, p: Place, asg: &AssignStack, cdb: &ClauseDB, state: &State) -> Result<(), String> {
        use splr::assign::AssignIF;
        let now = [A::NumRestart, A::NumConflict].map(|k| asg.derefer(k));
        let before = std::mem::replace(&mut self.seen, now);
        let value = asg.refer(AsgEma::ConflictPerRestart).get();
        match now[0] - before[0] {
            0 if value != self.per_restart.last => {
                return Err(format!("the average of conflicts per restart goes to {value} without a restart"));
            }
            0 => (),
            // in-processors have conflicts of their own: only where none of them is in between
            1 if now[1] == before[1] => match self.base {
                Some(b) => {
                    self.restarts += 1;
                    self.per_restart.next("conflicts per restart", value, (now[1] - b) as f64)?;
                    self.base = Some(now[1]);
                }
                None => {
                    self.per_restart.last = value;
                    self.base = Some(now[1]);
                }
            },
            _ => {
                self.per_restart.last = value;
                self.base = None;
            }
        }
        let levels = |s: &State| [LevelEma::ConflictLevel, LevelEma::BackjumpLevel].map(|k| s.refer(k).get());
        match p {
            Place::Conflict => {
                self.conflicts += 1;
                for (i, (k, e, what)) in [(A::NumDecision, AsgEma::DecisionPerConflict, "decisions"), (A::NumPropagation, AsgEma::PropagationPerConflict, "propagations")].into_iter().enumerate() {
                    let now = asg.derefer(k);
                    let (a, before) = &mut self.per[i];
                    a.next(&format!("{what} per conflict"), asg.refer(e).get(), (now - *before) as f64)?;
                    *before = now;
                }
                self.pending = Some(asg.decision_level() as f64);
            }
            Place::Loop => {
                let Some(l) = self.pending.take() else {
                    return Ok(());
                };
                let [c, b] = levels(state);
                let rest = asg.decision_level() as f64;
                if c != self.level.last || rest > 0.0 {
                    // something that isn't a unit clause was learnt
                    self.learnt += 1;
                    self.stayed += (rest > 0.0) as u64;
                    self.level.next("the levels of conflicts", c, l)?;
                    if b > c {
                        return Err(format!("the average of levels after conflicts {b} exceeds that of the conflicts {c}"));
                    }
                    if rest > 0.0 && b <= self.back * 0.9 {
                        return Err(format!("the average of levels after conflicts goes from {} to {b} by at least {rest}", self.back));
                    }
                    if rest > 0.0 && b == 0.0 {
                        return Err(format!("the average of levels after conflicts is 0 after {rest}"));
                    }
                    let lbd: &EmaView = cdb.refer(CdbEma::LBD);
                    if cdb.derefer(C::NumLearnt) > 0 && lbd.get_fast() <= 0.0 {
                        return Err(format!("the average LBD is {}", lbd.get_fast()));
                    }
                }
                self.back = b;
            }
        }
        Ok(())
    }
}

/// the averages are followed through a search
fn averaged(f: &Cnf, e: bool, cx: &mut Cx) -> Result<(), String> {
    let cfg = Config { enable_eliminator: e, ..Config::default() };
    let seen = Rc::new(RefCell::new((Averages::default(), None)));
    let s2 = seen.clone();
    set_observer(Some(Box::new(move |p, asg, cdb, state| {
        let (a, wrong) = &mut *s2.borrow_mut();
        if wrong.is_none() {
            *wrong = a.see(p, asg, cdb, state).err();
        }
    })));
    cx.add("evaluations", 1);
    let v = run(cfg, f);
    set_observer(None);
    let (a, wrong) = &*seen.borrow();
    if let Some(w) = wrong {
        return Err(format!("conflict {}: {w}", a.conflicts));
    }
    cx.add("conflicts followed", a.conflicts);
    cx.add("backjumps", a.stayed);
    cx.add("restarts followed", a.restarts);
    cx.add("nontrivial", (a.learnt > 1) as u64);
    if !matches!(v, Verdict::Sat(_) | Verdict::Unsat) {
        return Err("no answer".into());
    }
    Ok(())
}

fn averages(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*averages", f.name),
        rule: format!("{}; with and without elimination; after each conflict the averages of decisions, propagations, levels and LBD are compared with what was seen", f.rule),
        size: f.size * 2,
        run: Box::new(move |i, cx| averaged(&mk(i / 2), i % 2 == 0, cx)),
        show: Box::new(move |i| show(&mk2(i / 2))),
    }
}

fn c28(t: bool) -> Vec<Space> {
    let mut v: Vec<Space> = [
        subsets(3, 1..=3, if t { 4 } else { 3 }),
        functions(3, true),
        families(t),
        strided(20, &[70, 86, 92], 20, if t { 100 } else { 20 }),
        strided(50, &[180, 210, 220], 10, if t { 60 } else { 12 }),
        strided(100, &[400, 430], 5, if t { 40 } else { 8 }),
        strided(200, &[820, 850], 2, if t { 10 } else { 2 }),
    ]
    .into_iter()
    .map(averages)
    .collect();
    v.extend(patient([
        functions(3, true),
        families(t),
        strided(20, &[86, 92], 20, if t { 100 } else { 10 }),
        strided(50, &[210, 220], 10, if t { 60 } else { 12 }),
        strided(100, &[400, 430], 5, if t { 20 } else { 4 }),
    ].into_iter().map(averages).collect()));
    for k in [1, 2] {
        v.extend(staged(k, vec![averages(strided(50, &[180, 210, 220], 10, if t { 60 } else { 12 }))]));
    }
    for k in [0, 1, 2] {
        for f in [
            subsets(3, 1..=3, if t { 4 } else { 3 }),
            dense(4, 3, if t { 3 } else { 2 }),
            functions(3, true),
            strided(20, &[70, 86, 92], 20, if t { 100 } else { 20 }),
            strided(50, &[180, 210, 220], 10, if t { 60 } else { 12 }),
            strided(100, &[400, 430], 5, if t { 40 } else { 8 }),
            families(t),
            shapes(if t { 200 } else { 60 }),
            wides(10, if t { 20 } else { 4 }),
        ] {
            v.push(over(f, k));
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        level: "exploration",
        rule: "each evaluation is a formula solved in a mode of output, different from the others by construction; non-trivial: with reports and a conflict",
        assumptions: &["Config::splr_interface is what asks for output; warnings of CNF::load aren't a solver's"],
        spaces: c28,
        patience: 120,
    }]
}
