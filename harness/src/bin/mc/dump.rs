//! C23: what `dump_cnf` writes.
use crate::{build_ops::*, solve::*};
use mc::{core::*, form::*, refsat, spaces::*};
use splr::{SolverError, verif::*, *};
use std::{cell::Cell, fs, rc::Rc};

/// Read it strictly: a header that counts what follows, comments, and clauses, one a line.
fn read(text: &str) -> Result<(usize, Cnf), String> {
    let mut l = text.lines();
    let head: Vec<&str> = l.next().unwrap_or("").split_ascii_whitespace().collect();
    let ["p", "cnf", n, m] = head[..] else {
        return Err(format!("its first line is {head:?}"));
    };
    let (Ok(n), Ok(m)) = (n.parse::<usize>(), m.parse::<usize>()) else {
        return Err(format!("its first line is {head:?}"));
    };
    let mut f: Cnf = vec![];
    for l in l.filter(|l| !l.starts_with('c')) {
        let v: Option<Vec<i32>> = l.split_ascii_whitespace().map(|x| x.parse().ok()).collect();
        let Some((0, c)) = v.as_ref().and_then(|v| v.split_last().map(|(z, c)| (*z, c))) else {
            return Err(format!("it has a line {l:?}"));
        };
        if c.is_empty() || c.iter().any(|l| *l == 0 || l.unsigned_abs() as usize > n) {
            return Err(format!("it has a clause {c:?} among {n} vars"));
        }
        f.push(c.to_vec());
    }
    if f.len() != m {
        return Err(format!("its header tells {m} clauses of {}", f.len()));
    }
    Ok((n, f))
}

fn dumped(s: &Solver, n: usize, cx: &mut Cx) -> Result<Cnf, String> {
    let path = cx.scratch.join("dump.cnf");
    fs::write(&path, crate::proof::STALE).map_err(|e| format!("HARNESS: {e}"))?;
    s.dump_cnf(&path);
    let text = fs::read_to_string(&path).map_err(|e| format!("no file was written: {e}"))?;
    let (k, d) = read(&text).map_err(|e| format!("{e}: {}", text.replace('\n', "; ")))?;
    if k != n {
        return Err(format!("it has {k} vars instead of {n}"));
    }
    cx.add("dumps", 1);
    Ok(d)
}

/// the models of one are models of the other clause
fn implied(n: usize, f: &Cnf, c: &Cls) -> bool {
    if f.contains(c) {
        return true;
    }
    let mut g = f.clone();
    g.extend(c.iter().map(|l| vec![-l]));
    !refsat::sat(n, &g)
}

/// Before it solves anything, it holds the problem itself.
fn equivalent(n: usize, f: &Cnf, d: &Cnf) -> Result<(), String> {
    let bad = |c: &Cls, w: &str| Err(format!("{w} {c:?}; dumped: {}", show(d)));
    if n <= 6 {
        if tt(f) & tt_mask(n) == tt(d) & tt_mask(n) {
            return Ok(());
        }
    }
    if let Some(c) = f.iter().find(|c| !implied(n, d, c)) {
        return bad(c, "it lacks");
    }
    match d.iter().find(|c| !implied(n, f, c)) {
        Some(c) => bad(c, "it has in addition"),
        None => Ok(()),
    }
}

/// Each model of it, as far as the vars that occur in it, is a part of a model of the problem. At most
/// `most` of them, beyond six vars.
fn remainder(n: usize, f: &Cnf, d: &Cnf, most: usize, cx: &mut Cx) -> Result<(), String> {
    let mut occ: Vec<usize> = d.iter().flatten().map(|l| l.unsigned_abs() as usize).collect();
    occ.sort();
    occ.dedup();
    if n <= 6 {
        let t = (1..=n).filter(|v| !occ.contains(v)).fold(tt(f), tt_exists);
        let lost = tt(d) & !t & tt_mask(n);
        return if lost == 0 {
            Ok(())
        } else {
            Err(format!("its model {:06b} (bit i: var i+1) is no part of a model of the problem; dumped: {}", lost.trailing_zeros(), show(d)))
        };
    }
    let mut g = d.clone();
    for k in 0..most {
        let Some(m) = refsat::solve(n, &g) else {
            cx.add("all the models", 1);
            break;
        };
        let part: Vec<i32> = occ.iter().map(|v| if m[*v - 1] { *v as i32 } else { -(*v as i32) }).collect();
        let mut h = f.clone();
        h.extend(part.iter().map(|l| vec![*l]));
        if !refsat::sat(n, &h) {
            return Err(format!("its model {part:?} is no part of a model of the problem; dumped: {}", show(d)));
        }
        cx.add("models extended", 1);
        if part.is_empty() {
            break;
        }
        // Look for something different: from the k-th var on.
        let r = k * part.len() / most;
        g.push(part[r..].iter().map(|l| -l).collect());
    }
    Ok(())
}

/// after a run that ended somehow
fn after(s: &Solver, n: usize, f: &Cnf, v: &Verdict, cx: &mut Cx) -> Result<(), String> {
    let d = dumped(s, n, cx)?;
    if let Verdict::Unsat = v {
        // The solver gave up whatever it was about to do; only the layout matters.
        return Ok(());
    }
    remainder(n, f, &d, 6, cx)?;
    match v {
        Verdict::Sat(m) => match satisfied(&d, m) {
            Some(i) => Err(format!("the model that was answered doesn't satisfy {:?}; dumped: {}", d[i], show(&d))),
            None => Ok(()),
        },
        _ if is_sat(f) && !is_sat(&d) => Err(format!("the problem is satisfiable, and what was dumped isn't: {}", show(&d))),
        _ => Ok(()),
    }
}

fn through(mut s: Solver, n: usize, f: &Cnf, cx: &mut Cx) -> Result<(), String> {
    cx.add("evaluations", 1);
    let d = dumped(&s, n, cx).map_err(|e| format!("the dump before solving: {e}"))?;
    cx.add("nontrivial", (d.len() > 1) as u64);
    equivalent(n, f, &d).map_err(|e| format!("the dump before solving: {e}"))?;
    count_conflicts();
    let v = verdict(s.solve());
    cx.add("conflicts", conflicts_counted());
    cx.add(&format!("answers {}", v.tag()), 1);
    after(&s, n, f, &v, cx).map_err(|e| format!("the dump after the answer {}: {e}", v.tag()))
}

fn given(f: &Cnf, cfg: Config, cx: &mut Cx) -> Result<(), String> {
    match make(cfg, f) {
        Ok(s) => through(s, num_vars(f), f, cx),
        Err(v) => judge(f, num_vars(f), &v, || is_sat(f)),
    }
}

/// interrupted by the clock
fn interrupted(f: FSpace, stage: i64, times: u64) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*interrupted@{stage}", f.name),
        rule: format!("{}; the time is over at one of the first {times} ends of stages of {stage} conflicts", f.rule),
        size: f.size * times,
        run: Box::new(move |i, cx| {
            let f = mk(i / times);
            let Ok(mut s) = make(Config::default(), &f) else { return Ok(()) };
            let left = Rc::new(Cell::new(i % times + 1));
            let l2 = left.clone();
            set_oracle(Some(Box::new(move |c, n| match c {
                Choice::StageEnd => {
                    l2.set(l2.get().saturating_sub(n as u64));
                    n
                }
                Choice::Elapsed => 2000 * (l2.get() == 0) as i64,
                Choice::StageSize => stage,
                _ => n,
            })));
            let r = s.solve();
            set_oracle(None);
            cx.add("evaluations", 1);
            if matches!(r, Err(SolverError::TimeOut)) {
                cx.add("interrupted", 1);
                cx.add("nontrivial", 1);
            }
            let v = verdict(r);
            after(&s, num_vars(&f), &f, &v, cx).map_err(|e| format!("the dump after {}: {e}", v.tag()))
        }),
        show: Box::new(move |i| format!("{} and {} stages", show(&mk2(i / times)), i % times + 1)),
    }
}

fn c23(t: bool) -> Vec<Space> {
    let mut v = building(t, through);
    let fs = if t {
        vec![
            subsets(3, 1..=3, 6),
            subsets(4, 2..=3, 4),
            dense(4, 3, 4),
            functions(4, true),
            families(true),
            shapes(100),
            strided(8, &[24, 30, 34], 100, 40),
            strided(12, &[30, 45, 50], 100, 40),
            strided(20, &[60, 75, 80, 86], 100, 20),
            strided(50, &[190, 205, 212], 40, 10),
            strided(100, &[390, 410], 20, 10),
            factors(4, 3, 255),
            colorings(6, 3, true),
        ]
    } else {
        vec![
            subsets(3, 1..=3, 4),
            subsets(4, 2..=3, 3),
            dense(4, 3, 3),
            functions(4, true),
            families(false),
            shapes(40),
            strided(8, &[24, 30, 34], 20, 20),
            strided(12, &[30, 45, 50], 20, 20),
            strided(20, &[60, 75, 80, 86], 20, 10),
            strided(50, &[190, 205, 212], 10, 5),
            factors(4, 3, 255),
        ]
    };
    v.extend(over(
        fs,
        Rc::new(|f, cx| {
            for e in [true, false] {
                given(f, Config { enable_eliminator: e, ..Config::default() }, cx).map_err(|m| format!("{m} (enable_eliminator={e})"))?;
            }
            Ok(())
        }),
    ));
    let ready: Check = Rc::new(|f, cx| given(f, Config::default(), cx));
    // (of the large seatings a few, and no crowds)
    v.extend(in_processed(t, ready.clone()).into_iter().filter(|s| !s.name.starts_with("seats") && !s.name.starts_with("crowds")));
    for k in [1, 2, 5] {
        v.extend(staged(k, over(vec![seatings(if t { 4..=16 } else { 4..=11 }, 4)], ready.clone())));
    }
    for stage in [1, 3] {
        let k = if t { 10 } else { 5 };
        v.push(interrupted(strided(12, &[45, 50], if t { 100 } else { 20 }, 20), stage, k));
        v.push(interrupted(strided(20, &[75, 82, 86], if t { 60 } else { 20 }, 20), stage, k));
        v.push(interrupted(strided(50, &[205, 215], if t { 40 } else { 10 }, 10), stage, k));
        v.push(interrupted(families(t), stage, k));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        level: "exploration",
        rule: "each case is a way to build a formula, a formula or a formula and the stage after which it's interrupted; non-trivial: two or more clauses were dumped, or the search was interrupted",
        assumptions: &["beyond six vars, up to six models of each dump after solving are extended, of differing parts"],
        patience: 60,
        spaces: c23,
    }]
}
