//! C32: local search.
use mc::{core::*, form::*, spaces::*};
use splr::{cdb::*, solver::SolveIF, types::*, *};
use std::collections::HashMap;

fn falsified(cs: &[Cls], a: &HashMap<usize, bool>) -> Vec<usize> {
    let wrong = |l: &i32| a[&(l.unsigned_abs() as usize)] != (*l > 0);
    (0..cs.len()).filter(|k| cs[*k].iter().all(wrong)).collect()
}

fn clauses(s: &ClauseDB) -> Vec<Cls> {
    s.iter().skip(1).filter(|c| !c.is_dead()).map(|c| c.iter().map(|l| i32::from(*l)).collect()).collect()
}

/// from one assignment, with each limit
fn walk(s: &mut Solver, cs: &[Cls], start: &HashMap<usize, bool>, steps: usize, cx: &mut Cx) -> Result<(), String> {
    let mut last = start.clone();
    for limit in 1..=steps {
        let mut a = start.clone();
        let (from, to) = guard(|| s.cdb.stochastic_local_search(&s.asg, &mut a, limit))?;
        cx.add("evaluations", 1);
        let ctx = |e: String| format!("{limit} steps from {start:?} to {a:?} over {cs:?}: {e}");
        if clauses(&s.cdb) != cs {
            return Err(ctx("the clauses were changed".into()));
        }
        if a.len() != start.len() || a.keys().any(|k| !start.contains_key(k)) {
            return Err(ctx("other variables".into()));
        }
        let (f, t) = (falsified(cs, start), falsified(cs, &a));
        if (from, to) != (f.len(), t.len()) {
            return Err(ctx(format!("said to falsify {from} and {to} clauses, but falsifies {} and {}", f.len(), t.len())));
        }
        // one more step flips a variable of a falsified clause
        let flips: Vec<i32> = a.iter().filter(|(v, b)| last[v] != **b).map(|(v, _)| *v as i32).collect();
        let unsat = falsified(cs, &last);
        let fair = match (&flips[..], limit) {
            ([], 1) => true,
            ([], _) => unsat.is_empty(),
            ([v], 2..) => unsat.iter().any(|k| cs[*k].iter().any(|l| l.abs() == *v)),
            _ => false,
        };
        if !fair {
            return Err(ctx(format!("step {} flips {flips:?} of {last:?} that falsifies {unsat:?}", limit - 1)));
        }
        cx.add("nontrivial", (limit > 1 && !flips.is_empty()) as u64);
        last = a;
    }
    Ok(())
}

fn over(f: FSpace, steps: usize, solved: bool) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*walks{}{steps}", f.name, if solved { " solved " } else { "" }),
        rule: format!("{}; up to {steps} steps from each assignment{}", f.rule, if solved { ", after solving" } else { "" }),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = num_vars(&f);
            let Ok(mut s) = make(Config::default(), &f) else { return Ok(()) };
            if solved {
                let v = verdict(s.solve());
                judge(&f, n, &v, || is_sat(&f))?;
            }
            let cs = clauses(&s.cdb);
            let mut used: Vec<usize> = cs.iter().flatten().map(|l| l.unsigned_abs() as usize).collect();
            used.sort_unstable();
            used.dedup();
            let all = used.len() <= 8;
            for bits in 0..if all { 1u64 << used.len() } else { 64 } {
                // else patterns of 64 strides
                let at = |k: usize| if all { bits >> k & 1 == 1 } else { (k as u64 * (2 * bits + 1) + bits) % 7 < 3 };
                let a = used.iter().enumerate().map(|(k, v)| (*v, at(k))).collect();
                walk(&mut s, &cs, &a, steps, cx)?;
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

fn c32(t: bool) -> Vec<Space> {
    vec![
        over(subsets(2, 1..=2, 8), 5, false),
        over(subsets(3, 1..=3, if t { 4 } else { 3 }), 5, false),
        over(subsets(4, 3..=3, if t { 4 } else { 2 }), if t { 10 } else { 6 }, false),
        over(dense(3, 2, if t { 5 } else { 2 }), 8, false),
        over(strided(7, &[20, 30, 40], if t { 20 } else { 5 }, if t { 10 } else { 3 }), if t { 20 } else { 10 }, false),
        over(strided(10, &[40], if t { 20 } else { 5 }, if t { 10 } else { 3 }), if t { 20 } else { 10 }, true),
        over(strided(20, &[92], if t { 20 } else { 4 }, if t { 10 } else { 2 }), if t { 100 } else { 30 }, true),
        over(families_within(40), if t { 60 } else { 12 }, false),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        level: "exploration",
        rule: "each evaluation is a walk with its own formula, start and limit; non-trivial: with a step",
        assumptions: &["which of the falsified clauses is taken, and which of its variables, isn't judged"],
        spaces: c32,
        patience: 120,
    }]
}
