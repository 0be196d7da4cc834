//! C11: building a problem step by step. C19: validation.
use mc::{core::*, form::*, spaces::*};
use splr::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Var,
    Assign(i32),
    Clause(Cls),
}

#[derive(Clone)]
enum Start {
    /// the number of vars
    Empty(usize),
    Given(Cnf),
}

/// run a sequence on the real solver and on the reference, and compare.
fn sequence(start: &Start, ops: &[Op], fin: Fin, cx: &mut Cx) -> Result<(), String> {
    let (mut n, mut acc): (usize, Cnf) = match start {
        Start::Empty(n) => (*n, vec![]),
        Start::Given(f) => (num_vars(f), f.clone()),
    };
    let made = match start {
        Start::Empty(n) => Ok(Solver::instantiate(
            &Config::default(),
            &CNFDescription { num_of_variables: *n, ..CNFDescription::default() },
        )),
        Start::Given(f) => make(Config::default(), f),
    };
    let mut s = match made {
        Ok(s) => s,
        Err(v) => return judge(&acc, n, &v, || is_sat(&acc)),
    };
    let mut rejected = 0;
    for op in ops {
        // (what to add to the reference, the answer of the real one)
        let (c, r) = match op {
            Op::Var => {
                let k = s.add_var();
                n += 1;
                if k as usize != n {
                    return Err(format!("add_var answered {k} for the {n}-th var"));
                }
                continue;
            }
            Op::Assign(l) => (vec![*l], s.add_assignment(*l).map(|_| ())),
            Op::Clause(c) => (c.clone(), s.add_clause(c).map(|_| ())),
        };
        let malformed = c.is_empty() || c.iter().any(|l| *l == 0 || l.unsigned_abs() as usize > n);
        match r {
            Ok(()) if malformed => return Err(format!("{op:?} was accepted")),
            Ok(()) => acc.push(c),
            Err(_) if malformed => rejected += 1,
            Err(e) => {
                let mut g = acc.clone();
                g.push(c);
                if is_sat(&g) {
                    return Err(format!("{op:?} was rejected by {e:?}, though it's consistent with the others"));
                }
                rejected += 1;
            }
        }
    }
    cx.add("rejections", rejected);
    fin(s, n, &acc, cx).map_err(|e| format!("{e}; accepted: {} over {n} vars", show(&acc)))
}

/// what is done with the solver, of a number of vars and what was accepted
pub type Fin = fn(Solver, usize, &Cnf, &mut Cx) -> Result<(), String>;

fn answered(mut s: Solver, n: usize, acc: &Cnf, cx: &mut Cx) -> Result<(), String> {
    let v = verdict(s.solve());
    cx.add("evaluations", 1);
    cx.add("nontrivial", (acc.len() > 1) as u64);
    cx.add(&format!("answers {}", v.tag()), 1);
    judge(acc, n, &v, || is_sat(acc))
}

fn clauses_over(n: usize, w: std::ops::RangeInclusive<usize>) -> Vec<Op> {
    all_clauses(n, w).into_iter().map(Op::Clause).collect()
}

fn sequences(name: &str, starts: Vec<Start>, ops: Vec<Op>, depth: u32, fin: Fin) -> Space {
    let k = ops.len() as u64;
    let ns = starts.len() as u64;
    let total: u64 = (0..=depth).map(|d| k.pow(d)).sum::<u64>();
    let data = Rc::new((starts, ops));
    let read = move |d: &(Vec<Start>, Vec<Op>), i: u64| -> (Start, Vec<Op>) {
        let start = d.0[(i % ns) as usize].clone();
        let mut i = i / ns;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut v = Vec::new();
        for _ in 0..l {
            v.push(d.1[(i % k) as usize].clone());
            i /= k;
        }
        (start, v)
    };
    let data2 = data.clone();
    let text = move |s: &Start, v: &[Op]| {
        let h = match s {
            Start::Empty(n) => format!("empty solver of {n} vars"),
            Start::Given(f) => show(f),
        };
        format!("{h} then {v:?}").replace(' ', "")
    };
    Space {
        name: format!("{name}.{depth}"),
        rule: format!("all the sequences of at most {depth} of {k} operations from {ns} starting points"),
        size: total * ns,
        run: Box::new(move |i, cx| {
            let (s, v) = read(&data, i);
            cx.sample(|| text(&s, &v));
            sequence(&s, &v, fin, cx)
        }),
        show: Box::new(move |i| {
            let (s, v) = read(&data2, i);
            text(&s, &v)
        }),
    }
}

/// a formula given in pieces. `way`: what the solver starts with, and when vars are added
const BUILT_RULE: &str = "each built in 6 ways: from an empty solver, with all the vars added first, or each just before its first use; \
    from the first half of the vars or of the clauses; unit clauses by add_assignment; clauses in the reverse order";
fn built(f: FSpace, fin: Fin) -> Space {
    let read = |f: Cnf, w: u64| -> (Start, Vec<Op>) {
        let n = num_vars(&f);
        let mut ops = vec![];
        let one = |c: Cls| if c.len() == 1 && w % 2 == 1 { Op::Assign(c[0]) } else { Op::Clause(c) };
        match w {
            0 => {
                ops.extend((0..n).map(|_| Op::Var));
                ops.extend(f.into_iter().map(one));
                (Start::Empty(0), ops)
            }
            1 | 2 | 5 => {
                let mut k = if w == 2 { n / 2 } else { 0 };
                let start = Start::Empty(k);
                let rev = w == 5;
                for c in if rev { f.into_iter().rev().collect::<Cnf>() } else { f } {
                    while k < c.iter().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0) {
                        ops.push(Op::Var);
                        k += 1;
                    }
                    ops.push(one(c));
                }
                (start, ops)
            }
            _ => {
                let m = if w == 3 { f.len() / 2 } else { 1.min(f.len()) };
                let head: Cnf = f[..m].to_vec();
                ops.extend((num_vars(&head)..n).map(|_| Op::Var));
                ops.extend(f[m..].iter().cloned().map(one));
                (Start::Given(head), ops)
            }
        }
    };
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*built", f.name),
        rule: format!("{}; {BUILT_RULE}", f.rule),
        size: f.size * 6,
        run: Box::new(move |i, cx| {
            let (s, v) = read(mk(i / 6), i % 6);
            sequence(&s, &v, fin, cx)
        }),
        show: Box::new(move |i| format!("{} built in way {}", show(&mk2(i / 6)), i % 6)),
    }
}

pub fn building(t: bool, fin: Fin) -> Vec<Space> {
    let bad = vec![
        Op::Clause(vec![]),
        Op::Clause(vec![0]),
        Op::Clause(vec![1, 0]),
        Op::Clause(vec![9]),
        Op::Clause(vec![1, -9]),
        Op::Assign(0),
        Op::Assign(9),
        Op::Assign(-9),
    ];
    let odd = vec![
        Op::Clause(vec![1, 1]),
        Op::Clause(vec![1, -1]),
        Op::Clause(vec![-1, 2, -1]),
        Op::Clause(vec![2, 1, -2]),
    ];
    let assigns = |n: i32| (1..=n).flat_map(|v| [Op::Assign(v), Op::Assign(-v)]).collect::<Vec<Op>>();
    let starts = vec![
        Start::Empty(0),
        Start::Empty(1),
        Start::Empty(3),
        Start::Given(vec![vec![1, 2]]),
        Start::Given(vec![vec![1], vec![-1, 2]]),
        Start::Given(vec![vec![1, 2, 3], vec![-1, -2], vec![-2, -3]]),
        Start::Given(vec![vec![1, -2], vec![-1, 2], vec![-3]]),
    ];
    let all = |n: usize, w| {
        let mut v = vec![Op::Var];
        v.extend(clauses_over(n, w));
        v.extend(assigns(n as i32));
        v.extend(bad.clone());
        v.extend(odd.clone());
        v
    };
    // small alphabets for deep sequences
    let units2: Vec<Op> = [vec![Op::Var], assigns(2), clauses_over(2, 1..=2)].concat();
    let pairs3: Vec<Op> = [vec![Op::Var], assigns(1), clauses_over(3, 2..=2)].concat();
    let growing: Vec<Op> = vec![
        Op::Var,
        Op::Clause(vec![1, 2]),
        Op::Clause(vec![-1, 2]),
        Op::Clause(vec![-2, 3]),
        Op::Clause(vec![-2, -3]),
        Op::Clause(vec![-3, -4, 1]),
        Op::Assign(-3),
    ];
    if t {
        vec![
            sequences("any3", starts.clone(), all(3, 1..=3), 3, fin),
            sequences("any2", starts.clone(), all(2, 1..=2), 4, fin),
            sequences("units2", starts.clone(), units2, 6, fin),
            sequences("pairs3", starts.clone(), pairs3, 5, fin),
            sequences("growing", starts, growing, 8, fin),
            built(families(true), fin),
            built(shapes(100), fin),
            built(strided(20, &[80, 86, 92], 40, 20), fin),
            built(strided(50, &[200, 215], 20, 10), fin),
            built(dense(4, 3, 3), fin),
            built(functions(4, true), fin),
        ]
    } else {
        vec![
            sequences("any3", starts.clone(), all(3, 1..=3), 2, fin),
            sequences("any2", starts.clone(), all(2, 1..=2), 3, fin),
            sequences("units2", starts.clone(), units2, 4, fin),
            sequences("pairs3", starts.clone(), pairs3, 4, fin),
            sequences("growing", starts, growing, 6, fin),
            built(families(false), fin),
            built(shapes(40), fin),
            built(strided(20, &[80, 92], 20, 10), fin),
            built(strided(50, &[200, 215], 10, 5), fin),
            built(dense(4, 3, 2), fin),
        ]
    }
}

fn c11(t: bool) -> Vec<Space> {
    building(t, answered)
}

//
// C19
//

/// all the lists of distinct vars' literals that are partial assignments, in the natural and the reverse orders
fn partial(n: usize, code: u64) -> Vec<i32> {
    let mut c = code >> 1;
    let mut v: Vec<i32> = (1..=n as i32)
        .filter_map(|i| {
            let d = c % 3;
            c /= 3;
            match d {
                0 => None,
                1 => Some(i),
                _ => Some(-i),
            }
        })
        .collect();
    if code & 1 == 1 {
        v.reverse();
    }
    v
}

fn sorted(c: &[i32]) -> Cls {
    let mut c = c.to_vec();
    c.sort();
    c.dedup();
    c
}

fn validated(f: &Cnf, asg: &[i32], cx: &mut Cx) -> Result<(), String> {
    let Ok(mut s) = make(Config::default(), f) else {
        cx.add("contradictory formulas", 1);
        return if is_sat(f) { Err("it was rejected".into()) } else { Ok(()) };
    };
    cx.add("evaluations", 1);
    // `low`: what is fixed for sure. `high`: what can be fixed by propagation of the formula's units.
    let units: Vec<i32> = f.iter().map(|c| sorted(c)).filter(|c| c.len() == 1).map(|c| c[0]).collect();
    let mut low = units.clone();
    low.extend(asg);
    let mut high = closure(f);
    high.extend(asg);
    let clash = |set: &[i32]| asg.iter().any(|l| set.contains(&-*l));
    match s.inject_assignment(asg) {
        Err(_) if asg.is_empty() => return Ok(()),
        Err(_) if clash(&high) => {
            cx.add("contradictions", 1);
            return Ok(());
        }
        Err(e) => return Err(format!("{asg:?} was rejected by {e:?}")),
        Ok(()) if clash(&low) => return Err(format!("{asg:?} was accepted, though it contradicts itself or a unit clause")),
        Ok(()) => (),
    }
    let holds = |c: &Cls, set: &[i32]| c.iter().any(|l| set.contains(l) || c.contains(&-l));
    cx.add("nontrivial", (f.len() > 1) as u64);
    match s.validate() {
        None => {
            if let Some(c) = f.iter().find(|c| !holds(c, &high)) {
                return Err(format!("{asg:?} passed the validation, though it doesn't satisfy {c:?}"));
            }
            cx.add("valid", 1);
            Ok(())
        }
        Some(c) => {
            if f.iter().all(|c| holds(c, &low)) {
                return Err(format!("{asg:?} is a model, but it was refused because of {c:?}"));
            }
            cx.add("invalid", 1);
            // the clause must be one of the problem up to literals that are fixed to be false
            let c = sorted(&c);
            let ours = f.iter().any(|d| {
                let d = sorted(d);
                c.iter().all(|l| d.contains(l)) && d.iter().all(|l| c.contains(l) || high.contains(&-l))
            });
            if !ours {
                return Err(format!("validation of {asg:?} answered {c:?}, which isn't a clause of the problem"));
            }
            if c.iter().any(|l| low.contains(l)) {
                return Err(format!("validation of {asg:?} answered {c:?}, which is satisfied"));
            }
            Ok(())
        }
    }
}

/// what follows from the unit clauses by unit propagation
pub fn closure(f: &Cnf) -> Vec<i32> {
    let mut u: Vec<i32> = vec![];
    loop {
        let k = u.len();
        for c in f {
            let c = sorted(c);
            if c.iter().any(|l| u.contains(l) || c.contains(&-l)) {
                continue;
            }
            let rest: Vec<i32> = c.iter().copied().filter(|l| !u.contains(&-l)).collect();
            if rest.len() == 1 {
                u.push(rest[0]);
            }
        }
        if u.len() == k {
            return u;
        }
    }
}

fn validation(f: FSpace, n: usize) -> Space {
    let k = 2 * 3u64.pow(n as u32);
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*assignments", f.name),
        rule: format!("{}; each with all the partial assignments of {n} vars, in two orders", f.rule),
        size: f.size * k,
        run: Box::new(move |i, cx| {
            let f = mk(i / k);
            let a: Vec<i32> = partial(n, i % k).into_iter().filter(|l| l.unsigned_abs() as usize <= num_vars(&f)).collect();
            cx.sample(|| format!("{} with {a:?}", show(&f)));
            validated(&f, &a, cx)
        }),
        show: Box::new(move |i| format!("{} with {:?}", show(&mk2(i / k)), partial(n, i % k))),
    }
}

/// strings of literals as assignments: contradicting, repeated, out of range
fn injected(n: i32, len: u32) -> Space {
    let lits: Vec<i32> = (-(n + 1)..=n + 1).collect();
    let k = lits.len() as u64;
    let fs: Vec<Cnf> = vec![
        vec![vec![1, 2], vec![-1, 3], vec![-2, -3]],
        vec![vec![1], vec![2, 3]],
        vec![vec![-3], vec![1, 2, 3]],
    ];
    let nf = fs.len() as u64;
    let total: u64 = (1..=len).map(|l| k.pow(l)).sum::<u64>() * nf;
    let read = move |i: u64| {
        let f = (i % nf) as usize;
        let mut i = i / nf;
        let mut l = 1;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut v = vec![];
        for _ in 0..l {
            v.push(lits[(i % k) as usize]);
            i /= k;
        }
        (f, v)
    };
    let (read2, fs2) = (read.clone(), fs.clone());
    Space {
        name: format!("injected{n}.{len}"),
        rule: format!("all the strings of at most {len} literals from -{} to {}, 0 included, injected to {nf} problems of {n} vars", n + 1, n + 1),
        size: total,
        run: Box::new(move |i, cx| {
            let (f, v) = read(i);
            let f = &fs[f];
            if v.iter().all(|l| *l != 0 && l.abs() <= n) {
                return validated(f, &v, cx);
            }
            cx.add("evaluations", 1);
            cx.add("malformed", 1);
            let mut s = make(Config::default(), f).map_err(|v| format!("{v:?}"))?;
            match s.inject_assignment(&v) {
                Ok(()) => Err(format!("{v:?} was accepted")),
                Err(_) => Ok(()),
            }
        }),
        show: Box::new(move |i| {
            let (f, v) = read2(i);
            format!("{} with {v:?}", show(&fs2[f]))
        }),
    }
}

fn c19(t: bool) -> Vec<Space> {
    if t {
        vec![
            validation(subsets(3, 1..=3, 5), 3),
            validation(powerset(2, 1..=2), 2),
            validation(subsets(4, 1..=4, 3), 4),
            validation(dense(3, 3, 8), 3),
            validation(strided(5, &[4, 8, 12], 20, 20), 5),
            validation(subsets(3, 1..=3, 3).times("styles", STYLE_RULE, STYLES, style), 4),
            injected(3, 6),
        ]
    } else {
        vec![
            validation(subsets(3, 1..=3, 3), 3),
            validation(powerset(2, 1..=2), 2),
            validation(subsets(4, 1..=4, 2), 4),
            validation(dense(3, 3, 8), 3),
            validation(strided(5, &[4, 8, 12], 10, 10), 5),
            validation(subsets(3, 1..=3, 2).times("styles", STYLE_RULE, STYLES, style), 4),
            injected(3, 4),
        ]
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            rule: "each case is a starting point and a sequence of operations, different from the others by construction; non-trivial: two or more constraints were accepted",
            assumptions: &["a literal beyond the declared vars, 0 and the empty clause are what counts as malformed"],
            patience: 60,
            spaces: c11,
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "each case is a formula and an assignment; non-trivial: the formula has two or more clauses and the assignment was accepted",
            assumptions: &["the empty assignment is refused by design"],
            patience: 60,
            spaces: c19,
        },
    ]
}
