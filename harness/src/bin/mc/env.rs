//! C15: determinism and independence of solvers. C16: the clock.
use mc::{core::*, form::*, spaces::*};
use splr::{PropertyDereference, SolverError, verif::*, *};
use std::{
    cell::{Cell, RefCell},
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    rc::Rc,
    sync::{Arc, Condvar, Mutex},
    time::Duration,
};

/// the answer and all the counters
#[derive(Clone, Debug, Eq, PartialEq)]
struct Print {
    verdict: String,
    counts: Vec<usize>,
}

fn counts(s: &Solver) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    v.extend(splr::assign::property::USIZES.iter().map(|k| s.asg.derefer(*k)));
    v.extend(splr::cdb::property::USIZES.iter().map(|k| s.cdb.derefer(*k)));
    v.extend(splr::state::property::USIZES.iter().map(|k| s.state.derefer(*k)));
    v
}

fn finish(s: &mut Solver) -> Print {
    let v = verdict(s.solve());
    Print { verdict: format!("{v:?}"), counts: counts(s) }
}

/// with the size of the first stage, unless it's 0
fn print_at(stage: i64, f: &Cnf) -> Print {
    stages(stage);
    let p = print_of(f);
    set_oracle(None);
    p
}

fn stages(stage: i64) {
    if stage > 0 {
        set_oracle(Some(Box::new(move |c, n| if c == Choice::StageSize { stage } else { n })));
    }
}

fn print_of(f: &Cnf) -> Print {
    match make(Config::default(), f) {
        Ok(mut s) => finish(&mut s),
        Err(v) => Print { verdict: format!("{v:?}"), counts: vec![] },
    }
}

fn differ(what: &str, a: &Print, b: &Print) -> Result<(), String> {
    if a.verdict != b.verdict {
        return Err(format!("{what}: {} instead of {}", b.verdict, a.verdict));
    }
    if a.counts != b.counts {
        return Err(format!("{what}: the counters are {:?} instead of {:?}", b.counts, a.counts));
    }
    Ok(())
}

/// formulas that are solved in between
fn others() -> Vec<Cnf> {
    vec![
        php(4, 3),
        vec![vec![1], vec![-1]],
        stride3(30, 128, 7, 3),
        tseitin(5, &graph(5, 0x3ff), 0),
        vec![vec![1, 2], vec![-1, 3]],
        stride3(50, 215, 11, 5),
    ]
}

/// each formula again: after others, in a thread, as a clone, built step by step
fn repeated(f: FSpace, stage: i64) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    let others = others();
    let no = others.len() as u64;
    Space {
        name: format!("{}*repeated@{stage}", f.name),
        rule: format!("{}; solved again, after one of {no} others, in another thread, and as a clone before and after its origin; stages of {stage} conflicts (0: as is)", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            count_conflicts();
            let a = print_at(stage, &f);
            set_observer(None);
            cx.add("evaluations", 1);
            cx.add("nontrivial", (conflicts_counted() > 0) as u64);
            cx.sample(|| format!("{} -> {} {:?}", show(&f), a.verdict, a.counts));
            differ("solved again", &a, &print_at(stage, &f))?;
            let o = &others[(i % no) as usize];
            print_of(o);
            differ("after another formula", &a, &print_at(stage, &f))?;
            // clones
            if let Ok(mut s) = make(Config::default(), &f) {
                stages(stage);
                let mut c = s.clone();
                let mut d = c.clone();
                differ("a clone", &a, &finish(&mut c))?;
                differ("the origin of a clone that was solved", &a, &finish(&mut s))?;
                print_of(o);
                differ("a clone of a clone", &a, &finish(&mut d))?;
                set_oracle(None);
            }
            let g = f.clone();
            let b = std::thread::spawn(move || print_at(stage, &g)).join().map_err(|_| "a panic in another thread")?;
            differ("in another thread", &a, &b)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

//
// interleaved steps
//

/// a solver that is built and solved in steps
struct Steps {
    n: usize,
    parts: Vec<Cnf>,
}

impl Steps {
    fn new(f: &Cnf, parts: usize) -> Steps {
        let k = f.len().div_ceil(parts).max(1);
        let mut p: Vec<Cnf> = f.chunks(k).map(|c| c.to_vec()).collect();
        p.resize(parts, vec![]);
        Steps { n: num_vars(f), parts: p }
    }
    fn len(&self) -> usize {
        self.parts.len() + 2
    }
    fn step(&self, i: usize, s: &mut Option<Solver>, bad: &mut bool) -> Option<Print> {
        if i == 0 {
            let mut x = Solver::instantiate(&Config::default(), &CNFDescription::default());
            for _ in 0..self.n {
                x.add_var();
            }
            *s = Some(x);
            return None;
        }
        let x = s.as_mut().unwrap();
        if let Some(p) = self.parts.get(i - 1) {
            for c in p {
                *bad = *bad || x.add_clause(c).is_err();
            }
            return None;
        }
        if *bad { Some(Print { verdict: "refused".into(), counts: vec![] }) } else { Some(finish(x)) }
    }
    fn alone(&self) -> Print {
        let (mut s, mut bad) = (None, false);
        (0..self.len()).find_map(|i| self.step(i, &mut s, &mut bad)).unwrap()
    }
}

/// all the orders of the steps of several solvers, by rank
fn orders(lens: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, at: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(at.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                at.push(i as u8);
                go(left, at, out);
                at.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

fn tuples(n: usize, k: usize, i: u64) -> Vec<usize> {
    let mut i = i as usize;
    (0..k)
        .map(|_| {
            let r = i % n;
            i /= n;
            r
        })
        .collect()
}

fn pool() -> Vec<Cnf> {
    vec![
        vec![vec![1, 2], vec![-1, 2], vec![1, -2]],
        php(3, 2),
        stride3(20, 84, 7, 3),
        vec![vec![1], vec![-1, 2], vec![-2, 3, 4]],
        tseitin(4, &graph(4, 0x3f), 1),
        stride3(12, 60, 5, 2),
    ]
}

fn interleaved(k: usize, parts: usize) -> Space {
    let fs = Rc::new(pool());
    let ords = orders(&vec![parts + 2; k]);
    let (nf, no) = (fs.len(), ords.len() as u64);
    let f2 = fs.clone();
    let o2 = ords.clone();
    Space {
        name: format!("interleaved.{k}.{parts}"),
        rule: format!("all the {no} orders of the {} steps (creation, {parts} additions, solving) of {k} solvers, for all tuples of {nf} formulas", parts + 2),
        size: no * (nf as u64).pow(k as u32),
        run: Box::new(move |i, cx| {
            let st: Vec<Steps> = tuples(nf, k, i / no).iter().map(|j| Steps::new(&fs[*j], parts)).collect();
            let want: Vec<Print> = st.iter().map(|s| s.alone()).collect();
            let mut at = vec![0; k];
            let mut solvers: Vec<(Option<Solver>, bool)> = (0..k).map(|_| (None, false)).collect();
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            for w in &ords[(i % no) as usize] {
                let w = *w as usize;
                let (s, bad) = &mut solvers[w];
                if let Some(p) = st[w].step(at[w], s, bad) {
                    differ(&format!("solver {w}"), &want[w], &p)?;
                }
                at[w] += 1;
            }
            Ok(())
        }),
        show: Box::new(move |i| {
            let l: Vec<String> = tuples(nf, k, i / no).iter().map(|j| show(&f2[*j])).collect();
            format!("{:?} for {}", o2[(i % no) as usize], l.join(" and "))
        }),
    }
}

/// one solver works at each point of the search of another, in the same process
fn nested() -> Space {
    let fs = Rc::new(pool());
    let nf = fs.len();
    let f2 = fs.clone();
    Space {
        name: "nested".into(),
        rule: format!("a solver is built and solved at each head of the search loop and each conflict (up to 100) of another, for all pairs of {nf} formulas"),
        size: (nf * nf) as u64,
        run: Box::new(move |i, cx| {
            let t = tuples(nf, 2, i);
            let (a, b) = (fs[t[0]].clone(), fs[t[1]].clone());
            let (pa, pb) = (print_of(&a), print_of(&b));
            for k in 0..100 {
                let n = Rc::new(Cell::new(0));
                let (n2, b2) = (n.clone(), b.clone());
                let got = Rc::new(RefCell::new(None));
                let got2 = got.clone();
                set_observer(Some(Box::new(move |_, _, _, _| {
                    n2.set(n2.get() + 1);
                    if n2.get() == k + 1 {
                        let b = b2.clone();
                        *got2.borrow_mut() = Some(std::thread::spawn(move || print_of(&b)).join());
                    }
                })));
                let qa = print_of(&a);
                set_observer(None);
                cx.add("evaluations", 1);
                differ("the outer one", &pa, &qa)?;
                match got.take() {
                    None => break,
                    Some(Err(_)) => return Err("the inner one panicked".into()),
                    Some(Ok(p)) => differ("the inner one", &pb, &p)?,
                }
                cx.add("nontrivial", 1);
            }
            Ok(())
        }),
        show: Box::new(move |i| {
            let t = tuples(nf, 2, i);
            format!("{} in {}", show(&f2[t[1]]), show(&f2[t[0]]))
        }),
    }
}

//
// two searches under a scheduler
//
struct Baton {
    /// whose turn it is, for each step; anyone's after the end
    order: Vec<u8>,
    at: usize,
    done: [bool; 2],
}

type Shared = Arc<(Mutex<Baton>, Condvar)>;

/// wait for the turn, and pass it on
fn turn(b: &Shared, me: u8) {
    let (m, c) = &**b;
    let mut g = m.lock().unwrap();
    loop {
        while g.at < g.order.len() && g.done[g.order[g.at] as usize] {
            g.at += 1;
        }
        if g.at >= g.order.len() {
            break;
        }
        if g.order[g.at] == me {
            g.at += 1;
            break;
        }
        g = c.wait_timeout(g, Duration::from_secs(30)).unwrap().0;
    }
    c.notify_all();
}

fn lockstep(len: usize) -> Space {
    let fs = vec![
        vec![vec![1, 2], vec![-1, 2], vec![1, -2]],
        php(3, 2),
        stride3(12, 60, 5, 2),
        tseitin(4, &graph(4, 0x3f), 1),
    ];
    let fs = Rc::new(fs);
    let nf = fs.len();
    let ords = orders(&[len, len]);
    let no = ords.len() as u64;
    let (f2, o2) = (fs.clone(), ords.clone());
    Space {
        name: format!("lockstep.{len}"),
        rule: format!("two threads solve under a scheduler: all the {no} orders of their first {len} points (loop heads and conflicts), for all pairs of {nf} formulas"),
        size: no * (nf * nf) as u64,
        run: Box::new(move |i, cx| {
            let t = tuples(nf, 2, i / no);
            let want = [print_of(&fs[t[0]]), print_of(&fs[t[1]])];
            let b: Shared = Arc::new((
                Mutex::new(Baton { order: ords[(i % no) as usize].clone(), at: 0, done: [false; 2] }),
                Condvar::new(),
            ));
            let hs: Vec<_> = (0..2u8)
                .map(|me| {
                    let (f, b) = (fs[t[me as usize]].clone(), b.clone());
                    std::thread::spawn(move || {
                        let b2 = b.clone();
                        let p = guard(move || {
                            turn(&b2, me);
                            set_observer(Some(Box::new(move |_, _, _, _| turn(&b2, me))));
                            print_of(&f)
                        });
                        b.0.lock().unwrap().done[me as usize] = true;
                        b.1.notify_all();
                        p
                    })
                })
                .collect();
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            for (i, h) in hs.into_iter().enumerate() {
                let p = h.join().map_err(|_| "HARNESS: a thread is lost".to_string())??;
                differ(&format!("solver {i}"), &want[i], &p)?;
            }
            Ok(())
        }),
        show: Box::new(move |i| {
            let t = tuples(nf, 2, i / no);
            format!("{:?} for {} and {}", o2[(i % no) as usize], show(&f2[t[0]]), show(&f2[t[1]]))
        }),
    }
}

//
// other processes
//
fn catalogue(name: &str) -> FSpace {
    match name {
        "strided" => strided(30, &[120, 128, 136], 40, 10),
        "families" => families(false),
        "subsets" => subsets(3, 1..=3, 3),
        _ => strided(100, &[415], 10, 10),
    }
}

fn hash_of(p: &Print) -> u64 {
    let mut h = DefaultHasher::new();
    p.verdict.hash(&mut h);
    p.counts.hash(&mut h);
    h.finish()
}

const CHUNK: u64 = 50;

/// the child's side: one number a line
pub fn fingerprints(name: &str, chunk: u64) {
    let f = catalogue(name);
    for i in chunk * CHUNK..((chunk + 1) * CHUNK).min(f.size) {
        println!("{}", hash_of(&print_of(&(f.make)(i))));
    }
}

fn processes(name: &'static str) -> Space {
    let f = catalogue(name);
    let mk = f.make.clone();
    let size = f.size;
    Space {
        name: format!("{}*process", f.name),
        rule: format!("{}; each in another process as well, which solves {CHUNK} of them", f.rule),
        size: size.div_ceil(CHUNK),
        run: Box::new(move |c, cx| {
            let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
            let o = std::process::Command::new(exe)
                .args(["fingerprints", name, &c.to_string()])
                .output()
                .map_err(|e| format!("HARNESS: {e}"))?;
            let t = String::from_utf8_lossy(&o.stdout);
            let got: Vec<u64> = t.lines().filter_map(|l| l.parse().ok()).collect();
            for (k, i) in (c * CHUNK..((c + 1) * CHUNK).min(size)).enumerate() {
                let p = print_of(&mk(i));
                cx.add("evaluations", 1);
                cx.add("nontrivial", p.counts.first().is_some_and(|c| *c > 0) as u64);
                if got.get(k) != Some(&hash_of(&p)) {
                    return Err(format!("#{i} {}: it was solved differently in another process: here {p:?}", show(&mk(i))));
                }
            }
            Ok(())
        }),
        show: Box::new(move |c| format!("{name}, chunk {c}")),
    }
}

fn c15(t: bool) -> Vec<Space> {
    let mut v: Vec<Space> = if t {
        vec![subsets(3, 1..=3, 6), subsets(4, 1..=4, 4), strided(8, &[30, 34, 38], 100, 60), strided(50, &[205, 215], 60, 20), strided(100, &[410, 420], 20, 10), families(true), functions(4, false)]
    } else {
        vec![subsets(3, 1..=3, 3), subsets(4, 1..=4, 2), strided(8, &[34], 30, 20), strided(50, &[205, 215], 20, 10), strided(100, &[415], 10, 4), families(false)]
    }
    .into_iter()
    .map(|f| repeated(f, 0))
    .collect();
    v.push(interleaved(2, if t { 4 } else { 3 }));
    v.push(interleaved(3, 1));
    v.push(nested());
    v.push(lockstep(if t { 7 } else { 5 }));
    for n in ["strided", "families", "subsets", "larger"] {
        v.push(processes(n));
    }
    v.push(repeated(strided(20, &[80, 86], if t { 40 } else { 10 }, 20), 2));
    v.push(repeated(strided(50, &[205, 215], if t { 40 } else { 10 }, 10), 1));
    v
}

//
// C16
//

/// a clock
#[derive(Clone, Debug)]
enum Clock {
    /// that gives these readings, the last one forever
    Reads(Vec<i64>),
    /// that is over the limit from a conflict on
    OverAt(usize),
}

/// one run with a clock; what it returns is the number of readings
fn clocked(f: &Cnf, stage: i64, readings: &[i64], limit: f64, cx: &mut Cx) -> Result<usize, String> {
    timed(f, stage, Clock::Reads(readings.to_vec()), limit, cx).map(|(r, _)| r)
}

/// one run with a clock; what it returns is the numbers of readings and conflicts
fn timed(f: &Cnf, stage: i64, clock: Clock, limit: f64, cx: &mut Cx) -> Result<(usize, usize), String> {
    let conflicts = Rc::new(Cell::new(0usize));
    let (co, ck, la) = (conflicts.clone(), clock.clone(), Cell::new(usize::MAX));
    // a reading can come late in a stage, but the end of one is never without it
    let patience = if matches!(clock, Clock::OverAt(_)) { 1 } else { 3 };
    let read = Rc::new(Cell::new(0usize));
    let over = Rc::new(Cell::new(false));
    let stages_after = Rc::new(Cell::new(0));
    let ever = Rc::new(Cell::new(false));
    let (rd, ov, sa, ev) = (read.clone(), over.clone(), stages_after.clone(), ever.clone());
    set_oracle(Some(Box::new(move |c, n| match c {
        Choice::Elapsed => {
            let v = match &ck {
                Clock::Reads(r) => *r.get(rd.get()).unwrap_or(r.last().unwrap()),
                Clock::OverAt(k) => 1000 * (*k < co.get()) as i64,
            };
            rd.set(rd.get() + 1);
            ov.set(v >= 1000);
            if v >= 1000 {
                ev.set(true);
            } else {
                sa.set(0);
            }
            v
        }
        Choice::StageEnd => {
            if matches!(ck, Clock::OverAt(k) if k < co.get()) {
                ov.set(true);
            }
            // (once for each conflict)
            if n == 1 && ov.get() && la.replace(co.get()) != co.get() {
                sa.set(sa.get() + 1);
                if sa.get() > patience {
                    std::panic::panic_any(Violated(format!("the time was over, but the search went on after the end of a stage: {ck:?}")));
                }
            }
            n
        }
        Choice::StageSize if stage > 0 => stage,
        _ => n,
    })));
    let c2 = conflicts.clone();
    set_observer(Some(Box::new(move |p, _, _, _| c2.set(c2.get() + (p == Place::Conflict) as usize))));
    cx.add("evaluations", 1);
    let cfg = Config { c_timeout: limit, ..Config::default() };
    let v = match Solver::try_from((cfg, &f[..])) {
        Ok(mut s) => s.solve(),
        Err(e) => e,
    };
    set_oracle(None);
    set_observer(None);
    let expired = ever.get();
    if expired {
        cx.add("nontrivial", 1);
    }
    match v {
        Err(SolverError::TimeOut) if expired => cx.add("timeouts", 1),
        Err(SolverError::TimeOut) => {
            return Err(format!("a time-out, but the clock never was over the limit: {clock:?}"));
        }
        v => {
            let v = verdict(v);
            judge(f, num_vars(f), &v, || is_sat(f)).map_err(|e| format!("clock {clock:?}: {e}"))?;
            if stages_after.get() > 1 {
                return Err(format!("clock {clock:?}: {} stages ended after the limit, and no time-out", stages_after.get()));
            }
            cx.add(if expired { "answered before the time-out" } else { "in time" }, 1);
        }
    }
    Ok((read.get(), conflicts.get()))
}

/// the limit expires at each conflict
fn at_conflicts(f: FSpace, stage: i64, most: usize) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*over@{stage}", f.name),
        rule: format!("{}; the limit is over from each conflict on, up to the {most}th, and the end of the stage must see it; stages of {stage} conflicts", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let (_, n) = timed(&f, stage, Clock::Reads(vec![0]), 5000.0, cx)?;
            for k in 0..n.min(most) {
                timed(&f, stage, Clock::OverAt(k), 5000.0, cx)?;
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// the limit expires at each reading of the clock
fn expiring(f: FSpace, stage: i64) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*expiring@{stage}", f.name),
        rule: format!("{}; the clock jumps over the limit (1000, 2500 or 100 thousandths, the latter for one reading) at each of its readings up to the 60th; stages of {stage} conflicts", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = clocked(&f, stage, &[0], 5000.0, cx)?;
            cx.add("readings", n as u64);
            for k in 0..n.min(60) {
                for last in [vec![1000], vec![2500], vec![999], vec![100], vec![150, 0], vec![1000, 0]] {
                    let mut r = vec![0; k];
                    r.extend(last);
                    clocked(&f, stage, &r, 5000.0, cx)?;
                }
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

const VALUES: [i64; 8] = [0, 50, 99, 101, 500, 999, 1000, 5000];

/// all the sequences of readings
fn readings(f: FSpace, stage: i64, len: u32) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    let k = (VALUES.len() as u64).pow(len);
    let seq = move |mut c: u64| -> Vec<i64> {
        (0..len)
            .map(|_| {
                let v = VALUES[c as usize % VALUES.len()];
                c /= VALUES.len() as u64;
                v
            })
            .collect()
    };
    Space {
        name: format!("{}*readings{len}@{stage}", f.name),
        rule: format!("{}; all sequences of {len} readings over {VALUES:?} thousandths of the limit, the last one repeated; stages of {stage} conflicts", f.rule),
        size: f.size * k,
        run: Box::new(move |i, cx| clocked(&mk(i / k), stage, &seq(i % k), 5000.0, cx).map(|_| ())),
        show: Box::new(move |i| format!("{} with {:?}", show(&mk2(i / k)), seq(i % k))),
    }
}

/// the real clock: limits and delays before the first conflict
fn real() -> Space {
    // limit, delay in ms, must it time out (if a stage ends)
    let l: Vec<(f64, u64, bool)> = vec![
        (0.0, 0, true),
        (1e-9, 1, true),
        (0.2, 300, true),
        (0.5, 600, true),
        (1.0, 1100, true),
        (1.5, 1600, true),
        (0.9, 0, false),
        (1.9, 1100, false),
        (2.5, 2010, false),
        (1e9, 0, false),
        (f64::MAX, 0, false),
        (f64::INFINITY, 0, false),
    ];
    let fs = vec![stride3(30, 150, 7, 3), php(5, 4), stride3(50, 210, 11, 5)];
    let (fs, l) = (Rc::new(fs), Rc::new(l));
    let (f2, l2) = (fs.clone(), l.clone());
    let nl = l.len() as u64;
    Space {
        name: "real".into(),
        rule: "the real clock: 12 pairs of a limit and a delay before the first decision, for 3 formulas with stages of one conflict; the state tells the time truly".into(),
        size: nl * fs.len() as u64,
        run: Box::new(move |i, cx| {
            let (limit, delay, must) = l[(i % nl) as usize];
            let f = &fs[(i / nl) as usize];
            let ended = Rc::new(Cell::new(0));
            let e2 = ended.clone();
            set_oracle(Some(Box::new(move |c, n| match c {
                Choice::StageSize => 1,
                Choice::StageEnd => {
                    e2.set(e2.get() + n);
                    n
                }
                _ => n,
            })));
            let t0 = Rc::new(Cell::new(None));
            let t1 = t0.clone();
            set_observer(Some(Box::new(move |_, _, _, _| {
                if t1.get().is_none() {
                    std::thread::sleep(Duration::from_millis(delay));
                    t1.set(Some(()));
                }
            })));
            let start = std::time::Instant::now();
            let cfg = Config { c_timeout: limit, ..Config::default() };
            let mut told = Ok(());
            let v = match make(cfg, f) {
                Err(v) => v,
                Ok(mut s) => {
                    let made = std::time::Instant::now();
                    let v = verdict(s.solve());
                    set_oracle(None);
                    // what the state says of the clock lies between what can be measured
                    let least = made.elapsed().as_secs_f64();
                    let (over, part) = (splr::state::StateIF::is_timeout(&s.state), splr::state::StateIF::elapsed(&s.state));
                    let most = start.elapsed().as_secs_f64();
                    if over && most < limit || !over && limit < least {
                        told = Err(format!("after {least} s: is_timeout is {over}"));
                    } else if limit > 0.0 && !part.is_some_and(|p| least / limit <= p && p <= most / limit) {
                        told = Err(format!("after {least} to {most} s: elapsed is {part:?}"));
                    }
                    v
                }
            };
            let took = start.elapsed().as_secs_f64();
            set_oracle(None);
            set_observer(None);
            cx.add("evaluations", 1);
            told.map_err(|e| format!("limit {limit} s, and a delay of {delay} ms: {e}"))?;
            let timeout = v == Verdict::Err("TimeOut".into());
            if must && ended.get() > 0 {
                cx.add("nontrivial", 1);
                cx.add("timeouts", 1);
                return if timeout { Ok(()) } else { Err(format!("limit {limit} s, and a delay of {delay} ms: it was answered {}", v.tag())) };
            }
            if timeout {
                if took < limit {
                    return Err(format!("a time-out after {took} s for a limit of {limit} s"));
                }
                return Ok(()); // a slow machine
            }
            judge(f, num_vars(f), &v, || is_sat(f))
        }),
        show: Box::new(move |i| format!("{:?} for {}", l2[(i % nl) as usize], show(&f2[(i / nl) as usize]))),
    }
}

fn c16(t: bool) -> Vec<Space> {
    let mut v = vec![];
    for s in [1, 2, 5] {
        if t {
            v.push(expiring(dense(4, 3, 5), s));
            v.push(expiring(dense(5, 3, 2), s));
            v.push(expiring(functions(4, false), s));
            v.push(expiring(strided(20, &[80, 86, 92], 40, 40), s));
            v.push(expiring(strided(50, &[205, 215, 220], 20, 10), s));
            v.push(expiring(families(false), s));
            v.push(readings(strided(20, &[86, 92], 10, 10), s, 5));
        } else {
            v.push(expiring(dense(4, 3, 3), s));
            v.push(expiring(strided(20, &[80, 92], 10, 20), s));
            v.push(expiring(strided(50, &[210, 220], 10, 4), s));
            v.push(expiring(families(false), s));
            v.push(readings(strided(20, &[86, 92], 4, 5), s, 4));
        }
    }
    for s in [1, 2, 5] {
        v.push(at_conflicts(strided(50, &[205, 215, 220], if t { 20 } else { 5 }, 8), s, 60));
        v.push(at_conflicts(families(false), s, 60));
    }
    v.push(at_conflicts(strided(100, &[425], if t { 8 } else { 2 }, 4), 0, 600));
    v.push(expiring(subsets(3, 1..=3, if t { 5 } else { 4 }), 0));
    v.push(expiring(strided(50, &[215], if t { 40 } else { 10 }, 10), 0));
    v.push(real());
    v
}

//
// C24
//

struct Limited {
    print: Print,
    /// clauses before and at most during the search
    start: usize,
    peak: usize,
}

fn clauses(cdb: &splr::cdb::ClauseDB) -> usize {
    cdb.derefer(splr::cdb::property::Tusize::NumClause)
}

/// one run with a limit on the number of clauses; 0: without one
fn limited(f: &Cnf, stage: i64, limit: usize, cx: &mut Cx) -> Result<Option<Limited>, String> {
    cx.add("evaluations", 1);
    let mut s = match make(Config { c_cls_lim: limit, ..Config::default() }, f) {
        Ok(s) => s,
        Err(v) => {
            judge(f, num_vars(f), &v, || is_sat(f))?;
            return Ok(None);
        }
    };
    stages(stage);
    let start = clauses(&s.cdb);
    let peak = Rc::new(Cell::new(start));
    let (p2, seg) = (peak.clone(), Cell::new(None));
    set_observer(Some(Box::new(move |_, _, cdb, st| {
        let n = clauses(cdb);
        p2.set(p2.get().max(n));
        let g = st.stm.current_segment();
        if limit > 0 && n > limit && seg.replace(Some(g)).is_some_and(|h| h != g) {
            std::panic::panic_any(Violated(format!("a new segment began with {n} clauses under a limit of {limit}")));
        }
        seg.set(Some(g));
    })));
    let v = verdict(s.solve());
    set_oracle(None);
    set_observer(None);
    let end = clauses(&s.cdb);
    if v == Verdict::Err("OutOfMemory".into()) {
        if limit == 0 || end <= limit {
            return Err(format!("out of memory with {end} clauses under a limit of {limit}"));
        }
        cx.add("out of memory", 1);
        cx.add("out of memory after the start", (start <= limit) as u64);
    } else {
        if limit > 0 && start > limit {
            return Err(format!("{start} clauses under a limit of {limit}, and no error but {v:?}"));
        }
        judge(f, num_vars(f), &v, || is_sat(f)).map_err(|e| format!("with a limit of {limit} clauses: {e}"))?;
    }
    let print = Print { verdict: format!("{v:?}"), counts: counts(&s) };
    Ok(Some(Limited { print, start, peak: peak.get() }))
}

/// all the limits around the numbers of clauses that occur
fn limits(f: FSpace, stage: i64) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*limits@{stage}", f.name),
        rule: format!("{}; the limits of clauses from 1, or from 10 less than there are at the start, up to 3 over the most there are, and three huge ones; stages of {stage} conflicts", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let Some(a) = limited(&f, stage, 0, cx)? else { return Ok(()) };
            cx.add("nontrivial", (a.peak > 0) as u64);
            let from = if a.start < 30 { 1 } else { a.start - 10 };
            let to = a.peak + 3;
            let step = ((to - from) / 60).max(1);
            for l in (from..=to).step_by(step) {
                limited(&f, stage, l, cx)?;
            }
            for l in [1_000_000, 1 << 40, 1 << 60] {
                if let Some(b) = limited(&f, stage, l, cx)? {
                    differ(&format!("with a limit of {l} clauses"), &a.print, &b.print)?;
                }
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

fn c24(t: bool) -> Vec<Space> {
    let mut v = vec![];
    for s in [1, 2, 5] {
        v.push(limits(dense(4, 3, if t { 5 } else { 2 }), s));
        v.push(limits(strided(20, &[80, 86, 92], if t { 40 } else { 10 }, 20), s));
        v.push(limits(strided(50, &[205, 215], if t { 40 } else { 10 }, 10), s));
        v.push(limits(families(t), s));
        v.push(limits(shapes(if t { 100 } else { 30 }), s));
    }
    v.push(limits(subsets(3, 1..=3, if t { 5 } else { 3 }), 0));
    v.push(limits(functions(4, true), 0));
    v.push(limits(strided(50, &[205, 215], if t { 40 } else { 10 }, 10), 0));
    v.push(limits(strided(100, &[410], if t { 40 } else { 4 }, 5), 0));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            level: "fault_enumeration",
            rule: "each case is a formula under a range of limits, different from the others by construction; non-trivial: it has clauses of two literals or more",
            assumptions: &["the limit is checked at the start and after each elimination; clauses learnt in between may exceed it"],
            patience: 120,
            spaces: c24,
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "each case is a formula, or formulas and an order of steps, different from the others by construction; non-trivial: with a conflict, or with two solvers at work",
            assumptions: &["interleavings of threads are controlled at loop heads and conflicts only; splr has no shared state by which finer ones could matter unless it is added"],
            patience: 120,
            spaces: c15,
        },
        Prop {
            id: "C16",
            level: "fault_enumeration",
            rule: "each case is a formula and a family of clocks, different from the others by construction; non-trivial: the limit expired during the run",
            assumptions: &["'soon' is: at the next end of a stage"],
            patience: 120,
            spaces: c16,
        },
    ]
}
