//! C20, C21, C25: literals; the Luby series and stages; moving averages. All of it is pure.
use mc::{core::*, engine};
use splr::{
    CNFDescription, Config, Instantiate,
    solver::StageManager,
    types::{ClauseId, ClauseIdIF, Ema, Ema2, EmaIF, EmaMutIF, EmaSU, Ewa, Ewa2, Lit, LitIF, LubySeries, i32s},
};

//
// C20
//

const MAX: i64 = (1 << 30) - 1;

/// everything about one number
fn literal(x: i32) -> Result<(), String> {
    macro_rules! same {
        ($a: expr, $b: expr) => {
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("{}: {} is {a:?} instead of {b:?}", x, stringify!($a)));
            }
        };
    }
    let l = Lit::from(x);
    let v = x.unsigned_abs() as usize;
    let code = 2 * v + (0 < x) as usize;
    same!(i32::from(l), x);
    same!(i32::from(&l), x);
    same!(usize::from(l), code);
    same!(Lit::from(code), l);
    same!(Lit::from(code as u32), l);
    same!(l.vi(), v);
    same!(l.as_bool(), 0 < x);
    same!(bool::from(l), 0 < x);
    same!(Lit::from((v, 0 < x)), l);
    same!(Lit::from((l.vi(), l.as_bool())), l);
    same!(!l, Lit::from(-x));
    same!(i32::from(!l), -x);
    same!(!!l, l);
    same!((!l).vi(), v);
    same!(!l == l, false);
    // through a clause id
    let c = ClauseId::from(l);
    same!(c.is_lifted_lit(), true);
    same!(Lit::from(c), l);
    // order: by var, the negative one first
    if code > 2 {
        same!(Lit::from(code - 1) < l, true);
        same!(l.cmp(&Lit::from(code - 1)), std::cmp::Ordering::Greater);
        same!(i32::from(Lit::from(code - 1)), if 0 < x { -x } else { -x - 1 });
    }
    same!(l.cmp(&!l), x.cmp(&0));
    Ok(())
}

/// and the costly ones
fn named(x: i32) -> Result<(), String> {
    let l = Lit::from(x);
    for s in [format!("{l}"), format!("{l:?}")] {
        if s != format!("{x}L") {
            return Err(format!("{x} is shown as {s}"));
        }
    }
    if i32s(&[l, !l]) != [x, -x] {
        return Err(format!("i32s of {x} and {}: {:?}", -x, i32s(&[l, !l])));
    }
    Ok(())
}

fn blocks(bits: u32) -> Space {
    // numbers 1..=MAX in blocks, with both signs
    let step = 1i64 << bits;
    let range = move |i: u64| {
        let lo = i as i64 * step;
        lo.max(1)..(lo + step).min(MAX + 1)
    };
    Space {
        name: "numbers".into(),
        rule: format!("all the numbers of -{MAX}..={MAX} but 0, in blocks of {step} and their opposites"),
        size: ((MAX + 1) / step) as u64,
        run: Box::new(move |i, cx| {
            let r = range(i);
            cx.add("evaluations", 2 * (r.end - r.start) as u64);
            cx.add("nontrivial", 2 * (r.end - r.start) as u64);
            for x in r {
                literal(x as i32)?;
                literal(-x as i32)?;
            }
            Ok(())
        }),
        show: Box::new(move |i| format!("{:?} and their opposites", range(i))),
    }
}

fn shown() -> Space {
    Space {
        name: "texts".into(),
        rule: "Display, Debug and i32s of all numbers up to 2^20, and of all numbers with at most three bits set or unset".into(),
        size: 1 << 10,
        run: Box::new(|i, cx| {
            let mut l: Vec<i64> = (i as i64 * 1024..(i as i64 + 1) * 1024).collect();
            if i < 30 {
                for a in 0..30 {
                    for b in 0..30 {
                        let m = (1i64 << a) | (1 << b) | (1 << i);
                        l.push(m);
                        l.push(MAX & !m);
                    }
                }
            }
            for x in l {
                if x != 0 {
                    cx.add("evaluations", 2);
                    named(x as i32)?;
                    named(-x as i32)?;
                }
            }
            Ok(())
        }),
        show: Box::new(|i| format!("block {i}")),
    }
}

/// vectors and slices indexed by literals
fn indexed() -> Space {
    Space {
        name: "index".into(),
        rule: "[bool] and Vec<bool> of each length up to 130 indexed by each literal that fits, read and written".into(),
        size: 131,
        run: Box::new(|n, cx| {
            let n = n as usize;
            for code in 2..n {
                let l = Lit::from(code);
                cx.add("evaluations", 1);
                for j in 0..n {
                    let mut v = vec![false; n];
                    v[j] = true;
                    if v[l] != (j == code) || v[..][l] != (j == code) {
                        return Err(format!("a vector indexed by {l} hasn't its element #{code}"));
                    }
                }
                let mut v = vec![false; n];
                v[l] = true;
                let mut w = vec![false; n];
                w[..][l] = true;
                if (0..n).any(|j| v[j] != (j == code) || w[j] != (j == code)) {
                    return Err(format!("writing by {l} doesn't change #{code} only"));
                }
            }
            Ok(())
        }),
        show: Box::new(|n| format!("length {n}")),
    }
}

fn c20(_t: bool) -> Vec<Space> {
    vec![shown(), indexed(), blocks(18)]
}

//
// C21
//

/// the i-th (from 1) element of the sequence, by definition
fn luby(i: u64) -> u64 {
    let k = 64 - i.leading_zeros();
    if i == (1 << k) - 1 { 1 << (k - 1) } else { luby(i - (1 << (k - 1)) + 1) }
}

fn prefix(t: bool) -> Space {
    let k: u64 = if t { 1 << 24 } else { 1 << 20 };
    Space {
        name: "prefix".into(),
        rule: format!("the first {k} elements, by next, by next_unchecked and by turns, and again after a reset"),
        size: 6,
        run: Box::new(move |m, cx| {
            let mut l = LubySeries::default();
            let rounds = if m < 3 { 1 } else { 2 };
            let mut max = 1;
            for r in 0..rounds {
                for i in 0..k >> r {
                    let v = match (m % 3, i % 2) {
                        (0, _) | (2, 0) => l.next().ok_or("the series ended")?.get() as u64,
                        _ => l.next_unchecked() as u64,
                    };
                    // the series starts with the second 1
                    let want = luby(i + 2);
                    max = max.max(want);
                    if v != want || l.max_value() as u64 != max {
                        return Err(format!("element {i} of round {r}: {v} (maximum {}) instead of {want} ({max})", l.max_value()));
                    }
                    cx.add("evaluations", 1);
                    cx.add("nontrivial", 1);
                }
                l.reset();
            }
            Ok(())
        }),
        show: Box::new(|m| format!("way {m}")),
    }
}

/// all the sequences of next and reset
fn resets(len: u32) -> Space {
    Space {
        name: format!("resets.{len}"),
        rule: format!("all sequences of {len} operations out of next, next_unchecked and reset"),
        size: 3u64.pow(len),
        run: Box::new(move |mut c, cx| {
            let mut l = LubySeries::default();
            let mut i = 0;
            cx.add("evaluations", 1);
            for s in 0..len {
                let v = match c % 3 {
                    0 => {
                        l.reset();
                        i = 0;
                        c /= 3;
                        continue;
                    }
                    1 => l.next().ok_or("the series ended")?.get() as u64,
                    _ => l.next_unchecked() as u64,
                };
                c /= 3;
                i += 1;
                if v != luby(i + 1) {
                    return Err(format!("operation {s}: {v} instead of {}", luby(i + 1)));
                }
            }
            cx.add("nontrivial", (i > 2) as u64);
            Ok(())
        }),
        show: Box::new(move |c| format!("operations {c} in base 3")),
    }
}

/// one after k elements and a reset, for each k
fn after_each(k: u64, then: u64) -> Space {
    Space {
        name: "after".into(),
        rule: format!("{then} elements after a reset, which follows each number of elements up to {k}"),
        size: k,
        run: Box::new(move |n, cx| {
            let mut l = LubySeries::default();
            for _ in 0..n {
                l.next_unchecked();
            }
            l.reset();
            cx.add("evaluations", 1);
            for i in 1..=then {
                let v = l.next_unchecked() as u64;
                if v != luby(i + 1) {
                    return Err(format!("element {i} after {n} elements and a reset: {v} instead of {}", luby(i + 1)));
                }
            }
            Ok(())
        }),
        show: Box::new(|n| format!("{n} elements")),
    }
}

/// what the schedule of stages is, written down once more
#[derive(Debug, Default)]
struct Schedule {
    unit: u64,
    stage: u64,
    cycle: u64,
    segment: u64,
    /// elements of the series so far
    taken: u64,
    scale: u64,
    max: u64,
    full: bool,
    end: u64,
    cycle_at: u64,
    segment_at: (u64, u64),
}

impl Schedule {
    fn begin(&mut self, unit: u64) {
        self.unit = unit;
        self.cycle = 0;
        self.taken = 0;
        self.scale = 1;
        self.max = 1;
        self.full = true;
        self.end = unit;
    }
    fn prepare(&mut self, now: u64) -> Option<bool> {
        self.taken += 1;
        self.scale = luby(self.taken + 1);
        self.stage += 1;
        let new_cycle = self.scale == 1;
        let new_segment = new_cycle && self.full;
        if new_cycle {
            self.cycle += 1;
            self.cycle_at = self.stage;
        }
        if new_segment {
            self.segment += 1;
            self.max *= 2;
            self.full = false;
            self.segment_at = (self.stage, self.cycle);
        }
        self.full = self.full || self.scale == self.max;
        self.end = now + self.cycle * self.unit;
        new_cycle.then_some(new_segment)
    }
}

fn agree(s: &StageManager, m: &Schedule) -> Result<(), String> {
    let a = [
        s.current_stage(),
        s.current_cycle(),
        s.current_segment(),
        s.current_scale(),
        s.max_scale(),
        s.current_span(),
        s.cycle_starting_stage(),
        s.segment_starting_stage(),
        s.segment_starting_cycle(),
    ];
    let b = [m.stage, m.cycle, m.segment, m.scale, m.max, m.cycle * m.unit, m.cycle_at, m.segment_at.0, m.segment_at.1];
    if a.iter().zip(b).any(|(x, y)| *x as u64 != y) {
        return Err(format!(
            "stage, cycle, segment, scale, maximum, span, start of the cycle, of the segment (stage and cycle) are {a:?} instead of {b:?}"
        ));
    }
    Ok(())
}

/// one long run: it is asked after every conflict
fn stages(k: u64) -> Space {
    const UNITS: [usize; 8] = [1, 2, 3, 5, 8, 16, 32, 100];
    Space {
        name: "stages".into(),
        rule: format!("{k} stages of units {UNITS:?}, asked after each of up to 3 million conflicts; made by new, instantiate and default, and then once more after another beginning"),
        size: UNITS.len() as u64 * 6,
        run: Box::new(move |i, cx| {
            let unit = UNITS[i as usize % UNITS.len()];
            let way = i as usize / UNITS.len();
            let mut s = match way % 3 {
                0 => StageManager::new(unit),
                1 => StageManager::instantiate(&Config::default(), &CNFDescription { num_of_variables: 50, ..CNFDescription::default() }),
                _ => StageManager::default(),
            };
            let mut m = Schedule::default();
            for round in 0..if way < 3 { 1 } else { 3 } {
                if round == 2 {
                    s.reset();
                } else {
                    s.initialize(unit);
                }
                m.begin(unit as u64);
                agree(&s, &m).map_err(|e| format!("at the beginning: {e}"))?;
                let mut now = 0u64;
                let mut ended = 0;
                let mut last = 0;
                while ended < k / (1 + round * 7) && now < 3_000_000 {
                    let e = s.stage_ended(now as usize);
                    if e != (now == m.end) {
                        return Err(format!("conflict {now}, round {round}: a stage {}", if e { "ends, but shouldn't" } else { "should end" }));
                    }
                    if e {
                        cx.add("evaluations", 1);
                        let (a, b) = (s.prepare_new_stage(now as usize), m.prepare(now));
                        if a != b {
                            return Err(format!("stage {}: it is {a:?} instead of {b:?}", m.stage));
                        }
                        agree(&s, &m).map_err(|e| format!("stage {}: {e}", m.stage))?;
                        let span = s.current_span();
                        if span < last || span == 0 {
                            return Err(format!("stage {}: its span is {span}, after {last}", m.stage));
                        }
                        for rate in [0.0, 0.05, 0.2, 0.5, 0.9, 1.0] {
                            let r = s.num_reducible(rate);
                            if r > span {
                                return Err(format!("stage {}: {r} clauses are reducible of {span}", m.stage));
                            }
                        }
                        last = span;
                        ended += 1;
                        cx.add("nontrivial", 1);
                    }
                    now += 1;
                }
            }
            Ok(())
        }),
        show: Box::new(|i| format!("unit {}, way {}", UNITS[i as usize % UNITS.len()], i as usize / UNITS.len())),
    }
}

/// all short histories of beginnings and new stages, with any time in between
fn histories(len: u32) -> Space {
    const OPS: [&str; 6] = ["initialize(1)", "initialize(32)", "reset", "stage at the end", "stage at once", "stage late"];
    let k = OPS.len() as u64;
    Space {
        name: format!("histories.{len}"),
        rule: format!("initialize(2) and all sequences of {len} operations of {OPS:?}"),
        size: k.pow(len),
        run: Box::new(move |mut c, cx| {
            let mut s = StageManager::new(7);
            let mut m = Schedule::default();
            s.initialize(2);
            m.begin(2);
            let mut now = 0;
            cx.add("evaluations", 1);
            for j in 0..len {
                let o = c % k;
                c /= k;
                let at = |e: String| format!("operation {j} ({}): {e}", OPS[o as usize]);
                match o {
                    0 | 1 => {
                        let u = [1, 32][o as usize];
                        s.initialize(u);
                        m.begin(u as u64);
                        now = 0;
                    }
                    2 => {
                        s.reset();
                        m.begin(m.unit);
                        now = 0;
                    }
                    _ => {
                        now = match o {
                            3 => m.end,
                            4 => now,
                            _ => m.end + 3,
                        };
                        let (a, b) = (s.prepare_new_stage(now as usize), m.prepare(now));
                        if a != b {
                            return Err(at(format!("it is {a:?} instead of {b:?}")));
                        }
                        if m.end <= now {
                            return Err(at("the stage is over as soon as it begins".into()));
                        }
                    }
                }
                agree(&s, &m).map_err(at)?;
                for t in [m.end.saturating_sub(1), m.end, m.end + 1, now] {
                    if s.stage_ended(t as usize) != (t == m.end) {
                        return Err(at(format!("stage_ended({t}), though the end is {}", m.end)));
                    }
                }
            }
            cx.add("nontrivial", (m.taken > 0) as u64);
            Ok(())
        }),
        show: Box::new(move |c| {
            let mut c = c;
            let l: Vec<&str> = (0..len)
                .map(|_| {
                    let o = OPS[(c % k) as usize];
                    c /= k;
                    o
                })
                .collect();
            format!("{l:?}")
        }),
    }
}

fn c21(t: bool) -> Vec<Space> {
    vec![
        prefix(t),
        resets(if t { 15 } else { 12 }),
        after_each(if t { 20_000 } else { 3_000 }, 300),
        stages(if t { 60_000 } else { 5_000 }),
        histories(if t { 8 } else { 7 }),
    ]
}

//
// C25
//

const INPUTS: [f64; 5] = [0.0, 1.0, 3.0, 250.5, 65536.0];

#[derive(Clone, Copy, Debug)]
enum Step {
    Update(f64),
    /// set both values
    Set(f64),
    ResetTo(f64),
    ResetFast,
    ResetSlow,
    /// EmaSU: the base of the next difference
    Base(f64),
}

/// the reference: a window or a rate for the fast value, a rate for the slow one
#[derive(Clone, Debug)]
struct Mean {
    window: Option<Vec<f64>>,
    fast: f64,
    slow: f64,
    rates: (f64, f64),
    last: Option<f64>,
}

impl Mean {
    fn step(&mut self, o: Step) {
        match o {
            Step::Update(x) => {
                let x = match &mut self.last {
                    Some(l) => x - std::mem::replace(l, x),
                    None => x,
                };
                match &mut self.window {
                    Some(w) => {
                        w.remove(0);
                        w.push(x);
                        self.fast = w.iter().sum::<f64>() / w.len() as f64;
                    }
                    None => self.fast += (x - self.fast) / self.rates.0,
                }
                self.slow += (x - self.slow) / self.rates.1;
            }
            Step::Set(x) => (self.fast, self.slow) = (x, x),
            Step::ResetTo(x) => self.fast = x,
            Step::ResetFast => self.fast = self.slow,
            Step::ResetSlow => self.slow = self.fast,
            Step::Base(x) => self.last = Some(x),
        }
    }
}

fn near(what: &str, got: f64, want: f64) -> Result<(), String> {
    let scale = 65536.0_f64.max(want.abs());
    if got == want || (got.is_nan() && want.is_nan()) || (got - want).abs() <= 1e-9 * scale {
        Ok(())
    } else {
        Err(format!("{what} is {got} instead of {want}"))
    }
}

/// fast/slow, unless the latter is too small to tell rounding from it
fn ratio(got: f64, m: &Mean) -> Result<(), String> {
    if m.slow.abs() < 1e-6 { Ok(()) } else { near("trend", got * m.slow, m.fast) }
}

fn steps(name: &str, ops: Vec<Step>, len: u32, rule: &str, walk: impl Fn(&[Step]) -> Result<(), String> + 'static) -> Space {
    let k = ops.len() as u64;
    let read = move |mut c: u64| -> Vec<Step> {
        (0..len)
            .map(|_| {
                let o = ops[(c % k) as usize];
                c /= k;
                o
            })
            .collect()
    };
    let read2 = read.clone();
    Space {
        name: format!("{name}.{len}"),
        rule: format!("{rule}: all sequences of {len} out of {k} operations, compared after each one"),
        size: k.pow(len),
        run: Box::new(move |c, cx| {
            cx.add("evaluations", len as u64);
            cx.add("nontrivial", 1);
            walk(&read(c))
        }),
        show: Box::new(move |c| format!("{:?}", read2(c))),
    }
}

fn exponential(len: u32) -> Space {
    let mut ops: Vec<Step> = INPUTS.into_iter().map(Step::Update).collect();
    ops.push(Step::Set(7.0));
    steps("Ema", ops, len, "Ema of lengths 1, 2, 5 and 4096, starting at 0 or 9", |v| {
        for n in [1, 2, 5, 4096] {
            for start in [None, Some(9.0)] {
                let mut e = Ema::new(n);
                if let Some(x) = start {
                    e = e.with_value(x);
                }
                let x = start.unwrap_or(0.0);
                let mut m = Mean { window: None, fast: x, slow: x, rates: (n as f64, n as f64), last: None };
                for o in v {
                    m.step(*o);
                    match *o {
                        Step::Update(x) => e.update(x),
                        Step::Set(x) => e.set_value(x),
                        _ => unreachable!(),
                    }
                    near("Ema", EmaIF::get(&e), m.fast)?;
                    near("Ema (fast)", e.get_fast(), m.fast)?;
                    near("the view of Ema", EmaIF::get(e.as_view()), m.fast)?;
                }
            }
        }
        Ok(())
    })
}

fn pairs(len: u32) -> Space {
    let mut ops: Vec<Step> = INPUTS.into_iter().take(4).map(Step::Update).collect();
    ops.extend([Step::ResetTo(7.0), Step::ResetFast, Step::ResetSlow]);
    steps("Ema2", ops, len, "Ema2 of lengths (3), (1, 4) and (16, 8192), starting at 0 or 9", |v| {
        for (a, b) in [(3, 3), (1, 4), (16, 8192)] {
            for start in [None, Some(9.0)] {
                let mut e = Ema2::new(a);
                if a != b {
                    e = e.with_slow(b);
                }
                if let Some(x) = start {
                    e = e.with_value(x);
                }
                let x = start.unwrap_or(0.0);
                let mut m = Mean { window: None, fast: x, slow: x, rates: (a as f64, b as f64), last: None };
                for o in v {
                    m.step(*o);
                    match *o {
                        Step::Update(x) => e.update(x),
                        Step::ResetTo(x) => e.reset_to(x),
                        Step::ResetFast => e.reset_fast(),
                        Step::ResetSlow => e.reset_slow(),
                        _ => unreachable!(),
                    }
                    near("Ema2", EmaIF::get(&e), m.fast)?;
                    near("Ema2 (fast)", e.get_fast(), m.fast)?;
                    near("Ema2 (slow)", EmaIF::get_slow(&e), m.slow)?;
                    near("the view of Ema2 (fast)", e.as_view().get_fast(), m.fast)?;
                    near("the view of Ema2 (slow)", e.as_view().get_slow(), m.slow)?;
                    ratio(e.trend(), &m)?;
                    ratio(e.as_view().trend(), &m)?;
                }
            }
        }
        Ok(())
    })
}

fn sequences(len: u32) -> Space {
    let mut ops: Vec<Step> = [0.0, 1.0, 5.0, 1000.0].into_iter().map(Step::Update).collect();
    ops.extend([Step::Base(0.0), Step::Base(40.0)]);
    steps("EmaSU", ops, len, "EmaSU, the averages of differences, of lengths 1, 2 and 100", |v| {
        for n in [1, 2, 100] {
            let mut e = EmaSU::new(n);
            let mut m = Mean { window: None, fast: 0.0, slow: 0.0, rates: (n as f64, n as f64), last: Some(0.0) };
            for o in v {
                m.step(*o);
                match *o {
                    Step::Update(x) => e.update(x as usize),
                    Step::Base(x) => e.update_base(x as usize),
                    _ => unreachable!(),
                }
                near("EmaSU", EmaIF::get(&e), m.fast)?;
                near("the Ema of EmaSU", e.get_ema().get_fast(), m.fast)?;
                near("the view of EmaSU", e.as_view().get_fast(), m.fast)?;
            }
        }
        Ok(())
    })
}

/// windows of length N, starting at 0 or 9
fn window<const N: usize>(v: &[Step]) -> Result<(), String> {
    for x in [0.0, 9.0] {
        let mut e = Ewa::<N>::new(x);
        let mut p = Ewa2::<N>::new(x);
        let mut q = Ewa2::<N>::new(x).with_slow(8192);
        let mut m = Mean { window: Some(vec![x; N]), fast: x, slow: x, rates: (1.0, N as f64), last: None };
        let mut mq = Mean { rates: (1.0, 8192.0), ..m.clone() };
        let look = |e: &Ewa<N>, p: &Ewa2<N>, q: &Ewa2<N>, m: &Mean, mq: &Mean| {
            near(&format!("Ewa<{N}> from {x}"), EmaIF::get(e), m.fast)?;
            near(&format!("the view of Ewa<{N}> from {x}"), e.as_view().get_fast(), m.fast)?;
            for (p, m) in [(p, m), (q, mq)] {
                near(&format!("Ewa2<{N}> from {x}"), EmaIF::get(p), m.fast)?;
                near(&format!("the view of Ewa2<{N}> from {x}"), p.as_view().get_fast(), m.fast)?;
                near(&format!("the view of Ewa2<{N}> from {x} (slow)"), p.as_view().get_slow(), m.slow)?;
                ratio(p.trend(), m)?;
            }
            Ok::<(), String>(())
        };
        look(&e, &p, &q, &m, &mq)?;
        // round by round, to see the window slide
        for o in v.iter().cycle().take(2 * N + v.len()) {
            m.step(*o);
            mq.step(*o);
            match *o {
                Step::Update(x) => {
                    e.update(x);
                    p.update(x);
                    q.update(x);
                }
                Step::ResetSlow => {
                    p.reset_slow();
                    q.reset_slow();
                }
                _ => unreachable!(),
            }
            look(&e, &p, &q, &m, &mq)?;
        }
    }
    Ok(())
}

fn windows(len: u32) -> Space {
    let mut ops: Vec<Step> = INPUTS.into_iter().map(Step::Update).collect();
    ops.push(Step::ResetSlow);
    steps("Ewa", ops, len, "Ewa and Ewa2 of windows 1, 2, 3, 4, 16 and 32, starting at 0 or 9, again and again to slide the window twice", |v| {
        window::<1>(v)?;
        window::<2>(v)?;
        window::<3>(v)?;
        window::<4>(v)?;
        window::<16>(v)?;
        window::<32>(v)
    })
}

fn c25(t: bool) -> Vec<Space> {
    let k = if t { 2 } else { 0 };
    vec![exponential(7 + k), pairs(7 + k), sequences(7 + k), windows(6 + k)]
}

fn main() {
    engine::main(|| {
        vec![
            Prop {
                id: "C20",
                level: "exploration",
                rule: "every number is a case of its own; all are non-trivial",
                assumptions: &["numbers beyond 2^30-1 aren't supported by the representation"],
                patience: 120,
                spaces: c20,
            },
            Prop {
                id: "C21",
                level: "exploration",
                rule: "every element, stage or history is a case of its own; non-trivial: with an element or a stage",
                assumptions: &["the series starts at the second element of the Luby sequence"],
                patience: 120,
                spaces: c21,
            },
            Prop {
                id: "C25",
                level: "exploration",
                rule: "each sequence of operations is a case of its own; all are non-trivial",
                assumptions: &["numbers are compared up to a billionth of the range of the inputs"],
                patience: 120,
                spaces: c25,
            },
        ]
    });
}
