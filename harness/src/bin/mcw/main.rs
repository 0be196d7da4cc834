//! White-box checks: C05, C07-C10 by exploring the schedules of the search.
mod explore;
mod monitor;
mod order;
mod store;
mod tab;
mod watch;
use explore::*;
use mc::{core::*, engine, form::*, spaces::*};
use monitor::What;

fn over(what: What, tag: &str, b: Bounds, fs: Vec<FSpace>) -> Vec<Space> {
    let kinds: Vec<&str> = [(DECISION, "decisions"), (RESTART, "restarts"), (STAGE, "ends of stages"), (DEEPEN, "deeper backtracks"), (REDUCE, "reduced clauses")]
        .iter()
        .filter(|x| b.kinds & x.0 != 0)
        .map(|x| x.1)
        .collect();
    let few = if b.kinds & FEW != 0 { " (other phase, first var, last var)" } else { "" };
    let when = if b.horizon < ANY { format!(" among the first {} choice points", b.horizon) } else { String::new() };
    let d = if b.deviations > 1000 { "any number of".to_string() } else { format!("up to {}", b.deviations) };
    fs.into_iter()
        .map(|f| {
            let (mk, mk2) = (f.make.clone(), f.make.clone());
            Space {
                name: format!("{}~{tag}", f.name),
                rule: format!(
                    "{}; each under all schedules with {d} deviations in {}{few}{when}{}{}; elimination {}{}",
                    f.rule,
                    kinds.join(", "),
                    if b.stage > 0 { format!("; stages start with {} conflicts", b.stage) } else { String::new() },
                    if b.kinds & RARE != 0 { "; no restart otherwise" } else { "" },
                    if b.eliminator { "on" } else { "off" },
                    if b.limits != LIMITS { format!(" with limits of {} literals, growth {}, {} occurrences", b.limits[0], b.limits[1], b.limits[2]) } else { String::new() }
                ),
                size: f.size,
                run: Box::new(move |i, cx| {
                    let c = mk(i);
                    cx.sample(|| show(&c));
                    explore(&c, what, b, cx)
                }),
                show: Box::new(move |i| show(&mk2(i))),
            }
        })
        .collect()
}

const ANY: usize = 100_000;
const B: Bounds = Bounds { kinds: EVERY, deviations: 0, horizon: ANY, stage: 0, eliminator: false, limits: LIMITS, conflicts: 300_000 };
/// the default limits of the eliminator
const LIMITS: [usize; 3] = [64, 0, 20000];

/// Bounds: stage size and deviations
fn sd(stage: i64, deviations: usize, kinds: u8, horizon: usize) -> Bounds {
    Bounds { stage, deviations, kinds, horizon, ..B }
}

fn plan(what: What, elims: &[bool], l: Vec<(Bounds, Vec<FSpace>)>) -> Vec<Space> {
    let mut v = vec![];
    for (b, fs) in l {
        let mut fs = Some(fs);
        for (k, e) in elims.iter().enumerate() {
            let f = if k + 1 == elims.len() { fs.take().unwrap() } else { fs.as_ref().unwrap().iter().map(again).collect() };
            let b = Bounds { eliminator: *e, ..b };
            let tag = format!(
                "{}{}{}{}{}{}{}",
                if *e { "e" } else { "" },
                if b.limits != LIMITS { format!("[{},{},{}]", b.limits[0], b.limits[1], b.limits[2]) } else { String::new() },
                if b.deviations >= ANY { "any".to_string() } else { format!("d{}", b.deviations) },
                if b.deviations == 0 { String::new() } else { format!("k{}", b.kinds) },
                if b.horizon < ANY { format!("h{}", b.horizon) } else { String::new() },
                if b.stage > 0 { format!("@{}", b.stage) } else { String::new() },
                if b.kinds & RARE != 0 { "!" } else { "" },
            );
            v.extend(over(what, &tag, b, f));
        }
    }
    v
}

fn again(f: &FSpace) -> FSpace {
    FSpace { name: f.name.clone(), rule: f.rule.clone(), size: f.size, make: f.make.clone() }
}


/// The formulas and bounds of all the checks here.
/// `heavy`: what is monitored is costly.
fn suite(big: bool, heavy: bool) -> Vec<(Bounds, Vec<FSpace>)> {
    let mut l = vec![];
    let w8 = [14, 18, 22, 26, 30, 34, 38];
    let w12 = [20, 30, 40, 50, 55, 60];
    // natural schedules, many formulas
    for st in [0, 1, 2, 5] {
        l.push((sd(st, 0, EVERY, ANY), vec![
            dense(4, 3, if big { 6 } else { 4 }),
            dense(5, 3, if big { 3 } else { 2 }),
            functions(4, false),
            functions(4, true),
            strided(8, &w8, 30, if big { 100 } else { 20 }),
            strided(12, &w12, 30, if big { 50 } else { 10 }),
            strided(20, &[80, 92], 10, if big { 20 } else { 4 }),
            strided(50, &[150, 200, 215], 5, if big { 10 } else { 4 }),
            if heavy { families_within(if big { 100 } else { 60 }) } else { families(big) },
            if heavy { seatings(4..=if big { 20 } else { 16 }, if big { 8 } else { 4 }) } else { seatings(4..=28, if big { 8 } else { 4 }) },
        ]));
    }
    for st in [0, 1, 2] {
        l.push((sd(st, 0, EVERY, ANY), vec![wides(10, if big { 60 } else { 10 }), wides(12, if big { 20 } else { 3 })]));
        l.push((sd(st, 1, EVERY | FEW, if big { ANY } else { 60 }), vec![wides(10, if big { 6 } else { 1 })]));
    }
    for st in [0, 1] {
        l.push((sd(st, 0, EVERY, ANY), vec![subsets(3, 1..=3, if big { 6 } else { 4 }), colorings(5, 3, true), colorings(5, 3, false), tseitins(if big { 5 } else { 4 }), factors(4, 4, 226)]));
    }
    if big {
        l.push((sd(1, 0, EVERY, ANY), vec![subsets(4, 1..=3, 4), powerset(3, 2..=3)]));
    }
    // the same without restarts within a stage: the search goes on from where the conflict is resolved
    for st in [0, 2, 5] {
        l.push((sd(st, 0, EVERY | RARE, ANY), vec![
            dense(4, 3, if big { 5 } else { 3 }),
            dense(5, 3, if big { 3 } else { 2 }),
            dense(6, 3, 1),
            functions(4, true),
            strided(8, &w8, 30, if big { 100 } else { 20 }),
            strided(12, &w12, 30, if big { 50 } else { 10 }),
            strided(20, &[80, 92], 10, if big { 20 } else { 6 }),
            strided(50, &[150, 200, 215], 5, if big { 10 } else { 4 }),
            wides(10, if big { 20 } else { 3 }),
            families_within(if heavy { if big { 100 } else { 60 } } else { 200 }),
            seatings(4..=if big { 20 } else { 14 }, if big { 8 } else { 4 }),
        ]));
    }
    for st in [0, 2] {
        l.push((sd(st, 1, EVERY | RARE, if big { ANY } else { 60 }), vec![
            dense(4, 3, if big { 3 } else { 2 }),
            dense(5, 3, 1),
            strided(8, &[26, 30, 34], if big { 20 } else { 4 }, if big { 5 } else { 3 }),
            strided(12, &[40, 50, 60], if big { 20 } else { 3 }, 3),
        ]));
        l.push((sd(st, 1, EVERY | FEW | RARE, if big { 200 } else { 40 }), vec![strided(20, &[80, 92], if big { 5 } else { 2 }, 2), families_within(if heavy { 18 } else { 30 })]));
    }
    // one deviation of any kind anywhere
    for st in [0, 1, 2, 5] {
        l.push((sd(st, 1, EVERY, ANY), vec![
            dense(4, 3, if big { 4 } else { 3 }),
            dense(5, 3, 1),
            strided(8, &w8, if big { 30 } else { 5 }, if big { 5 } else { 3 }),
            strided(12, &[30, 40, 50, 60], if big { 30 } else { 4 }, 3),
        ]));
        l.push((sd(st, 1, EVERY, ANY), vec![colorings(4, 3, true), tseitins(4), subsets(3, 1..=3, if big { 4 } else { 3 })]));
        if big {
            l.push((sd(st, 1, EVERY | FEW, 200), vec![strided(20, &[80, 92], 5, 3), strided(50, &[200, 215], 2, 2)]));
        }
    }
    for st in [0, 1] {
        l.push((sd(st, 1, EVERY, if big { ANY } else { 10 }), vec![functions(4, true)]));
        l.push((sd(st, 1, EVERY | FEW, if big { 200 } else { 40 }), vec![families_within(if heavy { if big { 30 } else { 18 } } else if big { 36 } else { 30 })]));
    }
    // two
    for st in [0, 1, 2] {
        l.push((sd(st, 2, EVERY, ANY), vec![dense(4, 3, if big { 3 } else { 1 }), strided(8, &[22, 26, 30, 34], if big { 4 } else { 1 }, 1)]));
        if big {
            l.push((sd(st, 2, EVERY, ANY), vec![strided(10, &[34, 38, 42, 46], 2, 1), strided(12, &[40, 50, 60], 2, 1)]));
        } else {
            l.push((sd(st, 2, EVERY, 40), vec![strided(10, &[38, 44], 1, 1), strided(12, &[50], 1, 1)]));
        }
    }
    // three
    for st in [0, 1] {
        l.push((sd(st, 3, EVERY, ANY), vec![dense(4, 3, if big { 1 } else { 0 })]));
    }
    // every sequence of decisions and ends of stages
    for st in [0, 1] {
        l.push((sd(st, ANY, DECISION, ANY), vec![subsets(3, 1..=3, if big { 5 } else { 4 }), dense(4, 3, if big { 2 } else { 1 })]));
    }
    l.push((sd(0, ANY, STAGE | DEEPEN, if big { 16 } else { 10 }), vec![dense(4, 3, 1), strided(10, &[34, 38, 42, 46], if big { 8 } else { 2 }, 1), strided(12, &[50, 54], if big { 4 } else { 1 }, 1), families_within(if big { 16 } else { 12 })]));
    l
}

/// elimination under other limits: it's given up half-way, or goes further
fn limited(big: bool) -> Vec<(Bounds, Vec<FSpace>)> {
    let mut l = vec![];
    let mut all = vec![[64, 0, 1], [64, 0, 3], [64, 0, 6], [64, 0, 12], [2, 0, 20000], [3, 0, 20000], [64, 4, 20000], [100, 100, 20000], [100, 100, 8], [3, 4, 5]];
    if big {
        for occ in [2, 4, 5, 7, 8, 10, 15, 20, 30] {
            for grow in [0, 1, 4, 100] {
                all.push([64, grow, occ]);
            }
        }
    }
    for limits in all {
        for st in if big { vec![0, 1, 2] } else { vec![0, 1] } {
            let b = Bounds { limits, ..sd(st, 0, EVERY, ANY) };
            l.push((b, vec![
                dense(4, 3, if big { 4 } else { 3 }),
                functions(4, true),
                strided(8, &[14, 18, 22, 26, 30, 34, 38], if big { 30 } else { 10 }, 10),
                strided(12, &[20, 30, 40, 50], 10, if big { 10 } else { 5 }),
                strided(20, &[40, 60, 80, 92], 10, if big { 10 } else { 3 }),
                families_within(30),
                seatings(4..=12, if big { 8 } else { 4 }),
                wides(10, if big { 20 } else { 3 }),
            ]));
            let b = Bounds { limits, ..sd(st, 1, EVERY | if big { 0 } else { FEW }, ANY) };
            l.push((b, vec![strided(8, &[22, 30], if big { 10 } else { 3 }, 2), strided(12, &[30, 50], if big { 5 } else { 2 }, 2)]));
        }
    }
    l
}

/// propagation without the search
fn engine_alone(big: bool) -> Vec<Space> {
    use watch::*;
    const ALL: usize = 1_000_000;
    let o = Ops { asserts: false, sandbox: false, only: false, depth: ALL };
    let one = |w: i32| list(&format!("one{w}"), &format!("one clause of {w} literals"), vec![vec![(1..=w).collect()]]);
    let mut v = vec![
        over(Ops { asserts: true, ..o }, "all", one(3)),
        over(Ops { only: true, ..o }, "falsify", one(4)),
        over(Ops { sandbox: true, only: true, ..o }, "sandbox", one(4)),
        over(Ops { sandbox: true, only: true, depth: if big { 14 } else { 11 }, ..o }, "sandbox", one(5)),
        over(Ops { only: true, depth: if big { 14 } else { 9 }, ..o }, "falsify", one(5)),
        over(Ops { asserts: true, depth: if big { 7 } else { 5 }, ..o }, "ops", subsets(3, 1..=3, if big { 4 } else { 3 })),
        over(Ops { asserts: true, depth: if big { 6 } else { 4 }, ..o }, "ops", dense(4, 3, if big { 2 } else { 1 })),
        over(Ops { asserts: true, depth: if big { 5 } else { 4 }, ..o }, "ops", subsets(4, 2..=4, if big { 3 } else { 2 })),
        over(Ops { sandbox: true, asserts: true, depth: if big { 7 } else { 5 }, ..o }, "sandbox", subsets(3, 1..=3, 3)),
        over(Ops { sandbox: true, depth: if big { 7 } else { 5 }, ..o }, "sandbox", subsets(4, 2..=4, 2)),
    ];
    v.push(wide(if big { (3..=40).chain([63, 64, 65, 66, 67, 96, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 514]).collect() } else { vec![3, 4, 5, 6, 7, 8, 12, 16, 17, 20, 24, 33, 40, 66, 130, 258] }));
    v
}

const RULE: &str = "An execution is the real search under an oracle that answers each heuristic choice. Explored are all \
    executions within the number of deviations from the natural choices, depth first. States are told apart by a hash \
    of the trail, root literals and clauses at loop heads; transitions are rounds of the search loop; traces are executions. \
    Each run is of the real code: there is no model to validate.";

fn main() {
    engine::main(|| {
        let p = |id, what: fn(bool) -> Vec<Space>| Prop {
            id,
            level: "model_checking",
            rule: RULE,
            assumptions: &[],
            spaces: what,
            patience: 120,
        };
        vec![
            p("C05", |b| plan(What::Answer, &[false, true], suite(b, false))),
            p("C07", |b| plan(What::Elimination, &[true], suite(b, true).into_iter().chain(limited(b)).collect())),
            p("C08", |b| plan(What::Equivalence, &[false], suite(b, true))),
            p("C09", |b| {
                let mut v = plan(What::Propagation, &[false, true], suite(b, true));
                v.extend(engine_alone(b));
                v
            }),
            p("C22", |b| plan(What::Counters, &[false, true], suite(b, true))),
            p("C27", store::spaces),
            p("C29", order::spaces),
            p("C10", |b| plan(What::Learning, &[false, true], suite(b, true))),
        ]
    });
}
