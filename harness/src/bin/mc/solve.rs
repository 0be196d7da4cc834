//! Formulas in, answers out: C01, C02, C04, C06.
use mc::{core::*, form::*, spaces::*};
use splr::*;
use std::rc::Rc;

pub type Check = Rc<dyn Fn(&Cnf, &mut Cx) -> Result<(), String>>;

pub fn over(fs: Vec<FSpace>, check: Check) -> Vec<Space> {
    fs.into_iter()
        .map(|f| {
            let (mk, mk2, ck) = (f.make.clone(), f.make.clone(), check.clone());
            Space {
                name: f.name,
                rule: f.rule,
                size: f.size,
                run: Box::new(move |i, cx| {
                    let c = mk(i);
                    cx.sample(|| show(&c));
                    ck(&c, cx)
                }),
                show: Box::new(move |i| show(&mk2(i))),
            }
        })
        .collect()
}

/// solve a formula and count what happened.
pub fn solve(cfg: Config, f: &Cnf, cx: &mut Cx) -> Verdict {
    count_conflicts();
    let v = run(cfg, f);
    let c = conflicts_counted();
    cx.add("evaluations", 1);
    cx.add("conflicts", c);
    cx.add("nontrivial", (c > 0) as u64);
    cx.add(&format!("answers {}", v.tag()), 1);
    v
}

/// is the verdict right?
pub fn verdict_ok(f: &Cnf, v: &Verdict) -> Result<(), String> {
    match v {
        Verdict::Sat(m) if model_ok(f, num_vars(f), m).is_ok() => Ok(()),
        Verdict::Sat(_) if !is_sat(f) => Err("the answer is SAT, but it is unsatisfiable".into()),
        Verdict::Sat(_) => Ok(()),
        Verdict::Unsat if is_sat(f) => Err("the answer is UNSAT, but it is satisfiable".into()),
        Verdict::Unsat => Ok(()),
        Verdict::Err(e) => Err(format!("neither SAT nor UNSAT was answered but {e}")),
    }
}

pub fn small(t: bool) -> Vec<FSpace> {
    if t {
        vec![
            subsets(3, 1..=3, 10),
            subsets(4, 1..=4, 5),
            subsets(4, 3..=3, 10),
            dense(4, 3, 8),
            dense(5, 3, 4),
            dense(5, 4, 3),
            dense(6, 3, 2),
            functions(4, false),
            functions(4, true),
        ]
    } else {
        vec![
            subsets(3, 1..=3, 5),
            subsets(4, 1..=4, 3),
            dense(4, 3, 4),
            dense(5, 3, 2),
            dense(6, 3, 1),
            functions(4, false),
            functions(4, true),
        ]
    }
}

pub fn large(t: bool) -> Vec<FSpace> {
    if t {
        vec![
            families(true),
            wides(10, 60),
            wides(16, 40),
            wides(21, 20),
            seatings(4..=40, 4),
            messy(&[3, 4, 7, 15, 31, 33, 63, 64, 65, 66, 100, 127, 129, 200], 60),
            shapes(400),
            strided(8, &[26, 30, 34, 38, 44], 200, 112),
            strided(20, &[76, 80, 84, 86, 88, 92, 100], 200, 60),
            strided(50, &[190, 200, 205, 210, 213, 216, 220, 230], 100, 40),
            strided(100, &[400, 410, 415, 420, 425, 430, 440], 50, 20),
            strided(200, &[780, 820, 830, 840, 860], 10, 4),
            factors(5, 3, 1023),
            factors(6, 4001, 4095),
            colorings(6, 3, true),
            colorings(6, 3, false),
            colorings(6, 2, true),
            colorings(7, 3, true),
            tseitins(5),
            tseitins(6),
            circulants(11, 7, 5),
            circulants(13, 8, 5),
        ]
    } else {
        vec![
            families(false),
            wides(10, 10),
            wides(16, 5),
            seatings(4..=28, 4),
            messy(&[3, 4, 7, 15, 31, 33, 63, 64, 65, 66, 100, 127, 129, 200], 12),
            shapes(120),
            strided(8, &[30, 34, 38], 40, 40),
            strided(20, &[80, 86, 92], 40, 40),
            strided(50, &[200, 210, 215, 220], 60, 20),
            strided(100, &[400, 415, 430], 40, 8),
            strided(200, &[820, 840, 860], 6, 2),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            tseitins(5),
            circulants(11, 7, 5),
        ]
    }
}

fn both(t: bool) -> Vec<FSpace> {
    let mut v = small(t);
    v.extend(large(t));
    v
}

/// formulas that make many conflicts for their sizes
pub fn busy(t: bool) -> Vec<FSpace> {
    if t {
        vec![
            dense(4, 3, 6),
            dense(5, 3, 4),
            dense(6, 3, 2),
            functions(4, false),
            families(true),
            crowds(2),
            wides(10, 30),
            wides(16, 20),
            seatings(4..=28, 4),
            strided(8, &[30, 34, 38], 100, 60),
            strided(20, &[80, 86, 92], 100, 40),
            strided(50, &[200, 210, 215, 220, 230], 50, 20),
            strided(100, &[400, 415, 430], 30, 10),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            tseitins(5),
            circulants(11, 7, 5),
        ]
    } else {
        vec![
            dense(4, 3, 4),
            dense(5, 3, 2),
            dense(6, 3, 1),
            functions(4, false),
            families(false),
            crowds(1),
            wides(10, 15),
            wides(16, 8),
            seatings(4..=20, 4),
            strided(8, &[30, 34, 38], 30, 20),
            strided(20, &[80, 86, 92], 60, 30),
            strided(50, &[200, 210, 215, 220], 40, 20),
            strided(100, &[400, 415, 430], 20, 8),
            factors(5, 3, 1023),
            circulants(11, 7, 5),
        ]
    }
}

/// stages of one, two, and five conflicts at first, and some without restarts
pub fn in_processed(t: bool, check: Check) -> Vec<Space> {
    let mut v: Vec<Space> = [1, 2, 5].into_iter().flat_map(|k| staged(k, over(busy(t), check.clone()))).collect();
    v.extend(patient(over(busy(t), check.clone())));
    for k in [2, 5] {
        v.extend(patient(staged(k, over(busy(t), check.clone()))));
    }
    v
}

fn c01(t: bool) -> Vec<Space> {
    let mut v = both(t);
    if !t {
        v.extend([subsets(3, 1..=3, 6), subsets(4, 2..=3, 4), dense(5, 3, 3), strided(100, &[410, 420, 425], 60, 16), strided(150, &[630, 640], 20, 8)]);
    }
    let check: Check = Rc::new(|f, cx| {
        let v = solve(Config::default(), f, cx);
        verdict_ok(f, &v)
    });
    let mut s = over(v, check.clone());
    s.extend(in_processed(t, check));
    s
}

fn c02(t: bool) -> Vec<Space> {
    let st = |f: FSpace| f.times("styles", STYLE_RULE, STYLES, style);
    let v = if t {
        both(true).into_iter().map(st).collect()
    } else {
        vec![
            st(subsets(3, 1..=3, 4)),
            st(subsets(4, 1..=4, 2)),
            subsets(4, 2..=3, 4),
            subsets(4, 1..=4, 3),
            st(functions(4, false)),
            functions(4, true),
            st(dense(4, 3, 3)),
            families(false),
            wides(10, 10),
            wides(16, 5),
            seatings(4..=28, 4),
            messy(&[3, 4, 7, 15, 31, 33, 63, 64, 65, 66, 100, 127, 129, 200], 6),
            shapes(120),
            crowds(1),
            st(strided(8, &[26, 30, 34], 40, 10)),
            st(strided(20, &[70, 76, 80, 84], 40, 5)),
            strided(50, &[150, 170, 190, 200], 40, 10),
            strided(100, &[300, 380, 400], 20, 8),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            colorings(6, 3, false),
            circulants(11, 7, 3),
        ]
    };
    let check: Check = Rc::new(|f, cx| {
            for e in [true, false] {
                let cfg = Config { enable_eliminator: e, ..Config::default() };
                match solve(cfg, f, cx) {
                    Verdict::Sat(m) => {
                        cx.add("models", 1);
                        model_ok(f, num_vars(f), &m).map_err(|m| format!("{m} (enable_eliminator={e})"))?
                    }
                    Verdict::Unsat if is_sat(f) => {
                        return Err(format!("no model was returned for it (enable_eliminator={e})"));
                    }
                    Verdict::Unsat => (),
                    Verdict::Err(m) => return Err(format!("no model was returned but {m}")),
                }
            }
            Ok(())
        });
    let mut s = over(v, check.clone());
    s.extend(in_processed(t, check));
    s
}

/// lists of clauses read from strings over ±1..±nv, 0 (a bad literal) and the end of a clause
fn strings(nv: i32, len: u32) -> Space {
    let k = 2 * nv as u64 + 2;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let read = move |i: u64| -> Cnf {
        let mut i = i;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut f: Cnf = vec![vec![]];
        for _ in 0..l {
            let d = (i % k) as i32;
            i /= k;
            if d == 0 {
                f.push(vec![]);
            } else if d == 1 {
                f.last_mut().unwrap().push(0);
            } else {
                let v = d / 2;
                f.last_mut().unwrap().push(if d % 2 == 0 { v } else { -v });
            }
        }
        // so the first string is the formula without clauses
        f.pop_if(|c| c.is_empty());
        f
    };
    Space {
        name: format!("strings{nv}.{len}"),
        rule: format!("all lists of clauses of total size up to {len} over {nv} vars, with empty clauses, repetitions and the malformed literal 0"),
        size: total,
        run: Box::new(move |i, cx| {
            let f = read(i);
            total_case(&f, cx)
        }),
        show: Box::new(move |i| show(&read(i))),
    }
}

fn total_case(f: &Cnf, cx: &mut Cx) -> Result<(), String> {
    let bad = f.iter().flatten().any(|l| *l == 0);
    let solver = Solver::try_from((Config::default(), &f[..]));
    let v1 = match solver {
        Ok(mut s) => s.solve(),
        Err(e) => e,
    };
    let v2 = Certificate::try_from(f.clone());
    cx.add("evaluations", 2);
    cx.add("nontrivial", (f.len() > 1) as u64);
    for (how, v) in [("Solver::try_from", v1), ("Certificate::try_from", v2)] {
        match v {
            Err(SolverError::EmptyClause) if f.iter().any(|c| c.is_empty()) => cx.add("empty clause", 1),
            Err(SolverError::InvalidLiteral) if bad => cx.add("malformed", 1),
            // a contradiction can be found before the malformed literal
            Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) | Ok(Certificate::UNSAT) if bad => {
                cx.add("malformed", 1)
            }
            Ok(_) if bad => return Err(format!("{how}: a malformed literal was accepted")),
            _ => judge(f, num_vars(f), &verdict(v), || is_sat(f)).map_err(|e| format!("{how}: {e}"))?,
        }
    }
    Ok(())
}

fn c04(t: bool) -> Vec<Space> {
    let mut v = if t { vec![strings(3, 7), strings(2, 8), strings(5, 5)] } else { vec![strings(3, 5), strings(2, 6)] };
    let st = |f: FSpace| f.times("styles", STYLE_RULE, STYLES, style);
    let fs: Vec<FSpace> = if t {
        let mut l: Vec<FSpace> = both(true).into_iter().map(st).collect();
        l.push(giants(&[254, 255, 256, 257, 258, 8190, 8191, 8192, 8193, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 65540]));
        l
    } else {
        vec![
            giants(&[65538, 8191, 8192, 8193, 258, 256, 254]),
            st(subsets(3, 1..=3, 4)),
            st(subsets(4, 1..=4, 2)),
            st(dense(4, 3, 3)),
            dense(5, 3, 2),
            functions(4, false),
            functions(4, true),
            families(false),
            st(shapes(60)),
            shapes(300),
            st(strided(8, &[30, 34, 38], 20, 10)),
            st(strided(20, &[80, 86, 92], 20, 10)),
            strided(50, &[200, 210, 215, 220], 40, 10),
            strided(100, &[400, 415, 430], 20, 8),
            strided(200, &[800, 820], 4, 2),
            crowds(1),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            tseitins(5),
            circulants(11, 7, 5),
        ]
    };
    let check: Check = Rc::new(|f, cx| match solve(Config::default(), f, cx) {
        Verdict::Err(e) => Err(format!("an internal error was returned: {e}")),
        _ => Ok(()),
    });
    v.extend(over(fs, check.clone()));
    v.extend(in_processed(t, check));
    v
}

//
// configurations
//
type Axis = (&'static str, Vec<(&'static str, fn(&mut Config))>);

/// the first value of each axis is the default
fn axes() -> Vec<Axis> {
    vec![
        ("enable_eliminator", vec![("true", |_| ()), ("false", |c| c.enable_eliminator = false)]),
        ("elm_cls_lim", vec![
            ("64", |_| ()),
            ("0", |c| c.elm_cls_lim = 0),
            ("1", |c| c.elm_cls_lim = 1),
            ("3", |c| c.elm_cls_lim = 3),
            ("100000", |c| c.elm_cls_lim = 100_000),
        ]),
        ("elm_grw_lim", vec![
            ("0", |_| ()),
            ("1", |c| c.elm_grw_lim = 1),
            ("8", |c| c.elm_grw_lim = 8),
            ("100000", |c| c.elm_grw_lim = 100_000),
        ]),
        ("elm_var_occ", vec![
            ("20000", |_| ()),
            ("0", |c| c.elm_var_occ = 0),
            ("2", |c| c.elm_var_occ = 2),
            ("5", |c| c.elm_var_occ = 5),
        ]),
        ("c_cls_lim", vec![("0", |_| ()), ("1000000", |c| c.c_cls_lim = 1_000_000)]),
        ("cls_rdc_lbd", vec![("5", |_| ()), ("0", |c| c.cls_rdc_lbd = 0), ("65535", |c| c.cls_rdc_lbd = u16::MAX)]),
        ("cls_rdc_rm1", vec![("0.2", |_| ()), ("0", |c| c.cls_rdc_rm1 = 0.0), ("1", |c| c.cls_rdc_rm1 = 1.0)]),
        ("cls_rdc_rm2", vec![("0.05", |_| ()), ("0", |c| c.cls_rdc_rm2 = 0.0), ("1", |c| c.cls_rdc_rm2 = 1.0)]),
        ("rst_lbd_thr", vec![("2.0", |_| ()), ("0", |c| c.rst_lbd_thr = 0.0), ("1000", |c| c.rst_lbd_thr = 1000.0)]),
        ("vrw_dcy_rat", vec![("0.96", |_| ()), ("0", |c| c.vrw_dcy_rat = 0.0), ("0.5", |c| c.vrw_dcy_rat = 0.5), ("1", |c| c.vrw_dcy_rat = 1.0)]),
        ("vrw_dcy_stp", vec![("0", |_| ()), ("0.01", |c| c.vrw_dcy_stp = 0.01)]),
        ("crw_dcy_rat", vec![("0.95", |_| ()), ("0.5", |c| c.crw_dcy_rat = 0.5)]),
        ("c_cbt_thr", vec![("32", |_| ()), ("0", |c| c.c_cbt_thr = 0)]),
        ("use_certification", vec![("false", |_| ()), ("true", |c| {
            c.use_certification = true;
            c.io_odir = "/dev".into();
            c.io_pfile = "null".into();
        })]),
        ("quiet_mode", vec![("false", |_| ()), ("true", |c| c.quiet_mode = true)]),
    ]
}

type Setting = (String, Vec<fn(&mut Config)>);

/// all the settings that differ from the default in at most k options
fn settings(k: usize) -> Vec<Setting> {
    let ax = axes();
    let mut out: Vec<Setting> = vec![(String::from("default"), vec![])];
    let mut layer: Vec<(usize, Setting)> = vec![(0, (String::new(), vec![]))];
    for _ in 0..k {
        let mut next = Vec::new();
        for (from, (name, fs)) in &layer {
            for (ai, (an, vals)) in ax.iter().enumerate().skip(*from) {
                for (vn, g) in &vals[1..] {
                    let mut fs = fs.clone();
                    fs.push(*g);
                    let s = (format!("{name}{an}={vn} "), fs);
                    out.push(s.clone());
                    next.push((ai + 1, s));
                }
            }
        }
        layer = next;
    }
    out
}

/// all the combinations of the options of the preprocessor
fn product() -> Vec<Setting> {
    let ax: Vec<Axis> = axes().into_iter().filter(|a| a.0.starts_with("elm") || a.0 == "cls_rdc_lbd" || a.0 == "rst_lbd_thr").collect();
    let mut out: Vec<Setting> = vec![(String::new(), vec![])];
    for (an, vals) in ax {
        out = out
            .into_iter()
            .flat_map(|(n, fs)| {
                vals.iter()
                    .map(|(vn, g)| {
                        let mut fs = fs.clone();
                        fs.push(*g);
                        (format!("{n}{an}={vn} "), fs)
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

fn configured(tag: &str, what: &str, ss: Vec<Setting>, f: FSpace) -> Space {
    let k = ss.len() as u64;
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    let ss = Rc::new(ss);
    let ss2 = ss.clone();
    Space {
        name: format!("{}*{tag}", f.name),
        rule: format!("{}; each with {k} configurations: {what}", f.rule),
        size: f.size * k,
        run: Box::new(move |i, cx| {
            let (name, gs) = &ss[(i % k) as usize];
            let f = mk(i / k);
            let mut c = Config::default();
            for g in gs {
                g(&mut c);
            }
            cx.sample(|| format!("{name}: {}", show(&f)));
            let v = solve(c, &f, cx);
            judge(&f, num_vars(&f), &v, || is_sat(&f)).map_err(|e| format!("{e} (with {name})"))
        }),
        show: Box::new(move |i| format!("{}: {}", ss2[(i % k) as usize].0, show(&mk2(i / k)))),
    }
}

fn c06(t: bool) -> Vec<Space> {
    let one = || settings(1);
    let two = || settings(2);
    let (w1, w2, wp) = (
        "the default and each option alone at each of its values",
        "all that differ from the default in at most two options",
        "all the combinations of the elimination limits, LBD limit and restart threshold",
    );
    if t {
        let mut v: Vec<Space> = vec![
            subsets(3, 1..=3, 5),
            subsets(4, 1..=4, 3),
            dense(4, 3, 4),
            dense(5, 3, 2),
            functions(4, false),
            families(true),
            wides(10, 5),
            seatings(4..=16, 4),
            shapes(200),
            strided(8, &[30, 34, 38], 100, 40),
            strided(20, &[80, 86, 92], 60, 40),
            strided(50, &[200, 210, 215, 220], 40, 20),
            strided(100, &[400, 415, 430], 20, 8),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            tseitins(5),
        ]
        .into_iter()
        .map(|f| configured("one", w1, one(), f))
        .collect();
        for f in [
            subsets(3, 1..=3, 3),
            dense(4, 3, 2),
            families(false),
            strided(20, &[80, 86, 92], 20, 10),
            strided(50, &[200, 210, 215, 220], 10, 5),
        ] {
            v.push(configured("two", w2, two(), f.clone()));
            v.push(configured("elm", wp, product(), f));
        }
        v
    } else {
        let mut v: Vec<Space> = vec![
            subsets(3, 1..=3, 3),
            subsets(4, 2..=4, 3),
            functions(4, true),
            dense(4, 3, 3),
            dense(5, 3, 1),
            families(false),
            wides(10, 4),
            wides(16, 2),
            seatings(4..=16, 4),
            shapes(60),
            strided(8, &[30, 34, 38], 40, 20),
            strided(20, &[80, 86, 92], 40, 20),
            strided(50, &[200, 210, 215, 220], 20, 8),
            strided(100, &[400, 415, 430], 10, 4),
            colorings(5, 3, true),
            tseitins(4),
        ]
        .into_iter()
        .map(|f| configured("one", w1, one(), f))
        .collect();
        for f in [subsets(3, 1..=3, 2), dense(4, 3, 1), strided(8, &[30, 34], 5, 4), strided(20, &[80, 86, 92], 5, 4)] {
            v.push(configured("two", w2, two(), f.clone()));
            v.push(configured("elm", wp, product(), f));
        }
        v
    }
}

pub fn props() -> Vec<Prop> {
    const RULE: &str = "each case is a formula (with a configuration), different from the others by construction; non-trivial: the search met at least one conflict";
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: RULE,
            assumptions: &["oracle: truth tables up to 6 vars, and beyond them a reference solver checked against truth tables on each run"],
            patience: 60,
            spaces: c01,
        },
        Prop {
            id: "C02",
            level: "exploration",
            rule: RULE,
            assumptions: &["a missing model is judged by truth tables up to 6 vars, and by a reference solver beyond them"],
            patience: 60,
            spaces: c02,
        },
        Prop {
            id: "C04",
            level: "exploration",
            rule: "each case is a list of clauses, different from the others by construction; non-trivial: the search met a conflict, or it is a string of two or more clauses",
            assumptions: &["literals lie in the supported range; a case that takes more than 100 s, and 300 s when it is run again alone, counts as a hang"],
            patience: 100,
            spaces: c04,
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: RULE,
            assumptions: &["settings that limit memory or time below what the formula needs are out of it (see C16)"],
            patience: 60,
            spaces: c06,
        },
    ]
}
