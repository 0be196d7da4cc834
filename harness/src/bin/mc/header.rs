//! C30: the statistics at the head of an answer file.
use crate::cli::{answer, call, dimacs, io};
use mc::{core::*, form::*, spaces::*};
use splr::{
    assign, cdb,
    cdb::ClauseDBIF,
    config,
    state::{self, LogF64Id as F, LogUsizeId as U},
    *,
};
use std::fs;

/// the options, and what they mean
type Set = (&'static [&'static str], fn(&mut Config));
const SETS: [Set; 10] = [
    (&[], |_| ()),
    (&["-q", "-C"], |c| c.quiet_mode = true),
    (&["-c", "-j"], |c| c.use_certification = true),
    (&["-H", "-t", "3000"], |c| c.c_timeout = 3000.0),
    (&["--vdr", "0.875"], |c| c.vrw_dcy_rat = 0.875),
    (&["--evl", "4", "--ecl", "3"], |c| (c.elm_grw_lim, c.elm_cls_lim) = (4, 3)),
    (&["--cr1", "0.25", "--rlt", "2.0"], |c| (c.cls_rdc_rm1, c.rst_lbd_thr) = (0.25, 2.0)),
    (&["--cl", "100000", "--vds", "0.01"], |c| (c.c_cls_lim, c.vrw_dcy_stp) = (100_000, 0.01)),
    (&["--cr2", "0.5", "--crl", "8"], |c| (c.cls_rdc_rm2, c.cls_rdc_lbd) = (0.5, 8)),
    (&["--evo", "3", "--vdr", "0.5"], |c| (c.elm_var_occ, c.vrw_dcy_rat) = (3, 0.5)),
];

/// the labels with the texts that should follow them
fn expected(s: &Solver, vars: usize, clauses: usize) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![("#var:".into(), vars.to_string()), ("#cls:".into(), clauses.to_string())];
    let r = &s.state;
    for (l, k) in [
        ("#conflict:", U::NumConflict),
        ("#decision:", U::NumDecision),
        ("#propagate:", U::NumPropagate),
        ("#rem:", U::RemainingVar),
        ("#fix:", U::AssertedVar),
        ("#elm:", U::EliminatedVar),
        ("Remv:", U::RemovableClause),
        ("LBD2:", U::LBD2Clause),
        ("BinC:", U::BiClause),
        ("Perm:", U::PermanentClause),
        ("#RST:", U::Restart),
        ("vivC:", U::VivifiedClause),
        ("subC:", U::SubsumedClause),
        ("core:", U::UnreachableCore),
    ] {
        v.push((l.into(), r[k].to_string()));
    }
    for (l, k) in [("prg%:", F::Progress), ("entg:", F::LiteralBlockEntanglement), ("cLvl:", F::CLevel), ("bLvl:", F::BLevel), ("avrg:", F::EmaLBD), ("trnd:", F::TrendLBD)] {
        v.push((l.into(), format!("{:.4}", r[k])));
    }
    for (l, k) in [("/cpr:", F::ConflictPerRestart), ("/dpc:", F::DecisionPerConflict), ("/ppc:", F::PropagationPerConflict)] {
        v.push((l.into(), format!("{:.2}", r[k])));
    }
    let mut put = |x: &str, k: String, t: String| v.push((format!("{x}::{k} "), t));
    for k in config::property::F64S {
        put("config", format!("{k:?}"), format!("{:.3}", r.config.derefer(k)));
    }
    for k in assign::property::USIZES {
        put("assign", format!("{k:?}"), s.asg.derefer(k).to_string());
    }
    for k in assign::property::EMAS {
        put("assign", format!("{k:?}"), format!("{:.3}", s.asg.refer(k).get()));
    }
    for k in cdb::property::USIZES {
        put("clause", format!("{k:?}"), s.cdb.derefer(k).to_string());
    }
    for k in cdb::property::F64S {
        put("clause", format!("{k:?}"), format!("{:.3}", s.cdb.derefer(k)));
    }
    for k in state::property::USIZES {
        put("state", format!("{k:?}"), r.derefer(k).to_string());
    }
    for k in state::property::F64S {
        put("state", format!("{k:?}"), format!("{:.3}", r.derefer(k)));
    }
    for k in state::property::EMAS {
        put("state", format!("{k:?}"), format!("{:.3}", r.refer(k).get()));
    }
    for (i, l) in s.cdb.clause_heatmap().iter().enumerate() {
        let head = if i == 6 { "LBD>6 (".to_string() } else { format!("LBD {} (", i + 1) };
        let t: Vec<String> = l[1..].iter().map(|x| format!("{x:.3}")).collect();
        v.push((head, format!("{:.3}): {}", l[0], t.join(", "))));
    }
    v
}

/// what follows a label, up to a comma or the end of the line
fn after<'a>(head: &'a str, label: &str) -> Option<&'a str> {
    let line = head.lines().find(|l| l.contains(label))?;
    let t = &line[line.find(label)? + label.len()..];
    Some(if label.starts_with("LBD") && label.ends_with('(') { t.trim() } else { t.split(',').next()?.trim() })
}

fn headed(f: &Cnf, n: usize, (opts, set): Set, cx: &mut Cx) -> Result<(), String> {
    let cwd = cx.scratch.join("cwd");
    let _ = fs::remove_dir_all(&cwd);
    io(fs::create_dir_all(&cwd))?;
    let path = cwd.join("the f.cnf");
    io(fs::write(&path, dimacs(f, n)))?;
    let mut args: Vec<String> = opts.iter().map(|x| x.to_string()).collect();
    args.push("the f.cnf".into());
    cx.add("evaluations", 1);
    let r = call(cx, "splr", &args, &cwd, None)?;
    let ctx = |e: String| format!("splr {}: {e}", args.join(" "));
    let text = io(fs::read_to_string(cwd.join("ans_the f.cnf")))?;
    let (sat, _) = answer(&text).map_err(ctx)?;
    if r.code != Some(if sat { 10 } else { 20 }) {
        return Err(ctx(format!("exit {:?}; {:?}", r.code, r.err)));
    }
    // the head ends where the verdict begins
    let head = &text[..text.find("\ns ").unwrap_or(0)];
    if let Some(l) = head.lines().find(|l| !l.starts_with('c')) {
        return Err(ctx(format!("a line that's no comment before the verdict: {l:?}")));
    }
    if !head.lines().any(|l| l.starts_with("c the f.cnf ")) {
        return Err(ctx(format!("the file isn't named: {head:?}")));
    }
    let mut cfg = Config { cnf_file: path.clone(), quiet_mode: true, io_odir: cx.scratch.clone(), ..Config::default() };
    set(&mut cfg);
    let mut searched = false;
    let s = match Solver::build(&cfg) {
        Ok(mut s) => {
            let v = verdict(s.solve());
            searched = s.state[U::NumConflict] > 0;
            judge(f, n, &v, || is_sat(f))?;
            s
        }
        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) if !sat => {
            Solver::instantiate(&cfg, &CNFDescription { num_of_variables: n, num_of_clauses: f.len(), ..CNFDescription::default() })
        }
        Err(e) => return Err(format!("the library refused it: {e:?}")),
    };
    for (l, want) in expected(&s, n, f.len()) {
        match after(head, &l) {
            Some(t) if t == want => (),
            t => return Err(ctx(format!("{l} is followed by {t:?} instead of {want:?}"))),
        }
    }
    // among themselves
    let number = |l: &str| after(head, l).and_then(|t| t.parse::<usize>().ok()).ok_or_else(|| ctx(format!("no number after {l}")));
    if searched && number("#rem:")? + number("#fix:")? + number("#elm:")? != n {
        return Err(ctx(format!("the variables aren't {n}: {head:?}")));
    }
    for (a, b) in [("#conflict:", "assign::NumConflict "), ("#decision:", "assign::NumDecision "), ("#var:", "assign::NumVar ")] {
        if searched && number(a)? != number(b)? {
            return Err(ctx(format!("{a} isn't {b}: {head:?}")));
        }
    }
    let rate = after(head, "config::VarRewardDecayRate ").and_then(|t| t.parse::<f64>().ok());
    if rate.is_none_or(|x| (x - cfg.vrw_dcy_rat).abs() > 0.0006) {
        return Err(ctx(format!("the decay rate is said to be {rate:?} instead of {}", cfg.vrw_dcy_rat)));
    }
    cx.add("labels", 60);
    cx.add("nontrivial", searched as u64);
    Ok(())
}

fn over(f: FSpace, sets: std::ops::Range<usize>) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    let k = sets.len() as u64;
    let at = move |i: u64| SETS[sets.start + (i % k) as usize];
    let at2 = at.clone();
    Space {
        name: format!("{}*heads{k}", f.name),
        rule: format!("{}; each with {k} sets of options", f.rule),
        size: f.size * k,
        run: Box::new(move |i, cx| {
            let f = mk(i / k);
            headed(&f, num_vars(&f), at(i), cx)
        }),
        show: Box::new(move |i| format!("splr {:?} on {}", at2(i).0, show(&mk2(i / k)))),
    }
}

fn c30(t: bool) -> Vec<Space> {
    vec![
        over(subsets(2, 1..=2, 8), 0..2),
        over(subsets(3, 1..=3, if t { 3 } else { 2 }), 0..if t { SETS.len() } else { 2 }),
        over(shapes(if t { 100 } else { 40 }), 0..if t { SETS.len() } else { 2 }),
        over(strided(20, &[70, 86, 92], if t { 30 } else { 10 }, if t { 20 } else { 5 }), 0..SETS.len()),
        over(strided(50, &[180, 210, 220], if t { 20 } else { 5 }, if t { 10 } else { 4 }), 0..SETS.len()),
        over(families(t), 0..SETS.len()),
        over(wides(10, if t { 10 } else { 2 }), 0..if t { SETS.len() } else { 1 }),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "exploration",
        rule: "each evaluation is a run of the command, on a formula and with options that differ from the others' by construction; non-trivial: with a conflict",
        assumptions: &["the time isn't compared", "the library's counters are judged by C22 and C28"],
        spaces: c30,
        patience: 120,
    }]
}
