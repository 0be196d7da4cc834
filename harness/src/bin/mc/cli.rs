//! C13 and C14: the commands splr and dmcr, run as processes.
use mc::{core::*, drat, form::*, spaces::*};
use splr::{PropertyDereference, *};
use std::{
    fs::{self, File},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    rc::Rc,
    time::{Duration, Instant},
};

pub struct Out {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("HARNESS: scratch: {e}"))
}

/// run a command in a directory
pub fn call(cx: &Cx, exe: &str, args: &[String], cwd: &Path, stdin: Option<&str>) -> Result<Out, String> {
    call_with(cx, exe, args, cwd, stdin, &[])
}

pub fn call_with(cx: &Cx, exe: &str, args: &[String], cwd: &Path, stdin: Option<&str>, vars: &[(&str, &str)]) -> Result<Out, String> {
    let exe = cx.bin.join(exe);
    let (po, pe, pi) = (cx.scratch.join("out"), cx.scratch.join("err"), cx.scratch.join("in"));
    let mut c = Command::new(&exe);
    c.args(args).current_dir(cwd).env_remove("SPLR_TIMEOUT").env("RUST_BACKTRACE", "0").envs(vars.iter().copied());
    c.stdout(io(File::create(&po))?).stderr(io(File::create(&pe))?);
    match stdin {
        None => c.stdin(Stdio::null()),
        Some(t) => {
            io(fs::write(&pi, t))?;
            c.stdin(io(File::open(&pi))?)
        }
    };
    let mut p = c.spawn().map_err(|e| format!("HARNESS: {exe:?} can't be started: {e}"))?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = io(p.try_wait())? {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(40) {
            let _ = p.kill();
            let _ = p.wait();
            return Err("it doesn't end".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let text = |p: &Path| io(fs::read(p)).map(|b| String::from_utf8_lossy(&b).into_owned());
    Ok(Out { code: st.code(), out: text(&po)?, err: text(&pe)? })
}

pub fn dimacs(f: &Cnf, n: usize) -> String {
    let mut s = format!("p cnf {n} {}\n", f.len());
    for c in f {
        for l in c {
            s += &format!("{l} ");
        }
        s += "0\n";
    }
    s
}

/// What an answer (a file, or the standard output) says: the "s" line and the literals
pub fn answer(text: &str) -> Result<(bool, Vec<i32>), String> {
    let s: Vec<&str> = text.lines().filter(|l| l.starts_with("s ") && !l.contains(": ")).collect();
    let v: Vec<&str> = text.lines().filter_map(|l| l.strip_prefix("v ")).collect();
    match s[..] {
        ["s SATISFIABLE"] => {
            let mut m: Vec<i32> = vec![];
            for t in v.join(" ").split_ascii_whitespace() {
                m.push(t.parse().map_err(|_| format!("{t:?} in the model"))?);
            }
            if m.pop() != Some(0) || m.contains(&0) {
                return Err(format!("the literals don't end with a 0: {v:?}"));
            }
            Ok((true, m))
        }
        ["s UNSATISFIABLE"] => {
            if v.is_empty() { Ok((false, vec![])) } else { Err("UNSATISFIABLE with literals".into()) }
        }
        _ => Err(format!("the lines of verdict are {s:?}")),
    }
}

/// what the options mean
#[derive(Clone, Default, Debug)]
struct Opts {
    no_color: bool,
    quiet: bool,
    certify: bool,
    dir: Option<&'static str>,
    proof: Option<&'static str>,
    result: Option<&'static str>,
    info: bool,
}

#[derive(Clone, Copy, Debug)]
enum Opt {
    Color,
    Quiet,
    Certify,
    Journal,
    Heat,
    Time,
    Dir(&'static str),
    Proof(&'static str),
    Result(&'static str),
    Help,
    Version,
}

impl Opt {
    fn kind(&self) -> u8 {
        match self {
            Opt::Color => 0,
            Opt::Quiet => 1,
            Opt::Certify => 2,
            Opt::Journal => 3,
            Opt::Heat => 4,
            Opt::Time => 5,
            Opt::Dir(_) => 6,
            Opt::Proof(_) => 7,
            Opt::Result(_) => 8,
            Opt::Help => 9,
            Opt::Version => 10,
        }
    }
    fn args(&self, long: bool, a: &mut Vec<String>) {
        let (l, s, v) = match *self {
            Opt::Color => ("no-color", "C", None),
            Opt::Quiet => ("quiet", "q", None),
            Opt::Certify => ("certify", "c", None),
            Opt::Journal => ("journal", "j", None),
            Opt::Heat => ("heatmap", "H", None),
            Opt::Time => ("timeout", "t", Some("4000")),
            Opt::Dir(d) => ("dir", "o", Some(d)),
            Opt::Proof(d) => ("proof", "p", Some(d)),
            Opt::Result(d) => ("result", "r", Some(d)),
            Opt::Help => ("help", "h", None),
            Opt::Version => ("version", "V", None),
        };
        a.push(if long { format!("--{l}") } else { format!("-{s}") });
        a.extend(v.map(|v| v.to_string()));
    }
    fn apply(&self, o: &mut Opts) {
        match *self {
            Opt::Color => o.no_color = true,
            Opt::Quiet => o.quiet = true,
            Opt::Certify => o.certify = true,
            Opt::Journal | Opt::Heat | Opt::Time => (),
            Opt::Dir(d) => o.dir = Some(d),
            Opt::Proof(d) => o.proof = Some(d),
            Opt::Result(d) => o.result = Some(d),
            Opt::Help | Opt::Version => o.info = true,
        }
    }
}

/// where the cnf file is, as seen from the working directory
const PLACES: [&str; 6] = ["f.cnf", "sub/f.x.cnf", "./sub/f", "f", "f g.dimacs", "sub/ans_f.cnf.txt"];

fn all_files(d: &Path, prefix: &str, to: &mut Vec<String>) {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
        let n = format!("{prefix}{}", e.file_name().to_string_lossy());
        if e.path().is_dir() {
            all_files(&e.path(), &format!("{n}/"), to);
        } else {
            to.push(n);
        }
    }
}

/// one run of splr
fn fresh(cx: &Cx) -> Result<PathBuf, String> {
    let cwd = cx.scratch.join("cwd");
    let _ = fs::remove_dir_all(&cwd);
    for d in ["sub", "out", "out/deep"] {
        io(fs::create_dir_all(cwd.join(d)))?;
    }
    Ok(cwd)
}

fn splr_run(f: &Cnf, n: usize, sat: bool, place: &str, opts: &[(Opt, bool)], cx: &mut Cx) -> Result<(), String> {
    fresh(cx)?;
    splr_again(f, n, sat, place, opts, cx)
}

/// the same where something may have been before
fn splr_again(f: &Cnf, n: usize, sat: bool, place: &str, opts: &[(Opt, bool)], cx: &mut Cx) -> Result<(), String> {
    let cwd = cx.scratch.join("cwd");
    io(fs::write(cwd.join(place), dimacs(f, n)))?;
    let mut args = vec![];
    let mut o = Opts::default();
    for (p, long) in opts {
        p.args(*long, &mut args);
        p.apply(&mut o);
    }
    args.push(place.to_string());
    cx.add("evaluations", 1);
    let r = call(cx, "splr", &args, &cwd, None)?;
    let ctx = |e: String| {
        let tail: String = r.out.chars().rev().take(200).collect::<Vec<_>>().into_iter().rev().collect();
        format!("splr {}: {e}; exit {:?}; out ..{tail:?}; err {:?}", args.join(" "), r.code, r.err)
    };
    let mut made = vec![];
    all_files(&cwd, "", &mut made);
    made.retain(|x| cwd.join(x) != cwd.join(place.trim_start_matches("./")));
    made.sort();
    if o.info {
        if r.code != Some(0) || !made.is_empty() {
            return Err(ctx(format!("help or version: it made {made:?}")));
        }
        return Ok(());
    }
    if o.proof.is_some_and(|p| p != "proof.drat") && !o.certify {
        // refused
        if matches!(r.code, Some(10 | 20)) || !made.is_empty() {
            return Err(ctx(format!("it should have been refused, but made {made:?}")));
        }
        cx.add("refused", 1);
        return Ok(());
    }
    cx.add("nontrivial", (!opts.is_empty()) as u64);
    if r.code != Some(if sat { 10 } else { 20 }) {
        return Err(ctx(format!("a bad exit code for a{} formula", if sat { " SAT" } else { "n UNSAT" })));
    }
    let word = if sat { "s SATISFIABLE" } else { "s UNSATISFIABLE" };
    let summary = r
        .out
        .lines()
        .find(|l| l.ends_with(&format!(": {place}")) && l.contains(word))
        .ok_or_else(|| ctx("no line of result in the standard output".into()))?;
    let colored = summary.contains("\x1B[0");
    if colored == o.no_color {
        return Err(ctx(format!("colors: {summary:?}")));
    }
    // the answer
    let dir = o.dir.unwrap_or(".");
    let base = place.rsplit('/').next().unwrap();
    let name = match o.result {
        None => Some(format!("ans_{base}")),
        Some("-") => None,
        Some(x) => Some(x.to_string()),
    };
    let at = name.map(|x| PathBuf::from(dir).join(x));
    let writable = at.as_ref().is_some_and(|p| cwd.join(p).parent().is_some_and(|d| d.is_dir()));
    if o.quiet && r.out.contains("conflict:") && writable {
        return Err(ctx("progress messages in quiet mode".into()));
    }
    let mut expected: Vec<PathBuf> = vec![];
    let (s, m) = if writable {
        let p = at.as_ref().unwrap();
        expected.push(cwd.join(p));
        let t = fs::read_to_string(cwd.join(p)).map_err(|e| ctx(format!("no answer in {p:?}: {e}")))?;
        if let Some(l) = t.lines().find(|l| !l.is_empty() && *l != "0" && !["c", "s ", "v "].iter().any(|h| l.starts_with(h))) {
            return Err(ctx(format!("{p:?}: a line that is no part of an answer: {:?}", l.chars().take(80).collect::<String>())));
        }
        answer(&t).map_err(|e| ctx(format!("{p:?}: {e}")))?
    } else {
        answer(&r.out).map_err(ctx)?
    };
    if s != sat {
        return Err(ctx("the answer and the exit code aren't the same".into()));
    }
    if s {
        model_ok(f, n, &m).map_err(ctx)?;
    }
    // the proof
    let proof = Path::new(dir).join(o.proof.unwrap_or("proof.drat"));
    if o.certify {
        if !sat && cwd.join(&proof).parent().is_some_and(|d| d.is_dir()) {
            let t = fs::read_to_string(cwd.join(&proof)).map_err(|e| ctx(format!("no proof in {proof:?}: {e}")))?;
            if t.lines().last() != Some("0") {
                return Err(ctx("the proof doesn't end with the empty clause".into()));
            }
            drat::check(f, &t).map_err(|e| ctx(format!("bad proof: {e}")))?;
            cx.add("proofs", 1);
        }
        expected.push(cwd.join(&proof));
    }
    let canon = |p: &Path| fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
    let expected: Vec<PathBuf> = expected.iter().map(|p| canon(p)).collect();
    if let Some(x) = made.iter().find(|x| !expected.contains(&canon(&cwd.join(x)))) {
        return Err(ctx(format!("it left {x}")));
    }
    if !writable {
        cx.add("answers to the standard output", 1);
    }
    Ok(())
}

/// formulas that are handled in different ways: while loading, by the eliminator, by search
fn picks(t: bool) -> Vec<(Cnf, usize)> {
    let mut l: Vec<(Cnf, usize)> = vec![
        (php(3, 2), 0),
        (vec![vec![1, 2], vec![-1, 3], vec![-2, -3, 4]], 0),
        (vec![vec![1], vec![-1]], 0),
        (stride3(12, 40, 7, 3), 0),
        (vec![vec![1, -2], vec![2]], 3),
        (vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2]], 1),
        (tseitin(5, &graph(5, 0x3ff), 1), 0),
        (vec![], 2),
    ];
    if t {
        l.push((php(5, 4), 0));
        l.push((coloring(5, 3, &graph(5, 0x37f), true), 0));
        l.push((vec![vec![1], vec![-1, 2], vec![-2]], 0));
        l.push((vec![(1..=30).collect()], 0));
    }
    for (f, extra) in l.iter_mut() {
        *extra += num_vars(f);
    }
    l
}

fn optsets(name: &str, rule: &str, sets: Vec<Vec<(Opt, bool)>>, fs: Vec<(Cnf, usize)>, places: usize) -> Space {
    let sats: Vec<bool> = fs.iter().map(|(f, _)| is_sat(f)).collect();
    let (nf, ns) = (fs.len() as u64, sets.len() as u64);
    let (fs, sets) = (Rc::new(fs), Rc::new(sets));
    let (f2, s2) = (fs.clone(), sets.clone());
    let split = move |i: u64| ((i / ns % nf) as usize, (i % ns) as usize, (i / ns / nf) as usize);
    Space {
        name: name.into(),
        rule: format!("{rule}; for {nf} formulas, SAT and UNSAT"),
        size: nf * ns * places as u64,
        run: Box::new(move |i, cx| {
            let (f, s, p) = split(i);
            splr_run(&fs[f].0, fs[f].1, sats[f], PLACES[p], &sets[s], cx)
        }),
        show: Box::new(move |i| {
            let (f, s, p) = split(i);
            format!("{} {:?} {}", PLACES[p], s2[s], show(&f2[f].0))
        }),
    }
}

/// all sets of options in a fixed order
fn products() -> Vec<Vec<(Opt, bool)>> {
    let mut r = vec![];
    for m in 0..64u32 {
        for d in [None, Some("out"), Some("out/deep"), Some("none")] {
            for p in [None, Some("proof.drat"), Some("q.drat"), Some("deep/q.drat")] {
                for res in [None, Some("-"), Some("res.txt"), Some("nowhere/res")] {
                    let flags = [Opt::Color, Opt::Quiet, Opt::Certify, Opt::Journal, Opt::Heat];
                    let long = m & 32 != 0;
                    let mut v: Vec<(Opt, bool)> = vec![];
                    v.extend((0..5).filter(|i| m >> i & 1 == 1).map(|i| (flags[i], long)));
                    v.extend(d.map(|d| (Opt::Dir(d), long)));
                    v.extend(p.map(|d| (Opt::Proof(d), long)));
                    v.extend(res.map(|d| (Opt::Result(d), long)));
                    r.push(v);
                }
            }
        }
    }
    r
}

/// all sequences of different options, of at most a length, in both forms
fn sequences(len: usize) -> Vec<Vec<(Opt, bool)>> {
    let all = [
        Opt::Color,
        Opt::Quiet,
        Opt::Certify,
        Opt::Journal,
        Opt::Heat,
        Opt::Time,
        Opt::Dir("out"),
        Opt::Proof("q.drat"),
        Opt::Result("res.txt"),
        Opt::Result("-"),
        Opt::Help,
        Opt::Version,
    ];
    let mut r: Vec<Vec<(Opt, bool)>> = vec![vec![]];
    let mut last = r.clone();
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            for o in all {
                if s.iter().all(|x| x.0.kind() != o.kind()) {
                    for long in [false, true] {
                        let mut s = s.clone();
                        s.push((o, long));
                        next.push(s);
                    }
                }
            }
        }
        r.extend(next.iter().cloned());
        last = next;
    }
    r
}

/// tuning options reach the solver: the same search as with the library
fn tuning(t: bool) -> Space {
    type Set = fn(&mut Config, f64);
    let opts: Vec<(&str, Vec<f64>, Set)> = vec![
        ("cl", vec![0.0, 100000.0], |c, v| c.c_cls_lim = v as usize),
        ("crl", vec![1.0, 5.0, 8.0], |c, v| c.cls_rdc_lbd = v as u16),
        ("ecl", vec![0.0, 3.0, 18.0, 64.0], |c, v| c.elm_cls_lim = v as usize),
        ("evl", vec![0.0, 1.0, 4.0, 20.0], |c, v| c.elm_grw_lim = v as usize),
        ("evo", vec![0.0, 2.0, 8.0, 20000.0], |c, v| c.elm_var_occ = v as usize),
        ("timeout", vec![100.0, 5000.0], |c, v| c.c_timeout = v),
        ("cdr", vec![0.5, 0.95], |c, v| c.crw_dcy_rat = v),
        ("cr1", vec![0.0, 0.2, 0.9], |c, v| c.cls_rdc_rm1 = v),
        ("cr2", vec![0.0, 0.05, 0.9], |c, v| c.cls_rdc_rm2 = v),
        ("rlt", vec![0.5, 1.2, 2.0, 4.0], |c, v| c.rst_lbd_thr = v),
        ("vdr", vec![0.5, 0.8, 0.96], |c, v| c.vrw_dcy_rat = v),
        ("vds", vec![0.0, 0.01], |c, v| c.vrw_dcy_stp = v),
    ];
    let opts = Rc::new(opts);
    // single options and pairs
    let mut sel: Vec<Vec<(usize, f64)>> = vec![vec![]];
    for (i, o) in opts.iter().enumerate() {
        for v in &o.1 {
            sel.push(vec![(i, *v)]);
            for (j, p) in opts.iter().enumerate().skip(i + 1) {
                for w in &p.1 {
                    sel.push(vec![(i, *v), (j, *w)]);
                    if t {
                        sel.push(vec![(j, *w), (i, *v)]);
                    }
                }
            }
        }
    }
    let mut fs = vec![stride3(40, 170, 11, 5), tseitin(6, &graph(6, 0x7fff), 0), stride3(30, 135, 7, 1)];
    if t {
        fs.push(php(6, 5));
        fs.push(stride3(60, 250, 13, 5));
    }
    let (ns, nf) = (sel.len() as u64, fs.len() as u64);
    let (sel, fs) = (Rc::new(sel), Rc::new(fs));
    let (o2, s2, f2) = (opts.clone(), sel.clone(), fs.clone());
    Space {
        name: "tuning".into(),
        rule: format!("each tuning option alone and in pairs, over {nf} formulas; the search is the same as in a library call with the same settings"),
        size: ns * nf,
        run: Box::new(move |i, cx| {
            let f = &fs[(i / ns) as usize];
            let n = num_vars(f);
            let cwd = cx.scratch.join("cwd");
            let _ = fs::remove_dir_all(&cwd);
            io(fs::create_dir_all(&cwd))?;
            let path = cwd.join("f.cnf");
            io(fs::write(&path, dimacs(f, n)))?;
            let mut cfg = Config { cnf_file: path.clone(), quiet_mode: true, ..Config::default() };
            let mut args = vec!["-q".to_string()];
            for (o, v) in &sel[(i % ns) as usize] {
                args.push(format!("--{}", opts[*o].0));
                args.push(v.to_string());
                (opts[*o].2)(&mut cfg, *v);
            }
            args.push("f.cnf".into());
            cx.add("evaluations", 1);
            let r = call(cx, "splr", &args, &cwd, None)?;
            let mut s = Solver::build(&cfg).map_err(|e| format!("the library refused it: {e:?}"))?;
            let v = verdict(s.solve());
            judge(f, n, &v, || is_sat(f))?;
            let ctx = |e: String| format!("splr {}: {e}", args.join(" "));
            let code = match v {
                Verdict::Sat(_) => 10,
                _ => 20,
            };
            if r.code != Some(code) {
                return Err(ctx(format!("exit {:?} instead of {code}; {:?}", r.code, r.err)));
            }
            let text = io(fs::read_to_string(cwd.join("ans_f.cnf")))?;
            let (sat, m) = answer(&text).map_err(ctx)?;
            if let Verdict::Sat(lm) = &v {
                model_ok(f, n, &m).map_err(ctx)?;
                if *lm != m {
                    return Err(ctx("the model isn't the one of the library".into()));
                }
            } else if sat {
                return Err(ctx("the answer file says SAT".into()));
            }
            for k in splr::assign::property::USIZES {
                let line = format!("assign::{k:?} ");
                let Some(l) = text.lines().find(|l| l.contains(&line)) else {
                    return Err(ctx(format!("no report of {k:?}")));
                };
                let want = s.asg.derefer(k).to_string();
                if l.split_ascii_whitespace().last() != Some(&want) {
                    return Err(ctx(format!("{k:?} is {l:?} instead of {want}: the option wasn't effective as it is in the library")));
                }
                if k == splr::assign::property::Tusize::NumConflict && want != "0" {
                    cx.add("nontrivial", 1);
                }
            }
            Ok(())
        }),
        show: Box::new(move |i| {
            let o: Vec<String> = s2[(i % ns) as usize].iter().map(|(o, v)| format!("--{} {v}", o2[*o].0)).collect();
            format!("splr {} on {}", o.join(" "), show(&f2[(i / ns) as usize]))
        }),
    }
}

fn solving(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*splr", f.name),
        rule: format!("{}; each through the command, with certification", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = num_vars(&f);
            let sat = is_sat(&f);
            splr_run(&f, n, sat, PLACES[0], &[(Opt::Certify, false), (Opt::Quiet, false)], cx)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// what isn't a formula gets no verdict
fn refused() -> Space {
    let l: Vec<(&str, Option<&str>)> = vec![
        ("missing", None),
        ("empty", Some("")),
        ("no header", Some("1 2 0\n")),
        ("bad literal", Some("p cnf 2 1\n1 x 0\n")),
        ("out of range", Some("p cnf 2 2\n1 -2 0\n3 0\n")),
        ("out of range, UNSAT before", Some("p cnf 2 3\n-3 0\n")),
        ("bad header", Some("p cnf x 1\n1 0\n")),
    ];
    let l = Rc::new(l);
    let l2 = l.clone();
    Space {
        name: "refused".into(),
        rule: "files that are missing or ill-formed, without and with options".into(),
        size: l.len() as u64 * 4,
        run: Box::new(move |i, cx| {
            let cwd = cx.scratch.join("cwd");
            let _ = fs::remove_dir_all(&cwd);
            io(fs::create_dir_all(&cwd))?;
            if let Some(t) = l[i as usize / 4].1 {
                io(fs::write(cwd.join("f.cnf"), t))?;
            }
            let args: Vec<String> = [&["f.cnf"][..], &["-q", "f.cnf"], &["-c", "f.cnf"], &["-r", "-", "f.cnf"]][i as usize % 4]
                .iter()
                .map(|s| s.to_string())
                .collect();
            cx.add("evaluations", 1);
            let r = call(cx, "splr", &args, &cwd, None)?;
            let said = r.out.contains("s SAT") || r.out.contains("s UNSAT") || cwd.join("ans_f.cnf").exists();
            if matches!(r.code, Some(10 | 20)) || said {
                return Err(format!("a verdict was given: exit {:?}, {:?}", r.code, r.out));
            }
            Ok(())
        }),
        show: Box::new(move |i| format!("{}", l2[i as usize / 4].0)),
    }
}

/// long and foreign names of the CNF file
fn names() -> Space {
    let fs = [(vec![vec![1, 2], vec![-1, 2]], true), (php(3, 2), false), (stride3(100, 380, 17, 3), true)];
    let sats: Vec<bool> = fs.iter().map(|(f, _)| is_sat(f)).collect();
    let name = |i: u64| -> String {
        let (k, i) = (["x", "é", "漢", "😀"][i as usize % 4], i / 4);
        let (pre, i) = (i as usize % 4, i / 4);
        let len = (i % 90 + 1) as usize;
        let most = len.min(200 / k.len());
        format!("{}{}{}", "ab/cd"[..pre].replace("ab/", "sub/"), k.repeat(most), "y".repeat(len - most))
    };
    let turn = |i: u64| {
        let q = i / (4 * 4 * 90);
        (q as usize % 3, if q >= 3 { vec![(Opt::Quiet, true)] } else { vec![(Opt::Color, false)] })
    };
    Space {
        name: "names".into(),
        rule: "names of the CNF file: up to 90 characters of 1 to 4 bytes after up to 3 of one byte, in a directory or not; 3 formulas; quiet or not".into(),
        size: 4 * 4 * 90 * 6,
        run: Box::new(move |i, cx| {
            let (f, opts) = turn(i);
            splr_run(&fs[f].0, num_vars(&fs[f].0), sats[f], &name(i), &opts, cx)
        }),
        show: Box::new(move |i| format!("{} {:?}", name(i), turn(i))),
    }
}

/// limits of time and of clauses
fn limits() -> Space {
    let args: Vec<Vec<&'static str>> = [
        &["-t", "0"][..],
        &["-t", "0.01"],
        &["--timeout", "0"],
        &["--timeout", "0.2"],
        &["-t", "1"],
        &["-t", "0", "-q", "-C"],
        &["--cl", "1"],
        &["--cl", "2", "-q"],
        &["--cl", "100"],
        &["--cl", "150", "-C"],
        &["--cl", "200"],
        &["--cl", "300", "-c"],
        &["--cl", "400"],
        &["--cl", "700", "-q", "-c"],
        &["--cl", "1000"],
        &["--cl", "2000", "-r", "-"],
        &["--cl", "1", "-r", "-"],
        &["-t", "0", "-r", "-", "-c"],
        &["-t", "0", "--cl", "1"],
    ]
    .iter()
    .map(|a| a.to_vec())
    .collect();
    let fs = [php(3, 2), php(8, 7), stride3(100, 380, 17, 3), stride3(200, 830, 23, 7), stride3(60, 300, 13, 5), vec![vec![1]], vec![vec![1], vec![-1]]];
    // pigeons have no place
    let sats: Vec<bool> = fs.iter().enumerate().map(|(i, f)| i != 1 && is_sat(f)).collect();
    let nf = fs.len() as u64;
    Space {
        name: "limits".into(),
        rule: "limits of time and of clauses, from those that nothing reaches to none, on easy and hard formulas, SAT and UNSAT".into(),
        size: args.len() as u64 * nf,
        run: Box::new(move |i, cx| {
            let (f, sat) = (&fs[(i % nf) as usize], sats[(i % nf) as usize]);
            let n = num_vars(f);
            let cwd = fresh(cx)?;
            io(fs::write(cwd.join("f.cnf"), dimacs(f, n)))?;
            let mut args: Vec<String> = args[(i / nf) as usize].iter().map(|s| s.to_string()).collect();
            let tty = args.iter().any(|a| a == "-r");
            args.push("f.cnf".into());
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            let r = call(cx, "splr", &args, &cwd, None)?;
            let text = if tty { r.out.clone() } else { fs::read_to_string(cwd.join("ans_f.cnf")).unwrap_or_default() };
            let bad = |e: String| format!("splr {}: {e}; exit {:?}, {:?}, answer {text:?}", args.join(" "), r.code, r.out);
            match r.code {
                Some(c @ (10 | 20)) => {
                    let (s, m) = answer(&text).map_err(bad)?;
                    if s != (c == 10) || s != sat || r.out.contains("s UNKNOWN") {
                        return Err(bad("not what it is".into()));
                    }
                    if s {
                        model_ok(f, n, &m).map_err(bad)?;
                    }
                    cx.add("answers within limits", 1);
                    Ok(())
                }
                Some(0) if text.contains("s UNKNOWN") && r.out.contains("s UNKNOWN") => {
                    let said = [&r.out[..], &text[..]].iter().any(|t| t.contains("s SAT") || t.contains("s UNSAT") || t.contains("\nv "));
                    if said {
                        return Err(bad("a verdict".into()));
                    }
                    cx.add("limits reached", 1);
                    Ok(())
                }
                _ => Err(bad("no result".into())),
            }
        }),
        show: Box::new(|i| format!("limit {i}")),
    }
}

/// runs in one directory, one after the other
fn successions(len: u32) -> Space {
    let fs: Vec<(Cnf, usize)> = vec![
        (vec![vec![1, 2], vec![-1, 2]], 2),
        (stride3(100, 380, 17, 3), 100),
        (vec![vec![7]], 3000),
        (php(3, 2), 6),
        (php(6, 5), 30),
        (vec![vec![1], vec![-1]], 1),
    ];
    let sats: Vec<bool> = fs.iter().map(|(f, _)| is_sat(f)).collect();
    let opts: Vec<Vec<(Opt, bool)>> = vec![
        vec![(Opt::Certify, false)],
        vec![(Opt::Certify, true), (Opt::Quiet, false), (Opt::Result("res"), false)],
        vec![(Opt::Certify, true), (Opt::Dir("out"), false)],
    ];
    let (nf, no) = (fs.len() as u64, opts.len() as u64);
    Space {
        name: format!("successions{len}"),
        rule: format!("all successions of {len} runs in one directory that write the same files: {nf} formulas, 3 settings; each answer and proof is that of the last run"),
        size: nf.pow(len) * no,
        run: Box::new(move |i, cx| {
            fresh(cx)?;
            let (o, mut i) = (&opts[(i % no) as usize], i / no);
            for k in 0..len {
                let x = (i % nf) as usize;
                i /= nf;
                // what this run writes if it's UNSAT is a proof; else an old one may stay
                splr_again(&fs[x].0, fs[x].1.max(num_vars(&fs[x].0)), sats[x], "f.cnf", o, cx).map_err(|e| format!("run {k}: {e}"))?;
            }
            Ok(())
        }),
        show: Box::new(move |i| format!("{:?} of the formulas", (0..len).map(|k| i / no / nf.pow(k) % nf).collect::<Vec<_>>())),
    }
}

/// many vars: answers of lengths around powers of 2 and of 10
fn lengths(t: bool) -> (Vec<usize>, impl Fn(usize) -> Cnf + Clone) {
    let mut l: Vec<usize> = vec![];
    for b in [100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, if t { 16384 } else { 10000 }] {
        l.extend([b - 1, b, b + 1]);
    }
    (l, |n: usize| {
        let n = n as i32;
        let mut f: Cnf = vec![];
        // (debug assertions of long trails are slow, so longer ones are out)
        for v in (1..n - 1).step_by(if n < 4000 { 3 } else { n as usize / 50 }) {
            f.push(vec![-v, v + 1, v + 2]);
            f.push(vec![v, -v - 2]);
        }
        f.push(vec![-n, -n / 2]);
        f.push(vec![n]);
        f
    })
}
fn long_answers(t: bool) -> Space {
    let (l, f) = lengths(t);
    let l2 = l.clone();
    Space {
        name: "long".into(),
        rule: "formulas of 99..10001 vars (thorough: 16385), around powers of 2 and of 10: to a file and to the standard output".into(),
        size: 2 * l.len() as u64,
        run: Box::new(move |i, cx| {
            let n = l[i as usize / 2];
            let o: &[(Opt, bool)] = if i % 2 == 0 { &[(Opt::Quiet, false)] } else { &[(Opt::Result("-"), false), (Opt::Color, false)] };
            splr_run(&f(n), n, true, "f.cnf", o, cx).map_err(|e| e.chars().take(400).collect())
        }),
        show: Box::new(move |i| format!("{} vars", l2[i as usize / 2])),
    }
}

fn c13(t: bool) -> Vec<Space> {
    let mut v = vec![
        optsets("products", "all sets of 5 flags, 4 directories, 4 proof files and 4 result files", products(), picks(t).into_iter().take(if t { 12 } else { 6 }).collect(), 1),
        optsets("orders", &format!("all sequences of up to {} different options, short or long", if t { 4 } else { 2 }), sequences(if t { 4 } else { 2 }), picks(false), 1),
        optsets("places", "paths of the CNF file", sequences(1), picks(true), PLACES.len()),
        names(),
        tuning(t),
        refused(),
        limits(),
        successions(2),
        long_answers(t),
        solving(subsets(2, 1..=2, 8)),
        solving(subsets(3, 1..=3, if t { 3 } else { 2 })),
        solving(strided(20, &[80, 92], 10, 5)),
        solving(shapes(60)),
        solving(families(t)),
    ];
    if t {
        v.push(successions(3));
    } else {
        v.push(optsets("orders3", "all sequences of up to 3 different options, short or long", sequences(3), picks(false).into_iter().take(1).collect(), 1));
    }
    v
}

//
// dmcr
//

/// the literals that a text gives to dmcr, if it's well-formed: comments, verdict, a line "v"
const ANS_HEADS: [&str; 4] = ["", "c hello v 1 0\n", "s SATISFIABLE\n", "c\nc 1 2 0\ns SATISFIABLE\nc x\n"];
const ANS_SEPS: [&str; 2] = [" ", "  "];
const ANS_ENDS: [&str; 4] = [" 0\n", " 0", "\n", " 0 \nc end\n"];

fn ans_text(a: &[i32], layout: usize) -> String {
    let (h, s, e) = (ANS_HEADS[layout % 4], ANS_SEPS[layout / 4 % 2], ANS_ENDS[layout / 8 % 4]);
    let l: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    format!("{h}v {}{e}", l.join(s))
}
const ANS_LAYOUTS: usize = 32;

/// how the answer reaches dmcr
const WAYS: usize = 6;

fn dmcr_run(f: &Cnf, n: usize, a: &[i32], layout: usize, way: usize, cx: &mut Cx) -> Result<(), String> {
    let cwd = cx.scratch.join("cwd");
    let _ = fs::remove_dir_all(&cwd);
    io(fs::create_dir_all(cwd.join("sub")))?;
    let place = PLACES[way / WAYS];
    let base = place.rsplit('/').next().unwrap();
    io(fs::write(cwd.join(place), dimacs(f, n)))?;
    let text = ans_text(a, layout);
    let mut stdin = None;
    let args: Vec<&str> = match way % WAYS {
        0 => {
            io(fs::write(cwd.join("given"), &text))?;
            vec!["-a", "given", place]
        }
        1 => {
            io(fs::write(cwd.join("sub/given"), &text))?;
            vec!["--assign", "sub/given", "--no-color", place]
        }
        2 => {
            io(fs::write(cwd.join(format!("ans_{base}")), &text))?;
            vec![place]
        }
        3 => {
            stdin = Some(&text[..]);
            vec![place]
        }
        4 => {
            stdin = Some(&text[..]);
            vec!["-C", place]
        }
        _ => {
            // the one given explicitly counts
            io(fs::write(cwd.join(format!("ans_{base}")), "v 0\n"))?;
            io(fs::write(cwd.join("given"), &text))?;
            vec!["-C", "-a", "given", place]
        }
    };
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    cx.add("evaluations", 1);
    let r = call(cx, "dmcr", &args, &cwd, stdin)?;
    // the literals, with the ones of unit clauses; loading may propagate these as well
    let clash = |a: &[i32]| a.iter().any(|x| a.contains(&-x));
    let accepts = |a: &[i32]| !clash(a) && f.iter().all(|c| c.iter().any(|l| a.contains(l)));
    let units: Vec<i32> = f.iter().filter(|c| c.len() == 1).map(|c| c[0]).collect();
    let low: Vec<i32> = a.iter().chain(&units).copied().collect();
    let high: Vec<i32> = a.iter().copied().chain(crate::build_ops::closure(f)).collect();
    let want = accepts(&low) && !clash(&high);
    let got = r.out.contains("A valid assignment set");
    if want {
        cx.add("nontrivial", 1);
    }
    if (want && !got) || (got && (clash(&low) || !f.iter().all(|c| c.iter().any(|l| high.contains(l))))) {
        return Err(format!(
            "dmcr {} with {text:?}: it is {}; it said {:?} {:?}",
            args.join(" "),
            if want { "satisfying" } else { "not satisfying" },
            r.out,
            r.err
        ));
    }
    // an assignment that falsifies the formula is told to be so, as long as it can be injected
    if !want && r.code == Some(0) && r.out.is_empty() {
        return Err(format!("dmcr {} with {text:?} says nothing", args.join(" ")));
    }
    Ok(())
}

/// the non-empty partial assignments, in both orders
fn partial(n: usize, code: u64) -> Vec<i32> {
    let mut c = code + 1;
    let mut a = vec![];
    for v in 1..=n as i32 {
        match c % 3 {
            1 => a.push(v),
            2 => a.push(-v),
            _ => (),
        }
        c /= 3;
    }
    if c & 1 == 1 {
        a.reverse();
    }
    a
}

fn checking(f: FSpace, n: usize, layouts: usize, ways: usize) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    let na = 3u64.pow(n as u32) - 1;
    let k = na * (layouts * ways) as u64;
    let split = move |i: u64| {
        let j = i % k;
        (j % na, (j / na) as usize % layouts, (j / na) as usize / layouts)
    };
    Space {
        name: format!("{}*assignments*{layouts}*{ways}", f.name),
        rule: format!("{}; each with all non-empty partial assignments of {n} vars, in {layouts} layouts, given in {ways} ways", f.rule),
        size: f.size * k,
        run: Box::new(move |i, cx| {
            let f = mk(i / k);
            let (a, l, w) = split(i);
            dmcr_run(&f, n, &partial(n, a), l, w, cx)
        }),
        show: Box::new(move |i| {
            let (a, l, w) = split(i);
            format!("{} with {:?}, layout {l}, way {w}", show(&mk2(i / k)), partial(n, a))
        }),
    }
}

/// what splr answers is valid
fn pipeline(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*pipeline", f.name),
        rule: format!("{}; solved by splr, and checked by dmcr", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = num_vars(&f);
            let cwd = cx.scratch.join("cwd");
            let _ = fs::remove_dir_all(&cwd);
            let place = PLACES[i as usize % PLACES.len()];
            io(fs::create_dir_all(cwd.join("sub")))?;
            io(fs::write(cwd.join(place), dimacs(&f, n)))?;
            cx.add("evaluations", 1);
            let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            let r = call(cx, "splr", &s(&["-q", place]), &cwd, None)?;
            let d = call(cx, "dmcr", &s(&[place]), &cwd, None)?;
            let valid = d.out.contains("A valid assignment set");
            if r.code == Some(10) && n > 0 {
                cx.add("nontrivial", 1);
            }
            if valid != (r.code == Some(10) && n > 0) && n > 0 {
                return Err(format!("splr exits with {:?}, and dmcr says {:?} {:?}", r.code, d.out, d.err));
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// total assignments of larger formulas, and all that differ from a model in a literal
fn neighbours(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*neighbours", f.name),
        rule: format!("{}; a model, and all the assignments made of it by flipping or removing one literal", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = num_vars(&f);
            let Some(m) = mc::refsat::solve(n, &f) else {
                return Ok(());
            };
            let m: Vec<i32> = (1..=n as i32).map(|v| if m[v as usize - 1] { v } else { -v }).collect();
            dmcr_run(&f, n, &m, 2, 0, cx)?;
            for j in 0..n {
                let mut a = m.clone();
                a[j] = -a[j];
                dmcr_run(&f, n, &a, 2, 0, cx)?;
                a.remove(j);
                if a.is_empty() {
                    continue;
                }
                dmcr_run(&f, n, &a, 2, 0, cx)?;
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

fn long_lists(t: bool) -> FSpace {
    let (l, f) = lengths(t);
    fs("lengths", "formulas of 99..10001 vars (thorough: 16385), around powers of 2 and of 10", l.len() as u64, move |i| f(l[i as usize]))
}

fn c14(t: bool) -> Vec<Space> {
    let k = t as u64;
    vec![
        checking(subsets(2, 1..=2, 4 + 2 * k), 2, 1, WAYS),
        checking(subsets(3, 2..=3, 2 + k), 3, 1, 1),
        checking(subsets(3, 1..=1, 3), 3, 1, 1),
        checking(
            list("picked", "some formulas", vec![vec![vec![1, 2]], vec![vec![-1, 2], vec![1, -2, 3]], vec![vec![-3], vec![1, 2, 3]]]),
            3,
            ANS_LAYOUTS,
            if t { WAYS } else { 2 },
        ),
        checking(
            list("places", "some formulas, as files of different names", vec![vec![vec![1, 2]], vec![vec![-1, 2], vec![1, -2]], vec![vec![-2]]]),
            2,
            1,
            WAYS * PLACES.len(),
        ),
        pipeline(subsets(2, 1..=2, 8)),
        pipeline(subsets(3, 1..=3, 2 + k)),
        pipeline(strided(20, &[70, 80, 92], 10, 5)),
        pipeline(families(t)),
        pipeline(shapes(60)),
        pipeline(long_lists(t)),
        neighbours(strided(20, &[60, 80], if t { 20 } else { 5 }, 5)),
        neighbours(families(false)),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "exploration",
            rule: "each case is a command line and a file, different from the others by construction; non-trivial: with an option or a conflict",
            assumptions: &["the CNF file is the last argument", "an answer that can't be written to a file goes to the standard output", "a proof name without certification is refused"],
            patience: 120,
            spaces: c13,
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "each case is a formula and an answer text, different from the others by construction; non-trivial: satisfying",
            assumptions: &["answers in the format written by splr: comments, one line of verdict, one line of literals", "literals of unit clauses count as given", "empty assignments are left out: dmcr takes them for a missing answer"],
            patience: 120,
            spaces: c14,
        },
    ]
}
