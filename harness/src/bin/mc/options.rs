//! C31: options of the command and the environment variable.
use crate::cli::{Out, answer, call_with, dimacs, io};
use mc::{core::*, form::*};
use splr::*;
use std::{collections::BTreeMap, fs, os::unix::process::CommandExt, path::PathBuf, process::Command, rc::Rc};

/// the name under which this program runs as a parser of options
pub const PROBE: &str = "options-probe";

fn tell(c: &Config) -> String {
    format!("CONFIG {c:?}\n")
}

/// parse the arguments of the process like splr
pub fn probe() {
    let mut c = Config::default();
    c.inject_from_args();
    print!("{}", tell(&c));
}

fn parse(cx: &Cx, args: &[String], cwd: &std::path::Path) -> Result<Out, String> {
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {e}"))?;
    let r = Command::new(exe).arg0(PROBE).args(args).current_dir(cwd).env("RUST_BACKTRACE", "0").output();
    let r = r.map_err(|e| format!("HARNESS: the probe can't be started: {e}"))?;
    let _ = cx;
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    Ok(Out { code: r.status.code(), out: text(&r.stdout), err: text(&r.stderr) })
}

#[derive(Clone, Copy)]
enum Kind {
    Flag(fn(&mut Config)),
    Count(fn(&mut Config, usize)),
    Float(fn(&mut Config, f64)),
    Path(fn(&mut Config, PathBuf)),
}
use Kind::*;

/// long name, short name or "", effect, and how the default is shown by the help
type Opt = (&'static str, &'static str, Kind, fn(&Config) -> String);

const OPTS: [Opt; 20] = [
    ("no-color", "C", Flag(|c| c.no_color = true), |_| "".into()),
    ("quiet", "q", Flag(|c| c.quiet_mode = true), |_| "".into()),
    ("certify", "c", Flag(|c| c.use_certification = true), |_| "".into()),
    ("heatmap", "H", Flag(|c| c.show_cdb_heatmap = true), |_| "".into()),
    ("journal", "j", Flag(|c| c.show_journal = true), |_| "".into()),
    ("cl", "", Count(|c, v| c.c_cls_lim = v), |c| c.c_cls_lim.to_string()),
    ("crl", "", Count(|c, v| c.cls_rdc_lbd = v.min(u16::MAX as usize) as u16), |c| c.cls_rdc_lbd.to_string()),
    ("ecl", "", Count(|c, v| c.elm_cls_lim = v), |c| c.elm_cls_lim.to_string()),
    ("evl", "", Count(|c, v| c.elm_grw_lim = v), |c| c.elm_grw_lim.to_string()),
    ("evo", "", Count(|c, v| c.elm_var_occ = v), |c| c.elm_var_occ.to_string()),
    ("timeout", "t", Float(|c, v| c.c_timeout = v), |c| c.c_timeout.to_string()),
    ("cdr", "", Float(|c, v| c.crw_dcy_rat = v), |c| c.crw_dcy_rat.to_string()),
    ("cr1", "", Float(|c, v| c.cls_rdc_rm1 = v), |c| c.cls_rdc_rm1.to_string()),
    ("cr2", "", Float(|c, v| c.cls_rdc_rm2 = v), |c| c.cls_rdc_rm2.to_string()),
    ("rlt", "", Float(|c, v| c.rst_lbd_thr = v), |c| c.rst_lbd_thr.to_string()),
    ("vdr", "", Float(|c, v| c.vrw_dcy_rat = v), |c| c.vrw_dcy_rat.to_string()),
    ("vds", "", Float(|c, v| c.vrw_dcy_stp = v), |c| c.vrw_dcy_stp.to_string()),
    ("dir", "o", Path(|c, v| c.io_odir = v), |c| c.io_odir.to_string_lossy().into()),
    ("proof", "p", Path(|c, v| c.io_pfile = v), |c| c.io_pfile.to_string_lossy().into()),
    ("result", "r", Path(|c, v| c.io_rfile = v), |c| c.io_rfile.to_string_lossy().into()),
];

/// an option as it's written
fn names(o: &Opt) -> Vec<String> {
    let mut v = vec![format!("--{}", o.0)];
    if !o.1.is_empty() {
        v.push(format!("-{}", o.1));
    }
    v
}

/// apply an option; None: there is no such value
fn apply(o: &Opt, text: &str, c: &mut Config) -> Option<()> {
    match o.2 {
        Flag(f) => f(c),
        Count(f) => f(c, text.parse().ok()?),
        Float(f) => f(c, text.parse().ok()?),
        Path(f) => f(c, PathBuf::from(text)),
    }
    Some(())
}

const COUNTS: [&str; 20] = [
    "0", "1", "2", "7", "255", "256", "65535", "65536", "70000", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "", "x", "1.5", "1e3", " 1", "0x10",
];
const FLOATS: [&str; 16] = ["0", "1", "0.5", "0.125", "2.75", "1e-3", "1e3", "100000", "-0.25", ".5", "5.", "", "x", "1,5", "0x10", "1 2"];
const PATHS: [&str; 10] = ["a", "a/b", "..", "with space", "é漢😀", "a=b", "-", "./f.cnf", "/x/y.z", "x,y"];

fn texts(o: &Opt) -> &'static [&'static str] {
    match o.2 {
        Flag(_) => &[""],
        Count(_) => &COUNTS,
        Float(_) => &FLOATS,
        Path(_) => &PATHS,
    }
}

fn words(o: &Opt, name: &str, text: &str) -> Vec<String> {
    match o.2 {
        Flag(_) => vec![name.to_string()],
        _ => vec![name.to_string(), text.to_string()],
    }
}

fn fresh(cx: &Cx) -> Result<PathBuf, String> {
    let cwd = cx.scratch.join("cwd");
    let _ = fs::remove_dir_all(&cwd);
    io(fs::create_dir_all(&cwd))?;
    io(fs::write(cwd.join("f.cnf"), "p cnf 2 1\n1 2 0\n"))?;
    Ok(cwd)
}

fn ctx(args: &[String], r: &Out, e: &str) -> String {
    format!("splr {args:?}: {e}; exit {:?}, {:?}, {:?}", r.code, r.out, r.err)
}

/// the arguments are taken to mean this configuration
fn taken(cx: &mut Cx, args: &[String], want: &Config) -> Result<(), String> {
    let cwd = fresh(cx)?;
    cx.add("evaluations", 1);
    let r = parse(cx, args, &cwd)?;
    if r.code != Some(0) || r.out != tell(want) {
        return Err(ctx(args, &r, &format!("not taken as {}", tell(want))));
    }
    cx.add("nontrivial", 1);
    Ok(())
}

/// the arguments are refused, with a message
fn refused(cx: &mut Cx, args: &[String]) -> Result<(), String> {
    let cwd = fresh(cx)?;
    cx.add("evaluations", 1);
    let r = parse(cx, args, &cwd)?;
    if r.out.contains("CONFIG") || (r.out.is_empty() && r.err.is_empty()) {
        return Err(ctx(args, &r, "not refused"));
    }
    cx.add("nontrivial", 1);
    Ok(())
}

/// all sequences of options with a value each
fn sequences(len: usize) -> Space {
    let mut l: Vec<(usize, String, &str)> = vec![];
    for (k, o) in OPTS.iter().enumerate() {
        let t = match o.2 {
            Flag(_) => &[""][..],
            Count(_) => &["7", "65535"],
            Float(_) => &["0.125"],
            Path(_) => &["a/b"],
        };
        for n in names(o) {
            for t in t {
                l.push((k, n.clone(), t));
            }
        }
    }
    let n = l.len() as u64;
    let l = Rc::new(l);
    let at = move |mut i: u64| {
        let mut args: Vec<String> = vec![];
        let mut c = Config::default();
        for _ in 0..len {
            let (k, name, t) = &l[(i % n) as usize];
            i /= n;
            apply(&OPTS[*k], t, &mut c);
            args.extend(words(&OPTS[*k], name, t));
        }
        args.push("f.cnf".into());
        c.cnf_file = "f.cnf".into();
        (args, c)
    };
    let at = Rc::new(at);
    let at2 = at.clone();
    Space {
        name: format!("sequences{len}"),
        rule: format!("all sequences of {len} out of {n} options, short or long, with values"),
        size: n.pow(len as u32),
        run: Box::new(move |i, cx| {
            let (args, c) = at(i);
            taken(cx, &args, &c)
        }),
        show: Box::new(move |i| format!("splr {:?}", at2(i).0)),
    }
}

/// each value of each option; with another option before or after
fn values() -> Space {
    let mut l: Vec<(usize, String, &str)> = vec![];
    for (k, o) in OPTS.iter().enumerate() {
        for n in names(o) {
            for t in texts(o) {
                l.push((k, n.clone(), t));
            }
        }
    }
    let around: [(&[&str], &[&str]); 4] = [(&[], &[]), (&["-q"], &[]), (&["--evo", "33"], &[]), (&[], &["-C"])];
    let n = l.len() as u64;
    let l = Rc::new(l);
    let at = move |i: u64| {
        let (k, name, t) = &l[(i % n) as usize];
        let (pre, post) = around[(i / n) as usize];
        let mut args: Vec<String> = pre.iter().map(|x| x.to_string()).collect();
        args.extend(words(&OPTS[*k], name, t));
        args.extend(post.iter().map(|x| x.to_string()));
        args.push("f.cnf".into());
        let mut c = Config::default();
        match pre {
            ["-q"] => c.quiet_mode = true,
            [_, _] => c.elm_var_occ = 33,
            _ => (),
        }
        c.no_color = !post.is_empty();
        c.cnf_file = "f.cnf".into();
        let ok = apply(&OPTS[*k], t, &mut c).is_some();
        (args, ok.then_some(c), name == "--crl" && t.len() > 4)
    };
    let at = Rc::new(at);
    let at2 = at.clone();
    Space {
        name: "values".into(),
        rule: "each option with each of 10-20 values or what's no value, alone, after another option or before one".into(),
        size: n * around.len() as u64,
        run: Box::new(move |i, cx| {
            let (args, c, wide) = at(i);
            match c {
                // what doesn't fit is refused or the nearest that does is taken
                Some(c) if wide => taken(cx, &args, &c).or_else(|e| refused(cx, &args).map_err(|_| e)),
                Some(c) => taken(cx, &args, &c),
                None => refused(cx, &args),
            }
        }),
        show: Box::new(move |i| format!("splr {:?}", at2(i).0)),
    }
}

/// what isn't in the help is refused
fn unknown() -> Space {
    let mut l: Vec<Vec<String>> = vec![];
    let known: Vec<String> = OPTS.iter().flat_map(names).chain(["-h", "-V", "--help", "--version"].map(String::from)).collect();
    let mut put = |x: &[&str]| {
        if !known.contains(&x[0].to_string()) {
            l.push(x.iter().map(|x| x.to_string()).collect());
        }
    };
    for c in ('a'..='z').chain('A'..='Z').chain('0'..='9') {
        put(&[&format!("-{c}")]);
        put(&[&format!("-{c}"), "1"]);
    }
    for k in &known {
        let name = k.trim_start_matches('-');
        for i in 0..name.len() {
            let (a, b) = (&name[..i], &name[i + 1..]);
            put(&[&format!("--{a}{b}")]);
            put(&[&format!("--{a}{b}"), "1"]);
            put(&[&format!("--{a}{}{b}", name[i..i + 1].to_uppercase())]);
        }
        put(&[&format!("{k}x")]);
        put(&[&format!("{k}=1")]);
        put(&[&format!("-{k}")]);
        put(&[&format!("--{name}=f.cnf")]);
    }
    put(&["other.cnf"]);
    put(&["1"]);
    put(&["f.cnf "]);
    put(&[""]);
    let l = Rc::new(l);
    let l2 = l.clone();
    let n = l.len() as u64;
    Space {
        name: "unknown".into(),
        rule: "options of one letter, and each known name less a letter, with one in upper case, one more, '=' or another '-'; arguments that are neither".into(),
        size: n * 3,
        run: Box::new(move |i, cx| {
            let mut args = l[(i % n) as usize].clone();
            match i / n {
                1 => args.insert(0, "-q".into()),
                2 => args.push("-q".into()),
                _ => (),
            }
            args.push("f.cnf".into());
            refused(cx, &args)
        }),
        show: Box::new(move |i| format!("splr .. {:?} ..", l2[(i % n) as usize])),
    }
}

/// without a CNF file, or with one that isn't there
fn nofile() -> Space {
    let mut l: Vec<Vec<String>> = vec![vec![], vec!["g.cnf".into()], vec!["f".into()], vec!["sub/f.cnf".into()]];
    for o in &OPTS {
        for n in names(o) {
            l.push(vec![n.clone()]);
            for t in ["f.cnf", "1"] {
                if !matches!(o.2, Flag(_)) {
                    // the value isn't the formula too
                    l.push(vec![n.clone(), t.into()]);
                    l.push(vec!["-q".into(), n.clone(), t.into()]);
                    l.push(vec![n.clone(), t.into(), "g.cnf".into()]);
                }
            }
        }
    }
    let l = Rc::new(l);
    let l2 = l.clone();
    Space {
        name: "no file".into(),
        rule: "no arguments, files that aren't there, and each option, also with the name of a file or a number as its value, and no file after".into(),
        size: l.len() as u64,
        run: Box::new(move |i, cx| refused(cx, &l[i as usize])),
        show: Box::new(move |i| format!("splr {:?}", l2[i as usize])),
    }
}

/// the help tells the options, with their defaults, and nothing else is done
fn help() -> Space {
    let ways: Vec<Vec<&str>> = vec![
        vec!["-h"],
        vec!["--help"],
        vec!["--help", "f.cnf"],
        vec!["-q", "-h", "f.cnf"],
        vec!["--evl", "5", "-h"],
        vec!["-c", "-h", "-p", "x"],
        vec!["-V"],
        vec!["--version"],
        vec!["--version", "f.cnf"],
        vec!["-q", "-V"],
        vec!["--rlt", "5", "-V", "f.cnf"],
    ];
    let ways = Rc::new(ways);
    let w2 = ways.clone();
    Space {
        name: "help".into(),
        rule: "help and version, alone and with other options".into(),
        size: ways.len() as u64,
        run: Box::new(move |i, cx| {
            let args: Vec<String> = ways[i as usize].iter().map(|x| x.to_string()).collect();
            let cwd = fresh(cx)?;
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            let r = parse(cx, &args, &cwd)?;
            let bad = |e: &str| Err(ctx(&args, &r, e));
            if r.code != Some(0) || r.out.contains("CONFIG") || !r.err.is_empty() {
                return bad("neither help nor version");
            }
            if i >= 6 {
                return if r.out.trim() == VERSION { Ok(()) } else { bad("another version") };
            }
            // name -> (short, default)
            let mut told: BTreeMap<String, (String, String)> = BTreeMap::new();
            for l in r.out.lines().filter(|l| l.starts_with("  -") || l.starts_with("      --")) {
                let w: Vec<&str> = l.split_whitespace().collect();
                let (short, long) = if w[0].starts_with("--") { ("", w[0]) } else { (w[0].trim_end_matches(','), w[1]) };
                // the default stands right after a text that may touch it
                let t: String = l.chars().rev().take_while(|c| !c.is_whitespace()).collect::<Vec<_>>().into_iter().rev().collect();
                let t = match t.rfind([')', ']']) {
                    Some(k) => t[k + 1..].to_string(),
                    None => t,
                };
                told.insert(long.to_string(), (short.to_string(), t));
            }
            let d = Config::default();
            for (long, (short, default)) in &told {
                if ["--help", "--version"].contains(&long.as_str()) {
                    continue;
                }
                let Some(o) = OPTS.iter().find(|o| format!("--{}", o.0) == *long) else {
                    return bad(&format!("{long} isn't an option"));
                };
                if !short.is_empty() && *short != format!("-{}", o.1) {
                    return bad(&format!("{short} isn't short for {long}"));
                }
                let want = o.3(&d);
                let same = want.is_empty() || *default == want || matches!((default.parse::<f64>(), want.parse::<f64>()), (Ok(a), Ok(b)) if (a - b).abs() < 0.005);
                if !same {
                    return bad(&format!("{long} is said to be {default:?} by default instead of {want:?}"));
                }
            }
            // cdr and vds depend on features
            for o in OPTS.iter().filter(|o| !["cdr", "vds", "crl", "cr1", "cr2"].contains(&o.0)) {
                if !told.contains_key(&format!("--{}", o.0)) {
                    return bad(&format!("--{} isn't told", o.0));
                }
            }
            Ok(())
        }),
        show: Box::new(move |i| format!("splr {:?}", w2[i as usize])),
    }
}

/// the environment variable
fn variable() -> Space {
    // (text, honest without an answer)
    let l: Vec<(String, bool)> = ["0", "1", "5", "x", "", "-1", "0.0", "1.5", " 0", "18446744073709551616"]
        .iter()
        .map(|x| (x.to_string(), ["0", "1"].contains(x)))
        .chain([u64::MAX, u64::MAX / 1000, u64::MAX / 1000 + 1, 1 << 61, 1 << 62, 1 << 63, (1 << 63) + (1 << 61)].map(|x| (x.to_string(), false)))
        .collect();
    let l = Rc::new(l);
    let l2 = l.clone();
    let hard = php(8, 7);
    let easy: Cnf = vec![vec![1, 2], vec![-1, 2]];
    Space {
        name: "variable".into(),
        rule: "SPLR_TIMEOUT: no number, 0, small, or as much as 64 bits hold or a little less; an easy and a hard formula".into(),
        size: l.len() as u64 * 2,
        run: Box::new(move |i, cx| {
            let (val, out) = &l[i as usize / 2];
            let f = [&easy, &hard][i as usize % 2];
            let cwd = fresh(cx)?;
            io(fs::write(cwd.join("f.cnf"), dimacs(f, num_vars(f))))?;
            let args = vec!["f.cnf".to_string()];
            cx.add("evaluations", 1);
            let r = call_with(cx, "splr", &args, &cwd, None, &[("SPLR_TIMEOUT", val)])?;
            let bad = |e: &str| Err(ctx(&args, &r, &format!("with SPLR_TIMEOUT={val:?}: {e}")));
            if !r.err.is_empty() {
                return bad("an error");
            }
            if r.code == Some(0) && *out && r.out.contains("TimeOut") && r.out.contains("f.cnf") {
                cx.add("timeouts", 1);
                return Ok(());
            }
            cx.add("nontrivial", 1);
            let sat = i % 2 == 0;
            match answer(&fs::read_to_string(cwd.join("ans_f.cnf")).unwrap_or_default()) {
                Ok((a, _)) if a == sat && r.code == Some(if sat { 10 } else { 20 }) => Ok(()),
                _ => bad("no answer"),
            }
        }),
        show: Box::new(move |i| format!("SPLR_TIMEOUT={:?}", l2[i as usize / 2].0)),
    }
}

fn c31(t: bool) -> Vec<Space> {
    let mut v = vec![sequences(0), sequences(1), sequences(2), sequences(3)];
    if t {
        v.push(sequences(4));
    }
    v.extend([values(), unknown(), nofile(), help(), variable()]);
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        level: "exploration",
        rule: "each evaluation is a process with arguments that differ from the others' by construction; non-trivial: those judged by the configuration they give, a refusal or an answer",
        assumptions: &["the sequences are parsed by Config::inject_from_args in a process of the check's own, as splr does"],
        spaces: c31,
        patience: 120,
    }]
}
