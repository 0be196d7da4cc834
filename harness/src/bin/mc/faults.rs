//! C26: writes that fail, wherever they do. The faults are injected by the kernel: the size of
//! files is limited (RLIMIT_FSIZE), so that the write that crosses the limit is a short one, and
//! the next one fails. All limits are enumerated, so all points at which a write can be torn.
use crate::cli::{Out, answer, dimacs, io};
use mc::{core::*, drat, form::*};
use splr::{cnf::*, *};
use std::{
    fs,
    os::unix::process::CommandExt,
    path::Path,
    process::{Command, Stdio},
    rc::Rc,
};

#[repr(C)]
struct RLimit {
    soft: u64,
    hard: u64,
}
unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
    fn getrlimit(resource: i32, limit: *mut RLimit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

/// set the soft limit; a write beyond it fails instead of raising a signal
fn limit(k: Option<u64>) -> bool {
    unsafe {
        let mut r = RLimit { soft: 0, hard: 0 };
        if getrlimit(RLIMIT_FSIZE, &mut r) != 0 {
            return false;
        }
        r.soft = k.unwrap_or(r.hard).min(r.hard);
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &r) == 0
    }
}

struct Limited;
impl Limited {
    fn new(k: Option<u64>) -> Result<Limited, String> {
        if limit(k) { Ok(Limited) } else { Err("HARNESS: the limit can't be set".into()) }
    }
}
impl Drop for Limited {
    fn drop(&mut self) {
        limit(None);
    }
}

//
// the command
//

fn command(cx: &Cx, args: &[String], cwd: &Path, k: Option<u64>) -> Result<Out, String> {
    let mut c = Command::new(cx.bin.join("splr"));
    c.args(args).current_dir(cwd).env_remove("SPLR_TIMEOUT").env("RUST_BACKTRACE", "0");
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || if limit(k) { Ok(()) } else { Err(std::io::Error::last_os_error()) });
    }
    let o = c.output().map_err(|e| format!("HARNESS: splr can't be started: {e}"))?;
    let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    Ok(Out { code: o.status.code(), out: text(o.stdout), err: text(o.stderr) })
}

/// what isn't to be written, and how
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// files can't get longer
    Size(u64),
    /// the directory isn't there
    NoDir,
    /// there is a directory of this name
    IsDir,
    /// a device without space
    Full,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    Answer,
    Proof,
    Both,
}

#[derive(Clone, Copy, Debug)]
struct Mode {
    certify: bool,
    quiet: bool,
    /// answer on the standard output
    stdout: bool,
}

/// all the answer was written: verdict, model and the end
fn whole(text: &str) -> bool {
    answer(text).is_ok() && text.ends_with("0\n")
}

fn told(r: &Out) -> bool {
    let t = format!("{}\n{}", r.out, r.err).to_lowercase();
    ["fail", "error", "abort", "couldn't", "could not", "can't", "cannot", "unable"].iter().any(|w| t.contains(w))
}

fn cli(f: &Cnf, n: usize, sat: bool, mode: Mode, fault: Fault, on: Target, cx: &mut Cx) -> Result<(), String> {
    let cwd = cx.scratch.join("cwd");
    let _ = fs::remove_dir_all(&cwd);
    io(fs::create_dir_all(&cwd))?;
    io(fs::write(cwd.join("f.cnf"), dimacs(f, n)))?;
    let (mut ans, mut proof) = ("f.ans".to_string(), "f.drat".to_string());
    for (name, hit) in [(&mut ans, on != Target::Proof), (&mut proof, on != Target::Answer)] {
        if hit {
            match fault {
                Fault::NoDir => *name = format!("none/{name}"),
                Fault::IsDir => io(fs::create_dir(cwd.join(&*name)))?,
                Fault::Full => io(std::os::unix::fs::symlink("/dev/full", cwd.join(&*name)))?,
                _ => (),
            }
        }
    }
    let mut args: Vec<&str> = vec!["-C"];
    if mode.quiet {
        args.push("-q");
    }
    if mode.certify {
        args.extend(["-c", "-p", &proof]);
    }
    args.extend(["-r", if mode.stdout { "-" } else { &ans }, "f.cnf"]);
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    cx.add("evaluations", 1);
    let k = match fault {
        Fault::Size(k) => Some(k),
        _ => None,
    };
    let r = command(cx, &args, &cwd, k)?;
    let ctx = |e: &str| {
        let tail: String = r.out.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        format!("splr {} with {fault:?} for {on:?}: {e}; exit {:?}; out ..{tail:?}; err {:?}", args.join(" "), r.code, r.err)
    };
    if r.code != Some(if sat { 10 } else { 20 }) {
        return Err(ctx(&format!("a bad exit code for a{} formula", if sat { " SAT" } else { "n UNSAT" })));
    }
    let word = if sat { "s SATISFIABLE" } else { "s UNSATISFIABLE" };
    if !r.out.lines().any(|l| l.contains(word)) || r.out.lines().any(|l| l.contains(if sat { "s UNSAT" } else { "s SAT" })) {
        return Err(ctx("no verdict on the standard output, or another one"));
    }
    // the answer: in the file, or on the standard output
    let judged = |t: &str| -> Result<(), String> {
        let (s, m) = answer(t)?;
        if s != sat {
            return Err("the other verdict in the answer".into());
        }
        if s { model_ok(f, n, &m) } else { Ok(()) }
    };
    let file = match fault {
        Fault::IsDir | Fault::Full | Fault::NoDir if on != Target::Proof => String::new(),
        _ => fs::read_to_string(cwd.join(&ans)).unwrap_or_default(),
    };
    let mut lost = false;
    if whole(&file) {
        judged(&file).map_err(|e| ctx(&e))?;
    } else if answer(&r.out).is_ok() {
        judged(&r.out).map_err(|e| ctx(&e))?;
        cx.add("answers on the standard output", 1);
    } else {
        lost = true;
        cx.add("answers lost", 1);
        if !told(&r) {
            return Err(ctx("the answer wasn't written in full, and nothing was said"));
        }
    }
    // the proof
    if mode.certify && !sat {
        let text = match fault {
            Fault::IsDir | Fault::Full | Fault::NoDir if on != Target::Answer => String::new(),
            _ => fs::read_to_string(cwd.join(&proof)).unwrap_or_default(),
        };
        let claimed = r.out.contains("Certificate|file");
        // an incomplete proof isn't one
        let good = text.ends_with("0\n") && text.lines().last() == Some("0") && drat::check(f, &text).is_ok();
        if good {
            cx.add("proofs", 1);
        } else {
            lost = true;
            cx.add("proofs lost", 1);
            if claimed || !told(&r) {
                return Err(ctx(&format!(
                    "the proof wasn't written in full ({} bytes), {}",
                    text.len(),
                    if claimed { "but a certificate is claimed" } else { "and nothing was said" }
                )));
            }
        }
    }
    cx.add("nontrivial", lost as u64);
    if fault == Fault::None && (lost || told(&r)) {
        return Err(ctx("a failure without a fault"));
    }
    Ok(())
}

const MODES: [Mode; 6] = [
    Mode { certify: false, quiet: false, stdout: false },
    Mode { certify: false, quiet: true, stdout: false },
    Mode { certify: true, quiet: false, stdout: false },
    Mode { certify: true, quiet: true, stdout: false },
    Mode { certify: true, quiet: false, stdout: true },
    Mode { certify: true, quiet: true, stdout: true },
];

fn picks(t: bool) -> Vec<(&'static str, Cnf)> {
    let mut l = vec![
        ("a model", stride3(12, 40, 7, 3)),
        ("php(4,3)", php(4, 3)),
        ("UNSAT while loading", vec![vec![1], vec![-1, 2], vec![-2]]),
        ("UNSAT by elimination", vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2]]),
    ];
    if t {
        l.push(("a longer model", stride3(60, 200, 13, 5)));
        l.push(("tseitin", tseitin(6, &graph(6, 0x7fff), 1)));
        l.push(("php(6,5)", php(6, 5)));
    }
    l
}

/// all points at which the files that the command writes can be torn
fn torn(f: Cnf, name: &str, end: u64, step: u64, modes: Vec<Mode>) -> Space {
    let (n, sat) = (num_vars(&f), is_sat(&f));
    let nk = end / step + 1;
    let shown = show(&f);
    let (m, m2) = (modes.clone(), modes);
    Space {
        name: format!("torn {name} {end}/{step}"),
        rule: format!("{name}: a write that fails at byte 0, {step}, .. up to {end} of each file, in {} modes of the command", m.len()),
        size: nk * m.len() as u64,
        run: Box::new(move |i, cx| cli(&f, n, sat, m[(i / nk) as usize], Fault::Size(i % nk * step), Target::Both, cx)),
        show: Box::new(move |i| format!("byte {} {:?} {shown}", i % nk * step, m2[(i / nk) as usize])),
    }
}

/// files that can't even be made
fn unmade(t: bool) -> Space {
    let l = Rc::new(picks(t));
    let l2 = l.clone();
    let faults = [Fault::None, Fault::NoDir, Fault::IsDir, Fault::Full];
    let on = [Target::Answer, Target::Proof, Target::Both];
    let split = move |i: u64| (i as usize / 72, MODES[i as usize / 12 % 6], faults[i as usize / 3 % 4], on[i as usize % 3]);
    Space {
        name: "unmade".into(),
        rule: "answer files and proofs in no directory, of a directory's name, and on a full device, one and both".into(),
        size: l.len() as u64 * 72,
        run: Box::new(move |i, cx| {
            let (f, m, x, on) = split(i);
            let f = &l[f].1;
            cli(f, num_vars(f), is_sat(f), m, x, on, cx)
        }),
        show: Box::new(move |i| {
            let (f, m, x, on) = split(i);
            format!("{x:?} {on:?} {m:?} {}", show(&l2[f].1))
        }),
    }
}

//
// the library
//

/// `CNF::save`, torn at every byte
fn saving(fs_: Vec<Cnf>, name: &str, step: u64) -> Space {
    let cnf = |f: &Cnf| -> Result<CNF, String> {
        let mut c = CNF::default();
        for x in f {
            c.add_clause(x.clone()).map_err(|e| format!("add_clause: {e:?}"))?;
        }
        Ok(c)
    };
    let texts: Vec<(CNF, String)> = fs_.iter().map(|f| cnf(f).unwrap()).map(|c| (c.dump_to_string(), c)).map(|(t, c)| (c, t)).collect();
    let mut cases: Vec<(usize, Option<u64>)> = vec![];
    for (i, (_, t)) in texts.iter().enumerate() {
        cases.push((i, None));
        let len = t.len() as u64;
        cases.extend((0..=len + 2).filter(|k| k % step == 0 || *k + 4 >= len || (k % 8192).abs_diff(1) <= 2).map(|k| (i, Some(k))));
    }
    let cases = Rc::new(cases);
    let c2 = cases.clone();
    Space {
        name: format!("{name}*save"),
        rule: format!("CNF::save of {} formulas, torn at bytes 0, {step}, .. and around the ends of the file and of buffers", texts.len()),
        size: cases.len() as u64,
        run: Box::new(move |i, cx| {
            let (j, k) = cases[i as usize];
            let (c, text) = &texts[j];
            let p = cx.scratch.join("saved.cnf");
            // over an old and longer one, or a new one
            let _ = fs::remove_file(&p);
            if i % 2 == 0 {
                io(fs::write(&p, "c old\n".repeat(20) + text))?;
            }
            cx.add("evaluations", 1);
            let l = Limited::new(k)?;
            let r = c.save(&p);
            drop(l);
            let now = fs::read_to_string(&p).unwrap_or_default();
            let whole = now == *text;
            cx.add("nontrivial", !whole as u64);
            match (r.is_ok(), whole) {
                (true, false) => Err(format!("saved, limited to {k:?}: Ok, but {} of {} bytes are there", now.len(), text.len())),
                (false, _) if k.is_none_or(|k| k >= text.len() as u64) => Err(format!("limited to {k:?}: {r:?}")),
                _ => Ok(()),
            }
        }),
        show: Box::new(move |i| format!("formula {}, limit {:?}", c2[i as usize].0, c2[i as usize].1)),
    }
}

/// when the writes fail
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    Always,
    /// only while solving
    Solve,
    /// only while the proof is finished
    Save,
}

/// `save_certification`, with a proof torn at every byte
fn proving(name: &str, f: Cnf, e: bool, len: u64, step: u64) -> Space {
    const WHEN: [When; 3] = [When::Always, When::Solve, When::Save];
    let nk = len / step + 2;
    let shown = show(&f);
    let sat = is_sat(&f);
    Space {
        name: format!("{name}*prove*{e}*{len}/{step}"),
        rule: format!("the library's proof of {name}, torn at bytes 0, {step}, .. {len}, and not at all; faults always, only while solving, or only while finishing"),
        size: nk * 3,
        run: Box::new(move |i, cx| {
            let when = WHEN[(i / nk) as usize];
            let k = if i % nk == nk - 1 { None } else { Some(i % nk * step) };
            let p = cx.scratch.join("p.drat");
            let _ = fs::remove_file(&p);
            let cfg = Config {
                use_certification: true,
                io_odir: cx.scratch.clone(),
                io_pfile: "p.drat".into(),
                enable_eliminator: e,
                ..Config::default()
            };
            cx.add("evaluations", 1);
            let l = Limited::new(if when == When::Save { None } else { k })?;
            let mut s = Solver::try_from((cfg, &f[..])).map_err(|e| format!("{e:?}"))?;
            let r = s.solve();
            drop(l);
            match (&r, sat) {
                (Ok(Certificate::SAT(m)), true) => model_ok(&f, num_vars(&f), m)?,
                (Ok(Certificate::UNSAT), false) => (),
                _ => return Err(format!("limited to {k:?} {when:?}: {r:?}")),
            }
            let l = Limited::new(if when == When::Solve { None } else { k })?;
            let r = s.save_certification();
            drop(l);
            drop(s);
            let text = fs::read_to_string(&p).unwrap_or_default();
            let good = sat || text.ends_with("0\n") && text.lines().last() == Some("0") && drat::check(&f, &text).is_ok();
            cx.add("nontrivial", r.is_err() as u64);
            match (r.is_ok(), good) {
                (true, false) => Err(format!("limited to {k:?} {when:?}: Ok, but the {} bytes that are there aren't a proof", text.len())),
                (false, _) if k.is_none() => Err(format!("no fault, but {r:?}")),
                _ => Ok(()),
            }
        }),
        show: Box::new(move |i| format!("{:?} {:?}/{nk} {shown}", WHEN[(i / nk) as usize], i % nk)),
    }
}

/// proofs whose lines lie at all places relative to the ends of buffers
fn aligned(t: bool) -> Space {
    const LINES: [&[i32]; 7] = [&[1], &[-1], &[2, -2], &[1, -1, 3, -2], &[-3], &[-2, 1], &[3]];
    // below, at and above multiples of the usual sizes of buffers
    const SIZES: [Option<u64>; 8] = [Some(100), Some(8191), Some(8192), Some(12000), Some(16384), Some(20000), Some(24000), None];
    let pads = if t { 256u64 } else { 64 };
    Space {
        name: format!("aligned {pads}"),
        rule: format!("proofs of 24 KB of adding or deleting 1-4 literals in 7 ways, shifted by 0..{pads} bytes, with files limited to 100, .. 24000 bytes or not at all"),
        size: pads * 7 * 8,
        run: Box::new(move |i, cx| {
            let (pad, i) = (i % pads, i / pads);
            let (way, k) = (LINES[i as usize % 7], SIZES[i as usize / 7]);
            let p = cx.scratch.join("p.drat");
            let _ = fs::remove_file(&p);
            let cfg = Config { use_certification: true, io_odir: cx.scratch.clone(), io_pfile: "p.drat".into(), ..Config::default() };
            let mut want: Vec<String> = vec![];
            let lits = |n: i32| -> Vec<splr::types::Lit> { (1..=n.abs()).map(|k| splr::types::Lit::from((k % 9 + 1) * if k % 3 == 0 { -1 } else { 1 })).collect() };
            cx.add("evaluations", 1);
            let l = Limited::new(k)?;
            let mut s = cdb::CertificationStore::instantiate(&cfg, &CNFDescription::default());
            let mut put = |s: &mut cdb::CertificationStore, c: &[splr::types::Lit], add: bool| {
                let t: Vec<String> = c.iter().map(|l| i32::from(*l).to_string()).collect();
                want.push(format!("{}{} 0", if add { "" } else { "d " }, t.join(" ")));
                if add { s.add_clause(c) } else { s.delete_clause(c) }
                t.join(" ").len()
            };
            for _ in 0..pad / 2 {
                put(&mut s, &[splr::types::Lit::from(1)], true);
            }
            if pad % 2 == 1 {
                put(&mut s, &[splr::types::Lit::from(12345)], true);
            }
            let mut len = 0;
            while len < 24_000 {
                for n in way {
                    len += put(&mut s, &lits(*n), *n > 0) + 4;
                }
            }
            let r = s.close();
            drop(l);
            drop(s);
            want.push("0".into());
            let text = fs::read_to_string(&p).unwrap_or_default();
            let good = text.ends_with('\n') && text.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).eq(want);
            cx.add("nontrivial", r.is_err() as u64);
            match (r.is_ok(), good) {
                (true, false) => Err(format!("limited to {k:?}: Ok, but the {} bytes that are there aren't the proof", text.len())),
                (false, _) if k.is_none() => Err(format!("no fault, but {r:?}")),
                _ => Ok(()),
            }
        }),
        show: Box::new(move |i| format!("shift {}, lines {:?}, limit {:?}", i % pads, LINES[(i / pads) as usize % 7], SIZES[(i / pads) as usize / 7])),
    }
}

/// files that can't be made by the library
fn unmade_lib() -> Space {
    let fs_ = [php(3, 2), stride3(12, 40, 7, 3), php(4, 3)];
    Space {
        name: "unmade by the library".into(),
        rule: "saving a CNF or a proof to no directory, to a directory, and to a full device".into(),
        size: 3 * 4 * 2,
        run: Box::new(move |i, cx| {
            let f = &fs_[i as usize % 3];
            let d = cx.scratch.join("d");
            let _ = fs::remove_dir_all(&d);
            io(fs::create_dir_all(d.join("isdir")))?;
            io(std::os::unix::fs::symlink("/dev/full", d.join("full")))?;
            let (name, bad) = [("none/x", true), ("isdir", true), ("full", true), ("x", false)][i as usize / 3 % 4];
            cx.add("evaluations", 1);
            let ok = if i < 12 {
                let mut c = CNF::default();
                for x in f {
                    c.add_clause(x.clone()).map_err(|e| format!("{e:?}"))?;
                }
                c.save(&d.join(name)).is_ok()
            } else {
                let cfg = Config { use_certification: true, io_odir: d.clone(), io_pfile: name.into(), ..Config::default() };
                let mut s = Solver::try_from((cfg, &f[..])).map_err(|e| format!("{e:?}"))?;
                let v = verdict(s.solve());
                judge(f, num_vars(f), &v, || is_sat(f))?;
                let r = s.save_certification();
                // a proof nobody needs may be lost
                if matches!(v, Verdict::Sat(_)) { !bad } else { r.is_ok() }
            };
            cx.add("nontrivial", bad as u64);
            if ok == bad { Err(format!("{name}: {}", if ok { "Ok" } else { "an error" })) } else { Ok(()) }
        }),
        show: Box::new(|i| format!("case {i}")),
    }
}

//
// reads
//

/// a read that fails at a byte of a file: what isn't text ends the reading there
fn unreadable(name: &str, f: Cnf, layout: usize) -> Space {
    let n = num_vars(&f);
    let mut text = dimacs(&f, n);
    match layout {
        1 => text = format!("c a comment\nc\n{text}c the end\n"),
        2 => text = text.replace(" 0\n", "\n0\n"),
        _ => (),
    }
    let sat = is_sat(&f);
    let (t1, len) = (text.clone(), text.len() as u64 + 1);
    Space {
        name: format!("{name}*unreadable*{layout}"),
        rule: format!("{name}: a byte that isn't text, at each point of the file, instead of one or in addition; read by CNF::load, Solver::build and the command"),
        size: len * 2 * 3,
        run: Box::new(move |i, cx| {
            let (at, instead, by) = ((i / 6) as usize, i % 2 == 0, i / 2 % 3);
            let mut b = text.clone().into_bytes();
            if instead && at < b.len() {
                b[at] = 0xff;
            } else {
                b.insert(at, 0xff);
            }
            let cwd = cx.scratch.join("cwd");
            let _ = fs::remove_dir_all(&cwd);
            io(fs::create_dir_all(&cwd))?;
            let p = cwd.join("f.cnf");
            io(fs::write(&p, &b))?;
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            let right = match by {
                0 => match CNF::load(&p) {
                    Err(_) => return Ok(()),
                    Ok(c) => {
                        let mut a = CNF::default();
                        for x in &f {
                            match a.add_clause(x.clone()) {
                                Ok(_) | Err(CNFOperationError::AddingClauseExists) => (),
                                Err(e) => return Err(format!("{e:?}")),
                            }
                        }
                        a.dump_to_string() == c.dump_to_string()
                    }
                },
                1 => {
                    let cfg = Config { cnf_file: p, ..Config::default() };
                    match Solver::build(&cfg) {
                        // an inconsistency seen before may be reported
                        Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => !sat,
                        Err(_) => return Ok(()),
                        Ok(mut s) => judge(&f, n, &verdict(s.solve()), || sat).is_ok(),
                    }
                }
                _ => {
                    let args: Vec<String> = ["-q", "-C", "-r", "-", "f.cnf"].iter().map(|s| s.to_string()).collect();
                    let r = command(cx, &args, &cwd, None)?;
                    match (r.code, answer(&r.out)) {
                        (Some(10), Ok((true, m))) => model_ok(&f, n, &m).is_ok(),
                        (Some(20), Ok((false, _))) => !sat,
                        (Some(10 | 20), _) => false,
                        (_, a) => a.is_err(),
                    }
                }
            };
            cx.add("read in spite of it", 1);
            if right { Ok(()) } else { Err("what was read isn't the formula, and no error was reported".into()) }
        }),
        show: Box::new(move |i| format!("byte {} of {t1:?}, {}, reader {}", i / 6, if i % 2 == 0 { "replaced" } else { "inserted before" }, i / 2 % 3)),
    }
}

/// formulas of some length
fn lines(n: usize) -> Cnf {
    (0..n).map(|i| [i, i + 1 + i / 97, i + 40 + i / 97].map(|v| (v % 997 + 1) as i32 * if (v + i) % 3 == 0 { -1 } else { 1 }).to_vec()).collect()
}

fn c26(t: bool) -> Vec<Space> {
    let mut v = vec![unmade(t), unmade_lib(), aligned(t)];
    for (name, f) in picks(t) {
        // an answer takes about 4 KB; the few bytes after it are for times of more digits
        let modes = if t { MODES.to_vec() } else { vec![MODES[2], MODES[3]] };
        v.push(torn(f, name, 5000, if t { 1 } else { 3 }, modes));
    }
    // answers and proofs over the size of a buffer (8 KB), and of the proof's queue
    let many: Cnf = vec![vec![1, 2, 3000], vec![-1, 40, -2999], vec![-2, 1500, 7]];
    v.push(torn(many, "a model of 3000 vars", 24000, if t { 7 } else { 41 }, vec![MODES[0], MODES[3]]));
    v.push(torn(php(7, 6), "php(7,6)", if t { 120_000 } else { 60_000 }, if t { 101 } else { 1009 }, vec![MODES[2], MODES[4]]));
    v.push(saving(
        (0..if t { 40 } else { 12 }).map(|i| lines(i * i / 2)).collect(),
        "small formulas",
        1,
    ));
    v.push(saving(vec![lines(900), lines(2500), lines(6000)], "large formulas", if t { 3 } else { 31 }));
    v.push(proving("php(4,3)", php(4, 3), true, 900, 1));
    v.push(proving("php(4,3)", php(4, 3), false, 900, 1));
    v.push(proving("a model", stride3(12, 40, 7, 3), true, 300, 1));
    v.push(proving("php(5,4)", php(5, 4), false, 6000, if t { 1 } else { 3 }));
    v.push(proving("php(7,6)", php(7, 6), true, 120_000, if t { 67 } else { 509 }));
    for layout in 0..3 {
        v.push(unreadable("a model", stride3(6, 14, 7, 3), layout));
        v.push(unreadable("php(3,2)", php(3, 2), layout));
        // a repeated clause, with which a file has fewer clauses than it declares
        let mut f = stride3(6, 14, 7, 3);
        f.insert(1, f[0].clone());
        v.push(unreadable("a model, a clause twice", f, layout));
        if t {
            v.push(unreadable("php(5,4)", php(5, 4), layout));
            v.push(unreadable("a longer model", stride3(30, 110, 7, 3), layout));
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        level: "fault_enumeration",
        rule: "each case is a formula, a way of writing or reading and a point of failure, different from the others by construction; non-trivial: something was lost",
        assumptions: &[
            "faults are injected by the kernel's limit on the size of files, full devices, missing directories, and bytes that aren't text",
            "a failure is told by a message with a usual word for it",
            "an answer or a proof is whole if it can be judged and ends with its last line",
        ],
        patience: 120,
        spaces: c26,
    }]
}
