//! C18: builds with other features. This file is built once for each of them, and
//! each of the builds solves formulas for the driver.
use mc::{core::*, engine, form::*, spaces::*};
use splr::{Config, verif};
use std::{
    fs,
    io::Write,
    path::PathBuf,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

const CHUNK: u64 = 50;

fn spaces(t: bool) -> Vec<FSpace> {
    if t {
        vec![
            subsets(3, 1..=3, 5),
            subsets(4, 1..=4, 3),
            dense(4, 3, 5),
            dense(5, 3, 3),
            dense(6, 3, 1),
            functions(4, false),
            functions(4, true),
            families(true),
            shapes(120),
            strided(8, &[30, 34, 38], 40, 40),
            strided(20, &[80, 86, 92], 40, 40),
            strided(50, &[200, 210, 215, 220], 30, 10),
            strided(100, &[400, 415, 430], 20, 4),
            colorings(5, 3, true),
            tseitins(5),
        ]
    } else {
        vec![
            subsets(3, 1..=3, 3),
            subsets(4, 2..=3, 2),
            dense(4, 3, 3),
            dense(5, 3, 2),
            families(false),
            shapes(60),
            strided(8, &[30, 36], 20, 20),
            strided(20, &[80, 92], 20, 20),
            strided(50, &[205, 215], 20, 10),
            strided(100, &[415], 10, 4),
        ]
    }
}

/// sizes of the first stage; 0: as is; negative: without restarts within a stage
const STAGES: [i64; 5] = [0, 1, 4, -4, -40];

/// one formula, in this build
fn solved(f: &Cnf, stage: i64) -> Result<u64, String> {
    let r = guard(|| {
        if stage != 0 {
            verif::set_oracle(Some(Box::new(move |c, n| if c == verif::Choice::StageSize { stage.abs() } else { n })));
        }
        count_conflicts();
        let d = Config::default();
        run(Config { rst_lbd_thr: if stage < 0 { 1.0e9 } else { d.rst_lbd_thr }, ..d }, f)
    });
    judge(f, num_vars(f), &r?, || is_sat(f)).map(|_| conflicts_counted())
}

/// the side of a build: solve a chunk, and write what comes out
fn chunk(tier: &str, space: usize, stage: i64, chunk: u64, out: &str) {
    install_panic_hook();
    let f = spaces(tier == "thorough").remove(space);
    let mut o = fs::File::create(out).expect("no output");
    let mut busy = 0;
    for i in chunk * CHUNK..((chunk + 1) * CHUNK).min(f.size) {
        let _ = o.write_all(format!("@ {i}\n").as_bytes());
        match solved(&(f.make)(i), stage) {
            Ok(c) => busy += (c > 0) as u64,
            Err(e) => {
                let _ = o.write_all(format!("bad {i} {}\n", e.replace('\n', " ")).as_bytes());
                return;
            }
        }
    }
    let _ = o.write_all(format!("done {busy}\n").as_bytes());
}

/// the builds are found in a directory
fn builds() -> Vec<(String, PathBuf)> {
    let dir = std::env::var_os("MC_BUILDS").map(PathBuf::from).unwrap_or_default();
    let mut v: Vec<_> = fs::read_dir(dir)
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), e.path()))
        .collect();
    v.sort();
    v
}

fn ask(exe: &PathBuf, args: &[String], cx: &Cx) -> Result<String, String> {
    let out = cx.scratch.join("out");
    let _ = fs::remove_file(&out);
    let mut p = Command::new(exe)
        .arg("chunk")
        .args(args)
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("HARNESS: {exe:?}: {e}"))?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = p.try_wait().map_err(|e| format!("HARNESS: {e}"))? {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(120) {
            let _ = p.kill();
            let _ = p.wait();
            return Err(format!("no answer in time at {}", last(&out)));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    if !st.success() {
        return Err(format!("it was ended ({st}) at {}", last(&out)));
    }
    fs::read_to_string(&out).map_err(|e| format!("HARNESS: {e}"))
}

fn last(out: &PathBuf) -> String {
    let t = fs::read_to_string(out).unwrap_or_default();
    t.lines().last().unwrap_or("the start").to_string()
}

fn c18(t: bool) -> Vec<Space> {
    let mut v = vec![];
    for (name, exe) in builds() {
        for (si, f) in spaces(t).into_iter().enumerate() {
            for stage in STAGES {
                if stage != 0 && (f.name.starts_with("sub") || f.name.starts_with("shapes")) {
                    continue;
                }
                // local search takes its time
                if name.contains("stochastic") && stage != 0 && !f.name.starts_with("dense") && !f.name.starts_with("stride8") {
                    continue;
                }
                let (exe, name, mk, size) = (exe.clone(), name.clone(), f.make.clone(), f.size);
                v.push(Space {
                    name: format!("{name}:{}@{stage}", f.name),
                    rule: format!("in the build {name}: {}; stages of {stage} conflicts (0: as is; < 0: without restarts)", f.rule),
                    size: size.div_ceil(CHUNK),
                    run: Box::new(move |c, cx| {
                        let tier = if t { "thorough" } else { "quick" };
                        let args = [tier.to_string(), si.to_string(), stage.to_string(), c.to_string()];
                        let text = ask(&exe, &args, cx)?;
                        let l = text.lines().last().unwrap_or("");
                        if let Some(x) = l.strip_prefix("done ") {
                            cx.add("evaluations", ((c + 1) * CHUNK).min(size) - c * CHUNK);
                            cx.add("nontrivial", x.parse().unwrap_or(0));
                            cx.add(&format!("with {name}"), 1);
                            return Ok(());
                        }
                        let i: Option<u64> = l.split(' ').nth(1).and_then(|x| x.parse().ok());
                        let f = i.map_or(String::new(), |i| show(&mk(i)));
                        Err(format!("build {name}: {l} {f}"))
                    }),
                    show: Box::new(move |c| format!("formulas {}.. of space {si}, stages of {stage}", c * CHUNK)),
                });
            }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let [_, x, tier, s, st, c, out] = &a[..]
        && x == "chunk"
    {
        return chunk(tier, s.parse().unwrap(), st.parse().unwrap(), c.parse().unwrap(), out);
    }
    engine::main(|| {
        vec![Prop {
            id: "C18",
            level: "exploration",
            rule: "each case is a build and a chunk of formulas, different from the others by construction; evaluations are formulas; non-trivial: with a conflict",
            assumptions: &["builds that don't compile are left out (see DESIGN.md), as is chrono_BT, which is marked as not working"],
            patience: 150,
            spaces: c18,
        }]
    });
}
