//! mc: explicit enumeration of inputs, schedules and environment answers of splr.
//!
//! mc drive PROP TIER      run the check (spawns workers); the last lines are the verdict
//! mc replay FILE          run one recorded case again
//! mc list                 what would be enumerated
use crate::{core::*, drat, refsat};
use std::{
    collections::BTreeMap,
    fs::{self, File},
    io::{Read, Write},
    os::unix::fs::FileExt,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

/// the properties a binary knows
pub type Registry = fn() -> Vec<Prop>;

pub fn main(reg: Registry) {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[1..] {
        ["drive", p, tier] => drive(reg, p, tier == "thorough"),
        ["worker", p, tier, w, n, ref rest @ ..] => worker(reg, p, tier == "thorough", w, n, rest),
        ["replay", f] => replay(reg, f),
        ["list"] => {
            for p in reg() {
                for t in [false, true] {
                    for s in (p.spaces)(t) {
                        println!("{} {} {} {}", p.id, t, s.name, s.size);
                    }
                }
            }
            0
        }
        ["show", p, space, i] => {
            let p = find(reg, p);
            let s = (p.spaces)(true).into_iter().find(|s| s.name == space).expect("no such space");
            println!("{}", (s.show)(i.parse().unwrap()));
            0
        }
        _ => {
            eprintln!("usage: mc drive PROP quick|thorough | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}

fn find(reg: Registry, id: &str) -> Prop {
    reg().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn bin_dir() -> PathBuf {
    std::env::var_os("MC_BIN").map_or_else(PathBuf::new, PathBuf::from)
}

fn verif_dir() -> PathBuf {
    std::env::var_os("MC_HOME").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn new_cx(scratch: &Path, thorough: bool) -> Cx {
    Cx {
        scratch: scratch.to_path_buf(),
        thorough,
        count: BTreeMap::new(),
        samples: Vec::new(),
        bin: bin_dir(),
    }
}

//
// known findings: lines "known: property=C00 case=<space>#<index or *> match=<substring of the message> ..."
//
struct Known {
    space: String,
    needle: String,
    what: String,
}

fn known(prop: &str) -> Vec<Known> {
    let Ok(s) = fs::read_to_string(verif_dir().join("known-findings.txt")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?.strip_prefix(prop)?;
            let mut it = l.trim().splitn(3, " | ");
            Some(Known {
                space: it.next()?.trim().to_string(),
                needle: it.next()?.trim().to_string(),
                what: it.next()?.trim().to_string(),
            })
        })
        .collect()
}

//
// worker: cases w, w+n, w+2n, ... of all the spaces. `rest` is: DIR [SPACE INDEX] to start from
//
fn worker(reg: Registry, p: &str, thorough: bool, w: &str, n: &str, rest: &[&str]) -> i32 {
    let prop = find(reg, p);
    let (w, n): (u64, u64) = (w.parse().unwrap(), n.parse().unwrap());
    let dir = PathBuf::from(rest[0]);
    let start: (usize, u64) = match rest[1..] {
        [s, i] => (s.parse().unwrap(), i.parse().unwrap()),
        _ => (0, w),
    };
    let scratch = dir.join(format!("s{w}"));
    let _ = fs::create_dir_all(&scratch);
    let progress = File::options()
        .create(true)
        .truncate(false)
        .write(true)
        .open(dir.join(format!("p{w}")))
        .unwrap();
    let mut out = File::options()
        .create(true)
        .append(true)
        .open(dir.join(format!("o{w}")))
        .unwrap();
    install_panic_hook();
    let known = known(prop.id);
    let mut cx = new_cx(&scratch, thorough);
    let t0 = Instant::now();
    let mut code = 0;
    'all: for (si, s) in (prop.spaces)(thorough).iter().enumerate().skip(start.0) {
        let mut i = if si == start.0 { start.1 } else { w };
        let mut done = 0;
        let ts = Instant::now();
        while i < s.size {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..16].copy_from_slice(&i.to_le_bytes());
            b[16..].copy_from_slice(&(t0.elapsed().as_millis() as u64 + 1).to_le_bytes());
            let _ = progress.write_at(&b, 0);
            let tc = Instant::now();
            let r = match guard(|| (s.run)(i, &mut cx)) {
                Ok(r) => r,
                Err(e) => Err(e),
            };
            if let Err(e) = r {
                let e = e.replace('\n', " ");
                if let Some(k) = known
                    .iter()
                    .find(|k| (k.space == "*" || k.space == s.name) && e.contains(&k.needle))
                {
                    cx.add(&format!("known\t{}", k.what), 1);
                } else {
                    let _ = writeln!(out, "V\t{si}\t{i}\t{e}");
                    code = 1;
                    break 'all;
                }
            }
            if tc.elapsed() > Duration::from_secs(10) {
                let _ = writeln!(out, "T\t{:.1} s\t{}#{i}", tc.elapsed().as_secs_f64(), s.name);
            }
            done += 1;
            i += n;
        }
        cx.add(&format!("space {}", s.name), done);
        cx.add(&format!("ms {}", s.name), ts.elapsed().as_millis() as u64);
    }
    for (k, v) in &cx.count {
        let _ = writeln!(out, "C\t{v}\t{k}");
    }
    for s in &cx.samples {
        let _ = writeln!(out, "S\t{}", s.replace('\n', "\\n"));
    }
    let _ = writeln!(out, "E");
    code
}

struct Viol {
    space: usize,
    index: u64,
    what: String,
}

fn drive(reg: Registry, p: &str, thorough: bool) -> i32 {
    let prop = find(reg, p);
    let t0 = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    if let Err(e) = refsat::self_test().and_then(|_| drat::self_test()) {
        eprintln!("self test failed: {e}");
        return 2;
    }
    let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let dir = PathBuf::from(format!("{base}/mc-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).expect("no scratch directory");
    let r = drive_in(&prop, thorough, tier, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn drive_in(prop: &Prop, thorough: bool, tier: &str, dir: &Path, t0: Instant) -> i32 {
    let spaces = (prop.spaces)(thorough);
    for (i, s) in spaces.iter().enumerate() {
        if spaces[..i].iter().any(|x| x.name == s.name) {
            eprintln!("two spaces are named {}", s.name);
            return 2;
        }
    }
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let exe = std::env::current_exe().unwrap();
    let spawn = |w: usize| {
        let mut c = Command::new(&exe);
        c.args(["worker", prop.id, tier, &w.to_string(), &n.to_string()])
            .arg(dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(File::create(dir.join(format!("e{w}"))).unwrap())
            .env("RUST_BACKTRACE", "0");
        c.spawn().expect("can't spawn a worker")
    };
    let position = |w: usize| -> Option<(u64, u64, u64)> {
        let mut b = [0u8; 24];
        File::open(dir.join(format!("p{w}"))).ok()?.read_exact(&mut b).ok()?;
        let u = |k: usize| u64::from_le_bytes(b[k..k + 8].try_into().unwrap());
        Some((u(0), u(8), u(16)))
    };
    let mut ws: Vec<_> = (0..n)
        .map(|w| (Some(spawn(w)), None::<(u64, u64, u64)>, Instant::now(), None::<(u64, u64, u64)>))
        .collect();
    let mut viol: Option<Viol> = None;
    let mut restarts = 0;
    while ws.iter().any(|w| w.0.is_some()) && viol.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        for (w, (child, seen, since, confirmed)) in ws.iter_mut().enumerate() {
            let Some(ch) = child else { continue };
            let pos = position(w);
            if pos != *seen {
                *seen = pos;
                *since = Instant::now();
            }
            let dead = match ch.try_wait() {
                Ok(Some(st)) => Some(st),
                _ => None,
            };
            if let Some(st) = dead {
                *child = None;
                match st.code() {
                    Some(0) => (),
                    Some(1) => {
                        viol = read_viol(&dir.join(format!("o{w}")));
                        if viol.is_none() {
                            eprintln!("worker {w} failed without a message");
                            return 2;
                        }
                    }
                    _ => {
                        let Some((s, i, _)) = pos else {
                            eprintln!("worker {w} could not start: {st:?}");
                            return 2;
                        };
                        let err = fs::read_to_string(dir.join(format!("e{w}"))).unwrap_or_default();
                        let what = format!(
                            "the process was ended ({st}) {}",
                            err.lines().last().unwrap_or("")
                        );
                        viol = confirm(prop, tier, dir, s as usize, i, what);
                        if viol.is_none() {
                            eprintln!("worker {w} died on a case that passes alone; starting it again");
                            restarts += 1;
                            if restarts > 2 {
                                return 2;
                            }
                            *child = Some(spawn(w));
                        }
                    }
                }
            } else if since.elapsed() > Duration::from_secs(prop.patience) && *confirmed != pos {
                let Some((s, i, _)) = pos else {
                    eprintln!("worker {w} doesn't start");
                    return 2;
                };
                // it goes on meanwhile: the case may only be slow
                let what = format!("no answer after {} s", prop.patience);
                viol = confirm(prop, tier, dir, s as usize, i, what);
                *confirmed = pos;
            } else if since.elapsed() > Duration::from_secs(6 * prop.patience) {
                let Some((s, i, _)) = pos else { return 2 };
                let what = format!("no answer after {} s", 6 * prop.patience);
                viol = Some(Viol { space: s as usize, index: i, what });
            }
            if viol.is_some() {
                break;
            }
        }
    }
    for (c, ..) in ws.iter_mut() {
        if let Some(c) = c {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    //
    // gather
    //
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    for w in 0..n {
        let s = fs::read_to_string(dir.join(format!("o{w}"))).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            match f[..] {
                ["C", v, k] => *count.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0),
                ["T", t, c] => eprintln!("{}: {t} for {c}", prop.id),
                ["S", s] if samples.len() < 6 => samples.push(s.to_string()),
                _ => (),
            }
        }
    }
    for (k, v) in &count {
        if let Some(what) = k.strip_prefix("known\t") {
            println!("KNOWN-FINDING: property={} {what} ({v} cases)", prop.id);
        }
    }
    let mut replay = None;
    if let Some(v) = &viol {
        let s = &spaces[v.space];
        let path = verif_dir().join(format!("evidence/replay-{}.txt", prop.id));
        let case = guard(|| (s.show)(v.index)).unwrap_or_default();
        let _ = fs::create_dir_all(path.parent().unwrap());
        let _ = fs::write(
            &path,
            format!(
                "property={}\ntier={tier}\nspace={}\nindex={}\nwhat={}\ncase={case}\n",
                prop.id, s.name, v.index, v.what
            ),
        );
        println!("{}: case #{} of '{}': {}", prop.id, v.index, s.name, v.what);
        println!("  {}", case.chars().take(2000).collect::<String>());
        if v.what.starts_with("HARNESS:") {
            return 2;
        }
        replay = Some(path);
    } else {
        // every case must have been done
        for s in &spaces {
            let done = count.get(&format!("space {}", s.name)).copied().unwrap_or(0);
            if done != s.size {
                // workers resumed after a death lose their counts only
                eprintln!("{}: {done} of {} cases are accounted for in '{}'", prop.id, s.size, s.name);
                return 2;
            }
        }
    }
    evidence(prop, tier, &spaces, &count, &samples, viol.is_some(), t0);
    if let Some(path) = replay {
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    println!(
        "{}: held on everything explored ({} cases in {} spaces, {:.1} s)",
        prop.id,
        spaces.iter().map(|s| s.size).sum::<u64>(),
        spaces.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

fn read_viol(p: &Path) -> Option<Viol> {
    let s = fs::read_to_string(p).ok()?;
    s.lines().find_map(|l| {
        let mut f = l.splitn(4, '\t');
        if f.next()? != "V" {
            return None;
        }
        Some(Viol {
            space: f.next()?.parse().ok()?,
            index: f.next()?.parse().ok()?,
            what: f.next()?.to_string(),
        })
    })
}

/// run a case alone with a lot of time, to tell a defect from a busy machine.
fn confirm(prop: &Prop, tier: &str, dir: &Path, space: usize, index: u64, what: String) -> Option<Viol> {
    let exe = std::env::current_exe().unwrap();
    let d = dir.join("confirm");
    let _ = fs::remove_dir_all(&d);
    let _ = fs::create_dir_all(&d);
    // one shard so wide that it has a single case of this space; later spaces are cut by the kill
    let mut ch = Command::new(exe)
        .args(["worker", prop.id, tier, &index.to_string(), &(1u64 << 60).to_string()])
        .arg(&d)
        .args([space.to_string(), index.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .ok()?;
    let t = Instant::now();
    let limit = Duration::from_secs(3 * prop.patience);
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if let Ok(Some(st)) = ch.try_wait() {
            return match st.code() {
                Some(0) => None,
                Some(1) => read_viol(&d.join(format!("o{index}"))),
                _ => Some(Viol { space, index, what }),
            };
        }
        // has it gone past the case?
        let mut b = [0u8; 24];
        if let Ok(mut f) = File::open(d.join(format!("p{index}")))
            && f.read_exact(&mut b).is_ok()
            && u64::from_le_bytes(b[..8].try_into().unwrap()) > space as u64
        {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(Viol { space, index, what: format!("{what}; alone: no answer after {} s", limit.as_secs()) });
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn evidence(
    prop: &Prop,
    tier: &str,
    spaces: &[Space],
    count: &BTreeMap<String, u64>,
    samples: &[String],
    violated: bool,
    t0: Instant,
) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let g = |k: &str| count.get(k).copied().unwrap_or(0);
    let mut cov = String::new();
    if prop.level == "model_checking" {
        cov += &format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ",
            g("states"), g("transitions"), g("traces")
        );
    } else {
        cov += &format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, ",
            g("evaluations"), g("nontrivial"), esc(prop.rule)
        );
    }
    cov += &format!("\"exhaustive\": {}, ", !violated);
    cov += &format!(
        "\"samples\": [{}], ",
        samples.iter().map(|s| esc(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(", ")
    );
    cov += &format!(
        "\"spaces\": [{}], ",
        spaces
            .iter()
            .map(|s| format!(
                "{{\"name\": {}, \"cases\": {}, \"done\": {}, \"cpu_ms\": {}, \"rule\": {}}}",
                esc(&s.name), s.size, g(&format!("space {}", s.name)), g(&format!("ms {}", s.name)), esc(&s.rule)
            ))
            .collect::<Vec<_>>()
            .join(", ")
    );
    cov += &format!(
        "\"measured\": {{{}}}",
        count
            .iter()
            .filter(|(k, _)| !k.starts_with("space ") && !k.starts_with("ms ") && !k.starts_with("known\t"))
            .map(|(k, v)| format!("{}: {v}", esc(k)))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let s = format!(
        "{{\"property\": \"{}\", \"tier\": \"{tier}\", \"seed\": {seed}, \"level\": \"{}\", \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        prop.id,
        prop.level,
        prop.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violated as u8
    );
    let d = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&d);
    let _ = fs::write(d.join(format!("{}.json", prop.id)), s);
}

fn replay(reg: Registry, file: &str) -> i32 {
    let Ok(s) = fs::read_to_string(file) else {
        eprintln!("can't read {file}");
        return 2;
    };
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_else(|| {
            eprintln!("no {k} in {file}");
            std::process::exit(2)
        })
    };
    let prop = find(reg, get("property="));
    let spaces = (prop.spaces)(get("tier=") == "thorough");
    let sp = spaces.iter().find(|x| x.name == get("space=")).expect("no such space");
    let i: u64 = get("index=").parse().unwrap();
    install_panic_hook();
    let dir = PathBuf::from(format!("/tmp/mc-replay-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let mut cx = new_cx(&dir, get("tier=") == "thorough");
    println!("{} #{i} of '{}': {}", prop.id, sp.name, (sp.show)(i));
    let r = guard(|| (sp.run)(i, &mut cx)).unwrap_or_else(Err);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("it holds");
            0
        }
        Err(e) => {
            println!("{e}");
            println!("VIOLATION property={} replay={file}", prop.id);
            1
        }
    }
}
