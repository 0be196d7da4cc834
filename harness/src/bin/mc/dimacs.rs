//! C12: what a DIMACS file means.
use mc::{core::*, form::*, spaces::*};
use splr::*;
use std::{fs, path::Path, rc::Rc};

/// the reference reader
#[derive(Debug, PartialEq)]
enum Meaning {
    Formula(usize, Cnf),
    /// ill-formed, and the clauses before that point
    Bad(Cnf),
}

fn read(text: &str) -> Meaning {
    let mut n = None;
    let mut f: Cnf = Vec::new();
    let mut c: Cls = Vec::new();
    for line in text.split('\n') {
        let toks: Vec<&str> = line.split_ascii_whitespace().collect();
        let Some(n) = n else {
            if toks.len() >= 4
                && toks[..2] == ["p", "cnf"]
                && let (Ok(v), Ok(_)) = (toks[2].parse::<usize>(), toks[3].parse::<usize>())
            {
                n = Some(v);
            }
            continue;
        };
        if line.starts_with('c') {
            continue;
        }
        if line.starts_with('%') {
            break;
        }
        for t in toks {
            match t.parse::<i32>() {
                Ok(0) => f.push(std::mem::take(&mut c)),
                Ok(l) if l.unsigned_abs() as usize <= n => c.push(l),
                _ => return Meaning::Bad(f),
            }
        }
    }
    if !c.is_empty() {
        f.push(c);
    }
    match n {
        Some(n) => Meaning::Formula(n, f),
        None => Meaning::Bad(f),
    }
}

/// load a text, and find what was understood
fn loaded(text: &str, cx: &mut Cx) -> Result<(), String> {
    let path = cx.scratch.join("f.cnf");
    fs::write(&path, text).map_err(|e| format!("HARNESS: scratch: {e}"))?;
    compare(&path, &read(text), cx)
}

fn load(path: &Path) -> Result<Solver, SolverError> {
    Solver::try_from(path)
}

fn compare(path: &Path, want: &Meaning, cx: &mut Cx) -> Result<(), String> {
    cx.add("evaluations", 1);
    let r = load(path);
    let (n, f) = match want {
        Meaning::Bad(prefix) => {
            cx.add("ill-formed", 1);
            return match r {
                Ok(_) => Err("it is ill-formed, but it was accepted".into()),
                Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) if is_sat(prefix) => {
                    Err("it is ill-formed, but it was taken as unsatisfiable".into())
                }
                Err(_) => Ok(()),
            };
        }
        Meaning::Formula(n, f) => (*n, f),
    };
    cx.add("nontrivial", (f.len() > 1) as u64);
    let mut s = match r {
        Err(e) => {
            cx.add("contradictory", 1);
            return judge(f, n, &verdict(Err(e)), || is_sat(f));
        }
        Ok(s) => s,
    };
    // its set of models
    if n <= 4 && n > 0 {
        for m in 0..1u64 << n {
            let a: Vec<i32> = (0..n as i32).map(|v| if m >> v & 1 == 1 { v + 1 } else { -v - 1 }).collect();
            let want = satisfied(f, &a).is_none();
            let mut s = load(path).map_err(|e| format!("it was refused ({e:?}) when it was loaded again"))?;
            let got = s.inject_assignment(&a).is_ok() && s.validate().is_none();
            if want != got {
                return Err(format!("the loaded formula {} {a:?}", if got { "accepts" } else { "refuses" }));
            }
        }
        cx.add("sets of models compared", 1);
    }
    let v = verdict(s.solve());
    judge(f, n, &v, || is_sat(f))
}

fn tokens(name: &str, header: &'static str, toks: Vec<&'static str>, len: u32) -> Space {
    let k = toks.len() as u64;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let toks2 = toks.clone();
    let text = move |toks: &[&str], i: u64| {
        let mut i = i;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut s = String::from(header);
        for _ in 0..l {
            s.push_str(toks[(i % k) as usize]);
            i /= k;
        }
        s
    };
    let text2 = text;
    Space {
        name: format!("{name}.{len}"),
        rule: format!("{header:?} followed by all the strings of at most {len} tokens from {toks:?}"),
        size: total,
        run: Box::new(move |i, cx| {
            let t = text(&toks, i);
            cx.sample(|| format!("{t:?}"));
            loaded(&t, cx)
        }),
        show: Box::new(move |i| format!("{:?}", text2(&toks2, i))),
    }
}

/// ways of laying out a formula: header × separator × terminator × comments × end
const HEADS: [&str; 8] = [
    "p cnf {n} {m}\n",
    "c hello\nc p cnf is below\np cnf {n} {m}\n",
    "\n\np cnf {n} {m}\n",
    "p  cnf\t{n}   {m}  \n",
    "c\np cnf {n} {m}\r\n",
    "p cnf {n} {m}\n\n\n",
    "p cnf {n} {m}\nc 1 0\nc -1 0\n",
    "c -1 0\np cnf {n} {m} \nc\n",
];
const SEPS: [&str; 5] = [" ", "  ", "\t", "\n", " \n "];
const TERMS: [&str; 7] = ["0\n", "0 ", "0\r\n", "\n0\n", "0\n\n", "0\nc 1 0 %\n", "\nc x 1 -1 0\n0\n"];
const ENDS: [&str; 6] = ["", "%\n0\n", "%\n0\n\n", "c end", "\n\n \n", "\x1a!"];
const LEADS: [&str; 2] = ["", " "];

fn layout(f: &Cnf, n: usize, code: u64) -> (String, bool) {
    let mut c = code as usize;
    let mut pick = |l: usize| {
        let r = c % l;
        c /= l;
        r
    };
    let (h, s, t, e, l) = (HEADS[pick(8)], SEPS[pick(5)], TERMS[pick(7)], ENDS[pick(6)], LEADS[pick(2)]);
    let drop_last = pick(2) == 1;
    let mut out = h.replace("{n}", &n.to_string()).replace("{m}", &f.len().to_string());
    for cl in f {
        out += l;
        for x in cl {
            out += &x.to_string();
            out += s;
        }
        out += t;
    }
    if f.is_empty() {
        out += if e == "\x1a!" { "" } else { e };
    } else if drop_last {
        // neither the last newline nor blanks; or even no last '0'
        while out.ends_with(|c: char| c.is_ascii_whitespace()) {
            out.pop();
        }
    } else {
        if !e.is_empty() && !out.ends_with('\n') {
            out.push('\n');
        }
        if e == "\x1a!" {
            // nothing is appended, but the last '0' is removed if it's the very end
            while out.ends_with(|c: char| c.is_ascii_whitespace()) {
                out.pop();
            }
            if out.ends_with(" 0") || out.ends_with("\n0") {
                out.pop();
            }
        } else {
            out += e;
        }
    }
    let same = read(&out) == Meaning::Formula(n, f.clone());
    (out, same)
}

const LAYOUTS: u64 = 8 * 5 * 7 * 6 * 2 * 2;

fn layouts(f: FSpace, extra: usize) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*layouts{}", f.name, if extra > 0 { "+" } else { "" }),
        rule: format!(
            "{}; each in {LAYOUTS} layouts: 8 headers, 5 separators, 7 terminators, 6 ends, indented or not, last blanks cut or not",
            f.rule
        ),
        size: f.size * LAYOUTS,
        run: Box::new(move |i, cx| {
            let f = mk(i / LAYOUTS);
            let n = num_vars(&f) + extra;
            let (t, same) = layout(&f, n, i % LAYOUTS);
            if !same {
                // the reference reader and the writer of layouts don't agree: a defect of the harness
                return Err(format!("HARNESS: {t:?} isn't a layout of {}", show(&f)));
            }
            loaded(&t, cx)
        }),
        show: Box::new(move |i| {
            let f = mk2(i / LAYOUTS);
            format!("{:?}", layout(&f, num_vars(&f) + extra, i % LAYOUTS).0)
        }),
    }
}

fn formulas(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*file", f.name),
        rule: format!("{}; as a file and in memory", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            let n = num_vars(&f);
            let (t, _) = layout(&f, n, 0);
            loaded(&t, cx)?;
            // the same search is made
            let m = run(Config::default(), &f);
            let path = cx.scratch.join("f.cnf");
            let l = match load(&path) {
                Ok(mut s) => verdict(s.solve()),
                Err(e) => verdict(Err(e)),
            };
            if m.tag() != l.tag() {
                return Err(format!("the answer is {} in memory, and {} from a file", m.tag(), l.tag()));
            }
            Ok(())
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// headers, well-formed or not
fn headers() -> Space {
    let mut l: Vec<String> = vec![];
    let words = ["p", "cnf", "2", "3", "x", "-1", "99999999999999999999", "c", "%", "1", "0", "\n"];
    // all the strings of up to five words
    for len in 0..=5u32 {
        for code in 0..12u64.pow(len) {
            let mut c = code;
            let w: Vec<&str> = (0..len)
                .map(|_| {
                    let x = words[(c % 12) as usize];
                    c /= 12;
                    x
                })
                .collect();
            l.push(w.join(" ") + "\n1 -2 0\n2 0\n");
        }
    }
    let l = Rc::new(l);
    let l2 = l.clone();
    Space {
        name: "headers".into(),
        rule: "all the strings of up to five words p, cnf, numbers, junk, newline, followed by two clauses".into(),
        size: l.len() as u64,
        run: Box::new(move |i, cx| loaded(&l[i as usize], cx)),
        show: Box::new(move |i| format!("{:?}", l2[i as usize])),
    }
}

/// files that can't be read as texts, don't exist or are empty
fn unreadable() -> Space {
    let l: Vec<(&str, Option<Vec<u8>>)> = vec![
        ("no file", None),
        ("empty", Some(vec![])),
        ("not UTF-8 before the header", Some(b"c \xff\np cnf 1 1\n1 0\n".to_vec())),
        ("not UTF-8 after the header", Some(b"p cnf 1 1\n\xff 1 0\n".to_vec())),
        ("not UTF-8 at the end", Some(b"p cnf 1 2\n1 0\n-1 \xfe".to_vec())),
        ("only a header", Some(b"p cnf".to_vec())),
        ("NUL", Some(b"p cnf 1 1\n1\0 0\n".to_vec())),
    ];
    let l = Rc::new(l);
    let l2 = l.clone();
    Space {
        name: "unreadable".into(),
        rule: "files that don't exist, are empty or not UTF-8".into(),
        size: l.len() as u64,
        run: Box::new(move |i, cx| {
            cx.add("evaluations", 1);
            let (_, b) = &l[i as usize];
            let path = cx.scratch.join("g.cnf");
            let _ = fs::remove_file(&path);
            if let Some(b) = b {
                fs::write(&path, b).map_err(|e| format!("HARNESS: scratch: {e}"))?;
            }
            match load(&path) {
                Ok(_) => Err("it was accepted".into()),
                Err(_) => Ok(()),
            }
        }),
        show: Box::new(move |i| l2[i as usize].0.into()),
    }
}

fn c12(t: bool) -> Vec<Space> {
    let k = if t { 1 } else { 0 };
    let lay = || {
        list(
            "picked",
            "formulas with units, empty and wide clauses, repetitions",
            vec![
                vec![],
                vec![vec![1]],
                vec![vec![1, -2]],
                vec![vec![-1], vec![1, 2]],
                vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2]],
                vec![vec![1], vec![-1]],
                vec![vec![3, -2, 1], vec![-3], vec![2, 2, -1], vec![1, -1]],
                vec![(1..=12).collect(), vec![-12, -11], vec![10]],
            ],
        )
    };
    let mut v = vec![
        tokens("body", "p cnf 2 2\n", vec![" 1 ", " -1 ", " 2 ", " -2 ", " 0 ", "\n", "\nc 1 0\n", "\n%\n"], 6 + k),
        tokens("odd", "p cnf 2 2\n", vec!["1", "-", "0", " ", "\n", "3", "2 ", "x", "+", "c", "%", "\t"], 5 + k),
        tokens("bare", "", vec!["p cnf 1 1\n", "p cnf 2 1\n", "1 ", "-1 ", "0 ", "\n", "c ", "%", "2 "], 6 + k),
        headers(),
        unreadable(),
        layouts(lay(), 0),
        layouts(lay(), 2),
        formulas(subsets(3, 1..=3, 3 + 2 * k as u64)),
        formulas(subsets(4, 1..=4, 2 + k as u64)),
        formulas(families(false)),
        formulas(strided(20, &[80, 92], 20, 10)),
        formulas(shapes(100)),
    ];
    if t {
        v.push(layouts(subsets(2, 1..=2, 8), 1));
        v.push(formulas(families(true)));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        level: "exploration",
        rule: "each case is a text, different from the others by construction; non-trivial: it denotes a formula of two or more clauses",
        assumptions: &[
            "the reference reader: lines that begin with 'c' are comments, a line that begins with '%' ends the data, anything before a header is skipped, the number of clauses isn't checked, and the last clause may lack its 0",
        ],
        patience: 60,
        spaces: c12,
    }]
}
