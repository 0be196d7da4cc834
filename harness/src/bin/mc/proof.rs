//! C03: DRAT proofs.
use crate::solve::*;
use mc::{core::*, drat, form::*, spaces::*};
use splr::*;
use std::{fs, rc::Rc};

/// the rest of another file
pub const STALE: &[u8] = &[b'?'; 3000];

fn proved(e: bool, f: &Cnf, cx: &mut Cx) -> Result<(), String> {
    let path = cx.scratch.join("p.drat");
    // what was there before is no part of it
    fs::write(&path, STALE).map_err(|e| format!("HARNESS: {e}"))?;
    let cfg = Config {
        use_certification: true,
        io_odir: cx.scratch.clone(),
        io_pfile: "p.drat".into(),
        enable_eliminator: e,
        ..Config::default()
    };
    count_conflicts();
    cx.add("evaluations", 1);
    let mut saved = false;
    let unsat = match Solver::try_from((tuned(cfg), &f[..])) {
        Ok(mut s) => match s.solve() {
            Ok(Certificate::UNSAT) => {
                let _ = s.save_certification();
                saved = true;
                true
            }
            Ok(_) => false,
            Err(e) => return Err(format!("no answer but {e}")),
        },
        // The solver is gone. What it has written so far is checked.
        Err(v) => matches!(verdict(v), Verdict::Unsat),
    };
    if !unsat {
        return Ok(());
    }
    let c = conflicts_counted();
    let Ok(text) = fs::read_to_string(&path) else {
        return Err("UNSAT was answered, but the proof can't be read".into());
    };
    if saved && text.lines().last() != Some("0") {
        return Err(format!("the proof doesn't end with the empty clause but {:?}", text.lines().last()));
    }
    cx.add("proofs", 1);
    cx.add("nontrivial", (c > 0) as u64);
    let r = drat::check(f, &text).map_err(|e| {
        let shown: String = text.chars().take(1500).collect();
        format!("bad proof: {e}; proof: {}", shown.replace('\n', "; "))
    })?;
    cx.add("lemmas", r.lemmas);
    cx.add("deletions", r.deletions);
    cx.add("proofs longer than the buffer", (text.split_ascii_whitespace().count() as u64 > 65536) as u64);
    cx.add("RAT lemmas", r.rat);
    cx.add("deletions without effect", r.ignored);
    Ok(())
}

/// Proofs around the size of the writer's buffer (65536 numbers), and of some of them:
/// clauses that get shorter by units, and an unsatisfiable core that takes search.
fn long(ns: Vec<usize>) -> FSpace {
    const W: i32 = 15;
    let k = ns.len() as u64 * 2;
    FSpace {
        name: "long".into(),
        rule: format!("{ns:?} wide clauses that get shorter by a unit clause, and 4 or 5 pigeons in 3 or 4 holes"),
        size: k,
        make: Rc::new(move |i| {
            let h = 3 + (i % 2) as usize;
            let mut f = php(h + 1, h);
            let b = num_vars(&f) as i32;
            for j in 0..ns[i as usize / 2] as i32 {
                // all different: two of them share at most W - 1 vars, with other signs
                let mut c: Vec<i32> = (0..W).map(|x| (b + 2 + (j * 7 + x * 3) % 60) * if j >> (x % 13) & 1 == 1 { -1 } else { 1 }).collect();
                c.push(b + 1);
                f.push(c);
            }
            f.push(vec![-b - 1]);
            f
        }),
    }
}

fn c03(t: bool) -> Vec<Space> {
    let st = |f: FSpace| f.times("styles", STYLE_RULE, STYLES, style);
    let fs = if t {
        vec![
            st(subsets(3, 1..=3, 6)),
            subsets(3, 1..=3, 9),
            subsets(4, 2..=3, 5),
            st(dense(4, 3, 5)),
            dense(4, 3, 7),
            dense(5, 3, 4),
            dense(5, 4, 2),
            st(functions(4, false)),
            functions(4, true),
            families(true),
            wides(10, 30),
            wides(16, 20),
            seatings(4..=28, 4),
            st(shapes(100)),
            strided(8, &[34, 38, 44, 50], 200, 60),
            strided(20, &[86, 92, 100, 110], 200, 40),
            strided(50, &[213, 220, 230, 250], 60, 20),
            strided(100, &[425, 430, 440, 460], 20, 10),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            colorings(6, 2, true),
            tseitins(5),
            circulants(11, 7, 5),
            crowds(4),
            long((1000..3000).step_by(1).collect()),
        ]
    } else {
        vec![
            st(subsets(3, 1..=3, 5)),
            subsets(3, 2..=2, 12),
            st(dense(4, 3, 3)),
            dense(4, 3, 4),
            dense(5, 3, 2),
            dense(6, 3, 1),
            functions(4, false),
            functions(4, true),
            families(false),
            wides(10, 8),
            wides(16, 4),
            seatings(4..=20, 4),
            shapes(100),
            strided(8, &[34, 38, 44], 40, 40),
            strided(20, &[92, 100, 110], 40, 20),
            strided(50, &[220, 230, 250], 20, 10),
            strided(100, &[430, 440, 460], 10, 5),
            factors(5, 3, 1023),
            colorings(6, 3, true),
            colorings(6, 2, true),
            tseitins(5),
            circulants(11, 7, 5),
            crowds(1),
            long((1000..3000).step_by(100).collect()),
        ]
    };
    let check: Check = Rc::new(|f, cx| {
        for e in [true, false] {
            proved(e, f, cx).map_err(|m| format!("{m} (enable_eliminator={e})"))?;
        }
        Ok(())
    });
    let mut s = over(fs, check.clone());
    s.extend(in_processed(t, check));
    s
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        level: "exploration",
        rule: "each case is a formula solved with and without elimination, different from the others by construction; non-trivial: it was answered UNSAT after at least one conflict, so the proof isn't a matter of unit propagation",
        assumptions: &[
            "the proof checker of the harness: forward checking with drat-trim's reading of deletions (deleting a reason of a root-level literal, or an unknown clause, has no effect)",
        ],
        patience: 60,
        spaces: c03,
    }]
}
