//! C17: the CNF type.
use mc::{core::*, form::*, spaces::*};
use splr::{cnf::*, *};
use std::{fs, rc::Rc};

/// the reference
#[derive(Clone, Default)]
struct Model {
    cls: Cnf,
}

fn key(c: &[i32]) -> Cls {
    let mut c = c.to_vec();
    c.sort_unstable();
    c
}

impl Model {
    fn has(&self, c: &[i32]) -> bool {
        self.cls.iter().any(|x| key(x) == key(c))
    }
    fn add(&mut self, c: &[i32]) -> Result<(), CNFOperationError> {
        if self.has(c) {
            return Err(CNFOperationError::AddingClauseExists);
        }
        if c.is_empty() {
            return Err(CNFOperationError::AddingEmptyClause);
        }
        self.cls.push(c.to_vec());
        Ok(())
    }
    fn from(v: &Cnf) -> Result<Model, CNFOperationError> {
        let mut m = Model::default();
        for c in v {
            if c.is_empty() {
                return Err(CNFOperationError::AddingEmptyClause);
            }
            if c.len() == 1 && m.cls.contains(&vec![-c[0]]) {
                return Err(CNFOperationError::AddignConflictingAssingment);
            }
            m.cls.push(c.clone());
        }
        Ok(m)
    }
    /// after a round through a file, where the first of the same clauses is left
    fn reload(&mut self) {
        let mut m = Model::default();
        for c in &self.cls {
            let _ = m.add(c);
        }
        *self = m;
    }
    fn vars(&self) -> usize {
        num_vars(&self.cls)
    }
}

fn parse(text: &str) -> Result<(usize, usize, Cnf), String> {
    let mut it = text.lines();
    let h: Vec<&str> = it.next().ok_or("no header")?.split(' ').collect();
    let ["p", "cnf", n, m] = h[..] else {
        return Err(format!("the header is {h:?}"));
    };
    let mut f: Cnf = vec![];
    let mut c: Cls = vec![];
    for l in it {
        for t in l.split_ascii_whitespace() {
            match t.parse::<i32>().map_err(|_| format!("{t:?} in the text"))? {
                0 => f.push(std::mem::take(&mut c)),
                x => c.push(x),
            }
        }
    }
    if !c.is_empty() {
        return Err("the last clause has no end".into());
    }
    let p = |s: &str| s.parse::<usize>().map_err(|_| format!("{s:?} in the header"));
    Ok((p(n)?, p(m)?, f))
}

/// everything that can be seen of it
fn same(c: &CNF, m: &Model) -> Result<(), String> {
    if c.num_clauses() != m.cls.len() {
        return Err(format!("it has {} clauses instead of {}", c.num_clauses(), m.cls.len()));
    }
    if c.num_vars() as usize != m.vars() {
        return Err(format!("it has {} vars instead of {}", c.num_vars(), m.vars()));
    }
    let text = c.dump_to_string();
    let (n, k, f) = parse(&text)?;
    if n != m.vars() || k != m.cls.len() || f != m.cls {
        return Err(format!("the text is {text:?} for {}", show(&m.cls)));
    }
    Ok(())
}

/// through files, to itself and to the solver
fn round(c: &CNF, m: &Model, cx: &mut Cx) -> Result<CNF, String> {
    let path = cx.scratch.join("c.cnf");
    let _ = fs::remove_file(&path);
    c.save(&path).map_err(|e| format!("it can't be saved: {e:?}"))?;
    let text = fs::read_to_string(&path).map_err(|e| format!("the saved file: {e}"))?;
    if text != c.dump_to_string() {
        return Err("the saved file isn't the text".into());
    }
    let l = CNF::load(&path).map_err(|e| format!("the saved file isn't loaded: {e:?}; {text:?}"))?;
    let mut r = m.clone();
    r.reload();
    same(&l, &r).map_err(|e| format!("loaded: {e}"))?;
    // the solver understands the same
    let n = m.vars();
    let v = match Solver::try_from(path.as_path()) {
        Ok(mut s) => verdict(s.solve()),
        Err(e) => verdict(Err(e)),
    };
    judge(&m.cls, n, &v, || is_sat(&m.cls)).map_err(|e| format!("solved from the saved file: {e}"))?;
    Ok(l)
}

#[derive(Clone, Debug)]
enum Op {
    Add(Cls),
    Reload,
    From(Cnf),
}

fn history(ops: &[&Op], cx: &mut Cx) -> Result<(), String> {
    cx.add("evaluations", 1);
    let mut c = CNF::default();
    let mut m = Model::default();
    for (i, o) in ops.iter().enumerate() {
        let at = |e: String| format!("operation {i} ({o:?}): {e}");
        match o {
            Op::Add(x) => {
                let want = m.add(x);
                let got = c.add_clause(x).map(|_| ());
                if got != want {
                    return Err(at(format!("it returned {got:?} instead of {want:?}")));
                }
                cx.add(if want.is_ok() { "added" } else { "refused" }, 1);
            }
            Op::Reload => {
                c = round(&c, &m, cx).map_err(at)?;
                m.reload();
                cx.add("reloads", 1);
            }
            Op::From(v) => match (CNF::from_vec_i32(v), Model::from(v)) {
                (Ok(x), Ok(y)) => {
                    c = x;
                    m = y;
                }
                (Err(x), Err(y)) if x == y => cx.add("refused", 1),
                (x, y) => {
                    return Err(at(format!("it returned {:?} instead of {:?}", x.map(|_| ()), y.map(|_| ()))));
                }
            },
        }
        same(&c, &m).map_err(at)?;
    }
    cx.add("nontrivial", (m.cls.len() > 1) as u64);
    round(&c, &m, cx).map(|_| ()).map_err(|e| format!("at the end: {e}"))
}

fn histories(name: &str, ops: Vec<Op>, len: u32) -> Space {
    let k = ops.len() as u64;
    let total: u64 = (0..=len).map(|l| k.pow(l)).sum();
    let ops = Rc::new(ops);
    fn unrank(ops: &[Op], mut i: u64) -> Vec<&Op> {
        let k = ops.len() as u64;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        (0..l)
            .map(|_| {
                let o = &ops[(i % k) as usize];
                i /= k;
                o
            })
            .collect()
    }
    let o2 = ops.clone();
    Space {
        name: format!("{name}.{len}"),
        rule: format!("all sequences of at most {len} operations of {ops:?}"),
        size: total,
        run: Box::new(move |i, cx| history(&unrank(&ops, i), cx)),
        show: Box::new(move |i| format!("{:?}", unrank(&o2, i))),
    }
}

/// formulas at once, and clause by clause
fn whole(f: FSpace) -> Space {
    let (mk, mk2) = (f.make.clone(), f.make.clone());
    Space {
        name: format!("{}*both", f.name),
        rule: format!("{}; by from_vec_i32, that and its clauses again in two other orders, and by add_clause", f.rule),
        size: f.size,
        run: Box::new(move |i, cx| {
            let f = mk(i);
            history(&[&Op::From(f.clone()), &Op::Reload], cx)?;
            // its clauses again, in another order, are known to it
            let mut ops = vec![Op::From(f.clone())];
            ops.extend(f.iter().map(|c| Op::Add(c.iter().rev().copied().collect())));
            ops.extend(f.iter().filter(|c| c.len() > 2).map(|c| Op::Add(c[1..].iter().chain(&c[..1]).copied().collect())));
            history(&ops.iter().collect::<Vec<_>>(), cx)?;
            let ops: Vec<Op> = f.iter().map(|c| Op::Add(c.clone())).collect();
            history(&ops.iter().collect::<Vec<_>>(), cx)
        }),
        show: Box::new(move |i| show(&mk2(i))),
    }
}

/// more clauses than are checked for uniqueness
fn many() -> Space {
    Space {
        name: "many".into(),
        rule: "files of 99999 to 100002 different clauses, loaded and dumped".into(),
        size: 4,
        run: Box::new(|i, cx| {
            cx.add("evaluations", 1);
            let k = 99_999 + i as usize;
            // differences of two numbers in 1..=448
            let mut f: Cnf = Vec::with_capacity(k);
            'done: for a in 1..=448 {
                for b in a + 1..=448 {
                    if f.len() == k {
                        break 'done;
                    }
                    f.push(vec![-a, b]);
                }
            }
            // the uniqueness is checked by a linear scan up to the limit: quadratic. So take it only beyond.
            if k <= 100_000 {
                f.truncate(2_000);
            }
            let mut text = format!("p cnf {} {}\n", num_vars(&f), f.len());
            for c in &f {
                text += &format!("{} {} 0\n", c[0], c[1]);
            }
            let path = cx.scratch.join("m.cnf");
            fs::write(&path, &text).map_err(|e| format!("HARNESS: scratch: {e}"))?;
            let c = CNF::load(&path).map_err(|e| format!("it isn't loaded: {e:?}"))?;
            if c.num_clauses() != f.len() || c.dump_to_string() != text {
                return Err(format!("{} clauses are left of {}, or the text differs", c.num_clauses(), f.len()));
            }
            Ok(())
        }),
        show: Box::new(|i| format!("{} clauses", 99_999 + i)),
    }
}

/// additions around the number of clauses beyond which uniqueness isn't checked
fn brink(len: u32) -> Space {
    const LIMIT: usize = 100_000;
    // a new one, the same in another order, units, one of the first, one of the last, an empty one
    let adds: Vec<Cls> = vec![vec![-900, 901, 7], vec![7, 901, -900], vec![902], vec![-1, 2], vec![2, -1], vec![-903, 903], vec![]];
    let k = adds.len() as u64;
    let per: u64 = (0..=len).map(|l| k.pow(l)).sum();
    fn unrank(adds: &[Cls], mut i: u64) -> Vec<Cls> {
        let k = adds.len() as u64;
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        (0..l)
            .map(|_| {
                let c = adds[(i % k) as usize].clone();
                i /= k;
                c
            })
            .collect()
    }
    let a2 = adds.clone();
    Space {
        name: format!("brink.{len}"),
        rule: format!("99998 to 100001 clauses (some of them twice) at once, then all sequences of at most {len} additions of {adds:?}; saved, and loaded if it is beyond the limit of checked uniqueness"),
        size: 4 * per,
        run: Box::new(move |i, cx| {
            cx.add("evaluations", 1);
            cx.add("nontrivial", 1);
            let n = LIMIT - 2 + (i / per) as usize;
            let mut f: Cnf = Vec::with_capacity(n + 8);
            'done: for a in 1..=448 {
                for b in a + 1..=448 {
                    f.push(vec![-a, b]);
                    if b % 100 == 0 {
                        f.push(vec![-a, b]);
                    }
                    if f.len() >= n - 1 {
                        break 'done;
                    }
                }
            }
            f.truncate(n - 1);
            f.push(f[0].clone());
            let mut c = CNF::from_vec_i32(&f).map_err(|e| format!("it is refused: {e:?}"))?;
            for x in unrank(&adds, i % per) {
                let had = f.iter().any(|y| key(y) == key(&x));
                let checked = f.len() <= LIMIT;
                match c.add_clause(&x) {
                    Ok(_) if !x.is_empty() && !(had && checked) => f.push(x),
                    Err(CNFOperationError::AddingClauseExists) if had => (),
                    Err(CNFOperationError::AddingEmptyClause) if x.is_empty() => (),
                    r => return Err(format!("{x:?} added to {} clauses: {:?}", f.len(), r.map(|_| ()))),
                }
                if c.num_clauses() != f.len() || c.num_vars() as usize != num_vars(&f) {
                    return Err(format!("{} clauses and {} vars after the addition of the clause {}", c.num_clauses(), c.num_vars(), f.len()));
                }
            }
            let text = c.dump_to_string();
            let (v, m, g) = parse(&text)?;
            if v != num_vars(&f) || m != f.len() || g != f {
                return Err(format!("the text of {} clauses differs", f.len()));
            }
            let path = cx.scratch.join("b.cnf");
            c.save(&path).map_err(|e| format!("it can't be saved: {e:?}"))?;
            if fs::read_to_string(&path).ok().as_deref() != Some(&text) {
                return Err("the saved file isn't the text".into());
            }
            // up to the limit, uniqueness is checked by a linear scan
            if f.len() > LIMIT {
                let c = CNF::load(&path).map_err(|e| format!("it isn't loaded: {e:?}"))?;
                if c.dump_to_string() != text {
                    return Err("the loaded file differs".into());
                }
            }
            Ok(())
        }),
        show: Box::new(move |i| format!("{} clauses, then {:?}", LIMIT - 2 + (i / per) as usize, unrank(&a2, i % per))),
    }
}

fn c17(t: bool) -> Vec<Space> {
    let k = t as u32;
    let adds = |l: &[&[i32]]| l.iter().map(|c| Op::Add(c.to_vec())).collect::<Vec<_>>();
    let mut a = adds(&[&[1], &[-1], &[2], &[1, 2], &[2, 1], &[-2, 3, 1], &[1, 1], &[], &[-3, 3], &[3, 1, -2]]);
    a.push(Op::Reload);
    a.push(Op::From(vec![vec![1], vec![-2, 1], vec![1, -2], vec![1]]));
    let mut b = adds(&[&[5], &[1, 2], &[2, 1], &[-5, 9]]);
    b.push(Op::Reload);
    b.push(Op::From(vec![]));
    b.push(Op::From(vec![vec![3, 1], vec![-2], vec![7, -1, 4]]));
    b.push(Op::From(vec![vec![1], vec![2, 3], vec![-1]]));
    b.push(Op::From(vec![vec![1], vec![]]));
    vec![
        histories("mixed", a, 5 + k),
        histories("restarts", b, 5 + k),
        whole(subsets(2, 1..=2, 8).times("styles", STYLE_RULE, STYLES, style)),
        whole(subsets(3, 1..=3, 3 + t as u64)),
        whole(strided(20, &[20, 80], 10, 5)),
        whole(shapes(100)),
        whole(families(t)),
        many(),
        brink(2 + k),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        level: "exploration",
        rule: "each case is a history of operations or a formula, different from the others by construction; non-trivial: it ends with two or more clauses",
        assumptions: &[
            "literals aren't 0",
            "add_clause and load keep the first of clauses with the same literals, and from_vec_i32 keeps all",
            "a formula with an empty clause or contradicting units is refused by from_vec_i32",
        ],
        patience: 60,
        spaces: c17,
    }]
}
