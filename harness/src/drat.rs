//! A forward DRAT checker with the semantics of drat-trim's default mode: every added clause must
//! be RUP, or RAT on its first literal; deletions of reasons of root-level assignments and of
//! unknown clauses are ignored; the proof must end up with a conflict by unit propagation.
use crate::form::*;
use std::collections::HashMap;

#[derive(Default)]
struct Checker {
    cls: Vec<Vec<i32>>,
    alive: Vec<bool>,
    map: HashMap<Vec<i32>, Vec<usize>>,
    watch: Vec<Vec<usize>>,
    occ: Vec<Vec<usize>>,
    val: Vec<i8>,
    why: Vec<usize>,
    trail: Vec<i32>,
    q: usize,
    done: bool,
}

fn ix(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + (l < 0) as usize
}

impl Checker {
    fn grow(&mut self, c: &[i32]) {
        let n = num_vars(&[c.to_vec()]);
        if self.val.len() <= n {
            self.val.resize(n + 1, 0);
            self.why.resize(n + 1, usize::MAX);
            self.watch.resize(2 * n + 2, vec![]);
            self.occ.resize(2 * n + 2, vec![]);
        }
    }
    fn v(&self, l: i32) -> i8 {
        self.val[l.unsigned_abs() as usize] * l.signum() as i8
    }
    fn set(&mut self, l: i32, why: usize) {
        self.val[l.unsigned_abs() as usize] = l.signum() as i8;
        self.why[l.unsigned_abs() as usize] = why;
        self.trail.push(l);
    }
    fn add(&mut self, c: &[i32]) {
        self.grow(c);
        let mut c = c.to_vec();
        c.sort();
        c.dedup();
        if c.iter().any(|l| c.contains(&-l)) {
            return;
        }
        let id = self.cls.len();
        self.map.entry(c.clone()).or_default().push(id);
        for l in &c {
            self.occ[ix(*l)].push(id);
        }
        // non-false literals go first
        c.sort_by_key(|l| self.v(*l) == -1);
        let open = c.iter().filter(|l| self.v(**l) != -1).count();
        if c.len() > 1 {
            self.watch[ix(c[0])].push(id);
            self.watch[ix(c[1])].push(id);
        }
        let first = c.first().copied();
        self.cls.push(c);
        self.alive.push(true);
        if open == 0 {
            self.done = true;
        } else if open == 1 && self.v(first.unwrap()) == 0 {
            self.set(first.unwrap(), id);
            if self.propagate() {
                self.done = true;
            }
        }
    }
    /// returns true on conflict
    fn propagate(&mut self) -> bool {
        while self.q < self.trail.len() {
            let p = -self.trail[self.q];
            self.q += 1;
            let mut ws = std::mem::take(&mut self.watch[ix(p)]);
            let mut i = 0;
            let mut bad = false;
            'w: while i < ws.len() {
                let ci = ws[i];
                if !self.alive[ci] {
                    ws.swap_remove(i);
                    continue;
                }
                if self.cls[ci][0] == p {
                    self.cls[ci].swap(0, 1);
                }
                if self.v(self.cls[ci][0]) == 1 {
                    i += 1;
                    continue;
                }
                for k in 2..self.cls[ci].len() {
                    if self.v(self.cls[ci][k]) != -1 {
                        self.cls[ci].swap(1, k);
                        let l = self.cls[ci][1];
                        self.watch[ix(l)].push(ci);
                        ws.swap_remove(i);
                        continue 'w;
                    }
                }
                let l = self.cls[ci][0];
                if self.v(l) == -1 {
                    bad = true;
                    break;
                }
                self.set(l, ci);
                i += 1;
            }
            self.watch[ix(p)].append(&mut ws);
            if bad {
                return true;
            }
        }
        false
    }
    fn undo(&mut self, n: usize) {
        for l in self.trail.drain(n..) {
            self.val[l.unsigned_abs() as usize] = 0;
        }
        self.q = n;
    }
    /// assume the negation of these; returns true on conflict
    fn assume(&mut self, c: &[i32]) -> bool {
        for l in c {
            match self.v(*l) {
                1 => return true,
                0 => self.set(-l, usize::MAX),
                _ => (),
            }
        }
        self.propagate()
    }
    fn check(&mut self, c: &[i32]) -> Result<bool, String> {
        self.grow(c);
        if self.done {
            return Ok(false);
        }
        let base = self.trail.len();
        if self.assume(c) {
            self.undo(base);
            return Ok(false);
        }
        let Some(&p) = c.first() else {
            self.undo(base);
            return Err("the empty clause isn't implied by unit propagation".into());
        };
        let mid = self.trail.len();
        let ids: Vec<usize> = self.occ[ix(-p)].iter().copied().filter(|i| self.alive[*i]).collect();
        for i in ids {
            let d: Vec<i32> = self.cls[i].iter().copied().filter(|l| *l != -p).collect();
            let ok = self.assume(&d);
            self.undo(mid);
            if !ok {
                self.undo(base);
                return Err(format!("lemma {c:?} is neither RUP nor RAT on {p} (because of {:?})", self.cls[i]));
            }
        }
        self.undo(base);
        Ok(true)
    }
    /// returns true if something was deleted
    fn delete(&mut self, c: &[i32]) -> bool {
        self.grow(c);
        let mut k = c.to_vec();
        k.sort();
        k.dedup();
        let Some(ids) = self.map.get_mut(&k) else { return false };
        // prefer a copy that isn't a reason
        let pos = ids.iter().rposition(|id| {
            !self.cls[*id].iter().any(|l| {
                self.val[l.unsigned_abs() as usize] * l.signum() as i8 == 1
                    && self.why[l.unsigned_abs() as usize] == *id
            })
        });
        let Some(pos) = pos else { return false };
        let id = ids.remove(pos);
        if ids.is_empty() {
            self.map.remove(&k);
        }
        self.alive[id] = false;
        true
    }
}

#[derive(Debug, Default)]
pub struct Report {
    pub lemmas: u64,
    pub rat: u64,
    pub deletions: u64,
    pub ignored: u64,
}

pub fn check(f: &[Cls], proof: &str) -> Result<Report, String> {
    let mut ck = Checker::default();
    let mut r = Report::default();
    for c in f {
        ck.add(c);
    }
    let mut ended = false;
    for (no, line) in proof.lines().enumerate() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('c') {
            continue;
        }
        if ended {
            return Err(format!("proof line {}: something follows the empty clause: {line}", no + 1));
        }
        let (del, body) = match line.strip_prefix("d ") {
            Some(b) => (true, b),
            None => (false, line),
        };
        let mut c: Vec<i32> = Vec::new();
        let mut closed = false;
        for t in body.split_whitespace() {
            if closed {
                return Err(format!("proof line {}: something follows 0: {line}", no + 1));
            }
            match t.parse::<i32>() {
                Ok(0) => closed = true,
                Ok(l) => c.push(l),
                Err(_) => return Err(format!("proof line {}: syntax error: {line}", no + 1)),
            }
        }
        if !closed {
            return Err(format!("proof line {}: not terminated: {line}", no + 1));
        }
        if del {
            r.deletions += 1;
            if !ck.delete(&c) {
                r.ignored += 1;
            }
        } else {
            r.lemmas += 1;
            ended = c.is_empty();
            match ck.check(&c) {
                Ok(rat) => r.rat += rat as u64,
                Err(e) => return Err(format!("proof line {}: {e}", no + 1)),
            }
            ck.add(&c);
        }
    }
    if ck.done {
        Ok(r)
    } else {
        Err("the proof doesn't derive a conflict".into())
    }
}

pub fn self_test() -> Result<(), String> {
    let f = vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2]];
    let want = |p: &str, ok: bool| {
        if check(&f, p).is_ok() == ok {
            Ok(())
        } else {
            Err(format!("drat checker: {p:?} should be {ok}"))
        }
    };
    want("1 0\n0\n", true)?;
    want("0\n", false)?;
    want("", false)?;
    want("d 1 2 0\n1 0\n0\n", false)?;
    want("d 1 2 0\n2 0\n0\n", false)?;
    want("d 1 2 0\nd -1 2 0\n-2 0\n1 0\n0\n", false)?;
    want("1 0\nd -1 2 0\n0\n", true)?;
    want("1\n", false)?;
    // a definition is RAT
    let g = vec![vec![1, 2]];
    let ck = check(&g, "3 -1 0\n3 -2 0\n-3 1 2 0\n");
    if ck.as_ref().err().map(|s| s.as_str()) != Some("the proof doesn't derive a conflict") {
        return Err(format!("drat checker: a definition was rejected: {ck:?}"));
    }
    if check(&[vec![1, 2], vec![-1, 2]], "-2 0\n").is_ok_and(|_| true) {
        return Err("drat checker: a non-RAT was accepted".into());
    }
    Ok(())
}
