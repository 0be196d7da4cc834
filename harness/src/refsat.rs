//! A reference SAT procedure: plain CDCL, without preprocessing, restarts with all learnt clauses
//! kept. It's cross-checked against truth tables at the start of every run.
pub fn sat(n: usize, f: &[Vec<i32>]) -> bool {
    solve(n, f).is_some()
}

fn ix(l: i32) -> usize {
    (l.unsigned_abs() as usize) * 2 + (l < 0) as usize
}

pub fn solve(n: usize, f: &[Vec<i32>]) -> Option<Vec<bool>> {
    let mut cls: Vec<Vec<i32>> = Vec::new();
    let mut watch: Vec<Vec<usize>> = vec![vec![]; 2 * n + 2];
    let mut val: Vec<i8> = vec![0; n + 1];
    let mut lev: Vec<usize> = vec![0; n + 1];
    let mut why: Vec<usize> = vec![usize::MAX; n + 1];
    let mut act: Vec<f64> = vec![0.0; n + 1];
    let mut ph: Vec<i8> = vec![-1; n + 1];
    let mut inc = 1.0;
    let mut trail: Vec<i32> = Vec::new();
    let mut lims: Vec<usize> = Vec::new();
    let mut q = 0;
    let v = |val: &Vec<i8>, l: i32| val[l.unsigned_abs() as usize] * l.signum() as i8;
    for c in f {
        let mut c = c.clone();
        c.sort();
        c.dedup();
        if c.iter().any(|l| c.contains(&-l)) {
            continue;
        }
        match c.len() {
            0 => return None,
            1 => match v(&val, c[0]) {
                0 => {
                    val[c[0].unsigned_abs() as usize] = c[0].signum() as i8;
                    trail.push(c[0]);
                }
                1 => (),
                _ => return None,
            },
            _ => {
                watch[ix(c[0])].push(cls.len());
                watch[ix(c[1])].push(cls.len());
                cls.push(c);
            }
        }
    }
    let mut confl_count = 0usize;
    let mut limit = 100usize;
    loop {
        // propagate
        let mut conflict = None;
        while q < trail.len() && conflict.is_none() {
            let p = -trail[q];
            q += 1;
            let mut ws = std::mem::take(&mut watch[ix(p)]);
            let mut i = 0;
            'w: while i < ws.len() {
                let ci = ws[i];
                let c = &mut cls[ci];
                if c[0] == p {
                    c.swap(0, 1);
                }
                if v(&val, c[0]) == 1 {
                    i += 1;
                    continue;
                }
                for k in 2..c.len() {
                    if v(&val, c[k]) != -1 {
                        c.swap(1, k);
                        watch[ix(c[1])].push(ci);
                        ws.swap_remove(i);
                        continue 'w;
                    }
                }
                if v(&val, c[0]) == -1 {
                    conflict = Some(ci);
                    break;
                }
                let l = c[0];
                let x = l.unsigned_abs() as usize;
                val[x] = l.signum() as i8;
                lev[x] = lims.len();
                why[x] = ci;
                trail.push(l);
                i += 1;
            }
            watch[ix(p)].append(&mut ws);
        }
        if let Some(mut ci) = conflict {
            if lims.is_empty() {
                return None;
            }
            confl_count += 1;
            let mut seen = vec![false; n + 1];
            let mut learnt = vec![0];
            let mut open = 0;
            let mut t = trail.len();
            let mut p = 0;
            loop {
                for &l in &cls[ci] {
                    let x = l.unsigned_abs() as usize;
                    if l != p && !seen[x] && lev[x] > 0 {
                        seen[x] = true;
                        act[x] += inc;
                        if lev[x] == lims.len() {
                            open += 1;
                        } else {
                            learnt.push(l);
                        }
                    }
                }
                loop {
                    t -= 1;
                    if seen[trail[t].unsigned_abs() as usize] {
                        break;
                    }
                }
                p = trail[t];
                open -= 1;
                if open == 0 {
                    break;
                }
                ci = why[p.unsigned_abs() as usize];
            }
            inc *= 1.05;
            if inc > 1e100 {
                act.iter_mut().for_each(|a| *a *= 1e-100);
                inc *= 1e-100;
            }
            learnt[0] = -p;
            let mut bl = 0;
            for i in 1..learnt.len() {
                let l = lev[learnt[i].unsigned_abs() as usize];
                if l > bl {
                    bl = l;
                    learnt.swap(1, i);
                }
            }
            if confl_count >= limit {
                limit = confl_count + 100 + confl_count / 10;
                bl = 0;
            }
            let mut asserting = true;
            while lims.len() > bl {
                let k = lims.pop().unwrap();
                for l in trail.drain(k..) {
                    let x = l.unsigned_abs() as usize;
                    ph[x] = l.signum() as i8;
                    val[x] = 0;
                }
            }
            q = trail.len();
            if learnt.len() > 1 {
                asserting = learnt[1..].iter().all(|l| v(&val, *l) == -1);
                watch[ix(learnt[0])].push(cls.len());
                watch[ix(learnt[1])].push(cls.len());
                cls.push(learnt.clone());
            }
            if asserting {
                let x = learnt[0].unsigned_abs() as usize;
                val[x] = learnt[0].signum() as i8;
                lev[x] = lims.len();
                why[x] = if learnt.len() > 1 { cls.len() - 1 } else { usize::MAX };
                trail.push(learnt[0]);
            }
            continue;
        }
        let mut best = 0;
        for x in 1..=n {
            if val[x] == 0 && (best == 0 || act[x] > act[best]) {
                best = x;
            }
        }
        if best == 0 {
            let m: Vec<bool> = (1..=n).map(|x| val[x] == 1).collect();
            assert!(f.iter().all(|c| c
                .iter()
                .any(|l| m[l.unsigned_abs() as usize - 1] == (*l > 0))));
            return Some(m);
        }
        lims.push(trail.len());
        val[best] = ph[best];
        lev[best] = lims.len();
        why[best] = usize::MAX;
        trail.push(best as i32 * ph[best] as i32);
    }
}

/// compare with truth tables
pub fn self_test() -> Result<(), String> {
    let all = crate::form::all_clauses(4, 3..=3);
    for idx in 0..crate::form::upto(32, 3) {
        let rm = crate::form::unrank_upto(32, idx);
        let f: Vec<Vec<i32>> = all
            .iter()
            .enumerate()
            .filter(|(i, _)| !rm.contains(i))
            .map(|(_, c)| c.clone())
            .collect();
        if sat(4, &f) != (crate::form::tt(&f) != 0) {
            return Err(format!("reference solver is wrong on {f:?}"));
        }
    }
    Ok(())
}
