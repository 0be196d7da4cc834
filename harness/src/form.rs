//! Formulas: enumerated spaces, parametrised families, and the oracles (truth tables, DPLL).

pub type Cls = Vec<i32>;
pub type Cnf = Vec<Cls>;

/// binomial coefficient; saturates.
pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r: u128 = 1;
    for i in 0..k {
        r = r * (n - i) as u128 / (i + 1) as u128;
        if r > u64::MAX as u128 {
            return u64::MAX;
        }
    }
    r as u64
}

/// number of subsets of an n-set that have at most k elements.
pub fn upto(n: u64, k: u64) -> u64 {
    (0..=k).map(|i| binom(n, i)).sum()
}

/// the `idx`-th subset (by size, then lexicographically) with at most k elements.
pub fn unrank_upto(n: u64, mut idx: u64) -> Vec<usize> {
    let mut k = 0;
    while idx >= binom(n, k) {
        idx -= binom(n, k);
        k += 1;
    }
    unrank(n, k, idx)
}

pub fn unrank(n: u64, k: u64, mut idx: u64) -> Vec<usize> {
    let mut out = Vec::new();
    let mut x = 0;
    let mut left = k;
    while left > 0 {
        let c = binom(n - x - 1, left - 1);
        if idx < c {
            out.push(x as usize);
            left -= 1;
        } else {
            idx -= c;
        }
        x += 1;
    }
    out
}

/// all non-tautological, non-empty clauses over n vars, whose widths are in `w`.
pub fn all_clauses(n: usize, w: std::ops::RangeInclusive<usize>) -> Cnf {
    let mut out = Vec::new();
    for code in 1..3u64.pow(n as u32) {
        let mut c = code;
        let mut cl = Vec::new();
        for v in 1..=n as i32 {
            match c % 3 {
                1 => cl.push(v),
                2 => cl.push(-v),
                _ => (),
            }
            c /= 3;
        }
        if w.contains(&cl.len()) {
            out.push(cl);
        }
    }
    out.sort_by_key(|c| c.len());
    out
}

pub fn num_vars(f: &[Cls]) -> usize {
    f.iter().flatten().map(|l| l.unsigned_abs()).max().unwrap_or(0) as usize
}

const T: [u64; 6] = [
    0xAAAA_AAAA_AAAA_AAAA,
    0xCCCC_CCCC_CCCC_CCCC,
    0xF0F0_F0F0_F0F0_F0F0,
    0xFF00_FF00_FF00_FF00,
    0xFFFF_0000_FFFF_0000,
    0xFFFF_FFFF_0000_0000,
];

pub fn tt_lit(l: i32) -> u64 {
    let t = T[l.unsigned_abs() as usize - 1];
    if l > 0 { t } else { !t }
}

pub fn tt_clause(c: &[i32]) -> u64 {
    c.iter().fold(0, |a, l| a | tt_lit(*l))
}

/// the set of models as a bit vector; at most six vars.
pub fn tt(f: &[Cls]) -> u64 {
    f.iter().fold(!0, |a, c| a & tt_clause(c))
}

pub fn tt_mask(n: usize) -> u64 {
    if n >= 6 { !0 } else { (1u64 << (1 << n)) - 1 }
}

/// quantify var v existentially.
pub fn tt_exists(t: u64, v: usize) -> u64 {
    let m = T[v - 1];
    let s = 1 << (v - 1);
    let hi = t & m;
    let lo = t & !m;
    t | (hi >> s) | (lo << s)
}

pub fn satisfied(f: &[Cls], m: &[i32]) -> Option<usize> {
    f.iter().position(|c| {
        !c.iter()
            .any(|l| m.get(l.unsigned_abs() as usize - 1) == Some(l))
    })
}

/// Is it satisfiable? Truth table up to six vars, and the reference solver beyond.
pub fn is_sat(f: &[Cls]) -> bool {
    let n = num_vars(f);
    if f.iter().any(|c| c.is_empty()) {
        false
    } else if n <= 6 {
        tt(f) != 0
    } else {
        crate::refsat::sat(n, f)
    }
}

/// Models given by every permutation/sign? No: only the reading of a truth table as clauses.
pub fn maxterms(n: usize, t: u64) -> Cnf {
    (0..1u64 << n)
        .filter(|a| t >> a & 1 == 0)
        .map(|a| {
            (0..n)
                .map(|v| {
                    if a >> v & 1 == 1 {
                        -(v as i32 + 1)
                    } else {
                        v as i32 + 1
                    }
                })
                .collect()
        })
        .collect()
}

/// all the prime implicates of a function
pub fn primes(n: usize, t: u64) -> Cnf {
    let all = all_clauses(n, 1..=n);
    let m = tt_mask(n);
    let mut out: Cnf = Vec::new();
    for c in all {
        // `all` is sorted by length
        if t & !tt_clause(&c) & m == 0
            && !out.iter().any(|p| p.iter().all(|l| c.contains(l)))
        {
            out.push(c);
        }
    }
    out
}

pub fn show(f: &[Cls]) -> String {
    format!("{f:?}").replace(' ', "")
}

//
// families
//

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// `m` of the 3-clauses over n vars, picked by walking over the list of all of them with a stride
pub fn stride3(n: usize, m: usize, stride: u64, offset: u64) -> Cnf {
    let tri = binom(n as u64, 3);
    let total = tri * 8;
    let mut p = offset % total;
    let mut out = Vec::with_capacity(m);
    for _ in 0..m {
        let (t, s) = (p % tri, p / tri);
        let vs = unrank3(n as u64, t);
        out.push(
            vs.iter()
                .enumerate()
                .map(|(i, v)| {
                    let l = *v as i32 + 1;
                    if s >> i & 1 == 1 { -l } else { l }
                })
                .collect(),
        );
        p = (p + stride) % total;
    }
    out
}

fn unrank3(n: u64, mut t: u64) -> [u64; 3] {
    let mut a = 0;
    loop {
        let c = (n - a - 1) * (n - a - 2) / 2;
        if t < c {
            break;
        }
        t -= c;
        a += 1;
    }
    let mut b = a + 1;
    loop {
        let c = n - b - 1;
        if t < c {
            break;
        }
        t -= c;
        b += 1;
    }
    [a, b, b + 1 + t]
}

/// the strides that visit all the 3-clauses over n vars, spread over the whole range
pub fn strides(n: usize, count: usize) -> Vec<u64> {
    let total = binom(n as u64, 3) * 8;
    let step = (total / (count as u64 + 1)).max(1);
    let mut out = Vec::new();
    let mut s = step.max(2);
    while out.len() < count && s < total {
        let mut q = s;
        while q < total && gcd(q, total) != 1 {
            q += 1;
        }
        if q < total && !out.contains(&q) {
            out.push(q);
        }
        s += step;
    }
    out
}

/// pigeons × holes
pub fn php(p: usize, h: usize) -> Cnf {
    let v = |i: usize, j: usize| (i * h + j + 1) as i32;
    let mut f: Cnf = (0..p).map(|i| (0..h).map(|j| v(i, j)).collect()).collect();
    for j in 0..h {
        for a in 0..p {
            for b in a + 1..p {
                f.push(vec![-v(a, j), -v(b, j)]);
            }
        }
    }
    f
}

/// parity constraints on the edges of a graph
pub fn tseitin(nv: usize, edges: &[(usize, usize)], charge: u64) -> Cnf {
    let mut f = Vec::new();
    for v in 0..nv {
        let es: Vec<i32> = edges
            .iter()
            .enumerate()
            .filter(|(_, (a, b))| *a == v || *b == v)
            .map(|(i, _)| i as i32 + 1)
            .collect();
        xor(&mut f, &es, charge >> v & 1 == 1);
    }
    f
}

pub fn xor(f: &mut Cnf, vs: &[i32], odd: bool) {
    for a in 0..1u64 << vs.len() {
        // forbid the assignments of the wrong parity
        if (a.count_ones() % 2 == 1) != odd {
            f.push(
                vs.iter()
                    .enumerate()
                    .map(|(i, v)| if a >> i & 1 == 1 { -*v } else { *v })
                    .collect(),
            );
        }
    }
}

/// edges of a graph given by a bitmap over the pairs
pub fn graph(nv: usize, bits: u64) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    for a in 0..nv {
        for b in a + 1..nv {
            if bits >> i & 1 == 1 {
                out.push((a, b));
            }
            i += 1;
        }
    }
    out
}

pub fn coloring(nv: usize, k: usize, edges: &[(usize, usize)], amo: bool) -> Cnf {
    let x = |v: usize, c: usize| (v * k + c + 1) as i32;
    let mut f: Cnf = (0..nv).map(|v| (0..k).map(|c| x(v, c)).collect()).collect();
    if amo {
        for v in 0..nv {
            for a in 0..k {
                for b in a + 1..k {
                    f.push(vec![-x(v, a), -x(v, b)]);
                }
            }
        }
    }
    for (a, b) in edges {
        for c in 0..k {
            f.push(vec![-x(*a, c), -x(*b, c)]);
        }
    }
    f
}

/// no monochromatic arithmetic progression of length j (positive) or k (negative) in 1..=n
pub fn waerden(j: usize, k: usize, n: usize) -> Cnf {
    let mut f = Vec::new();
    for (len, sign) in [(j, 1), (k, -1)] {
        for a in 1..=n {
            for d in 1..n {
                if a + (len - 1) * d <= n {
                    f.push((0..len).map(|i| sign * (a + i * d) as i32).collect());
                }
            }
        }
    }
    f
}

/// Schur-like: x+y=z is not monochromatic
pub fn schur(n: usize) -> Cnf {
    let mut f = Vec::new();
    for x in 1..=n {
        for y in x..=n {
            if x + y <= n {
                let mut c = vec![x as i32, y as i32, (x + y) as i32];
                c.dedup();
                f.push(c.clone());
                f.push(c.iter().map(|l| -l).collect());
            }
        }
    }
    f
}

/// 2-colour the edges of K_n without monochromatic triangle
pub fn ramsey(n: usize, r: usize) -> Cnf {
    let e = |a: usize, b: usize| (a * n + b + 1) as i32;
    // renumber
    let mut ids = std::collections::HashMap::new();
    let mut id = |x: i32| {
        let k = ids.len() as i32 + 1;
        *ids.entry(x).or_insert(k)
    };
    let mut f = Vec::new();
    for s in 0..1u32 << n {
        if s.count_ones() as usize != r {
            continue;
        }
        let vs: Vec<usize> = (0..n).filter(|i| s >> i & 1 == 1).collect();
        let mut c = Vec::new();
        for (i, a) in vs.iter().enumerate() {
            for b in &vs[i + 1..] {
                c.push(id(e(*a, *b)));
            }
        }
        f.push(c.clone());
        f.push(c.iter().map(|l| -l).collect());
    }
    f
}

/// a cyclic 3-CNF: clauses (±i, ±(i+a), ±(i+b)) for all i; the signs are read from a word cyclically
pub fn circulant(n: usize, a: usize, b: usize, word: u32, wlen: usize, rounds: usize) -> Cnf {
    let mut f = Vec::new();
    let mut p = 0;
    for r in 0..rounds {
        for i in 0..n {
            let vs = [i, (i + a + r) % n, (i + b + 2 * r) % n];
            if vs[0] == vs[1] || vs[1] == vs[2] || vs[0] == vs[2] {
                continue;
            }
            f.push(
                vs.iter()
                    .map(|v| {
                        let s = word >> (p % wlen) & 1;
                        p += 1;
                        let l = *v as i32 + 1;
                        if s == 1 { -l } else { l }
                    })
                    .collect(),
            );
        }
    }
    f
}

pub fn queens(n: usize) -> Cnf {
    let x = |r: usize, c: usize| (r * n + c + 1) as i32;
    let mut f: Cnf = (0..n).map(|r| (0..n).map(|c| x(r, c)).collect()).collect();
    for r in 0..n {
        for c in 0..n {
            for r2 in r..n {
                for c2 in 0..n {
                    if (r2, c2) <= (r, c) {
                        continue;
                    }
                    if r == r2 || c == c2 || r2 - r == c.abs_diff(c2) {
                        f.push(vec![-x(r, c), -x(r2, c2)]);
                    }
                }
            }
        }
    }
    f
}

/// a*b = p as a CNF on an array multiplier (1 < a <= b)
pub fn factoring(bits: usize, p: u64) -> Cnf {
    let mut nv = 0;
    let mut f: Cnf = Vec::new();
    let new = |k: &mut i32| {
        *k += 1;
        *k
    };
    let a: Vec<i32> = (0..bits).map(|_| new(&mut nv)).collect();
    let b: Vec<i32> = (0..bits).map(|_| new(&mut nv)).collect();
    // columns of partial products
    let mut col: Vec<Vec<i32>> = vec![vec![]; 2 * bits + 1];
    for i in 0..bits {
        for j in 0..bits {
            let t = new(&mut nv);
            f.push(vec![-t, a[i]]);
            f.push(vec![-t, b[j]]);
            f.push(vec![t, -a[i], -b[j]]);
            col[i + j].push(t);
        }
    }
    for k in 0..2 * bits {
        while col[k].len() > 1 {
            if col[k].len() >= 3 {
                let (x, y, z) = {
                    let c = &mut col[k];
                    (c.remove(0), c.remove(0), c.remove(0))
                };
                let s = new(&mut nv);
                let c = new(&mut nv);
                xor(&mut f, &[x, y, z, s], false);
                for (p, q) in [(x, y), (y, z), (x, z)] {
                    f.push(vec![-p, -q, c]);
                    f.push(vec![p, q, -c]);
                }
                col[k].push(s);
                col[k + 1].push(c);
            } else {
                let (x, y) = {
                    let c = &mut col[k];
                    (c.remove(0), c.remove(0))
                };
                let s = new(&mut nv);
                let c = new(&mut nv);
                xor(&mut f, &[x, y, s], false);
                f.push(vec![-c, x]);
                f.push(vec![-c, y]);
                f.push(vec![c, -x, -y]);
                col[k].push(s);
                col[k + 1].push(c);
            }
        }
    }
    for (k, c) in col.iter().enumerate() {
        if let Some(t) = c.first() {
            f.push(vec![if p >> k & 1 == 1 { *t } else { -*t }]);
        } else if p >> k & 1 == 1 {
            f.push(vec![]);
        }
    }
    // 1 < a, 1 < b
    f.push(a[1..].to_vec());
    f.push(b[1..].to_vec());
    f
}

/// pebbling formula on a pyramid, with two vars per node
pub fn pebbling(h: usize) -> Cnf {
    let id = |r: usize, c: usize| r * (r + 1) / 2 + c;
    let v = |r: usize, c: usize, k: usize| (id(r, c) * 2 + k + 1) as i32;
    let mut f = Vec::new();
    for c in 0..h {
        f.push(vec![v(h - 1, c, 0), v(h - 1, c, 1)]);
    }
    for r in 0..h - 1 {
        for c in 0..=r {
            for p in 0..2 {
                for q in 0..2 {
                    f.push(vec![
                        -v(r + 1, c, p),
                        -v(r + 1, c + 1, q),
                        v(r, c, 0),
                        v(r, c, 1),
                    ]);
                }
            }
        }
    }
    f.push(vec![-v(0, 0, 0)]);
    f.push(vec![-v(0, 0, 1)]);
    f
}

/// linear ordering principle: a total order without a minimal element
pub fn ordering(n: usize) -> Cnf {
    let x = |i: usize, j: usize| {
        if i < j {
            (i * n + j + 1) as i32
        } else {
            -((j * n + i + 1) as i32)
        }
    };
    let mut f = Vec::new();
    for j in 0..n {
        f.push((0..n).filter(|i| *i != j).map(|i| x(i, j)).collect());
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                if i != j && j != k && i != k {
                    f.push(vec![-x(i, j), -x(j, k), x(i, k)]);
                }
            }
        }
    }
    compact(f)
}

pub fn compact(mut f: Cnf) -> Cnf {
    let mut ids = std::collections::BTreeMap::new();
    for c in &f {
        for l in c {
            let k = ids.len() as i32 + 1;
            ids.entry(l.abs()).or_insert(k);
        }
    }
    for c in &mut f {
        for l in c {
            *l = l.signum() * ids[&l.abs()];
        }
    }
    f
}

/// n guests on n seats; some pairs of choices clash, but never those where everybody takes the seat of his number
pub fn seating(n: usize, clashes: usize, seed: u64) -> Cnf {
    let n = n as i32;
    let mut x = seed.wrapping_mul(2).wrapping_add(1);
    let mut below = |k: i32| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) % k as u64) as i32
    };
    let v = |i: i32, j: i32| i * n + j + 1;
    let mut f: Cnf = vec![];
    for i in 0..n {
        let s = below(n);
        f.push((0..n).map(|j| v(i, (j + s) % n)).collect());
    }
    for j in 0..n {
        for a in 0..n {
            for b in 0..a {
                f.push(vec![-v(a, j), -v(b, j)]);
            }
        }
    }
    for _ in 0..clashes {
        let a = v(below(n), below(n));
        let b = v(below(n), below(n));
        if a != b && ((a - 1) % (n + 1) != 0 || (b - 1) % (n + 1) != 0) {
            f.push(vec![-a, -b]);
        }
    }
    f
}
