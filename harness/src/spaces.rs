//! The enumerated sets of formulas.
use crate::form::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct FSpace {
    pub name: String,
    pub rule: String,
    pub size: u64,
    pub make: Rc<dyn Fn(u64) -> Cnf>,
}

pub fn fs(name: impl Into<String>, rule: impl Into<String>, size: u64, make: impl Fn(u64) -> Cnf + 'static) -> FSpace {
    FSpace { name: name.into(), rule: rule.into(), size, make: Rc::new(make) }
}

/// all sets of at most k clauses over n vars
pub fn subsets(n: usize, w: std::ops::RangeInclusive<usize>, k: u64) -> FSpace {
    let all = all_clauses(n, w.clone());
    let m = all.len() as u64;
    fs(
        format!("sub{n}.{}-{}.{k}", w.start(), w.end()),
        format!("all sets of at most {k} of the {m} clauses over {n} vars of {} to {} literals", w.start(), w.end()),
        upto(m, k),
        move |i| unrank_upto(m, i).into_iter().map(|j| all[j].clone()).collect(),
    )
}

/// all subsets (bitmaps) of a list of clauses
pub fn powerset(n: usize, w: std::ops::RangeInclusive<usize>) -> FSpace {
    let all = all_clauses(n, w.clone());
    let m = all.len();
    fs(
        format!("pow{n}.{}-{}", w.start(), w.end()),
        format!("all the 2^{m} sets of clauses over {n} vars of {} to {} literals", w.start(), w.end()),
        1 << m,
        move |i| (0..m).filter(|j| i >> j & 1 == 1).map(|j| all[j].clone()).collect(),
    )
}

/// all the clauses of a width but at most k of them
pub fn dense(n: usize, w: usize, k: u64) -> FSpace {
    let all = all_clauses(n, w..=w);
    let m = all.len() as u64;
    fs(
        format!("dense{n}.{w}.{k}"),
        format!("all the {m} {w}-clauses over {n} vars but at most {k} of them"),
        upto(m, k),
        move |i| {
            let rm = unrank_upto(m, i);
            (0..m as usize).filter(|j| !rm.contains(j)).map(|j| all[j].clone()).collect()
        },
    )
}

/// canonical CNFs of all the functions
pub fn functions(n: usize, prime: bool) -> FSpace {
    fs(
        format!("{}{n}", if prime { "primes" } else { "maxterms" }),
        format!(
            "the {} of each of the boolean functions of {n} vars",
            if prime { "prime implicates" } else { "maxterms" }
        ),
        1 << (1u64 << n),
        move |i| if prime { primes(n, i) } else { maxterms(n, i) },
    )
}

/// walks over the list of all 3-clauses
pub fn strided(n: usize, ms: &[usize], ns: usize, no: u64) -> FSpace {
    let ss = strides(n, ns);
    let ms = ms.to_vec();
    let size = ms.len() as u64 * ss.len() as u64 * no;
    let total = binom(n as u64, 3) * 8;
    fs(
        format!("stride{n}.{}-{}.{ns}.{no}", ms[0], ms[ms.len() - 1]),
        format!("{ms:?} of the 3-clauses over {n} vars, by {} strides from {no} offsets", ss.len()),
        size,
        move |i| {
            let m = ms[i as usize % ms.len()];
            let i = i / ms.len() as u64;
            let s = ss[i as usize % ss.len()];
            let o = i / ss.len() as u64;
            stride3(n, m, s, o * (total / no))
        },
    )
}

pub fn list(name: &str, rule: &str, l: Vec<Cnf>) -> FSpace {
    fs(name, rule, l.len() as u64, move |i| l[i as usize].clone())
}

fn problems(big: bool) -> Vec<Cnf> {
    let mut l: Vec<Cnf> = Vec::new();
    for h in 1..=(if big { 7 } else { 6 }) {
        for p in 1..=h + 1 {
            l.push(php(p, h));
        }
    }
    for (j, k, lo, hi) in [(3, 3, 3, 12), (3, 4, 4, 20), (3, 5, 5, 24), (4, 4, 30, 37)] {
        for n in lo..=hi {
            l.push(waerden(j, k, n));
        }
    }
    for n in 2..=24 {
        l.push(schur(n));
    }
    for n in 3..=7 {
        l.push(ramsey(n, 3));
    }
    for n in 4..=9 {
        l.push(ramsey(n, 4));
    }
    for n in 1..=9 {
        l.push(queens(n));
    }
    for n in 3..=(if big { 8 } else { 7 }) {
        l.push(ordering(n));
    }
    for h in 2..=12 {
        l.push(pebbling(h));
    }
    for n in 3..=12usize {
        // cycles, wheels and grids with even and odd charges
        for ch in [1, 3, 7] {
            let mut e: Vec<(usize, usize)> = (0..n).map(|i| (i, (i + 1) % n)).collect();
            l.push(tseitin(n, &e, ch));
            e.extend((0..n).map(|i| (i, n)));
            if n <= 6 {
                l.push(tseitin(n + 1, &e, ch));
            }
            let p: Vec<(usize, usize)> = (0..n)
                .flat_map(|i| [(i, (i + 1) % n), (i, i + n), (i + n, (i + 1) % n + n)])
                .collect();
            l.push(tseitin(2 * n, &p, ch));
        }
    }
    l
}

/// structured problems
pub fn families(big: bool) -> FSpace {
    let l = problems(big);
    list("families", "pigeon holes, van der Waerden, Schur, Ramsey, queens, ordering, pebbling, Tseitin formulas", l)
}

/// the ones of them with few vars
pub fn families_within(vars: usize) -> FSpace {
    let l = problems(false).into_iter().filter(|f| num_vars(f) <= vars).collect();
    list(
        &format!("families{vars}"),
        &format!("the pigeon holes, van der Waerden, Schur, Ramsey, queens, ordering, pebbling, Tseitin formulas with at most {vars} vars"),
        l,
    )
}

pub fn factors(bits: usize, lo: u64, hi: u64) -> FSpace {
    fs(
        format!("factor{bits}"),
        format!("p = a*b (1<a, 1<b, {bits} bits each) for each p in {lo}..{hi}"),
        hi - lo,
        move |i| factoring(bits, lo + i),
    )
}

pub fn colorings(nv: usize, k: usize, amo: bool) -> FSpace {
    fs(
        format!("color{nv}.{k}{}", if amo { ".amo" } else { "" }),
        format!("{k}-colouring of each graph on {nv} vertices"),
        1 << (nv * (nv - 1) / 2),
        move |i| coloring(nv, k, &graph(nv, i), amo),
    )
}

pub fn tseitins(nv: usize) -> FSpace {
    let ne = nv * (nv - 1) / 2;
    fs(
        format!("tseitin{nv}"),
        format!("Tseitin formulas of each graph on {nv} vertices with even and odd charges"),
        2 << ne,
        move |i| tseitin(nv, &graph(nv, i >> 1), 1 + 2 * (i & 1)),
    )
}

pub fn circulants(n: usize, wlen: usize, rounds: usize) -> FSpace {
    let pairs: Vec<(usize, usize)> = (1..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    let np = pairs.len() as u64;
    fs(
        format!("circ{n}.{wlen}.{rounds}"),
        format!("{rounds} rounds of cyclic 3-clauses over {n} vars: all distances, all sign words of {wlen} bits"),
        np << wlen,
        move |i| {
            let (a, b) = pairs[(i % np) as usize];
            circulant(n, a, b, (i / np) as u32, wlen, rounds)
        },
    )
}

impl FSpace {
    /// the same formulas, written in another way
    pub fn map(self, tag: &str, rule: &str, f: impl Fn(Cnf, u64) -> Cnf + 'static) -> FSpace {
        let mk = self.make;
        fs(
            format!("{}:{tag}", self.name),
            format!("{}; {rule}", self.rule),
            self.size,
            move |i| f(mk(i), i),
        )
    }
    /// each formula in each of k ways
    pub fn times(self, tag: &str, rule: &str, k: u64, f: impl Fn(Cnf, u64) -> Cnf + 'static) -> FSpace {
        let mk = self.make;
        fs(
            format!("{}:{tag}", self.name),
            format!("{}; {rule}", self.rule),
            self.size * k,
            move |i| f(mk(i / k), i % k),
        )
    }
}

fn map_vars(f: Cnf, g: impl Fn(i32) -> i32) -> Cnf {
    f.into_iter()
        .map(|c| c.into_iter().map(|l| g(l.abs()) * l.signum()).collect())
        .collect()
}

/// ways of writing a formula that don't change what it means (up to the names of vars)
pub const STYLES: u64 = 8;
pub const STYLE_RULE: &str = "each in 8 styles: plain, gaps between vars, the vars reversed, literals repeated, \
    tautologies and supersets added, all the clauses repeated in the reverse order, an unused last var, \
    all the signs flipped";

pub fn style(mut f: Cnf, k: u64) -> Cnf {
    let n = num_vars(&f) as i32;
    match k {
        0 => f,
        1 => map_vars(f, |v| 2 * v),
        2 => map_vars(f, |v| n + 1 - v),
        3 => {
            for c in f.iter_mut() {
                let d = c.clone();
                c.extend(d.iter().rev());
            }
            f
        }
        4 => {
            let g = f.clone();
            f.push(vec![1, -1]);
            for (i, c) in g.into_iter().enumerate() {
                let mut d = c.clone();
                d.extend([n.max(1), 1]);
                if i % 2 == 0 { f.insert(0, d) } else { f.push(d) }
                let mut e = c;
                e.extend([n.max(1), -n.max(1)]);
                f.push(e);
            }
            f
        }
        5 => {
            let mut g = f.clone();
            g.reverse();
            for c in g.iter_mut() {
                c.reverse();
            }
            f.extend(g);
            f
        }
        6 => {
            f.push(vec![n + 2, -n - 2]);
            f
        }
        _ => f.into_iter().map(|c| c.into_iter().map(|l| -l).collect()).collect(),
    }
}

/// implication chains, wide clauses and other shapes whose size is the parameter
pub fn shapes(max: usize) -> FSpace {
    const K: u64 = 10;
    fs(
        format!("shapes{max}"),
        format!("chains, cycles, stars, wide clauses, ladders of xor, of each length up to {max}"),
        max as u64 * K,
        move |i| {
            let n = (i / K) as i32 + 1;
            let mut f: Cnf = Vec::new();
            match i % K {
                // a wide clause alone
                0 => f.push((1..=n).collect()),
                // a wide clause and the units against all of its literals but one
                1 => {
                    f.push((1..=n).collect());
                    f.extend((1..n).map(|v| vec![-v]));
                }
                // ... against all of them, by binary clauses
                2 => {
                    f.push((1..=n).collect());
                    f.extend((1..=n).map(|v| vec![-v, n + 1]));
                    f.extend((1..=n).map(|v| vec![-v, -n - 1]));
                }
                // a cycle of implications
                3 => f.extend((1..=n).map(|v| vec![-v, v % n + 1])),
                // a cycle through the negation
                4 => {
                    f.extend((1..n).map(|v| vec![-v, v + 1]));
                    f.push(vec![-n, -1]);
                    f.push(vec![1, n]);
                }
                // a contradictory cycle
                5 => {
                    f.extend((1..n).map(|v| vec![-v, v + 1]));
                    f.extend([vec![-n, -1], vec![1, n + 1], vec![1, -n - 1]]);
                }
                // a chain of xor, ending with a contradiction or not
                6 | 7 => {
                    for v in 1..n {
                        xor(&mut f, &[v, v + 1], true);
                    }
                    f.push(vec![1, n]);
                    if i % K == 7 {
                        f.push(vec![-1, -n]);
                    }
                }
                // a ladder of 3-xor
                8 => {
                    for v in 1..=n {
                        xor(&mut f, &[v, v + 1, v + 2], v % 2 == 0);
                    }
                }
                // a star: x <-> (and of all the others), and none of them
                _ => {
                    let mut c = vec![1];
                    for v in 2..=n + 1 {
                        f.push(vec![-1, v]);
                        c.push(-v);
                    }
                    f.push(c);
                    f.push((2..=n + 1).map(|v| -v).collect());
                }
            }
            f
        },
    )
}

/// clauses as wide as the given widths, around which the counters of the solver might end
pub fn giants(widths: &[i32]) -> FSpace {
    const K: u64 = 6;
    let w = widths.to_vec();
    fs(
        format!("giants{}", widths.len()),
        format!("wide clauses (alone, with units, by binary clauses, implied, with a hub that falsifies all but a few) of the widths {widths:?}"),
        w.len() as u64 * K,
        move |i| {
            let n = w[(i / K) as usize];
            match i % K {
                k @ 0..=2 => (shapes(n as usize).make)((n as u64 - 1) * 10 + k),
                3 => (shapes(n as usize).make)((n as u64 - 2) * 10 + 9),
                k => {
                    // 1 falsifies all but the last of a wide clause, and is forced after a conflict
                    let mut f: Cnf = (2..=n).map(|v| vec![-1, -v]).collect();
                    f.push((2..=n + 1).collect());
                    if k == 5 {
                        // the last ones contradict each other
                        f.push(vec![-n - 1, n + 2]);
                        f.push(vec![-n - 1, -n - 2]);
                    }
                    for s in [[1, 1], [1, -1], [-1, 1], [-1, -1]] {
                        f.push(vec![1, s[0] * (n + 3), s[1] * (n + 4)]);
                    }
                    f
                }
            }
        },
    )
}

/// clauses, also wide ones, in which a literal stands twice or with its negation
pub fn messy(widths: &[i32], per: u64) -> FSpace {
    const K: u64 = 4 * 2 * 5;
    let w = widths.to_vec();
    fs(
        format!("messy{}.{per}", w.len()),
        format!(
            "a clause of the widths {widths:?} in which a literal stands twice or with its negation, next to each other or apart; alone, after units, with a literal that implies the negation \
             of the others, among 3-clauses, or with clauses that resolve with it; {per} orders"
        ),
        w.len() as u64 * K * per,
        move |i| {
            let (n, i) = (w[i as usize % w.len()], i / w.len() as u64);
            let (place, i) = (i % 4, i / 4);
            let (twice, i) = (i % 2 == 0, i / 2);
            let (around, k) = (i % 5, i / 5);
            let lit = |v: i32| if (v as u64 + k) % 3 == 0 { -v } else { v };
            let mut c: Cls = (1..n).map(|j| lit((j as u64 * if n % 7 == 0 { 1 } else { 7 } + k) as i32 % n + 1)).collect();
            let x = [c[0], c[c.len() - 1], c[c.len() / 2], c[c.len() / 3]][place as usize];
            let x = if twice { x } else { -x };
            match (place + k) % 4 {
                0 => c.push(x),
                1 => c.insert(0, x),
                2 => c.insert(c.len() / 2, x),
                _ => c.insert(1, x),
            }
            let (l, m) = (c[0], c[c.len() - 1]);
            let mut f: Cnf = vec![c.clone()];
            match around {
                0 => (),
                1 => {
                    for y in &c[..c.len() / 2] {
                        if *y != x && *y != -x {
                            f.insert(0, vec![-y]);
                        }
                    }
                }
                2 => {
                    let h = n + 1;
                    for y in &c {
                        if *y != x && *y != -x {
                            f.push(vec![-h, -y]);
                        }
                    }
                    f.push(vec![h, -x, n + 2]);
                    f.push(vec![h, -n - 2]);
                }
                3 => f.extend(stride3(n as usize, 2 * n as usize, 101 + 2 * k, k)),
                _ => {
                    f.push(vec![-l, n + 1]);
                    f.push(vec![-l, -n - 1, m]);
                    f.push(vec![-m, n + 1, n + 2]);
                    f.push(vec![-x, n + 2]);
                    f.push(vec![x, -n - 2, n + 1]);
                }
            }
            f
        },
    )
}

/// permutations with clashes: wide clauses that count
pub fn seatings(ns: std::ops::RangeInclusive<usize>, per: usize) -> FSpace {
    let l: Vec<(usize, usize, u64)> = ns
        .clone()
        .flat_map(|n| (0..per).map(move |k| (n, (n * n * n / 2) * (k % 4 + 1) / 3, k as u64)))
        .collect();
    fs(
        format!("seats{}.{}.{per}", ns.start(), ns.end()),
        format!("n guests on n seats with about n³/6, n³/3, n³/2 and 2n³/3 clashing pairs of choices, for n in {ns:?}, {per} of each n"),
        l.len() as u64,
        move |i| {
            let (n, c, k) = l[i as usize];
            seating(n, c, k + 100 * n as u64)
        },
    )
}

/// clauses of up to n literals among short ones, with one inside the other, or losing literals
pub fn wides(n: usize, per: u64) -> FSpace {
    let ws: Vec<usize> = [n - 6, n - 4, n - 2, n - 1, n].into_iter().filter(|w| *w > 2).collect();
    // what is next to the wide clause: a part of it, one that differs in a sign or two, one with another end
    const NEXT: u64 = 7;
    // a literal of it is false, at first or by and by
    const FALSE: u64 = 4;
    let ms = [n / 2, n, 2 * n, 3 * n];
    let nw = ws.len() as u64;
    fs(
        format!("wide{n}.{per}"),
        format!(
            "a clause of {ws:?} literals, and another: none, a part of 3 or all but one, with one or two signs changed, wider or shifted; one of its literals is \
             false by nothing, a unit, two or four other clauses; with {ms:?} 3-clauses by {per} strides"
        ),
        nw * NEXT * FALSE * ms.len() as u64 * per,
        move |i| {
            let w = ws[(i % nw) as usize];
            let i = i / nw;
            let (next, i) = (i % NEXT, i / NEXT);
            let (fl, i) = (i % FALSE, i / FALSE);
            let (m, k) = (ms[i as usize % ms.len()], i / ms.len() as u64);
            // signs and order by turns
            let at = |j: usize| {
                let v = (j * if n.is_multiple_of(3) { 1 } else { 3 } + k as usize) % n + 1;
                if (v as u64 + k).is_multiple_of(3) { -(v as i32) } else { v as i32 }
            };
            let c: Cls = (0..w).map(at).collect();
            let mut f = vec![c.clone()];
            match next {
                1 => f.push(c[w - 3..].to_vec()),
                2 => f.push(c[1..].iter().rev().copied().collect()),
                3 | 4 => {
                    let mut d = c.clone();
                    d[w / 2] = -d[w / 2];
                    if next == 4 {
                        d[0] = -d[0];
                    }
                    f.push(d);
                }
                5 => f.push((0..n).map(at).rev().collect()),
                6 => f.push((n - w..n).map(|j| if j % 2 == 0 { at(j) } else { -at(j) }).collect()),
                _ => (),
            }
            let x = c[(k as usize) % w];
            let (a, b) = (at(w % n).abs(), at((w + 1) % n).abs());
            match fl {
                1 => f.push(vec![-x]),
                2 => f.extend([vec![-x, a], vec![-a, -x]].map(|c| c.into_iter().filter(|l| *l != x).collect::<Cls>())),
                3 => f.extend([vec![-x, a, b], vec![-a, -x, b], vec![a, -b, -x], vec![-x, -a, -b]]),
                _ => (),
            }
            f.retain(|c| {
                let mut d = c.clone();
                d.sort_by_key(|l| (l.abs(), *l));
                d.windows(2).all(|w| w[0] != -w[1])
            });
            let tri = binom(n as u64, 3) * 8;
            let ss = strides(n, 5);
            f.extend(stride3(n, m, ss[k as usize % ss.len()], k * 37 % tri));
            f
        },
    )
}

/// one var in many clauses: around the limits of the eliminator (800 occurrences, 20000 pairs of clauses)
pub fn crowds(per: u64) -> FSpace {
    const KS: [usize; 14] = [100, 200, 282, 283, 284, 285, 300, 400, 500, 798, 799, 800, 801, 1001];
    // how many of the clauses have it negative: half, a tenth, a few, all but a few
    const NEG: u64 = 4;
    fs(
        format!("crowds{per}"),
        format!("a var in {KS:?} of the 3-clauses over 60 vars, negative in half, a tenth, 25 or all but 25 of them, with none, 120 or 250 other clauses, {per} of each"),
        KS.len() as u64 * NEG * 3 * per,
        |i| {
            let k = KS[(i % KS.len() as u64) as usize];
            let i = i / KS.len() as u64;
            let (neg, i) = (i % NEG, i / NEG);
            let (rest, seed) = ([0, 120, 250][(i % 3) as usize], i / 3);
            let mut x = seed.wrapping_mul(2).wrapping_add(99);
            let mut below = |m: u64| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) % m
            };
            let mut f: Cnf = vec![];
            let mut other = |c: &mut Cls, w: usize| {
                while c.len() < w {
                    let v = below(59) as i32 + 2;
                    if !c.contains(&v) && !c.contains(&-v) {
                        c.push(if below(2) == 0 { v } else { -v });
                    }
                }
            };
            for j in 0..k {
                let minus = match neg {
                    0 => j % 2 == 0,
                    1 => j % 10 == 0,
                    2 => j < 25,
                    _ => j + 25 < k,
                };
                let mut c = vec![if minus { -1 } else { 1 }];
                other(&mut c, 3);
                f.push(c);
            }
            for _ in 0..rest {
                let mut c = vec![];
                other(&mut c, 3);
                f.push(c);
            }
            f
        },
    )
}
