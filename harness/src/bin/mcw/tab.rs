//! Truth tables over up to 14 vars.
use std::{cell::RefCell, rc::Rc};

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Tab(pub Vec<u64>);

thread_local! {
    static POS: RefCell<Vec<Option<Rc<Vec<Tab>>>>> = const { RefCell::new(Vec::new()) };
}

const LOW: [u64; 6] = [
    0xAAAA_AAAA_AAAA_AAAA,
    0xCCCC_CCCC_CCCC_CCCC,
    0xF0F0_F0F0_F0F0_F0F0,
    0xFF00_FF00_FF00_FF00,
    0xFFFF_0000_FFFF_0000,
    0xFFFF_FFFF_0000_0000,
];

fn words(n: usize) -> usize {
    1 << n.saturating_sub(6)
}

/// the tables of vars; a table of fewer than 6 vars fills a whole word by repetition
fn vars(n: usize) -> Rc<Vec<Tab>> {
    POS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() <= n {
            p.resize(n + 1, None);
        }
        p[n].get_or_insert_with(|| {
            Rc::new(
                (0..n)
                    .map(|v| Tab((0..words(n)).map(|w| if v < 6 { LOW[v] } else if w >> (v - 6) & 1 == 1 { !0 } else { 0 }).collect()))
                    .collect(),
            )
        })
        .clone()
    })
}

impl Tab {
    pub fn all(n: usize) -> Tab {
        Tab(vec![!0; words(n)])
    }
    pub fn none(n: usize) -> Tab {
        Tab(vec![0; words(n)])
    }
    pub fn clause(n: usize, c: &[i32]) -> Tab {
        let vs = vars(n);
        let mut t = Tab::none(n);
        for l in c {
            let v = &vs[l.unsigned_abs() as usize - 1];
            for (a, b) in t.0.iter_mut().zip(&v.0) {
                *a |= if *l > 0 { *b } else { !*b };
            }
        }
        t
    }
    pub fn and(&mut self, o: &Tab) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a &= b;
        }
    }
    pub fn add(&mut self, n: usize, c: &[i32]) {
        if n <= 6 {
            // without allocation
            let mut t = 0;
            for l in c {
                let v = LOW[l.unsigned_abs() as usize - 1];
                t |= if *l > 0 { v } else { !v };
            }
            self.0[0] &= t;
        } else {
            self.and(&Tab::clause(n, c));
        }
    }
    pub fn of<'a>(n: usize, f: impl IntoIterator<Item = &'a Vec<i32>>) -> Tab {
        let mut t = Tab::all(n);
        for c in f {
            t.add(n, c);
        }
        t
    }
    pub fn within(&self, o: &Tab) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| a & !b == 0)
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|w| *w == 0)
    }
    pub fn has(&self, a: usize) -> bool {
        self.0[a >> 6] >> (a & 63) & 1 == 1
    }
    pub fn set(&mut self, a: usize) {
        self.0[a >> 6] |= 1 << (a & 63);
    }
    pub fn first_not_in(&self, o: &Tab, n: usize) -> Option<Vec<i32>> {
        (0..1usize << n).find(|a| self.has(*a) && !o.has(*a)).map(|a| bits(n, a))
    }
}

pub fn bits(n: usize, a: usize) -> Vec<i32> {
    (0..n).map(|v| if a >> v & 1 == 1 { v as i32 + 1 } else { -(v as i32 + 1) }).collect()
}
