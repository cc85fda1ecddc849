//! Declarative plans: a property is a list of suites, each with the space it enumerates.
use crate::cli::{Args, Plan};
use crate::engine::*;
use crate::tree::*;

pub enum Space {
    /// all reachable canonical states of the alphabet from the roots, up to depth/cap
    Bfs { roots: Vec<Vec<Op>>, alphabet: Vec<Op>, depth: usize, cap: usize },
    /// all words up to m after every base, unmerged
    Words { bases: Vec<Vec<Op>>, alphabet: Vec<Op>, m: usize },
    /// all words up to m after every *reachable state* of a BFS over another alphabet
    BfsWords { roots: Vec<Vec<Op>>, bfs: Vec<Op>, cap: usize, alphabet: Vec<Op>, m: usize },
    Cases { list: Vec<Vec<Op>>, what: &'static str },
}
pub struct Entry {
    pub name: String,
    pub suite: Box<dyn Suite>,
    pub space: Box<dyn FnOnce(&Ctx) -> Space>,
}
pub fn entry(name: &str, suite: impl Suite + 'static, space: impl FnOnce(&Ctx) -> Space + 'static) -> Entry {
    Entry { name: name.into(), suite: Box::new(suite), space: Box::new(space) }
}
pub struct List(pub fn(usize, bool) -> Vec<Entry>);
impl Plan for List {
    fn explore(&self, cx: &Ctx, a: &Args) {
        for e in (self.0)(node_n(), a.thorough) {
            if cx.skip(&e.name) {
                continue;
            }
            match (e.space)(cx) {
                Space::Bfs { roots, alphabet, depth, cap } => {
                    cx.bfs(&e.name, &*e.suite, &roots, &alphabet, depth, cap);
                }
                Space::Words { bases, alphabet, m } => cx.words(&e.name, &*e.suite, &bases, &alphabet, m),
                Space::BfsWords { roots, bfs, cap, alphabet, m } => {
                    let bases = cx.bfs(&e.name, &*e.suite, &roots, &bfs, 200, cap);
                    cx.words(&e.name, &*e.suite, &bases, &alphabet, m);
                }
                Space::Cases { list, what } => cx.cases(&e.name, &*e.suite, &list, what),
            }
        }
    }
    fn find(&self, name: &str) -> Option<Box<dyn Suite>> {
        if let Some(d) = name.strip_prefix("reach-") {
            return Some(Box::new(Plain(d.parse().ok()?)));
        }
        for t in [true, false] {
            for e in (self.0)(node_n(), t) {
                if e.name == name {
                    return Some(e.suite);
                }
            }
        }
        None
    }
}

/// One shortest history per canonical state reachable over the domain by inserts, removes and
/// bulk loads.
pub fn reach(cx: &Ctx, dom: u32, cap: usize) -> Vec<Vec<Op>> {
    // what only restricts the replayed suite must not hide the enumeration of its bases
    cx.bfs(&format!("reach-{dom}"), &Plain(dom), &roots(dom, true), &alphabet(&[INS, DEL], dom), 200, cap)
}

/// (domain, cap) for which the whole state space of insert/remove over the domain is enumerable:
/// `size` 0 = tiny, 1 = small, 2 = normal, 3 = large
pub fn dom_for(n: usize, size: u32) -> u32 {
    match n {
        2 => [5, 7, 8, 10][size as usize],
        3 => [5, 7, 8, 10][size as usize],
        4 => [6, 7, 9, 10][size as usize],
        5 => [6, 8, 9, 10][size as usize],
        _ => [8, 9, 10, 11][size as usize],
    }
}

/// builder x drain histories over trees of every interesting size
pub fn families(n: usize, t: bool) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for s in sizes(n, t) {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for d in [DELASC, DELDESC, DELMID] {
                v.push(vec![base, op(d, s as u32 + 1)]);
            }
            v.push(vec![base, op(DELODD, 0), op(INSGAPS, 0), op(DELODD, 0), op(DELODD, 0), op(INSGAPS, 0)]);
            v.push(vec![base, op(INSGAPS, 0), op(DELMID, s as u32), op(INSGAPS, 0), op(DELASC, s as u32)]);
            v.push(vec![base, op(DELMID, (s / 2) as u32), op(INSGAPS, 0), op(DELDESC, s as u32 / 4), op(INSGAPS, 0), op(DELMID, 2 * s as u32)]);
        }
    }
    v
}
/// the same over few trees with one inner level more than `families` has at this capacity
pub fn deep_families(n: usize, t: bool) -> Vec<Vec<Op>> {
    let mut v = vec![];
    let szs: &[usize] = match n {
        ..=4 => &[700],
        ..=8 => &[1000, 1700],
        _ if t => &[90_000, 160_000, 300_000],
        _ => &[90_000],
    };
    for &s in szs {
        for b in BUILDERS {
            // bulk loaded nodes are full
            let s = if b == BULK && n > 8 { s.max(n * (n + 1) * (n + 1) + 5 * n * n) } else { s };
            let base = op(b, sized(1, s));
            for d in [DELASC, DELDESC, DELMID] {
                v.push(vec![base, op(d, s as u32)]);
            }
            v.push(vec![base, op(DELODD, 0), op(DELODD, 0), op(DELODD, 0), op(INSGAPS, 0), op(DELODD, 0), op(DELODD, 0), op(DELODD, 0)]);
            v.push(vec![base, op(DELMID, s as u32 / 3), op(INSGAPS, 0), op(DELASC, s as u32 / 2), op(INSGAPS, 0)]);
        }
    }
    v
}
/// a few trees with one inner level more than the other families have, more than 65536 entries at 64
pub fn deep_forms(n: usize, t: bool) -> Vec<Vec<Op>> {
    let (s, full): (u32, u32) = match n {
        ..=4 => (700, 1000),
        ..=8 => (1700, 1000),
        _ => (90_000, 290_000),
    };
    let mut v = vec![];
    for b in BUILDERS {
        if !t && n > 8 && b != ASC && b != BULK {
            continue;
        }
        let base = op(b, sized(1, if b == BULK { full } else { s } as usize));
        v.push(vec![base]);
        v.push(vec![base, op(DELODD, 0), op(DELODD, 0)]);
        if t || n <= 8 {
            v.push(vec![base, op(DELODD, 0), op(INSGAPS, 0)]);
            v.push(vec![base, op(DELMID, s / 2), op(INSGAPS, 0)]);
        }
    }
    v
}
pub fn sizes(n: usize, t: bool) -> Vec<usize> {
    if n <= 8 {
        (0..=if t { 600 } else { 200 }).collect()
    } else {
        interesting_sizes(n, if t { 3 * n * (n + 1) } else { 2 * n * (n + 1) + 2 * n })
    }
}
/// histories that stop at interesting trees: what `families` passes through, without the drains to empty
pub fn forms(n: usize, sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    let _ = n;
    for &s in sizes {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            v.push(vec![base]);
            if s > 1 {
                v.push(vec![base, op(DELODD, 0)]);
                v.push(vec![base, op(DELODD, 0), op(INSGAPS, 0)]);
                v.push(vec![base, op(DELMID, (s / 2) as u32)]);
                v.push(vec![base, op(DELASC, (s * 2 / 3) as u32)]);
                v.push(vec![base, op(DELDESC, (s * 2 / 3) as u32), op(INSGAPS, 0)]);
            }
        }
    }
    v
}
