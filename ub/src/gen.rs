//! reachable states, and tours through every transition between them
use crate::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::NodeStore;
use sweep_bptree::{BPlusTree, NodeStoreVec};

type S = NodeStoreVec<u32, u32, sweep_bptree::augment::count::Count>;
type T = BPlusTree<S>;

pub fn node_n() -> usize {
    <S as NodeStore>::leaf_n() as usize
}

struct P<'a> {
    path: &'a mut Vec<(usize, usize)>,
    d: usize,
    out: &'a mut Vec<u8>,
}
impl<'a, A> DescendVisit<u32, u32, A> for P<'a> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[u32], a: &[A]) -> DescendVisitResult<()> {
        if self.d == self.path.len() {
            self.path.push((0, a.len()));
            self.out.push(200 + keys.len() as u8);
            self.out.extend(keys.iter().map(|k| *k as u8));
        }
        self.d += 1;
        DescendVisitResult::GoDown(self.path[self.d - 1].0)
    }
    fn visit_leaf(&mut self, keys: &[u32], _: &[u32]) -> Option<()> {
        self.out.push(100 + keys.len() as u8);
        self.out.extend(keys.iter().map(|k| *k as u8));
        Some(())
    }
}
/// shape, keys and separators
fn canon(t: &T) -> Vec<u8> {
    let mut out = vec![];
    let mut path: Vec<(usize, usize)> = vec![];
    loop {
        t.descend_visit(P { path: &mut path, d: 0, out: &mut out });
        loop {
            match path.last_mut() {
                None => return out,
                Some((i, n)) if *i + 1 < *n => {
                    *i += 1;
                    break;
                }
                Some(_) => {
                    path.pop();
                }
            }
        }
    }
}

fn apply(t: &mut T, o: Op) {
    let a = o & 0xff_ffff;
    match o >> 24 {
        INS => {
            t.insert(a, 0);
        }
        DEL => {
            t.remove(&a);
        }
        RBA => {
            t.remove_by_augmentation(a as usize);
        }
        CLEAR => t.clear(),
        BULK => *t = T::bulk_load((0..a).map(|i| (i, 0)).collect()),
        CLONE => *t = t.clone(),
        _ => {}
    }
}

struct Graph {
    succ: Vec<Vec<usize>>,
    roots: Vec<(Op, usize)>,
}

fn graph(dom: u32, alpha: &[Op], cap: usize) -> (Graph, bool) {
    let mut ids: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut hist: Vec<Vec<Op>> = vec![];
    let mut g = Graph { succ: vec![], roots: vec![] };
    let mut q = VecDeque::new();
    for r in 0..=dom {
        let h = vec![op(BULK, r)];
        let mut t = T::new(S::new());
        apply(&mut t, h[0]);
        let c = canon(&t);
        if !ids.contains_key(&c) {
            let id = hist.len();
            ids.insert(c, id);
            g.roots.push((h[0], id));
            hist.push(h);
            q.push_back(id);
        }
    }
    let mut complete = true;
    while let Some(i) = q.pop_front() {
        assert!(g.succ.len() == i);
        let mut s = vec![];
        for o in alpha {
            let mut t = T::new(S::new());
            for o in &hist[i] {
                apply(&mut t, *o);
            }
            apply(&mut t, *o);
            let c = canon(&t);
            let n = ids.len();
            let id = *ids.entry(c).or_insert_with(|| {
                let mut h = hist[i].clone();
                h.push(*o);
                hist.push(h);
                q.push_back(n);
                n
            });
            s.push(id);
        }
        g.succ.push(s);
        if hist.len() > cap {
            complete = false;
            break;
        }
    }
    let n = g.succ.len();
    // cut: leave out what was not expanded
    for s in &mut g.succ {
        for x in s.iter_mut() {
            if *x >= n {
                *x = usize::MAX;
            }
        }
    }
    g.roots.retain(|r| r.1 < n);
    (g, complete)
}

/// segments that together take every transition; `first` is appended after reaching a state for the first time
fn tours(g: &Graph, alpha: &[Op], seg: usize, first: &[Op]) -> (Vec<Vec<Op>>, usize) {
    let n = g.succ.len();
    let m = alpha.len();
    let mut done: Vec<bool> = vec![false; n * m];
    let mut left: Vec<usize> = vec![0; n];
    let mut edges = 0;
    for i in 0..n {
        for j in 0..m {
            if g.succ[i][j] == usize::MAX {
                done[i * m + j] = true;
            } else {
                left[i] += 1;
                edges += 1;
            }
        }
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut todo = edges;
    let mut nextroot = 0;
    while todo > 0 {
        // a root from which something is left to do, reached by the shortest way
        let (ro, mut at) = g.roots[nextroot % g.roots.len()];
        nextroot += 1;
        let mut h = vec![ro];
        if seen.insert(at) {
            h.extend_from_slice(first);
        }
        let mut steps = 0;
        while steps < seg && todo > 0 {
            if left[at] == 0 {
                // nearest state with an untaken transition
                let mut prev: HashMap<usize, (usize, usize)> = HashMap::new();
                let mut q = VecDeque::from([at]);
                prev.insert(at, (usize::MAX, 0));
                let mut goal = None;
                while let Some(x) = q.pop_front() {
                    if left[x] > 0 {
                        goal = Some(x);
                        break;
                    }
                    for j in 0..m {
                        let y = g.succ[x][j];
                        if y != usize::MAX && !prev.contains_key(&y) {
                            prev.insert(y, (x, j));
                            q.push_back(y);
                        }
                    }
                }
                let Some(goal) = goal else { break };
                let mut back = vec![];
                let mut x = goal;
                while prev[&x].0 != usize::MAX {
                    back.push(alpha[prev[&x].1]);
                    x = prev[&x].0;
                }
                back.reverse();
                steps += back.len();
                h.extend(back);
                at = goal;
            }
            // staying in place first, it costs nothing
            let j = (0..m).filter(|j| !done[at * m + j]).min_by_key(|j| (g.succ[at][*j] != at) as usize).unwrap();
            done[at * m + j] = true;
            left[at] -= 1;
            todo -= 1;
            h.push(alpha[j]);
            steps += 1;
            at = g.succ[at][j];
            if seen.insert(at) {
                h.extend_from_slice(first);
            }
        }
        out.push(h);
    }
    (out, edges)
}

pub fn main(path: &str, thorough: bool, plain: bool) {
    let n = node_n();
    let mut lines: Vec<(String, Vec<Op>)> = vec![];
    let mut states = 0;
    let mut edges = 0;
    let mut complete = !plain;
    let mut turn = 0;
    // which key, value and augmentation types a history is run with: all of them, or m in turn
    let mut kinds = |m: usize| -> String {
        let all = if thorough { 4 } else { m };
        turn += 1;
        (0..all).map(|i| char::from(b'0' + ((turn * all + i) % 4) as u8)).collect()
    };
    if n <= 8 && !plain {
        let dom: u32 = match (n, thorough) {
            (4, false) => 6,
            (4, true) => 8,
            (8, false) => 6,
            _ => 10,
        };
        let mut alpha: Vec<Op> = (0..dom).flat_map(|i| [op(INS, i), op(DEL, i)]).collect();
        alpha.extend((0..dom / 2).map(|i| op(RBA, 2 * i)));
        alpha.push(op(CLONE, 0));
        if thorough {
            alpha.push(op(CLEAR, 0));
        }
        let (g, c) = graph(dom, &alpha, if thorough { 20_000 } else { 6_000 });
        complete &= c;
        let (ts, e) = tours(&g, &alpha, 60, &[op(READ, 1), op(MUT, 1)]);
        states += g.succ.len();
        edges += e;
        for t in ts {
            lines.push((kinds(1), t));
        }
        // every front/back split of a consumed copy at every state: a tour over states alone
        let pd = if thorough { dom.min(7) } else { 5 };
        let al: Vec<Op> = (0..pd).flat_map(|i| [op(INS, i), op(DEL, i)]).collect();
        let (g, _) = graph(pd, &al, 60_000);
        let mut first = vec![];
        for f in 0..=pd {
            for b in 0..=pd - f {
                first.push(op(INTO, f * 64 + b));
            }
        }
        for t in tours_states(&g, &al, 12, &first).0 {
            lines.push((kinds(1), t));
        }
        states += g.succ.len();
        if thorough {
            let (g, _) = graph(5, &al, 60_000);
            for t in tours_states(&g, &al, 2, &[op(POKE, 5)]).0 {
                lines.push(("4".into(), t));
            }
        }
    }
    // sizes at and around which nodes and levels appear
    let c = n as u32;
    let mut sizes: Vec<u32> = match (n, thorough) {
        (4, true) => (7..=60).collect(),
        (4, false) => vec![7, 8, 9, 10, 13, 14, 17, 21, 22, 25],
        (8, _) => vec![7, 8, 9, 15, 16, 17, 18, 23, 24, 25, 33, 40, 41, 72, 73, 74, 80, 81],
        (_, true) => vec![c - 1, c, c + 1, 2 * c, 2 * c + 1, 3 * c + 1],
        _ => vec![c, c + 1, 2 * c + 1, 3 * c + 1],
    };
    if n == 64 && thorough {
        sizes.extend([4 * c + 1, 10 * c, 65 * c, 65 * c + 1, 33 * 64 + 1]);
    }
    for &s in &sizes {
        for b in [BULK, ASC, DESC, MID] {
            if s > 700 && b != BULK {
                continue;
            }
            // positions around the ends of nodes for large nodes, all of them for small ones
            let pos: Vec<u32> = if n <= 8 { (0..s).collect() } else { (0..s).filter(|i| matches!(i % 32, 0 | 31) || *i + 2 > s).take(if thorough { 80 } else { 8 }).collect() };
            let st = if thorough { (s / 24).max(1) } else { (s / 5).max(2) };
            let mut h = vec![op(b, s), op(READ, st), op(MUT, st)];
            for p in &pos {
                h.push(op(DEL, 2 * p));
                h.push(op(INS, 2 * p + 1));
                if thorough || p % 2 == 0 {
                    h.push(op(INS, 2 * p));
                }
            }
            h.push(op(CLONE, 0));
            h.push(op(READ, st));
            for p in &pos {
                h.push(op(RBA, *p));
            }
            h.push(op(READ, st));
            lines.push((kinds(1), h));
            for d in [DELASC, DELDESC, DELODD] {
                let mut h = vec![op(b, s)];
                for k in 0..5 {
                    h.push(if d == DELODD { op(DELODD, 0) } else { op(d, s / 5 + (k == 4) as u32 * 5) });
                    if k % 2 == 1 {
                        h.push(op(READ, st));
                        h.push(op(INTO, 64 + k));
                        h.push(op(INTO, 20 * 64 + 20));
                    }
                }
                lines.push((kinds(1), h));
            }
        }
        if s < 700 {
            lines.push((if thorough { "013".into() } else { ["0", "1", "3"][s as usize % 3].into() }, vec![op(COLL, s)]));
        }
    }
    for s in 0..if thorough { sizes[0] } else { 10 } {
        lines.push((if thorough { "013".into() } else { ["0", "1", "3"][s as usize % 3].into() }, vec![op(COLL, s)]));
    }
    // panics in user code on trees about to split, to merge, to lend, to lose a level
    let bases: Vec<Vec<Op>> = match (n, thorough) {
        (4, false) => vec![vec![op(BULK, 4)], vec![op(BULK, 5)], vec![op(BULK, 8)], vec![op(ASC, 7), op(DELASC, 2)], vec![op(ASC, 12), op(DELODD, 0)], vec![op(BULK, 21)]],
        (4, true) => vec![
            vec![op(BULK, 1)],
            vec![op(BULK, 4)],
            vec![op(BULK, 5)],
            vec![op(BULK, 8)],
            vec![op(ASC, 7), op(DELASC, 2)],
            vec![op(DESC, 7), op(DELDESC, 2)],
            vec![op(BULK, 20)],
            vec![op(BULK, 21)],
            vec![op(ASC, 12), op(DELODD, 0)],
            vec![op(MID, 21), op(DELODD, 0)],
        ],
        (8, _) => vec![vec![op(BULK, 8)], vec![op(BULK, 16)], vec![op(ASC, 9), op(DELASC, 2)]],
        (_, true) => vec![vec![op(BULK, 64)], vec![op(ASC, 65), op(DELASC, 15)]],
        _ => vec![],
    };
    for b in bases {
        // one operation each; where it goes is decided by the tree
        let big = !thorough && b[0] == op(BULK, 21);
        // the last one makes containers of its own
        for i in 0..if big { 6 } else { 11 + (b[0] == op(BULK, 4)) as u32 } {
            let mut h = b.clone();
            h.push(op(POKE, 256 + i));
            lines.push(("4".into(), h));
        }
    }
    let mut out = format!("{} {} {}\n", states, edges, complete as u32);
    for (k, h) in &lines {
        out.push_str(k);
        for o in h {
            write!(out, " {o}").unwrap();
        }
        out.push('\n');
    }
    std::fs::write(path, out).unwrap();
}

/// like `tours`, but only every state is to be visited
fn tours_states(g: &Graph, alpha: &[Op], seg: usize, first: &[Op]) -> (Vec<Vec<Op>>, usize) {
    let n = g.succ.len();
    let mut seen = vec![false; n];
    // shortest way to every state from the roots
    let mut way: Vec<Option<Vec<Op>>> = vec![None; n];
    let mut q = VecDeque::new();
    for (o, r) in &g.roots {
        if way[*r].is_none() {
            way[*r] = Some(vec![*o]);
            q.push_back(*r);
        }
    }
    while let Some(x) = q.pop_front() {
        for (j, y) in g.succ[x].iter().enumerate() {
            if *y != usize::MAX && way[*y].is_none() {
                let mut w = way[x].clone().unwrap();
                w.push(alpha[j]);
                way[*y] = Some(w);
                q.push_back(*y);
            }
        }
    }
    let mut out = vec![];
    for s in 0..n {
        if seen[s] || way[s].is_none() {
            continue;
        }
        let mut h = way[s].clone().unwrap();
        h.extend_from_slice(first);
        seen[s] = true;
        let mut at = s;
        for _ in 0..seg {
            let Some(j) = (0..alpha.len()).find(|j| g.succ[at][*j] != usize::MAX && !seen[g.succ[at][*j]]) else { break };
            at = g.succ[at][j];
            seen[at] = true;
            h.push(alpha[j]);
            h.extend_from_slice(first);
        }
        out.push(h);
    }
    (out, n)
}
