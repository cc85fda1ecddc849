//! World shared by most machines: a real tree, its reference map, the operations on both, and
//! observation of the tree's shape through the public visitor.
use crate::engine::*;
use crate::keys::*;
use std::collections::BTreeMap;
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::NodeStore;
use sweep_bptree::{BPlusTree, BPlusTreeMap, Key, NodeStoreVec};

pub type Tree<K, V, A> = BPlusTree<NodeStoreVec<K, V, A>>;
pub type Model = BTreeMap<u32, u32>;

pub const INS: u8 = 1;
pub const DEL: u8 = 2;
pub const WR: u8 = 3;
pub const GET: u8 = 4;
pub const GETM: u8 = 5;
pub const CLEAR: u8 = 6;
pub const ASC: u8 = 10;
pub const DESC: u8 = 11;
pub const MIDOUT: u8 = 12;
pub const ZIG: u8 = 13;
pub const BULK: u8 = 14;
pub const FROMIT: u8 = 15;
pub const DELASC: u8 = 20;
pub const DELDESC: u8 = 21;
pub const DELMID: u8 = 22;
pub const DELODD: u8 = 23;
pub const INSGAPS: u8 = 24;

pub const BUILDERS: [u8; 5] = [ASC, DESC, MIDOUT, ZIG, BULK];

/// builder argument: n entries, key of entry i given by the flavour
pub const fn sized(flavour: u32, n: usize) -> u32 {
    (flavour << 22) | n as u32
}
pub fn spaced(a: u32) -> (u32, usize) {
    (a >> 22, (a & 0x3f_ffff) as usize)
}
pub fn key_of(flavour: u32, i: usize) -> u32 {
    let i = i as u32;
    match flavour {
        0 => i,
        1 => 2 * i + 1,
        _ => 3 * i + 1,
    }
}
pub fn order(code: u8, n: usize) -> Vec<usize> {
    match code {
        DESC => (0..n).rev().collect(),
        MIDOUT => {
            let mut v = vec![];
            let m = n / 2;
            for d in 0..=n {
                if m + d < n {
                    v.push(m + d);
                }
                if d > 0 && d <= m {
                    v.push(m - d);
                }
            }
            v
        }
        ZIG => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        _ => (0..n).collect(),
    }
}

pub fn show_op(o: Op) -> String {
    let a = arg(o);
    let s = |t: &str| {
        let (f, n) = spaced(a);
        match f {
            0 => format!("{t}(n={n})"),
            1 => format!("{t}(n={n},keys 2i+1)"),
            _ => format!("{t}(n={n},keys 3i+1)"),
        }
    };
    match code(o) {
        INS => format!("insert({a})"),
        DEL => format!("remove({a})"),
        WR => format!("write({a})"),
        GET => format!("get({a})"),
        GETM => format!("get_mut({a})"),
        CLEAR => "clear".into(),
        ASC => s("insert_ascending"),
        DESC => s("insert_descending"),
        MIDOUT => s("insert_middle_out"),
        ZIG => s("insert_zigzag"),
        BULK => s("bulk_load"),
        FROMIT => s("from_iter"),
        DELASC => format!("remove_smallest({a})"),
        DELDESC => format!("remove_largest({a})"),
        DELMID => format!("remove_middle({a})"),
        DELODD => "remove_every_other".into(),
        INSGAPS => "insert_all_gaps".into(),
        c => format!("op{c}({a})"),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !($c) { return Err(format!($($f)*)); } };
}

pub struct TW<K: DomKey, V: DomVal, A: Augmentation<K, V>> {
    pub t: Tree<K, V, A>,
    pub m: Model,
    pub clock: u32,
    /// called after every single insertion and removal, also those inside composite operations
    pub each: Option<fn(&Self) -> R>,
    /// bulk loaded, and not cleared since
    pub bulk: bool,
}

pub fn new_tree<K: DomKey, V: DomVal, A: Augmentation<K, V>>() -> Tree<K, V, A> {
    BPlusTree::new(NodeStoreVec::new())
}

impl<K: DomKey, V: DomVal, A: Augmentation<K, V>> TW<K, V, A> {
    pub fn new() -> Self {
        TW { t: new_tree(), m: Model::new(), clock: 0, each: None, bulk: false }
    }
    pub fn tick(&mut self) -> u32 {
        self.clock += 1;
        if V::EXACT {
            self.clock
        } else {
            0
        }
    }
    pub fn ins(&mut self, k: u32) -> R {
        let v = self.tick();
        let got = self.t.insert(K::mk(k), V::mk(v)).map(|v| v.ix());
        let want = self.m.insert(k, v);
        ensure!(got == want, "insert({k}) returned {got:?}, an ordered map returns {want:?}");
        self.lens()?;
        match self.each {
            Some(f) => f(self),
            None => Ok(()),
        }
    }
    pub fn del(&mut self, k: u32) -> R {
        let got = self.t.remove(&K::mk(k)).map(|v| v.ix());
        let want = self.m.remove(&k);
        ensure!(got == want, "remove({k}) returned {got:?}, an ordered map returns {want:?}");
        self.lens()?;
        match self.each {
            Some(f) => f(self),
            None => Ok(()),
        }
    }
    pub fn lens(&self) -> R {
        ensure!(self.t.len() == self.m.len(), "len() is {}, expected {}", self.t.len(), self.m.len());
        ensure!(self.t.is_empty() == self.m.is_empty(), "is_empty() is {}", self.t.is_empty());
        Ok(())
    }
    /// the operations every machine knows; None if the code is not one of them
    pub fn step(&mut self, o: Op) -> Option<R> {
        let a = arg(o);
        Some(match code(o) {
            INS => self.ins(a),
            DEL => self.del(a),
            WR => {
                let v = self.tick();
                let got = self.t.get_mut(&K::mk(a)).map(|r| {
                    let old = r.ix();
                    *r = V::mk(v);
                    old
                });
                let want = self.m.get_mut(&a).map(|r| std::mem::replace(r, v));
                if got != want {
                    Err(format!("get_mut({a}) gave {got:?}, expected {want:?}"))
                } else {
                    Ok(())
                }
            }
            GET => self.get1(a),
            GETM => {
                let got = self.t.get_mut(&K::mk(a)).map(|r| r.ix());
                let want = self.m.get(&a).copied();
                if got != want {
                    Err(format!("get_mut({a}) gave {got:?}, expected {want:?}"))
                } else {
                    Ok(())
                }
            }
            CLEAR => {
                self.t.clear();
                self.m.clear();
                self.bulk = false;
                self.lens()
            }
            ASC | DESC | MIDOUT | ZIG => {
                let (f, n) = spaced(a);
                for i in order(code(o), n) {
                    if let Err(e) = self.ins(key_of(f, i)) {
                        return Some(Err(e));
                    }
                }
                Ok(())
            }
            BULK => {
                let (f, n) = spaced(a);
                let mut d = Vec::with_capacity(n);
                self.m.clear();
                for i in 0..n {
                    let v = self.tick();
                    d.push((K::mk(key_of(f, i)), V::mk(v)));
                    self.m.insert(key_of(f, i), v);
                }
                self.t = BPlusTree::bulk_load(d);
                self.bulk = true;
                self.lens()
            }
            DELASC | DELDESC | DELMID => {
                for _ in 0..a {
                    let k = match code(o) {
                        DELASC => self.m.keys().next().copied(),
                        DELDESC => self.m.keys().next_back().copied(),
                        _ => {
                            let (lo, hi) = match (self.m.keys().next(), self.m.keys().next_back()) {
                                (Some(l), Some(h)) => (*l, *h),
                                _ => break,
                            };
                            self.m.range(lo + (hi - lo) / 2..).next().map(|x| *x.0)
                        }
                    };
                    let Some(k) = k else { break };
                    if let Err(e) = self.del(k) {
                        return Some(Err(e));
                    }
                }
                Ok(())
            }
            DELODD => {
                let ks: Vec<u32> = self.m.keys().copied().skip(1).step_by(2).collect();
                for k in ks {
                    if let Err(e) = self.del(k) {
                        return Some(Err(e));
                    }
                }
                Ok(())
            }
            INSGAPS => {
                let ks: Vec<u32> = self.m.keys().map(|k| k + 1).filter(|k| !self.m.contains_key(k)).collect();
                for k in ks {
                    if let Err(e) = self.ins(k) {
                        return Some(Err(e));
                    }
                }
                Ok(())
            }
            _ => return None,
        })
    }
    pub fn get1(&self, k: u32) -> R {
        let got = self.t.get(&K::mk(k)).map(|v| v.ix());
        let want = self.m.get(&k).copied();
        ensure!(got == want, "get({k}) is {got:?}, expected {want:?}");
        Ok(())
    }
    /// all point observations over the given keys, plus both iteration directions
    pub fn full(&self, keys: impl Iterator<Item = u32>) -> R {
        self.lens()?;
        let f = self.t.first().map(|(k, v)| (k.ix(), v.ix()));
        let w = self.m.iter().next().map(|(k, v)| (*k, *v));
        ensure!(f == w, "first() is {f:?}, expected {w:?}");
        let f = self.t.last().map(|(k, v)| (k.ix(), v.ix()));
        let w = self.m.iter().next_back().map(|(k, v)| (*k, *v));
        ensure!(f == w, "last() is {f:?}, expected {w:?}");
        for k in keys {
            self.get1(k)?;
        }
        let mut it = self.t.iter();
        for (k, v) in &self.m {
            let g = it.next().map(|(k, v)| (k.ix(), v.ix()));
            ensure!(g == Some((*k, *v)), "iteration yields {g:?} where ({k}, {v}) is due");
        }
        ensure!(it.next().is_none(), "iteration yields more than the {} entries", self.m.len());
        let mut it = self.t.iter();
        for (k, v) in self.m.iter().rev() {
            let g = it.next_back().map(|(k, v)| (k.ix(), v.ix()));
            ensure!(g == Some((*k, *v)), "reverse iteration yields {g:?} where ({k}, {v}) is due");
        }
        Ok(())
    }
    /// keys worth probing in a big tree: every key, and its neighbours
    pub fn probes(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.m.keys().flat_map(|k| [k.saturating_sub(1), *k, *k + 1]).collect();
        v.dedup();
        v
    }
    pub fn canon(&self, dom: u32, out: &mut Vec<u8>) {
        match dump(&self.t) {
            Ok(s) => {
                canon_shape(&s, out);
                // links between leaves and the length are not part of the shape; a state in which
                // they disagree with it is a state of its own, which the oracle then gets to see
                let e = s.entries();
                let mut f: u32 = 0;
                if self.t.len() != e.len() {
                    f |= 1;
                }
                if !self.t.iter().take(e.len() + 1).map(|(k, v)| (k.ix(), v.ix())).eq(e.iter().copied()) {
                    f |= 2;
                }
                if !self.t.iter().rev().take(e.len() + 1).map(|(k, v)| (k.ix(), v.ix())).eq(e.iter().rev().copied()) {
                    f |= 4;
                }
                out.push(f as u8);
            }
            Err(e) => out.extend_from_slice(e.as_bytes()),
        }
        canon_cache(&self.t, dom, out);
    }
}

/// which keys of the domain the lookup cache would serve
pub fn canon_cache<K: DomKey, V: DomVal, A: Augmentation<K, V>>(t: &Tree<K, V, A>, dom: u32, out: &mut Vec<u8>) {
    let mut b = 0u64;
    for k in 0..dom {
        if t.node_store().try_cache(&K::mk(k)).is_some() {
            b |= 1 << (k % 64);
        }
    }
    out.extend_from_slice(&b.to_le_bytes());
}

// ---------------------------------------------------------------------------------------------
// Shape

#[derive(Clone, Debug)]
pub enum Shape<A> {
    Inner { keys: Vec<u32>, augs: Vec<A>, kids: Vec<Shape<A>> },
    Leaf(Vec<(u32, u32)>),
}

pub trait Visitable<K: Key, V, A: Augmentation<K, V>> {
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result>;
}
impl<K: Key, V, A: Augmentation<K, V>> Visitable<K, V, A> for Tree<K, V, A> {
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result> {
        self.descend_visit(v)
    }
}
impl<K: Key, V, A: Augmentation<K, V>> Visitable<K, V, A> for BPlusTreeMap<K, V, A> {
    fn visit<VI: DescendVisit<K, V, A>>(&self, v: VI) -> Option<VI::Result> {
        self.descend_visit(v)
    }
}

struct PathV<'p, A> {
    path: &'p [usize],
    d: usize,
    inner: &'p mut Vec<(Vec<u32>, Vec<A>)>,
}
impl<'p, K: DomKey, V: DomVal, A: Clone> DescendVisit<K, V, A> for PathV<'p, A> {
    type Result = Vec<(u32, u32)>;
    fn visit_inner(&mut self, keys: &[K], a: &[A]) -> DescendVisitResult<Self::Result> {
        // nodes already recorded on the common prefix are not recorded again
        if self.d >= self.inner.len() {
            self.inner.push((keys.iter().map(|k| k.ix()).collect(), a.to_vec()));
        }
        let i = self.path.get(self.d).copied().unwrap_or(0);
        self.d += 1;
        DescendVisitResult::GoDown(i)
    }
    fn visit_leaf(&mut self, keys: &[K], vals: &[V]) -> Option<Self::Result> {
        Some(keys.iter().zip(vals).map(|(k, v)| (k.ix(), v.ix())).collect())
    }
}

/// The whole tree, seen through one `descend_visit` per leaf.
pub fn dump<K: DomKey, V: DomVal, A: Augmentation<K, V>, T: Visitable<K, V, A>>(t: &T) -> Result<Shape<A>, String> {
    let mut path: Vec<usize> = vec![];
    let mut open: Vec<(Vec<u32>, Vec<A>)> = vec![];
    let mut kids: Vec<Vec<Shape<A>>> = vec![];
    loop {
        let keep = path.len();
        let leaf = t
            .visit(PathV { path: &path, d: 0, inner: &mut open })
            .ok_or_else(|| "descend_visit returned None although the leaf gave a result".to_string())?;
        ensure!(open.len() <= 64, "a descent passes more than 64 inner nodes");
        while path.len() < open.len() {
            path.push(0);
        }
        while kids.len() < open.len() {
            kids.push(vec![]);
        }
        let _ = keep;
        let mut s = Shape::Leaf(leaf);
        // close finished nodes
        loop {
            let Some(i) = path.pop() else { return Ok(s) };
            let d = path.len();
            kids[d].push(s);
            let n = open[d].0.len() + 1;
            if i + 1 < n {
                path.push(i + 1);
                break;
            }
            let (keys, augs) = open.pop().unwrap();
            s = Shape::Inner { keys, augs, kids: kids.pop().unwrap() };
        }
    }
}

pub fn canon_shape<A>(s: &Shape<A>, out: &mut Vec<u8>) {
    match s {
        Shape::Inner { keys, kids, .. } => {
            out.push(0xF0);
            out.push(keys.len() as u8);
            for k in keys {
                out.extend_from_slice(&(*k as u16).to_le_bytes());
            }
            for k in kids {
                canon_shape(k, out);
            }
        }
        Shape::Leaf(e) => {
            out.push(0xE0);
            out.push(e.len() as u8);
            for (k, _) in e {
                out.extend_from_slice(&(*k as u16).to_le_bytes());
            }
        }
    }
}
impl<A> Shape<A> {
    pub fn entries(&self) -> Vec<(u32, u32)> {
        match self {
            Shape::Inner { kids, .. } => kids.iter().flat_map(|k| k.entries()).collect(),
            Shape::Leaf(e) => e.clone(),
        }
    }
    pub fn levels(&self) -> usize {
        match self {
            Shape::Inner { kids, .. } => 1 + kids[0].levels(),
            Shape::Leaf(_) => 1,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Shape::Inner { kids, .. } => 1 + kids.iter().map(|k| k.nodes()).sum::<usize>(),
            Shape::Leaf(_) => 1,
        }
    }
    pub fn separators(&self) -> usize {
        match self {
            Shape::Inner { keys, kids, .. } => keys.len() + kids.iter().map(|k| k.separators()).sum::<usize>(),
            Shape::Leaf(_) => 0,
        }
    }
}

pub fn node_n() -> usize {
    <NodeStoreVec<u32, u32, ()> as NodeStore>::leaf_n() as usize
}

// ---------------------------------------------------------------------------------------------
// Case generators

/// single-key operations over the domain
pub fn alphabet(codes: &[u8], dom: u32) -> Vec<Op> {
    let mut v = vec![];
    for &c in codes {
        if c == CLEAR {
            v.push(op(CLEAR, 0));
        } else {
            for k in 0..dom {
                v.push(op(c, k));
            }
        }
    }
    v
}
/// the empty tree, and every bulk loaded tree over a prefix of the domain
pub fn roots(dom: u32, bulk: bool) -> Vec<Vec<Op>> {
    let mut r = vec![vec![]];
    if bulk {
        for n in 1..=dom as usize {
            r.push(vec![op(BULK, sized(0, n))]);
        }
    }
    r
}

/// Sizes at which something about node layout changes, for capacity n: all small ones, then
/// the neighbourhoods of split and node boundaries.
pub fn interesting_sizes(n: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=(3 * n + 2).min(max)).collect();
    let mut add = |x: usize| {
        for d in 0..3 {
            if x + d >= 1 && x + d - 1 <= max {
                v.push(x + d - 1);
            }
        }
    };
    let half = (n / 2).max(1);
    for mul in [half, n] {
        let mut j = 1;
        while mul * j <= 6 * n {
            add(mul * j);
            j += 1;
        }
    }
    // root inner node fills and splits
    add(half * (n + 1));
    add(half * (n + 1) + half);
    add(n * (n + 1));
    add(n * (n + 2));
    add(n * (n + 1) + 1);
    add(2 * n * (n + 1));
    add(half * (n + 2));
    v.sort();
    v.dedup();
    v
}

/// Plain machine over u32 keys without oracle, used to enumerate shapes
pub struct Plain(pub u32);
impl Machine for Plain {
    type W = TW<u32, u32, ()>;
    fn new(&self) -> Self::W {
        TW::new()
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        w.step(o).expect("op")
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        w.canon(self.0, out)
    }
    fn check(&self, _: Self::W) -> R {
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

/// every aggregate shown in the shape is the list of exactly the entries below it
pub fn free_ok(s: &Shape<crate::keys::Free>) -> bool {
    match s {
        Shape::Leaf(_) => true,
        Shape::Inner { augs, kids, .. } => augs.len() == kids.len() && augs.iter().zip(kids).all(|(a, k)| a.bad.is_none() && a.e == k.entries() && free_ok(k)),
    }
}
