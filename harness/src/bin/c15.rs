//! C15: BPlusTreeSet behaves as an ordered set. A plain tree runs along only to name states.
use std::collections::BTreeSet;
use sweep_bptree::BPlusTreeSet;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const HAS: u8 = 40;
const HASQ: u8 = 41; // borrowed form
const DELQ: u8 = 42;
const FROM: u8 = 43; // from_iter of the keys in a bit mask, in an order with repetitions
const REFROM: u8 = 44; // collect(into_iter)
const SEQ: u8 = 45; // from_iter of the keys given by the digits, 3 bits each, 0 ends
const ORD: u8 = 46; // from_iter of many keys in one of the orders of `input`
fn input(a: u32) -> Vec<u32> {
    let (kind, n) = (a >> 16, a & 0xffff);
    let key = |i: u32| 2 * i + 1;
    let up = 0..n;
    let mut v: Vec<u32> = match kind {
        0 => up.rev().map(key).collect(),
        1 => up.map(|i| key(if (i ^ 1) < n { i ^ 1 } else { i })).collect(),
        2 => up.map(|i| key((i + n / 2 + 1) % n)).collect(),
        3 => (0..n).step_by(2).chain((1..n).step_by(2)).map(key).collect(),
        4 => order(ZIG, n as usize).into_iter().map(|i| key(i as u32)).collect(),
        5 => {
            // blocks of 7 in descending order, each ascending
            let mut v: Vec<u32> = vec![];
            for b in (0..n.div_ceil(7)).rev() {
                v.extend((7 * b..(7 * b + 7).min(n)).map(key));
            }
            v
        }
        // one key out of place
        6 => (1..n).chain((n > 0).then_some(0)).map(key).collect(),
        7 => (n > 0).then(|| n - 1).into_iter().chain(0..n.saturating_sub(1)).map(key).collect(),
        _ => (0..n).map(|i| key(if i == n / 2 { n / 2 + 1 } else if i == n / 2 + 1 { n / 2 } else { i }).min(2 * n)).collect(),
    };
    if kind % 2 == 1 {
        let again: Vec<u32> = v.iter().rev().step_by(3).copied().collect();
        v.extend(again);
    }
    v
}
fn digits(a: u32) -> Vec<u32> {
    (0..8).map(|i| a >> (3 * i) & 7).take_while(|d| *d > 0).map(|d| d - 1).collect()
}

trait SK: DomKey {
    fn hasq(s: &BPlusTreeSet<Self>, k: u32) -> bool;
    fn delq(s: &mut BPlusTreeSet<Self>, k: u32) -> bool;
}
impl SK for u32 {
    fn hasq(s: &BPlusTreeSet<u32>, k: u32) -> bool {
        s.contains(&k)
    }
    fn delq(s: &mut BPlusTreeSet<u32>, k: u32) -> bool {
        s.remove(&k)
    }
}
impl SK for String {
    fn hasq(s: &BPlusTreeSet<String>, k: u32) -> bool {
        let k = sk(k);
        let q: &str = &k;
        s.contains(q)
    }
    fn delq(s: &mut BPlusTreeSet<String>, k: u32) -> bool {
        let k = sk(k);
        let q: &str = &k;
        s.remove(q)
    }
}
impl SK for ZK {
    fn hasq(s: &BPlusTreeSet<ZK>, _: u32) -> bool {
        s.contains(&ZK)
    }
    fn delq(s: &mut BPlusTreeSet<ZK>, _: u32) -> bool {
        s.remove(&ZK)
    }
}

struct M<K> {
    dom: u32,
    _p: std::marker::PhantomData<fn() -> K>,
}
fn m<K>(dom: u32) -> M<K> {
    M { dom, _p: std::marker::PhantomData }
}
struct W<K: SK> {
    s: BPlusTreeSet<K>,
    m: BTreeSet<u32>,
    t: TW<K, (), ()>,
}
impl<K: SK> M<K> {
    fn ends(&self, w: &W<K>) -> R {
        ensure!(w.s.len() == w.m.len(), "len() is {}, expected {}", w.s.len(), w.m.len());
        ensure!(w.s.is_empty() == w.m.is_empty(), "is_empty() is {}", w.s.is_empty());
        let (f, l) = (w.s.first().map(|k| k.ix()), w.s.last().map(|k| k.ix()));
        ensure!(f == w.m.first().copied(), "first() is {f:?}, expected {:?}", w.m.first());
        ensure!(l == w.m.last().copied(), "last() is {l:?}, expected {:?}", w.m.last());
        Ok(())
    }
    fn ins(&self, w: &mut W<K>, k: u32) -> R {
        let g = w.s.insert(K::mk(k));
        let e = w.m.insert(k);
        ensure!(g == e, "insert({k}) returned {g}, expected {e}");
        ensure!(w.s.len() == w.m.len(), "after insert({k}) len() is {}, expected {}", w.s.len(), w.m.len());
        Ok(())
    }
    fn del(&self, w: &mut W<K>, k: u32, q: bool) -> R {
        let g = if q { K::delq(&mut w.s, k) } else { w.s.remove(&K::mk(k)) };
        let e = w.m.remove(&k);
        ensure!(g == e, "remove({k}) returned {g}, expected {e}");
        ensure!(w.s.len() == w.m.len(), "after remove({k}) len() is {}, expected {}", w.s.len(), w.m.len());
        Ok(())
    }
}
impl<K: SK> Machine for M<K> {
    type W = W<K>;
    fn new(&self) -> W<K> {
        W { s: if self.dom % 2 == 0 { BPlusTreeSet::new() } else { BPlusTreeSet::default() }, m: BTreeSet::new(), t: TW::new() }
    }
    fn step(&self, w: &mut W<K>, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            INS => {
                self.ins(w, a)?;
                if self.dom > 0 {
                    w.t.step(o).unwrap()?;
                }
            }
            DEL | DELQ => {
                self.del(w, a, code(o) == DELQ)?;
                if self.dom > 0 {
                    w.t.step(op(DEL, a)).unwrap()?;
                }
            }
            HAS | HASQ => {
                let g = if code(o) == HAS { w.s.contains(&K::mk(a)) } else { K::hasq(&w.s, a) };
                ensure!(g == w.m.contains(&a), "contains({a}) is {g}");
                if self.dom > 0 {
                    w.t.step(op(GET, a)).unwrap()?;
                }
            }
            CLEAR => {
                w.s.clear();
                w.m.clear();
                w.t.step(o).unwrap()?;
            }
            BULK => {
                let (f, n) = spaced(a);
                w.s = (0..n).map(|i| K::mk(key_of(f, i))).collect();
                w.m = (0..n).map(|i| key_of(f, i)).collect();
                if self.dom > 0 {
                    w.t.step(o).unwrap()?;
                }
            }
            FROM => {
                let ks: Vec<u32> = (0..20).filter(|k| a >> k & 1 == 1).collect();
                let v: Vec<u32> = ks.iter().rev().chain(ks.iter().step_by(2)).copied().collect();
                w.s = v.into_iter().map(K::mk).collect();
                w.m = ks.iter().copied().collect();
                w.t.t = sweep_bptree::BPlusTree::bulk_load(ks.iter().map(|k| (K::mk(*k), ())).collect());
                w.t.m = ks.iter().map(|k| (*k, 0)).collect();
            }
            SEQ | ORD => {
                let v = if code(o) == SEQ { digits(a) } else { input(a) };
                w.m = v.iter().copied().collect();
                w.s = v.into_iter().map(K::mk).collect();
            }
            REFROM => {
                let s = std::mem::take(&mut w.s);
                let v: Vec<K> = s.into_iter().collect();
                ensure!(v.iter().map(|k| k.ix()).eq(w.m.iter().copied()), "into_iter lists {:?}, expected {:?}", v.iter().map(|k| k.ix()).collect::<Vec<_>>(), w.m);
                ensure!(w.s.is_empty() && w.s.first().is_none(), "a default set is not empty");
                w.s = v.into_iter().rev().collect();
                w.t.t = sweep_bptree::BPlusTree::bulk_load(w.m.iter().map(|k| (K::mk(*k), ())).collect());
            }
            ASC | DESC | MIDOUT | ZIG => {
                let (f, n) = spaced(a);
                for i in order(code(o), n) {
                    self.ins(w, key_of(f, i))?;
                }
            }
            DELASC => {
                for _ in 0..a {
                    let Some(k) = w.m.first().copied() else { break };
                    self.del(w, k, false)?;
                }
            }
            DELDESC => {
                for _ in 0..a {
                    let Some(k) = w.m.last().copied() else { break };
                    self.del(w, k, true)?;
                }
            }
            DELMID => {
                for _ in 0..a {
                    let (Some(lo), Some(hi)) = (w.m.first(), w.m.last()) else { break };
                    let k = *w.m.range(lo + (hi - lo) / 2..).next().unwrap();
                    self.del(w, k, false)?;
                }
            }
            DELODD => {
                let l: Vec<u32> = w.m.iter().copied().skip(1).step_by(2).collect();
                for k in l {
                    self.del(w, k, true)?;
                    self.del(w, k, false)?;
                }
            }
            INSGAPS => {
                let l: Vec<u32> = w.m.iter().map(|k| k + 1).collect();
                for k in l {
                    self.ins(w, k)?;
                }
            }
            _ => return Err("op".into()),
        }
        self.ends(w)
    }
    fn canon(&self, w: &W<K>, out: &mut Vec<u8>) {
        w.t.canon(self.dom, out);
        let same = w.s.len() == w.m.len() && w.s.iter().map(|k| k.ix()).eq(w.m.iter().copied()) && w.s.iter().rev().map(|k| k.ix()).eq(w.m.iter().rev().copied());
        out.push(same as u8);
    }
    fn check(&self, w: W<K>) -> R {
        self.ends(&w)?;
        let probes: Vec<u32> = if self.dom > 0 { (0..self.dom).collect() } else { w.m.iter().flat_map(|k| [k.saturating_sub(1), *k, k + 1]).collect() };
        for &k in &probes {
            let g = (w.s.contains(&K::mk(k)), K::hasq(&w.s, k));
            let e = w.m.contains(&k);
            ensure!(g == (e, e), "contains({k}) is {g:?} (owned, borrowed), expected {e}");
        }
        let up: Vec<u32> = w.m.iter().copied().collect();
        let n = up.len();
        ensure!(w.s.iter().map(|k| k.ix()).eq(up.iter().copied()), "iter() lists {:?}, expected {up:?}", w.s.iter().map(|k| k.ix()).collect::<Vec<_>>());
        ensure!(w.s.iter().rev().map(|k| k.ix()).eq(up.iter().rev().copied()), "iter().rev() lists {:?}", w.s.iter().rev().map(|k| k.ix()).collect::<Vec<_>>());
        // every front/back interleaving of small sets, a few of large ones
        let pats: Vec<u32> = if n <= 6 { (0..1u32 << n).collect() } else { vec![0, u32::MAX, 0x5555_5555, 0x0f0f_0f0f] };
        for p in pats {
            let (mut lo, mut hi) = (0, n);
            let mut it = w.s.iter();
            for i in 0..n + 2 {
                ensure!(it.len() == hi - lo, "iter().len() is {} where {} remain", it.len(), hi - lo);
                let back = p >> (i % 32) & 1 == 1;
                let g = if back { it.next_back() } else { it.next() }.map(|k| k.ix());
                let e = if lo == hi {
                    None
                } else if back {
                    hi -= 1;
                    Some(up[hi])
                } else {
                    lo += 1;
                    Some(up[lo - 1])
                };
                ensure!(g == e, "iter() yields {g:?}, expected {e:?}");
            }
            bump(1);
        }
        // what iterators may override, called on them directly
        ensure!(w.s.iter().last().map(|k| k.ix()) == up.last().copied(), "iter().last()");
        ensure!(w.s.iter().min().map(|k| k.ix()) == up.first().copied(), "iter().min()");
        ensure!(w.s.iter().max().map(|k| k.ix()) == up.last().copied(), "iter().max()");
        ensure!(w.s.iter().count() == n, "iter().count()");
        for j in [0, 1, n / 2, n.saturating_sub(1), n] {
            let back = (j < n).then(|| up[n - 1 - j % n.max(1)]);
            let left = n.saturating_sub(j + 1);
            let mut it = w.s.iter();
            let g = it.nth(j).map(|k| k.ix());
            ensure!(g == up.get(j).copied(), "iter().nth({j}) is {g:?}");
            ensure!(it.len() == left && it.next().map(|k| k.ix()) == up.get(j + 1).copied(), "iter() after nth({j})");
            let mut it = w.s.iter();
            let g = it.nth_back(j).map(|k| k.ix());
            ensure!(g == back, "iter().nth_back({j}) is {g:?}");
            ensure!(it.len() == left && it.next().map(|k| k.ix()) == if left > 0 { Some(up[0]) } else { None }, "iter() after nth_back({j})");
        }
        let l = w.s.iter().fold(vec![], |mut v, k| {
            v.push(k.ix());
            v
        });
        ensure!(l == up, "iter().fold() sees {l:?}");
        let mut it = w.s.into_iter();
        let (mut lo, mut hi) = (0, n);
        for i in 0..n + 2 {
            ensure!(it.len() == hi - lo, "into_iter().len() is {} where {} remain", it.len(), hi - lo);
            let back = i % 3 == 2;
            let g = if back { it.next_back() } else { it.next() }.map(|k| k.ix());
            let e = if lo == hi {
                None
            } else if back {
                hi -= 1;
                Some(up[hi])
            } else {
                lo += 1;
                Some(up[lo - 1])
            };
            ensure!(g == e, "into_iter() yields {g:?}, expected {e:?}");
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            HAS => format!("contains({a})"),
            HASQ => format!("contains(borrowed {a})"),
            DELQ => format!("remove(borrowed {a})"),
            FROM => format!("from_iter({:?} descending, every other one repeated)", (0..20).filter(|k| a >> k & 1 == 1).collect::<Vec<_>>()),
            REFROM => "into_iter+collect".into(),
            SEQ => format!("from_iter({:?})", digits(a)),
            ORD => format!("from_iter({:?})", input(a)),
            BULK => show_op(o).replace("bulk_load", "from_iter"),
            _ => show_op(o),
        }
    }
}
const OPS: [u8; 6] = [INS, DEL, HAS, HASQ, DELQ, CLEAR];
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 300_000 };
        v.push(entry("set", m::<u32>(d), move |_| Space::Bfs { roots: roots(d, true), alphabet: alphabet(&[INS, DEL, HAS, CLEAR], d), depth: 100, cap }));
        let e = dom_for(n, if t { 2 } else { 1 });
        v.push(entry("set-string", m::<String>(e), move |_| {
            let mut a = alphabet(&OPS, e);
            a.push(op(REFROM, 0));
            Space::Bfs { roots: roots(e, true), alphabet: a, depth: 100, cap: 60_000 }
        }));
        v.push(entry("set-zst", m::<ZK>(1), move |_| Space::Bfs { roots: roots(1, true), alphabet: alphabet(&OPS, 1), depth: 100, cap: 60_000 }));
        // every subset through from_iter, then every word
        v.push(entry("set-from-iter", m::<u32>(6), move |_| {
            let b = (0..64).map(|x| vec![op(FROM, x)]).collect();
            Space::Words { bases: b, alphabet: alphabet(&[INS, DEL], 6), m: if t { 4 } else { 3 } }
        }));
        // every sequence of items
        v.push(entry("set-from-seq", m::<u32>(0), move |_| {
            let mut l: Vec<Vec<Op>> = vec![vec![op(SEQ, 0)]];
            let mut from = 0;
            for len in 0..if t { 7 } else { 6u32 } {
                let to = l.len();
                for i in from..to {
                    for d in 1..=6 {
                        l.push(vec![op(SEQ, arg(l[i][0]) | d << (3 * len))]);
                    }
                }
                from = to;
            }
            Space::Cases { list: l, what: "from_iter of every sequence of items" }
        }));
        v.push(entry("set-words", m::<u32>(5), move |_| {
            let mut a = alphabet(&[INS, DEL, HAS], 5);
            a.extend([op(CLEAR, 0), op(REFROM, 0)]);
            Space::Words { bases: roots(5, true), alphabet: a, m: if t { 5 } else { 4 } }
        }));
    }
    v.push(entry("set-from-order", m::<u32>(0), move |_| {
        let max = if n <= 8 { 70 } else if t { 5 * n } else { 3 * n + 3 };
        let mut l: Vec<Vec<Op>> = vec![];
        for s in 0..=max as u32 {
            for kind in 0..9 {
                l.push(vec![op(ORD, kind << 16 | s)]);
                if s % 5 == 2 {
                    l.push(vec![op(ORD, kind << 16 | s), op(DELODD, 0), op(INSGAPS, 0), op(DELASC, s)]);
                }
            }
        }
        Space::Cases { list: l, what: "from_iter of every size in many orders" }
    }));
    v.push(entry("set-families", m::<u32>(0), move |_| Space::Cases { list: families(n, t), what: "builder x drain families" }));
    v.push(entry("set-families-string", m::<String>(0), move |_| Space::Cases {
        list: families(n, t).into_iter().filter(|c| spaced(arg(c[0])).1 < 280).collect(),
        what: "builder x drain families, heap keys",
    }));
    v.push(entry("set-deep", m::<u32>(0), move |_| Space::Cases {
        list: deep_families(n, t).into_iter().filter(|c| t || n <= 8 || code(c[0]) == ASC || code(c[0]) == BULK).collect(),
        what: "trees with one inner level more, drained and refilled",
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
