//! C01: point operations refine an ordered map. Tree and map run in lockstep with a BTreeMap.
use std::marker::PhantomData;
use sweep_bptree::{BPlusTree, BPlusTreeMap, NodeStoreVec};
use sweep_mc::cli::{main as run, Args, Plan};
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::families;
use sweep_mc::tree::*;

struct M<K, V> {
    dom: u32,
    big: bool,
    /// the tree is made with NodeStoreVec::with_capacity
    cap: Option<usize>,
    _p: PhantomData<fn() -> (K, V)>,
}
fn m<K, V>(dom: u32, big: bool) -> M<K, V> {
    M { dom, big, cap: None, _p: PhantomData }
}
fn mc(dom: u32, big: bool, cap: usize) -> M<u32, u32> {
    M { dom, big, cap: Some(cap), _p: PhantomData }
}
struct W<K: DomKey, V: DomVal> {
    w: TW<K, V, ()>,
    map: BPlusTreeMap<K, V>,
}
impl<K: DomKey, V: DomVal> M<K, V> {
    fn map_step(&self, w: &mut W<K, V>, o: Op, before: &Model) -> R {
        let a = arg(o);
        let v = w.w.clock;
        let v = if V::EXACT { v } else { 0 };
        let (got, want) = match code(o) {
            INS => (w.map.insert(K::mk(a), V::mk(v)).map(|x| x.ix()), before.get(&a).copied()),
            DEL => (w.map.remove(&K::mk(a)).map(|x| x.ix()), before.get(&a).copied()),
            WR => (w.map.get_mut(&K::mk(a)).map(|x| {
                let old = x.ix();
                *x = V::mk(v);
                old
            }), before.get(&a).copied()),
            GET => (w.map.get(&K::mk(a)).map(|x| x.ix()), before.get(&a).copied()),
            GETM => (w.map.get_mut(&K::mk(a)).map(|x| x.ix()), before.get(&a).copied()),
            _ => {
                // the map has no clear and no bulk_load of its own: rebuild it from the reference
                w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect();
                (None, None)
            }
        };
        ensure!(got == want, "BPlusTreeMap: {} gave {got:?}, expected {want:?}", show_op(o));
        ensure!(w.map.len() == w.w.m.len() && w.map.is_empty() == w.w.m.is_empty(), "BPlusTreeMap: len {} expected {}", w.map.len(), w.w.m.len());
        Ok(())
    }
}
impl<K: DomKey, V: DomVal> Machine for M<K, V> {
    type W = W<K, V>;
    fn new(&self) -> W<K, V> {
        let mut w = TW::new();
        if let Some(c) = self.cap {
            w.t = BPlusTree::new(NodeStoreVec::with_capacity(c));
        }
        W { w, map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut W<K, V>, o: Op) -> R {
        if self.big {
            return w.w.step(o).expect("op");
        }
        let before = w.w.m.clone();
        w.w.step(o).expect("op")?;
        self.map_step(w, o, &before)
    }
    fn canon(&self, w: &W<K, V>, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, w: W<K, V>) -> R {
        if self.big {
            return w.w.full(w.w.probes().into_iter());
        }
        // each key as the first lookup after the history: the cache is as the history left it
        w.w.full(0..self.dom)?;
        for k in 0..self.dom {
            let (g, e) = (w.map.get(&K::mk(k)).map(|v| v.ix()), w.w.m.get(&k).copied());
            ensure!(g == e, "BPlusTreeMap: get({k}) is {g:?}, expected {e:?}");
        }
        let l: Vec<(u32, u32)> = w.map.iter().map(|(k, v)| (k.ix(), v.ix())).collect();
        let e: Vec<(u32, u32)> = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
        ensure!(l == e, "BPlusTreeMap: entries {l:?}, expected {e:?}");
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

struct P;
static PLAN: P = P;
const OPS: [u8; 6] = [INS, DEL, GET, WR, GETM, CLEAR];

/// two operations at every pair of positions
fn position_pairs(sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for &s in sizes {
        for b in [ASC, BULK] {
            let base = op(b, sized(1, s));
            let one: Vec<Op> = (0..=2 * s as u32).map(|i| op(if i % 2 == 1 { DEL } else { INS }, i)).collect();
            for x in &one {
                v.extend(one.iter().map(|y| vec![base, *x, *y]));
            }
        }
    }
    v
}
/// one operation at every position of trees of every interesting size
pub fn positions(n: usize, sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for &s in sizes {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for i in 0..s {
                v.push(vec![base, op(DEL, 2 * i as u32 + 1)]);
            }
            for i in 0..=s {
                v.push(vec![base, op(INS, 2 * i as u32)]);
            }
        }
    }
    let _ = n;
    v
}

impl Plan for P {
    fn explore(&self, cx: &Ctx, a: &Args) {
        let n = node_n();
        let t = a.thorough;
        if n <= 8 {
            let (d, depth) = match (n, t) {
                (2, false) => (8, 60),
                (2, true) => (10, 60),
                (_, false) => (9, 60),
                (_, true) => (11, 60),
            };
            cx.bfs("u32", &m::<u32, u32>(d, false), &roots(d, true), &alphabet(&OPS, d), depth, if t { 4_000_000 } else { 400_000 });
            cx.words("u32-words", &m::<u32, u32>(6, false), &roots(6, true), &alphabet(&[INS, DEL, GET], 6), if t { 5 } else { 4 });
            cx.bfs("string-string", &m::<String, String>(6, false), &roots(6, true), &alphabet(&OPS, 6), 60, 20_000);
            cx.bfs("u32-unit", &m::<u32, ()>(6, false), &roots(6, true), &alphabet(&OPS, 6), 60, 20_000);
            cx.bfs("rev-big", &m::<RevK, Big>(6, false), &roots(6, true), &alphabet(&OPS, 6), 60, 20_000);
            cx.bfs("zst", &m::<ZK, u32>(1, false), &roots(1, true), &alphabet(&OPS, 1), 60, 20_000);
            cx.bfs("zst-zst", &m::<ZK, ()>(1, false), &roots(1, true), &alphabet(&OPS, 1), 60, 20_000);
            cx.cases("big", &m::<u32, u32>(0, true), &families(n, t), "builder x drain families");
            for c in [0, 1, 3, 100] {
                let name = format!("with-capacity-{c}");
                cx.bfs(&name, &mc(7, false, c), &[vec![]], &alphabet(&OPS, 7), 60, 400_000);
            }
        } else {
            cx.cases("with-capacity-2", &mc(0, true, 2), &families(n, false).into_iter().filter(|c| spaced(arg(c[0])).1 < 2000).collect::<Vec<_>>(), "builder x drain families");
            cx.cases("big", &m::<u32, u32>(0, true), &families(n, t), "builder x drain families");
            let mut sizes: Vec<usize> = vec![1, 15, 16, 17, 63, 64, 65, 66, 95, 96, 97, 127, 128, 129, 130, 193];
            if t {
                sizes = (1..260).collect();
            }
            cx.cases("big", &m::<u32, u32>(0, true), &positions(n, &sizes), "one insertion or removal at every position");
            cx.cases("big", &m::<u32, u32>(0, true), &position_pairs(if t { &[63, 64, 65, 66, 80, 96, 97, 112, 128, 129, 130, 192, 193] } else { &[63, 64, 65, 66, 80, 96, 97, 112, 128, 129] }), "an operation at every pair of positions");
            // one level more than any other tree here: four inner nodes on every path
            let d = |b: u8, n: usize| op(b, sized(1, n));
            let mut deep = vec![
                vec![d(ASC, 2_300_000), op(DELASC, 400_000)],
                vec![d(DESC, 2_300_000), op(DELDESC, 400_000), op(INS, 0)],
                vec![d(BULK, 2_300_000), op(DELODD, 0)],
            ];
            if t {
                deep.push(vec![d(ASC, 2_300_000), op(DELODD, 0), op(INSGAPS, 0), op(DELASC, 2_300_000)]);
                deep.push(vec![d(ZIG, 2_400_000), op(DELMID, 2_400_000)]);
                deep.push(vec![d(DESC, 4_100_000), op(DELDESC, 4_100_000)]);
                deep.push(vec![d(BULK, 4_100_000), op(INSGAPS, 0)]);
            }
            cx.cases("deep", &m::<u32, u32>(0, true), &deep, "trees with four inner levels");
            cx.cases("bigstr", &m::<String, Big>(0, true), &families(n, false).into_iter().filter(|c| spaced(arg(c[0])).1 < 400).collect::<Vec<_>>(), "builder x drain families, heap keys");
        }
    }
    fn find(&self, name: &str) -> Option<Box<dyn Suite>> {
        Some(match name {
            "u32" => Box::new(m::<u32, u32>(12, false)),
            "u32-words" => Box::new(m::<u32, u32>(6, false)),
            "string-string" => Box::new(m::<String, String>(6, false)),
            "u32-unit" => Box::new(m::<u32, ()>(6, false)),
            "rev-big" => Box::new(m::<RevK, Big>(6, false)),
            _ if name.starts_with("with-capacity-") => Box::new(mc(if node_n() <= 8 { 7 } else { 0 }, node_n() > 8, name["with-capacity-".len()..].parse().ok()?)),
            "zst" => Box::new(m::<ZK, u32>(1, false)),
            "zst-zst" => Box::new(m::<ZK, ()>(1, false)),
            "deep" | "big" => Box::new(m::<u32, u32>(0, true)),
            "bigstr" => Box::new(m::<String, Big>(0, true)),
            _ => return None,
        })
    }
}
fn main() {
    run(&PLAN)
}
