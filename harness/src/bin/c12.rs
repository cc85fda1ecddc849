//! C12: the Count augmentation is an exact order statistic.
use sweep_bptree::augment::count::Count;
use sweep_bptree::BPlusTreeMap;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const RBA: u8 = 40;
const WRI: u8 = 41; // write through get_mut_by_augmentation
const CLONE: u8 = 42;
const RBAHALF: u8 = 43; // remove by augmentation, middle index, n times

struct M<K, V> {
    dom: u32,
    map: bool,
    _p: std::marker::PhantomData<fn() -> (K, V)>,
}
fn m<K, V>(dom: u32, map: bool) -> M<K, V> {
    M { dom, map, _p: std::marker::PhantomData }
}
struct W<K: DomKey, V: DomVal> {
    w: TW<K, V, Count>,
    map: BPlusTreeMap<K, V, Count>,
}
/// every query, on either container
macro_rules! queries {
    ($t:expr, $m:expr, $probes:expr, $K:ty, $V:ty) => {{
        let n = $m.len();
        let e: Vec<(u32, u32)> = $m.iter().map(|(k, v)| (*k, *v)).collect();
        let c = $t.root_augmentation().count();
        ensure!(c == n, "root_augmentation().count() is {c}, there are {n} entries");
        for i in (0..n + 3).chain([n * 2 + 7, usize::MAX - 1, usize::MAX]) {
            let g = $t.get_by_augmentation(i).map(|(k, v)| (k.ix(), v.ix()));
            ensure!(g == e.get(i).copied(), "get_by_augmentation({i}) of {n} is {g:?}, expected {:?}", e.get(i));
        }
        for k in $probes {
            let r = e.partition_point(|x| x.0 < k);
            let want = if $m.contains_key(&k) { Ok(r) } else { Err(r) };
            let g = $t.rank_by_augmentation(&<$K as DomKey>::mk(k));
            ensure!(g == want, "rank_by_augmentation({k}) is {g:?}, expected {want:?}");
        }
        bump(n as u64);
    }};
}
/// write a mark through every index in turn, and see it arrive at that entry and no other
macro_rules! writes {
    ($t:expr, $m:expr, $V:ty) => {{
        let e: Vec<(u32, u32)> = $m.iter().map(|(k, v)| (*k, *v)).collect();
        let n = e.len();
        for i in (0..n + 2).chain([usize::MAX]) {
            let g = $t.get_mut_by_augmentation(i).map(|v| {
                let old = v.ix();
                *v = <$V as DomVal>::mk(1_000_000 + i as u32);
                old
            });
            ensure!(g == e.get(i).map(|x| x.1), "get_mut_by_augmentation({i}) of {n} gives {g:?}, expected {:?}", e.get(i));
        }
        let l: Vec<(u32, u32)> = $t.iter().map(|(k, v)| (k.ix(), v.ix())).collect();
        for (i, (k, v)) in l.iter().enumerate() {
            let w = if <$V as DomVal>::EXACT { 1_000_000 + i as u32 } else { 0 };
            ensure!(*v == w && *k == e[i].0, "after writing through every index, entry {i} is ({k}, {v})");
        }
    }};
}
impl<K: DomKey, V: DomVal> M<K, V> {
    fn rba(&self, w: &mut W<K, V>, i: usize) -> R {
        let e = w.w.m.iter().nth(i).map(|(k, v)| (*k, *v));
        let g = w.w.t.remove_by_augmentation(i).map(|(k, v)| (k.ix(), v.ix()));
        ensure!(g == e, "remove_by_augmentation({i}) gave {g:?}, expected {e:?}");
        if let Some((k, _)) = e {
            w.w.m.remove(&k);
        }
        if self.map {
            let g = w.map.remove_by_augmentation(i).map(|(k, v)| (k.ix(), v.ix()));
            ensure!(g == e, "map.remove_by_augmentation({i}) gave {g:?}, expected {e:?}");
        }
        let c = w.w.t.root_augmentation().count();
        ensure!(c == w.w.m.len() && w.w.t.len() == c, "count {c}, len {}, expected {}", w.w.t.len(), w.w.m.len());
        Ok(())
    }
}
impl<K: DomKey, V: DomVal> Machine for M<K, V> {
    type W = W<K, V>;
    fn new(&self) -> Self::W {
        W { w: TW::new(), map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            RBA => self.rba(w, a as usize)?,
            RBAHALF => {
                for j in 0..a as usize {
                    let n = w.w.m.len();
                    self.rba(w, if j % 4 == 3 { n.saturating_sub(1) } else { n / 2 })?;
                    if n < 260 || j % 64 == 0 {
                        let p: Vec<u32> = w.w.m.keys().copied().skip((n / 2).saturating_sub(2)).take(4).flat_map(|k| [k, k + 1]).collect();
                        for k in p {
                            let r = w.w.m.range(..k).count();
                            let want = if w.w.m.contains_key(&k) { Ok(r) } else { Err(r) };
                            let g = w.w.t.rank_by_augmentation(&K::mk(k));
                            ensure!(g == want, "rank_by_augmentation({k}) is {g:?}, expected {want:?}");
                        }
                    }
                }
            }
            WRI => {
                let v = w.w.tick();
                let e = w.w.m.iter_mut().nth(a as usize).map(|(_, x)| std::mem::replace(x, v));
                let f = |r: &mut V| {
                    let old = r.ix();
                    *r = V::mk(v);
                    old
                };
                let g = w.w.t.get_mut_by_augmentation(a as usize).map(f);
                ensure!(g == e, "get_mut_by_augmentation({a}) gave {g:?}, expected {e:?}");
                if self.map {
                    let g = w.map.get_mut_by_augmentation(a as usize).map(f);
                    ensure!(g == e, "map.get_mut_by_augmentation({a}) gave {g:?}, expected {e:?}");
                }
            }
            CLONE => w.w.t = w.w.t.clone(),
            _ => {
                w.w.step(o).unwrap()?;
                if self.map {
                    match code(o) {
                        INS => {
                            w.map.insert(K::mk(a), V::mk(if V::EXACT { w.w.clock } else { 0 }));
                        }
                        DEL => {
                            w.map.remove(&K::mk(a));
                        }
                        _ => w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect(),
                    }
                }
            }
        }
        Ok(())
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out);
        // the counts the nodes carry: a wrong one makes a state of its own
        fn ok(s: &Shape<Count>) -> Option<usize> {
            match s {
                Shape::Leaf(e) => Some(e.len()),
                Shape::Inner { augs, kids, .. } => {
                    let mut n = 0;
                    for (a, k) in augs.iter().zip(kids) {
                        let c = ok(k)?;
                        if a.count() != c {
                            return None;
                        }
                        n += c;
                    }
                    Some(n)
                }
            }
        }
        let n = dump(&w.w.t).ok().and_then(|s| ok(&s));
        out.push((n == Some(w.w.t.root_augmentation().count())) as u8);
    }
    fn check(&self, w: Self::W) -> R {
        let mut w = w;
        let p: Vec<u32> = if self.dom > 0 { (0..self.dom + (self.dom > 1) as u32).collect() } else { w.w.probes() };
        let p: Vec<u32> = if p.len() > 3000 { p.into_iter().step_by(7).collect() } else { p };
        queries!(w.w.t, w.w.m, p.iter().copied(), K, V);
        writes!(w.w.t, w.w.m, V);
        if self.map {
            queries!(w.map, w.w.m, p.iter().copied(), K, V);
            writes!(w.map, w.w.m, V);
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        match code(o) {
            RBA => format!("remove_by_augmentation({})", arg(o)),
            RBAHALF => format!("remove_by_augmentation(middle or last) x{}", arg(o)),
            WRI => format!("write_by_augmentation({})", arg(o)),
            CLONE => "clone_and_drop_original".into(),
            _ => show_op(o),
        }
    }
}
fn al(d: u32) -> Vec<Op> {
    let mut v = alphabet(&[INS, DEL], d);
    for i in 0..=d {
        v.push(op(RBA, i));
        v.push(op(WRI, i));
    }
    v.push(op(CLEAR, 0));
    v.push(op(CLONE, 0));
    v
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 500_000 };
        v.push(entry("count", m::<u32, u32>(d, false), move |_| Space::Bfs { roots: roots(d, true), alphabet: al(d), depth: 100, cap }));
        v.push(entry("count-words", m::<u32, u32>(5, true), move |_| Space::Words { bases: roots(5, true), alphabet: al(5), m: if t { 4 } else { 3 } }));
        v.push(entry("count-map", m::<String, String>(5, true), move |_| Space::Bfs { roots: roots(5, true), alphabet: al(5), depth: 100, cap: 50_000 }));
        v.push(entry("count-zst", m::<ZK, ()>(1, true), move |_| Space::Bfs { roots: roots(1, true), alphabet: al(1), depth: 100, cap: 50_000 }));
    }
    v.push(entry("count-families", m::<u32, u32>(0, false), move |_| {
        let s = sizes(n, t);
        let mut l = forms(n, &s);
        for s in s {
            for b in BUILDERS {
                l.push(vec![op(b, sized(1, s)), op(RBAHALF, s as u32 / 2)]);
                l.push(vec![op(b, sized(1, s)), op(RBAHALF, s as u32 + 1)]);
                l.push(vec![op(b, sized(1, s)), op(RBAHALF, s as u32 * 9 / 10), op(INSGAPS, 0)]);
            }
        }
        Space::Cases { list: l, what: "every index and rank in every form of every size" }
    }));
    v.push(entry("count-deep", m::<u32, u32>(0, true), move |_| {
        let mut l = deep_forms(n, t);
        for f in deep_forms(n, t) {
            for tail in [vec![op(RBAHALF, 200)], vec![op(DELASC, spaced(arg(f[0])).1 as u32 / 2), op(RBAHALF, 200)]] {
                let mut c = f.clone();
                c.extend(tail);
                l.push(c);
            }
        }
        Space::Cases { list: l, what: "every index and rank in trees with one inner level more" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
