//! C11: aggregates always equal a recomputation. The free monoid makes the aggregate the list of
//! entries itself, so its equality implies that of every other augmentation.
use sweep_bptree::augment::{Augmentation, SearchAugmentation};
use sweep_bptree::BPlusTreeMap;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const RBA: u8 = 40;
const CLONE: u8 = 41;
const MAPIT: u8 = 42; // rebuild the map by from_iter, descending, keys repeated

trait Aug<K: DomKey, V: DomVal>: SearchAugmentation<K, V> + std::fmt::Debug + 'static {
    fn of(e: &[(u32, u32)]) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn query(i: usize) -> Self::Query;
}
impl<K: DomKey, V: DomVal> Aug<K, V> for Free {
    fn of(e: &[(u32, u32)]) -> Free {
        Free { e: e.to_vec(), bad: None }
    }
    fn same(&self, o: &Free) -> bool {
        self == o
    }
    fn query(i: usize) -> FQ {
        FQ::new(Pick::All, i, false)
    }
}
/// order-sensitive hash with length, for big trees
#[derive(Clone, Copy, Debug, Default)]
struct P(Poly);
impl<K: DomKey, V: DomVal> Augmentation<K, V> for P {
    fn from_inner(k: &[K], a: &[P]) -> P {
        let v: Vec<Poly> = a.iter().map(|p| p.0).collect();
        P(<Poly as Augmentation<K, V>>::from_inner(k, &v))
    }
    fn from_leaf(k: &[K], v: &[V]) -> P {
        P(Poly::from_leaf(k, v))
    }
}
impl<K: DomKey, V: DomVal> SearchAugmentation<K, V> for P {
    type Query = usize;
    fn locate_in_leaf(i: usize, k: &[K], _: &[V]) -> Option<usize> {
        (i < k.len()).then_some(i)
    }
    fn locate_in_inner(mut i: usize, _: &[K], a: &[P]) -> Option<(usize, usize)> {
        for (j, p) in a.iter().enumerate() {
            if i < p.0.n {
                return Some((j, i));
            }
            i -= p.0.n;
        }
        None
    }
}
impl<K: DomKey, V: DomVal> Aug<K, V> for P {
    fn of(e: &[(u32, u32)]) -> P {
        let mut p = Poly::default();
        e.iter().for_each(|(k, v)| poly_push(&mut p, *k, *v));
        P(p)
    }
    fn same(&self, o: &P) -> bool {
        self.0 == o.0
    }
    fn query(i: usize) -> usize {
        i
    }
}

fn kids_ok<K: DomKey, V: DomVal, A: Aug<K, V>>(s: &Shape<A>, path: &mut Vec<usize>) -> Result<Vec<(u32, u32)>, String> {
    match s {
        Shape::Leaf(e) => Ok(e.clone()),
        Shape::Inner { keys, augs, kids } => {
            ensure!(augs.len() == keys.len() + 1 && kids.len() == augs.len(), "inner node at {path:?} shows {} keys, {} augmentations", keys.len(), augs.len());
            let mut all = vec![];
            for (i, k) in kids.iter().enumerate() {
                path.push(i);
                let e = kids_ok::<K, V, A>(k, path)?;
                path.pop();
                let w = A::of(&e);
                ensure!(augs[i].same(&w), "augmentation of child {i} of the inner node at {path:?} is {:?}, recomputed {w:?}", augs[i]);
                bump(1);
                all.extend(e);
            }
            Ok(all)
        }
    }
}
fn ok<K: DomKey, V: DomVal, A: Aug<K, V>>(w: &TW<K, V, A>) -> R {
    root_ok(w)?;
    let e = kids_ok::<K, V, A>(&dump(&w.t)?, &mut vec![])?;
    ensure!(e.len() == w.m.len(), "the leaves shown hold {} entries, {} are due", e.len(), w.m.len());
    Ok(())
}
fn root_ok<K: DomKey, V: DomVal, A: Aug<K, V>>(w: &TW<K, V, A>) -> R {
    let e: Vec<(u32, u32)> = w.m.iter().map(|(k, v)| (*k, *v)).collect();
    let want = A::of(&e);
    ensure!(w.t.root_augmentation().same(&want), "root_augmentation is {:?}, recomputed {want:?}", w.t.root_augmentation());
    Ok(())
}
fn each_big<K: DomKey, V: DomVal, A: Aug<K, V>>(w: &TW<K, V, A>) -> R {
    let n = w.m.len();
    let c = node_n();
    if n <= 200 || n % 61 == 0 || (n % (c / 2) <= 1 && n < 10 * c) {
        ok(w)
    } else if n % 7 == 0 {
        root_ok(w)
    } else {
        Ok(())
    }
}
fn each_deep<K: DomKey, V: DomVal, A: Aug<K, V>>(w: &TW<K, V, A>) -> R {
    let n = w.m.len();
    if n % if node_n() > 8 { 4001 } else { 61 } == 0 || n % 97 == 0 && n < 3000 {
        ok(w)
    } else if n % 503 == 0 {
        root_ok(w)
    } else {
        Ok(())
    }
}

struct M<K: DomKey, V: DomVal, A: Aug<K, V>> {
    dom: u32,
    map: bool,
    each: Option<fn(&TW<K, V, A>) -> R>,
}
struct W<K: DomKey, V: DomVal, A: Augmentation<K, V>> {
    w: TW<K, V, A>,
    map: BPlusTreeMap<K, V, A>,
}
impl<K: DomKey, V: DomVal, A: Aug<K, V>> Machine for M<K, V, A> {
    type W = W<K, V, A>;
    fn new(&self) -> Self::W {
        let mut w = TW::new();
        w.each = self.each;
        W { w, map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            RBA => {
                let e = w.w.m.iter().nth(a as usize).map(|(k, v)| (*k, *v));
                let g = w.w.t.remove_by_augmentation(A::query(a as usize)).map(|(k, v)| (k.ix(), v.ix()));
                ensure!(g == e, "remove_by_augmentation({a}) gave {g:?}, expected {e:?}");
                if let Some((k, _)) = e {
                    w.w.m.remove(&k);
                }
                if self.map {
                    let g = w.map.remove_by_augmentation(A::query(a as usize)).map(|(k, v)| (k.ix(), v.ix()));
                    ensure!(g == e, "map.remove_by_augmentation({a}) gave {g:?}, expected {e:?}");
                }
            }
            CLONE => w.w.t = w.w.t.clone(),
            MAPIT => {
                // each key twice, the later one being the one that counts
                let v: Vec<(K, V)> = w.w.m.iter().rev().map(|(k, _)| (K::mk(*k), V::mk(0))).chain(w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v)))).collect();
                w.map = v.into_iter().collect();
            }
            _ => {
                w.w.step(o).unwrap()?;
                if self.map {
                    match code(o) {
                        INS => {
                            w.map.insert(K::mk(a), V::mk(if V::EXACT { w.w.clock } else { 0 }));
                        }
                        DEL => {
                            w.map.remove(&K::mk(a));
                        }
                        _ => w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect(),
                    }
                }
            }
        }
        complaint()?;
        if self.each.is_some() {
            ok(&w.w)?;
        }
        Ok(())
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out);
        // an aggregate that disagrees with the contents makes a state of its own
        out.push(ok(&w.w).is_ok() as u8);
    }
    fn check(&self, w: Self::W) -> R {
        ok(&w.w)?;
        if self.map {
            let e: Vec<(u32, u32)> = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
            ensure!(w.map.root_augmentation().same(&A::of(&e)), "map.root_augmentation is {:?}, the entries are {e:?}", w.map.root_augmentation());
            kids_ok::<K, V, A>(&dump(&w.map)?, &mut vec![]).map_err(|e| format!("map: {e}"))?;
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        match code(o) {
            RBA => format!("remove_by_augmentation({})", arg(o)),
            CLONE => "clone_and_drop_original".into(),
            MAPIT => "map_from_iter".into(),
            _ => show_op(o),
        }
    }
}
fn al(d: u32) -> Vec<Op> {
    let mut v = alphabet(&[INS, DEL], d);
    for i in 0..=d {
        v.push(op(RBA, i));
    }
    v.push(op(CLEAR, 0));
    v.push(op(CLONE, 0));
    v
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    let fam = |max: usize| -> Vec<Vec<Op>> {
        let mut l: Vec<Vec<Op>> = families(n, t).into_iter().filter(|c| spaced(arg(c[0])).1 <= max).collect();
        // removal by query all the way down, from both ends
        for s in sizes(n, t).into_iter().filter(|s| *s <= max.min(400)) {
            for b in BUILDERS {
                let mut c = vec![op(b, sized(1, s))];
                c.extend((0..s).map(|i| op(RBA, if i % 3 == 0 { 0 } else { ((s - i) / 2) as u32 })));
                l.push(c);
            }
        }
        l
    };
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 500_000 };
        v.push(entry("free", M::<u32, u32, Free> { dom: d, map: false, each: None }, move |_| Space::Bfs { roots: roots(d, true), alphabet: al(d), depth: 100, cap }));
        v.push(entry("free-words", M::<u32, u32, Free> { dom: 6, map: true, each: None }, move |_| {
            let mut a = al(6);
            a.push(op(MAPIT, 0));
            Space::Words { bases: roots(6, true), alphabet: a, m: if t { 4 } else { 3 } }
        }));
        v.push(entry("free-string", M::<String, String, Free> { dom: 5, map: true, each: None }, move |_| Space::Bfs { roots: roots(5, true), alphabet: al(5), depth: 100, cap: 50_000 }));
        let l = fam(if t { 300 } else { 100 });
        v.push(entry("poly-families", M::<u32, u32, P> { dom: 0, map: false, each: Some(ok) }, move |_| Space::Cases { list: l, what: "builder x drain families, every aggregate after every single operation" }));
    } else {
        let l = fam(usize::MAX);
        v.push(entry("poly-families", M::<u32, u32, P> { dom: 0, map: false, each: Some(each_big) }, move |_| Space::Cases { list: l, what: "builder x drain families, aggregates along the way" }));
        let l: Vec<Vec<Op>> = fam(if t { 300 } else { 140 });
        v.push(entry("free-families", M::<u32, u32, Free> { dom: 0, map: false, each: Some(each_big) }, move |_| Space::Cases { list: l, what: "the same with the free monoid, sizes up to the second level" }));
    }
    v.push(entry("poly-deep", M::<u32, u32, P> { dom: 0, map: false, each: Some(each_deep) }, move |_| Space::Cases { list: deep_families(n, t), what: "trees with one inner level more, aggregates along the way" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
