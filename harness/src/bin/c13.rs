//! C13: GroupCount queries are exact, for every monotone layout of groups over the keys.
use std::collections::BTreeMap;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount, Tuple2};
use sweep_bptree::augment::Augmentation;
use sweep_bptree::BPlusTreeMap;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const LAY: u8 = 40; // choose the layout; first operation of every case
const RBA: u8 = 41; // remove_by_augmentation, (group << 12) | offset
const WRG: u8 = 42; // get_mut_by_augmentation, write
const CLONE: u8 = 43;
const RBAG: u8 = 44; // remove whole groups through their offset 0 or last, arg groups of them

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Grp(u32);
impl FromRef<u32> for Grp {
    fn from_ref(k: &u32) -> Grp {
        Grp(group(*k))
    }
}
/// a group that owns heap memory
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct SGrp(String);
impl FromRef<String> for SGrp {
    fn from_ref(k: &String) -> SGrp {
        SGrp(format!("{:06}", group(si(k))))
    }
}
trait GK: DomKey {
    type G: FromRef<Self> + Ord + Clone + std::fmt::Debug + 'static;
    fn grp(g: u32) -> Self::G;
}
impl GK for u32 {
    type G = Grp;
    fn grp(g: u32) -> Grp {
        Grp(g)
    }
}
impl GK for String {
    type G = SGrp;
    fn grp(g: u32) -> SGrp {
        SGrp(format!("{g:06}"))
    }
}
impl GK for (u32, u32) {
    type G = Tuple2<u32>;
    fn grp(g: u32) -> Tuple2<u32> {
        Tuple2::from_ref(&(g, 0u32))
    }
}

struct M<K> {
    dom: u32,
    map: bool,
    _p: std::marker::PhantomData<fn() -> K>,
}
fn m<K>(dom: u32, map: bool) -> M<K> {
    M { dom, map, _p: std::marker::PhantomData }
}
struct W<K: GK> {
    w: TW<K, u32, GroupCount<K::G>>,
    map: BPlusTreeMap<K, u32, GroupCount<K::G>>,
}
fn groups(m: &Model) -> BTreeMap<u32, Vec<(u32, u32)>> {
    let mut g: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
    for (k, v) in m {
        g.entry(group(*k)).or_default().push((*k, *v));
    }
    g
}
macro_rules! queries {
    ($t:expr, $m:expr, $gs:expr, $probes:expr, $K:ty) => {{
        let gs: &BTreeMap<u32, Vec<(u32, u32)>> = $gs;
        let a = $t.root_augmentation();
        ensure!(a.group_count() == gs.len(), "group_count is {}, there are {} groups", a.group_count(), gs.len());
        let mx = a.max_group().map(|(g, c)| (g.clone(), c));
        let e = gs.iter().next_back().map(|(g, l)| (<$K as GK>::grp(*g), l.len()));
        ensure!(mx == e, "max_group is {mx:?}, expected {e:?}");
        ensure!(a.is_zero() == gs.is_empty(), "is_zero is {}", a.is_zero());
        let mn = match a {
            GroupCount::Zero => None,
            GroupCount::One(g, c) => Some((g.clone(), *c)),
            GroupCount::Multiple { min_group, .. } => Some(min_group.clone()),
        };
        let e = gs.iter().next().map(|(g, l)| (<$K as GK>::grp(*g), l.len()));
        ensure!(mn == e, "the first group of the summary is {mn:?}, expected {e:?}");
        ensure!(matches!(a, GroupCount::One(..)) == (gs.len() == 1), "the summary of {} groups is {a:?}", gs.len());
        let mut ask: Vec<u32> = gs.keys().copied().flat_map(|g| [g - 1, g, g + 1]).collect();
        ask.extend([0, 1, 99_999]);
        ask.sort();
        ask.dedup();
        let none = vec![];
        for g in ask {
            let l = gs.get(&g).unwrap_or(&none);
            let n = l.len();
            for i in (0..n + 2).chain([n * 2 + 5, usize::MAX]) {
                let r = $t.get_by_augmentation((<$K as GK>::grp(g), i)).map(|(k, v)| (k.ix(), *v));
                ensure!(r == l.get(i).copied(), "get_by_augmentation((group {g}, {i})) is {r:?}, expected {:?}", l.get(i));
            }
            let s = $t.descend_visit(ExtractGroupSize::<<$K as GK>::G, $K>::new(<$K as GK>::grp(g))).unwrap_or(0);
            ensure!(s == n, "ExtractGroupSize of group {g} is {s}, expected {n}");
            bump(n as u64 + 4);
        }
        for k in $probes {
            let g = group(k);
            let c = gs.get(&g).map(|l| l.partition_point(|x| x.0 < k)).unwrap_or(0);
            let e = Some((<$K as GK>::grp(g), c));
            let e = if $m.contains_key(&k) { Ok(e) } else { Err(e) };
            let r = $t.rank_by_augmentation(&<$K as DomKey>::mk(k));
            ensure!(r == e, "rank_by_augmentation({k}) is {r:?}, expected {e:?}");
            bump(1);
        }
    }};
}
impl<K: GK> M<K> {
    fn rba(&self, w: &mut W<K>, g: u32, i: usize) -> R {
        let e = w.w.m.iter().filter(|x| group(*x.0) == g).nth(i).map(|(k, v)| (*k, *v));
        let r = w.w.t.remove_by_augmentation((K::grp(g), i)).map(|(k, v)| (k.ix(), v));
        ensure!(r == e, "remove_by_augmentation((group {g}, {i})) gave {r:?}, expected {e:?}");
        if let Some((k, _)) = e {
            w.w.m.remove(&k);
        }
        if self.map {
            let r = w.map.remove_by_augmentation((K::grp(g), i)).map(|(k, v)| (k.ix(), v));
            ensure!(r == e, "map.remove_by_augmentation((group {g}, {i})) gave {r:?}, expected {e:?}");
        }
        ensure!(w.w.t.len() == w.w.m.len(), "len is {}, expected {}", w.w.t.len(), w.w.m.len());
        Ok(())
    }
}
impl<K: GK> Machine for M<K>
where
    GroupCount<K::G>: Augmentation<K, u32>,
{
    type W = W<K>;
    fn new(&self) -> W<K> {
        LAYOUT.with(|l| l.set(0));
        W { w: TW::new(), map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut W<K>, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            LAY => LAYOUT.with(|l| l.set(a)),
            RBA => self.rba(w, a >> 12, (a & 0xfff) as usize)?,
            WRG => {
                let (g, i) = (a >> 12, (a & 0xfff) as usize);
                let v = w.w.tick();
                let e = w.w.m.iter_mut().filter(|x| group(*x.0) == g).nth(i).map(|(_, x)| std::mem::replace(x, v));
                let r = w.w.t.get_mut_by_augmentation((K::grp(g), i)).map(|x| std::mem::replace(x, v));
                ensure!(r == e, "get_mut_by_augmentation((group {g}, {i})) gave {r:?}, expected {e:?}");
                if self.map {
                    let r = w.map.get_mut_by_augmentation((K::grp(g), i)).map(|x| std::mem::replace(x, v));
                    ensure!(r == e, "map.get_mut_by_augmentation((group {g}, {i})) gave {r:?}, expected {e:?}");
                }
            }
            CLONE => w.w.t = w.w.t.clone(),
            RBAG => {
                // empty every third group, from its middle outwards
                let gs = groups(&w.w.m);
                for (j, (g, l)) in gs.iter().enumerate() {
                    if j as u32 % 3 == a % 3 {
                        for n in (1..=l.len()).rev() {
                            self.rba(w, *g, n / 2)?;
                            if n == 1 {
                                self.rba(w, *g, 0).map_err(|e| format!("on the emptied group: {e}"))?;
                            }
                        }
                    }
                }
            }
            _ => {
                w.w.step(o).unwrap()?;
                if self.map {
                    match code(o) {
                        INS => {
                            w.map.insert(K::mk(a), w.w.clock);
                        }
                        DEL => {
                            w.map.remove(&K::mk(a));
                        }
                        _ => w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), *v)).collect(),
                    }
                }
            }
        }
        Ok(())
    }
    fn canon(&self, w: &W<K>, out: &mut Vec<u8>) {
        out.extend_from_slice(&LAYOUT.with(|l| l.get()).to_le_bytes());
        w.w.canon(self.dom, out);
        // what the nodes carry is part of the state
        fn put<A: std::fmt::Debug>(s: &Shape<A>, out: &mut Vec<u8>) {
            if let Shape::Inner { augs, kids, .. } = s {
                out.extend_from_slice(format!("{augs:?}").as_bytes());
                kids.iter().for_each(|k| put(k, out));
            }
        }
        if let Ok(s) = dump(&w.w.t) {
            put(&s, out);
        }
        out.extend_from_slice(format!("{:?}", w.w.t.root_augmentation()).as_bytes());
    }
    fn check(&self, w: W<K>) -> R {
        let p: Vec<u32> = if self.dom > 0 { (0..=self.dom).collect() } else { w.w.probes() };
        let p: Vec<u32> = if p.len() > 1500 { p.into_iter().step_by(11).collect() } else { p };
        let gs = groups(&w.w.m);
        queries!(w.w.t, w.w.m, &gs, p.iter().copied(), K);
        if self.map {
            queries!(w.map, w.w.m, &gs, p.iter().copied(), K);
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            LAY if a & DIV != 0 => format!("groups(key/{})", a & !DIV),
            LAY => format!("groups(new group after keys {:?})", (0..22).filter(|i| a >> i & 1 == 1).collect::<Vec<_>>()),
            RBA => format!("remove_by_augmentation(group {}, {})", a >> 12, a & 0xfff),
            WRG => format!("write_by_augmentation(group {}, {})", a >> 12, a & 0xfff),
            CLONE => "clone_and_drop_original".into(),
            RBAG => format!("empty_every_third_group_by_query(from {})", a % 3),
            _ => show_op(o),
        }
    }
}
fn lay(l: u32, c: Vec<Op>) -> Vec<Op> {
    let mut v = vec![op(LAY, l)];
    v.extend(c);
    v
}
/// removals and writes by query that can hit something under any layout over the domain
fn by_query(d: u32) -> Vec<Op> {
    let mut v = vec![];
    for g in 0..2 * d {
        for i in 0..d {
            // group 2j+1 exists only if it starts at key >= j
            if g % 2 == 1 && i + g / 2 < d {
                v.push(op(RBA, g << 12 | i));
            }
        }
        if g % 2 == 0 {
            v.push(op(RBA, g << 12));
        }
    }
    v.push(op(WRG, 1 << 12));
    v.push(op(WRG, 3 << 12 | 1));
    v
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = if n <= 5 { 8 + t as u32 } else { 9 + t as u32 };
        // every query of every reachable tree under every layout
        v.push(entry("layouts", m::<u32>(d, false), move |cx| {
            let l = reach(cx, d, 300_000);
            let list = l.iter().flat_map(|c| (0..1u32 << (d - 1)).map(|x| lay(x, c.clone()))).collect();
            Space::Cases { list, what: "every query of every reachable tree under every monotone layout of groups" }
        }));
        // one removal by query from every such tree, over a smaller domain
        let e = if n <= 3 { 5 } else if n <= 5 { 6 } else { 7 } + t as u32;
        v.push(entry("layouts-remove", m::<u32>(e, true), move |cx| {
            let l = reach(cx, e, 300_000);
            let b = l.iter().flat_map(|c| (0..1u32 << (e - 1)).map(|x| lay(x, c.clone()))).collect();
            Space::Words { bases: b, alphabet: by_query(e), m: 1 }
        }));
        // histories of insertions, removals and removals by query, aggregates part of the state
        let f = if n <= 3 { 6 } else { 7 };
        let cap = if t { 2_000_000 } else { 60_000 };
        let ls: Vec<u32> = if t { (0..1 << (f - 1)).collect() } else { vec![0, 0b1111111, 0b0000001, 0b0010101, 0b0001001, 0b0110000, 0b0000110, 0b0100010] };
        let ls2 = ls.clone();
        v.push(entry("histories", m::<u32>(f, false), move |_| {
            let mut r = vec![];
            for x in &ls {
                r.extend(roots(f, true).into_iter().map(|c| lay(*x, c)));
            }
            let mut a = alphabet(&[INS, DEL], f);
            a.extend(by_query(f));
            a.push(op(CLEAR, 0));
            a.push(op(CLONE, 0));
            Space::Bfs { roots: r, alphabet: a, depth: 100, cap }
        }));
        v.push(entry("tuple2", m::<(u32, u32)>(5, true), move |_| {
            let mut r = vec![];
            for x in &ls2 {
                r.extend(roots(5, true).into_iter().map(|c| lay(x & 15, c)));
            }
            let mut a = alphabet(&[INS, DEL], 5);
            a.extend(by_query(5));
            Space::Bfs { roots: r, alphabet: a, depth: 100, cap: 20_000 }
        }));
        v.push(entry("string-groups", m::<String>(5, true), move |_| {
            let mut a = alphabet(&[INS, DEL], 5);
            a.extend(by_query(5));
            Space::Bfs { roots: vec![lay(0, vec![]), lay(0b101, vec![]), lay(0b10, vec![])], alphabet: a, depth: 100, cap: 20_000 }
        }));
    }
    let sz: Vec<usize> = if n <= 8 { (0..if t { 300 } else { 110 }).collect() } else { sizes(n, t).into_iter().filter(|s| t || *s < 5000).collect() };
    v.push(entry("families", m::<u32>(0, false), move |_| {
        let mut list = vec![];
        let n = n as u32;
        let mut divs = vec![1, 2, 3, 5, n / 2, n, n + 1, 2 * n, 3 * n + 1, 1 << 20];
        divs.sort();
        divs.dedup();
        for (j, s) in sz.iter().enumerate() {
            for (i, d) in divs.iter().enumerate() {
                for (x, b) in BUILDERS.iter().enumerate() {
                    if *s > 300 && (i + j + x) % 5 != 0 {
                        continue;
                    }
                    let base = op(*b, sized(1, *s));
                    let l = DIV | (*d).max(1);
                    list.push(vec![op(LAY, l), base]);
                    list.push(vec![op(LAY, l), base, op(DELODD, 0), op(INSGAPS, 0), op(DELMID, *s as u32 / 2)]);
                    if *s <= 400 {
                        list.push(vec![op(LAY, l), base, op(RBAG, 0), op(RBAG, 1)]);
                    }
                }
            }
        }
        Space::Cases { list, what: "every query in forms of every size under groups of many widths" }
    }));
    v.push(entry("deep", m::<u32>(0, true), move |_| {
        let mut list = vec![];
        for (i, f) in deep_forms(n, t).into_iter().enumerate() {
            for (j, d) in [1, 2, n as u32 + 1, 5000, 1 << 20].into_iter().enumerate() {
                if n <= 8 || t || (i + j) % 2 == 0 || d == 1 << 20 {
                    let mut c = vec![op(LAY, DIV | d)];
                    c.extend(f.iter().copied());
                    list.push(c);
                }
            }
        }
        Space::Cases { list, what: "every query in trees with one inner level more" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
