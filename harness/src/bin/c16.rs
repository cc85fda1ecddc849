//! C16: set union is the sorted merge without duplicates, at every point of stepping through it.
use std::collections::BTreeSet;
use sweep_bptree::BPlusTreeSet;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const SIDE: u32 = 1 << 23; // the operation is on the second set
const SAME: u8 = 40; // the union of the first set with itself

struct M<K> {
    /// every prefix is examined up to this length, then a selection
    all: usize,
    _p: std::marker::PhantomData<fn() -> K>,
}
fn m<K>(all: usize) -> M<K> {
    M { all, _p: std::marker::PhantomData }
}
#[derive(Default)]
struct Side<K: DomKey> {
    s: BPlusTreeSet<K>,
    m: BTreeSet<u32>,
}
struct W<K: DomKey> {
    x: [Side<K>; 2],
    same: bool,
}
impl<K: DomKey> M<K> {
    fn at(&self, a: &BPlusTreeSet<K>, b: &BPlusTreeSet<K>, e: &[u32], j: usize) -> R {
        let mut u = a.union(b);
        for i in 0..j {
            let g = u.next().map(|k| k.ix());
            ensure!(g == e.get(i).copied(), "union yields {g:?} as item {i}, expected {:?}", e.get(i));
        }
        let rest = &e[j.min(e.len())..];
        let n = rest.len();
        fn bound(u: &impl Iterator, n: usize, done: usize) -> R {
            let (lo, hi) = u.size_hint();
            ensure!(lo <= n && hi.map(|h| h >= n).unwrap_or(true), "after {done} items size_hint is ({lo}, {hi:?}), {n} remain");
            Ok(())
        }
        macro_rules! hint {
            ($u:expr, $n:expr) => {
                bound($u, $n, e.len() - $n)
            };
        }
        hint!(&u, n)?;
        let c = u.clone();
        hint!(&c, n).map_err(|x| format!("clone: {x}"))?;
        let l: Vec<u32> = c.map(|k| k.ix()).collect();
        ensure!(l == rest, "after {j} items a clone continues with {l:?}, expected {rest:?}");
        let g = u.clone().min().map(|k| k.ix());
        ensure!(g == rest.first().copied(), "after {j} items min() is {g:?}, expected {:?}", rest.first());
        let g = u.clone().last().map(|k| k.ix());
        ensure!(g == rest.last().copied(), "after {j} items last() is {g:?}, expected {:?}", rest.last());
        let g = u.clone().max().map(|k| k.ix());
        ensure!(g == rest.last().copied(), "after {j} items max() is {g:?}, expected {:?}", rest.last());
        let g = u.clone().count();
        ensure!(g == n, "after {j} items count() is {g}, expected {n}");
        let g = u.clone().fold(vec![], |mut v, k| {
            v.push(k.ix());
            v
        });
        ensure!(g == rest, "after {j} items fold() sees {g:?}, expected {rest:?}");
        for s in [1, 2, n] {
            let mut c = u.clone();
            let g = c.nth(s).map(|k| k.ix());
            ensure!(g == rest.get(s).copied(), "after {j} items nth({s}) is {g:?}, expected {:?}", rest.get(s));
            hint!(&c, n.saturating_sub(s + 1)).map_err(|x| format!("after nth: {x}"))?;
            let g = c.next().map(|k| k.ix());
            ensure!(g == rest.get(s + 1).copied(), "after {j} items and nth({s}) next() is {g:?}, expected {:?}", rest.get(s + 1));
        }
        for s in [0, n / 2, n] {
            let mut c = u.clone();
            let x = rest.get(s).copied();
            let g = c.find(|k| Some(k.ix()) == x).map(|k| k.ix());
            ensure!(g == x, "after {j} items find({x:?}) is {g:?}");
            hint!(&c, n.saturating_sub(s + 1)).map_err(|x| format!("after find: {x}"))?;
            let g = c.position(|k| Some(k.ix()) == rest.last().copied());
            ensure!(g == n.checked_sub(s + 2), "after {j} items and find({x:?}), position of the last is {g:?}");
        }
        // the original, and a clone of a clone, go on undisturbed and stay ended
        let mut c = u.clone().clone();
        for i in 0..n.min(4) {
            for (it, who) in [(&mut u, "the original"), (&mut c, "a clone of a clone")] {
                let g = it.next().map(|k| k.ix());
                ensure!(g == Some(rest[i]), "after {j} items {who} continues with {g:?}, expected {}", rest[i]);
                hint!(it, n - i - 1)?;
            }
        }
        if n <= 4 {
            for it in [&mut u, &mut c] {
                for _ in 0..3 {
                    let g = it.next().map(|k| k.ix());
                    ensure!(g.is_none(), "after its end the union yields {g:?}");
                    hint!(it, 0)?;
                }
                ensure!(it.clone().next().is_none() && it.clone().min().is_none() && it.clone().count() == 0, "a clone of the ended union yields again");
            }
        }
        bump(1);
        Ok(())
    }
    fn union(&self, a: &Side<K>, b: &Side<K>) -> R {
        let e: Vec<u32> = a.m.union(&b.m).copied().collect();
        let n = e.len();
        let js: Vec<usize> = if n <= self.all {
            (0..=n + 1).collect()
        } else {
            let mut v: Vec<usize> = (0..=n).step_by(n / 13 + 1).collect();
            v.extend([1, 2, n - 1, n, n + 1]);
            v
        };
        for j in js {
            self.at(&a.s, &b.s, &e, j)?;
        }
        // both sets are as before
        for x in [a, b] {
            ensure!(x.s.len() == x.m.len() && x.s.iter().map(|k| k.ix()).eq(x.m.iter().copied()), "taking unions changed a set");
        }
        Ok(())
    }
}
impl<K: DomKey> Machine for M<K> {
    type W = W<K>;
    fn new(&self) -> W<K> {
        let s = || Side { s: BPlusTreeSet::new(), m: BTreeSet::new() };
        W { x: [s(), s()], same: false }
    }
    fn step(&self, w: &mut W<K>, o: Op) -> R {
        let x = &mut w.x[(arg(o) & SIDE != 0) as usize];
        let a = arg(o) & !SIDE;
        match code(o) {
            SAME => w.same = true,
            INS => {
                x.s.insert(K::mk(a));
                x.m.insert(a);
            }
            DEL => {
                x.s.remove(&K::mk(a));
                x.m.remove(&a);
            }
            CLEAR => {
                x.s.clear();
                x.m.clear();
            }
            GET => {
                x.s.contains(&K::mk(a));
            }
            ASC | DESC | MIDOUT | ZIG | BULK => {
                // flavour in bits 20..22, size in the rest
                let (f, n) = (a >> 20, (a & 0xf_ffff) as usize);
                let keys: Vec<u32> = order(code(o), n).into_iter().map(|i| fl(f, i)).collect();
                x.m.extend(keys.iter().copied());
                if code(o) == BULK {
                    x.s = keys.into_iter().map(K::mk).collect();
                } else {
                    keys.into_iter().for_each(|k| {
                        x.s.insert(K::mk(k));
                    });
                }
            }
            DELODD => {
                let l: Vec<u32> = x.m.iter().copied().skip(1).step_by(2).collect();
                for k in l {
                    x.s.remove(&K::mk(k));
                    x.m.remove(&k);
                }
            }
            _ => return Err("op".into()),
        }
        Ok(())
    }
    fn canon(&self, _: &W<K>, _: &mut Vec<u8>) {}
    fn check(&self, w: W<K>) -> R {
        if w.same {
            return self.union(&w.x[0], &w.x[0]);
        }
        self.union(&w.x[0], &w.x[1])?;
        self.union(&w.x[1], &w.x[0]).map_err(|e| format!("the other way round: {e}"))
    }
    fn show(&self, o: Op) -> String {
        let s = if arg(o) & SIDE != 0 { "B." } else { "A." };
        let a = arg(o) & !SIDE;
        match code(o) {
            SAME => "(A with itself)".into(),
            ASC | DESC | MIDOUT | ZIG | BULK => format!("{s}{}(n={}, flavour {})", ["ascending", "descending", "middle_out", "zigzag", "from_iter"][(code(o) - ASC) as usize], a & 0xf_ffff, a >> 20),
            c => format!("{s}{}", show_op(op(c, a))),
        }
    }
}
/// key i of a flavour: even, odd, blocks of many widths
fn fl(f: u32, i: usize) -> u32 {
    let i = i as u32;
    match f {
        0 => i,
        1 => 2 * i,
        2 => 2 * i + 1,
        3 => 100_000 + i,
        4 => 3 * i,
        5 => i / 40 * 80 + i % 40,
        6 => i / 40 * 80 + 40 + i % 40,
        _ => i * i / 4,
    }
}
fn on_b(c: &[Op]) -> Vec<Op> {
    c.iter().map(|o| o | SIDE).collect()
}
fn pairs(l: &[Vec<Op>]) -> Vec<Vec<Op>> {
    let mut v = Vec::with_capacity(l.len() * (l.len() + 1) / 2 + l.len());
    for i in 0..l.len() {
        for j in i..l.len() {
            let mut c = l[i].clone();
            c.extend(on_b(&l[j]));
            v.push(c);
        }
        let mut c = l[i].clone();
        c.push(op(SAME, 0));
        v.push(c);
    }
    v
}
/// reach histories load sets in bulk; here that is from_iter of the same keys
fn reach_sets(cx: &Ctx, d: u32) -> Vec<Vec<Op>> {
    reach(cx, d, 100_000)
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = if n <= 5 { 6 + t as u32 } else { 8 };
        v.push(entry("pairs-of-states", m::<u32>(99), move |cx| Space::Cases { list: pairs(&reach_sets(cx, d)), what: "every pair of reachable sets, every step" }));
        let s = if t { 9 } else { 8 };
        v.push(entry("pairs-of-subsets", m::<u32>(99), move |_| {
            let l: Vec<Vec<Op>> = (0..1u32 << s).map(|x| (0..s).filter(|k| x >> k & 1 == 1).map(|k| op(INS, k)).collect()).collect();
            Space::Cases { list: pairs(&l), what: "every pair of subsets, every step" }
        }));
        v.push(entry("pairs-string", m::<String>(99), move |_| {
            let l: Vec<Vec<Op>> = (0..1u32 << 5).map(|x| (0..5).filter(|k| x >> k & 1 == 1).map(|k| op(INS, k)).collect()).collect();
            Space::Cases { list: pairs(&l), what: "every pair of subsets, every step" }
        }));
    }
    v.push(entry("families", m::<u32>(if n <= 8 { 60 } else { 20 }), move |_| {
        let szs: Vec<usize> = if n <= 8 { (0..24).chain([40, 77]).collect() } else { vec![0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 96, 97, 128, 129, 200, 2200] };
        let mut l: Vec<Vec<Op>> = vec![];
        for (i, s) in szs.iter().enumerate() {
            for f in 0..8u32 {
                let b = BUILDERS[(i + f as usize) % 5];
                if t || (i + f as usize) % 2 == 0 || *s < 4 {
                    l.push(vec![op(b, f << 20 | *s as u32)]);
                }
                if (i + f as usize) % 3 == 0 {
                    l.push(vec![op(b, f << 20 | *s as u32), op(DELODD, 0)]);
                }
            }
        }
        Space::Cases { list: pairs(&l), what: "every pair of sets of many sizes, densities and overlaps" }
    }));
    if n > 8 {
        v.push(entry("deep", m::<u32>(8), move |_| {
            let l: Vec<Vec<Op>> = vec![
                vec![op(ASC, 70_000)],
                vec![op(BULK, 290_000)],
                vec![op(BULK, 1 << 20 | 290_000), op(DELODD, 0)],
                vec![op(DESC, 6 << 20 | 70_000)],
                vec![op(ASC, 10)],
            ];
            Space::Cases { list: pairs(&l), what: "every pair of sets of more than 65536 members" }
        }));
    }
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
