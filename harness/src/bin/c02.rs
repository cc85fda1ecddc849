//! C02: borrowed iteration. Every word of next/next_back over the iterators of tree, map and set in
//! every reachable state, and every adaptor after every prefix.
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

type E = (u32, u32);

/// The iterators are called directly, never through an adaptor: an adaptor would hide what they
/// override.
trait ToE: Ord {
    fn e(self) -> E;
}
impl ToE for (&u32, &u32) {
    fn e(self) -> E {
        (*self.0, *self.1)
    }
}
impl ToE for &u32 {
    fn e(self) -> E {
        (*self, 0)
    }
}
trait It: Iterator<Item: ToE> + DoubleEndedIterator + ExactSizeIterator {}
impl<I: Iterator<Item: ToE> + DoubleEndedIterator + ExactSizeIterator> It for I {}

struct M {
    dom: u32,
    level: u8, // 0: all words; 1: all (front, back) prefixes; 2: boundary patterns
}
struct W {
    w: TW<u32, u32, ()>,
    map: BPlusTreeMap<u32, u32>,
    set: BPlusTreeSet<u32>,
}

fn at<I: ExactSizeIterator>(it: &I, left: usize, what: &str) -> R {
    ensure!(it.size_hint() == (left, Some(left)), "{what}: size_hint {:?} with {left} entries not yet yielded", it.size_hint());
    ensure!(it.len() == left, "{what}: len() {} with {left} entries not yet yielded", it.len());
    Ok(())
}
fn one<I: It>(it: &mut I, back: bool, e: &[E], lo: &mut usize, hi: &mut usize) -> R {
    let want = if *lo < *hi {
        Some(if back {
            *hi -= 1;
            e[*hi]
        } else {
            *lo += 1;
            e[*lo - 1]
        })
    } else {
        None
    };
    let got = if back { it.next_back() } else { it.next() }.map(ToE::e);
    ensure!(got == want, "{} after {} from the front and {} from the back gave {got:?}, expected {want:?}", if back { "next_back" } else { "next" }, *lo, e.len() - *hi);
    at(it, *hi - *lo, if back { "after next_back" } else { "after next" })
}

/// every word, sharing prefixes through clones
fn dfs<I: It + Clone>(it: I, e: &[E], lo: usize, hi: usize, extra: u32, n: &mut u64) -> R {
    at(&it, hi - lo, "clone")?;
    if lo == hi && extra == 0 {
        return Ok(());
    }
    for back in [false, true] {
        let (mut l, mut h) = (lo, hi);
        let mut c = it.clone();
        *n += 1;
        one(&mut c, back, e, &mut l, &mut h)?;
        dfs(c, e, l, h, if lo == hi { extra - 1 } else { extra }, n)?;
    }
    Ok(())
}
/// every word, replayed from a fresh iterator
fn replay<I: It>(mk: &dyn Fn() -> I, e: &[E], n: &mut u64) -> R {
    let l = e.len() + 2;
    for word in 0..(1u32 << l) {
        let mut it = mk();
        let (mut lo, mut hi) = (0, e.len());
        at(&it, e.len(), "fresh")?;
        for i in 0..l {
            *n += 1;
            one(&mut it, word >> i & 1 == 1, e, &mut lo, &mut hi)?;
        }
    }
    Ok(())
}
fn seek<I: It>(mk: &dyn Fn() -> I, e: &[E], f: usize, b: usize, mixed: bool) -> Result<(I, usize, usize), String> {
    let mut it = mk();
    let (mut lo, mut hi) = (0, e.len());
    let (mut i, mut j) = (0, 0);
    while i < f || j < b {
        if i < f && (!mixed || j >= b || i <= j) {
            one(&mut it, false, e, &mut lo, &mut hi)?;
            i += 1;
        } else {
            one(&mut it, true, e, &mut lo, &mut hi)?;
            j += 1;
        }
    }
    Ok((it, lo, hi))
}
/// every adaptor from the state reached by f front and b back steps
fn adaptors<I: It>(mk: &dyn Fn() -> I, e: &[E], f: usize, b: usize, ks: &[usize]) -> R {
    for mixed in [false, true] {
        let s = || seek(mk, e, f, b, mixed);
        let (it, lo, hi) = s()?;
        let rest = &e[lo..hi];
        let v: Vec<E> = it.collect::<Vec<_>>().into_iter().map(ToE::e).collect();
        ensure!(v == rest, "collect after {f}/{b} steps: {v:?}, expected {rest:?}");
        let v: Vec<E> = s()?.0.rev().collect::<Vec<_>>().into_iter().map(ToE::e).collect();
        let r: Vec<E> = rest.iter().rev().copied().collect();
        ensure!(v == r, "rev after {f}/{b} steps: {v:?}, expected {r:?}");
        ensure!(s()?.0.last().map(ToE::e) == rest.last().copied(), "last after {f}/{b} steps");
        ensure!(s()?.0.count() == rest.len(), "count after {f}/{b} steps");
        ensure!(s()?.0.min().map(ToE::e) == rest.first().copied(), "min after {f}/{b} steps");
        ensure!(s()?.0.max().map(ToE::e) == rest.last().copied(), "max after {f}/{b} steps");
        let v = s()?.0.fold(vec![], |mut v, x| {
            v.push(x.e());
            v
        });
        ensure!(v == rest, "fold after {f}/{b} steps: {v:?}");
        let v = s()?.0.rfold(vec![], |mut v, x| {
            v.push(x.e());
            v
        });
        ensure!(v == r, "rfold after {f}/{b} steps: {v:?}");
        // the ones that stop by themselves, and what is left after them
        for &k in ks {
            if k > rest.len() {
                continue;
            }
            let left = rest.len().saturating_sub(k + 1);
            let gone = |it: &mut I, back: bool, what: &str| -> R {
                at(it, left, what)?;
                let (mut l, mut h) = if back { (lo, lo + left) } else { (hi - left, hi) };
                one(it, back, e, &mut l, &mut h)?;
                one(it, !back, e, &mut l, &mut h)
            };
            let (f0, b0) = (rest.get(k).copied(), rest.len().checked_sub(k + 1).map(|i| rest[i]));
            let (mut i, mut j) = (0, 0);
            let mut it = s()?.0;
            let g = it
                .find(|_| {
                    i += 1;
                    i == k + 1
                })
                .map(ToE::e);
            ensure!(g == f0, "find entry {k} after {f}/{b} steps gave {g:?}, expected {f0:?}");
            gone(&mut it, false, "after find")?;
            let mut it = s()?.0;
            let g = it
                .rfind(|_| {
                    j += 1;
                    j == k + 1
                })
                .map(ToE::e);
            ensure!(g == b0, "rfind entry {k} after {f}/{b} steps gave {g:?}, expected {b0:?}");
            gone(&mut it, true, "after rfind")?;
            let mut it = s()?.0;
            let g = it.position(|x| Some(x.e()) == f0);
            ensure!(g == f0.map(|_| k), "position of entry {k} after {f}/{b} steps gave {g:?}");
            gone(&mut it, false, "after position")?;
            let mut it = s()?.0;
            let g = it.rposition(|x| Some(x.e()) == b0);
            ensure!(g == b0.map(|_| rest.len() - 1 - k), "rposition of entry {k} after {f}/{b} steps gave {g:?}");
            gone(&mut it, true, "after rposition")?;
        }
        for &k in ks {
            if k > rest.len() + 1 {
                continue;
            }
            for back in [false, true] {
                let mut it = s()?.0;
                let got = if back { it.nth_back(k) } else { it.nth(k) }.map(ToE::e);
                let want = if k < rest.len() { Some(if back { rest[rest.len() - 1 - k] } else { rest[k] }) } else { None };
                ensure!(got == want, "nth{}({k}) after {f}/{b} steps gave {got:?}, expected {want:?}", if back { "_back" } else { "" });
                let left = rest.len().saturating_sub(k + 1);
                at(&it, left, "after nth")?;
                // and the iterator goes on
                let (mut l, mut h) = if back { (lo, lo + left) } else { (hi - left, hi) };
                one(&mut it, false, e, &mut l, &mut h)?;
                one(&mut it, true, e, &mut l, &mut h)?;
            }
            let got: Vec<E> = s()?.0.skip(k).step_by(2).map(ToE::e).collect();
            let want: Vec<E> = rest.iter().skip(k).step_by(2).copied().collect();
            ensure!(got == want, "skip({k}).step_by(2) after {f}/{b} steps: {got:?}");
        }
        bump(8 + 3 * ks.len() as u64);
    }
    Ok(())
}
fn patterns<I: It>(mk: &dyn Fn() -> I, e: &[E], prefixes: &[usize]) -> R {
    let run = |f: usize, pat: &dyn Fn(usize) -> bool, firstback: bool| -> R {
        let mut it = mk();
        let (mut lo, mut hi) = (0, e.len());
        for _ in 0..f {
            one(&mut it, firstback, e, &mut lo, &mut hi)?;
        }
        for i in 0..(e.len() - f.min(e.len()) + 2) {
            one(&mut it, pat(i), e, &mut lo, &mut hi)?;
        }
        one(&mut it, false, e, &mut lo, &mut hi)?;
        one(&mut it, true, e, &mut lo, &mut hi)?;
        bump(e.len() as u64);
        Ok(())
    };
    for &f in prefixes {
        for fb in [false, true] {
            run(f, &|_| false, fb)?;
            run(f, &|_| true, fb)?;
            run(f, &|i| i % 2 == 0, fb)?;
            run(f, &|i| i % 3 == 0, fb)?;
            run(f, &|i| i % 7 != 0, fb)?;
        }
    }
    Ok(())
}

impl Machine for M {
    type W = W;
    fn new(&self) -> W {
        W { w: TW::new(), map: BPlusTreeMap::new(), set: BPlusTreeSet::new() }
    }
    fn step(&self, w: &mut W, o: Op) -> R {
        w.w.step(o).expect("op")?;
        let a = arg(o);
        match code(o) {
            INS => {
                w.map.insert(a, w.w.clock);
                w.set.insert(a);
            }
            DEL => {
                w.map.remove(&a);
                w.set.remove(&a);
            }
            _ => {
                w.map = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
                w.set = w.w.m.keys().copied().collect();
            }
        }
        Ok(())
    }
    fn canon(&self, w: &W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, w: W) -> R {
        let e: Vec<E> = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
        let se: Vec<E> = w.w.m.keys().map(|k| (*k, 0)).collect();
        let mut n = 0;
        fn kv<'a>(x: (&'a u32, &'a u32)) -> E {
            (*x.0, *x.1)
        }
        let t = || w.w.t.iter();
        let m = || w.map.iter();
        let s = || w.set.iter();
        let l = e.len();
        match self.level {
            0 => {
                dfs(t(), &e, 0, l, 2, &mut n).map_err(|x| format!("BPlusTree::iter: {x}"))?;
                dfs(s(), &se, 0, l, 2, &mut n).map_err(|x| format!("BPlusTreeSet::iter: {x}"))?;
                if l <= 6 {
                    replay(&m, &e, &mut n).map_err(|x| format!("BPlusTreeMap::iter: {x}"))?;
                }
                bump(n);
            }
            1 => {
                let ks: Vec<usize> = (0..=l + 1).collect();
                for f in 0..=l {
                    for b in 0..=l + 1 - f {
                        adaptors(&t, &e, f, b, &ks).map_err(|x| format!("BPlusTree::iter: {x}"))?;
                        adaptors(&m, &e, f, b, &ks).map_err(|x| format!("BPlusTreeMap::iter: {x}"))?;
                        adaptors(&s, &se, f, b, &ks).map_err(|x| format!("BPlusTreeSet::iter: {x}"))?;
                    }
                }
            }
            _ => {
                // node boundaries
                let n = node_n();
                let deep = l > 20_000;
                if deep {
                    let p = [0, 1, n, l / 2, l - 1];
                    let tr: [(usize, usize); 4] = [(0, 0), (l / 3, 0), (0, l / 3), (l / 4, l / 2)];
                    for (f, b) in tr {
                        adaptors(&t, &e, f, b, &p).map_err(|x| format!("BPlusTree::iter: {x}"))?;
                        adaptors(&m, &e, f, b, &p[3..4]).map_err(|x| format!("BPlusTreeMap::iter: {x}"))?;
                        adaptors(&s, &se, f, b, &p[3..4]).map_err(|x| format!("BPlusTreeSet::iter: {x}"))?;
                    }
                }
                let mut p: Vec<usize> = vec![0, 1, 2, n / 2, n / 2 + 1, n - 1, n, n + 1, 2 * n, l / 3, l / 2, l.saturating_sub(n), l.saturating_sub(1), l, l + 1];
                if deep {
                    p = vec![0, n, l / 2];
                }
                p.retain(|x| *x <= l + 1);
                p.sort();
                p.dedup();
                patterns(&t, &e, &p).map_err(|x| format!("BPlusTree::iter: {x}"))?;
                patterns(&m, &e, &p).map_err(|x| format!("BPlusTreeMap::iter: {x}"))?;
                patterns(&s, &se, &p).map_err(|x| format!("BPlusTreeSet::iter: {x}"))?;
                if l <= 3 * n {
                    for &f in &p {
                        for &b in &[0, 1, n / 2, n] {
                            adaptors(&t, &e, f, b, &p).map_err(|x| format!("BPlusTree::iter: {x}"))?;
                            adaptors(&m, &e, f, b, &p).map_err(|x| format!("BPlusTreeMap::iter: {x}"))?;
                        }
                    }
                }
                // a clone at every position goes on alone
                let mut it = w.w.t.iter();
                for i in (0..=l).step_by(1 + l / 40) {
                    let c = it.clone();
                    ensure!(c.len() == l - i, "clone of an iterator: len {}", c.len());
                    ensure!(c.map(kv).eq(e[i..].iter().copied()), "clone at position {i} differs");
                    ensure!(it.clone().rev().map(kv).eq(e[i..].iter().rev().copied()), "reversed clone at position {i} differs");
                    for _ in 0..1 + l / 40 {
                        it.next();
                    }
                }
            }
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    let al = [INS, DEL, CLEAR];
    if n <= 8 {
        let d = dom_for(n, 2);
        v.push(entry("words", M { dom: d, level: 0 }, move |_| Space::Bfs { roots: roots(d, true), alphabet: alphabet(&al, d), depth: 200, cap: if t { 4_000_000 } else { 400_000 } }));
        let d = dom_for(n, if t { 2 } else { 1 });
        v.push(entry("adaptors", M { dom: d, level: 1 }, move |_| Space::Bfs { roots: roots(d, true), alphabet: alphabet(&al, d), depth: 200, cap: if t { 400_000 } else { 20_000 } }));
    }
    v.push(entry("patterns", M { dom: 0, level: 2 }, move |_| {
        let s = if n <= 8 {
            (0..=if t { 300 } else { 60 }).collect()
        } else {
            let mut s = interesting_sizes(n, if t { 2 * n * (n + 1) } else { 5 * n });
            if !t {
                s.extend([n * n / 2 + n / 2 + 1, n * (n + 1) + 1]);
            }
            s
        };
        Space::Cases { list: forms(n, &s), what: "trees of every interesting size and form" }
    }));
    v.push(entry("patterns-deep", M { dom: 0, level: 2 }, move |_| Space::Cases { list: deep_forms(n, t), what: "trees with one inner level more" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
