//! C03: consuming iteration of tree and set. Every word of next/next_back over every reachable
//! state, abandoned after every prefix, on instances that record their own drops.
use sweep_bptree::BPlusTreeSet;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

type T = TW<TK, TV, TA>;
struct M {
    dom: u32,
    level: u8,
}
struct W {
    w: T,
    set: BPlusTreeSet<TK>,
    hist: Vec<(Op, Model)>,
}
trait Entry2 {
    fn kv(&self) -> (u32, u32);
}
impl Entry2 for (TK, TV) {
    fn kv(&self) -> (u32, u32) {
        (self.0.ix(), self.1.ix())
    }
}
impl Entry2 for TK {
    fn kv(&self) -> (u32, u32) {
        (self.ix(), 0)
    }
}
/// counts of instances that are alive besides the container under test
fn snap() -> (i64, i64) {
    (ledger_live(Kind::K), ledger_live(Kind::V))
}
/// drive a fresh consuming iterator by `word`, then abandon it
fn drive<X: Entry2, I: Iterator<Item = X> + DoubleEndedIterator>(mut it: I, e: &[(u32, u32)], word: &mut dyn Iterator<Item = bool>, base: (i64, i64), vals: bool) -> R {
    let (mut lo, mut hi) = (0, e.len());
    let mut held: Vec<X> = vec![];
    let mut steps = 0;
    ensure!(it.size_hint() == (hi, Some(hi)), "size_hint {:?} before the first step, {} entries", it.size_hint(), hi);
    for back in word {
        steps += 1;
        let want = if lo < hi {
            Some(if back {
                hi -= 1;
                e[hi]
            } else {
                lo += 1;
                e[lo - 1]
            })
        } else {
            None
        };
        let got = if back { it.next_back() } else { it.next() };
        let g = got.as_ref().map(|x| x.kv());
        ensure!(g == want, "step {steps}: {} gave {g:?}, expected {want:?} ({lo} front, {} back handed out)", if back { "next_back" } else { "next" }, e.len() - hi);
        held.extend(got);
        ensure!(it.size_hint() == (hi - lo, Some(hi - lo)), "step {steps}: size_hint {:?} with {} left", it.size_hint(), hi - lo);
    }
    let live = snap();
    if vals {
        ensure!(live.1 - base.1 == e.len() as i64, "before abandoning, {} values alive, {} were stored", live.1 - base.1, e.len());
    }
    drop(it);
    ledger_err()?;
    let live = snap();
    ensure!(live.0 - base.0 == held.len() as i64, "abandoned after {steps} steps: {} keys alive, {} handed out", live.0 - base.0, held.len());
    if vals {
        ensure!(live.1 - base.1 == held.len() as i64, "abandoned after {steps} steps: {} values alive, {} handed out", live.1 - base.1, held.len());
    }
    for h in &held {
        h.kv();
    }
    drop(held);
    ledger_err()?;
    let live = snap();
    ensure!(live == base, "instances left over: {live:?} vs {base:?}");
    bump(1);
    Ok(())
}
fn adaptors<X: Entry2, I: Iterator<Item = X> + DoubleEndedIterator>(mk: &dyn Fn() -> I, e: &[(u32, u32)]) -> R {
    let v: Vec<_> = mk().map(|x| x.kv()).collect();
    ensure!(v == e, "collect: {v:?}, expected {e:?}");
    let v: Vec<_> = mk().rev().map(|x| x.kv()).collect();
    ensure!(v.iter().eq(e.iter().rev()), "rev: {v:?}");
    ensure!(mk().count() == e.len(), "count");
    ensure!(mk().last().map(|x| x.kv()) == e.last().copied(), "last");
    let v = mk().fold(vec![], |mut v, x| {
        v.push(x.kv());
        v
    });
    ensure!(v == e, "fold: {v:?}");
    let v = mk().rfold(vec![], |mut v, x| {
        v.push(x.kv());
        v
    });
    ensure!(v.iter().eq(e.iter().rev()), "rfold: {v:?}");
    for k in 0..=e.len() + 1 {
        let mut it = mk();
        ensure!(it.nth(k).map(|x| x.kv()) == e.get(k).copied(), "nth({k})");
        ensure!(it.size_hint().0 == e.len().saturating_sub(k + 1), "size_hint after nth({k})");
        ensure!(it.next_back().map(|x| x.kv()) == if k + 1 < e.len() { e.last().copied() } else { None }, "next_back after nth({k})");
        let mut it = mk();
        let w = if k < e.len() { Some(e[e.len() - 1 - k]) } else { None };
        ensure!(it.nth_back(k).map(|x| x.kv()) == w, "nth_back({k})");
        ensure!(it.next().map(|x| x.kv()) == if k + 1 < e.len() { e.first().copied() } else { None }, "next after nth_back({k})");
        let (mut i, mut j) = (0, 0);
        let mut it = mk();
        let g = it.find(|_| {
            i += 1;
            i == k + 1
        });
        ensure!(g.map(|x| x.kv()) == e.get(k).copied(), "find entry {k}");
        ensure!(it.size_hint().0 == e.len().saturating_sub(k + 1), "size_hint after find");
        let g = it.rfind(|_| {
            j += 1;
            j == 2
        });
        ensure!(g.map(|x| x.kv()) == if k + 2 < e.len() { Some(e[e.len() - 2]) } else { None }, "rfind after find entry {k}");
        let mut it = mk();
        for _ in 0..k {
            it.next();
        }
        ensure!(it.last().map(|x| x.kv()) == if k < e.len() { e.last().copied() } else { None }, "last after {k} steps");
        let mut it = mk();
        for _ in 0..k {
            it.next_back();
        }
        ensure!(it.count() == e.len().saturating_sub(k), "count after {k} steps from the back");
        bump(2);
    }
    Ok(())
}
fn set_step(set: &mut BPlusTreeSet<TK>, o: Op, m: &Model) {
    match code(o) {
        INS => {
            set.insert(TK::mk(arg(o)));
        }
        DEL => {
            set.remove(&TK::mk(arg(o)));
        }
        CLEAR => set.clear(),
        _ => *set = m.keys().map(|k| TK::mk(*k)).collect(),
    }
}
impl M {
    fn build_set(&self, hist: &[(Op, Model)]) -> BPlusTreeSet<TK> {
        let mut s = BPlusTreeSet::new();
        for (o, m) in hist {
            set_step(&mut s, *o, m);
        }
        s
    }
}

impl Machine for M {
    type W = W;
    fn new(&self) -> W {
        ledger_reset();
        W { w: TW::new(), set: BPlusTreeSet::new(), hist: vec![] }
    }
    fn step(&self, w: &mut W, o: Op) -> R {
        w.w.step(o).expect("op")?;
        set_step(&mut w.set, o, &w.w.m);
        // a bulk build discards what was there
        if !matches!(code(o), INS | DEL) {
            w.hist.clear();
        }
        let m = if matches!(code(o), INS | DEL) { Model::new() } else { w.w.m.clone() };
        w.hist.push((o, m));
        Ok(())
    }
    fn canon(&self, w: &W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, w: W) -> R {
        let e: Vec<(u32, u32)> = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
        let se: Vec<(u32, u32)> = w.w.m.keys().map(|k| (*k, 0)).collect();
        let l = e.len();
        let base = snap();
        let tree = || w.w.t.clone().into_iter();
        if self.level == 0 {
            for len in 0..=l + 2 {
                for word in 0..1u32 << len {
                    drive(tree(), &e, &mut (0..len).map(|i| word >> i & 1 == 1), base, true).map_err(|x| format!("BPlusTree::into_iter, word {word:b}/{len}: {x}"))?;
                }
            }
            if l <= 5 {
                for len in 0..=l + 2 {
                    for word in 0..1u32 << len {
                        drive(self.build_set(&w.hist).into_iter(), &se, &mut (0..len).map(|i| word >> i & 1 == 1), base, false).map_err(|x| format!("BPlusTreeSet::into_iter, word {word:b}/{len}: {x}"))?;
                    }
                }
            }
            adaptors(&tree, &e).map_err(|x| format!("BPlusTree::into_iter: {x}"))?;
            adaptors(&|| self.build_set(&w.hist).into_iter(), &se).map_err(|x| format!("BPlusTreeSet::into_iter: {x}"))?;
        } else {
            let n = node_n();
            let mut p: Vec<usize> = vec![0, 1, n / 2, n - 1, n, n + 1, l / 2, l.saturating_sub(n), l.saturating_sub(1), l, l + 1];
            if l > 20_000 {
                p = vec![0, n, l / 2, l];
            }
            p.retain(|x| *x <= l + 1);
            p.sort();
            p.dedup();
            for &f in &p {
                for &b in &p {
                    if f + b > l + 2 {
                        continue;
                    }
                    drive(tree(), &e, &mut (0..f + b).map(|i| i >= f), base, true).map_err(|x| format!("BPlusTree::into_iter, {f} front then {b} back: {x}"))?;
                    drive(tree(), &e, &mut (0..f + b).map(|i| i < b), base, true).map_err(|x| format!("BPlusTree::into_iter, {b} back then {f} front: {x}"))?;
                }
                drive(tree(), &e, &mut (0..f).map(|i| i % 2 == 1), base, true).map_err(|x| format!("BPlusTree::into_iter, {f} alternating: {x}"))?;
                drive(tree(), &e, &mut (0..f).map(|i| i % 3 != 1), base, true).map_err(|x| format!("BPlusTree::into_iter, {f} mostly back: {x}"))?;
            }
            let s = self.build_set(&w.hist);
            drive(s.into_iter(), &se, &mut (0..l + 2).map(|i| i % 2 == 1), base, false).map_err(|x| format!("BPlusTreeSet::into_iter, alternating: {x}"))?;
            let s = self.build_set(&w.hist);
            drive(s.into_iter(), &se, &mut (0..l / 2).map(|_| true), base, false).map_err(|x| format!("BPlusTreeSet::into_iter, half back: {x}"))?;
        }
        // the two containers themselves, not clones
        let W { w: tw, set, .. } = w;
        let TW { t, .. } = tw;
        drop(t.clone());
        drop(t);
        drive(set.into_iter(), &se, &mut (0..l / 2).map(|i| i % 2 == 1), (0, 0), false)?;
        ledger_err()?;
        ensure!(snap() == (0, 0), "instances left over after everything was consumed or dropped: {:?}", snap());
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    let al = [INS, DEL, CLEAR];
    if n <= 8 {
        let d = dom_for(n, if t { 2 } else { 1 });
        v.push(entry("words", M { dom: d, level: 0 }, move |_| Space::Bfs { roots: roots(d, true), alphabet: alphabet(&al, d), depth: 200, cap: if t { 200_000 } else { 12_000 } }));
    }
    v.push(entry("patterns", M { dom: 0, level: 1 }, move |_| {
        let s = if n <= 8 { (0..=if t { 200 } else { 50 }).collect() } else { interesting_sizes(n, if t { 2 * n * (n + 1) } else { 4 * n }) };
        let l = forms(n, &s);
        Space::Cases { list: l, what: "trees of every interesting size and form" }
    }));
    v.push(entry("patterns-deep", M { dom: 0, level: 1 }, move |_| Space::Cases { list: deep_forms(n, t), what: "trees with one inner level more" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
