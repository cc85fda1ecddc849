//! C19: work is logarithmic. The crate is compiled with every control-flow edge counted
//! (SanitizerCoverage, the counter is ours), so the work of one call is a number that does not
//! depend on the machine. It is compared with a bound that grows with the height a tree of that
//! many entries may have.
use std::hint::black_box;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, GroupCount};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

std::arch::global_asm!(
    r#"
.globl __sanitizer_cov_trace_pc
.type __sanitizer_cov_trace_pc,@function
__sanitizer_cov_trace_pc:
  incq %fs:SWEEP_STEPS@tpoff
  ret
.globl SWEEP_STEPS
.hidden SWEEP_STEPS
.type SWEEP_STEPS,@tls_object
.section .tbss,"awT",@nobits
.balign 8
SWEEP_STEPS: .quad 0
.text
"#,
    options(att_syntax)
);
#[inline(always)]
fn steps() -> u64 {
    let r: u64;
    // not pure: may not be moved across the measured call
    unsafe { std::arch::asm!("movq %fs:SWEEP_STEPS@tpoff, {}", out(reg) r, options(att_syntax, nostack)) };
    r
}
fn work<T>(f: impl FnOnce() -> T) -> (u64, T) {
    let a = steps();
    let r = black_box(f());
    (steps() - a, r)
}

/// levels a tree of n entries may have
fn height(n: usize) -> f64 {
    let m = (node_n() as f64 / 4.0).max(2.0);
    2.0 + ((n + 2) as f64).ln() / m.ln()
}
/// bound for one call on a container of n entries
fn one(n: usize) -> u64 {
    (height(n) * (80.0 + 10.0 * node_n() as f64)) as u64
}

trait Aug: Augmentation<u32, u32> + 'static {
    /// queries and ranks of the entry of that index and key
    fn queries(t: &mut Tree<u32, u32, Self>, i: usize, k: u32, f: &mut dyn FnMut(&str, u64) -> R) -> R;
}
impl Aug for () {
    fn queries(_: &mut Tree<u32, u32, Self>, _: usize, _: u32, _: &mut dyn FnMut(&str, u64) -> R) -> R {
        Ok(())
    }
}
fn by_aug<A, Q: Clone, RK>(t: &mut Tree<u32, u32, A>, q: Q, k: u32, f: &mut dyn FnMut(&str, u64) -> R) -> R
where
    A: SearchAugmentation<u32, u32, Query = Q> + RankAugmentation<u32, u32, Rank = RK>,
{
    f("get_by_augmentation", work(|| t.get_by_augmentation(q.clone()).is_some()).0)?;
    f("get_mut_by_augmentation", work(|| t.get_mut_by_augmentation(q.clone()).is_some()).0)?;
    f("rank_by_augmentation", work(|| t.rank_by_augmentation(&k).is_ok()).0)?;
    f("rank_by_augmentation of an absent key", work(|| t.rank_by_augmentation(&(k + 1)).is_ok()).0)?;
    let (s, r) = work(|| t.remove_by_augmentation(q.clone()));
    f("remove_by_augmentation", s)?;
    if let Some((k, v)) = r {
        f("insert", work(|| t.insert(k, v)).0)?;
    }
    Ok(())
}
impl Aug for Count {
    fn queries(t: &mut Tree<u32, u32, Self>, i: usize, k: u32, f: &mut dyn FnMut(&str, u64) -> R) -> R {
        by_aug(t, i, k, f)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct G(u32);
impl sweep_bptree::augment::group::FromRef<u32> for G {
    fn from_ref(k: &u32) -> Self {
        G(k >> 7)
    }
}
impl Aug for GroupCount<G> {
    fn queries(t: &mut Tree<u32, u32, Self>, i: usize, k: u32, f: &mut dyn FnMut(&str, u64) -> R) -> R {
        by_aug(t, (G(k >> 7), i % 64), k, f)?;
        f("ExtractGroupSize", work(|| t.descend_visit(ExtractGroupSize::new(G(k >> 7)))).0)
    }
}

struct Mid;
impl<K, V, A> DescendVisit<K, V, A> for Mid {
    type Result = usize;
    fn visit_inner(&mut self, keys: &[K], _: &[A]) -> DescendVisitResult<usize> {
        DescendVisitResult::GoDown(keys.len() / 2)
    }
    fn visit_leaf(&mut self, keys: &[K], _: &[V]) -> Option<usize> {
        Some(keys.len())
    }
}

struct M<A> {
    /// also map and set
    wide: bool,
    _p: std::marker::PhantomData<fn() -> A>,
}
fn m<A>(wide: bool) -> M<A> {
    M { wide, _p: std::marker::PhantomData }
}
static WORST: std::sync::Mutex<(f64, String)> = std::sync::Mutex::new((0.0, String::new()));
fn bound(what: &str, s: u64, n: usize) -> R {
    let b = one(n);
    if std::env::var_os("MC_WORST").is_some() {
        let mut w = WORST.lock().unwrap();
        let q = s as f64 / b as f64;
        if q > w.0 {
            *w = (q, what.into());
            println!("{q:.3} {what} {s} of {b} at {n}");
        }
    }
    ensure!(s <= b, "{what} takes {s} steps on {n} entries; a tree of that size and node capacity {} allows {b}", node_n());
    Ok(())
}
fn total(what: &str, s: u64, n: usize, per: u64) -> R {
    let b = per * n as u64 + one(n);
    ensure!(s <= b, "{what} takes {s} steps for {n} entries, more than {per} each");
    Ok(())
}
/// positions probed: all of a small container, the ends and a comb of a large one
fn comb(n: usize, dense: usize) -> Vec<usize> {
    if n <= dense {
        return (0..n).collect();
    }
    let e = dense / 4;
    let mut v: Vec<usize> = (0..e).chain(n - e..n).collect();
    let st = (n / (dense / 2)).max(1);
    v.extend((0..n).step_by(st));
    v.sort();
    v.dedup();
    v
}
macro_rules! stepped {
    ($what:expr, $n:expr, $it:expr, $next:ident) => {{
        let (s, mut it) = work(|| $it);
        bound(concat!($what, " creation"), s, $n)?;
        let mut t = 0;
        let mut c = 0usize;
        loop {
            let (s, x) = work(|| it.$next());
            bound(concat!($what, " step"), s, $n)?;
            t += s;
            if x.is_none() {
                break;
            }
            c += 1;
        }
        ensure!(c == $n, "{} yields {c} of {} entries", $what, $n);
        total($what, t, $n, 40)?;
    }};
}
impl<A: Aug> M<A> {
    fn tree(&self, t: &mut Tree<u32, u32, A>) -> R {
        let n = t.len();
        let keys: Vec<u32> = t.iter().map(|x| *x.0).collect();
        let pos = comb(n, if node_n() <= 8 { 1600 } else { 1200 });
        for &i in &pos {
            let k = keys[i];
            let gap = if keys.get(i + 1) == Some(&(k + 1)) { u32::MAX } else { k + 1 };
            bound("get", work(|| t.get(&k).is_some()).0, n)?;
            bound("get of an absent key", work(|| t.get(&gap).is_some()).0, n)?;
            bound("get_mut", work(|| t.get_mut(&k).is_some()).0, n)?;
            bound("insert over an entry", work(|| t.insert(k, 1)).0, n)?;
            let (s, c) = work(|| t.get_cursor(&k).map(|c| c.0));
            bound("get_cursor", s, n)?;
            if let Some(c) = c {
                let (s, nx) = work(|| c.next(t));
                bound("Cursor::next", s, n)?;
                let (s, pv) = work(|| c.prev(t));
                bound("Cursor::prev", s, n)?;
                bound("Cursor::value", work(|| c.value(t).is_some()).0, n)?;
                bound("Cursor::exists", work(|| c.exists(t)).0, n)?;
                let (s, v) = work(|| t.remove(&k));
                bound("remove", s, n)?;
                // the cursor's own entry is gone
                bound("Cursor::next of a removed key", work(|| c.next(t)).0, n)?;
                bound("Cursor::prev of a removed key", work(|| c.prev(t)).0, n)?;
                bound("Cursor::value of a removed key", work(|| c.value(t).is_some()).0, n)?;
                for c in [nx, pv].into_iter().flatten() {
                    bound("Cursor::next", work(|| c.next(t)).0, n)?;
                    bound("Cursor::prev", work(|| c.prev(t)).0, n)?;
                }
                bound("insert", work(|| t.insert(k, v.unwrap())).0, n)?;
            }
            bound("insert of a new key", work(|| t.insert(gap, 0)).0, n)?;
            bound("remove of the new key", work(|| t.remove(&gap)).0, n)?;
            bound("remove of an absent key", work(|| t.remove(&gap)).0, n)?;
            A::queries(t, i, k, &mut |w, s| bound(w, s, n))?;
            bump(20);
        }
        bound("len", work(|| t.len()).0, n)?;
        bound("is_empty", work(|| t.is_empty()).0, n)?;
        bound("first", work(|| t.first().is_some()).0, n)?;
        bound("last", work(|| t.last().is_some()).0, n)?;
        bound("cursor_first", work(|| t.cursor_first().is_some()).0, n)?;
        bound("Cursor::first", work(|| Cursor::first(&*t).is_some()).0, n)?;
        bound("Cursor::last", work(|| Cursor::last(&*t).is_some()).0, n)?;
        bound("root_augmentation", work(|| { t.root_augmentation(); }).0, n)?;
        bound("descend_visit", work(|| t.descend_visit(Mid)).0, n)?;
        stepped!("iter", n, t.iter(), next);
        stepped!("iter from the back", n, t.iter(), next_back);
        stepped!("iter().rev()", n, t.iter().rev(), next);
        let mut i = t.iter();
        let mut s = 0;
        loop {
            s += work(|| { i.next(); }).0;
            let (x, e) = work(|| i.next_back().is_none());
            bound("next_back after next", x, n)?;
            bound("len of an iterator", work(|| i.len()).0, n)?;
            bound("size_hint", work(|| i.size_hint()).0, n)?;
            bound("clone of an iterator", work(|| drop(black_box(i.clone()))).0, n)?;
            s += x;
            if e {
                break;
            }
        }
        total("iter from both ends", s, n, 40)?;
        total("iter().count()", work(|| t.iter().count()).0, n, 40)?;
        total("iter().last()", work(|| t.iter().last().is_some()).0, n, 40)?;
        for k in [0, 1, 7] {
            total("iter().nth(small)", work(|| t.iter().nth(k).is_some()).0, k, 24 + one(n))?;
        }
        let d: Vec<(u32, u32)> = keys.iter().map(|k| (*k, 0)).collect();
        let (s, b) = work(|| BPlusTree::<sweep_bptree::NodeStoreVec<u32, u32, A>>::bulk_load(d));
        total("bulk_load", s, n, 80)?;
        stepped!("into_iter", n, b.into_iter(), next);
        let d: Vec<(u32, u32)> = keys.iter().map(|k| (*k, 0)).collect();
        let b = BPlusTree::<sweep_bptree::NodeStoreVec<u32, u32, A>>::bulk_load(d);
        stepped!("into_iter from the back", n, b.into_iter(), next_back);
        Ok(())
    }
    fn wide(&self, keys: &[u32]) -> R {
        let n = keys.len();
        let lg = (n + 2).ilog2() as u64 + 1;
        let mut mp: BPlusTreeMap<u32, u32, A> = BPlusTreeMap::new();
        let mut st = BPlusTreeSet::<u32>::new();
        let (mut a, mut b) = (0, 0);
        for (i, k) in keys.iter().enumerate() {
            let (s, _) = work(|| mp.insert(*k, 0));
            bound("BPlusTreeMap::insert", s, i + 1)?;
            a += s;
            let (s, _) = work(|| st.insert(*k));
            bound("BPlusTreeSet::insert", s, i + 1)?;
            b += s;
        }
        black_box((a, b));
        for &i in &comb(n, 500) {
            let k = keys[i];
            bound("BPlusTreeMap::get", work(|| mp.get(&k).is_some()).0, n)?;
            bound("BPlusTreeMap::get_mut", work(|| mp.get_mut(&k).is_some()).0, n)?;
            bound("BPlusTreeMap::remove", work(|| mp.remove(&k)).0, n)?;
            bound("BPlusTreeMap::insert", work(|| mp.insert(k, 0)).0, n)?;
            bound("BPlusTreeSet::contains", work(|| st.contains(&k)).0, n)?;
            bound("BPlusTreeSet::contains", work(|| st.contains(&(k + 1))).0, n)?;
            bound("BPlusTreeSet::insert of a member", work(|| st.insert(k)).0, n)?;
            bound("BPlusTreeSet::remove", work(|| st.remove(&k)).0, n)?;
            bound("BPlusTreeSet::insert", work(|| st.insert(k)).0, n)?;
            bump(9);
        }
        bound("BPlusTreeMap::len", work(|| (mp.len(), mp.is_empty())).0, n)?;
        bound("BPlusTreeMap::descend_visit", work(|| mp.descend_visit(Mid)).0, n)?;
        bound("BPlusTreeSet::len", work(|| (st.len(), st.is_empty())).0, n)?;
        bound("BPlusTreeSet::first", work(|| st.first().is_some()).0, n)?;
        bound("BPlusTreeSet::last", work(|| st.last().is_some()).0, n)?;
        stepped!("BPlusTreeMap::iter", n, mp.iter(), next);
        stepped!("BPlusTreeMap::iter from the back", n, mp.iter(), next_back);
        stepped!("BPlusTreeSet::iter", n, st.iter(), next);
        stepped!("BPlusTreeSet::iter from the back", n, st.iter(), next_back);
        // unions with itself, with its gaps, with its ends, with nothing
        let gaps: BPlusTreeSet<u32> = keys.iter().map(|k| k + 1).collect();
        let every: BPlusTreeSet<u32> = keys.iter().step_by(3).copied().collect();
        let none = BPlusTreeSet::new();
        for (x, y) in [(&st, &st), (&st, &gaps), (&gaps, &st), (&st, &every), (&every, &st), (&st, &none), (&none, &st)] {
            let (s, mut u) = work(|| x.union(y));
            bound("union creation", s, n)?;
            let mut t = 0;
            loop {
                let (s, e) = work(|| u.next().is_none());
                bound("union step", s, n)?;
                bound("union size_hint", work(|| u.size_hint()).0, n)?;
                t += s;
                if e {
                    break;
                }
            }
            total("union", t, x.len() + y.len(), 40)?;
        }
        // building from items in order, in reverse, and shuffled by a fixed permutation
        for o in [ASC, DESC, MIDOUT, ZIG] {
            let v: Vec<u32> = order(o, n).into_iter().map(|i| keys[i]).collect();
            let p: Vec<(u32, u32)> = v.iter().map(|k| (*k, 0)).collect();
            let (s, c) = work(|| v.into_iter().collect::<BPlusTreeSet<u32>>());
            total("BPlusTreeSet::from_iter", s, n, 32 * lg + 32)?;
            stepped!("BPlusTreeSet::into_iter", n, c.into_iter(), next);
            let (s, _) = work(|| p.into_iter().collect::<BPlusTreeMap<u32, u32, A>>());
            total("BPlusTreeMap::from_iter", s, n, 32 * lg + 64)?;
        }
        Ok(())
    }
}
impl<A: Aug> Machine for M<A> {
    type W = TW<u32, u32, A>;
    fn new(&self) -> Self::W {
        TW::new()
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        w.step(o).expect("op")
    }
    fn canon(&self, _: &Self::W, _: &mut Vec<u8>) {}
    fn check(&self, mut w: Self::W) -> R {
        self.tree(&mut w.t)?;
        if self.wide {
            let k: Vec<u32> = w.m.keys().copied().collect();
            self.wide(&k)?;
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        show_op(o)
    }
}

/// trees of the given sizes by every builder, whole, thinned out and drained
fn trees(sizes: &[usize]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for &s in sizes {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            v.push(vec![base]);
            v.push(vec![base, op(DELODD, 0)]);
            v.push(vec![base, op(DELODD, 0), op(DELODD, 0), op(INSGAPS, 0)]);
            for d in [DELASC, DELDESC, DELMID] {
                v.push(vec![base, op(d, (s / 2) as u32)]);
                v.push(vec![base, op(d, (s - s / 50 - 1) as u32)]);
            }
        }
    }
    v
}
fn entries(n: usize, t: bool) -> Vec<Entry> {
    let (sizes, deep): (Vec<usize>, Vec<usize>) = match n {
        ..=4 => (vec![3, 40, 2_500, 20_000], vec![40_000]),
        ..=8 => (vec![9, 100, 5_000, 12_000], vec![60_000]),
        _ if t => (vec![65, 1_000, 4_000, 40_000, 90_000], vec![300_000, 1_000_000, 2_000_000]),
        _ => (vec![65, 4_000, 30_000], vec![400_000, 1_000_000]),
    };
    let s2 = sizes.clone();
    let all = move |s: &[usize]| {
        let l = trees(s);
        move |_: &Ctx| Space::Cases { list: l, what: "every builder x thinning, every operation at every position probed" }
    };
    let mut v = vec![
        entry("plain", m::<()>(true), all(&s2)),
        entry("count", m::<Count>(false), all(&s2)),
        entry("group", m::<GroupCount<G>>(false), all(&s2)),
    ];
    let d: Vec<Vec<Op>> = deep.iter().flat_map(|s| if t { trees(&[*s]) } else { BUILDERS.iter().flat_map(|b| [vec![op(*b, sized(1, *s))], vec![op(*b, sized(1, *s)), op(DELODD, 0)]]).collect() }).collect();
    for e in [entry("plain-deep", m::<()>(t), |_| unreachable!()), entry("count-deep", m::<Count>(t), |_| unreachable!()), entry("group-deep", m::<GroupCount<G>>(false), |_| unreachable!())] {
        let d = d.clone();
        v.push(Entry { name: e.name, suite: e.suite, space: Box::new(move |_| Space::Cases { list: d, what: "large trees" }) });
    }
    v
}
static PLAN: List = List(entries);
fn main() {
    run(&PLAN)
}
