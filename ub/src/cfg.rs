//! key, value and augmentation types whose validity the interpreter can judge
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::NonZeroU8;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, GroupCount, Tuple2};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::{BPlusTree, Key, NodeStoreVec};

pub type Tree<C> = BPlusTree<NodeStoreVec<<C as Cfg>::K, <C as Cfg>::V, <C as Cfg>::A>>;

pub fn eat(x: u64) {
    std::hint::black_box(x);
}

pub trait Cfg: Sized {
    const NAME: &'static str;
    /// keys below this are distinct
    const KEYS: u32 = u32::MAX;
    type K: Key;
    type V: Clone;
    type A: Augmentation<Self::K, Self::V>;
    fn k(i: u32) -> Self::K;
    fn v(i: u32) -> Self::V;
    fn uk(k: &Self::K) -> u32;
    fn uv(v: &Self::V);
    fn ua(_: &Self::A) {}
    /// queries at and around the i-th entry
    fn query(_: &Tree<Self>, _i: usize, _k: u32) {}
    fn query_mut(_: &mut Tree<Self>, _i: usize) {}
    fn query_remove(_: &mut Tree<Self>, _i: usize) -> bool {
        false
    }
}

/// heap-owning keys and values: a slot read before it is written, or used twice, is seen at once
pub struct Heap;
impl Cfg for Heap {
    const NAME: &'static str = "Box/Box/Count";
    type K = Box<u32>;
    type V = Box<u32>;
    type A = Count;
    fn k(i: u32) -> Box<u32> {
        Box::new(i)
    }
    fn v(i: u32) -> Box<u32> {
        Box::new(i)
    }
    fn uk(k: &Box<u32>) -> u32 {
        **k
    }
    fn uv(v: &Box<u32>) {
        eat(**v as u64)
    }
    fn ua(a: &Count) {
        eat(a.count() as u64)
    }
    fn query(t: &Tree<Self>, i: usize, k: u32) {
        if let Some((k, v)) = t.get_by_augmentation(i) {
            eat(**k as u64 + **v as u64);
        }
        let r: Result<usize, usize> = t.rank_by_augmentation(&Box::new(k));
        eat(r.unwrap_or_else(|e| e) as u64);
    }
    fn query_mut(t: &mut Tree<Self>, i: usize) {
        if let Some(v) = t.get_mut_by_augmentation(i) {
            **v += 1;
        }
    }
    fn query_remove(t: &mut Tree<Self>, i: usize) -> bool {
        match t.remove_by_augmentation(i) {
            Some((k, v)) => {
                eat(*k as u64 + *v as u64);
                true
            }
            None => false,
        }
    }
}

/// a heap-owning augmentation, values of a type with forbidden bit patterns
#[derive(Clone, Default)]
pub struct Owned(Option<Box<usize>>);
impl Owned {
    fn n(&self) -> usize {
        self.0.as_ref().map(|b| **b).unwrap_or(0)
    }
}
impl Augmentation<String, bool> for Owned {
    fn from_inner(k: &[String], a: &[Self]) -> Self {
        let mut n = 0;
        for a in a {
            n += a.n();
        }
        for k in k {
            eat(k.len() as u64);
        }
        Owned(Some(Box::new(n)))
    }
    fn from_leaf(k: &[String], v: &[bool]) -> Self {
        for v in v {
            eat(if *v { 1 } else { 2 });
        }
        Owned(Some(Box::new(k.len())))
    }
}
impl SearchAugmentation<String, bool> for Owned {
    type Query = Box<usize>;
    fn locate_in_leaf(q: Box<usize>, k: &[String], _: &[bool]) -> Option<usize> {
        if *q < k.len() {
            Some(*q)
        } else {
            None
        }
    }
    fn locate_in_inner(mut q: Box<usize>, _: &[String], a: &[Self]) -> Option<(usize, Box<usize>)> {
        let mut i = 0;
        for a in a {
            if *q < a.n() {
                return Some((i, q));
            }
            *q -= a.n();
            i += 1;
        }
        None
    }
}
impl RankAugmentation<String, bool> for Owned {
    type Rank = Box<usize>;
    fn initial_value() -> Box<usize> {
        Box::new(0)
    }
    fn fold_inner(_: &String, mut r: Box<usize>, a: &[Self]) -> Box<usize> {
        for a in a {
            *r += a.n();
        }
        r
    }
    fn fold_leaf(_: &String, mut r: Box<usize>, at: Result<usize, usize>, _: &[String]) -> Result<Box<usize>, Box<usize>> {
        match at {
            Ok(i) => {
                *r += i;
                Ok(r)
            }
            Err(i) => {
                *r += i;
                Err(r)
            }
        }
    }
}
pub struct Text;
impl Cfg for Text {
    const NAME: &'static str = "String/bool/Option<Box>";
    type K = String;
    type V = bool;
    type A = Owned;
    fn k(i: u32) -> String {
        // two bytes in order of i
        let mut s = String::with_capacity(2);
        s.push((32 + i / 90) as u8 as char);
        s.push((32 + i % 90) as u8 as char);
        s
    }
    fn v(i: u32) -> bool {
        i & 1 != 0
    }
    fn uk(k: &String) -> u32 {
        let b = k.as_bytes();
        (b[0] - 32) as u32 * 90 + (b[1] - 32) as u32
    }
    fn uv(v: &bool) {
        eat(if *v { 1 } else { 2 })
    }
    fn ua(a: &Owned) {
        eat(a.n() as u64)
    }
    fn query(t: &Tree<Self>, i: usize, k: u32) {
        if let Some((k, v)) = t.get_by_augmentation(Box::new(i)) {
            eat(Self::uk(k) as u64);
            Self::uv(v);
        }
        match t.rank_by_augmentation::<Box<usize>>(&Self::k(k)) {
            Ok(r) | Err(r) => eat(*r as u64),
        }
    }
    fn query_mut(t: &mut Tree<Self>, i: usize) {
        if let Some(v) = t.get_mut_by_augmentation(Box::new(i)) {
            *v = !*v;
        }
    }
    fn query_remove(t: &mut Tree<Self>, i: usize) -> bool {
        match t.remove_by_augmentation(Box::new(i)) {
            Some((k, v)) => {
                eat(Self::uk(&k) as u64);
                Self::uv(&v);
                true
            }
            None => false,
        }
    }
}

/// pairs grouped by their first half, zero-sized values that are counted as they drop
pub struct Unit;
thread_local! { pub static UNITS: Cell<i64> = const { Cell::new(0) }; }
impl Clone for Unit {
    fn clone(&self) -> Unit {
        UNITS.with(|u| u.set(u.get() + 1));
        Unit
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.with(|u| u.set(u.get() - 1));
    }
}
pub struct Grouped;
impl Cfg for Grouped {
    const NAME: &'static str = "pair/zero-sized/GroupCount";
    type K = (u32, u32);
    type V = Unit;
    type A = GroupCount<Tuple2<u32>>;
    fn k(i: u32) -> (u32, u32) {
        (i / 3, i % 3)
    }
    fn v(_: u32) -> Unit {
        UNITS.with(|u| u.set(u.get() + 1));
        Unit
    }
    fn uk(k: &(u32, u32)) -> u32 {
        k.0 * 3 + k.1
    }
    fn uv(_: &Unit) {}
    fn ua(a: &Self::A) {
        eat(a.group_count() as u64);
        eat(a.is_zero() as u64);
        eat(a.max_group().map(|x| x.1).unwrap_or(0) as u64);
    }
    fn query(t: &Tree<Self>, i: usize, k: u32) {
        use sweep_bptree::augment::group::FromRef;
        let g: Tuple2<u32> = FromRef::from_ref(&(i as u32 / 3, i as u32 % 3));
        if let Some((k, _)) = t.get_by_augmentation((g.clone(), i % 3)) {
            eat(k.0 as u64);
        }
        eat(t.descend_visit(ExtractGroupSize::new(g)).unwrap_or(0) as u64);
        let r = t.rank_by_augmentation::<Option<(Tuple2<u32>, usize)>>(&Self::k(k));
        eat(match r {
            Ok(x) | Err(x) => x.map(|x| x.1).unwrap_or(0) as u64,
        });
    }
    fn query_mut(t: &mut Tree<Self>, i: usize) {
        use sweep_bptree::augment::group::FromRef;
        let g: Tuple2<u32> = FromRef::from_ref(&(i as u32 / 3, 0));
        t.get_mut_by_augmentation((g, i % 3));
    }
    fn query_remove(t: &mut Tree<Self>, i: usize) -> bool {
        use sweep_bptree::augment::group::FromRef;
        let g: Tuple2<u32> = FromRef::from_ref(&(i as u32 / 3, 0));
        t.remove_by_augmentation((g, i % 3)).is_some()
    }
}

/// over-aligned keys with padding, values with a niche, no augmentation
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(32))]
pub struct Al(u32, NonZeroU8);
pub struct Aligned;
impl Cfg for Aligned {
    const NAME: &'static str = "aligned/Option<NonZeroU8>/()";
    type K = Al;
    type V = Option<NonZeroU8>;
    type A = ();
    fn k(i: u32) -> Al {
        Al(i, NonZeroU8::MIN)
    }
    fn v(i: u32) -> Self::V {
        NonZeroU8::new(i as u8)
    }
    fn uk(k: &Al) -> u32 {
        assert!((k as *const Al as usize) % 32 == 0);
        eat(k.1.get() as u64);
        k.0
    }
    fn uv(v: &Self::V) {
        eat(v.map(|v| v.get()).unwrap_or(0) as u64)
    }
}

// ---- the panicking ones

thread_local! { static FUSE: Cell<i64> = const { Cell::new(-1) }; }
/// the n-th call into user code from now on panics; None: none does. Tells whether one has.
pub fn arm(n: Option<i64>) -> bool {
    FUSE.with(|f| f.replace(n.unwrap_or(-1))) == -2
}
fn call() {
    FUSE.with(|f| {
        let n = f.get();
        if n < 0 || std::thread::panicking() {
            return;
        }
        if n == 0 {
            f.set(-2);
            std::panic::resume_unwind(Box::new(()));
        }
        f.set(n - 1);
    })
}
pub struct PB(Box<u32>);
impl Clone for PB {
    fn clone(&self) -> PB {
        call();
        PB(self.0.clone())
    }
}
impl Drop for PB {
    fn drop(&mut self) {
        eat(*self.0 as u64);
        call();
    }
}
impl PartialEq for PB {
    fn eq(&self, o: &PB) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for PB {}
impl PartialOrd for PB {
    fn partial_cmp(&self, o: &PB) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for PB {
    fn cmp(&self, o: &PB) -> Ordering {
        call();
        self.0.cmp(&o.0)
    }
}
#[derive(Clone)]
pub struct PA(PB, usize);
impl Default for PA {
    fn default() -> PA {
        call();
        PA(PB(Box::new(0)), 0)
    }
}
impl Augmentation<PB, PB> for PA {
    fn from_inner(k: &[PB], a: &[Self]) -> Self {
        call();
        k.iter().for_each(|k| eat(*k.0 as u64));
        PA(PB(Box::new(a.iter().map(|a| *a.0 .0).sum())), a.iter().map(|a| a.1).sum())
    }
    fn from_leaf(k: &[PB], v: &[PB]) -> Self {
        call();
        v.iter().for_each(|v| eat(*v.0 as u64));
        PA(PB(Box::new(k.iter().map(|k| *k.0).sum())), k.len())
    }
}
impl SearchAugmentation<PB, PB> for PA {
    type Query = usize;
    fn locate_in_leaf(q: usize, k: &[PB], _: &[PB]) -> Option<usize> {
        call();
        (q < k.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _: &[PB], a: &[Self]) -> Option<(usize, usize)> {
        call();
        for (i, a) in a.iter().enumerate() {
            if q < a.1 {
                return Some((i, q));
            }
            q -= a.1;
        }
        None
    }
}
pub struct Panicky;
impl Cfg for Panicky {
    const NAME: &'static str = "Box/Box/Box, each of which may panic";
    type K = PB;
    type V = PB;
    type A = PA;
    fn k(i: u32) -> PB {
        PB(Box::new(i))
    }
    fn v(i: u32) -> PB {
        PB(Box::new(i))
    }
    fn uk(k: &PB) -> u32 {
        *k.0
    }
    fn uv(v: &PB) {
        eat(*v.0 as u64)
    }
    fn ua(a: &PA) {
        eat(*a.0 .0 as u64)
    }
    fn query(t: &Tree<Self>, i: usize, _: u32) {
        if let Some((k, v)) = t.get_by_augmentation(i) {
            eat(*k.0 as u64 + *v.0 as u64);
        }
    }
    fn query_mut(t: &mut Tree<Self>, i: usize) {
        if let Some(v) = t.get_mut_by_augmentation(i) {
            *v.0 += 1;
        }
    }
    fn query_remove(t: &mut Tree<Self>, i: usize) -> bool {
        t.remove_by_augmentation(i).is_some()
    }
}
