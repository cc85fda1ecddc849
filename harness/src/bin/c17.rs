//! C17: a descend visitor walks one faithful root-to-leaf path: every script of decisions a
//! visitor can take on every tree.
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::BPlusTreeMap;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const CLONE: u8 = 40;

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Cancel,
    Complete,
    Out(usize),
    LeafSome,
    LeafNone,
}
#[derive(Clone, Debug, PartialEq)]
enum Seen<A> {
    Inner(Vec<u32>, Vec<A>),
    Leaf(Vec<(u32, u32)>),
}
/// goes down `path`, then does `end`; an inner node or leaf it did not expect is seen in the log
struct Script<'a, A> {
    path: &'a [usize],
    end: End,
    log: &'a mut Vec<Seen<A>>,
}
const TOKEN: u64 = 0xC0FFEE;
impl<'a, K: DomKey, V: DomVal, A: Clone> DescendVisit<K, V, A> for Script<'a, A> {
    type Result = (u64, usize);
    fn visit_inner(&mut self, keys: &[K], augs: &[A]) -> DescendVisitResult<(u64, usize)> {
        let d = self.log.len();
        self.log.push(Seen::Inner(keys.iter().map(|k| k.ix()).collect(), augs.to_vec()));
        if d < self.path.len() {
            return DescendVisitResult::GoDown(self.path[d]);
        }
        match self.end {
            End::Cancel => DescendVisitResult::Cancel,
            End::Complete => DescendVisitResult::Complete((TOKEN, d)),
            End::Out(i) => DescendVisitResult::GoDown(i),
            _ => DescendVisitResult::Cancel,
        }
    }
    fn visit_leaf(&mut self, keys: &[K], vals: &[V]) -> Option<(u64, usize)> {
        let d = self.log.len();
        let l = if keys.len() == vals.len() { keys.iter().zip(vals).map(|(k, v)| (k.ix(), v.ix())).collect() } else { vec![(u32::MAX, vals.len() as u32)] };
        self.log.push(Seen::Leaf(l));
        (self.end == End::LeafSome).then_some((TOKEN, d))
    }
}

trait Aug<K: DomKey, V: DomVal>: Augmentation<K, V> + PartialEq + std::fmt::Debug + 'static {
    fn of(e: &[(u32, u32)]) -> Self;
}
impl<K: DomKey, V: DomVal> Aug<K, V> for Free {
    fn of(e: &[(u32, u32)]) -> Free {
        Free { e: e.to_vec(), bad: None }
    }
}
impl<K: DomKey, V: DomVal> Aug<K, V> for Poly {
    fn of(e: &[(u32, u32)]) -> Poly {
        let mut p = Poly::default();
        e.iter().for_each(|(k, v)| poly_push(&mut p, *k, *v));
        p
    }
}
impl<K: DomKey, V: DomVal> Aug<K, V> for () {
    fn of(_: &[(u32, u32)]) {}
}

struct M<K, V, A> {
    dom: u32,
    map: bool,
    _p: std::marker::PhantomData<fn() -> (K, V, A)>,
}
fn m<K, V, A>(dom: u32, map: bool) -> M<K, V, A> {
    M { dom, map, _p: std::marker::PhantomData }
}
struct Walk<'a, K: DomKey, V: DomVal, A: Aug<K, V>, T> {
    t: &'a T,
    model: &'a Model,
    path: Vec<usize>,
    seen: Vec<Seen<A>>,
    /// thin out the out-of-range indices tried
    big: bool,
    _p: std::marker::PhantomData<fn() -> (K, V)>,
}
impl<'a, K: DomKey, V: DomVal, A: Aug<K, V>, T: Visitable<K, V, A>> Walk<'a, K, V, A, T> {
    fn go(&self, end: End) -> R {
        let mut log = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| self.t.visit(Script { path: &self.path, end, log: &mut log })));
        let p = &self.path;
        ensure!(log == self.seen, "a visitor going down {p:?} and ending with {end:?} was shown {log:?}, the nodes there are {:?}", self.seen);
        let d = self.path.len();
        match (end, r) {
            (End::Out(_), Err(_)) => (),
            (End::Out(i), Ok(_)) => return Err(format!("going down {p:?} and then to child {i}, which does not exist, did not panic")),
            (_, Err(_)) => return Err(format!("going down {p:?} and ending with {end:?} panicked")),
            (End::Cancel | End::LeafNone, Ok(r)) => ensure!(r.is_none(), "going down {p:?} and ending with {end:?} gave {r:?}"),
            (_, Ok(r)) => ensure!(r == Some((TOKEN, d)), "going down {p:?} and ending with {end:?} gave {r:?}, expected {:?}", (TOKEN, d)),
        }
        bump(1);
        Ok(())
    }
    fn walk(&mut self, s: &Shape<A>, lo: Option<u32>, hi: Option<u32>) -> R {
        match s {
            Shape::Leaf(e) => {
                let lo = lo.unwrap_or(0);
                let want: Vec<(u32, u32)> = match hi {
                    Some(h) if h >= lo => self.model.range(lo..h).map(|(k, v)| (*k, *v)).collect(),
                    Some(_) => vec![],
                    None => self.model.range(lo..).map(|(k, v)| (*k, *v)).collect(),
                };
                ensure!(*e == want, "the leaf at {:?} shows {e:?}, between its separators are {want:?}", self.path);
                self.seen.push(Seen::Leaf(e.clone()));
                self.go(End::LeafSome)?;
                self.go(End::LeafNone)?;
            }
            Shape::Inner { keys, augs, kids } => {
                ensure!(augs.len() == keys.len() + 1, "the inner node at {:?} shows {} keys and {} augmentations", self.path, keys.len(), augs.len());
                self.seen.push(Seen::Inner(keys.clone(), augs.clone()));
                self.go(End::Cancel)?;
                self.go(End::Complete)?;
                let n = keys.len();
                if self.big {
                    for i in [n + 1, node_n() + 1, usize::MAX] {
                        self.go(End::Out(i))?;
                    }
                } else {
                    for i in (n + 1..=node_n() + 2).chain([255, 256, 65_536, usize::MAX]) {
                        if i > n {
                            self.go(End::Out(i))?;
                        }
                    }
                }
                for (i, k) in kids.iter().enumerate() {
                    let want = A::of(&k.entries());
                    ensure!(augs[i] == want, "the augmentation shown for child {i} at {:?} is {:?}, its contents give {want:?}", self.path, augs[i]);
                    let l = if i == 0 { lo } else { Some(keys[i - 1]) };
                    let h = if i == n { hi } else { Some(keys[i]) };
                    self.path.push(i);
                    self.walk(k, l, h)?;
                    self.path.pop();
                }
            }
        }
        self.seen.pop();
        Ok(())
    }
}
fn every<K: DomKey, V: DomVal, A: Aug<K, V>, T: Visitable<K, V, A>>(t: &T, model: &Model, big: bool) -> R {
    let s = dump(t)?;
    let e = s.entries();
    ensure!(e.iter().copied().eq(model.iter().map(|(k, v)| (*k, *v))), "the leaves in path order show {e:?}, the entries are {model:?}");
    Walk { t, model, path: vec![], seen: vec![], big, _p: std::marker::PhantomData }.walk(&s, None, None)
}
struct W<K: DomKey, V: DomVal, A: Augmentation<K, V>> {
    w: TW<K, V, A>,
    map: BPlusTreeMap<K, V, A>,
}
impl<K: DomKey, V: DomVal, A: Aug<K, V>> Machine for M<K, V, A> {
    type W = W<K, V, A>;
    fn new(&self) -> Self::W {
        W { w: TW::new(), map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        let a = arg(o);
        if code(o) == CLONE {
            w.w.t = w.w.t.clone();
            return Ok(());
        }
        w.w.step(o).unwrap()?;
        if self.map {
            match code(o) {
                INS => {
                    w.map.insert(K::mk(a), V::mk(if V::EXACT { w.w.clock } else { 0 }));
                }
                DEL => {
                    w.map.remove(&K::mk(a));
                }
                _ => w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect(),
            }
        }
        Ok(())
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out);
    }
    fn check(&self, w: Self::W) -> R {
        let (mut b, mut a) = (vec![], vec![]);
        let big = w.w.m.len() > 2000;
        w.w.canon(self.dom.min(64), &mut b);
        every(&w.w.t, &w.w.m, big)?;
        w.w.canon(self.dom.min(64), &mut a);
        ensure!(a == b, "visiting changed the tree");
        ensure!(*w.w.t.root_augmentation() == A::of(&w.w.m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>()), "root_augmentation is {:?} after visiting", w.w.t.root_augmentation());
        if self.dom == 1 {
            w.w.full(0..1)?;
        } else {
            w.w.full(w.w.probes().into_iter().step_by(1 + w.w.m.len() / 500))?;
        }
        if self.map {
            every(&w.map, &w.w.m, big).map_err(|e| format!("map: {e}"))?;
            let l: Vec<(u32, u32)> = w.map.iter().map(|(k, v)| (k.ix(), v.ix())).collect();
            ensure!(l.iter().copied().eq(w.w.m.iter().map(|(k, v)| (*k, *v))), "visiting changed the map");
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        if code(o) == CLONE {
            "clone_and_drop_original".into()
        } else {
            show_op(o)
        }
    }
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 300_000 };
        let al = |d| {
            let mut a = alphabet(&[INS, DEL], d);
            a.push(op(CLEAR, 0));
            a.push(op(CLONE, 0));
            a
        };
        v.push(entry("scripts", m::<u32, u32, Free>(d, false), move |_| Space::Bfs { roots: roots(d, true), alphabet: al(d), depth: 100, cap }));
        v.push(entry("scripts-words", m::<u32, u32, Free>(5, true), move |_| Space::Words { bases: roots(5, true), alphabet: al(5), m: if t { 4 } else { 3 } }));
        v.push(entry("scripts-string", m::<String, String, ()>(6, true), move |_| Space::Bfs { roots: roots(6, true), alphabet: al(6), depth: 100, cap: 20_000 }));
        v.push(entry("scripts-zst", m::<ZK, (), Poly>(1, true), move |_| Space::Bfs { roots: roots(1, true), alphabet: al(1), depth: 100, cap: 20_000 }));
    }
    let sz: Vec<usize> = if n <= 8 { (0..if t { 300 } else { 110 }).collect() } else { sizes(n, t).into_iter().filter(|s| t || *s < 5000).collect() };
    v.push(entry("scripts-families", m::<u32, u32, Poly>(0, true), move |_| Space::Cases { list: forms(n, &sz), what: "every script on forms of every size" }));
    v.push(entry("scripts-deep", m::<u32, u32, Poly>(0, false), move |_| Space::Cases { list: deep_forms(n, t), what: "every script on trees with one inner level more" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
