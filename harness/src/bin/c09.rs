//! C09: every key, value and augmentation instance is dropped exactly once, none is used outside
//! its life, the container holds exactly len values, nothing is left at the end.
use sweep_bptree::augment::Augmentation;
use sweep_bptree::{BPlusTree, BPlusTreeMap};
use sweep_mc::alloc;
use sweep_mc::cli::{main as run, Args, Plan};
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::deep_forms;
use sweep_mc::tree::*;

const CONS: u8 = 40; // arg: front * 4096 + back
const CLONE_DROP: u8 = 41;
const CLONE_KEEP: u8 = 42;
const BULKDUP: u8 = 43;
const MAPIT: u8 = 44;
const RBA: u8 = 45;
const ITER: u8 = 46;
const INTOPARTS: u8 = 47; // drop the tree, start a new one

struct M<A> {
    dom: u32,
    _p: std::marker::PhantomData<fn() -> A>,
}
struct W<A: Augmentation<TK, TV>> {
    w: TW<TK, TV, A>,
    base: (isize, isize),
}
/// augmentations the machine can use, with or without a search
trait Aug: Augmentation<TK, TV> + 'static {
    fn rba(t: &mut Tree<TK, TV, Self>, i: usize) -> Option<Option<(TK, TV)>>;
    const TRACKED: bool;
}
impl Aug for TA {
    fn rba(t: &mut Tree<TK, TV, TA>, i: usize) -> Option<Option<(TK, TV)>> {
        Some(t.remove_by_augmentation(i))
    }
    const TRACKED: bool = true;
}
impl Aug for () {
    fn rba(_: &mut Tree<TK, TV, ()>, _: usize) -> Option<Option<(TK, TV)>> {
        None
    }
    const TRACKED: bool = false;
}

fn all_dead(what: &str, a_left: i64) -> R {
    ledger_err()?;
    for (k, want) in [(Kind::K, 0), (Kind::V, 0), (Kind::A, a_left)] {
        let l = ledger_live(k);
        ensure!(l == want, "{what}: {l} {k:?} instances alive, expected {want}");
    }
    Ok(())
}

impl<A: Aug> M<A> {
    fn consume(&self, w: &mut W<A>, f: usize, b: usize) -> R {
        let t = std::mem::replace(&mut w.w.t, new_tree());
        let a0 = if A::TRACKED { 1 } else { 0 };
        let m: Vec<(u32, u32)> = std::mem::take(&mut w.w.m).into_iter().collect();
        let mut held = vec![];
        {
            let mut it = t.into_iter();
            for i in 0..f {
                let g = it.next();
                let e = g.as_ref().map(|(k, v)| (k.ix(), v.ix()));
                ensure!(e == m.get(i).copied(), "into_iter().next() #{i} gave {e:?}");
                held.extend(g);
            }
            let left = m.len().saturating_sub(f);
            for i in 0..b {
                let g = it.next_back();
                let e = g.as_ref().map(|(k, v)| (k.ix(), v.ix()));
                let x = if i < left { Some(m[m.len() - 1 - i]) } else { None };
                ensure!(e == x, "into_iter().next_back() #{i} gave {e:?}, expected {x:?}");
                held.extend(g);
            }
            // nothing not handed out may have been dropped yet, nothing lost
            let lv = ledger_live(Kind::V);
            ensure!(lv == m.len() as i64, "while consuming, {lv} values are alive, {} were stored", m.len());
            drop(it);
        }
        ledger_err()?;
        let lv = ledger_live(Kind::V);
        ensure!(lv == held.len() as i64, "after abandoning the iterator {lv} values are alive, {} were handed out", held.len());
        let lk = ledger_live(Kind::K);
        ensure!(lk == held.len() as i64, "after abandoning the iterator {lk} keys are alive, {} were handed out", held.len());
        for (k, v) in &held {
            k.ix();
            v.ix();
        }
        drop(held);
        all_dead("after consuming the tree and dropping what it handed out", a0)
    }
}

impl<A: Aug> Machine for M<A> {
    type W = W<A>;
    fn new(&self) -> W<A> {
        ledger_reset();
        let base = alloc::live();
        W { w: TW::new(), base }
    }
    fn step(&self, w: &mut W<A>, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            CONS => self.consume(w, (a / 4096) as usize, (a % 4096) as usize)?,
            CLONE_DROP => {
                let c = w.w.t.clone();
                ensure!(c.len() == w.w.t.len(), "clone has length {}", c.len());
                drop(c);
            }
            CLONE_KEEP => {
                let c = w.w.t.clone();
                w.w.t = c;
            }
            BULKDUP | MAPIT => {
                let (f, n) = spaced(a);
                w.w.m.clear();
                let mut d: Vec<(TK, TV)> = vec![];
                for i in 0..n {
                    for j in 0..(1 + i % 3) {
                        let v = w.w.tick();
                        let _ = j;
                        d.push((TK::mk(key_of(f, i)), TV::mk(v)));
                        w.w.m.insert(key_of(f, i), v);
                    }
                }
                if code(o) == BULKDUP {
                    w.w.t = BPlusTree::bulk_load(d);
                } else {
                    let m: BPlusTreeMap<TK, TV, A> = d.into_iter().collect();
                    ensure!(m.len() == w.w.m.len(), "from_iter length {}", m.len());
                    let lv = ledger_live(Kind::V) - w.w.t.len() as i64;
                    ensure!(lv == m.len() as i64, "map holds {} entries but {lv} values are alive", m.len());
                    drop(m);
                    w.w.m = w.w.t.iter().map(|(k, v)| (k.ix(), v.ix())).collect();
                }
            }
            RBA => {
                if let Some(g) = A::rba(&mut w.w.t, a as usize) {
                    let e = w.w.m.iter().nth(a as usize).map(|(k, v)| (*k, *v));
                    if let Some((k, _)) = e {
                        w.w.m.remove(&k);
                    }
                    let g = g.map(|(k, v)| (k.ix(), v.ix()));
                    ensure!(g == e, "remove_by_augmentation({a}) gave {g:?}, expected {e:?}");
                }
            }
            ITER => {
                for (k, v) in w.w.t.iter() {
                    k.ix();
                    v.ix();
                }
                for (k, v) in w.w.t.iter().rev() {
                    k.ix();
                    v.ix();
                }
                let _ = sweep_bptree::tree::Cursor::last(&w.w.t).map(|c| c.0.prev(&w.w.t));
                let _ = w.w.t.cursor_first().map(|c| c.next(&w.w.t));
            }
            INTOPARTS => {
                w.w.t = new_tree();
                w.w.m.clear();
                all_dead("after dropping the tree", if A::TRACKED { 1 } else { 0 })?;
            }
            _ => w.w.step(o).expect("op")?,
        }
        ledger_err()?;
        let lv = ledger_live(Kind::V);
        ensure!(lv == w.w.t.len() as i64, "the tree has len {} but {lv} values are alive", w.w.t.len());
        let lk = ledger_live(Kind::K);
        ensure!(lk >= w.w.t.len() as i64, "the tree has len {} but only {lk} keys are alive", w.w.t.len());
        Ok(())
    }
    fn canon(&self, w: &W<A>, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, w: W<A>) -> R {
        if self.dom > 0 {
            w.w.full(0..self.dom)?;
        } else {
            w.w.full(w.w.probes().into_iter())?;
        }
        ledger_err()?;
        let base = w.base;
        drop(w);
        all_dead("after dropping everything", 0)?;
        ledger_reset();
        let now = alloc::live();
        ensure!(now == base, "{} heap blocks ({} bytes) remain after everything was dropped", now.0 - base.0, now.1 - base.1);
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            CONS => format!("into_iter(take {} front, {} back, abandon)", a / 4096, a % 4096),
            CLONE_DROP => "clone_and_drop_clone".into(),
            CLONE_KEEP => "clone_and_drop_original".into(),
            BULKDUP => format!("bulk_load_with_repeats(n={})", spaced(a).1),
            MAPIT => format!("map_from_iter_with_repeats(n={})", spaced(a).1),
            RBA => format!("remove_by_augmentation({a})"),
            ITER => "iterate".into(),
            INTOPARTS => "drop_tree".into(),
            _ => show_op(o),
        }
    }
}

fn m<A>(dom: u32) -> M<A> {
    M { dom, _p: std::marker::PhantomData }
}
fn al(dom: u32) -> Vec<Op> {
    let mut v = alphabet(&[INS, DEL, WR], dom);
    v.push(op(CLEAR, 0));
    for i in 0..dom {
        v.push(op(RBA, i));
    }
    for f in 0..=dom + 1 {
        for b in 0..=(dom + 1 - f) {
            v.push(op(CONS, f * 4096 + b));
        }
    }
    v.push(op(CLONE_DROP, 0));
    v.push(op(CLONE_KEEP, 0));
    v.push(op(ITER, 0));
    v.push(op(INTOPARTS, 0));
    for n in [0, 1, 2, 3, 5, dom as usize] {
        v.push(op(BULKDUP, sized(0, n)));
        v.push(op(MAPIT, sized(0, n)));
    }
    v
}
fn big(n: usize, t: bool) -> Vec<Vec<Op>> {
    let mut v = vec![];
    let max = if n <= 8 { if t { 500 } else { 150 } } else { 2 * n * (n + 1) + n };
    let sizes = if n <= 8 { (0..=max).collect() } else { interesting_sizes(n, max) };
    for s in sizes {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for d in [DELASC, DELDESC, DELMID] {
                v.push(vec![base, op(d, s as u32 + 1)]);
                v.push(vec![base, op(d, s as u32 * 3 / 4), op(INSGAPS, 0), op(CLONE_KEEP, 0), op(d, s as u32)]);
            }
            v.push(vec![base, op(DELODD, 0), op(INSGAPS, 0), op(CLEAR, 0), base]);
            if s < 4000 {
                for f in [0, 1, s / 2, s.saturating_sub(1), s] {
                    v.push(vec![base, op(CONS, (f * 4096) as u32)]);
                    v.push(vec![base, op(CONS, f as u32)]);
                    v.push(vec![base, op(CONS, (f / 2 * 4096 + f - f / 2) as u32)]);
                }
            }
            v.push(vec![base, op(CLONE_DROP, 0), op(INTOPARTS, 0)]);
        }
        v.push(vec![op(BULKDUP, sized(1, s)), op(DELMID, s as u32)]);
        v.push(vec![op(MAPIT, sized(1, s))]);
    }
    v
}

struct P;
static PLAN: P = P;
impl Plan for P {
    fn explore(&self, cx: &Ctx, a: &Args) {
        let n = node_n();
        let t = a.thorough;
        if n <= 8 {
            let d = match (n, t) {
                (2, false) => 7,
                (2, true) => 9,
                (_, false) => 7,
                (_, true) => 9,
            };
            cx.bfs("tracked", &m::<TA>(d), &roots(d, true), &al(d), 80, 500_000);
            cx.bfs("tracked-noaug", &m::<()>(d - 1), &roots(d - 1, true), &al(d - 1), 80, 500_000);
            cx.words("tracked-words", &m::<TA>(6), &roots(6, true), &alphabet(&[INS, DEL], 6), if t { 5 } else { 4 });
        }
        cx.cases("tracked-big", &m::<TA>(0), &big(n, t), "builder x drain/consume families");
        let mut l = vec![];
        for f in deep_forms(n, t) {
            let s = spaced(arg(f[0])).1;
            for tail in [vec![op(DELMID, s as u32)], vec![op(CLONE_KEEP, 0), op(DELASC, s as u32 * 3 / 4), op(INSGAPS, 0)], vec![op(CLONE_DROP, 0), op(INTOPARTS, 0)], vec![op(CLEAR, 0)]] {
                let mut c = f.clone();
                c.extend(tail);
                l.push(c);
            }
        }
        cx.cases("tracked-deep", &m::<TA>(0), &l, "trees with one inner level more");
    }
    fn find(&self, name: &str) -> Option<Box<dyn Suite>> {
        Some(match name {
            "tracked" => Box::new(m::<TA>(9)),
            "tracked-noaug" => Box::new(m::<()>(9)),
            "tracked-words" => Box::new(m::<TA>(6)),
            "tracked-big" | "tracked-deep" => Box::new(m::<TA>(0)),
            _ => return None,
        })
    }
}
fn main() {
    run(&PLAN)
}
