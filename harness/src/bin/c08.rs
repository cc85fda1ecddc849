//! C08: a clone is equal and independent. Two trees, each with its own reference; every word of
//! operations over both, including dropping, consuming and re-cloning either, after every history.
use sweep_bptree::augment::Augmentation;
use sweep_bptree::tree::Cursor;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const SIDE: u32 = 1 << 23;
const CLONE: u8 = 40; // the other side becomes a clone of this one
const DROP: u8 = 41; // this side is dropped
const EAT: u8 = 42; // this side is consumed by into_iter, arg entries from the front
const CURS: u8 = 43; // take cursors on this side, to be used on both
const LOOK: u8 = 44; // lookups on this side (moves its cache)
const ODD: u8 = 45; // remove every other entry of this side
const FILL: u8 = 46; // insert all gaps of this side

trait Aug<K: DomKey, V: DomVal>: Augmentation<K, V> + 'static {
    const TRACKED: bool = false;
    /// compare with the entries
    fn agrees(&self, e: &Model) -> R;
}
// values written through get_mut are not tracked by an aggregate, so only keys are compared
fn keys_agree(f: &Free, e: &Model) -> R {
    let (g, w): (Vec<u32>, Vec<u32>) = (f.e.iter().map(|x| x.0).collect(), e.keys().copied().collect());
    ensure!(g == w && f.bad.is_none(), "root_augmentation has keys {g:?}, the entries have {w:?}");
    Ok(())
}
impl Aug<u32, u32> for Free {
    fn agrees(&self, e: &Model) -> R {
        keys_agree(self, e)
    }
}
impl Aug<String, String> for Free {
    fn agrees(&self, e: &Model) -> R {
        keys_agree(self, e)
    }
}
impl Aug<TK, TV> for TA {
    const TRACKED: bool = true;
    fn agrees(&self, e: &Model) -> R {
        ensure!(self.get() == e.len(), "root_augmentation counts {}, there are {} entries", self.get(), e.len());
        Ok(())
    }
}
impl Aug<u32, u32> for Poly {
    fn agrees(&self, e: &Model) -> R {
        let mut p = Poly::default();
        e.iter().for_each(|(k, v)| poly_push(&mut p, *k, *v));
        ensure!(*self == p, "root_augmentation is {self:?}, recomputed {p:?}");
        Ok(())
    }
}

const OVER: u8 = 47; // the other side is overwritten by clone_from

struct M<K, V, A> {
    dom: u32,
    _p: std::marker::PhantomData<fn() -> (K, V, A)>,
}
fn m<K, V, A>(dom: u32) -> M<K, V, A> {
    M { dom, _p: std::marker::PhantomData }
}
struct W<K: DomKey, V: DomVal, A: Augmentation<K, V>> {
    s: [Option<TW<K, V, A>>; 2],
    curs: Vec<Cursor<K>>,
}
impl<K: DomKey, V: DomVal, A: Aug<K, V>> M<K, V, A> {
    fn ledger(&self, w: &W<K, V, A>) -> R {
        if !A::TRACKED {
            return Ok(());
        }
        ledger_err()?;
        let n: usize = w.s.iter().flatten().map(|x| x.m.len()).sum();
        let l = ledger_live(Kind::V);
        ensure!(l == n as i64, "the trees hold {n} entries but {l} values are alive");
        Ok(())
    }
    fn one(&self, x: &TW<K, V, A>, curs: &[Cursor<K>], all: bool) -> R {
        x.lens()?;
        x.t.root_augmentation().agrees(&x.m)?;
        if all {
            x.full(0..self.dom)?;
        } else if self.dom > 0 {
            let f = x.t.iter().map(|(k, v)| (k.ix(), v.ix())).eq(x.m.iter().map(|(k, v)| (*k, *v)));
            ensure!(f, "entries are {:?}, expected {:?}", x.t.iter().map(|(k, v)| (k.ix(), v.ix())).collect::<Vec<_>>(), x.m);
        } else {
            x.full(x.probes().into_iter())?;
        }
        for c in curs {
            let k = c.key().ix();
            let eq = |what: &str, g: Option<(u32, u32)>, e: Option<(u32, u32)>| -> R {
                ensure!(g == e, "cursor at {k}: {what} gives {g:?}, expected {e:?}");
                Ok(())
            };
            let here = x.m.get(&k).map(|v| (k, *v));
            eq("value", c.value(&x.t).map(|v| (k, v.ix())), here)?;
            ensure!(c.exists(&x.t) == here.is_some(), "cursor at {k}: exists is {}", here.is_none());
            let n = x.m.range(k + 1..).next().map(|(k, v)| (*k, *v));
            eq("next", c.next_with_value(&x.t).map(|(c, v)| (c.key().ix(), v.ix())), n)?;
            let p = x.m.range(..k).next_back().map(|(k, v)| (*k, *v));
            eq("prev", c.prev_with_value(&x.t).map(|(c, v)| (c.key().ix(), v.ix())), p)?;
        }
        Ok(())
    }
}
impl<K: DomKey, V: DomVal, A: Aug<K, V>> Machine for M<K, V, A> {
    type W = W<K, V, A>;
    fn new(&self) -> Self::W {
        if A::TRACKED {
            ledger_reset();
        }
        W { s: [Some(TW::new()), None], curs: vec![] }
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        let i = (arg(o) & SIDE != 0) as usize;
        let a = arg(o) & !SIDE;
        let Some(x) = w.s[i].as_mut() else { return Ok(()) };
        match code(o) {
            CLONE => {
                let t = x.t.clone();
                let (m, clock) = (x.m.clone(), x.clock);
                w.s[1 - i] = Some(TW { t, m, clock: clock + if V::EXACT { 1000 } else { 0 }, ..TW::new() });
            }
            OVER => {
                let x = w.s[i].take().unwrap();
                if let Some(y) = w.s[1 - i].as_mut() {
                    y.t.clone_from(&x.t);
                    y.m = x.m.clone();
                    y.bulk = x.bulk;
                }
                w.s[i] = Some(x);
            }
            DROP => {
                w.s[i] = None;
            }
            EAT => {
                let x = w.s[i].take().unwrap();
                let n = a as usize;
                let g: Vec<(u32, u32)> = x.t.into_iter().take(n).map(|(k, v)| (k.ix(), v.ix())).collect();
                let e: Vec<(u32, u32)> = x.m.into_iter().take(n).collect();
                ensure!(g == e, "into_iter gave {g:?}, expected {e:?}");
            }
            CURS => {
                w.curs.extend(Cursor::first(&x.t).map(|c| c.0));
                w.curs.extend(Cursor::last(&x.t).map(|c| c.0));
                for k in 0..self.dom.max(1) {
                    w.curs.extend(x.t.get_cursor(&K::mk(k)).map(|c| c.0));
                }
            }
            LOOK => {
                x.get1(a)?;
            }
            ODD => x.step(op(DELODD, 0)).unwrap()?,
            FILL => x.step(op(INSGAPS, 0)).unwrap()?,
            c => x.step(op(c, a)).unwrap()?,
        }
        for (j, x) in w.s.iter().enumerate() {
            if let Some(x) = x {
                let who = if code(o) == CLONE && j != i {
                    "the clone"
                } else if j == i {
                    "the tree operated on"
                } else {
                    "the other tree"
                };
                self.one(x, &w.curs, false).map_err(|e| format!("{who}: {e}"))?;
            }
        }
        self.ledger(w)
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        for x in &w.s {
            match x {
                Some(x) => x.canon(self.dom, out),
                None => out.push(0xAA),
            }
        }
    }
    fn check(&self, w: Self::W) -> R {
        let mut w = w;
        for x in w.s.iter().flatten() {
            self.one(x, &w.curs, true)?;
        }
        // dropping one leaves the other intact
        w.s[0] = None;
        for x in w.s.iter().flatten() {
            self.one(x, &w.curs, true).map_err(|e| format!("after dropping the original: {e}"))?;
        }
        drop(w);
        if A::TRACKED {
            ledger_err()?;
            for k in [Kind::K, Kind::V, Kind::A] {
                ensure!(ledger_live(k) == 0, "{} {k:?} instances alive after dropping both trees", ledger_live(k));
            }
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let s = if arg(o) & SIDE != 0 { "B." } else { "A." };
        let a = arg(o) & !SIDE;
        let t = match code(o) {
            CLONE => "clone".into(),
            DROP => "drop".into(),
            OVER => "clone_into_the_other".into(),
            EAT => format!("into_iter.take({a})"),
            CURS => "take_cursors".into(),
            LOOK => format!("get({a})"),
            ODD => "remove_every_other".into(),
            FILL => "insert_all_gaps".into(),
            c => show_op(op(c, a)),
        };
        format!("{s}{t}")
    }
}
fn letters(dom: u32, small: bool) -> Vec<Op> {
    let mut v = vec![];
    for s in [0, SIDE] {
        for k in 0..dom {
            v.push(op(INS, s | k));
            v.push(op(DEL, s | k));
            if !small {
                v.push(op(WR, s | k));
            }
        }
        v.push(op(CLEAR, s));
        v.push(op(DROP, s));
        v.push(op(EAT, s | 1));
        v.push(op(LOOK, s | (dom / 2)));
        v.push(op(CLONE, s));
        v.push(op(OVER, s));
        v.push(op(ODD, s));
        v.push(op(FILL, s));
    }
    v
}
fn with(mut b: Vec<Vec<Op>>, tail: &[Op]) -> Vec<Vec<Op>> {
    b.iter_mut().for_each(|c| c.extend_from_slice(tail));
    b
}
fn big(n: usize, t: bool) -> Vec<Vec<Op>> {
    let mut out = vec![];
    let sz: Vec<usize> = if n <= 8 { (0..if t { 200 } else { 80 }).collect() } else { sizes(n, t).into_iter().filter(|s| t || *s < 600).collect() };
    for f in forms(n, &sz) {
        let s = f.first().map(|o| spaced(arg(*o)).1 as u32).unwrap_or(0);
        for tail in [
            vec![op(CLONE, 0), op(ODD, SIDE), op(FILL, 0), op(DELMID, SIDE | s), op(CLONE, 0), op(DROP, 0), op(FILL, SIDE)],
            vec![op(CLONE, 0), op(DELODD, SIDE), op(LOOK, SIDE | 1), op(OVER, 0), op(FILL, SIDE), op(OVER, SIDE), op(DELMID, s / 2)],
            vec![op(CURS, 0), op(CLONE, 0), op(DELASC, s / 2), op(DELDESC, SIDE | (s / 2)), op(EAT, s / 3), op(FILL, SIDE), op(CLEAR, SIDE)],
            vec![op(CLONE, 0), op(DROP, 0), op(FILL, SIDE), op(CLONE, SIDE), op(DELMID, s), op(EAT, SIDE | (s / 2))],
        ] {
            let mut c = f.clone();
            c.extend(tail);
            out.push(c);
        }
    }
    out
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let d = dom_for(n, 0);
    let dw = dom_for(n, 0);
    let dt = dom_for(n, if t { 2 } else { 1 });
    let mut v = vec![];
    if n <= 8 {
        // any two operations after cloning any reachable state, cursors of the original at hand
        v.push(entry("clone-free", m::<u32, u32, Free>(d), move |cx| Space::Words {
            bases: with(reach(cx, d, 100_000), &[op(CURS, 0), op(CLONE, 0)]),
            alphabet: letters(d, false),
            m: if t { 3 } else { 2 },
        }));
        v.push(entry("clone-tracked", m::<TK, TV, TA>(dw), move |cx| Space::Words {
            bases: with(reach(cx, dw, 100_000), &[op(CLONE, 0)]),
            alphabet: letters(dw, true),
            m: 2,
        }));
        v.push(entry("clone-string", m::<String, String, Free>(dw), move |cx| Space::Words {
            bases: with(reach(cx, dw, 100_000), &[op(CLONE, 0)]),
            alphabet: letters(dw, false),
            m: 1,
        }));
        v.push(entry("clone-one-step", m::<u32, u32, Free>(dt), move |cx| Space::Words {
            bases: with(reach(cx, dt, 100_000), &[op(CURS, 0), op(CLONE, 0)]),
            alphabet: letters(dt, false),
            m: 1,
        }));
        // pairs of trees as one state, clones at any point of the history
        let dp = match (n, t) { (..=4, false) => 5, (..=4, true) => 6, (_, false) => 5, _ => 7 };
        let cap = if t { 12_000_000 } else { 2_000_000 };
        v.push(entry("clone-pairs", m::<u32, u32, Free>(dp), move |_| Space::Bfs {
            roots: vec![vec![op(CLONE, 0)]],
            // filling the gaps leaves the domain
            alphabet: letters(dp, true).into_iter().filter(|o| code(*o) != FILL).collect(),
            depth: 200,
            cap,
        }));
        // from bigger trees, and growing, to a depth
        v.push(entry("clone-pairs-grow", m::<u32, u32, Free>(5), move |_| Space::Bfs {
            roots: [5, 7, 9].iter().map(|s| vec![op(ASC, sized(1, *s)), op(CLONE, 0)]).collect(),
            alphabet: letters(5, true).into_iter().filter(|o| t || code(*o) != OVER).collect(),
            depth: if t { 7 } else { 6 },
            cap: 20_000_000,
        }));
    }
    v.push(entry("clone-big", m::<u32, u32, Poly>(0), move |_| Space::Cases { list: big(n, t), what: "clone, diverge, drop after every form of every size" }));
    v.push(entry("clone-deep", m::<u32, u32, Poly>(0), move |_| {
        let mut l = vec![];
        for f in deep_forms(n, t) {
            let s = spaced(arg(f[0])).1 as u32;
            for tail in [
                vec![op(CLONE, 0), op(ODD, SIDE), op(FILL, 0), op(DELMID, SIDE | s)],
                vec![op(CLONE, 0), op(DROP, 0), op(FILL, SIDE), op(CLONE, SIDE), op(DELDESC, s), op(EAT, SIDE | (s / 2))],
            ] {
                let mut c = f.clone();
                c.extend(tail);
                l.push(c);
            }
        }
        Space::Cases { list: l, what: "the same for trees with one inner level more" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
