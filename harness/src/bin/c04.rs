//! C04: cursors taken in any state stay valid across any mutations.
use sweep_bptree::tree::Cursor;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const CAP: u8 = 40; // take every cursor obtainable now
const HOLD: u8 = 41; // get_cursor(k)
const FIRST: u8 = 42;
const LAST: u8 = 43;
const NEXT: u8 = 44; // replace every held cursor by its next where there is one
const PREV: u8 = 45;
const REFILL: u8 = 46; // clear, then insert n keys: node ids are used again

struct M<K> {
    dom: u32,
    _p: std::marker::PhantomData<fn() -> K>,
}
struct W<K: DomKey> {
    w: TW<K, u32, ()>,
    cur: Vec<Cursor<K>>,
}
type Rd<T> = Result<T, String>;

fn first_last<K: DomKey>(w: &TW<K, u32, ()>) -> Rd<Vec<Cursor<K>>> {
    let mut out = vec![];
    let want = w.m.iter().next().map(|(k, v)| (*k, *v));
    let f = Cursor::first(&w.t);
    let got = f.as_ref().map(|(c, v)| (c.key().ix(), **v));
    ensure!(got == want, "Cursor::first gave {got:?}, expected {want:?}");
    out.extend(f.map(|c| c.0));
    let f = w.t.cursor_first();
    let got = f.as_ref().map(|c| c.key().ix());
    ensure!(got == want.map(|x| x.0), "cursor_first gave {got:?}, expected {want:?}");
    out.extend(f);
    let want = w.m.iter().next_back().map(|(k, v)| (*k, *v));
    let f = Cursor::last(&w.t);
    let got = f.as_ref().map(|(c, v)| (c.key().ix(), **v));
    ensure!(got == want, "Cursor::last gave {got:?}, expected {want:?}");
    out.extend(f.map(|c| c.0));
    Ok(out)
}
fn hold<K: DomKey>(w: &TW<K, u32, ()>, k: u32) -> Rd<Option<Cursor<K>>> {
    let g = w.t.get_cursor(&K::mk(k));
    let want = w.m.get(&k).copied();
    if let Some((c, v)) = &g {
        ensure!(c.key().ix() == k, "get_cursor({k}) has key {}", c.key().ix());
        ensure!(v.copied() == want, "get_cursor({k}) shows {v:?}, expected {want:?}");
    } else {
        ensure!(want.is_none(), "get_cursor({k}) gave none, the entry exists");
    }
    Ok(g.map(|x| x.0))
}
fn step<K: DomKey>(w: &TW<K, u32, ()>, c: &Cursor<K>, fwd: bool) -> Rd<Option<Cursor<K>>> {
    let k = c.key().ix();
    let want = if fwd { w.m.range(k + 1..).next() } else { w.m.range(..k).next_back() }.map(|(k, v)| (*k, *v));
    let (n, nv) = if fwd { (c.next(&w.t), c.next_with_value(&w.t)) } else { (c.prev(&w.t), c.prev_with_value(&w.t)) };
    let name = if fwd { "next" } else { "prev" };
    let got = n.as_ref().map(|c| c.key().ix());
    ensure!(got == want.map(|x| x.0), "cursor {k}: {name} gave {got:?}, expected {want:?}");
    let got = nv.as_ref().map(|(c, v)| (c.key().ix(), **v));
    ensure!(got == want, "cursor {k}: {name}_with_value gave {got:?}, expected {want:?}");
    if let (Some(c), Some((_, v))) = (&n, want) {
        ensure!(c.value(&w.t).copied() == Some(v), "cursor {k}: value after {name} is {:?}, expected {v}", c.value(&w.t));
    }
    Ok(n)
}
fn observe<K: DomKey>(w: &TW<K, u32, ()>, c: &Cursor<K>, walk: usize) -> R {
    let k = c.key().ix();
    let want = w.m.get(&k).copied();
    let v = c.value(&w.t).copied();
    ensure!(v == want, "cursor {k}: value is {v:?}, expected {want:?}");
    ensure!(c.exists(&w.t) == want.is_some(), "cursor {k}: exists is {}", c.exists(&w.t));
    bump(1);
    for fwd in [true, false] {
        let mut at = step(w, c, fwd)?;
        let mut n = 1;
        while let Some(x) = at {
            if n >= walk {
                break;
            }
            n += 1;
            // the step back leads to where we came from, or to its successor if that is gone
            step(w, &x, !fwd)?;
            at = step(w, &x, fwd)?;
        }
    }
    ensure!(c.key().ix() == k, "cursor {k}: key changed to {}", c.key().ix());
    Ok(())
}

impl<K: DomKey> Machine for M<K> {
    type W = W<K>;
    fn new(&self) -> W<K> {
        W { w: TW::new(), cur: vec![] }
    }
    fn step(&self, w: &mut W<K>, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            CAP => {
                let mut c = first_last(&w.w)?;
                let mut keys: Vec<u32> = if self.dom > 0 { (0..self.dom).collect() } else { w.w.probes() };
                if keys.len() > 40_000 {
                    keys = keys.into_iter().step_by(7).collect();
                }
                for k in keys {
                    if let Some(x) = hold(&w.w, k)? {
                        let (n, p) = (step(&w.w, &x, true)?, step(&w.w, &x, false)?);
                        c.push(x);
                        for (q, fwd) in [(n, false), (p, true)] {
                            if let Some(y) = q {
                                c.extend(step(&w.w, &y, fwd)?);
                                c.push(y);
                            }
                        }
                    }
                }
                for x in &c {
                    observe(&w.w, x, 3)?;
                }
                w.cur.extend(c);
            }
            HOLD => {
                if let Some(c) = hold(&w.w, a)? {
                    w.cur.push(c)
                }
            }
            FIRST => w.cur.extend(first_last(&w.w)?),
            LAST => w.cur.extend(first_last(&w.w)?.pop()),
            NEXT | PREV => {
                let mut n = vec![];
                for c in std::mem::take(&mut w.cur) {
                    match step(&w.w, &c, code(o) == NEXT)? {
                        Some(x) => n.push(x),
                        None => n.push(c),
                    }
                }
                w.cur = n;
            }
            REFILL => {
                w.w.step(op(CLEAR, 0)).unwrap()?;
                w.w.step(op(ASC, a)).unwrap()?;
            }
            _ => w.w.step(o).expect("op")?,
        }
        Ok(())
    }
    fn canon(&self, w: &W<K>, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, w: W<K>) -> R {
        first_last(&w.w)?;
        let many = w.w.m.len() > 12;
        for (i, c) in w.cur.iter().enumerate() {
            observe(&w.w, c, if !many { 99 } else if i % 37 == 0 { 2 * node_n() } else { 2 })?;
        }
        if self.dom > 0 {
            w.w.full(0..self.dom)?;
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            CAP => "take_all_cursors".into(),
            HOLD => format!("hold=get_cursor({a})"),
            FIRST => "hold=first,last".into(),
            LAST => "hold=last".into(),
            NEXT => "cursors.next".into(),
            PREV => "cursors.prev".into(),
            REFILL => format!("clear+refill(n={})", spaced(a).1),
            _ => show_op(o),
        }
    }
}
fn m<K>(dom: u32) -> M<K> {
    M { dom, _p: std::marker::PhantomData }
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let cap = |b: Vec<Vec<Op>>| -> Vec<Vec<Op>> {
            b.into_iter()
                .map(|mut x| {
                    x.push(op(CAP, 0));
                    x
                })
                .collect()
        };
        let muts = |d: u32| {
            let mut a = alphabet(&[INS, DEL, CLEAR], d);
            a.push(op(REFILL, sized(0, d as usize)));
            a.push(op(REFILL, sized(0, d as usize / 2)));
            a
        };
        let d = dom_for(n, 0);
        v.push(entry("hold-all", m::<u32>(d), move |cx| Space::Words { bases: cap(reach(cx, d, 100_000)), alphabet: muts(d), m: match (n, t) { (2, false) | (3, false) => 3, (_, false) => 2, (2, true) => 5, (_, true) => 4 } }));
        let d = dom_for(n, 1);
        v.push(entry("hold-all-wide", m::<u32>(d), move |cx| Space::Words { bases: cap(reach(cx, d, 100_000)), alphabet: muts(d), m: if t { 3 } else { 2 } }));
        let d = dom_for(n, 0);
        v.push(entry("hold-string", m::<String>(d), move |cx| Space::Words { bases: cap(reach(cx, d, 100_000)), alphabet: muts(d), m: if t { 3 } else { 2 } }));
        v.push(entry("mixed", m::<u32>(4), move |_| {
            let mut a = alphabet(&[INS, DEL, HOLD], 4);
            a.extend([op(FIRST, 0), op(NEXT, 0), op(PREV, 0), op(CLEAR, 0), op(GET, 1), op(REFILL, sized(0, 4))]);
            Space::Words { bases: roots(4, true), alphabet: a, m: if t { 6 } else { 5 } }
        }));
    }
    v.push(entry("big", m::<u32>(0), move |_| {
        let s = if n <= 8 { (0..=if t { 200 } else { 60 }).collect() } else { interesting_sizes(n, if t { 2 * n * (n + 1) } else { 4 * n }) };
        let mut l = vec![];
        for b in forms(n, &s) {
            let k = spaced(b.first().map(|o| arg(*o)).unwrap_or(0)).1 as u32;
            for tail in [
                vec![op(DELODD, 0), op(INSGAPS, 0)],
                vec![op(INSGAPS, 0), op(DELODD, 0)],
                vec![op(DELMID, k / 2), op(PREV, 0), op(INSGAPS, 0)],
                vec![op(DELASC, k), op(NEXT, 0)],
                vec![op(REFILL, sized(1, k as usize / 2)), op(PREV, 0)],
                vec![op(DELDESC, k / 2), op(NEXT, 0), op(CLEAR, 0), op(INS, 3)],
            ] {
                let mut c = b.clone();
                c.push(op(CAP, 0));
                c.extend(tail);
                l.push(c);
            }
        }
        Space::Cases { list: l, what: "every cursor of every interesting tree held over bulk mutations" }
    }));
    v.push(entry("deep", m::<u32>(0), move |_| {
        let mut l = vec![];
        for b in deep_forms(n, t) {
            let k = spaced(arg(b[0])).1 as u32;
            for tail in [vec![op(DELODD, 0), op(PREV, 0), op(INSGAPS, 0)], vec![op(DELMID, k * 3 / 4), op(NEXT, 0)], vec![op(DELDESC, k), op(INS, 3)]] {
                let mut c = b.clone();
                c.push(op(CAP, 0));
                c.extend(tail);
                l.push(c);
            }
        }
        Space::Cases { list: l, what: "cursors of trees with one inner level more held over bulk mutations" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
