//! C05: lookups never change what later calls return; borrowed key forms agree with owned ones.
//! Lookups are letters of the alphabet like any other; the reference ignores them.
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const DELS: u8 = 40; // remove through &str
const L0: u8 = 50; // lookups: L0 + kind
const KINDS: u8 = 10;
const LALL: u8 = 70; // every kind on every probe
const NAMES: [&str; 10] = ["get(owned)", "get(&str)", "get_mut(&str)", "contains", "rank_by_augmentation", "get_by_augmentation", "get_cursor", "cursor.next", "cursor.prev", "get_mut_by_augmentation"];

struct M {
    dom: u32,
    wrap: bool,
}
struct W {
    w: TW<String, u32, Count>,
    map: BPlusTreeMap<String, u32, Count>,
    set: BPlusTreeSet<String>,
}

impl M {
    fn look(&self, w: &mut W, kind: u8, k: u32) -> R {
        let key = sk(k);
        let s: &str = &key;
        let want = w.w.m.get(&k).copied();
        let t = &mut w.w.t;
        let eq = |what: &str, g: Option<u32>, e: Option<u32>| -> R {
            ensure!(g == e, "{what} of {k} gave {g:?}, expected {e:?}");
            Ok(())
        };
        match kind {
            0 => {
                eq("get(owned)", t.get(&key).copied(), want)?;
                eq("map.get(owned)", w.map.get(&key).copied(), want)?;
            }
            1 => {
                eq("get(&str)", t.get(s).copied(), want)?;
                eq("map.get(&str)", w.map.get(s).copied(), want)?;
            }
            2 => {
                eq("get_mut(&str)", t.get_mut(s).map(|v| *v), want)?;
                eq("map.get_mut(&str)", w.map.get_mut(s).map(|v| *v), want)?;
                eq("get_mut(owned)", t.get_mut(&key).map(|v| *v), want)?;
                eq("map.get_mut(owned)", w.map.get_mut(&key).map(|v| *v), want)?;
            }
            3 => {
                ensure!(w.set.contains(s) == want.is_some(), "set.contains(&str {k}) is {}", !want.is_some());
                ensure!(w.set.contains(&key) == want.is_some(), "set.contains(owned {k}) is {}", !want.is_some());
            }
            4 => {
                let n = w.w.m.range(..k).count();
                let e = if want.is_some() { Ok(n) } else { Err(n) };
                let g = t.rank_by_augmentation(&key);
                ensure!(g == e, "rank of {k} is {g:?}, expected {e:?}");
                let g = w.map.rank_by_augmentation(&key);
                ensure!(g == e, "map: rank of {k} is {g:?}, expected {e:?}");
            }
            5 => {
                let e = w.w.m.iter().nth(k as usize).map(|(k, v)| (*k, *v));
                let g = t.get_by_augmentation(k as usize).map(|(k, v)| (si(k), *v));
                ensure!(g == e, "get_by_augmentation({k}) is {g:?}, expected {e:?}");
                let g = w.map.get_by_augmentation(k as usize).map(|(k, v)| (si(k), *v));
                ensure!(g == e, "map: get_by_augmentation({k}) is {g:?}, expected {e:?}");
            }
            6 => {
                if let Some((c, v)) = t.get_cursor(&key) {
                    eq("get_cursor", v.copied(), want)?;
                    eq("cursor.value", c.value(t).copied(), want)?;
                    ensure!(c.exists(t) == want.is_some(), "cursor.exists of {k}");
                }
            }
            7 | 8 => {
                let fwd = kind == 7;
                if let Some((c, _)) = t.get_cursor(&key) {
                    let g = if fwd { c.next(t) } else { c.prev(t) }.map(|c| si(c.key()));
                    let e = if fwd { w.w.m.range(k + 1..).next() } else { w.w.m.range(..k).next_back() }.map(|x| *x.0);
                    eq("cursor step", g, e)?;
                }
            }
            _ => {
                let e = w.w.m.values().nth(k as usize).copied();
                eq("get_mut_by_augmentation", t.get_mut_by_augmentation(k as usize).map(|v| *v), e)?;
                eq("map.get_mut_by_augmentation", w.map.get_mut_by_augmentation(k as usize).map(|v| *v), e)?;
            }
        }
        bump(1);
        Ok(())
    }
}

impl Machine for M {
    type W = W;
    fn new(&self) -> W {
        W { w: TW::new(), map: BPlusTreeMap::new(), set: BPlusTreeSet::new() }
    }
    fn step(&self, w: &mut W, o: Op) -> R {
        let a = arg(o);
        let before = w.w.m.get(&a).copied();
        match code(o) {
            DELS => {
                let k = sk(a);
                let s: &str = &k;
                let e = w.w.m.remove(&a);
                let g = w.w.t.remove(s);
                ensure!(g == e, "remove(&str {a}) gave {g:?}, expected {e:?}");
                let g = w.map.remove(s);
                ensure!(g == e, "map.remove(&str {a}) gave {g:?}, expected {e:?}");
                ensure!(w.set.remove(s) == e.is_some(), "set.remove(&str {a}) gave {}", e.is_none());
                w.w.lens()?;
            }
            DEL => {
                w.w.step(o).unwrap()?;
                let g = w.map.remove(&sk(a));
                ensure!(g == before, "map.remove({a}) gave {g:?}, expected {before:?}");
                ensure!(w.set.remove(&sk(a)) == before.is_some(), "set.remove({a}) gave {}", before.is_none());
            }
            INS => {
                w.w.step(o).unwrap()?;
                let g = w.map.insert(sk(a), w.w.clock);
                ensure!(g == before, "map.insert({a}) gave {g:?}, expected {before:?}");
                ensure!(w.set.insert(sk(a)) == before.is_none(), "set.insert({a}) gave {}", before.is_some());
            }
            c if c >= L0 && c < L0 + KINDS => self.look(w, c - L0, a)?,
            LALL => {
                let mut p: Vec<u32> = if self.dom > 0 { (0..self.dom + 1).collect() } else { w.w.probes() };
                if p.len() > 100_000 {
                    p = p.into_iter().step_by(29).collect();
                }
                if p.len() > 300 {
                    p = p.into_iter().step_by(7).collect();
                }
                for kind in 0..KINDS {
                    // finding the expected answer of these takes as long as there are entries
                    let step = if w.w.m.len() > 20_000 && matches!(kind, 4 | 5 | 9) { 97 } else { 1 };
                    for &k in p.iter().step_by(step) {
                        self.look(w, kind, k)?;
                    }
                }
                w.w.t.iter().count();
                w.w.t.iter().rev().count();
                w.set.union(&w.set).count();
                let _ = (w.w.t.first(), w.w.t.last(), Cursor::first(&w.w.t), Cursor::last(&w.w.t), w.w.t.cursor_first(), w.set.first(), w.set.last());
            }
            _ => {
                w.w.step(o).expect("op")?;
                w.map = w.w.m.iter().map(|(k, v)| (sk(*k), *v)).collect();
                w.set = w.w.m.keys().map(|k| sk(*k)).collect();
            }
        }
        Ok(())
    }
    fn canon(&self, w: &W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, mut w: W) -> R {
        let ks: Vec<u32> = if self.dom > 0 { (0..self.dom).collect() } else { w.w.probes() };
        w.w.full(ks.iter().copied())?;
        if !self.wrap && ks.len() > 200 {
            return Ok(());
        }
        // every kind of lookup as the first one, and after every other one
        for &k in &ks {
            for kind in 0..KINDS {
                self.look(&mut w, kind, k)?;
            }
        }
        let l: Vec<(u32, u32)> = w.map.iter().map(|(k, v)| (si(k), *v)).collect();
        ensure!(l.iter().copied().eq(w.w.m.iter().map(|(k, v)| (*k, *v))), "map entries {l:?}");
        let l: Vec<u32> = w.set.iter().map(|k| si(k)).collect();
        ensure!(l.iter().eq(w.w.m.keys()), "set entries {l:?}");
        w.w.full(ks.into_iter())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            DELS => format!("remove(&str {a})"),
            LALL => "every_lookup".into(),
            c if c >= L0 && c < L0 + KINDS => format!("{}[{a}]", NAMES[(c - L0) as usize]),
            _ => show_op(o),
        }
    }
}

fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    let looks = |d: u32| -> Vec<Op> { (0..KINDS).flat_map(|k| (0..d).map(move |i| op(L0 + k, i))).collect() };
    if n <= 8 {
        let d = dom_for(n, if t { 2 } else { 1 });
        v.push(entry("bfs", M { dom: d, wrap: true }, move |_| {
            let mut a = alphabet(&[INS, DEL, DELS, CLEAR], d);
            a.extend(looks(d));
            a.push(op(LALL, 0));
            Space::Bfs { roots: roots(d, true), alphabet: a, depth: 200, cap: if t { 300_000 } else { 30_000 } }
        }));
        let d = dom_for(n, 0);
        v.push(entry("words", M { dom: d, wrap: true }, move |cx| {
            // the kinds that read or write the lookup cache, between any two mutations
            let mut a = alphabet(&[INS, DELS, L0, L0 + 2, L0 + 7], d);
            a.push(op(CLEAR, 0));
            Space::Words { bases: reach(cx, d, 100_000), alphabet: a, m: if n == 2 { if t { 4 } else { 3 } } else if t { 3 } else { 2 } }
        }));
    }
    v.push(entry("big", M { dom: 0, wrap: false }, move |_| {
        let mut l = vec![];
        let s: Vec<usize> = if n <= 8 { (0..if t { 100 } else { 40 }).collect() } else { interesting_sizes(n, if t { 400 } else { 140 }) };
        for b in forms(n, &s) {
            let k = spaced(b.first().map(|o| arg(*o)).unwrap_or(0)).1 as u32;
            let mut c = b.clone();
            for i in 0..12u32 {
                c.extend([op(LALL, 0), op(DEL, (i * 2 * k / 12) | 1), op(LALL, 0), op(INS, i * 2 * k / 12)]);
            }
            l.push(c);
        }
        // one lookup, one removal or insertion, everything else, at every pair of positions
        let pairs: &[usize] = if n <= 8 { &[5, 7, 13] } else if t { &[65, 100, 129] } else { &[66] };
        for &s in pairs {
            let step = if n <= 8 || t { 1 } else { 2 };
            for k1 in (0..2 * s as u32 + 1).step_by(step) {
                for k2 in (0..2 * s as u32 + 1).step_by(step) {
                    let c = if k2 % 2 == 1 { op(DEL, k2) } else { op(INS, k2) };
                    for lk in [0, 2] {
                        l.push(vec![op(ASC, sized(1, s)), op(L0 + lk, k1), c, op(L0 + lk, k2), op(L0, k1)]);
                    }
                }
            }
        }
        Space::Cases { list: l, what: "lookups between mutations of every interesting tree" }
    }));
    v.push(entry("deep", M { dom: 0, wrap: false }, move |_| {
        let mut l = vec![];
        for b in deep_forms(n, t) {
            let k = spaced(arg(b[0])).1 as u32;
            let mut c = b.clone();
            for i in 0..4u32 {
                c.extend([op(LALL, 0), op(DEL, (i * 2 * (k / 4)) | 1), op(INS, i * 2 * (k / 4))]);
            }
            c.extend([op(LALL, 0), op(DELMID, k / 2), op(LALL, 0)]);
            l.push(c);
        }
        Space::Cases { list: l, what: "lookups between mutations of trees with one inner level more" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
