//! C14: queries through a user's augmentation act on the designated entry; ranks fold exactly
//! what is left of the key. The free monoid with a small family of queries over it stands for the
//! user's search.
use sweep_bptree::BPlusTreeMap;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const RBQ: u8 = 40; // remove_by_augmentation, see `q`
const CLONE: u8 = 41;
const RBALL: u8 = 42; // remove by query until empty, kind in arg

const PICKS: [Pick; 5] = [Pick::All, Pick::EvenKey, Pick::Third, Pick::None, Pick::ValGe(4)];
/// arg: pick * 2^14 + right * 2^13 + fail * 2^10 + nth
fn enc(pick: usize, right: bool, fail: usize, nth: usize) -> u32 {
    (pick as u32) << 14 | (right as u32) << 13 | (fail as u32) << 10 | nth as u32
}
fn q(a: u32) -> FQ {
    let mut f = FQ::new(PICKS[(a >> 14) as usize % 5], (a & 1023) as usize, a >> 13 & 1 == 1);
    let fail = a >> 10 & 7;
    if fail < 7 {
        f.fail = fail as usize;
    }
    f
}
fn show_q(f: &FQ) -> String {
    let x = if f.fail == usize::MAX { String::new() } else { format!(", giving up at depth {}", f.fail) };
    format!("#{} of {:?} from the {}{x}", f.nth, f.pick, if f.right { "right" } else { "left" })
}

struct M<K, V> {
    dom: u32,
    map: bool,
    _p: std::marker::PhantomData<fn() -> (K, V)>,
}
fn m<K, V>(dom: u32, map: bool) -> M<K, V> {
    M { dom, map, _p: std::marker::PhantomData }
}
struct W<K: DomKey, V: DomVal> {
    w: TW<K, V, Free>,
    map: BPlusTreeMap<K, V, Free>,
}
macro_rules! queries {
    ($t:expr, $m:expr, $K:ty, $probes:expr, $nths:expr) => {{
        let e: Vec<(u32, u32)> = $m.iter().map(|(k, v)| (*k, *v)).collect();
        let s = dump(&$t)?;
        let levels = s.levels();
        for pick in PICKS {
            for right in [false, true] {
                for fail in (0..=levels).chain([usize::MAX]) {
                    for nth in $nths {
                        let mut f = FQ::new(pick, nth, right);
                        f.fail = fail;
                        let want = if fail < levels { None } else { f.find(&e).map(|i| e[i]) };
                        let g = $t.get_by_augmentation(f.clone()).map(|(k, v)| (k.ix(), v.ix()));
                        complaint()?;
                        ensure!(g == want, "get_by_augmentation({}) is {g:?}, expected {want:?}", show_q(&f));
                        let at = want.and_then(|(k, _)| $t.get(&<$K as DomKey>::mk(k)).map(|r| r as *const _ as usize));
                        let g = $t.get_mut_by_augmentation(f.clone()).map(|v| (v.ix(), v as *const _ as usize));
                        complaint()?;
                        let want = want.map(|x| (x.1, at.unwrap_or(0)));
                        ensure!(g.map(|x| x.0) == want.map(|x| x.0), "get_mut_by_augmentation({}) is {g:?}, expected {want:?}", show_q(&f));
                        ensure!(g == want || std::mem::size_of_val(&e[0]) == 0, "get_mut_by_augmentation({}) gives another place than get", show_q(&f));
                        bump(2);
                    }
                }
            }
        }
        for k in $probes {
            let g = $t.rank_by_augmentation(&<$K as DomKey>::mk(k));
            complaint()?;
            let hit = g.is_ok();
            ensure!(hit == $m.contains_key(&k), "rank_by_augmentation({k}) is {}", if hit { "Ok" } else { "Err" });
            let (Ok(r) | Err(r)) = g;
            let left: Vec<u32> = r.left.iter().map(|x| x.0).collect();
            let want: Vec<u32> = $m.range(..k).map(|x| *x.0).collect();
            ensure!(left == want, "rank_by_augmentation({k}) folded {left:?}, to the left are {want:?}");
            // everything outside the key's own leaf came with its values
            for (i, (k2, v)) in r.left.iter().enumerate() {
                let in_leaf = i + r.leaf >= r.left.len();
                ensure!(in_leaf && *v == u32::MAX || !in_leaf && $m.get(k2) == Some(v), "rank_by_augmentation({k}) folded ({k2}, {v})");
            }
            bump(1);
        }
        // and nothing moved
        ensure!($t.len() == e.len() && $t.iter().map(|(k, v)| (k.ix(), v.ix())).eq(e.iter().copied()), "queries changed the contents");
    }};
}
impl<K: DomKey, V: DomVal> M<K, V> {
    fn rbq(&self, w: &mut W<K, V>, f: FQ) -> Result<bool, String> {
        let e: Vec<(u32, u32)> = w.w.m.iter().map(|(k, v)| (*k, *v)).collect();
        let one = |levels: usize| if f.fail < levels { None } else { f.find(&e).map(|i| e[i]) };
        let want = one(dump(&w.w.t)?.levels());
        let g = w.w.t.remove_by_augmentation(f.clone()).map(|(k, v)| (k.ix(), v.ix()));
        complaint()?;
        ensure!(g == want, "remove_by_augmentation({}) gave {g:?}, expected {want:?}", show_q(&f));
        if self.map {
            let want = one(dump(&w.map)?.levels());
            let g = w.map.remove_by_augmentation(f.clone()).map(|(k, v)| (k.ix(), v.ix()));
            complaint()?;
            ensure!(g == want, "map.remove_by_augmentation({}) gave {g:?}, expected {want:?}", show_q(&f));
        }
        if let Some((k, _)) = want {
            w.w.m.remove(&k);
        }
        ensure!(w.w.t.iter().map(|(k, v)| (k.ix(), v.ix())).eq(w.w.m.iter().map(|(k, v)| (*k, *v))), "after remove_by_augmentation({}) the contents differ from what remove({want:?}) leaves", show_q(&f));
        w.w.lens()?;
        Ok(want.is_some())
    }
}
impl<K: DomKey, V: DomVal> Machine for M<K, V> {
    type W = W<K, V>;
    fn new(&self) -> Self::W {
        let _ = complaint();
        W { w: TW::new(), map: BPlusTreeMap::new() }
    }
    fn step(&self, w: &mut Self::W, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            RBQ => {
                self.rbq(w, q(a))?;
            }
            CLONE => w.w.t = w.w.t.clone(),
            RBALL => {
                let f = q(a);
                let mut n = w.w.m.len() + 1;
                while n > 0 {
                    let mut g = f.clone();
                    g.nth %= (w.w.m.len() / 2).max(1);
                    if !self.rbq(w, g)? {
                        break;
                    }
                    n -= 1;
                }
            }
            _ => {
                w.w.step(o).unwrap()?;
                if self.map {
                    match code(o) {
                        INS => {
                            w.map.insert(K::mk(a), V::mk(if V::EXACT { w.w.clock } else { 0 }));
                        }
                        DEL => {
                            w.map.remove(&K::mk(a));
                        }
                        _ => w.map = w.w.m.iter().map(|(k, v)| (K::mk(*k), V::mk(*v))).collect(),
                    }
                }
            }
        }
        Ok(())
    }
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out);
        out.push(dump(&w.w.t).map(|s| free_ok(&s)).unwrap_or(false) as u8);
    }
    fn check(&self, w: Self::W) -> R {
        let mut w = w;
        let n = w.w.m.len();
        if self.dom > 0 {
            queries!(w.w.t, w.w.m, K, 0..self.dom + (self.dom > 1) as u32, 0..n + 2);
            if self.map {
                queries!(w.map, w.w.m, K, 0..self.dom + (self.dom > 1) as u32, 0..n + 2);
            }
        } else {
            let step = n / 23 + 1;
            let mut nths: Vec<usize> = (0..n).step_by(step).collect();
            nths.extend([n.saturating_sub(1), n, n + 1]);
            let p: Vec<u32> = w.w.probes().into_iter().step_by(n / 60 + 1).collect();
            queries!(w.w.t, w.w.m, K, p.iter().copied(), nths.iter().copied());
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        match code(o) {
            RBQ => format!("remove_by_augmentation({})", show_q(&q(arg(o)))),
            RBALL => format!("remove_by_augmentation({}) until none", show_q(&q(arg(o)))),
            CLONE => "clone_and_drop_original".into(),
            _ => show_op(o),
        }
    }
}
fn rb(d: u32) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..=d as usize {
        v.push(op(RBQ, enc(0, i % 2 == 1, 7, i)));
        v.push(op(RBQ, enc(1, i % 2 == 0, 7, i / 2)));
    }
    for p in 1..5 {
        v.push(op(RBQ, enc(p, false, 7, 0)));
        v.push(op(RBQ, enc(p, true, 7, 1)));
    }
    for f in 0..4 {
        v.push(op(RBQ, enc(0, f % 2 == 0, f, 1)));
    }
    v
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 500_000 };
        v.push(entry("queries", m::<u32, u32>(d, false), move |_| {
            let mut a = alphabet(&[INS, DEL], d);
            a.extend(rb(d));
            a.push(op(CLONE, 0));
            Space::Bfs { roots: roots(d, true), alphabet: a, depth: 100, cap }
        }));
        // every query as a removal, from every reachable tree
        let e = dom_for(n, t as u32);
        v.push(entry("removals", m::<u32, u32>(e, true), move |cx| {
            let mut a = vec![];
            for p in 0..5 {
                for r in [false, true] {
                    for f in [0, 1, 2, 3, 7] {
                        for i in 0..=e as usize {
                            a.push(op(RBQ, enc(p, r, f, i)));
                        }
                    }
                }
            }
            Space::Words { bases: reach(cx, e, 100_000), alphabet: a, m: 1 }
        }));
        v.push(entry("queries-words", m::<u32, u32>(5, true), move |_| {
            let mut a = alphabet(&[INS, DEL], 5);
            a.extend(rb(5));
            Space::Words { bases: roots(5, true), alphabet: a, m: if t { 4 } else { 3 } }
        }));
        v.push(entry("queries-string", m::<String, String>(5, true), move |_| {
            let mut a = alphabet(&[INS, DEL], 5);
            a.extend(rb(5));
            Space::Bfs { roots: roots(5, true), alphabet: a, depth: 100, cap: 20_000 }
        }));
    }
    let sz: Vec<usize> = if n <= 8 {
        (0..if t { 160 } else { 70 }).collect()
    } else {
        let mut s: Vec<usize> = sizes(n, t).into_iter().filter(|s| *s < 330).collect();
        s.extend([32 * 65 - 1, 32 * 65, 32 * 65 + 33]);
        s
    };
    v.push(entry("queries-families", m::<u32, u32>(0, false), move |_| {
        let mut list = forms(n, &sz);
        for s in sz.iter().filter(|s| **s < 330) {
            for (i, b) in BUILDERS.iter().enumerate() {
                for (pick, right, nth) in [(0, false, s / 2), (0, true, 0), (1, true, s / 3), (2, false, 1), (4, false, s / 4)] {
                    if *s > 80 && (i + s) % 3 != 0 {
                        continue;
                    }
                    list.push(vec![op(*b, sized(1, *s)), op(RBALL, enc(pick, right, 7, nth.min(1000)))]);
                }
            }
        }
        Space::Cases { list, what: "queries and removals by query in forms of every size" }
    }));
    v.push(entry("queries-deep", m::<u32, u32>(0, false), move |_| {
        // the free monoid holds every entry at every level: bulk loaded trees only
        let list = deep_forms(n, true).into_iter().filter(|c| n <= 8 || code(c[0]) == BULK && c.len() == 1).collect();
        Space::Cases { list, what: "queries in trees with one inner level more" }
    }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
