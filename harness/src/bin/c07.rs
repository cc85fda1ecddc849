//! C07: bulk construction equals one-by-one insertion.
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const PUSH: u8 = 40; // append an item with this key to the input
const BUILD: u8 = 41; // from_iter in the given order; bulk_load of the stably sorted input
const FAM: u8 = 42; // input of n keys, key i repeated by pattern, order by pattern, then build: n | pat << 16
const LIVE: u8 = 43; // what BUILD gives must survive: every single operation, from a fresh build

struct M {
    dom: u32,
    deep: bool,
    poly: bool,
}
struct W {
    input: Vec<(u32, u32)>,
    w: TW<u32, u32, Free>,
    ins: TW<u32, u32, Free>,
    poly: Tree<u32, u32, Poly>,
    map: BPlusTreeMap<u32, u32, Count>,
    set: BPlusTreeSet<u32>,
}

fn aggregate(m: &Model) -> Vec<(u32, u32)> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

impl M {
    fn build(&self, w: &mut W) -> R {
        let it = w.input.clone();
        w.ins = TW::new();
        w.w.m.clear();
        if !self.poly {
            for &(k, v) in &it {
                w.ins.t.insert(k, v);
            }
        }
        for &(k, v) in &it {
            w.w.m.insert(k, v);
        }
        w.w.clock = 1_000_000;
        w.map = it.iter().copied().collect();
        w.set = it.iter().map(|x| x.0).collect();
        let mut s = it.clone();
        s.sort_by_key(|x| x.0); // stable
        if self.poly {
            w.poly = BPlusTree::bulk_load(s);
        } else {
            w.w.t = BPlusTree::bulk_load(s);
        }
        self.same(w, "built")
    }
    fn same(&self, w: &W, what: &str) -> R {
        let m = &w.w.m;
        let l = m.len();
        let e = aggregate(m);
        if self.poly {
            let mut p = Poly::default();
            for (k, v) in &e {
                poly_push(&mut p, *k, *v);
            }
            ensure!(w.poly.len() == l, "{what}: bulk loaded len {}, expected {l}", w.poly.len());
            let r = *w.poly.root_augmentation();
            ensure!(r == p || l == 0, "{what}: bulk loaded aggregate {r:?}, expected {p:?}");
            ensure!(w.poly.iter().map(|(k, v)| (*k, *v)).eq(e.iter().copied()), "{what}: bulk loaded entries differ");
        } else {
            w.w.lens()?;
            let a = w.w.t.root_augmentation();
            ensure!(a.e == e && a.bad.is_none(), "{what}: bulk loaded aggregate {:?} {:?}, expected {e:?}", a.e, a.bad);
            ensure!(w.w.t.iter().map(|(k, v)| (*k, *v)).eq(e.iter().copied()), "{what}: bulk loaded entries differ from {e:?}");
            ensure!(w.w.t.iter().rev().map(|(k, v)| (*k, *v)).eq(e.iter().rev().copied()), "{what}: bulk loaded entries reversed differ from {e:?}");
        }
        ensure!(w.map.len() == l && w.set.len() == l, "{what}: map len {}, set len {}, expected {l}", w.map.len(), w.set.len());
        ensure!(w.map.root_augmentation().count() == l, "{what}: map aggregate {}, expected {l}", w.map.root_augmentation().count());
        ensure!(w.map.iter().map(|(k, v)| (*k, *v)).eq(e.iter().copied()), "{what}: map entries {:?}, expected {e:?}", w.map.iter().collect::<Vec<_>>());
        ensure!(w.set.iter().eq(m.keys()), "{what}: set entries {:?}, expected {e:?}", w.set.iter().collect::<Vec<_>>());
        ensure!(w.set.first() == m.keys().next() && w.set.last() == m.keys().next_back(), "{what}: set first/last");
        Ok(())
    }
    fn all3(&self, w: &mut W, o: Op) -> R {
        let a = arg(o);
        let e = w.w.m.get(&a).copied();
        let v = w.w.clock + 1;
        match code(o) {
            INS => {
                if self.poly {
                    w.w.clock += 1;
                    w.w.m.insert(a, v);
                    ensure!(w.poly.insert(a, v) == e, "insert({a})");
                } else {
                    w.w.ins(a)?;
                }
                let g = w.map.insert(a, v);
                ensure!(g == e, "map.insert({a}) gave {g:?}, expected {e:?}");
                ensure!(w.set.insert(a) == e.is_none(), "set.insert({a}) gave {}", e.is_some());
            }
            DEL => {
                if self.poly {
                    w.w.m.remove(&a);
                    ensure!(w.poly.remove(&a) == e, "remove({a})");
                } else {
                    w.w.del(a)?;
                }
                let g = w.map.remove(&a);
                ensure!(g == e, "map.remove({a}) gave {g:?}, expected {e:?}");
                ensure!(w.set.remove(&a) == e.is_some(), "set.remove({a}) gave {}", e.is_none());
            }
            _ => {
                // composite: expand into single operations
                let ops: Vec<Op> = match code(o) {
                    DELASC => w.w.m.keys().take(a as usize).map(|k| op(DEL, *k)).collect(),
                    DELDESC => w.w.m.keys().rev().take(a as usize).map(|k| op(DEL, *k)).collect(),
                    DELMID => {
                        let ks: Vec<u32> = w.w.m.keys().copied().collect();
                        order(MIDOUT, ks.len()).into_iter().take(a as usize).map(|i| op(DEL, ks[i])).collect()
                    }
                    DELODD => w.w.m.keys().skip(1).step_by(2).map(|k| op(DEL, *k)).collect(),
                    INSGAPS => w.w.m.keys().map(|k| k + 1).filter(|k| !w.w.m.contains_key(k)).map(|k| op(INS, k)).collect(),
                    CLEAR => {
                        w.w.t.clear();
                        w.poly.clear();
                        w.set.clear();
                        w.map = BPlusTreeMap::new();
                        w.w.m.clear();
                        return Ok(());
                    }
                    _ => return Err("unknown op".into()),
                };
                for o in ops {
                    self.all3(w, o)?;
                }
            }
        }
        Ok(())
    }
    fn queries(&self, w: &W) -> R {
        let e = aggregate(&w.w.m);
        let ks: Vec<u32> = if self.dom > 0 { (0..self.dom + 1).collect() } else { w.w.probes() };
        let step = 1 + ks.len() / 400;
        for i in (0..e.len() + 1).step_by(step) {
            let g = w.map.get_by_augmentation(i).map(|(k, v)| (*k, *v));
            ensure!(g == e.get(i).copied(), "map.get_by_augmentation({i}) gave {g:?}, expected {:?}", e.get(i));
        }
        for k in ks.iter().copied().step_by(step) {
            let r = w.map.rank_by_augmentation(&k);
            let p = e.partition_point(|x| x.0 < k);
            let want = if w.w.m.contains_key(&k) { Ok(p) } else { Err(p) };
            ensure!(r == want, "map.rank_by_augmentation({k}) gave {r:?}, expected {want:?}");
            ensure!(w.map.get(&k) == w.w.m.get(&k), "map.get({k}) gave {:?}", w.map.get(&k));
            ensure!(w.set.contains(&k) == w.w.m.contains_key(&k), "set.contains({k})");
            if !self.poly {
                w.w.get1(k)?;
                if let Some((c, _)) = w.w.t.get_cursor(&k) {
                    let g = c.next(&w.w.t).map(|c| *c.key());
                    let x = w.w.m.range(k + 1..).next().map(|x| *x.0);
                    ensure!(g == x, "cursor {k}: next {g:?}, expected {x:?}");
                    let g = c.prev(&w.w.t).map(|c| *c.key());
                    let x = w.w.m.range(..k).next_back().map(|x| *x.0);
                    ensure!(g == x, "cursor {k}: prev {g:?}, expected {x:?}");
                }
            }
        }
        if !self.poly {
            let f = Cursor::first(&w.w.t).map(|c| *c.0.key());
            let l = Cursor::last(&w.w.t).map(|c| *c.0.key());
            ensure!(f == e.first().map(|x| x.0) && l == e.last().map(|x| x.0), "Cursor::first/last {f:?} {l:?}");
        }
        Ok(())
    }
}
fn fam_input(a: u32) -> Vec<(u32, u32)> {
    let n = (a & 0xf_ffff) as usize;
    let pat = a >> 20;
    let mut v = vec![];
    let mut c = 0;
    for i in 0..n {
        let reps = match pat & 3 {
            0 => 1,
            1 => 1 + i % 3,
            2 => {
                if i + 1 == n {
                    5
                } else {
                    1
                }
            }
            _ => {
                if i == 0 {
                    4
                } else {
                    1 + (i % 7 == 6) as usize
                }
            }
        };
        for _ in 0..reps {
            c += 1;
            v.push((2 * i as u32 + 1, c));
        }
    }
    match (pat >> 2) & 3 {
        1 => v.reverse(),
        2 => {
            let o = order(ZIG, v.len());
            v = o.into_iter().map(|i| v[i]).collect();
        }
        3 => {
            // two ascending runs over the same keys, the second overwrites
            let mut b = v.clone();
            for x in &mut b {
                x.1 += 10_000_000;
            }
            v.extend(b);
        }
        _ => {}
    }
    v
}

impl Machine for M {
    type W = W;
    fn new(&self) -> W {
        W { input: vec![], w: TW::new(), ins: TW::new(), poly: new_tree(), map: BPlusTreeMap::new(), set: BPlusTreeSet::new() }
    }
    fn step(&self, w: &mut W, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            PUSH => {
                let v = w.input.len() as u32 + 1;
                w.input.push((a, v));
                Ok(())
            }
            BUILD => {
                self.build(w)?;
                if !self.poly {
                    let (x, y) = (w.ins.t.root_augmentation(), w.w.t.root_augmentation());
                    ensure!(x == y && w.ins.t.len() == w.w.t.len(), "aggregate of the bulk loaded tree {y:?}, of the inserted one {x:?}");
                }
                Ok(())
            }
            FAM => {
                w.input = fam_input(a);
                self.build(w)
            }
            LIVE => {
                let keep = w.input.clone();
                let ks = w.w.probes();
                for k in ks {
                    for c in [INS, DEL] {
                        w.input = keep.clone();
                        self.build(w)?;
                        self.all3(w, op(c, k)).map_err(|e| format!("after a fresh build: {e}"))?;
                        self.same(w, &format!("after a fresh build and {}", show_op(op(c, k))))?;
                        self.queries(w).map_err(|e| format!("after a fresh build and {}: {e}", show_op(op(c, k))))?;
                        bump(1);
                    }
                }
                w.input = keep;
                self.build(w)
            }
            _ => {
                self.all3(w, o)?;
                self.same(w, "")
            }
        }
    }
    fn canon(&self, w: &W, out: &mut Vec<u8>) {
        w.w.canon(self.dom, out)
    }
    fn check(&self, mut w: W) -> R {
        self.same(&w, "")?;
        self.queries(&w)?;
        if self.deep {
            // drain in three orders from a fresh build each time, complete oracle after every step
            for d in [DELASC, DELDESC, DELMID] {
                self.build(&mut w)?;
                while !w.w.m.is_empty() {
                    self.all3(&mut w, op(d, 1))?;
                    self.same(&w, "while draining")?;
                    self.queries(&w)?;
                    bump(1);
                }
                self.all3(&mut w, op(INS, 1))?;
                self.same(&w, "after draining")?;
            }
            let t = std::mem::replace(&mut w.w.t, new_tree());
            let e: Vec<_> = aggregate(&w.w.m);
            ensure!(t.into_iter().eq(e.into_iter()), "into_iter differs");
            let s = std::mem::take(&mut w.set);
            ensure!(s.into_iter().eq(w.w.m.keys().copied()), "set.into_iter differs");
        }
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            PUSH => format!("item({a})"),
            BUILD => "build".into(),
            FAM => format!("build(n={},pattern={})", a & 0xf_ffff, a >> 20),
            LIVE => "every_single_operation".into(),
            _ => show_op(o),
        }
    }
}
fn m(dom: u32, deep: bool, poly: bool) -> M {
    M { dom, deep, poly }
}
fn seqs(k: u32, len: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![vec![]];
    let mut at = 0;
    for _ in 0..len {
        let end = v.len();
        for i in at..end {
            for x in 0..k {
                let mut c = v[i].clone();
                c.push(op(PUSH, x));
                v.push(c);
            }
        }
        at = end;
    }
    for c in &mut v {
        c.push(op(BUILD, 0));
    }
    v
}

fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        v.push(entry("sequences", m(6, true, false), move |_| {
            let mut l = seqs(4, if t { 8 } else { 6 });
            l.extend(seqs(2, if t { 13 } else { 10 }));
            l.extend(seqs(6, if t { 6 } else { 5 }));
            Space::Cases { list: l, what: "every sequence of items, then drained in three orders" }
        }));
        v.push(entry("after", m(0, false, false), move |_| {
            let mut l: Vec<Vec<Op>> = vec![];
            for s in 0..=if t { 80 } else { 40 } {
                l.push(vec![op(FAM, s), op(LIVE, 0)]);
            }
            // every pair of removals or insertions
            for s in 0..=if t { 30 } else { 18u32 } {
                for a in 0..=2 * s + 1 {
                    for b in 0..=2 * s + 1 {
                        let o = |x: u32| if x % 2 == 1 { op(DEL, x) } else { op(INS, x) };
                        l.push(vec![op(FAM, s), o(a), o(b)]);
                    }
                }
            }
            Space::Cases { list: l, what: "every pair of operations on bulk loaded trees" }
        }));
    }
    v.push(entry("family", m(0, n <= 8, false), move |_| {
        let max = if n <= 8 { if t { 250 } else { 100 } } else { 4 * n };
        let l = if n <= 8 { (0..=max).collect() } else { interesting_sizes(n, max) };
        let l = l.into_iter().flat_map(|s| (0..16u32).map(move |p| vec![op(FAM, s as u32 | p << 20)])).collect();
        Space::Cases { list: l, what: "every size, repetition and order pattern" }
    }));
    v.push(entry("family-big", m(0, false, true), move |_| {
        let mut l = vec![];
        let s: Vec<usize> = if n <= 8 {
            (0..=if t { 1500 } else { 400 }).collect()
        } else {
            let mut s = interesting_sizes(n, 3 * n * (n + 1));
            // around the sizes where a bulk loaded tree of full leaves gains a level or a lone child
            let c = n * (n + 1);
            s.extend((c - 3)..=(c + if t { 3 * n } else { 70 }));
            s.extend((2 * c - 2)..=(2 * c + if t { 2 * n } else { 4 }));
            s.extend([3 * c, 3 * c + 1, 3 * c + n, 3 * c + n + 1]);
            s.sort();
            s.dedup();
            s
        };
        for s in s {
            for p in [0, 1, 6] {
                let b = op(FAM, s as u32 | p << 20);
                let s = s as u32;
                l.push(vec![b, op(DELODD, 0), op(INSGAPS, 0), op(DELDESC, s)]);
                l.push(vec![b, op(DELDESC, s / 2 + 1), op(INSGAPS, 0), op(DELASC, s)]);
                l.push(vec![b, op(DELASC, s / 2 + 1), op(INSGAPS, 0), op(DELMID, s)]);
                l.push(vec![b, op(INSGAPS, 0), op(DELMID, 2 * s)]);
            }
        }
        Space::Cases { list: l, what: "bulk build of every interesting size, then bulk mutations" }
    }));
    v.push(entry("family-deep", m(0, false, true), move |_| {
        // full leaves: the sizes at which the tree gains its third and fourth inner level
        let c = n * (n + 1) * (n + 1);
        let s: Vec<usize> = match n {
            ..=4 => (c..=c + 40).chain(c * 5 - 2..=c * 5 + 30).chain([2 * c, 3 * c + 1, 6 * c]).collect(),
            ..=8 => (c - 3..=c + 80).step_by(if t { 1 } else { 7 }).chain([c, c + 1, c + 8, c + 9, 2 * c + 1, 9 * c + 1, 9 * c + 70]).collect(),
            _ => if t { vec![c - 1, c, c + 1, c + 64, c + 65, c + 2100, c + 6000, 2 * c, 2 * c + 1] } else { vec![c, c + 1, c + 65, c + 2100] },
        };
        let mut l = vec![];
        for s in s {
            for p in [0, 1, 6] {
                if n > 8 && !t && p == 6 {
                    continue;
                }
                let b = op(FAM, s as u32 | p << 20);
                let s = s as u32;
                l.push(vec![b, op(DELDESC, s * 2 / 3), op(INSGAPS, 0), op(DELASC, s)]);
                l.push(vec![b, op(DELODD, 0), op(DELODD, 0), op(INSGAPS, 0), op(DELMID, s)]);
            }
        }
        Space::Cases { list: l, what: "bulk build of trees with three and four inner levels, then bulk mutations" }
    }));
    if n > 8 {
        v.push(entry("after-big", m(0, false, true), move |_| {
            let mut l = vec![];
            let c = (n * (n + 1)) as u32;
            for s in [n as u32 + 1, 2 * n as u32, 2 * n as u32 + 1, 3 * n as u32 + 5] {
                for a in 0..=2 * s {
                    l.push(vec![op(FAM, s), if a % 2 == 1 { op(DEL, a) } else { op(INS, a) }]);
                }
            }
            for s in [c, c + 1, c + n as u32, c + n as u32 + 1] {
                for a in (0..=2 * s).step_by(if t { 1 } else { 97 }).chain(2 * s - 200..=2 * s) {
                    l.push(vec![op(FAM, s), if a % 2 == 1 { op(DEL, a) } else { op(INS, a) }]);
                }
            }
            Space::Cases { list: l, what: "one operation at every position of bulk loaded trees" }
        }));
    }
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
