//! C20: storage follows the contents. The heap bytes a container holds are read from the counting
//! allocator after every word, and every word is pumped: repeated until anything it leaves behind
//! each time would show.
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::{Cursor, InnerNode, LeafNode};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet};
use sweep_mc::alloc::{live, made};
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

type V = [u64; 4];
type A = Count;

const RBA: u8 = 40; // remove_by_augmentation
const LOOK: u8 = 41; // every kind of read
const CLONED: u8 = 42; // replace by a clone
const INTO: u8 = 43; // clone, consume half of it, abandon
const NEWBULK: u8 = 44; // replace by bulk_load of the present entries
const PUMP: u8 = 50; // repeat everything before up to the previous PUMP or MARK
const MARK: u8 = 51;
const TURN: u8 = 52; // insert above, remove the smallest, n times: a sliding window
const CHURN: u8 = 53; // fill up to n entries and drain to one, 12 times

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Tree,
    Map,
    Set,
}
struct M {
    kind: Kind,
    dom: u32,
    /// how often a word is repeated
    pump: usize,
    /// bounds at every state, not only at the end
    every: bool,
}
enum C {
    Tree(Tree<u32, V, A>),
    Map(BPlusTreeMap<u32, V, A>),
    Set(BPlusTreeSet<u32>),
}
struct W {
    c: C,
    n: usize,
    bytes0: isize,
    blocks0: isize,
    /// allocations made by the container's operations since it was new or cleared
    made: usize,
    hist: Vec<Op>,
}
fn val(i: u32) -> V {
    [i as u64; 4]
}
/// (leaf bytes, inner bytes)
fn node_bytes(k: &C) -> (usize, usize) {
    match k {
        C::Set(_) => (std::mem::size_of::<LeafNode<u32, ()>>(), std::mem::size_of::<InnerNode<u32, ()>>()),
        _ => (std::mem::size_of::<LeafNode<u32, V>>(), std::mem::size_of::<InnerNode<u32, A>>()),
    }
}
impl C {
    fn new(k: Kind) -> C {
        match k {
            Kind::Tree => C::Tree(BPlusTree::new(sweep_bptree::NodeStoreVec::new())),
            Kind::Map => C::Map(BPlusTreeMap::new()),
            Kind::Set => C::Set(BPlusTreeSet::new()),
        }
    }
    fn len(&self) -> usize {
        match self {
            C::Tree(t) => t.len(),
            C::Map(t) => t.len(),
            C::Set(t) => t.len(),
        }
    }
    fn insert(&mut self, k: u32) {
        match self {
            C::Tree(t) => drop(t.insert(k, val(k))),
            C::Map(t) => drop(t.insert(k, val(k))),
            C::Set(t) => drop(t.insert(k)),
        }
    }
    fn remove(&mut self, k: u32) {
        match self {
            C::Tree(t) => drop(t.remove(&k)),
            C::Map(t) => drop(t.remove(&k)),
            C::Set(t) => drop(t.remove(&k)),
        }
    }
    fn first(&self) -> Option<u32> {
        match self {
            C::Tree(t) => t.first().map(|x| *x.0),
            C::Map(t) => t.iter().next().map(|x| *x.0),
            C::Set(t) => t.first().copied(),
        }
    }
    fn last(&self) -> Option<u32> {
        match self {
            C::Tree(t) => t.last().map(|x| *x.0),
            C::Map(t) => t.iter().next_back().map(|x| *x.0),
            C::Set(t) => t.last().copied(),
        }
    }
    /// the n-th key, without allocating
    fn nth(&self, i: usize) -> Option<u32> {
        match self {
            C::Tree(t) => t.get_by_augmentation(i).map(|x| *x.0),
            C::Map(t) => t.get_by_augmentation(i).map(|x| *x.0),
            C::Set(t) => t.iter().nth(i).copied(),
        }
    }
    fn clear(&mut self) {
        match self {
            C::Tree(t) => t.clear(),
            C::Map(t) => *t = BPlusTreeMap::new(),
            C::Set(t) => t.clear(),
        }
    }
    fn look(&mut self, dom: u32) {
        match self {
            C::Tree(t) => {
                for k in 0..=dom {
                    std::hint::black_box((t.get(&k), t.rank_by_augmentation(&k).is_ok(), t.get_by_augmentation(k as usize)));
                    t.get_mut(&k);
                    t.get_mut_by_augmentation(k as usize);
                    t.get_cursor(&k).map(|c| (c.0.next(t), c.0.prev(t), c.0.value(t).is_some()));
                }
                let mut c = Cursor::first(&*t).map(|c| c.0);
                for _ in 0..dom {
                    c = c.and_then(|c| c.next(t));
                }
                std::hint::black_box((t.iter().count(), t.iter().rev().count(), t.first(), t.last(), t.cursor_first().is_some(), Cursor::last(&*t).is_some()));
                drop(t.clone());
            }
            C::Map(t) => {
                for k in 0..=dom {
                    std::hint::black_box((t.get(&k), t.rank_by_augmentation(&k).is_ok(), t.get_by_augmentation(k as usize)));
                    t.get_mut(&k);
                    t.get_mut_by_augmentation(k as usize);
                }
                std::hint::black_box((t.iter().count(), t.iter().rev().count()));
            }
            C::Set(t) => {
                for k in 0..=dom {
                    std::hint::black_box(t.contains(&k));
                }
                std::hint::black_box((t.iter().count(), t.iter().rev().count(), t.first(), t.last()));
                let s: BPlusTreeSet<u32> = (0..dom).collect();
                std::hint::black_box((t.union(&s).count(), s.union(t).count()));
            }
        }
    }
    fn nodes(&self) -> Result<(usize, usize), String> {
        fn cnt<A>(s: &Shape<A>) -> (usize, usize) {
            match s {
                Shape::Leaf(_) => (1, 0),
                Shape::Inner { kids, .. } => kids.iter().map(cnt).fold((0, 1), |a, b| (a.0 + b.0, a.1 + b.1)),
            }
        }
        struct Walk<'a>(&'a [usize], usize, &'a mut Vec<usize>);
        impl<'a> sweep_bptree::tree::visit::DescendVisit<u32, V, A> for Walk<'a> {
            type Result = ();
            fn visit_inner(&mut self, keys: &[u32], _: &[A]) -> sweep_bptree::tree::visit::DescendVisitResult<()> {
                if self.1 >= self.2.len() {
                    self.2.push(keys.len() + 1);
                }
                let i = self.0.get(self.1).copied().unwrap_or(0);
                self.1 += 1;
                sweep_bptree::tree::visit::DescendVisitResult::GoDown(i)
            }
            fn visit_leaf(&mut self, _: &[u32], _: &[V]) -> Option<()> {
                Some(())
            }
        }
        let _ = cnt::<A>;
        let go = |path: &[usize], open: &mut Vec<usize>| -> bool {
            match self {
                C::Tree(t) => t.descend_visit(Walk(path, 0, open)).is_some(),
                C::Map(t) => t.descend_visit(Walk(path, 0, open)).is_some(),
                C::Set(_) => unreachable!(),
            }
        };
        if let C::Set(t) = self {
            // the set shows no nodes: as many as minimum filling allows
            let q = (node_n() / 4).max(1);
            let l = t.len() / q + 1;
            return Ok((l, 1 + 2 * l / (q + 1)));
        }
        let (mut l, mut i) = (0, 0);
        let mut path: Vec<usize> = vec![];
        let mut open: Vec<usize> = vec![];
        loop {
            ensure!(go(&path, &mut open), "descend_visit gives nothing");
            ensure!(open.len() <= 64, "a descent passes more than 64 inner nodes");
            l += 1;
            while path.len() < open.len() {
                path.push(0);
            }
            loop {
                let Some(j) = path.pop() else { return Ok((l, i)) };
                if j + 1 < open[path.len()] {
                    path.push(j + 1);
                    break;
                }
                open.pop();
                i += 1;
            }
        }
    }
}
impl M {
    /// the shape of a tree with the same history
    fn shadow(&self, w: &W) -> Vec<u8> {
        let m = M { kind: Kind::Tree, every: false, ..*self };
        let mut t = m.new();
        for &o in &w.hist {
            if self.kind != Kind::Set || code(o) != RBA {
                let _ = m.apply(&mut t, o);
            }
        }
        match &t.c {
            C::Tree(t) => dump_keys(t),
            _ => vec![],
        }
    }
    fn held(&self, w: &W) -> (isize, isize) {
        let (b, y) = live();
        (b - w.blocks0, y - w.bytes0)
    }
    /// what the container may hold: its nodes, and a few words for every node it ever made
    fn bound(&self, w: &W, what: &str) -> R {
        let (blocks, bytes) = self.held(w);
        // what counting allocates is gone when it returns, but must not be counted as held
        let (l, i) = w.c.nodes()?;
        let (lb, ib) = node_bytes(&w.c);
        let may = 2 * (l * lb + i * ib) + 16 * w.made + 2 * (lb + ib) + 512;
        ensure!(
            bytes <= may as isize,
            "{what}: the container holds {bytes} bytes in {blocks} blocks for {} entries in {l} leaves and {i} inner nodes after making {} allocations; its nodes account for {}",
            w.c.len(),
            w.made,
            l * lb + i * ib
        );
        bump(1);
        Ok(())
    }
    fn apply(&self, w: &mut W, o: Op) -> R {
        let a = arg(o);
        let m0 = made();
        match code(o) {
            INS => w.c.insert(a),
            DEL => w.c.remove(a),
            RBA => match &mut w.c {
                C::Tree(t) => drop(t.remove_by_augmentation(a as usize)),
                C::Map(t) => drop(t.remove_by_augmentation(a as usize)),
                C::Set(_) => {}
            },
            CLEAR => {
                w.c.clear();
                w.made = 0;
                let fresh = C::new(self.kind);
                let (_, b) = live();
                drop(fresh);
                let fresh = b - live().1;
                let (_, bytes) = self.held(w);
                ensure!(bytes <= fresh + 64, "after clear the container holds {bytes} bytes, a new one {fresh}");
                return Ok(());
            }
            LOOK => {
                let b = self.held(w);
                w.c.look(if self.dom > 0 { self.dom } else { 40 });
                let e = self.held(w);
                ensure!(b == e, "reading changed what is held from {b:?} to {e:?} (blocks, bytes)");
                return Ok(());
            }
            CLONED => {
                w.c = match &w.c {
                    C::Tree(t) => C::Tree(t.clone()),
                    C::Map(_) | C::Set(_) => return Ok(()),
                };
            }
            INTO => {
                let b = self.held(w);
                match &w.c {
                    C::Tree(t) => {
                        let mut i = t.clone().into_iter();
                        for _ in 0..a {
                            i.next();
                            i.next_back();
                        }
                    }
                    C::Map(t) => {
                        let c: BPlusTreeMap<u32, V, A> = t.iter().map(|(k, v)| (*k, *v)).collect();
                        drop(c);
                    }
                    C::Set(t) => {
                        let c: BPlusTreeSet<u32> = t.iter().copied().collect();
                        let mut i = c.into_iter();
                        for _ in 0..a {
                            i.next();
                            i.next_back();
                        }
                    }
                }
                let e = self.held(w);
                ensure!(b == e, "a copy made and gone changed what is held from {b:?} to {e:?} (blocks, bytes)");
                return Ok(());
            }
            NEWBULK => {
                w.c = match &w.c {
                    C::Tree(t) => C::Tree(BPlusTree::bulk_load(t.iter().map(|(k, v)| (*k, *v)).collect())),
                    C::Map(t) => C::Map(t.iter().map(|(k, v)| (*k, *v)).collect()),
                    C::Set(t) => C::Set(t.iter().copied().collect()),
                };
            }
            ASC | DESC | MIDOUT | ZIG => {
                let (f, n) = spaced(a);
                for i in order(code(o), n) {
                    w.c.insert(key_of(f, i));
                }
            }
            BULK => {
                let (f, n) = spaced(a);
                let d = (0..n).map(|i| key_of(f, i)).map(|k| (k, val(k)));
                w.c = match self.kind {
                    Kind::Tree => C::Tree(BPlusTree::bulk_load(d.collect())),
                    Kind::Map => C::Map(d.collect()),
                    Kind::Set => C::Set(d.map(|x| x.0).collect()),
                };
            }
            DELASC | DELDESC | DELMID => {
                for _ in 0..a {
                    let k = match code(o) {
                        DELASC => w.c.first(),
                        DELDESC => w.c.last(),
                        _ => w.c.nth(w.c.len() / 2),
                    };
                    match k {
                        Some(k) => w.c.remove(k),
                        None => break,
                    }
                }
            }
            DELODD => {
                let mut i = 1;
                while let Some(k) = w.c.nth(i) {
                    w.c.remove(k);
                    i += 1;
                }
            }
            TURN => {
                for _ in 0..a {
                    let (Some(f), Some(l)) = (w.c.first(), w.c.last()) else { break };
                    w.c.insert(l + 1);
                    w.c.remove(f);
                }
            }
            CHURN => {
                for r in 0..12 {
                    let mut k = 0;
                    while w.c.len() < a as usize {
                        w.c.insert(k);
                        k += 1 + r % 3;
                    }
                    while w.c.len() > 1 {
                        let i = w.c.len();
                        let k = match r % 4 {
                            0 => w.c.first(),
                            1 => w.c.last(),
                            2 if self.kind != Kind::Set => w.c.nth(i / 2),
                            2 => w.c.nth(i.min(3) - 1),
                            _ => w.c.nth(i.min(2) - 1),
                        };
                        w.c.remove(k.unwrap());
                    }
                }
            }
            PUMP => {
                let h: Vec<Op> = w.hist.iter().rev().take_while(|o| code(**o) != MARK).copied().collect();
                for _ in 0..self.pump {
                    for &o in h.iter().rev() {
                        if code(o) != PUMP {
                            self.apply(w, o)?;
                        }
                    }
                }
                let m = made();
                self.bound(w, "after repeating the word")?;
                // what counting the nodes allocates is not the container's
                w.made = w.made.saturating_sub(made() - m);
                return Ok(());
            }
            _ => {}
        }
        w.made += made() - m0;
        Ok(())
    }
}
impl Machine for M {
    type W = W;
    fn new(&self) -> W {
        let hist = Vec::with_capacity(64);
        let (blocks0, bytes0) = live();
        let m = made();
        let c = C::new(self.kind);
        W { c, n: 0, bytes0, blocks0, made: made() - m, hist }
    }
    fn step(&self, w: &mut W, o: Op) -> R {
        self.apply(w, o)?;
        if w.hist.len() < 64 {
            w.hist.push(o);
        }
        w.n += 1;
        if self.every {
            self.bound(w, "after this step")?;
        }
        Ok(())
    }
    fn canon(&self, w: &W, out: &mut Vec<u8>) {
        match &w.c {
            C::Tree(t) => canon_keys(t.iter().map(|x| *x.0), dump_keys(t), out),
            C::Map(t) => canon_keys(t.iter().map(|x| *x.0), self.shadow(w), out),
            C::Set(t) => canon_keys(t.iter().copied(), self.shadow(w), out),
        }
    }
    fn check(&self, w: W) -> R {
        self.bound(&w, "at the end")?;
        let (b0, y0) = (w.blocks0, w.bytes0);
        let W { c, hist, .. } = w;
        drop(c);
        let (b, y) = live();
        ensure!(b == b0 && y == y0, "after drop {} blocks and {} bytes remain", b - b0, y - y0);
        drop(hist);
        Ok(())
    }
    fn show(&self, o: Op) -> String {
        let a = arg(o);
        match code(o) {
            RBA => format!("remove_by_augmentation({a})"),
            LOOK => "read_everything".into(),
            CLONED => "replace_by_clone".into(),
            INTO => format!("copy_and_consume({a} from each end)"),
            NEWBULK => "rebuild".into(),
            PUMP => format!("repeat_word({} times)", self.pump),
            MARK => "mark".into(),
            TURN => format!("insert_above_remove_smallest({a} times)"),
            CHURN => format!("fill_to_and_drain({a})x12"),
            _ => show_op(o),
        }
    }
}
fn canon_keys(k: impl Iterator<Item = u32>, s: Vec<u8>, out: &mut Vec<u8>) {
    out.extend(k.flat_map(|x| x.to_le_bytes()));
    out.push(0xff);
    out.extend(s);
}
/// the number of entries in each leaf and of keys in each inner node, in path order
fn dump_keys(t: &Tree<u32, V, A>) -> Vec<u8> {
    struct Vis<'a>(&'a mut Vec<u8>, usize, usize, &'a mut usize);
    impl<'a> sweep_bptree::tree::visit::DescendVisit<u32, V, A> for Vis<'a> {
        type Result = ();
        fn visit_inner(&mut self, keys: &[u32], a: &[A]) -> sweep_bptree::tree::visit::DescendVisitResult<()> {
            for k in keys {
                self.0.push(*k as u8);
            }
            self.0.push(0xfe);
            // the child holding the entry of index .2
            let mut i = 0;
            while i + 1 < a.len() && self.2 >= a[i].count() {
                self.2 -= a[i].count();
                i += 1;
            }
            let _ = self.1;
            sweep_bptree::tree::visit::DescendVisitResult::GoDown(i)
        }
        fn visit_leaf(&mut self, keys: &[u32], _: &[V]) -> Option<()> {
            self.0.push(0xfd);
            *self.3 = keys.len() - self.2.min(keys.len());
            Some(())
        }
    }
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut d = 0;
        t.descend_visit(Vis(&mut v, 0, i, &mut d));
        i += d.max(1);
    }
    v
}

fn m(kind: Kind, dom: u32, pump: usize, every: bool) -> M {
    M { kind, dom, pump, every }
}
/// every word up to length l over the alphabet, each followed by its repetition
fn pumped(bases: &[Vec<Op>], al: &[Op], l: usize) -> Vec<Vec<Op>> {
    let mut words: Vec<Vec<Op>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..l {
        words = words.iter().flat_map(|w| al.iter().map(move |o| [w.clone(), vec![*o]].concat())).collect();
        for b in bases {
            for w in &words {
                out.push([b.clone(), vec![op(MARK, 0)], w.clone(), vec![op(PUMP, 0)]].concat());
            }
        }
    }
    out
}
fn entries(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    for (name, kind) in [("tree", Kind::Tree), ("map", Kind::Map), ("set", Kind::Set)] {
        let tree = kind == Kind::Tree;
        if n <= 8 {
            let d = dom_for(n, if tree { 2 } else { 1 });
            // every reachable state within its bound, reading leaves nothing behind
            v.push(entry(&format!("{name}-states"), m(kind, d, 0, true), move |_| Space::Bfs {
                roots: roots(d, true),
                alphabet: [alphabet(&[INS, DEL], d), if tree { alphabet(&[RBA], d) } else { vec![] }, vec![op(CLEAR, 0), op(LOOK, 0), op(CLONED, 0), op(INTO, 1), op(INTO, 99), op(NEWBULK, 0)]].concat(),
                depth: 200,
                cap: if t { 4_000_000 } else { 400_000 },
            }));
            // every cycle of operations at every reachable state, repeated
            let d = dom_for(n, if t { 1 } else { 0 });
            v.push(entry(&format!("{name}-pump"), m(kind, d, 64, false), move |cx| {
                let bases = reach(cx, d, if t { 20_000 } else { 3_000 });
                let mut al = alphabet(&[INS, DEL], d);
                if tree {
                    al.push(op(RBA, 0));
                    al.push(op(CLONED, 0));
                }
                let mut list = pumped(&bases, &al, 2);
                list.extend(pumped(&bases[..bases.len().min(if t { 400 } else { 60 })], &al, 3));
                if n <= 4 {
                    list.extend(pumped(&bases[..bases.len().min(if t { 60 } else { 8 })], &al, 4));
                }
                Space::Cases { list, what: "every word of at most 2 operations at every reachable state (3 and 4 at the first ones), repeated 64 times" }
            }));
        }
        // bulk work over deeper trees
        v.push(entry(&format!("{name}-big"), m(kind, 0, 24, true), move |_| {
            let szs: Vec<usize> = if n <= 8 {
                (1..=if t { 300 } else { 120 }).collect()
            } else {
                interesting_sizes(n, if t { 6000 } else { 2 * n * 3 }).into_iter().chain([n * (n + 1) / 2 + n, n * n / 2 + 77, 2 * n * (n + 1)]).collect()
            };
            let mut l = vec![];
            for &s in &szs {
                for b in BUILDERS {
                    let base = op(b, sized(1, s));
                    for dl in [op(DELASC, s as u32), op(DELDESC, s as u32), op(DELMID, s as u32), op(DELODD, 0)] {
                        l.push(vec![base, dl, op(LOOK, 0), op(INTO, 3), op(CLEAR, 0), base, op(CLONED, 0), dl, op(MARK, 0), op(LOOK, 0)]);
                        if b != BULK && code(dl) != DELODD && s <= 700 {
                            l.push(vec![base, dl, op(PUMP, 0)]);
                        }
                    }
                    l.push(vec![base, op(TURN, 3 * s as u32)]);
                }
                if s <= 700 {
                    l.push(vec![op(CHURN, s as u32)]);
                }
            }
            Space::Cases { list: l, what: "fill, drain, sliding window and churn, every size" }
        }));
    }
    v
}
static PLAN: List = List(entries);
fn main() {
    run(&PLAN)
}
