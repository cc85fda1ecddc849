//! what Miri interprets
use crate::cfg::*;
use crate::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::tree::Cursor;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

struct Down<C: Cfg>(usize, std::marker::PhantomData<C>);
impl<C: Cfg> DescendVisit<C::K, C::V, C::A> for Down<C> {
    type Result = usize;
    fn visit_inner(&mut self, k: &[C::K], a: &[C::A]) -> DescendVisitResult<usize> {
        k.iter().for_each(|k| eat(C::uk(k) as u64));
        a.iter().for_each(C::ua);
        DescendVisitResult::GoDown(self.0.min(k.len()))
    }
    fn visit_leaf(&mut self, k: &[C::K], v: &[C::V]) -> Option<usize> {
        k.iter().for_each(|k| eat(C::uk(k) as u64));
        v.iter().for_each(C::uv);
        Some(k.len())
    }
}

/// all entries, from both ends and by cursor
fn scan<C: Cfg>(t: &Tree<C>) {
    for (k, v) in t.iter() {
        eat(C::uk(k) as u64);
        C::uv(v);
    }
    let mut it = t.iter();
    loop {
        eat(it.len() as u64);
        let a = it.next();
        let b = it.next_back();
        if a.is_none() && b.is_none() {
            break;
        }
        for (k, v) in a.into_iter().chain(b) {
            eat(C::uk(k) as u64);
            C::uv(v);
        }
    }
    C::ua(t.root_augmentation());
    for (k, v) in t.first().into_iter().chain(t.last()) {
        eat(C::uk(k) as u64);
        C::uv(v);
    }
    for i in [0, 1, 2, 99] {
        t.descend_visit(Down::<C>(i, Default::default()));
    }
}

fn probe<C: Cfg>(t: &Tree<C>, i: usize, k: u32) {
    let q = C::k(k);
    if let Some(v) = t.get(&q) {
        C::uv(v);
    }
    C::query(t, i, k);
    if let Some((c, v)) = t.get_cursor(&q) {
        eat(C::uk(c.key()) as u64);
        if let Some(v) = v {
            C::uv(v);
        }
        step::<C>(t, &c);
    }
}
fn step<C: Cfg>(t: &Tree<C>, c: &Cursor<C::K>) {
    if let Some((d, v)) = c.next_with_value(t) {
        eat(C::uk(d.key()) as u64);
        C::uv(v);
    }
    if let Some((d, v)) = c.prev_with_value(t) {
        eat(C::uk(d.key()) as u64);
        C::uv(v);
    }
}

fn read<C: Cfg>(t: &Tree<C>, stride: usize) {
    scan::<C>(t);
    let mut ks = vec![];
    for (k, _) in t.iter() {
        ks.push(C::uk(k));
    }
    let n = ks.len();
    ks.push(ks.last().map(|k| k + 1).unwrap_or(0));
    let mut i = 0;
    while i <= n {
        probe::<C>(t, i, ks[i]);
        if i == n / 2 {
            // absent, unless keys are dense
            probe::<C>(t, i + 1, ks[i].saturating_sub(1));
        }
        i = if i < n && i + stride > n { n } else { i + stride };
    }
    let mut c = t.cursor_first();
    let mut d = Cursor::last(t).map(|x| x.0);
    for _ in 0..3 {
        if let Some(c) = &c {
            if let Some(v) = c.value(t) {
                C::uv(v);
            }
            eat(c.exists(t) as u64);
        }
        c = c.and_then(|c| c.next(t));
        d = d.and_then(|d| d.prev(t));
    }
}

/// each operation on a copy, each of its calls into user code panicking in turn
fn poke(t: &Tree<Panicky>, dom: u32) {
    type C = Panicky;
    let (only, dom) = if dom >= 256 { (Some(dom as usize - 256), 0) } else { (None, dom) };
    let last = t.last().map(|x| C::uk(x.0)).unwrap_or(0);
    let mut ops: Vec<Op> = if dom == 0 {
        // a tree of any size: its ends, and a gap in the middle
        let (a, b) = (last / 2 | 1, last / 2 & !1);
        vec![op(INS, a), op(DEL, b), op(INS, last + 1), op(DEL, last), op(DEL, t.first().map(|x| C::uk(x.0)).unwrap_or(0))]
    } else {
        (0..dom).flat_map(|k| [op(INS, k), op(DEL, k)]).collect()
    };
    ops.extend([op(RBA, 1), op(CLEAR, 0), op(CLONE, 0), op(INTO, 65), op(BULK, 7), op(WRITE, last), op(COLL, 3)]);
    let dom = dom.max(2);
    if let Some(i) = only {
        ops = vec![ops[i]];
    }
    for o in ops {
        for n in 0..4000 {
            let mut c = Some(t.clone());
            arm(Some(n));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut held = vec![];
                act::<C>(c.as_mut().unwrap(), o, &mut held);
            }));
            let fired = arm(None);
            if !fired {
                if let Err(e) = r {
                    std::panic::resume_unwind(e);
                }
                break;
            }
            let c = c.as_mut().unwrap();
            // what is left must be safe to use; how it answers is C18's business
            let _ = catch_unwind(AssertUnwindSafe(|| {
                for (k, v) in c.iter() {
                    eat(C::uk(k) as u64);
                    C::uv(v);
                }
                C::ua(c.root_augmentation());
                c.insert(C::k(n as u32 % dom), C::v(1));
                c.remove(&C::k((n as u32 + 1) % dom));
                c.insert(C::k(last + 1), C::v(1));
                c.remove(&C::k(last));
            }));
        }
    }
}

fn coll<C: Cfg>(n: usize)
where
    C::K: Clone,
{
    let orders: [fn(usize, usize) -> usize; 3] = [|i, _| i, |i, n| n - 1 - i, |i, n| (i * 7 + 3) % n.max(1) / 2];
    let mut sets = vec![];
    for f in orders {
        let mut m: BPlusTreeMap<C::K, C::V> = (0..n).map(|i| (C::k(f(i, n) as u32), C::v(i as u32))).collect();
        for (k, v) in m.iter() {
            eat(C::uk(k) as u64);
            C::uv(v);
        }
        if n > 0 {
            let k = C::k(n as u32 / 2);
            if let Some(v) = m.get_mut(&k) {
                *v = C::v(0);
            }
            m.remove(&k);
            m.insert(k, C::v(3));
        }
        let s: BPlusTreeSet<C::K> = (0..n).map(|i| C::k(f(i, n) as u32)).collect();
        for k in s.iter().rev() {
            eat(C::uk(k) as u64);
        }
        sets.push(s);
    }
    for (a, b) in [(0, 2), (2, 1), (2, 2)] {
        let u = sets[a].union(&sets[b]);
        let mut w = u.clone();
        w.next();
        for k in u.chain(w) {
            eat(C::uk(k) as u64);
        }
    }
    for (i, s) in sets.iter_mut().enumerate() {
        if n > 1 {
            s.remove(&C::k(i as u32));
            s.insert(C::k(n as u32 + 1));
            eat(s.contains(&C::k(1)) as u64);
        }
        for k in s.first().into_iter().chain(s.last()) {
            eat(C::uk(k) as u64);
        }
    }
    for (i, s) in sets.into_iter().enumerate() {
        let mut it = s.into_iter();
        for _ in 0..i * 2 {
            it.next();
        }
        for k in it.by_ref().take(i) {
            eat(C::uk(&k) as u64);
        }
    }
}

fn act<C: Cfg>(t: &mut Tree<C>, o: Op, held: &mut Vec<Cursor<C::K>>) {
    let a = o & 0xff_ffff;
    match o >> 24 {
        INS => {
            if let Some(v) = t.insert(C::k(a), C::v(a)) {
                C::uv(&v);
            }
        }
        DEL => {
            if let Some(v) = t.remove(&C::k(a)) {
                C::uv(&v);
            }
        }
        WRITE => {
            if let Some(v) = t.get_mut(&C::k(a)) {
                *v = C::v(a);
            }
        }
        RBA => {
            C::query_remove(t, a as usize);
        }
        CLEAR => t.clear(),
        CLONE => *t = t.clone(),
        INTO => {
            let mut it = t.clone().into_iter();
            for _ in 0..a / 64 {
                if let Some((k, v)) = it.next() {
                    eat(C::uk(&k) as u64);
                    C::uv(&v);
                }
            }
            for _ in 0..a % 64 {
                if let Some((k, v)) = it.next_back() {
                    eat(C::uk(&k) as u64);
                    C::uv(&v);
                }
            }
            eat(it.len() as u64);
        }
        READ => read::<C>(t, a.max(1) as usize),
        MUT => {
            let mut ks = vec![];
            for (k, _) in t.iter() {
                ks.push(C::uk(k));
            }
            let mut i = 0;
            while i < ks.len() {
                if let Some(v) = t.get_mut(&C::k(ks[i])) {
                    C::uv(v);
                    *v = C::v(i as u32 + 1);
                }
                C::query_mut(t, i);
                if let Some(v) = t.get(&C::k(ks[i])) {
                    C::uv(v);
                }
                i += a.max(1) as usize;
            }
        }
        BULK => *t = Tree::<C>::bulk_load((0..a).map(|i| (C::k(2 * i), C::v(i))).collect()),
        ASC => (0..a).for_each(|i| drop(t.insert(C::k(2 * i), C::v(i)))),
        DESC => (0..a).rev().for_each(|i| drop(t.insert(C::k(2 * i), C::v(i)))),
        MID => (0..a).for_each(|i| {
            let j = if i % 2 == 0 { a / 2 + i / 2 } else { a / 2 - 1 - i / 2 };
            drop(t.insert(C::k(2 * j), C::v(i)))
        }),
        DELASC | DELDESC => {
            for _ in 0..a {
                let Some(k) = (if o >> 24 == DELASC { t.first() } else { t.last() }).map(|x| x.0.clone()) else { break };
                t.remove(&k);
            }
        }
        DELODD => {
            let ks: Vec<C::K> = t.iter().map(|x| x.0.clone()).skip(1).step_by(2).collect();
            ks.iter().for_each(|k| drop(t.remove(k)));
        }
        COLL => coll::<C>(a as usize),
        _ => {}
    }
    if matches!(o >> 24, INS | DEL | RBA | CLEAR | CLONE) {
        // cursors made earlier, whatever has become of their leaf
        for c in held.iter() {
            step::<C>(t, c);
        }
        // kept for three operations
        if a % 3 == 0 {
            held.clear();
            if let Some((c, _)) = t.get_cursor(&C::k(a)) {
                held.push(c);
            }
        }
    }
}
fn history<C: Cfg>(h: &[Op], trace: bool) {
    let mut t: Tree<C> = BPlusTree::new(NodeStoreVec::with_capacity((h.len() % 3) * 4));
    let mut held = vec![];
    let t0 = std::time::Instant::now();
    for (i, o) in h.iter().enumerate() {
        if trace {
            println!("step {i} {} {:?}", show(*o), t0.elapsed());
        }
        act::<C>(&mut t, *o, &mut held);
    }
    scan::<C>(&t);
}
fn panics(h: &[Op], trace: bool) {
    type C = Panicky;
    let mut t: Tree<C> = BPlusTree::new(NodeStoreVec::new());
    for (i, o) in h.iter().enumerate() {
        if trace {
            println!("step {i}");
        }
        if o >> 24 == POKE {
            poke(&t, o & 0xff_ffff);
        } else {
            act::<C>(&mut t, *o, &mut vec![]);
        }
    }
}

const KINDS: [&str; 5] = [Heap::NAME, Text::NAME, Grouped::NAME, Aligned::NAME, Panicky::NAME];

fn dispatch(kind: usize, h: &[Op], trace: bool) {
    match kind {
        0 => history::<Heap>(h, trace),
        1 => history::<Text>(h, trace),
        2 => history::<Grouped>(h, trace),
        3 => history::<Aligned>(h, trace),
        _ => panics(h, trace),
    }
}

pub fn one(kind: &str, h: &[Op]) {
    std::panic::set_hook(Box::new(|i| {
        println!("panic {}", i.to_string().replace('\n', " "));
    }));
    let k: usize = kind.parse().unwrap();
    println!("types {}", KINDS[k]);
    println!("history {}", h.iter().map(|o| show(*o)).collect::<Vec<_>>().join(" "));
    dispatch(k, h, true);
    println!("done");
}

/// histories come line by line on the standard input, each is answered when it is done
pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut line = String::new();
    loop {
        println!("next");
        line.clear();
        if std::io::stdin().read_line(&mut line).unwrap() == 0 {
            return;
        }
        let mut w = line.trim().split(' ').map(|x| x.parse::<u32>().unwrap());
        let kind = w.next().unwrap() as usize;
        let h: Vec<Op> = w.collect();
        // wrong answers and panics are other properties' business
        if catch_unwind(AssertUnwindSafe(|| dispatch(kind, &h, false))).is_err() {
            println!("panicked");
        }
    }
}
