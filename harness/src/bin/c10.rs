//! C10: the tree stays balanced, ordered and filled. The shape is read through the public visitor
//! after every single insertion and removal.
use sweep_bptree::augment::count::Count;
use sweep_mc::cli::main as run;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

const RBA: u8 = 40;
const CLONE: u8 = 41;

type T = TW<u32, u32, Count>;

/// levels of the subtree; lo inclusive, hi exclusive
fn walk(s: &Shape<Count>, root: bool, right: bool, lo: Option<u32>, hi: Option<u32>, bulk: bool, path: &mut Vec<usize>) -> Result<usize, String> {
    let cap = node_n();
    let min = if root || (bulk && right) { 1 } else { (cap / 4).max(1) };
    match s {
        Shape::Leaf(e) => {
            ensure!(e.len() <= cap, "leaf at {path:?} holds {} entries, its capacity is {cap}", e.len());
            ensure!(root || e.len() >= min, "leaf at {path:?} holds {} entries, at least {min} are due", e.len());
            for w in e.windows(2) {
                ensure!(w[0].0 < w[1].0, "leaf at {path:?} holds {} before {}", w[0].0, w[1].0);
            }
            if let (Some(f), Some(l)) = (e.first(), e.last()) {
                ensure!(lo.map(|x| f.0 >= x).unwrap_or(true), "leaf at {path:?} holds {}, below its left separator {lo:?}", f.0);
                ensure!(hi.map(|x| l.0 < x).unwrap_or(true), "leaf at {path:?} holds {}, not below its right separator {hi:?}", l.0);
            }
            bump(1);
            Ok(1)
        }
        Shape::Inner { keys, augs, kids } => {
            ensure!(keys.len() <= cap, "inner node at {path:?} holds {} keys, its capacity is {cap}", keys.len());
            ensure!(keys.len() >= min, "inner node at {path:?} holds {} keys, at least {min} are due", keys.len());
            ensure!(augs.len() == keys.len() + 1 && kids.len() == keys.len() + 1, "inner node at {path:?} shows {} keys and {} augmentations", keys.len(), augs.len());
            for w in keys.windows(2) {
                ensure!(w[0] < w[1], "inner node at {path:?} shows keys {keys:?}");
            }
            if let (Some(f), Some(l)) = (keys.first(), keys.last()) {
                ensure!(lo.map(|x| *f >= x).unwrap_or(true) && hi.map(|x| *l < x).unwrap_or(true), "inner node at {path:?} shows keys {keys:?} outside its own range {lo:?}..{hi:?}");
            }
            let mut depth = None;
            for (i, k) in kids.iter().enumerate() {
                let l = if i == 0 { lo } else { Some(keys[i - 1]) };
                let h = if i == keys.len() { hi } else { Some(keys[i]) };
                path.push(i);
                let d = walk(k, false, right && i == keys.len(), l, h, bulk, path)?;
                path.pop();
                ensure!(depth.is_none() || depth == Some(d), "children of the inner node at {path:?} differ in depth: {depth:?} and {d}");
                depth = Some(d);
            }
            bump(1);
            Ok(1 + depth.unwrap_or(0))
        }
    }
}
fn shape_ok(w: &T) -> R {
    let s = dump(&w.t)?;
    walk(&s, true, true, None, None, w.bulk, &mut vec![])?;
    // separators need not bound whole subtrees beyond neighbours, the entries must be in order
    let e = s.entries();
    ensure!(e.iter().map(|x| x.0).eq(w.m.keys().copied()), "leaves show {} entries, {} are due, or in another order", e.len(), w.m.len());
    Ok(())
}
fn each_big(w: &T) -> R {
    let n = w.m.len();
    if n <= 200 || w.clock as usize % 61 == 0 {
        return shape_ok(w);
    }
    // the boundaries at which nodes appear and disappear
    let c = node_n();
    if n % (c / 2) <= 1 && n < 10 * c {
        return shape_ok(w);
    }
    Ok(())
}

fn each_deep(w: &T) -> R {
    let n = w.m.len();
    if n % if node_n() > 8 { 2003 } else { 61 } == 0 || n % 97 == 0 && n < 3000 {
        return shape_ok(w);
    }
    Ok(())
}

struct M {
    dom: u32,
    /// None: the shape is part of the state, so checking every new state checks every step
    each: Option<fn(&T) -> R>,
}
impl Machine for M {
    type W = T;
    fn new(&self) -> T {
        let mut w = TW::new();
        w.each = self.each;
        w
    }
    fn step(&self, w: &mut T, o: Op) -> R {
        let a = arg(o);
        match code(o) {
            RBA => {
                let e = w.m.iter().nth(a as usize).map(|(k, v)| (*k, *v));
                let g = w.t.remove_by_augmentation(a as usize);
                ensure!(g == e, "remove_by_augmentation({a}) gave {g:?}, expected {e:?}");
                if let Some((k, _)) = e {
                    w.m.remove(&k);
                }
            }
            CLONE => w.t = w.t.clone(),
            _ => w.step(o).unwrap()?,
        }
        if self.each.is_some() {
            shape_ok(w)
        } else {
            Ok(())
        }
    }
    fn canon(&self, w: &T, out: &mut Vec<u8>) {
        w.canon(self.dom, out);
        out.push(w.bulk as u8);
    }
    fn check(&self, w: T) -> R {
        shape_ok(&w)
    }
    fn show(&self, o: Op) -> String {
        match code(o) {
            RBA => format!("remove_by_augmentation({})", arg(o)),
            CLONE => "clone_and_drop_original".into(),
            _ => show_op(o),
        }
    }
}
fn al(d: u32) -> Vec<Op> {
    let mut v = alphabet(&[INS, DEL], d);
    for i in 0..d {
        v.push(op(RBA, i));
    }
    v.push(op(CLEAR, 0));
    v.push(op(CLONE, 0));
    v
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = dom_for(n, if t { 3 } else { 2 });
        let cap = if t { 3_000_000 } else { 500_000 };
        v.push(entry("shape-insert", M { dom: d, each: None }, move |_| Space::Bfs { roots: roots(d, false), alphabet: al(d), depth: 100, cap }));
        v.push(entry("shape-bulk", M { dom: d, each: None }, move |_| Space::Bfs { roots: roots(d, true), alphabet: al(d), depth: 100, cap }));
        v.push(entry("shape-words", M { dom: 6, each: None }, move |_| Space::Words { bases: roots(6, true), alphabet: alphabet(&[INS, DEL], 6), m: if t { 6 } else { 4 } }));
        v.push(entry("shape-families", M { dom: 0, each: Some(shape_ok) }, move |_| Space::Cases {
            list: families(n, t).into_iter().filter(|c| spaced(arg(c[0])).1 <= if t { 300 } else { 90 }).collect(),
            what: "builder x drain families, shape after every single operation",
        }));
    } else {
        v.push(entry("shape-families", M { dom: 0, each: Some(each_big) }, move |_| Space::Cases { list: families(n, t), what: "builder x drain families, shape along the way" }));
    }
    v.push(entry("shape-deep", M { dom: 0, each: Some(each_deep) }, move |_| Space::Cases { list: deep_families(n, t), what: "trees with one inner level more, shape along the way" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    run(&PLAN)
}
