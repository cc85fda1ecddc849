//! Operations on every kind of container with tracked keys, values and aggregates, all of which may
//! be interrupted by a panic, or misled, in user code.
use crate::engine::*;
use crate::keys::*;
use crate::tree::*;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTreeMap, BPlusTreeSet};

pub type T = Tree<TK, TV, TA>;

pub const OPS: u8 = 50;
pub const P_INS: u8 = 50;
pub const P_DEL: u8 = 51;
pub const P_GET: u8 = 52;
pub const P_GETM: u8 = 53;
pub const P_CLEAR: u8 = 54;
pub const P_CLONE: u8 = 55; // clone, then drop the clone
pub const P_CLONEOVER: u8 = 56; // clone, then the clone takes the tree's place
pub const P_BULK: u8 = 57;
pub const P_MAPIT: u8 = 58;
pub const P_SETIT: u8 = 59;
pub const P_ITER: u8 = 60;
pub const P_CURSOR: u8 = 61;
pub const P_RANK: u8 = 62;
pub const P_GBA: u8 = 63;
pub const P_GMBA: u8 = 64;
pub const P_RBA: u8 = 65;
pub const P_VISIT: u8 = 66;
pub const P_INTO: u8 = 67; // arg front * 64 + back, then abandoned
pub const P_DROP: u8 = 68;
pub const P_WRITE: u8 = 69; // assign through get_mut: the old value's drop panics
pub const P_UNION: u8 = 70;
pub const P_SETOPS: u8 = 71;
pub const P_CFIRST: u8 = 72;
pub const P_RETAIN: u8 = 73; // insert a run of arg ascending keys
pub const P_DRAIN: u8 = 74; // remove arg smallest keys

pub struct V1;
impl DescendVisit<TK, TV, TA> for V1 {
    type Result = u32;
    fn visit_inner(&mut self, k: &[TK], a: &[TA]) -> DescendVisitResult<u32> {
        callback("visitor::visit_inner");
        k.iter().for_each(|k| {
            k.ix();
        });
        a.iter().for_each(|a| {
            a.get();
        });
        match choose(6) {
            0 => DescendVisitResult::GoDown(a.len() / 2),
            1 => DescendVisitResult::GoDown(a.len()),
            2 => DescendVisitResult::GoDown(a.len() + 1),
            3 => DescendVisitResult::GoDown(usize::MAX),
            4 => DescendVisitResult::GoDown(a.len() - 1),
            _ => DescendVisitResult::Cancel,
        }
    }
    fn visit_leaf(&mut self, k: &[TK], v: &[TV]) -> Option<u32> {
        callback("visitor::visit_leaf");
        k.iter().for_each(|k| {
            k.ix();
        });
        v.iter().for_each(|v| {
            v.ix();
        });
        None
    }
}

pub struct St {
    pub t: T,
    /// handed out by the container, or kept by the harness
    pub held: Vec<(TK, TV)>,
    pub s: [BPlusTreeSet<TK>; 2],
    pub clock: u32,
}

/// run one operation on the container; everything in here may unwind
pub fn act(w: &mut St, o: Op) {
    let a = arg(o);
    let t = &mut w.t;
    match code(o) {
        P_INS => {
            w.clock += 1;
            let v = TV::mk(w.clock);
            let old = t.insert(TK::new(a), v);
            old.iter().for_each(|v| {
                v.ix();
            });
        }
        P_DEL => {
            let r = t.remove(&TK::new(a));
            r.iter().for_each(|v| {
                v.ix();
            });
        }
        P_GET => {
            t.get(&TK::new(a)).map(|v| v.ix());
        }
        P_GETM => {
            t.get_mut(&TK::new(a)).map(|v| v.ix());
        }
        P_WRITE => {
            w.clock += 1;
            let n = TV::mk(w.clock);
            if let Some(v) = t.get_mut(&TK::new(a)) {
                *v = n;
            }
        }
        P_CLEAR => t.clear(),
        P_CLONE => {
            let c = t.clone();
            read(&c);
            drop(c);
        }
        P_CLONEOVER => {
            let c = t.clone();
            *t = c;
        }
        P_BULK | P_MAPIT | P_SETIT => {
            let mut d = vec![];
            for i in 0..a {
                for _ in 0..1 + i % 3 {
                    w.clock += 1;
                    d.push((TK::new(i), TV::mk(w.clock)));
                }
            }
            match code(o) {
                P_BULK => {
                    let n = T::bulk_load(d);
                    read(&n);
                    *t = n;
                }
                P_MAPIT => {
                    d.reverse();
                    let m: BPlusTreeMap<TK, TV, TA> = d.into_iter().collect();
                    for (k, v) in m.iter() {
                        (k.ix(), v.ix());
                    }
                    drop(m);
                }
                _ => {
                    d.reverse();
                    w.s[0] = d.into_iter().map(|x| x.0).collect();
                }
            }
        }
        P_ITER => {
            for (k, v) in t.iter() {
                (k.ix(), v.ix());
                callback("loop body");
            }
            for (k, v) in t.iter().rev() {
                (k.ix(), v.ix());
                callback("loop body");
            }
        }
        P_CFIRST => {
            // in a disordered tree a walk need not end
            let mut left = t.len() + 2;
            let mut c = t.cursor_first();
            while let (Some(x), 1..) = (c, left) {
                x.value(t).map(|v| v.ix());
                c = x.next(t);
                left -= 1;
            }
            let mut c = sweep_bptree::tree::Cursor::last(t).map(|c| c.0);
            let mut left = t.len() + 2;
            while let (Some(x), 1..) = (c, left) {
                x.key().ix();
                c = x.prev(t);
                left -= 1;
            }
        }
        P_CURSOR => {
            let k = TK::new(a);
            if let Some((c, v)) = t.get_cursor(&k) {
                v.map(|v| v.ix());
                c.key().ix();
                c.exists(t);
                c.value(t).map(|v| v.ix());
                let n = c.next(t);
                let p = c.prev(t);
                n.map(|c| c.key().ix());
                p.map(|c| c.key().ix());
            }
        }
        P_RANK => {
            let _ = t.rank_by_augmentation::<usize>(&TK::new(a));
        }
        P_GBA => {
            t.get_by_augmentation(a as usize).map(|(k, v)| (k.ix(), v.ix()));
        }
        P_GMBA => {
            w.clock += 1;
            let n = TV::mk(w.clock);
            if let Some(v) = t.get_mut_by_augmentation(a as usize) {
                *v = n;
            }
        }
        P_RBA => {
            if let Some(e) = t.remove_by_augmentation(a as usize) {
                e.0.ix();
                w.held.push(e);
            }
        }
        P_VISIT => {
            t.descend_visit(V1);
        }
        P_INTO => {
            let x = std::mem::replace(t, new_tree());
            let mut it = x.into_iter();
            for _ in 0..a / 64 {
                w.held.extend(it.next());
                callback("loop body");
            }
            for _ in 0..a % 64 {
                w.held.extend(it.next_back());
                callback("loop body");
            }
        }
        P_DROP => {
            let x = std::mem::replace(t, new_tree());
            drop(x);
        }
        P_UNION => {
            for k in w.s[0].union(&w.s[1]) {
                k.ix();
                callback("loop body");
            }
        }
        P_SETOPS => {
            let k = TK::new(a);
            w.s[1].contains(&k);
            w.s[1].insert(k);
            w.s[1].remove(&TK::new(a / 2));
            let s = std::mem::take(&mut w.s[0]);
            for k in s.into_iter().take(1 + a as usize / 2) {
                k.ix();
            }
            w.s[1].clear();
        }
        P_RETAIN => {
            for i in 0..a {
                w.clock += 1;
                t.insert(TK::new(i), TV::mk(w.clock));
            }
        }
        P_DRAIN => {
            for _ in 0..a {
                let k = match t.first() {
                    Some((k, _)) => k.ix(),
                    None => break,
                };
                t.remove(&TK::new(k));
            }
        }
        _ => unreachable!(),
    }
}

pub fn read(t: &T) {
    for (k, v) in t.iter() {
        k.ix();
        v.ix();
    }
}

pub fn show1(o: Op) -> String {
    let a = arg(o);
    let n = match code(o) {
        P_INS => "insert",
        P_DEL => "remove",
        P_GET => "get",
        P_GETM => "get_mut",
        P_CLEAR => "clear",
        P_CLONE => "clone_then_drop_clone",
        P_CLONEOVER => "replace_by_clone",
        P_BULK => "bulk_load_with_repeats",
        P_MAPIT => "map_from_iter_with_repeats",
        P_SETIT => "set_from_iter_with_repeats",
        P_ITER => "iterate_both_ways",
        P_CURSOR => "cursor_at",
        P_RANK => "rank_by_augmentation",
        P_GBA => "get_by_augmentation",
        P_GMBA => "write_by_augmentation",
        P_RBA => "remove_by_augmentation",
        P_VISIT => "descend_visit",
        P_INTO => return format!("into_iter(take {} front, {} back, abandon)", a / 64, a % 64),
        P_DROP => "drop",
        P_WRITE => "write_through_get_mut",
        P_UNION => "set_union",
        P_SETOPS => "set_operations",
        P_CFIRST => "cursor_walks",
        P_RETAIN => "insert_run",
        P_DRAIN => "remove_smallest",
        _ => "?",
    };
    format!("{n}({a})")
}

/// the operation alphabet for trees over 0..dom
pub fn last_ops(dom: u32, with_sets: bool) -> Vec<Op> {
    let mut v = vec![];
    for k in 0..dom {
        for c in [P_INS, P_DEL, P_GET, P_WRITE, P_CURSOR, P_RANK, P_RBA, P_GMBA] {
            v.push(op(c, k));
        }
    }
    for k in [0, dom / 2, dom - 1] {
        v.push(op(P_GETM, k));
        v.push(op(P_GBA, k));
    }
    for c in [P_CLEAR, P_CLONE, P_CLONEOVER, P_ITER, P_VISIT, P_DROP, P_CFIRST] {
        v.push(op(c, 0));
    }
    for f in 0..=dom.min(6) {
        for b in 0..=(dom.min(6) - f) {
            v.push(op(P_INTO, f * 64 + b));
        }
    }
    for n in 0..=dom {
        v.push(op(P_BULK, n));
        if with_sets {
            v.push(op(P_MAPIT, n));
            v.push(op(P_SETIT, n));
        }
    }
    if with_sets {
        v.push(op(P_UNION, 0));
        for k in [0, 1, dom / 2, dom] {
            v.push(op(P_SETOPS, k));
        }
    }
    v
}
pub fn product(bases: &[Vec<Op>], ops: &[Op]) -> Vec<Vec<Op>> {
    let mut v = vec![];
    for b in bases {
        for &o in ops {
            let mut c = b.clone();
            c.push(o);
            v.push(c);
        }
    }
    v
}
pub fn key_list(s: usize) -> Vec<u32> {
    // present keys are odd, absent ones even; both ends, the middle, and node boundaries near both ends
    let s = s as u32;
    let mut v = vec![0, 1, 2, 3, s, s | 1, 2 * s, (2 * s).saturating_sub(1), 2 * s + 1];
    v.sort();
    v.dedup();
    v
}
