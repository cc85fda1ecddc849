//! C22: user code that breaks its contract never breaks memory safety. Every history is run with
//! every bounded choice of wrong answers of comparisons, key clones and searches; with orders that
//! change under way; with unsorted bulk loads; with groups that are not monotone. Whatever comes
//! back is accepted, panics included; the instance ledger, the poisoning allocator and the
//! standard library's checks of unsafe preconditions judge.
use std::cell::Cell;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount};
use sweep_bptree::augment::SearchAugmentation;
use sweep_bptree::BPlusTreeSet;
use sweep_mc::act::*;
use sweep_mc::alloc;
use sweep_mc::engine::*;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

/// all keys change their order
const L_ORDER: u8 = 100;
/// bulk load of a sequence given as digits in base 4, the length above them
const L_SEQ: u8 = 101;
/// bulk load of arg / 8 items in pattern arg % 8
const L_PAT: u8 = 102;

fn free(f: impl FnOnce()) {
    // panics are allowed
    let _ = catch_unwind(AssertUnwindSafe(f));
}
fn pattern(n: u32, p: u32) -> Vec<u32> {
    match p {
        0 => (0..n).rev().collect(),
        1 => (0..n).map(|i| i ^ 1).collect(),
        2 => (0..n).map(|i| (i * 7) % n.max(1)).collect(),
        3 => (0..n).map(|i| if i < n / 2 { n + i } else { i }).collect(),
        4 => (0..n).map(|i| i % 5).collect(),
        5 => (0..n).map(|i| if i == n / 2 { 0 } else { i + 1 }).collect(),
        6 => (0..n).map(|i| if i + 1 == n { 0 } else { i + 1 }).collect(),
        _ => (0..n).map(|i| if i == 0 { n } else { i }).collect(),
    }
}
fn do_op(w: &mut St, o: Op) {
    let a = arg(o);
    let mut load = |v: Vec<u32>| {
        let mut d = vec![];
        for k in v {
            w.clock += 1;
            d.push((TK::new(k), TV::mk(w.clock)));
        }
        w.t = T::bulk_load(d);
    };
    match code(o) {
        L_ORDER => set_order(a as u8),
        L_SEQ => load((0..a >> 20).map(|i| a >> (2 * i) & 3).collect()),
        L_PAT => load(pattern(a / 8, a % 8)),
        _ => act(w, o),
    }
}

/// the cursors of `a` at k, and at the far end, used on `b`
fn cross(a: &T, b: &T, k: u32) {
    let c = if k == u32::MAX { sweep_bptree::tree::Cursor::last(a).map(|c| c.0) } else { a.get_cursor(&TK::new(k)).map(|c| c.0) };
    if let Some(c) = c {
        c.value(b).map(|v| v.ix());
        c.exists(b);
        for (c, v) in c.next_with_value(b).into_iter().chain(c.prev_with_value(b)) {
            (c.key().ix(), v.ix());
            c.next(b).into_iter().chain(c.prev(b)).for_each(|c| {
                c.value(b).map(|v| v.ix());
            });
        }
    }
}

struct M {
    dom: u32,
    /// wrong answers per execution
    lies: usize,
}
impl M {
    fn aftermath(&self, w: &mut St, keys: &[u32]) -> R {
        let look = |w: &mut St, when: &str| -> R {
            free(|| read(&w.t));
            free(|| {
                w.t.iter().rev().for_each(|(k, v)| {
                    (k.ix(), v.ix());
                })
            });
            for &k in keys {
                let q = TK::new(k);
                free(|| {
                    w.t.get(&q).map(|v| v.ix());
                });
                free(|| {
                    w.t.get_mut(&q).map(|v| v.ix());
                });
                free(|| {
                    if let Some((c, v)) = w.t.get_cursor(&q) {
                        v.map(|v| v.ix());
                        c.prev_with_value(&w.t).map(|(c, v)| (c.key().ix(), v.ix()));
                        c.next_with_value(&w.t).map(|(c, v)| (c.key().ix(), v.ix()));
                    }
                });
                free(|| {
                    let _ = w.t.rank_by_augmentation::<usize>(&q);
                });
                free(|| {
                    w.t.get_by_augmentation(k as usize).map(|(k, v)| (k.ix(), v.ix()));
                });
            }
            free(|| {
                w.t.first().map(|(k, v)| (k.ix(), v.ix()));
            });
            free(|| {
                w.t.last().map(|(k, v)| (k.ix(), v.ix()));
            });
            free(|| {
                w.t.root_augmentation().get();
            });
            act_free(w, op(P_CFIRST, 0));
            act_free(w, op(P_VISIT, 0));
            ledger_err().map_err(|e| format!("lookups {when}: {e}"))
        };
        look(w, "afterwards")?;
        // cursors of one tree used on another
        for n in [0u32, 1, 2 * node_n() as u32] {
            let mut other = new_tree();
            free(|| other = T::bulk_load((0..n).map(|i| (TK::new(2 * i + 1), TV::mk(i))).collect()));
            for k in keys.iter().copied().take(4).chain([u32::MAX]) {
                free(|| cross(&w.t, &other, k));
                free(|| cross(&other, &w.t, k));
            }
            free(move || drop(other));
        }
        ledger_err().map_err(|e| format!("cursors on another tree: {e}"))?;
        for s in &mut w.s {
            free(|| {
                s.iter().for_each(|k| {
                    k.ix();
                })
            });
        }
        free(|| {
            let c = w.t.clone();
            read(&c);
        });
        ledger_err().map_err(|e| format!("cloning afterwards: {e}"))?;
        for &k in keys {
            act_free(w, op(P_INS, k));
        }
        ledger_err().map_err(|e| format!("inserting afterwards: {e}"))?;
        look(w, "after inserting")?;
        for &k in keys.iter().rev() {
            act_free(w, op(P_DEL, k));
        }
        ledger_err().map_err(|e| format!("removing afterwards: {e}"))?;
        for _ in 0..3 {
            act_free(w, op(P_RBA, 0));
        }
        look(w, "after removing")?;
        // half of what is left is handed out, the rest abandoned
        let n = (w.t.len() as u32 / 4).min(20);
        act_free(w, op(P_INTO, n * 64 + n));
        act_free(w, op(P_SETOPS, 2));
        act_free(w, op(P_UNION, 0));
        ledger_err().map_err(|e| format!("consuming afterwards: {e}"))
    }
    fn once(&self, base: &[Op], rest: &[Op], script: &[(u32, u8)]) -> R {
        ledger_reset();
        let mut w = std::mem::ManuallyDrop::new(make(base)?);
        let ok: Vec<u32> = if self.dom > 0 { (0..self.dom).collect() } else { spread(&w.t) };
        lie(script);
        let mut e = Ok(());
        for &o in rest {
            free(|| do_op(&mut w, o));
            e = ledger_err().map_err(|e| format!("{}: {e}", show2(o)));
            if e.is_err() {
                break;
            }
        }
        // what was made of the lies is read while they last
        if e.is_ok() && script.is_empty() && rest.iter().any(|o| code(*o) == L_ORDER) {
            e = self.aftermath(&mut w, &ok).map_err(|e| format!("in the changed order: {e}"));
        }
        be_honest();
        e?;
        self.aftermath(&mut w, &ok)?;
        let w = std::mem::ManuallyDrop::into_inner(w);
        free(move || {
            w.held.iter().for_each(|(k, v)| {
                k.ix();
                v.ix();
            });
            drop(w);
        });
        ledger_err().map_err(|e| format!("dropping everything: {e}"))?;
        Ok(())
    }
    fn all(&self, base: &[Op], rest: &[Op], script: &mut Vec<(u32, u8)>) -> R {
        alloc::scope_begin();
        let r = self.once(base, rest, script);
        be_honest();
        ledger_reset();
        LAST_PANIC_LOC.with(|l| *l.borrow_mut() = String::new());
        unsafe { alloc::scope_end(r.is_ok()) };
        r.map_err(|e| if script.is_empty() { e } else { format!("{e} (wrong answers, as (choice, answer): {script:?})") })?;
        let log = choices();
        bump(1);
        if script.len() < self.lies {
            let from = script.last().map_or(0, |s| s.0 + 1);
            for i in from..log.len() as u32 {
                for a in 1..log[i as usize] {
                    script.push((i, a));
                    self.all(base, rest, script)?;
                    script.pop();
                }
            }
        }
        Ok(())
    }
}
fn act_free(w: &mut St, o: Op) {
    free(|| act(w, o))
}
fn make(ops: &[Op]) -> Result<St, String> {
    let mut w: TW<TK, TV, TA> = TW::new();
    for (i, &o) in ops.iter().enumerate() {
        guarded(|| w.step(o).expect("op")).and_then(|r| r).map_err(|e| format!("step {}: {e}", i + 1))?;
    }
    let TW { t, m, clock, .. } = w;
    let mut s = [BPlusTreeSet::new(), BPlusTreeSet::new()];
    for (i, k) in m.keys().enumerate() {
        if i % 3 != 0 {
            s[0].insert(TK::new(*k));
        }
        if i % 3 != 1 {
            s[1].insert(TK::new(*k));
        }
    }
    Ok(St { t, held: vec![], s, clock })
}
fn spread(t: &T) -> Vec<u32> {
    let all: Vec<u32> = t.iter().map(|e| e.0.ix()).collect();
    let mut v: Vec<u32> = all.iter().copied().step_by((all.len() / 12).max(1)).collect();
    v.extend(all.last());
    v.extend([0, 2, 5_000_000]);
    v.sort();
    v.dedup();
    v
}
impl Suite for M {
    fn run(&self, case: &[Op], _: Option<&dyn Fn(u128) -> bool>) -> R {
        let at = case.iter().position(|o| code(*o) >= OPS).unwrap_or(case.len());
        let (base, rest) = case.split_at(at);
        self.all(base, rest, &mut vec![])
    }
    fn show_case(&self, case: &[Op]) -> String {
        case.iter().map(|o| if code(*o) >= OPS { show2(*o) } else { show_op(*o) }).collect::<Vec<_>>().join(" ")
    }
}
fn show2(o: Op) -> String {
    let a = arg(o);
    match code(o) {
        L_ORDER => format!("MISLED[keys change to order {a}]"),
        L_SEQ => format!("MISLED[bulk_load({:?})]", (0..a >> 20).map(|i| a >> (2 * i) & 3).collect::<Vec<_>>()),
        L_PAT => format!("MISLED[bulk_load({} items, pattern {})]", a / 8, a % 8),
        _ => format!("MISLED[{}]", show1(o)),
    }
}

// ---------------------------------------------------------------------------------------------
// groups that are not monotone in key order

thread_local! {
    static GROUPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static TURN: Cell<u32> = const { Cell::new(0) };
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct G(Box<u32>);
impl FromRef<TK> for G {
    fn from_ref(k: &TK) -> G {
        GROUPS.with(|g| {
            let g = g.borrow();
            if g.is_empty() {
                // never the same twice
                let t = TURN.with(|t| t.replace(t.get() + 1));
                return G(Box::new(t % 3));
            }
            G(Box::new(g[k.ix() as usize % g.len()]))
        })
    }
}
/// the layout is the first operation: one base-3 digit per key
const LAYOUT: u8 = 103;
struct Groups {
    dom: u32,
}
impl Groups {
    fn once(&self, case: &[Op]) -> R {
        ledger_reset();
        let (lay, rest) = case.split_first().expect("layout");
        let a = arg(*lay);
        // all keys in one group while the history is run from which the layouts start
        GROUPS.with(|g| *g.borrow_mut() = if a >> 16 == 0 { vec![] } else { (0..a >> 16).map(|i| (a & 0xffff) / 3u32.pow(i) % 3).collect() });
        TURN.with(|t| t.set(0));
        let mut t: Tree<TK, TV, GroupCount<G>> = new_tree();
        let mut held = vec![];
        let mut c = 0;
        for &o in rest {
            free(|| match code(o) {
                INS => {
                    c += 1;
                    t.insert(TK::new(arg(o)), TV::mk(c));
                }
                DEL => {
                    t.remove(&TK::new(arg(o)));
                }
                BULK => {
                    let (f, n) = spaced(arg(o));
                    let d = (0..n).map(|i| (TK::new(key_of(f, i)), TV::mk(i as u32))).collect();
                    t = Tree::bulk_load(d);
                }
                _ => t.clear(),
            });
            ledger_err()?;
        }
        for round in 0..2 {
            for g in 0..4 {
                for i in (0..self.dom as usize + 1).chain([usize::MAX]) {
                    free(|| {
                        t.get_by_augmentation((G(Box::new(g)), i)).map(|(k, v)| (k.ix(), v.ix()));
                    });
                    free(|| {
                        t.get_mut_by_augmentation((G(Box::new(g)), i)).map(|v| v.ix());
                    });
                }
                free(|| {
                    t.descend_visit(ExtractGroupSize::new(G(Box::new(g))));
                });
            }
            for k in 0..self.dom {
                free(|| {
                    let _ = t.rank_by_augmentation::<Option<(G, usize)>>(&TK::new(k));
                });
            }
            free(|| {
                t.root_augmentation().max_group().map(|g| *g.0 .0);
                t.root_augmentation().group_count();
            });
            ledger_err()?;
            if round == 0 {
                for g in 0..3 {
                    for i in [2, 0, 0] {
                        let r = catch_unwind(AssertUnwindSafe(|| t.remove_by_augmentation((G(Box::new(g)), i))));
                        held.extend(r.ok().flatten());
                        ledger_err()?;
                    }
                }
            }
        }
        for (k, v) in &held {
            (k.ix(), v.ix());
        }
        free(|| {
            t.iter().for_each(|(k, v)| {
                (k.ix(), v.ix());
            })
        });
        free(move || drop(t));
        free(move || drop(held));
        ledger_err()
    }
}
impl Suite for Groups {
    fn run(&self, case: &[Op], _: Option<&dyn Fn(u128) -> bool>) -> R {
        alloc::scope_begin();
        let r = guarded(|| self.once(case)).and_then(|r| r);
        ledger_reset();
        GROUPS.with(|g| *g.borrow_mut() = vec![]);
        LAST_PANIC_LOC.with(|l| *l.borrow_mut() = String::new());
        unsafe { alloc::scope_end(r.is_ok()) };
        r
    }
    fn show_case(&self, case: &[Op]) -> String {
        let a = arg(case[0]);
        let g: Vec<u32> = (0..a >> 16).map(|i| (a & 0xffff) / 3u32.pow(i) % 3).collect();
        let g = if g.is_empty() { "MISLED[groups differ at every call]".into() } else { format!("MISLED[groups of the keys in order {g:?}]") };
        format!("{g} {}", case[1..].iter().map(|o| show_op(*o)).collect::<Vec<_>>().join(" "))
    }
}

fn mutations(d: u32) -> Vec<Op> {
    let mut v: Vec<Op> = (0..d).flat_map(|k| [op(P_INS, k), op(P_DEL, k)]).collect();
    v.extend([op(P_RBA, 0), op(P_RBA, d - 1), op(P_CLONEOVER, 0), op(P_GET, d / 2)]);
    v
}
fn big(n: usize, t: bool) -> Vec<Vec<Op>> {
    let sz: Vec<usize> = if n <= 8 {
        (0..=if t { 120 } else { 44 }).collect()
    } else {
        vec![1, 63, 64, 65, 66, 96, 97, 128, 129, 130, 193]
    };
    let mut v = vec![];
    for s in sz {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for shape in [vec![base], vec![base, op(DELODD, 0)], vec![base, op(DELMID, s as u32 / 2)]] {
                let mut tails = vec![op(P_RBA, s as u32 / 2), op(P_RBA, 0), op(P_GBA, s as u32 / 2), op(P_GMBA, s as u32 / 3), op(P_CURSOR, s as u32)];
                for k in [0, 1, 2, s as u32 / 2 * 2, s as u32 | 1, 2 * s as u32, (2 * s as u32).saturating_sub(1)] {
                    tails.extend([op(P_INS, k), op(P_DEL, k)]);
                }
                if s < 80 {
                    tails.extend([op(P_CLONEOVER, 0), op(P_CFIRST, 0)]);
                }
                for o in tails {
                    let mut c = shape.clone();
                    c.push(o);
                    v.push(c);
                }
            }
        }
    }
    v
}
/// changed orders and unsorted bulk loads over trees of many sizes
fn big_orders(n: usize, t: bool) -> Vec<Vec<Op>> {
    let sz: Vec<usize> = if n <= 8 { (0..=if t { 300 } else { 120 }).collect() } else { interesting_sizes(n, if t { n * (n + 2) } else { 6 * n }) };
    let mut v = vec![];
    for s in sz {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for shape in [vec![base], vec![base, op(DELODD, 0)], vec![base, op(DELMID, s as u32 / 2)]] {
                for r in 1..ORDERS as u32 {
                    let mut c = shape.clone();
                    c.push(op(L_ORDER, r));
                    c.push(op(P_RETAIN, 12));
                    c.push(op(P_DRAIN, s.min(60) as u32));
                    v.push(c);
                    let mut c = shape.clone();
                    c.push(op(L_ORDER, r));
                    c.push(op(P_DRAIN, s as u32 / 3));
                    c.push(op(P_RETAIN, 40));
                    v.push(c);
                }
            }
        }
        for p in 0..8 {
            for tail in [vec![], vec![op(P_DRAIN, s as u32)], vec![op(P_RETAIN, 2 * s as u32)]] {
                let mut c = vec![op(L_PAT, 8 * s as u32 + p)];
                c.extend(tail);
                v.push(c);
            }
        }
    }
    v
}
fn product(bases: &[Vec<Op>], tails: &[Vec<Op>]) -> Vec<Vec<Op>> {
    bases.iter().flat_map(|b| tails.iter().map(|t| b.iter().chain(t).copied().collect())).collect()
}
fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = if t { dom_for(n, 1) } else { dom_for(n, 0) };
        v.push(entry("one-lie", M { dom: d, lies: 1 }, move |cx| Space::Cases {
            list: product(&reach(cx, d, 200_000), &last_ops(d, true).into_iter().map(|o| vec![o]).collect::<Vec<_>>()),
            what: "every reachable tree x every operation, one execution per wrong answer of every call into user code",
        }));
        let d2 = dom_for(n, 0);
        v.push(entry("two-lies", M { dom: d2, lies: if t { 3 } else { 2 } }, move |cx| {
            let w: Vec<Vec<Op>> = mutations(d2).iter().map(|o| vec![*o]).collect();
            Space::Cases { list: product(&reach(cx, d2, 200_000), &w), what: "every reachable small tree x every mutation, one execution per pair of wrong answers" }
        }));
        let d2 = if t { 6 } else { 5 };
        v.push(entry("two-lies-words", M { dom: d2, lies: 2 }, move |cx| {
            let m = mutations(d2);
            let w: Vec<Vec<Op>> = m.iter().flat_map(|a| m.iter().map(move |b| vec![*a, *b])).collect();
            Space::Cases { list: product(&reach(cx, d2, 200_000), &w), what: "every reachable small tree x every pair of mutations, one execution per pair of wrong answers" }
        }));
        let d3 = if t { 6 } else { 5 };
        v.push(entry("orders", M { dom: d3, lies: 0 }, move |cx| {
            let m = mutations(d3);
            let mut w = vec![];
            for r in 1..ORDERS as u32 {
                for a in &m {
                    for b in &m {
                        if t {
                            w.extend(m.iter().map(|c| vec![op(L_ORDER, r), *a, *b, *c]));
                        } else {
                            w.push(vec![op(L_ORDER, r), *a, *b]);
                        }
                    }
                }
            }
            Space::Cases { list: product(&reach(cx, d3, 200_000), &w), what: "every reachable small tree x every change of the keys' order x every word of mutations" }
        }));
        v.push(entry("unsorted", M { dom: 6, lies: 0 }, move |_| {
            let mut l = vec![];
            for len in 0..=if t { 9u32 } else { 7 } {
                for s in 0..4u32.pow(len) {
                    l.push(vec![op(L_SEQ, len << 20 | s)]);
                }
            }
            Space::Cases { list: l, what: "bulk_load of every sequence over four keys" }
        }));
        let gd = if t { 9 } else { 7 };
        v.push(entry("groups", Groups { dom: gd }, move |_| {
            let mut l = vec![];
            let tails: Vec<Vec<Op>> = vec![
                vec![op(BULK, sized(0, gd as usize))],
                (0..gd).map(|k| op(INS, k)).collect(),
                (0..gd).rev().map(|k| op(INS, k)).chain([op(DEL, 2), op(DEL, 3)]).collect(),
                vec![op(BULK, sized(0, 3 * gd as usize)), op(DEL, 1), op(DEL, 5)],
                vec![op(BULK, sized(0, 3 * gd as usize)), op(DEL, 9), op(DEL, 10), op(DEL, 11), op(INS, 10), op(DEL, 4), op(DEL, 5)],
            ];
            let mut lays = vec![op(LAYOUT, 0)];
            lays.extend((0..3u32.pow(gd)).map(|x| op(LAYOUT, gd << 16 | x)));
            for lay in lays {
                for t in &tails {
                    let mut c = vec![lay];
                    c.extend(t);
                    l.push(c);
                }
            }
            Space::Cases { list: l, what: "every assignment of three groups to the keys, and groups that change at every call" }
        }));
    }
    v.push(entry("big", M { dom: 0, lies: 1 }, move |_| Space::Cases { list: big(n, t), what: "builder families x operations, one execution per wrong answer" }));
    v.push(entry("big-orders", M { dom: 0, lies: 0 }, move |_| Space::Cases { list: big_orders(n, t), what: "builder families x changed orders x drains and refills; unsorted bulk loads of many sizes" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    let _: Option<BTreeMap<u32, u32>> = None;
    fn _search<A: SearchAugmentation<TK, TV>>() {}
    sweep_mc::cli::main(&PLAN)
}
