//! C18: whichever call into user code panics, nothing is dropped twice, read after its end or
//! read uninitialised, and the container stays usable. Every history is run once per call into
//! user code its last operation makes, with that call panicking.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sweep_bptree::BPlusTreeSet;
use sweep_mc::act::*;
use sweep_mc::alloc;
use sweep_mc::engine::*;
use sweep_mc::ensure;
use sweep_mc::keys::*;
use sweep_mc::suite::*;
use sweep_mc::tree::*;

pub struct M {
    /// operations tried, and made to panic, after the first panic
    second: fn(u32) -> Vec<Op>,
    dom: u32,
}
impl M {
    fn base(&self, ops: &[Op]) -> Result<St, String> {
        let mut w: TW<TK, TV, TA> = TW::new();
        for (i, &o) in ops.iter().enumerate() {
            guarded(|| w.step(o).expect("op")).and_then(|r| r).map_err(|e| format!("step {}: {e}", i + 1))?;
        }
        let TW { t, m, clock, .. } = w;
        let mut s = [BPlusTreeSet::new(), BPlusTreeSet::new()];
        for (i, k) in m.keys().enumerate() {
            if i % 3 != 0 {
                s[0].insert(TK::new(*k));
            }
            if i % 3 != 1 {
                s[1].insert(TK::new(*k));
            }
        }
        Ok(St { t, held: vec![], s, clock })
    }
    /// the container after a caught panic: everything it still shows must be alive, and every
    /// operation must work
    fn aftermath(&self, w: &mut St, ok: &BTreeMap<u32, u32>, made: std::ops::RangeInclusive<u32>, keys: &[u32]) -> R {
        let fresh = 1_000_000;
        let seen = |w: &St| -> R {
            let fwd: Vec<(u32, u32)> = w.t.iter().map(|(k, v)| (k.ix(), v.ix())).collect();
            let mut bwd: Vec<(u32, u32)> = w.t.iter().rev().map(|(k, v)| (k.ix(), v.ix())).collect();
            bwd.reverse();
            ledger_err()?;
            for e in fwd.iter().chain(&bwd) {
                let k = ok.get(&e.0) == Some(&e.1) || made.contains(&e.1) || e.1 >= fresh;
                ensure!(k, "after the panic the container shows an entry {e:?} it was never given");
            }
            Ok(())
        };
        seen(w)?;
        for &k in keys {
            let q = TK::new(k);
            if let Some(v) = w.t.get(&q).map(|v| v.ix()) {
                let x = ok.get(&k) == Some(&v) || made.contains(&v);
                ensure!(x, "after the panic get({k}) shows value {v}, never given to it");
            }
            w.t.get_mut(&q).map(|v| v.ix());
            w.t.get_cursor(&q).map(|(c, _)| (c.prev(&w.t), c.next(&w.t)));
            let _ = w.t.rank_by_augmentation::<usize>(&q);
        }
        w.t.first().map(|(k, v)| (k.ix(), v.ix()));
        w.t.last().map(|(k, v)| (k.ix(), v.ix()));
        w.t.root_augmentation().get();
        let _ = w.t.get_by_augmentation(1);
        ledger_err().map_err(|e| format!("lookups after the panic: {e}"))?;
        for s in &mut w.s {
            s.iter().for_each(|k| {
                k.ix();
            });
        }
        ledger_err().map_err(|e| format!("iterating a set after the panic: {e}"))?;
        {
            let c = w.t.clone();
            read(&c);
            drop(c);
        }
        ledger_err().map_err(|e| format!("cloning after the panic: {e}"))?;
        for (i, &k) in keys.iter().enumerate() {
            w.t.insert(TK::new(k), TV::mk(fresh + i as u32));
            let g = w.t.get(&TK::new(k)).map(|v| v.ix());
            ensure!(g == Some(fresh + i as u32), "after the panic get({k}) gives {g:?} right after insert({k}, {})", fresh + i as u32);
        }
        ledger_err().map_err(|e| format!("inserting after the panic: {e}"))?;
        seen(w)?;
        for &k in keys.iter().rev().step_by(2) {
            w.t.remove(&TK::new(k));
            ensure!(w.t.get(&TK::new(k)).is_none(), "after the panic get({k}) gives a value right after remove({k})");
        }
        let _ = w.t.remove_by_augmentation(0);
        ledger_err().map_err(|e| format!("removing after the panic: {e}"))?;
        seen(w)?;
        Ok(())
    }
    fn end(&self, w: St) -> R {
        w.held.iter().for_each(|(k, v)| {
            k.ix();
            v.ix();
        });
        ledger_err().map_err(|e| format!("reading what was handed out: {e}"))?;
        drop(w);
        ledger_err().map_err(|e| format!("dropping everything after the panic: {e}"))
    }
    fn allowed(&self, w: &St, ok: &mut BTreeMap<u32, u32>) {
        for (k, v) in w.t.iter() {
            ok.insert(k.ix(), v.ix());
        }
    }
    /// one execution: base, op with the j-th call panicking, optionally a second one
    fn once(&self, base: &[Op], o: Op, j: Option<u64>, then: Option<(Op, Option<u64>)>) -> Result<(u64, u64), String> {
        ledger_reset();
        // everything allocated below and leaked by the panic is reclaimed in run()
        let mut w = std::mem::ManuallyDrop::new(self.base(base)?);
        let c0 = w.clock;
        let mut ok: BTreeMap<u32, u32> = BTreeMap::new();
        self.allowed(&w, &mut ok);
        let mut keys: Vec<u32> = if self.dom > 0 { (0..self.dom).collect() } else { spread(&ok, arg(o)) };
        keys.dedup();
        let mut counts = (0, 0);
        for (n, (o, j)) in [Some((o, j)), then].into_iter().flatten().enumerate() {
            arm(j);
            let r = catch_unwind(AssertUnwindSafe(|| act(&mut w, o)));
            let (calls, fired, at) = disarm();
            if n == 0 {
                counts.0 = calls
            } else {
                counts.1 = calls
            }
            let what = if fired { format!("after {at} (call {}) panicked in {}", j.unwrap_or(0), showp(o)) } else { format!("in {} without a panic", showp(o)) };
            match r {
                Ok(()) if fired => return Err(format!("{what}: the panic was swallowed")),
                Ok(()) => (),
                Err(p) if p.is::<Injected>() && fired => (),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    return Err(format!("{what}: panic: {m}"));
                }
            }
            ledger_err().map_err(|e| format!("{what}: {e}"))?;
        }
        let made = c0 + 1..=w.clock;
        let what = || format!("{} call {:?}{}", showp(o), j, then.map(|(o, j)| format!(" then {} call {:?}", showp(o), j)).unwrap_or_default());
        guarded(|| self.aftermath(&mut w, &ok, made, &keys)).and_then(|r| r).map_err(|e| format!("{}: {e}", what()))?;
        let w = std::mem::ManuallyDrop::into_inner(w);
        guarded(move || self.end(w)).and_then(|r| r).map_err(|e| format!("{}: {e}", what()))?;
        Ok(counts)
    }
    fn scoped(&self, base: &[Op], o: Op, j: Option<u64>, then: Option<(Op, Option<u64>)>) -> Result<(u64, u64), String> {
        alloc::scope_begin();
        let r = self.once(base, o, j, then);
        ledger_reset();
        LAST_PANIC_LOC.with(|l| *l.borrow_mut() = String::new());
        // safety: nothing of this execution is referred to any more, unless it failed
        unsafe { alloc::scope_end(r.is_ok()) };
        r
    }
}
fn spread(ok: &BTreeMap<u32, u32>, a: u32) -> Vec<u32> {
    let all: Vec<u32> = ok.keys().copied().collect();
    let mut v: Vec<u32> = all.iter().copied().step_by((all.len() / 12).max(1)).collect();
    v.extend(all.last());
    v.extend([0, a, a + 1, a.saturating_sub(1)]);
    v.sort();
    v.dedup();
    v
}

impl Suite for M {
    fn run(&self, case: &[Op], _: Option<&dyn Fn(u128) -> bool>) -> R {
        let (base, last) = match case.split_last() {
            Some((l, b)) if code(*l) >= OPS => (b, *l),
            _ => (case, op(P_DROP, 0)),
        };
        let (c, _) = self.scoped(base, last, None, None)?;
        bump(c + 1);
        for j in 0..c {
            self.scoped(base, last, Some(j), None)?;
        }
        for o2 in (self.second)(self.dom) {
            for j in 0..c {
                let (_, c2) = self.scoped(base, last, Some(j), Some((o2, None)))?;
                bump(c2 + 1);
                for j2 in 0..c2 {
                    self.scoped(base, last, Some(j), Some((o2, Some(j2))))?;
                }
            }
        }
        Ok(())
    }
    fn show_case(&self, case: &[Op]) -> String {
        case.iter().map(|o| if code(*o) >= OPS { showp(*o) } else { show_op(*o) }).collect::<Vec<_>>().join(" ")
    }
}
fn showp(o: Op) -> String {
    format!("PANICKING[{}]", show1(o))
}
fn no_second(_: u32) -> Vec<Op> {
    vec![]
}
fn seconds(dom: u32) -> Vec<Op> {
    let mut v = vec![op(P_INS, dom / 2), op(P_DEL, dom / 2), op(P_INS, dom), op(P_RBA, 0), op(P_CLONEOVER, 0), op(P_INTO, 65), op(P_DROP, 0)];
    v.push(op(P_CLEAR, 0));
    v
}
/// larger trees: every kind of structural change, with every call of it panicking
fn big(n: usize, t: bool) -> Vec<Vec<Op>> {
    let sz: Vec<usize> = if n <= 8 {
        let m = (n + 1) * (n + 1) * (n + 1) + 3;
        (0..=m.min(if t { 200 } else { 45 })).collect()
    } else {
        interesting_sizes(n, if t { 2 * n * (n + 1) + 2 } else { 3 * n }).into_iter().filter(|s| t || *s < 200).collect()
    };
    let mut v = vec![];
    for s in sz {
        for b in BUILDERS {
            let base = op(b, sized(1, s));
            for shape in [vec![base], vec![base, op(DELODD, 0)], vec![base, op(DELMID, s as u32 / 2)]] {
                for k in key_list(s) {
                    let mut c = shape.clone();
                    c.push(op(P_INS, k));
                    v.push(c);
                    let mut c = shape.clone();
                    c.push(op(P_DEL, k));
                    v.push(c);
                }
                if s < 300 {
                    for o in [op(P_CLONE, 0), op(P_INTO, 64 * 3 + 2), op(P_DROP, 0), op(P_CLONEOVER, 0), op(P_RBA, s as u32 / 2), op(P_CLEAR, 0)] {
                        if n > 8 && s > 70 && !t {
                            continue;
                        }
                        let mut c = shape.clone();
                        c.push(o);
                        v.push(c);
                    }
                }
            }
        }
        if s <= 130 {
            v.push(vec![op(P_BULK, s as u32)]);
            v.push(vec![op(P_MAPIT, s as u32)]);
            v.push(vec![op(P_SETIT, s as u32)]);
        }
    }
    v
}

fn plan(n: usize, t: bool) -> Vec<Entry> {
    let mut v = vec![];
    if n <= 8 {
        let d = match (n, t) {
            (2, false) => 6,
            (2, true) => 8,
            (_, false) => 6,
            (_, true) => 9,
        };
        v.push(entry("panics", M { second: no_second, dom: d }, move |cx| Space::Cases {
            list: product(&reach(cx, d, 200_000), &last_ops(d, true)),
            what: "every reachable tree x every operation, one execution per call into user code",
        }));
        let d2 = if t { 6 } else { 4 };
        v.push(entry("panics-twice", M { second: seconds, dom: d2 }, move |cx| Space::Cases {
            list: product(&reach(cx, d2, 200_000), &last_ops(d2, false)),
            what: "every reachable small tree x every operation x every second operation, one execution per pair of calls",
        }));
    }
    v.push(entry("panics-big", M { second: no_second, dom: 0 }, move |_| Space::Cases { list: big(n, t), what: "builder families x operations, one execution per call into user code" }));
    v
}
static PLAN: List = List(plan);
fn main() {
    sweep_mc::cli::main(&PLAN)
}
