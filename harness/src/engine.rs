//! The explorers. A case is a word of operations, always executed from scratch on the real
//! code, so exploration needs no snapshotting of the container under test.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type Op = u32;
pub const fn op(code: u8, arg: u32) -> Op {
    ((code as u32) << 24) | arg
}
pub const fn code(o: Op) -> u8 {
    (o >> 24) as u8
}
pub const fn arg(o: Op) -> u32 {
    o & 0xff_ffff
}

pub type R = Result<(), String>;

/// A closed system: real container + reference + harness-owned auxiliaries.
pub trait Machine: Sync {
    type W;
    fn new(&self) -> Self::W;
    /// run one operation on the real code and the reference, compare what it returned
    fn step(&self, w: &mut Self::W, o: Op) -> R;
    /// observable canonical form (must not disturb the state)
    fn canon(&self, w: &Self::W, out: &mut Vec<u8>);
    /// full oracle of a state; may consume it
    fn check(&self, w: Self::W) -> R;
    fn show(&self, o: Op) -> String;
}

pub trait Suite: Sync {
    fn run(&self, case: &[Op], probe: Option<&dyn Fn(u128) -> bool>) -> R;
    fn show_case(&self, case: &[Op]) -> String;
}

fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

thread_local! { pub static LAST_PANIC_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// A panic the harness injects itself (C18); its message must not be treated as a failure
pub struct Injected;

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        format!("panic: {} at {}", payload(p), LAST_PANIC_LOC.with(|l| l.borrow().clone()))
    })
}

impl<M: Machine> Suite for M {
    fn run(&self, case: &[Op], probe: Option<&dyn Fn(u128) -> bool>) -> R {
        use std::mem::ManuallyDrop;
        // on a failure the container may be corrupt: it is leaked, not dropped
        let mut w = ManuallyDrop::new(guarded(|| self.new())?);
        for (i, &o) in case.iter().enumerate() {
            guarded(|| self.step(&mut w, o))
                .and_then(|r| r)
                .map_err(|e| format!("step {} ({}): {}", i + 1, self.show(o), e))?;
        }
        let new = match probe {
            None => true,
            Some(p) => {
                let h = {
                    let mut b = Vec::with_capacity(64);
                    guarded(|| self.canon(&w, &mut b)).map_err(|e| format!("observing state: {e}"))?;
                    hash128(&b)
                };
                crate::alloc::exempt(|| p(h))
            }
        };
        if new {
            let w = ManuallyDrop::into_inner(w);
            guarded(move || self.check(w)).and_then(|r| r).map_err(|e| format!("final state: {e}"))?;
        } else {
            let w = ManuallyDrop::into_inner(w);
            guarded(move || drop(w)).map_err(|e| format!("dropping: {e}"))?;
        }
        Ok(())
    }
    fn show_case(&self, case: &[Op]) -> String {
        case.iter().map(|o| self.show(*o)).collect::<Vec<_>>().join(" ")
    }
}

pub fn hash128(b: &[u8]) -> u128 {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut c: u64 = 0x9ae16a3b2f90404f ^ b.len() as u64;
    for &x in b {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        a ^= a >> 29;
        c = (c.rotate_left(7) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
        c ^= c >> 32;
    }
    ((a as u128) << 64) | c as u128
}

#[derive(Clone, Default, Debug)]
pub struct Stat {
    pub suite: String,
    pub kind: String,
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub depth: usize,
    pub complete: bool,
    pub bound: String,
    pub wall: f64,
    pub samples: Vec<String>,
}

pub struct Fail {
    pub suite: String,
    pub case: Vec<Op>,
    pub msg: String,
    pub shown: String,
}

/// Per-property counters a machine can bump to report what its inner enumerations did
pub static EXTRA: AtomicU64 = AtomicU64::new(0);
pub fn bump(n: u64) {
    EXTRA.fetch_add(n, Relaxed);
}

pub struct Ctx {
    pub threads: usize,
    pub deadline: Instant,
    pub stats: Mutex<Vec<Stat>>,
    pub fail: Mutex<Option<Fail>>,
    pub stop: AtomicBool,
    pub only: Option<String>,
    slots: crate::slots::Slots,
}

impl Ctx {
    pub fn new(slots: crate::slots::Slots, only: Option<String>, budget: f64) -> Ctx {
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        Ctx {
            threads,
            deadline: Instant::now() + std::time::Duration::from_secs_f64(budget),
            stats: Mutex::new(vec![]),
            fail: Mutex::new(None),
            stop: AtomicBool::new(false),
            only,
            slots,
        }
    }
    pub fn peek(&self, w: usize) -> (u64, u64) {
        self.slots.peek(w)
    }
    pub fn skip(&self, name: &str) -> bool {
        self.stop.load(Relaxed) || self.only.as_ref().map(|o| o != name && !name.starts_with("reach-")).unwrap_or(false)
    }
    fn report(&self, s: &dyn Suite, name: &str, case: &[Op], msg: String) {
        let mut f = self.fail.lock().unwrap();
        let better = match &*f {
            None => true,
            Some(o) => case.len() < o.case.len(),
        };
        if better {
            *f = Some(Fail { suite: name.into(), case: case.to_vec(), msg, shown: s.show_case(case) });
        }
        self.stop.store(true, SeqCst);
    }
    fn exec(&self, w: usize, s: &dyn Suite, name: &str, case: &[Op], probe: Option<&dyn Fn(u128) -> bool>) -> bool {
        self.slots.begin(w, name, case);
        let r = s.run(case, probe);
        self.slots.end(w);
        match r {
            Ok(()) => true,
            Err(e) => {
                self.report(s, name, case, e);
                false
            }
        }
    }

    /// Breadth-first search over canonical states.
    pub fn bfs(&self, name: &str, s: &dyn Suite, roots: &[Vec<Op>], alphabet: &[Op], max_depth: usize, max_states: usize) -> Vec<Vec<Op>> {
        self.bfs_f(name, s, roots, &|_| alphabet.to_vec(), max_depth, max_states)
    }

    pub fn bfs_f(
        &self,
        name: &str,
        s: &dyn Suite,
        roots: &[Vec<Op>],
        alphabet: &(dyn Fn(&[Op]) -> Vec<Op> + Sync),
        max_depth: usize,
        max_states: usize,
    ) -> Vec<Vec<Op>> {
        if self.skip(name) {
            return vec![];
        }
        let t0 = Instant::now();
        const SH: usize = 64;
        let visited: Vec<Mutex<HashSet<u128>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
        let count = AtomicUsize::new(0);
        let trans = AtomicU64::new(0);
        let execs = AtomicU64::new(0);
        let probe = |h: u128| -> bool {
            let fresh = visited[(h as usize) % SH].lock().unwrap().insert(h);
            if fresh {
                count.fetch_add(1, Relaxed);
            }
            fresh
        };
        let mut all: Vec<Vec<Op>> = vec![];
        let mut frontier: Vec<Vec<Op>> = vec![];
        for r in roots {
            let isnew = AtomicBool::new(false);
            let p = |h: u128| {
                let n = probe(h);
                isnew.store(n, Relaxed);
                n
            };
            execs.fetch_add(1, Relaxed);
            if !self.exec(0, s, name, r, Some(&p)) {
                return vec![];
            }
            if isnew.load(Relaxed) {
                frontier.push(r.clone());
            }
        }
        let mut depth = 0;
        let mut capped = false;
        let mut timed = false;
        let mut samples = vec![];
        while !frontier.is_empty() && depth < max_depth {
            if self.stop.load(Relaxed) {
                break;
            }
            if count.load(Relaxed) >= max_states {
                capped = true;
                break;
            }
            if Instant::now() > self.deadline {
                timed = true;
                break;
            }
            depth += 1;
            let next: Mutex<Vec<(usize, usize, Vec<Op>)>> = Mutex::new(vec![]);
            let at = AtomicUsize::new(0);
            std::thread::scope(|sc| {
                for wk in 0..self.threads {
                    let (next, at, frontier, trans, execs, probe) = (&next, &at, &frontier, &trans, &execs, &probe);
                    sc.spawn(move || {
                        let mut mine = vec![];
                        loop {
                            let i = at.fetch_add(1, Relaxed);
                            if i >= frontier.len() || self.stop.load(Relaxed) {
                                break;
                            }
                            let base = &frontier[i];
                            for (j, o) in alphabet(base).into_iter().enumerate() {
                                let mut c = base.clone();
                                c.push(o);
                                let isnew = AtomicBool::new(false);
                                let p = |h: u128| {
                                    let n = probe(h);
                                    isnew.store(n, Relaxed);
                                    n
                                };
                                trans.fetch_add(1, Relaxed);
                                execs.fetch_add(1, Relaxed);
                                if !self.exec(wk, s, name, &c, Some(&p)) {
                                    return;
                                }
                                if isnew.load(Relaxed) {
                                    mine.push((i, j, c));
                                }
                            }
                        }
                        next.lock().unwrap().append(&mut mine);
                    });
                }
            });
            if samples.len() < 3 && depth >= 3 && frontier.len() > 1 {
                samples.push(s.show_case(&frontier[frontier.len() / 2]));
            }
            all.append(&mut frontier);
            let mut n = next.into_inner().unwrap();
            n.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
            frontier = n.into_iter().map(|x| x.2).collect();
        }
        let complete = frontier.is_empty() && !self.stop.load(Relaxed);
        if depth <= 4 {
            if let Some(l) = all.last() {
                samples.push(s.show_case(l));
            }
        }
        all.append(&mut frontier);
        self.stats.lock().unwrap().push(Stat {
            suite: name.into(),
            kind: "bfs".into(),
            states: count.load(Relaxed) as u64,
            transitions: trans.load(Relaxed),
            executions: execs.load(Relaxed),
            depth,
            complete,
            bound: if complete {
                "all reachable states of the alphabet".into()
            } else if capped {
                format!("all states up to depth {depth} (stopped at state cap {max_states})")
            } else if timed {
                format!("all states up to depth {depth} (stopped at the time budget)")
            } else {
                format!("all states up to depth {depth}")
            },
            wall: t0.elapsed().as_secs_f64(),
            samples,
        });
        all
    }

    /// Every word of length 1..=m over the alphabet after every base history; no merging.
    pub fn words(&self, name: &str, s: &dyn Suite, bases: &[Vec<Op>], alphabet: &[Op], m: usize) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let at = AtomicUsize::new(0);
        let trans = AtomicU64::new(0);
        // work items: base x first letter
        let items = bases.len() * alphabet.len().max(1);
        let timed = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for wk in 0..self.threads {
                let (at, trans, timed) = (&at, &trans, &timed);
                sc.spawn(move || loop {
                    let i = at.fetch_add(1, Relaxed);
                    if i >= items || self.stop.load(Relaxed) {
                        break;
                    }
                    if Instant::now() > self.deadline {
                        timed.store(true, Relaxed);
                        break;
                    }
                    let mut c = bases[i / alphabet.len()].clone();
                    c.push(alphabet[i % alphabet.len()]);
                    let mut n = 0u64;
                    self.rec(wk, s, name, &mut c, alphabet, m - 1, &mut n);
                    trans.fetch_add(n, Relaxed);
                });
            }
        });
        let t = trans.load(Relaxed);
        let complete = !timed.load(Relaxed) && !self.stop.load(Relaxed);
        let mut samples = vec![];
        if let Some(b) = bases.last() {
            let mut c = b.clone();
            for j in 0..m {
                c.push(alphabet[(j * 7 + 3) % alphabet.len()]);
            }
            samples.push(s.show_case(&c));
        }
        self.stats.lock().unwrap().push(Stat {
            suite: name.into(),
            kind: "words".into(),
            states: t + bases.len() as u64,
            transitions: t,
            executions: t,
            depth: m,
            complete,
            bound: format!("all words of length <= {m} over {} operations after {} base histories, unmerged{}", alphabet.len(), bases.len(), if complete { "" } else { " (stopped at the time budget)" }),
            wall: t0.elapsed().as_secs_f64(),
            samples,
        });
    }
    fn rec(&self, wk: usize, s: &dyn Suite, name: &str, c: &mut Vec<Op>, al: &[Op], m: usize, n: &mut u64) {
        *n += 1;
        if self.stop.load(Relaxed) || !self.exec(wk, s, name, c, None) {
            return;
        }
        if m == 0 {
            return;
        }
        for &o in al {
            c.push(o);
            self.rec(wk, s, name, c, al, m - 1, n);
            c.pop();
            if self.stop.load(Relaxed) {
                return;
            }
        }
    }

    /// Every case of an explicit list.
    pub fn cases(&self, name: &str, s: &dyn Suite, list: &[Vec<Op>], what: &str) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let at = AtomicUsize::new(0);
        let trans = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for wk in 0..self.threads {
                let (at, trans, done) = (&at, &trans, &done);
                sc.spawn(move || loop {
                    let i = at.fetch_add(1, Relaxed);
                    if i >= list.len() || self.stop.load(Relaxed) || Instant::now() > self.deadline {
                        break;
                    }
                    trans.fetch_add(list[i].len() as u64, Relaxed);
                    self.exec(wk, s, name, &list[i], None);
                    done.fetch_add(1, Relaxed);
                });
            }
        });
        let d = done.load(Relaxed);
        let complete = d as usize == list.len() && !self.stop.load(Relaxed);
        let mut samples = vec![];
        for i in [list.len() / 3, list.len().saturating_sub(1)] {
            if i < list.len() {
                samples.push(s.show_case(&list[i]));
            }
        }
        self.stats.lock().unwrap().push(Stat {
            suite: name.into(),
            kind: "cases".into(),
            states: d,
            transitions: trans.load(Relaxed),
            executions: d,
            depth: list.iter().map(|l| l.len()).max().unwrap_or(0),
            complete,
            bound: format!("{what}: {d} of {} cases", list.len()),
            wall: t0.elapsed().as_secs_f64(),
            samples,
        });
    }
}
