//! C06: concurrent shared readers. Scenarios of two or three threads, each a few read-only calls on
//! one shared container, run on the real code under the model-checking runtime in rt.cpp.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use sweep_bptree::augment::count::Count;
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

#[repr(C)]
#[derive(Default)]
struct RtStats {
    executions: u64,
    points: u64,
    loads: u64,
    multi: u64,
    plain: u64,
    preempt_cut: u64,
    complete: u32,
    max_trail: u32,
}
extern "C" {
    fn rt_explore(nt: i32, bound: i32, cap: u64, setup: extern "C" fn(), body: extern "C" fn(i32), check: extern "C" fn() -> i32, st: *mut RtStats) -> i32;
    fn rt_replay(nt: i32, bound: i32, ch: *const i32, n: i32, setup: extern "C" fn(), body: extern "C" fn(i32), check: extern "C" fn() -> i32) -> i32;
    fn rt_trail(out: *mut i32, max: i32) -> i32;
    fn rt_free(p: *mut u8, n: usize, a: usize) -> i32;
    fn rt_reclaim();
    fn rt_op(i: i32);
}

/// memory freed while the threads run is not reused before all of them are done, so that equal
/// addresses mean the same object
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_free(p, l.size(), l.align()) != 0 {
            return;
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;
#[no_mangle]
pub extern "C" fn rt_real_free(p: *mut u8, n: usize, a: usize) {
    unsafe { System.dealloc(p, Layout::from_size_align_unchecked(n, a)) }
}

type Tree = BPlusTree<NodeStoreVec<u32, String, Count>>;
#[derive(Clone, Debug, PartialEq)]
struct Scn {
    kind: u8, // 0 tree, 1 map, 2 set
    n: u32,
    shape: u8,
    warm: i32,
    bound: i32,
    ops: Vec<Vec<(u8, u32)>>,
}
impl Scn {
    fn show(&self) -> String {
        let o: Vec<String> = self.ops.iter().map(|t| t.iter().map(|(c, a)| format!("{}{}", *c as char, a)).collect::<Vec<_>>().join(",")).collect();
        format!("kind={} n={} shape={} warm={} bound={} ops={}", self.kind, self.n, self.shape, self.warm, self.bound, o.join("|"))
    }
    fn parse(s: &str) -> Scn {
        let g = |k: &str| s.split_whitespace().find_map(|x| x.strip_prefix(&format!("{k}="))).unwrap_or_else(|| panic!("no {k}")).to_string();
        Scn {
            kind: g("kind").parse().unwrap(),
            n: g("n").parse().unwrap(),
            shape: g("shape").parse().unwrap(),
            warm: g("warm").parse().unwrap(),
            bound: g("bound").parse().unwrap(),
            ops: g("ops").split('|').map(|t| t.split(',').filter(|x| !x.is_empty()).map(|x| (x.as_bytes()[0], x[1..].parse().unwrap())).collect()).collect(),
        }
    }
    fn human(&self) -> String {
        let nm = |(c, a): &(u8, u32)| match *c {
            b'g' => format!("get({a})"),
            b'c' => format!("get_cursor({a})+next+prev+value"),
            b'i' => "iter".into(),
            b'r' => "iter_rev".into(),
            b'k' => format!("rank({a})"),
            b'q' => format!("get_by_augmentation({a})"),
            b'f' => "first+last+len".into(),
            b'l' => "clone".into(),
            b'w' => "cursor_walk".into(),
            b'v' => "descend_visit".into(),
            b'u' => "union".into(),
            b'a' => "root_augmentation".into(),
            _ => "?".into(),
        };
        let t: Vec<String> = self.ops.iter().map(|t| t.iter().map(nm).collect::<Vec<_>>().join("; ")).collect();
        format!("{} of {} entries (history {}, last lookup {}): {}", ["tree", "map", "set"][self.kind as usize], self.n, self.shape, self.warm, t.join("  ||  "))
    }
}

enum C {
    T(Tree),
    M(BPlusTreeMap<u32, String, Count>),
    S(BPlusTreeSet<u32>, BPlusTreeSet<u32>),
}
struct Sh {
    scn: Scn,
    c: Option<C>,
    res: [Vec<Vec<u64>>; 4],
    want: Vec<Vec<Vec<u64>>>,
    post: Vec<u64>,
    msg: String,
    outcomes: std::collections::HashSet<Vec<i32>>,
}
struct G(UnsafeCell<Option<Sh>>);
unsafe impl Sync for G {}
static SH: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn sh() -> &'static mut Sh {
    unsafe { (*SH.0.get()).as_mut().unwrap() }
}

/// keys are odd; the histories leave caches that point to live, shrunk and emptied leaves
fn build(s: &Scn) -> C {
    let n = s.n;
    let key = |i: u32| 2 * i + 1;
    let val = |k: u32| format!("v{k}");
    macro_rules! fill {
        ($t:expr, $ins:expr, $del:expr, $get:expr) => {{
            match s.shape {
                0 => (0..n).for_each(|i| $ins(key(i))),
                1 => (0..n).rev().for_each(|i| $ins(key(i))),
                _ => {
                    // grow twice as large, look one up, shrink: merges leave emptied leaves behind
                    (0..2 * n).for_each(|i| $ins(key(i)));
                    if s.warm >= 0 {
                        $get(s.warm as u32);
                    }
                    if s.shape == 2 {
                        (n..2 * n).rev().for_each(|i| $del(key(i)));
                    } else {
                        (0..n).for_each(|i| $del(key(i)));
                    }
                }
            }
            if s.warm >= 0 && s.shape < 2 {
                $get(s.warm as u32);
            }
        }};
    }
    match s.kind {
        0 => {
            let mut t: Tree = BPlusTree::new(NodeStoreVec::new());
            fill!(t, |k| { t.insert(k, val(k)); }, |k: u32| { t.remove(&k); }, |k: u32| { t.get(&k); });
            C::T(t)
        }
        1 => {
            let mut t = BPlusTreeMap::new();
            fill!(t, |k| { t.insert(k, val(k)); }, |k: u32| { t.remove(&k); }, |k: u32| { t.get(&k); });
            C::M(t)
        }
        _ => {
            let mut t = BPlusTreeSet::new();
            fill!(t, |k| { t.insert(k); }, |k: u32| { t.remove(&k); }, |k: u32| { t.contains(&k); });
            let mut u = BPlusTreeSet::new();
            (0..n / 2 + 1).for_each(|i| {
                u.insert(3 * i);
            });
            u.contains(&3);
            C::S(t, u)
        }
    }
}
struct V(Vec<u64>, usize);
impl DescendVisit<u32, String, Count> for &mut V {
    type Result = u64;
    fn visit_inner(&mut self, k: &[u32], a: &[Count]) -> DescendVisitResult<u64> {
        self.0.push(k.len() as u64);
        self.0.extend(a.iter().map(|c| c.count() as u64));
        DescendVisitResult::GoDown(self.1.min(a.len() - 1))
    }
    fn visit_leaf(&mut self, k: &[u32], v: &[String]) -> Option<u64> {
        self.0.extend(k.iter().map(|k| *k as u64));
        Some(v.len() as u64)
    }
}
const NONE: u64 = u64::MAX;
fn sv(s: &str) -> u64 {
    s[1..].parse().unwrap_or(NONE - 1)
}
fn walk(t: &Tree, o: &mut Vec<u64>) {
    let mut c = t.cursor_first();
    while let Some(x) = c {
        o.push(*x.key() as u64);
        o.push(x.value(t).map(|v| sv(v)).unwrap_or(NONE));
        c = x.next(t);
    }
    let mut c = Cursor::last(t).map(|x| x.0);
    while let Some(x) = c {
        o.push(*x.key() as u64);
        c = x.prev(t);
    }
}
fn read(c: &C, (code, a): (u8, u32)) -> Vec<u64> {
    let mut o = vec![];
    match c {
        C::T(t) => match code {
            b'g' => o.push(t.get(&a).map(|v| sv(v)).unwrap_or(NONE)),
            b'c' => {
                if let Some((c, v)) = t.get_cursor(&a) {
                    o.push(v.map(|v| sv(v)).unwrap_or(NONE));
                    o.push(c.exists(t) as u64);
                    o.push(c.value(t).map(|v| sv(v)).unwrap_or(NONE));
                    o.push(c.next(t).map(|c| *c.key() as u64).unwrap_or(NONE));
                    o.push(c.prev(t).map(|c| *c.key() as u64).unwrap_or(NONE));
                }
            }
            b'i' => t.iter().for_each(|(k, v)| o.extend([*k as u64, sv(v)])),
            b'r' => t.iter().rev().for_each(|(k, v)| o.extend([*k as u64, sv(v)])),
            b'k' => o.push(match t.rank_by_augmentation::<usize>(&a) {
                Ok(r) => r as u64,
                Err(r) => 1000 + r as u64,
            }),
            b'q' => o.push(t.get_by_augmentation(a as usize).map(|(k, v)| *k as u64 * 100_000 + sv(v)).unwrap_or(NONE)),
            b'f' => {
                o.push(t.first().map(|(k, _)| *k as u64).unwrap_or(NONE));
                o.push(t.last().map(|(k, _)| *k as u64).unwrap_or(NONE));
                o.push(t.len() as u64);
                o.push(t.is_empty() as u64);
            }
            b'l' => {
                let c = t.clone();
                o.push(c.len() as u64);
                c.iter().for_each(|(k, v)| o.extend([*k as u64, sv(v)]));
                o.push(c.get(&a).map(|v| sv(v)).unwrap_or(NONE));
            }
            b'w' => walk(t, &mut o),
            b'v' => {
                let mut v = V(vec![], a as usize);
                let r = t.descend_visit(&mut v);
                o.extend(v.0);
                o.push(r.unwrap_or(NONE));
            }
            b'a' => o.push(t.root_augmentation().count() as u64),
            _ => panic!("op"),
        },
        C::M(t) => match code {
            b'g' => o.push(t.get(&a).map(|v| sv(v)).unwrap_or(NONE)),
            b'i' => t.iter().for_each(|(k, v)| o.extend([*k as u64, sv(v)])),
            b'r' => t.iter().rev().for_each(|(k, v)| o.extend([*k as u64, sv(v)])),
            b'k' => o.push(match t.rank_by_augmentation::<usize>(&a) {
                Ok(r) => r as u64,
                Err(r) => 1000 + r as u64,
            }),
            b'q' => o.push(t.get_by_augmentation(a as usize).map(|(k, v)| *k as u64 * 100_000 + sv(v)).unwrap_or(NONE)),
            b'f' => o.extend([t.len() as u64, t.is_empty() as u64]),
            b'v' => {
                let mut v = V(vec![], a as usize);
                let r = t.descend_visit(&mut v);
                o.extend(v.0);
                o.push(r.unwrap_or(NONE));
            }
            b'a' => o.push(t.root_augmentation().count() as u64),
            _ => panic!("op"),
        },
        C::S(t, u) => match code {
            b'g' => o.push(t.contains(&a) as u64 + 2 * u.contains(&a) as u64),
            b'i' => t.iter().for_each(|k| o.push(*k as u64)),
            b'r' => t.iter().rev().for_each(|k| o.push(*k as u64)),
            b'f' => o.extend([t.first().copied().unwrap_or(0) as u64, t.last().copied().unwrap_or(0) as u64, t.len() as u64]),
            b'u' => t.union(u).for_each(|k| o.push(*k as u64)),
            _ => panic!("op"),
        },
    }
    o
}
/// everything a single thread can see of the container
fn full(s: &Scn, c: &C) -> Vec<u64> {
    let mut o = read(c, (b'i', 0));
    for k in 0..4 * s.n + 3 {
        o.extend(read(c, (b'g', k)));
    }
    if let C::T(t) = c {
        walk(t, &mut o);
    }
    o
}

extern "C" fn setup() {
    let s = sh();
    unsafe { rt_reclaim() };
    s.c = None;
    s.c = Some(build(&s.scn));
    for r in &mut s.res {
        r.clear();
    }
}
extern "C" fn body(tid: i32) {
    // each thread writes its own result list only
    let s: *mut Sh = sh();
    unsafe {
        let ops: &Vec<(u8, u32)> = &(&(*s).scn.ops)[tid as usize];
        let c: &C = (*s).c.as_ref().unwrap();
        let out: *mut Vec<Vec<u64>> = (*s).res.as_mut_ptr().add(tid as usize);
        for (i, o) in ops.iter().enumerate() {
            rt_op(i as i32);
            let r = catch_unwind(AssertUnwindSafe(|| read(c, *o))).unwrap_or_else(|_| vec![NONE - 7]);
            (*out).push(r);
        }
    }
}
extern "C" fn check() -> i32 {
    let s = sh();
    for (t, w) in s.want.iter().enumerate() {
        for (i, x) in w.iter().enumerate() {
            let got = s.res[t].get(i);
            if got != Some(x) {
                s.msg = format!("thread {t}, read {} returned {:?}; alone it returns {:?}", i + 1, got.map(|g| show(g)), show(x));
                return 1;
            }
        }
    }
    // the container is as it was
    let c = s.c.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| full(&s.scn, &c)));
    if r.as_ref().ok() != Some(&s.post) {
        s.msg = "after the concurrent reads, reading the container from one thread gives other answers than before".into();
        std::mem::forget(c);
        return 1;
    }
    drop(c);
    let mut tr = [0i32; 4096];
    let n = unsafe { rt_trail(tr.as_mut_ptr(), 4096) };
    if s.outcomes.len() < 100_000 {
        s.outcomes.insert(tr[..n as usize].to_vec());
    }
    0
}
fn show(v: &[u64]) -> String {
    v.iter().take(12).map(|x| if *x == NONE { "none".to_string() } else if *x == NONE - 7 { "panic".into() } else { x.to_string() }).collect::<Vec<_>>().join(" ")
}
static OUT: Mutex<String> = Mutex::new(String::new());
fn fail_text(msg: &str) -> String {
    let mut tr = [0i32; 4096];
    let n = unsafe { rt_trail(tr.as_mut_ptr(), 4096) };
    let s = unsafe { &(*SH.0.get()).as_ref().unwrap().scn };
    format!("scenario {}\nchoices {}\nmsg {}\nhuman {}\n", s.show(), tr[..n as usize].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), msg.replace('\n', " "), s.human())
}
#[no_mangle]
pub extern "C" fn rt_dump_failure(msg: *const std::ffi::c_char) {
    let m = unsafe { std::ffi::CStr::from_ptr(msg) }.to_string_lossy().to_string();
    let f = fail_text(&m);
    println!("FAIL\n{f}");
    let o = OUT.lock().unwrap().clone();
    if !o.is_empty() {
        let _ = std::fs::write(format!("{o}.fail"), f);
    }
}

fn prepare(s: &Scn) {
    // what every read returns alone, on a container of its own
    let mut want = vec![];
    for t in &s.ops {
        want.push(t.iter().map(|o| read(&build(s), *o)).collect::<Vec<_>>());
    }
    let post = full(s, &build(s));
    unsafe {
        *SH.0.get() = Some(Sh { scn: s.clone(), c: None, res: Default::default(), want, post, msg: String::new(), outcomes: Default::default() });
    }
}

fn tuples(al: &[(u8, u32)], len: usize) -> Vec<Vec<(u8, u32)>> {
    let mut v: Vec<Vec<(u8, u32)>> = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|p| al.iter().map(move |a| { let mut q = p.clone(); q.push(*a); q }).collect::<Vec<_>>()).collect();
    }
    v
}
/// every multiset of `nt` threads drawn from the given read sequences
fn combos(v: &[Vec<(u8, u32)>], nt: usize) -> Vec<Vec<Vec<(u8, u32)>>> {
    fn go(v: &[Vec<(u8, u32)>], nt: usize, from: usize, cur: &mut Vec<Vec<(u8, u32)>>, out: &mut Vec<Vec<Vec<(u8, u32)>>>) {
        if nt == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..v.len() {
            cur.push(v[i].clone());
            go(v, nt - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut o = vec![];
    go(v, nt, 0, &mut vec![], &mut o);
    o
}
fn scenarios(cap: usize, t: bool) -> Vec<Scn> {
    let mut out = vec![];
    let c = cap as u32;
    // one leaf; three leaves; two inner levels for the small capacities
    let mut sizes = vec![c.min(3), 2 * c + 1];
    if cap <= 4 {
        sizes.push((c + 1) * (c + 1) + 1);
    }
    if t {
        sizes.push(0);
        sizes.push(c + 1);
    }
    for &n in &sizes {
        let last = 2 * n.max(1) - 1;
        for shape in 0..4u8 {
            // what the lookup cache remembers: nothing, first, middle, last leaf, or a leaf later emptied
            let mut warms = vec![-1, 1, n as i32, 2 * n as i32 - 1];
            if shape >= 2 {
                warms = vec![1, n as i32 | 1, 2 * n as i32 + 1, 4 * n as i32 - 1];
            }
            // keys in the first, a middle and the last leaf, and absent ones
            let base = if shape == 3 { 2 * n } else { 0 };
            let (k0, k1, k2) = (base + 1, base + (n | 1), base + last);
            let gets = vec![(b'g', k0), (b'g', k2), (b'g', k1 + 1)];
            let others: Vec<(u8, u32)> = vec![(b'c', k1), (b'c', k2 + 1), (b'i', 0), (b'r', 0), (b'k', k1), (b'q', n / 2), (b'f', 0), (b'l', k2), (b'w', 0), (b'v', 1), (b'a', 0)];
            let mut all = gets.clone();
            all.push((b'g', 0));
            all.extend(&others);
            if n > 40 && !t {
                all.retain(|o| !b"wl".contains(&o.0));
            }
            for (wi, &warm) in warms.iter().enumerate() {
                let mut add = |kind: u8, nt: usize, v: &[Vec<(u8, u32)>], bound: i32| {
                    for ops in combos(v, nt) {
                        // long walks: bounded preemptions
                        let w = ops.iter().flatten().filter(|o| o.0 == b'w').count();
                        let bound = match w {
                            0 => bound,
                            _ if n <= 12 => bound,
                            1 => if t { 3 } else { 2 },
                            _ => if t { 2 } else { 1 },
                        };
                        out.push(Scn { kind, n, shape, warm, bound, ops });
                    }
                };
                // 2 threads x 1 read, all kinds of reads
                add(0, 2, &tuples(&all, 1), -1);
                // 2 threads x 2 lookups, 3 threads x 1
                add(0, 2, &tuples(&gets, 2), -1);
                add(0, 3, &tuples(&gets, 1), -1);
                if shape == 0 || t {
                    // lookups against one other kind of read
                    for o in &others {
                        if n > 40 && b"wl".contains(&o.0) && !t {
                            continue;
                        }
                        add(0, 2, &[vec![*o, gets[0]], vec![gets[1], gets[2]]], -1);
                    }
                }
                if wi == 1 && (shape == 0 || shape == 2) {
                    add(0, 3, &tuples(&gets[..2], 2), if t { -1 } else { 2 });
                    add(0, 2, &tuples(&gets[..2], 3), if t { -1 } else { 3 });
                }
                if t && shape == 0 {
                    add(0, 2, &tuples(&gets, 3), -1);
                    add(0, 3, &tuples(&gets, 2), 3);
                }
                if shape != 1 {
                    let mo: Vec<(u8, u32)> = all.iter().copied().filter(|o| b"gikfqva".contains(&o.0)).collect();
                    add(1, 2, &tuples(&mo, 1), -1);
                    let so = vec![(b'g', k0), (b'g', k2), (b'g', k1 + 1), (b'i', 0), (b'r', 0), (b'u', 0), (b'f', 0)];
                    add(2, 2, &tuples(&so, 1), -1);
                    add(2, 2, &tuples(&so[..2], 2), if t { -1 } else { 3 });
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ Send and Sync, judged at run time
struct SendProbe<T>(std::marker::PhantomData<T>);
struct SyncProbe<T>(std::marker::PhantomData<T>);
impl<T: Send> SendProbe<T> {
    fn yes(&self) -> bool {
        true
    }
}
impl<T: Sync> SyncProbe<T> {
    fn yes(&self) -> bool {
        true
    }
}
trait Fallback {
    fn yes(&self) -> bool {
        false
    }
}
impl<T> Fallback for SendProbe<T> {}
impl<T> Fallback for SyncProbe<T> {}
macro_rules! send {
    ($t:ty) => {
        SendProbe::<$t>(std::marker::PhantomData).yes()
    };
}
macro_rules! sync {
    ($t:ty) => {
        SyncProbe::<$t>(std::marker::PhantomData).yes()
    };
}
fn autotraits() -> Result<usize, String> {
    use std::cell::Cell;
    use std::rc::Rc;
    let mut n = 0;
    macro_rules! want {
        ($e:expr, $w:expr, $m:expr) => {
            n += 1;
            if $e != $w {
                return Err(format!("{} is {}", $m, if $w { "missing" } else { "there, although the contents do not allow it" }));
            }
        };
    }
    type St<K, V> = NodeStoreVec<K, V, Count>;
    want!(send!(BPlusTree<St<u32, String>>), true, "Send for BPlusTree<u32, String>");
    want!(sync!(BPlusTree<St<u32, String>>), true, "Sync for BPlusTree<u32, String>");
    want!(send!(BPlusTreeMap<String, Vec<u8>>), true, "Send for BPlusTreeMap<String, Vec<u8>>");
    want!(sync!(BPlusTreeMap<String, Vec<u8>>), true, "Sync for BPlusTreeMap<String, Vec<u8>>");
    want!(send!(BPlusTreeSet<String>), true, "Send for BPlusTreeSet<String>");
    want!(sync!(BPlusTreeSet<String>), true, "Sync for BPlusTreeSet<String>");
    want!(send!(sweep_bptree::tree::Cursor<String>), true, "Send for Cursor<String>");
    want!(sync!(sweep_bptree::tree::Cursor<String>), true, "Sync for Cursor<String>");
    want!(send!(sweep_bptree::tree::Iter<'static, St<u32, u32>>), true, "Send for Iter<u32, u32>");
    want!(send!(sweep_bptree::tree::IntoIter<St<u32, u32>>), true, "Send for IntoIter<u32, u32>");
    want!(send!(BPlusTree<St<u32, Rc<u32>>>), false, "Send for BPlusTree<u32, Rc<u32>>");
    want!(sync!(BPlusTree<St<u32, Rc<u32>>>), false, "Sync for BPlusTree<u32, Rc<u32>>");
    want!(send!(BPlusTree<St<u32, Cell<u32>>>), true, "Send for BPlusTree<u32, Cell<u32>>");
    want!(sync!(BPlusTree<St<u32, Cell<u32>>>), false, "Sync for BPlusTree<u32, Cell<u32>>");
    want!(send!(BPlusTreeMap<u32, Rc<u32>>), false, "Send for BPlusTreeMap<u32, Rc<u32>>");
    want!(sync!(BPlusTreeMap<u32, Cell<u32>>), false, "Sync for BPlusTreeMap<u32, Cell<u32>>");
    want!(send!(BPlusTreeSet<Rc<u32>>), false, "Send for BPlusTreeSet<Rc<u32>>");
    want!(send!(sweep_bptree::tree::Cursor<Rc<u32>>), false, "Send for Cursor<Rc<u32>>");
    want!(send!(sweep_bptree::tree::IntoIter<St<u32, Rc<u32>>>), false, "Send for IntoIter<u32, Rc<u32>>");
    want!(send!(sweep_bptree::tree::Iter<'static, St<u32, Cell<u32>>>), false, "Send for Iter<u32, Cell<u32>>");
    Ok(n)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if let Some(f) = get("--replay") {
        let txt = std::fs::read_to_string(f).unwrap();
        let line = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).map(|s| s.to_string()));
        if line("scenario").as_deref() == Some("autotraits") {
            match autotraits() {
                Ok(_) => println!("PASS"),
                Err(e) => {
                    println!("FAIL {e}");
                    std::process::exit(1)
                }
            }
            return;
        }
        let s = Scn::parse(&line("scenario").unwrap());
        println!("case: {}", s.human());
        prepare(&s);
        let ch: Vec<i32> = line("choices").unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
        let r = if ch.is_empty() {
            let mut st = RtStats::default();
            unsafe { rt_explore(s.ops.len() as i32, s.bound, 20_000_000, setup, body, check, &mut st) }
        } else {
            unsafe { rt_replay(s.ops.len() as i32, s.bound, ch.as_ptr(), ch.len() as i32, setup, body, check) }
        };
        if r != 0 {
            println!("FAIL\n{}", fail_text(&sh().msg));
            std::process::exit(1);
        }
        println!("PASS");
        std::process::exit(0);
    }
    let out = get("--out").unwrap();
    *OUT.lock().unwrap() = out.clone();
    let t = get("--tier").as_deref() == Some("thorough");
    let shard: Vec<usize> = get("--shard").unwrap_or("0/1".into()).split('/').map(|x| x.parse().unwrap()).collect();
    let budget: f64 = get("--budget").and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let t0 = std::time::Instant::now();
    let auto = match autotraits() {
        Ok(n) => n,
        Err(e) => {
            std::fs::write(format!("{out}.fail"), format!("scenario autotraits\nchoices \nmsg {e}\nhuman auto traits of the containers\n")).unwrap();
            std::process::exit(1);
        }
    };
    let cap = Tree::node_cap();
    let list = scenarios(cap, t);
    let mut tot = RtStats { complete: 1, ..Default::default() };
    let (mut done, mut distinct, mut samples) = (0u64, 0u64, vec![]);
    let mine: Vec<&Scn> = list.iter().skip(shard[0]).step_by(shard[1]).collect();
    let mut skipped = 0;
    let mut incomplete = 0;
    for s in &mine {
        if t0.elapsed().as_secs_f64() > budget {
            skipped += 1;
            continue;
        }
        // what was being explored when the process died, if it dies
        std::fs::write(format!("{out}.now"), format!("scenario {}\nchoices \n", s.show())).unwrap();
        if let Err(_) = catch_unwind(AssertUnwindSafe(|| prepare(s))) {
            std::fs::write(format!("{out}.fail"), format!("scenario {}\nchoices \nmsg a read panics even alone\nhuman {}\n", s.show(), s.human())).unwrap();
            std::process::exit(1);
        }
        let mut st = RtStats::default();
        let r = unsafe { rt_explore(s.ops.len() as i32, s.bound, if t { 20_000_000 } else { 300_000 }, setup, body, check, &mut st) };
        if r != 0 {
            let f = fail_text(&sh().msg);
            println!("FAIL\n{f}");
            std::fs::write(format!("{out}.fail"), f).unwrap();
            std::process::exit(1);
        }
        if st.executions > 10_000 && get("--heavy").is_some() {
            println!("{} {}", st.executions, s.human());
        }
        distinct += sh().outcomes.len() as u64;
        done += 1;
        tot.executions += st.executions;
        tot.points += st.points;
        tot.loads += st.loads;
        tot.multi += st.multi;
        tot.plain += st.plain;
        tot.preempt_cut += st.preempt_cut;
        if st.complete == 0 {
            incomplete += 1;
        }
        tot.max_trail = tot.max_trail.max(st.max_trail);
        if samples.len() < 2 && st.executions > 50 {
            samples.push(format!("{} [{} executions]", s.human(), st.executions));
        }
    }
    let j = format!(
        "{{\"scenarios\":{done},\"skipped\":{skipped},\"incomplete\":{incomplete},\"executions\":{},\"points\":{},\"loads\":{},\"multi\":{},\"plain\":{},\"preempt_cut\":{},\"max_choices\":{},\"schedules_distinct\":{distinct},\"autotraits\":{auto},\"wall_s\":{:.2},\"samples\":[{}]}}",
        tot.executions,
        tot.points,
        tot.loads,
        tot.multi,
        tot.plain,
        tot.preempt_cut,
        tot.max_trail,
        t0.elapsed().as_secs_f64(),
        samples.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
    );
    std::fs::write(format!("{out}.json"), j).unwrap();
    std::process::exit(0);
}

trait Cap {
    fn node_cap() -> usize;
}
impl Cap for Tree {
    fn node_cap() -> usize {
        use sweep_bptree::tree::NodeStore;
        <NodeStoreVec<u32, String, Count> as NodeStore>::leaf_n() as usize
    }
}
