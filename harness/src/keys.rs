//! Keys, values and augmentations the machines instantiate the containers with.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use sweep_bptree::augment::Augmentation;

pub trait DomKey: Ord + Clone + std::fmt::Debug + 'static {
    fn mk(i: u32) -> Self;
    fn ix(&self) -> u32;
}
pub trait DomVal: Clone + 'static {
    fn mk(i: u32) -> Self;
    fn ix(&self) -> u32;
    /// whether a value read back can tell versions apart
    const EXACT: bool = true;
}
impl DomKey for u32 {
    fn mk(i: u32) -> u32 {
        i
    }
    fn ix(&self) -> u32 {
        *self
    }
}
impl DomVal for u32 {
    fn mk(i: u32) -> u32 {
        i
    }
    fn ix(&self) -> u32 {
        *self
    }
}
impl DomKey for String {
    fn mk(i: u32) -> String {
        format!("{i:08}")
    }
    fn ix(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
}
impl DomVal for String {
    fn mk(i: u32) -> String {
        i.to_string()
    }
    fn ix(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX)
    }
}
impl DomVal for () {
    fn mk(_: u32) {}
    fn ix(&self) -> u32 {
        0
    }
    const EXACT: bool = false;
}
/// zero sized key: at most one entry
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct ZK;
impl DomKey for ZK {
    fn mk(_: u32) -> ZK {
        ZK
    }
    fn ix(&self) -> u32 {
        0
    }
}
/// odd sized, over-aligned value
#[derive(Clone, Debug)]
#[repr(align(32))]
pub struct Big(pub [u8; 5], pub u32);
impl DomVal for Big {
    fn mk(i: u32) -> Big {
        Big([i as u8; 5], i)
    }
    fn ix(&self) -> u32 {
        if self.0 == [self.1 as u8; 5] && (self as *const Big as usize) % 32 == 0 {
            self.1
        } else {
            u32::MAX
        }
    }
}
/// key whose equality ignores a payload and whose order is reversed with respect to the payload's
#[derive(Clone, Debug)]
pub struct RevK(pub u8, pub u64);
impl PartialEq for RevK {
    fn eq(&self, o: &RevK) -> bool {
        self.0 == o.0
    }
}
impl Eq for RevK {}
impl PartialOrd for RevK {
    fn partial_cmp(&self, o: &RevK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for RevK {
    fn cmp(&self, o: &RevK) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl DomKey for RevK {
    fn mk(i: u32) -> RevK {
        RevK(i as u8, !(i as u64))
    }
    fn ix(&self) -> u32 {
        self.0 as u32
    }
}

// ---------------------------------------------------------------------------------------------
// Tracked instances: a per-thread ledger of every instance ever made in the current case.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    K = 0,
    V = 1,
    A = 2,
}
const MAGIC: u32 = 0x5EED_0000;

pub struct Ledger {
    alive: Vec<(bool, u8)>,
    live: [i64; 3],
    err: Option<String>,
    /// countdown to an injected panic, counted over user callbacks
    pub fuse: Option<u64>,
    pub calls: u64,
    pub fired: bool,
    pub fired_in: &'static str,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = const { RefCell::new(Ledger { alive: vec![], live: [0; 3], err: None, fuse: None, calls: 0, fired: false, fired_in: "" }) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.alive = vec![];
        l.live = [0; 3];
        l.err = None;
        l.fuse = None;
        l.calls = 0;
        l.fired = false;
        l.fired_in = "";
    });
    ARMED.with(|a| a.set(false));
}
pub fn ledger_live(k: Kind) -> i64 {
    LEDGER.with(|l| l.borrow().live[k as usize])
}
pub fn ledger_err() -> Result<(), String> {
    LEDGER.with(|l| match &l.borrow().err {
        None => Ok(()),
        Some(e) => Err(e.clone()),
    })
}
/// make the n-th callback from now on (0-based) panic
pub fn arm(n: Option<u64>) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.fuse = n;
        l.calls = 0;
        l.fired = false;
    });
    ARMED.with(|a| a.set(true));
}
/// stop injecting; returns (callbacks seen, fired, where)
pub fn disarm() -> (u64, bool, &'static str) {
    ARMED.with(|a| a.set(false));
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.fuse = None;
        (l.calls, l.fired, l.fired_in)
    })
}
/// a point at which user code runs
pub fn callback(what: &'static str) {
    if !ARMED.with(|a| a.get()) {
        return;
    }
    let fire = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let c = l.calls;
        l.calls += 1;
        if l.fuse == Some(c) && !std::thread::panicking() {
            l.fired = true;
            l.fired_in = what;
            true
        } else {
            false
        }
    });
    if fire {
        std::panic::panic_any(crate::engine::Injected);
    }
}

// ---------------------------------------------------------------------------------------------
// User code that breaks its contract: answers picked by a script, and orders that change.
/// choices recorded per execution; further ones are always right
pub const CHOICES: usize = 4096;
struct Lies {
    on: bool,
    script: [(u32, u8); 4],
    /// how many answers each choice could have given, 0 first being the right one
    log: [u8; CHOICES],
    at: usize,
    order: u8,
}
const NONE: (u32, u8) = (u32::MAX, 0);
thread_local! {
    // nothing on the heap: a scope reclaims what is allocated in it
    static LIES: RefCell<Lies> = const { RefCell::new(Lies { on: false, script: [NONE; 4], log: [0; CHOICES], at: 0, order: 0 }) };
    static LYING: Cell<bool> = const { Cell::new(false) };
}
/// from now on the choices listed (by position) go as listed, all others right
pub fn lie(script: &[(u32, u8)]) {
    LIES.with(|l| {
        let mut l = l.borrow_mut();
        l.on = true;
        l.script = [NONE; 4];
        l.script[..script.len()].copy_from_slice(script);
        l.at = 0;
        l.order = 0;
    });
    LYING.with(|l| l.set(true));
}
/// no more lies
pub fn be_honest() {
    LYING.with(|l| l.set(false));
    LIES.with(|l| {
        let mut l = l.borrow_mut();
        l.on = false;
        l.order = 0;
    })
}
/// the choices there were since lie()
pub fn choices() -> Vec<u8> {
    LIES.with(|l| {
        let l = l.borrow();
        l.log[..l.at].to_vec()
    })
}
/// all keys change their order
pub fn set_order(o: u8) {
    LIES.with(|l| l.borrow_mut().order = o);
    LYING.with(|l| l.set(true));
}
pub fn choose(alts: u8) -> u8 {
    if !LYING.with(|l| l.get()) {
        return 0;
    }
    LIES.with(|l| {
        let mut l = l.borrow_mut();
        if !l.on {
            return 0;
        }
        let at = l.at;
        if at == CHOICES {
            return 0;
        }
        l.log[at] = alts;
        l.at += 1;
        l.script.iter().find(|s| s.0 == at as u32).map_or(0, |s| s.1)
    })
}
pub const ORDERS: u8 = 8;
fn ordered(a: u32, b: u32) -> Ordering {
    let t = a.cmp(&b);
    if !LYING.with(|l| l.get()) {
        return t;
    }
    match LIES.with(|l| l.borrow().order) {
        0 => t,
        1 => t.reverse(),
        2 => Ordering::Equal,
        3 => Ordering::Less,
        4 => Ordering::Greater,
        // one key that is like a NaN: never equal, not even to itself
        5 if a == 3 || b == 3 => Ordering::Less,
        // a rotated order, and one that is not transitive
        6 => (a.wrapping_add(3) % 7, a).cmp(&(b.wrapping_add(3) % 7, b)),
        7 if t != Ordering::Equal && (a + b) % 3 == 0 => t.reverse(),
        _ => t,
    }
}

#[derive(Debug)]
pub struct Inst {
    magic: u32,
    id: u32,
}
fn note(e: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.err.is_none() {
            l.err = Some(e);
        }
    })
}
impl Inst {
    pub fn new(k: Kind) -> Inst {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            let id = l.alive.len() as u32;
            l.alive.push((true, k as u8));
            l.live[k as usize] += 1;
            Inst { magic: MAGIC | k as u32, id }
        })
    }
    pub fn touch(&self, k: Kind, what: &str) -> bool {
        if self.magic != MAGIC | k as u32 {
            note(format!("{what} of a {k:?} that was never initialised, or whose memory was freed (tag {:#x})", self.magic));
            return false;
        }
        let ok = LEDGER.with(|l| l.borrow().alive.get(self.id as usize).copied());
        match ok {
            Some((true, _)) => true,
            _ => {
                note(format!("{what} of {k:?} #{} after it was dropped", self.id));
                false
            }
        }
    }
    fn kill(&self, k: Kind) {
        if self.touch(k, "drop") {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                l.alive[self.id as usize].0 = false;
                l.live[k as usize] -= 1;
            })
        }
    }
}

/// tracked key
#[derive(Debug)]
pub struct TK {
    i: Inst,
    pub k: u32,
}
impl TK {
    pub fn new(k: u32) -> TK {
        TK { i: Inst::new(Kind::K), k }
    }
}
impl Clone for TK {
    fn clone(&self) -> TK {
        self.i.touch(Kind::K, "clone");
        callback("K::clone");
        let k = match choose(3) {
            0 => self.k,
            1 => 0,
            _ => 5_000_000,
        };
        TK { i: Inst::new(Kind::K), k }
    }
}
impl Drop for TK {
    fn drop(&mut self) {
        self.i.kill(Kind::K);
        callback("K::drop");
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &TK) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &TK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &TK) -> Ordering {
        self.i.touch(Kind::K, "comparison");
        o.i.touch(Kind::K, "comparison");
        callback("K::cmp");
        let t = ordered(self.k, o.k);
        match choose(3) {
            0 => t,
            1 => t.reverse().then(Ordering::Less),
            _ if t == Ordering::Equal => Ordering::Greater,
            _ => Ordering::Equal,
        }
    }
}
impl DomKey for TK {
    fn mk(i: u32) -> TK {
        TK::new(i)
    }
    fn ix(&self) -> u32 {
        self.i.touch(Kind::K, "read");
        self.k
    }
}
/// tracked value
#[derive(Debug)]
pub struct TV {
    i: Inst,
    pub v: u32,
}
impl Clone for TV {
    fn clone(&self) -> TV {
        self.i.touch(Kind::V, "clone");
        callback("V::clone");
        TV { i: Inst::new(Kind::V), v: self.v }
    }
}
impl Drop for TV {
    fn drop(&mut self) {
        self.i.kill(Kind::V);
        callback("V::drop");
    }
}
impl DomVal for TV {
    fn mk(i: u32) -> TV {
        TV { i: Inst::new(Kind::V), v: i }
    }
    fn ix(&self) -> u32 {
        self.i.touch(Kind::V, "read");
        self.v
    }
}
/// tracked, heap-owning count augmentation
#[derive(Debug)]
pub struct TA {
    i: Inst,
    pub n: Box<usize>,
}
impl TA {
    fn make(n: usize) -> TA {
        TA { i: Inst::new(Kind::A), n: Box::new(n) }
    }
    pub fn get(&self) -> usize {
        if self.i.touch(Kind::A, "read") {
            *self.n
        } else {
            usize::MAX / 2
        }
    }
}
impl Clone for TA {
    fn clone(&self) -> TA {
        if !self.i.touch(Kind::A, "clone") {
            return TA::make(0);
        }
        callback("A::clone");
        TA::make(*self.n)
    }
}
impl Default for TA {
    fn default() -> TA {
        callback("A::default");
        TA::make(0)
    }
}
impl Drop for TA {
    fn drop(&mut self) {
        let ok = self.i.touch(Kind::A, "drop");
        self.i.kill(Kind::A);
        if !ok {
            // the box is not ours to free: forget it
            let b = std::mem::replace(&mut self.n, Box::new(0));
            std::mem::forget(b);
        }
        callback("A::drop");
    }
}
impl<K: DomKey, V: DomVal> Augmentation<K, V> for TA {
    fn from_inner(keys: &[K], a: &[TA]) -> TA {
        for k in keys {
            k.ix();
        }
        callback("A::from_inner");
        TA::make(a.iter().map(|x| x.get()).sum())
    }
    fn from_leaf(keys: &[K], vals: &[V]) -> TA {
        for k in keys {
            k.ix();
        }
        for v in vals {
            v.ix();
        }
        callback("A::from_leaf");
        TA::make(keys.len())
    }
}
impl<K: DomKey, V: DomVal> sweep_bptree::augment::SearchAugmentation<K, V> for TA {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _: &[V]) -> Option<usize> {
        callback("A::locate_in_leaf");
        match choose(6) {
            0 => (q < keys.len()).then_some(q),
            1 => Some(keys.len()),
            2 => Some(usize::MAX),
            3 => Some(keys.len().saturating_sub(1)),
            4 => Some(keys.len() + 1),
            _ => None,
        }
    }
    fn locate_in_inner(mut q: usize, _: &[K], a: &[TA]) -> Option<(usize, usize)> {
        callback("A::locate_in_inner");
        match choose(6) {
            0 => (),
            1 => return Some((a.len(), q)),
            2 => return Some((usize::MAX, q)),
            3 => return Some((a.len() - 1, 0)),
            4 => return Some((a.len() + 1, q)),
            _ => return None,
        }
        for (i, x) in a.iter().enumerate() {
            if q < x.get() {
                return Some((i, q));
            }
            q -= x.get();
        }
        None
    }
}
impl<K: DomKey, V: DomVal> sweep_bptree::augment::RankAugmentation<K, V> for TA {
    type Rank = usize;
    fn initial_value() -> usize {
        callback("A::initial_value");
        0
    }
    fn fold_inner(_: &K, r: usize, a: &[TA]) -> usize {
        callback("A::fold_inner");
        r + a.iter().map(|x| x.get()).sum::<usize>()
    }
    fn fold_leaf(_: &K, r: usize, s: Result<usize, usize>, _: &[K]) -> Result<usize, usize> {
        callback("A::fold_leaf");
        s.map(|x| x + r).map_err(|x| x + r)
    }
}

// ---------------------------------------------------------------------------------------------
/// Free monoid: the aggregate *is* the list of entries, so equality of aggregates is equality of
/// contents and every other aggregate is a function of this one.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Free {
    pub e: Vec<(u32, u32)>,
    pub bad: Option<String>,
}
impl<K: DomKey, V: DomVal> Augmentation<K, V> for Free {
    fn from_inner(keys: &[K], a: &[Free]) -> Free {
        let mut f = Free::default();
        if a.len() != keys.len() + 1 {
            f.bad = Some(format!("from_inner was given {} keys and {} augmentations", keys.len(), a.len()));
        }
        for (i, x) in a.iter().enumerate() {
            if f.bad.is_none() {
                f.bad = x.bad.clone();
            }
            if f.bad.is_none() && i > 0 && i <= keys.len() {
                let s = keys[i - 1].ix();
                if f.e.last().map(|l| l.0 >= s).unwrap_or(false) || x.e.first().map(|l| l.0 < s).unwrap_or(false) {
                    f.bad = Some(format!("from_inner key {s} does not separate the augmentations next to it ({:?} | {:?})", f.e, x.e));
                }
            }
            f.e.extend_from_slice(&x.e);
        }
        f
    }
    fn from_leaf(keys: &[K], vals: &[V]) -> Free {
        let mut f = Free::default();
        if keys.len() != vals.len() {
            f.bad = Some(format!("from_leaf was given {} keys and {} values", keys.len(), vals.len()));
        }
        f.e = keys.iter().zip(vals).map(|(k, v)| (k.ix(), v.ix())).collect();
        f
    }
}

/// Cheap injective-in-practice aggregate for big trees: length and an order-sensitive hash.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Poly {
    pub n: usize,
    pub h: u64,
    pub p: u64,
    pub ok: bool,
}
impl Default for Poly {
    fn default() -> Poly {
        Poly { n: 0, h: 0, p: 1, ok: true }
    }
}
const B: u64 = 0x9E37_79B9_7F4A_7C15 | 1;
pub fn poly_push(f: &mut Poly, k: u32, v: u32) {
    let x = ((k as u64) << 32 | v as u64).wrapping_mul(0xff51afd7ed558ccd) ^ 0x1234567;
    f.n += 1;
    f.h = f.h.wrapping_mul(B).wrapping_add(x);
    f.p = f.p.wrapping_mul(B);
}
impl<K: DomKey, V: DomVal> Augmentation<K, V> for Poly {
    fn from_inner(keys: &[K], a: &[Poly]) -> Poly {
        let mut f = Poly::default();
        f.ok = a.len() == keys.len() + 1;
        for x in a {
            f.ok &= x.ok;
            f.n += x.n;
            f.h = f.h.wrapping_mul(x.p).wrapping_add(x.h);
            f.p = f.p.wrapping_mul(x.p);
        }
        f
    }
    fn from_leaf(keys: &[K], vals: &[V]) -> Poly {
        let mut f = Poly::default();
        f.ok = keys.len() == vals.len();
        for (k, v) in keys.iter().zip(vals) {
            poly_push(&mut f, k.ix(), v.ix());
        }
        f
    }
}

pub fn sk(i: u32) -> String {
    <String as DomKey>::mk(i)
}
pub fn si(s: &str) -> u32 {
    s.parse().unwrap_or(u32::MAX)
}

// ---------------------------------------------------------------------------------------------
// Searches and ranks through the free monoid: any search that obeys the contract is a function of
// the lists of entries it is shown, so a few kinds of query over these lists stand for all.

thread_local! { static COMPLAINT: RefCell<Option<String>> = const { RefCell::new(None) }; }
/// what a search or rank callback found wrong with what it was shown
pub fn complain(e: String) {
    COMPLAINT.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(e)
        }
    })
}
pub fn complaint() -> Result<(), String> {
    match COMPLAINT.with(|c| c.borrow_mut().take()) {
        None => Ok(()),
        Some(e) => Err(e),
    }
}

/// which entries a query counts
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pick {
    All,
    EvenKey,
    Third,
    None,
    /// entries whose value is at least x
    ValGe(u32),
}
impl Pick {
    pub fn hit(self, k: u32, v: u32) -> bool {
        match self {
            Pick::All => true,
            Pick::EvenKey => k % 2 == 0,
            Pick::Third => k % 3 == 0,
            Pick::None => false,
            Pick::ValGe(x) => v >= x,
        }
    }
}
/// the nth counted entry (from the left, or from the right); gives up at depth `fail`
/// (0 = first inner node, counted up; a leaf is one deeper), whatever it is shown
#[derive(Clone, Debug)]
pub struct FQ {
    pub pick: Pick,
    pub nth: usize,
    pub right: bool,
    pub fail: usize,
    /// what the chosen child was said to contain
    pub expect: Option<Vec<(u32, u32)>>,
}
impl FQ {
    pub fn new(pick: Pick, nth: usize, right: bool) -> FQ {
        FQ { pick, nth, right, fail: usize::MAX, expect: None }
    }
    /// the entry designated in a list
    pub fn find(&self, e: &[(u32, u32)]) -> Option<usize> {
        let mut n = self.nth;
        let mut at = |i: usize| {
            let (k, v) = e[i];
            if !self.pick.hit(k, v) {
                return false;
            }
            if n == 0 {
                return true;
            }
            n -= 1;
            false
        };
        if self.right {
            (0..e.len()).rev().find(|i| at(*i))
        } else {
            (0..e.len()).find(|i| at(*i))
        }
    }
}
impl<K: DomKey, V: DomVal> sweep_bptree::augment::SearchAugmentation<K, V> for Free {
    type Query = FQ;
    fn locate_in_leaf(q: FQ, keys: &[K], vals: &[V]) -> Option<usize> {
        if keys.len() != vals.len() {
            complain(format!("locate_in_leaf was shown {} keys and {} values", keys.len(), vals.len()));
            return None;
        }
        let e: Vec<(u32, u32)> = keys.iter().zip(vals).map(|(k, v)| (k.ix(), v.ix())).collect();
        if let Some(x) = &q.expect {
            if *x != e {
                complain(format!("the query chose a child said to contain {x:?}, but was shown a leaf with {e:?}"));
            }
        }
        if q.fail == 0 {
            return None;
        }
        q.find(&e)
    }
    fn locate_in_inner(mut q: FQ, keys: &[K], a: &[Free]) -> Option<(usize, FQ)> {
        if keys.len() + 1 != a.len() {
            complain(format!("locate_in_inner was shown {} keys and {} augmentations", keys.len(), a.len()));
        }
        if let Some(x) = &q.expect {
            let e: Vec<(u32, u32)> = a.iter().flat_map(|f| f.e.iter().copied()).collect();
            if *x != e {
                complain(format!("the query chose a child said to contain {x:?}, but was shown an inner node over {e:?}"));
            }
        }
        if q.fail == 0 {
            return None;
        }
        q.fail = q.fail.saturating_sub(1).max((q.fail == usize::MAX) as usize * usize::MAX);
        let n = a.len();
        for j in 0..n {
            let i = if q.right { n - 1 - j } else { j };
            let c = a[i].e.iter().filter(|(k, v)| q.pick.hit(*k, *v)).count();
            if q.nth < c {
                q.expect = Some(a[i].e.clone());
                return Some((i, q));
            }
            q.nth -= c;
        }
        None
    }
}
/// rank through the free monoid: the list of everything folded, in the order it was folded
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct FR {
    pub left: Vec<(u32, u32)>,
    pub leaf: usize,
}
impl<K: DomKey, V: DomVal> sweep_bptree::augment::RankAugmentation<K, V> for Free {
    type Rank = FR;
    fn initial_value() -> FR {
        FR::default()
    }
    fn fold_inner(_: &K, mut r: FR, a: &[Free]) -> FR {
        for f in a {
            r.left.extend_from_slice(&f.e);
        }
        r
    }
    fn fold_leaf(k: &K, mut r: FR, slot: Result<usize, usize>, keys: &[K]) -> Result<FR, FR> {
        let real = keys.binary_search(k);
        if real != slot {
            complain(format!("fold_leaf for {} was given slot {slot:?} in {:?}", k.ix(), keys.iter().map(|k| k.ix()).collect::<Vec<_>>()));
        }
        r.leaf = match slot {
            Ok(i) | Err(i) => i.min(keys.len()),
        };
        // values of the leaf are not shown to a rank; the keys are
        let l: Vec<(u32, u32)> = keys[..r.leaf].iter().map(|k| (k.ix(), u32::MAX)).collect();
        r.left.extend(l);
        slot.map(|_| r.clone()).map_err(|_| r)
    }
}

// ---------------------------------------------------------------------------------------------
/// layouts of groups over keys (C13)
pub const DIV: u32 = 1 << 23;
thread_local! { pub static LAYOUT: Cell<u32> = const { Cell::new(0) }; }
/// groups are odd numbers, so that there are absent ones below, between and above
pub fn group(k: u32) -> u32 {
    let l = LAYOUT.with(|l| l.get());
    let g = if l & DIV != 0 { k / (l & !DIV).max(1) } else { (l & ((1u32 << k.min(22)) - 1)).count_ones() };
    2 * g + 1
}
impl DomKey for (u32, u32) {
    fn mk(i: u32) -> (u32, u32) {
        (group(i), i)
    }
    fn ix(&self) -> u32 {
        self.1
    }
}
