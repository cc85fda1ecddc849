//! Global allocator: counts live blocks per thread, fills fresh memory with 0xA5 and freed
//! memory with 0xDD, and keeps freed blocks in a small quarantine so that a use after free
//! reads poison instead of a reused block. A scope reclaims what the code run in it leaked
//! (after a caught panic leaks are allowed, but millions of executions must fit in memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::ptr::null_mut;

pub struct Alloc;

#[repr(C)]
struct Head {
    prev: *mut Head,
    next: *mut Head,
    size: usize,
    /// low bit: member of a scope list; the rest: alignment
    align: usize,
}
const LINKED: usize = 1 << 63;
const HS: usize = std::mem::size_of::<Head>();

fn lay(size: usize, align: usize) -> (Layout, usize) {
    let h = align.max(HS);
    // size may be anything up to isize::MAX; overflow means the request cannot be served anyway
    let total = size.checked_add(h).unwrap_or(usize::MAX / 2 - 4096);
    (unsafe { Layout::from_size_align_unchecked(total, align.max(16)) }, h)
}

const Q: usize = 64;
struct Ring {
    at: usize,
    slots: [*mut u8; Q],
}

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
    static RING: UnsafeCell<Ring> = const { UnsafeCell::new(Ring { at: 0, slots: [null_mut(); Q] }) };
    static LIST: Cell<*mut Head> = const { Cell::new(null_mut()) };
    static SCOPE: Cell<bool> = const { Cell::new(false) };
}

/// (live blocks, live bytes) allocated and not yet freed by this thread
pub fn live() -> (isize, isize) {
    (LIVE.with(|c| c.get()), BYTES.with(|c| c.get()))
}

/// allocations made by this thread so far
pub fn made() -> usize {
    MADE.with(|c| c.get())
}

/// run f without its allocations counting
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    let (a, b) = live();
    let r = f();
    LIVE.with(|c| c.set(a));
    BYTES.with(|c| c.set(b));
    r
}

/// from now on remember every block this thread allocates
pub fn scope_begin() {
    SCOPE.with(|s| s.set(true));
}
/// free (or, with `free` false, just forget) every block of the scope still allocated. Nothing
/// may refer to them any more.
pub unsafe fn scope_end(free: bool) -> usize {
    SCOPE.with(|s| s.set(false));
    let mut h = LIST.with(|l| l.replace(null_mut()));
    let mut n = 0;
    while !h.is_null() {
        let next = (*h).next;
        (*h).align &= !LINKED;
        if free {
            n += 1;
            let p = (h as *mut u8).add(HS);
            let (size, align) = ((*h).size, (*h).align);
            LIVE.with(|c| c.set(c.get() - 1));
            BYTES.with(|c| c.set(c.get() - size as isize));
            let (l, hh) = lay(size, align);
            System.dealloc(p.sub(hh), l);
        } else {
            (*h).prev = null_mut();
            (*h).next = null_mut();
        }
        h = next;
    }
    n
}

unsafe fn release(p: *mut u8) {
    let h = p.sub(HS) as *mut Head;
    let (l, hh) = lay((*h).size, (*h).align);
    System.dealloc(p.sub(hh), l)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (ll, hh) = lay(l.size(), l.align());
        let b = System.alloc(ll);
        if b.is_null() {
            return b;
        }
        let p = b.add(hh);
        let h = p.sub(HS) as *mut Head;
        *h = Head { prev: null_mut(), next: null_mut(), size: l.size(), align: l.align() };
        if SCOPE.try_with(|s| s.get()).unwrap_or(false) {
            let _ = LIST.try_with(|s| {
                let n = s.get();
                (*h).next = n;
                (*h).align |= LINKED;
                if !n.is_null() {
                    (*n).prev = h;
                }
                s.set(h);
            });
        }
        std::ptr::write_bytes(p, 0xA5, l.size());
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        let _ = MADE.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as isize));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xDD, l.size());
        let h = p.sub(HS) as *mut Head;
        if (*h).align & LINKED != 0 {
            let (a, b) = ((*h).prev, (*h).next);
            if a.is_null() {
                let _ = LIST.try_with(|s| s.set(b));
            } else {
                (*a).next = b;
            }
            if !b.is_null() {
                (*b).prev = a;
            }
            (*h).align &= !LINKED;
        }
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = BYTES.try_with(|c| c.set(c.get() - l.size() as isize));
        if l.size() <= 4096 {
            let old = RING.try_with(|r| {
                let r = &mut *r.get();
                let i = r.at;
                r.at = (i + 1) % Q;
                std::mem::replace(&mut r.slots[i], p)
            });
            if let Ok(q) = old {
                if !q.is_null() {
                    release(q);
                }
                return;
            }
        }
        release(p)
    }
}
