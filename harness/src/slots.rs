//! Each worker publishes the case it is executing in a file-backed shared mapping, so that the
//! driver can tell which case killed or hung the process.
use crate::engine::Op;
use std::sync::atomic::{AtomicU64, Ordering::*};

const SLOT: usize = 1 << 16;
const NS: usize = 64;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn file(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slots file");
        f.set_len((SLOT * NS) as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT * NS, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Slots { base: p }
    }
    fn at(&self, w: usize) -> *mut u8 {
        unsafe { self.base.add((w % NS) * SLOT) }
    }
    /// layout: u64 busy flag, u64 sequence, u64 name length, u64 ops length, name, ops
    pub fn begin(&self, w: usize, name: &str, case: &[Op]) {
        unsafe {
            let p = self.at(w);
            let n = name.len().min(200);
            let c = case.len().min((SLOT - 256) / 4);
            (p.add(16) as *mut u64).write(n as u64);
            (p.add(24) as *mut u64).write(c as u64);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p.add(32), n);
            std::ptr::copy_nonoverlapping(case.as_ptr() as *const u8, p.add(256), c * 4);
            (*(p.add(8) as *const AtomicU64)).fetch_add(1, Relaxed);
            (*(p as *const AtomicU64)).store(1, SeqCst);
        }
    }
    pub fn end(&self, w: usize) {
        unsafe { (*(self.at(w) as *const AtomicU64)).store(0, SeqCst) }
    }
    /// (busy, sequence)
    pub fn peek(&self, w: usize) -> (u64, u64) {
        unsafe {
            let p = self.at(w);
            ((*(p as *const AtomicU64)).load(SeqCst), (*(p.add(8) as *const AtomicU64)).load(Relaxed))
        }
    }
    pub fn count(&self) -> usize {
        NS
    }
}
