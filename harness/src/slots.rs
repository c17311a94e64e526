//! Calls in flight, kept in a memory-mapped file that survives the death of the process.
use crate::case::*;

const SLOT: usize = 16384;
const HEAD: usize = 80;

pub struct Table {
    base: *mut u8,
    n: usize,
}
unsafe impl Sync for Table {}

#[derive(Clone, Copy)]
pub struct Slot(*mut u8);
unsafe impl Send for Slot {}

impl Table {
    pub fn create(path: &str, n: usize) -> Table {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slots file");
        f.set_len((n * SLOT) as u64).expect("slots size");
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), n * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(base != libc::MAP_FAILED, "mmap");
        Table { base: base as *mut u8, n }
    }
    pub fn slot(&self, i: usize) -> Slot {
        assert!(i < self.n);
        Slot(unsafe { self.base.add(i * SLOT) })
    }
    pub fn seq(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.slot(i).0 as *const u64) }
    }
    pub fn active(&self, i: usize) -> bool {
        unsafe { std::ptr::read_volatile((self.slot(i).0 as *const u64).add(1)) == 1 }
    }
}

impl Slot {
    pub fn none() -> Slot {
        Slot(std::ptr::null_mut())
    }

    #[inline]
    pub fn enter(&self, k: &Case) {
        if self.0.is_null() {
            return;
        }
        unsafe {
            let p = self.0 as *mut u64;
            std::ptr::write_volatile(p, std::ptr::read_volatile(p) + 1);
            *p.add(2) = k.op as u64 | (k.mode as u64) << 8 | (k.subj as u64) << 16 | (k.c as u32 as u64) << 32;
            *p.add(3) = k.a as u64;
            *p.add(4) = (k.a >> 64) as u64;
            *p.add(5) = k.b as u64;
            *p.add(6) = (k.b >> 64) as u64;
            *p.add(7) = k.s.len() as u64;
            let n = k.s.len().min(SLOT - HEAD);
            std::ptr::copy_nonoverlapping(k.s.as_ptr(), self.0.add(HEAD), n);
            std::ptr::write_volatile(p.add(1), 1);
        }
    }

    #[inline]
    pub fn leave(&self) {
        if self.0.is_null() {
            return;
        }
        unsafe { std::ptr::write_volatile((self.0 as *mut u64).add(1), 0) }
    }
}

/// The calls that were active when the file was last written.
pub fn read(path: &str) -> Vec<(usize, Case)> {
    let b = std::fs::read(path).expect("slots file");
    let mut v = Vec::new();
    for (i, s) in b.chunks_exact(SLOT).enumerate() {
        let w = |j: usize| u64::from_le_bytes(s[8 * j..8 * j + 8].try_into().unwrap());
        if w(1) != 1 {
            continue;
        }
        let n = (w(7) as usize).min(SLOT - HEAD);
        v.push((
            i,
            Case {
                op: OPS[(w(2) & 255) as usize],
                mode: MODES[(w(2) >> 8 & 255) as usize],
                subj: (w(2) >> 16) as u16,
                c: (w(2) >> 32) as i32,
                a: (w(3) as u128 | (w(4) as u128) << 64) as i128,
                b: (w(5) as u128 | (w(6) as u128) << 64) as i128,
                s: String::from_utf8_lossy(&s[HEAD..HEAD + n]).into_owned(),
            },
        ));
    }
    v
}
