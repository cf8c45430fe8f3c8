//! Checking allocator: while armed, every block has red zones, is remembered with the layout it
//! was obtained with, moves on every realloc and is poisoned and kept aside when released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Checking;
#[derive(Clone, Copy)]
struct Blk { p: usize, size: usize, align: usize, live: bool, base: usize, total: usize, pad: usize }
const N: usize = 8192;
struct St { armed: bool, n: usize, b: [Blk; N], errs: [u8; 4096], elen: usize, fail_at: u64, count: u64, requests: u64 }
struct Cell(UnsafeCell<St>);
unsafe impl Sync for Cell {}
static S: Cell = Cell(UnsafeCell::new(St { armed: false, n: 0, b: [Blk { p: 0, size: 0, align: 0, live: false, base: 0, total: 0, pad: 0 }; N], errs: [0; 4096], elen: 0, fail_at: 0, count: 0, requests: 0 }));
fn st() -> &'static mut St { unsafe { &mut *S.0.get() } }
const RZ: usize = 64;
const FRESH: u8 = 0xCD;
const DEAD: u8 = 0xDD;
const GUARD: u8 = 0xA5;
pub const LIMIT: usize = 1 << 26;

fn err(m: &str, a: usize, b: usize) {
    let s = st();
    let mut put = |x: &[u8]| for &c in x { if s.elen < s.errs.len() { s.errs[s.elen] = c; s.elen += 1 } };
    put(m.as_bytes());
    for v in [a, b] {
        put(b" ");
        let mut d = [0u8; 20];
        let (mut i, mut v) = (20, v);
        loop { i -= 1; d[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break } }
        put(&d[i..]);
    }
    put(b"; ");
}

impl St {
    unsafe fn get(&mut self, l: Layout) -> *mut u8 {
        self.requests += 1;
        if l.size() == 0 { err("zero-sized allocation requested (size, align)", 0, l.align()); }
        if l.size() > isize::MAX as usize - (l.align() - 1) { err("illegal layout requested (size, align)", l.size(), l.align()); return core::ptr::null_mut() }
        self.count += 1;
        if self.fail_at != 0 && self.count == self.fail_at { return core::ptr::null_mut() }
        if l.size() > LIMIT || self.n == N { return core::ptr::null_mut() }
        let al = l.align().max(16);
        let pad = (RZ + al - 1) / al * al;
        // aligned as asked, and not more
        let pad = if l.align() >= 16 { pad } else { pad + l.align() };
        let total = pad + l.size() + RZ;
        let base = System.alloc(Layout::from_size_align_unchecked(total, 2 * al));
        if base.is_null() { return base }
        core::ptr::write_bytes(base, GUARD, total);
        core::ptr::write_bytes(base.add(pad), FRESH, l.size());
        self.b[self.n] = Blk { p: base as usize + pad, size: l.size(), align: l.align(), live: true, base: base as usize, total, pad };
        self.n += 1;
        base.add(pad)
    }
    fn find(&self, p: usize) -> Option<usize> { (0..self.n).rev().find(|&i| self.b[i].p == p) }
    unsafe fn zones(&self, b: &Blk) -> bool {
        let s = core::slice::from_raw_parts(b.base as *const u8, b.total);
        s[..b.pad].iter().all(|&x| x == GUARD) && s[b.pad + b.size..].iter().all(|&x| x == GUARD)
    }
    unsafe fn put(&mut self, i: usize, l: Layout) {
        let b = self.b[i];
        if !b.live { err("released twice (size, align)", l.size(), l.align()); return }
        if b.size != l.size() { err("released with another size (obtained, released)", b.size, l.size()); }
        if b.align != l.align() { err("released with another alignment (obtained, released)", b.align, l.align()); }
        if !self.zones(&b) { err("written outside the block (size, align)", b.size, b.align); }
        core::ptr::write_bytes(b.p as *mut u8, DEAD, b.size);
        self.b[i].live = false;
    }
}
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if s.armed { s.get(l) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = st();
        if s.n > 0 { if let Some(i) = s.find(p as usize) { return s.put(i, l) } }
        if s.armed && l.size() == 0 { err("zero-sized block released (size, align)", 0, l.align()); return }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let s = st();
        if s.n > 0 {
            if let Some(i) = s.find(p as usize) {
                if l.size() == 0 { err("zero-sized block resized (size, align)", 0, l.align()); }
                let b = s.b[i];
                if !b.live { err("resized after release (size, align)", l.size(), l.align()); return core::ptr::null_mut() }
                if b.size != l.size() { err("resized with another size (obtained, passed)", b.size, l.size()); }
                if b.align != l.align() { err("resized with another alignment (obtained, passed)", b.align, l.align()); }
                let q = s.get(Layout::from_size_align_unchecked(new, b.align));
                if q.is_null() { return q }
                core::ptr::copy_nonoverlapping(p, q, b.size.min(new));
                s.put(i, Layout::from_size_align_unchecked(b.size, b.align));
                return q
            }
        }
        System.realloc(p, l, new)
    }
}
pub fn arm() -> bool { let o = st().armed; st().armed = true; o }
pub fn disarm() -> bool { let o = st().armed; st().armed = false; o }
pub fn set(x: bool) { st().armed = x }
pub fn fail_next(k: u64) { let s = st(); s.fail_at = if k == 0 { 0 } else { s.count + k } }
pub fn live() -> usize { let s = st(); (0..s.n).filter(|&i| s.b[i].live).count() }
pub fn requests() -> u64 { st().requests }
/// The live block that holds this address: (start, size, align).
pub fn block_of(a: usize) -> Option<(usize, usize, usize)> {
    let s = st();
    (0..s.n).rev().map(|i| s.b[i]).find(|b| b.live && b.p <= a && a <= b.p + b.size).map(|b| (b.p, b.size, b.align))
}
/// Ends a case: forgets every block and returns what went wrong.
pub fn finish(expect_live: usize) -> String {
    let s = st();
    s.armed = false;
    s.fail_at = 0;
    let l = live();
    if l != expect_live { err("blocks left (live, expected)", l, expect_live); }
    for i in 0..s.n {
        let b = s.b[i];
        unsafe {
            if b.live { if !s.zones(&b) { err("written outside the block (size, align)", b.size, b.align); } }
            else {
                let c = core::slice::from_raw_parts(b.p as *const u8, b.size);
                if !c.iter().all(|&x| x == DEAD) || !s.zones(&b) { err("written after release (size, align)", b.size, b.align); }
            }
            System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.total, 2 * b.align.max(16)));
        }
    }
    s.n = 0;
    let r = String::from_utf8_lossy(&s.errs[..s.elen]).into_owned();
    s.elen = 0;
    r
}
