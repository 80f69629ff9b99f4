//! Allocator that poisons fresh and freed memory and keeps freed blocks quarantined until the end of the execution, so
//! that reads of freed or never written memory give recognisable bytes, and double frees are noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Q;
const CAP: usize = 1 << 16;
struct St { on: bool, n: usize, bytes: usize, q: [(usize, usize, usize); CAP], stock: [(usize, usize); 4], arena: usize, used: usize }
struct Cell(UnsafeCell<St>);
unsafe impl Sync for Cell {}
static ST: Cell = Cell(UnsafeCell::new(St { on: false, n: 0, bytes: 0, q: [(0, 0, 0); CAP], stock: [(0, 0); 4], arena: 0, used: 0 }));
pub const FREED: u8 = 0xDD;
pub const FRESH: u8 = 0xAA;
pub static mut DOUBLE_FREE: bool = false;

/// blocks of these sizes are handed out next, the first of them at the highest address: fragments of descending addresses.
/// They come from an arena that is never given back.
pub fn stock(sizes: &[usize]) {
    unsafe {
        let s = &mut *ST.0.get();
        if s.arena == 0 { s.arena = System.alloc(Layout::from_size_align_unchecked(ARENA, 64)) as usize }
        let total: usize = sizes.iter().map(|x| (x + 63) & !63).sum();
        if s.arena == 0 || s.used + total > ARENA { return }
        let mut top = s.arena + s.used + total;
        s.used += total;
        for (k, x) in sizes.iter().enumerate().take(4) {
            top -= (x + 63) & !63;
            s.stock[k] = (*x, top);
        }
    }
}
const ARENA: usize = 256 << 20;
impl St {
    fn stocked(&self, p: usize) -> bool { self.arena != 0 && p >= self.arena && p < self.arena + ARENA }
    unsafe fn give(&self, p: *mut u8, l: Layout) { if !self.stocked(p as usize) { System.dealloc(p, l) } }
}
pub fn quarantine(on: bool) {
    unsafe {
        let s = &mut *ST.0.get();
        s.on = on;
        s.stock = [(0, 0); 4];
        if !on {
            for k in 0..s.n {
                let (p, sz, al) = s.q[k];
                s.give(p as *mut u8, Layout::from_size_align_unchecked(sz, al));
            }
            s.n = 0;
            s.bytes = 0;
        }
    }
}
unsafe impl GlobalAlloc for Q {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = &mut *ST.0.get();
        let mut p = std::ptr::null_mut();
        if s.on { if let Some(b) = s.stock.iter_mut().find(|b| b.1 != 0 && b.0 == l.size()) { p = b.1 as *mut u8; b.1 = 0 } }
        if p.is_null() { p = System.alloc(l) }
        if !p.is_null() && (*ST.0.get()).on { std::ptr::write_bytes(p, FRESH, l.size().min(1 << 16)) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = &mut *ST.0.get();
        if s.on {
            if l.size() >= 8 && (p as *const u64).read_unaligned() == 0xDDDD_DDDD_DDDD_DDDD && s.q[..s.n].iter().any(|x| x.0 == p as usize) {
                DOUBLE_FREE = true;
                return;
            }
            if s.n < CAP && s.bytes + l.size() < (256 << 20) {
                std::ptr::write_bytes(p, FREED, l.size().min(1 << 16));
                s.q[s.n] = (p as usize, l.size(), l.align());
                s.n += 1;
                s.bytes += l.size();
                return;
            }
        }
        s.give(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let s = &*ST.0.get();
        if s.on || s.stocked(p as usize) {
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        } else { System.realloc(p, l, new) }
    }
}
