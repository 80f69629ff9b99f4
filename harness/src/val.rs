//! Instrumented element values. `Tok`: heap-like value with identity, life-cycle and race tracking. `Sm`, `Cp`, `Lg`: plain Copy values.
use orx_concurrent_vec::{ConcurrentElement, ConcurrentSlice, ConcurrentVec, IntoConcurrentPinnedVec};
use crate::rt::{callback, dropping, rt, yield_point, Vc, MAXT};

pub struct Inst { pub alive: bool, pub val: u32, wr: (usize, u32), rd: Vc }
static mut REG: Vec<Inst> = Vec::new();
#[allow(static_mut_refs)]
pub fn reg() -> &'static mut Vec<Inst> { unsafe { &mut REG } }

pub trait Val: Clone + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    fn new(val: i64) -> Self;
    /// value, after checking that it is a proper live value read without a race; two-step with a scheduling point between
    fn get(&self) -> i64;
    fn set(&mut self, val: i64);
    /// value of something owned by the harness (checked, no scheduling point)
    fn peek(&self) -> i64;
    const TRACKED: bool;
    fn get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> { v.get_cloned(i) }
    fn sl_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentSlice<Self, P>, i: usize) -> Option<Self> { v.get_cloned(i) }
    fn copied(e: &ConcurrentElement<Self>) -> Self { e.cloned() }
}

/// value that is not equal to itself
pub const NAN: i64 = 777_777;
const MAGIC: u32 = 0x7e57_70c5;
const DEAD: u32 = 0xdead_70c5;
fn mix(val: u32, inst: u32) -> u32 { val.wrapping_mul(2654435761) ^ inst.rotate_left(16) ^ 0x5bd1_e995 }

#[repr(C)]
struct Raw { magic: u32, val: u32, inst: u32, chk: u32 }
#[repr(C)]
pub struct Tok { magic: u32, val: u32, inst: u32, chk: u32 }

impl Tok {
    fn check(&self, what: &str) -> bool {
        let r = rt();
        // volatile: shared references promise that nothing changes, which is what is checked
        let Raw { magic: m, val: v, inst: i, chk: c } = unsafe { std::ptr::read_volatile(self as *const Tok as *const Raw) };
        if m == DEAD { r.raise("dead", &format!("{what} of a value after its drop (val {v})")); return false }
        if m == 0xDDDD_DDDD { r.raise("freed", &format!("{what} of freed memory")); return false }
        if m != MAGIC || i as usize >= reg().len() { r.raise("garbage", &format!("{what} of memory holding no value ({m:x})")); return false }
        if c != mix(v, i) { r.raise("torn", &format!("{what} of a half-written value")); return false }
        if !reg()[i as usize].alive { r.raise("dead", &format!("{what} of a value after its drop (val {v})")); return false }
        true
    }
    fn rd(&self, what: &str) {
        let r = rt();
        if !r.active { return }
        let c = r.cur;
        let e = &mut reg()[self.inst as usize];
        let (w, k) = e.wr;
        if r.th[c].vc[w] < k { r.raise("race", &format!("{what} of value {} not ordered after its write by t{w}", self.val)); return }
        e.rd[c] = r.th[c].vc[c];
    }
    fn wr(&self, what: &str) {
        let r = rt();
        if !r.active { return }
        let c = r.cur;
        let e = &mut reg()[self.inst as usize];
        let (w, k) = e.wr;
        if r.th[c].vc[w] < k { r.raise("race", &format!("{what} of value {} not ordered after its write by t{w}", self.val)); return }
        for t in 0..MAXT {
            if r.th[c].vc[t] < e.rd[t] { r.raise("race", &format!("{what} of value {} not ordered after a read by t{t}", self.val)); return }
        }
        e.wr = (c, r.th[c].vc[c]);
        e.rd = [0; MAXT];
    }
}
impl Val for Tok {
    const TRACKED: bool = true;
    fn new(val: i64) -> Self {
        let r = rt();
        let inst = reg().len() as u32;
        let val = val as u32;
        reg().push(Inst { alive: true, val, wr: (r.cur, r.th[r.cur].vc[r.cur]), rd: [0; MAXT] });
        Tok { magic: MAGIC, val, inst, chk: mix(val, inst) }
    }
    fn get(&self) -> i64 {
        if !self.check("read") { return -777 }
        self.rd("read");
        let (v, i) = (self.val, self.inst);
        yield_point();
        if !self.check("read") { return -777 }
        self.rd("read");
        let n = unsafe { std::ptr::read_volatile(self as *const Tok as *const Raw) };
        if n.val != v || n.inst != i { rt().raise("torn", "value changed while it was being read") }
        v as i64
    }
    fn peek(&self) -> i64 {
        if !self.check("read") { return -777 }
        self.wr("hand-over");
        self.val as i64
    }
    fn set(&mut self, val: i64) {
        if !self.check("update") { return }
        self.wr("update");
        unsafe {
            std::ptr::write_volatile(&mut self.chk, 0);
            std::ptr::write_volatile(&mut self.val, val as u32);
        }
        yield_point();
        self.wr("update");
        self.chk = mix(self.val, self.inst);
        reg()[self.inst as usize].val = self.val;
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        callback("clone");
        Tok::new(self.get())
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        callback("eq");
        let (a, b) = (self.get(), o.get());
        a == b && a != NAN
    }
}
impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        callback("fmt");
        write!(f, "{}", self.get())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic == DEAD { rt().raise("double-drop", &format!("value {}", self.val)); return }
        if !self.check("drop") { return }
        let e = &mut reg()[self.inst as usize];
        e.alive = false;
        self.wr("drop");
        self.magic = DEAD;
        dropping();
    }
}

/// plain Copy values, self-checking: in one word of 4 bytes (20 bits of value), in 16 bytes and in 168 bytes
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Sm(u32);
impl Sm {
    fn enc(v: u32) -> Self { Sm((v & 0xfffff) | (mix(v & 0xfffff, 3) >> 20 << 20)) }
    fn dec(&self) -> Option<u32> { let v = self.0 & 0xfffff; (Self::enc(v).0 == self.0).then_some(v) }
    fn half(&mut self, v: u32) { self.0 = Self::enc(v).0 ^ 0x8010_0000 }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Cp { val: u32, chk: u32, v2: u64 }
impl Cp {
    fn enc(v: u32) -> Self { Cp { val: v, chk: mix(v, 7), v2: (v as u64) << 20 } }
    fn dec(&self) -> Option<u32> { let v = self.val; (self.chk == mix(v, 7) && self.v2 == (v as u64) << 20).then_some(v) }
    fn half(&mut self, v: u32) { self.chk = 0; self.val = v }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Lg { w: [u64; 21] }
impl Lg {
    fn enc(v: u32) -> Self { let mut w = [0; 21]; for (i, x) in w.iter_mut().enumerate() { *x = (v as u64) << 32 | mix(v, i as u32) as u64 } Lg { w } }
    fn dec(&self) -> Option<u32> { let v = (self.w[0] >> 32) as u32; (Self::enc(v).w == self.w).then_some(v) }
    fn half(&mut self, v: u32) { let n = Self::enc(v); self.w[..10].copy_from_slice(&n.w[..10]) }
}
macro_rules! plain { ($($T:ident)*) => { $(
impl Val for $T {
    const TRACKED: bool = false;
    fn get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentVec<Self, P>, i: usize) -> Option<Self> { v.get_copied(i) }
    fn sl_get_copied<P: IntoConcurrentPinnedVec<ConcurrentElement<Self>>>(v: &ConcurrentSlice<Self, P>, i: usize) -> Option<Self> { v.get_copied(i) }
    fn copied(e: &ConcurrentElement<Self>) -> Self { e.copied() }
    fn new(val: i64) -> Self { Self::enc(val as u32) }
    fn get(&self) -> i64 {
        // volatile: the value must be read twice, whatever a shared reference promises
        let v = unsafe { std::ptr::read_volatile(self) }.dec();
        yield_point();
        let w = unsafe { std::ptr::read_volatile(self) }.dec();
        if v.is_none() || w.is_none() { rt().raise("garbage", "plain value never written or half-written"); return -777 }
        if w != v { rt().raise("torn", "plain value changed while it was being read"); return -777 }
        v.unwrap() as i64
    }
    fn peek(&self) -> i64 {
        let v = self.dec();
        if v.is_none() { rt().raise("garbage", "plain value never written or half-written"); return -777 }
        v.unwrap() as i64
    }
    fn set(&mut self, val: i64) {
        let mut h = *self;
        h.half(val as u32);
        unsafe { std::ptr::write_volatile(self, h) }
        yield_point();
        *self = Self::enc(val as u32)
    }
}
impl PartialEq for $T {
    fn eq(&self, o: &Self) -> bool { callback("eq"); let (a, b) = (self.get(), o.get()); a == b && a != NAN }
}
impl std::fmt::Debug for $T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { callback("fmt"); write!(f, "{}", self.get()) }
}
)* } }
plain!(Sm Cp Lg);
