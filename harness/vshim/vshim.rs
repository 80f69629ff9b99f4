//! A stand-in for the `core` crate: everything is re-exported from the real one, except that
//! `core::sync::atomic` types report each access to `vshim_pre` / `vshim_post` (defined by the harness).
//! The crates under test are compiled with `--extern core=libvshim.rlib`; their source is not touched.
#![allow(unused_imports, missing_docs)]
pub use ::core::*;
pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::*;
        use ::core::sync::atomic as real;
        use ::core::{fmt, ops::{Deref, DerefMut}, result::Result};

        extern "C" {
            /// before the access; kind 0 load, 1 store, 2 rmw, 3 fence
            fn vshim_pre(kind: u32, addr: usize);
            /// after the access; `ord`: bit 0 acquire, bit 1 release (of what actually happened); `ok`: rmw succeeded
            fn vshim_post(kind: u32, addr: usize, ord: u32, old: u64, new: u64, ok: u32);
        }
        fn ord(o: Ordering) -> u32 {
            match o {
                Ordering::Relaxed => 0,
                Ordering::Acquire => 1,
                Ordering::Release => 2,
                Ordering::AcqRel => 3,
                _ => 3,
            }
        }
        pub fn fence(o: Ordering) {
            unsafe { vshim_pre(3, 0) };
            real::fence(o);
            unsafe { vshim_post(3, 0, ord(o), 0, 0, 1) };
        }
        macro_rules! common {
            ($name:ident, $t:ty, [$($g:tt)*], [$($ga:tt)*], $to:expr) => {
                #[repr(transparent)]
                pub struct $name $($g)* (real::$name $($ga)*);
                impl $($g)* $name $($ga)* {
                    #[inline] pub const fn new(x: $t) -> Self { Self(real::$name::new(x)) }
                    #[inline] fn ad(&self) -> usize { self as *const _ as *const u8 as usize }
                    pub fn load(&self, o: Ordering) -> $t {
                        let a = self.ad();
                        unsafe { vshim_pre(0, a) };
                        let r = self.0.load(o);
                        unsafe { vshim_post(0, a, ord(o) & 1, $to(r), $to(r), 1) };
                        r
                    }
                    pub fn store(&self, x: $t, o: Ordering) {
                        let a = self.ad();
                        unsafe { vshim_pre(1, a) };
                        let old = self.0.load(Ordering::Relaxed);
                        self.0.store(x, o);
                        unsafe { vshim_post(1, a, ord(o) & 2, $to(old), $to(x), 1) };
                    }
                    pub fn swap(&self, x: $t, o: Ordering) -> $t {
                        let a = self.ad();
                        unsafe { vshim_pre(2, a) };
                        let r = self.0.swap(x, o);
                        unsafe { vshim_post(2, a, ord(o), $to(r), $to(x), 1) };
                        r
                    }
                    pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        let a = self.ad();
                        unsafe { vshim_pre(2, a) };
                        let r = self.0.compare_exchange(c, n, s, f);
                        match r {
                            Ok(old) => unsafe { vshim_post(2, a, ord(s), $to(old), $to(n), 1) },
                            Err(old) => unsafe { vshim_post(2, a, ord(f) & 1, $to(old), $to(old), 0) },
                        }
                        r
                    }
                    pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.compare_exchange(c, n, s, f)
                    }
                    #[allow(deprecated)]
                    pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                        let f = match o { Ordering::AcqRel | Ordering::Acquire => Ordering::Acquire, Ordering::SeqCst => Ordering::SeqCst, _ => Ordering::Relaxed };
                        match self.compare_exchange(c, n, o, f) { Ok(x) => x, Err(x) => x }
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, fe: Ordering, mut f: F) -> Result<$t, $t> {
                        let mut prev = self.load(fe);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange(prev, next, s, fe) { Ok(x) => return Ok(x), Err(x) => prev = x }
                        }
                        Err(prev)
                    }
                    pub fn try_update(&self, s: Ordering, fe: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { self.fetch_update(s, fe, f) }
                    pub fn update(&self, s: Ordering, fe: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                        match self.fetch_update(s, fe, |x| Some(f(x))) { Ok(x) => x, Err(x) => x }
                    }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
                impl $($g)* fmt::Debug for $name $($ga)* {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) }
                }
                impl $($g)* From<$t> for $name $($ga)* { fn from(x: $t) -> Self { Self::new(x) } }
                impl $($g)* Deref for $name $($ga)* { type Target = real::$name $($ga)*; fn deref(&self) -> &Self::Target { &self.0 } }
                impl $($g)* DerefMut for $name $($ga)* { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
            };
        }
        macro_rules! ints {
            ($($name:ident : $t:ty),*) => { $(
                common!($name, $t, [], [], |x: $t| x as u64);
                impl Default for $name { fn default() -> Self { Self::new(0) } }
                impl $name {
                    ints!(@rmw $t, fetch_add, |a: $t, b: $t| a.wrapping_add(b));
                    ints!(@rmw $t, fetch_sub, |a: $t, b: $t| a.wrapping_sub(b));
                    ints!(@rmw $t, fetch_and, |a: $t, b: $t| a & b);
                    ints!(@rmw $t, fetch_nand, |a: $t, b: $t| !(a & b));
                    ints!(@rmw $t, fetch_or, |a: $t, b: $t| a | b);
                    ints!(@rmw $t, fetch_xor, |a: $t, b: $t| a ^ b);
                    ints!(@rmw $t, fetch_max, |a: $t, b: $t| if a > b { a } else { b });
                    ints!(@rmw $t, fetch_min, |a: $t, b: $t| if a < b { a } else { b });
                }
            )* };
            (@rmw $t:ty, $m:ident, $f:expr) => {
                pub fn $m(&self, x: $t, o: Ordering) -> $t {
                    let a = self.ad();
                    unsafe { vshim_pre(2, a) };
                    let r = self.0.$m(x, o);
                    unsafe { vshim_post(2, a, ord(o), r as u64, ($f)(r, x) as u64, 1) };
                    r
                }
            };
        }
        ints!(AtomicU8: u8, AtomicU16: u16, AtomicU32: u32, AtomicU64: u64, AtomicUsize: usize,
              AtomicI8: i8, AtomicI16: i16, AtomicI32: i32, AtomicI64: i64, AtomicIsize: isize);
        common!(AtomicBool, bool, [], [], |x: bool| x as u64);
        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        impl AtomicBool {
            ints!(@rmw bool, fetch_and, |a: bool, b: bool| a & b);
            ints!(@rmw bool, fetch_nand, |a: bool, b: bool| !(a & b));
            ints!(@rmw bool, fetch_or, |a: bool, b: bool| a | b);
            ints!(@rmw bool, fetch_xor, |a: bool, b: bool| a ^ b);
        }
        common!(AtomicPtr, *mut T, [<T>], [<T>], |x: *mut T| x as *mut u8 as usize as u64);
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::core::ptr::null_mut()) } }
    }
}
