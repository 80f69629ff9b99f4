//! Asks the compiler which types of the crate are Send and Sync for element types with and without these traits.
//! Prints one line "kind storage how send sync granted" per question (send, sync: of the element type).
use orx_concurrent_vec::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::{MutexGuard};

use std::marker::PhantomData;

struct W<T>(PhantomData<T>);
impl<T: Send> W<T> { fn is_send(&self) -> bool { true } }
impl<T: Sync> W<T> { fn is_sync(&self) -> bool { true } }
trait Otherwise { fn is_send(&self) -> bool { false } fn is_sync(&self) -> bool { false } }
impl<T> Otherwise for &W<T> {}
/// the type of the result of a closure that is never called
fn of<T>(_: impl FnOnce() -> T) -> W<T> { W(PhantomData) }
fn never<T>() -> T { unreachable!() }

macro_rules! row { ($kind:expr, $st:expr, $el:expr, $x:expr) => {
    println!("{} {} send {} {}", $kind, $st, $el, (&of(|| $x)).is_send() as u8);
    println!("{} {} share {} {}", $kind, $st, $el, (&of(|| $x)).is_sync() as u8);
} }
macro_rules! storage { ($st:expr, $p:ty, $el:expr, $t:ty) => {{
    type V = ConcurrentVec<$t, $p>;
    let v = never::<&'static V>;
    let s = never::<&'static ConcurrentSlice<'static, $t, $p>>;
    row!("vec", $st, $el, never::<V>());
    row!("slice", $st, $el, v().as_slice());
    row!("iter", $st, $el, v().iter());
    row!("chunks", $st, $el, v().chunks(1));
    row!("map", $st, $el, v().map(|_| 1u8));
    row!("iter_ref", $st, $el, unsafe { v().iter_ref() });
    row!("iter_mut", $st, $el, unsafe { v().iter_mut() });
    row!("slice_iter", $st, $el, s().iter());
    row!("slice_chunks", $st, $el, s().chunks(1));
    row!("slice_iter_mut", $st, $el, unsafe { s().iter_mut() });
    row!("pinned", $st, $el, never::<V>().into_inner());
    row!("into_iter", $st, $el, never::<V>().into_iter());
}} }
macro_rules! element { ($el:expr, $t:ty) => {{
    storage!("doubling", SplitVec<ConcurrentElement<$t>, Doubling>, $el, $t);
    storage!("linear", SplitVec<ConcurrentElement<$t>, Linear>, $el, $t);
    storage!("fixed", FixedVec<ConcurrentElement<$t>>, $el, $t);
    row!("element", "-", $el, never::<ConcurrentElement<$t>>());
}} }
fn main() {
    element!("1 1", u32);
    element!("1 0", Cell<u32>);
    element!("0 1", MutexGuard<'static, u32>);
    element!("0 0", Rc<u32>);
}
