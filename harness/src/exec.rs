//! Interprets programs on the real ConcurrentVec and records the call/return history.
use crate::hist::hist;
use crate::prog::{Op, Prog, Storage};
use crate::rt::{callback, rt, Armed, wait_returned, yield_point};
use crate::val::{reg, Val};
use orx_concurrent_option::ConcurrentOption;
use orx_concurrent_vec::{ConcurrentElement, ConcurrentSlice, ConcurrentVec, Doubling, FixedVec, IntoConcurrentPinnedVec, Linear, PinnedVec, SplitVec};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

type El<T> = ConcurrentElement<T>;
type Cv<S> = ConcurrentVec<<S as Store>::T, <S as Store>::P>;
type Sl<S> = ConcurrentSlice<'static, <S as Store>::T, <S as Store>::P>;

pub enum View<'a, S: Store> { V(&'a Cv<S>), S(&'a ConcurrentSlice<'a, S::T, S::P>) }

/// iterator handed to growing calls: creates each value when asked for it (a user callback)
pub struct It<T> { vals: std::vec::IntoIter<i64>, len: usize, ph: std::marker::PhantomData<T> }
impl<T: Val> It<T> {
    fn new(v: &[i64]) -> Self { It { vals: v.to_vec().into_iter(), len: v.len(), ph: Default::default() } }
    fn with_len(v: &[i64], len: usize) -> Self { It { len, ..Self::new(v) } }
}
impl<T: Val> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let v = self.vals.next()?;
        self.len = self.len.saturating_sub(1);
        callback("iterator");
        Some(T::new(v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.len, Some(self.len)) }
}
/// an iterator with any correct size hint
struct Hint<T>(It<T>, usize, Option<usize>);
impl<T: Val> Iterator for Hint<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.0.next()?;
        self.1 = self.1.saturating_sub(1);
        self.2 = self.2.map(|h| h - 1);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, self.2) }
}
impl<T: Val> ExactSizeIterator for It<T> { fn len(&self) -> usize { self.len } }

/// the same behind `into_iter` and with a drop, both of them user callbacks
struct Src<T>(Vec<i64>, std::marker::PhantomData<T>);
struct SrcIt<T: Val>(It<T>);
impl<T: Val> Src<T> { fn new(v: &[i64]) -> Self { Src(v.to_vec(), Default::default()) } }
impl<T: Val> IntoIterator for Src<T> {
    type Item = T;
    type IntoIter = SrcIt<T>;
    fn into_iter(self) -> SrcIt<T> { callback("into_iter"); SrcIt(It::new(&self.0)) }
}
impl<T: Val> Iterator for SrcIt<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<T: Val> ExactSizeIterator for SrcIt<T> { fn len(&self) -> usize { self.0.len() } }
impl<T: Val> Drop for SrcIt<T> { fn drop(&mut self) { callback("iterator drop") } }

pub trait Store: Sized + 'static {
    type T: Val;
    type P: IntoConcurrentPinnedVec<El<Self::T>> + 'static;
    fn make(st: &Storage) -> Cv<Self>;
    fn pinned(st: &Storage, vals: &[i64]) -> Self::P;
    fn clone_vec(_: &Cv<Self>) -> Option<Cv<Self>> { None }
    fn collect(_: i64, _: &[i64]) -> Option<Cv<Self>> { None }
    fn other(_: &[i64]) -> Option<Cv<Self>> { None }
    fn eq(_: View<Self>, _: View<Self>) -> Option<bool> { None }
    fn eq_sl(_: View<Self>, _: &[Self::T]) -> Option<bool> { None }
    fn eq_ar(_: View<Self>, _: Vec<Self::T>) -> Option<bool> { None }
    fn deflt() -> Option<Cv<Self>> { None }
}
pub struct Dbl<T>(T);
pub struct Lin<T>(T);
pub struct Fix<T>(T);
fn el<T: Val>(v: i64) -> El<T> { ConcurrentOption::some(T::new(v)).into() }
impl<T: Val> Store for Lin<T> {
    type T = T;
    type P = SplitVec<El<T>, Linear>;
    fn make(st: &Storage) -> Cv<Self> { match st { Storage::Lin(a, b) => ConcurrentVec::with_linear_growth(*a, *b), _ => unreachable!() } }
    fn pinned(st: &Storage, vals: &[i64]) -> Self::P {
        let mut p = match st { Storage::Lin(a, b) => SplitVec::with_linear_growth_and_fragments_capacity(*a, *b), _ => unreachable!() };
        for v in vals { p.push(el(*v)) }
        p
    }
}
impl<T: Val> Store for Fix<T> {
    type T = T;
    type P = FixedVec<El<T>>;
    fn make(st: &Storage) -> Cv<Self> { match st { Storage::Fix(n) => ConcurrentVec::with_fixed_capacity(*n), _ => unreachable!() } }
    fn pinned(st: &Storage, vals: &[i64]) -> Self::P {
        let mut p = match st { Storage::Fix(n) => FixedVec::new(*n), _ => unreachable!() };
        for v in vals { p.push(el(*v)) }
        p
    }
}
impl<T: Val> Store for Dbl<T> {
    type T = T;
    type P = SplitVec<El<T>, Doubling>;
    fn make(st: &Storage) -> Cv<Self> { match st {
        Storage::Dbl(32) => ConcurrentVec::new(),
        Storage::Dbl(n) => SplitVec::with_doubling_growth_and_fragments_capacity(*n).into(),
        _ => unreachable!(),
    } }
    fn pinned(st: &Storage, vals: &[i64]) -> Self::P {
        let n = match st { Storage::Dbl(n) => *n, _ => unreachable!() };
        let mut p = SplitVec::with_doubling_growth_and_fragments_capacity(n);
        for v in vals { p.push(el(*v)) }
        p
    }
    fn clone_vec(v: &Cv<Self>) -> Option<Cv<Self>> { Some(v.clone()) }
    fn collect(h: i64, vals: &[i64]) -> Option<Cv<Self>> {
        Some(match h {
            0 => It::new(vals).collect(),
            1 => It::new(vals).filter(|_| true).collect(),
            2 => vals.iter().map(|v| T::new(*v)).collect(),
            // hints: nonzero lower bound below the upper one; no upper bound; exact but unbounded above
            4 => std::iter::once(T::new(vals[0])).chain(It::new(&vals[1..]).filter(|_| true)).collect(),
            5 => { let mut it = It::new(vals); std::iter::from_fn(move || it.next()).collect() }
            6 => { let mut it = It::new(&vals[1..]); std::iter::once(T::new(vals[0])).chain(std::iter::from_fn(move || it.next())).collect() }
            7 => It::new(&vals[..1]).chain(It::new(&vals[1..]).take_while(|_| true)).collect(),
            8 => It::new(vals).step_by(1).collect(),
            // 1ab: lower bound a below the number of values (9: zero), upper bound b above it (8: the largest number, 9: none)
            100.. => {
                let (lo, hi) = ((h / 10 % 10) as usize, (h % 10) as usize);
                let n = vals.len();
                Hint(It::new(vals), if lo == 9 { 0 } else { n.saturating_sub(lo) }, match hi { 9 => None, 8 => Some(usize::MAX), _ => Some(n + hi) }).collect()
            }
            _ => std::iter::once(T::new(vals[0])).chain(It::new(&vals[1..])).collect(),
        })
    }
    fn deflt() -> Option<Cv<Self>> { Some(Default::default()) }
    fn other(vals: &[i64]) -> Option<Cv<Self>> {
        let v = ConcurrentVec::new();
        for x in vals { v.push(T::new(*x)); }
        Some(v)
    }
    fn eq(l: View<Self>, r: View<Self>) -> Option<bool> {
        Some(match (l, r) {
            (View::V(a), View::V(b)) => a == b,
            (View::V(a), View::S(b)) => a == b,
            (View::S(a), View::V(b)) => a == b,
            (View::S(a), View::S(b)) => a == b,
        })
    }
    fn eq_sl(l: View<Self>, r: &[T]) -> Option<bool> { Some(match l { View::V(a) => a == r, View::S(a) => a == r }) }
    fn eq_ar(l: View<Self>, r: Vec<T>) -> Option<bool> {
        macro_rules! go { ($($n:literal),*) => { match r.len() { $($n => { let Ok(a): Result<[T; $n], _> = r.try_into() else { unreachable!() }; match l { View::V(v) => v == &a, View::S(v) => v == &a } })* _ => return None } } }
        Some(go!(0, 1, 2, 3, 4, 5, 6))
    }
}

pub struct W<S: Store> {
    st: Storage,
    vec: Option<Box<Cv<S>>>,
    regs: Vec<Option<&'static Sl<S>>>,
    slices: Vec<*mut Sl<S>>,
    handles: Vec<Option<(&'static El<S::T>, i64)>>,
    iters: Vec<Option<Box<dyn FnMut() -> Option<i64>>>>,
    chunks: Vec<Option<Box<dyn ExactSizeIterator<Item = Sl<S>>>>>,
    refs: Vec<(usize, i64, *const S::T)>,
    addr: HashMap<(u8, usize), usize>,
}
type R = (&'static str, Vec<i64>);
/// consumes an iterator in one of several ways
fn adapt<I: Iterator>(mut it: I, kind: i64, n: usize, own: impl Fn(I::Item) -> i64) -> Vec<i64> {
    let left = |it: &I, rest: &[i64]| { let (a, b) = it.size_hint(); a <= rest.len() && b.map_or(true, |b| b >= rest.len()) };
    match kind {
        0 => it.take(n).map(own).collect(),
        1 => it.skip(n).map(own).collect(),
        2 => it.step_by(n).map(own).collect(),
        3 => { let mut r: Vec<i64> = it.nth(n).map(&own).into_iter().collect(); while let Some(x) = it.next() { r.push(own(x)) } r }
        4 => it.last().map(own).into_iter().collect(),
        5 => vec![it.count() as i64],
        6 => { let mut r = vec![]; it.for_each(|x| r.push(own(x))); r }
        // what is announced after n values
        _ => {
            let mut r: Vec<i64> = vec![];
            for _ in 0..n { match it.next() { Some(x) => r.push(own(x)), None => break } }
            let hint = it.size_hint();
            let m = r.len();
            while let Some(x) = it.next() { r.push(own(x)) }
            let k = r.len() - m;
            if hint.0 > k || hint.1.is_some_and(|b| b < k) || !left(&it, &[]) { r.push(-999) }
            r
        }
    }
}
fn big(n: usize) -> i64 { n.min(1_000_000_000) as i64 }
fn us(x: i64) -> usize { if x < 0 { usize::MAX } else { x as usize } }
fn b(x: bool) -> R { ("ok", vec![x as i64]) }

macro_rules! on { ($w:expr, $op:expr, $x:ident => $e:expr) => { if $op.src == 0 { let $x = $w.v(); $e } else { let $x = $w.r($op.src); $e } } }

impl<S: Store> W<S> {
    pub fn new(p: &Prog) -> Self {
        W { st: p.storage.clone(), vec: None, regs: (0..32).map(|_| None).collect(), slices: vec![], handles: (0..16).map(|_| None).collect(),
            iters: (0..8).map(|_| None).collect(), chunks: (0..8).map(|_| None).collect(), refs: vec![], addr: HashMap::new() }
    }
    fn v(&self) -> &'static Cv<S> { unsafe { &*(&**self.vec.as_ref().expect("HARNESS: vec is gone") as *const _) } }
    fn r(&self, k: usize) -> &'static Sl<S> { self.regs[k].expect("HARNESS: no slice") }
    fn view(&self, k: usize) -> View<'static, S> { if k == 0 { View::V(self.v()) } else { View::S(self.r(k)) } }
    fn setr(&mut self, k: i64, s: ConcurrentSlice<'_, S::T, S::P>) {
        let s: Sl<S> = unsafe { std::mem::transmute(s) };
        // stays where it is while iterators may borrow it, also when the register is set again
        let p = Box::into_raw(Box::new(s));
        self.slices.push(p);
        self.regs[k as usize] = Some(unsafe { &*p })
    }
    fn pin(&mut self, src: usize, kind: u8, i: i64, addr: usize) {
        if src != 0 { return }
        let a = *self.addr.entry((kind, us(i))).or_insert(addr);
        if a != addr { rt().raise("moved", &format!("element {i} changed its address")) }
    }
    fn excl(&mut self) {
        self.iters.iter_mut().for_each(|x| *x = None);
        self.chunks.iter_mut().for_each(|x| *x = None);
        self.regs.iter_mut().for_each(|x| *x = None);
        self.slices.drain(..).for_each(|p| drop(unsafe { Box::from_raw(p) }));
        self.handles.iter_mut().for_each(|x| *x = None);
        self.refs.clear();
        self.addr.clear();
    }
    fn elem(&mut self, op: &Op, i: i64) -> Option<&'static El<S::T>> {
        let e: Option<&'static El<S::T>> = on!(self, op, x => x.get(us(i)));
        if let Some(e) = e { self.pin(op.src, 0, i, e as *const _ as usize) }
        e
    }
    /// values of a consumed element list
    fn own(t: S::T) -> i64 { t.peek() }

    pub fn run(&mut self, op: &Op) -> R {
        let a = &op.a[..];
        let seen: RefCell<Vec<i64>> = RefCell::new(vec![]);
        let see = |x: &S::T| { callback("closure"); let g = x.get(); seen.borrow_mut().push(g); g };
        let opt = |o: Option<S::T>| match o { Some(x) => ("some", vec![Self::own(x)]), None => ("none", vec![]) };
        match op.name.as_str() {
            // ---- construction (setup)
            "new" => { self.excl(); self.vec = Some(Box::new(S::make(&self.st))); ("ok", vec![]) }
            "newdef" => match S::deflt() { Some(v) => { self.excl(); self.vec = Some(Box::new(v)); ("ok", vec![]) } None => ("skip", vec![]) },
            "from" => {
                self.excl();
                self.vec = None;
                let v: Cv<S> = S::pinned(&self.st, a).into();
                let m = big(v.maximum_capacity());
                self.vec = Some(Box::new(v));
                ("ok", vec![m])
            }
            "coll" => {
                self.excl();
                self.vec = None;
                match S::collect(a[0], &a[1..]) { Some(v) => { self.vec = Some(Box::new(v)); ("ok", vec![]) } None => ("skip", vec![]) }
            }
            // ---- growth
            "push" => { let x = S::T::new(a[0]); ("ok", vec![self.v().push(x) as i64]) }
            "pushf" => {
                let mut arg = vec![];
                let i = self.v().push_for_idx(|i| { arg.push(i as i64); callback("closure"); S::T::new(a[0]) });
                let mut r = vec![i as i64];
                r.extend(arg);
                ("ok", r)
            }
            // callbacks that wait until the given number of other calls have returned
            "pushw" => { let mut r = vec![]; let i = self.v().push_for_idx(|i| { r.push(i as i64); wait_returned(a[1] as u64); S::T::new(a[0]) }); r.insert(0, i as i64); ("ok", r) }
            "extw" => { let n = a[0] as u64; let it = It::<S::T>::new(&a[1..]).map(|x| { wait_returned(n); x }); ("ok", vec![big(self.v().extend(it))]) }
            "mapw" => match self.elem(op, a[0]) { Some(e) => ("some", vec![e.map(|x| { wait_returned(a[1] as u64); x.get() })]), None => ("none", vec![]) },
            "updw" => match self.elem(op, a[0]) { Some(e) => { let mut o = vec![]; e.update(|x| { wait_returned(a[2] as u64); o.push(x.get()); x.set(a[1]) }); ("some", o) } None => ("none", vec![]) },
            // the closure itself pushes a[1]
            "pushr" => {
                let mut arg = vec![];
                let v = self.v();
                let i = v.push_for_idx(|i| { arg.push(i as i64); arg.push(v.push(S::T::new(a[1])) as i64); S::T::new(a[0]) });
                let mut r = vec![i as i64];
                r.extend(arg);
                ("ok", r)
            }
            "ext" => ("ok", vec![big(self.v().extend(It::<S::T>::new(a)))]),
            "extv" => { let xs: Vec<S::T> = a.iter().map(|x| S::T::new(*x)).collect(); ("ok", vec![big(self.v().extend(xs))]) }
            "extf" => {
                let mut arg = vec![];
                let i = self.v().extend_for_idx(|i| { arg.push(big(i)); callback("closure"); It::<S::T>::new(a) }, a.len());
                let mut r = vec![big(i)];
                r.extend(arg);
                ("ok", r)
            }
            "exti" => ("ok", vec![big(self.v().extend(Src::<S::T>::new(a)))]),
            "extni" => ("ok", vec![big(self.v().extend_n_items(Src::<S::T>::new(&a[1..]), us(a[0])))]),
            "extfi" => {
                let mut arg = vec![];
                let i = self.v().extend_for_idx(|i| { arg.push(big(i)); callback("closure"); Src::<S::T>::new(a) }, a.len());
                let mut r = vec![big(i)];
                r.extend(arg);
                ("ok", r)
            }
            // closure returns an iterator of another length
            "extfl" => {
                let n = us(a[0]);
                let i = self.v().extend_for_idx(|_| It::<S::T>::new(&a[1..]), n);
                ("ok", vec![big(i)])
            }
            // ExactSizeIterator that lies about its length
            "extlie" => ("ok", vec![big(self.v().extend(It::<S::T>::with_len(&a[1..], us(a[0]))))]),
            "extn" => ("ok", vec![big(self.v().extend_n_items(It::<S::T>::new(&a[1..]), us(a[0])))]),
            // ---- length, capacity
            "len" => ("ok", vec![on!(self, op, x => x.len()) as i64]),
            "isempty" => b(on!(self, op, x => x.is_empty())),
            "cap" => ("ok", vec![big(self.v().capacity())]),
            "maxcap" => ("ok", vec![big(self.v().maximum_capacity())]),
            // ---- element reads
            "get" => if self.elem(op, a[0]).is_some() { ("some", vec![]) } else { ("none", vec![]) },
            "getc" => opt(self.elem(op, a[0]).map(|e| e.cloned())),
            "getcp" => opt(self.elem(op, a[0]).map(|e| S::T::copied(e))),
            "getm" => { let r = self.elem(op, a[0]).map(|e| e.map(|x| see(x))); match r { Some(x) => ("some", vec![x]), None => ("none", vec![]) } }
            "gcl" => opt(on!(self, op, x => x.get_cloned(us(a[0])))),
            "gcp" => opt(if op.src == 0 { S::T::get_copied(self.v(), us(a[0])) } else { S::T::sl_get_copied(self.r(op.src), us(a[0])) }),
            "idx" => { let e: &El<S::T> = on!(self, op, x => &x[us(a[0])]); self.pin(op.src, 0, a[0], e as *const _ as usize); ("some", vec![Self::own(e.cloned())]) }
            // ---- element updates
            "rep" => { let v = S::T::new(a[1]); opt(self.elem(op, a[0]).map(|e| e.replace(v))) }
            "set" => { let v = S::T::new(a[1]); match self.elem(op, a[0]) { Some(e) => { let _d = Armed::new(op.pan); e.set(v); ("some", vec![]) } None => ("none", vec![]) } }
            // the new value is assigned by the closure, which drops the old one in place
            "updd" => { let mut v = Some(S::T::new(a[1])); match self.elem(op, a[0]) { Some(e) => { let _d = Armed::new(op.pan); e.update(|x| if let Some(v) = v.take() { *x = v }); ("some", vec![]) } None => ("none", vec![]) } }
            "upd" => match self.elem(op, a[0]) { Some(e) => { e.update(|x| { see(x); x.set(a[1]) }); ("some", seen.into_inner()) } None => ("none", vec![]) },
            "add" => match self.elem(op, a[0]) { Some(e) => { e.update(|x| { let g = see(x); x.set(g + a[1]) }); ("some", seen.into_inner()) } None => ("none", vec![]) },
            // update that panics after having modified the value
            "upda" => match self.elem(op, a[0]) { Some(e) => { e.update(|x| { see(x); x.set(a[1]); panic!("injected panic after update") }); ("some", vec![]) } None => ("none", vec![]) },
            // ---- handles kept over time
            "hold" => { let e = self.elem(op, a[0]); self.handles[a[1] as usize] = e.map(|e| (e, a[0])); if e.is_some() { ("some", vec![]) } else { ("none", vec![]) } }
            "hc" => match self.handles[a[0] as usize] { Some((e, p)) => ("some", vec![p, Self::own(e.cloned())]), None => ("skip", vec![]) },
            "hm" => match self.handles[a[0] as usize] { Some((e, p)) => ("some", vec![p, e.map(|x| see(x))]), None => ("skip", vec![]) },
            "hr" => match self.handles[a[0] as usize] { Some((e, p)) => ("some", vec![p, Self::own(e.replace(S::T::new(a[1])))]), None => ("skip", vec![]) },
            "hu" => match self.handles[a[0] as usize] { Some((e, p)) => { e.update(|x| { see(x); x.set(a[1]) }); ("some", vec![p, seen.into_inner()[0]]) } None => ("skip", vec![]) },
            // ---- many elements
            "swap" => b(on!(self, op, x => x.swap(us(a[0]), us(a[1])))),
            "fill" => { let v = S::T::new(a[0]); on!(self, op, x => x.fill(v)); ("ok", vec![]) }
            "fillw" => {
                on!(self, op, x => x.fill_with(|i| { callback("closure"); seen.borrow_mut().push(i as i64); S::T::new(a[0] + i as i64) }));
                ("ok", seen.into_inner())
            }
            // the drop of a value panics
            "filld" => { let v = S::T::new(a[0]); let _d = Armed::new(op.pan); on!(self, op, x => x.fill(v)); ("ok", vec![]) }
            "fillwd" => {
                { let _d = Armed::new(op.pan); on!(self, op, x => x.fill_with(|i| { seen.borrow_mut().push(i as i64); S::T::new(a[0] + i as i64) })) };
                ("ok", seen.into_inner())
            }
            // ---- iteration
            "itc" => ("ok", on!(self, op, x => x.iter().map(|e| Self::own(e.cloned())).collect())),
            "itm" => ("ok", on!(self, op, x => x.iter().map(|e| e.map(|y| see(y))).collect())),
            "itcl" => ("ok", on!(self, op, x => x.iter_cloned().map(Self::own).collect())),
            "map" => ("ok", on!(self, op, x => x.map(|y| see(y)).collect())),
            "fold" => ("ok", on!(self, op, x => x.fold(vec![], |mut acc: Vec<i64>, y| { acc.push(see(y)); acc }))),
            "filt" => {
                on!(self, op, x => for e in x.filter(|y| see(y) % 2 == 0) { let v = Self::own(e.cloned()); seen.borrow_mut().push(v) });
                ("ok", seen.into_inner())
            }
            "red" => {
                let agg: RefCell<Option<i64>> = RefCell::new(None);
                let f = |x: &S::T, y: &S::T| {
                    callback("closure");
                    let (p, q) = (x.get(), y.get());
                    let mut s = seen.borrow_mut();
                    match *agg.borrow() { None => s.push(p), Some(g) => if g != p { s.push(-999) } }
                    s.push(q);
                    *agg.borrow_mut() = Some((p + q) % 1_000_000);
                    S::T::new((p + q) % 1_000_000)
                };
                let r = on!(self, op, x => x.reduce(&f));
                match r {
                    None => ("none", vec![]),
                    Some(r) => {
                        let r = Self::own(r);
                        let mut s = seen.into_inner();
                        match agg.into_inner() { None => s.push(r), Some(g) => if g != r { s.push(-999) } }
                        ("some", s)
                    }
                }
            }
            "cvec" => ("ok", on!(self, op, x => x.clone_to_vec()).into_iter().map(Self::own).collect()),
            "clonev" => match S::clone_vec(self.v()) { Some(c) => ("ok", c.to_vec().into_iter().map(Self::own).collect()), None => ("skip", vec![]) },
            "dbg" => { let s = on!(self, op, x => format!("{:?}", x)); ("ok", parse_dbg(&s)) }
            "dbge" => match self.elem(op, a[0]) { Some(e) => { let s = format!("{:?}", e); ("some", vec![s.parse().unwrap_or(-999)]) } None => ("none", vec![]) },
            // a[0]: which iterator, a[1]: how it is consumed, a[2]: a number
            "ita" => ("ok", on!(self, op, x => match a[0] {
                0 => adapt(x.iter(), a[1], us(a[2]), |e| Self::own(e.cloned())),
                1 => adapt(x.iter_cloned(), a[1], us(a[2]), Self::own),
                _ => adapt(x.map(|y| { callback("closure"); y.get() }), a[1], us(a[2]), |y| y),
            })),
            "itopen" => { on!(self, op, x => { let mut it = x.iter(); self.iters[a[0] as usize] = Some(Box::new(move || it.next().map(|e| Self::own(e.cloned())))) }); ("ok", vec![]) }
            "icopen" => { on!(self, op, x => { let mut it = x.iter_cloned(); self.iters[a[0] as usize] = Some(Box::new(move || it.next().map(Self::own))) }); ("ok", vec![]) }
            "imopen" => { on!(self, op, x => { let mut it = x.map(|y| { callback("closure"); y.get() }); self.iters[a[0] as usize] = Some(Box::new(move || it.next())) }); ("ok", vec![]) }
            "itnext" => match self.iters[a[0] as usize].as_mut() { None => ("skip", vec![]), Some(f) => match f() { Some(x) => ("some", vec![x]), None => ("none", vec![]) } },
            // ---- comparison and search
            "idxof" => { let v = S::T::new(a[0]); match on!(self, op, x => x.index_of(&v)) { Some(i) => ("some", vec![i as i64]), None => ("none", vec![]) } }
            "cont" => { let v = S::T::new(a[0]); b(on!(self, op, x => x.contains(&v))) }
            "eqe" => { let (x, y) = (self.elem(op, a[0]), self.elem(op, a[1])); match (x, y) { (Some(x), Some(y)) => ("some", vec![(x == y) as i64]), _ => ("none", vec![]) } }
            "eqt" => { let v = S::T::new(a[1]); match self.elem(op, a[0]) { Some(x) => ("some", vec![(x == &v) as i64]), _ => ("none", vec![]) } }
            "eqr" => match S::eq(self.view(op.src), self.view(a[0] as usize)) { Some(x) => b(x), None => ("skip", vec![]) },
            "eqv" => match S::other(&a[1..]) {
                None => ("skip", vec![]),
                Some(o) => {
                    let o: &'static Cv<S> = unsafe { &*(Box::leak(Box::new(o)) as *const _) };
                    struct D<S: Store>(*mut Cv<S>);
                    impl<S: Store> Drop for D<S> { fn drop(&mut self) { drop(unsafe { Box::from_raw(self.0) }) } }
                    let _d = D::<S>(o as *const _ as *mut _);
                    let os = o.as_slice();
                    let os: &'static Sl<S> = unsafe { &*(&os as *const _ as *const Sl<S>) };
                    let r = match a[0] {
                        0 => S::eq(self.view(op.src), View::V(o)),
                        1 => S::eq(View::V(o), self.view(op.src)),
                        2 => S::eq(self.view(op.src), View::S(os)),
                        _ => S::eq(View::S(os), self.view(op.src)),
                    };
                    b(r.unwrap())
                }
            },
            "eqsl" => { let xs: Vec<S::T> = a.iter().map(|x| S::T::new(*x)).collect(); match S::eq_sl(self.view(op.src), &xs) { Some(x) => b(x), None => ("skip", vec![]) } }
            "eqar" => { let xs: Vec<S::T> = a.iter().map(|x| S::T::new(*x)).collect(); match S::eq_ar(self.view(op.src), xs) { Some(x) => b(x), None => ("skip", vec![]) } }
            // ---- raw access
            "raw" => match on!(self, op, x => x.get_raw(us(a[0]))) { Some(p) => { self.pin(op.src, 1, a[0], p as usize); ("some", vec![]) } None => ("none", vec![]) },
            "rawm" => match on!(self, op, x => x.get_raw_mut(us(a[0]))) { Some(p) => { self.pin(op.src, 1, a[0], p as usize); ("some", vec![]) } None => ("none", vec![]) },
            "rawv" => match on!(self, op, x => x.get_raw(us(a[0]))) { Some(p) => { self.pin(op.src, 1, a[0], p as usize); ("some", vec![unsafe { (*p).get() }]) } None => ("none", vec![]) },
            "rawmset" => match on!(self, op, x => x.get_raw_mut(us(a[0]))) { Some(p) => { self.pin(op.src, 1, a[0], p as usize); let r = unsafe { &mut *p }; let o = r.get(); r.set(a[1]); ("some", vec![o]) } None => ("none", vec![]) },
            "ref" => match unsafe { on!(self, op, x => x.get_ref(us(a[0]))) } {
                Some(p) => { let q = p as *const S::T; self.pin(op.src, 1, a[0], q as usize); if op.src == 0 { self.refs.push((rt().cur, a[0], q)) } ("some", vec![p.get()]) }
                None => ("none", vec![]),
            },
            "mutset" => match unsafe { on!(self, op, x => x.get_mut(us(a[0]))) } {
                Some(p) => { self.pin(op.src, 1, a[0], p as *const _ as usize); let o = p.get(); p.set(a[1]); ("some", vec![o]) }
                None => ("none", vec![]),
            },
            "mutg" => match unsafe { on!(self, op, x => x.get_mut(us(a[0]))) } { Some(p) => { self.pin(op.src, 1, a[0], p as *const _ as usize); ("some", vec![]) } None => ("none", vec![]) },
            "itref" => ("ok", unsafe { on!(self, op, x => x.iter_ref().map(|y| y.get()).collect()) }),
            "itmutn" => ("ok", vec![unsafe { on!(self, op, x => x.iter_mut().count()) } as i64]),
            "itmut" => ("ok", unsafe { on!(self, op, x => x.iter_mut().map(|y| { let g = y.get(); y.set(g + a[0]); g }).collect()) }),
            "reref" => { let mut r = vec![]; for (_, p, q) in self.refs.clone().into_iter().filter(|x| x.0 == 0 || x.0 == rt().cur) { r.push(p); r.push(unsafe { (*q).get() }) } ("ok", r) }
            // ---- slicing
            "slice" => {
                let (s, e) = (us(a[2]), us(a[3]));
                let sl = match a[1] {
                    0 => on!(self, op, x => x.slice(s..e)),
                    1 => on!(self, op, x => x.slice(s..=e)),
                    2 => on!(self, op, x => x.slice(..e)),
                    3 => on!(self, op, x => x.slice(s..)),
                    4 => on!(self, op, x => x.slice(..)),
                    6 => on!(self, op, x => x.slice((Bound::Excluded(s), Bound::Excluded(e)))),
                    7 => on!(self, op, x => x.slice((Bound::Excluded(s), Bound::Unbounded))),
                    _ => on!(self, op, x => x.slice(..=e)),
                };
                let n = sl.len() as i64;
                self.setr(a[0], sl);
                ("ok", vec![n])
            }
            "asl" => { let s = self.v().as_slice(); let n = s.len() as i64; self.setr(a[0], s); ("ok", vec![n]) }
            "spat" => { let (x, y) = on!(self, op, x => x.split_at(us(a[2]))); let r = vec![x.len() as i64, y.len() as i64]; self.setr(a[0], x); self.setr(a[1], y); ("ok", r) }
            "spf" => match on!(self, op, x => x.split_first()) { Some((e, s)) => { let r = vec![Self::own(e.cloned()), s.len() as i64]; self.setr(a[0], s); ("some", r) } None => ("none", vec![]) },
            "spl" => match on!(self, op, x => x.split_last()) { Some((e, s)) => { let r = vec![Self::own(e.cloned()), s.len() as i64]; self.setr(a[0], s); ("some", r) } None => ("none", vec![]) },
            "chk" => on!(self, op, x => {
                let it = x.chunks(us(a[0]));
                let mut r = vec![it.len() as i64];
                let mut vals = vec![];
                for c in it { r.push(c.len() as i64); vals.extend(c.iter_cloned().map(Self::own)) }
                r.extend(vals);
                ("ok", r)
            }),
            // chunks consumed one by one: chkopen slot,size; chknext slot,register
            "chkopen" => {
                let n = us(a[1]);
                let it: Box<dyn ExactSizeIterator<Item = Sl<S>>> = on!(self, op, x => Box::new(x.chunks(n)));
                let l = it.len() as i64;
                self.chunks[a[0] as usize] = Some(it);
                ("ok", vec![l])
            }
            "chknext" => match self.chunks[a[0] as usize].as_mut() {
                None => ("skip", vec![]),
                Some(it) => match it.next() {
                    Some(s) => { let r = vec![s.len() as i64, it.len() as i64]; self.setr(a[1], s); ("some", r) }
                    None => ("none", vec![]),
                },
            },
            // ---- exclusive
            "clear" => { self.excl(); let v = self.vec.as_mut().unwrap(); { let _d = Armed::new(op.pan); v.clear() }; ("ok", vec![big(v.maximum_capacity())]) }
            "resv" => { self.excl(); let v = self.vec.as_mut().unwrap(); let r = v.reserve_maximum_capacity(us(a[0])); ("ok", vec![big(r), big(v.maximum_capacity())]) }
            "rt" => {
                self.excl();
                let p = self.vec.take().unwrap().into_inner();
                let mut r = vec![p.len() as i64];
                let vals: Vec<i64> = p.iter().map(|e| Self::own(e.cloned())).collect();
                let v: Cv<S> = p.into();
                r.push(big(v.maximum_capacity()));
                r.extend(vals);
                self.vec = Some(Box::new(v));
                ("ok", r)
            }
            "into" => { self.excl(); let p = self.vec.take().unwrap().into_inner(); ("ok", p.iter().map(|e| Self::own(e.cloned())).collect()) }
            "tovec" => { self.excl(); ("ok", self.vec.take().unwrap().to_vec().into_iter().map(Self::own).collect()) }
            "intoit" => { self.excl(); let it = self.vec.take().unwrap().into_iter(); ("ok", it.take(us(a[0])).map(Self::own).collect()) }
            "intoa" => { self.excl(); ("ok", adapt(self.vec.take().unwrap().into_iter(), a[0], us(a[1]), Self::own)) }
            "drop" => { self.excl(); drop(self.vec.take()); ("ok", vec![]) }
            "live" => {
                if !S::T::TRACKED { return ("skip", vec![]) }
                let mut l: Vec<i64> = reg().iter().filter(|i| i.alive).map(|i| i.val as i64).collect();
                l.sort();
                ("ok", l)
            }
            _ => panic!("HARNESS: unknown op {}", op.name),
        }
    }
    /// `who`: the thread the history shows
    pub fn exec(&mut self, t: usize, who: usize, op: &Op) {
        let r = rt();
        yield_point();
        let c = hist().call(who, op);
        eager();
        let th = &mut r.th[t];
        th.in_op = true;
        th.cb = 0;
        th.pan = op.pan;
        th.fired = false;
        th.op = op;
        let me = self as *mut Self;
        let res = catch_unwind(AssertUnwindSafe(|| unsafe { (*me).run(op) }));
        let th = &mut r.th[t];
        th.in_op = false;
        th.pan = -1;
        th.op = std::ptr::null();
        let (k, v) = match res {
            Ok(x) => x,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.starts_with("HARNESS: unknown") { crate::harness_error(&m) }
                drop(p);
                if r.th[t].cb >= 0 && crate::verbose() { eprintln!("  [t{t} {} panicked: {m}]", op.name) }
                // "lost": the program needs something an earlier call should have provided
                (if m.starts_with("HARNESS") { "lost" } else { "panic" }, vec![])
            }
        };
        hist().ret(c, k, v, r.th[t].fired);
        r.progress();
        eager();
        unsafe {
            if crate::alloc::DOUBLE_FREE { crate::alloc::DOUBLE_FREE = false; r.raise("double-free", "memory freed twice") }
        }
        if r.fault.is_some() { r.raise("fault", "") }
    }
}
static mut NESTED: Option<(usize, unsafe fn(usize, usize, &Op))> = None;
/// a call made by a callback of a running call of thread `t`: in the history it is a call of its own, of thread t + 3
pub fn nested(t: usize, op: &Op) {
    let th = &mut rt().th[t];
    let saved = (th.cb, th.pan, th.fired, th.op, th.dpan);
    th.dpan = -1;
    unsafe { if let Some((wp, f)) = NESTED { f(wp, t, op) } }
    let th = &mut rt().th[t];
    (th.cb, th.pan, th.fired, th.op, th.dpan) = saved;
    th.in_op = true;
}
fn eager() {
    if crate::eager_on() { println!("P {}", hist().json(None, crate::cfg())) }
}
fn parse_dbg(s: &str) -> Vec<i64> {
    let Some(x) = s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) else { return vec![-999] };
    if x.is_empty() { return vec![] }
    x.split(", ").map(|y| y.parse().unwrap_or(-999)).collect()
}

/// one execution of a program; false when it was abandoned because of a fault
pub fn execute<S: Store>(p: &Prog) -> bool {
    let r = rt();
    r.start_exec();
    hist().clear();
    reg().clear();
    let w: &'static mut W<S> = Box::leak(Box::new(W::<S>::new(p)));
    let wp = w as *mut W<S> as usize;
    unsafe { NESTED = Some((wp, |wp, t, op| (*(wp as *mut W<S>)).exec(t, t + 3, op))) }
    let mk = |t: usize, ops: &[Op]| -> (usize, Box<dyn FnOnce()>) {
        let ops = ops.to_vec();
        (t, Box::new(move || { let w = unsafe { &mut *(wp as *mut W<S>) }; for op in &ops { w.exec(t, t, op) } }))
    };
    let mut setup = p.setup.clone();
    if !setup.first().is_some_and(|o| matches!(o.name.as_str(), "new" | "newdef" | "from" | "coll")) {
        setup.insert(0, Op { name: "new".into(), src: 0, pan: -1, a: vec![], nest: vec![] });
    }
    let mut td = p.teardown.clone();
    td.push(Op { name: "drop".into(), src: 0, pan: -1, a: vec![], nest: vec![] });
    td.push(Op { name: "live".into(), src: 0, pan: -1, a: vec![], nest: vec![] });
    let ok = r.run_phase(vec![mk(0, &setup)])
        && (p.threads.is_empty() || r.run_phase(p.threads.iter().enumerate().map(|(i, o)| mk(i + 1, o)).collect()))
        && r.run_phase(vec![mk(0, &td)]);
    if ok {
        drop(unsafe { Box::from_raw(wp as *mut W<S>) });
    }
    ok
}
