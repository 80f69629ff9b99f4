//! Deterministic cooperative runtime: coroutines on one OS thread, a scheduling point before every atomic access of the
//! code under test (and inside user callbacks), happens-before tracking with vector clocks, fault reporting.
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub const MAXT: usize = 6;
pub type Vc = [u32; MAXT];
const NO: u64 = u64::MAX;
/// identical reads in a row (nothing changed meanwhile) after which a thread counts as spinning
const SPIN_SAME: usize = 6;
const SPIN_ANY: u32 = 400;
/// times in a row that all threads count as spinning before the execution is stuck; the patience doubles each time, so that
/// long scans which read the same value over and over are none
const DESPERATE: u32 = 14;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy)]
pub struct Th {
    pub vc: Vc,
    pend_acq: Vc,
    rel_fence: Vc,
    done: bool,
    blocked: u64,
    same: usize,
    nonchg: u32,
    mark: (usize, u32, u64),
    hits: u32,
    sig: [(usize, u32, u64); 4],
    pub cb: i32,
    pub pan: i32,
    pub fired: bool,
    /// countdown to the drop of a value that panics
    pub dpan: i32,
    pub in_op: bool,
    pub op: *const crate::prog::Op,
}
const TH0: Th = Th { vc: [0; MAXT], pend_acq: [0; MAXT], rel_fence: [0; MAXT], done: true, blocked: NO, same: 0, nonchg: 0,
    mark: (0, 9, 0), hits: 0, sig: [(0, 9, 0); 4], cb: 0, pan: -1, fired: false, dpan: -1, in_op: false, op: std::ptr::null() };

#[derive(Clone, Copy, PartialEq)]
pub enum Policy { Dfs, Rand, Replay }

pub struct Rt {
    pub active: bool,
    pub cur: usize,
    in_coro: bool,
    next: usize,
    pub th: [Th; MAXT],
    yielder: [*const Yielder<(), ()>; MAXT],
    pub abort: bool,
    pub fault: Option<String>,
    write_ver: u64,
    desperate: u32,
    pub steps: u64,
    /// calls that have returned in this phase
    pub returned: u64,
    pub total_steps: u64,
    pub step_limit: u64,
    /// a scheduling point after each atomic access too: plain reads that follow it may happen late
    pub post_points: bool,
    locs: FxMap<usize, Vc>,
    // policy
    pub policy: Policy,
    pub pb: u32,
    used: u32,
    pub stack: Vec<(u8, u8)>,
    depth: usize,
    pub rng: u64,
    pub p_switch: u32,
    pub decisions: Vec<u8>,
    pub replay: Vec<u8>,
    rpos: usize,
    pub diverged: bool,
    stacks: Vec<DefaultStack>,
}

static mut RT: *mut Rt = std::ptr::null_mut();
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT.is_null() {
            RT = Box::leak(Box::new(Rt {
                active: false, cur: 0, in_coro: false, next: 0, th: [TH0; MAXT], yielder: [std::ptr::null(); MAXT], abort: false, fault: None,
                write_ver: 0, desperate: 0, steps: 0, returned: 0, total_steps: 0, step_limit: 400_000, post_points: false, locs: Default::default(), policy: Policy::Dfs, pb: 0, used: 0,
                stack: vec![], depth: 0, rng: 1, p_switch: 128, decisions: Vec::with_capacity(1 << 16), replay: vec![], rpos: 0, diverged: false, stacks: vec![],
            }));
        }
        &mut *RT
    }
}
fn join(a: &mut Vc, b: &Vc) { for i in 0..MAXT { if b[i] > a[i] { a[i] = b[i] } } }

impl Rt {
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn start_exec(&mut self) {
        self.th = [TH0; MAXT];
        self.abort = false;
        self.fault = None;
        self.write_ver = 0;
        self.desperate = 0;
        self.total_steps += self.steps;
        self.steps = 0;
        self.locs.clear();
        self.used = 0;
        self.depth = 0;
        self.decisions.clear();
        self.rpos = 0;
        self.diverged = false;
    }
    /// advance the DFS stack; false when the tree is exhausted
    pub fn dfs_next(&mut self) -> bool {
        self.stack.truncate(self.depth.max(0));
        while let Some((c, n)) = self.stack.pop() {
            if c + 1 < n {
                self.stack.push((c + 1, n));
                return true;
            }
        }
        false
    }
    fn enabled(&mut self, out: &mut [usize; MAXT]) -> usize {
        let mut n = 0;
        for i in 0..MAXT {
            if !self.th[i].done && self.th[i].blocked != self.write_ver { out[n] = i; n += 1 }
        }
        n
    }
    /// next thread to run, or None (all done, or stuck -> fault set)
    fn choose(&mut self, cur: Option<usize>) -> Option<usize> {
        let mut en = [0; MAXT];
        let mut n = self.enabled(&mut en);
        if n == 0 {
            if self.th.iter().all(|t| t.done) { return None }
            if self.desperate >= DESPERATE {
                let who: Vec<_> = (0..MAXT).filter(|i| !self.th[*i].done).map(|i| format!("t{i}")).collect();
                self.set_fault("stuck", &format!("no thread can make progress: {}", who.join(",")));
                return None;
            }
            self.desperate += 1;
            for t in self.th.iter_mut() { t.blocked = NO; t.same = 0; t.nonchg = 0; t.hits = 0 }
            n = self.enabled(&mut en);
        }
        if n == 1 { return Some(en[0]) }
        // candidate order: current first
        let cur_en = cur.filter(|c| en[..n].contains(c));
        if let Some(c) = cur_en {
            let p = en[..n].iter().position(|x| *x == c).unwrap();
            en[..=p].rotate_right(1);
        }
        let pick = match self.policy {
            Policy::Dfs => {
                if cur_en.is_some() && self.used >= self.pb { 0 } else {
                    let c = if self.depth < self.stack.len() { self.stack[self.depth].0 as usize } else { self.stack.push((0, n as u8)); 0 };
                    self.depth += 1;
                    if c >= n { self.diverged = true; 0 } else {
                        if cur_en.is_some() && c != 0 { self.used += 1 }
                        c
                    }
                }
            }
            Policy::Rand => {
                let r = self.rnd();
                if cur_en.is_some() {
                    if (r & 1023) as u32 >= self.p_switch { 0 } else { 1 + ((r >> 12) as usize) % (n - 1) }
                } else { (r >> 12) as usize % n }
            }
            Policy::Replay => {
                let d = self.replay.get(self.rpos).copied();
                self.rpos += 1;
                match d.and_then(|d| en[..n].iter().position(|x| *x == d as usize)) {
                    Some(p) => p,
                    None => { if d.is_some() { self.diverged = true } 0 }
                }
            }
        };
        let t = en[pick];
        if self.decisions.len() < self.decisions.capacity() { self.decisions.push(t as u8) }
        Some(t)
    }
    pub fn set_fault(&mut self, kind: &str, detail: &str) {
        if self.fault.is_none() { self.fault = Some(format!("{kind}: {detail}")) }
    }
    /// A fault observed while running code under test: remember it and abandon the execution (never resumed).
    pub fn raise(&mut self, kind: &str, detail: &str) {
        self.set_fault(kind, detail);
        if self.in_coro && !std::thread::panicking() { self.abort_exec() }
    }
    fn abort_exec(&mut self) {
        self.abort = true;
        let y = self.yielder[self.cur];
        unsafe { (*y).suspend(()) };
        unreachable!()
    }
    /// scheduling point
    pub fn point(&mut self) {
        if !self.active || !self.in_coro || std::thread::panicking() { return }
        self.steps += 1;
        if self.steps > self.step_limit {
            self.raise("stuck", "execution does not terminate");
        }
        match self.choose(Some(self.cur)) {
            Some(t) if t == self.cur => {}
            Some(t) => {
                self.next = t;
                let y = self.yielder[self.cur];
                unsafe { (*y).suspend(()) };
            }
            None => self.abort_exec(),
        }
    }
    pub fn progress(&mut self) {
        self.desperate = 0;
        self.write_ver += 1;
        self.returned += 1;
        let t = &mut self.th[self.cur];
        t.same = 0;
        t.nonchg = 0;
        t.hits = 0;
        t.blocked = NO;
    }
    fn post(&mut self, kind: u32, addr: usize, ord: u32, old: u64, new: u64, ok: u32) {
        if !self.active { return }
        let c = self.cur;
        let loc = if kind == 3 { None } else { Some(self.locs.entry(addr).or_insert([0; MAXT])) };
        let t = &mut self.th[c];
        match (kind, loc) {
            (3, _) => {
                if ord & 1 != 0 { let p = t.pend_acq; join(&mut t.vc, &p) }
                if ord & 2 != 0 { t.rel_fence = t.vc }
            }
            (k, Some(l)) => {
                if k == 0 || k == 2 {
                    if ord & 1 != 0 { join(&mut t.vc, l) } else { join(&mut t.pend_acq, l) }
                }
                if k == 1 { *l = if ord & 2 != 0 { t.vc } else { t.rel_fence } }
                if k == 2 && ok == 1 {
                    let src = if ord & 2 != 0 { t.vc } else { t.rel_fence };
                    join(l, &src);
                }
            }
            _ => {}
        }
        t.vc[c] += 1;
        // spin detection
        if kind == 3 { return }
        if old != new {
            self.write_ver += 1;
            self.desperate = 0;
            t.same = 0;
            t.nonchg = 0;
            t.hits = 0;
        } else {
            t.nonchg += 1;
            let s = (addr, kind, old);
            if t.sig[0] == s || t.sig[1] == s || t.sig[2] == s { t.same += 1 } else { t.same = 0 }
            t.sig.rotate_right(1);
            t.sig[0] = s;
            // longer loops: the same access over and over (Brent); a scan over distinct elements is none
            if t.nonchg.is_power_of_two() { t.mark = s; t.hits = 0 } else if t.mark == s { t.hits += 1 }
            // period 1: six in a row; period 2/3: proportionally longer
            let need = if t.sig[1] == s { SPIN_SAME } else { SPIN_SAME * 5 };
            let patience = self.desperate.min(DESPERATE);
            if t.same >= need << patience || t.hits > SPIN_ANY << patience { t.blocked = self.write_ver }
        }
    }
    /// Runs the closures as threads `tids` until all are done. Returns false when abandoned.
    pub fn run_phase(&mut self, bodies: Vec<(usize, Box<dyn FnOnce()>)>) -> bool {
        self.returned = 0;
        let mut base = [0; MAXT];
        for t in self.th.iter() { join(&mut base, &t.vc) }
        let mut coros: Vec<Option<Coroutine<(), (), (), DefaultStack>>> = (0..MAXT).map(|_| None).collect();
        for (tid, body) in bodies {
            let stack = self.stacks.pop().unwrap_or_else(|| DefaultStack::new(512 * 1024).expect("stack"));
            let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, _| {
                rt().yielder[tid] = y;
                body();
            });
            coros[tid] = Some(co);
            self.th[tid] = Th { done: false, vc: base, ..TH0 };
            self.th[tid].vc[tid] += 1;
        }
        self.active = true;
        let mut nx = self.choose(None);
        while let Some(t) = nx {
            self.cur = t;
            self.in_coro = true;
            let r = coros[t].as_mut().unwrap().resume(());
            self.in_coro = false;
            match r {
                CoroutineResult::Return(()) => {
                    let c = coros[t].take().unwrap();
                    self.stacks.push(c.into_stack());
                    self.th[t].done = true;
                    self.write_ver += 1;
                    self.desperate = 0;
                    if self.fault.is_some() { break }
                    nx = self.choose(None);
                }
                CoroutineResult::Yield(()) => {
                    if self.abort { break }
                    nx = Some(self.next);
                }
            }
        }
        self.active = false;
        let ok = self.fault.is_none() && !self.abort;
        for c in coros.into_iter().flatten() { std::mem::forget(c) }
        ok
    }
}

#[no_mangle]
pub extern "C" fn vshim_pre(_kind: u32, _addr: usize) { rt().point() }
#[no_mangle]
pub extern "C" fn vshim_post(kind: u32, addr: usize, ord: u32, old: u64, new: u64, ok: u32) {
    rt().post(kind, addr, ord, old, new, ok);
    if rt().post_points && kind != 3 { rt().point() }
}

/// called by every user callback (closure, Clone, PartialEq, iterator step) run by the code under test
pub fn callback(what: &str) {
    let r = rt();
    if !r.active || !r.th[r.cur].in_op { return }
    r.point();
    let c = r.cur;
    let t = &mut r.th[c];
    let k = t.cb;
    t.cb += 1;
    if !t.op.is_null() && !std::thread::panicking() {
        for (j, op) in unsafe { &(*t.op).nest } { if *j == k { crate::exec::nested(c, op) } }
    }
    let t = &mut rt().th[c];
    if t.pan == k && !std::thread::panicking() { t.fired = true; panic!("injected panic in {what}") }
}
/// called by every drop of a value: panics when it is the chosen one
pub fn dropping() {
    let r = rt();
    if !r.active || !r.th[r.cur].in_op || r.th[r.cur].dpan < 0 || std::thread::panicking() { return }
    let t = &mut r.th[r.cur];
    t.dpan -= 1;
    if t.dpan < 0 { t.fired = true; panic!("injected panic in drop") }
}
/// while it lives, drop number `n` of a value panics
pub struct Armed(usize);
impl Armed {
    pub fn new(n: i32) -> Self { let r = rt(); r.th[r.cur].dpan = n; r.th[r.cur].pan = -1; Armed(r.cur) }
}
impl Drop for Armed {
    fn drop(&mut self) { rt().th[self.0].dpan = -1 }
}
/// a user callback that waits until `n` other calls have returned
pub fn wait_returned(n: u64) {
    let r = rt();
    while r.active && r.returned < n {
        let c = r.cur;
        r.th[c].blocked = r.write_ver;
        r.point();
    }
}
pub fn yield_point() { rt().point() }
