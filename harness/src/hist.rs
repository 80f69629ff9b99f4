//! Call/return histories.
use crate::prog::Op;
use std::fmt::Write;

pub struct Call { pub t: usize, pub op: Op, pub fired: bool, pub rk: &'static str, pub rv: Vec<i64> }
#[derive(Default)]
pub struct Hist { pub calls: Vec<Call>, pub ev: Vec<i32> }
static mut H: *mut Hist = std::ptr::null_mut();
pub fn hist() -> &'static mut Hist {
    unsafe {
        if H.is_null() { H = Box::leak(Box::default()) }
        &mut *H
    }
}
impl Hist {
    pub fn clear(&mut self) { self.calls.clear(); self.ev.clear() }
    pub fn call(&mut self, t: usize, op: &Op) -> usize {
        self.calls.push(Call { t, op: op.clone(), fired: false, rk: "pending", rv: vec![] });
        self.ev.push(self.calls.len() as i32);
        self.calls.len() - 1
    }
    pub fn ret(&mut self, i: usize, rk: &'static str, rv: Vec<i64>, fired: bool) {
        self.calls[i].fired = fired;
        self.calls[i].rk = rk;
        self.calls[i].rv = rv;
        self.ev.push(-(i as i32 + 1));
    }
    /// canonical JSON: adjacent calls commute, adjacent returns commute, calls renumbered
    pub fn json(&self, fault: Option<&str>, cfg: &str) -> String {
        let mut ev = self.ev.clone();
        let mut i = 0;
        while i < ev.len() {
            let mut j = i;
            while j < ev.len() && (ev[j] > 0) == (ev[i] > 0) { j += 1 }
            ev[i..j].sort_by_key(|e| self.calls[e.unsigned_abs() as usize - 1].t);
            i = j;
        }
        let mut num = vec![0usize; self.calls.len() + 1];
        let mut order = vec![];
        for e in &ev { if *e > 0 { order.push(*e as usize - 1); num[*e as usize] = order.len() } }
        let mut s = String::with_capacity(64 + 64 * self.calls.len());
        s.push_str("{\"cfg\":");
        s.push_str(cfg);
        s.push_str(",\"calls\":[");
        for (n, i) in order.iter().enumerate() {
            let c = &self.calls[*i];
            if n > 0 { s.push(',') }
            let _ = write!(s, "{{\"t\":{},\"o\":\"{}\",\"s\":{},\"p\":{},\"a\":", c.t, c.op.name, c.op.src, if c.fired { c.op.pan } else { -1 });
            list(&mut s, &c.op.a);
            let _ = write!(s, ",\"k\":\"{}\",\"r\":", c.rk);
            list(&mut s, &c.rv);
            s.push('}');
        }
        s.push_str("],\"ev\":[");
        for (n, e) in ev.iter().enumerate() {
            if n > 0 { s.push(',') }
            let x = num[e.unsigned_abs() as usize] as i32;
            let _ = write!(s, "{}", if *e > 0 { x } else { -x });
        }
        if fault.is_some() { s.push_str(if ev.is_empty() { "0" } else { ",0" }) }
        let _ = write!(s, "],\"fault\":\"{}\"}}", fault.unwrap_or("").chars().map(|c| if c == '"' || c == '\\' || !(' '..='~').contains(&c) { '?' } else { c }).collect::<String>());
        s
    }
}
fn list(s: &mut String, v: &[i64]) {
    s.push('[');
    for (n, x) in v.iter().enumerate() {
        if n > 0 { s.push(',') }
        let _ = write!(s, "{}", (*x).clamp(-2_000_000_000, 2_000_000_000));
    }
    s.push(']');
}
