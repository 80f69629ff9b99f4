mod alloc;
mod exec;
mod hist;
mod prog;
mod rt;
mod val;
use prog::{Prog, Storage};
use rt::{rt, Policy};
use std::collections::HashMap;
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static A: alloc::Q = alloc::Q;

static mut EAGER: bool = false;
static mut VERBOSE: bool = false;
static mut CFG: String = String::new();
static mut SCEN: usize = 0;
static mut TICK: u64 = 0;
static mut LAST: u64 = 0;
static mut LAST_CPU: u64 = 0;
static mut IDLE: u32 = 0;
pub fn eager_on() -> bool { unsafe { EAGER } }
pub fn verbose() -> bool { unsafe { VERBOSE } }
#[allow(static_mut_refs)]
pub fn cfg() -> &'static str { unsafe { &CFG } }
pub fn harness_error(m: &str) -> ! {
    println!("X harness error in scenario {}: {m}", unsafe { SCEN });
    std::process::exit(3)
}
extern "C" fn on_signal(sig: i32) {
    unsafe {
        if sig == libc::SIGALRM {
            // no execution ended for 5 s: a hang if this process was computing all the time, or 30 s of doing nothing
            let mut ts: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
            let cpu = ts.tv_sec as u64;
            if TICK != LAST { LAST = TICK; LAST_CPU = cpu; IDLE = 0; libc::alarm(5); return }
            IDLE += 1;
            if cpu - LAST_CPU < 4 && IDLE < 6 { libc::alarm(5); return }
        }
        let r = rt();
        let mut buf = [0u8; 40];
        let mut w = |s: &[u8]| { libc::write(1, s.as_ptr() as *const _, s.len()); };
        w(if sig == libc::SIGALRM { b"\nCRASH hang " } else { b"\nCRASH signal " });
        let mut num = |mut n: usize| {
            let mut i = buf.len();
            loop { i -= 1; buf[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break } }
            libc::write(1, buf[i..].as_ptr() as *const _, buf.len() - i);
        };
        num(sig as usize);
        w(b" ");
        num(SCEN);
        w(b" ");
        for d in r.decisions.iter() { w(&[b'0' + *d]) }
        w(b"\n");
        libc::_exit(70);
    }
}
fn signals() {
    unsafe {
        let st = libc::mmap(std::ptr::null_mut(), 1 << 16, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: 1 << 16 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGALRM, libc::SIGTRAP] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        libc::alarm(5);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
    }
}
fn run_one(p: &Prog) -> bool {
    use exec::*;
    unsafe { TICK += 1 }
    alloc::quarantine(true);
    if p.opts.contains_key("desc") {
        fn es<T>() -> usize { std::mem::size_of::<orx_concurrent_vec::ConcurrentElement<T>>() }
        let es = match p.elem.as_str() { "tok" => es::<val::Tok>(), "sm" => es::<val::Sm>(), "lg" => es::<val::Lg>(), _ => es::<val::Cp>() };
        match p.storage {
            Storage::Dbl(_) => alloc::stock(&[4 * es, 8 * es, 16 * es]),
            Storage::Lin(e, _) => alloc::stock(&[es << e, es << e, es << e]),
            Storage::Fix(_) => {}
        }
    }
    let ok = match (&p.storage, p.elem.as_str()) {
        (Storage::Dbl(_), "tok") => execute::<Dbl<val::Tok>>(p),
        (Storage::Dbl(_), "sm") => execute::<Dbl<val::Sm>>(p),
        (Storage::Dbl(_), "lg") => execute::<Dbl<val::Lg>>(p),
        (Storage::Dbl(_), _) => execute::<Dbl<val::Cp>>(p),
        (Storage::Lin(..), "tok") => execute::<Lin<val::Tok>>(p),
        (Storage::Lin(..), "sm") => execute::<Lin<val::Sm>>(p),
        (Storage::Lin(..), "lg") => execute::<Lin<val::Lg>>(p),
        (Storage::Lin(..), _) => execute::<Lin<val::Cp>>(p),
        (Storage::Fix(_), "tok") => execute::<Fix<val::Tok>>(p),
        (Storage::Fix(_), "sm") => execute::<Fix<val::Sm>>(p),
        (Storage::Fix(_), "lg") => execute::<Fix<val::Lg>>(p),
        (Storage::Fix(_), _) => execute::<Fix<val::Cp>>(p),
    };
    if ok { alloc::quarantine(false) }
    ok
}
struct Out { seen: HashMap<u64, usize>, lines: Vec<(u64, String, String)>, faults: usize }
fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
impl Out {
    fn add(&mut self, ok: bool) {
        let r = rt();
        let j = hist::hist().json(if ok { None } else { Some(r.fault.as_deref().unwrap_or("abandoned")) }, cfg());
        if !ok { self.faults += 1 }
        let h = hash(&j);
        match self.seen.get(&h) {
            Some(i) => self.lines[*i].0 += 1,
            None => {
                self.seen.insert(h, self.lines.len());
                let d: String = r.decisions.iter().map(|d| (b'0' + *d) as char).collect();
                self.lines.push((1, d, j));
            }
        }
    }
}
fn set_cfg(p: &Prog) {
    let (s, m) = match p.storage {
        Storage::Dbl(k) => ("dbl", if k >= 28 { 1_000_000_000 } else { 4 * ((1 << k) - 1) }),
        Storage::Lin(e, f) => ("lin", f << e),
        Storage::Fix(n) => ("fix", n),
    };
    unsafe { CFG = format!("{{\"name\":\"{}\",\"st\":\"{s}\",\"maxc\":{m}}}", p.name) }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: u64| args.iter().position(|x| x == k).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d);
    let file = args.iter().position(|x| x == "--scen").map(|i| args[i + 1].clone()).expect("--scen FILE");
    let lines: Vec<String> = std::fs::read_to_string(&file).unwrap().lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(String::from).collect();
    let progs: Vec<Prog> = lines.iter().map(|l| prog::parse(l)).collect();
    unsafe { VERBOSE = args.iter().any(|a| a == "--verbose") }
    let verbose = verbose();
    std::panic::set_hook(Box::new(move |i| if verbose { eprintln!("  [panic: {i}]") }));
    signals();
    let r = rt();
    let seed = opt("--seed", 1);
    if let Some(i) = args.iter().position(|x| x == "--replay") {
        let p = &progs[opt("--index", 0) as usize];
        unsafe { SCEN = opt("--index", 0) as usize }
        set_cfg(p);
        r.post_points = p.opts.get("post") == Some(&1);
        r.policy = Policy::Replay;
        r.replay = args[i + 1].bytes().filter(|b| b.is_ascii_digit()).map(|b| b - b'0').collect();
        unsafe { EAGER = true }
        let ok = run_one(p);
        println!("P {}", hist::hist().json(if ok { None } else { Some(r.fault.as_deref().unwrap_or("abandoned")) }, cfg()));
        println!("D {}", r.diverged);
        return;
    }
    unsafe { libc::alarm(0) };
    let budget = opt("--ms", 2000) as u128;
    let max_faults = opt("--max-faults", 3) as usize;
    let so = std::io::stdout();
    let (mut crashed, mut faulty) = (0, 0);
    for (i, p) in progs.iter().enumerate() {
        unsafe {
            // one process per program, so that a crash of the code under test ends only this one
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid > 0 {
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 100 + libc::WTERMSIG(st) };
                if code != 0 && code != 70 && code != 71 { println!("X child for scenario {i} ended with {code}") }
                crashed += (code == 70) as u32;
                faulty += (code == 71) as u32;
                if crashed >= 3 || faulty >= 12 { println!("STOP"); return }
                continue;
            }
            libc::alarm(5);
            SCEN = i
        }
        set_cfg(p);
        let g = |k: &str, d: u64| p.opts.get(k).map(|x| *x as u64).unwrap_or(opt(&format!("--{k}"), d));
        let (pb_max, dfs_max, rand_max) = (g("pb", 2), g("dfs", 20000), g("rand", 1000));
        let t0 = Instant::now();
        let mut out = Out { seen: HashMap::new(), lines: vec![], faults: 0 };
        let (mut execs, mut pb_done, mut steps, mut div) = (0u64, -1i64, 0u64, 0);
        let conc = p.threads.len() > 1;
        r.post_points = g("post", 0) == 1;
        r.step_limit = if conc { 400_000 } else { 4_000_000 };
        r.policy = Policy::Dfs;
        for pb in 0..=(if conc { pb_max } else { 0 }) {
            r.pb = pb as u32;
            r.stack.clear();
            let mut complete = false;
            if div > 0 { break }
            loop {
                let ok = run_one(p);
                execs += 1;
                steps += r.steps;
                out.add(ok);
                // e.g. an order that depends on addresses: not enumerable, random schedules follow
                if r.diverged { div = 1; break }
                if !r.dfs_next() { complete = true; break }
                if out.faults >= max_faults || execs >= dfs_max || t0.elapsed().as_millis() > budget { break }
            }
            if complete { pb_done = pb as i64 } else { break }
        }
        let dfs_execs = execs;
        if conc {
            r.policy = Policy::Rand;
            r.rng = (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash(&p.name)) | 1;
            let t1 = Instant::now();
            for k in 0..rand_max {
                if out.faults >= max_faults || t1.elapsed().as_millis() > budget { break }
                r.p_switch = [40, 100, 200, 400, 800][(k % 5) as usize];
                let ok = run_one(p);
                execs += 1;
                steps += r.steps;
                out.add(ok);
            }
        }
        let mut o = so.lock();
        for (n, d, j) in out.lines.iter() { let _ = writeln!(o, "H {i} {n} {} {j}", if d.is_empty() { "-" } else { d }); }
        let _ = writeln!(o, "S {i} {} execs={execs} dfs={dfs_execs} pbdone={pb_done} uniq={} steps={steps} faults={} div={div} ms={}", p.name, out.lines.len(), out.faults, t0.elapsed().as_millis());
        let _ = o.flush();
        drop(o);
        std::process::exit(if out.faults > 0 { 71 } else { 0 });
    }
}
