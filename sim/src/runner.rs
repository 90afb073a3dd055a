//! Runs scenarios in forked processes, searches over seeds, shrinks failures, writes replay files and evidence.
use crate::kern::*;
use crate::scen::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub const LOGSZ: usize = 64 << 10;
pub static mut LOGP: *mut u8 = std::ptr::null_mut();
pub fn log_shm(b: &[u8]) {
    unsafe {
        if LOGP.is_null() { return; }
        let n = *(LOGP as *mut u32) as usize;
        let k = b.len().min(LOGSZ - 8 - n);
        std::ptr::copy_nonoverlapping(b.as_ptr(), LOGP.add(8 + n), k);
        *(LOGP as *mut u32) = (n + k) as u32;
    }
}
pub fn raw_stderr(b: &[u8]) { unsafe { raw(libc::SYS_write, 2, b.as_ptr() as usize, b.len(), 0, 0, 0); } }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub verdict: Option<(String, String)>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub faults: BTreeMap<String, u64>,
    pub events: u64,
    pub injected: u32,
    pub ops: u64,
    pub writes: u64,
    pub trace: Vec<String>,
    pub notes: Vec<String>,
}
impl RunOut {
    pub fn from_world(w: &World, verdict: Option<(String, String)>) -> RunOut {
        let mut ops = 0; let mut writes = 0;
        for h in &w.hist { match &h.h { H::Beg { .. } => ops += 1, H::Wr { .. } => writes += 1, _ => {} } }
        let mut trace = vec![];
        if w.verbose { for h in w.hist.iter().take(1500) { let mut s = crate::hist::show(h); if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("...") } trace.push(s) } if w.hist.len() > 1500 { trace.push(format!("... {} more", w.hist.len() - 1500)) } }
        let verdict = verdict.map(|(c, mut m)| { if m.len() > 3000 { let mut k = 3000; while !m.is_char_boundary(k) { k -= 1 } m.truncate(k) } (c, m) });
        RunOut { verdict, hash: w.hash, steps: w.steps, sim_ns: w.now - 1_000_000_000, switches: w.switches, faults: w.faults.clone(), events: w.events_fired,
            injected: w.injected, ops, writes, trace, notes: w.bad.clone() }
    }
}

unsafe fn shared(n: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
pub fn setup_shm() { unsafe { SHMP = shared(SHM); LOGP = shared(LOGSZ); } }

/// Runs one scenario in a forked process.
pub fn run(sc: &Scen, verbose: bool) -> RunOut {
    for attempt in 0..2 {
        match run_once(sc, verbose, if attempt == 0 { 20 } else { 120 }) { Some(o) => return o, None => {} }
    }
    RunOut { verdict: Some(("hang".into(), "the run used its whole real-time allowance twice".into())), ..Default::default() }
}
fn run_once(sc: &Scen, verbose: bool, secs: u64) -> Option<RunOut> {
    unsafe {
        *(SHMP as *mut u64) = 0;
        *(LOGP as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // only one thread runs at a time: handing over is cheaper on one processor
            let c = libc::sched_getcpu();
            if c >= 0 { let mut s: libc::cpu_set_t = std::mem::zeroed(); libc::CPU_SET(c as usize % 1024, &mut s); libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s); }
            let sc: &'static Scen = Box::leak(Box::new(sc.clone()));
            crate::exec::run_scenario(sc, verbose);
        }
        let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        let mut st = 0;
        if pfd >= 0 {
            let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
            let dl = Instant::now() + Duration::from_secs(secs);
            loop {
                let left = dl.saturating_duration_since(Instant::now()).as_millis() as i32;
                let r = libc::poll(&mut p, 1, left);
                if r > 0 { break; }
                if r == 0 { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); libc::close(pfd); return None; }
            }
            libc::close(pfd);
        }
        libc::waitpid(pid, &mut st, 0);
        if *(SHMP as *mut u32) == 1 {
            let n = *(SHMP as *mut u32).add(1) as usize;
            let d = std::slice::from_raw_parts(SHMP.add(64), n);
            return Some(serde_json::from_slice(d).unwrap_or_else(|e| RunOut { verdict: Some(("internal".into(), format!("result unreadable: {}", e))), ..Default::default() }));
        }
        let n = *(LOGP as *mut u32) as usize;
        let log = String::from_utf8_lossy(std::slice::from_raw_parts(LOGP.add(8), n)).into_owned();
        let how = if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
        Some(RunOut { verdict: Some(("abort".into(), format!("process ended during the run: {}; {}", how, log.trim()))), ..Default::default() })
    }
}

// ---------------------------------------------------------------- search
#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Agg {
    pub runs: u64, pub nontrivial: u64, pub hashes: Vec<u64>, pub shapes: Vec<u64>, pub sim_ns: u128, pub steps: u64, pub switches: u64, pub ops: u64, pub writes: u64, pub events: u64, pub injected: u64,
    pub faults: BTreeMap<String, u64>,
    pub terms: BTreeMap<String, u64>,
    pub fails: Vec<(u64, String, String)>,
    pub samples: Vec<String>,
    pub first: u64, pub last: u64,
    pub multi: u64,
}
impl Agg {
    pub fn add_run(&mut self, sc: &Scen, o: &RunOut) {
        self.runs += 1;
        *self.terms.entry(sc.cfg.term.clone()).or_insert(0) += 1;
        self.sim_ns += o.sim_ns as u128; self.steps += o.steps; self.switches += o.switches; self.ops += o.ops; self.writes += o.writes; self.events += o.events; self.injected += o.injected as u64;
        if sc.th.len() > 1 { self.multi += 1 }
        for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_insert(0) += v }
        if nontrivial(o) { self.nontrivial += 1; self.hashes.push(o.hash) }
        if self.samples.len() < 2 && nontrivial(o) && o.ops < 60 { let s = serde_json::to_string(sc).unwrap(); if s.len() < 3000 { self.samples.push(s) } }
    }
}
/// A run counts when it did something a straight-line single-threaded run without faults would not.
fn nontrivial(o: &RunOut) -> bool { o.ops >= 2 && (o.switches > 2 || o.faults.values().sum::<u64>() > 0) }

pub fn seed_for(base: u64, i: u64) -> u64 { let mut r = Rng::new(base.wrapping_mul(0x1000_0000_01b3) ^ i); r.next() }

pub fn spawn_workers(n: usize, f: impl Fn(usize, &mut Agg)) -> Vec<Agg> {
    unsafe {
        let mut kids = vec![];
        for k in 0..n {
            let mut p = [0i32; 2];
            assert!(libc::pipe(p.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                setup_shm();
                let mut a = Agg::default();
                f(k, &mut a);
                a.hashes.sort(); a.hashes.dedup();
                let d = serde_json::to_vec(&a).unwrap();
                let mut off = 0;
                while off < d.len() { let r = libc::write(p[1], d[off..].as_ptr() as *const _, d.len() - off); if r <= 0 { break; } off += r as usize }
                libc::_exit(0);
            }
            libc::close(p[1]);
            kids.push((pid, p[0]));
        }
        // read all pipes concurrently
        let hs: Vec<_> = kids.iter().map(|(_, fd)| { let fd = *fd; std::thread::spawn(move || { let mut v = vec![]; let mut b = vec![0u8; 1 << 16]; loop { let r = libc::read(fd, b.as_mut_ptr() as *mut _, b.len()); if r <= 0 { break } v.extend_from_slice(&b[..r as usize]) } v }) }).collect();
        let mut out = vec![];
        for (h, (pid, fd)) in hs.into_iter().zip(&kids) {
            let v = h.join().unwrap();
            libc::close(*fd);
            let mut st = 0;
            libc::waitpid(*pid, &mut st, 0);
            match serde_json::from_slice(&v) { Ok(a) => out.push(a), Err(e) => { eprintln!("worker failed: {} (status {})", e, st); std::process::exit(3) } }
        }
        out
    }
}

// ---------------------------------------------------------------- shrinking
use serde_json::Value;
fn candidates(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, Value)>) {
    match v {
        Value::Array(a) => {
            let key = path.last().cloned().unwrap_or_default();
            let n = a.len();
            let fixed = key == "tio" || path.len() >= 2 && (path[path.len() - 2] == "disp");
            if n > 0 && !fixed {
                let mut k = n;
                while k > 0 {
                    let mut i = 0;
                    while i + k <= n { let mut b = a.clone(); b.drain(i..i + k); out.push((path.clone(), Value::Array(b))); i += k }
                    if k == 1 { break; }
                    k = (k / 2).max(1);
                }
            }
            for (i, x) in a.iter().enumerate() { path.push(i.to_string()); candidates(x, path, out); path.pop(); }
        }
        Value::Object(o) => for (k, x) in o {
            if ["id", "seed", "prop", "term"].contains(&k.as_str()) || (path.is_empty() && (k == "post" || k == "pre")) { continue; }
            path.push(k.clone());
            if k == "y" && !x.is_null() { out.push((path.clone(), Value::Null)) }
            if k == "tio" && !x.is_null() { out.push((path.clone(), Value::Null)) }
            candidates(x, path, out);
            path.pop();
        },
        Value::String(s) => {
            let key = path.last().cloned().unwrap_or_default();
            if key == "k" || key == "c" || key == "w" || key == "a" { return; }
            let c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                for k in [c.len() / 2, c.len() / 4, 1] { if k > 0 {
                    let mut i = 0;
                    let mut cnt = 0;
                    while i < c.len() && cnt < 24 { let mut d = c.clone(); d.drain(i..(i + k).min(c.len())); out.push((path.clone(), Value::String(d.into_iter().collect()))); i += k; cnt += 1 }
                } }
            }
            if c.iter().any(|x| !x.is_ascii_alphanumeric()) { for i in 0..c.len().min(16) { if !c[i].is_ascii_alphanumeric() { let mut d = c.clone(); d[i] = 'x'; out.push((path.clone(), Value::String(d.into_iter().collect()))) } } }
        }
        Value::Number(n) => if let Some(x) = n.as_u64() {
            let key = path.last().cloned().unwrap_or_default();
            if key == "op" { return; }
            for y in [0, 1, x / 2, x.saturating_sub(1)] { if y < x { out.push((path.clone(), Value::from(y))) } }
        },
        Value::Bool(true) => out.push((path.clone(), Value::Bool(false))),
        _ => {}
    }
}
fn set_at(root: &mut Value, path: &[String], v: Value) -> bool {
    let mut cur = root;
    for p in path {
        cur = match cur { Value::Array(a) => match p.parse::<usize>().ok().and_then(|i| a.get_mut(i)) { Some(x) => x, None => return false }, Value::Object(o) => match o.get_mut(p) { Some(x) => x, None => return false }, _ => return false };
    }
    *cur = v;
    true
}
pub fn shrink(sc: &Scen, class: &str, limit: Duration) -> (Scen, u64) {
    let t0 = Instant::now();
    let mut best = serde_json::to_value(sc).unwrap();
    let mut tried = 0;
    let mut seen: HashSet<String> = HashSet::new();
    loop {
        let mut cs = vec![];
        candidates(&best, &mut vec![], &mut cs);
        let mut improved = false;
        for (p, v) in cs {
            if t0.elapsed() > limit { break; }
            let mut c = best.clone();
            if !set_at(&mut c, &p, v) { continue; }
            let key = c.to_string();
            if !seen.insert(key) { continue; }
            let s: Scen = match serde_json::from_value(c.clone()) { Ok(s) => s, Err(_) => continue };
            if !sane(&s) { continue; }
            tried += 1;
            let o = run(&s, false);
            if o.verdict.as_ref().map_or(false, |(k, _)| k == class) { best = c; improved = true }
        }
        if !improved || t0.elapsed() > limit { break; }
    }
    (serde_json::from_value(best).unwrap(), tried)
}
/// Scenarios must stay within what generators may produce.
fn sane(s: &Scen) -> bool { crate::props::sane(s) }

pub fn write_replay(dir: &str, sc: &Scen, class: &str) -> (String, RunOut) {
    let o = run(sc, true);
    let (c, m) = o.verdict.clone().unwrap_or((class.to_string(), "not reproduced".into()));
    let _ = std::fs::create_dir_all(dir);
    let name = format!("{}/{}-{}-{:016x}.json", dir, sc.prop, c, sc.seed);
    let v = serde_json::json!({ "property": sc.prop, "seed": sc.seed, "class": c, "violation": m, "hash": format!("{:016x}", o.hash), "scenario": sc, "trace": o.trace });
    std::fs::write(&name, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    (name, o)
}

pub unsafe fn cov_map() -> *mut u8 { let p = shared(1 << 20); crate::sys::COV = p; p }
pub unsafe fn shared_flag() -> *mut u32 { shared(4096) as *mut u32 }
