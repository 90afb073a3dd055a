//! The simulated kernel: threads under a baton scheduler, clock, signals, terminals, descriptors, faults, history.
use crate::emu::{Emu, Grid, Modes};
use crate::scen::*;
use std::cell::Cell as C;
use std::collections::{BTreeMap, VecDeque};

thread_local! {
    /// true while code under test runs on a simulated thread
    pub static IN: C<bool> = const { C::new(false) };
    pub static TID: C<usize> = const { C::new(0) };
}

pub const TICK: u64 = 1_000;
pub const SIMFD: i32 = 500;

#[derive(Clone, Debug, PartialEq)]
pub enum REv {
    Key(K),
    /// line, column, kind (0 motion 1 press 2 release 3 wheel up 4 wheel down), button (0 l 1 m 2 r, else raw), mods (1 alt 2 ctrl 4 shift)
    Mouse(u64, u64, u8, u32, u8),
    Raw(Vec<u8>), Resize(u64, u64), Sig(u8), NoEvent,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok, Err(i32, String), Ev(Option<REv>), Bool(bool), Size(u64, u64), Cur(u64, u64), Str(String),
    Skip, Panic(String), Would, Poisoned, Got(bool),
}

#[derive(Clone, Debug)]
pub enum H {
    Beg { op: u32, th: usize, arr: Vec<usize> },
    End { op: u32, th: usize, arr: Vec<usize>, res: Res },
    Wr { tty: usize, th: usize, op: u32, n: usize, items: usize, snap: Option<Box<(Grid, Modes)>> },
    Arr { tty: usize, n: usize, total: usize },
    Post { sig: i32, th: usize, acted: bool },
    Hand { sig: i32, th: usize, kind: u8 },
    /// the handler returned
    Handed { sig: i32, th: usize, kind: u8 },
    Rs { l: u16, c: u16 },
    Hup { tty: usize },
    Foreign(u8),
    TcSet { tty: usize, th: usize, op: u32 },
    Winsz { tty: usize, th: usize, l: u16, c: u16 },
    SigSet { sig: i32, kind: u8, th: usize },
    Guard { th: usize, obj: u8, w: bool, acq: bool, op: u32 },
    Sw { to: usize },
    Flt { c: Call, k: Fk, th: usize, op: u32 },
    Inject { tty: usize },
    Flush { tty: usize },
    Close { fd: i32 },
    Open { fd: i32, tty: usize, op: u32 },
    Blocked { th: usize, on: String },
    Note(String),
    /// state of the terminal device and the process at the begin or end of an operation
    St { op: u32, th: usize, end: bool, s: Box<St> },
}
/// What prepare changes and restore puts back.
#[derive(Clone, Debug, PartialEq)]
pub struct St { pub tio: Vec<u32>, pub disp: Vec<(usize, i32, u64)>, pub m: Modes, pub normal: (u64, (usize, usize)) }
pub const STSIGS: &[i32] = &[libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT, libc::SIGWINCH, libc::SIGUSR1, libc::SIGUSR2, libc::SIGTERM];
#[derive(Clone, Debug)]
pub struct Hr { pub t: u64, pub h: H }

#[derive(Clone, Debug)]
pub enum Wait {
    None,
    Futex { addr: usize, bits: u32, dl: u64, woken: bool },
    Fds { fds: Vec<(i32, bool, bool)>, dl: u64 },
    Read { fd: i32 },
    Until { dl: u64, intr: bool },
    Join,
}

pub struct Frame { pub op: u32, pub edges: u32, pub sys: u32, pub cnt: [u32; NCALL], pub fired: Vec<usize> }

pub struct Thread {
    pub wait: Wait,
    pub done: bool,
    pub started: bool,
    pub pending: u64,
    pub mask: u64,
    pub word: std::sync::atomic::AtomicU32,
    // current frame
    pub edges: u32,
    pub next_edge: u32,
    pub frames: Vec<Frame>,
    pub handler_depth: u32, pub in_alloc: u32,
    pub last_wait_writerop: bool,
    pub panicking_ok: bool,
}

pub struct Tty {
    pub emu: Emu,
    pub tio: libc::termios,
    pub l: u16, pub c: u16,
    pub inq: VecDeque<u8>,
    pub stream: Vec<u8>,
    pub arrived: usize,
    pub hup: bool,
    pub stopped: bool,
    pub out_total: u64,
    pub scramble: u8,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fd { Tty(usize), PipeR(usize), PipeW(usize), Log }
pub struct Pipe { pub buf: VecDeque<u8>, pub r: u32, pub w: u32 }

pub struct World {
    pub sc: &'static Scen,
    pub cur: usize,
    pub th: Vec<Thread>,
    pub nth: usize,
    pub now: u64,
    pub steps: u64,
    pub budget: u64,
    /// Events of the history so far, without those that only a trace has.
    acts: usize,
    fruitless: (usize, u32),
    pub ttys: Vec<Tty>,
    pub fds: BTreeMap<i32, (Fd, i32)>,
    pub pipes: Vec<Pipe>,
    pub disp: Vec<libc::sigaction>,
    pub hist: Vec<Hr>,
    pub tl_i: usize,
    pub tl_last: u64,
    pub tl_on: bool,
    pub quiet: bool,
    pub picks_i: usize,
    pub gcnt: [u32; NCALL],
    pub faults: BTreeMap<String, u64>,
    pub hash: u64,
    pub switches: u64,
    pub injected: u32,
    pub quiesced: u32,
    pub bad: Vec<String>,
    pub closes: Vec<i32>,
    pub log: Vec<u8>,
    pub panics: Vec<(usize, String, bool)>,
    pub on_idle: fn(&mut World, bool),
    pub verbose: bool,
    pub clock_jumps: u64,
    pub err_tty: bool,
    pub snap: bool,
    pub oracle_phase: bool,
    pub events_fired: u64,
    pub sleep_calls: u64,
    /// seconds the wall clock was set forward or back
    pub rt_off: i64,
    pub next_fd: i32,
}

pub static mut W: *mut World = std::ptr::null_mut();
#[inline(always)]
pub fn w() -> &'static mut World { unsafe { &mut *W } }
pub fn have_world() -> bool { unsafe { !W.is_null() } }

/// Runs harness code on a simulated thread.
pub fn out<R>(f: impl FnOnce() -> R) -> R { let p = IN.replace(false); let r = f(); IN.set(p); r }

// ---------------------------------------------------------------- verdict channel (shared memory)
pub const SHM: usize = 8 << 20;
pub static mut SHMP: *mut u8 = std::ptr::null_mut();
pub fn shm_put(status: u32, data: &[u8]) {
    unsafe {
        let n = data.len().min(SHM - 64);
        std::ptr::copy_nonoverlapping(data.as_ptr(), SHMP.add(64), n);
        *(SHMP as *mut u32).add(1) = n as u32;
        *(SHMP as *mut u32) = status;
    }
}
pub fn finish(verdict: Option<(String, String)>) -> ! {
    IN.set(false);
    let w = w();
    let o = crate::runner::RunOut::from_world(w, verdict);
    let d = serde_json::to_vec(&o).unwrap();
    shm_put(1, &d);
    unsafe { libc::_exit(0) }
}
pub fn fail(class: &str, msg: String) -> ! { finish(Some((class.to_string(), msg))) }

// ---------------------------------------------------------------- raw futex for the baton
unsafe fn rawsys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 { rawsys(n, a, b, c, d, e, f) }

impl Thread {
    pub fn new() -> Thread {
        Thread { wait: Wait::None, done: false, started: false, pending: 0, mask: 0, word: Default::default(), edges: 0, next_edge: u32::MAX,
            frames: vec![], handler_depth: 0, in_alloc: 0, last_wait_writerop: false, panicking_ok: false }
    }
}

fn base_tio() -> libc::termios {
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    t.c_iflag = 0o2400 | libc::IUTF8; // ICRNL | IXON
    t.c_oflag = 0o5;
    t.c_cflag = 0o277;
    t.c_lflag = 0o105073;
    for (i, v) in [3u8, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26, 0, 18, 15, 23, 22].iter().enumerate() { t.c_cc[i] = *v }
    t.c_ispeed = 0o17; t.c_ospeed = 0o17;
    t
}

pub extern "C" fn foreign_a(sig: i32) { let _ = sig; }
pub extern "C" fn foreign_b(sig: i32) { let _ = sig; }
pub extern "C" fn foreign_c(sig: i32, _i: *mut libc::siginfo_t, _c: *mut libc::c_void) { let _ = sig; }

pub fn disp_of(kind: u8) -> libc::sigaction {
    let mut a: libc::sigaction = unsafe { std::mem::zeroed() };
    match kind {
        0 => a.sa_sigaction = libc::SIG_DFL,
        1 => a.sa_sigaction = libc::SIG_IGN,
        2 => a.sa_sigaction = foreign_a as *const () as usize,
        3 => { a.sa_sigaction = foreign_b as *const () as usize; a.sa_flags = libc::SA_RESTART | libc::SA_NODEFER;
               unsafe { libc::sigaddset(&mut a.sa_mask, libc::SIGUSR1); libc::sigaddset(&mut a.sa_mask, libc::SIGINT); } }
        _ => { a.sa_sigaction = foreign_c as *const () as usize; a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART; }
    }
    a
}
pub fn disp_kind(a: &libc::sigaction) -> u8 {
    let h = a.sa_sigaction;
    if h == libc::SIG_DFL { 0 } else if h == libc::SIG_IGN { 1 }
    else if h == foreign_a as *const () as usize { 2 } else if h == foreign_b as *const () as usize { 3 } else if h == foreign_c as *const () as usize { 4 } else { 9 }
}
/// A comparable image of a disposition.
pub fn disp_img(a: &libc::sigaction) -> (usize, i32, u64) {
    let m = unsafe { *(&a.sa_mask as *const _ as *const u64) };
    // what SA_RESTORER holds and the mask of DFL/IGN entries are of no consequence
    if a.sa_sigaction == libc::SIG_DFL || a.sa_sigaction == libc::SIG_IGN { (a.sa_sigaction, 0, 0) } else { (a.sa_sigaction, a.sa_flags & !0x0400_0000, m) }
}
pub fn tio_img(t: &libc::termios) -> Vec<u32> {
    let mut v = vec![t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_line as u32, t.c_ispeed, t.c_ospeed];
    v.extend(t.c_cc.iter().take(19).map(|x| *x as u32));
    v
}

impl World {
    pub fn new(sc: &'static Scen, verbose: bool) -> World {
        let cfg = &sc.cfg;
        let mut tio = base_tio();
        if let Some((i, o, c, l, vmin, vtime)) = cfg.tio { tio.c_iflag = i; tio.c_oflag = o; tio.c_cflag = c; tio.c_lflag = l; tio.c_cc[libc::VMIN] = vmin; tio.c_cc[libc::VTIME] = vtime; }
        let bce = ["xterm", "linux", "rxvt"].iter().any(|n| cfg.term.starts_with(n));
        let emu = || { let mut e = Emu::new(cfg.l as usize, cfg.c as usize); e.bce = bce; e.plain_cut = cfg.extra & X_CUT != 0; if cfg.extra & X_MODES != 0 { e.m.keypad = true; e.m.appcur = true; e.m.mouse = vec![1000]; e.m.track = 1000; } if cfg.extra & X_FILL != 0 { e.fill() } e };
        let mk = || Tty { emu: emu(), tio, l: cfg.l, c: cfg.c, inq: VecDeque::new(), stream: vec![], arrived: 0, hup: false, stopped: false, out_total: 0, scramble: 0 };
        let mut fds = BTreeMap::new();
        // as redirections of a shell leave them
        let (r, wr) = if cfg.extra & X_ACCESS != 0 { (libc::O_RDONLY, libc::O_WRONLY) } else { (libc::O_RDWR, libc::O_RDWR) };
        fds.insert(0, (Fd::Tty(0), r));
        fds.insert(1, (Fd::Tty(0), wr));
        fds.insert(2, (if cfg.err_tty { Fd::Tty(0) } else { Fd::Log }, wr));
        let mut disp: Vec<libc::sigaction> = (0..65).map(|_| disp_of(0)).collect();
        for (s, k) in &cfg.disp { if (1..=64).contains(s) { disp[*s as usize] = disp_of(*k) } }
        World {
            sc, cur: 0, th: (0..8).map(|_| Thread::new()).collect(), nth: 1, now: 1_000_000_000, steps: 0, acts: 0, fruitless: (0, 0), budget: (if cfg.snap { 30_000_000 } else { 12_000_000 }) + (cfg.l as u64 * cfg.c as u64).min(40_000) * 12000,
            ttys: vec![mk(), mk(), mk()], fds, pipes: vec![], disp, hist: vec![], tl_i: 0, tl_last: 0, tl_on: false, quiet: false, picks_i: 0,
            gcnt: [0; NCALL], faults: BTreeMap::new(), hash: 0xcbf29ce484222325, switches: 0, injected: 0, quiesced: 0, bad: vec![], closes: vec![], log: vec![],
            panics: vec![], on_idle: |_, _| {}, verbose, clock_jumps: 0, err_tty: cfg.err_tty, snap: cfg.snap, oracle_phase: false, events_fired: 0, sleep_calls: 0, rt_off: 0, next_fd: SIMFD,
        }
    }
    pub fn st(&self) -> St { St { tio: tio_img(&self.ttys[0].tio), disp: STSIGS.iter().map(|s| disp_img(&self.disp[*s as usize])).collect(), m: self.ttys[0].emu.m.clone(), normal: if matches!(&self.sc.prop[..], "C14" | "C15") { self.ttys[0].emu.normal() } else { Default::default() } } }
    pub fn h_st(&mut self, op: u32, end: bool) { if self.sc.cfg.extra & X_ST != 0 { let (th, s) = (self.cur, Box::new(self.st())); self.h(H::St { op, th, end, s }) } }
    pub fn h(&mut self, h: H) { if !matches!(h, H::Sw { .. } | H::Blocked { .. } | H::Note(_)) { self.acts += 1 } self.hist.push(Hr { t: self.now, h }) }
    pub fn mix(&mut self, x: u64) { self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(17) }
    pub fn note(&mut self, s: String) { self.h(H::Note(s)) }
    pub fn flt(&mut self, name: &str) { *self.faults.entry(name.to_string()).or_insert(0) += 1; }
    pub fn cur_op(&self) -> u32 { self.th[self.cur].frames.last().map_or(0, |f| f.op) }
    pub fn arr(&self) -> Vec<usize> { self.ttys.iter().map(|t| t.arrived).collect() }

    // ------------------------------------------------------------ operations
    pub fn push_frame(&mut self, op: u32) {
        let cur = self.cur;
        let t = &mut self.th[cur];
        if let Some(f) = t.frames.last_mut() { f.edges = t.edges }
        t.frames.push(Frame { op, edges: 0, sys: 0, cnt: [0; NCALL], fired: vec![] });
        t.edges = 0;
        self.arm();
    }
    pub fn pop_frame(&mut self) {
        let cur = self.cur;
        let t = &mut self.th[cur];
        t.frames.pop();
        t.edges = t.frames.last().map_or(0, |f| f.edges);
        self.arm();
    }
    pub fn arm(&mut self) {
        let quiet = self.quiet;
        let sc = self.sc;
        let cur = self.cur;
        let t = &mut self.th[cur];
        t.next_edge = u32::MAX;
        if quiet { return; }
        if let Some(f) = t.frames.last() {
            for (i, g) in sc.trig.iter().enumerate() {
                if g.op == f.op && !f.fired.contains(&i) { if let Pt::E(k) = g.at { if k > t.edges { t.next_edge = t.next_edge.min(k) } } }
            }
        }
    }

    // ------------------------------------------------------------ readiness
    pub fn deliverable(&self, i: usize) -> u64 { let t = &self.th[i]; t.pending & !t.mask }
    fn sig_ready(&self, i: usize) -> bool {
        let d = self.deliverable(i);
        d != 0 && (1..=64).any(|s| d & (1 << (s - 1)) != 0 && disp_kind(&self.disp[s]) >= 2)
    }
    pub fn avail(&self, tty: usize) -> usize {
        let t = &self.ttys[tty];
        if t.tio.c_lflag & libc::ICANON != 0 {
            match t.inq.iter().rposition(|b| *b == b'\n' || *b == t.tio.c_cc[libc::VEOF]) { Some(i) => i + 1, None => 0 }
        } else { t.inq.len() }
    }
    pub fn fd_readable(&self, fd: i32) -> bool {
        match self.fds.get(&fd) {
            Some((Fd::Tty(t), _)) => self.ttys[*t].hup || self.avail(*t) > 0,
            Some((Fd::PipeR(p), _)) => !self.pipes[*p].buf.is_empty() || self.pipes[*p].w == 0,
            _ => false,
        }
    }
    pub fn fd_writable(&self, fd: i32) -> bool {
        match self.fds.get(&fd) { Some((Fd::PipeW(p), _)) => self.pipes[*p].buf.len() < 65536, Some(_) => true, None => false }
    }
    pub fn ready(&self, i: usize) -> bool {
        let t = &self.th[i];
        if t.done || !t.started { return false; }
        match &t.wait {
            Wait::None => true,
            Wait::Futex { dl, woken, .. } => *woken || self.now >= *dl || self.sig_ready(i),
            Wait::Fds { fds, dl } => self.now >= *dl || self.sig_ready(i) || fds.iter().any(|(f, r, wr)| (*r && self.fd_readable(*f)) || (*wr && self.fd_writable(*f))),
            Wait::Read { fd } => self.sig_ready(i) || self.fd_readable(*fd),
            Wait::Until { dl, intr } => self.now >= *dl || (*intr && self.sig_ready(i)),
            Wait::Join => self.sig_ready(i) || (1..self.nth).all(|k| self.th[k].done),
        }
    }
    fn deadline(&self, i: usize) -> Option<u64> {
        if self.th[i].done { return None; }
        match &self.th[i].wait { Wait::Futex { dl, .. } | Wait::Fds { dl, .. } | Wait::Until { dl, .. } if *dl != u64::MAX => Some(*dl), _ => None }
    }

    pub fn next_pick(&mut self) -> Option<u8> {
        let p = self.sc.picks.get(self.picks_i).copied();
        if p.is_some() { self.picks_i += 1 }
        p
    }

    /// Chooses the next thread to run; the current one may be blocked. Advances time when nothing can run.
    fn choose(&mut self) -> usize {
        loop {
            let n = self.nth;
            let rdy: Vec<usize> = (1..=n).map(|k| (self.cur + k) % n).filter(|i| self.ready(*i)).collect();
            if !rdy.is_empty() {
                if rdy.len() == 1 { return rdy[0]; }
                let k = self.next_pick().unwrap_or(0) as usize;
                return rdy[k % rdy.len()];
            }
            self.idle();
        }
    }

    fn idle(&mut self) {
        let f = self.on_idle;
        f(self, false);
        // after a century or so, waits of days count as endless
        let far = if self.now < 1 << 62 { 1 << 63 } else { self.now.saturating_add(200_000_000_000_000) };
        let dl = (0..self.nth).filter_map(|i| self.deadline(i)).min().filter(|d| *d <= far);
        if self.tl_on && !self.quiet {
            if let Some(t) = self.sc.tl.get(self.tl_i) {
                let at = match t.w { When::Idle => self.now, When::At(g) => self.tl_last.saturating_add(g) };
                if dl.map_or(true, |d| at <= d) {
                    if at > self.now { self.now = at; self.clock_jumps += 1 }
                    self.fire_tl();
                    return;
                }
            }
        }
        // waking up again and again without doing anything is as good as sleeping
        let n = self.acts;
        if n != self.fruitless.0 { self.fruitless = (n, 0) } else { self.fruitless.1 += 1 }
        let dl = if self.fruitless.1 > 400 { None } else { dl };
        if let Some(d) = dl {
            if d > self.now { self.now = d; self.clock_jumps += 1 }
            return;
        }
        self.quiesced += 1;
        f(self, true);
        // let input arrive so that readers without timeout end
        let mut tty = None;
        for i in 0..self.nth {
            if self.th[i].done { continue; }
            let fds: Vec<i32> = match &self.th[i].wait { Wait::Fds { fds, .. } => fds.iter().filter(|f| f.1).map(|f| f.0).collect(), Wait::Read { fd } => vec![*fd], _ => vec![] };
            for fd in fds { if let Some((Fd::Tty(t), _)) = self.fds.get(&fd) { tty = Some(*t) } }
        }
        match tty {
            Some(t) if self.injected < 40 => {
                self.injected += 1;
                self.h(H::Inject { tty: t });
                let b: &[u8] = if self.ttys[t].tio.c_lflag & libc::ICANON != 0 { b"\n" } else { b"q" };
                self.arrive(t, b);
                // newlines may be turned into something else
                if self.avail(t) == 0 { let e = [self.ttys[t].tio.c_cc[libc::VEOF]]; self.arrive(t, &e) }
            }
            _ => {
                let s = self.describe();
                if tty.is_some() { fail("livelock", format!("reader never finishes although input keeps arriving: {}", s)) }
                fail("deadlock", format!("no thread can make progress: {}", s))
            }
        }
    }
    pub fn describe(&self) -> String {
        (0..self.nth).filter(|i| !self.th[*i].done).map(|i| format!("thread {} in ops {:?} waiting on {}", i, self.th[i].frames.iter().map(|f| f.op).collect::<Vec<_>>(),
            match &self.th[i].wait { Wait::None => "nothing".into(), Wait::Futex { .. } => "a lock".into(), Wait::Fds { .. } => "select/poll".into(), Wait::Read { .. } => "read".into(), Wait::Until { .. } => "time".to_string(), Wait::Join => "other threads".into() })).collect::<Vec<_>>().join("; ")
    }

    fn fire_tl(&mut self) {
        let e = self.sc.tl[self.tl_i].ev.clone();
        self.tl_i += 1;
        self.tl_last = self.now;
        self.event(&e);
    }
    pub fn due(&mut self) {
        if !self.tl_on || self.quiet { return; }
        while let Some(t) = self.sc.tl.get(self.tl_i) {
            match t.w { When::At(g) if self.tl_last.saturating_add(g) <= self.now => self.fire_tl(), _ => break }
        }
    }

    // ------------------------------------------------------------ environment events
    pub fn event(&mut self, e: &Ev) {
        self.events_fired += 1;
        match e {
            Ev::P(_) => {}
            Ev::In(t, b) => { let t = *t as usize % self.ttys.len(); self.flt("input"); self.arrive(t, b) }
            Ev::Sig(s, p) => { self.flt(&format!("signal{}", s)); self.signal(*s, *p) }
            Ev::Rs(l, c, p) => { self.flt("resize"); self.resize(*l, *c, *p) }
            Ev::Jump(s) => { self.flt("clock-jump"); self.rt_off = (self.rt_off + s).clamp(-1_600_000_000, 1_600_000_000) }
            Ev::Hup(t) => { let t = *t as usize % self.ttys.len(); self.flt("hangup"); self.ttys[t].hup = true; self.h(H::Hup { tty: t }) }
            Ev::Foreign(v) => { self.flt("foreign-change"); self.foreign(*v) }
            Ev::StopCont(v, p) => { self.flt("stop-continue"); self.foreign(*v); self.signal(libc::SIGCONT, *p) }
        }
    }
    fn foreign(&mut self, v: u8) {
        self.h(H::Foreign(v));
        let t = &mut self.ttys[0];
        match v % 4 {
            0 => {}
            1 => { t.tio = base_tio(); }
            2 => { t.tio.c_lflag ^= libc::ECHO | libc::ISIG; t.tio.c_iflag ^= libc::IXON; t.tio.c_cc[libc::VMIN] = 1; }
            _ => { t.tio = base_tio(); t.tio.c_lflag |= libc::TOSTOP; t.tio.c_cc[libc::VMIN] = 5; t.tio.c_cc[libc::VTIME] = 7; }
        }
        if v % 4 != 0 { t.emu.m.keypad = false; t.emu.m.appcur = false; t.emu.m.mouse.clear(); t.emu.m.track = 0; }
        // the program itself gave up some of its handlers, as is usual before stopping
        for (k, s) in [libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGWINCH].iter().enumerate() { if v >> (3 + k) & 1 != 0 && disp_kind(&self.disp[*s as usize]) == 9 { self.disp[*s as usize] = disp_of(0); } }
        let t = &mut self.ttys[0];
        if v % 8 >= 4 { t.emu.m.vis = false; t.emu.at = At { f: Some(3), b: None, s: 8 }; }
    }
    pub fn resize(&mut self, l: u16, c: u16, p: u8) {
        let s = self.ttys[0].scramble.wrapping_add(p);
        let t = &mut self.ttys[0];
        let same = (t.l, t.c) == (l, c);
        t.l = l; t.c = c;
        if !same { t.emu.resize(l as usize, c as usize, s) }
        self.h(H::Rs { l, c });
        if !same { self.signal(libc::SIGWINCH, p >> 2) }
    }
    pub fn arrive(&mut self, tty: usize, b: &[u8]) {
        if self.ttys[tty].hup { return; }
        let mut sigs = vec![];
        {
            let t = &mut self.ttys[tty];
            let n0 = t.arrived;
            for &b in b {
                let mut b = b;
                let cc = t.tio.c_cc;
                if t.tio.c_lflag & libc::ISIG != 0 && b != 0 {
                    let s = if b == cc[libc::VINTR] { libc::SIGINT } else if b == cc[libc::VQUIT] { libc::SIGQUIT } else if b == cc[libc::VSUSP] { libc::SIGTSTP } else { 0 };
                    if s != 0 { sigs.push(s); continue; }
                }
                if t.tio.c_iflag & libc::IXON != 0 && b != 0 {
                    if b == cc[libc::VSTOP] { t.stopped = true; continue; }
                    if b == cc[libc::VSTART] { t.stopped = false; continue; }
                }
                if b == b'\r' && t.tio.c_iflag & libc::ICRNL != 0 { b = b'\n' } else if b == b'\n' && t.tio.c_iflag & libc::INLCR != 0 { b = b'\r' }
                if b == b'\r' && t.tio.c_iflag & libc::IGNCR != 0 { continue; }
                t.inq.push_back(b);
                t.stream.push(b);
                t.arrived += 1;
            }
            let (n, total) = (t.arrived - n0, t.arrived);
            self.h(H::Arr { tty, n, total });
        }
        for s in sigs { self.signal(s, 0) }
    }
    pub fn signal(&mut self, sig: i32, pick: u8) {
        if !(1..=64).contains(&sig) { return; }
        let k = disp_kind(&self.disp[sig as usize]);
        let bit = 1u64 << (sig - 1);
        let el: Vec<usize> = (0..self.nth).filter(|i| !self.th[*i].done && self.th[*i].started && self.th[*i].mask & bit == 0).collect();
        let th = if el.is_empty() { 0 } else { el[pick as usize % el.len()] };
        self.h(H::Post { sig, th, acted: k >= 2 });
        if k >= 2 { self.th[th].pending |= bit }
    }

    // ------------------------------------------------------------ faults
    pub fn fault(&mut self, c: Call) -> Option<Fk> { self.fault_if(c, true) }
    /// `endless` false: an error without end makes no sense here (reading the program's own pipe)
    pub fn fault_if(&mut self, c: Call, endless: bool) -> Option<Fk> {
        let cur = self.cur;
        let ci = c as usize;
        let g = self.gcnt[ci];
        self.gcnt[ci] += 1;
        let mut cnts: Vec<(u32, u32)> = vec![];
        for f in &mut self.th[cur].frames { cnts.push((f.op, f.cnt[ci])); f.cnt[ci] += 1; }
        if self.quiet { return None; }
        for f in &self.sc.fault {
            if f.c != c { continue; }
            if !endless && f.cnt >= 1_000_000 && matches!(f.k, Fk::Err(_)) { continue; }
            let hit = match f.op { None => g >= f.nth && g < f.nth.saturating_add(f.cnt), Some(id) => cnts.iter().any(|(o, n)| *o == id && *n >= f.nth && *n < f.nth.saturating_add(f.cnt)) };
            if hit {
                let op = self.cur_op();
                let k = f.k;
                self.h(H::Flt { c, k, th: cur, op });
                let nm = match k { Fk::Short(_) => "short".to_string(), Fk::Eintr => "eintr".into(), Fk::Err(e) => format!("errno{}", e), Fk::Zero => "zero".into(), Fk::Stall(_) => "stall".into(), Fk::EintrSig(s) => format!("eintr-signal{}", s) };
                self.flt(&format!("{:?}-{}", c, nm).to_lowercase());
                return Some(k);
            }
        }
        None
    }
}

// ---------------------------------------------------------------- scheduling primitives (called with IN == false)
fn pass_to(n: usize) {
    let wl = w();
    let me = wl.cur;
    if n == me { return; }
    wl.cur = n;
    wl.switches += 1;
    wl.mix(0x5100 + n as u64);
    if wl.verbose { wl.h(H::Sw { to: n }) }
    unsafe {
        let wd = &wl.th[n].word as *const _ as usize;
        wl.th[n].word.store(1, std::sync::atomic::Ordering::SeqCst);
        raw(libc::SYS_futex, wd, 1, 1, 0, 0, 0);
        if !wl.th[me].done { wait_baton(me) }
    }
}
pub fn wait_baton(me: usize) {
    let wd = &w().th[me].word;
    while wd.swap(0, std::sync::atomic::Ordering::SeqCst) != 1 { unsafe { raw(libc::SYS_futex, wd as *const _ as usize, 0, 0, 0, 0, 0); } }
}
/// Blocks the current thread until its wait condition holds (or a signal handler is to run).
pub fn block(wt: Wait) {
    let wl = w();
    let me = wl.cur;
    wl.th[me].wait = wt;
    if wl.verbose { let on = wl.describe(); wl.h(H::Blocked { th: me, on }) }
    let n = wl.choose();
    pass_to(n);
    // running again
}
pub fn take_wait() -> Wait { let wl = w(); let me = wl.cur; std::mem::replace(&mut wl.th[me].wait, Wait::None) }
/// Gives another ready thread the turn.
pub fn preempt(k: u8) {
    let wl = w();
    let n = wl.nth;
    let rdy: Vec<usize> = (1..n).map(|d| (wl.cur + d) % n).filter(|i| wl.ready(*i)).collect();
    if rdy.is_empty() { return; }
    wl.flt("preemption");
    pass_to(rdy[k as usize % rdy.len()]);
}
/// The current thread is finished: never returns to it.
pub fn thread_exit() -> ! {
    let wl = w();
    let me = wl.cur;
    wl.th[me].done = true;
    // signals still pending on this thread go to another one
    let p = std::mem::replace(&mut wl.th[me].pending, 0);
    for s in 1..=64 { if p & (1u64 << (s - 1)) != 0 { let bit = 1u64 << (s - 1); let t = (0..wl.nth).find(|i| !wl.th[*i].done && wl.th[*i].started); if let Some(t) = t { wl.th[t].pending |= bit } } }
    let n = wl.choose();
    pass_to(n);
    loop { unsafe { raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0); } }
}

/// Runs handlers of pending, unmasked signals on the current thread. Returns (any ran, all had SA_RESTART).
pub fn deliver() -> (bool, bool) {
    let mut any = false;
    let mut restart = true;
    loop {
        let wl = w();
        let me = wl.cur;
        let d = wl.deliverable(me);
        if d == 0 { return (any, any && restart); }
        let sig = d.trailing_zeros() as i32 + 1;
        let bit = 1u64 << (sig - 1);
        wl.th[me].pending &= !bit;
        let act = wl.disp[sig as usize];
        let k = disp_kind(&act);
        wl.h(H::Hand { sig, th: me, kind: k });
        if k < 2 { continue; }
        any = true;
        if act.sa_flags & libc::SA_RESTART == 0 { restart = false }
        wl.mix(0x5160 + sig as u64);
        let old = wl.th[me].mask;
        wl.th[me].mask |= unsafe { *(&act.sa_mask as *const _ as *const u64) };
        if act.sa_flags & libc::SA_NODEFER == 0 { wl.th[me].mask |= bit }
        if act.sa_flags & libc::SA_RESETHAND != 0 { wl.disp[sig as usize] = disp_of(0) }
        wl.th[me].handler_depth += 1;
        let h = act.sa_sigaction;
        if k >= 9 || k >= 2 {
            let errno = unsafe { &mut *libc::__errno_location() };
            let _ = errno;
            IN.set(true);
            unsafe {
                if act.sa_flags & libc::SA_SIGINFO != 0 {
                    let mut si: libc::siginfo_t = std::mem::zeroed();
                    si.si_signo = sig;
                    let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = std::mem::transmute(h);
                    f(sig, &mut si, std::ptr::null_mut());
                } else {
                    let f: extern "C" fn(i32) = std::mem::transmute(h);
                    f(sig);
                }
            }
            IN.set(false);
        }
        let wl = w();
        let me = wl.cur;
        wl.th[me].handler_depth -= 1;
        wl.th[me].mask = old;
        wl.h(H::Handed { sig, th: me, kind: k });
    }
}

/// An instrumented edge at which a trigger, a signal or the step budget needs attention.
#[cold]
#[inline(never)]
pub fn slow_edge() {
    out(|| {
        let wl = w();
        if wl.steps > wl.budget { let s = wl.describe(); fail("livelock", format!("step budget exhausted: {}", s)) }
        let me = wl.cur;
        let edges = wl.th[me].edges;
        fire_trigs(Pt::E(edges));
        let _ = deliver();
        w().arm();
    })
}
pub fn fire_trigs(at: Pt) {
    let wl = w();
    if wl.quiet { return; }
    let me = wl.cur;
    let op = match wl.th[me].frames.last() { Some(f) => f.op, None => return };
    let sc = wl.sc;
    let mut pre = None;
    for (i, g) in sc.trig.iter().enumerate() {
        if g.op == op && g.at == at {
            if let Some(f) = wl.th[me].frames.last_mut() { if f.fired.contains(&i) { continue; } f.fired.push(i) }
            if wl.verbose { wl.note(format!("trigger {} in op {} at {:?}: {:?}", i, op, at, g.ev)) }
            wl.mix(0x7000 + i as u64);
            match &g.ev { Ev::P(k) => pre = Some(*k), e => wl.event(e) }
        }
    }
    if let Some(k) = pre { preempt(k) }
}

/// Entry of every simulated system call.
pub fn sys_enter() {
    let wl = w();
    wl.now += TICK;
    wl.steps += 20;
    if wl.steps > wl.budget { let s = wl.describe(); fail("livelock", format!("step budget exhausted: {}", s)) }
    wl.due();
    let me = wl.cur;
    if let Some(f) = wl.th[me].frames.last_mut() { f.sys += 1; let n = f.sys; fire_trigs(Pt::S(n)) }
    let _ = deliver();
}
pub fn sys_exit() { let _ = deliver(); }

/// Waits until a descriptor is ready, the deadline passes (Ok(false)) or a handler ran (Err(())).
pub fn wait_fds(fds: Vec<(i32, bool, bool)>, dl: u64) -> Result<bool, ()> {
    loop {
        let wl = w();
        if fds.iter().any(|(f, r, wr)| (*r && wl.fd_readable(*f)) || (*wr && wl.fd_writable(*f))) { return Ok(true); }
        let (ran, _) = deliver();
        if ran { return Err(()); }
        let wl = w();
        if wl.now >= dl { return Ok(false); }
        block(Wait::Fds { fds: fds.clone(), dl });
        take_wait();
    }
}
