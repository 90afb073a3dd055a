//! libc symbols defined by this binary: calls of the code under test reach the simulated kernel, all others pass through.
use crate::kern::*;
use crate::scen::*;
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::sync::atomic::{AtomicUsize, Ordering};

fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e } }
fn errno_ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        // a handler may run before the caller looks at errno
        if insim() { unsafe { point() } }
        -1
    } else { r }
}

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 { p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize; P.store(p, Ordering::Relaxed) }
        std::mem::transmute::<usize, $ty>(p)
    }};
}
fn insim() -> bool { IN.get() && have_world() }
fn simfd(fd: c_int) -> bool { (0..=2).contains(&fd) || fd >= SIMFD }
fn kern<R>(f: impl FnOnce() -> R) -> R { out(f) }

// ---------------------------------------------------------------- coverage callbacks
pub static mut NGUARD: u32 = 0;
pub static mut COV: *mut u8 = std::ptr::null_mut();
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 { return; }
    while s < e { NGUARD += 1; *s = NGUARD; s = s.add(1) }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN.get() || W.is_null() { return; }
    if !COV.is_null() { *COV.add(*g as usize) = 1 }
    point()
}
/// A place where another thread may be scheduled or a signal may arrive.
#[inline(always)]
unsafe fn point() {
    let wl = &mut *W;
    wl.steps += 1;
    let t = &mut *(wl.th.as_mut_ptr().add(wl.cur));
    t.edges += 1;
    if t.edges >= t.next_edge || (t.pending & !t.mask) != 0 || wl.steps > wl.budget { slow_edge() }
}

// ---------------------------------------------------------------- memory
/// The allocator's lock, as far as signals are concerned: one may arrive while the lock is held, and its handler must not ask for it.
pub struct Alloc;
unsafe fn alloc_point() {
    if !IN.get() || W.is_null() { return; }
    let wl = &mut *W;
    let me = wl.cur;
    if wl.th[me].in_alloc > 0 { out(|| fail("deadlock", "a signal handler allocates or frees memory, and the code it interrupted holds the allocator's lock".into())) }
    if wl.th[me].handler_depth > 0 { return; }
    wl.th[me].in_alloc = 1;
    point();
    (&mut *W).th[me].in_alloc = 0;
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { alloc_point(); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { alloc_point(); std::alloc::System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { alloc_point(); std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { alloc_point(); std::alloc::System.realloc(p, l, n) }
}

// Accesses to static memory (atomics, mainly) are scheduling points as well: a signal or another thread may come in between.
extern "C" { static __data_start: u8; static _end: u8; }
#[inline(always)]
unsafe fn access(p: usize) {
    if p < std::ptr::addr_of!(__data_start) as usize || p >= std::ptr::addr_of!(_end) as usize || !IN.get() || W.is_null() { return; }
    point()
}
macro_rules! accesses { ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: usize) { access(p) })* } }
accesses! { __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16 }

// ---------------------------------------------------------------- futex
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && insim() {
        let cmd = (b as i32) & 0x7f;
        let r = kern(|| -> i64 {
            match cmd {
                0 | 9 => {
                    sys_enter();
                    if *(a as *const u32) != c as u32 { return -(libc::EAGAIN as i64); }
                    let bits = if cmd == 9 { f as u32 } else { !0 };
                    let dl = if d == 0 { u64::MAX } else {
                        let ts = &*(d as *const libc::timespec);
                        let v = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                        if cmd == 9 { v } else { w().now.saturating_add(v) }
                    };
                    loop {
                        block(Wait::Futex { addr: a, bits, dl, woken: false });
                        let wt = take_wait();
                        let woken = matches!(wt, Wait::Futex { woken: true, .. });
                        let (ran, restart) = deliver();
                        if woken { return 0; }
                        if w().now >= dl { return -(libc::ETIMEDOUT as i64); }
                        if ran { if !restart { return -(libc::EINTR as i64); } if *(a as *const u32) != c as u32 { return -(libc::EAGAIN as i64); } }
                    }
                }
                1 | 10 => {
                    sys_enter();
                    let mut left = c as u32;
                    let mut n = 0;
                    let bits = if cmd == 10 { f as u32 } else { !0 };
                    while left > 0 {
                        let wl = w();
                        let ws: Vec<usize> = (0..wl.nth).map(|k| (wl.cur + k) % wl.nth).filter(|i| matches!(wl.th[*i].wait, Wait::Futex { addr, bits: wb, woken: false, .. } if addr == a && wb & bits != 0)).collect();
                        if ws.is_empty() { break; }
                        let k = if ws.len() > 1 { wl.next_pick().unwrap_or(0) as usize } else { 0 };
                        if let Wait::Futex { woken, .. } = &mut wl.th[ws[k % ws.len()]].wait { *woken = true }
                        n += 1;
                        left -= 1;
                    }
                    sys_exit();
                    n
                }
                _ => -(libc::ENOSYS as i64),
            }
        });
        return errno_ret(r);
    }
    errno_ret(raw(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- read / write
unsafe fn sim_read(fd: c_int, p: *mut u8, n: usize) -> i64 {
    sys_enter();
    let ft = { let wl = w(); let tty = !matches!(wl.fds.get(&fd), Some((Fd::PipeR(_), ..))); wl.fault_if(Call::Read, tty) };
    let mut lim = n;
    match ft {
        Some(Fk::Short(k)) => lim = lim.min(k.max(1) as usize),
        Some(Fk::Eintr) => return -(libc::EINTR as i64),
        Some(Fk::Err(e)) => return -(e as i64),
        Some(Fk::EintrSig(s)) => { let wl = w(); let me = wl.cur; sig_self(s, me); deliver(); return -(libc::EINTR as i64) }
        Some(Fk::Stall(ns)) => { stall(ns); }
        _ => {}
    }
    loop {
        let wl = w();
        let ent = match wl.fds.get(&fd) { Some(e) => *e, None => { badfd(fd, "read"); return -(libc::EBADF as i64) } };
        if ent.1 & libc::O_ACCMODE == libc::O_WRONLY { badfd(fd, "read (not open for reading)"); return -(libc::EBADF as i64); }
        match ent.0 {
            Fd::Tty(t) => {
                let av = wl.avail(t);
                let canon = wl.ttys[t].tio.c_lflag & libc::ICANON != 0;
                if av > 0 {
                    let mut k = av.min(lim);
                    if canon { if let Some(i) = wl.ttys[t].inq.iter().position(|b| *b == b'\n') { k = k.min(i + 1) } }
                    for i in 0..k { *p.add(i) = wl.ttys[t].inq.pop_front().unwrap() }
                    wl.mix(0x4ead + k as u64);
                    sys_exit();
                    return k as i64;
                }
                if wl.ttys[t].hup { return 0; }
                if !canon && wl.ttys[t].tio.c_cc[libc::VMIN] == 0 && wl.ttys[t].tio.c_cc[libc::VTIME] == 0 { return 0; }
                if lim == 0 { return 0; }
            }
            Fd::PipeR(q) => {
                let k = wl.pipes[q].buf.len().min(lim);
                if k > 0 { for i in 0..k { *p.add(i) = wl.pipes[q].buf.pop_front().unwrap() } sys_exit(); return k as i64; }
                if wl.pipes[q].w == 0 { return 0; }
            }
            _ => return -(libc::EBADF as i64),
        }
        if ent.1 & libc::O_NONBLOCK != 0 { return -(libc::EAGAIN as i64); }
        let (ran, restart) = deliver();
        if ran && !restart { return -(libc::EINTR as i64); }
        block(Wait::Read { fd });
        take_wait();
        let (ran, restart) = deliver();
        if ran && !restart { return -(libc::EINTR as i64); }
    }
}
fn badfd(fd: c_int, what: &str) { let wl = w(); let op = wl.cur_op(); wl.bad.push(if what.contains("not open") { format!("{} on descriptor {} (op {})", what, fd, op) } else { format!("{} on descriptor {} which is not open (op {})", what, fd, op) }); }
fn sig_self(s: i32, me: usize) {
    let wl = w();
    if !(1..=64).contains(&s) { return; }
    let k = disp_kind(&wl.disp[s as usize]);
    wl.h(H::Post { sig: s, th: me, acted: k >= 2 });
    if k >= 2 { wl.th[me].pending |= 1 << (s - 1) }
}
/// Blocks for some time; true if a handler ran.
fn stall(ns: u64) -> bool {
    let dl = w().now.saturating_add(ns);
    block(Wait::Until { dl, intr: true });
    take_wait();
    deliver().0
}
unsafe fn sim_write(fd: c_int, p: *const u8, n: usize) -> i64 {
    let buf = if n == 0 { &[][..] } else { std::slice::from_raw_parts(p, n) };
    let ent = w().fds.get(&fd).copied();
    match ent {
        None => { badfd(fd, "write"); -(libc::EBADF as i64) }
        Some((Fd::Log, _)) => { w().log.extend_from_slice(buf); n as i64 }
        Some((Fd::PipeW(q), fl)) => {
            let wl = w();
            if wl.pipes[q].r == 0 { return -(libc::EPIPE as i64); }
            if wl.pipes[q].buf.len() + n > 65536 { return if fl & libc::O_NONBLOCK != 0 { -(libc::EAGAIN as i64) } else { n as i64 }; }
            wl.pipes[q].buf.extend(buf.iter());
            n as i64
        }
        Some((Fd::PipeR(_), _)) => -(libc::EBADF as i64),
        Some((Fd::Tty(_), fl)) if fl & libc::O_ACCMODE == libc::O_RDONLY => { badfd(fd, "write (not open for writing)"); -(libc::EBADF as i64) }
        Some((Fd::Tty(t), _)) => {
            sys_enter();
            let ft = w().fault(Call::Write);
            let mut k = n;
            match ft {
                Some(Fk::Short(s)) => k = k.min(s.max(1) as usize),
                Some(Fk::Eintr) => return -(libc::EINTR as i64),
                Some(Fk::Err(e)) => return -(e as i64),
                Some(Fk::Zero) => return 0,
                Some(Fk::EintrSig(s)) => { let me = w().cur; sig_self(s, me); deliver(); return -(libc::EINTR as i64) }
                Some(Fk::Stall(ns)) => if stall(ns) { return -(libc::EINTR as i64) },
                None => {}
            }
            let wl = w();
            if !wl.fds.contains_key(&fd) { badfd(fd, "write"); return -(libc::EBADF as i64); }
            if wl.ttys[t].hup { return -(libc::EIO as i64); }
            wl.ttys[t].emu.feed(&buf[..k]);
            wl.ttys[t].out_total += k as u64;
            let snap = if wl.snap { let e = &wl.ttys[t].emu; Some(Box::new((e.g.clone(), e.m.clone()))) } else { None };
            let items = wl.ttys[t].emu.items.len();
            let (th, op) = (wl.cur, wl.cur_op());
            wl.mix(0x3417e + ((th as u64) << 32) + k as u64);
            wl.h(H::Wr { tty: t, th, op, n: k, items, snap });
            sys_exit();
            k as i64
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if insim() && simfd(fd) { let r = kern(|| sim_read(fd, p as *mut u8, n)); return errno_ret(r) as ssize_t; }
    errno_ret(raw(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if have_world() && (0..=2).contains(&fd) && !IN.get() && fd == 2 {
        // messages of the runtime itself (abort notices) while a run is on
        let b = std::slice::from_raw_parts(p as *const u8, n); w().log.extend_from_slice(b);
        crate::runner::log_shm(b);
        return n as ssize_t;
    }
    if insim() && simfd(fd) {
        if fd == 2 { crate::runner::log_shm(std::slice::from_raw_parts(p as *const u8, n)); }
        let r = kern(|| sim_write(fd, p as *const u8, n)); return errno_ret(r) as ssize_t;
    }
    errno_ret(raw(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if insim() && simfd(fd) {
        for i in 0..n as usize { let x = &*v.add(i); if x.iov_len > 0 { return read(fd, x.iov_base, x.iov_len); } }
        return 0;
    }
    errno_ret(raw(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if (insim() && simfd(fd)) || (have_world() && fd == 2) {
        let mut all = vec![];
        for i in 0..n as usize { let x = &*v.add(i); if x.iov_len > 0 { all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)) } }
        return write(fd, all.as_ptr() as *const c_void, all.len());
    }
    errno_ret(raw(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0)) as ssize_t
}

// ---------------------------------------------------------------- select / poll
const NSEC: u64 = 1_000_000_000;
unsafe fn sim_select(nfds: c_int, r: *mut libc::fd_set, wr: *mut libc::fd_set, ex: *mut libc::fd_set, dl: u64, mask: Option<u64>) -> i64 {
    sys_enter();
    match w().fault(Call::Select) {
        Some(Fk::Eintr) => return -(libc::EINTR as i64),
        Some(Fk::Err(e)) => return -(e as i64),
        Some(Fk::EintrSig(s)) => { let me = w().cur; sig_self(s, me); if deliver().0 { return -(libc::EINTR as i64) } }
        _ => {}
    }
    let mut fds = vec![];
    for fd in 0..nfds.min(1024) {
        let a = !r.is_null() && libc::FD_ISSET(fd, r);
        let b = !wr.is_null() && libc::FD_ISSET(fd, wr);
        let c = !ex.is_null() && libc::FD_ISSET(fd, ex);
        if a || b || c {
            if !w().fds.contains_key(&fd) { if fd >= SIMFD { badfd(fd, "select") } return -(libc::EBADF as i64); }
            fds.push((fd, a, b));
        }
    }
    let me = w().cur;
    let oldmask = w().th[me].mask;
    if let Some(m) = mask { w().th[me].mask = m }
    let res = wait_fds(fds.clone(), dl);
    w().th[me].mask = oldmask;
    let ret = match res {
        Err(()) => return -(libc::EINTR as i64),
        Ok(_) => {
            let mut n = 0;
            for s in [r, wr, ex] { if !s.is_null() { for fd in 0..nfds.min(1024) { libc::FD_CLR(fd, s) } } }
            for (fd, a, b) in &fds {
                if *a && w().fd_readable(*fd) { libc::FD_SET(*fd, r); n += 1 }
                if *b && w().fd_writable(*fd) { libc::FD_SET(*fd, wr); n += 1 }
            }
            n
        }
    };
    sys_exit();
    ret
}
#[no_mangle]
pub unsafe extern "C" fn select(nfds: c_int, r: *mut libc::fd_set, wr: *mut libc::fd_set, ex: *mut libc::fd_set, tv: *mut libc::timeval) -> c_int {
    if !insim() { return next!("select", unsafe extern "C" fn(c_int, *mut libc::fd_set, *mut libc::fd_set, *mut libc::fd_set, *mut libc::timeval) -> c_int)(nfds, r, wr, ex, tv); }
    let x = kern(|| {
        let mut dl = u64::MAX;
        if !tv.is_null() {
            let t = &*tv;
            if t.tv_sec < 0 || t.tv_usec < 0 { return -(libc::EINVAL as i64); }
            dl = w().now.saturating_add((t.tv_sec as u64).saturating_mul(NSEC)).saturating_add((t.tv_usec as u64).saturating_mul(1000)).min(u64::MAX - 1);
        }
        let x = sim_select(nfds, r, wr, ex, dl, None);
        if !tv.is_null() { let left = dl.saturating_sub(w().now); (*tv).tv_sec = (left / NSEC) as i64; (*tv).tv_usec = (left % NSEC / 1000) as i64; }
        x
    });
    errno_ret(x) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pselect(nfds: c_int, r: *mut libc::fd_set, wr: *mut libc::fd_set, ex: *mut libc::fd_set, ts: *const libc::timespec, m: *const libc::sigset_t) -> c_int {
    if !insim() { return next!("pselect", unsafe extern "C" fn(c_int, *mut libc::fd_set, *mut libc::fd_set, *mut libc::fd_set, *const libc::timespec, *const libc::sigset_t) -> c_int)(nfds, r, wr, ex, ts, m); }
    let x = kern(|| match ts_dl(ts) { Err(e) => -(e as i64), Ok(dl) => sim_select(nfds, r, wr, ex, dl, if m.is_null() { None } else { Some(*(m as *const u64)) }) });
    errno_ret(x) as c_int
}
unsafe fn ts_dl(ts: *const libc::timespec) -> Result<u64, i32> {
    if ts.is_null() { return Ok(u64::MAX); }
    let t = &*ts;
    if t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= NSEC as i64 { return Err(libc::EINVAL); }
    Ok(w().now.saturating_add((t.tv_sec as u64).saturating_mul(NSEC)).saturating_add(t.tv_nsec as u64).min(u64::MAX - 1))
}
unsafe fn sim_poll(p: *mut libc::pollfd, n: usize, dl: u64, mask: Option<u64>) -> i64 {
    sys_enter();
    match w().fault(Call::Select) {
        Some(Fk::Eintr) => return -(libc::EINTR as i64),
        Some(Fk::Err(e)) => return -(e as i64),
        Some(Fk::EintrSig(s)) => { let me = w().cur; sig_self(s, me); if deliver().0 { return -(libc::EINTR as i64) } }
        _ => {}
    }
    let mut fds = vec![];
    let mut bad = 0;
    for i in 0..n {
        let x = &mut *p.add(i);
        x.revents = 0;
        if x.fd < 0 { continue; }
        if !w().fds.contains_key(&x.fd) { if x.fd >= SIMFD { badfd(x.fd, "poll") } x.revents = libc::POLLNVAL; bad += 1; continue; }
        fds.push((x.fd, x.events & libc::POLLIN != 0, x.events & libc::POLLOUT != 0));
    }
    if bad == 0 {
        let me = w().cur;
        let oldmask = w().th[me].mask;
        if let Some(m) = mask { w().th[me].mask = m }
        let res = wait_fds(fds, dl);
        w().th[me].mask = oldmask;
        if res.is_err() { return -(libc::EINTR as i64); }
    }
    let mut c = 0;
    for i in 0..n {
        let x = &mut *p.add(i);
        if x.fd < 0 { continue; }
        if let Some((Fd::Tty(t), _)) = w().fds.get(&x.fd) { if w().ttys[*t].hup { x.revents |= libc::POLLHUP } }
        if x.events & libc::POLLIN != 0 && w().fd_readable(x.fd) { x.revents |= libc::POLLIN }
        if x.events & libc::POLLOUT != 0 && w().fd_writable(x.fd) { x.revents |= libc::POLLOUT }
        if x.revents != 0 { c += 1 }
    }
    sys_exit();
    c
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
    if !insim() { return errno_ret(raw(libc::SYS_poll, p as usize, n as usize, ms as isize as usize, 0, 0, 0)) as c_int; }
    let x = kern(|| { let dl = if ms < 0 { u64::MAX } else { w().now.saturating_add(ms as u64 * 1_000_000).min(u64::MAX - 1) }; sim_poll(p, n as usize, dl, None) });
    errno_ret(x) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut libc::pollfd, n: libc::nfds_t, ts: *const libc::timespec, m: *const libc::sigset_t) -> c_int {
    if !insim() { return next!("ppoll", unsafe extern "C" fn(*mut libc::pollfd, libc::nfds_t, *const libc::timespec, *const libc::sigset_t) -> c_int)(p, n, ts, m); }
    let x = kern(|| match ts_dl(ts) { Err(e) => -(e as i64), Ok(dl) => sim_poll(p, n as usize, dl, if m.is_null() { None } else { Some(*(m as *const u64)) }) });
    errno_ret(x) as c_int
}

// ---------------------------------------------------------------- terminal settings
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if insim() && simfd(fd) {
        let x = kern(|| {
            sys_enter();
            let wl = w();
            let t = match wl.fds.get(&fd) { Some((Fd::Tty(t), _)) => *t, Some(_) => return -(libc::ENOTTY as i64), None => { badfd(fd, "ioctl"); return -(libc::EBADF as i64) } };
            if req == libc::TIOCGWINSZ {
                if let Some(Fk::Err(e)) = wl.fault(Call::Winsz) { return -(e as i64); }
                if wl.ttys[t].hup { return -(libc::EIO as i64); }
                let ws = &mut *(arg as *mut libc::winsize);
                ws.ws_row = wl.ttys[t].l; ws.ws_col = wl.ttys[t].c; ws.ws_xpixel = 0; ws.ws_ypixel = 0;
                let (l, c, th) = (ws.ws_row, ws.ws_col, wl.cur);
                wl.h(H::Winsz { tty: t, th, l, c });
                sys_exit();
                return 0;
            }
            -(libc::ENOTTY as i64)
        });
        return errno_ret(x) as c_int;
    }
    errno_ret(raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, p: *mut libc::termios) -> c_int {
    if insim() && simfd(fd) {
        let x = kern(|| {
            sys_enter();
            let wl = w();
            let t = match wl.fds.get(&fd) { Some((Fd::Tty(t), _)) => *t, Some(_) => return -(libc::ENOTTY as i64), None => { badfd(fd, "tcgetattr"); return -(libc::EBADF as i64) } };
            match wl.fault(Call::TcGet) { Some(Fk::Err(e)) => return -(e as i64), Some(Fk::Eintr) => return -(libc::EINTR as i64), _ => {} }
            if wl.ttys[t].hup { return -(libc::EIO as i64); }
            *p = wl.ttys[t].tio;
            sys_exit();
            0
        });
        return errno_ret(x) as c_int;
    }
    next!("tcgetattr", unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int)(fd, p)
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, how: c_int, p: *const libc::termios) -> c_int {
    if insim() && simfd(fd) {
        let x = kern(|| {
            sys_enter();
            let wl = w();
            let t = match wl.fds.get(&fd) { Some((Fd::Tty(t), _)) => *t, Some(_) => return -(libc::ENOTTY as i64), None => { badfd(fd, "tcsetattr"); return -(libc::EBADF as i64) } };
            match wl.fault(Call::TcSet) { Some(Fk::Err(e)) => return -(e as i64), Some(Fk::Eintr) => return -(libc::EINTR as i64), Some(Fk::Stall(ns)) => { if stall(ns) { return -(libc::EINTR as i64) } } _ => {} }
            let wl = w();
            if wl.ttys[t].hup { return -(libc::EIO as i64); }
            if how == libc::TCSAFLUSH {
                let n = wl.ttys[t].inq.len();
                if n > 0 { wl.h(H::Flush { tty: t }) }
                wl.ttys[t].inq.clear();
            }
            wl.ttys[t].tio = *p;
            let (th, op) = (wl.cur, wl.cur_op());
            wl.mix(0x7c5e7);
            wl.h(H::TcSet { tty: t, th, op });
            sys_exit();
            0
        });
        return errno_ret(x) as c_int;
    }
    next!("tcsetattr", unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int)(fd, how, p)
}
#[no_mangle]
pub unsafe extern "C" fn tcflush(fd: c_int, q: c_int) -> c_int {
    if insim() && simfd(fd) {
        kern(|| { let wl = w(); if let Some((Fd::Tty(t), _)) = wl.fds.get(&fd) { let t = *t; if q != libc::TCOFLUSH { wl.ttys[t].inq.clear(); wl.h(H::Flush { tty: t }) } } });
        return 0;
    }
    next!("tcflush", unsafe extern "C" fn(c_int, c_int) -> c_int)(fd, q)
}
#[no_mangle]
pub unsafe extern "C" fn tcdrain(fd: c_int) -> c_int { if insim() && simfd(fd) { return 0; } next!("tcdrain", unsafe extern "C" fn(c_int) -> c_int)(fd) }
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if insim() && simfd(fd) { return matches!(w().fds.get(&fd), Some((Fd::Tty(_), _))) as c_int; }
    next!("isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}

// ---------------------------------------------------------------- signals
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, act: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if insim() {
        let x = kern(|| {
            sys_enter();
            let wl = w();
            if !(1..=64).contains(&sig) { return -(libc::EINVAL as i64); }
            if let Some(Fk::Err(e)) = wl.fault(Call::SigAct) { return -(e as i64); }
            let prev = wl.disp[sig as usize];
            if !act.is_null() {
                wl.disp[sig as usize] = *act;
                let kind = disp_kind(&*act);
                let th = wl.cur;
                // a pending signal that is now ignored is discarded
                if kind == 1 || (kind == 0 && (sig == libc::SIGCONT || sig == libc::SIGWINCH)) { for t in &mut wl.th { t.pending &= !(1 << (sig - 1)) } }
                wl.h(H::SigSet { sig, kind, th });
            }
            if !old.is_null() { *old = prev }
            sys_exit();
            0
        });
        return errno_ret(x) as c_int;
    }
    next!("sigaction", unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(sig, act, old)
}
#[no_mangle]
pub unsafe extern "C" fn signal(sig: c_int, h: libc::sighandler_t) -> libc::sighandler_t {
    if insim() {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = h;
        a.sa_flags = libc::SA_RESTART;
        let mut o: libc::sigaction = std::mem::zeroed();
        return if sigaction(sig, &a, &mut o) == 0 { o.sa_sigaction } else { libc::SIG_ERR };
    }
    next!("signal", unsafe extern "C" fn(c_int, libc::sighandler_t) -> libc::sighandler_t)(sig, h)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int { if insim() && simfd(fd) { return fcntl(fd, libc::F_DUPFD, 0); } errno_ret(raw(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int }
#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(how: c_int, set: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    if insim() {
        kern(|| {
            let wl = w();
            let me = wl.cur;
            let m = wl.th[me].mask;
            if !old.is_null() { libc::sigemptyset(old); *(old as *mut u64) = m }
            if !set.is_null() {
                let s = *(set as *const u64);
                wl.th[me].mask = match how { libc::SIG_BLOCK => m | s, libc::SIG_UNBLOCK => m & !s, _ => s };
            }
            sys_exit();
        });
        return 0;
    }
    next!("pthread_sigmask", unsafe extern "C" fn(c_int, *const libc::sigset_t, *mut libc::sigset_t) -> c_int)(how, set, old)
}
#[no_mangle]
pub unsafe extern "C" fn sigprocmask(how: c_int, set: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    if insim() { return pthread_sigmask(how, set, old); }
    next!("sigprocmask", unsafe extern "C" fn(c_int, *const libc::sigset_t, *mut libc::sigset_t) -> c_int)(how, set, old)
}

// ---------------------------------------------------------------- descriptors
/// Numbers are not used again, so that a stale one is noticed.
fn new_fd(e: (Fd, i32)) -> i32 { let wl = w(); let fd = wl.next_fd; wl.next_fd += 1; wl.fds.insert(fd, e); fd }
unsafe fn sim_open(path: &str, flags: c_int) -> i64 {
    sys_enter();
    match w().fault(Call::Open) { Some(Fk::Err(e)) => return -(e as i64), Some(Fk::Eintr) => return -(libc::EINTR as i64), _ => {} }
    let t = match path.strip_prefix("/sim/tty") { Some(s) => s.parse::<usize>().ok().filter(|x| *x < w().ttys.len()), None => None };
    match t {
        None => -(libc::ENOENT as i64),
        Some(t) => { let fd = new_fd((Fd::Tty(t), flags)); let op = w().cur_op(); w().h(H::Open { fd, tty: t, op }); sys_exit(); fd as i64 }
    }
}
unsafe fn open_impl(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if insim() {
        let s = std::ffi::CStr::from_ptr(path).to_bytes();
        if s.starts_with(b"/sim/") { let p = String::from_utf8_lossy(s).into_owned(); let x = kern(|| sim_open(&p, flags)); return errno_ret(x) as c_int; }
    }
    errno_ret(raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { open_impl(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int { open_impl(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if insim() && simfd(fd) {
        let x = kern(|| {
            sys_enter();
            let wl = w();
            wl.h(H::Close { fd });
            wl.closes.push(fd);
            if fd <= 2 { let op = wl.cur_op(); wl.bad.push(format!("standard descriptor {} closed (op {})", fd, op)); return 0; }
            match wl.fds.remove(&fd) {
                None => { badfd(fd, "close"); -(libc::EBADF as i64) }
                Some((Fd::PipeR(p), _)) => { wl.pipes[p].r -= 1; 0 }
                Some((Fd::PipeW(p), _)) => { wl.pipes[p].w -= 1; 0 }
                Some(_) => match wl.fault(Call::Close) { Some(Fk::Eintr) => -(libc::EINTR as i64), Some(Fk::Err(e)) => -(e as i64), _ => 0 },
            }
        });
        return errno_ret(x) as c_int;
    }
    errno_ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn sim_pipe(p: *mut c_int, flags: c_int) -> i64 {
    sys_enter();
    if let Some(Fk::Err(e)) = w().fault(Call::Pipe) { return -(e as i64); }
    let wl = w();
    wl.pipes.push(Pipe { buf: Default::default(), r: 1, w: 1 });
    let i = wl.pipes.len() - 1;
    *p = new_fd((Fd::PipeR(i), flags));
    *p.add(1) = new_fd((Fd::PipeW(i), flags | libc::O_WRONLY));
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    if insim() { let x = kern(|| sim_pipe(p, 0)); return errno_ret(x) as c_int; }
    errno_ret(raw(libc::SYS_pipe2, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
    if insim() { let x = kern(|| sim_pipe(p, flags)); return errno_ret(x) as c_int; }
    errno_ret(raw(libc::SYS_pipe2, p as usize, flags as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if insim() && simfd(fd) {
        let x = kern(|| {
            let wl = w();
            match if cmd == libc::F_SETFL || cmd == libc::F_SETFD { wl.fault(Call::Fcntl) } else { None } { Some(Fk::Err(e)) => return -(e as i64), _ => {} }
            match wl.fds.get_mut(&fd) {
                None => { badfd(fd, "fcntl"); -(libc::EBADF as i64) }
                Some(e) => match cmd {
                    libc::F_GETFL => e.1 as i64,
                    libc::F_SETFL => { e.1 = e.1 & libc::O_ACCMODE | arg as i32 & !libc::O_ACCMODE; 0 }
                    libc::F_GETFD => libc::FD_CLOEXEC as i64,
                    libc::F_SETFD => 0,
                    libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => { let e = *e; match e.0 { Fd::PipeR(p) => wl.pipes[p].r += 1, Fd::PipeW(p) => wl.pipes[p].w += 1, _ => {} } new_fd(e) as i64 }
                    _ => -(libc::EINVAL as i64),
                },
            }
        });
        return errno_ret(x) as c_int;
    }
    errno_ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }

// ---------------------------------------------------------------- time
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if insim() && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_BOOTTIME || clk == libc::CLOCK_MONOTONIC_RAW || clk == libc::CLOCK_MONOTONIC_COARSE) {
        let n = w().now;
        (*ts).tv_sec = (n / NSEC) as i64 + if clk == libc::CLOCK_REALTIME { 1_700_000_000 + w().rt_off } else { 0 };
        (*ts).tv_nsec = (n % NSEC) as i64;
        return 0;
    }
    errno_ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if insim() {
        return kern(|| {
            sys_enter();
            w().sleep_calls += 1;
            let t = &*ts;
            let v = (t.tv_sec as u64).saturating_mul(NSEC).saturating_add(t.tv_nsec as u64);
            let dl = if flags & libc::TIMER_ABSTIME != 0 { v } else { w().now.saturating_add(v) };
            let dl = dl.min(u64::MAX - 1);
            if w().now < dl { block(Wait::Until { dl, intr: true }); take_wait(); }
            let (ran, _) = deliver();
            if ran && w().now < dl {
                if !rem.is_null() { let l = dl - w().now; (*rem).tv_sec = (l / NSEC) as i64; (*rem).tv_nsec = (l % NSEC) as i64 }
                return libc::EINTR;
            }
            0
        });
    }
    -(raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, ts as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if insim() { let e = clock_nanosleep(libc::CLOCK_MONOTONIC, 0, ts, rem); return if e != 0 { set_errno(e); -1 } else { 0 }; }
    errno_ret(raw(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if insim() { kern(|| { sys_enter(); let k = w().next_pick().unwrap_or(0); preempt(k) }); return 0; }
    errno_ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
