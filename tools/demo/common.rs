//! A pseudo-terminal, a small terminal emulator and controllable system calls for demonstrations.
#![allow(dead_code)]
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Pty { pub master: i32, pub slave: i32, pub path: String, pub seen: Mutex<Vec<u8>> }
impl Pty {
    pub fn new(l: u16, c: u16) -> Pty {
        unsafe {
            let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY);
            assert!(m >= 0 && libc::grantpt(m) == 0 && libc::unlockpt(m) == 0);
            let path = CStr::from_ptr(libc::ptsname(m)).to_str().unwrap().to_string();
            let s = libc::open(format!("{}\0", path).as_ptr() as *const _, libc::O_RDWR | libc::O_NOCTTY);
            assert!(s >= 0);
            let mut t: libc::termios = std::mem::zeroed();
            libc::tcgetattr(s, &mut t);
            t.c_oflag &= !libc::OPOST;
            t.c_lflag &= !(libc::ECHO);
            libc::tcsetattr(s, libc::TCSANOW, &t);
            libc::fcntl(m, libc::F_SETFL, libc::fcntl(m, libc::F_GETFL) | libc::O_NONBLOCK);
            let p = Pty { master: m, slave: s, path, seen: Mutex::new(vec![]) };
            p.winsz(l, c);
            p
        }
    }
    pub fn winsz(&self, l: u16, c: u16) { let w = libc::winsize { ws_row: l, ws_col: c, ws_xpixel: 0, ws_ypixel: 0 }; unsafe { libc::ioctl(self.slave, libc::TIOCSWINSZ, &w); } }
    /// Everything the device received since the last call.
    pub fn out(&self) -> Vec<u8> {
        let mut v = vec![];
        let mut b = [0u8; 4096];
        let end = Instant::now() + Duration::from_secs(2);
        let mut quiet = 0;
        while Instant::now() < end && quiet < 3 {
            let n = unsafe { libc::syscall(libc::SYS_read, self.master, b.as_mut_ptr(), b.len()) };
            if n > 0 { v.extend_from_slice(&b[..n as usize]); quiet = 0 } else { quiet += 1; std::thread::sleep(Duration::from_millis(10)) }
        }
        self.seen.lock().unwrap().extend_from_slice(&v);
        v
    }
    pub fn send(&self, b: &[u8]) { let mut o = 0; while o < b.len() { let n = unsafe { libc::syscall(libc::SYS_write, self.master, b[o..].as_ptr(), b.len() - o) }; if n > 0 { o += n as usize } else { std::thread::sleep(Duration::from_millis(5)) } } std::thread::sleep(Duration::from_millis(30)); }
    pub fn tio(&self) -> libc::termios { unsafe { let mut t = std::mem::zeroed(); libc::tcgetattr(self.slave, &mut t); t } }
}
pub fn tio_eq(a: &libc::termios, b: &libc::termios) -> bool { a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc == b.c_cc }

/// A thread that keeps the device drained and returns what it got.
pub struct Drain { stop: std::sync::Arc<AtomicBool>, h: std::thread::JoinHandle<Vec<u8>> }
impl Drain {
    pub fn new(p: &Pty) -> Drain {
        let m = p.master;
        let stop = std::sync::Arc::new(AtomicBool::new(false));
        let s = stop.clone();
        Drain { stop, h: std::thread::spawn(move || {
            let mut v = vec![]; let mut b = [0u8; 65536]; let mut q = 0;
            loop { let n = unsafe { libc::syscall(libc::SYS_read, m, b.as_mut_ptr(), b.len()) }; if n > 0 { v.extend_from_slice(&b[..n as usize]); q = 0 } else { if s.load(SeqCst) { q += 1; if q > 5 { return v; } } std::thread::sleep(Duration::from_millis(2)) } }
        }) }
    }
    pub fn end(self) -> Vec<u8> { self.stop.store(true, SeqCst); self.h.join().unwrap() }
}

// ------------------------------------------------------------ controllable calls (only those to descriptors above 2)
/// Next writes: a positive entry limits the length, a negative one is an error number to fail with.
pub static WPLAN: Mutex<Vec<i64>> = Mutex::new(Vec::new());
pub static RPLAN: Mutex<Vec<i64>> = Mutex::new(Vec::new());
pub static FAIL_TCSET: AtomicI32 = AtomicI32::new(0);
pub static FAIL_WINSZ: AtomicI32 = AtomicI32::new(0);
/// Fails the n-th sigaction call from now (1 = next) with EINVAL.
pub static FAIL_SIGACTION: AtomicI32 = AtomicI32::new(0);
pub static MAXSEL: AtomicUsize = AtomicUsize::new(0);
pub static SELECTS: AtomicUsize = AtomicUsize::new(0);
pub static CLOSES: Mutex<Vec<i32>> = Mutex::new(Vec::new());
/// Called before every read / after every select on a terminal descriptor.
pub static BEFORE_READ: Mutex<Option<fn()>> = Mutex::new(None);
pub static BEFORE_SELECT: Mutex<Option<fn()>> = Mutex::new(None);
fn pop(p: &Mutex<Vec<i64>>) -> i64 { let mut p = p.lock().unwrap(); if p.is_empty() { 0 } else { p.remove(0) } }
fn errno(e: i64) { unsafe { *libc::__errno_location() = e as i32 } }
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 && libc::isatty(fd) == 1 {
        match pop(&WPLAN) { 0 => {} k if k < 0 => { errno(-k); return -1 } k => n = n.min(k as usize) }
    }
    libc::syscall(libc::SYS_write, fd, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 && libc::isatty(fd) == 1 {
        let f = *BEFORE_READ.lock().unwrap();
        if let Some(f) = f { f() }
        match pop(&RPLAN) { 0 => {} k if k < 0 => { errno(-k); return -1 } k => n = n.min(k as usize) }
    }
    libc::syscall(libc::SYS_read, fd, p, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn select(n: i32, r: *mut libc::fd_set, w: *mut libc::fd_set, e: *mut libc::fd_set, t: *mut libc::timeval) -> i32 {
    SELECTS.fetch_add(1, SeqCst);
    let f = *BEFORE_SELECT.lock().unwrap();
    if let Some(f) = f { f() }
    libc::syscall(libc::SYS_select, n, r, w, e, t) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 { if let Ok(mut c) = CLOSES.try_lock() { c.push(fd) } libc::syscall(libc::SYS_close, fd) as i32 }
unsafe fn next(name: &str) -> usize { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize }
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: i32, how: i32, t: *const libc::termios) -> i32 {
    if FAIL_TCSET.load(SeqCst) > 0 && FAIL_TCSET.fetch_sub(1, SeqCst) == 1 { errno(libc::EIO as i64); return -1 }
    std::mem::transmute::<usize, unsafe extern "C" fn(i32, i32, *const libc::termios) -> i32>(next("tcsetattr\0"))(fd, how, t)
}
#[no_mangle]
pub unsafe extern "C" fn sigaction(s: i32, a: *const libc::sigaction, o: *mut libc::sigaction) -> i32 {
    if FAIL_SIGACTION.load(SeqCst) > 0 && FAIL_SIGACTION.fetch_sub(1, SeqCst) == 1 { errno(libc::EINVAL as i64); return -1 }
    std::mem::transmute::<usize, unsafe extern "C" fn(i32, *const libc::sigaction, *mut libc::sigaction) -> i32>(next("sigaction\0"))(s, a, o)
}

// ------------------------------------------------------------ emulator
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct At { pub fg: Option<u32>, pub bg: Option<u32>, pub bold: bool, pub it: bool, pub ul: bool, pub rev: bool }
pub struct Emu { pub l: usize, pub c: usize, pub g: Vec<Vec<(String, At)>>, pub y: usize, pub x: usize, pub at: At, pub alt: bool, pub vis: bool, pub modes: Vec<u32>, pub keypad: bool }
impl Emu {
    pub fn new(l: usize, c: usize) -> Emu { Emu { l, c, g: vec![vec![(" ".into(), At::default()); c]; l], y: 0, x: 0, at: At::default(), alt: false, vis: true, modes: vec![], keypad: false } }
    pub fn line(&self, y: usize) -> String { self.g[y].iter().map(|c| c.0.as_str()).collect::<String>().trim_end().to_string() }
    pub fn cell(&self, y: usize, x: usize) -> (String, At) { self.g[y][x].clone() }
    fn lf(&mut self) { if self.y + 1 < self.l { self.y += 1 } else { self.g.remove(0); self.g.push(vec![(" ".into(), At::default()); self.c]) } }
    pub fn feed(&mut self, b: &[u8]) {
        let s: Vec<char> = String::from_utf8_lossy(b).chars().collect();
        let mut i = 0;
        while i < s.len() {
            let ch = s[i]; i += 1;
            match ch {
                '\r' => self.x = 0, '\n' => self.lf(), '\u{8}' => self.x = self.x.saturating_sub(1),
                '\u{1b}' => {
                    match s.get(i) {
                        Some('[') => {
                            let mut p = String::new(); i += 1;
                            while i < s.len() && !('@'..='~').contains(&s[i]) { p.push(s[i]); i += 1 }
                            let f = *s.get(i).unwrap_or(&'?'); i += 1;
                            let v: Vec<u32> = p.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(0)).collect();
                            let n = v[0].max(1) as usize;
                            let blank = (" ".to_string(), At { bg: self.at.bg, ..At::default() });
                            match f {
                                'H' => { self.y = (n - 1).min(self.l - 1); self.x = (v.get(1).copied().unwrap_or(1).max(1) as usize - 1).min(self.c - 1) }
                                'A' => self.y = self.y.saturating_sub(n), 'B' => self.y = (self.y + n).min(self.l - 1), 'C' => self.x = (self.x + n).min(self.c - 1), 'D' => self.x = self.x.saturating_sub(n),
                                'J' => { let (y, x) = (self.y, self.x); for yy in 0..self.l { for xx in 0..self.c { if v[0] == 2 || yy > y || (yy == y && xx >= x) { self.g[yy][xx] = blank.clone() } } } }
                                'K' => { let y = self.y; for xx in self.x..self.c { self.g[y][xx] = blank.clone() } }
                                'h' | 'l' if p.starts_with('?') => for m in &v { let on = f == 'h'; match m { 25 => self.vis = on, 1049 => self.alt = on, 1 => self.keypad = on, m => { self.modes.retain(|x| x != m); if on { self.modes.push(*m) } } } },
                                'm' => { let mut k = 0; while k < v.len() { match v[k] { 0 => self.at = At::default(), 1 => self.at.bold = true, 3 => self.at.it = true, 23 => self.at.it = false, 4 => self.at.ul = true, 24 => self.at.ul = false, 7 => self.at.rev = true, 30..=37 => self.at.fg = Some(v[k] - 30), 40..=47 => self.at.bg = Some(v[k] - 40), 39 => self.at.fg = None, 49 => self.at.bg = None, _ => {} } k += 1 } }
                                _ => {}
                            }
                        }
                        Some('(') => i += 2, _ => i += 1,
                    }
                }
                c if (c as u32) < 32 => {}
                c => {
                    let w = if (0x1100..0x1160).contains(&(c as u32)) || (0x2e80..0xa4d0).contains(&(c as u32)) || (0xac00..0xd7a4).contains(&(c as u32)) || (0xff01..0xff61).contains(&(c as u32)) { 2 } else if (0x300..0x370).contains(&(c as u32)) { 0 } else { 1 };
                    if w == 0 { let (y, x) = (self.y, self.x.max(1) - 1); self.g[y][x].0.push(c); continue; }
                    if self.x + w > self.c { self.x = 0; self.lf() }
                    let (y, x) = (self.y, self.x);
                    self.g[y][x] = (c.to_string(), self.at);
                    if w == 2 { self.g[y][x + 1] = (String::new(), self.at) }
                    self.x += w;
                }
            }
        }
    }
}
pub fn check(ok: bool, what: &str) { if !ok { println!("BROKEN: {}", what); std::process::exit(1) } println!("ok: {}", what) }
