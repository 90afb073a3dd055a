//! Executes scenario operations against the real crate on simulated threads.
use crate::kern::*;
use crate::scen::*;
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::*;
use std::io;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::{Arc, TryLockError};
use std::time::Duration;

pub enum Dev { T(Terminal), S(Screen) }
pub enum RG<'a> { T(TerminalReadGuard<'a>), S(ScreenReadGuard<'a>) }
pub enum WG<'a> { T(TerminalWriteGuard<'a>), S(ScreenWriteGuard<'a>) }

pub struct Objs { pub dev: [Option<Arc<Dev>>; 6], pub states: [Vec<PrepareState>; 6] }
pub static mut OBJS: *mut Objs = std::ptr::null_mut();
fn objs() -> &'static mut Objs { unsafe { &mut *OBJS } }

pub struct Injected;

/// Runs code under test.
fn call<R>(f: impl FnOnce() -> R) -> R { IN.set(true); let r = f(); IN.set(false); r }

const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue, Color::Magenta, Color::Cyan, Color::White];
fn col(c: Option<u8>) -> Option<Color> { c.map(|c| COLORS[c as usize % 8]) }
fn sty(s: u8) -> Style { Style::from_bits_truncate(s & 15) }
fn theme(a: At) -> Theme {
    match a.s % 4 {
        0 => Theme::new(col(a.f), col(a.b), sty(a.s)),
        1 => Theme::default().style(sty(a.s)).bg(col(a.b)).fg(col(a.f)),
        2 => Theme::new(None, col(a.b), None).fg(col(a.f)).style(sty(a.s)),
        _ => { let mut t = Theme::new(col(a.f), None, sty(a.s)); t.bg = col(a.b); t }
    }
}
fn pcfg(p: PCfg) -> PrepareConfig {
    // the set of signals, composed in any way a program may
    let (mut yes, mut no) = (vec![], vec![]);
    for (b, x) in [(1, Signal::Break), (2, Signal::Continue), (4, Signal::Interrupt), (8, Signal::Quit), (16, Signal::Resize), (32, Signal::Suspend)] { if p.sigs & b != 0 { yes.push(x) } else { no.push(x) } }
    let set = |v: &[Signal]| { let mut s = SignalSet::new(); for x in v { s.insert(*x) } s };
    let s = match p.flow as u8 + 2 * p.keypad as u8 + 4 * p.mouse as u8 + 8 * p.motion as u8 {
        1 => yes.iter().cloned().collect(),
        4 => { let mut s = SignalSet::default(); s.extend(yes.iter().cloned()); s }
        5 => { let mut s = SignalSet::all(); for x in &no { s.remove(*x) } s }
        6 => { let mut s = set(&no); for x in &yes { s.set(*x, true) } for x in &no { s.set(*x, false) } s }
        7 => match &yes[..] { [] => SignalSet::new(), [a] => (*a).into(), [a, b] => *a | *b, [a, b, r @ ..] => r.iter().fold(*a | *b, |s, x| s | (*x).into()) },
        8 => match &no[..] { [] => SignalSet::all(), [a] => !*a, r => !set(r) },
        9 => SignalSet::all() - set(&no),
        10 => set(&no) ^ SignalSet::all(),
        11 => { let mut s = SignalSet::all(); for x in &no { s &= !*x } s }
        12 => { let mut s = SignalSet::new(); for x in &yes { s |= (*x).into() } for x in &no { s -= (*x).into() } s }
        13 => { let mut s = SignalSet::new(); for x in yes.iter().chain(&no).chain(&no) { s ^= (*x).into() } s }
        14 => set(&yes).union(set(&yes)) & set(&no).inverse(),
        15 => SignalSet::all().difference(set(&no)).intersection(set(&yes)),
        _ => set(&yes),
    };
    // what is as the documentation of the default says is left as it is
    let mut c = PrepareConfig::default();
    if !p.block { c.block_signals = false }
    if p.flow { c.enable_control_flow = true }
    if !p.keypad { c.enable_keypad = false }
    if p.mouse { c.enable_mouse = true }
    if p.motion { c.always_track_motion = true }
    if p.sigs != 0 { c.report_signals = s }
    c
}
fn tmo(t: Tmo) -> Option<Duration> { t.map(|(s, n)| Duration::new(s, n % 1_000_000_000)) }
fn sig_bit(s: Signal) -> u8 { match s { Signal::Break => 1, Signal::Continue => 2, Signal::Interrupt => 4, Signal::Quit => 8, Signal::Resize => 16, Signal::Suspend => 32 } }
fn key(k: Key) -> K {
    match k {
        Key::Backspace => K::Backspace, Key::Enter => K::Enter, Key::Escape => K::Escape, Key::Tab => K::Tab, Key::Up => K::Up, Key::Down => K::Down,
        Key::Left => K::Left, Key::Right => K::Right, Key::Delete => K::Delete, Key::Insert => K::Insert, Key::Home => K::Home, Key::End => K::End,
        Key::PageUp => K::PageUp, Key::PageDown => K::PageDown, Key::Char(c) => K::Char(c), Key::Ctrl(c) => K::Ctrl(c), Key::F(n) => K::F(n),
    }
}
fn rev(e: Event, raw: &[u8]) -> REv {
    match e {
        Event::Key(k) => REv::Key(key(k)),
        Event::Mouse(m) => {
            let (kind, b) = match m.input {
                MouseInput::Motion => (0, 0),
                MouseInput::ButtonPressed(b) => (1, btn(b)),
                MouseInput::ButtonReleased(b) => (2, btn(b)),
                MouseInput::WheelUp => (3, 0),
                MouseInput::WheelDown => (4, 0),
            };
            let mut md = 0;
            if m.modifiers.contains(ModifierState::ALT) { md |= 1 }
            if m.modifiers.contains(ModifierState::CTRL) { md |= 2 }
            if m.modifiers.contains(ModifierState::SHIFT) { md |= 4 }
            REv::Mouse(m.position.line as u64, m.position.column as u64, kind, b, md)
        }
        Event::Raw(n) => REv::Raw(raw.get(..n).unwrap_or(raw).to_vec()),
        Event::Resize(s) => REv::Resize(s.lines as u64, s.columns as u64),
        Event::Signal(s) => REv::Sig(sig_bit(s)),
        Event::NoEvent => REv::NoEvent,
    }
}
fn btn(b: MouseButton) -> u32 { match b { MouseButton::Left => 0, MouseButton::Middle => 1, MouseButton::Right => 2, MouseButton::Other(n) => n.saturating_add(100) } }

pub trait ToRes { fn res(self) -> Res; }
impl ToRes for () { fn res(self) -> Res { Res::Ok } }
impl ToRes for io::Result<()> { fn res(self) -> Res { match self { Ok(()) => Res::Ok, Err(e) => err(e) } } }
impl ToRes for io::Result<bool> { fn res(self) -> Res { match self { Ok(b) => Res::Bool(b), Err(e) => err(e) } } }
impl ToRes for io::Result<Size> { fn res(self) -> Res { match self { Ok(s) => Res::Size(s.lines as u64, s.columns as u64), Err(e) => err(e) } } }
impl ToRes for Size { fn res(self) -> Res { Res::Size(self.lines as u64, self.columns as u64) } }
impl ToRes for io::Result<Option<Event>> { fn res(self) -> Res { match self { Ok(e) => Res::Ev(e.map(|e| rev(e, &[]))), Err(e) => err(e) } } }
fn err(e: io::Error) -> Res { let k = e.raw_os_error().unwrap_or(if e.kind() == io::ErrorKind::WriteZero { -2 } else if e.to_string().contains("not supported") { -3 } else { -1 }); Res::Err(k, e.to_string()) }

macro_rules! mac {
    ($t:expr, $id:expr, $s:expr, $a:expr, $n:expr) => {{
        let s: &str = $s; let n: i64 = $n; let f = col($a.f); let b = col($a.b); let st = sty($a.s); let th = theme($a);
        match $id {
            0 => term_write!($t, "lit").res(),
            1 => term_write!($t, "a" "b" (: s)).res(),
            2 => term_write!($t, [fg = f] (: s) [reset]).res(),
            3 => term_write!($t, [red] "r" [#blue] "b" [bold] "B" [!bold] "n" [reset] "e").res(),
            4 => term_write!($t, [style = st] (: s) [!style] "x").res(),
            5 => term_write!($t, [style += st] (: n) [style -= st] (? s)).res(),
            6 => term_write!($t, ("{}-{:?}", s, n)).res(),
            7 => term_write!($t, [theme = th] "t" [!fg] "f" [!bg] "g" [reset]).res(),
            8 => term_write!($t, [black] "0" [red] "1" [green] "2" [yellow] "3").res(),
            9 => term_write!($t, [blue] "4" [magenta] "5" [cyan] "6" [white] "7").res(),
            10 => term_write!($t, [#black] "0" [#red] "1" [#green] "2" [#yellow] "3").res(),
            11 => term_write!($t, [#blue] "4" [#magenta] "5" [#cyan] "6" [#white] "7").res(),
            12 => term_write!($t, [bold] "b" [italic] "i" [underline] "u" [reverse] "r").res(),
            13 => term_write!($t, [bold] [italic] [underline] [reverse] "x" [!italic] "a" [!underline] "b" [!reverse] "c" [!bold] "d").res(),
            14 => term_write!($t, 'c' 10 true 2.5).res(),
            15 => term_write!($t, [bg = b] (: s) (? n) ("{{}}") [fg = None] "z").res(),
            16 => term_writeln!($t, "x" [fg = f] (: s)).res(),
            17 => term_writeln!($t).res(),
            18 => term_write!($t, (: s) [fg = f] (: s) [bg = b] (: s) [style = st] (: s) [reset] (: s)).res(),
            19 => term_write!($t, [fg = f] (: s) [style += st] "m" (: s) [!fg] [!bg] (: s)).res(),
            _ => term_write!($t, [style = None] [fg = f] "p" (: n) [bg = b] ("{:03}|{}", n, s) [style -= st] "q").res(),
        }
    }};
}
pub const NMAC: u64 = 21;
/// The documented equivalent calls of a macro template.
pub fn mac_model(t: u8, s: &str, a: At, n: i64) -> Vec<Act> {
    use Act::*;
    let lit = |x: &str| W(x.to_string());
    let fmt = |x: String| Fm(x);
    let q = s.to_string();
    match t {
        0 => vec![lit("lit")],
        1 => vec![lit("a"), lit("b"), fmt(q)],
        2 => vec![Fg(a.f), fmt(q), Clr],
        3 => vec![Fg(Some(1)), lit("r"), Bg(Some(4)), lit("b"), Add(1), lit("B"), Rem(1), lit("n"), Clr, lit("e")],
        4 => vec![Set(a.s), fmt(q), SetNone, lit("x")],
        5 => vec![Add(a.s), fmt(n.to_string()), Rem(a.s), fmt(format!("{:?}", s))],
        6 => vec![fmt(format!("{}-{:?}", s, n))],
        7 => vec![Thm(a), lit("t"), Fg(None), lit("f"), Bg(None), lit("g"), Clr],
        8 => vec![Fg(Some(0)), lit("0"), Fg(Some(1)), lit("1"), Fg(Some(2)), lit("2"), Fg(Some(3)), lit("3")],
        9 => vec![Fg(Some(4)), lit("4"), Fg(Some(5)), lit("5"), Fg(Some(6)), lit("6"), Fg(Some(7)), lit("7")],
        10 => vec![Bg(Some(0)), lit("0"), Bg(Some(1)), lit("1"), Bg(Some(2)), lit("2"), Bg(Some(3)), lit("3")],
        11 => vec![Bg(Some(4)), lit("4"), Bg(Some(5)), lit("5"), Bg(Some(6)), lit("6"), Bg(Some(7)), lit("7")],
        12 => vec![Add(1), lit("b"), Add(2), lit("i"), Add(8), lit("u"), Add(4), lit("r")],
        13 => vec![Add(1), Add(2), Add(8), Add(4), lit("x"), Rem(2), lit("a"), Rem(8), lit("b"), Rem(4), lit("c"), Rem(1), lit("d")],
        14 => vec![lit("c"), lit("10"), lit("true"), lit("2.5")],
        15 => vec![Bg(a.b), fmt(q), fmt(format!("{:?}", n)), fmt("{}".into()), Fg(None), lit("z")],
        16 => vec![lit("x"), Fg(a.f), fmt(q), lit("\n")],
        17 => vec![lit("\n")],
        18 => vec![fmt(q.clone()), Fg(a.f), fmt(q.clone()), Bg(a.b), fmt(q.clone()), Set(a.s), fmt(q.clone()), Clr, fmt(q)],
        19 => vec![Fg(a.f), fmt(q.clone()), Add(a.s), lit("m"), fmt(q.clone()), Fg(None), Bg(None), fmt(q)],
        _ => vec![SetNone, Fg(a.f), lit("p"), fmt(n.to_string()), Bg(a.b), fmt(format!("{:03}|{}", n, s)), Rem(a.s), lit("q")],
    }
}

struct Plain<'a>(&'a str);
impl<'a> std::fmt::Debug for Plain<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for c in self.0.chars() { std::fmt::Write::write_char(f, c)? } Ok(()) } }
fn thirds(s: &str) -> (&str, &str, &str) {
    let at = |k: usize| { let mut i = s.len() * k / 3; while !s.is_char_boundary(i) { i -= 1 } i };
    let (i, j) = (at(1), at(2));
    (&s[..i], &s[i..j], &s[j..])
}
macro_rules! common_out {
    ($t:expr, $a:expr) => {
        match $a {
            Act::W(s) => Some($t.write_str(s).res()),
            Act::Ch(c) => Some($t.write_char(*c).res()),
            Act::Fm(s) => Some(if w().cur_op() % 3 == 0 { write!($t, "{}", s).res() } else {
                // one string from several pieces
                let (a, b, c) = thirds(s);
                match c.strip_suffix('\n') { Some(c) => writeln!($t, "{}{:?}{}", a, Plain(b), c).res(), None => write!($t, "{}{:?}{}", a, Plain(b), c).res() }
            }),
            Act::St(a, s) => Some($t.write_styled(col(a.f), col(a.b), sty(a.s), s).res()),
            Act::Fg(c) => Some($t.set_fg(col(*c)).res()),
            Act::Bg(c) => Some($t.set_bg(col(*c)).res()),
            Act::Add(s) => Some($t.add_style(sty(*s)).res()),
            Act::Rem(s) => Some($t.remove_style(sty(*s)).res()),
            Act::Set(s) => Some($t.set_style(sty(*s)).res()),
            Act::SetNone => Some($t.set_style(None).res()),
            Act::Thm(a) => Some($t.set_theme(theme(*a)).res()),
            Act::Clr => Some($t.clear_attributes().res()),
            Act::Short(k) => Some(match k % 4 { 0 => $t.bold().res(), 1 => $t.italic().res(), 2 => $t.reverse().res(), _ => $t.underline().res() }),
            Act::ClrS => Some($t.clear_screen().res()),
            Act::Cm(m) => Some($t.set_cursor_mode(match m % 3 { 0 => CursorMode::Normal, 1 => CursorMode::Invisible, _ => CursorMode::Overwrite }).res()),
            Act::Sz => Some($t.size().res()),
            _ => None,
        }
    };
}
macro_rules! term_out {
    ($t:expr, $a:expr) => {
        match $a {
            Act::Mv(d, n) => Some(match d % 4 { 0 => $t.move_up(*n as usize), 1 => $t.move_down(*n as usize), 2 => $t.move_left(*n as usize), _ => $t.move_right(*n as usize) }.res()),
            Act::Col0 => Some($t.move_to_first_column().res()),
            Act::ClrL => Some($t.clear_to_line_end().res()),
            Act::ClrE => Some($t.clear_to_screen_end().res()),
            a => common_out!($t, a),
        }
    };
}
macro_rules! scr_out {
    ($t:expr, $a:expr) => {
        match $a {
            Act::Cur(l, c) => Some({ $t.set_cursor((*l as usize, *c as usize)); Res::Ok }),
            Act::Nl(c) => Some({ $t.next_line(*c as usize); Res::Ok }),
            Act::WAt(l, c, s) => Some($t.write_at((*l as usize, *c as usize), s).res()),
            Act::StAt(l, c, a, s) => Some($t.write_styled_at((*l as usize, *c as usize), col(a.f), col(a.b), sty(a.s), s).res()),
            Act::Rf => Some($t.refresh().res()),
            Act::GetCur => Some({ let c = $t.cursor(); Res::Cur(c.line as u64, c.column as u64) }),
            a => common_out!($t, a),
        }
    };
}

fn out_act(a: &Act, dev: &Dev, wg: &mut Option<Held<WG>>) -> Option<Res> {
    match wg.as_deref_mut() {
        Some(WG::T(g)) => match a {
            Act::Fl => Some(g.flush().res()),
            Act::Mac { t, s, a, n } => Some(mac!(g, *t, s, *a, *n)),
            a => term_out!(g, a),
        },
        Some(WG::S(g)) => match a {
            Act::Mac { t, s, a, n } => Some(mac!(g, *t, s, *a, *n)),
            a => scr_out!(g, a),
        },
        None => match dev {
            Dev::T(t) => match a { Act::Mac { t: id, s, a, n } => Some(mac!(t, *id, s, *a, *n)), Act::Name => Some(Res::Str(t.name().to_string())), a => term_out!(t, a) },
            Dev::S(t) => match a { Act::Mac { t: id, s, a, n } => Some(mac!(t, *id, s, *a, *n)), Act::Name => Some(Res::Str(t.name().to_string())), a => scr_out!(t, a) },
        },
    }
}

fn raw_res(r: io::Result<Option<Event>>, buf: &[u8], n: usize) -> Res {
    match r {
        Ok(e) => {
            if let Some(Event::Raw(k)) = e { if k > n { return Res::Err(-9, format!("read_raw reported {} bytes in a buffer of {}", k, n)); } }
            Res::Ev(e.map(|e| rev(e, buf)))
        }
        Err(e) => err(e),
    }
}

fn in_act(a: &Act, dev: &Dev, rg: &mut Option<Held<RG>>) -> Option<Res> {
    Some(match (a, rg.as_deref_mut()) {
        (Act::Rd(t), Some(RG::T(g))) => g.read_event(tmo(*t)).res(),
        (Act::Rd(t), Some(RG::S(g))) => g.read_event(tmo(*t)).res(),
        (Act::Rd(t), None) => match dev { Dev::T(d) => d.read_event(tmo(*t)).res(), Dev::S(d) => d.read_event(tmo(*t)).res() },
        (Act::Wt(t), Some(RG::T(g))) => g.wait_event(tmo(*t)).res(),
        (Act::Wt(t), Some(RG::S(g))) => g.wait_event(tmo(*t)).res(),
        (Act::Wt(t), None) => match dev { Dev::T(d) => d.wait_event(tmo(*t)).res(), Dev::S(d) => d.wait_event(tmo(*t)).res() },
        (Act::Rw(n, t), g) => {
            let mut buf = vec![0xaau8; *n as usize];
            let r = match g {
                Some(RG::T(g)) => g.read_raw(&mut buf, tmo(*t)),
                Some(RG::S(g)) => g.read_raw(&mut buf, tmo(*t)),
                // SAFETY: the method only needs a shared reference, but is declared with an exclusive one
                None if w().cur_op() % 2 == 0 => match dev {
                    Dev::T(d) => unsafe { (*(d as *const Terminal as *mut Terminal)).read_raw(&mut buf, tmo(*t)) },
                    Dev::S(d) => unsafe { (*(d as *const Screen as *mut Screen)).read_raw(&mut buf, tmo(*t)) },
                },
                None => match dev {
                    Dev::T(d) => { let mut g = match d.lock_read() { Ok(g) => g, Err(e) => e.into_inner() }; g.read_raw(&mut buf, tmo(*t)) }
                    Dev::S(d) => { let mut g = match d.lock_read() { Ok(g) => g, Err(e) => e.into_inner() }; g.read_raw(&mut buf, tmo(*t)) }
                },
            };
            raw_res(r, &buf, *n as usize)
        }
        _ => return None,
    })
}

fn prep(a: &Act, o: usize, dev: &Dev, rg: &mut Option<Held<RG>>, wg: &mut Option<Held<WG>>) -> Option<Res> {
    let d = match dev { Dev::T(d) => d, Dev::S(_) => return None };
    match a {
        Act::Pr(c) => {
            let c = pcfg(*c);
            let r = call(|| match (rg.as_deref_mut(), wg.as_deref_mut()) {
                (Some(RG::T(r)), Some(WG::T(g))) => r.prepare_with_lock(g, c),
                (Some(RG::T(r)), None) => r.prepare(c),
                (None, None) => d.prepare(c),
                _ => Err(io::Error::new(io::ErrorKind::Other, "skip")),
            });
            Some(match r { Ok(s) => { objs().states[o].push(s); Res::Ok } Err(e) => err(e) })
        }
        Act::Re => {
            if rg.is_none() && wg.is_some() { return None; }
            let s = match objs().states[o].pop() { Some(s) => s, None => return None };
            Some(call(|| match (rg.as_deref_mut(), wg.as_deref_mut()) {
                (Some(RG::T(r)), Some(WG::T(g))) => r.restore_with_lock(g, s),
                (Some(RG::T(r)), None) => r.restore(s),
                _ => d.restore(s),
            }).res())
        }
        _ => None,
    }
}

/// A guard; its release is recorded right before it happens.
pub struct Held<G> { g: std::mem::ManuallyDrop<G>, obj: u8, wr: bool, op: u32 }
impl<G> Held<G> { fn new(g: G, obj: u8, wr: bool, op: u32) -> Held<G> { guard_log(obj, wr, true, op); Held { g: std::mem::ManuallyDrop::new(g), obj, wr, op } } }
impl<G> std::ops::Deref for Held<G> { type Target = G; fn deref(&self) -> &G { &self.g } }
impl<G> std::ops::DerefMut for Held<G> { fn deref_mut(&mut self) -> &mut G { &mut self.g } }
impl<G> Drop for Held<G> {
    fn drop(&mut self) {
        let p = IN.replace(false);
        guard_log(self.obj, self.wr, false, self.op);
        IN.set(true);
        // SAFETY: dropped once
        unsafe { std::mem::ManuallyDrop::drop(&mut self.g) }
        IN.set(p);
    }
}
fn guard_log(obj: u8, wr: bool, acq: bool, op: u32) { let th = w().cur; w().h(H::Guard { th, obj, w: wr, acq, op }) }
fn inject_panic() -> ! {
    w().th[w().cur].panicking_ok = true;
    w().flt("panic");
    IN.set(true);
    panic_any(Injected)
}

fn beg(op: u32) { let wl = w(); wl.push_frame(op); let (th, arr) = (wl.cur, wl.arr()); wl.mix(0xbe6 + op as u64); wl.h(H::Beg { op, th, arr }); wl.h_st(op, false) }
fn end(op: u32, res: Res) {
    let wl = w(); wl.pop_frame();
    let (th, arr) = (wl.cur, wl.arr());
    if let Res::Skip = res {} else { wl.mix(0xe4d + op as u64) }
    wl.h_st(op, true);
    wl.h(H::End { op, th, arr, res });
}

/// Keeps an object alive; its drop is code under test.
struct Keep(Option<Arc<Dev>>);
impl Drop for Keep { fn drop(&mut self) { let p = IN.replace(true); drop(self.0.take()); IN.set(p) } }

/// Runs one operation; `o` is the object slot when inside a session.
fn run_op<'a>(op: &Op, sess: Option<(u8, &'a Dev)>, rg: &mut Option<Held<RG<'a>>>, wg: &mut Option<Held<WG<'a>>>) {
    if let Some(k) = op.y { if !w().quiet { preempt(k) } }
    let o = sess.map_or(op.o, |s| s.0) as usize % 6;
    beg(op.id);
    let res = match &op.a {
        Act::Nop => Res::Ok,
        Act::Nap(ns) => { let dl = w().now.saturating_add(*ns); block(Wait::Until { dl, intr: false }); take_wait(); deliver(); Res::Ok }
        Act::Quiet => { w().quiet = true; w().arm(); Res::Ok }
        Act::Panic => inject_panic(),
        Act::NewT(src) if sess.is_none() => {
            let r = call(|| match src { 0 => Terminal::new(), 1 => Terminal::stderr(), 9 => Terminal::from_path("/sim/none"), n => Terminal::from_path(format!("/sim/tty{}", n - 2)) });
            match r { Ok(t) => { let old = objs().dev[o].replace(Arc::new(Dev::T(t))); call(|| drop(old)); Res::Ok } Err(e) => err(e) }
        }
        Act::NewS(src, c) if sess.is_none() => {
            let c = pcfg(*c);
            let r = call(|| match src { 0 => Screen::new(c), _ => Screen::stderr(c) });
            match r { Ok(t) => { let old = objs().dev[o].replace(Arc::new(Dev::S(t))); call(|| drop(old)); Res::Ok } Err(e) => err(e) }
        }
        Act::WithT(c) if sess.is_none() => {
            let c = pcfg(*c);
            match objs().dev[o].take().map(Arc::try_unwrap) {
                Some(Ok(Dev::T(t))) => {
                    match call(|| Screen::with_terminal(t, c)) { Ok(s) => { let old = objs().dev[o].replace(Arc::new(Dev::S(s))); call(|| drop(old)); Res::Ok } Err(e) => err(e) }
                }
                Some(Ok(d)) => { let old = objs().dev[o].replace(Arc::new(d)); call(|| drop(old)); Res::Skip }
                Some(Err(a)) => { let old = objs().dev[o].replace(a); call(|| drop(old)); Res::Skip }
                None => Res::Skip,
            }
        }
        Act::Drop if sess.is_none() => match objs().dev[o].take() { Some(d) => { call(|| drop(d)); Res::Ok } None => Res::Skip },
        Act::PDrop if sess.is_none() => match objs().dev[o].take() {
            Some(d) => {
                w().th[w().cur].panicking_ok = true;
                w().flt("panic");
                let r = catch_unwind(AssertUnwindSafe(move || { let _d = d; IN.set(true); panic_any(Injected) }));
                IN.set(false);
                let _: Result<(), _> = r;
                Res::Ok
            }
            None => Res::Skip,
        },
        a => {
            // SAFETY of lifetimes: guards borrow from the device, which `keep` or the session's operation keeps alive longer
            let long = |d: &Dev| -> &'a Dev { unsafe { &*(d as *const Dev) } };
            if let Some(s) = sess { run_dev(op, a, o as u8, s.1, rg, wg) } else {
                let keep = Keep(objs().dev[o].clone());
                // guards end before what they belong to, also when unwinding
                let (mut rg, mut wg) = (None, None);
                let r = match keep.0.as_deref() { None => Res::Skip, Some(d) => run_dev(op, a, o as u8, long(d), &mut rg, &mut wg) };
                drop(keep);
                r
            }
        }
    };
    end(op.id, res);
}

fn run_dev<'a>(op: &Op, a: &Act, o: u8, dev: &'a Dev, rg: &mut Option<Held<RG<'a>>>, wg: &mut Option<Held<WG<'a>>>) -> Res {
    match a {
        Act::LkW { tr, b } => {
            if wg.is_some() { return Res::Skip; }
            let (g, pois) = if *tr {
                match dev {
                    Dev::T(d) => match call(|| d.try_lock_write()) { Ok(g) => (WG::T(g), false), Err(TryLockError::Poisoned(e)) => (WG::T(e.into_inner()), true), Err(TryLockError::WouldBlock) => return Res::Would },
                    Dev::S(d) => match call(|| d.try_lock_write()) { Ok(g) => (WG::S(g), false), Err(TryLockError::Poisoned(e)) => (WG::S(e.into_inner()), true), Err(TryLockError::WouldBlock) => return Res::Would },
                }
            } else {
                match dev {
                    Dev::T(d) => match call(|| d.lock_write()) { Ok(g) => (WG::T(g), false), Err(e) => (WG::T(e.into_inner()), true) },
                    Dev::S(d) => match call(|| d.lock_write()) { Ok(g) => (WG::S(g), false), Err(e) => (WG::S(e.into_inner()), true) },
                }
            };
            *wg = Some(Held::new(g, o, true, op.id));
            for x in b { run_op(x, Some((o, dev)), rg, wg) }
            drop(wg.take());
            Res::Got(pois)
        }
        Act::LkR { tr, b } => {
            if rg.is_some() || wg.is_some() { return Res::Skip; }
            let (g, pois) = if *tr {
                match dev {
                    Dev::T(d) => match call(|| d.try_lock_read()) { Ok(g) => (RG::T(g), false), Err(TryLockError::Poisoned(e)) => (RG::T(e.into_inner()), true), Err(TryLockError::WouldBlock) => return Res::Would },
                    Dev::S(d) => match call(|| d.try_lock_read()) { Ok(g) => (RG::S(g), false), Err(TryLockError::Poisoned(e)) => (RG::S(e.into_inner()), true), Err(TryLockError::WouldBlock) => return Res::Would },
                }
            } else {
                match dev {
                    Dev::T(d) => match call(|| d.lock_read()) { Ok(g) => (RG::T(g), false), Err(e) => (RG::T(e.into_inner()), true) },
                    Dev::S(d) => match call(|| d.lock_read()) { Ok(g) => (RG::S(g), false), Err(e) => (RG::S(e.into_inner()), true) },
                }
            };
            *rg = Some(Held::new(g, o, false, op.id));
            for x in b { run_op(x, Some((o, dev)), rg, wg) }
            drop(rg.take());
            Res::Got(pois)
        }
        Act::Rd(_) | Act::Wt(_) | Act::Rw(..) => {
            if rg.is_none() && wg.is_some() { return Res::Skip; }
            call(|| in_act(a, dev, rg)).unwrap_or(Res::Skip)
        }
        Act::Pr(_) | Act::Re => prep(a, o as usize, dev, rg, wg).unwrap_or(Res::Skip),
        Act::Drain | Act::DrainE => {
            if wg.is_some() { return Res::Skip; }
            let ev = matches!(a, Act::DrainE);
            let mut idle = 0;
            for i in 0..3000u32 {
                let id = 1_000_000 + op.id * 4096 + i;
                beg(id);
                let r = call(|| in_act(&if ev { Act::Rd(Some((0, 0))) } else { Act::Rw(if i % 2 == 0 { 64 } else { 4096 }, Some((0, 0))) }, dev, rg)).unwrap_or(Res::Skip);
                let none = match &r { Res::Ev(None) => true, Res::Ev(Some(REv::Raw(v))) if v.is_empty() => true, Res::Err(..) => !ev, _ => false };
                end(id, r);
                if none { idle += 1 } else { idle = 0 }
                if idle >= if ev { 8 } else { 3 } { break; }
            }
            Res::Ok
        }
        _ => call(|| out_act(a, dev, wg)).unwrap_or(Res::Skip),
    }
}

/// A list of operations, each isolated from panics of the one before.
pub fn run_list(ops: &[Op]) {
    for op in ops {
        let depth = w().th[w().cur].frames.len();
        let r = catch_unwind(AssertUnwindSafe(|| run_op(op, None, &mut None, &mut None)));
        IN.set(false);
        if let Err(p) = r {
            let msg = if p.is::<Injected>() { "injected".to_string() } else { "unexpected".to_string() };
            w().th[w().cur].panicking_ok = false;
            while w().th[w().cur].frames.len() > depth {
                let id = w().cur_op();
                end(id, Res::Panic(msg.clone()));
            }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        out(|| {
            if !have_world() { let s = format!("{}\n", i); crate::runner::raw_stderr(s.as_bytes()); return; }
            if i.payload().is::<Injected>() { return; }
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
            let wl = w();
            let th = wl.cur;
            let inj = wl.th[th].panicking_ok;
            wl.note(format!("panic on thread {}: {} at {}", th, m, loc));
            crate::runner::log_shm(format!("panic on thread {}: {} at {}\n", th, m, loc).as_bytes());
            wl.panics.push((th, format!("{} at {}", m, loc), inj));
        })
    }));
}

/// Executes a whole scenario on this (fresh, single-threaded) process and never returns.
pub fn run_scenario(sc: &'static Scen, verbose: bool) -> ! {
    unsafe {
        std::env::set_var("TERM", &sc.cfg.term);
        OBJS = Box::into_raw(Box::new(Objs { dev: Default::default(), states: Default::default() }));
        W = Box::into_raw(Box::new(World::new(sc, verbose)));
    }
    install_hook();
    let wl = w();
    wl.on_idle = crate::props::on_idle(&sc.prop);
    wl.th[0].started = true;
    wl.nth = 1;
    run_list(&sc.pre);
    if !sc.th.is_empty() {
        let n = sc.th.len().min(6);
        for i in 0..n {
            std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
                TID.set(i + 1);
                wait_baton(i + 1);
                run_list(&w().sc.th[i]);
                thread_exit();
            }).unwrap();
        }
        let wl = w();
        wl.nth = n + 1;
        for i in 1..=n { wl.th[i].started = true }
        wl.tl_on = true;
        wl.tl_last = wl.now;
        loop {
            block(Wait::Join);
            take_wait();
            deliver();
            let wl = w();
            if (1..wl.nth).all(|k| wl.th[k].done) { break; }
        }
    }
    let wl = w();
    wl.tl_on = false;
    wl.nth = 1;
    run_list(&sc.post);
    w().oracle_phase = true;
    let v = crate::props::oracle(w());
    finish(v)
}
