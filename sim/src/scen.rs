//! Scenarios: everything that decides one simulated run. A run is a pure function of a scenario and the code.
use serde::{Deserialize, Serialize};

/// Keys as the reference decoder names them.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum K { Backspace, Enter, Escape, Tab, Up, Down, Left, Right, Delete, Insert, Home, End, PageUp, PageDown, Char(char), Ctrl(char), F(u32) }

/// Text attributes: colours as ANSI indices, style bits 1 bold, 2 italic, 4 reverse, 8 underline.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct At { pub f: Option<u8>, pub b: Option<u8>, pub s: u8 }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct PCfg { pub block: bool, pub flow: bool, pub keypad: bool, pub mouse: bool, pub motion: bool, pub sigs: u8 }
// sigs bits: 1 Break(never on unix) 2 Continue 4 Interrupt 8 Quit 16 Resize 32 Suspend
pub const S_CONT: u8 = 2; pub const S_INT: u8 = 4; pub const S_QUIT: u8 = 8; pub const S_WINCH: u8 = 16; pub const S_TSTP: u8 = 32;

pub type Tmo = Option<(u64, u32)>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    // output, on a Terminal, a Screen or whichever guard is held
    W(String), Ch(char), Fm(String), St(At, String),
    Fg(Option<u8>), Bg(Option<u8>), Add(u8), Rem(u8), Set(u8), SetNone, Thm(At), Clr, Short(u8),
    Mv(u8, u64), Col0, ClrS, ClrL, ClrE, Cm(u8), Fl, Sz,
    // screen
    Cur(u64, u64), Nl(u64), WAt(u64, u64, String), StAt(u64, u64, At, String), Rf, GetCur,
    // macro template with parameters
    Mac { t: u8, s: String, a: At, n: i64 },
    // sessions under guards
    LkW { tr: bool, b: Vec<Op> },
    LkR { tr: bool, b: Vec<Op> },
    // input
    Rd(Tmo), Wt(Tmo), Rw(u32, Tmo),
    // prepare / restore (stack per object); RestWith/PrepWith use both held guards when present
    Pr(PCfg), Re,
    // life cycle
    NewT(u8), NewS(u8, PCfg), WithT(PCfg), Drop, PDrop,
    // misc
    Panic, Nap(u64), Quiet, Drain,
    /// reads events until nothing comes any more
    DrainE, Name,
    /// ask the read-only Screen::size / nothing else
    Nop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub id: u32,
    #[serde(default)] pub o: u8,
    #[serde(default)] pub y: Option<u8>,
    pub a: Act,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pt { /// before the n-th instrumented edge of the operation
    E(u32), /// before the n-th simulated system call of the operation
    S(u32) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    /// preempt the running thread
    P(u8),
    /// input bytes arrive on tty
    In(u8, Vec<u8>),
    /// signal to the process (thread picked among those not blocking it)
    Sig(i32, u8),
    /// window size change (lines, columns), with SIGWINCH
    Rs(u16, u16, u8),
    Hup(u8),
    /// the wall clock is set forward or back by this many seconds
    Jump(i64),
    /// another program changes terminal settings (variant) and device modes
    Foreign(u8),
    /// foreign program changed the terminal while the process was stopped, then SIGCONT
    StopCont(u8, u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Trig { pub op: u32, pub at: Pt, pub ev: Ev }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum When { /// when nothing can run
    Idle, /// ns after the previous timeline item
    At(u64) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tl { pub w: When, pub ev: Ev }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call { Write, Read, Select, Winsz, TcGet, TcSet, SigAct, Open, Pipe, Close, Fcntl }
pub const NCALL: usize = 11;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fk { Short(u32), Eintr, Err(i32), Zero, Stall(u64), EintrSig(i32) }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault { #[serde(default)] pub op: Option<u32>, pub c: Call, pub nth: u32, pub cnt: u32, pub k: Fk }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub term: String,
    pub l: u16, pub c: u16,
    /// fd 2 is the terminal as well
    #[serde(default)] pub err_tty: bool,
    /// initial terminal settings: iflag, oflag, cflag, lflag, VMIN, VTIME; None = usual cooked mode
    #[serde(default)] pub tio: Option<(u32, u32, u32, u32, u8, u8)>,
    /// initial signal dispositions: (signal, kind) kind 0 DFL 1 IGN 2 handler A 3 handler B + SA_RESTART and a mask 4 siginfo handler
    #[serde(default)] pub disp: Vec<(i32, u8)>,
    /// record display snapshots at every device write
    #[serde(default)] pub snap: bool,
    /// the X_ flags
    #[serde(default)] pub extra: i64,
}

/// record the state of the terminal around every operation
pub const X_ST: i64 = 1;
/// resizing cuts the display without moving its contents
pub const X_CUT: i64 = 2;
/// standard input is open for reading only, standard output and error for writing only
pub const X_ACCESS: i64 = 4;
/// keypad and mouse modes were on before the program began
pub const X_MODES: i64 = 8;
/// the terminal shows something when the program starts
pub const X_FILL: i64 = 16;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scen {
    pub prop: String,
    pub seed: u64,
    pub cfg: Cfg,
    #[serde(default)] pub pre: Vec<Op>,
    #[serde(default)] pub th: Vec<Vec<Op>>,
    #[serde(default)] pub post: Vec<Op>,
    #[serde(default)] pub trig: Vec<Trig>,
    #[serde(default)] pub tl: Vec<Tl>,
    #[serde(default)] pub fault: Vec<Fault>,
    #[serde(default)] pub picks: Vec<u8>,
}

/// xoshiro-like generator seeded by splitmix
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); for _ in 0..3 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn b(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn r(&mut self, lo: u64, hi: u64) -> u64 { lo + self.b(hi - lo + 1) }
    pub fn p(&mut self, num: u64, den: u64) -> bool { self.b(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.b(v.len() as u64) as usize] }
    /// log-uniform in 1..=max
    pub fn log(&mut self, max: u64) -> u64 { let bits = 64 - max.leading_zeros() as u64; let k = self.r(0, bits); let hi = if k >= 64 { max } else { (1u64 << k).min(max) }; self.r(1, hi.max(1)) }
}
