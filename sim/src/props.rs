//! Scenario generators and oracles, one pair per property.
use crate::hist::*;
use crate::kern::*;
use crate::model_in;
use crate::model_life;
use crate::model_out;
use crate::model_scr;
use crate::model_prep;
use crate::model_sig;
use crate::scen::*;

pub struct G { pub r: Rng, pub id: u32 }
pub const SIZES: &[(u16, u16)] = &[(24, 80), (10, 20), (5, 12), (3, 7), (4, 4), (2, 9), (1, 10), (8, 1), (1, 1), (2, 2), (6, 3)];
/// Positions and lengths beyond what fits one, two or three digits, or a byte.
pub const BIGSIZES: &[(u16, u16)] = &[(50, 160), (2, 300), (30, 132), (130, 3), (1, 700), (300, 1), (2, 1100), (1005, 2)];
pub const ALLTERMS: &[&str] = &["xterm", "xterm-256color", "linux", "screen-256color", "tmux-256color", "rxvt-unicode-256color", "rxvt", "dumb", "vt220", "xterm-sim", "sim-mini"];

impl G {
    pub fn new(seed: u64) -> G { G { r: Rng::new(seed), id: 0 } }
    pub fn op(&mut self, a: Act) -> Op { self.id += 1; let y = if self.r.p(1, 12) { Some(self.r.b(4) as u8) } else { None }; Op { id: self.id, o: 0, y, a } }
    pub fn ops(&mut self, n: u64, f: &mut dyn FnMut(&mut G) -> Act) -> Vec<Op> { (0..n).map(|_| { let a = f(self); self.op(a) }).collect() }
    pub fn color(&mut self) -> Option<u8> { if self.r.p(1, 4) { None } else { Some(self.r.b(8) as u8) } }
    pub fn style(&mut self) -> u8 { if self.r.p(1, 3) { 1 << self.r.b(4) } else { self.r.b(16) as u8 } }
    pub fn at(&mut self) -> At { At { f: self.color(), b: self.color(), s: self.style() } }
    /// Text that tells operations apart.
    pub fn text(&mut self, n: u64) -> String {
        let tag = self.id as u64 * 11 + self.r.b(5);
        let mode = self.r.b(5);
        (0..n).map(|i| {
            if mode == 4 && self.r.p(1, 6) { *self.r.pick(&['é', 'ß', '日', '本', '한', '\u{20ac}', '\u{1d54f}', '\u{301}', '\t', '\n', '\r', '中']) }
            else if mode == 3 && self.r.p(1, 12) { *self.r.pick(&['é', '日', '\n', 'ü', '\u{10348}']) }
            else { b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#$%&*+-/<=>?@_~"[((tag * 13 + i * 7 + i / 79) % 78) as usize] as char }
        }).collect()
    }
    pub fn len(&mut self) -> u64 {
        match self.r.b(24) { 0 => 0, 1..=17 => self.r.log(24), 18 | 19 => self.r.log(400), 20 => self.r.r(8180, 8200), 21 => self.r.r(4000, 4200), 22 => self.r.r(8193, 20000), _ => self.r.r(1, 9000) }
    }
    pub fn short_len(&mut self) -> u64 { if self.r.p(1, 12) { 0 } else { self.r.log(12) } }
    pub fn picks(&mut self) -> Vec<u8> { let n = self.r.b(40); (0..n).map(|_| self.r.b(6) as u8).collect() }
    pub fn tmo(&mut self) -> Tmo { match self.r.b(6) { 0 => None, 1 => Some((0, 0)), 2 => Some((0, self.r.log(999_999_999) as u32)), 3 => Some((self.r.log(100), self.r.b(1_000_000_000) as u32)), _ => Some((0, 50_000_000)) } }
}

pub fn all_ops<'a>(v: &'a [Op], out: &mut Vec<&'a Op>) { for o in v { out.push(o); if let Act::LkW { b, .. } | Act::LkR { b, .. } = &o.a { all_ops(b, out) } } }
pub fn thread_ops(sc: &Scen) -> Vec<&Op> { let mut v = vec![]; for t in &sc.th { all_ops(t, &mut v) } v }
pub fn ids(sc: &Scen) -> Vec<u32> { thread_ops(sc).iter().map(|o| o.id).collect() }

pub fn base(prop: &str, seed: u64) -> Scen {
    Scen { prop: prop.into(), seed, cfg: Cfg { term: "xterm".into(), l: 24, c: 80, err_tty: false, tio: None, disp: vec![], snap: false, extra: if Rng::new(seed ^ 0xacce55).p(1, 3) { X_ACCESS } else { 0 } }, pre: vec![], th: vec![], post: vec![], trig: vec![], tl: vec![], fault: vec![], picks: vec![] }
}
pub fn pt(g: &mut G) -> Pt { if g.r.p(1, 3) { Pt::S(g.r.r(1, 6) as u32) } else { Pt::E(g.r.log(1000) as u32) } }
pub fn preempts(g: &mut G, sc: &mut Scen, max: u64) {
    let ids = ids(sc);
    if ids.is_empty() { return; }
    let n = g.r.b(max + 1);
    for _ in 0..n { let op = *g.r.pick(&ids); let at = pt(g); sc.trig.push(Trig { op, at, ev: Ev::P(g.r.b(4) as u8) }) }
    sc.picks = g.picks();
}
/// Write-side disturbances that report no error to the caller: short, interrupted and slow writes.
pub fn soft_writes(g: &mut G, sc: &mut Scen, max: u64) {
    let ids = ids(sc);
    let n = g.r.b(max + 1);
    for _ in 0..n {
        let k = match g.r.b(6) { 0 | 1 => Fk::Short(g.r.log(3000) as u32), 2 => Fk::Eintr, 3 => Fk::EintrSig(libc::SIGUSR1), 4 => Fk::Stall(g.r.log(1_000_000_000)), _ => Fk::Short(g.r.r(1, 5) as u32) };
        let cnt = g.r.log(6) as u32;
        let op = if g.r.p(2, 3) && !ids.is_empty() { Some(*g.r.pick(&ids)) } else { None };
        sc.fault.push(Fault { op, c: Call::Write, nth: g.r.log(8) as u32 - 1, cnt, k });
    }
}
pub const WERR: &[i32] = &[libc::EIO, libc::ENOSPC, libc::EAGAIN, libc::EPERM];
pub fn hard_writes(g: &mut G, sc: &mut Scen, max: u64) {
    let ids = ids(sc);
    let n = g.r.r(1, max);
    for _ in 0..n {
        let k = if g.r.p(1, 6) { Fk::Zero } else { Fk::Err(*g.r.pick(WERR)) };
        let cnt = if g.r.p(1, 4) { 1000 } else { g.r.log(3) as u32 };
        let op = if g.r.p(2, 3) && !ids.is_empty() { Some(*g.r.pick(&ids)) } else { None };
        sc.fault.push(Fault { op, c: Call::Write, nth: g.r.log(5) as u32 - 1, cnt, k });
        if g.r.p(1, 2) { sc.fault.push(Fault { op, c: Call::Write, nth: 0, cnt: 2, k: Fk::Short(g.r.log(3000) as u32) }); let n = sc.fault.len(); sc.fault.swap(n - 1, n - 2) }
    }
}
pub fn handlers(sc: &mut Scen) { sc.cfg.disp = vec![(libc::SIGUSR1, 2), (libc::SIGUSR2, 3)] }
pub fn stray_signals(g: &mut G, sc: &mut Scen, max: u64) {
    let ids = ids(sc);
    if ids.is_empty() { return; }
    for _ in 0..g.r.b(max + 1) { let op = *g.r.pick(&ids); let at = pt(g); sc.trig.push(Trig { op, at, ev: Ev::Sig(*g.r.pick(&[libc::SIGUSR1, libc::SIGUSR2]), g.r.b(4) as u8) }) }
}

// ---------------------------------------------------------------- output (C01, C02, C03, C19)
/// Reading and waiting are interrupted, and the program is continued.
fn soft_reads(sc: &mut Scen, seed: u64) {
    let mut r = Rng::new(seed ^ 0x50f7);
    let rd: Vec<u32> = thread_ops(sc).iter().filter(|o| matches!(o.a, Act::Rd(_) | Act::Wt(_) | Act::Rw(..))).map(|o| o.id).collect();
    if rd.is_empty() || r.p(1, 2) { return; }
    for _ in 0..r.r(1, 3) {
        let op = *r.pick(&rd);
        if r.p(1, 3) { let at = if r.p(1, 2) { Pt::S(r.r(1, 4) as u32) } else { Pt::E(r.log(300) as u32) }; sc.trig.push(Trig { op, at, ev: Ev::Sig(*r.pick(&[libc::SIGCONT, libc::SIGCONT, libc::SIGWINCH]), r.b(4) as u8) }); continue; }
        let k = if r.p(1, 2) { Fk::Eintr } else { Fk::EintrSig(*r.pick(&[libc::SIGUSR1, libc::SIGCONT, libc::SIGWINCH])) };
        sc.fault.push(Fault { op: Some(op), c: *r.pick(&[Call::Select, Call::Select, Call::Read]), nth: r.b(3) as u32, cnt: r.log(3) as u32, k });
    }
}
fn out_act(g: &mut G, attrs: u64, long: bool, mac: u64) -> Act {
    let n = if long { g.len() } else { g.short_len() };
    let k = g.r.b(20);
    if mac > 0 && g.r.b(20) < mac { let big = long && g.r.p(1, 3); let n = if big { g.r.r(2000, 9000) } else { g.short_len() }; let s = g.text(n); return Act::Mac { t: g.r.b(crate::exec::NMAC) as u8, s, a: g.at(), n: g.r.next() as i64 >> g.r.b(60) }; }
    if k < attrs {
        return match g.r.b(11) {
            0 | 1 => Act::Fg(g.color()), 2 | 3 => Act::Bg(g.color()), 4 => Act::Add(g.style()), 5 => Act::Rem(g.style()), 6 => Act::Set(g.style()), 7 => Act::SetNone,
            8 => Act::Thm(g.at()), 9 => Act::Clr, _ => Act::Short(g.r.b(4) as u8),
        };
    }
    match g.r.b(20) {
        0..=8 => Act::W(g.text(n)),
        9 => Act::Ch(g.text(1).chars().next().unwrap_or('x')),
        10 | 11 => Act::Fm(g.text(n)),
        12..=14 => Act::St(g.at(), g.text(n)),
        15 => { let n = match g.r.b(6) { 0 => 0, 1 | 2 => 1, 3 => g.r.log(300), 4 => *g.r.pick(&[32767, 32768, 65535, 65536, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 40, u64::MAX]), _ => g.r.log(u64::MAX) }; Act::Mv(g.r.b(4) as u8, n) }
        16 => Act::Col0,
        17 => match g.r.b(3) { 0 => Act::ClrS, 1 => Act::ClrL, _ => Act::ClrE },
        18 => Act::Cm(g.r.b(3) as u8),
        _ => Act::Sz,
    }
}

fn out_list(g: &mut G, n: u64, attrs: u64, long: bool, mac: u64, sess: u64) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..n {
        if g.r.b(10) < sess {
            let tr = g.r.p(1, 5);
            let k = g.r.r(1, 5);
            let mut b = vec![];
            for _ in 0..k { let a = if g.r.p(1, 5) { Act::Fl } else { out_act(g, attrs, long, mac) }; b.push(g.op(a)) }
            let a = Act::LkW { tr, b };
            if g.r.p(1, 6) { let o = g.op(a); let tr = g.r.p(1, 4); let a = Act::LkR { tr, b: vec![o] }; v.push(g.op(a)) } else { v.push(g.op(a)) }
        } else { let a = out_act(g, attrs, long, mac); v.push(g.op(a)) }
    }
    v
}
fn out_end(g: &mut G, sc: &mut Scen) {
    g.r = Rng::new(7);
    let q = g.op(Act::Quiet);
    let e = g.op(Act::W("END".into()));
    let f = g.op(Act::Fl);
    let l = g.op(Act::LkW { tr: false, b: vec![e, f] });
    let d = g.op(Act::Drop);
    sc.post = vec![q, l, d];
    for o in &mut sc.post { o.y = None }
}
fn dev(g: &mut G, sc: &mut Scen) -> Act {
    match g.r.b(4) { 0 => { sc.cfg.err_tty = true; Act::NewT(1) } 1 => Act::NewT(2), _ => Act::NewT(0) }
}
/// A buffer so nearly full that it is sent in the middle of some operation's control sequences, which fails.
fn full_buffer(g: &mut G, sc: &mut Scen) {
    let room = g.r.log(60) - 1;
    let s = g.text(1);
    let c = s.chars().next().filter(|c| c.is_ascii_graphic()).unwrap_or('x');
    let mut b = vec![g.op(Act::W(c.to_string().repeat(8192 - room as usize)))];
    let k = g.r.r(1, 5);
    for _ in 0..k {
        let n = g.short_len();
        let a = match g.r.b(6) { 0 | 1 => { let a = g.at(); Act::St(a, g.text(n)) } 2 => Act::Thm(g.at()), 3 => { let (t, a, s) = (g.r.b(crate::exec::NMAC) as u8, g.at(), g.text(n)); Act::Mac { t, s, a, n: 3 } } _ => out_act(g, 14, false, 1) };
        let o = g.op(a);
        if g.r.p(2, 3) { sc.fault.push(Fault { op: Some(o.id), c: Call::Write, nth: 0, cnt: 1, k: Fk::Err(*g.r.pick(WERR)) }) }
        b.push(o);
    }
    let o = g.op(Act::LkW { tr: false, b });
    let t = g.r.b(sc.th.len() as u64) as usize;
    let at = g.r.b(sc.th[t].len() as u64 + 1) as usize;
    sc.th[t].insert(at, o);
}
/// Preparing, restoring, reading and resuming amid all the output.
fn sessions(g: &mut G, sc: &mut Scen, seed: u64) {
    let keep = std::mem::replace(&mut g.r, Rng::new(seed ^ 0x5e55));
    if g.r.p(2, 3) { let mut c = g.pcfg(); c.keypad |= g.r.p(1, 2); let o = g.op(Act::Pr(c)); sc.pre.push(o) }
    let mut made = vec![];
    for _ in 0..g.r.r(1, 5) {
        let to = Some((0, if g.r.p(1, 2) { 0 } else { g.r.log(3_000_000) as u32 }));
        let a = match g.r.b(8) { 0 => Act::Pr(g.pcfg()), 1 => Act::Re, 2 => Act::Wt(to), 3 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) };
        let with = matches!(a, Act::Pr(_) | Act::Re);
        let mut o = g.op(a);
        made.push(o.id);
        let t = g.r.b(sc.th.len() as u64) as usize;
        let mut both = false;
        if with && g.r.p(1, 3) { both = true; let n = g.short_len(); let x = Act::W(g.text(n)); let x = g.op(x); let b = if g.r.p(1, 2) { vec![x, o] } else { vec![o, x] }; o = g.op(Act::LkW { tr: false, b }) }
        if both || g.r.p(1, 4) { let mut b = vec![o]; if g.r.p(1, 2) { let n = g.short_len(); let x = Act::W(g.text(n)); let x = g.op(x); b.insert(0, x) } o = g.op(Act::LkR { tr: false, b }) }
        let at = g.r.b(sc.th[t].len() as u64 + 1) as usize;
        sc.th[t].insert(at, o);
    }
    let all = ids(sc);
    for _ in 0..g.r.r(1, 4) {
        let ev = match g.r.b(5) { 0 => Ev::In(0, g.text(3).into_bytes()), 1 => Ev::Rs(g.r.r(1, 60) as u16, g.r.r(1, 200) as u16, g.r.b(16) as u8), _ => Ev::Sig(libc::SIGCONT, g.r.b(4) as u8) };
        let op = if g.r.p(1, 2) { *g.r.pick(&made) } else { *g.r.pick(&all) };
        sc.trig.push(Trig { op, at: pt(g), ev });
    }
    g.r = keep;
}
fn gen_out(prop: &str, seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base(prop, seed);
    sc.cfg.term = if g.r.p(1, 2) { "xterm-256color".into() } else { g.r.pick(ALLTERMS).to_string() };
    (sc.cfg.l, sc.cfg.c) = if g.r.p(1, 30) { *g.r.pick(BIGSIZES) } else { *g.r.pick(SIZES) };
    handlers(&mut sc);
    let d = dev(&mut g, &mut sc);
    sc.pre = vec![g.op(d)];
    let (nt, attrs, mac, sess, long) = match prop {
        "C01" => (if g.r.p(1, 2) { 1 } else { g.r.r(2, 3) }, 3, 1, 3, true),
        "C02" => (g.r.r(2, 4), 4, 4, 4, g.r.p(1, 3)),
        "C03" => (if g.r.p(3, 5) { 1 } else { g.r.r(2, 3) }, 11, 1, 3, g.r.p(1, 6)),
        _ => (g.r.r(1, 3), 3, 13, 3, true),
    };
    let per = if nt == 1 { g.r.r(2, 14) } else { g.r.r(1, 6) };
    for _ in 0..nt { let n = g.r.r(1, per); let l = out_list(&mut g, n, attrs, long, mac, sess); sc.th.push(l) }
    if seed % 7 < 2 { sessions(&mut g, &mut sc, seed) }
    preempts(&mut g, &mut sc, if nt > 1 { 10 } else { 0 });
    stray_signals(&mut g, &mut sc, 2);
    if g.r.p(2, 3) { soft_writes(&mut g, &mut sc, 5) }
    let hard = match prop { "C02" => g.r.p(1, 5), "C03" => g.r.p(1, 2), _ => g.r.p(3, 5) };
    if hard {
        hard_writes(&mut g, &mut sc, 3);
        if g.r.p(1, 5) { full_buffer(&mut g, &mut sc) }
        // messages about failures go to standard error, which must then be another device
        sc.cfg.err_tty = false;
        for o in &mut sc.pre { if let Act::NewT(1) = o.a { o.a = Act::NewT(0) } }
    }
    out_end(&mut g, &mut sc);
    sc
}

// ---------------------------------------------------------------- screens (C04, C05, C06, C07, part of C19)
pub const SCRTERMS: &[&str] = &["xterm", "xterm-256color", "linux", "screen-256color", "tmux-256color", "rxvt-unicode-256color", "rxvt", "vt220", "xterm-sim", "sim-mini"];
const WIDE: &[char] = &['日', '本', '한', '中', '\u{ff21}', '\u{1f600}', '\u{3000}', '\u{231a}', '\u{115f}'];
const MARKS: &[char] = &['\u{301}', '\u{308}', '\u{327}', '\u{36f}', '\u{300}', '\u{93e}', '\u{903}', '\u{20dd}', '\u{fe0f}', '\u{e31}', '\u{302a}', '\u{e0101}', '\u{1d165}'];
impl G {
    pub fn pcfg(&mut self) -> PCfg { PCfg { block: self.r.p(1, 4), flow: self.r.p(1, 4), keypad: self.r.p(1, 2), mouse: self.r.p(1, 2), motion: self.r.p(1, 4), sigs: if self.r.p(1, 2) { 0 } else { (self.r.b(64) as u8) & !1 } } }
    /// Text for a screen: visible, wide, combining and ignored characters.
    fn stext(&mut self, n: u64) -> String {
        let mode = self.r.b(6);
        let marks = self.r.p(1, 4);
        let tag = self.id as u64 * 11 + self.r.b(5);
        (0..n).map(|i| match mode {
            0 | 1 => b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#$%&*+-/<=>?@_~"[((tag * 13 + i * 7) % 78) as usize] as char,
            2 => if self.r.p(1, 2) { *self.r.pick(WIDE) } else { (b'a' + (self.r.b(26) as u8)) as char },
            3 => match self.r.b(if marks { 14 } else { 4 }) { 0 => *self.r.pick(WIDE), 1 | 4..=13 => *self.r.pick(MARKS), _ => (b'a' + (self.r.b(26) as u8)) as char },
            4 => match self.r.b(8) { 0 => '\n', 1 => '\t', 2 => '\r', 3 => *self.r.pick(&['\u{1b}', '\u{7}', '\u{8}', '\u{0}', '\u{7f}', '\u{200b}', '\u{85}', '\u{b}', '\u{9b}', '\u{ad}', '\u{200d}', '\u{feff}', '\u{1160}']), 4 => *self.r.pick(WIDE), _ => *self.r.pick(&['a', 'Z', ' ', 'é', 'ß', '[', 'H', '1', ';', 'm']) },
            _ => if self.r.p(1, 5) { ' ' } else { *self.r.pick(&['x', 'é', '€', '日', 'w', 'λ', '\u{a0}', '\u{e33}', '\u{10ffff}', '\u{303f}']) },
        }).collect()
    }
    fn spos(&mut self, l: u64, c: u64) -> (u64, u64) {
        fn one(g: &mut G, n: u64) -> u64 { match g.r.b(16) { 0 => n, 1 => n.saturating_sub(1), 2 => 0, 3 => n.saturating_sub(2), 4 => match g.r.b(8) { 0 => u64::MAX, 1 => u64::MAX - 1, 2 => u32::MAX as u64, 3 => n + 1, 4 => u64::MAX / 2 + 1, 5 => 65535, _ => n * 2 }, _ => g.r.b(n.max(1)) } }
        (one(self, l), one(self, c))
    }
}
fn scr_act(g: &mut G, l: u64, c: u64, guard: bool, mac: u64) -> Act {
    let n = match g.r.b(12) { 0 => 0, 1..=8 => g.r.log(8), 9 | 10 => g.r.log(c.max(1) * 2 + 2), _ => g.r.log((l * c + 8).min(4000)) };
    if g.r.b(20) < mac { let s = g.stext(g_short(n)); return Act::Mac { t: g.r.b(crate::exec::NMAC) as u8, s, a: g.at(), n: g.r.next() as i64 >> g.r.b(60) }; }
    match g.r.b(30) {
        0..=7 => Act::W(g.stext(n)),
        8 => Act::Fm(g.stext(n)),
        9 => Act::Ch(g.stext(1).chars().next().unwrap_or('x')),
        10 | 11 => Act::St(g.at(), g.stext(n)),
        12..=14 => { let p = g.spos(l, c); Act::WAt(p.0, p.1, g.stext(n)) }
        15 => { let p = g.spos(l, c); Act::StAt(p.0, p.1, g.at(), g.stext(n)) }
        16..=18 => { let p = g.spos(l, c); Act::Cur(p.0, p.1) }
        19 => { let p = g.spos(l, c); Act::Nl(p.1) }
        20 => Act::ClrS,
        21 => match g.r.b(9) { 0 | 1 => Act::Fg(g.color()), 2 | 3 => Act::Bg(g.color()), 4 => Act::Add(g.style()), 5 => Act::Rem(g.style()), 6 => Act::Set(g.style()), 7 => Act::SetNone, _ => Act::Thm(g.at()) },
        22 => if g.r.p(1, 2) { Act::Clr } else { Act::Short(g.r.b(4) as u8) },
        23 | 24 => Act::GetCur,
        25 => if guard || g.r.p(1, 2) { Act::Sz } else { Act::Cm(g.r.b(3) as u8) },
        _ => Act::Rf,
    }
}
fn g_short(n: u64) -> u64 { n.min(40) }
fn scr_list(g: &mut G, n: u64, l: u64, c: u64, sess: u64, mac: u64, read: u64) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..n {
        if g.r.b(20) < read { let a = match g.r.b(6) { 0 => { let n = g.r.log(40) as u32; Act::Rw(if n == 40 || n == 7 { 0 } else { n }, g.tmo()) } 1 => Act::Wt(Some((0, g.r.b(1_000_000) as u32))), _ => Act::Rd(match g.r.b(3) { 0 => Some((0, 0)), 1 => Some((0, 5_000_000)), _ => g.tmo() }) };
            if g.r.p(1, 5) { let o = g.op(a); let w = scr_act(g, l, c, true, mac); let w = g.op(w); v.push(g.op(Act::LkR { tr: false, b: vec![o, w] })) } else { v.push(g.op(a)) }
            continue; }
        if g.r.b(10) < sess {
            let k = g.r.b(7);
            let b: Vec<Op> = (0..k).map(|_| { let a = scr_act(g, l, c, true, mac); g.op(a) }).collect();
            let a = Act::LkW { tr: g.r.p(1, 6), b };
            v.push(g.op(a));
        } else { let a = scr_act(g, l, c, false, mac); v.push(g.op(a)) }
    }
    v
}
fn gen_scr(prop: &str, seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base(prop, seed);
    sc.cfg.snap = true;
    sc.cfg.term = if g.r.p(1, 3) { "xterm-256color".into() } else { g.r.pick(SCRTERMS).to_string() };
    if g.r.p(1, 4) { sc.cfg.extra |= X_CUT }
    let pick = |g: &mut G| if g.r.p(1, 4) { *g.r.pick(SIZES) } else { (g.r.r(1, 7) as u16, g.r.r(1, 14) as u16) };
    (sc.cfg.l, sc.cfg.c) = pick(&mut g);
    if sc.cfg.l > 10 && !g.r.p(1, 6) { sc.cfg.l = 6; sc.cfg.c = 11 }
    // more output in one refresh than the output buffer holds
    let big = prop == "C05" && g.r.p(1, 6) || g.r.p(1, 200);
    if big { (sc.cfg.l, sc.cfg.c) = *g.r.pick(&[(24, 80), (30, 60), (20, 60), (10, 100)]) }
    if !big && g.r.p(1, 50) { (sc.cfg.l, sc.cfg.c) = *g.r.pick(BIGSIZES) }
    let zero = prop == "C06" && g.r.p(1, 25);
    if zero { if g.r.p(1, 2) { sc.cfg.l = 0 } else { sc.cfg.c = 0 } }
    handlers(&mut sc);
    let mut pc = g.pcfg();
    // a read blocking forever needs the 'q' of the idle phase, which arrives as a byte, not as an event this model follows
    pc.sigs &= 16;
    let err = g.r.p(1, 4) && prop != "C05";
    if err { sc.cfg.err_tty = true }
    if g.r.p(1, 3) {
        sc.pre.push(g.op(Act::NewT(if err { 1 } else { 0 })));
        for _ in 0..g.r.b(3) { let a = match g.r.b(4) { 0 => Act::Bg(g.color()), 1 => Act::Add(g.style()), 2 => Act::W("before".into()), _ => Act::Fg(g.color()) }; sc.pre.push(g.op(a)) }
        sc.pre.push(g.op(Act::WithT(pc)));
    } else { sc.pre.push(g.op(Act::NewS(if err { 1 } else { 0 }, pc))) }
    let (l, c) = (sc.cfg.l as u64, sc.cfg.c as u64);
    let (nt, sess, mac, read) = match prop {
        "C04" => (1, 2, 1, 0), "C05" => (if g.r.p(1, 5) { 2 } else { 1 }, 3, 1, 0), "C06" => (g.r.r(1, 2), 2, 1, 5), "C07" => (g.r.r(2, 4), 4, 3, if g.r.p(1, 4) { 2 } else { 0 }), _ => (g.r.r(1, 2), 3, 13, 0) };
    let per = if nt == 1 { g.r.r(2, 18) } else { g.r.r(1, 6) };
    for i in 0..nt { let n = g.r.r(1, per); let rd = if prop == "C06" && nt == 2 { if i == 0 { 12 } else { 0 } } else { read }; let v = scr_list(&mut g, n, l, c, sess, mac, rd); sc.th.push(v) }
    if big {
        for _ in 0..g.r.r(1, 2) {
            let marks = g.r.r(1, 4);
            let n = l * c;
            let s: String = (0..n).flat_map(|i| { let mut v = vec![if marks == 0 && i % 5 == 0 { '日' } else { (b'!' + ((i * 7 + marks * 3) % 90) as u8) as char }]; for _ in 0..marks { v.push('\u{301}') } v }).take((n * (marks + 1)).min(12000) as usize).collect();
            let a = if g.r.p(1, 2) { Act::WAt(0, 0, s) } else { Act::StAt(0, 0, g.at(), s) };
            let w = g.op(a); let r = g.op(Act::Rf); let r2 = g.op(Act::Rf);
            let k = g.r.b(sc.th[0].len() as u64 + 1) as usize;
            let fop = r.id;
            sc.th[0].insert(k, w); sc.th[0].insert(k + 1, r);
            if g.r.p(1, 2) { sc.th[0].insert(k + 2, r2) }
            if prop == "C05" && g.r.p(1, 2) { let k = Fk::Err(libc::EIO); sc.fault.push(Fault { op: Some(fop), c: Call::Write, nth: 0, cnt: g.r.r(1, 2) as u32, k }) }
        }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 10 } else { 0 });
    stray_signals(&mut g, &mut sc, 1);
    if g.r.p(1, 2) { soft_writes(&mut g, &mut sc, 4) }
    if prop == "C05" || (prop == "C06" && g.r.p(1, 6)) {
        hard_writes(&mut g, &mut sc, 3);
        sc.cfg.err_tty = false;
        for o in &mut sc.pre { match &mut o.a { Act::NewT(s) | Act::NewS(s, _) => *s = 0, _ => {} } }
        if prop == "C05" && g.r.p(1, 3) { let v = ids(&sc); if !v.is_empty() { for _ in 0..g.r.r(1, 2) { let op = *g.r.pick(&v); let k = Fk::Err(libc::EIO); sc.fault.push(Fault { op: Some(op), c: Call::Write, nth: g.r.b(3) as u32, cnt: 1, k }) } } }
    }
    if prop == "C06" || (prop == "C07" && read > 0) {
        let v = ids(&sc);
        for _ in 0..g.r.r(1, 4) {
            let s = if g.r.p(1, 12) { match g.r.b(3) { 0 => (0, c as u16), 1 => (l as u16, 0), _ => (0, 0) } } else if g.r.p(1, 4) { (g.r.r(1, 30) as u16, g.r.r(1, 90) as u16) } else { pick(&mut g) };
            let ev = Ev::Rs(s.0, s.1, g.r.b(4) as u8);
            if g.r.p(3, 5) && !v.is_empty() { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) }
            else { let w = if g.r.p(1, 3) { When::Idle } else { When::At(g.r.log(60_000_000)) }; sc.tl.push(Tl { w, ev }) }
        }
        if g.r.p(1, 5) { let op = sc.pre.last().unwrap().id; let at = pt(&mut g); let s = pick(&mut g); sc.trig.push(Trig { op, at, ev: Ev::Rs(s.0, s.1, 0) }) }
        for _ in 0..g.r.b(4) { let b = g.text(3).into_bytes(); let w = if g.r.p(1, 3) { When::Idle } else { When::At(g.r.log(60_000_000)) }; sc.tl.push(Tl { w, ev: Ev::In(0, b) }) }
    }
    if prop == "C06" || (prop == "C07" && read > 0) { soft_reads(&mut sc, seed) }
    g.r = Rng::new(7);
    let q = g.op(Act::Quiet); sc.post.push(q);
    if prop == "C06" || prop == "C07" { let d = g.op(Act::Drain); sc.post.push(d) }
    for a in [Act::Sz, Act::Rf, Act::W("E".into()), Act::LkW { tr: false, b: vec![] }, Act::Drop] { let o = g.op(a); sc.post.push(o) }
    for o in &mut sc.post { o.y = None }
    sc
}

// ---------------------------------------------------------------- input (C08, C09, C10)
pub const TEXTB: &[&str] = &["é", "ß", "日", "本", "€", "\u{1f600}", "\u{10348}", "ü", "λ", "中"];
impl G {
    pub fn mouse(&mut self) -> Vec<u8> {
        let b = match self.r.b(10) { 0..=4 => self.r.b(3), 5 => 3, 6 => *self.r.pick(&[64, 65, 66, 67]), 7 => *self.r.pick(&[32, 33, 34, 35]), 8 => *self.r.pick(&[128, 129, 130, 131]), _ => self.r.b(200) } | if self.r.p(1, 3) { 4 * self.r.b(8) } else { 0 };
        let co = |g: &mut G| match g.r.b(8) { 0 => 1, 1 => g.r.log(u32::MAX as u64), 2 => *g.r.pick(&[u32::MAX as u64, 65535, 32768, 256, 223, 95]), _ => g.r.r(1, 200) };
        let (x, y) = (co(self), co(self));
        format!("\x1b[<{};{};{}{}", b, x, y, if self.r.p(2, 3) { 'M' } else { 'm' }).into_bytes()
    }
    pub fn key(&mut self, t: &crate::terms::Term) -> Vec<u8> { if t.keys.is_empty() { b"k".to_vec() } else { self.r.pick(t.keys).0.to_vec() } }
    /// A piece of input; `mal` allows malformed ones.
    pub fn token(&mut self, t: &crate::terms::Term, mal: u64) -> Vec<u8> {
        if self.r.b(20) < mal {
            return match self.r.b(14) {
                0 => { let n = self.r.r(1, 6); (0..n).map(|_| self.r.b(256) as u8).collect() }
                1 => vec![self.r.r(0x80, 0xff) as u8],
                2 => { let s = *self.r.pick(TEXTB); let b = s.as_bytes(); let n = self.r.r(1, b.len() as u64 - 1) as usize; let mut v = b[..n].to_vec(); if self.r.p(2, 3) { v.push(b'a' + self.r.b(26) as u8) } v }
                3 => { let s = *self.r.pick(&[&b"\xc0\x80"[..], b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff\xfe", b"\xe0\x80\xaf", b"\xf0\x9f\x98", b"\xe2\x82", b"\xc3"]); s.to_vec() }
                4 => { let x = [self.r.b(2), self.r.b(2), self.r.b(2)]; format!("\x1b[<{};{};{}M", x[0], x[1], x[2]).into_bytes() }
                5 => { let big = *self.r.pick(&["4294967296", "4294967295", "99999999999999999999", "0000000000000000000001", "18446744073709551616"]); let w = self.r.b(3); format!("\x1b[<{};{};{}M", if w == 0 { big } else { "0" }, if w == 1 { big } else { "5" }, if w == 2 { big } else { "7" }).into_bytes() }
                6 => { let s = *self.r.pick(&["\x1b[<;;M", "\x1b[<0;M", "\x1b[<0;1;2X", "\x1b[<0;1;2", "\x1b[<0:1:2M", "\x1b[<-1;1;1M", "\x1b[<0;1;2;3M", "\x1b[<M", "\x1b[<", "\x1b[<1", "\x1b[<0;1\u{e9};2M", "\x1b[<0;;5m", "\x1b[< 0;1;1M"]); s.as_bytes().to_vec() }
                7 | 8 => { let mut m = self.mouse(); let i = self.r.b(m.len() as u64) as usize; m[i] ^= 1 << self.r.b(8); m }
                9 => { let mut m = self.mouse(); let i = self.r.b(m.len() as u64) as usize; m.truncate(i + 1); m }
                10 => { let mut k = self.key(t); let i = self.r.b(k.len() as u64) as usize; k[i] ^= 1 << self.r.b(8); k }
                11 => { let mut k = self.key(t); let i = self.r.b(k.len() as u64) as usize; k.truncate(i); k.extend(self.key(t)); k }
                12 => vec![0; self.r.log(4) as usize],
                _ => b"\x1b\x1b\x1b[\x1b[1;2\x1bO".to_vec(),
            };
        }
        match self.r.b(16) {
            0..=3 => { let n = self.r.log(8); (0..n).map(|_| b"abcdefghijklmnoprstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789[]<;~O"[self.r.b(67) as usize]).collect() }
            4..=8 => self.key(t),
            9..=11 => self.mouse(),
            12 | 13 => { let n = self.r.log(4); (0..n).flat_map(|_| self.r.pick(TEXTB).as_bytes().to_vec()).collect() }
            14 => vec![*self.r.pick(&[27u8, 9, 13, 10, 127, 8, 0, 1, 2, 5, 6, 7, 14, 23, 24, 25, 29, 30, 31])],
            _ => { let mut k = self.key(t); let n = self.r.r(1, k.len() as u64) as usize; k.truncate(n); k }
        }
    }
}
fn in_read(g: &mut G, prop: &str, inf: &mut u32) -> Act {
    let mut to = match prop { "C09" => match g.r.b(8) { 0 => g.tmo(), 1 => Some((0, g.r.log(20_000_000) as u32)), _ => Some((0, 0)) }, _ => match g.r.b(4) { 0 => Some((0, 0)), 1 => g.tmo(), _ => Some((0, g.r.log(30_000_000) as u32)) } };
    if to.is_none() { if *inf == 0 { to = Some((0, 1_000_000)) } else { *inf -= 1 } }
    let (raw, wt) = match prop { "C09" => (1, 3), "C10" => (2, 4), _ => (7, 5) };
    let k = g.r.b(20);
    if k < raw { let n = match g.r.b(8) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => 3, 5 => 4096, _ => g.r.log(300) }; Act::Rw(n as u32, to) }
    else if k < raw + wt { Act::Wt(to) }
    else { Act::Rd(to) }
}
fn gen_in(prop: &str, seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base(prop, seed);
    sc.cfg.term = if g.r.p(1, 2) { "xterm-256color".into() } else { g.r.pick(ALLTERMS).to_string() };
    let t = model_out::term(&sc.cfg.term);
    handlers(&mut sc);
    let mut pc = g.pcfg();
    if prop == "C09" { pc.sigs &= S_WINCH; pc.block = true }
    let scr = prop != "C09" && sc.cfg.term != "dumb" && g.r.p(1, 6);
    // what a run reads from: the device of standard input unless opened by path
    let mut unprep = false;
    if scr { sc.pre.push(g.op(Act::NewS(0, pc))) }
    else {
        let d = match g.r.b(5) { 0 => 1, 1 => 2, _ => 0 };
        sc.pre.push(g.op(Act::NewT(d)));
        if d == 1 { sc.cfg.err_tty = true }
        if prop == "C08" && g.r.p(1, 10) { unprep = true } else { sc.pre.push(g.op(Act::Pr(pc))) }
    }
    let cycles = prop == "C08" && !scr && g.r.p(1, 6);
    let nt = if prop == "C09" { g.r.r(1, 2) } else if g.r.p(1, 2) { 1 } else { g.r.r(2, 3) };
    let burst = match prop { "C09" => g.r.p(1, 2), _ => g.r.p(1, 8) };
    let per = if burst { g.r.r(10, 80) / nt } else { g.r.r(2, 16) };
    let mut inf = 8;
    let mut depth = !unprep as u64;
    for _ in 0..nt {
        let n = g.r.r(1, per.max(1));
        let mut v = vec![];
        for _ in 0..n {
            match g.r.b(40) {
                0..=3 => {
                    let k = g.r.r(1, if burst { 20 } else { 5 });
                    let tr = g.r.p(1, 4);
                    let b: Vec<Op> = (0..k).map(|_| { let a = in_read(&mut g, prop, &mut inf); g.op(a) }).collect();
                    v.push(g.op(Act::LkR { tr, b }));
                }
                4 if prop != "C09" => { let s = g.text(5); v.push(g.op(Act::W(s))) }
                5 if cycles => { if depth > 0 && g.r.p(1, 2) { depth -= 1; v.push(g.op(Act::Re)) } else if depth < 4 { depth += 1; let c = g.pcfg(); v.push(g.op(Act::Pr(c))) } }
                6 if prop == "C08" => { let n = g.r.log(20_000_000); v.push(g.op(Act::Nap(n))) }
                _ => { let a = in_read(&mut g, prop, &mut inf); v.push(g.op(a)) }
            }
        }
        sc.th.push(v);
    }
    // what arrives
    let mal = match prop { "C10" => 9, "C08" => 2, _ => 0 };
    let target = if burst { *g.r.pick(&[130, 200, 300, 600, 1500]) } else { g.r.log(120) as usize };
    let mut toks: Vec<Vec<u8>> = vec![];
    let mut len = 0;
    while len < target { let k = if cycles || unprep { let n = g.r.log(6); let nl = g.r.p(1, 2); (0..n).map(|_| b"abcdefgh12345678"[g.r.b(16) as usize]).chain(if nl { Some(b'\n') } else { None }).collect() } else { g.token(t, mal) }; len += k.len(); toks.push(k) }
    let all: Vec<u8> = toks.concat();
    let mut parts: Vec<Vec<u8>> = vec![];
    match g.r.b(if burst { 2 } else { 4 }) {
        0 => parts.push(all),
        1 => { let mut i = 0; while i < all.len() { let n = g.r.log(if burst { 600 } else { 40 }) as usize; let e = (i + n).min(all.len()); parts.push(all[i..e].to_vec()); i = e } }
        2 => parts = toks,
        _ => { let mut i = 0; while i < all.len() { let n = g.r.log(5) as usize; let e = (i + n).min(all.len()); parts.push(all[i..e].to_vec()); i = e } }
    }
    while parts.len() > 40 { let a = parts.pop().unwrap(); parts.last_mut().unwrap().extend(a) }
    let v = ids(&sc);
    for b in parts {
        if b.is_empty() { continue; }
        // arrivals at points of operations may overtake those of the timeline; the stream is what counts
        if g.r.p(1, 4) { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev: Ev::In(0, b) }) }
        else { let w = match g.r.b(6) { 0 => When::Idle, 1 | 2 => When::At(0), _ => When::At(g.r.log(20_000_000)) }; sc.tl.push(Tl { w, ev: Ev::In(0, b) }) }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 8 } else { 0 });
    stray_signals(&mut g, &mut sc, 3);
    // faults
    for _ in 0..g.r.b(4) {
        let op = if g.r.p(2, 3) { Some(*g.r.pick(&v)) } else { None };
        let sg = if g.r.p(1, 2) { libc::SIGUSR1 } else { *g.r.pick(&[libc::SIGWINCH, libc::SIGINT, libc::SIGUSR2, libc::SIGTSTP]) };
        let sg = if prop == "C09" { libc::SIGUSR1 } else { sg };
        let (c, k) = match g.r.b(9) {
            0..=2 => (Call::Read, Fk::Short(g.r.log(40) as u32)), 3 => (Call::Read, Fk::Eintr), 4 => (Call::Read, Fk::EintrSig(sg)), 5 => (Call::Select, Fk::Eintr), 6 => (Call::Select, Fk::EintrSig(sg)),
            7 => (Call::Read, Fk::Short(1)),
            _ => if prop == "C09" && g.r.p(3, 4) { (Call::Select, Fk::Eintr) } else { (*g.r.pick(&[Call::Read, Call::Select]), Fk::Err(*g.r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOMEM]))) },
        };
        let cnt = if let Fk::Short(_) = k { g.r.log(40) as u32 } else { g.r.log(4) as u32 };
        // (a read that fails for as long as it is tried)
        let cnt = if prop == "C10" && op.is_some() && matches!(k, Fk::Err(_)) && g.r.p(1, 2) { 10_000_000 } else { cnt };
        sc.fault.push(Fault { op, c, nth: g.r.log(6) as u32 - 1, cnt, k });
    }
    // a resumed program cannot set the terminal up again, or the size is not to be had
    if prop != "C09" && !cycles && seed % 5 == 2 {
        let mut r = Rng::new(seed ^ 0xc047);
        for _ in 0..r.r(1, 10) {
            let op = *r.pick(&v);
            let at = if r.p(1, 2) { Pt::S(r.r(1, 4) as u32) } else { Pt::E(r.log(100) as u32) };
            sc.trig.push(Trig { op, at, ev: Ev::Sig(if r.p(3, 4) { libc::SIGCONT } else { libc::SIGWINCH }, r.b(4) as u8) });
            let c = *r.pick(&[Call::TcSet, Call::TcSet, Call::TcGet, Call::SigAct, Call::Write, Call::Winsz]);
            let e = *r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOMEM]);
            sc.fault.push(Fault { op: Some(op), c, nth: if c == Call::SigAct { r.b(5) as u32 } else { 0 }, cnt: 1, k: Fk::Err(e) });
        }
    }
    if prop != "C09" {
        for _ in 0..g.r.b(4) {
            let op = *g.r.pick(&v); let at = pt(&mut g);
            let ev = if g.r.p(1, 4) { Ev::Rs(g.r.r(1, 30) as u16, g.r.r(1, 60) as u16, g.r.b(4) as u8) } else { Ev::Sig(*g.r.pick(&[libc::SIGWINCH, libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT]), g.r.b(4) as u8) };
            if g.r.p(1, 2) { sc.trig.push(Trig { op, at, ev }) } else { sc.tl.push(Tl { w: When::At(g.r.log(20_000_000)), ev }) }
        }
    }
    if prop == "C10" && g.r.p(1, 12) { let ev = Ev::Hup(0); if g.r.p(1, 2) { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) } else { sc.tl.push(Tl { w: When::At(g.r.log(30_000_000)), ev }) } }
    sc.picks = g.picks();
    let cyc = cycles || unprep;
    g.r = Rng::new(7);
    let mut post = vec![Act::Quiet];
    if cyc { post.push(Act::Pr(PCfg { block: true, ..Default::default() })) }
    if prop != "C08" || scr { post.push(Act::DrainE) }
    post.push(Act::Drain);
    post.push(Act::Drop);
    for a in post { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- signals and timeouts (C11, C12)
const SIGS: &[i32] = &[libc::SIGWINCH, libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT];
const HUGE: &[(u64, u32)] = &[(u64::MAX, 999_999_999), (u64::MAX, 0), (i64::MAX as u64, 0), (i64::MAX as u64 + 1, 1), (i64::MAX as u64 / 1000, 0), (i64::MAX as u64 / 1000 + 1, 0), (i64::MAX as u64 / 1_000_000, 0), (i64::MAX as u64 / 1_000_000_000, 999_999_999), (u64::MAX / 1000, 0), (1 << 40, 0)];
fn sig_ev(g: &mut G, isig: bool) -> Ev {
    match g.r.b(10) {
        0 | 1 => Ev::Rs(g.r.r(1, 40) as u16, g.r.r(1, 90) as u16, g.r.b(16) as u8),
        2 if isig => Ev::In(0, vec![*g.r.pick(&[3u8, 28, 26])]),
        3 => Ev::Sig(*g.r.pick(&[libc::SIGUSR1, libc::SIGUSR2]), g.r.b(4) as u8),
        _ => Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8),
    }
}
fn gen_sig(seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base("C11", seed);
    sc.cfg.term = if g.r.p(2, 3) { "xterm-256color".into() } else { g.r.pick(ALLTERMS).to_string() };
    handlers(&mut sc);
    if g.r.p(1, 4) { sc.cfg.disp.push((*g.r.pick(SIGS), g.r.r(1, 4) as u8)) }
    let sigs = |g: &mut G| { let mut c = g.pcfg(); c.sigs = match g.r.b(4) { 0 => 62, 1 => 1 << g.r.r(1, 5), _ => (g.r.b(64) as u8) & !1 }; c };
    let pc = sigs(&mut g);
    let scr = sc.cfg.term != "dumb" && g.r.p(1, 6);
    if scr { let e = g.r.p(1, 4); if e { sc.cfg.err_tty = true } sc.pre.push(g.op(Act::NewS(e as u8, pc))) }
    else { let d = match g.r.b(5) { 0 => 1, 1 => 2, _ => 0 }; if d == 1 { sc.cfg.err_tty = true } sc.pre.push(g.op(Act::NewT(d))); sc.pre.push(g.op(Act::Pr(pc))) }
    let nested = !scr && g.r.p(1, 3);
    let nt = g.r.r(1, 3);
    // another terminal, prepared in the same way: signals are reported by either
    let two = !scr && !nested && g.r.p(1, 3);
    let readers = if nt > 1 && g.r.p(if two { 3 } else { 1 }, if two { 4 } else { 3 }) { 2 } else { 1 };
    if two { for a in [Act::NewT(3), Act::Pr(pc)] { let mut o = g.op(a); o.o = 1; sc.pre.push(o) } }
    let mut inf = 8;
    let mut depth = 1;
    for k in 0..nt {
        let mut v = vec![];
        for _ in 0..g.r.r(1, if k < readers { 10 } else { 4 }) {
            if k >= readers { match g.r.b(3) { 0 => { let n = g.r.log(30_000_000); v.push(g.op(Act::Nap(n))) } 1 => v.push(g.op(Act::Nop)), _ => { let s = g.text(4); v.push(g.op(Act::W(s))) } } continue; }
            if k == 0 && nested && g.r.p(1, 3) { if depth > 0 && g.r.p(1, 2) { depth -= 1; v.push(g.op(Act::Re)) } else if depth < 4 { depth += 1; let c = sigs(&mut g); v.push(g.op(Act::Pr(c))) } continue; }
            let mut to = match g.r.b(4) { 0 => Some((0, 0)), 1 => g.tmo(), 2 => None, _ => Some((0, g.r.log(30_000_000) as u32)) };
            if to.is_none() { if inf == 0 { to = Some((0, 1_000_000)) } else { inf -= 1 } }
            let a = match g.r.b(8) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) };
            if g.r.p(1, 8) { let o = g.op(a); v.push(g.op(Act::LkR { tr: false, b: vec![o] })) } else { v.push(g.op(a)) }
            if two && (k == 1 || readers == 1 && g.r.p(1, 2)) { v.last_mut().unwrap().o = 1 }
        }
        sc.th.push(v);
    }
    let v = ids(&sc);
    for _ in 0..g.r.r(1, 6) {
        let ev = sig_ev(&mut g, !pc.block);
        match g.r.b(4) {
            0 | 1 => { let op = *g.r.pick(&v); let at = if g.r.p(1, 2) { Pt::E(g.r.log(1800) as u32) } else { pt(&mut g) }; sc.trig.push(Trig { op, at, ev: ev.clone() }); if g.r.p(1, 4) { let ev = sig_ev(&mut g, !pc.block); sc.trig.push(Trig { op, at, ev }) } }
            2 => { let w = match g.r.b(4) { 0 => When::At(0), 1 => When::At(g.r.log(30_000_000)), _ => When::Idle }; sc.tl.push(Tl { w, ev }) }
            _ => { let op = *g.r.pick(&v); let c = *g.r.pick(&[Call::Select, Call::Read]); let k = Fk::EintrSig(*g.r.pick(SIGS)); sc.fault.push(Fault { op: Some(op), c, nth: g.r.log(3) as u32 - 1, cnt: g.r.log(2) as u32, k }) }
        }
    }
    if g.r.p(1, 2) { for _ in 0..g.r.r(1, 3) { let b = g.text(2).into_bytes(); let w = if g.r.p(1, 2) { When::Idle } else { When::At(g.r.log(30_000_000)) }; sc.tl.push(Tl { w, ev: Ev::In(0, b) }) } }
    preempts(&mut g, &mut sc, if nt > 1 { 8 } else { 0 });
    // several signals at once, which readers of two terminals race to take
    if two && nt > 1 && g.r.p(1, 2) {
        for k in 0..g.r.r(1, 6) { let ev = Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8); let w = if k == 0 || g.r.p(1, 5) { When::Idle } else { When::At(0) }; sc.tl.push(Tl { w, ev }) }
        let v: Vec<u32> = sc.th.iter().flatten().filter(|o| matches!(o.a, Act::Rd(_) | Act::Wt(_) | Act::Rw(..))).map(|o| o.id).collect();
        if !v.is_empty() { for _ in 0..g.r.r(4, 16) {
            let (op, at) = (*g.r.pick(&v), Pt::E(g.r.r(1, 320) as u32));
            let at = if g.r.p(1, 3) { Pt::E(g.r.r(1, 120) as u32) } else { at };
            if g.r.p(1, 2) { let ev = Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8); sc.trig.push(Trig { op, at, ev }) }
            if g.r.p(2, 3) { let ev = Ev::P(g.r.b(4) as u8); sc.trig.push(Trig { op, at, ev }) }
        } }
    }
    if nested && !sc.cfg.err_tty && g.r.p(1, 2) {
        let pr: Vec<u32> = thread_ops(&sc).iter().filter(|o| matches!(o.a, Act::Pr(_))).map(|o| o.id).collect();
        if !pr.is_empty() { for _ in 0..g.r.r(1, 2) {
            let c = *g.r.pick(&[Call::TcSet, Call::SigAct, Call::SigAct, Call::Write]);
            sc.fault.push(Fault { op: Some(*g.r.pick(&pr)), c, nth: if c == Call::SigAct { g.r.b(5) } else { 0 } as u32, cnt: 1, k: Fk::Err(libc::EIO) });
        } }
    }
    g.r = Rng::new(7);
    for a in [Act::Quiet, Act::DrainE] { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    if two { for a in [Act::Re, Act::Drop] { let mut o = g.op(a); o.y = None; o.o = 1; sc.post.push(o) } }
    for a in [Act::Re, Act::DrainE, Act::Drop] { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    sc
}
fn gen_tmo(seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base("C12", seed);
    sc.cfg.term = if g.r.p(2, 3) { "xterm-256color".into() } else { g.r.pick(ALLTERMS).to_string() };
    let t = model_out::term(&sc.cfg.term);
    handlers(&mut sc);
    let mut pc = g.pcfg();
    pc.block = true;
    let scr = sc.cfg.term != "dumb" && g.r.p(1, 8);
    if scr { sc.pre.push(g.op(Act::NewS(0, pc))) }
    else { let d = match g.r.b(5) { 0 => 1, 1 => 2, _ => 0 }; if d == 1 { sc.cfg.err_tty = true } sc.pre.push(g.op(Act::NewT(d))); sc.pre.push(g.op(Act::Pr(pc))) }
    let nt = g.r.r(1, 3);
    let mut inf = 6;
    for k in 0..nt {
        let mut v = vec![];
        for _ in 0..g.r.r(1, if k == 0 { 8 } else { 4 }) {
            if k > 0 { match g.r.b(3) { 0 => { let n = g.r.log(30_000_000); v.push(g.op(Act::Nap(n))) } 1 => v.push(g.op(Act::Nop)), _ => { let s = g.text(4); v.push(g.op(Act::W(s))) } } continue; }
            let mut to = match g.r.b(10) { 0 => None, 1 => Some((0, 0)), 2 => Some(*g.r.pick(HUGE)), 3 => Some((g.r.log(100_000), g.r.b(1_000_000_000) as u32)), 4 => Some((0, *g.r.pick(&[1, 999, 1000, 1001, 999_999, 1_000_000, 1_000_001, 1_500_000, 999_999_999]))), 5 => Some((0, g.r.log(2_000_000) as u32)), _ => Some((g.r.b(3), g.r.log(999_999_999) as u32)) };
            if to.map_or(true, |t| t.0 > 1_000_000) { if inf == 0 { to = Some((0, 1_000_000)) } else { inf -= 1 } }
            let a = match g.r.b(4) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) };
            if g.r.p(1, 8) { let o = g.op(a); v.push(g.op(Act::LkR { tr: false, b: vec![o] })) } else { v.push(g.op(a)) }
        }
        sc.th.push(v);
    }
    let v = ids(&sc);
    let rd: Vec<u32> = { let mut x = vec![]; all_ops(&sc.th[0], &mut x); x.iter().map(|o| o.id).collect() };
    let own = g.r.p(1, 5);
    for _ in 0..g.r.b(6) {
        let s = if own && g.r.p(1, 2) { *g.r.pick(SIGS) } else { *g.r.pick(&[libc::SIGUSR1, libc::SIGUSR2]) };
        let ev = Ev::Sig(s, g.r.b(4) as u8);
        match g.r.b(4) {
            0 => { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) }
            1 => { let op = *g.r.pick(&rd); let c = *g.r.pick(&[Call::Select, Call::Read]); let k = if g.r.p(1, 2) { Fk::Eintr } else { Fk::EintrSig(s) }; sc.fault.push(Fault { op: Some(op), c, nth: g.r.log(3) as u32 - 1, cnt: g.r.log(20) as u32, k }) }
            _ => { let n = g.r.log(6); let step = g.r.log(1_200_000_000); for _ in 0..n { sc.tl.push(Tl { w: When::At(step), ev: ev.clone() }) } }
        }
    }
    for _ in 0..g.r.b(5) {
        let b = if g.r.p(1, 3) { g.key(t) } else { vec![b'a' + g.r.b(26) as u8] };
        let ev = Ev::In(0, b);
        if g.r.p(1, 4) { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) } else { let w = if g.r.p(1, 3) { When::Idle } else { When::At(g.r.log(3_000_000_000)) }; sc.tl.push(Tl { w, ev }) }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 6 } else { 0 });
    if g.r.p(1, 2) { for _ in 0..g.r.r(1, 3) { let s = g.r.log(1_000_000) as i64; let ev = Ev::Jump(if g.r.p(1, 2) { s } else { -s }); if g.r.p(1, 2) { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) } else { sc.tl.push(Tl { w: When::At(g.r.log(2_000_000_000)), ev }) } } }
    g.r = Rng::new(7);
    for a in [Act::Quiet, Act::DrainE, Act::Drop] { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- modes (C13, C17)
fn any_tio(g: &mut G) -> (u32, u32, u32, u32, u8, u8) {
    let b = (0o2400 | libc::IUTF8, 0o5, 0o277, 0o105073);
    let flip = |g: &mut G, x: u32, n: u32| { let mut x = x; for _ in 0..g.r.b(6) { x ^= 1 << g.r.b(n as u64) } x };
    if g.r.p(1, 3) { return (b.0, b.1, b.2, b.3, 1, 0); }
    let i = flip(g, b.0, 16);
    // the flow control of the device must not stall the run
    (i, flip(g, b.1, 16), flip(g, b.2, 32), flip(g, b.3, 18), g.r.log(255) as u8 - 1, g.r.log(255) as u8 - 1)
}
fn any_disp(g: &mut G, sc: &mut Scen) { for s in SIGS { if g.r.p(1, 2) { sc.cfg.disp.push((*s, g.r.b(5) as u8)) } } }
/// Keypad and mouse modes were on before, and no configuration asks for them.
fn modes_before(sc: &mut Scen) {
    fn f(v: &mut Vec<Op>) { for o in v { match &mut o.a { Act::Pr(c) | Act::NewS(_, c) | Act::WithT(c) => { c.keypad = false; c.mouse = false } Act::LkR { b, .. } | Act::LkW { b, .. } => f(b), _ => {} } } }
    f(&mut sc.pre); for t in &mut sc.th { f(t) } f(&mut sc.post);
    sc.cfg.extra |= X_MODES;
}
fn gen_mode(prop: &str, seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base(prop, seed);
    sc.cfg.extra |= X_ST;
    sc.cfg.term = if g.r.p(1, 2) { "xterm-256color".into() } else { g.r.pick(ALLTERMS).to_string() };
    handlers(&mut sc);
    any_disp(&mut g, &mut sc);
    if g.r.p(3, 4) { sc.cfg.tio = Some(any_tio(&mut g)) }
    let cont = prop == "C17";
    let full = |g: &mut G| { let mut c = g.pcfg(); c.keypad = g.r.p(2, 3); c.mouse = g.r.p(2, 3); c.motion = g.r.p(1, 2); c.sigs = match g.r.b(4) { 0 => 62, 1 => 0, _ => (g.r.b(64) as u8) & !1 }; c };
    let scr = g.r.p(1, 4) && SCRTERMS.contains(&sc.cfg.term.as_str());
    let d = match g.r.b(5) { 0 => 1, 1 if !scr => 2, _ => 0 };
    if d == 1 { sc.cfg.err_tty = true }
    // a screen in a terminal that is prepared already
    let inner = scr && g.r.p(1, 4);
    let fresh = |g: &mut G, v: &mut Vec<Op>| {
        if scr && !inner && g.r.p(1, 2) { let c = full(g); v.push(g.op(Act::NewS(d, c))); return; }
        v.push(g.op(Act::NewT(d)));
        if inner || !scr && g.r.p(1, 3) { let c = full(g); v.push(g.op(Act::Pr(c))) }
        if scr { let c = full(g); v.push(g.op(Act::WithT(c))) }
    };
    if scr { (sc.cfg.l, sc.cfg.c) = (g.r.r(1, 6) as u16, g.r.r(1, 12) as u16) }
    { let mut v = vec![]; fresh(&mut g, &mut v); sc.pre = v; }
    let nt = if g.r.p(3, 5) { 1 } else { g.r.r(2, 3) };
    let shared = nt > 1 && g.r.p(1, 2);
    let mut inf = 6;
    for k in 0..nt {
        let mut v = vec![];
        let mut one = |g: &mut G, sess: bool| -> Act {
            match g.r.b(12) {
                0..=3 if scr => match g.r.b(3) { 0 => Act::Rf, 1 => Act::Bg(g.color()), _ => Act::ClrS },
                0..=3 if k == 0 || shared => if g.r.p(1, 2) { Act::Re } else { let c = full(g); Act::Pr(c) },
                0 | 4 | 5 => { let s = g.text(4); Act::W(s) }
                6 => Act::Cm(g.r.b(3) as u8),
                7 if !sess => Act::Nap(g.r.log(30_000_000)),
                _ => { let mut to = match g.r.b(4) { 0 => Some((0, 0)), 1 => None, _ => Some((0, g.r.log(30_000_000) as u32)) };
                    if to.is_none() { if inf == 0 { to = Some((0, 1_000_000)) } else { inf -= 1 } }
                    match g.r.b(8) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) } }
            }
        };
        for _ in 0..g.r.r(1, if nt == 1 { 14 } else { 6 }) {
            if scr && !inner && nt == 1 && g.r.p(1, 8) { v.push(g.op(Act::Drop)); if g.r.p(1, 3) { let a = one(&mut g, false); v.push(g.op(a)) } fresh(&mut g, &mut v); continue; }
            if shared || g.r.p(1, 5) {
                let n = g.r.r(1, 5);
                let mut b: Vec<Op> = (0..n).map(|_| { let a = one(&mut g, true); g.op(a) }).collect();
                // both guards held
                if g.r.p(1, 4) { let lo = g.r.b(b.len() as u64) as usize; let t = b.split_off(lo); b.push(g.op(Act::LkW { tr: false, b: t })) }
                v.push(g.op(Act::LkR { tr: false, b }));
            } else { let a = one(&mut g, false); v.push(g.op(a)) }
        }
        sc.th.push(v);
    }
    let v = ids(&sc);
    for _ in 0..g.r.b(7) {
        let ev = match g.r.b(if cont { 12 } else { 6 }) {
            0 => Ev::Rs(g.r.r(1, 40) as u16, g.r.r(1, 90) as u16, g.r.b(16) as u8),
            1 => Ev::Sig(*g.r.pick(&[libc::SIGUSR1, libc::SIGUSR2]), g.r.b(4) as u8),
            2..=4 => Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8),
            5 => { let mut b = g.text(3).into_bytes(); if b.len() != 2 { b.extend_from_slice([&b"\x1b"[..], b"\x1b[", b"\x1b[<0;1", b"\xe2\x82", b"\x1bO"][b.len() % 5]) } Ev::In(0, b) }
            6 => Ev::Foreign(g.r.b(8) as u8),
            7 => Ev::Sig(libc::SIGCONT, g.r.b(4) as u8),
            _ => Ev::StopCont(g.r.b(8) as u8, g.r.b(4) as u8),
        };
        match g.r.b(3) {
            0 => { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) }
            1 => { let op = *g.r.pick(&v); sc.trig.push(Trig { op, at: Pt::S(1), ev }) }
            _ => { let w = match g.r.b(3) { 0 => When::At(0), 1 => When::At(g.r.log(30_000_000)), _ => When::Idle }; sc.tl.push(Tl { w, ev }) }
        }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 8 } else { 0 });
    soft_reads(&mut sc, seed);
    if g.r.p(1, 3) { soft_writes(&mut g, &mut sc, 3) }
    // the program is continued while a thread is sending output
    if cont && nt > 1 && g.r.p(1, 3) {
        let wr: Vec<u32> = sc.th[1..].iter().flatten().filter(|o| matches!(o.a, Act::W(_) | Act::Cm(_) | Act::Rf)).map(|o| o.id).collect();
        if !wr.is_empty() {
            let op = *g.r.pick(&wr);
            let at = Pt::S(g.r.r(1, 3) as u32);
            let ev = Ev::StopCont(g.r.b(8) as u8, g.r.b(4) as u8);
            sc.trig.push(Trig { op, at, ev });
            let ns = 10_000 + g.r.log(1_000_000_000);
            sc.fault.push(Fault { op: Some(op), c: Call::Write, nth: 0, cnt: 1, k: Fk::Stall(ns) });
        }
    }
    if !cont && g.r.p(1, 8) { modes_before(&mut sc) }
    // handlers every configuration asks for are lost as well
    if cont && g.r.p(1, 3) {
        fn f(v: &[Op]) -> u8 { v.iter().fold(62, |m, o| m & match &o.a { Act::Pr(c) | Act::NewS(_, c) | Act::WithT(c) => c.sigs, Act::LkR { b, .. } | Act::LkW { b, .. } => f(b), _ => 62 }) }
        let m = f(&sc.pre) & sc.th.iter().fold(62, |m, t| m & f(t)) & f(&sc.post);
        let m = [S_INT, S_QUIT, S_TSTP].iter().enumerate().fold(8, |a, (k, b)| if m & b != 0 { a | 1 << k } else { a });
        let r = &mut g.r;
        for ev in sc.trig.iter_mut().map(|t| &mut t.ev).chain(sc.tl.iter_mut().map(|t| &mut t.ev)) { if let Ev::Foreign(v) | Ev::StopCont(v, _) = ev { *v |= (r.b(16) as u8 & m) << 3 } }
    }
    // applying the configuration again fails part way
    if cont && g.r.p(1, 4) {
        let rd: Vec<u32> = thread_ops(&sc).iter().filter(|o| matches!(o.a, Act::Rd(_) | Act::Wt(_) | Act::Rw(..))).map(|o| o.id).collect();
        if !rd.is_empty() { for _ in 0..g.r.r(1, 3) {
            let c = *g.r.pick(&[Call::TcGet, Call::TcSet, Call::TcSet, Call::SigAct, Call::SigAct, Call::Write, Call::Write]);
            let k = match c { Call::Write => Fk::Err(*g.r.pick(WERR)), Call::TcGet | Call::TcSet if g.r.p(1, 4) => Fk::Eintr, _ => Fk::Err(*g.r.pick(SETERR)) };
            sc.fault.push(Fault { op: Some(*g.r.pick(&rd)), c, nth: if c == Call::SigAct { g.r.b(6) } else { 0 } as u32, cnt: 1, k });
        } }
        sc.cfg.err_tty = false;
        for o in sc.pre.iter_mut().chain(sc.th.iter_mut().flatten()) { if let Act::NewT(d) | Act::NewS(d, _) = &mut o.a { if *d == 1 { *d = 0 } } }
    }
    g.r = Rng::new(7);
    let mut post = vec![Act::Quiet, Act::DrainE];
    for _ in 0..12 { post.push(Act::Re) }
    post.push(Act::Rd(Some((0, 0))));
    post.push(Act::Drop);
    for a in post { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- failures of prepare and restore (C14)
const SETERR: &[i32] = &[libc::EIO, libc::EPERM, libc::EINVAL, libc::ENOMEM, libc::EAGAIN];
fn gen_fail(seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base("C14", seed);
    sc.cfg.extra |= X_ST | X_FILL;
    let scr = g.r.p(1, 3);
    sc.cfg.term = if g.r.p(1, 2) { "xterm-256color".into() } else { g.r.pick(if scr { SCRTERMS } else { ALLTERMS }).to_string() };
    // terminals that cannot carry a screen
    if scr && g.r.p(1, 8) { sc.cfg.term = g.r.pick(&["dumb", "sim-noclear"]).to_string() }
    if scr { (sc.cfg.l, sc.cfg.c) = (g.r.r(1, 6) as u16, g.r.r(1, 12) as u16) }
    handlers(&mut sc);
    any_disp(&mut g, &mut sc);
    if g.r.p(3, 4) { sc.cfg.tio = Some(any_tio(&mut g)) }
    let full = |g: &mut G| { let mut c = g.pcfg(); c.keypad = g.r.p(2, 3); c.mouse = g.r.p(2, 3); c.motion = g.r.p(1, 2); c.sigs = match g.r.b(4) { 0 => 62, 1 => 0, _ => (g.r.b(64) as u8) & !1 }; c };
    let mut v: Vec<Op> = vec![];
    let mut aim: Vec<(u32, u8)> = vec![];
    let mut hit = |g: &mut G, id: u32, kind: u8, p: u64| if g.r.b(10) < p { aim.push((id, kind)) };
    let filler = |g: &mut G| match g.r.b(6) { 0 => Act::Cm(g.r.b(3) as u8), 1 => Act::Rd(Some((0, 0))), 2 => Act::Sz, _ => { let n = if g.r.p(1, 8) { g.len() } else { g.short_len() }; Act::W(g.text(n)) } };
    if scr {
        for _ in 0..g.r.r(1, 3) {
            let c = full(&mut g);
            let out = |g: &mut G| match g.r.b(6) { 0 => Act::Cm(g.r.b(3) as u8), 1 => Act::Rd(Some((0, 0))), 2 => Act::W("abc".into()), 3 => Act::Fg(g.color()), _ => Act::Rf };
            if g.r.p(1, 3) {
                v.push(g.op(Act::NewT(0)));
                for _ in 0..g.r.b(3) { let a = filler(&mut g); v.push(g.op(a)) }
                v.push(g.op(Act::WithT(c)));
            } else { v.push(g.op(Act::NewS(0, c))) }
            let id = v.last().unwrap().id; hit(&mut g, id, 1, 5);
            for _ in 0..g.r.b(5) { let a = out(&mut g); v.push(g.op(a)); let id = v.last().unwrap().id; hit(&mut g, id, 3, 1); }
            v.push(g.op(Act::Drop));
            let id = v.last().unwrap().id; hit(&mut g, id, 2, 5);
        }
    } else {
        v.push(g.op(Act::NewT(0)));
        for _ in 0..g.r.r(2, 12) {
            let a = match g.r.b(8) { 0..=2 => { let c = full(&mut g); Act::Pr(c) } 3 | 4 => Act::Re, _ => filler(&mut g) };
            let kind = match a { Act::Pr(_) => 1, Act::Re => 2, _ => 3 };
            let o = g.op(a);
            let id = o.id;
            hit(&mut g, id, kind, if kind == 3 { 1 } else { 5 });
            match g.r.b(12) {
                0 => { let x = filler(&mut g); let x = g.op(x); v.push(g.op(Act::LkR { tr: false, b: vec![o, x] })) }
                1 => { let x = filler(&mut g); let x = g.op(x); let l = g.op(Act::LkW { tr: false, b: vec![x, o] }); v.push(g.op(Act::LkR { tr: false, b: vec![l] })) }
                2 if kind == 3 => v.push(g.op(Act::LkW { tr: false, b: vec![o] })),
                _ => v.push(o),
            }
        }
    }
    sc.th = vec![v];
    soft_writes(&mut g, &mut sc, 2);
    for (id, kind) in aim {
        for _ in 0..if g.r.p(1, 4) { g.r.r(2, 3) } else { 1 } {
            let c = match kind { 3 => Call::Write, 2 => *g.r.pick(&[Call::TcSet, Call::SigAct, Call::SigAct, Call::Write, Call::Write]), _ => *g.r.pick(&[Call::TcGet, Call::TcSet, Call::TcSet, Call::SigAct, Call::SigAct, Call::Write, Call::Write, Call::Winsz, Call::Pipe, Call::Fcntl]) };
            let nth = match c { Call::TcGet | Call::Pipe => 0, Call::TcSet => g.r.b(2), Call::SigAct => g.r.b(10), Call::Winsz => g.r.b(2), Call::Fcntl => g.r.b(4), _ => g.r.b(3) } as u32;
            let k = match c { Call::Write => if g.r.p(1, 5) { Fk::Zero } else { Fk::Err(*g.r.pick(WERR)) }, Call::TcGet | Call::TcSet if g.r.p(1, 5) => Fk::Eintr, _ => Fk::Err(*g.r.pick(SETERR)) };
            let cnt = if g.r.p(1, 5) { g.r.r(2, 4) } else { 1 } as u32;
            if c == Call::Write && g.r.p(1, 3) { sc.fault.push(Fault { op: Some(id), c, nth: nth.saturating_sub(1), cnt: 1, k: Fk::Short(g.r.log(30) as u32) }) }
            sc.fault.push(Fault { op: Some(id), c, nth, cnt, k });
        }
    }
    stray_signals(&mut g, &mut sc, 1);
    if g.r.p(1, 10) { modes_before(&mut sc) }
    g.r = Rng::new(7);
    let mut post = vec![Act::Quiet];
    if !scr { post.push(Act::W("x".into())); for _ in 0..13 { post.push(Act::Re) } }
    post.push(Act::Drop);
    for a in post { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- the end of screens and terminals (C15)
fn gen_end(seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base("C15", seed);
    sc.cfg.extra |= X_ST;
    let scr = g.r.p(3, 4);
    sc.cfg.term = if g.r.p(1, 2) { "xterm-256color".into() } else { g.r.pick(if scr { SCRTERMS } else { ALLTERMS }).to_string() };
    if scr { (sc.cfg.l, sc.cfg.c) = (g.r.r(1, 6) as u16, g.r.r(1, 12) as u16) }
    handlers(&mut sc);
    any_disp(&mut g, &mut sc);
    if g.r.p(2, 3) { sc.cfg.tio = Some(any_tio(&mut g)) }
    let full = |g: &mut G| { let mut c = g.pcfg(); c.keypad = g.r.p(2, 3); c.mouse = g.r.p(2, 3); c.motion = g.r.p(1, 2); c.sigs = match g.r.b(4) { 0 => 62, 1 => 0, _ => (g.r.b(64) as u8) & !1 }; c };
    let err = g.r.p(1, 3);
    sc.cfg.err_tty = err || g.r.p(1, 4);
    let c = full(&mut g);
    if !scr || g.r.p(1, 3) {
        let d = if err { 1 } else if !scr && g.r.p(1, 4) { 2 } else { 0 };
        sc.pre.push(g.op(Act::NewT(d)));
        if scr { sc.pre.push(g.op(Act::WithT(c))) } else if g.r.p(1, 2) { sc.pre.push(g.op(Act::Pr(c))) }
    } else { sc.pre.push(g.op(Act::NewS(err as u8, c))) }
    let nt = g.r.r(1, 3);
    let panics = g.r.p(3, 4);
    let mut inf = 4;
    for k in 0..nt {
        let mut v = vec![];
        let mut one = |g: &mut G, sess: bool| -> Act {
            match g.r.b(16) {
                0 | 1 if panics && sess => Act::Panic,
                0 => Act::Cm(1),
                2 | 3 => Act::Cm(g.r.b(3) as u8),
                4 if scr => Act::Cur(g.r.b(7), g.r.b(14)),
                5 if scr => Act::Rf,
                6 if scr => Act::ClrS,
                7 if !sess => Act::Nap(g.r.log(3_000_000)),
                8 => Act::Bg(g.color()),
                9 => Act::Add(g.style()),
                10..=12 => { let mut to = match g.r.b(4) { 0 => Some((0, 0)), 1 => None, _ => Some((0, g.r.log(3_000_000) as u32)) };
                    if to.is_none() { if inf == 0 { to = Some((0, 1_000_000)) } else { inf -= 1 } }
                    match g.r.b(6) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) } }
                _ => Act::W(String::new()),
            }
        };
        let mut fill = |g: &mut G, a: Act| -> Op { let mut o = g.op(a); if let Act::W(s) = &mut o.a { *s = format!("<{}{}>", o.id, "=".repeat(if g.r.p(1, 12) { g.len() as usize } else { g.r.b(5) as usize })) } o };
        for _ in 0..g.r.r(1, if nt == 1 { 8 } else { 5 }) {
            if k == 0 && g.r.p(1, 12) { let a = if g.r.p(1, 2) { Act::PDrop } else { Act::Drop }; v.push(g.op(a)); continue; }
            if g.r.p(1, 2) {
                let n = g.r.r(1, 4);
                let mut b: Vec<Op> = (0..n).map(|_| { let a = one(&mut g, true); fill(&mut g, a) }).collect();
                let tr = g.r.p(1, 6);
                match g.r.b(4) {
                    0 => v.push(g.op(Act::LkR { tr, b })),
                    1 => { let lo = g.r.b(b.len() as u64) as usize; let t = b.split_off(lo); b.push(g.op(Act::LkW { tr: false, b: t })); v.push(g.op(Act::LkR { tr: false, b })) }
                    _ => v.push(g.op(Act::LkW { tr, b })),
                }
            } else { let a = one(&mut g, false); v.push(fill(&mut g, a)) }
        }
        sc.th.push(v);
    }
    let v = ids(&sc);
    for _ in 0..g.r.b(5) {
        let ev = match g.r.b(4) { 0 => Ev::Rs(g.r.r(1, 8) as u16, g.r.r(1, 14) as u16, g.r.b(16) as u8), 1 => Ev::In(0, g.text(3).into_bytes()), _ => Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8) };
        match g.r.b(3) {
            0 | 1 => { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) }
            _ => { let w = match g.r.b(3) { 0 => When::At(0), 1 => When::At(g.r.log(3_000_000)), _ => When::Idle }; sc.tl.push(Tl { w, ev }) }
        }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 8 } else { 0 });
    soft_reads(&mut sc, seed);
    if g.r.p(1, 3) { soft_writes(&mut g, &mut sc, 3) }
    // a refresh that is longer than the output buffer is cut short in coloured text
    if scr && g.r.p(1, 20) {
        (sc.cfg.l, sc.cfg.c) = (g.r.r(50, 70) as u16, g.r.r(160, 200) as u16);
        let col = g.color();
        let s = "#".repeat(g.r.r(8000, 13000) as usize);
        let b = vec![g.op(Act::Bg(col)), g.op(Act::W(s)), g.op(Act::Rf)];
        let o = if g.r.p(1, 2) { vec![g.op(Act::LkW { tr: false, b })] } else { b };
        for x in &o { if matches!(x.a, Act::Rf | Act::LkW { .. }) { let k = Fk::Err(libc::EIO); sc.fault.push(Fault { op: Some(x.id), c: Call::Write, nth: g.r.b(3) as u32, cnt: if g.r.p(2, 3) { 10_000_000 } else { 1 }, k }) } }
        let t = g.r.b(sc.th.len() as u64) as usize;
        sc.th[t].extend(o);
    }
    let pd = g.r.p(1, 2);
    if g.r.p(1, 2) { sc.cfg.extra |= X_FILL }
    if g.r.p(1, 10) { modes_before(&mut sc) }
    if g.r.p(1, 3) { hard_writes(&mut g, &mut sc, 3) }
    // the terminal is lost for good
    let dead = g.r.p(1, 16);
    g.r = Rng::new(7);
    let mut post = vec![];
    let balk = (seed % 4 == 1).then(|| ((seed >> 8) % 4, 1 + (seed >> 16) % 3, (seed >> 24) % 6));
    if dead { sc.fault.push(Fault { op: None, c: Call::Write, nth: (seed % 30) as u32, cnt: 100000, k: Fk::Err(libc::EIO) }) } else { post.push(Act::Quiet) }
    post.push(if pd { Act::PDrop } else { Act::Drop });
    for a in post { let mut o = g.op(a); o.y = None; sc.post.push(o) }
    // the device does not accept output for a while as everything ends
    if let (Some((nth, cnt, k)), Some(o)) = (balk, sc.post.last()) { sc.fault.push(Fault { op: Some(o.id), c: Call::Write, nth: nth as u32, cnt: cnt as u32, k: if k == 0 { Fk::Zero } else { Fk::Err(WERR[k as usize % WERR.len()]) } }) }
    sc
}

// ---------------------------------------------------------------- progress and locks (C16, C18)
fn gen_lock(prop: &str, seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base(prop, seed);
    let c18 = prop == "C18";
    let scr = g.r.p(1, 2);
    sc.cfg.term = if g.r.p(2, 3) { "xterm-256color".into() } else { g.r.pick(if scr { SCRTERMS } else { ALLTERMS }).to_string() };
    if scr { (sc.cfg.l, sc.cfg.c) = (g.r.r(1, 5) as u16, g.r.r(1, 10) as u16) }
    if scr && c18 && g.r.p(1, 2) { sc.cfg.snap = true }
    handlers(&mut sc);
    let full = |g: &mut G| { let mut c = g.pcfg(); c.sigs = match g.r.b(4) { 0 => 62, 1 => 0, _ => (g.r.b(64) as u8) & !1 }; c };
    let err = g.r.p(1, 6);
    sc.cfg.err_tty = err;
    let c = full(&mut g);
    if !scr || g.r.p(1, 3) {
        sc.pre.push(g.op(Act::NewT(err as u8)));
        if scr { sc.pre.push(g.op(Act::WithT(c))) } else if g.r.p(3, 4) || !c18 { sc.pre.push(g.op(Act::Pr(c))) }
    } else { sc.pre.push(g.op(Act::NewS(err as u8, c))) }
    let prepared = sc.pre.len() > 1 || scr;
    let nt = g.r.r(2, 4);
    let panics = c18 && g.r.p(2, 3);
    let mut inf = if prepared { 8 } else { 0 };
    for _ in 0..nt {
        let mut v = vec![];
        // what a thread mostly does: read, write, both
        let bias = g.r.b(3);
        let mut one = |g: &mut G, sess: bool| -> Act {
            let rd = |g: &mut G, inf: &mut i32| { let mut to = match g.r.b(4) { 0 => Some((0, 0)), 1 | 2 => None, _ => Some((0, g.r.log(3_000_000) as u32)) };
                if to.is_none() { if *inf == 0 { to = Some((0, 1_000_000)) } else { *inf -= 1 } }
                match g.r.b(6) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) } };
            if panics && sess && g.r.p(1, 8) { return Act::Panic; }
            if bias == 0 && g.r.p(1, 2) { return rd(g, &mut inf); }
            match g.r.b(14) {
                0 if scr => Act::Cur(g.r.b(7), g.r.b(14)),
                1 | 2 if scr => Act::Rf,
                3 if scr => Act::ClrS,
                3 | 4 => Act::Nap(g.r.log(3_000_000)),
                5 => Act::Bg(g.color()),
                6 => Act::Cm(g.r.b(3) as u8),
                7 if !scr && !c18 => if g.r.p(1, 2) { Act::Re } else { let c = full(g); Act::Pr(c) },
                8 => Act::Sz,
                9 => rd(g, &mut inf),
                _ => Act::W(String::new()),
            }
        };
        let mut fill = |g: &mut G, a: Act| -> Op { let mut o = g.op(a); if let Act::W(s) = &mut o.a { *s = format!("<{}{}>", o.id, "=".repeat(if g.r.p(1, 20) { g.len() as usize } else { g.r.b(5) as usize })) } o };
        for _ in 0..g.r.r(1, 5) {
            if g.r.p(if c18 { 4 } else { 2 }, 5) {
                let n = g.r.r(1, 4);
                let mut b: Vec<Op> = (0..n).map(|_| { let a = one(&mut g, true); fill(&mut g, a) }).collect();
                let tr = if c18 { g.r.p(1, 2) } else { g.r.p(1, 5) };
                let t2 = g.r.p(1, 4);
                match g.r.b(4) {
                    0 => v.push(g.op(Act::LkR { tr, b })),
                    1 => { let lo = g.r.b(b.len() as u64) as usize; let t = b.split_off(lo); b.push(g.op(Act::LkW { tr: t2, b: t })); v.push(g.op(Act::LkR { tr, b })) }
                    _ => v.push(g.op(Act::LkW { tr, b })),
                }
            } else { let a = one(&mut g, false); v.push(fill(&mut g, a)) }
        }
        sc.th.push(v);
    }
    let v = ids(&sc);
    if !c18 || g.r.p(1, 3) {
        for _ in 0..g.r.b(6) {
            let ev = match g.r.b(8) { 0 | 1 => Ev::Rs(g.r.r(1, 8) as u16, g.r.r(1, 14) as u16, g.r.b(16) as u8), 2 | 3 => Ev::In(0, g.text(3).into_bytes()), 4 => Ev::StopCont(g.r.b(if sc.cfg.snap { 4 } else { 8 }) as u8, g.r.b(4) as u8), 5 => Ev::Sig(libc::SIGCONT, g.r.b(4) as u8), _ => Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8) };
            match g.r.b(3) {
                0 | 1 => { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) }
                _ => { let w = match g.r.b(3) { 0 => When::At(0), 1 => When::At(g.r.log(3_000_000)), _ => When::Idle }; sc.tl.push(Tl { w, ev }) }
            }
        }
    }
    preempts(&mut g, &mut sc, 14);
    if !c18 || seed % 2 == 0 { soft_reads(&mut sc, seed) }
    if g.r.p(1, 2) { for _ in 0..g.r.r(1, 4) { let op = *g.r.pick(&v); sc.fault.push(Fault { op: Some(op), c: *g.r.pick(&[Call::Write, Call::Write, Call::Write, Call::TcSet]), nth: g.r.b(3) as u32, cnt: g.r.log(3) as u32, k: Fk::Stall(g.r.log(1_000_000_000)) }) } }
    if g.r.p(1, 4) { soft_writes(&mut g, &mut sc, 3) }
    // errors must not leave anything locked
    if seed % 5 == 3 && !sc.cfg.err_tty {
        for _ in 0..g.r.r(1, 4) {
            let op = *g.r.pick(&v);
            let c = *g.r.pick(&[Call::Write, Call::Write, Call::Write, Call::Read, Call::Select, Call::TcSet, Call::TcGet, Call::SigAct, Call::Winsz]);
            let k = if c == Call::Write && g.r.p(1, 5) { Fk::Zero } else { Fk::Err(if c == Call::Write { *g.r.pick(WERR) } else { libc::EIO }) };
            sc.fault.push(Fault { op: Some(op), c, nth: g.r.b(3) as u32, cnt: g.r.log(3) as u32, k });
        }
    }
    g.r = Rng::new(7);
    let mut post = vec![Act::Quiet];
    if c18 { post.push(Act::LkR { tr: false, b: vec![] }); post.push(Act::LkW { tr: true, b: vec![] }) }
    post.push(Act::Drop);
    for a in post { let mut o = g.op(a); o.y = None; if let Act::LkW { b, .. } = &mut o.a { let mut x = g.op(Act::W("last".into())); x.y = None; b.push(x) } sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- descriptors (C20)
fn gen_fds(seed: u64) -> Scen {
    let mut g = G::new(seed);
    let mut sc = base("C20", seed);
    sc.cfg.term = match g.r.b(12) { 0 => "no-such-terminal".into(), 1..=5 => "xterm-256color".into(), _ => g.r.pick(ALLTERMS).to_string() };
    (sc.cfg.l, sc.cfg.c) = (g.r.r(1, 5) as u16, g.r.r(1, 10) as u16);
    handlers(&mut sc);
    sc.cfg.err_tty = g.r.p(1, 4);
    let slots = g.r.r(1, 3);
    let nt = if g.r.p(3, 5) { 1 } else { g.r.r(2, 3) };
    let panics = g.r.p(1, 2);
    let mk = |g: &mut G| match g.r.b(12) { 0 => Act::NewT(0), 1 => Act::NewT(9), 2 => { let c = g.pcfg(); Act::NewS(0, c) } _ => Act::NewT(2 + g.r.b(3) as u8) };
    for s in 0..slots { let a = mk(&mut g); let mut o = g.op(a); o.o = s as u8; sc.pre.push(o); if g.r.p(1, 4) { let c = g.pcfg(); let mut o = g.op(Act::WithT(c)); o.o = s as u8; sc.pre.push(o) } }
    for _ in 0..nt {
        let mut v = vec![];
        for _ in 0..g.r.r(1, if nt == 1 { 12 } else { 5 }) {
            let mut one = |g: &mut G, sess: bool| -> Act {
                match g.r.b(18) {
                    0 if panics && sess => Act::Panic,
                    0 | 1 if !sess => mk(g),
                    2 | 3 if !sess => if g.r.p(1, 2) { Act::Drop } else { Act::PDrop },
                    4 | 5 if !sess => { let c = g.pcfg(); Act::WithT(c) }
                    6 | 7 => { let c = g.pcfg(); Act::Pr(c) }
                    8 => Act::Re,
                    9 => Act::Sz,
                    10 => Act::Rf,
                    11..=13 => { let to = Some((0, g.r.log(3_000_000) as u32)); match g.r.b(6) { 0 => Act::Wt(to), 1 => Act::Rw(g.r.log(20) as u32, to), _ => Act::Rd(to) } }
                    _ => { let n = g.short_len(); Act::W(g.text(n)) }
                }
            };
            let s = g.r.b(slots) as u8;
            if g.r.p(1, 4) {
                let n = g.r.r(1, 4);
                let b: Vec<Op> = (0..n).map(|_| { let a = one(&mut g, true); g.op(a) }).collect();
                let tr = g.r.p(1, 4);
                let mut o = if g.r.p(1, 2) { g.op(Act::LkR { tr, b }) } else { g.op(Act::LkW { tr, b }) };
                o.o = s; v.push(o);
            } else { let a = one(&mut g, false); let mut o = g.op(a); o.o = s; v.push(o) }
        }
        sc.th.push(v);
    }
    let v = { let mut x = vec![]; all_ops(&sc.pre, &mut x); let mut y: Vec<u32> = x.iter().map(|o| o.id).collect(); y.extend(ids(&sc)); y };
    for _ in 0..g.r.b(5) {
        let ev = match g.r.b(8) { 0 => Ev::Rs(g.r.r(1, 8) as u16, g.r.r(1, 14) as u16, g.r.b(16) as u8), 1 | 2 => Ev::In(g.r.b(3) as u8, g.text(3).into_bytes()), 3 | 4 => Ev::Hup(g.r.b(3) as u8), _ => Ev::Sig(*g.r.pick(SIGS), g.r.b(4) as u8) };
        if g.r.p(2, 3) { let op = *g.r.pick(&v); let at = pt(&mut g); sc.trig.push(Trig { op, at, ev }) } else { sc.tl.push(Tl { w: When::At(g.r.log(3_000_000)), ev }) }
    }
    preempts(&mut g, &mut sc, if nt > 1 { 8 } else { 0 });
    for _ in 0..g.r.b(5) {
        let op = *g.r.pick(&v);
        let c = *g.r.pick(&[Call::Open, Call::Open, Call::TcGet, Call::TcSet, Call::SigAct, Call::Winsz, Call::Pipe, Call::Fcntl, Call::Write, Call::Write, Call::Read, Call::Select, Call::Close, Call::Close]);
        let k = match c { Call::Write if g.r.p(1, 4) => Fk::Zero, Call::Close | Call::Open if g.r.p(1, 2) => Fk::Eintr, Call::Close => Fk::Err(libc::EIO), _ => Fk::Err(*g.r.pick(&[libc::EIO, libc::EMFILE, libc::ENXIO, libc::EACCES, libc::EAGAIN, libc::ENOTTY, libc::EBADF])) };
        let op = if g.r.p(3, 4) { Some(op) } else { None };
        sc.fault.push(Fault { op, c, nth: g.r.b(3) as u32, cnt: if g.r.p(1, 4) { 1000 } else { g.r.log(3) as u32 }, k });
    }
    g.r = Rng::new(7);
    let mut q = g.op(Act::Quiet); q.y = None; sc.post.push(q);
    for s in 0..slots { let mut o = g.op(Act::Drop); o.y = None; o.o = s as u8; sc.post.push(o) }
    sc
}

// ---------------------------------------------------------------- dispatch
pub fn gen(prop: &str, seed: u64) -> Scen {
    match prop {
        "C01" | "C02" | "C03" => gen_out(prop, seed),
        "C19" => if Rng::new(seed ^ 0x19).p(3, 10) { gen_scr(prop, seed) } else { gen_out(prop, seed) },
        "C04" | "C05" | "C06" | "C07" => gen_scr(prop, seed),
        "C08" | "C09" | "C10" => gen_in(prop, seed),
        "C11" => gen_sig(seed),
        "C12" => gen_tmo(seed),
        "C13" | "C17" => gen_mode(prop, seed),
        "C14" => gen_fail(seed),
        "C15" => gen_end(seed),
        "C16" | "C18" => gen_lock(prop, seed),
        "C20" => gen_fds(seed),
        _ => panic!("no generator for {}", prop),
    }
}
pub fn on_idle(prop: &str) -> fn(&mut World, bool) {
    match prop { "C11" => |w, _| model_sig::asleep(w), "C17" => |w, _| model_prep::asleep(w), "C16" | "C18" => |w, _| model_life::blocked(w), _ => |_, _| {} }
}
pub fn generic(w: &World) -> Option<(String, String)> {
    let injected = all_acts(w.sc).iter().any(|a| matches!(a, Act::Panic | Act::PDrop));
    for (th, m, _) in &w.panics {
        if injected && (m.contains("PoisonError") || m.contains("Poisoned")) { continue; }
        return Some(("panic".into(), format!("thread {} panicked: {}", th, m)));
    }
    if let Some(b) = w.bad.first() { return Some(("descriptor".into(), b.clone())); }
    None
}
pub fn all_acts(sc: &Scen) -> Vec<&Act> { let mut v = vec![]; all_ops(&sc.pre, &mut v); for t in &sc.th { all_ops(t, &mut v) } all_ops(&sc.post, &mut v); v.into_iter().map(|o| &o.a).collect() }
pub fn oracle(w: &mut World) -> Option<(String, String)> {
    if let Some(v) = generic(w) { return Some(v); }
    match w.sc.prop.as_str() {
        "C01" | "C02" | "C03" => model_out::check(w, 0),
        "C19" => if is_scr(w.sc) { model_scr::check(w, 0) } else { model_out::check(w, 0) },
        "C04" | "C05" | "C06" | "C07" => model_scr::check(w, 0),
        "C08" => model_in::check(w, false, false),
        "C09" => model_in::check(w, true, true),
        "C10" => model_in::check(w, false, true),
        "C11" => model_sig::signals(w),
        "C12" => model_sig::timing(w),
        "C13" | "C17" => model_prep::check(w),
        "C14" => model_life::failing(w),
        "C15" => model_life::ended(w),
        "C18" => model_life::locks(w).or_else(|| if w.sc.cfg.snap { model_scr::check(w, 0) } else { None }),
        "C20" => model_life::handles(w),
        _ => None,
    }
}
fn is_scr(s: &Scen) -> bool { s.pre.iter().any(|o| matches!(o.a, Act::NewS(..) | Act::WithT(_))) }
pub fn sane(s: &Scen) -> bool {
    if ((s.cfg.l < 1 || s.cfg.c < 1) && s.prop != "C06") || s.th.len() > 6 { return false; }
    let mut v = vec![]; all_ops(&s.pre, &mut v); for t in &s.th { all_ops(t, &mut v) } all_ops(&s.post, &mut v);
    let mut i: Vec<u32> = v.iter().map(|o| o.id).collect(); let n = i.len(); i.sort(); i.dedup();
    i.len() == n
}
