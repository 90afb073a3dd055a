//! Terminal emulator: what a device with xterm-like behaviour shows after receiving some bytes.
use crate::scen::At;

/// Display width used by the emulator and by the reference models (independent of the crate under test).
/// Scenario texts only use characters this table knows.
pub fn width(c: char) -> usize {
    let u = c as u32;
    if combining(c) { return 0; }
    match u {
        0..=0x1f | 0x7f..=0x9f => 0,
        0xad | 0x61c | 0x200b..=0x200f | 0x2060 | 0x1160..=0x11ff | 0x180e | 0xfeff | 0x591..=0x5bd => 0,
        0x303f => 1,
        0x1100..=0x115f | 0x231a | 0x26a1 | 0x2e80..=0x303e | 0x3041..=0x33ff | 0x3400..=0x4dbf | 0x4e00..=0x9fff | 0xa000..=0xa4cf
        | 0xac00..=0xd7a3 | 0xf900..=0xfaff | 0xfe30..=0xfe6f | 0xff00..=0xff60 | 0xffe0..=0xffe6 | 0x20000..=0x3fffd => 2,
        0x1f300..=0x1f64f => 2,
        _ => 1,
    }
}
/// Combining marks in the scenario alphabet.
pub fn combining(c: char) -> bool { matches!(c as u32, 0x300..=0x36f | 0x483..=0x489 | 0xe31 | 0x20d0..=0x20ff | 0x302a | 0x3099 | 0xfe00..=0xfe0f | 0xfe20..=0xfe2f | 0x1d165 | 0xe0101) }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Cell { pub ch: char, pub comb: Vec<char>, pub at: At, pub w: u8 /* 0 narrow 1 wide head 2 wide tail */ }
impl Cell { pub fn blank() -> Cell { Cell { ch: ' ', comb: vec![], at: At::default(), w: 0 } } }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Grid { pub l: usize, pub c: usize, pub cells: Vec<Cell>, pub cur: (usize, usize), pub wrap_pending: bool }
impl Grid {
    pub fn new(l: usize, c: usize) -> Grid { Grid { l, c, cells: vec![Cell::blank(); l * c], cur: (0, 0), wrap_pending: false } }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for l in 0..self.l {
            s.push('|');
            for c in 0..self.c { let k = &self.cells[l * self.c + c]; if k.w != 2 { s.push(k.ch); for m in &k.comb { s.push(*m) } } }
            s.push('|');
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum It {
    T(char, At), Ctl(u8), Mv(u8, u64), Cr, Home, ErS, ErL, ErAll, Vis(bool), Bad, Unk(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Modes { pub appcur: bool, pub keypad: bool, pub vis: bool, pub mouse: Vec<u16>, pub track: u16, pub alt: bool }

#[derive(Clone)]
enum Ps { Gnd, Esc, EscParen, Csi, Osc }

pub struct Emu {
    pub g: Grid,
    main: Option<Grid>,
    pub at: At,
    pub m: Modes,
    pub items: Vec<It>,
    pub keep_items: bool,
    saved: (usize, usize),
    region: (usize, usize),
    ps: Ps,
    buf: Vec<u8>,
    u8buf: Vec<u8>,
    autowrap: bool,
    pub scrolled: u64,
    /// erased cells take the current background colour
    pub bce: bool,
    /// the window changed size, so a region computed before may come late
    pub resized: bool,
    /// give the blank left of a cut wide character default attributes
    pub plain_cut: bool,
}

impl Emu {
    pub fn new(l: usize, c: usize) -> Emu {
        Emu { g: Grid::new(l, c), main: None, at: At::default(), m: Modes { vis: true, ..Modes::default() }, items: vec![], keep_items: true,
            saved: (0, 0), region: (0, l.max(1) - 1), ps: Ps::Gnd, buf: vec![], u8buf: vec![], autowrap: true, scrolled: 0, bce: false, resized: false, plain_cut: false }
    }
    /// Lines of a scrolling region that is not the whole screen.
    pub fn partly(&self) -> Option<(usize, usize)> { if self.region == (0, self.g.l.max(1) - 1) { None } else { Some(self.region) } }
    /// What the normal screen shows (or will show again), and the cursor in it.
    pub fn normal(&self) -> (u64, (usize, usize)) {
        let mut h = 0u64;
        let mut add = |x: u64| h = (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
        let g = match &self.main { Some(m) if self.m.alt => m, _ => &self.g };
        for c in &g.cells {
            let col = |c: Option<u8>| c.map_or(0xff, |c| c as u64);
            add((c.ch as u64) << 32 | col(c.at.f) << 24 | col(c.at.b) << 16 | (c.at.s as u64) << 8 | c.w as u64);
            for m in &c.comb { add(*m as u64) }
        }
        (h, if self.m.alt { self.saved } else { self.g.cur })
    }
    /// Contents from before the program was started.
    pub fn fill(&mut self) {
        for (i, c) in self.g.cells.iter_mut().enumerate() { if i % 7 != 3 { c.ch = (b'A' + (i % 26) as u8) as char } }
        self.g.cur = (self.g.l.saturating_sub(1), self.g.c / 2);
    }
    fn it(&mut self, i: It) { if self.keep_items { self.items.push(i) } }
    pub fn partial(&self) -> bool { !matches!(self.ps, Ps::Gnd) || !self.u8buf.is_empty() }

    pub fn feed(&mut self, bytes: &[u8]) { for &b in bytes { self.byte(b) } }

    fn byte(&mut self, b: u8) {
        match self.ps {
            Ps::Gnd => {
                if !self.u8buf.is_empty() {
                    if b & 0xc0 == 0x80 {
                        self.u8buf.push(b);
                        let need = match self.u8buf[0] { 0xc0..=0xdf => 2, 0xe0..=0xef => 3, _ => 4 };
                        if self.u8buf.len() == need {
                            let v = std::mem::take(&mut self.u8buf);
                            match std::str::from_utf8(&v) { Ok(s) => { let ch = s.chars().next().unwrap(); self.put(ch) } Err(_) => self.it(It::Bad) }
                        }
                        return;
                    }
                    self.u8buf.clear();
                    self.it(It::Bad);
                }
                match b {
                    0x1b => { self.ps = Ps::Esc; self.buf.clear() }
                    b'\r' => { self.g.cur.1 = 0; self.g.wrap_pending = false; self.it(It::Cr) }
                    b'\n' => { self.it(It::Ctl(b)); self.lf(); if true { self.g.cur.1 = 0 } self.g.wrap_pending = false }
                    8 => { self.mv(2, 1); }
                    9 => { self.it(It::Ctl(9)); if self.g.c > 0 { self.g.cur.1 = ((self.g.cur.1 / 8 + 1) * 8).min(self.g.c - 1) } }
                    15 | 14 | 0 => {}
                    1..=31 | 127 => self.it(It::Ctl(b)),
                    32..=126 => self.put(b as char),
                    0xc2..=0xf4 => self.u8buf.push(b),
                    _ => self.it(It::Bad),
                }
            }
            Ps::Esc => match b {
                b'[' => { self.ps = Ps::Csi; self.buf.clear() }
                b'(' | b')' => self.ps = Ps::EscParen,
                b']' => { self.ps = Ps::Osc }
                b'=' => { self.m.keypad = true; self.ps = Ps::Gnd }
                b'>' => { self.m.keypad = false; self.ps = Ps::Gnd }
                b'7' => { self.saved = self.g.cur; self.ps = Ps::Gnd }
                b'8' => { let s = self.saved; self.go(s.0, s.1); self.ps = Ps::Gnd }
                b'M' => { self.ps = Ps::Gnd; self.mv(0, 1) }
                0x1b => self.it(It::Unk("ESC ESC".into())),
                _ => { self.ps = Ps::Gnd; self.it(It::Unk(format!("ESC {:#x}", b))) }
            },
            Ps::EscParen if b == 0x1b => { self.ps = Ps::Esc; self.it(It::Unk("cut ESC (".into())) }
            Ps::EscParen => { self.ps = Ps::Gnd; if b != b'B' && b != b'0' { self.it(It::Unk(format!("ESC ( {:#x}", b))) } }
            Ps::Osc => if b == 7 { self.ps = Ps::Gnd },
            Ps::Csi => match b {
                0x20..=0x3f => { self.buf.push(b); if self.buf.len() > 64 { self.ps = Ps::Gnd; self.it(It::Unk("long CSI".into())) } }
                0x40..=0x7e => { self.ps = Ps::Gnd; let v = std::mem::take(&mut self.buf); self.csi(&v, b) }
                0x1b => { self.ps = Ps::Esc; let v = std::mem::take(&mut self.buf); self.it(It::Unk(format!("cut CSI {}", String::from_utf8_lossy(&v)))) }
                _ => { self.ps = Ps::Gnd; let v = std::mem::take(&mut self.buf); self.it(It::Unk(format!("bad CSI {} {:#x}", String::from_utf8_lossy(&v), b))) }
            },
        }
    }

    fn go(&mut self, l: usize, c: usize) {
        self.g.cur = (l.min(self.g.l.max(1) - 1), c.min(self.g.c.max(1) - 1));
        self.g.wrap_pending = false;
    }
    fn mv(&mut self, dir: u8, n: u64) {
        self.it(It::Mv(dir, n));
        let (l, c) = self.g.cur;
        let n = n.min(1 << 20) as usize;
        match dir { 0 => self.go(l.saturating_sub(n), c), 1 => self.go(l + n, c), 2 => self.go(l, c.saturating_sub(n)), _ => self.go(l, c + n) }
    }
    fn lf(&mut self) {
        if self.g.l == 0 { return; }
        if self.g.cur.0 == self.region.1 { self.scroll() } else if self.g.cur.0 + 1 < self.g.l { self.g.cur.0 += 1 }
    }
    fn scroll(&mut self) {
        self.scrolled += 1;
        let (t, b) = self.region; let c = self.g.c;
        if t > b || b >= self.g.l { return; }
        self.g.cells.drain(t * c..(t + 1) * c);
        for i in 0..c { let k = self.blank(); self.g.cells.insert(b * c + i, k) }
    }
    fn cut_at(&self, i: usize) -> At { if self.plain_cut { At::default() } else { self.g.cells[i].at } }
    fn blank(&self) -> Cell { if self.bce { Cell { at: At { b: self.at.b, ..At::default() }, ..Cell::blank() } } else { Cell::blank() } }
    fn split(&mut self, i: usize) {
        // a half of a wide character is about to be overwritten: its other half becomes a blank
        let k = self.g.cells[i].w;
        if k == 1 && i + 1 < self.g.cells.len() && self.g.cells[i + 1].w == 2 { self.g.cells[i + 1] = Cell { at: self.cut_at(i), ..Cell::blank() } }
        if k == 2 && i > 0 && self.g.cells[i - 1].w == 1 { self.g.cells[i - 1] = Cell { at: self.cut_at(i), ..Cell::blank() } }
    }
    fn put(&mut self, ch: char) {
        let at = self.at;
        self.it(It::T(ch, at));
        if self.g.l == 0 || self.g.c == 0 { return; }
        let w = width(ch);
        if w == 0 {
            if combining(ch) {
                let (l, c) = self.g.cur;
                let mut i = l * self.g.c + c;
                if !self.g.wrap_pending { if c == 0 { return; } i -= 1; }
                if self.g.cells[i].w == 2 { i -= 1 }
                self.g.cells[i].comb.push(ch);
            }
            return;
        }
        if self.g.wrap_pending && self.autowrap { self.lf(); self.g.cur.1 = 0; self.g.wrap_pending = false; }
        if w == 2 && self.g.c >= 2 && self.g.cur.1 == self.g.c - 1 { self.lf(); self.g.cur.1 = 0; }
        let (l, c) = self.g.cur;
        let i = l * self.g.c + c;
        self.split(i);
        if w == 2 && c + 1 < self.g.c {
            self.split(i + 1);
            self.g.cells[i] = Cell { ch, comb: vec![], at, w: 1 };
            self.g.cells[i + 1] = Cell { ch: ' ', comb: vec![], at, w: 2 };
        } else {
            self.g.cells[i] = Cell { ch, comb: vec![], at, w: 0 };
        }
        let nc = c + w;
        if nc >= self.g.c { self.g.cur.1 = self.g.c - 1; self.g.wrap_pending = true } else { self.g.cur.1 = nc }
    }
    fn erase(&mut self, a: usize, b: usize) {
        if a >= b { return; }
        let n = self.g.cells.len();
        let b = b.min(n);
        if a < b { self.split(a); self.split(b - 1); }
        for i in a..b { self.g.cells[i] = self.blank() }
    }

    fn csi(&mut self, p: &[u8], fin: u8) {
        let (privm, rest) = match p.first() { Some(&x) if (0x3c..=0x3f).contains(&x) => (x, &p[1..]), _ => (0, p) };
        if rest.iter().any(|b| !(b.is_ascii_digit() || *b == b';')) {
            self.it(It::Unk(format!("CSI {} {}", String::from_utf8_lossy(p), fin as char)));
            return;
        }
        let txt = std::str::from_utf8(rest).unwrap();
        let ps: Vec<Option<u64>> = if txt.is_empty() { vec![] } else { txt.split(';').map(|x| x.parse().ok()).collect() };
        let arg = |i: usize, d: u64| -> u64 { match ps.get(i) { Some(Some(n)) => *n, _ => d } };
        let cnt = |i: usize| arg(i, 1).max(1);
        let unk = |s: &mut Emu| s.it(It::Unk(format!("CSI {} {}", String::from_utf8_lossy(p), fin as char)));
        match (privm, fin) {
            (0, b'm') => self.sgr(&ps),
            (0, b'A') => self.mv(0, cnt(0)),
            (0, b'B') => self.mv(1, cnt(0)),
            (0, b'C') => self.mv(3, cnt(0)),
            (0, b'D') => self.mv(2, cnt(0)),
            (0, b'G') if cnt(0) == 1 => { self.go(self.g.cur.0, 0); self.it(It::Cr) }
            (0, b'H') | (0, b'f') => {
                let (l, c) = (cnt(0) as usize - 1, cnt(1) as usize - 1);
                self.go(l.min(1 << 20), c.min(1 << 20));
                if l == 0 && c == 0 { self.it(It::Home) } else { self.it(It::Unk(format!("CUP {};{}", l, c))) }
            }
            (0, b'J') => match arg(0, 0) {
                0 => { let (l, c) = self.g.cur; let a = l * self.g.c + c; let n = self.g.cells.len(); self.erase(a, n); self.it(It::ErS) }
                2 => { let n = self.g.cells.len(); self.erase(0, n); self.it(It::ErAll) }
                _ => unk(self),
            },
            (0, b'K') => match arg(0, 0) {
                0 => { let (l, c) = self.g.cur; let w = self.g.c; self.erase(l * w + c, l * w + w); self.it(It::ErL) }
                _ => unk(self),
            },
            (0, b'r') => {
                let t = cnt(0) as usize - 1;
                let b = (arg(1, self.g.l as u64) as usize).min(self.g.l).max(1) - 1;
                if t < b || self.g.l <= 1 || self.resized { if t < b { self.region = (t, b); self.go(0, 0) } } // xterm ignores a region of fewer than two lines
                else { self.it(It::Unk("empty scroll region".into())) }
            }
            (0, b't') => {}
            (0, b'h') | (0, b'l') => if ps.iter().any(|x| *x != Some(34) && *x != Some(4)) { unk(self) },
            (b'?', b'c') => {}
            (b'?', b'h') | (b'?', b'l') => {
                let on = fin == b'h';
                for x in &ps { match x.unwrap_or(0) {
                    1 => self.m.appcur = on,
                    7 => self.autowrap = on,
                    12 => {}
                    25 => { self.m.vis = on; self.it(It::Vis(on)) }
                    n @ (9 | 1000 | 1001 | 1002 | 1003 | 1005 | 1006 | 1015 | 1016) => {
                        let n = n as u16;
                        if on { if !self.m.mouse.contains(&n) { self.m.mouse.push(n); self.m.mouse.sort() } } else { self.m.mouse.retain(|x| *x != n) }
                        // a terminal knows one tracking mode at a time: the last one set
                        if matches!(n, 9 | 1000..=1003) { self.m.track = if on { n } else { 0 } }
                    }
                    n @ (47 | 1047 | 1049) => {
                        if on != self.m.alt {
                            self.m.alt = on;
                            if on {
                                if n == 1049 { self.saved = self.g.cur }
                                let blank = Grid { cur: self.g.cur, ..Grid::new(self.g.l, self.g.c) };
                                self.main = Some(std::mem::replace(&mut self.g, blank));
                            } else {
                                let cur = self.g.cur;
                                if let Some(mut m) = self.main.take() {
                                    if (m.l, m.c) != (self.g.l, self.g.c) { resize_grid(&mut m, self.g.l, self.g.c, 0) }
                                    self.g = m;
                                }
                                self.go(cur.0, cur.1);
                                if n == 1049 { let s = self.saved; self.go(s.0, s.1) }
                            }
                        }
                    }
                    _ => { unk(self); return }
                } }
            }
            _ => unk(self),
        }
    }
    fn sgr(&mut self, ps: &[Option<u64>]) {
        if ps.is_empty() { self.at = At::default(); return; }
        let mut i = 0;
        while i < ps.len() {
            let n = ps[i].unwrap_or(0);
            match n {
                0 => self.at = At::default(),
                1 => self.at.s |= 1, 22 => self.at.s &= !1,
                3 => self.at.s |= 2, 23 => self.at.s &= !2,
                7 => self.at.s |= 4, 27 => self.at.s &= !4,
                4 => self.at.s |= 8, 24 => self.at.s &= !8,
                30..=37 => self.at.f = Some((n - 30) as u8),
                90..=97 => self.at.f = Some((n - 90 + 8) as u8),
                39 => self.at.f = None,
                40..=47 => self.at.b = Some((n - 40) as u8),
                100..=107 => self.at.b = Some((n - 100 + 8) as u8),
                49 => self.at.b = None,
                38 | 48 => {
                    if ps.get(i + 1) == Some(&Some(5)) {
                        let c = ps.get(i + 2).copied().flatten().unwrap_or(0) as u8;
                        if n == 38 { self.at.f = Some(c) } else { self.at.b = Some(c) }
                        i += 2;
                    } else { self.it(It::Unk("SGR 38".into())) }
                }
                10 => {}
                _ => self.it(It::Unk(format!("SGR {}", n))),
            }
            i += 1;
        }
    }
    /// The window got a new size; what happens to the contents is up to the device.
    pub fn resize(&mut self, l: usize, c: usize, variant: u8) {
        self.resized = true;
        resize_grid(&mut self.g, l, c, variant);
        self.region = (0, l.max(1) - 1);
        let cur = self.g.cur;
        self.go(cur.0, cur.1);
    }
}

fn resize_grid(g: &mut Grid, l: usize, c: usize, variant: u8) {
    let mut n = Grid::new(l, c);
    n.cur = g.cur;
    match variant % 4 {
        0 => for y in 0..l.min(g.l) { for x in 0..c.min(g.c) { n.cells[y * c + x] = g.cells[y * g.c + x].clone() } },
        1 => for k in &mut n.cells { k.ch = '#'; k.at = At { f: Some(1), b: Some(2), s: 5 } },
        2 => {}
        _ => { let m = n.cells.len().min(g.cells.len()); for i in 0..m { n.cells[i] = g.cells[g.cells.len() - 1 - i].clone() }
               n.cur = (g.cur.1, g.cur.0) }
    }
    for i in 0..n.cells.len() {
        let col = i % c.max(1);
        let ok = match n.cells[i].w { 1 => col + 1 < c && n.cells[i + 1].w == 2, 2 => col > 0 && n.cells[i - 1].w == 1, _ => true };
        if !ok { n.cells[i] = Cell::blank() }
    }
    *g = n;
}
