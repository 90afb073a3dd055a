//! Reference model of input: do the results of the reads tile the stream of bytes that arrived, each decoded correctly?
use crate::hist::*;
use crate::kern::*;
use crate::model_out::term;
use crate::scen::*;
use crate::terms::Term;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// What the bytes at the head of the input are.
#[derive(Clone, Debug, PartialEq)]
pub enum Head {
    /// nothing there, or the beginning of a character
    Nothing,
    /// a complete event of so many bytes; any of the alternatives will do
    Ev(Vec<REv>, usize),
    /// a mouse report with a number left out: an event, or malformed
    Odd(Vec<REv>, usize),
    /// the beginning of a mouse report: an escape key is reported unless more arrives
    Partial,
    /// a malformed mouse report whose bad part ends after so many bytes
    BadMouse(usize),
    /// invalid UTF-8 of so many bytes
    BadUtf8(usize),
}

pub fn char_key(c: char) -> K {
    match c {
        '\u{1b}' => K::Escape, '\u{7f}' => K::Backspace, '\r' | '\n' => K::Enter, '\t' => K::Tab,
        c if (c as u32) < 32 => K::Ctrl(((c as u8) + 64).to_ascii_lowercase() as char),
        c => K::Char(c),
    }
}

fn mouse(b: &[u8]) -> Head {
    // b begins after the introducer of 3 bytes
    let mut v: Vec<Option<u32>> = vec![];
    let mut i = 0;
    let mut empty = false;
    loop {
        let s = i;
        let mut n: Option<u32> = Some(0);
        while i < b.len() && b[i].is_ascii_digit() { n = n.and_then(|n| n.checked_mul(10)).and_then(|n| n.checked_add((b[i] - b'0') as u32)); i += 1 }
        if i >= b.len() { return if v.iter().any(|x| x.is_none()) || n.is_none() { Head::BadMouse(3 + i) } else { Head::Partial } }
        if i == s { empty = true }
        v.push(n);
        let last = v.len() == 3;
        let c = b[i];
        i += 1;
        if !last { if c != b';' { return Head::BadMouse(3 + i); } continue; }
        if c != b'M' && c != b'm' { return Head::BadMouse(3 + i); }
        if v.iter().any(|x| x.is_none()) { return Head::BadMouse(3 + i); }
        let (inp, col, line) = (v[0].unwrap(), v[1].unwrap(), v[2].unwrap());
        if col == 0 || line == 0 { return Head::BadMouse(3 + i); }
        let press = c == b'M';
        let mut md = 0;
        if inp & 8 != 0 { md |= 1 }
        if inp & 16 != 0 { md |= 2 }
        if inp & 4 != 0 { md |= 4 }
        let (l, c) = (line as u64 - 1, col as u64 - 1);
        let x = inp & !28;
        let bt = |k: u8, b: u32| REv::Mouse(l, c, k, b, md);
        let pk = if press { 1 } else { 2 };
        let alts = match x {
            0..=2 => vec![bt(pk, x)],
            3 => vec![bt(pk, 103), bt(2, 103), bt(0, 0)],
            32..=63 => vec![bt(0, 0)],
            64 => vec![bt(3, 0)],
            65 => vec![bt(4, 0)],
            // wheel left and right and further buttons have no documented meaning
            x => vec![bt(0, 0), bt(pk, x.saturating_add(100)), bt(pk, 100 + (x & 3) + 4)],
        };
        if empty { return Head::Odd(alts, 3 + i); }
        return Head::Ev(alts, 3 + i);
    }
}

pub fn decode(t: &Term, b: &[u8]) -> Head {
    if b.is_empty() { return Head::Nothing; }
    let mut best: usize = 0;
    let mut keys: Vec<K> = vec![];
    for (s, k) in t.keys {
        if s.is_empty() || !b.starts_with(s) { continue; }
        if s.len() > best { best = s.len(); keys.clear() }
        if s.len() == best { keys.push(*k) }
    }
    if t.xterm() && b.starts_with(b"\x1b[<") && best <= 3 { return mouse(&b[3..]); }
    if best > 0 { return Head::Ev(keys.into_iter().map(REv::Key).collect(), best); }
    match std::str::from_utf8(&b[..b.len().min(4)]) {
        Ok(s) => { let c = s.chars().next().unwrap(); Head::Ev(vec![REv::Key(char_key(c))], c.len_utf8()) }
        Err(e) => {
            if e.valid_up_to() > 0 { let s = std::str::from_utf8(&b[..e.valid_up_to()]).unwrap(); let c = s.chars().next().unwrap(); return Head::Ev(vec![REv::Key(char_key(c))], c.len_utf8()); }
            match e.error_len() { Some(n) => Head::BadUtf8(n), None => Head::Nothing }
        }
    }
}
/// Could more bytes turn this head into something else?
pub fn ambiguous(t: &Term, b: &[u8]) -> bool {
    t.keys.iter().any(|(s, _)| s.len() > b.len() && s.starts_with(b)) || (t.xterm() && (b"\x1b[<".starts_with(b) || decode(t, b) == Head::Partial))
}

#[derive(Clone, Debug)]
pub struct St { pub r: Rec, err: bool, eintr: bool, hup: bool, sig: bool }
#[derive(Clone, Debug)]
struct Unit { beg: usize, end: usize, steps: Vec<St> }
struct M<'a> { t: &'static Term, s: &'a [u8], lanes: Vec<Vec<Rc<Unit>>>, memo: HashSet<(Vec<usize>, usize)>, strict: bool, consume: bool, tail: bool, best: usize, why: String, visits: u64 }

impl<'a> M<'a> {
    /// Positions after this read, given the position before.
    fn step(&self, st: &St, p: usize) -> Result<Vec<usize>, String> {
        let (a0, a1) = (st.r.ab[0], st.r.ae.first().copied().unwrap_or(self.s.len()));
        let lo = if self.strict && !st.err { a0.max(p) } else { p };
        let show = |a: usize| { let b = &self.s[p.min(a)..a]; format!("{:?}", String::from_utf8_lossy(&b[..b.len().min(24)])) };
        let mut out: Vec<usize> = vec![];
        // a read that fails before anything arrived, with a fault of its own, consumes nothing
        match (&st.r.act, &st.r.res) {
            (_, Res::Skip) => out.push(p),
            (_, Res::Panic(_)) => { for k in p..=a1 { out.push(k) } }
            (Act::Wt(_), Res::Bool(b)) => {
                out.push(p);
                if self.strict && !*b && !st.err {
                    if let Head::Ev(..) | Head::Odd(..) | Head::BadUtf8(_) | Head::BadMouse(_) | Head::Partial = decode(self.t, &self.s[p..a0.max(p)]) { return Err(format!("wait_event (op {}) found nothing although {} had arrived", st.r.id, show(a0))); }
                }
                if self.strict && *b && !st.sig && !st.hup && a1 <= p { return Err(format!("wait_event (op {}) reported input although none had arrived and no signal", st.r.id)); }
            }
            (Act::Wt(_), Res::Err(..)) => { out.push(p); if !st.err { if let Head::BadUtf8(_) = decode(self.t, &self.s[p..a1.max(p)]) {} else { return Err(format!("wait_event (op {}) failed with {:?} for no reason", st.r.id, st.r.res)); } } }
            (Act::Rd(_), Res::Ev(None)) => {
                out.push(p);
                if self.strict && !st.err && !st.sig {
                    if let Head::Ev(..) | Head::Odd(..) = decode(self.t, &self.s[p..a0.max(p)]) { return Err(format!("read_event (op {}) returned nothing although {} had arrived", st.r.id, show(a0))); }
                }
                if let Head::BadMouse(n) | Head::Odd(_, n) = decode(self.t, &self.s[p..a1.max(p)]) { out.push(p + n) }
            }
            (Act::Rd(_), Res::Ev(Some(REv::Resize(..) | REv::Sig(_) | REv::NoEvent))) | (Act::Rw(..), Res::Ev(Some(REv::Resize(..) | REv::Sig(_) | REv::NoEvent))) => out.push(p),
            (Act::Rd(_), Res::Ev(Some(e))) => {
                let mut seen = String::new();
                for a in lo.max(p + 1)..=a1.max(p) {
                    match decode(self.t, &self.s[p..a]) {
                        Head::Ev(alts, n) => { if alts.contains(e) { out.push(p + n) } else { seen = format!("{:?}", alts) } }
                        Head::Odd(alts, n) if alts.contains(e) => out.push(p + n),
                        Head::Partial | Head::Odd(..) | Head::BadMouse(_) if *e == REv::Key(K::Escape) => out.push(p + 1),
                        h => seen = format!("{:?}", h),
                    }
                }
                if out.is_empty() { return Err(format!("read_event (op {}) returned {:?} but the input was {} (which is {})", st.r.id, e, show(a1), seen)); }
            }
            (Act::Rd(_), Res::Err(code, msg)) => {
                let at = decode(self.t, &self.s[p..a1.max(p)]);
                match at {
                    Head::BadUtf8(n) if !st.err || *code == -1 => { for k in 1..=n { out.push(p + k) } if st.err || st.hup && *code != -1 || !self.consume { out.push(p) } }
                    Head::BadMouse(n) | Head::Odd(_, n) if *code == -1 => { for k in 1..=n { out.push(p + k) } }
                    _ if st.err || st.hup => out.push(p),
                    _ => {
                        // the head seen may have been a part of what arrived
                        return Err(format!("read_event (op {}) failed ({} {}) but the input was {}", st.r.id, code, msg, show(a1)));
                    }
                }
            }
            (Act::Rw(n, _), Res::Ev(Some(REv::Raw(v)))) => {
                if v.len() > *n as usize { return Err(format!("read_raw (op {}) returned more than asked for", st.r.id)); }
                if p + v.len() > a1 || self.s[p..p + v.len()] != v[..] { return Err(format!("read_raw (op {}) returned {:?} but the input was {}", st.r.id, String::from_utf8_lossy(v), show(a1.max(p)))); }
                if self.strict && v.is_empty() && *n > 0 && !st.hup { return Err(format!("read_raw (op {}) returned no bytes", st.r.id)); }
                out.push(p + v.len());
            }
            (Act::Rw(n, _), Res::Ev(None)) => {
                out.push(p);
                if self.strict && !st.err && !st.sig && a0 > p && *n > 0 { return Err(format!("read_raw (op {}) returned nothing although {} had arrived", st.r.id, show(a0))); }
            }
            (Act::Rw(..), Res::Err(..)) => { out.push(p); if !st.err && !st.hup { return Err(format!("read_raw (op {}) failed with {:?} for no reason", st.r.id, st.r.res)); } }
            (a, x) => return Err(format!("op {} ({:?}) returned {:?}", st.r.id, a, x)),
        }
        out.sort(); out.dedup();
        Ok(out)
    }
    fn fail(&mut self, depth: usize, why: String) { if depth >= self.best { self.best = depth; self.why = why } }
    fn run(&mut self, ix: &mut Vec<usize>, p: usize) -> bool {
        self.visits += 1;
        if self.visits > 400_000 { return true; }
        if !self.memo.insert((ix.clone(), p)) { return false; }
        let depth: usize = ix.iter().sum();
        let mut all = true;
        let lim = (0..ix.len()).filter_map(|i| self.lanes[i].get(ix[i]).map(|u| u.end)).min().unwrap_or(usize::MAX);
        for i in 0..ix.len() {
            let u = match self.lanes[i].get(ix[i]) { Some(u) => u.clone(), None => continue };
            all = false;
            if u.beg > lim { continue; }
            let mut ps = vec![p];
            let mut why = String::new();
            for st in &u.steps {
                let mut nx = vec![];
                for q in ps { match self.step(st, q) { Ok(v) => nx.extend(v), Err(e) => why = e } }
                nx.sort(); nx.dedup();
                ps = nx;
                if ps.is_empty() { break; }
            }
            if ps.is_empty() { self.fail(depth, why); continue; }
            ix[i] += 1;
            for q in ps { if self.run(ix, q) { return true; } }
            ix[i] -= 1;
        }
        if all {
            if self.tail && p != self.s.len() {
                let n = self.s.len();
                let m = format!("{} of {} bytes that arrived were never reported: {:?}", n.saturating_sub(p), n, String::from_utf8_lossy(&self.s[p.min(n)..]));
                self.fail(depth + 1, m);
                return false;
            }
            return true;
        }
        false
    }
}

fn reads(a: &Act) -> bool { matches!(a, Act::Rd(_) | Act::Wt(_) | Act::Rw(..)) }

/// `strict`: what has arrived when a read begins must be seen by it. `consume`: an error about malformed input consumes it.
pub fn check(w: &World, strict: bool, consume: bool) -> Option<(String, String)> {
    let rs = recs(w);
    let t = term(&w.sc.cfg.term);
    let nth = w.sc.th.len() + 1;
    let hups: Vec<usize> = w.hist.iter().enumerate().filter(|(_, h)| matches!(h.h, H::Hup { .. })).map(|x| x.0).collect();
    let hand: Vec<usize> = w.hist.iter().enumerate().filter(|(_, h)| matches!(h.h, H::Hand { kind: 9, .. })).map(|x| x.0).collect();
    let mk = |r: &Rec| {
        let end = r.end.min(w.hist.len() - 1);
        let f = |e: bool| w.hist[r.beg..=end].iter().any(|h| match &h.h { H::Flt { c, k, th, .. } if *th == r.th => (matches!(k, Fk::Err(_) | Fk::Zero) == e) && matches!(c, Call::Read | Call::Select | Call::TcSet | Call::TcGet | Call::SigAct | Call::Winsz | Call::Write | Call::Pipe), _ => false });
        let hup = hups.first().map_or(false, |i| *i < end);
        St { r: r.clone(), err: f(true), eintr: f(false), hup, sig: hand.first().map_or(false, |i| *i < end) }
    };
    let mut lanes: Vec<Vec<Rc<Unit>>> = vec![vec![]; nth];
    let mut drained = false;
    for (k, r) in rs.iter().enumerate() {
        if matches!(r.act, Act::Drain) && r.res != Res::Skip { drained = true; continue; }
        if r.end == usize::MAX { continue; }
        if let Act::LkR { .. } = r.act {
            if r.up.is_empty() {
                let steps: Vec<St> = rs[k + 1..].iter().filter(|x| x.up.contains(&r.id) && reads(&x.act)).map(|x| mk(x)).collect();
                if !steps.is_empty() { lanes[r.th.min(nth - 1)].push(Rc::new(Unit { beg: r.beg, end: r.end, steps })) }
            }
            continue;
        }
        if !reads(&r.act) { continue; }
        if r.up.iter().any(|u| rs.iter().any(|x| x.id == *u && matches!(x.act, Act::LkR { .. }))) { continue; }
        lanes[r.th.min(nth - 1)].push(Rc::new(Unit { beg: r.beg, end: r.end, steps: vec![mk(r)] }));
    }
    let n = lanes.len();
    let mut m = M { t, s: &w.ttys[0].stream, lanes, memo: HashSet::new(), strict, consume, tail: drained, best: 0, why: String::new(), visits: 0 };
    if m.run(&mut vec![0; n], 0) { None } else { Some(("input".into(), m.why)) }
}

/// For histories with a single reading thread: the least number of bytes consumed before each read.
pub fn positions(w: &World) -> Option<HashMap<u32, usize>> {
    let rs = recs(w);
    let t = term(&w.sc.cfg.term);
    let m = M { t, s: &w.ttys[0].stream, lanes: vec![], memo: HashSet::new(), strict: false, consume: true, tail: false, best: 0, why: String::new(), visits: 0 };
    let mut ps = vec![0];
    // what was consumed is at most this
    let mut out = HashMap::new();
    for r in rs.iter().filter(|r| reads(&r.act) && r.end != usize::MAX) {
        out.insert(r.id, *ps.iter().max().unwrap());
        let st = St { r: r.clone(), err: true, eintr: false, hup: false, sig: true };
        let mut nx = vec![];
        for q in &ps { if let Ok(v) = m.step(&st, *q) { nx.extend(v) } }
        nx.sort(); nx.dedup();
        if nx.is_empty() { return None; }
        ps = nx;
    }
    Some(out)
}
