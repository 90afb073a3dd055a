//! Reference model of Screen: a screen buffer defined by the documented operations, and the search for an order of the
//! operations that explains every successful refresh.
use crate::emu::{combining, width, Grid};
use crate::exec::mac_model;
use crate::hist::*;
use crate::kern::*;
use crate::model_out::{attr, mask, norm, term};
use crate::scen::*;
use crate::terms::Term;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Mc { pub ch: char, pub comb: Vec<char>, pub at: At, /** other acceptable attributes (blanked half of a wide character) */ pub alt: Option<At>, pub w: u8 }
impl Mc { fn blank() -> Mc { Mc { ch: ' ', comb: vec![], at: At::default(), alt: None, w: 0 } } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Scr { pub l: usize, pub c: usize, pub cells: Vec<Mc>, pub cur: (u64, u64), pub at: At, /** history index at which the device size was last looked at */ pub since: usize }
struct Oob;

impl Scr {
    pub fn new(l: usize, c: usize, since: usize) -> Scr { Scr { l, c, cells: vec![Mc::blank(); l * c], cur: (0, 0), at: At::default(), since } }
    fn oob(&self, p: (u64, u64)) -> bool { p.0 >= self.l as u64 || p.1 >= self.c as u64 }
    fn ix(&self, p: (u64, u64)) -> usize { p.0 as usize * self.c + p.1 as usize }
    /// Cell i is about to be overwritten: the rest of a wide character it belongs to becomes blank.
    fn unsplit(&mut self, i: usize) {
        let at = self.cells[i].at;
        match self.cells[i].w { 1 => self.cells[i + 1] = Mc { alt: Some(at), ..Mc::blank() }, 2 => { let at = self.cells[i - 1].at; self.cells[i - 1] = Mc { alt: Some(at), ..Mc::blank() } } _ => {} }
    }
    fn set(&mut self, i: usize, ch: char, w: u8) { self.cells[i] = Mc { ch, comb: vec![], at: self.at, alt: None, w } }
    fn ch(&mut self, ch: char) -> Result<(), Oob> {
        match ch {
            '\t' => {
                if self.oob(self.cur) { return Err(Oob); }
                let n = (self.c as u64 - self.cur.1).min(8 - self.cur.1 % 8);
                for _ in 0..n { self.ch(' ')? }
            }
            '\r' => self.cur.1 = 0,
            '\n' => self.cur = (self.cur.0.saturating_add(1), 0),
            c if combining(c) => {
                let p = if self.cur.1 == 0 { if self.cur.0 == 0 { return Ok(()); } (self.cur.0 - 1, (self.c as u64).saturating_sub(1)) } else { (self.cur.0, self.cur.1 - 1) };
                if self.oob(p) { return Err(Oob); }
                let mut i = self.ix(p);
                if self.cells[i].w == 2 { i -= 1 }
                self.cells[i].comb.push(c);
            }
            c if width(c) == 0 => {}
            c => {
                if self.oob(self.cur) { return Err(Oob); }
                let w = width(c);
                if w > self.c { return Ok(()); }
                if self.cur.1 as usize + w > self.c {
                    let i = self.ix(self.cur);
                    self.unsplit(i);
                    self.set(i, ' ', 0);
                    self.cur = (self.cur.0 + 1, 0);
                    if self.oob(self.cur) { return Err(Oob); }
                }
                let i = self.ix(self.cur);
                self.unsplit(i);
                if w == 2 { self.unsplit(i + 1); self.set(i, c, 1); self.set(i + 1, ' ', 2) } else { self.set(i, c, 0) }
                self.cur.1 += w as u64;
                if self.cur.1 >= self.c as u64 { self.cur = (self.cur.0 + 1, 0) }
            }
        }
        Ok(())
    }
    fn text(&mut self, s: &str) { for c in s.chars() { if self.ch(c).is_err() { return; } } }
    pub fn resize(&mut self, l: usize, c: usize, since: usize) {
        let mut n = vec![Mc::blank(); l * c];
        for y in 0..l.min(self.l) { for x in 0..c.min(self.c) {
            let k = self.cells[y * self.c + x].clone();
            n[y * c + x] = if k.w == 1 && x + 1 >= c { Mc { alt: Some(k.at), ..Mc::blank() } } else { k };
        } }
        self.l = l; self.c = c; self.cells = n; self.since = since;
    }
    pub fn apply(&mut self, a: &Act) {
        if let Some(x) = attr(a, self.at) { self.at = x; return; }
        match a {
            Act::W(s) | Act::Fm(s) => self.text(s),
            Act::Ch(c) => { let _ = self.ch(*c); }
            Act::St(a, s) => { self.at = norm(*a); self.text(s); self.at = At::default() }
            Act::WAt(l, c, s) => if !self.oob((*l, *c)) { self.cur = (*l, *c); self.text(s) },
            Act::StAt(l, c, a, s) => if !self.oob((*l, *c)) { self.cur = (*l, *c); self.at = norm(*a); self.text(s); self.at = At::default() },
            Act::Cur(l, c) => self.cur = (*l, *c),
            Act::Nl(c) => self.cur = (self.cur.0.saturating_add(1), *c),
            Act::ClrS => for k in &mut self.cells { *k = Mc::blank() },
            Act::Mac { t, s, a, n } => for x in mac_model(*t, s, *a, *n) { self.apply(&x) },
            _ => {}
        }
    }
    /// How the display differs from this buffer.
    pub fn differs(&self, t: &Term, g: &Grid) -> Option<String> {
        if (g.l, g.c) != (self.l, self.c) { return None; }
        for i in 0..self.cells.len() {
            let (m, k) = (&self.cells[i], &g.cells[i]);
            if m.w == 2 { if k.w != 2 { return Some(format!("cell ({}, {}) should be the right half of a wide character, shows {:?}", i / self.c, i % self.c, k)); } continue; }
            let same = m.w == k.w && m.ch == k.ch && m.comb == k.comb && (k.at == mask(t, m.at) || m.alt.map_or(false, |a| k.at == mask(t, a)));
            if !same { return Some(format!("cell ({}, {}) should be {:?}{:?} with {:?}, shows {:?}", i / self.c, i % self.c, m.ch, m.comb, mask(t, m.at), k)); }
        }
        if self.l > 0 && self.c > 0 {
            let want = if self.oob(self.cur) { (self.l - 1, self.c - 1) } else { (self.cur.0 as usize, self.cur.1 as usize) };
            if g.cur != want { return Some(format!("cursor should be at {:?}, is at {:?}", want, g.cur)); }
        }
        None
    }
    fn hash64(&self) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); self.hash(&mut h); h.finish() }
}

#[derive(Clone, Debug)]
enum St {
    Do(Act),
    /// a successful refresh; indices into the snapshots one of which must show the buffer, and the end of the operation
    Show(Vec<usize>, usize),
    Cur(u64, u64), Sz(u64, u64),
    Resize(u64, u64, usize),
    /// from here on a new size read meanwhile may have been applied (history index)
    Cut(usize),
}
#[derive(Clone, Debug)]
struct Unit { beg: usize, end: usize, steps: Vec<(u32, St)>, /** part of the same session as the unit before it */ cont: bool, resize: bool }

struct M<'a> { t: &'static Term, lanes: Vec<Vec<Rc<Unit>>>, snaps: Vec<(usize, &'a Grid)>, rs: Vec<usize>, memo: HashSet<(Vec<usize>, u64)>, best: usize, why: String, visits: u64, compared: u64, last: Option<Scr> }

impl<'a> M<'a> {
    fn unit(&mut self, u: &Unit, s: &Scr) -> Result<Scr, String> {
        let mut s = s.clone();
        for (id, st) in &u.steps {
            match st {
                St::Do(a) => s.apply(a),
                St::Show(c, end) => {
                    let mut why = None;
                    let mut ok = c.is_empty();
                    for k in c {
                        let (h, g) = self.snaps[*k];
                        let upto = (*end).max(h);
                        if self.rs.iter().any(|r| *r > s.since && *r < upto) { ok = true; break; }
                        if (g.l, g.c) != (s.l, s.c) { why = Some(format!("the device has {}x{} cells, the screen {}x{}", g.l, g.c, s.l, s.c)); continue; }
                        match s.differs(self.t, g) { None => { ok = true; self.compared += 1; break } Some(x) => why = Some(x) }
                    }
                    if !ok { return Err(format!("after the refresh in op {}: {}", id, why.unwrap_or_default())); }
                }
                St::Cur(l, c) => if (*l, *c) != s.cur { return Err(format!("op {} reports the cursor at {:?}, it is at {:?}", id, (l, c), s.cur)); },
                St::Sz(l, c) => if (*l, *c) != (s.l as u64, s.c as u64) { return Err(format!("op {} reports a screen of {}x{}, it is {}x{}", id, l, c, s.l, s.c)); },
                St::Resize(l, c, h) => s.resize(*l as usize, *c as usize, *h),
                St::Cut(_) => {}
            }
        }
        Ok(s)
    }
    fn dfs(&mut self, idx: &mut Vec<usize>, s: &Scr) -> bool {
        self.visits += 1;
        if self.visits > 300_000 { return true; }
        if idx.iter().zip(&self.lanes).all(|(i, l)| *i == l.len()) { self.last = Some(s.clone()); return true; }
        let n = self.lanes.len();
        // in the middle of a session that holds the lock, nothing but a new size gets in
        let busy = (0..n).find(|k| idx[*k] < self.lanes[*k].len() && self.lanes[*k][idx[*k]].cont);
        if n > 1 && !self.memo.insert((idx.clone(), s.hash64())) { return false; }
        for k in 0..n {
            if idx[k] >= self.lanes[k].len() { continue; }
            let u = self.lanes[k][idx[k]].clone();
            if busy.map_or(false, |b| b != k) && !u.resize { continue; }
            if (0..n).any(|j| j != k && idx[j] < self.lanes[j].len() && self.lanes[j][idx[j]].end < u.beg) { continue; }
            match self.unit(&u, s) {
                Ok(x) => { idx[k] += 1; if self.dfs(idx, &x) { return true; } idx[k] -= 1 }
                Err(e) => { let d: usize = idx.iter().sum(); if d >= self.best { self.best = d; self.why = e } }
            }
        }
        false
    }
}

pub fn check(w: &World, slot: u8) -> Option<(String, String)> {
    let t = term(&w.sc.cfg.term);
    let all = recs(w);
    let new = all.iter().find(|r| r.o == slot && matches!(r.act, Act::NewS(..) | Act::WithT(_)) && matches!(r.res, Res::Ok))?.clone();
    for it in &w.ttys[0].emu.items { if let crate::emu::It::Unk(s) = it { if s.starts_with("CUP ") { continue; } return Some(("garbled".into(), format!("the device got something no operation asks for: {}", s))); } }
    let snaps: Vec<(usize, &Grid)> = w.hist.iter().enumerate().filter_map(|(i, h)| match &h.h { H::Wr { tty: 0, snap: Some(s), .. } => Some((i, &s.0)), _ => None }).collect();
    let wr_op: Vec<u32> = w.hist.iter().filter_map(|h| match &h.h { H::Wr { tty: 0, op, snap: Some(_), .. } => Some(*op), _ => None }).collect();
    let rs: Vec<usize> = w.hist.iter().enumerate().filter_map(|(i, h)| match &h.h { H::Rs { .. } => Some(i), _ => None }).collect();
    // sizes the device had over time
    let mut sizes: Vec<(usize, u64, u64)> = vec![(0, w.sc.cfg.l as u64, w.sc.cfg.c as u64)];
    for (i, h) in w.hist.iter().enumerate() { if let H::Rs { l, c } = &h.h { sizes.push((i, *l as u64, *c as u64)) } }
    let winsz = |r: &Rec| w.hist[r.beg..r.end].iter().enumerate().filter_map(|(i, h)| match &h.h { H::Winsz { th, l, c, .. } if *th == r.th => Some((r.beg + i, *l as usize, *c as usize)), _ => None }).last();
    // any of the sizes seen while the screen was set up may be its first one
    let seen: Vec<(usize, usize, usize)> = w.hist[new.beg..new.end].iter().enumerate().filter_map(|(i, h)| match &h.h { H::Winsz { th, l, c, .. } if *th == new.th => Some((new.beg + i, *l as usize, *c as usize)), _ => None }).collect();
    if seen.is_empty() { return Some(("size".into(), "the screen was created without asking for the size of the window".into())); }
    let nth = w.th.len();
    // the operations of each thread, and the new sizes each thread reads
    let mut lanes: Vec<Vec<Unit>> = vec![vec![]; 2 * nth];
    let mut unit_of: HashMap<u32, (usize, usize)> = HashMap::new();
    let show = |r: &Rec, from: usize| -> St {
        let own: Vec<usize> = (0..snaps.len()).filter(|k| wr_op[*k] == r.id && snaps[*k].0 > from && snaps[*k].0 < r.end).collect();
        let c = match own.last() { Some(k) => vec![*k], None => { let b = (0..snaps.len()).filter(|k| snaps[*k].0 < from).last(); let mut v: Vec<usize> = b.into_iter().collect(); v.extend((0..snaps.len()).filter(|k| snaps[*k].0 > from && snaps[*k].0 < r.end)); v } };
        // with several candidates, or an old picture, a resize up to the end of the operation matters
        St::Show(c, if own.is_empty() { r.end } else { 0 })
    };
    for r in &all {
        if r.o != slot || r.end == usize::MAX || r.beg < new.beg { continue; }
        if matches!(r.res, Res::Skip | Res::Would) { continue; }
        let failed = write_failed(w, r.th, r.beg, r.end);
        let sess = r.up.iter().rev().find_map(|u| unit_of.get(u).copied());
        let mut steps: Vec<(u32, St)> = vec![];
        match (&r.act, &r.res) {
            (Act::LkW { .. }, Res::Got(_)) => {
                let last = all.iter().filter(|q| q.up.contains(&r.id) && q.end != usize::MAX).map(|q| q.end).max().unwrap_or(r.beg);
                let ok = !write_failed(w, r.th, last, r.end);
                lanes[r.th].push(Unit { beg: r.beg, end: r.end, steps: if ok { vec![(r.id, St::Cut(last)), (r.id, show(r, last))] } else { vec![] }, cont: false, resize: false });
                unit_of.insert(r.id, (r.th, lanes[r.th].len() - 1));
                continue;
            }
            (Act::Rf, Res::Ok) => { if sess.is_some() { steps.push((r.id, St::Cut(r.beg))) } steps.push((r.id, show(r, r.beg))) }
            (Act::Rf, Res::Err(k, s)) => { if !failed { return Some(("result".into(), format!("refresh (op {}) failed ({} {}) although the device took everything", r.id, k, s))); } if sess.is_none() { continue } steps.push((r.id, St::Cut(r.beg))) }
            (Act::Mac { .. }, Res::Ok) => { steps.push((r.id, St::Do(r.act.clone()))); if sess.is_none() && !failed { steps.push((r.id, show(r, r.beg))) } }
            (Act::GetCur, Res::Cur(l, c)) => steps.push((r.id, St::Cur(*l, *c))),
            (Act::Sz, Res::Size(l, c)) => steps.push((r.id, St::Sz(*l, *c))),
            (Act::Rd(_) | Act::Rw(..), Res::Ev(Some(REv::Resize(l, c)))) => {
                // the size must be one the device had during the read
                let had = sizes.iter().enumerate().any(|(i, s)| (s.1, s.2) == (*l, *c) && s.0 <= r.end && sizes.get(i + 1).map_or(true, |n| n.0 >= r.beg));
                if !had { return Some(("size".into(), format!("op {} reports a resize to {}x{}, which the device did not have", r.id, l, c))); }
                let at = winsz(r).map_or(r.beg, |x| x.0);
                lanes[nth + r.th].push(Unit { beg: r.beg, end: r.end, steps: vec![(r.id, St::Resize(*l, *c, at))], cont: false, resize: true });
                continue;
            }
            (Act::W(_) | Act::Fm(_) | Act::Ch(_) | Act::St(..) | Act::WAt(..) | Act::StAt(..) | Act::Cur(..) | Act::Nl(_) | Act::ClrS | Act::Fg(_) | Act::Bg(_) | Act::Add(_) | Act::Rem(_) | Act::Set(_) | Act::SetNone | Act::Thm(_) | Act::Clr | Act::Short(_), Res::Ok) => steps.push((r.id, St::Do(r.act.clone()))),
            // (a panic after a thread panicked holding the lock comes before anything is done)
            (Act::LkW { .. }, Res::Panic(_)) => { lanes[r.th].push(Unit { beg: r.beg, end: r.end, steps: vec![], cont: false, resize: false }); unit_of.insert(r.id, (r.th, lanes[r.th].len() - 1)); continue }
            (_, Res::Panic(_)) => continue,
            (Act::GetCur | Act::Sz | Act::Mac { .. } | Act::W(_) | Act::ClrS, x) => return Some(("result".into(), format!("op {} {:?} returned {:?}", r.id, r.act, x))),
            _ => continue,
        }
        match sess {
            Some((l, u)) => { let v = &mut lanes[l][u].steps; let k = v.iter().rposition(|x| !r.up.contains(&x.0)).map_or(0, |k| k + 1); v.splice(k..k, steps); }
            None => lanes[r.th].push(Unit { beg: r.beg, end: r.end, steps, cont: false, resize: false }),
        }
    }
    // a session falls into parts between which a new size may be applied
    for l in &mut lanes {
        let mut v = vec![];
        for u in l.drain(..) {
            let mut part = Unit { steps: vec![], ..u };
            for (id, s) in u.steps {
                if let St::Cut(h) = s { let next = Unit { beg: h, end: u.end, steps: vec![], cont: true, resize: false }; v.push(std::mem::replace(&mut part, next)); } else { part.steps.push((id, s)) }
            }
            v.push(part);
        }
        *l = v;
    }
    let mut m = M { t, lanes: lanes.into_iter().filter(|l| !l.is_empty()).map(|l| l.into_iter().map(Rc::new).collect()).collect(), snaps, rs, memo: HashSet::new(), best: 0, why: "?".into(), visits: 0, compared: 0, last: None };
    let mut starts: Vec<Scr> = seen.iter().map(|x| Scr::new(x.1, x.2, seen[0].0)).collect();
    starts.dedup();
    let n = m.lanes.len();
    if !starts.iter().any(|s0| { m.memo.clear(); m.dfs(&mut vec![0; n], s0) }) { return Some(("display".into(), m.why)); }
    if w.sc.prop == "C06" {
        if let Some(s) = &m.last {
            let live = w.ttys[0].hup || all.iter().any(|r| matches!(r.res, Res::Err(..)) && matches!(r.act, Act::Rd(_) | Act::Rw(..) | Act::Wt(_)));
            if !live && (s.l, s.c) != (w.ttys[0].l as usize, w.ttys[0].c as usize) { return Some(("resize".into(), format!("everything was read, the device has {}x{} cells but the last size reported is {}x{}", w.ttys[0].l, w.ttys[0].c, s.l, s.c))); }
        }
    }
    None
}
