//! Reference model of Terminal output: is what the device received a linearisation of what was asked for?
use crate::emu::It;
use crate::exec::mac_model;
use crate::hist::*;
use crate::kern::*;
use crate::scen::*;
use crate::terms::{Term, TERMS};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub fn term(name: &str) -> &'static Term { TERMS.iter().find(|t| t.name == name).expect("unknown terminal") }
pub fn mask(t: &Term, a: At) -> At {
    let mut s = 0;
    for (b, c) in [(1, t.bold), (2, t.sitm), (4, t.rev), (8, t.smul)] { if c { s |= a.s & b } }
    At { f: if t.setaf { a.f } else { None }, b: if t.setab { a.b } else { None }, s }
}
fn sty(k: u8) -> u8 { [1, 2, 4, 8][k as usize % 4] }

/// Attribute effect of an action.
pub fn attr(a: &Act, x: At) -> Option<At> {
    let mut x = x;
    match a {
        Act::Fg(c) => x.f = c.map(|c| c % 8), Act::Bg(c) => x.b = c.map(|c| c % 8),
        Act::Add(s) => x.s |= s & 15, Act::Rem(s) => x.s &= !(s & 15), Act::Set(s) => x.s = s & 15, Act::SetNone => x.s = 0,
        Act::Thm(a) => x = norm(*a), Act::Clr => x = At::default(), Act::Short(k) => x.s |= sty(*k),
        _ => return None,
    }
    Some(x)
}
pub fn norm(a: At) -> At { At { f: a.f.map(|c| c % 8), b: a.b.map(|c| c % 8), s: a.s & 15 } }

/// What one elementary action is expected to put on the device.
#[derive(Clone, Debug)]
enum Exp { Text(String), Items(Vec<Vec<It>>), Mv(u8, u64), None }

fn text_items(s: &str, at: At) -> Vec<It> {
    s.chars().filter_map(|c| match c {
        '\r' => Some(It::Cr), '\u{8}' => Some(It::Mv(2, 1)),
        '\0' | '\u{e}' | '\u{f}' => None,
        c if (c as u32) < 32 || c as u32 == 127 => Some(It::Ctl(c as u8)),
        c => Some(It::T(c, at)),
    }).collect()
}

/// Expansion, capability present?
fn expect(t: &Term, a: &Act) -> Option<Exp> {
    Some(match a {
        Act::W(s) | Act::Fm(s) => Exp::Text(s.clone()),
        Act::St(_, s) => Exp::Text(s.clone()),
        Act::Ch(c) => Exp::Text(c.to_string()),
        Act::Mv(d, n) => {
            if *n == 0 { return Some(Exp::None) }
            let ok = match (d % 4, *n) { (0, 1) => t.cuu1, (0, _) => t.cuu, (1, _) => t.cud, (2, 1) => t.cub1, (2, _) => t.cub, (_, 1) => t.cuf1, _ => t.cuf };
            if !ok { return None; }
            Exp::Mv(d % 4, *n)
        }
        Act::Col0 => Exp::Items(vec![vec![It::Cr]]),
        Act::ClrS => { if !t.clear { return None; } Exp::Items(vec![vec![It::Home, It::ErAll], vec![It::Home, It::ErS]]) }
        Act::ClrL => { if !t.el { return None; } Exp::Items(vec![vec![It::ErL]]) }
        Act::ClrE => { if !t.ed { return None; } Exp::Items(vec![vec![It::ErS]]) }
        Act::Cm(m) => match m % 3 { 1 => if t.civis { Exp::Items(vec![vec![It::Vis(false)]]) } else { Exp::None }, _ => if t.cnorm { Exp::Items(vec![vec![It::Vis(true)]]) } else { Exp::None } },
        _ => Exp::None,
    })
}
pub fn supported(t: &Term, a: &Act) -> bool { expect(t, a).is_some() }

#[derive(Clone, Debug)]
struct Step { act: Act, ok: bool, /// the device must have taken everything up to this item count bound once the step is over
    by: Option<usize>, mac: Option<Vec<Act>>, id: u32 }
#[derive(Clone, Debug)]
struct Unit { th: usize, beg: usize, end: usize, from: usize, by: Option<usize>, steps: Vec<Step> }

struct M<'a> { t: &'static Term, items: &'a [It], lanes: Vec<Vec<Rc<Unit>>>, memo: HashSet<(Vec<usize>, usize, At)>, best: usize, bestwhy: String, visits: u64, extra: Vec<At> }

fn is_out(a: &Act) -> bool { !matches!(a, Act::Nop | Act::Nap(_) | Act::Quiet | Act::Panic | Act::NewT(_) | Act::NewS(..) | Act::WithT(_) | Act::Rd(_) | Act::Wt(_) | Act::Rw(..) | Act::Drain | Act::Name | Act::Pr(_) | Act::Re | Act::LkR { .. } | Act::Sz | Act::GetCur) }

impl<'a> M<'a> {
    fn mk_step(&self, r: &Rec) -> Step {
        let ok = matches!(r.res, Res::Ok);
        let mac = if let Act::Mac { t, s, a, n } = &r.act { Some(mac_model(*t, s, *a, *n)) } else { None };
        Step { act: r.act.clone(), ok, by: None, mac, id: r.id }
    }

    /// All (position, attributes) reachable after matching text or items from `p`.
    fn apply(&self, a: &Act, ok: bool, p: usize, at: At) -> Vec<(usize, At)> {
        let mut out = vec![];
        if let Some(n) = attr(a, at) { out.push((p, n)); if !ok { out.push((p, at)) } return out; }
        let (tat, after) = match a { Act::St(x, _) => (norm(*x), At::default()), _ => (at, at) };
        let e = match expect(self.t, a) { Some(e) => e, None => { if !ok { out.push((p, at)) } return out; } };
        match e {
            Exp::None => out.push((p, at)),
            Exp::Text(s) => {
                let want = text_items(&s, mask(self.t, tat));
                let mut k = 0;
                while k < want.len() && p + k < self.items.len() && self.items[p + k] == want[k] { k += 1 }
                if ok { if k == want.len() { out.push((p + k, after)) } }
                else {
                    let afters: Vec<At> = vec![after];
                    for j in (0..=k).rev() {
                        for x in &afters {
                            out.push((p + j, *x));
                            if p + j < self.items.len() && self.items[p + j] == It::Bad && j < want.len() { out.push((p + j + 1, *x)) }
                        }
                    }
                }
            }
            Exp::Items(alts) => {
                for w in &alts {
                    if p + w.len() <= self.items.len() && self.items[p..p + w.len()] == w[..] { out.push((p + w.len(), at)) }
                    if !ok { for j in 0..w.len() { if p + j <= self.items.len() && self.items[p..p + j] == w[..j] { out.push((p + j, at)) } } }
                }
            }
            Exp::Mv(d, n) => {
                let mut sum = 0u64; let mut q = p;
                let want = n.min(30000);
                while sum < n && q < self.items.len() {
                    match self.items[q] { It::Mv(dd, k) if dd == d => { sum = sum.saturating_add(k); q += 1; if sum == n || (sum >= want && n > 30000) { out.push((q, at)); break; } if !ok { out.push((q, at)) } } _ => break }
                }
                if !ok { out.push((p, at)) }
            }
        }
        out
    }

    fn unit(&self, u: &Unit, p: usize, at: At) -> Vec<(usize, At)> {
        let mut cur: Vec<(usize, At)> = vec![(p, at)];
        for s in &u.steps {
            let mut nx: Vec<(usize, At)> = vec![];
            for (p, at) in cur {
                match &s.mac {
                    None => nx.extend(self.apply(&s.act, s.ok, p, at)),
                    Some(acts) => {
                        let mut c = vec![(p, at)];
                        for (i, a) in acts.iter().enumerate() {
                            if !s.ok { for (p, at) in &c { nx.extend(self.apply(a, false, *p, *at)) } }
                            let mut d = vec![];
                            for (p, at) in &c { d.extend(self.apply(a, true, *p, *at)) }
                            d.sort_by_key(|x| (x.0, x.1.f, x.1.b, x.1.s)); d.dedup();
                            c = d;
                            if s.ok && i + 1 == acts.len() { nx.extend(c.iter().cloned()) }
                        }
                    }
                }
            }
            // (a character cut short shows up only with the next byte)
            if let Some(by) = s.by { nx.retain(|x| x.0 <= by || x.0 == by + 1 && self.items[by] == It::Bad) }
            nx.sort_by_key(|x| (x.0, x.1.f, x.1.b, x.1.s)); nx.dedup();
            cur = nx;
        }
        if let Some(by) = u.by { cur.retain(|x| x.0 <= by || x.0 == by + 1 && self.items[by] == It::Bad) }
        cur
    }

    fn dfs(&mut self, idx: &mut Vec<usize>, p: usize, at: At) -> bool {
        self.visits += 1;
        if self.visits > 2_000_000 { return true; }
        if idx.iter().zip(&self.lanes).all(|(i, l)| *i == l.len()) {
            if p == self.items.len() { return true; }
            if p >= self.best { self.best = p; self.bestwhy = format!("the device shows more than was asked for: {:?}", &self.items[p..self.items.len().min(p + 4)]) }
            return false;
        }
        if !self.memo.insert((idx.clone(), p, at)) { return false; }
        let n = self.lanes.len();
        for k in 0..n {
            if idx[k] >= self.lanes[k].len() { continue; }
            let u = &self.lanes[k][idx[k]];
            // real time: nothing still outstanding may have ended before this unit began
            let beg = u.beg;
            if (0..n).any(|j| j != k && idx[j] < self.lanes[j].len() && self.lanes[j][idx[j]].end < beg) { continue; }
            let u = u.clone();
            let mut nx = self.unit(&u, p, at);
            nx.retain(|x| x.0 == p || p >= u.from || u.steps.is_empty());
            if nx.is_empty() && p >= self.best {
                self.best = p;
                self.bestwhy = format!("ops {:?} (thread {}) with attributes {:?} do not explain what the device shows at item {}: {:?} (last event allowed: {:?})", u.steps.iter().map(|s| (s.id, &s.act, s.ok)).collect::<Vec<_>>(), u.th, at, p, &self.items[p..self.items.len().min(p + 6)], u.by);
                if self.bestwhy.len() > 1500 { let mut k = 1500; while !self.bestwhy.is_char_boundary(k) { k -= 1 } self.bestwhy.truncate(k) }
            }
            idx[k] += 1;
            for (q, b) in nx.into_iter().rev() { if self.dfs(idx, q, b) { return true; } }
            idx[k] -= 1;
        }
        false
    }
}

/// Checks everything terminal 0 received from operations on object slot `slot`.
pub fn check(w: &World, slot: u8) -> Option<(String, String)> {
    let t = term(&w.sc.cfg.term);
    let rs = recs(w);
    let items = w.ttys[0].emu.items.clone();
    for (i, it) in items.iter().enumerate() { if let It::Unk(s) = it { return Some(("garbled".into(), format!("item {} on the device is not a sequence any operation asks for: {}", i, s))); } }
    let at_items = items_at(w, 0);
    let mut m = M { t, items: &items, lanes: vec![vec![]; w.th.len()], memo: HashSet::new(), best: 0, bestwhy: "nothing matched".into(), visits: 0, extra: vec![] };
    let _ = &m.extra;
    let mut unit_of: HashMap<u32, (usize, usize)> = HashMap::new();
    for r in &rs {
        if r.o != slot || r.end == usize::MAX { continue; }
        let failed = write_failed(w, r.th, r.beg, r.end);
        let out = is_out(&r.act);
        if matches!(r.res, Res::Skip | Res::Would) { continue; }
        // results
        if out && !matches!(r.act, Act::LkW { .. } | Act::Drop | Act::PDrop) {
            match &r.res {
                Res::Ok => if !supported(t, &r.act) { return Some(("result".into(), format!("op {} {:?} reports success although {} cannot do it", r.id, r.act, t.name))); },
                Res::Err(k, s) => {
                    let inner_fail = match &r.act { Act::Mac { t: id, s, a, n } => mac_model(*id, s, *a, *n).iter().any(|a| !supported(t, a)), a => !supported(t, a) };
                    if !failed && !inner_fail { return Some(("result".into(), format!("op {} {:?} failed ({} {}) although the device took everything", r.id, r.act, k, s))); }
                }
                Res::Panic(_) => {}
                x => return Some(("result".into(), format!("op {} {:?} returned {:?}", r.id, r.act, x))),
            }
        }
        if let Act::Sz = r.act {
            if let Res::Size(l, c) = r.res { if (l as u16, c as u16) != (w.ttys[0].l, w.ttys[0].c) && !w.hist.iter().any(|h| matches!(h.h, H::Rs { .. })) { return Some(("result".into(), format!("size reported {}x{}", l, c))); } }
        }
        // moving by nothing need not touch the device at all
        if !out || matches!(r.act, Act::Mv(_, 0)) { continue; }
        // the enclosing write session, if any
        let sess = r.up.iter().rev().find_map(|u| unit_of.get(u).copied());
        if let Act::LkW { .. } = r.act {
            let by = if failed_after_last(w, &rs, r) { None } else { Some(at_items[r.end]) };
            m.lanes[r.th].push(Rc::new(Unit { th: r.th, beg: r.beg, end: r.end, from: at_items[r.beg], by, steps: vec![] }));
            unit_of.insert(r.id, (r.th, m.lanes[r.th].len() - 1));
            continue;
        }
        let act = match r.act { Act::Drop | Act::PDrop => Act::Cm(0), ref a => a.clone() };
        let mut st = m.mk_step(r);
        st.act = act;
        if let Act::Drop | Act::PDrop = r.act { st.ok = true }
        match sess {
            Some((l, u)) => {
                if let (Act::Fl, true) = (&r.act, st.ok) { st.by = Some(at_items[r.end]) }
                Rc::get_mut(&mut m.lanes[l][u]).unwrap().steps.push(st);
            }
            None => {
                let by = if failed { None } else { Some(at_items[r.end]) };
                m.lanes[r.th].push(Rc::new(Unit { th: r.th, beg: r.beg, end: r.end, from: at_items[r.beg], by, steps: vec![st] }));
            }
        }
    }
    m.lanes.retain(|l| !l.is_empty());
    let mut idx = vec![0; m.lanes.len()];
    if m.dfs(&mut idx, 0, At::default()) { return None; }
    // after failures that are never repaired the tail may be missing; the scenario always ends with a repaired device
    Some(("output".into(), format!("no order of the operations explains the device output ({} items, {} explained): {}", items.len(), m.best, m.bestwhy)))
}
/// Did the flush at the release of a write guard meet an error?
fn failed_after_last(w: &World, rs: &[Rec], s: &Rec) -> bool {
    let last = rs.iter().filter(|r| r.up.contains(&s.id) && r.end != usize::MAX).map(|r| r.end).max().unwrap_or(s.beg);
    write_failed(w, s.th, last, s.end)
}
