//! Terminal modes: what prepare sets up, restore puts back, and a continued program gets again.
use crate::hist::*;
use crate::kern::*;
use crate::model_out;
use crate::scen::*;
use crate::terms::Term;
use std::collections::HashMap;

type V = Option<(String, String)>;
fn v(m: String) -> V { Some(("modes".to_string(), m)) }
fn lib_handler(d: &(usize, i32, u64)) -> bool { let mut a: libc::sigaction = unsafe { std::mem::zeroed() }; a.sa_sigaction = d.0; disp_kind(&a) == 9 }
fn sig_bit(sig: i32) -> u8 { crate::model_sig::bit_of(sig) }
/// Signals whose handler a configuration replaces.
fn handled(c: &PCfg, sig: i32) -> bool { sig == libc::SIGCONT || sig == libc::SIGWINCH || (sig_bit(sig) != 0 && c.sigs & sig_bit(sig) != 0) }

/// Is the terminal in the mode the configuration describes?
pub fn in_mode(s: &St, c: &PCfg, t: &Term) -> Result<(), String> {
    let (i, l) = (s.tio[0], s.tio[3]);
    let bad = |m: &str| Err(m.to_string());
    if l & libc::ICANON != 0 { return bad("canonical mode is on"); }
    if l & libc::ECHO != 0 { return bad("echo is on"); }
    if i & (libc::INLCR | libc::ICRNL) != 0 { return bad("newline conversion is on"); }
    if (l & libc::ISIG != 0) == c.block { return bad("signal characters are not set as configured"); }
    if (i & libc::IXON != 0) != c.flow { return bad("flow control is not set as configured"); }
    if s.tio[7 + libc::VMIN] != 0 || s.tio[7 + libc::VTIME] != 0 { return bad("reads may wait for characters"); }
    if c.keypad && t.smkx {
        if !s.m.keypad { return bad("keypad mode is off"); }
        if !s.m.appcur && ["xterm", "screen", "tmux"].iter().any(|n| t.name.starts_with(n)) { return bad("cursor key mode is off"); }
    }
    if c.mouse && t.xterm() {
        if !s.m.mouse.contains(&1002) || !s.m.mouse.contains(&1006) || !matches!(s.m.track, 1002 | 1003) { return Err(format!("mouse mode is {:?} ({})", s.m.mouse, s.m.track)); }
        if c.motion && (!s.m.mouse.contains(&1003) || s.m.track != 1003) { return Err(format!("motion is not tracked: mouse mode is {:?} ({})", s.m.mouse, s.m.track)); }
    }
    for (k, sig) in STSIGS.iter().enumerate() { if handled(c, *sig) && !lib_handler(&s.disp[k]) { return Err(format!("signal {} is not handled", sig)); } }
    Ok(())
}
/// Modes the configuration does not ask for are off (unless another program turned them on).
pub fn not_more(s: &St, c: &PCfg, sc: &Scen) -> Result<(), String> {
    if sc.cfg.extra & X_MODES != 0 { return Ok(()); }
    if !c.keypad && s.m.keypad { return Err("keypad mode is on".to_string()); }
    if !c.mouse && !s.m.mouse.is_empty() { return Err(format!("mouse mode is {:?}", s.m.mouse)); }
    if !c.motion && s.m.mouse.contains(&1003) { return Err("motion is tracked".to_string()); }
    Ok(())
}
/// Nothing but what the configuration is about may differ.
pub fn rest(a: &St, b: &St, c: &PCfg) -> Result<(), String> {
    let mask = |s: &St| { let mut t = s.tio.clone(); t[0] &= !(libc::INLCR | libc::ICRNL | libc::IXON); t[3] &= !(libc::ICANON | libc::ECHO | libc::ISIG); t[7 + libc::VMIN] = 0; t[7 + libc::VTIME] = 0; t };
    if mask(a) != mask(b) { return Err(format!("other terminal settings changed: {:x?} became {:x?}", mask(a), mask(b))); }
    for (k, sig) in STSIGS.iter().enumerate() { if !handled(c, *sig) && a.disp[k] != b.disp[k] { return Err(format!("the disposition of signal {} changed", sig)); } }
    Ok(())
}
/// Differences between two states (ignoring what output changes: cursor and screen).
pub fn differs(a: &St, b: &St, modes: bool) -> Option<String> {
    if a.tio != b.tio { return Some(format!("terminal settings were {:x?} and are {:x?}", a.tio, b.tio)); }
    for (k, sig) in STSIGS.iter().enumerate() { if a.disp[k] != b.disp[k] { return Some(format!("the disposition of signal {} was {:x?} and is {:x?}", sig, a.disp[k], b.disp[k])); } }
    if modes {
        if (a.m.keypad, a.m.appcur) != (b.m.keypad, b.m.appcur) { return Some(format!("keypad and cursor key modes were {:?} and are {:?}", (a.m.keypad, a.m.appcur), (b.m.keypad, b.m.appcur))); }
        if (&a.m.mouse, a.m.track) != (&b.m.mouse, b.m.track) { return Some(format!("mouse modes were {:?} ({}) and are {:?} ({})", a.m.mouse, a.m.track, b.m.mouse, b.m.track)); }
    }
    None
}
pub fn states(w: &World) -> HashMap<(u32, bool), &St> {
    let mut m = HashMap::new();
    for h in &w.hist { if let H::St { op, end, s, .. } = &h.h { m.insert((*op, *end), &**s); } }
    m
}
fn is_pr(a: &Act) -> bool { matches!(a, Act::Pr(_) | Act::Re | Act::NewT(_) | Act::NewS(..) | Act::WithT(_) | Act::Drop | Act::PDrop) }
fn in_lkr(rs: &[Rec], r: &Rec) -> bool { r.up.iter().any(|u| rs.iter().any(|x| x.id == *u && matches!(x.act, Act::LkR { .. }))) }
/// No other thread changes the configuration during r.
fn alone(rs: &[Rec], r: &Rec) -> bool { in_lkr(rs, r) || !rs.iter().any(|x| x.th != r.th && is_pr(&x.act) && x.beg < r.end && x.end > r.beg) }
fn foreign_in(w: &World, a: usize, b: usize) -> bool { w.hist[a..b.min(w.hist.len())].iter().any(|h| matches!(h.h, H::Foreign(_))) }
fn settings_in(w: &World, a: usize, b: usize, r: &Rec) -> bool { w.hist[a..b.min(w.hist.len())].iter().any(|h| matches!(&h.h, H::TcSet { op, .. } if *op != r.id) || matches!(&h.h, H::SigSet { th, .. } if *th != r.th)) }

/// Moments after which the modes are not known to be those of the configuration:
/// another program changed them, or applying them again failed.
fn soils(w: &World, rs: &[Rec]) -> Vec<usize> {
    w.hist.iter().enumerate().filter(|(i, h)| match &h.h {
        H::Foreign(_) => true,
        H::Flt { k: Fk::Err(_) | Fk::Zero | Fk::Eintr, c: Call::TcGet | Call::TcSet | Call::SigAct | Call::Write, th, .. } => rs.iter().any(|r| r.th == *th && r.beg < *i && r.end > *i && matches!(r.act, Act::Rd(_) | Act::Wt(_) | Act::Rw(..))),
        _ => false,
    }).map(|x| x.0).collect()
}
pub fn check(w: &World) -> V {
    let rs = recs(w);
    let soil = soils(w, &rs);
    let st = states(w);
    let t = model_out::term(&w.sc.cfg.term);
    // prepare and restore, in the order they completed
    let mut by: Vec<&Rec> = rs.iter().filter(|r| r.end != usize::MAX).collect();
    by.sort_by_key(|r| r.end);
    let mut stack: Vec<(&Rec, PCfg)> = vec![];
    let mut soiled = false;
    // nested prepares that began while the outer configuration was not in force (another program had changed the mode);
    // the changes of configuration by a restore that returns to such a state
    let mut odd: Vec<u32> = vec![];
    let mut odd_re: Vec<usize> = vec![];
    let foreign = foreign_in(w, 0, w.hist.len());
    for r in &by {
        if let Res::Panic(_) = r.res { soiled = true }
        let (a, b) = match (st.get(&(r.id, false)), st.get(&(r.id, true))) { (Some(a), Some(b)) => (*a, *b), _ => continue };
        match &r.act {
            Act::Pr(c) => {
                if let (Some((_, o)), Res::Ok) = (stack.last(), &r.res) { if in_mode(a, o, t).is_err() { odd.push(r.id) } }
                if r.res != Res::Ok { if let Res::Err(k, m) = &r.res { if !any_fault(w, r.th, r.beg, r.end) { return v(format!("prepare (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); } } continue; }
                if !foreign_in(w, r.beg, r.end) {
                    if alone(&rs, r) { if let Err(m) = in_mode(b, c, t).and_then(|_| if foreign { Ok(()) } else { not_more(b, c, w.sc) }) { return v(format!("after prepare (op {}): {}", r.id, m)); } }
                    if alone(&rs, r) && !settings_in(w, r.beg, r.end, r) { if let Err(m) = rest(a, b, c) { return v(format!("after prepare (op {}): {}", r.id, m)); } }
                }
                stack.push((r, *c));
            }
            Act::NewS(_, c) | Act::WithT(c) if r.res != Res::Skip => {
                if let (Some((_, o)), Res::Ok) = (stack.last(), &r.res) { if in_mode(a, o, t).is_err() { odd.push(r.id) } }
                if let Res::Err(k, m) = &r.res { if !any_fault(w, r.th, r.beg, r.end) { return v(format!("creating the screen (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); } }
                if r.res != Res::Ok { continue; }
                if !foreign_in(w, r.beg, r.end) && alone(&rs, r) {
                    if let Err(m) = in_mode(b, c, t).and_then(|_| if foreign { Ok(()) } else { not_more(b, c, w.sc) }) { return v(format!("after creating the screen (op {}): {}", r.id, m)); }
                    if !settings_in(w, r.beg, r.end, r) { if let Err(m) = rest(a, b, c) { return v(format!("after creating the screen (op {}): {}", r.id, m)); } }
                }
                stack.push((r, *c));
            }
            Act::Drop if r.res == Res::Ok => {
                let p = match stack.iter().rposition(|x| matches!(x.0.act, Act::NewS(..) | Act::WithT(_))) { Some(k) => stack[k].0, None => { stack.clear(); continue } };
                let outer = stack.iter().rev().skip_while(|x| x.0.id != p.id).nth(1).map(|x| x.1);
                stack.clear();
                if foreign_in(w, p.beg, p.end) || foreign_in(w, r.beg, r.end) || !alone(&rs, p) || !alone(&rs, r) || settings_in(w, p.beg, p.end, p) || settings_in(w, r.beg, r.end, r) { continue; }
                let before = st[&(p.id, false)];
                let modes = outer.map_or(true, |o| in_mode(before, &o, t).is_ok());
                if let Some(m) = differs(before, b, modes) { return v(format!("dropping the screen (op {}) made in op {}: {}", r.id, p.id, m)); }
            }
            Act::Re if r.res != Res::Skip => {
                let (p, _) = match stack.pop() { Some(x) => x, None => continue };
                if odd.contains(&p.id) || foreign_in(w, p.beg, p.end) { odd_re.push(r.end) }
                if let Res::Err(k, m) = &r.res { if !any_fault(w, r.th, r.beg, r.end) { return v(format!("restore (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); } continue; }
                if foreign_in(w, p.beg, p.end) || foreign_in(w, r.beg, r.end) || !alone(&rs, p) || !alone(&rs, r) || settings_in(w, p.beg, p.end, p) || settings_in(w, r.beg, r.end, r) { continue; }
                let before = st[&(p.id, false)];
                let modes = stack.last().map_or(true, |o| in_mode(before, &o.1, t).is_ok());
                if let Some(m) = differs(before, b, modes) { return v(format!("restore (op {}) of prepare (op {}): {}", r.id, p.id, m)); }
            }
            _ => {}
        }
    }
    if soiled { return None; }
    // a read that could not apply the configuration again says so
    for r in &by {
        if !matches!(r.act, Act::Rd(_) | Act::Wt(_) | Act::Rw(..)) || matches!(r.res, Res::Err(..) | Res::Skip | Res::Panic(_)) { continue; }
        if let Some(h) = w.hist[r.beg..r.end].iter().find(|h| matches!(&h.h, H::Flt { k: Fk::Err(_), c: Call::TcSet | Call::SigAct, th, .. } if *th == r.th)) { return v(format!("op {} returned {:?} although applying the configuration again failed ({:?})", r.id, r.res, h.h)); }
    }
    // the mode in force whenever nothing else goes on
    let ch = crate::model_sig::changes(&rs, 0);
    // begin and end of every handling of SIGCONT by the library
    let mut cont: Vec<(usize, usize)> = vec![];
    for (i, h) in w.hist.iter().enumerate() {
        match h.h {
            H::Hand { sig: libc::SIGCONT, kind: 9, th } => if let Some(e) = w.hist[i..].iter().position(|x| matches!(x.h, H::Handed { sig: libc::SIGCONT, kind: 9, th: t } if t == th)) { cont.push((i, i + e)) },
            _ => {}
        }
    }
    for r in &by {
        let s = match st.get(&(r.id, true)) { Some(s) => *s, None => continue };
        // another operation may be half way through
        if rs.iter().any(|x| x.id != r.id && x.beg < r.end && x.end > r.end && !(r.up.contains(&x.id) && matches!(x.act, Act::LkR { .. } | Act::DrainE | Act::Drain)) && !matches!(x.act, Act::Nap(_) | Act::Nop)) { continue; }
        if r.up.iter().any(|u| rs.iter().any(|x| x.id == *u && matches!(x.act, Act::LkW { .. }))) { continue; }
        let last = ch.iter().filter(|c| c.end <= r.end).last();
        match last.and_then(|c| c.to.map(|p| (c, p))) {
            Some((c, p)) => {
                if odd_re.contains(&c.end) { continue; }
                if let Some(f) = soil.iter().rev().find(|f| **f < r.end).copied() {
                    // a change made during the last prepare or after it counts until the program was continued and read on
                    if f > c.beg {
                        let h = match cont.iter().find(|h| h.0 > f) { Some(h) => h.1, None => continue };
                        // (another signal nobody asked for may make a read return, too)
                        let reads = by.iter().filter(|x| x.beg > h && x.end <= r.end && matches!(x.act, Act::Rd(_) | Act::Rw(..)) && matches!(x.res, Res::Ev(None)));
                        let others = w.hist[..r.end].iter().filter(|h| matches!(h.h, H::Hand { sig, kind: 9, .. } if sig != libc::SIGCONT)).count();
                        let said = by.iter().any(|x| x.beg > h && x.end <= r.end && matches!(x.res, Res::Ev(Some(REv::Sig(S_CONT)))));
                        if !said && reads.count() <= others { continue; }
                    }
                }
                if let Err(m) = in_mode(s, &p, t) { return v(format!("after op {} the configuration in force is not: {}", r.id, m)); }
            }
            None => {
                let reads = matches!(r.act, Act::Rd(_) | Act::Wt(_) | Act::Rw(..) | Act::DrainE | Act::Drain);
                if reads && !foreign_in(w, r.beg, r.end) && !ch.iter().any(|c| c.beg < r.end && c.end > r.beg) {
                    if let Some(b) = st.get(&(r.id, false)) { if let Some(m) = differs(b, s, true) { return v(format!("op {} on a terminal that is not prepared: {}", r.id, m)); } }
                }
            }
        }
    }
    None
}

/// Is the last change of configuration a restore of a prepare that began while the
/// configuration before it was not in force? Such a restore returns to what it found.
fn odd_last(w: &World, rs: &[Rec], end: usize) -> bool {
    let st = states(w);
    let t = model_out::term(&w.sc.cfg.term);
    let mut by: Vec<&Rec> = rs.iter().filter(|r| r.end != usize::MAX).collect();
    by.sort_by_key(|r| r.end);
    let mut stack: Vec<(PCfg, bool)> = vec![];
    for r in by {
        match &r.act {
            Act::Pr(c) | Act::NewS(_, c) | Act::WithT(c) if r.res == Res::Ok => {
                let odd = stack.last().map_or(false, |o| st.get(&(r.id, false)).map_or(true, |a| in_mode(a, &o.0, t).is_err())) || foreign_in(w, r.beg, r.end);
                stack.push((*c, odd));
            }
            Act::Drop if r.res == Res::Ok => stack.clear(),
            Act::Re if r.res != Res::Skip => { if let Some((_, odd)) = stack.pop() { if odd && r.end == end { return true } } }
            _ => {}
        }
    }
    false
}

/// Called when no thread can run: does a reader sleep in a terminal that was not prepared anew?
pub fn asleep(w: &mut World) {
    let rs = recs(w);
    let mut reader = None;
    for i in 0..w.nth {
        if w.th[i].done || !w.th[i].started { continue; }
        match &w.th[i].wait {
            Wait::Fds { fds, .. } => if fds.iter().any(|f| matches!(w.fds.get(&f.0), Some((Fd::Tty(_), _)))) { reader = w.th[i].frames.last().map(|f| f.op) },
            Wait::Join => {}
            Wait::Until { .. } => { if let Some(f) = w.th[i].frames.last() { if !rs.iter().any(|r| r.id == f.op && matches!(r.act, Act::Nap(_))) { return } } }
            _ => return,
        }
    }
    let op = match reader { Some(o) => o, None => return };
    if rs.iter().any(|r| r.end == usize::MAX && (is_pr(&r.act) || matches!(r.act, Act::LkW { .. } | Act::Wt(_)))) { return; }
    let f = match soils(w, &rs).last() { Some(f) => *f, None => return };
    if !w.hist[f..].iter().any(|h| matches!(h.h, H::Hand { sig: libc::SIGCONT, kind: 9, .. })) { return; }
    let ch = crate::model_sig::changes(&rs, 0);
    let (c, p) = match ch.last().and_then(|c| c.to.map(|p| (c, p))) { Some(x) => x, None => return };
    if c.beg > f || odd_last(w, &rs, c.end) { return; }
    let t = model_out::term(&w.sc.cfg.term);
    if let Err(m) = in_mode(&w.st(), &p, t) { fail("modes", format!("a read (op {}) waits although the program was continued and the configuration in force is not: {}", op, m)) }
}
