//! Signals and timeouts: what reads report about them, and when they return.
use crate::hist::*;
use crate::kern::*;
use crate::model_in;
use crate::scen::*;

pub fn bit_of(sig: i32) -> u8 { match sig { libc::SIGCONT => S_CONT, libc::SIGINT => S_INT, libc::SIGQUIT => S_QUIT, libc::SIGWINCH => S_WINCH, libc::SIGTSTP => S_TSTP, _ => 0 } }
pub const KINDS: &[(u8, i32, &str)] = &[(S_CONT, libc::SIGCONT, "continue"), (S_INT, libc::SIGINT, "interrupt"), (S_QUIT, libc::SIGQUIT, "quit"), (S_WINCH, libc::SIGWINCH, "resize"), (S_TSTP, libc::SIGTSTP, "suspend")];

/// A change of the configuration in force: takes effect between the two history positions.
#[derive(Clone, Debug)]
pub struct Change { pub beg: usize, pub end: usize, pub to: Option<PCfg> }
/// The changes of one object's configuration, in the order they were completed.
pub fn changes(rs: &[Rec], o: u8) -> Vec<Change> {
    let mut st: Vec<PCfg> = vec![];
    let mut v = vec![];
    let mut rs: Vec<&Rec> = rs.iter().filter(|r| r.o == o && r.end != usize::MAX).collect();
    rs.sort_by_key(|r| r.end);
    for r in rs {
        match (&r.act, &r.res) {
            (Act::Pr(c) | Act::NewS(_, c) | Act::WithT(c), Res::Ok) => { st.push(*c); v.push(Change { beg: r.beg, end: r.end, to: Some(*c) }) }
            (Act::Re, Res::Skip) => {}
            (Act::Re, _) => { st.pop(); v.push(Change { beg: r.beg, end: r.end, to: st.last().copied() }) }
            (Act::Drop | Act::PDrop, Res::Ok) => { st.clear(); v.push(Change { beg: r.beg, end: r.end, to: None }) }
            _ => {}
        }
    }
    v
}
/// The configurations that may be in force somewhere within [a, b].
pub fn in_force(ch: &[Change], a: usize, b: usize) -> Vec<Option<PCfg>> {
    let mut v = vec![];
    let mut base = None;
    for c in ch { if c.end <= a { base = c.to } }
    v.push(base);
    for c in ch { if c.end > a && c.beg < b { v.push(c.to) } }
    v
}
fn wants(c: &Option<PCfg>, bit: u8) -> bool { c.map_or(false, |c| bit == S_WINCH || c.sigs & bit != 0) }
fn reported(r: &Res) -> u8 { match r { Res::Ev(Some(REv::Sig(b))) => *b, Res::Ev(Some(REv::Resize(..))) => S_WINCH, _ => 0 } }

/// Checks of signal reporting over the whole history.
pub fn signals(w: &World) -> Option<(String, String)> {
    let rs = recs(w);
    let ch = changes(&rs, 0);
    let v = |m: String| Some(("signals".to_string(), m));
    for (bit, sig, name) in KINDS {
        let hand: Vec<usize> = w.hist.iter().enumerate().filter(|(_, h)| matches!(&h.h, H::Hand { sig: s, kind: 9, .. } if s == sig)).map(|x| x.0).collect();
        let mut reps: Vec<&Rec> = rs.iter().filter(|r| r.end != usize::MAX && reported(&r.res) == *bit).collect();
        reps.sort_by_key(|r| r.end);
        for (i, r) in reps.iter().enumerate() {
            let got = hand.iter().filter(|h| **h < r.end).count();
            if i + 1 > got { return v(format!("{} was reported {} times (last by op {}) although only {} such signals had been handled", name, i + 1, r.id, got)); }
            if *bit != S_WINCH && !in_force(&ch, r.beg, r.end).iter().any(|c| wants(c, *bit)) { return v(format!("{} was reported by op {} although the configuration in force does not ask for it", name, r.id)); }
        }
        // every one asked for is followed by a report
        for h in &hand {
            let end = match rs.iter().find(|r| matches!(r.act, Act::DrainE) && r.res == Res::Ok && r.beg > *h) { Some(r) => r.end, None => continue };
            let rep = reps.iter().find(|r| r.end > *h && r.end <= end);
            let upto = rep.map_or(end, |r| r.end);
            if rep.is_none() && in_force(&ch, *h, upto).iter().all(|c| wants(c, *bit)) {
                let op = rs.iter().filter(|r| r.beg < *h && r.end > *h).map(|r| r.id.to_string()).collect::<Vec<_>>().join(",");
                return v(format!("{} was asked for, arrived (during op {}) and was never reported", name, op));
            }
        }
    }
    None
}

/// Called when no thread can run: is a reader asleep although a signal it must report has been handled?
pub fn asleep(w: &mut World) {
    let rs = recs(w);
    let ch = changes(&rs, 0);
    let n = w.hist.len();
    let mut sleeper = None;
    for i in 0..w.nth {
        let t = &w.th[i];
        if t.done || !t.started { continue; }
        match &t.wait {
            Wait::Fds { fds, .. } => { if fds.iter().any(|f| matches!(w.fds.get(&f.0), Some((Fd::Tty(_), _)))) { sleeper = t.frames.last().map(|f| f.op) } }
            Wait::Join | Wait::None | Wait::Until { .. } => {}
            _ => return,
        }
    }
    let op = match sleeper { Some(o) => o, None => return };
    for (bit, sig, name) in KINDS {
        let h = match w.hist.iter().rposition(|h| matches!(&h.h, H::Hand { sig: s, kind: 9, .. } if s == sig)) { Some(h) => h, None => continue };
        if rs.iter().any(|r| r.end != usize::MAX && r.end > h && reported(&r.res) == *bit) { continue; }
        // a read that consumed the signal may have failed for another reason
        if in_force(&ch, h, n).iter().all(|c| wants(c, *bit)) { fail("signals", format!("{} was asked for and has arrived, but a read (op {}) keeps waiting for something else", name, op)) }
    }
}

const MS: u64 = 1_000_000;
/// Timeouts: too early, too late, not woken by what arrived.
pub fn timing(w: &World) -> Option<(String, String)> {
    if let Some(v) = model_in::check(w, true, true) { return Some(v); }
    let rs = recs(w);
    let pos = match model_in::positions(w) { Some(p) => p, None => return None };
    let v = |m: String| Some(("timing".to_string(), m));
    let arr: Vec<(u64, usize, usize)> = w.hist.iter().enumerate().filter_map(|(i, h)| if let H::Arr { tty: 0, n, .. } = &h.h { if *n > 0 { Some((h.t, i, *n)) } else { None } } else { None }).collect();
    for r in &rs {
        let t = match &r.act { Act::Rd(t) | Act::Wt(t) => *t, Act::Rw(_, t) => *t, _ => continue };
        if r.end == usize::MAX || r.res == Res::Skip { continue; }
        if let Res::Panic(_) = r.res { continue; }
        if w.hist[..r.end].iter().any(|h| matches!(h.h, H::Hup { .. })) { continue; }
        if any_fault(w, r.th, r.beg, r.end) { continue; }
        if let Res::Err(c, m) = &r.res { return v(format!("op {} failed with {} {} although nothing went wrong", r.id, c, m)); }
        let limit = t.map(|(s, n)| s.saturating_mul(1_000_000_000).saturating_add(n as u64 % 1_000_000_000));
        let el = r.te - r.tb;
        // a handler of the library ran since the last read took one
        let woken = w.hist[..r.end].iter().any(|h| matches!(h.h, H::Hand { kind: 9, .. }));
        let none = matches!(r.res, Res::Ev(None) | Res::Bool(false));
        if none && !woken {
            match limit {
                Some(l) if el < l => return v(format!("op {} with a timeout of {} ns reported nothing after {} ns", r.id, l, el)),
                None => return v(format!("op {} without a timeout reported nothing after {} ns", r.id, el)),
                _ => {}
            }
        }
        // (a wait rounds up to milliseconds)
        if let Some(l) = limit { if el > l.saturating_add(3 * MS) { return v(format!("op {} with a timeout of {} ns returned after {} ns", r.id, l, el)); } }
        // what it should have seen
        let mut seen: Option<u64> = None;
        if let Some(p) = pos.get(&r.id) { if r.ab[0] > *p { seen = Some(r.tb) } }
        if seen.is_none() { seen = arr.iter().find(|(_, i, _)| *i > r.beg && *i < r.end).map(|a| a.0.max(r.tb)) }
        if let Some(s) = seen { if r.te > s.saturating_add(MS) { return v(format!("op {} returned {} ns after input was there", r.id, r.te - s)); } }
    }
    None
}
