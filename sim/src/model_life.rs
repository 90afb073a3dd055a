//! Failures while preparing and restoring (C14), the end of terminals (C15), locks and progress (C16, C18), descriptors (C20).
use crate::hist::*;
use crate::kern::*;
use crate::model_out;
use crate::model_prep::{in_mode, not_more, rest, states};
use crate::scen::*;
use std::collections::HashMap;

type V = Option<(String, String)>;
fn v(c: &str, m: String) -> V { Some((c.to_string(), m)) }

/// Errors injected into the calls of one operation, in order.
fn hard(w: &World, r: &Rec) -> Vec<(Call, Fk)> {
    w.hist[r.beg..r.end.min(w.hist.len())].iter().filter_map(|h| match &h.h {
        H::Flt { c, k, th, .. } if *th == r.th && (matches!(k, Fk::Err(_) | Fk::Zero) || (matches!(k, Fk::Eintr) && matches!(c, Call::TcSet | Call::TcGet))) => Some((*c, *k)),
        _ => None,
    }).collect()
}
fn code(k: &Fk) -> i32 { match k { Fk::Err(e) => *e, Fk::Zero => -2, _ => libc::EINTR } }
fn ndisp(a: &St, b: &St) -> usize { (0..STSIGS.len()).filter(|i| a.disp[*i] != b.disp[*i]).count() }
fn modes_differ(a: &St, b: &St, t: &crate::terms::Term) -> Option<String> {
    let _ = t;
    if (a.m.keypad, a.m.appcur) != (b.m.keypad, b.m.appcur) { return Some(format!("keypad and cursor key modes were {:?} and are {:?}", (a.m.keypad, a.m.appcur), (b.m.keypad, b.m.appcur))); }
    if (&a.m.mouse, a.m.track) != (&b.m.mouse, b.m.track) { return Some(format!("mouse modes were {:?} ({}) and are {:?} ({})", a.m.mouse, a.m.track, b.m.mouse, b.m.track)); }
    if a.m.alt != b.m.alt { return Some(format!("the alternate screen was {} and is {}", a.m.alt, b.m.alt)); }
    None
}
/// Did the last write of an operation get through?
fn last_write(w: &World, r: &Rec) -> Option<bool> { w.hist[r.beg..r.end.min(w.hist.len())].iter().rev().find_map(|h| match &h.h { H::Wr { th, .. } if *th == r.th => Some(true), H::Flt { c: Call::Write, k: Fk::Err(_) | Fk::Zero, th, .. } if *th == r.th => Some(false), _ => None }) }
fn is_out(a: &Act) -> bool { matches!(a, Act::W(_) | Act::Cm(_) | Act::Fm(_) | Act::Ch(_)) }

/// C14: single-threaded histories of prepare, restore, screens and errors.
pub fn failing(w: &World) -> V {
    let rs = recs(w);
    let st = states(w);
    let t = model_out::term(&w.sc.cfg.term);
    let mut by: Vec<&Rec> = rs.iter().filter(|r| r.end != usize::MAX && r.res != Res::Skip && r.o == 0).collect();
    by.sort_by_key(|r| r.end);
    struct P<'a> { r: &'a Rec, c: PCfg, clean: bool, sig: usize }
    let mut stack: Vec<P> = vec![];
    // all output has reached the device
    let mut clean = true;
    // modes the device is to have once output gets through again
    let mut due: Option<(St, String)> = None;
    let mut sigf = 0;
    // output was discarded for good
    let mut lost = false;
    let mut scr: Option<(St, PCfg, usize)> = None;
    for r in by {
        let (a, b) = match (st.get(&(r.id, false)), st.get(&(r.id, true))) { (Some(a), Some(b)) => (*a, *b), _ => continue };
        let f = hard(w, r);
        let nw = f.iter().filter(|x| x.0 == Call::Write).count();
        // the terminal lacks what a screen needs: creating one fails even if nothing else goes wrong
        let unable = matches!(r.act, Act::NewS(..) | Act::WithT(_)) && !(t.csr && t.home && t.clear);
        let later = |c: Call| f.iter().skip(if unable { 0 } else { 1 }).filter(|x| x.0 == c).count();
        let names = |f: &[(Call, Fk)]| if unable && f.is_empty() { "it is not supported".into() } else { f.iter().map(|(c, k)| format!("{:?} {:?}", c, k)).collect::<Vec<_>>().join(", ") };
        let has = |c: Call| f.iter().any(|x| x.0 == c);
        let reported = |k: i32| f.iter().any(|x| code(&x.1) == k);
        let sess = matches!(r.act, Act::LkW { .. } | Act::LkR { .. });
        // an operation that got all of its output through, and all that was waiting
        let through = nw == 0 && r.res != Res::Would && (is_out(&r.act) && r.up.is_empty() || matches!(r.act, Act::LkW { .. } | Act::Pr(_) | Act::Re | Act::Rf | Act::Fl));
        match &r.act {
            Act::Pr(c) => {
                due = None;
                match &r.res {
                    Res::Ok => {
                        if !f.is_empty() { return v("unreported", format!("prepare (op {}) succeeded although {} failed", r.id, names(&f))); }
                        if let Err(m) = in_mode(b, c, t).and_then(|_| if lost { Ok(()) } else { not_more(b, c, w.sc) }).and_then(|_| rest(a, b, c)) { return v("modes", format!("after prepare (op {}): {}", r.id, m)); }
                        stack.push(P { r, c: *c, clean, sig: sigf });
                    }
                    Res::Err(k, m) => {
                        if f.is_empty() { return v("error", format!("prepare (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); }
                        if !reported(*k) { return v("error", format!("prepare (op {}) reports {} {}, but what failed was {}", r.id, k, m, names(&f))); }
                        let why = format!("prepare (op {}) failed ({})", r.id, names(&f));
                        if later(Call::TcSet) == 0 && a.tio != b.tio { return v("undo", format!("{} and left the terminal settings changed: {:x?} became {:x?}", why, a.tio, b.tio)); }
                        if ndisp(a, b) > later(Call::SigAct) { return v("undo", format!("{} and left the signal dispositions {:x?}, which were {:x?}", why, b.disp, a.disp)); }
                        let outer = stack.last().map_or(true, |p| in_mode(a, &p.c, t).is_ok());
                        if clean && outer {
                            if later(Call::Write) == 0 { if let Some(m) = modes_differ(a, b, t) { return v("undo", format!("{}: {}", why, m)); } }
                            else { due = Some((a.clone(), why)) }
                        }
                    }
                    _ => {}
                }
            }
            Act::Re => {
                due = None;
                let p = match stack.pop() { Some(p) => p, None => continue };
                let before = st[&(p.r.id, false)];
                match &r.res {
                    Res::Ok => if !f.is_empty() { return v("unreported", format!("restore (op {}) succeeded although {} failed", r.id, names(&f))); },
                    Res::Err(k, m) => {
                        if f.is_empty() { return v("error", format!("restore (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); }
                        if !reported(*k) { return v("error", format!("restore (op {}) reports {} {}, but what failed was {}", r.id, k, m, names(&f))); }
                    }
                    _ => continue,
                }
                let why = format!("restore (op {}) of prepare (op {}){}", r.id, p.r.id, if f.is_empty() { String::new() } else { format!(" with failing {}", names(&f)) });
                if !has(Call::TcSet) && before.tio != b.tio { return v("steps", format!("{} did not restore the terminal settings: they were {:x?} and are {:x?}", why, before.tio, b.tio)); }
                let fs = sigf - p.sig + f.iter().filter(|x| x.0 == Call::SigAct).count();
                if ndisp(before, b) > fs { return v("steps", format!("{} did not restore the signal dispositions: they were {:x?} and are {:x?}", why, before.disp, b.disp)); }
                if p.clean && stack.last().map_or(true, |o| in_mode(before, &o.c, t).is_ok()) {
                    if nw == 0 { if let Some(m) = modes_differ(before, b, t) { return v("steps", format!("{}: {}", why, m)); } }
                    else { due = Some((before.clone(), why)) }
                }
            }
            Act::NewS(_, c) | Act::WithT(c) => {
                due = None;
                match &r.res {
                    Res::Ok => {
                        let g: Vec<(Call, Fk)> = f.iter().filter(|x| x.0 != Call::Write).copied().collect();
                        if !g.is_empty() { return v("unreported", format!("the new screen (op {}) succeeded although {} failed", r.id, names(&g))); }
                        if nw == 0 { if let Err(m) = in_mode(b, c, t).and_then(|_| if lost { Ok(()) } else { not_more(b, c, w.sc) }).and_then(|_| rest(a, b, c)) { return v("modes", format!("after creating the screen (op {}): {}", r.id, m)); } }
                        scr = Some((a.clone(), *c, sigf));
                        if !clean { scr = None }
                    }
                    Res::Err(k, m) => {
                        if f.is_empty() && !unable { return v("error", format!("creating the screen (op {}) failed with {} {} although nothing went wrong", r.id, k, m)); }
                        if !reported(*k) && !unable { return v("error", format!("creating the screen (op {}) reports {} {}, but what failed was {}", r.id, k, m, names(&f))); }
                        let why = format!("creating the screen (op {}) failed ({})", r.id, names(&f));
                        if later(Call::TcSet) == 0 && a.tio != b.tio { return v("undo", format!("{} and left the terminal settings changed: {:x?} became {:x?}", why, a.tio, b.tio)); }
                        if ndisp(a, b) > later(Call::SigAct) { return v("undo", format!("{} and left the signal dispositions {:x?}, which were {:x?}", why, b.disp, a.disp)); }
                        if clean && later(Call::Write) == 0 {
                            if let Some(m) = modes_differ(a, b, t) { return v("undo", format!("{}: {}", why, m)); }
                            if a.m.vis && !b.m.vis { return v("undo", format!("{} and left the cursor invisible", why)); }
                            if t.smcup && t.rmcup && a.normal != b.normal && !w.sc.cfg.err_tty && !w.hist[..r.end].iter().any(|h| matches!(h.h, H::Rs { .. })) { return v("undo", format!("{} and what the terminal displayed is lost", why)); }
                        }
                    }
                    _ => {}
                }
            }
            Act::Drop => {
                if let Some((a, _, s0)) = scr.take() {
                    let why = format!("dropping the screen (op {}){}", r.id, if f.is_empty() { String::new() } else { format!(" with failing {}", names(&f)) });
                    if !has(Call::TcSet) && a.tio != b.tio { return v("steps", format!("{} did not restore the terminal settings: they were {:x?} and are {:x?}", why, a.tio, b.tio)); }
                    let fs = sigf - s0 + f.iter().filter(|x| x.0 == Call::SigAct).count();
                    if ndisp(&a, b) > fs { return v("steps", format!("{} did not restore the signal dispositions: they were {:x?} and are {:x?}", why, a.disp, b.disp)); }
                    // the last write of the drop got through, or there were no errors
                    if last_write(w, r) == Some(true) {
                        if let Some(m) = modes_differ(&a, b, t) { return v("steps", format!("{}: {}", why, m)); }
                        if !b.m.vis && t.cnorm { return v("steps", format!("{} left the cursor invisible", why)); }
                    }
                }
                due = None;
            }
            _ => {}
        }
        if through && matches!(r.res, Res::Ok | Res::Got(_)) && !sess || (sess && through) {
            if let Some((s, why)) = due.take() { if !matches!(r.act, Act::Pr(_) | Act::Re) { if let Some(m) = modes_differ(&s, b, t) { return v("queued", format!("{}; after output got through again (op {}): {}", why, r.id, m)); } } else { due = Some((s, why)) } }
            clean = !lost;
        }
        if nw > 0 { clean = false }
        if matches!(r.act, Act::Drop) || matches!(r.act, Act::NewS(..) | Act::WithT(_)) && r.res != Res::Ok {
            if last_write(w, r) == Some(false) { lost = true } else { clean = !lost }
        }
        if !sess { sigf += f.iter().filter(|x| x.0 == Call::SigAct).count() }
    }
    None
}

/// The operation a thread is in at a point of the history.
fn innermost(w: &World, th: usize, at: usize) -> Option<u32> {
    let mut s: Vec<u32> = vec![];
    for h in &w.hist[..at] { match &h.h { H::Beg { op, th: t, .. } if *t == th => s.push(*op), H::End { op, th: t, .. } if *t == th => s.retain(|x| x != op), _ => {} } }
    s.last().copied()
}
/// No panic comes out of a drop; all panics are those of poisoned locks.
fn drop_panics(w: &World, rs: &[Rec]) -> V {
    for (i, h) in w.hist.iter().enumerate() {
        if let H::Note(m) = &h.h { if let Some(x) = m.strip_prefix("panic on thread ") {
            let th: usize = x.split(':').next().and_then(|n| n.parse().ok()).unwrap_or(0);
            if let Some(op) = innermost(w, th, i) { if rs.iter().any(|r| r.id == op && matches!(r.act, Act::Drop | Act::PDrop | Act::Panic | Act::Nop | Act::Nap(_))) { return v("panic", format!("dropping panicked (op {}): {}", op, m)); } }
        } }
    }
    None
}

/// C15: the state the terminal is in once everything has been dropped.
pub fn ended(w: &World) -> V {
    let rs = recs(w);
    let st = states(w);
    if let Some(x) = drop_panics(w, &rs) { return Some(x); }
    let first = match rs.iter().filter(|r| r.th == 0).min_by_key(|r| r.beg).and_then(|r| st.get(&(r.id, false))) { Some(s) => (*s).clone(), None => return None };
    let last = w.st();
    let werr = |i: usize| matches!(&w.hist[i].h, H::Flt { c: Call::Write, k: Fk::Err(_) | Fk::Zero, .. });
    let post = rs.iter().find(|r| matches!(r.act, Act::Drop | Act::PDrop) && w.sc.post.iter().any(|o| o.id == r.id)).map_or(0, |r| r.beg);
    let midway = rs.iter().any(|r| r.beg < post && (matches!(r.act, Act::Drop | Act::PDrop) && r.res != Res::Skip || matches!(r.act, Act::NewS(..) | Act::WithT(_)) && r.res != Res::Ok));
    // output waits for the device to accept it: only if the last of all writes failed something may be missing
    let final_ok = w.hist.iter().rev().find_map(|h| match &h.h { H::Wr { .. } => Some(true), H::Flt { c: Call::Write, k: Fk::Err(_) | Fk::Zero, .. } => Some(false), _ => None }).unwrap_or(true);
    let hit = (0..w.hist.len()).any(|i| werr(i) && (midway || i >= post)) && (w.sc.cfg.err_tty || !final_ok);
    let screen = w.sc.pre.iter().any(|o| matches!(o.a, Act::NewS(..) | Act::WithT(_)));
    // (another thread's panic may have kept the object of a session alive: everything is dropped by now)
    if screen {
        if let Some(m) = crate::model_prep::differs(&first, &last, !hit) { return v("left", format!("after the screen was dropped: {}", m)); }
        if !hit && last.m.alt { return v("left", "after the screen was dropped the terminal is still on its alternate screen".into()); }
    }
    let dev = w.sc.cfg.err_tty || !w.sc.pre.iter().any(|o| matches!(o.a, Act::NewT(1) | Act::NewS(1, _)));
    // what was displayed before is displayed again, if there is an alternate screen
    let t = crate::model_out::term(&w.sc.cfg.term);
    if screen && t.smcup && t.rmcup && dev && !w.sc.cfg.err_tty && !w.hist.iter().any(|h| matches!(h.h, H::Rs { .. } | H::Foreign(_))) && !(0..w.hist.len()).any(werr) {
        let new = rs.iter().filter(|r| matches!(r.act, Act::NewS(..) | Act::WithT(_)) && r.res == Res::Ok).last();
        if let Some(s) = new.and_then(|r| st.get(&(r.id, false))) {
            if s.normal.0 != last.normal.0 { return v("left", "what the terminal displayed before the screen was made is not displayed again after it was dropped".into()); }
            if s.normal.1 != last.normal.1 { return v("left", format!("the cursor was at {:?} before the screen was made, and is at {:?} after it was dropped", s.normal.1, last.normal.1)); }
        }
    }
    if let (true, false, Some((a, b)), false) = (screen, hit, w.ttys[0].emu.partly(), w.hist.iter().any(|h| matches!(h.h, H::Rs { .. }))) { return v("left", format!("after the screen was dropped only lines {} to {} scroll", a, b)); }
    if screen && !hit && w.ttys[0].emu.at != At::default() { return v("attributes", format!("after the screen was dropped text is still displayed with {:?}", w.ttys[0].emu.at)); }
    if !hit && !last.m.vis { return v("left", "the cursor is invisible after everything was dropped".into()); }
    // (messages about errors go to the same terminal)
    let mixed = w.sc.cfg.err_tty && (0..w.hist.len()).any(werr);
    if !screen && !hit && dev && !mixed {
        let txt: String = w.ttys[0].emu.items.iter().map(|i| match i { crate::emu::It::T(c, _) => *c, _ => '\u{1}' }).collect();
        for r in rs.iter().filter(|r| r.res == Res::Ok) { if let Act::W(s) = &r.act { if txt.matches(s.as_str()).count() != 1 { return v("output", format!("the text of op {} was accepted, but the device shows it {} times: {:?}", r.id, txt.matches(s.as_str()).count(), s)); } } }
    }
    None
}

// ---------------------------------------------------------------- progress (C16) and locks (C18)
fn read_kind(a: &Act) -> bool { matches!(a, Act::Rd(_) | Act::Wt(_) | Act::Rw(..) | Act::Drain | Act::DrainE) }
fn write_kind(a: &Act) -> bool { !read_kind(a) && !matches!(a, Act::LkR { .. } | Act::LkW { .. } | Act::Pr(_) | Act::Re | Act::NewT(_) | Act::NewS(..) | Act::WithT(_) | Act::Drop | Act::PDrop | Act::Panic | Act::Nap(_) | Act::Quiet | Act::Nop | Act::Name) }
/// Called when no thread can run: nobody may be kept waiting by someone who does not hold what is waited for.
pub fn blocked(w: &World) {
    let n = w.nth;
    if (0..n).filter(|i| matches!(w.th[*i].wait, Wait::Futex { .. }) && !w.th[*i].done).count() == 0 { return; }
    let ops = index_ops(w.sc);
    // held guards and the innermost operation of every thread
    let (mut wg, mut rg) = (vec![0i32; n], vec![0i32; n]);
    for h in &w.hist { if let H::Guard { th, w: wr, acq, .. } = &h.h { if *th < n { let d = if *acq { 1 } else { -1 }; if *wr { wg[*th] += d } else { rg[*th] += d } } } }
    let act = |i: usize| -> Option<(u32, Act)> { w.th[i].frames.last().map(|f| (f.op, if f.op >= 1_000_000 { Act::Rd(None) } else { ops.get(&f.op).map_or(Act::Nop, |x| x.0.a.clone()) })) };
    let futex = |i: usize| matches!(w.th[i].wait, Wait::Futex { .. });
    let live = |i: usize| !w.th[i].done && w.th[i].started;
    for i in 0..n {
        if !live(i) || !futex(i) { continue; }
        let (op, a) = match act(i) { Some(x) => x, None => continue };
        let acquiring_w = matches!(a, Act::LkW { .. }) && !w.hist.iter().any(|h| matches!(&h.h, H::Guard { op: o, acq: true, .. } if *o == op));
        let acquiring_r = matches!(a, Act::LkR { .. }) && !w.hist.iter().any(|h| matches!(&h.h, H::Guard { op: o, acq: true, .. } if *o == op));
        if let Act::LkW { tr: true, .. } | Act::LkR { tr: true, .. } = a { if acquiring_w || acquiring_r { fail("try-lock", format!("try_lock (op {}) waits: {}", op, w.describe())) } }
        let others = |f: &dyn Fn(usize) -> bool| (0..n).any(|x| x != i && live(x) && f(x));
        if acquiring_w || write_kind(&a) {
            // (a guard being released writes as well; a read that is slow to write applies the modes of a continued program)
            let holder = others(&|x| wg[x] > 0 || !futex(x) && act(x).map_or(false, |(_, b)| (!read_kind(&b) || matches!(w.th[x].wait, Wait::Until { .. })) && !matches!(b, Act::Nap(_) | Act::Nop) && !(matches!(w.th[x].wait, Wait::Fds { .. } | Wait::Read { .. } | Wait::Join))));
            if !holder { fail("writer-blocked", format!("a write operation (op {}) has to wait although nobody writes or holds the write lock: {}", op, w.describe())) }
        }
        if acquiring_r || read_kind(&a) {
            if rg[i] > 0 { fail("reader-blocked", format!("a read (op {}) by the holder of the read lock has to wait for a lock: {}", op, w.describe())) }
            let holder = others(&|x| rg[x] > 0 || act(x).map_or(false, |(_, b)| matches!(b, Act::Pr(_) | Act::Re | Act::LkR { .. }) || read_kind(&b) && !futex(x)));
            if !holder { fail("reader-blocked", format!("a read (op {}) has to wait for a lock although nobody reads or holds the read lock: {}", op, w.describe())) }
        }
    }
}

/// C18: exclusive guards, try-locks, poisoning.
pub fn locks(w: &World) -> V {
    let rs = recs(w);
    let by: HashMap<u32, &Rec> = rs.iter().map(|r| (r.id, r)).collect();
    // exclusion
    let mut held: HashMap<(u8, bool), (usize, u32)> = HashMap::new();
    // when panics began to unwind guards: (object, write, index of the release, end of the operation)
    let mut pois: Vec<(u8, bool, usize, usize)> = vec![];
    for (i, h) in w.hist.iter().enumerate() {
        if let H::Guard { th, obj, w: wr, acq, op } = &h.h {
            if *acq {
                if let Some((t, o)) = held.get(&(*obj, *wr)) { return v("exclusion", format!("thread {} (op {}) got the {} lock while thread {} holds it (op {})", th, op, if *wr { "write" } else { "read" }, t, o)); }
                held.insert((*obj, *wr), (*th, *op));
            } else {
                if held.get(&(*obj, *wr)).map_or(false, |x| x.1 == *op) { held.remove(&(*obj, *wr)); }
                if let Some(r) = by.get(op) { if matches!(r.res, Res::Panic(_)) { pois.push((*obj, *wr, i, r.end)) } }
            }
        }
    }
    let sigs = all_have_resumes(w.sc);
    for r in &rs {
        if r.end == usize::MAX { continue; }
        let (wr, tr) = match &r.act { Act::LkW { tr, .. } => (true, *tr), Act::LkR { tr, .. } => (false, *tr), _ => continue };
        let uses = |x: &Rec| -> bool {
            if x.o != r.o { return false; }
            match &x.act {
                Act::Nap(_) | Act::Nop | Act::Quiet | Act::Name => false,
                Act::Pr(_) | Act::Re | Act::NewT(_) | Act::NewS(..) | Act::WithT(_) | Act::Drop | Act::PDrop | Act::Panic => true,
                Act::LkW { .. } => wr, Act::LkR { .. } => !wr,
                a if read_kind(a) => !wr || sigs,
                _ => wr,
            }
        };
        match &r.res {
            Res::Would => {
                if !tr { return v("lock", format!("lock (op {}) reports that it would block", r.id)); }
                if !rs.iter().any(|x| x.th != r.th && x.beg < r.end && x.end > r.beg && x.res != Res::Skip && uses(x)) { return v("try-lock", format!("try_lock (op {}) would block although nobody else uses the lock", r.id)); }
            }
            Res::Got(p) => {
                let acq = w.hist.iter().position(|h| matches!(&h.h, H::Guard { op, acq: true, .. } if *op == r.id)).unwrap_or(r.beg);
                let sure = pois.iter().any(|x| x.0 == r.o && x.1 == wr && x.3 < r.beg);
                let maybe = pois.iter().any(|x| x.0 == r.o && x.1 == wr && x.2 < acq);
                if sure && !p { return v("poison", format!("{} (op {}) does not report that a thread panicked holding the lock", if tr { "try_lock" } else { "lock" }, r.id)); }
                if *p && !maybe { return v("poison", format!("{} (op {}) reports poisoning although no thread panicked holding the lock", if tr { "try_lock" } else { "lock" }, r.id)); }
            }
            _ => {}
        }
    }
    // guards work, also those of poisoned locks
    for r in &rs {
        if r.end == usize::MAX || r.up.is_empty() { continue; }
        let mine = r.up.iter().any(|u| by.get(u).map_or(false, |x| matches!((&x.act, &r.act), (Act::LkW { .. }, a) if write_kind(a)) || matches!((&x.act, &r.act), (Act::LkR { .. }, a) if read_kind(a))));
        if !mine { continue; }
        match &r.res {
            Res::Err(k, m) if !any_fault(w, r.th, r.beg, r.end) && !m.contains("invalid utf-8") && !(*k == libc::EINTR && w.hist[r.beg..r.end].iter().any(|h| matches!(&h.h, H::Flt { c: Call::TcSet, th, .. } if *th == r.th))) => return v("guard", format!("op {} {:?} under a guard failed: {} {}", r.id, r.act, k, m)),
            Res::Panic(m) if m == "unexpected" => return v("guard", format!("op {} {:?} under a guard panicked", r.id, r.act)),
            _ => {}
        }
    }
    let screen = w.sc.pre.iter().any(|o| matches!(o.a, Act::NewS(..) | Act::WithT(_)));
    if !screen && !w.sc.cfg.err_tty {
        let txt: String = w.ttys[0].emu.items.iter().map(|i| match i { crate::emu::It::T(c, _) => *c, _ => '\u{1}' }).collect();
        for r in rs.iter().filter(|r| r.res == Res::Ok) { if let Act::W(s) = &r.act { if !s.is_empty() && txt.matches(s.as_str()).count() != 1 { return v("output", format!("the text of op {} was accepted, but the device shows it {} times: {:?}", r.id, txt.matches(s.as_str()).count(), s)); } } }
        // what was written under one guard is in one piece
        for l in rs.iter().filter(|r| matches!(r.act, Act::LkW { .. }) && matches!(r.res, Res::Got(_))) {
            let s: String = rs.iter().filter(|r| r.up.last() == Some(&l.id) && r.res == Res::Ok).filter_map(|r| match &r.act { Act::W(s) => Some(s.as_str()), _ => None }).collect();
            if !txt.replace('\u{1}', "").contains(&s) { return v("output", format!("the text written under the guard of op {} is not in one piece: {:?}", l.id, s)); }
        }
    }
    None
}
fn all_have_resumes(sc: &Scen) -> bool {
    let r = |e: &Ev| matches!(e, Ev::Rs(..) | Ev::StopCont(..)) || matches!(e, Ev::Sig(s, _) if *s == libc::SIGCONT || *s == libc::SIGWINCH);
    sc.trig.iter().any(|t| r(&t.ev)) || sc.tl.iter().any(|t| r(&t.ev)) || sc.fault.iter().any(|f| matches!(f.k, Fk::EintrSig(s) if s == libc::SIGCONT || s == libc::SIGWINCH))
}

// ---------------------------------------------------------------- descriptors (C20)
pub fn handles(w: &World) -> V {
    let rs = recs(w);
    if let Some((fd, (k, _))) = w.fds.iter().find(|(fd, (k, _))| **fd >= SIMFD && matches!(k, Fd::Tty(_))) { return v("leak", format!("descriptor {} ({:?}) is still open after everything was dropped", fd, k)); }
    if w.fds.values().filter(|x| matches!(x.0, Fd::PipeR(_))).count() > 1 || w.fds.values().filter(|x| matches!(x.0, Fd::PipeW(_))).count() > 1 { return v("leak", format!("descriptors of pipes are left over: {:?}", w.fds)); }
    for i in 0..=2 { if !w.fds.contains_key(&i) { return v("closed", format!("standard descriptor {} is closed", i)); } }
    let close = |fd: i32| w.hist.iter().position(|h| matches!(&h.h, H::Close { fd: f } if *f == fd));
    for (i, h) in w.hist.iter().enumerate() {
        let (fd, op) = match &h.h { H::Open { fd, op, .. } => (*fd, *op), _ => continue };
        let n = w.hist.iter().filter(|h| matches!(&h.h, H::Close { fd: f } if *f == fd)).count();
        if n != 1 { return v("closes", format!("descriptor {} is closed {} times", fd, n)); }
        let at = close(fd).unwrap();
        let r = match rs.iter().find(|r| r.id == op && matches!(r.act, Act::NewT(_)) && r.end != usize::MAX) { Some(r) => r, None => continue };
        match r.res {
            Res::Ok => {
                // the handle lives until an operation ends the life of the object (one that replaces it may be a screen made from its predecessor)
                let ends = rs.iter().any(|x| x.id != r.id && x.o == r.o && x.beg < at && x.end > i && matches!(x.act, Act::Drop | Act::PDrop | Act::NewT(_) | Act::NewS(..) | Act::WithT(_)) && (x.th != r.th || x.res != Res::Skip && !(matches!(x.act, Act::WithT(_)) && x.res == Res::Ok)));
                if !ends { return v("early", format!("descriptor {} was closed while its terminal (op {}) still lives", fd, r.id)); }
            }
            _ => if at > r.end { return v("late", format!("descriptor {} of the terminal that could not be created (op {}) was closed late", fd, r.id)); },
        }
    }
    // single-threaded ends of life close the handle at once
    for r in rs.iter().filter(|r| w.sc.th.len() <= 1 && matches!(r.act, Act::Drop | Act::PDrop) && r.res != Res::Skip) {
        let open = w.hist[..r.end].iter().filter(|h| matches!(h.h, H::Open { .. })).count() - w.hist[..r.end].iter().filter(|h| matches!(&h.h, H::Close { fd } if *fd >= SIMFD && w.hist.iter().any(|x| matches!(&x.h, H::Open { fd: f, .. } if f == fd)))).count();
        // objects alive at that point
        let mut live: HashMap<u8, bool> = HashMap::new();
        let mut ends: Vec<&Rec> = rs.iter().filter(|x| x.end <= r.end).collect();
        ends.sort_by_key(|x| x.end);
        for x in ends { match (&x.act, &x.res) { (Act::NewT(s), Res::Ok) => { live.insert(x.o, *s >= 2); } (Act::NewS(..), Res::Ok) => { live.insert(x.o, false); } (Act::WithT(_), Res::Err(..) | Res::Panic(_)) => { live.remove(&x.o); } (Act::Drop | Act::PDrop, y) if *y != Res::Skip => { live.remove(&x.o); } _ => {} } }
        let want = live.values().filter(|x| **x).count();
        if open != want { return v("count", format!("after op {} {} descriptors are open, but {} terminals that own one live", r.id, open, want)); }
    }
    None
}
