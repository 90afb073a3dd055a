//! Views of a recorded history.
use crate::kern::*;
use crate::scen::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Rec {
    pub id: u32, pub act: Act, pub o: u8, pub th: usize,
    pub beg: usize, pub end: usize, pub tb: u64, pub te: u64,
    pub ab: Vec<usize>, pub ae: Vec<usize>,
    pub res: Res,
    /// enclosing session operations, outermost first
    pub up: Vec<u32>,
}

fn index<'a>(ops: &'a [Op], up: &[u32], o: Option<u8>, m: &mut HashMap<u32, (&'a Op, Vec<u32>, u8)>) {
    for p in ops {
        let ob = o.unwrap_or(p.o);
        m.insert(p.id, (p, up.to_vec(), ob));
        if let Act::LkW { b, .. } | Act::LkR { b, .. } = &p.a {
            let mut u = up.to_vec(); u.push(p.id);
            index(b, &u, Some(ob), m);
        }
    }
}
pub fn index_ops(sc: &Scen) -> HashMap<u32, (&Op, Vec<u32>, u8)> {
    let mut m = HashMap::new();
    index(&sc.pre, &[], None, &mut m);
    for t in &sc.th { index(t, &[], None, &mut m) }
    index(&sc.post, &[], None, &mut m);
    m
}

pub fn recs(w: &World) -> Vec<Rec> {
    let m = index_ops(w.sc);
    let mut v: Vec<Rec> = vec![];
    let mut open: HashMap<u32, usize> = HashMap::new();
    for (i, h) in w.hist.iter().enumerate() {
        match &h.h {
            H::Beg { op, th, arr } => {
                let (act, up, o) = match m.get(op) {
                    Some((p, up, o)) => (p.a.clone(), up.clone(), *o),
                    None => {
                        let par = (*op - 1_000_000) / 4096;
                        let (pp, up, o) = m.get(&par).unwrap();
                        let pa = &pp.a;
                        let mut up = up.clone(); up.push(par);
                        (if matches!(pa, Act::DrainE) { Act::Rd(Some((0, 0))) } else { Act::Rw(if *op % 2 == 0 { 64 } else { 4096 }, Some((0, 0))) }, up, *o)
                    }
                };
                open.insert(*op, v.len());
                v.push(Rec { id: *op, act, o, th: *th, beg: i, end: usize::MAX, tb: h.t, te: u64::MAX, ab: arr.clone(), ae: vec![], res: Res::Skip, up });
            }
            H::End { op, arr, res, .. } => {
                if let Some(k) = open.remove(op) { let r = &mut v[k]; r.end = i; r.te = h.t; r.ae = arr.clone(); r.res = res.clone() }
            }
            _ => {}
        }
    }
    v
}

/// Number of emulator items on a terminal once the history up to (excluding) index i has happened.
pub fn items_at(w: &World, tty: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(w.hist.len() + 1);
    let mut n = 0;
    for h in &w.hist { v.push(n); if let H::Wr { tty: t, items, .. } = &h.h { if *t == tty { n = *items } } }
    v.push(n);
    v
}
/// Did a failing write (error or "nothing written") hit this thread within [a, b]?
pub fn write_failed(w: &World, th: usize, a: usize, b: usize) -> bool {
    w.hist[a..=b.min(w.hist.len() - 1)].iter().any(|h| matches!(&h.h, H::Flt { c: Call::Write, k: Fk::Err(_) | Fk::Zero, th: t, .. } if *t == th))
        || w.hist[..=b.min(w.hist.len() - 1)].iter().any(|h| matches!(&h.h, H::Hup { .. }))
}
pub fn any_fault(w: &World, th: usize, a: usize, b: usize) -> bool {
    w.hist[a..=b.min(w.hist.len() - 1)].iter().any(|h| matches!(&h.h, H::Flt { k: Fk::Err(_) | Fk::Zero, th: t, .. } if *t == th))
        || w.hist[..=b.min(w.hist.len() - 1)].iter().any(|h| matches!(&h.h, H::Hup { .. }))
}

pub fn show(h: &Hr) -> String {
    let t = h.t - 1_000_000_000;
    let s = match &h.h {
        H::Beg { op, th, .. } => format!("T{} begin op {}", th, op),
        H::End { op, th, res, .. } => format!("T{} end   op {} -> {:?}", th, op, res),
        H::Wr { tty, th, op, n, items, .. } => format!("T{} op {} device {} takes {} bytes (items {})", th, op, tty, n, items),
        H::St { op, end, s, .. } => format!("   state at the {} of op {}: iflag {:o} lflag {:o} keypad {} appcur {} mouse {:?}/{} alt {} visible {}", if *end { "end" } else { "start" }, op, s.tio[0], s.tio[3], s.m.keypad, s.m.appcur, s.m.mouse, s.m.track, s.m.alt, s.m.vis),
        x => format!("{:?}", x),
    };
    format!("{:>12} {}", t, s)
}
