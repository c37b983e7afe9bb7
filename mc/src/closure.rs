//! Breadth-first search of the product of two machines that are fed the same
//! stream, deduplicated by their complete states: when it completes, every
//! stream over the alphabet, of any length, has been covered, cut into slices
//! of up to k bytes in every way.

use crate::drive::hex;
use crate::engine::{caught, tick, trace, tracing, Worker};
use crate::refm::{Iface, RefM, Spec};
use crate::subj::{Cfg, Fce, Incr, Subject};
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// real code, fed the slices as they come
    Sliced(Iface),
    /// real code, fed byte by byte
    Bytes(Iface),
    /// the reference model
    Ref(Iface),
}

pub enum Side {
    I { i: Box<dyn Incr>, pos: usize, last: usize, bytes: bool },
    F { f: Box<dyn Fce>, buf: Vec<u8>, base: usize, last: usize, bytes: bool },
    R { r: RefM, pos: usize },
}

impl Side {
    pub fn new(cfg: &dyn Cfg, spec: &Arc<Spec>, k: Kind) -> Side {
        match k {
            Kind::Sliced(Iface::Incr) => Side::I { i: cfg.incr(), pos: 0, last: 0, bytes: false },
            Kind::Bytes(Iface::Incr) => Side::I { i: cfg.incr(), pos: 0, last: 0, bytes: true },
            Kind::Sliced(Iface::Fce) => Side::F { f: cfg.fce(), buf: vec![], base: 0, last: 0, bytes: false },
            Kind::Bytes(Iface::Fce) => Side::F { f: cfg.fce(), buf: vec![], base: 0, last: 0, bytes: true },
            Kind::Ref(i) => Side::R { r: RefM::new(spec, i), pos: 0 },
        }
    }

    pub fn feed(&mut self, d: &[u8], out: &mut Vec<usize>) -> Result<(), String> {
        match self {
            Side::R { r, pos } => {
                for &b in d {
                    r.feed_at(*pos, b, out);
                    *pos += 1;
                }
                Ok(())
            }
            Side::I { i, pos, last, bytes } => {
                let mut one = |d: &[u8]| -> Result<(), String> {
                    let mut d = d;
                    loop {
                        tick();
                        let r = i.push(d);
                        if tracing() {
                            trace(|| format!("push({}) at {pos} = {r:?}", hex(d)));
                        }
                        match r {
                            None => {
                                *pos += d.len();
                                return Ok(());
                            }
                            Some(x) => {
                                if x > d.len() {
                                    return Err(format!("push of {} bytes returned index {x}", d.len()));
                                }
                                *pos += x;
                                if *pos <= *last {
                                    return Err(format!("edge at {pos} is not beyond the previous one at {last}"));
                                }
                                *last = *pos;
                                out.push(*pos);
                                d = &d[x..];
                                if d.is_empty() {
                                    return Ok(());
                                }
                            }
                        }
                    }
                };
                if *bytes {
                    for b in d {
                        one(std::slice::from_ref(b))?;
                    }
                    Ok(())
                } else {
                    one(d)
                }
            }
            Side::F { f, buf, base, last, bytes } => {
                let mut one = |d: &[u8]| -> Result<(), String> {
                    buf.extend_from_slice(d);
                    loop {
                        tick();
                        let (r, disc) = f.find(buf);
                        if tracing() {
                            trace(|| format!("find_chunk_edge({}) at {base} = ({r:?}, {disc})", hex(buf)));
                        }
                        if disc > buf.len() || r.map(|x| x > buf.len()).unwrap_or(false) {
                            return Err(format!("find_chunk_edge on {} bytes returned ({r:?}, {disc})", buf.len()));
                        }
                        if let Some(x) = r {
                            let e = *base + x;
                            if e <= *last {
                                return Err(format!("edge at {e} is not beyond the previous one at {last}"));
                            }
                            *last = e;
                            out.push(e);
                        }
                        buf.drain(..disc);
                        *base += disc;
                        if r.is_none() {
                            return Ok(());
                        }
                    }
                };
                if *bytes {
                    for b in d {
                        one(std::slice::from_ref(b))?;
                    }
                    Ok(())
                } else {
                    one(d)
                }
            }
        }
    }

    /// Complete state, up to translation along the stream.
    pub fn key(&self) -> String {
        match self {
            Side::I { i, .. } => i.key(),
            Side::F { f, buf, .. } => format!("{} {}", f.key(), hexfull(buf)),
            Side::R { r, .. } => hexfull(&r.key()),
        }
    }
}

fn hexfull(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn slices(alpha: &[u8], k: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for c in &cur {
            for a in alpha {
                let mut d = c.clone();
                d.push(*a);
                nx.push(d);
            }
        }
        all.extend(nx.iter().cloned());
        cur = nx;
    }
    all
}

pub struct Node {
    parent: usize,
    slice: usize,
    depth: u32,
}

#[allow(clippy::too_many_arguments)]
pub fn closure(
    w: &mut Worker,
    s: &Subject,
    a: Kind,
    b: Kind,
    alpha: &[u8],
    k: usize,
    max_nodes: usize,
    max_depth: u32,
) {
    let cfg = (s.mk)();
    let sl = slices(alpha, k);
    let mut nodes = vec![Node { parent: 0, slice: 0, depth: 0 }];
    let mut seen: HashSet<u128> = HashSet::new();
    let key = |x: &Side, y: &Side| -> u128 {
        let t = (x.key(), y.key());
        let h1 = crate::engine::hash(&t);
        let h2 = crate::engine::hash(&(0x55aau32, &t));
        ((h1 as u128) << 64) | h2 as u128
    };
    let sub = |path: &[usize], w: &mut Worker| -> Result<(u128, usize), String> {
        let mut x = Side::new(&*cfg, &s.spec, a);
        let mut y = Side::new(&*cfg, &s.spec, b);
        let (mut ex, mut ey) = (vec![], vec![]);
        for (n, i) in path.iter().enumerate() {
            x.feed(&sl[*i], &mut ex)?;
            y.feed(&sl[*i], &mut ey)?;
            if n + 1 == path.len() && ex != ey {
                return Err(format!("{a:?} gives edges {ex:?}, {b:?} gives {ey:?}"));
            }
        }
        let ne = ex.len();
        w.outcome(&ex);
        Ok((key(&x, &y), ne))
    };
    if let Ok((h, _)) = sub(&[], w) {
        seen.insert(h);
    }
    let mut next = 0;
    let mut deepest = 0;
    let mut complete = true;
    while next < nodes.len() {
        if next % 16 == 0 && w.stopped() {
            complete = false;
            break;
        }
        let mut path = vec![];
        let mut n = next;
        while n != 0 {
            path.push(nodes[n].slice);
            n = nodes[n].parent;
        }
        path.reverse();
        let depth = nodes[next].depth;
        deepest = deepest.max(depth);
        if depth >= max_depth {
            complete = false;
            next += 1;
            continue;
        }
        for i in 0..sl.len() {
            path.push(i);
            w.st.executions += 1;
            match caught(|| sub(&path, w)) {
                Ok((h, _)) => {
                    if !seen.contains(&h) {
                        if nodes.len() >= max_nodes {
                            complete = false;
                        } else {
                            seen.insert(h);
                            nodes.push(Node { parent: next, slice: i, depth: depth + 1 });
                        }
                    }
                }
                Err(m) => {
                    let desc = path.iter().map(|i| hexfull(&sl[*i])).collect::<Vec<_>>().join("|");
                    w.violate(format!("slices {desc}"), vec![], m, vec![]);
                    return;
                }
            }
            path.pop();
        }
        next += 1;
    }
    w.st.states += seen.len() as u64;
    w.complete &= complete;
    w.note = format!(
        "{} states, depth {deepest}, slices of up to {k} over {} letters{}",
        seen.len(),
        alpha.len(),
        if complete { "; closed: holds for streams of any length over these" } else { "; not closed" }
    );
    let nt = w.note.clone();
    w.sample(|| nt);
}
