//! Drivers: feed a stream to the real code following a schedule, checking on
//! the way that the results can be followed at all.

use crate::engine::{tick, trace, tracing, Chooser};
use crate::refm::Iface;
use crate::subj::{Cfg, Fce, Incr};

pub fn hex(d: &[u8]) -> String {
    let mut s = String::new();
    for b in d.iter().take(96) {
        s.push_str(&format!("{b:02x}"));
    }
    if d.len() > 96 {
        s.push_str(&format!("..({} bytes)", d.len()));
    }
    s
}

/// Incremental chunker with its position in the stream.
pub struct IncrRun<'d> {
    pub i: Box<dyn Incr>,
    pub data: &'d [u8],
    pub pos: usize,
    pub edges: Vec<usize>,
}

/// Buffered search with its buffer data[base..end].
pub struct FceRun<'d> {
    pub f: Box<dyn Fce>,
    pub data: &'d [u8],
    pub base: usize,
    pub end: usize,
    pub edges: Vec<usize>,
    /// (found, buffer length, discard, index) of every call
    pub on_call: Option<fn(usize, Option<usize>, usize) -> Result<(), String>>,
    /// bytes kept after calls without an edge: maximum
    pub max_kept: usize,
    /// bytes kept before an edge: maximum
    pub max_kept_edge: usize,
}

fn note_edge(edges: &mut Vec<usize>, e: usize) -> Result<(), String> {
    let last = edges.last().copied().unwrap_or(0);
    if e <= last {
        return Err(format!("edge at {e} is not beyond the previous one at {last} (empty chunk)"));
    }
    edges.push(e);
    Ok(())
}

impl<'d> IncrRun<'d> {
    pub fn new(cfg: &dyn Cfg, data: &'d [u8]) -> Self {
        IncrRun { i: cfg.incr(), data, pos: 0, edges: vec![] }
    }
    /// One push of data[pos..end]; true if it reported an edge.
    pub fn push(&mut self, end: usize) -> Result<bool, String> {
        let d = &self.data[self.pos..end];
        tick();
        let r = self.i.push(d);
        if tracing() {
            let p = self.pos;
            trace(|| format!("push(data[{p}..{end}]) = {r:?}"));
        }
        match r {
            None => {
                self.pos = end;
                Ok(false)
            }
            Some(x) => {
                if x > d.len() {
                    return Err(format!("push of {} bytes returned index {x}", d.len()));
                }
                self.pos += x;
                note_edge(&mut self.edges, self.pos)?;
                Ok(true)
            }
        }
    }
    /// Pushes data[pos..end], and the data following each edge in it.
    pub fn feed(&mut self, end: usize) -> Result<(), String> {
        while self.push(end)? && self.pos < end {}
        Ok(())
    }
}

impl<'d> FceRun<'d> {
    pub fn new(cfg: &dyn Cfg, data: &'d [u8]) -> Self {
        FceRun { f: cfg.fce(), data, base: 0, end: 0, edges: vec![], on_call: None, max_kept: 0, max_kept_edge: 0 }
    }
    /// One call with the buffer extended to `end`; true if it reported an edge.
    pub fn find(&mut self, end: usize) -> Result<bool, String> {
        self.end = end;
        let d = &self.data[self.base..end];
        tick();
        let (r, disc) = self.f.find(d);
        if tracing() {
            let b = self.base;
            trace(|| format!("find_chunk_edge(data[{b}..{end}]) = ({r:?}, {disc})"));
        }
        if disc > d.len() {
            return Err(format!("discard of {disc} from a buffer of {}", d.len()));
        }
        if let Some(f) = self.on_call {
            f(d.len(), r, disc)?;
        }
        let found = match r {
            None => {
                self.max_kept = self.max_kept.max(d.len() - disc);
                false
            }
            Some(x) => {
                if x > d.len() {
                    return Err(format!("find_chunk_edge on {} bytes returned index {x}", d.len()));
                }
                note_edge(&mut self.edges, self.base + x)?;
                self.max_kept_edge = self.max_kept_edge.max(x.saturating_sub(disc));
                true
            }
        };
        self.base += disc;
        Ok(found)
    }
    pub fn feed(&mut self, end: usize) -> Result<(), String> {
        while self.find(end)? {}
        Ok(())
    }
}

/// Feeds the stream with slices / buffer extensions ending at the given positions.
pub fn with_bounds(cfg: &dyn Cfg, iface: Iface, data: &[u8], bounds: &mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String> {
    match iface {
        Iface::Incr => {
            let mut r = IncrRun::new(cfg, data);
            for b in bounds {
                r.feed(b)?;
            }
            if r.pos < data.len() {
                r.feed(data.len())?;
            }
            Ok(r.edges)
        }
        Iface::Fce => {
            let mut r = FceRun::new(cfg, data);
            for b in bounds {
                r.feed(b)?;
            }
            if r.end < data.len() || data.is_empty() {
                r.feed(data.len())?;
            }
            Ok(r.edges)
        }
    }
}

pub fn whole(cfg: &dyn Cfg, iface: Iface, data: &[u8]) -> Result<Vec<usize>, String> {
    with_bounds(cfg, iface, data, &mut std::iter::once(data.len()))
}

pub fn stepped(cfg: &dyn Cfg, iface: Iface, data: &[u8], step: usize) -> Result<Vec<usize>, String> {
    let n = data.len();
    with_bounds(cfg, iface, data, &mut (1..).map(|i| i * step).take_while(|b| *b < n))
}

/// Every way to slice the stream: the end of each slice is a choice (anew after
/// each edge); empty pushes are deviations.
pub fn incr_sched(cfg: &dyn Cfg, data: &[u8], ch: &mut Chooser) -> Result<Vec<usize>, String> {
    let n = data.len();
    let mut r = IncrRun::new(cfg, data);
    let mut guard = 0;
    while r.pos < n {
        if ch.dev(2) == 1 {
            let p = r.pos;
            r.push(p)?;
        }
        let end = n - ch.choose(n - r.pos);
        r.push(end)?;
        guard += 1;
        if guard > 4 * n + 8 {
            return Err("no end: the stream is not used up".into());
        }
    }
    if ch.dev(2) == 1 {
        r.push(n)?;
    }
    Ok(r.edges)
}

/// As `incr_sched`, but the data following an edge is pushed up to the end of
/// the slice chosen before.
pub fn incr_slices(cfg: &dyn Cfg, data: &[u8], ch: &mut Chooser) -> Result<Vec<usize>, String> {
    let n = data.len();
    let mut r = IncrRun::new(cfg, data);
    while r.pos < n {
        if ch.dev(2) == 1 {
            let p = r.pos;
            r.push(p)?;
        }
        let end = n - ch.choose(n - r.pos);
        r.feed(end)?;
    }
    if ch.dev(2) == 1 {
        r.push(n)?;
    }
    Ok(r.edges)
}

/// Every way to extend the buffer between calls: after a call without an edge
/// the buffer grows by any number of bytes (calling again with the same buffer
/// is a deviation); after an edge it grows by nothing, or any number of bytes.
pub fn fce_sched(cfg: &dyn Cfg, data: &[u8], ch: &mut Chooser, rechoose: bool) -> Result<Vec<usize>, String> {
    let n = data.len();
    let mut r = FceRun::new(cfg, data);
    if ch.dev(2) == 1 {
        r.find(0)?;
    }
    let mut found = false;
    let mut calls = 0;
    loop {
        if r.end == n && !found && calls > 0 {
            break;
        }
        let end = if found {
            if rechoose {
                // 0: same buffer; else everything, down to one byte more
                let c = ch.choose(n - r.end + 1);
                if c == 0 {
                    r.end
                } else {
                    n + 1 - c
                }
            } else {
                r.end
            }
        } else if n == 0 {
            0
        } else {
            if ch.dev(2) == 1 {
                let e = r.end;
                found = r.find(e)?;
                calls += 1;
                if found {
                    continue;
                }
            }
            n - ch.choose(n - r.end)
        };
        found = r.find(end)?;
        calls += 1;
        if calls > 4 * n + 8 {
            return Err("no end: the search does not get through the stream".into());
        }
    }
    if ch.dev(2) == 1 {
        r.find(n)?;
    }
    Ok(r.edges)
}
