//! C25, C26: what the chunkers hold and what they do, measured in a build in
//! which every basic block and every load reports itself (cost.c).

use crate::craft::{first_stream, Prng, Stream};
use crate::drive::*;
use crate::engine::{tick, Chooser, Ctx, Job, Worker};
use crate::props::*;
use crate::refm::{Iface, Spec};
use crate::subj::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

extern "C" {
    fn cost_alloc(n: usize);
    fn cost_free(n: usize);
    fn cost_stream(d: *const u8, n: usize, reads: *mut u32);
    fn cost_begin(held: i64);
    fn cost_end(out: *mut u64, mem: *mut i64);
}

struct Counting;
// SAFETY: passes everything on to the system's allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        cost_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        cost_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        cost_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        cost_alloc(n);
        cost_free(l.size());
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Memory,
    Work,
}

thread_local! {
    static ERR: RefCell<Option<String>> = const { RefCell::new(None) };
    static START: Cell<usize> = const { Cell::new(0) };
    static READS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}

/// The most seen of everything.
#[derive(Default, Clone, Debug)]
struct Seen {
    held: i64,
    per_byte: f64,
    empty: u64,
    edge: i64,
    reads: u32,
}

/// Bytes a chunker may hold: a few times its window, and its fields.
fn memory_limit(spec: &Spec) -> i64 {
    4 * spec.lookbehind() as i64 + 2048
}
const PER_BYTE: u64 = 32;
const PER_CALL: u64 = 128;
const READS_PER_BYTE: u32 = 8;
fn per_edge(spec: &Spec) -> u64 {
    8 * spec.lookbehind() as u64 + 2048
}

struct Call {
    work: u64,
    live: i64,
    peak: i64,
}
fn measure<R>(held: i64, f: impl FnOnce() -> R) -> (R, Call) {
    let (mut out, mut mem) = ([0u64; 2], [0i64; 2]);
    // SAFETY: plain counters, see cost.c
    unsafe { cost_begin(held) };
    let r = f();
    unsafe { cost_end(out.as_mut_ptr(), mem.as_mut_ptr()) };
    (r, Call { work: out[0] + out[1], live: mem[0], peak: mem[1] })
}
fn fail(m: impl FnOnce() -> String) {
    ERR.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            *e = Some(m());
        }
    })
}

struct Meter {
    what: What,
    spec: std::sync::Arc<Spec>,
    held: i64,
    /// how far into the stream data has been examined
    seen: usize,
    calls: u64,
}
impl Meter {
    fn memory(&mut self, c: &Call, when: &str) {
        self.held = c.live;
        if self.what == What::Memory {
            SEEN.with(|s| {
                let mut s = s.borrow_mut();
                s.held = s.held.max(c.peak - 4 * self.spec.lookbehind() as i64);
            });
            let most = memory_limit(&self.spec);
            if c.peak > most {
                let n = self.calls;
                fail(|| format!("{} bytes held {when} (of which {} after it, call {n}); at most {most} are expected", c.peak, c.live));
            }
        }
    }
    fn work(&mut self, c: &Call, at: usize, len: usize, examined: usize, edge: bool) {
        self.calls += 1;
        if self.what != What::Work {
            return;
        }
        let new = (at + examined).saturating_sub(self.seen) as u64;
        self.seen = self.seen.max(at + examined);
        let most = PER_BYTE * new + PER_CALL + if edge { per_edge(&self.spec) } else { 0 };
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            if edge {
                s.edge = s.edge.max((c.work as i64 - (32 * new) as i64).max(0) - 2 * self.spec.lookbehind() as i64);
            } else if new == 0 {
                s.empty = s.empty.max(c.work);
            } else {
                s.per_byte = s.per_byte.max(c.work as f64 / (new as f64 + 4.0));
            }
        });
        if c.work > most {
            fail(|| format!("a call with stream position {at} and {len} bytes, {new} of them new, takes {} steps; at most {most} are expected", c.work));
        }
    }
}

struct Metered {
    what: What,
    spec: std::sync::Arc<Spec>,
    c: Rc<dyn Cfg>,
}
struct MIncr {
    m: Meter,
    i: Option<Box<dyn Incr>>,
}
struct MFce {
    m: Meter,
    f: Option<Box<dyn Fce>>,
}
impl Metered {
    fn meter(&self) -> Meter {
        Meter { what: self.what, spec: self.spec.clone(), held: 0, seen: 0, calls: 0 }
    }
}
fn offset(d: &[u8]) -> usize {
    (d.as_ptr() as usize).wrapping_sub(START.with(|s| s.get()))
}
impl Incr for MIncr {
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        let i = self.i.as_mut().unwrap();
        let (r, c) = measure(self.m.held, || i.push(d));
        self.m.work(&c, offset(d), d.len(), r.unwrap_or(d.len()), r.is_some());
        self.m.memory(&c, "during a push");
        r
    }
    fn key(&self) -> String {
        String::new()
    }
    fn try_clone(&self) -> Option<Box<dyn Incr>> {
        None
    }
}
impl Fce for MFce {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize) {
        let f = self.f.as_mut().unwrap();
        let (r, c) = measure(self.m.held, || f.find(d));
        self.m.work(&c, offset(d), d.len(), r.0.unwrap_or(d.len()), r.0.is_some());
        self.m.memory(&c, "during a search");
        r
    }
    fn key(&self) -> String {
        String::new()
    }
    fn try_clone(&self) -> Option<Box<dyn Fce>> {
        None
    }
}
fn dropped(m: &mut Meter, f: impl FnOnce()) {
    let ((), c) = measure(m.held, f);
    if m.what == What::Memory && c.live != 0 {
        let n = m.calls;
        fail(|| format!("{} bytes are not given back when a chunker is dropped after {n} calls", c.live));
    }
}
impl Drop for MIncr {
    fn drop(&mut self) {
        let i = self.i.take();
        dropped(&mut self.m, || drop(i));
    }
}
impl Drop for MFce {
    fn drop(&mut self) {
        let f = self.f.take();
        dropped(&mut self.m, || drop(f));
    }
}
struct MSlices<'a> {
    m: Meter,
    it: Option<Box<dyn SliceIter<'a> + 'a>>,
    end: usize,
}
impl<'a> SliceIter<'a> for MSlices<'a> {
    fn next(&mut self) -> Option<&'a [u8]> {
        let it = self.it.as_mut().unwrap();
        tick();
        let (r, c) = measure(self.m.held, || it.next());
        let at = self.m.seen;
        self.m.work(&c, at, self.end - at, r.map_or(self.end, |d| offset(d) + d.len()) - at, r.is_some());
        self.m.memory(&c, "by an iterator");
        r
    }
    fn take_rem(&mut self) -> Option<&'a [u8]> {
        let it = self.it.as_mut().unwrap();
        let (r, c) = measure(self.m.held, || it.take_rem());
        let at = self.m.seen;
        self.m.work(&c, at, 0, 0, false);
        self.m.memory(&c, "by an iterator giving the remainder");
        r
    }
    fn into_parts(self: Box<Self>) -> (Box<dyn Incr>, &'a [u8]) {
        unreachable!()
    }
    fn nth(&mut self, _: usize) -> Option<&'a [u8]> {
        unreachable!()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unreachable!()
    }
    fn rest(self: Box<Self>, _: usize) -> crate::subj::Rest<'a> {
        unreachable!()
    }
    fn text(&self) -> String {
        String::new()
    }
}
impl Drop for MSlices<'_> {
    fn drop(&mut self) {
        let i = self.it.take();
        dropped(&mut self.m, || drop(i));
    }
}
impl Cfg for Metered {
    fn incr(&self) -> Box<dyn Incr> {
        let mut m = self.meter();
        let (i, c) = measure(0, || self.c.incr());
        m.memory(&c, "at the start");
        Box::new(MIncr { m, i: Some(i) })
    }
    fn fce(&self) -> Box<dyn Fce> {
        let mut m = self.meter();
        let (f, c) = measure(0, || self.c.fce());
        m.memory(&c, "at the start");
        Box::new(MFce { m, f: Some(f) })
    }
    fn slices<'a>(&self, data: &'a [u8], strict: bool) -> Box<dyn SliceIter<'a> + 'a> {
        let mut m = self.meter();
        let (it, c) = measure(0, || self.c.slices(data, strict));
        m.memory(&c, "by an iterator at the start");
        m.work(&c, 0, data.len(), 0, true);
        Box::new(MSlices { m, it: Some(it), end: data.len() })
    }
    fn try_clone(&self) -> Option<Rc<dyn Cfg>> {
        None
    }
    fn text(&self) -> String {
        self.c.text()
    }
}

/// Runs `f` with a measured configuration on the stream `d`.
fn metered(s: &Subject, what: What, d: &[u8], f: &mut dyn FnMut(&dyn Cfg) -> Result<Vec<usize>, String>) -> Result<Vec<usize>, String> {
    let cfg = Metered { what, spec: s.spec.clone(), c: (s.mk)() };
    START.with(|x| x.set(d.as_ptr() as usize));
    ERR.with(|e| *e.borrow_mut() = None);
    if what == What::Work {
        READS.with(|r| {
            let mut r = r.borrow_mut();
            r.clear();
            r.resize(d.len(), 0);
            // SAFETY: stays as it is until the next stream
            unsafe { cost_stream(d.as_ptr(), d.len(), r.as_mut_ptr()) };
        });
    }
    let r = f(&cfg);
    // SAFETY: as above
    unsafe { cost_stream(std::ptr::null(), 0, std::ptr::null_mut()) };
    let r = r?;
    if let Some(m) = ERR.with(|e| e.borrow_mut().take()) {
        return Err(m);
    }
    if what == What::Work {
        READS.with(|v| {
            let v = v.borrow();
            if let Some((i, n)) = v.iter().copied().enumerate().max_by_key(|x| x.1) {
                SEEN.with(|s| {
                    let mut s = s.borrow_mut();
                    s.reads = s.reads.max(n);
                });
                if n > READS_PER_BYTE {
                    return Err(format!("the byte at {i} is read {n} times; at most {READS_PER_BYTE} are expected"));
                }
            }
            Ok(())
        })?;
    }
    Ok(r)
}

fn note(w: &mut Worker) {
    let s = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    if !w.note.is_empty() {
        w.note += "; ";
    }
    w.note += &format!(
        "most held beyond 4 windows: {}, reads of a byte: {}, steps per byte: {:.1}, of a call without new data: {}, of an edge beyond 2 windows: {}",
        s.held, s.reads, s.per_byte, s.empty, s.edge
    );
}

const BOTH: [Iface; 2] = [Iface::Incr, Iface::Fce];

pub fn jobs(ctx: &Ctx, what: What) -> Vec<Job> {
    let mut v = vec![];
    let less = ctx.pick(2, 0);
    // all streams x all schedules
    per_strings(&mut v, "all-schedules", small(), move |s| s.e1 - less, move |w, s, d, max| {
        let n = d.len();
        let go = |w: &mut Worker, k: &str, budget: u32, f: &dyn Fn(&dyn Cfg, &mut Chooser) -> Result<Vec<usize>, String>| {
            w.exec(&|| format!("{k} {}", hex(d)), budget, &mut |ch| metered(s, what, d, &mut |c| f(c, ch)))
        };
        let more = if n + 2 <= max { 2 } else { 0 };
        let r = go(w, "slices", more, &|c, ch| incr_slices(c, d, ch)) && go(w, "buffers", more, &|c, ch| fce_sched(c, d, ch, false));
        if n == max {
            note(w);
        }
        r
    });
    // streams that repeat themselves for long
    let (most, reps) = (ctx.pick(40, 300), 4096);
    per_strings(
        &mut v,
        "repeating",
        small(),
        move |s| (1..=8).take_while(|n| s.alpha.len().pow(*n as u32) <= most).last().unwrap_or(1),
        move |w, s, d, _| {
            if d.is_empty() {
                return true;
            }
            let long: Vec<u8> = d.iter().copied().cycle().take(reps).collect();
            for step in [1usize, d.len(), 61, usize::MAX] {
                for i in BOTH {
                    let ok = w.exec(&|| format!("{} {} repeated, step {step}", i.name(), hex(d)), 0, &mut |_| {
                        metered(s, what, &long, &mut |c| with_bounds(c, i, &long, &mut (1..).map(|i: usize| i.saturating_mul(step)).take_while(|b| *b < reps)))
                    });
                    if !ok {
                        return false;
                    }
                }
            }
            true
        },
    );
    // longer ones
    let (seed, thorough) = (ctx.seed, ctx.thorough);
    for s in all().into_iter().chain(wide()) {
        job(&mut v, format!("streams/{}", s.id), move |w| {
            let mut info = vec![];
            for st in some_streams(&s, seed, thorough) {
                info.push(format!("{}:{}B/{}e", st.name, st.data.len(), st.marks.len()));
                for i in BOTH {
                    if !wide_schedules(w, &s.spec, &st, i, &mut |b| metered(&s, what, &st.data, &mut |c| with_bounds(c, i, &st.data, b))) {
                        return;
                    }
                }
            }
            w.note = info.join(" ");
            note(w);
        });
    }
    // repeated and empty calls at every place of a stream
    per_wide_calls(&mut v, ctx, what);
    // the iterators: each step on its own
    for s in all().into_iter().chain(wide()) {
        job(&mut v, format!("iterators/{}", s.id), move |w| {
            for st in some_streams(&s, seed, thorough) {
                let d = &st.data[..];
                for (strict, stop) in [(false, usize::MAX), (true, usize::MAX), (true, 3)] {
                    let ok = w.exec(&|| format!("{}, strict {strict}, up to {stop}", st.name), 0, &mut |_| {
                        metered(&s, what, d, &mut |c| {
                            let mut it = c.slices(d, strict);
                            let mut e = vec![];
                            while let Some(x) = it.next() {
                                e.push(e.last().copied().unwrap_or(0) + x.len());
                                if e.len() >= stop {
                                    break;
                                }
                            }
                            if strict {
                                it.take_rem();
                            }
                            it.next();
                            Ok(e)
                        })
                    });
                    if !ok {
                        return;
                    }
                }
            }
            note(w);
        });
    }
    // large slices and buffers
    for s in all().into_iter().chain(mega_subjects()) {
        job(&mut v, format!("large/{}", s.id), move |w| {
            let mut rng = Prng::new(seed + 6);
            let mut d = rng.bytes(400_000);
            d[100_000..200_000].fill(0);
            (250_000..350_000).for_each(|i| d[i] = i as u8);
            for step in [usize::MAX, 100_000, 65_537, 65_536] {
                for i in BOTH {
                    let ok = w.exec(&|| format!("{} step {step}", i.name()), 0, &mut |_| {
                        metered(&s, what, &d, &mut |c| with_bounds(c, i, &d, &mut (1..).map(|i: usize| i.saturating_mul(step)).take_while(|b| *b < d.len())))
                    });
                    if !ok {
                        return;
                    }
                }
            }
            note(w);
        });
    }
    v
}

/// Streams as they come, and one with edges where they are wanted, if that is not too much to ask here.
fn some_streams(s: &Subject, seed: u64, thorough: bool) -> Vec<Stream> {
    let mut rng = Prng::new(seed + 5);
    let mut v = vec![];
    if thorough || s.big && !matches!(&*s.spec, Spec::Fast { .. }) {
        v.push(first_stream(s, seed));
    }
    let n = 12_000 + 2 * s.spec.lookbehind().min(100_000);
    let mut mixed = rng.bytes(n);
    for i in n / 3..2 * n / 3 {
        mixed[i] = if s.alpha.is_empty() { b'a' + (mixed[i] & 1) } else { s.alpha[mixed[i] as usize % s.alpha.len()] };
    }
    for (name, data) in [("mixed", mixed), ("ramp", (0..n).map(|i| i as u8).collect()), ("zeros", vec![0; n])] {
        v.push(Stream { name: name.into(), data: std::sync::Arc::new(data), marks: vec![] });
    }
    v
}

/// Calls without new data, ten after each slice.
fn per_wide_calls(v: &mut Vec<Job>, ctx: &Ctx, what: What) {
    let seed = ctx.seed;
    for s in all().into_iter().chain(wide()) {
        job(v, format!("repeated-calls/{}", s.id), move |w| {
            let st = some_streams(&s, seed, false).remove(0);
            let d = &st.data[..st.data.len().min(12_000)];
            let n = d.len();
            for step in [1usize, 7, 64, 1000] {
                let ok = w.exec(&|| format!("incr step {step}"), 0, &mut |_| {
                    metered(&s, what, d, &mut |c| {
                        let mut r = IncrRun::new(c, d);
                        while r.pos < n {
                            let end = (r.pos + step).min(n);
                            r.push(end)?;
                            for _ in 0..10 {
                                let p = r.pos;
                                r.push(p)?;
                            }
                        }
                        Ok(r.edges)
                    })
                }) && w.exec(&|| format!("search step {step}"), 0, &mut |_| {
                    metered(&s, what, d, &mut |c| {
                        let mut r = FceRun::new(c, d);
                        while r.end < n {
                            let end = (r.end + step).min(n);
                            r.feed(end)?;
                            for _ in 0..10 {
                                r.feed(end)?;
                            }
                        }
                        Ok(r.edges)
                    })
                });
                if !ok {
                    return;
                }
            }
            note(w);
        });
    }
}
