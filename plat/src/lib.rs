//! Runs a list of cases (configuration, streams, schedules) on the library and
//! gives the edges, as digests or in words. Built for several platforms and in
//! several profiles; the outcomes have to be the same everywhere.

use hash_roll::buzhash::{BuzHash, BuzHashHash};
use hash_roll::{bup, fastcdc, gear, gzip, mii, pigz, ram, zpaq, zstd};
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::ops::Bound;

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
    fn bound(&mut self) -> Bound<u64> {
        let k = self.u8();
        let v = self.u64();
        match k {
            0 => Bound::Included(v),
            1 => Bound::Excluded(v),
            _ => Bound::Unbounded,
        }
    }
}

#[derive(Clone)]
struct Tab(Vec<u32>);
impl BuzHashHash for Tab {
    fn hash(&self, d: u8) -> u32 {
        self.0[d as usize]
    }
}

/// Takes note of what happens.
pub trait Sink {
    fn stream(&mut self, d: &[u8]);
    fn run(&mut self, iface: u8, sched: &mut dyn FnMut() -> String);
    fn edge(&mut self, at: usize);
    fn note(&mut self, what: &'static str);
    fn call(&mut self);
}

#[derive(Clone, Default)]
pub struct Digest {
    pub h: u64,
    pub streams: u64,
    pub runs: u64,
    pub edges: u64,
    pub calls: u64,
}
impl Digest {
    fn add(&mut self, x: u64) {
        let mut h = (self.h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        self.h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(31);
    }
}
impl Sink for Digest {
    fn stream(&mut self, d: &[u8]) {
        self.streams += 1;
        self.add(0x1000_0000_0000_0000 | d.len() as u64);
    }
    fn run(&mut self, iface: u8, _: &mut dyn FnMut() -> String) {
        self.runs += 1;
        self.add(0x2000_0000_0000_0000 | iface as u64);
    }
    fn edge(&mut self, at: usize) {
        self.edges += 1;
        self.add(0x3000_0000_0000_0000 | at as u64);
    }
    fn note(&mut self, what: &'static str) {
        for b in what.bytes() {
            self.add(0x4000_0000_0000_0000 | b as u64);
        }
    }
    fn call(&mut self) {
        self.calls += 1;
    }
}

/// One line per run.
#[derive(Default)]
pub struct Text {
    pub out: String,
    stream: String,
}
impl Sink for Text {
    fn stream(&mut self, d: &[u8]) {
        self.stream = d.iter().take(200).map(|b| format!("{b:02x}")).collect();
        if d.len() > 200 {
            self.stream += &format!("..({} bytes)", d.len());
        }
    }
    fn run(&mut self, iface: u8, sched: &mut dyn FnMut() -> String) {
        let i = ["incr", "find_chunk_edge", "slices", "slices strict"][iface as usize];
        self.out += &format!("\n{i} of {} ({}):", self.stream, sched());
    }
    fn edge(&mut self, at: usize) {
        self.out += &format!(" {at}");
    }
    fn note(&mut self, what: &'static str) {
        self.out += " ";
        self.out += what;
    }
    fn call(&mut self) {}
}

fn incr<C: ToChunkIncr>(c: &C, d: &[u8], ends: &mut dyn Iterator<Item = usize>, s: &mut dyn Sink)
where
    C::Incr: ChunkIncr,
{
    let mut i = c.to_chunk_incr();
    let mut pos = 0;
    let mut spent = 0;
    for end in ends.chain(std::iter::once(d.len())) {
        while pos < end {
            s.call();
            match i.push(&d[pos..end]) {
                None => pos = end,
                Some(x) if x > end - pos => return s.note("index beyond the slice"),
                Some(x) => {
                    pos += x;
                    s.edge(pos);
                    spent += 1;
                    if spent > 2 * d.len() + 4 {
                        return s.note("no end");
                    }
                }
            }
        }
    }
}

fn find<C: Chunk>(c: &C, d: &[u8], ends: &mut dyn Iterator<Item = usize>, s: &mut dyn Sink) {
    let mut st = c.to_search_state();
    let mut base = 0;
    let mut spent = 0;
    for end in ends.chain(std::iter::once(d.len())) {
        loop {
            s.call();
            let (r, disc) = c.find_chunk_edge(&mut st, &d[base..end]);
            if disc > end - base {
                return s.note("discard beyond the buffer");
            }
            let Some(x) = r else {
                base += disc;
                break;
            };
            s.edge(base + x);
            base += disc;
            spent += 1;
            if spent > 2 * d.len() + 4 {
                return s.note("no end");
            }
        }
    }
}

fn slices<C: ToChunkIncr>(c: &C, d: &[u8], s: &mut dyn Sink)
where
    C::Incr: ChunkIncr,
{
    s.run(2, &mut || "whole".into());
    let mut p = 0;
    for x in c.to_chunk_incr().iter_slices(d).take(d.len() + 2) {
        p += x.len();
        s.edge(p);
        s.call();
    }
    s.run(3, &mut || "whole".into());
    let mut p = 0;
    let mut it = c.to_chunk_incr().iter_slices_strict(d);
    for _ in 0..d.len() + 2 {
        let Some(x) = it.next() else { break };
        p += x.len();
        s.edge(p);
        s.call();
    }
    s.edge(p + it.take_rem().len());
}

/// All ways to cut n bytes, or those of equal pieces of a few lengths.
fn scheds(n: usize, all: bool, f: &mut dyn FnMut(&dyn Fn() -> Vec<usize>)) {
    if all && n <= 16 && n > 0 {
        for m in 0..1u32 << (n - 1) {
            f(&|| (1..n).filter(|i| m >> (i - 1) & 1 == 1).collect());
        }
        return;
    }
    for step in [n, 1, 2, 3, 7] {
        if step > 0 && (step == n || step < n) {
            f(&|| (1..).map(|i| i * step).take_while(|e| *e < n).collect());
        }
    }
}

fn stream<C: Chunk + ToChunkIncr>(c: &C, d: &[u8], all: bool, lists: &[Vec<usize>], s: &mut dyn Sink)
where
    C::Incr: ChunkIncr,
{
    s.stream(d);
    let mut one = |e: Vec<usize>| {
        s.run(0, &mut || format!("cut at {:?}", &e[..e.len().min(30)]));
        incr(c, d, &mut e.iter().copied(), s);
        s.run(1, &mut || format!("cut at {:?}", &e[..e.len().min(30)]));
        find(c, d, &mut e.iter().copied(), s);
    };
    if lists.is_empty() {
        scheds(d.len(), all, &mut |e| one(e()));
    } else {
        for l in lists {
            one(l.clone());
        }
    }
    slices(c, d, s);
}

/// The streams of a case.
fn streams<C: Chunk + ToChunkIncr>(c: &C, r: &mut Rd, s: &mut dyn Sink)
where
    C::Incr: ChunkIncr,
{
    match r.u8() {
        // all streams of n letters, all or few schedules
        0 => {
            let alpha = r.bytes();
            let n = r.u8() as usize;
            let all = r.u8() == 1;
            let mut d = vec![0u8; n];
            let total = (alpha.len() as u64).pow(n as u32);
            for mut x in 0..total {
                for b in d.iter_mut() {
                    *b = alpha[(x % alpha.len() as u64) as usize];
                    x /= alpha.len() as u64;
                }
                stream(c, &d, all, &[], s);
            }
        }
        // one stream, listed schedules
        1 => {
            let d = r.bytes();
            let n = r.u32();
            let lists: Vec<Vec<usize>> = (0..n)
                .map(|_| {
                    let k = r.u32();
                    (0..k).map(|_| r.u32() as usize).collect()
                })
                .collect();
            stream(c, d, false, &lists, s);
        }
        // one byte value, many times, in slices of a length
        _ => {
            let b = r.u8();
            let n = r.u32() as usize;
            let step = r.u32() as usize;
            let d = vec![b; n];
            let l: Vec<usize> = (1..).map(|i| i * step).take_while(|e| *e < n).collect();
            stream(c, &d, false, &[l], s);
        }
    }
}

fn table64(r: &mut Rd) -> [u64; 256] {
    let mut t = [0; 256];
    for x in t.iter_mut() {
        *x = r.u64();
    }
    t
}

/// Runs one case.
pub fn case(bytes: &[u8], s: &mut dyn Sink) {
    let r = &mut Rd(bytes);
    match r.u8() {
        0 => streams(&bup::RollSum::default(), r, s),
        1 => {
            let w = r.u64() as usize;
            streams(&bup::RollSum::with_window(w), r, s)
        }
        2 => {
            let salt = r.u8();
            streams(&BuzHash::new_nom(salt), r, s)
        }
        3 => {
            let (k, mask, max) = (r.u64() as usize, r.u32(), r.u64());
            let t: Vec<u32> = (0..256).map(|_| r.u32()).collect();
            streams(&BuzHash::new(k, mask, Tab(t), max), r, s)
        }
        4 => streams(&fastcdc::FastCdc::default(), r, s),
        5 => {
            let t = table64(r);
            let (a, b, c) = (r.u64(), r.u64(), r.u64());
            streams(&fastcdc::FastCdc::new(&t, a, b, c), r, s)
        }
        6 => streams(&gear::Gear32::default(), r, s),
        7 => {
            let l = r.u64() as usize;
            streams(&gear::Gear32::with_average_size_log2(l), r, s)
        }
        8 => streams(&gzip::GzipRsyncable::default(), r, s),
        9 => {
            let (w, m) = (r.u64() as usize, r.u64());
            streams(&gzip::GzipRsyncable::with_window_and_modulus(w, m), r, s)
        }
        10 => streams(&mii::Mii::default(), r, s),
        11 => {
            let w = r.u64();
            streams(&mii::Mii::with_w(w), r, s)
        }
        12 => streams(&pigz::PigzRsyncable::default(), r, s),
        13 => {
            let b = r.u8();
            streams(&pigz::PigzRsyncable::with_bits(b), r, s)
        }
        14 => {
            let w = r.u64();
            streams(&ram::Ram::with_w(w), r, s)
        }
        15 => streams(&zpaq::Zpaq::default(), r, s),
        16 => {
            let b = r.u8();
            streams(&zpaq::Zpaq::with_average_size_pow_2(b), r, s)
        }
        17 => {
            let m = r.u64();
            streams(&zpaq::Zpaq::with_max_size(m), r, s)
        }
        18 => {
            let b = (r.bound(), r.bound());
            streams(&zpaq::Zpaq::with_range(b), r, s)
        }
        19 => {
            let a = r.u8();
            let b = (r.bound(), r.bound());
            streams(&zpaq::Zpaq::with_average_and_range(a, b), r, s)
        }
        20 => streams(&zstd::Zstd::default(), r, s),
        21 => {
            let z = r.u64();
            streams(&zstd::Zstd::with_target_section_size(z), r, s)
        }
        x => panic!("no case of kind {x}"),
    }
}

/// The cases of a file.
pub fn split(file: &[u8]) -> Vec<&[u8]> {
    let mut r = Rd(file);
    let n = r.u32();
    (0..n).map(|_| r.bytes()).collect()
}

/// Number of words per case in what `digest` gives.
pub const WORDS: usize = 5;

pub fn digest(bytes: &[u8]) -> [u64; WORDS] {
    let mut d = Digest::default();
    case(bytes, &mut d);
    [d.h, d.streams, d.runs, d.edges, d.calls]
}

// ---- for wasm

#[no_mangle]
pub extern "C" fn plat_alloc(n: usize) -> *mut u8 {
    let v = vec![0u8; n];
    Box::leak(v.into_boxed_slice()).as_mut_ptr()
}

/// Runs one case; its digest is put at `out`.
///
/// # Safety
/// `p` has to be good for reading n bytes, `out` for writing WORDS words.
#[no_mangle]
pub unsafe extern "C" fn plat_case(p: *const u8, n: usize, out: *mut u64) {
    let d = digest(std::slice::from_raw_parts(p, n));
    for (i, x) in d.iter().enumerate() {
        out.add(i).write_unaligned(*x);
    }
}

/// Runs one case, in words; gives the length of the text, put where the returned pointer says.
///
/// # Safety
/// As above.
#[no_mangle]
pub unsafe extern "C" fn plat_text(p: *const u8, n: usize, len: *mut usize) -> *const u8 {
    let mut t = Text::default();
    case(std::slice::from_raw_parts(p, n), &mut t);
    len.write_unaligned(t.out.len());
    Box::leak(t.out.into_bytes().into_boxed_slice()).as_ptr()
}
