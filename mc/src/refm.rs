//! Reference models: what each algorithm is supposed to do, written in closed
//! form (sums over the bytes of the window, no rolling updates, no ring
//! buffers, no search state), so that they share nothing with the code under
//! test but the definition of the algorithm.

use crate::tables;
use std::ops::Bound;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Iface {
    Incr,
    Fce,
}

impl Iface {
    pub const BOTH: [Iface; 2] = [Iface::Incr, Iface::Fce];
    pub fn name(self) -> &'static str {
        match self {
            Iface::Incr => "incr",
            Iface::Fce => "fce",
        }
    }
}

/// Parameters of a subject as the documentation defines them.
#[derive(Clone, Debug)]
pub enum Spec {
    Bup { w: usize },
    Buz { k: usize, mask: u32, max: u64, h: Arc<Vec<u32>> },
    Fast { gear: Arc<Vec<u64>>, min: u64, normal: u64, max: u64 },
    Gear { log2: u32 },
    Gzip { w: usize, m: u64 },
    Mii { w: u64 },
    Pigz { bits: u32 },
    Ram { w: u64 },
    Zpaq { avg: u32, lo: Bound<u64>, hi: Bound<u64> },
    Zstd { bits: u32 },
}

impl Spec {
    pub fn alg(&self) -> &'static str {
        match self {
            Spec::Bup { .. } => "bup",
            Spec::Buz { .. } => "buzhash",
            Spec::Fast { .. } => "fastcdc",
            Spec::Gear { .. } => "gear",
            Spec::Gzip { .. } => "gzip",
            Spec::Mii { .. } => "mii",
            Spec::Pigz { .. } => "pigz",
            Spec::Ram { .. } => "ram",
            Spec::Zpaq { .. } => "zpaq",
            Spec::Zstd { .. } => "zstd",
        }
    }
    /// Bytes of already examined data the buffered search may ask to keep.
    pub fn lookbehind(&self) -> usize {
        match self {
            Spec::Bup { w } => *w,
            Spec::Buz { k, .. } => *k,
            Spec::Gzip { w, .. } => *w,
            Spec::Zstd { .. } => 32,
            _ => 0,
        }
    }
    /// Bytes an edge decision may depend on (windowed hashes only).
    pub fn window(&self) -> Option<usize> {
        match self {
            Spec::Bup { w } => Some(*w),
            Spec::Buz { k, .. } => Some(*k),
            Spec::Gzip { w, .. } => Some(*w),
            Spec::Gear { .. } => Some(32),
            Spec::Pigz { bits } => Some(*bits as usize),
            Spec::Zstd { .. } => Some(32),
            _ => None,
        }
    }
    /// (smallest, largest) legal length of a completed chunk.
    pub fn limits(&self) -> (u64, Option<u64>) {
        match self {
            Spec::Buz { max, .. } => (1, max.checked_add(1)),
            Spec::Fast { min, max, .. } => ((*min).max(1), Some(*max)),
            Spec::Mii { w } => (w.saturating_add(1), None),
            Spec::Ram { w } => (w.saturating_add(2), None),
            Spec::Zpaq { lo, hi, .. } => {
                let l = match lo {
                    Bound::Included(x) => *x,
                    Bound::Excluded(x) => x.saturating_add(1),
                    Bound::Unbounded => 0,
                };
                let h = match hi {
                    Bound::Included(x) => Some(*x),
                    Bound::Excluded(x) => Some(x.saturating_sub(1)),
                    Bound::Unbounded => None,
                };
                // a chunk has a byte
                (l.max(1), h.map(|h| h.max(1)))
            }
            Spec::Zstd { .. } => (1, None),
            _ => (1, None),
        }
    }
    /// Lengths around which behaviour changes.
    pub fn critical_lens(&self) -> Vec<u64> {
        let mut v = vec![];
        match self {
            Spec::Bup { w } => v.push(*w as u64),
            Spec::Buz { k, max, .. } => {
                v.push(*k as u64);
                if *max < 1 << 20 {
                    v.push(*max + 1);
                }
            }
            Spec::Fast { min, normal, max, .. } => v.extend([*min, *normal, *max]),
            Spec::Gear { .. } => v.push(32),
            Spec::Gzip { w, .. } => v.push(*w as u64),
            Spec::Mii { w } => v.push(*w),
            Spec::Pigz { bits } => v.push(*bits as u64),
            Spec::Ram { w } => v.push(*w),
            Spec::Zpaq { .. } => {
                let (l, h) = self.limits();
                v.push(l);
                if let Some(h) = h {
                    v.push(h)
                }
            }
            Spec::Zstd { .. } => v.push(32),
        }
        // the others are out of reach of a stream
        v.retain(|c| *c <= 1 << 20);
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    No,
    /// edge after this byte
    After,
    /// edge before this byte (FastCDC, incremental)
    Before,
}

pub const MASK_S: u64 = 0x0003_5907_0353_0000;
pub const MASK_L: u64 = 0x0000_d900_0353_0000;
const ZSTD_P: u64 = 0xCF1B_BCDC_B7A5_6463;

#[derive(Clone, Debug, Default)]
struct ZpaqAux {
    hash: u32,
    last: u8,
    pred: std::collections::BTreeMap<u8, u8>,
}

/// One stream being chunked by the definition.
#[derive(Clone, Debug)]
pub struct RefM {
    spec: Arc<Spec>,
    iface: Iface,
    /// all bytes of the current chunk (zstd: of the whole stream)
    chunk: Vec<u8>,
    /// bytes of the current chunk that came before those
    earlier: u64,
    /// gzip: prefix sums of the chunk
    sums: Vec<u64>,
    ram_max: u8,
    zpaq: ZpaqAux,
}

impl RefM {
    pub fn new(spec: &Arc<Spec>, iface: Iface) -> RefM {
        RefM {
            spec: spec.clone(),
            iface,
            chunk: vec![],
            earlier: 0,
            sums: vec![0],
            ram_max: 0,
            zpaq: Default::default(),
        }
    }

    fn recent<'a>(&'a self, b: u8, n: usize) -> impl Iterator<Item = u8> + 'a {
        // newest first, at most n bytes, starting with b
        std::iter::once(b).chain(self.chunk.iter().rev().copied()).take(n)
    }

    pub fn peek(&self, b: u8) -> Ev {
        self.peek_from(&self.base(), b)
    }

    /// The part of the hash that the next byte does not change, for trying many
    /// values of it.
    pub fn base(&self) -> u64 {
        let before = |n: usize| self.chunk.iter().rev().copied().take(n);
        match &*self.spec {
            Spec::Bup { w } => {
                // s2 = w(w-1)*31 + sum over the window of x * (age + 1): the newest
                // byte has been added to s1 once and so counts once in s2, the
                // oldest w times
                let mut s2 = (*w as u32).wrapping_mul((*w as u32).wrapping_sub(1)).wrapping_mul(31);
                for (i, x) in before(*w - 1).enumerate() {
                    s2 = s2.wrapping_add((x as u32).wrapping_mul(i as u32 + 2));
                }
                s2 as u64
            }
            Spec::Buz { k, h, .. } => {
                let mut v = 0u32;
                for (i, x) in before(*k - 1).enumerate() {
                    v ^= h[x as usize].rotate_left(((i + 1) % 32) as u32);
                }
                v as u64
            }
            _ => 0,
        }
    }

    pub fn peek_from(&self, base: &u64, b: u8) -> Ev {
        let len = self.earlier + self.chunk.len() as u64 + 1;
        let hit = match &*self.spec {
            Spec::Bup { .. } => (*base as u32).wrapping_add(b as u32) & 8191 == 8191,
            Spec::Buz { mask, max, h, .. } => {
                let v = *base as u32 ^ h[b as usize];
                (v & mask) == *mask || len > *max
            }
            Spec::Fast { gear, min, normal, max } => {
                let min = (*min).max(1);
                let idx = len - 1;
                if idx >= min {
                    let n = ((idx - min + 1).min(64)) as usize;
                    let mut fp = 0u64;
                    for (age, x) in self.recent(b, n).enumerate() {
                        fp = fp.wrapping_add(gear[x as usize] << age);
                    }
                    let mask = if idx < *normal { MASK_S } else { MASK_L };
                    if fp & mask == 0 {
                        return match self.iface {
                            Iface::Incr => Ev::Before,
                            Iface::Fce => Ev::After,
                        };
                    }
                }
                len >= *max && len > min
            }
            Spec::Gear { log2 } => {
                let mut fp = 0u32;
                for (age, x) in self.recent(b, 32).enumerate() {
                    fp = fp.wrapping_add(tables::GEAR32[x as usize] << age);
                }
                fp >> (32 - log2) == 0
            }
            Spec::Gzip { w, m } => {
                let n = self.chunk.len();
                let first = (n + 1).saturating_sub(*w);
                let s = self.sums[n] - self.sums[first.min(n)] + b as u64;
                s % m == 0
            }
            Spec::Mii { w } => {
                let mut run = 0u64;
                let mut cur = b;
                for &p in self.chunk.iter().rev() {
                    if p < cur && run < *w {
                        run += 1;
                        cur = p;
                    } else {
                        break;
                    }
                }
                run == *w && *w > 0
            }
            Spec::Pigz { bits } => {
                let mask = (1u32 << bits) - 1;
                let hit = mask >> 1;
                let mut h = 0u32;
                let mut n = 0;
                for (age, x) in self.recent(b, *bits as usize).enumerate() {
                    h ^= (x as u32) << age;
                    n = age + 1;
                }
                if n < *bits as usize {
                    h ^= hit << n;
                }
                h & mask == hit
            }
            Spec::Ram { w } => len - 1 > *w && b >= self.ram_max,
            Spec::Zpaq { avg, lo, hi } => {
                let z = &self.zpaq;
                let predicted = z.pred.get(&z.last).copied().unwrap_or(0) == b;
                let m: u32 = if predicted { 314159265 } else { 271828182 };
                let hash = z.hash.wrapping_add(b as u32).wrapping_add(1).wrapping_mul(m);
                let limit = if *avg == 0 { u32::MAX as u64 } else { 1u64 << (32 - avg) };
                let long_enough = match lo {
                    Bound::Included(x) => len >= *x,
                    Bound::Excluded(x) => len > *x,
                    Bound::Unbounded => true,
                };
                let next_too_long = match hi {
                    Bound::Included(x) => len + 1 > *x,
                    Bound::Excluded(x) => len + 1 >= *x,
                    Bound::Unbounded => false,
                };
                ((hash as u64) < limit && long_enough) || next_too_long
            }
            Spec::Zstd { bits } => {
                if self.chunk.len() < 32 {
                    false
                } else {
                    let mask = (1u64 << bits) - 1;
                    let mut h = 0u64;
                    let mut p = 1u64;
                    for x in self.recent(b, 32) {
                        h = h.wrapping_add((x as u64 + 10).wrapping_mul(p));
                        p = p.wrapping_mul(ZSTD_P);
                    }
                    h & mask == mask
                }
            }
        };
        if hit {
            Ev::After
        } else {
            Ev::No
        }
    }

    /// zstd: the hash without the newest byte, for trying many of them
    pub fn zstd_base(&self) -> Option<(u64, u64)> {
        if let Spec::Zstd { bits } = &*self.spec {
            if self.chunk.len() >= 32 {
                let mut h = 0u64;
                let mut p = ZSTD_P;
                for x in self.chunk.iter().rev().take(31) {
                    h = h.wrapping_add((*x as u64 + 10).wrapping_mul(p));
                    p = p.wrapping_mul(ZSTD_P);
                }
                return Some((h, (1u64 << bits) - 1));
            }
        }
        None
    }

    fn reset(&mut self) {
        if let Spec::Zstd { .. } = &*self.spec {
            return;
        }
        self.chunk.clear();
        self.earlier = 0;
        self.sums.clear();
        self.sums.push(0);
        self.ram_max = 0;
        self.zpaq = Default::default();
    }

    fn append(&mut self, b: u8) {
        match &*self.spec {
            Spec::Zpaq { .. } => {
                let z = &mut self.zpaq;
                let predicted = z.pred.get(&z.last).copied().unwrap_or(0) == b;
                let m: u32 = if predicted { 314159265 } else { 271828182 };
                z.hash = z.hash.wrapping_add(b as u32).wrapping_add(1).wrapping_mul(m);
                z.pred.insert(z.last, b);
                z.last = b;
            }
            Spec::Gzip { .. } => {
                let l = *self.sums.last().unwrap();
                self.sums.push(l + b as u64);
            }
            Spec::Ram { w } => {
                if self.earlier + self.chunk.len() as u64 <= *w {
                    self.ram_max = self.ram_max.max(b);
                }
            }
            Spec::Zstd { .. } => {
                if self.chunk.len() > 512 {
                    let n = self.chunk.len() - 64;
                    self.chunk.drain(..n);
                }
            }
            _ => {}
        }
        self.chunk.push(b);
    }

    /// Takes the byte `b` n times, none of them an edge, keeping only as many as
    /// no window is longer than.
    pub fn skip(&mut self, b: u8, n: u64) {
        let keep = n.min(10_000);
        let drop = n - keep;
        for _ in 0..keep.min(drop) {
            assert!(self.peek(b) == Ev::No);
            self.append(b);
        }
        if let Spec::Zpaq { .. } = &*self.spec {
            // (by now the byte is the one predicted)
            for _ in keep.min(drop)..drop {
                self.zpaq.hash = self.zpaq.hash.wrapping_add(b as u32).wrapping_add(1).wrapping_mul(314159265);
            }
        }
        self.earlier += self.chunk.len() as u64 + drop - keep.min(drop);
        self.chunk.clear();
        self.sums.clear();
        self.sums.push(0);
        for _ in 0..keep {
            self.append(b);
        }
    }

    /// Takes one byte; tells whether there is an edge before and/or after it.
    pub fn feed(&mut self, b: u8) -> Ev {
        match self.peek(b) {
            Ev::No => {
                self.append(b);
                Ev::No
            }
            Ev::After => {
                self.append(b);
                self.reset();
                Ev::After
            }
            Ev::Before => {
                self.reset();
                self.append(b);
                Ev::Before
            }
        }
    }

    /// As `feed`, reporting edges as stream positions; `pos` is that of `b`.
    pub fn feed_at(&mut self, pos: usize, b: u8, out: &mut Vec<usize>) {
        match self.feed(b) {
            Ev::No => {}
            Ev::After => out.push(pos + 1),
            Ev::Before => out.push(pos),
        }
        // a FastCDC chunk of one byte with a maximum of 1 may end at once; the
        // configurations used have maximum > 1
    }

    /// Everything the future of this stream depends on.
    pub fn key(&self) -> Vec<u8> {
        let n = self.chunk.len();
        let tail = |k: usize| self.chunk[n.saturating_sub(k)..].to_vec();
        match &*self.spec {
            Spec::Bup { w } => tail(*w),
            Spec::Buz { k, max, .. } => {
                let mut v = tail(*k);
                if *max < 1 << 20 {
                    v.extend((n as u32).to_le_bytes());
                }
                v
            }
            Spec::Fast { .. } => tail(n),
            Spec::Gear { .. } => tail(32),
            Spec::Gzip { w, .. } => tail(*w),
            Spec::Mii { w } => {
                let mut run = 0;
                while run < *w as usize && n >= run + 2 && self.chunk[n - run - 2] < self.chunk[n - run - 1] {
                    run += 1;
                }
                let mut v = tail(1);
                v.push(run as u8);
                v
            }
            Spec::Pigz { bits } => {
                // hash value
                let mask = (1u32 << bits) - 1;
                let mut h = mask >> 1;
                for &b in &tail(*bits as usize + 1) {
                    h = ((h << 1) ^ b as u32) & mask;
                }
                h.to_le_bytes().to_vec()
            }
            Spec::Ram { w } => {
                let l = (n as u64).min(w.saturating_add(1));
                let mut v = l.to_le_bytes().to_vec();
                v.push(self.ram_max);
                v
            }
            Spec::Zpaq { .. } => {
                let z = &self.zpaq;
                let mut v = z.hash.to_le_bytes().to_vec();
                v.push(z.last);
                v.extend((n as u64).to_le_bytes());
                for (a, b) in &z.pred {
                    v.push(*a);
                    v.push(*b);
                }
                v
            }
            Spec::Zstd { .. } => {
                let mut v = tail(32);
                v.push((n > 31) as u8);
                v
            }
        }
    }
}

/// All edges of a stream, by the definition.
pub fn ref_edges(spec: &Arc<Spec>, iface: Iface, data: &[u8]) -> Vec<usize> {
    let mut r = RefM::new(spec, iface);
    let mut out = vec![];
    for (i, &b) in data.iter().enumerate() {
        r.feed_at(i, b, &mut out);
    }
    out
}
