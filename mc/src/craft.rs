//! Streams with edges (by the definition) exactly where wanted.

use crate::refm::{ref_edges, Ev, Iface, RefM, Spec};
use crate::subj::Subject;
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone)]
pub struct Prng(u64);
impl Prng {
    pub fn new(seed: u64) -> Prng {
        Prng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 56) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

pub struct Crafter {
    pub spec: Arc<Spec>,
    pub iface: Iface,
    pub r: RefM,
    pub out: Vec<u8>,
    /// length of the current chunk
    pub len: usize,
    rng: Prng,
}

impl Crafter {
    pub fn new(spec: &Arc<Spec>, iface: Iface, seed: u64) -> Crafter {
        Crafter { spec: spec.clone(), iface, r: RefM::new(spec, iface), out: vec![], len: 0, rng: Prng::new(seed) }
    }

    fn take(&mut self, b: u8) -> Ev {
        crate::engine::alive();
        let e = self.r.feed(b);
        self.out.push(b);
        self.len += 1;
        match e {
            Ev::No => {}
            Ev::After => self.len = 0,
            Ev::Before => self.len = 1,
        }
        e
    }

    /// A byte that does not give an edge, if there is one.
    fn quiet(&mut self) -> Option<u8> {
        let b0 = self.rng.byte();
        let base = self.r.base();
        if let Spec::Mii { .. } = &*self.spec {
            // never increase, except once in a while; start over from the top
            let last = self.out.last().copied().unwrap_or(0);
            let b = if last < 3 { 255 - (b0 & 3) } else { last - (b0 % 3).min(last) };
            if self.r.peek(b) == Ev::No {
                return Some(b);
            }
        }
        if let Spec::Ram { w } = &*self.spec {
            if self.len as u64 <= *w {
                return Some(b0 % 200 + 1);
            }
        }
        (0..=255u8).map(|d| b0.wrapping_add(d)).find(|b| self.r.peek_from(&base, *b) == Ev::No)
    }

    /// n bytes without an edge (as far as possible).
    pub fn silence(&mut self, n: usize) {
        for _ in 0..n {
            let b = self.quiet().unwrap_or(0);
            self.take(b);
        }
    }

    /// Continues the current chunk so that it ends with exactly `want` bytes.
    pub fn chunk(&mut self, want: usize) -> bool {
        if want <= self.len {
            return false;
        }
        // out of reach
        let (lo, hi) = self.spec.limits();
        if (want as u64) < lo || hi.map(|m| want as u64 > m).unwrap_or(false) {
            return false;
        }
        let save = (self.r.clone(), self.out.len(), self.len);
        // FastCDC incremental: the chunk ends before the matching byte
        let before = matches!((&*self.spec, self.iface), (Spec::Fast { .. }, Iface::Incr));
        let total = if before { want + 1 } else { want };
        let special: Option<Vec<u8>> = match &*self.spec {
            // longer rising runs than this there are not
            Spec::Mii { w } if *w > 255 => None,
            Spec::Mii { w } => {
                let (step, from) = if *w == 255 { (1, 0) } else { ((254 / (*w).max(1)).min(3), 1) };
                Some((0..=*w).map(|i| (i * step + from) as u8).collect())
            }
            Spec::Pigz { bits } if *bits > 16 => {
                let mut v = vec![1u8; *bits as usize];
                v[0] = 0;
                Some(v)
            }
            _ => None,
        };
        for attempt in 0..60 {
            self.r = save.0.clone();
            self.out.truncate(save.1);
            self.len = save.2;
            let need = total - self.len;
            let tail = match &special {
                Some(v) => v.len(),
                None => 4,
            }
            .min(need);
            let mut ok = true;
            while self.len < total - tail {
                match self.quiet() {
                    Some(b) => {
                        self.take(b);
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            if let Some(v) = &special {
                let v = &v[v.len() - tail..];
                let mut r = self.r.clone();
                let mut last = Ev::No;
                let mut good = true;
                for (i, b) in v.iter().enumerate() {
                    last = r.feed(*b);
                    good &= (last == Ev::After) == (i + 1 == v.len());
                }
                if good && last == Ev::After {
                    for b in v.to_vec() {
                        self.take(b);
                    }
                    return true;
                }
            }
            let mut budget = match &*self.spec {
                Spec::Zstd { bits } => 40u64 << bits,
                Spec::Zpaq { avg, .. } if *avg < 22 => (20u64 << avg).max(4096),
                _ => 1 << 18,
            };
            let mut suffix = vec![];
            let tail = tail.min(4);
            if dfs(&self.r, tail, before, &mut suffix, &mut budget, self.rng.byte()) {
                for b in suffix {
                    self.take(b);
                }
                return true;
            }
            if attempt > 8 && need <= 3 {
                break;
            }
        }
        self.r = save.0;
        self.out.truncate(save.1);
        self.len = save.2;
        false
    }
}

fn dfs(r: &RefM, left: usize, before: bool, out: &mut Vec<u8>, budget: &mut u64, salt: u8) -> bool {
    if left == 0 {
        return false;
    }
    if left == 1 && !before {
        if let Some((h, mask)) = r.zstd_base() {
            *budget = budget.saturating_sub(256);
            for b in 0..=255u8 {
                if h.wrapping_add(b as u64 + 10) & mask == mask {
                    out.push(b);
                    return true;
                }
            }
            return false;
        }
    }
    crate::engine::alive();
    let base = r.base();
    for d in 0..=255u8 {
        let b = d.wrapping_mul(37).wrapping_add(salt);
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let e = r.peek_from(&base, b);
        if left == 1 {
            if e == Ev::Before || (e == Ev::After && !before) {
                out.push(b);
                return true;
            }
        } else if e == Ev::No {
            let mut n = r.clone();
            n.feed(b);
            out.push(b);
            if dfs(&n, left - 1, before, out, budget, salt.wrapping_add(101)) {
                return true;
            }
            out.pop();
        }
    }
    false
}

#[derive(Clone)]
pub struct Stream {
    pub name: String,
    pub data: Arc<Vec<u8>>,
    /// edges by the definition, for placing boundaries (not used as an oracle
    /// by the properties that compare the code with itself)
    pub marks: Vec<usize>,
}

pub fn gap_lens(spec: &Spec, cap: usize) -> Vec<usize> {
    let mut s = BTreeSet::new();
    for c in spec.critical_lens() {
        let c = c as i64;
        for d in [-2i64, -1, 0, 1, 2] {
            for m in [1, 2] {
                let v = c * m + d;
                if v >= 1 && (v as usize) <= cap {
                    s.insert(v as usize);
                }
            }
        }
    }
    for v in [1usize, 2, 3, 4, 7, 16, 33, 100] {
        if v <= cap {
            s.insert(v);
        }
    }
    s.into_iter().collect()
}

/// The crafted streams of a subject.
pub fn streams(s: &Subject, seed: u64, scale: usize) -> Vec<Stream> {
    some_streams(s, seed, scale, usize::MAX)
}

/// The first of them.
pub fn first_stream(s: &Subject, seed: u64) -> Stream {
    some_streams(s, seed, 1, 1).remove(0)
}

fn some_streams(s: &Subject, seed: u64, scale: usize, most: usize) -> Vec<Stream> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let spec = &s.spec;
    let maxcrit = spec.critical_lens().into_iter().max().unwrap_or(1) as usize;
    let cap = match &**spec {
        Spec::Zpaq { avg: 16, .. } => 12_000,
        Spec::Zstd { bits } if *bits > 20 => 66,
        _ if s.big => 140_000,
        // chunks longer than the window
        _ => (2 * maxcrit + 2).clamp(400, 12_000),
    };
    let ifaces: &[Iface] = if spec.alg() == "fastcdc" { &Iface::BOTH } else { &[Iface::Fce] };
    for iface in ifaces {
        let lens = gap_lens(spec, cap);
        // ascending, then descending with every other one left out: short and
        // long chunks follow one another in different orders
        let mut c = Crafter::new(spec, *iface, seed);
        if let Spec::Zstd { .. } = &**spec {
            // chunk() measures from the start of the stream for the first edge
            c.silence(40);
            c.len = 0;
        }
        for l in lens.iter() {
            if c.out.len() + l < 220_000 {
                c.chunk(*l);
            }
        }
        for l in lens.iter().rev().step_by(2) {
            if c.out.len() + l < if s.big { 300_000 } else { 60_000 } {
                c.chunk(*l);
            }
        }
        c.silence(maxcrit.min(3000) + 3);
        if c.out.len() < 400 {
            // most of what matters is out of reach
            let n = 300 - c.out.len().min(280);
            c.silence(n);
            c.out.extend(Prng::new(seed + 77).bytes(400));
        }
        v.push((format!("gaps-{}", iface.name()), c.out));
    }
    // nothing triggers an edge
    if most > v.len() {
        let mut c = Crafter::new(spec, Iface::Fce, seed + 1);
        let n = if s.big { (2 * maxcrit + 700).clamp(if spec.window().unwrap_or(0) > 1000 { 20_000 } else { 70_000 }, 150_000) } else { 3 * maxcrit + 300 };
        c.silence(n * scale);
        v.push(("quiet".into(), c.out));
    }
    v.truncate(most);
    let mut rng = Prng::new(seed + 2);
    let rn = if s.big { if spec.window().unwrap_or(0) > 1000 { 20_000 } else { 40_000 } } else { (4 * maxcrit).clamp(600, 12_000) };
    v.push(("random".into(), rng.bytes(rn * scale)));
    v.push(("zeros".into(), vec![0; (maxcrit.min(70_000) * 2 + 300).min(rn * 2)]));
    v.push(("ones".into(), vec![255; (maxcrit.min(70_000) * 2 + 300).min(rn * 2)]));
    v.push(("ramp".into(), (0..(maxcrit.min(70_000) * 2 + 600).min(rn * 2)).map(|i| i as u8).collect()));
    v.push(("down".into(), (0..600usize).map(|i| 255 - (i / 2) as u8).collect()));
    v.truncate(most);
    v.into_iter()
        .map(|(name, data)| {
            let mut marks = ref_edges(spec, Iface::Fce, &data);
            if spec.alg() == "fastcdc" {
                marks.extend(ref_edges(spec, Iface::Incr, &data));
                marks.sort();
                marks.dedup();
            }
            Stream { name, data: Arc::new(data), marks }
        })
        .collect()
}

/// Positions in a stream around which behaviour changes.
pub fn critical_positions(spec: &Spec, st: &Stream, max: usize) -> Vec<usize> {
    let n = st.data.len();
    let mut s = BTreeSet::new();
    let mut starts = vec![0usize];
    // first few edges, closest pairs, and the last ones
    let m = &st.marks;
    starts.extend(m.iter().take(4));
    starts.extend(m.iter().rev().take(2));
    let mut close: Vec<(usize, usize)> = m.windows(2).map(|w| (w[1] - w[0], w[0])).collect();
    close.sort();
    starts.extend(close.iter().take(3).map(|c| c.1));
    starts.extend(close.iter().rev().take(2).map(|c| c.1));
    for s0 in starts {
        for d in -2i64..=2 {
            let p = s0 as i64 + d;
            if p > 0 && (p as usize) < n {
                s.insert(p as usize);
            }
        }
        for c in spec.critical_lens() {
            for d in -1i64..=1 {
                let p = s0 as i64 + c as i64 + d;
                if p > 0 && (p as usize) < n {
                    s.insert(p as usize);
                }
            }
        }
    }
    let mut v: Vec<usize> = s.into_iter().collect();
    // thin out evenly when there are too many
    if v.len() > max {
        let k = v.len() as f64 / max as f64;
        v = (0..max).map(|i| v[(i as f64 * k) as usize]).collect();
    }
    v
}

pub const STEPS: &[usize] = &[
    1, 2, 3, 4, 5, 7, 8, 11, 13, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 67, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513,
    1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537,
];

/// Runs of one byte of these lengths.
pub const RUNS: &[usize] = &[3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 512, 1024];

/// Streams with a run of one byte in them: for small alphabets, within every context of a
/// few letters; and put into crafted chunks, at each of the last positions before the edge.
/// Calls `f` with the stream and the bounds of the run.
pub fn runs(s: &Subject, seed: u64, f: &mut dyn FnMut(&[u8], usize, usize) -> bool) -> bool {
    let a = &s.alpha;
    if !a.is_empty() {
        let a = &a[..a.len().min(3)];
        let mut heads: Vec<Vec<u8>> = vec![vec![]];
        heads.extend(a.iter().map(|x| vec![*x]));
        heads.extend(a.iter().flat_map(|x| a.iter().map(move |y| vec![*x, *y])));
        let tails: Vec<Vec<u8>> = heads[1 + a.len()..].iter().cloned().collect();
        for h in &heads {
            for b in a {
                for &n in [7usize, 8, 15, 16, 17, 31, 32, 33, 64, 128].iter() {
                    for t in &tails {
                        let mut d = h.clone();
                        d.extend(vec![*b; n]);
                        d.extend(t);
                        d.extend(h);
                        if !f(&d, h.len(), h.len() + n) {
                            return false;
                        }
                    }
                }
            }
        }
    }
    let st = first_stream(s, seed);
    let chunks: Vec<(usize, usize)> = std::iter::once(0).chain(st.marks.iter().copied()).zip(st.marks.iter().copied()).collect();
    let mut from: Vec<(usize, usize)> = vec![];
    for min in [1usize, 6, 30, 70, 300] {
        if let Some(c) = chunks.iter().find(|c| c.1 - c.0 >= min && c.1 - c.0 < 3000) {
            if !from.contains(c) {
                from.push(*c);
            }
        }
    }
    for (c0, c1) in from {
        for back in 1..=6usize.min(c1 - c0) {
            let p = c1 - back;
            let prev = if p > c0 { st.data[p - 1] } else { 0 };
            let mut bs = vec![prev, 0, 255];
            bs.sort();
            bs.dedup();
            for b in bs {
                for &n in RUNS {
                    let mut d = st.data[c0..p].to_vec();
                    d.extend(vec![b; n]);
                    let end = d.len();
                    d.extend(&st.data[p..(c1 + 70).min(st.data.len())]);
                    if !f(&d, p - c0, end) {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// Short chunks, then much data, then short chunks again.
pub fn large(s: &Subject, seed: u64) -> Stream {
    let st = first_stream(s, seed);
    let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 9);
    if let Spec::Zstd { .. } = &*s.spec {
        c.silence(40);
        c.len = 0;
    }
    for l in [1usize, 2, 3, 5, 9, 17, 31, 4, 33, 20, 64, 100] {
        c.chunk(l);
    }
    let mut d = c.out.clone();
    d.extend(st.data.iter().take(6000));
    let mark = d.len();
    d.extend(Prng::new(seed + 10).bytes(140_000));
    d.extend(&c.out);
    d.extend(&c.out);
    Stream { name: "large".into(), data: Arc::new(d), marks: vec![mark] }
}
