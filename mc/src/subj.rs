//! Subjects: configurations of the real code, behind uniform adapters.

use crate::refm::Spec;
use crate::tables;
use hash_roll::buzhash::{BuzHash, BuzHashHash, BuzHashTableBufHash, BuzHashTableByteSaltHash, BuzHashTableHash};
use hash_roll::{bup, fastcdc, gear, gzip, mii, pigz, ram, zpaq, zstd};
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::fmt::Debug;
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

pub trait Incr {
    fn push(&mut self, d: &[u8]) -> Option<usize>;
    fn key(&self) -> String;
    fn try_clone(&self) -> Option<Box<dyn Incr>>;
}

pub trait Fce {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize);
    fn key(&self) -> String;
    fn try_clone(&self) -> Option<Box<dyn Fce>>;
}

/// IterSlices or IterSlicesStrict over some data.
pub trait SliceIter<'a> {
    fn next(&mut self) -> Option<&'a [u8]>;
    /// strict only
    fn take_rem(&mut self) -> Option<&'a [u8]>;
    fn into_parts(self: Box<Self>) -> (Box<dyn Incr>, &'a [u8]);
    fn nth(&mut self, n: usize) -> Option<&'a [u8]>;
    fn size_hint(&self) -> (usize, Option<usize>);
    /// All that is left, by one of several methods of `Iterator`.
    fn rest(self: Box<Self>, how: usize) -> Rest<'a>;
    /// debugging output
    fn text(&self) -> String;
}

#[derive(Debug, PartialEq, Eq)]
pub enum Rest<'a> {
    Items(Vec<&'a [u8]>),
    Count(usize),
    Last(Option<&'a [u8]>),
}

/// The methods `Rest` comes from.
pub const RESTS: [&str; 12] =
    ["collect", "fold", "for_each", "try_fold", "skip(1)", "step_by(2)", "by_ref().take(2)", "count", "last", "extend", "peekable", "reduce"];

fn rest<'a, I: Iterator<Item = &'a [u8]>>(mut it: I, how: usize) -> Rest<'a> {
    Rest::Items(match RESTS[how] {
        "collect" => it.collect(),
        "fold" => it.fold(vec![], |mut v, x| {
            v.push(x);
            v
        }),
        "for_each" => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            v
        }
        "try_fold" => {
            let mut v = vec![];
            let r: Result<(), ()> = it.try_fold((), |_, x| {
                v.push(x);
                Ok(())
            });
            assert!(r.is_ok());
            v
        }
        "skip(1)" => it.skip(1).collect(),
        "step_by(2)" => it.step_by(2).collect(),
        "by_ref().take(2)" => {
            let mut v: Vec<&'a [u8]> = it.by_ref().take(2).collect();
            v.extend(it);
            v
        }
        "count" => return Rest::Count(it.count()),
        "last" => return Rest::Last(it.last()),
        "extend" => {
            let mut v: Vec<&'a [u8]> = vec![];
            v.extend(it);
            v
        }
        "peekable" => {
            let mut p = it.peekable();
            let mut v = vec![];
            while let Some(x) = p.peek().copied() {
                v.push(x);
                p.next();
            }
            v
        }
        "reduce" => return Rest::Last(it.reduce(|_, b| b)),
        _ => unreachable!(),
    })
}

pub trait Cfg {
    fn incr(&self) -> Box<dyn Incr>;
    fn fce(&self) -> Box<dyn Fce>;
    fn slices<'a>(&self, data: &'a [u8], strict: bool) -> Box<dyn SliceIter<'a> + 'a>;
    /// a copy of the configuration, where it can be copied
    fn try_clone(&self) -> Option<Rc<dyn Cfg>>;
    /// debugging output
    fn text(&self) -> String;
}

struct CfgA<C: Chunk + ToChunkIncr> {
    c: Rc<C>,
    cl: Cl<C>,
}

/// How to clone what can be cloned.
struct Cl<C: Chunk + ToChunkIncr> {
    cfg: Option<fn(&C) -> C>,
    incr: Option<fn(&C::Incr) -> C::Incr>,
    st: Option<fn(&C::SearchState) -> C::SearchState>,
}
impl<C: Chunk + ToChunkIncr> Clone for Cl<C> {
    fn clone(&self) -> Self {
        Cl { cfg: self.cfg, incr: self.incr, st: self.st }
    }
}

struct IncrA<C: Chunk + ToChunkIncr> {
    i: C::Incr,
    cl: Cl<C>,
}
struct FceA<C: Chunk + ToChunkIncr> {
    c: Rc<C>,
    s: C::SearchState,
    cl: Cl<C>,
}

impl<C> Incr for IncrA<C>
where
    C: Chunk + ToChunkIncr + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.i.push(d)
    }
    fn key(&self) -> String {
        format!("{:?}", self.i)
    }
    fn try_clone(&self) -> Option<Box<dyn Incr>> {
        let f = self.cl.incr?;
        Some(Box::new(IncrA::<C> { i: f(&self.i), cl: self.cl.clone() }))
    }
}

impl<C> Fce for FceA<C>
where
    C: Chunk + ToChunkIncr + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize) {
        self.c.find_chunk_edge(&mut self.s, d)
    }
    fn key(&self) -> String {
        format!("{:?}", self.s)
    }
    fn try_clone(&self) -> Option<Box<dyn Fce>> {
        let f = self.cl.st?;
        Some(Box::new(FceA::<C> { c: self.c.clone(), s: f(&self.s), cl: self.cl.clone() }))
    }
}

struct Loose<'a, C: Chunk + ToChunkIncr> {
    it: hash_roll::IterSlices<'a, C::Incr>,
    cl: Cl<C>,
}
struct Strict<'a, C: Chunk + ToChunkIncr> {
    it: hash_roll::IterSlicesStrict<'a, C::Incr>,
    cl: Cl<C>,
}
impl<'a, C> SliceIter<'a> for Loose<'a, C>
where
    C: Chunk + ToChunkIncr + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn next(&mut self) -> Option<&'a [u8]> {
        self.it.next()
    }
    fn take_rem(&mut self) -> Option<&'a [u8]> {
        None
    }
    fn into_parts(self: Box<Self>) -> (Box<dyn Incr>, &'a [u8]) {
        let s = *self;
        let (i, r) = s.it.into_parts();
        (Box::new(IncrA::<C> { i, cl: s.cl }), r)
    }
    fn nth(&mut self, n: usize) -> Option<&'a [u8]> {
        self.it.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn rest(self: Box<Self>, how: usize) -> Rest<'a> {
        rest(self.it, how)
    }
    fn text(&self) -> String {
        format!("{:?} {:#?}", self.it, self.it)
    }
}
impl<'a, C> SliceIter<'a> for Strict<'a, C>
where
    C: Chunk + ToChunkIncr + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn next(&mut self) -> Option<&'a [u8]> {
        self.it.next()
    }
    fn take_rem(&mut self) -> Option<&'a [u8]> {
        Some(self.it.take_rem())
    }
    fn into_parts(self: Box<Self>) -> (Box<dyn Incr>, &'a [u8]) {
        let s = *self;
        let (i, r) = s.it.into_parts();
        (Box::new(IncrA::<C> { i, cl: s.cl }), r)
    }
    fn nth(&mut self, n: usize) -> Option<&'a [u8]> {
        self.it.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn rest(self: Box<Self>, how: usize) -> Rest<'a> {
        rest(self.it, how)
    }
    fn text(&self) -> String {
        format!("{:?} {:#?}", self.it, self.it)
    }
}

impl<C> Cfg for CfgA<C>
where
    C: Chunk + ToChunkIncr + Debug + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn incr(&self) -> Box<dyn Incr> {
        Box::new(IncrA::<C> { i: self.c.to_chunk_incr(), cl: self.cl.clone() })
    }
    fn fce(&self) -> Box<dyn Fce> {
        Box::new(FceA::<C> { c: self.c.clone(), s: self.c.to_search_state(), cl: self.cl.clone() })
    }
    fn slices<'a>(&self, data: &'a [u8], strict: bool) -> Box<dyn SliceIter<'a> + 'a> {
        let i = self.c.to_chunk_incr();
        if strict {
            Box::new(Strict::<C> { it: i.iter_slices_strict(data), cl: self.cl.clone() })
        } else {
            Box::new(Loose::<C> { it: i.iter_slices(data), cl: self.cl.clone() })
        }
    }
    fn try_clone(&self) -> Option<Rc<dyn Cfg>> {
        let f = self.cl.cfg?;
        Some(Rc::new(CfgA { c: Rc::new(f(&self.c)), cl: self.cl.clone() }))
    }
    fn text(&self) -> String {
        format!("{:?} {:#?}", self.c, self.c)
    }
}

macro_rules! adapt {
    ($c:expr, $incr:expr, $st:expr) => {
        Rc::new(CfgA { c: Rc::new($c), cl: Cl { cfg: Some(|c| c.clone()), incr: $incr, st: $st } }) as Rc<dyn Cfg>
    };
}

/// Hash function of our own, comparable (the library's table types are not).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VecHash(pub Arc<Vec<u32>>);
impl BuzHashHash for VecHash {
    fn hash(&self, d: u8) -> u32 {
        self.0[d as usize]
    }
}

/// Builds the real thing for the given parameters through the general constructors.
pub fn build(spec: &Spec) -> Rc<dyn Cfg> {
    match spec {
        Spec::Bup { w } => from_bup(bup::RollSum::with_window(*w)),
        Spec::Buz { k, mask, max, h } => from_buz(BuzHash::new(*k, *mask, VecHash(h.clone()), *max)),
        Spec::Fast { gear, min, normal, max } => from_fast(fastcdc::FastCdc::new(leak64(gear), *min, *normal, *max)),
        Spec::Gear { log2 } => from_gear(gear::Gear32::with_average_size_log2(*log2 as usize)),
        Spec::Gzip { w, m } => from_gzip(gzip::GzipRsyncable::with_window_and_modulus(*w, *m)),
        Spec::Mii { w } => from_mii(mii::Mii::with_w(*w)),
        Spec::Pigz { bits } => from_pigz(pigz::PigzRsyncable::with_bits(*bits as u8)),
        Spec::Ram { w } => from_ram(ram::Ram::with_w(*w)),
        Spec::Zpaq { avg, lo, hi } => from_zpaq(zpaq::Zpaq::with_average_and_range(*avg as u8, (*lo, *hi))),
        Spec::Zstd { bits } => from_zstd(zstd::Zstd::with_target_section_size(1u64 << bits)),
    }
}

pub fn from_bup(c: bup::RollSum) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_buz<H: BuzHashHash + Clone + Debug + 'static>(c: BuzHash<H>) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_fast(c: fastcdc::FastCdc<'static>) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_gear(c: gear::Gear32<'static>) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_gzip(c: gzip::GzipRsyncable) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_mii(c: mii::Mii) -> Rc<dyn Cfg> {
    adapt!(c, None, None)
}
pub fn from_pigz(c: pigz::PigzRsyncable) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_ram(c: ram::Ram) -> Rc<dyn Cfg> {
    adapt!(c, Some(|i| i.clone()), Some(|s| s.clone()))
}
pub fn from_zpaq(c: zpaq::Zpaq) -> Rc<dyn Cfg> {
    adapt!(c, None, None)
}
pub fn from_zstd(c: zstd::Zstd) -> Rc<dyn Cfg> {
    adapt!(c, None, None)
}

/// Tables with static lifetime, shared between equal tables.
pub fn leak64(t: &Arc<Vec<u64>>) -> &'static [u64; 256] {
    use std::sync::Mutex;
    static POOL: Mutex<Vec<&'static [u64; 256]>> = Mutex::new(Vec::new());
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    for x in p.iter() {
        if x[..] == t[..] {
            return x;
        }
    }
    let mut a = Box::new([0u64; 256]);
    a.copy_from_slice(t);
    let a: &'static [u64; 256] = Box::leak(a);
    p.push(a);
    a
}
pub fn leak32(t: &[u32]) -> &'static [u32; 256] {
    use std::sync::Mutex;
    static POOL: Mutex<Vec<&'static [u32; 256]>> = Mutex::new(Vec::new());
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    for x in p.iter() {
        if x[..] == t[..] {
            return x;
        }
    }
    let mut a = Box::new([0u32; 256]);
    a.copy_from_slice(t);
    let a: &'static [u32; 256] = Box::leak(a);
    p.push(a);
    a
}

pub struct Subject {
    pub id: String,
    pub spec: Arc<Spec>,
    pub mk: Box<dyn Fn() -> Rc<dyn Cfg> + Send + Sync>,
    /// letters for exhaustive streams
    pub alpha: Vec<u8>,
    /// length of exhaustive streams combined with all schedules (quick tier)
    pub e1: usize,
    /// built through a default or derived constructor, production sized
    pub big: bool,
}

pub type Subj = Arc<Subject>;

fn arr32(f: impl Fn(u8) -> u32) -> Arc<Vec<u32>> {
    Arc::new((0..=255u8).map(f).collect())
}
fn arr64(f: impl Fn(u8) -> u64) -> Arc<Vec<u64>> {
    Arc::new((0..=255u8).map(f).collect())
}

/// A byte hash with few low bits, so that small masks are hit often.
pub fn small_hash() -> Arc<Vec<u32>> {
    arr32(|b| match b {
        0 => 1,
        1 => 2,
        2 => 0x8000_0001,
        3 => 0,
        b => (b as u32).wrapping_mul(0x9E37_79B1),
    })
}
/// A gear table: 0 leaves the fingerprint zero (hits both masks), 1 and 2 hit
/// neither for a while, 3 hits the looser mask only.
pub fn small_gear() -> Arc<Vec<u64>> {
    arr64(|b| match b {
        0 => 0,
        1 => 1 << 16,
        2 => 1 << 47,
        3 => 1 << 32,
        4 => 1 << 15,
        b => (b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15),
    })
}
pub fn gear64() -> Arc<Vec<u64>> {
    Arc::new(tables::GEAR64.to_vec())
}
pub fn go_table() -> Arc<Vec<u32>> {
    Arc::new(tables::GO_BUZ.to_vec())
}
pub fn go_salted(salt: u8) -> Arc<Vec<u32>> {
    arr32(|b| tables::GO_BUZ[(b ^ salt) as usize])
}
pub fn borg_table(seed: u32) -> Arc<Vec<u32>> {
    arr32(|b| tables::BORG_BUZ[b as usize] ^ seed)
}

pub fn subject(id: &str, spec: Spec, alpha: &[u8], e1: usize) -> Subj {
    let spec = Arc::new(spec);
    let s2 = spec.clone();
    Arc::new(Subject {
        id: id.to_string(),
        spec,
        mk: Box::new(move || build(&s2)),
        alpha: alpha.to_vec(),
        e1,
        big: false,
    })
}
pub fn big(id: &str, spec: Spec, mk: impl Fn() -> Rc<dyn Cfg> + Send + Sync + 'static) -> Subj {
    Arc::new(Subject { id: id.to_string(), spec: Arc::new(spec), mk: Box::new(mk), alpha: vec![], e1: 0, big: true })
}

use Bound::{Excluded as Ex, Included as In, Unbounded as Un};

/// Small configurations: every length, window and limit is met by short streams.
pub fn small() -> Vec<Subj> {
    let mut v = vec![];
    // bup: letters chosen so that full windows, and partial ones, give edges
    v.push(subject("bup-w8a", Spec::Bup { w: 8 }, &[179, 180], 11));
    v.push(subject("bup-w8b", Spec::Bup { w: 8 }, &[230, 231], 10));
    for (id, w, base) in [("bup-w3", 3usize, 0u32), ("bup-w9", 9, 0), ("bup-w12", 12, 0), ("bup-w13", 13, 0), ("bup-w16", 16, 0)] {
        let _ = base;
        let (a, b) = bup_letters(w);
        v.push(subject(id, Spec::Bup { w }, &[a, b], if w == 9 { 11 } else { 9 }));
    }
    for k in [1usize, 2, 3, 5, 8, 9, 12, 31, 32, 33, 40] {
        v.push(subject(
            &format!("buz-k{k}"),
            Spec::Buz { k, mask: 3, max: 1 << 24, h: small_hash() },
            &[0, 1, 2],
            if k > 12 { 6 } else { 7 },
        ));
    }
    for (k, mask, max) in [(2usize, 7u32, 5u64), (4, 3, 4), (5, 3, 3), (3, 7, 0), (3, 7, 1), (1, 15, 6), (3, 0, 9)] {
        v.push(subject(
            &format!("buz-k{k}-m{mask}-max{max}"),
            Spec::Buz { k, mask, max, h: small_hash() },
            &[0, 1, 3],
            7,
        ));
    }
    for (mi, no, ma) in [
        (1u64, 2u64, 4u64), (2, 3, 6), (1, 1, 3), (2, 4, 5), (0, 2, 5), (0, 0, 4), (3, 3, 8), (1, 6, 6), (2, 2, 3), (4, 5, 7),
    ] {
        v.push(subject(
            &format!("fast-{mi}-{no}-{ma}"),
            Spec::Fast { gear: small_gear(), min: mi, normal: no, max: ma },
            &[0, 1, 3],
            7,
        ));
    }
    v.push(subject("fast-2-4-9", Spec::Fast { gear: small_gear(), min: 2, normal: 4, max: 9 }, &[0, 1, 2, 3], 6));
    for l in [1u32, 2, 3, 4] {
        v.push(subject(&format!("gear-{l}"), Spec::Gear { log2: l }, &gear_letters(l), 7));
    }
    for (w, m) in [(1usize, 2u64), (1, 1), (2, 3), (3, 2), (4, 5), (5, 4), (3, 7)] {
        v.push(subject(&format!("gzip-{w}-{m}"), Spec::Gzip { w, m }, &[1, 2, 3], 7));
    }
    for w in [1u64, 2, 3, 4, 5] {
        v.push(subject(&format!("mii-{w}"), Spec::Mii { w }, &[0, 1, 2, 3, 4, 255][..if w < 3 { 3 } else { 6 }], if w < 3 { 7 } else { 5 }));
    }
    for b in [0u32, 1, 2, 3, 4, 5] {
        v.push(subject(&format!("pigz-{b}"), Spec::Pigz { bits: b }, &[0, 1, 2], 7));
    }
    for w in [0u64, 1, 2, 3, 5] {
        v.push(subject(&format!("ram-{w}"), Spec::Ram { w }, &[0, 1, 255], 7));
    }
    for (id, avg, lo, hi) in [
        ("zpaq-a1-i2-i5", 1u32, In(2u64), In(5u64)),
        ("zpaq-a1-e2-e6", 1, Ex(2), Ex(6)),
        ("zpaq-a2-un-i4", 2, Un, In(4)),
        ("zpaq-a2-i3-un", 2, In(3), Un),
        ("zpaq-a2-un-un", 2, Un, Un),
        ("zpaq-a1-i0-e5", 1, In(0), Ex(5)),
        ("zpaq-a3-e1-i7", 3, Ex(1), In(7)),
        ("zpaq-a0-i3-i6", 0, In(3), In(6)),
        ("zpaq-a32-i1-i3", 32, In(1), In(3)),
        ("zpaq-a32-i5-i6", 32, In(5), In(6)),
    ] {
        v.push(subject(id, Spec::Zpaq { avg, lo, hi }, &[0, 1, 2], 7));
    }
    v
}

/// Two neighbouring letters a, a+1 such that strings over them give bup edges
/// in a full window (found by exhausting the strings of length w + 2 of a
/// two-run form).
fn bup_letters(w: usize) -> (u8, u8) {
    let full: u32 = (1..=w as u32).sum();
    let base = (w as u32) * (w as u32 - 1) * 31;
    let mut best = (u32::MAX, 0u8);
    for a in 0..255u32 {
        // reachable sums in a full window: base + full*a + [0, full]
        for t in 0..40u32 {
            let target = 8191 + t * 8192;
            let lo = base + full * a;
            if target >= lo && target <= lo + full {
                let off = (target - lo).abs_diff(full / 2);
                if off < best.0 {
                    best = (off, a as u8);
                }
            }
        }
    }
    if best.0 == u32::MAX {
        (0, 255)
    } else {
        (best.1, best.1 + 1)
    }
}

/// Letters for small gear masks: the first byte with a hit on its own, and two without.
fn gear_letters(l: u32) -> Vec<u8> {
    let hit = |b: u8| tables::GEAR32[b as usize] >> (32 - l) == 0;
    let mut v: Vec<u8> = (0..=255u8).filter(|b| hit(*b)).take(1).collect();
    v.extend((0..=255u8).filter(|b| !hit(*b)).take(2));
    v
}

/// Configurations of the sizes in use.
pub fn bigs() -> Vec<Subj> {
    let mut v = vec![];
    v.push(big("bup-default", Spec::Bup { w: 64 }, || from_bup(bup::RollSum::default())));
    v.push(big("buz-nom0", Spec::Buz { k: 67, mask: 4095, max: 1 << 24, h: go_table() }, || from_buz(BuzHash::new_nom(0))));
    v.push(big("buz-nom-salt", Spec::Buz { k: 67, mask: 4095, max: 1 << 24, h: go_salted(0x5a) }, || {
        from_buz(BuzHash::new_nom(0x5a))
    }));
    v.push(big("buz-k64-go", Spec::Buz { k: 64, mask: 1023, max: 3000, h: go_table() }, || {
        from_buz(BuzHash::new(64, 1023, BuzHashTableHash::from(leak32(&tables::GO_BUZ)), 3000))
    }));
    v.push(big("buz-borg", Spec::Buz { k: 4095, mask: (1 << 11) - 1, max: 9000, h: borg_table(0x1234_5678) }, || {
        from_buz(BuzHash::new(
            4095,
            (1 << 11) - 1,
            BuzHashTableBufHash::from(hash_roll::buzhash_table::borg_buzhash_table(0x1234_5678)),
            9000,
        ))
    }));
    v.push(big("buz-k48-salt", Spec::Buz { k: 48, mask: 0x8000_03ff, max: 5000, h: go_salted(0xff) }, || {
        from_buz(BuzHash::new(48, 0x8000_03ff, BuzHashTableByteSaltHash::from((0xffu8, leak32(&tables::GO_BUZ))), 5000))
    }));
    v.push(big("fast-default", Spec::Fast { gear: gear64(), min: 2048, normal: 8192, max: 65536 }, || {
        from_fast(fastcdc::FastCdc::default())
    }));
    v.push(big("fast-100-300-1000", Spec::Fast { gear: gear64(), min: 100, normal: 300, max: 1000 }, || {
        from_fast(fastcdc::FastCdc::new(leak64(&gear64()), 100, 300, 1000))
    }));
    v.push(big("fast-0-64-200", Spec::Fast { gear: gear64(), min: 0, normal: 64, max: 200 }, || {
        from_fast(fastcdc::FastCdc::new(leak64(&gear64()), 0, 64, 200))
    }));
    v.push(big("gear-default", Spec::Gear { log2: 13 }, || from_gear(gear::Gear32::default())));
    v.push(big("gear-8", Spec::Gear { log2: 8 }, || from_gear(gear::Gear32::with_average_size_log2(8))));
    v.push(big("gzip-default", Spec::Gzip { w: 8192, m: 4096 }, || from_gzip(gzip::GzipRsyncable::default())));
    v.push(big("gzip-100-500", Spec::Gzip { w: 100, m: 500 }, || {
        from_gzip(gzip::GzipRsyncable::with_window_and_modulus(100, 500))
    }));
    v.push(big("mii-default", Spec::Mii { w: 5 }, || from_mii(mii::Mii::default())));
    v.push(big("mii-8", Spec::Mii { w: 8 }, || from_mii(mii::Mii::with_w(8))));
    v.push(big("pigz-default", Spec::Pigz { bits: 12 }, || from_pigz(pigz::PigzRsyncable::default())));
    v.push(big("pigz-31", Spec::Pigz { bits: 31 }, || from_pigz(pigz::PigzRsyncable::with_bits(31))));
    v.push(big("pigz-8", Spec::Pigz { bits: 8 }, || from_pigz(pigz::PigzRsyncable::with_bits(8))));
    v.push(big("ram-8192", Spec::Ram { w: 8192 }, || from_ram(ram::Ram::with_w(8192))));
    v.push(big("ram-50", Spec::Ram { w: 50 }, || from_ram(ram::Ram::with_w(50))));
    v.push(big("zpaq-default", Spec::Zpaq { avg: 16, lo: In(4096), hi: In(520192) }, || from_zpaq(zpaq::Zpaq::default())));
    v.push(big("zpaq-10", Spec::Zpaq { avg: 10, lo: In(64), hi: In(8128) }, || {
        from_zpaq(zpaq::Zpaq::with_average_size_pow_2(10))
    }));
    v.push(big("zpaq-8-range", Spec::Zpaq { avg: 8, lo: In(100), hi: Ex(1024) }, || {
        from_zpaq(zpaq::Zpaq::with_average_and_range(8, 100..1024u64))
    }));
    v.push(big("zstd-1m", Spec::Zstd { bits: 20 }, || from_zstd(zstd::Zstd::with_target_section_size(1 << 20))));
    v.push(big("zstd-default", Spec::Zstd { bits: 23 }, || from_zstd(zstd::Zstd::default())));
    v
}

pub fn all() -> Vec<Subj> {
    let mut v = small();
    v.extend(bigs());
    v
}

/// Incremental chunkers and search states obtained in some other way than from
/// the configuration's own methods.
struct CfgVia<C: Chunk + ToChunkIncr> {
    c: Rc<C>,
    cl: Cl<C>,
    incr: Option<fn(&C) -> C::Incr>,
    fce: Option<fn(&C) -> C::SearchState>,
}
impl<C> Cfg for CfgVia<C>
where
    C: Chunk + ToChunkIncr + Debug + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    fn incr(&self) -> Box<dyn Incr> {
        let i = self.incr.map_or_else(|| self.c.to_chunk_incr(), |f| f(&self.c));
        Box::new(IncrA::<C> { i, cl: self.cl.clone() })
    }
    fn fce(&self) -> Box<dyn Fce> {
        let s = self.fce.map_or_else(|| self.c.to_search_state(), |f| f(&self.c));
        Box::new(FceA::<C> { c: self.c.clone(), s, cl: self.cl.clone() })
    }
    fn slices<'a>(&self, data: &'a [u8], strict: bool) -> Box<dyn SliceIter<'a> + 'a> {
        let i = self.incr.map_or_else(|| self.c.to_chunk_incr(), |f| f(&self.c));
        if strict {
            Box::new(Strict::<C> { it: i.iter_slices_strict(data), cl: self.cl.clone() })
        } else {
            Box::new(Loose::<C> { it: i.iter_slices(data), cl: self.cl.clone() })
        }
    }
    fn try_clone(&self) -> Option<Rc<dyn Cfg>> {
        None
    }
    fn text(&self) -> String {
        format!("{:?} {:#?}", self.c, self.c)
    }
}

fn via<C>(c: C, incr: Option<fn(&C) -> C::Incr>, fce: Option<fn(&C) -> C::SearchState>) -> Rc<dyn Cfg>
where
    C: Chunk + ToChunkIncr + Debug + 'static,
    C::Incr: Debug + 'static,
    C::SearchState: Debug + 'static,
{
    Rc::new(CfgVia { c: Rc::new(c), cl: Cl { cfg: None, incr: None, st: None }, incr, fce })
}

pub type Route = (&'static str, fn(&Spec) -> Option<Rc<dyn Cfg>>);

/// All the ways the library offers to come by an incremental chunker or a search
/// state, other than `to_chunk_incr` and `to_search_state`.
pub fn routes() -> Vec<Route> {
    fn bup_of(s: &Spec) -> Option<bup::RollSum> {
        if let Spec::Bup { w } = s { Some(bup::RollSum::with_window(*w)) } else { None }
    }
    fn buz_of(s: &Spec) -> Option<BuzHash<VecHash>> {
        if let Spec::Buz { k, mask, max, h } = s { Some(BuzHash::new(*k, *mask, VecHash(h.clone()), *max)) } else { None }
    }
    fn fast_of(s: &Spec) -> Option<fastcdc::FastCdc<'static>> {
        if let Spec::Fast { gear, min, normal, max } = s { Some(fastcdc::FastCdc::new(leak64(gear), *min, *normal, *max)) } else { None }
    }
    fn gear_of(s: &Spec) -> Option<gear::Gear32<'static>> {
        if let Spec::Gear { log2 } = s { Some(gear::Gear32::with_average_size_log2(*log2 as usize)) } else { None }
    }
    fn gzip_of(s: &Spec) -> Option<gzip::GzipRsyncable> {
        if let Spec::Gzip { w, m } = s { Some(gzip::GzipRsyncable::with_window_and_modulus(*w, *m)) } else { None }
    }
    fn mii_of(s: &Spec) -> Option<mii::Mii> {
        if let Spec::Mii { w } = s { Some(mii::Mii::with_w(*w)) } else { None }
    }
    fn pigz_of(s: &Spec) -> Option<pigz::PigzRsyncable> {
        if let Spec::Pigz { bits } = s { Some(pigz::PigzRsyncable::with_bits(*bits as u8)) } else { None }
    }
    fn ram_of(s: &Spec) -> Option<ram::Ram> {
        if let Spec::Ram { w } = s { Some(ram::Ram::with_w(*w)) } else { None }
    }
    fn zpaq_of(s: &Spec) -> Option<zpaq::Zpaq> {
        if let Spec::Zpaq { avg, lo, hi } = s { Some(zpaq::Zpaq::with_average_and_range(*avg as u8, (*lo, *hi))) } else { None }
    }
    fn zstd_of(s: &Spec) -> Option<zstd::Zstd> {
        if let Spec::Zstd { bits } = s { Some(zstd::Zstd::with_target_section_size(1u64 << bits)) } else { None }
    }
    vec![
        ("RollSumIncr::from(&RollSum), RollSumSearchState::from(&RollSum)", |s| Some(via(bup_of(s)?, Some(|c| c.into()), Some(|c| c.into())))),
        ("BuzHashIncr::from(BuzHash), BuzHashSearchState::default()", |s| Some(via(buz_of(s)?, Some(|c| c.clone().into()), Some(|_| Default::default())))),
        ("BuzHashIncr::from(&BuzHash)", |s| Some(via(buz_of(s)?, Some(|c| c.into()), None))),
        ("FastCdcIncr::from(&FastCdc), FastCdcState::default()", |s| Some(via(fast_of(s)?, Some(|c| c.into()), Some(|_| Default::default())))),
        ("GearIncr32::from(&Gear32), GearState32::default()", |s| Some(via(gear_of(s)?, Some(|c| c.into()), Some(|_| Default::default())))),
        ("GzipRsyncableIncr::from(GzipRsyncable), GzipRsyncableSearchState::default()", |s| {
            Some(via(gzip_of(s)?, Some(|c| c.clone().into()), Some(|_| Default::default())))
        }),
        ("GzipRsyncableIncr::from(&GzipRsyncable)", |s| Some(via(gzip_of(s)?, Some(|c| c.into()), None))),
        ("MiiIncr::from(Mii), MiiSearchState::from(MiiIncr)", |s| {
            Some(via(mii_of(s)?, Some(|c| c.clone().into()), Some(|c| mii::MiiIncr::from(c.clone()).into())))
        }),
        ("MiiIncr::from(&Mii)", |s| Some(via(mii_of(s)?, Some(|c| c.into()), Some(|c| c.to_chunk_incr().into())))),
        ("PigzRsyncableIncr::from(PigzRsyncable), PigzRsyncableSearchState::from(&PigzRsyncable)", |s| {
            Some(via(pigz_of(s)?, Some(|c| c.clone().into()), Some(|c| c.into())))
        }),
        ("PigzRsyncableIncr::from(&PigzRsyncable)", |s| Some(via(pigz_of(s)?, Some(|c| c.into()), None))),
        ("RamIncr::from(&Ram), RamState::default()", |s| Some(via(ram_of(s)?, Some(|c| c.into()), Some(|_| Default::default())))),
        ("ZpaqIncr::from(Zpaq), ZpaqSearchState::default()", |s| Some(via(zpaq_of(s)?, Some(|c| c.clone().into()), Some(|_| Default::default())))),
        ("ZpaqIncr::from(&Zpaq), ZpaqSearchState::from(&Zpaq)", |s| Some(via(zpaq_of(s)?, Some(|c| c.into()), Some(|c| c.into())))),
        ("ZstdIncr::from(Zstd), ZstdSearchState::default()", |s| Some(via(zstd_of(s)?, Some(|c| c.clone().into()), Some(|_| Default::default())))),
        ("ZstdIncr::from(&Zstd)", |s| Some(via(zstd_of(s)?, Some(|c| c.into()), None))),
    ]
}
