//! Explorations specific to one property.

use crate::craft::{streams, Crafter, Prng, Stream};
use crate::drive::*;
use crate::engine::{tick, trace, Ctx, Job, Worker};
use crate::props::{job, strings};
use crate::refm::{ref_edges, Ev, Iface, RefM, Spec};
use crate::subj::*;
use crate::tables;
use hash_roll::buzhash::{BuzHash, BuzHashHash, BuzHashTableBufHash, BuzHashTableByteSaltHash, BuzHashTableHash};
use hash_roll::{bup, fastcdc, gear, gzip, mii, pigz, zpaq, zstd, ChunkIncr};
use std::ops::Bound;
use std::rc::Rc;
use std::sync::Arc;

fn same(got: &[usize], want: &[usize], what: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        Err(format!("{what}: got {:?}, expected {:?} (from edge number {i} on)", &got[i..got.len().min(i + 5)], &want[i..want.len().min(i + 5)]))
    }
}

// ------------------------------------------------------------------ C11

fn bup_digest(w: usize, hist: &[u8]) -> u32 {
    let n = hist.len();
    let tail = &hist[n.saturating_sub(w)..];
    let w32 = w as u32;
    let mut s1 = w32.wrapping_mul(31);
    let mut s2 = w32.wrapping_mul(w32.wrapping_sub(1)).wrapping_mul(31);
    for (age, x) in tail.iter().rev().enumerate() {
        s1 = s1.wrapping_add(*x as u32);
        s2 = s2.wrapping_add((*x as u32).wrapping_mul(age as u32 + 1));
    }
    (s1 << 16) | (s2 & 0xffff)
}

pub fn c11(ctx: &Ctx, v: &mut Vec<Job>) {
    let n = ctx.pick(9usize, 11);
    for w in [1usize, 2, 3, 4, 5, 6, 8] {
        job(v, format!("digest/w{w}"), move |wk| {
            strings(&[0, 1, 255], n, None, &mut |d| {
                wk.exec(&|| hex(d), 0, &mut |_| {
                    let mut m = bup::RollSumIncr::from(&bup::RollSum::with_window(w));
                    for i in 0..=d.len() {
                        let want = bup_digest(w, &d[..i]);
                        if m.digest() != want {
                            return Err(format!("digest {:08x} after {i} rolled bytes, expected {want:08x}", m.digest()));
                        }
                        if m.at_split() != (want & 8191 == 8191) {
                            return Err(format!("at_split() {} with digest {want:08x}", m.at_split()));
                        }
                        if i < d.len() {
                            tick();
                            m.roll_byte(d[i]);
                        }
                    }
                    Ok(vec![m.digest() as usize])
                })
            });
        });
    }
    let seed = ctx.seed;
    for w in [1usize, 2, 3, 5, 7, 8, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 1000] {
        job(v, format!("digest-long/w{w}"), move |wk| {
            let mut rng = Prng::new(seed + w as u64);
            let s: Vec<(&str, Vec<u8>)> = vec![
                ("random", rng.bytes(4000 + 2 * w)),
                ("ones", vec![255; 3 * w + 600]),
                ("ramp", (0..3 * w + 600).map(|i| i as u8).collect()),
                ("edges", {
                    let mut c = Crafter::new(&Arc::new(Spec::Bup { w }), Iface::Fce, seed);
                    for l in [w + 1, 2, w, 2 * w, 5] {
                        c.chunk(l);
                    }
                    c.silence(w + 10);
                    c.out
                }),
            ];
            for (name, d) in s {
                wk.exec(&|| name.to_string(), 0, &mut |_| {
                    // rolled: never reset
                    let mut m = if w == 64 { bup::RollSumIncr::default() } else { bup::RollSumIncr::from(&bup::RollSum::with_window(w)) };
                    let mut splits = vec![];
                    for i in 0..d.len() {
                        tick();
                        m.roll_byte(d[i]);
                        let want = bup_digest(w, &d[..=i]);
                        if m.digest() != want || m.at_split() != (want & 8191 == 8191) {
                            return Err(format!("digest {:08x} after {} rolled bytes, expected {want:08x}", m.digest(), i + 1));
                        }
                        if m.at_split() {
                            splits.push(i + 1);
                        }
                    }
                    Ok(splits)
                });
                wk.exec(&|| format!("{name}/pushed"), 0, &mut |_| {
                    // pushed: the digest is that of the chunk so far
                    let mut m = bup::RollSumIncr::from(&bup::RollSum::with_window(w));
                    let mut e = vec![];
                    let mut start = 0;
                    for i in 0..d.len() {
                        tick();
                        match m.push(&d[i..i + 1]) {
                            None => {}
                            Some(1) => {
                                start = i + 1;
                                e.push(start);
                            }
                            Some(x) => return Err(format!("index {x} of 1")),
                        }
                        let want = bup_digest(w, &d[start..=i]);
                        if m.digest() != want {
                            return Err(format!("digest {:08x} after {} pushed bytes ({} of the chunk), expected {want:08x}", m.digest(), i + 1, i + 1 - start));
                        }
                    }
                    Ok(e)
                });
            }
        });
    }
}

// ------------------------------------------------------------------ C12

pub fn c12(ctx: &Ctx, v: &mut Vec<Job>) {
    job(v, "tables".into(), |w| {
        w.exec(&|| "go".into(), 0, &mut |ch| {
            let b = ch.choose(256);
            tick();
            if hash_roll::buzhash_table::GO_BUZHASH[b] != tables::GO_BUZ[b] {
                return Err(format!("GO_BUZHASH[{b}] differs from the published table"));
            }
            if hash_roll::buzhash_table::BORG_BUZHASH_BASE[b] != tables::BORG_BUZ[b] {
                return Err(format!("BORG_BUZHASH_BASE[{b}] differs from the published table"));
            }
            Ok(vec![b])
        });
        // seeds: every single bit, pairs of bits, and some others
        let mut seeds: Vec<u32> = vec![0, u32::MAX, 0x1234_5678, 0xdead_beef];
        for i in 0..32 {
            for j in i..32 {
                seeds.push((1 << i) | (1 << j));
            }
        }
        // ascending, descending and repeated: one table must not depend on another
        let mut order = seeds.clone();
        order.extend(seeds.iter().rev());
        for (n, s) in order.iter().enumerate() {
            if !w.exec(&|| format!("borg seed {s:08x} as call {n}"), 0, &mut |_| {
                tick();
                let t = hash_roll::buzhash_table::borg_buzhash_table(*s);
                for b in 0..256 {
                    if t[b] != tables::BORG_BUZ[b] ^ s {
                        return Err(format!("entry {b} is {:08x}, expected {:08x}", t[b], tables::BORG_BUZ[b] ^ s));
                    }
                }
                Ok(vec![t[0] as usize])
            }) {
                return;
            }
        }
    });
    job(v, "hash-types".into(), |w| {
        let t = leak32(&tables::GO_BUZ);
        w.exec(&|| "hash".into(), 0, &mut |ch| {
            let b = ch.choose(256) as u8;
            let salt = ch.choose(256) as u8;
            tick();
            let want = tables::GO_BUZ[b as usize];
            if BuzHashTableHash::from(t).hash(b) != want {
                return Err(format!("BuzHashTableHash.hash({b})"));
            }
            if BuzHashTableByteSaltHash::from((salt, t)).hash(b) != tables::GO_BUZ[(b ^ salt) as usize] {
                return Err(format!("BuzHashTableByteSaltHash(salt {salt}).hash({b})"));
            }
            if salt < 2 && BuzHashTableBufHash::from(Box::new(*t)).hash(b) != want {
                return Err(format!("BuzHashTableBufHash.hash({b})"));
            }
            Ok(vec![b as usize, salt as usize])
        });
    });
    let seed = ctx.seed;
    job(v, "nom-salts".into(), move |w| {
        for salt in 0..=255u8 {
            let spec = Arc::new(Spec::Buz { k: 67, mask: 4095, max: 1 << 24, h: go_salted(salt) });
            let mut c = Crafter::new(&spec, Iface::Fce, seed + salt as u64);
            for l in [3usize, 67, 68, 100] {
                c.chunk(l);
            }
            c.silence(80);
            let cfg = from_buz(BuzHash::new_nom(salt));
            for iface in Iface::BOTH {
                if !w.exec(&|| format!("salt{salt}/{}", iface.name()), 0, &mut |_| {
                    let e = whole(&*cfg, iface, &c.out)?;
                    same(&e, &ref_edges(&spec, iface, &c.out), "against the definition")?;
                    Ok(e)
                }) {
                    return;
                }
            }
        }
    });
    for (name, which) in [("table", 0), ("buf", 1), ("salt", 2)] {
        job(v, format!("streams-of-type/{name}"), move |w| {
            let (spec, cfg): (Spec, Rc<dyn Cfg>) = match which {
                0 => (
                    Spec::Buz { k: 21, mask: 63, max: 300, h: go_table() },
                    from_buz(BuzHash::new(21, 63, BuzHashTableHash::from(leak32(&tables::GO_BUZ)), 300)),
                ),
                1 => (
                    Spec::Buz { k: 21, mask: 63, max: 300, h: borg_table(77) },
                    from_buz(BuzHash::new(21, 63, BuzHashTableBufHash::from(hash_roll::buzhash_table::borg_buzhash_table(77)), 300)),
                ),
                _ => (
                    Spec::Buz { k: 21, mask: 63, max: 300, h: go_salted(9) },
                    from_buz(BuzHash::new(21, 63, BuzHashTableByteSaltHash::from((9u8, leak32(&tables::GO_BUZ))), 300)),
                ),
            };
            let s = subject("x", spec, &[], 0);
            for st in streams(&s, seed, 1) {
                for iface in Iface::BOTH {
                    for step in [1usize, 3, 50, 100_000] {
                        w.exec(&|| format!("{}/{}/step{step}", st.name, iface.name()), 0, &mut |_| {
                            let e = stepped(&*cfg, iface, &st.data, step)?;
                            same(&e, &ref_edges(&s.spec, iface, &st.data), "against the definition")?;
                            Ok(e)
                        });
                    }
                }
            }
        });
    }
}

// ------------------------------------------------------------------ C13

pub fn c13(_ctx: &Ctx, v: &mut Vec<Job>) {
    job(v, "beyond-4GiB/skipped".into(), |w| {
        let g = 1u64 << 30;
        // the skipped part is not read, so this is quick
        for (name, min, normal, max, want) in [
            ("min", 5 * g, 6 * g, 7 * g, 5 * g),
            ("min+3", 4 * g + 3, 4 * g + 4, 7 * g, 4 * g + 3),
        ] {
            for iface in Iface::BOTH {
                w.exec(&|| format!("{name}/{}", iface.name()), 0, &mut |_| {
                    let s = subject("x", Spec::Fast { gear: small_gear(), min, normal, max }, &[], 0);
                    let cfg = (s.mk)();
                    let d = vec![0u8; g as usize];
                    let mut pos = 0u64;
                    let mut i = cfg.incr();
                    let mut f = cfg.fce();
                    for _ in 0..6 {
                        tick();
                        let r = match iface {
                            Iface::Incr => i.push(&d),
                            Iface::Fce => f.find(&d).0,
                        };
                        match r {
                            None => pos += g,
                            Some(x) => {
                                let e = pos + x as u64;
                                let want = if iface == Iface::Fce { want + 1 } else { want };
                                if e != want {
                                    return Err(format!("first edge at {e}, expected {want}"));
                                }
                                return Ok(vec![e as usize]);
                            }
                        }
                    }
                    Err("no edge".into())
                });
            }
        }
    });
}

/// Configurations in which a chunk of more than 4 GiB of one byte, behind a
/// head, has no edge: (subject, head, byte).
pub fn far_subjects() -> Vec<(Subj, Vec<u8>, u8)> {
    let g4 = 1u64 << 32;
    let mut v: Vec<(Subj, Vec<u8>, u8)> = vec![];
    let mut add = |id: &str, s: Spec, head: &[u8], bytes: &[u8]| {
        let s = subject(&format!("far-{id}"), s, &[], 0);
        // a byte that gives no edge
        let quiet = |b: &u8| {
            let mut r = RefM::new(&s.spec, Iface::Fce);
            head.iter().all(|h| r.feed(*h) == Ev::No) && (0..20_000).all(|_| r.feed(*b) == Ev::No)
        };
        let b = bytes.iter().copied().find(quiet).unwrap_or_else(|| panic!("no byte for {id}"));
        v.push((s, head.to_vec(), b));
    };
    let any: Vec<u8> = (0..=255).collect();
    add("bup", Spec::Bup { w: 64 }, &[], &any);
    add("bup-1000", Spec::Bup { w: 1000 }, &[1, 2, 3], &any);
    add("buz", Spec::Buz { k: 67, mask: 4095, max: u64::MAX, h: go_table() }, &[], &any);
    add("buz-max", Spec::Buz { k: 16, mask: 0xffff, max: g4 + 3_100_000, h: go_table() }, &[7], &any);
    add("fast", Spec::Fast { gear: small_gear(), min: 2, normal: g4 + 3_000_100, max: g4 + 3_002_000 }, &[], &[1]);
    add("fast-min", Spec::Fast { gear: gear64(), min: g4 + 3_000_020, normal: g4 + 3_000_500, max: 2 * g4 }, &[], &any);
    add("gear", Spec::Gear { log2: 13 }, &[], &any);
    add("gzip", Spec::Gzip { w: 1000, m: 4099 }, &[], &[1]);
    add("gzip-8192", Spec::Gzip { w: 8192, m: 2_100_000 }, &[1], &any);
    add("mii", Spec::Mii { w: 5 }, &[1, 2, 3], &any);
    add("pigz", Spec::Pigz { bits: 12 }, &[], &any);
    add("ram", Spec::Ram { w: 50 }, &[255], &[0]);
    add("ram-w", Spec::Ram { w: g4 + 3_000_100 }, &[], &[3]);
    add("zpaq", Spec::Zpaq { avg: 32, lo: Bound::Included(g4 + 3_000_100), hi: Bound::Included(g4 + 3_001_000) }, &[], &any);
    add("zpaq-excl", Spec::Zpaq { avg: 16, lo: Bound::Excluded(g4 + 3_000_200), hi: Bound::Excluded(g4 + 3_150_000) }, &[], &any);
    add("zstd", Spec::Zstd { bits: 20 }, &[], &any);
    v
}

/// What came of a stream of more than 4 GiB without an edge and a tail.
pub struct Far<'a> {
    pub s: &'a Subject,
    pub iface: Iface,
    /// where the tail begins
    pub base: u64,
    /// the byte it all was before
    pub byte: u8,
    pub tail: &'a [u8],
    pub got: &'a [u64],
    /// by the definition
    pub want: &'a [u64],
}

pub fn far_conforms(f: &Far) -> Result<(), String> {
    far_same(f.got, f.want, f.base, "by the definition")
}

fn far_same(got: &[u64], want: &[u64], base: u64, what: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "after {base} bytes without an edge: edge number {i} at {:?} ({} in all), {what} at {:?} ({} in all)",
        got.get(i),
        got.len(),
        want.get(i),
        want.len()
    ))
}

/// No chunk out of the limits.
pub fn far_limits(f: &Far) -> Result<(), String> {
    let (lo, hi) = f.s.spec.limits();
    let mut prev = 0;
    for e in f.got {
        if e - prev < lo || e - prev > hi.unwrap_or(u64::MAX) {
            return Err(format!("chunk {prev}..{e} is {} bytes, not in {lo}..={hi:?}", e - prev));
        }
        prev = *e;
    }
    let end = f.base + f.tail.len() as u64;
    if end - prev > hi.unwrap_or(u64::MAX) {
        return Err(format!("{} bytes from {prev} on and no edge, maximum {hi:?}", end - prev));
    }
    Ok(())
}

/// The same windows behind fewer bytes: the same edges.
pub fn far_window(f: &Far) -> Result<(), String> {
    const LEAD: usize = 20_000;
    let mut d = vec![f.byte; LEAD];
    d.extend_from_slice(f.tail);
    let e = whole(&*(f.s.mk)(), f.iface, &d)?;
    let e: Vec<u64> = e.iter().map(|x| *x as u64 + f.base - LEAD as u64).collect();
    far_same(f.got, &e, f.base, &format!("after {LEAD} bytes without an edge"))
}

/// After the first edge as from the start.
pub fn far_restart(f: &Far) -> Result<(), String> {
    let Some(e0) = f.got.first() else { return Ok(()) };
    let from = (e0 - f.base) as usize;
    let e = whole(&*(f.s.mk)(), f.iface, &f.tail[from..])?;
    let e: Vec<u64> = e.iter().map(|x| *x as u64 + e0).collect();
    far_same(&f.got[1..], &e, f.base, "for what follows the first edge alone")
}

const FAR: u64 = (1 << 32) + 3_000_000;

/// A slice of more than 4 GiB against the same in smaller slices.
pub fn giant(v: &mut Vec<Job>, seed: u64, iface: Iface) {
    let skip = ["far-bup-1000", "far-buz-max", "far-gzip-8192", "far-ram", "far-zpaq-excl", "far-fast-min"];
    for (s, head, b) in far_subjects().into_iter().filter(|x| !skip.contains(&&x.0.id[..])) {
        job(v, format!("slice-of-4GiB/{}", s.id), move |w| {
            let tail = Prng::new(seed + 57).bytes(100_000);
            let n = head.len() + FAR as usize;
            // untouched pages take no memory where the byte is 0; of the others
            // one at a time
            static FULL: std::sync::Mutex<()> = std::sync::Mutex::new(());
            let _one = loop {
                if b == 0 {
                    break None;
                }
                match FULL.try_lock() {
                    Ok(g) => break Some(g),
                    Err(std::sync::TryLockError::Poisoned(e)) => break Some(e.into_inner()),
                    Err(_) => {
                        if w.stopped() {
                            return;
                        }
                        crate::engine::alive();
                        std::thread::sleep(std::time::Duration::from_millis(20));
                    }
                }
            };
            let mut d = vec![0; n + tail.len()];
            for p in d.chunks_mut(if b == 0 { usize::MAX } else { 64 << 20 }) {
                crate::engine::alive();
                if b != 0 {
                    p.fill(b);
                }
            }
            d[..head.len()].copy_from_slice(&head);
            d[n..].copy_from_slice(&tail);
            let mut base = None;
            for step in [16usize << 20, usize::MAX] {
                w.exec(&|| format!("step{step}"), 0, &mut |_| {
                    let e = stepped(&*(s.mk)(), iface, &d, step.min(d.len()))?;
                    match &base {
                        None => base = Some(e.clone()),
                        Some(b) => same(&e, b, "against slices of 16 MiB")?,
                    }
                    Ok(e)
                });
            }
        });
    }
}

/// Edges behind 2^k bytes without one, all in one slice: of a chunker, and by
/// the definition.
pub fn ahead(v: &mut Vec<Job>, seed: u64, iface: Option<Iface>, which: impl Fn(&Subject) -> bool, check: impl Fn(&Far) -> Result<(), String> + Send + Sync + Clone + 'static) {
    for (s, head, b) in far_subjects().into_iter().filter(|x| which(&x.0)) {
        let check = check.clone();
        job(v, format!("behind-2^k/{}", s.id), move |w| {
            let tail = Prng::new(seed + 58).bytes(30_000);
            for iface in Iface::BOTH.into_iter().filter(|i| iface.map_or(true, |x| x == *i)) {
                for k in 14..=24 {
                    let n = (1u64 << k) + 100;
                    let base = head.len() as u64 + n;
                    let mut d = head.clone();
                    d.resize(base as usize, b);
                    d.extend(&tail);
                    let mut r = RefM::new(&s.spec, iface);
                    for x in &head {
                        r.feed(*x);
                    }
                    r.skip(b, n);
                    let mut want = vec![];
                    for (i, x) in tail.iter().enumerate() {
                        match r.feed(*x) {
                            Ev::No => {}
                            Ev::After => want.push(base + i as u64 + 1),
                            Ev::Before => want.push(base + i as u64),
                        }
                    }
                    for step in [usize::MAX, 700_001] {
                        if step < usize::MAX && k < 20 {
                            continue;
                        }
                        w.exec(&|| format!("{}/2^{k}/step{step}", iface.name()), 0, &mut |_| {
                            let e = stepped(&*(s.mk)(), iface, &d, step.min(d.len()))?;
                            let got: Vec<u64> = e.iter().map(|x| *x as u64).collect();
                            check(&Far { s: &s, iface, base, byte: b, tail: &tail, got: &got, want: &want })?;
                            Ok(e)
                        });
                    }
                }
            }
        });
    }
}

/// Edges behind 2^k bytes without one, all in one slice and in small ones.
pub fn ahead_sliced(v: &mut Vec<Job>, seed: u64, iface: Iface) {
    for (s, head, b) in far_subjects() {
        job(v, format!("behind-2^k/{}", s.id), move |w| {
            let tail = Prng::new(seed + 59).bytes(30_000);
            for k in 14..=24 {
                let mut d = head.clone();
                d.resize((1 << k) + 100, b);
                d.extend(&tail);
                let mut base = None;
                for step in [1000, usize::MAX, 65_536] {
                    w.exec(&|| format!("2^{k}/step{step}"), 0, &mut |_| {
                        let e = stepped(&*(s.mk)(), iface, &d, step.min(d.len()))?;
                        match &base {
                            None => base = Some(e.clone()),
                            Some(b) => same(&e, b, "against slices of 1000 bytes")?,
                        }
                        Ok(e)
                    });
                }
            }
        });
    }
}

/// Edges after more than 4 GiB without one: of a chunker, and by the definition.
pub fn far(v: &mut Vec<Job>, seed: u64, which: impl Fn(&Subject) -> bool, check: impl Fn(&Far) -> Result<(), String> + Send + Sync + Clone + 'static) {
    const N: u64 = FAR;
    for (s, head, b) in far_subjects().into_iter().filter(|x| which(&x.0)) {
        for iface in Iface::BOTH {
            let (s, head, check) = (s.clone(), head.clone(), check.clone());
            job(v, format!("beyond-4GiB/{}/{}", s.id, iface.name()), move |w| {
                let mut tail = Prng::new(seed + 55).bytes(300_000);
                // (the same data at the end again: something for edges to be found in)
                let again = tail[..50_000].to_vec();
                tail.extend(again);
                if s.spec.alg() == "zstd" {
                    // an edge within reach
                    let mut p = Prng::new(seed + 56);
                    let mut r = RefM::new(&s.spec, iface);
                    let mut t = tail[..40].to_vec();
                    t.iter().for_each(|x| {
                        r.feed(*x);
                    });
                    let last = loop {
                        if let Some(x) = (0..=255).find(|x| r.peek(*x) == Ev::After) {
                            break x;
                        }
                        crate::engine::alive();
                        let x = p.byte();
                        r.feed(x);
                        t.push(x);
                    };
                    t.push(last);
                    t.extend(&tail);
                    tail = t;
                }
                let base = head.len() as u64 + N;
                let mut r = RefM::new(&s.spec, iface);
                for x in &head {
                    r.feed(*x);
                }
                r.skip(b, N);
                let mut want = vec![];
                for (i, x) in tail.iter().enumerate() {
                    match r.feed(*x) {
                        Ev::No => {}
                        Ev::After => want.push(base + i as u64 + 1),
                        Ev::Before => want.push(base + i as u64),
                    }
                }
                w.note = format!("{} bytes of {b}, then {} others: {} edges", N, tail.len(), want.len());
                w.exec(&|| iface.name().to_string(), 0, &mut |_| {
                    let cfg = (s.mk)();
                    let slice = vec![b; 16 << 20];
                    let mut got = vec![];
                    match iface {
                        Iface::Incr => {
                            let mut i = cfg.incr();
                            if i.push(&head).is_some() {
                                return Err("edge in the head".into());
                            }
                            let mut pos = 0u64;
                            while pos < N {
                                let n = (N - pos).min(slice.len() as u64) as usize;
                                tick();
                                if let Some(x) = i.push(&slice[..n]) {
                                    return Err(format!("edge at {} among equal bytes", head.len() as u64 + pos + x as u64));
                                }
                                pos += n as u64;
                            }
                            let mut p = 0;
                            while p < tail.len() {
                                tick();
                                match i.push(&tail[p..]) {
                                    None => break,
                                    Some(x) => {
                                        p += x;
                                        got.push(base + p as u64);
                                    }
                                }
                                if got.len() > tail.len() {
                                    return Err("no end".into());
                                }
                            }
                        }
                        Iface::Fce => {
                            let mut f = cfg.fce();
                            // what has been kept is the end of the stream so far
                            let mut kept = head.clone();
                            let mut pos = 0u64;
                            let mut find = |buf: &[u8]| -> Result<(Option<usize>, usize), String> {
                                tick();
                                let (r, d) = f.find(buf);
                                if d > buf.len() {
                                    return Err(format!("discard of {d} from {}", buf.len()));
                                }
                                Ok((r, d))
                            };
                            while pos < N {
                                let n = (N - pos).min(slice.len() as u64) as usize;
                                let (r, d, len);
                                if kept.iter().all(|x| *x == b) && kept.len() < n {
                                    // as good as kept + slice without copying
                                    len = n;
                                    pos += (n - kept.len()) as u64;
                                    (r, d) = find(&slice[..n])?;
                                    if let Some(x) = r {
                                        return Err(format!("edge {} before {pos} among equal bytes", n - x));
                                    }
                                    kept = slice[..len - d].to_vec();
                                } else {
                                    kept.extend(&slice[..n]);
                                    pos += n as u64;
                                    (r, d) = find(&kept)?;
                                    if let Some(x) = r {
                                        return Err(format!("edge {} before {pos} among equal bytes", kept.len() - x));
                                    }
                                    kept.drain(..d);
                                }
                                if kept.len() > 1 << 20 {
                                    return Err(format!("{} bytes kept", kept.len()));
                                }
                            }
                            let mut at = base - kept.len() as u64;
                            kept.extend(&tail);
                            let mut p = 0;
                            loop {
                                let (r, d) = find(&kept[p..])?;
                                if let Some(x) = r {
                                    got.push(at + x as u64);
                                }
                                p += d;
                                at += d as u64;
                                if r.is_none() {
                                    break;
                                }
                                if got.len() > tail.len() {
                                    return Err("no end".into());
                                }
                            }
                        }
                    }
                    check(&Far { s: &s, iface, base, byte: b, tail: &tail, got: &got, want: &want })?;
                    Ok(got.iter().map(|x| *x as usize).collect())
                });
            });
        }
    }
}

// ------------------------------------------------------------------ C21

struct Ctor {
    name: String,
    spec: Arc<Spec>,
    mk: Box<dyn Fn() -> Rc<dyn Cfg> + Send + Sync>,
    /// neighbouring parameters whose streams tell them apart
    near: Vec<Spec>,
}

fn ctor(name: String, spec: Spec, near: Vec<Spec>, mk: impl Fn() -> Rc<dyn Cfg> + Send + Sync + 'static) -> Ctor {
    Ctor { name, spec: Arc::new(spec), mk: Box::new(mk), near }
}

fn zspec(avg: u32, lo: Bound<u64>, hi: Bound<u64>) -> Spec {
    Spec::Zpaq { avg, lo, hi }
}

fn ctors(thorough: bool) -> Vec<Ctor> {
    use Bound::*;
    let mut v = vec![];
    v.push(ctor("bup-default".into(), Spec::Bup { w: 64 }, vec![Spec::Bup { w: 63 }, Spec::Bup { w: 65 }, Spec::Bup { w: 128 }], || from_bup(bup::RollSum::default())));
    for w in [1usize, 2, 7, 64, 100] {
        v.push(ctor(format!("bup-{w}"), Spec::Bup { w }, vec![Spec::Bup { w: w + 1 }], move || from_bup(bup::RollSum::with_window(w))));
    }
    let buz = |k, mask, max, salt| Spec::Buz { k, mask, max, h: go_salted(salt) };
    for salt in [0u8, 1, 0x80, 0xff] {
        v.push(ctor(
            format!("buz-nom-{salt}"),
            buz(67, 4095, 1 << 24, salt),
            vec![buz(66, 4095, 1 << 24, salt), buz(68, 4095, 1 << 24, salt), buz(67, 2047, 1 << 24, salt), buz(67, 8191, 1 << 24, salt), buz(67, 4095, 1 << 24, salt ^ 1)],
            move || from_buz(BuzHash::new_nom(salt)),
        ));
    }
    let fast = |a, b, c| Spec::Fast { gear: gear64(), min: a, normal: b, max: c };
    v.push(ctor(
        "fast-default".into(),
        fast(2048, 8192, 65536),
        vec![fast(2047, 8192, 65536), fast(2049, 8192, 65536), fast(2048, 8191, 65536), fast(2048, 8193, 65536), fast(2048, 8192, 65535), fast(2048, 8192, 65537)],
        || from_fast(fastcdc::FastCdc::default()),
    ));
    for (a, b, c) in [(10u64, 20u64, 60u64), (20, 40, 100)] {
        v.push(ctor(
            format!("fast-{a}-{b}-{c}"),
            fast(a, b, c),
            vec![fast(a + 1, b, c), fast(a - 1, b, c), fast(a, b + 1, c), fast(a, b - 1, c), fast(a, b, c + 1), fast(a, b, c - 1)],
            move || from_fast(fastcdc::FastCdc::new(leak64(&gear64()), a, b, c)),
        ));
    }
    v.push(ctor("gear-default".into(), Spec::Gear { log2: 13 }, vec![Spec::Gear { log2: 12 }, Spec::Gear { log2: 14 }], || from_gear(gear::Gear32::default())));
    for l in 1..=17u32 {
        v.push(ctor(
            format!("gear-{l}"),
            Spec::Gear { log2: l },
            vec![Spec::Gear { log2: l + 1 }, Spec::Gear { log2: (l - 1).max(1) }],
            move || from_gear(gear::Gear32::with_average_size_log2(l as usize)),
        ));
    }
    v.push(ctor(
        "gzip-default".into(),
        Spec::Gzip { w: 8192, m: 4096 },
        vec![Spec::Gzip { w: 8191, m: 4096 }, Spec::Gzip { w: 8193, m: 4096 }, Spec::Gzip { w: 8192, m: 4095 }, Spec::Gzip { w: 8192, m: 2048 }, Spec::Gzip { w: 4096, m: 8192 }],
        || from_gzip(gzip::GzipRsyncable::default()),
    ));
    v.push(ctor("gzip-10-64".into(), Spec::Gzip { w: 10, m: 64 }, vec![Spec::Gzip { w: 11, m: 64 }, Spec::Gzip { w: 10, m: 32 }], || {
        from_gzip(gzip::GzipRsyncable::with_window_and_modulus(10, 64))
    }));
    v.push(ctor("mii-default".into(), Spec::Mii { w: 5 }, vec![Spec::Mii { w: 4 }, Spec::Mii { w: 6 }], || from_mii(mii::Mii::default())));
    for w in 1..=9u64 {
        v.push(ctor(format!("mii-{w}"), Spec::Mii { w }, vec![Spec::Mii { w: w + 1 }], move || from_mii(mii::Mii::with_w(w))));
    }
    v.push(ctor("pigz-default".into(), Spec::Pigz { bits: 12 }, vec![Spec::Pigz { bits: 11 }, Spec::Pigz { bits: 13 }], || from_pigz(pigz::PigzRsyncable::default())));
    for b in 0..=31u32 {
        v.push(ctor(
            format!("pigz-{b}"),
            Spec::Pigz { bits: b },
            vec![Spec::Pigz { bits: b.saturating_sub(1) }, Spec::Pigz { bits: (b + 1).min(31) }],
            move || from_pigz(pigz::PigzRsyncable::with_bits(b as u8)),
        ));
    }
    for w in [0u64, 1, 10, 256] {
        v.push(ctor(format!("ram-{w}"), Spec::Ram { w }, vec![Spec::Ram { w: w + 1 }], move || from_ram(hash_roll::ram::Ram::with_w(w))));
    }
    let near_z = |avg: u32, lo: u64, hi: u64| -> Vec<Spec> {
        let mut v = vec![
            zspec(avg, Included(lo.saturating_sub(1)), Included(hi)),
            zspec(avg, Included(lo + 1), Included(hi)),
            zspec(avg, Included(lo), Included(hi.saturating_sub(1))),
            zspec(avg, Included(lo), Included(hi.saturating_add(1))),
        ];
        if avg > 0 {
            v.push(zspec(avg - 1, Included(lo), Included(hi)));
        }
        if avg < 32 {
            v.push(zspec(avg + 1, Included(lo), Included(hi)));
        }
        v
    };
    v.push(ctor("zpaq-default".into(), zspec(16, Included(4096), Included(520192)), near_z(16, 4096, 520192), || from_zpaq(zpaq::Zpaq::default())));
    for p in 10..=if thorough { 19u32 } else { 16 } {
        let (lo, hi) = (64u64 << (p - 10), 8128u64 << (p - 10));
        v.push(ctor(format!("zpaq-pow2-{p}"), zspec(p, Included(lo), Included(hi)), near_z(p, lo, hi), move || {
            from_zpaq(zpaq::Zpaq::with_average_size_pow_2(p as u8))
        }));
    }
    let ave = |max: u64| -> u32 {
        // floor(log2(max / 4)), at least 0
        if max < 4 {
            0
        } else {
            ((max / 4).ilog2()).min(32)
        }
    };
    let mut maxes: Vec<u64> = (0..=40).collect();
    maxes.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 4095, 4096, 5000, 65535, 65536, 100_000]);
    if thorough {
        maxes.extend([262_144, 1 << 20]);
    }
    // (nothing to be seen of the limits)
    maxes.extend([4096 + (1 << 32), 4096 + (1 << 16), 4096 + (1 << 48), (1 << 32) + 100, 1 << 32, (1 << 34) - 1, 1 << 34, (1 << 53) + 1, (1 << 60) - 1, u64::MAX - 1, u64::MAX]);
    for max in maxes {
        v.push(ctor(format!("zpaq-max-{max}"), zspec(ave(max), Included(max / 64), Included(max)), near_z(ave(max), max / 64, max), move || {
            from_zpaq(zpaq::Zpaq::with_max_size(max))
        }));
    }
    for (lo, hi) in [
        (Included(16u64), Included(1024u64)), (Included(16), Excluded(1025)), (Excluded(15), Included(1023)), (Excluded(16), Excluded(1024)),
        (Unbounded, Included(64)), (Unbounded, Excluded(65)), (Unbounded, Excluded(64)), (Included(16), Unbounded), (Excluded(15), Unbounded), (Excluded(16), Unbounded),
        (Included(1), Unbounded), (Included(17), Unbounded), (Unbounded, Unbounded), (Included(100), Included(5000)), (Included(64), Excluded(4096)), (Included(64), Excluded(4097)),
        (Included((1 << 57) + 1), Unbounded), (Included(1 << 58), Unbounded), (Excluded((1 << 58) + 3), Unbounded), (Included(u64::MAX), Unbounded), (Excluded(u64::MAX), Unbounded),
        (Included(1), Included(1 << 34)), (Included(1), Included((1 << 34) - 1)), (Included(1), Included(u64::MAX)), (Unbounded, Included(u64::MAX)), (Unbounded, Excluded(u64::MAX)),
        (Unbounded, Excluded(1)), (Unbounded, Excluded(2)), (Unbounded, Included(1)), (Unbounded, Included(3)), (Unbounded, Excluded(5)),
    ] {
        let avg = match hi {
            Included(x) => ave(x),
            Excluded(x) => ave(x - 1),
            Unbounded => match lo {
                Included(x) => ave(x.saturating_mul(64)),
                Excluded(x) => ave(x.saturating_add(1).saturating_mul(64)),
                Unbounded => 16,
            },
        };
        let mut near = vec![];
        if avg > 0 {
            near.push(zspec(avg - 1, lo, hi));
        }
        if avg < 32 {
            near.push(zspec(avg + 1, lo, hi));
        }
        let sh = |b: Bound<u64>, d: i64| match b {
            Included(x) => Included((x as i64 + d).max(0) as u64),
            Excluded(x) => Excluded((x as i64 + d).max(0) as u64),
            Unbounded => Unbounded,
        };
        near.push(zspec(avg, sh(lo, 1), hi));
        near.push(zspec(avg, sh(lo, -1), hi));
        near.push(zspec(avg, lo, sh(hi, 1)));
        near.push(zspec(avg, lo, sh(hi, -1)));
        v.push(ctor(format!("zpaq-range-{lo:?}-{hi:?}"), zspec(avg, lo, hi), near.clone(), move || from_zpaq(zpaq::Zpaq::with_range((lo, hi)))));
        // with the average given apart
        v.push(ctor(format!("zpaq-avg7-{lo:?}-{hi:?}"), zspec(7, lo, hi), vec![zspec(6, lo, hi), zspec(8, lo, hi)], move || {
            from_zpaq(zpaq::Zpaq::with_average_and_range(7, (lo, hi)))
        }));
    }
    v
}

fn check_ctor(w: &mut Worker, cfg: &dyn Cfg, spec: &Arc<Spec>, st: &Stream, tag: &str) -> bool {
    for iface in Iface::BOTH {
        let want = ref_edges(spec, iface, &st.data);
        for step in [usize::MAX, 1, 100] {
            if st.data.len() > 50_000 && step == 1 {
                continue;
            }
            if !w.exec(&|| format!("{tag}{}/{}/step{step}", st.name, iface.name()), 0, &mut |_| {
                let e = stepped(cfg, iface, &st.data, step.min(st.data.len().max(1)))?;
                same(&e, &want, "against the documented parameters")?;
                Ok(e)
            }) {
                return false;
            }
        }
    }
    true
}

/// Constructors and a stream for each, to be tried one after another.
pub struct Made {
    pub name: String,
    pub spec: Arc<Spec>,
    pub mk: Box<dyn Fn() -> Rc<dyn Cfg> + Send + Sync>,
    pub data: Vec<u8>,
}

impl Made {
    pub fn edges(&self, cfg: &dyn Cfg, iface: Iface) -> Result<Vec<usize>, String> {
        stepped(cfg, iface, &self.data, 1500)
    }
}

pub fn made(seed: u64, only: Option<usize>) -> Vec<Made> {
    let mut v = ctors(false);
    for m in [1u64, 2, 3, 4, 8, 255, 256, 257, 4096] {
        let bits = 20 + m.ilog2();
        v.push(ctor(format!("zstd-{m}"), Spec::Zstd { bits }, vec![], move || from_zstd(hash_roll::zstd::Zstd::with_target_section_size(m << 20))));
    }
    let mut zstd = None;
    v.into_iter()
        .enumerate()
        .filter(|(i, _)| only.map_or(true, |o| o == *i))
        .map(|(_, c)| {
            let stream = |spec: Arc<Spec>| {
                let own = Subject { id: c.name.clone(), spec, mk: Box::new(|| unreachable!()), alpha: vec![], e1: 0, big: false };
                crate::craft::first_stream(&own, seed).data.iter().copied().take(5000).collect::<Vec<u8>>()
            };
            let mut data = match &*c.spec {
                // edges for some of them
                Spec::Zstd { .. } => zstd.get_or_insert_with(|| stream(Arc::new(Spec::Zstd { bits: 20 }))).clone(),
                _ => stream(c.spec.clone()),
            };
            data.extend(Prng::new(seed + 3).bytes(3000));
            Made { name: c.name, spec: c.spec, mk: c.mk, data }
        })
        .collect()
}

/// Each value made after each other (of its algorithm) has been made and used,
/// against `want(which, interface)`.
pub fn made_pairs(v: &mut Vec<Job>, list: Arc<Vec<Made>>, want: impl Fn(usize, Iface) -> Vec<usize> + Send + Sync + Clone + 'static) {
    for alg in crate::props::ALGS {
        for part in 0..if alg == "zpaq" { 4 } else { 1 } {
            let (list, want) = (list.clone(), want.clone());
            job(v, format!("constructors/{alg}{}", if alg == "zpaq" { format!("-{part}") } else { String::new() }), move |w| {
                let mine: Vec<usize> = (0..list.len()).filter(|i| list[*i].spec.alg() == alg).collect();
                for (n, &a) in mine.iter().enumerate() {
                    if alg == "zpaq" && n % 4 != part {
                        continue;
                    }
                    let (ma, wants) = (&list[a], Iface::BOTH.map(|i| want(a, i)));
                    for &b in &mine {
                        let (mb, others) = (&list[b], Iface::BOTH.map(|i| want(b, i)));
                        if !w.exec(&|| format!("{}, {}, {}", ma.name, mb.name, ma.name), 0, &mut |ch| {
                            let used = ch.choose(2) == 1;
                            let old = (ma.mk)();
                            let other = (mb.mk)();
                            if used {
                                for (k, i) in Iface::BOTH.into_iter().enumerate() {
                                    let e = mb.edges(&*other, i)?;
                                    if e != others[k] {
                                        return Err(format!("{} made after {}: {} gives {:?}, should give {:?}", mb.name, ma.name, i.name(), &e[..e.len().min(10)], &others[k][..others[k].len().min(10)]));
                                    }
                                }
                            }
                            let new = (ma.mk)();
                            let mut all = vec![];
                            for (cfg, which) in [(&new, "made after"), (&old, "made before")] {
                                for (k, i) in Iface::BOTH.into_iter().enumerate() {
                                    let e = ma.edges(&**cfg, i)?;
                                    if e != wants[k] {
                                        return Err(format!(
                                            "{} {which} {}{}: {} gives {:?}, should give {:?}",
                                            ma.name,
                                            mb.name,
                                            if used { " was used" } else { " was made" },
                                            i.name(),
                                            &e[..e.len().min(10)],
                                            &wants[k][..wants[k].len().min(10)]
                                        ));
                                    }
                                    all.extend(e);
                                }
                            }
                            Ok(all)
                        }) {
                            return;
                        }
                    }
                }
            });
        }
    }
}

pub fn c21(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let seed = ctx.seed;
    {
        let list = Arc::new(made(seed, None));
        let l = list.clone();
        made_pairs(&mut v, list, move |i, iface| ref_edges(&l[i].spec, iface, &l[i].data));
    }
    for c in ctors(ctx.thorough) {
        job(&mut v, format!("constructor/{}", c.name), move |w| {
            let cfg = (c.mk)();
            let own = Subject { id: c.name.clone(), spec: c.spec.clone(), mk: Box::new(|| unreachable!()), alpha: vec![], e1: 0, big: false };
            for st in streams(&own, seed, 1) {
                if !check_ctor(w, &*cfg, &c.spec, &st, "") {
                    return;
                }
            }
            // streams with edges and limits of the neighbouring parameters
            let mut told = 0;
            for (i, n) in c.near.iter().enumerate() {
                let o = Subject { id: String::new(), spec: Arc::new(n.clone()), mk: Box::new(|| unreachable!()), alpha: vec![], e1: 0, big: false };
                let mut apart = false;
                for st in streams(&o, seed + 1 + i as u64, 1) {
                    apart |= ref_edges(&c.spec, Iface::Fce, &st.data) != ref_edges(&o.spec, Iface::Fce, &st.data);
                    if !check_ctor(w, &*cfg, &c.spec, &st, &format!("near{i}/")) {
                        return;
                    }
                }
                told += apart as usize;
            }
            w.note = format!("{} of {} neighbouring parameter sets would give other edges", told, c.near.len());
        });
    }
    // incremental chunkers constructed by default
    job(&mut v, "default-incr/bup".into(), move |w| {
        let s = bigs().into_iter().find(|s| s.id == "bup-default").unwrap();
        for st in streams(&s, seed, 1) {
            let want = ref_edges(&s.spec, Iface::Incr, &st.data);
            w.exec(&|| st.name.clone(), 0, &mut |_| {
                let e = by_hand(&mut bup::RollSumIncr::default(), &st.data)?;
                same(&e, &want, "RollSumIncr::default()")?;
                Ok(e)
            });
        }
    });
    job(&mut v, "default-incr/fastcdc".into(), move |w| {
        let s = bigs().into_iter().find(|s| s.id == "fast-default").unwrap();
        for st in streams(&s, seed, 1) {
            let want = ref_edges(&s.spec, Iface::Incr, &st.data);
            w.exec(&|| st.name.clone(), 0, &mut |_| {
                let e = by_hand(&mut fastcdc::FastCdcIncr::default(), &st.data)?;
                same(&e, &want, "FastCdcIncr::default()")?;
                Ok(e)
            });
        }
    });
    // every other way to come by an incremental chunker or search state
    for (i, (name, f)) in routes().into_iter().enumerate() {
        job(&mut v, format!("route/{i}"), move |w| {
            w.note = name.to_string();
            for s in all() {
                let Some(cfg) = f(&s.spec) else { continue };
                for st in streams(&s, seed, 1) {
                    if !check_ctor(w, &*cfg, &s.spec, &st, &format!("{}/", s.id)) {
                        return;
                    }
                }
            }
        });
    }
    // sizes beyond what is put into streams above
    let mut large: Vec<(String, u32, u64, u64, Box<dyn Fn() -> Rc<dyn Cfg> + Send + Sync>)> = vec![];
    for p in 17..=ctx.pick(21u32, 24) {
        large.push((format!("pow2-{p}"), p, 64 << (p - 10), 8128 << (p - 10), Box::new(move || from_zpaq(zpaq::Zpaq::with_average_size_pow_2(p as u8)))));
    }
    for m in [131_072u64, 262_143, 262_144, 1 << 20, (1 << 20) + 1, 5_000_000, 1 << 24, 20_000_000] {
        let a = (m / 4).ilog2();
        large.push((format!("max-{m}"), a, m / 64, m, Box::new(move || from_zpaq(zpaq::Zpaq::with_max_size(m)))));
        large.push((format!("range-100-{m}"), a, 100, m, Box::new(move || from_zpaq(zpaq::Zpaq::with_range(100..=m)))));
        large.push((format!("range-excluded-{m}"), a, 100, m, Box::new(move || from_zpaq(zpaq::Zpaq::with_range(100..m + 1)))));
    }
    for (name, avg, lo, hi, mk) in large {
        job(&mut v, format!("zpaq-large/{name}"), move |w| {
            let spec = Arc::new(zspec(avg, Bound::Included(lo), Bound::Included(hi)));
            let mut c = Crafter::new(&spec, Iface::Fce, seed);
            // chunks of the minimum, a byte more and less
            let ok = [c.chunk(lo as usize), c.chunk(lo as usize + 1), c.chunk(2 * lo as usize)];
            // hits that come a byte too early: with the minimum less by one, these are edges
            let less = Arc::new(zspec(avg, Bound::Included(lo - 1), Bound::Included(hi)));
            let mut e = Crafter::new(&less, Iface::Fce, seed + 1);
            let early = e.chunk(lo as usize - 1);
            let mut d = e.out.clone();
            d.extend(Prng::new(seed + 3).bytes((12usize << avg).min(30_000_000)));
            // the maximum, of one byte value
            let mut m = vec![b'x'; 2 * hi as usize + 10];
            m.extend(&c.out);
            for (k, d) in [("min", c.out), ("early+random", d), ("max", m)] {
                for iface in Iface::BOTH {
                    let want = ref_edges(&spec, iface, &d);
                    for step in [usize::MAX, 70_001] {
                        if !w.exec(&|| format!("{k}/{}/step{step}", iface.name()), 0, &mut |_| {
                            let e = stepped(&*mk(), iface, &d, step.min(d.len()))?;
                            same(&e, &want, "against the documented parameters")?;
                            Ok(e)
                        }) {
                            return;
                        }
                    }
                }
            }
            w.note = format!("average 2^{avg}, {lo}..={hi}; chunks at the minimum made: {ok:?}, hit before it: {early}");
        });
    }
    job(&mut v, "zstd-section-sizes".into(), move |w| zstd_sizes(w, seed));
    job(&mut v, "gear-averages".into(), gear_averages);
    job(&mut v, "pigz-patterns".into(), |w| {
        // the shortest streams that end at the hit value for n bits, for every n,
        // seen by every configuration
        for bits in 0..=31u32 {
            let spec = Arc::new(Spec::Pigz { bits });
            let cfg = from_pigz(pigz::PigzRsyncable::with_bits(bits as u8));
            for n in 1..=33usize {
                for lead in [0u8, 1, 255, 0x80] {
                    let mut d = vec![lead; 3];
                    d.push(0);
                    d.extend(vec![1u8; n]);
                    d.push(0);
                    for iface in Iface::BOTH {
                        if !w.exec(&|| format!("bits{bits}/n{n}/lead{lead}/{}", iface.name()), 0, &mut |_| {
                            let e = whole(&*cfg, iface, &d)?;
                            same(&e, &ref_edges(&spec, iface, &d), "against the documented parameters")?;
                            Ok(e)
                        }) {
                            return;
                        }
                    }
                }
            }
        }
    });
    job(&mut v, "default-maximum/buz-nom".into(), |w| {
        let spec = Arc::new(Spec::Buz { k: 67, mask: 4095, max: 1 << 24, h: go_table() });
        let Some(b) = (0..=255u8).find(|b| ref_edges(&spec, Iface::Fce, &[*b; 300]).is_empty()) else { return };
        let d = vec![b; (1 << 24) + 300];
        let cfg = from_buz(BuzHash::new_nom(0));
        for iface in Iface::BOTH {
            w.exec(&|| format!("const{b}/{}", iface.name()), 0, &mut |_| {
                let e = stepped(&*cfg, iface, &d, 1 << 20)?;
                same(&e, &[(1 << 24) + 1], "one byte above the maximum of 2^24")?;
                Ok(e)
            });
        }
    });
    v
}

fn by_hand(i: &mut dyn ChunkIncr2, d: &[u8]) -> Result<Vec<usize>, String> {
    let mut pos = 0;
    let mut e = vec![];
    while pos < d.len() {
        tick();
        match i.push2(&d[pos..]) {
            None => break,
            Some(x) => {
                if x > d.len() - pos {
                    return Err(format!("index {x} of {}", d.len() - pos));
                }
                pos += x;
                e.push(pos);
                if e.len() > d.len() + 1 {
                    return Err("no progress".into());
                }
            }
        }
    }
    Ok(e)
}
trait ChunkIncr2 {
    fn push2(&mut self, d: &[u8]) -> Option<usize>;
}
impl<T: ChunkIncr> ChunkIncr2 for T {
    fn push2(&mut self, d: &[u8]) -> Option<usize> {
        self.push(d)
    }
}

/// For each number n of trailing ones of the hash in reach, a stream of 38
/// bytes whose hash ends in exactly n ones; every section size has to react to
/// exactly those with enough ones.
pub fn trailing_ones(seed: u64) -> Vec<(u32, Vec<u8>)> {
    const P: u64 = 0xCF1B_BCDC_B7A5_6463;
    let mut rng = Prng::new(seed + 77);
    let head = rng.bytes(34);
    // hash of the last 26 bytes of head and 6 more, as sums of contributions
    let pw: Vec<u64> = (0..32).scan(1u64, |p, _| { let r = *p; *p = p.wrapping_mul(P); Some(r) }).collect();
    let mut c = 0u64;
    for (i, x) in head.iter().rev().take(26).enumerate() {
        c = c.wrapping_add((*x as u64 + 10).wrapping_mul(pw[6 + i]));
    }
    let part = |b: [u8; 3], base: usize| {
        (b[0] as u64 + 10).wrapping_mul(pw[base + 2])
            .wrapping_add((b[1] as u64 + 10).wrapping_mul(pw[base + 1]))
            .wrapping_add((b[2] as u64 + 10).wrapping_mul(pw[base]))
    };
    // newest three bytes, sorted by their low bits first (64 letters each, to keep it small)
    let letters: Vec<u8> = (0..=255u8).step_by(2).collect();
    let mut a: Vec<(u64, [u8; 3])> = vec![];
    for &x in &letters {
        for &y in &letters {
            for &z in &letters {
                let b = [x, y, z];
                a.push((part(b, 0).reverse_bits(), b));
            }
        }
    }
    a.sort_unstable();
    crate::engine::tick();
    let mut found: Vec<(u32, Vec<u8>)> = vec![];
    let mut need: Vec<u32> = (19..=40).rev().collect();
    'o: for x in 0..=255u8 {
        crate::engine::tick();
        for y in 0..=255u8 {
            for z in (0..=255u8).step_by(4) {
                if need.is_empty() {
                    break 'o;
                }
                let b = [x, y, z];
                let t = part(b, 3).wrapping_add(c);
                // the best match: c + A + B = ...1111, A = -1 - (c + B)
                let want = (!0u64).wrapping_sub(t).reverse_bits();
                let i = a.partition_point(|e| e.0 < want);
                for j in [i.wrapping_sub(1), i] {
                    if let Some(e) = a.get(j) {
                        let h = t.wrapping_add(e.0.reverse_bits());
                        let n = h.trailing_ones();
                        if let Some(k) = need.iter().position(|m| *m == n) {
                            need.remove(k);
                            let mut d = head.clone();
                            d.extend(b);
                            d.extend(e.1);
                            found.push((n, d));
                        }
                    }
                }
            }
        }
    }
    // lower numbers of ones are in reach of the neighbours of a match
    for n in need.clone() {
        if n > 32 {
            continue;
        }
        'p: for x in 0..=255u8 {
            for y in (0..=255u8).step_by(3) {
                let b = [x, y, 7];
                let t = part(b, 3).wrapping_add(c);
                // exactly n ones: want ends in 0 followed by n ones
                let target = (1u64 << n) - 1;
                let want = target.wrapping_sub(t) & ((1u64 << (n + 1)) - 1);
                let i = a.partition_point(|e| e.0 < want.reverse_bits());
                if let Some(e) = a.get(i) {
                    let h = t.wrapping_add(e.0.reverse_bits());
                    if h.trailing_ones() == n {
                        let mut d = head.clone();
                        d.extend(b);
                        d.extend(e.1);
                        found.push((n, d));
                        break 'p;
                    }
                }
            }
        }
    }
    found.sort();
    found
}

fn zstd_sizes(w: &mut Worker, seed: u64) {
    let found = trailing_ones(seed);
    let mib = 1u64 << 20;
    let mut sizes: Vec<u64> = vec![];
    for k in 0..31u32 {
        let s = mib << k;
        sizes.extend([s, s + 1, s + mib / 2]);
        if k > 0 {
            sizes.extend([s - 1, s - mib, s + mib]);
        }
        if k > 1 {
            sizes.push(s + s / 2);
        }
    }
    sizes.retain(|s| *s >= mib && (*s >> 20) <= u32::MAX as u64);
    let ns: Vec<u32> = found.iter().map(|f| f.0).collect();
    for s in sizes {
        let bits = 20 + (s >> 20).ilog2();
        let spec = Arc::new(Spec::Zstd { bits });
        let cfg = from_zstd(zstd::Zstd::with_target_section_size(s));
        for (n, d) in &found {
            for iface in Iface::BOTH {
                if !w.exec(&|| format!("size{s}/ones{n}/{}", iface.name()), 0, &mut |_| {
                    let e = whole(&*cfg, iface, d)?;
                    trace(|| format!("stream {}", hex(d)));
                    same(&e, &ref_edges(&spec, iface, d), "against the documented parameters")?;
                    Ok(e)
                }) {
                    return;
                }
            }
        }
    }
    w.note = format!("streams with exactly {ns:?} trailing ones in the last hash");
}

/// For each number n of leading zeros in reach, a stream whose fingerprint has
/// exactly n; every average has to react to exactly those with enough zeros.
fn gear_averages(w: &mut Worker) {
    let g = &tables::GEAR32;
    let mut a: Vec<(u32, [u8; 3])> = vec![];
    for x in 0..=255u8 {
        for y in 0..=255u8 {
            for z in (0..=255u8).step_by(4) {
                let s = (g[x as usize] << 2).wrapping_add(g[y as usize] << 1).wrapping_add(g[z as usize]);
                a.push((s, [x, y, z]));
            }
        }
    }
    a.sort_unstable();
    tick();
    let mut found: Vec<(u32, Vec<u8>)> = vec![];
    for n in 0..=31u32 {
        let mut got = 0;
        'o: for p in 0..=255u8 {
            for q in 0..=255u8 {
                let f = (g[p as usize] << 1).wrapping_add(g[q as usize]) << 3;
                let lowest = if n == 31 { 1u32 } else { 1u32 << (31 - n) };
                // f + s in [lowest, 2 * lowest)
                let want = lowest.wrapping_sub(f);
                let i = a.partition_point(|e| e.0 < want);
                if let Some(e) = a.get(i) {
                    let fp = f.wrapping_add(e.0);
                    if fp.leading_zeros() == n {
                        let mut d = vec![p, q];
                        d.extend(e.1);
                        found.push((n, d));
                        got += 1;
                        if got == 6 {
                            break 'o;
                        }
                    }
                }
            }
        }
    }
    let mut hits = 0;
    for l in 1..=31u32 {
        let spec = Arc::new(Spec::Gear { log2: l });
        let cfg = from_gear(gear::Gear32::with_average_size_log2(l as usize));
        for (n, d) in &found {
            for iface in Iface::BOTH {
                let want = ref_edges(&spec, iface, d);
                hits += want.len();
                if !w.exec(&|| format!("log2 {l}/zeros{n}/{}/{}", iface.name(), hex(d)), 0, &mut |_| {
                    let e = whole(&*cfg, iface, d)?;
                    same(&e, &want, "against the documented parameters")?;
                    Ok(e)
                }) {
                    return;
                }
            }
        }
    }
    let mut ns: Vec<u32> = found.iter().map(|f| f.0).collect();
    ns.dedup();
    w.note = format!("fingerprints with exactly {ns:?} leading zeros, {hits} edges");
}

pub fn c14(ctx: &Ctx) -> Vec<Job> {
    let mut v = crate::props::conform(ctx, "gear");
    job(&mut v, "averages".into(), gear_averages);
    v
}
pub fn c20(ctx: &Ctx) -> Vec<Job> {
    let mut v = crate::props::conform(ctx, "zstd");
    let seed = ctx.seed;
    job(&mut v, "section-sizes".into(), move |w| zstd_sizes(w, seed + 1));
    v
}

// ------------------------------------------------------------------ C23

pub fn c23(ctx: &Ctx) -> Vec<Job> {
    use hash_roll::range::{bound_cloned, RangeExt};
    use std::ops::{Bound::*, RangeBounds};
    let mut v = vec![];
    macro_rules! one {
        ($r:expr, $x:expr, $vals:expr) => {{
            let r = $r;
            let x = $x;
            tick();
            // the meaning, spelled out from the bounds
            let under = match r.start_bound() {
                Included(b) => x < *b,
                Excluded(b) => x <= *b,
                Unbounded => false,
            };
            let over = match r.end_bound() {
                Included(b) => x > *b,
                Excluded(b) => x >= *b,
                Unbounded => false,
            };
            let desc = || format!("{:?}..{:?} and {x:?}", r.start_bound(), r.end_bound());
            if RangeExt::under_min(&r, &x) != under {
                return Err(format!("under_min: {}", desc()));
            }
            if RangeExt::exceeds_max(&r, &x) != over {
                return Err(format!("exceeds_max: {}", desc()));
            }
            if RangeExt::contains(&r, &x) != RangeBounds::contains(&r, &x) {
                return Err(format!("contains: {}", desc()));
            }
            if RangeExt::contains(&r, &x) == (under || over) {
                return Err(format!("contains against under_min and exceeds_max: {}", desc()));
            }
            let (s, e) = (bound_cloned(r.start_bound()), bound_cloned(r.end_bound()));
            if s.as_ref() != r.start_bound() || e.as_ref() != r.end_bound() {
                return Err(format!("bound_cloned: {}", desc()));
            }
            let t = RangeExt::into_tuple(r.clone());
            if t != (s, e) {
                return Err(format!("into_tuple gave {t:?}: {}", desc()));
            }
            if RangeExt::contains(&t, &x) != !(under || over) || RangeExt::under_min(&t, &x) != under || RangeExt::exceeds_max(&t, &x) != over {
                return Err(format!("the tuple {t:?}: {}", desc()));
            }
            under as usize + 2 * over as usize
        }};
    }
    macro_rules! domain {
        ($name:expr, $t:ty, $vals:expr) => {{
            let vals: Vec<$t> = $vals;
            job(&mut v, format!("bounds/{}", $name), move |w| {
                let n = vals.len();
                for kind in 0..15usize {
                    w.exec(&|| format!("kind{kind}"), 0, &mut |ch| {
                        // values are chosen last, so one range is asked about all of them
                        let a = vals[ch.choose(n)].clone();
                        let b = vals[ch.choose(n)].clone();
                        let mut out = vec![];
                        for x in vals.iter().cloned() {
                            let lo = [Included(a.clone()), Excluded(a.clone()), Unbounded];
                            let hi = [Included(b.clone()), Excluded(b.clone()), Unbounded];
                            let r = match kind {
                                0..=8 => one!((lo[kind / 3].clone(), hi[kind % 3].clone()), x, vals),
                                9 => one!(a.clone()..b.clone(), x, vals),
                                10 => one!(a.clone()..=b.clone(), x, vals),
                                11 => one!(a.clone().., x, vals),
                                12 => one!(..b.clone(), x, vals),
                                13 => one!(..=b.clone(), x, vals),
                                _ => {
                                    let r: std::ops::RangeFull = ..;
                                    tick();
                                    if RangeExt::<$t>::under_min(&r, &x) || RangeExt::<$t>::exceeds_max(&r, &x) || !RangeExt::<$t>::contains(&r, &x) {
                                        return Err(format!("..: {x:?}"));
                                    }
                                    if RangeExt::<$t>::into_tuple(r) != (Unbounded, Unbounded) {
                                        return Err("into_tuple of ..".into());
                                    }
                                    0
                                }
                            };
                            out.push(r);
                        }
                        Ok(out)
                    });
                }
                w.note = format!("{n} values for both bounds and the item, 15 kinds of ranges");
            });
        }};
    }
    domain!("u8", u8, if ctx.thorough { (0..=255u8).collect() } else { (0..24u8).chain(120..136).chain(240..=255).collect() });
    domain!("i8", i8, if ctx.thorough { (-128..=127i8).collect() } else { (-128..-120i8).chain(-8..8).chain(120..=127).collect() });
    domain!("u64", u64, {
        let mut x: Vec<u64> = vec![0, 1, 2, 3, 7, 8, 9, 64, 4095, 4096, 4097, 8128, u64::MAX, u64::MAX - 1, u64::MAX - 2];
        for s in [8u32, 16, 31, 32, 33, 63] {
            x.extend([(1u64 << s) - 1, 1u64 << s, (1u64 << s) + 1]);
        }
        x
    });
    domain!("i64", i64, vec![i64::MIN, i64::MIN + 1, -1000, -2, -1, 0, 1, 2, 1000, 1 << 32, i64::MAX - 1, i64::MAX]);
    domain!("char", char, vec!['\0', 'a', 'b', 'c', 'z', '\u{d7ff}', '\u{e000}', char::MAX]);
    domain!("f64", f64, vec![f64::NEG_INFINITY, -1.5, -0.0, 0.0, 1e-300, 1.0, 1.5, f64::MAX, f64::INFINITY]);
    job(&mut v, "bound_cloned-of-clone-types".into(), |w| {
        w.exec(&|| "strings".into(), 0, &mut |ch| {
            let s = ["", "a", "ab", "b"][ch.choose(4)].to_string();
            tick();
            let ok = bound_cloned(Included(&s)) == Included(s.clone())
                && bound_cloned(Excluded(&s)) == Excluded(s.clone())
                && bound_cloned::<String>(Unbounded) == Unbounded;
            if !ok {
                return Err(format!("bound_cloned of {s:?}"));
            }
            Ok(vec![s.len()])
        });
    });
    v
}
