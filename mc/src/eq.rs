//! C22: values that compare equal behave the same, values made the same way
//! compare equal.

use crate::craft::{streams, Crafter};
use crate::drive::hex;
use crate::engine::{hash, tick, Ctx, Job, Worker};
use crate::props::{job, strings};
use crate::refm::{Iface, Spec};
use crate::subj::*;
use hash_roll::{buzhash::BuzHash, fastcdc::FastCdc, gear::Gear32, gzip::GzipRsyncable, pigz::PigzRsyncable, ram::Ram, zpaq::Zpaq, zstd::Zstd};
use hash_roll::{bup, Chunk, ChunkIncr, ToChunkIncr};
use std::ops::Bound;
use std::sync::Arc;

type Feed = (Vec<u8>, usize);

/// What an incremental chunker reports for data.
fn incr_run<I: ChunkIncr>(i: &mut I, d: &[u8]) -> Result<Vec<usize>, String> {
    let mut pos = 0;
    let mut e = vec![];
    while pos < d.len() {
        tick();
        match i.push(&d[pos..]) {
            None => break,
            Some(x) => {
                if x > d.len() - pos || e.len() > d.len() + 1 {
                    return Err(format!("push of {} bytes returned index {x}", d.len() - pos));
                }
                pos += x;
                e.push(pos);
            }
        }
    }
    Ok(e)
}

fn incr_feed<I: ChunkIncr>(i: &mut I, f: &Feed) -> Result<(), String> {
    for c in f.0.chunks(f.1) {
        incr_run(i, c)?;
    }
    Ok(())
}

/// The calls for a search, with the buffer kept by the caller.
fn fce_run<C: Chunk>(c: &C, s: &mut C::SearchState, buf: &mut Vec<u8>, d: &[u8]) -> Result<Vec<(usize, usize)>, String> {
    buf.extend_from_slice(d);
    let mut out = vec![];
    loop {
        tick();
        let (r, disc) = c.find_chunk_edge(s, buf);
        if disc > buf.len() || out.len() > buf.len() + d.len() + 4 {
            return Err(format!("discard {disc} of {}", buf.len()));
        }
        buf.drain(..disc);
        out.push((r.map(|x| x + 1).unwrap_or(0), disc));
        if r.is_none() {
            return Ok(out);
        }
    }
}

fn all_strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for n in 0..=max {
        strings(alpha, n, None, &mut |d| {
            v.push(d.to_vec());
            true
        });
    }
    v
}

struct Item<T> {
    val: T,
    what: String,
    group: u64,
    sig: u64,
}

/// All pairs: equal values must have equal signatures.
fn pairs<T: PartialEq>(w: &mut Worker, items: &[Item<T>]) {
    let (mut equal, mut classes) = (0u64, std::collections::HashSet::new());
    for i in 0..items.len() {
        let a = &items[i];
        classes.insert((a.group, a.sig));
        if i % 64 == 0 {
            tick();
            if w.stopped() {
                return;
            }
        }
        #[allow(clippy::eq_op)]
        if a.val != a.val {
            return w.violate(format!("{} against itself", a.what), vec![], "a value is not equal to itself".into(), vec![]);
        }
        for b in &items[i + 1..] {
            if a.group != b.group {
                continue;
            }
            w.st.executions += 1;
            let e = a.val == b.val;
            if e != (b.val == a.val) {
                return w.violate(format!("{} and {}", a.what, b.what), vec![], "equality is not symmetric".into(), vec![]);
            }
            if e {
                equal += 1;
                if a.sig != b.sig {
                    return w.violate(
                        format!("{} and {}", a.what, b.what),
                        vec![],
                        "the values compare equal but behave differently on the same further data".into(),
                        vec![],
                    );
                }
            }
        }
    }
    w.st.states += items.len() as u64;
    w.st.edges += equal;
    w.note = format!("{} values, {} behaviours, {equal} equal pairs among {}", items.len(), classes.len(), w.st.executions);
    let n = w.note.clone();
    w.sample(|| n);
}

fn incr_states<C>(w: &mut Worker, cfgs: &[(String, C)], feeds: &[Feed], tails: &[Vec<u8>], extra: fn(&C::Incr) -> u64)
where
    C: ToChunkIncr,
    C::Incr: PartialEq,
{
    let mut items = vec![];
    for (n, c) in cfgs {
        for f in feeds {
            if w.stopped() {
                return;
            }
            let what = format!("{n} after {} in steps of {}", hex(&f.0), f.1);
            let make = || -> Result<C::Incr, String> {
                let mut i = c.to_chunk_incr();
                incr_feed(&mut i, f)?;
                Ok(i)
            };
            let mut sig = vec![];
            let r = (|| -> Result<(C::Incr, C::Incr), String> {
                let val = make()?;
                sig.push(extra(&val));
                for t in tails {
                    let mut i = make()?;
                    let e = incr_run(&mut i, t)?;
                    sig.push(hash(&(e, extra(&i))));
                }
                Ok((val, make()?))
            })();
            match r {
                Err(m) => return w.violate(what, vec![], m, vec![]),
                Ok((val, again)) => {
                    if val != again {
                        return w.violate(what, vec![], "two chunkers made and fed the same way are not equal".into(), vec![]);
                    }
                    items.push(Item { val, what, group: 0, sig: hash(&sig) });
                }
            }
        }
    }
    pairs(w, &items);
}

fn search_states<C>(w: &mut Worker, cfgs: &[(String, C)], feeds: &[Feed], tails: &[Vec<u8>])
where
    C: Chunk,
    C::SearchState: PartialEq,
{
    let mut items = vec![];
    for (ci, (n, c)) in cfgs.iter().enumerate() {
        for f in feeds {
            if w.stopped() {
                return;
            }
            let what = format!("search state of {n} after {} in steps of {}", hex(&f.0), f.1);
            let make = || -> Result<(C::SearchState, Vec<u8>), String> {
                let mut s = c.to_search_state();
                let mut buf = vec![];
                for x in f.0.chunks(f.1) {
                    fce_run(c, &mut s, &mut buf, x)?;
                }
                Ok((s, buf))
            };
            let mut sig = vec![];
            let r = (|| -> Result<_, String> {
                let val = make()?;
                for t in tails {
                    let (mut s, mut buf) = make()?;
                    sig.push(fce_run(c, &mut s, &mut buf, t)?);
                }
                Ok((val, make()?))
            })();
            match r {
                Err(m) => return w.violate(what, vec![], m, vec![]),
                Ok(((val, buf), (again, _))) => {
                    if val != again {
                        return w.violate(what, vec![], "two search states made and used the same way are not equal".into(), vec![]);
                    }
                    // only comparable for the same configuration and buffer
                    items.push(Item { val, what, group: hash(&(ci, buf)), sig: hash(&sig) });
                }
            }
        }
    }
    pairs(w, &items);
}

fn configs<C>(w: &mut Worker, cfgs: &[(String, Spec, Box<dyn Fn() -> C>)], alpha: &[u8], len: usize, seed: u64)
where
    C: Chunk + ToChunkIncr + PartialEq,
{
    // probes: short streams, and those crafted for any of the configurations
    let mut probes = all_strings(alpha, len);
    for (_, s, _) in cfgs {
        let s = Arc::new(s.clone());
        for iface in Iface::BOTH {
            let mut c = Crafter::new(&s, iface, seed);
            if let Spec::Zstd { .. } = &*s {
                c.silence(40);
                c.len = 0;
                c.chunk(3);
                c.chunk(40);
            } else {
                for l in crate::craft::gap_lens(&s, 300) {
                    c.chunk(l);
                }
                c.silence(330);
            }
            probes.push(c.out);
        }
    }
    let mut items = vec![];
    for (n, _, mk) in cfgs {
        if w.stopped() {
            return;
        }
        let c = mk();
        let r = (|| -> Result<u64, String> {
            let mut sig = vec![];
            for p in &probes {
                sig.push(incr_run(&mut c.to_chunk_incr(), p)?);
                let mut buf = vec![];
                sig.push(fce_run(&c, &mut c.to_search_state(), &mut buf, p)?.into_iter().flat_map(|x| [x.0, x.1]).collect());
            }
            Ok(hash(&sig))
        })();
        match r {
            Err(m) => return w.violate(n.clone(), vec![], m, vec![]),
            Ok(sig) => {
                if mk() != c {
                    return w.violate(n.clone(), vec![], "two configurations made the same way are not equal".into(), vec![]);
                }
                items.push(Item { val: c, what: n.clone(), group: 0, sig });
            }
        }
    }
    pairs(w, &items);
}

fn feeds(alpha: &[u8], len: usize) -> Vec<Feed> {
    let mut v = vec![];
    for s in all_strings(alpha, len) {
        v.push((s.clone(), s.len().max(1)));
        if s.len() > 1 {
            v.push((s, 1));
        }
    }
    v
}

pub fn c22(ctx: &Ctx) -> Vec<Job> {
    use Bound::*;
    let mut v = vec![];
    let l = ctx.pick(4usize, 5);
    let m = ctx.pick(3usize, 4);
    let seed = ctx.seed;
    fn no<T>(_: &T) -> u64 {
        0
    }

    // ---- bup
    let bups = |ws: &[usize]| ws.iter().map(|w| (format!("bup-w{w}"), bup::RollSum::with_window(*w))).collect::<Vec<_>>();
    job(&mut v, "incr/bup".into(), move |w| {
        let mut f = feeds(&[179, 180, 0], l + 1);
        f.extend([8usize, 9, 16, 17].iter().flat_map(|n| [(vec![179; *n], 1), (vec![180; *n], 3)]));
        // tails long enough to show every byte of the window
        let mut t = all_strings(&[179, 180], m);
        t.extend([vec![179; 20], vec![0; 20], vec![255; 33]]);
        incr_states(w, &bups(&[2, 3, 8, 9]), &f, &t, |i: &bup::RollSumIncr| ((i.digest() as u64) << 1) | i.at_split() as u64);
    });
    job(&mut v, "incr/bup-rolled".into(), move |w| {
        // RollSumIncr used directly, through roll_byte()
        let mut items = vec![];
        let tails = [vec![], vec![0u8; 12], vec![255; 12], (1..=12u8).collect::<Vec<_>>()];
        for win in [1usize, 2, 3, 5] {
            for p in all_strings(&[0, 1, 255], 6) {
                let make = |t: &[u8]| {
                    let mut i = bup::RollSumIncr::from(&bup::RollSum::with_window(win));
                    let mut s = vec![i.digest()];
                    for b in &p {
                        tick();
                        i.roll_byte(*b);
                    }
                    s.clear();
                    for b in t {
                        i.roll_byte(*b);
                        s.push(i.digest());
                    }
                    (i, s)
                };
                let sig = hash(&tails.iter().map(|t| make(t).1).collect::<Vec<_>>());
                let (a, b) = (make(&[]).0, make(&[]).0);
                let what = format!("bup-w{win} after rolling {}", hex(&p));
                if a != b || a.clone() != a {
                    return w.violate(what, vec![], "equal histories, unequal values".into(), vec![]);
                }
                items.push(Item { val: a, what, group: 0, sig });
            }
        }
        pairs(w, &items);
    });
    job(&mut v, "search/bup".into(), move |w| {
        let mut f = feeds(&[179, 180, 0], l);
        f.extend([8usize, 9, 16, 17].iter().flat_map(|n| [(vec![179; *n], 1), (vec![180; *n], 3)]));
        let mut t = all_strings(&[179, 180], m);
        t.extend([vec![179; 20], vec![0; 20]]);
        search_states(w, &bups(&[2, 3, 8]), &f, &t);
    });
    job(&mut v, "config/bup".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> bup::RollSum>)> = vec![];
        for win in [1usize, 2, 3, 7, 8, 9, 16, 63, 64, 65, 100] {
            c.push((format!("bup-w{win}"), Spec::Bup { w: win }, Box::new(move || bup::RollSum::with_window(win))));
        }
        c.push(("bup-default".into(), Spec::Bup { w: 64 }, Box::new(bup::RollSum::default)));
        configs(w, &c, &[0, 179, 255], 4, seed);
    });

    // ---- buzhash
    let buz = |k: usize, mask: u32, max: u64, h: Arc<Vec<u32>>| BuzHash::new(k, mask, VecHash(h), max);
    job(&mut v, "incr/buzhash".into(), move |w| {
        let mut c = vec![];
        for (k, mask, max) in [(2usize, 3u32, 5u64), (3, 3, 5), (2, 7, 5), (2, 3, 6), (2, 3, 1 << 24)] {
            c.push((format!("buz-{k}-{mask}-{max}"), buz(k, mask, max, small_hash())));
        }
        c.push(("buz-go-2-3-5".into(), buz(2, 3, 5, go_table())));
        let mut t = all_strings(&[0, 1, 2], m);
        t.extend([vec![3; 8], vec![2; 8]]);
        incr_states(w, &c, &feeds(&[0, 1, 2, 3], l), &t, no);
    });
    job(&mut v, "search/buzhash".into(), move |w| {
        let mut c = vec![];
        for (k, mask, max) in [(2usize, 3u32, 5u64), (3, 15, 4), (4, 7, 1 << 24), (3, 3, 3)] {
            c.push((format!("buz-{k}-{mask}-{max}"), buz(k, mask, max, small_hash())));
        }
        let mut t = all_strings(&[0, 1, 2], m);
        t.extend([vec![3; 8], vec![2; 8]]);
        search_states(w, &c, &feeds(&[0, 1, 2, 3], l + 1), &t);
    });
    job(&mut v, "config/buzhash".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> BuzHash<VecHash>>)> = vec![];
        for k in [1usize, 2, 3, 4] {
            for mask in [1u32, 3, 0x8000_0001] {
                for max in [3u64, 4, 100] {
                    for (t, h) in [("small", small_hash()), ("go", go_table())] {
                        let h2 = h.clone();
                        c.push((
                            format!("buz-{k}-{mask:x}-{max}-{t}"),
                            Spec::Buz { k, mask, max, h },
                            Box::new(move || BuzHash::new(k, mask, VecHash(Arc::new(h2.to_vec())), max)),
                        ));
                    }
                }
            }
        }
        configs(w, &c, &[0, 1, 2], 5, seed);
    });

    // ---- fastcdc
    let fasts = || {
        let mut c = vec![];
        for (a, b, d) in [(1u64, 2u64, 5u64), (2, 2, 5), (1, 3, 5), (1, 2, 6)] {
            for (n, g) in [("small", small_gear()), ("64", gear64())] {
                c.push((format!("fast-{a}-{b}-{d}-{n}"), FastCdc::new(leak64(&g), a, b, d)));
            }
        }
        c
    };
    job(&mut v, "incr/fastcdc".into(), move |w| {
        let mut t = all_strings(&[0, 1, 3], m);
        t.extend([vec![1; 9], vec![2; 9], vec![4, 1, 1, 1, 1]]);
        incr_states(w, &fasts(), &feeds(&[0, 1, 2, 3], l), &t, no);
    });
    job(&mut v, "search/fastcdc".into(), move |w| {
        let mut t = all_strings(&[0, 1, 3], m);
        t.extend([vec![1; 9], vec![2; 9], vec![4, 1, 1, 1, 1]]);
        search_states(w, &fasts(), &feeds(&[0, 1, 2, 3], l + 1), &t);
    });
    job(&mut v, "config/fastcdc".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> FastCdc<'static>>)> = vec![];
        let mut g3 = small_gear().to_vec();
        g3[255] = 0;
        for (n, g) in [("small", small_gear()), ("64", gear64()), ("small255", Arc::new(g3))] {
            for a in [1u64, 2, 3] {
                for b in [3u64, 4, 5] {
                    for d in [6u64, 7, 8] {
                        // a table of its own every time: the same entries elsewhere in memory
                        let g2 = g.clone();
                        c.push((
                            format!("fast-{a}-{b}-{d}-{n}"),
                            Spec::Fast { gear: g.clone(), min: a, normal: b, max: d },
                            Box::new(move || {
                                let mut t = Box::new([0u64; 256]);
                                t.copy_from_slice(&g2);
                                FastCdc::new(Box::leak(t), a, b, d)
                            }),
                        ));
                    }
                }
            }
        }
        configs(w, &c, &[0, 1, 3, 255], 5, seed);
    });

    // ---- ram
    let rams = || [0u64, 1, 2, 3].iter().map(|w| (format!("ram-{w}"), Ram::with_w(*w))).collect::<Vec<_>>();
    job(&mut v, "incr/ram".into(), move |w| {
        incr_states(w, &rams(), &feeds(&[0, 1, 2, 255], l), &all_strings(&[0, 1, 2, 255], m + 1), no);
    });
    job(&mut v, "search/ram".into(), move |w| {
        search_states(w, &rams(), &feeds(&[0, 1, 2, 255], l + 1), &all_strings(&[0, 1, 2, 255], m + 1));
    });
    job(&mut v, "config/ram".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> Ram>)> = vec![];
        for x in [0u64, 1, 2, 3, 4, 5, 6, 100, 256, 257] {
            c.push((format!("ram-{x}"), Spec::Ram { w: x }, Box::new(move || Ram::with_w(x))));
        }
        configs(w, &c, &[0, 1, 255], 6, seed);
    });

    // ---- gear (state only)
    job(&mut v, "search/gear".into(), move |w| {
        let c: Vec<(String, Gear32<'static>)> = [1usize, 2, 4].iter().map(|x| (format!("gear-{x}"), Gear32::with_average_size_log2(*x))).collect();
        search_states(w, &c, &feeds(&[0, 1, 2, 77], l + 1), &all_strings(&[0, 1, 2, 77], m));
    });

    // ---- zpaq, gzip, pigz (configurations only)
    job(&mut v, "config/zpaq".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> Zpaq>)> = vec![];
        for avg in [0u8, 1, 2, 5, 16] {
            for lo in [Included(1u64), Included(2), Excluded(1), Included(3), Excluded(3), Unbounded] {
                for hi in [Included(5u64), Excluded(5), Included(6), Excluded(6), Unbounded] {
                    c.push((
                        format!("zpaq-{avg}-{lo:?}-{hi:?}"),
                        Spec::Zpaq { avg: avg as u32, lo, hi },
                        Box::new(move || Zpaq::with_average_and_range(avg, (lo, hi))),
                    ));
                }
            }
        }
        c.push(("zpaq-default".into(), Spec::Zpaq { avg: 16, lo: Included(4096), hi: Included(520192) }, Box::new(Zpaq::default)));
        c.push(("zpaq-pow16".into(), Spec::Zpaq { avg: 16, lo: Included(4096), hi: Included(520192) }, Box::new(|| Zpaq::with_average_size_pow_2(16))));
        configs(w, &c, &[0, 1, 2], 6, seed);
    });
    job(&mut v, "config/gzip".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> GzipRsyncable>)> = vec![];
        for win in [1usize, 2, 3, 4, 64, 65] {
            for md in [1u64, 2, 3, 4, 7, 64] {
                c.push((
                    format!("gzip-{win}-{md}"),
                    Spec::Gzip { w: win, m: md },
                    Box::new(move || GzipRsyncable::with_window_and_modulus(win, md)),
                ));
            }
        }
        configs(w, &c, &[1, 2, 3], 6, seed);
    });
    job(&mut v, "config/pigz".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> PigzRsyncable>)> = vec![];
        for b in 0..=20u8 {
            c.push((format!("pigz-{b}"), Spec::Pigz { bits: b as u32 }, Box::new(move || PigzRsyncable::with_bits(b))));
        }
        configs(w, &c, &[0, 1, 2], 6, seed);
    });

    // ---- zstd
    let zstds = || vec![("zstd-1M".to_string(), Zstd::with_target_section_size(1 << 20)), ("zstd-2M".to_string(), Zstd::with_target_section_size(2 << 20))];
    let zstd_data = move || {
        let spec = Arc::new(Spec::Zstd { bits: 20 });
        let s = subject("zstd", Spec::Zstd { bits: 20 }, &[], 0);
        let st = streams(&s, seed, 1).into_iter().next().unwrap();
        let _ = spec;
        let end = st.marks.get(4).copied().unwrap_or(st.data.len()) + 40;
        st.data[..end.min(st.data.len())].to_vec()
    };
    job(&mut v, "incr/zstd".into(), move |w| {
        let d = zstd_data();
        let mut f = vec![];
        let mut t: Vec<Vec<u8>> = vec![vec![0; 40]];
        let marks: Vec<usize> = crate::refm::ref_edges(&Arc::new(Spec::Zstd { bits: 20 }), Iface::Incr, &d);
        // every prefix, and the tails that complete the edges
        for n in 0..=d.len().min(260) {
            f.push((d[..n].to_vec(), n.max(1)));
            if n > 1 {
                f.push((d[..n].to_vec(), 1));
            }
        }
        for n in [1usize, 31, 32, 33, 40, 64, 65] {
            f.push((vec![0; n], n));
        }
        for s in (0..marks.first().copied().unwrap_or(0)).step_by(3) {
            t.push(d[s..].to_vec());
        }
        incr_states(w, &zstds(), &f, &t, no);
    });
    job(&mut v, "search/zstd".into(), move |w| {
        let d = zstd_data();
        let mut f = vec![];
        for n in 0..=d.len().min(260) {
            f.push((d[..n].to_vec(), n.max(1)));
            f.push((d[..n].to_vec(), 1));
            f.push((d[..n].to_vec(), 40));
        }
        let mut t: Vec<Vec<u8>> = vec![vec![0; 40]];
        for s in (0..d.len().saturating_sub(33)).step_by(7) {
            t.push(d[s..].to_vec());
        }
        search_states(w, &zstds(), &f, &t);
    });
    job(&mut v, "config/zstd".into(), move |w| {
        let mut c: Vec<(String, Spec, Box<dyn Fn() -> Zstd>)> = vec![];
        for b in [20u32, 21] {
            c.push((format!("zstd-2^{b}"), Spec::Zstd { bits: b }, Box::new(move || Zstd::with_target_section_size(1 << b))));
        }
        c.push(("zstd-1.5M".into(), Spec::Zstd { bits: 20 }, Box::new(|| Zstd::with_target_section_size(3 << 19))));
        configs(w, &c, &[0, 1], 4, seed);
    });
    v
}
