//! What is explored, and against what, for each property.

use crate::closure::{closure, Kind};
use crate::craft::{critical_positions, gap_lens, large, runs, streams, Crafter, Prng, Stream, STEPS};
use crate::drive::*;
use crate::engine::{tick, trace, Ctx, Job, Worker};
use crate::refm::{ref_edges, Ev, Iface, RefM, Spec};
use crate::subj::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn job(v: &mut Vec<Job>, name: String, f: impl Fn(&mut Worker) + Send + Sync + 'static) {
    v.push((name, Box::new(f)));
}

/// All strings over `alpha` of the given length starting with `first` (if any).
pub fn strings(alpha: &[u8], len: usize, first: Option<usize>, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    let n = alpha.len();
    let mut idx = vec![0usize; len];
    let fixed = match first {
        Some(x) if len > 0 => {
            idx[0] = x;
            1
        }
        Some(0) | None => 0,
        Some(_) => return true,
    };
    let mut d: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
    loop {
        if !f(&d) {
            return false;
        }
        let mut p = len;
        loop {
            if p == fixed {
                return true;
            }
            p -= 1;
            idx[p] += 1;
            if idx[p] < n {
                d[p] = alpha[idx[p]];
                break;
            }
            idx[p] = 0;
            d[p] = alpha[0];
        }
    }
}

fn eq(got: &[usize], want: &[usize], what: &str) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: edges differ from number {i} on: got {:?}.. ({} in all), expected {:?}.. ({} in all)",
        &got[i..got.len().min(i + 6)],
        got.len(),
        &want[i..want.len().min(i + 6)],
        want.len()
    ))
}

/// Largest n with letters^n <= cap
fn depth_for(letters: usize, cap: u64) -> usize {
    let mut n = 0;
    let mut x = 1u64;
    while letters > 1 && x * letters as u64 <= cap {
        x *= letters as u64;
        n += 1;
    }
    n
}

/// Schedules of a crafted stream: uniform steps, single and double boundaries
/// at critical positions, byte-by-byte stretches around them.
fn stream_schedules(
    w: &mut Worker,
    spec: &Spec,
    st: &Stream,
    iface: Iface,
    pts: usize,
    f: &mut dyn FnMut(&mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String>,
) -> bool {
    let n = st.data.len();
    let id = |x: &str| format!("{}/{}/{x}", st.name, iface.name());
    for &s in STEPS {
        if s > n {
            break;
        }
        if !w.exec(&|| id(&format!("step{s}")), 0, &mut |_| f(&mut (1..).map(|i| i * s).take_while(|b| *b < n))) {
            return false;
        }
    }
    // offset uniform steps, so that boundaries fall differently
    for (o, s) in [(1usize, 64usize), (3, 64), (5, 100), (1, 4096), (2, 1024), (7, 8192)] {
        if !w.exec(&|| id(&format!("step{o}+{s}")), 0, &mut |_| f(&mut (0..).map(|i| o + i * s).take_while(|b| *b < n))) {
            return false;
        }
    }
    let crit = critical_positions(spec, st, pts);
    for i in 0..crit.len() {
        // from crit[i] on byte by byte for a while
        let c = crit[i];
        if !w.exec(&|| id(&format!("bytes@{c}")), 0, &mut |_| f(&mut (c..n.min(c + 40)))) {
            return false;
        }
        if !w.exec(&|| id(&format!("at{c}")), 0, &mut |_| f(&mut std::iter::once(c))) {
            return false;
        }
        for &c2 in &crit[i + 1..] {
            if !w.exec(&|| id(&format!("at{c},{c2}")), 0, &mut |_| f(&mut [c, c2].into_iter())) {
                return false;
            }
        }
    }
    // short streams: every single boundary
    if n <= 3000 {
        for c in 1..n {
            if !w.exec(&|| id(&format!("at{c}")), 0, &mut |_| f(&mut std::iter::once(c))) {
                return false;
            }
        }
    }
    true
}

fn pts_for(st: &Stream) -> usize {
    match st.data.len() {
        0..=2000 => 50,
        2001..=20_000 => 34,
        20_001..=80_000 => 20,
        _ => 12,
    }
}

fn per_stream(v: &mut Vec<Job>, ctx: &Ctx, tag: &str, subs: Vec<Subj>, f: impl Fn(&mut Worker, &Subj, &Stream) + Send + Sync + Clone + 'static) {
    let seed = ctx.seed;
    let scale = ctx.pick(1, 3);
    for s in subs {
        let f = f.clone();
        job(v, format!("{tag}/{}", s.id), move |w| {
            let sts = streams(&s, seed, scale);
            let mut info = vec![];
            for st in &sts {
                info.push(format!("{}:{}B/{}e", st.name, st.data.len(), st.marks.len()));
                f(w, &s, st);
                if w.stopped() {
                    break;
                }
            }
            w.note = format!("{}{}{}", info.join(" "), if w.note.is_empty() { "" } else { "; " }, w.note);
        });
    }
}

pub fn per_strings(v: &mut Vec<Job>, tag: &str, subs: Vec<Subj>, len: impl Fn(&Subject) -> usize, f: impl Fn(&mut Worker, &Subj, &[u8], usize) -> bool + Send + Sync + Clone + 'static) {
    for s in subs {
        let max = len(&s);
        for first in 0..s.alpha.len() {
            let (f, s) = (f.clone(), s.clone());
            job(v, format!("{tag}/{}/{first}", s.id), move |w| {
                'l: for len in 0..=max {
                    if !strings(&s.alpha, len, Some(first), &mut |d| f(w, &s, d, max)) {
                        break 'l;
                    }
                }
                let note = std::mem::take(&mut w.note);
                w.note = format!("{note}{}all streams of up to {max} bytes over {:?} starting with letter {first}", if note.is_empty() { "" } else { "; " }, s.alpha);
            });
        }
    }
}

// ---------------------------------------------------------------- C01, C02

pub fn c01_c02(ctx: &Ctx, iface: Iface) -> Vec<Job> {
    let mut v = vec![];
    let extra = ctx.pick(0, 2);
    // E1: all streams x all schedules
    per_strings(&mut v, "all-schedules", small(), move |s| s.e1 + extra, move |w, s, d, max| {
        let cfg = (s.mk)();
        let base = match crate::engine::caught(|| whole(&*cfg, iface, d)) {
            Ok(b) => b,
            Err(m) => {
                w.violate(format!("whole {}", hex(d)), vec![], m, vec![]);
                return false;
            }
        };
        let n = d.len();
        let id = |k: &str| format!("{k} {}", hex(d));
        let go = |w: &mut Worker, k: &str, budget: u32, f: &dyn Fn(&dyn Cfg, &mut crate::engine::Chooser) -> Result<Vec<usize>, String>| {
            w.exec(&|| id(k), budget, &mut |ch| {
                let r = f(&*cfg, ch)?;
                eq(&r, &base, "against the stream passed at once")?;
                Ok(r)
            })
        };
        match iface {
            Iface::Incr => {
                if !go(w, "slices", 0, &|c, ch| incr_slices(c, d, ch)) {
                    return false;
                }
                if n + 2 <= max && !go(w, "slices+empty", 2, &|c, ch| incr_slices(c, d, ch)) {
                    return false;
                }
                if n + 3 <= max && !go(w, "resliced+empty", 1, &|c, ch| incr_sched(c, d, ch)) {
                    return false;
                }
            }
            Iface::Fce => {
                if !go(w, "ext", 0, &|c, ch| fce_sched(c, d, ch, false)) {
                    return false;
                }
                if n + 2 <= max && !go(w, "ext+repeat", 2, &|c, ch| fce_sched(c, d, ch, false)) {
                    return false;
                }
                if n + 3 <= max && !go(w, "ext-after-edge+repeat", 1, &|c, ch| fce_sched(c, d, ch, true)) {
                    return false;
                }
            }
        }
        true
    });
    // closure: sliced against byte by byte
    let nodes = ctx.pick(2500, 60_000);
    for s in small() {
        let k = if s.alpha.len() <= 2 { 4 } else if s.alpha.len() <= 3 { 3 } else { 2 };
        job(&mut v, format!("closure/{}", s.id), move |w| {
            closure(w, &s, Kind::Sliced(iface), Kind::Bytes(iface), &s.alpha, k, nodes, 60)
        });
    }
    // E3: long streams
    per_stream(&mut v, ctx, "streams", all(), move |w, s, st| {
        let cfg = (s.mk)();
        let base = match crate::engine::caught(|| whole(&*cfg, iface, &st.data)) {
            Ok(b) => b,
            Err(m) => return w.violate(format!("{}/whole", st.name), vec![], m, vec![]),
        };
        let pts = pts_for(st);
        stream_schedules(w, &s.spec, st, iface, pts, &mut |b| {
            let r = with_bounds(&*cfg, iface, &st.data, b)?;
            eq(&r, &base, "against the stream passed at once")?;
            Ok(r)
        });
    });
    crate::extra::giant(&mut v, ctx.seed, iface);
    crate::extra::ahead_sliced(&mut v, ctx.seed, iface);
    per_mega(&mut v, ctx, mega_subjects(), move |w, s, st| {
        let cfg = (s.mk)();
        let base = match crate::engine::caught(|| stepped(&*cfg, iface, &st.data, 4096)) {
            Ok(b) => b,
            Err(m) => return w.violate(format!("{}/step4096", st.name), vec![], m, vec![]),
        };
        mega_schedules(w, st, iface, &mut |b| {
            let r = with_bounds(&*cfg, iface, &st.data, b)?;
            eq(&r, &base, "against the stream passed 4096 bytes at a time")?;
            Ok(r)
        });
    });
    per_wide(&mut v, ctx, move |w, s, st| {
        let cfg = (s.mk)();
        let base = match crate::engine::caught(|| whole(&*cfg, iface, &st.data)) {
            Ok(b) => b,
            Err(m) => return w.violate(format!("{}/whole", st.name), vec![], m, vec![]),
        };
        wide_schedules(w, &s.spec, st, iface, &mut |b| {
            let r = with_bounds(&*cfg, iface, &st.data, b)?;
            eq(&r, &base, "against the stream passed at once")?;
            Ok(r)
        });
    });
    per_runs(&mut v, ctx, all().into_iter().chain(wide()).collect(), move |w, s, d, a, b| {
        let cfg = (s.mk)();
        w.exec(&|| format!("run {a}..{b} in {}", hex(d)), 0, &mut |_| {
            let base = whole(&*cfg, iface, d)?;
            for (k, e) in [
                ("byte by byte", stepped(&*cfg, iface, d, 1)?),
                ("cut before and after the run", with_bounds(&*cfg, iface, d, &mut [a, b].into_iter())?),
                ("cut within the run", with_bounds(&*cfg, iface, d, &mut [a + 1, b - 1].into_iter())?),
            ] {
                eq(&e, &base, &format!("{k}, against the stream passed at once"))?;
            }
            Ok(base)
        })
    });
    per_large(&mut v, ctx, all().into_iter().chain(wide()).collect(), move |w, s, d, name, bounds| {
        let cfg = (s.mk)();
        w.exec(&|| name.to_string(), 0, &mut |_| {
            let base = stepped(&*cfg, iface, d, 1000)?;
            let e = with_bounds(&*cfg, iface, d, &mut bounds.iter().copied())?;
            eq(&e, &base, "against the stream passed 1000 bytes at a time")?;
            Ok(e)
        })
    });
    v
}

// ---------------------------------------------------------------- C03

pub const KNOWN_FASTCDC: &str = "fastcdc-incr-excludes-matching-byte";

/// Incremental against buffered search; the recorded disagreement of FastCDC is
/// recognised exactly: both sides must be what they were recorded to be.
fn c03_cmp(w: &mut Worker, s: &Subject, d: &[u8], incr: &[usize], fce: &[usize]) -> Result<(), String> {
    if incr == fce {
        return Ok(());
    }
    if s.spec.alg() == "fastcdc" && incr == ref_edges(&s.spec, Iface::Incr, d) && fce == ref_edges(&s.spec, Iface::Fce, d) {
        w.known(KNOWN_FASTCDC);
        return Ok(());
    }
    eq(incr, fce, "incremental against buffered search")
}

pub fn c03(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let cap = ctx.pick(60_000u64, 2_000_000);
    per_strings(&mut v, "both", small(), move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        let mut res: Option<(Vec<usize>, Vec<usize>)> = None;
        let mut ok = true;
        for step in [usize::MAX, 1] {
            ok &= w.exec(&|| format!("step{step} {}", hex(d)), 0, &mut |_| {
                let n = d.len();
                let st = step.min(n.max(1));
                let a = stepped(&*cfg, Iface::Incr, d, st)?;
                let b = stepped(&*cfg, Iface::Fce, d, st)?;
                res = Some((a.clone(), b));
                Ok(a)
            });
            if let Some((a, b)) = res.take() {
                if let Err(m) = c03_cmp(w, s, d, &a, &b) {
                    w.violate(format!("step{step} {}", hex(d)), vec![], m, vec![format!("incr {a:?}"), format!("fce {b:?}")]);
                    return false;
                }
            }
        }
        ok
    });
    let nodes = ctx.pick(3000, 80_000);
    for s in small() {
        if s.spec.alg() == "fastcdc" {
            continue; // the two sides are known to drift apart; conformance closures of C13 cover both
        }
        job(&mut v, format!("closure/{}", s.id), move |w| {
            closure(w, &s, Kind::Sliced(Iface::Incr), Kind::Bytes(Iface::Fce), &s.alpha, 2, nodes, 60)
        });
    }
    let on = |w: &mut Worker, s: &Subj, st: &Stream, steps: &[usize]| {
        let cfg = (s.mk)();
        for &step in steps {
            let mut res = None;
            w.exec(&|| format!("{}/step{step}", st.name), 0, &mut |_| {
                let n = st.data.len();
                let a = stepped(&*cfg, Iface::Incr, &st.data, step.min(n))?;
                let b = stepped(&*cfg, Iface::Fce, &st.data, step.min(n))?;
                res = Some((a.clone(), b));
                Ok(a)
            });
            if let Some((a, b)) = res {
                if let Err(m) = c03_cmp(w, s, &st.data, &a, &b) {
                    return w.violate(format!("{}/step{step}", st.name), vec![], m, vec![]);
                }
            }
        }
    };
    per_stream(&mut v, ctx, "streams", all().into_iter().chain(wide()).collect(), move |w, s, st| on(w, s, st, &[usize::MAX, 1, 7, 64, 1000, 4096]));
    per_mega(&mut v, ctx, mega_subjects(), move |w, s, st| on(w, s, st, &[usize::MAX, 1, 65_537, (1 << 20) + 1]));
    let pair = |w: &mut Worker, s: &Subj, id: &dyn Fn() -> String, d: &[u8], bounds: &[usize]| -> bool {
        let cfg = (s.mk)();
        let mut res = None;
        let mut ok = w.exec(id, 0, &mut |_| {
            let a = with_bounds(&*cfg, Iface::Incr, d, &mut bounds.iter().copied())?;
            let b = with_bounds(&*cfg, Iface::Fce, d, &mut bounds.iter().copied())?;
            res = Some((a.clone(), b));
            Ok(a)
        });
        if let Some((a, b)) = res {
            if let Err(m) = c03_cmp(w, s, d, &a, &b) {
                w.violate(id(), vec![], m, vec![]);
                ok = false;
            }
        }
        ok
    };
    per_runs(&mut v, ctx, all().into_iter().chain(wide()).collect(), move |w, s, d, a, b| {
        pair(w, s, &|| format!("run {a}..{b} in {}", hex(d)), d, &[]) && pair(w, s, &|| format!("cut run {a}..{b} in {}", hex(d)), d, &[a, b])
    });
    per_large(&mut v, ctx, all().into_iter().chain(wide()).collect(), move |w, s, d, name, bounds| pair(w, s, &|| name.to_string(), d, bounds));
    v
}

// ---------------------------------------------------------------- C04

fn c04_call(len: usize, r: Option<usize>, disc: usize) -> Result<(), String> {
    if let Some(x) = r {
        if disc > x {
            return Err(format!("edge at {x} of {len} bytes, but {disc} to be discarded"));
        }
    }
    Ok(())
}

fn c04_fce(cfg: &dyn Cfg, data: &[u8], bounds: &mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String> {
    let mut r = FceRun::new(cfg, data);
    r.on_call = Some(c04_call);
    r.find(0)?;
    for b in bounds {
        r.feed(b)?;
    }
    r.feed(data.len())?;
    r.find(data.len())?;
    Ok(r.edges)
}

fn c04_incr(cfg: &dyn Cfg, data: &[u8], bounds: &mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String> {
    let mut r = IncrRun::new(cfg, data);
    r.push(0)?;
    for b in bounds {
        r.feed(b)?;
        let p = r.pos;
        r.push(p)?;
    }
    r.feed(data.len())?;
    r.push(data.len())?;
    Ok(r.edges)
}

pub fn degenerate() -> Vec<Subj> {
    use std::ops::Bound::*;
    let mut v = vec![];
    let vals = [0u64, 1, 2, 3, 5, u64::MAX - 1, u64::MAX];
    for a in vals {
        for b in vals {
            for c in vals {
                v.push(subject(&format!("fast-{a}-{b}-{c}"), Spec::Fast { gear: small_gear(), min: a, normal: b, max: c }, &[0, 1, 3], 5));
            }
        }
    }
    for w in [0u64, 1, u64::MAX - 1, u64::MAX] {
        v.push(subject(&format!("mii-{w}"), Spec::Mii { w }, &[0, 1, 255], 6));
        v.push(subject(&format!("ram-{w}"), Spec::Ram { w }, &[0, 1, 255], 6));
    }
    for max in [0u64, 1, 2, u64::MAX - 1, u64::MAX] {
        for mask in [0u32, 1, 0x8000_0000, u32::MAX] {
            for k in [1usize, 2, 32] {
                v.push(subject(&format!("buz-{k}-{mask:x}-{max}"), Spec::Buz { k, mask, max, h: small_hash() }, &[0, 1, 2], 5));
            }
        }
    }
    for avg in [0u32, 1, 31, 32] {
        for lo in [Included(0u64), Included(1), Excluded(0), Excluded(3), Included(5), Included(u64::MAX), Excluded(u64::MAX), Unbounded] {
            for hi in [Included(0u64), Included(1), Excluded(0), Excluded(1), Excluded(3), Included(2), Included(u64::MAX), Excluded(u64::MAX), Unbounded] {
                v.push(subject(&format!("zpaq-{avg}-{lo:?}-{hi:?}"), Spec::Zpaq { avg, lo, hi }, &[0, 1, 2], 4));
            }
        }
    }
    for (w, m) in [(1usize, 1u64), (1, u64::MAX), (2, u64::MAX), (1000, 1), (1, 256)] {
        v.push(subject(&format!("gzip-{w}-{m}"), Spec::Gzip { w, m }, &[0, 1, 255], 5));
    }
    for b in 0..32u32 {
        v.push(subject(&format!("pigz-{b}"), Spec::Pigz { bits: b }, &[0, 1, 255], 5));
    }
    for l in 1..32u32 {
        v.push(subject(&format!("gear-{l}"), Spec::Gear { log2: l }, &[0, 1, 255], 5));
    }
    for w in [1usize, 2, 3, 64, 1000, 1 << 17] {
        v.push(subject(&format!("bup-{w}"), Spec::Bup { w }, &[0, 1, 255], if w > 1000 { 2 } else { 5 }));
    }
    for b in [20u32, 21, 30, 40, 51] {
        v.push(subject(&format!("zstd-{b}"), Spec::Zstd { bits: b }, &[0, 1, 255], 4));
    }
    v
}

pub fn c04(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let more = ctx.pick(0, 1);
    per_strings(&mut v, "degenerate", degenerate(), move |s| s.e1 + more, |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| format!("incr {}", hex(d)), 0, &mut |ch| incr_slices(&*cfg, d, ch))
            && w.exec(&|| format!("fce {}", hex(d)), 0, &mut |ch| fce_sched(&*cfg, d, ch, false))
            && w.exec(&|| format!("calls {}", hex(d)), 0, &mut |_| {
                c04_incr(&*cfg, d, &mut (1..d.len()))?;
                c04_fce(&*cfg, d, &mut (1..d.len()))
            })
    });
    // debugging output of everything, whatever has been fed
    for s in degenerate().into_iter().chain(all()) {
        job(&mut v, format!("debug-output/{}", s.id), move |w| {
            let cfg = (s.mk)();
            let mut data = Prng::new(5).bytes(150);
            data.extend((0..=255u8).rev().chain(0..=80));
            data.extend([0; 50]);
            let n = data.len();
            w.exec(&|| format!("{n} bytes"), 0, &mut |_| {
                let _ = cfg.text();
                let mut i = cfg.incr();
                for b in &data[..n] {
                    tick();
                    let _ = i.key();
                    i.push(std::slice::from_ref(b));
                }
                let _ = i.key();
                let mut r = FceRun::new(&*cfg, &data[..n]);
                for end in 0..=n {
                    let _ = r.f.key();
                    r.feed(end)?;
                }
                let _ = r.f.key();
                for strict in [false, true] {
                    let mut it = cfg.slices(&data[..n], strict);
                    loop {
                        let _ = it.text();
                        if it.next().is_none() {
                            break;
                        }
                    }
                    let _ = it.text();
                }
                Ok(vec![])
            });
        });
    }
    // degenerate configurations on streams longer than anything short
    for s in degenerate() {
        job(&mut v, format!("degenerate-long/{}", s.id), move |w| {
            let cfg = (s.mk)();
            let mut rng = Prng::new(7);
            for (name, d) in [
                ("zeros", vec![0u8; 700]),
                ("ones", vec![1u8; 700]),
                ("ff", vec![255u8; 700]),
                ("ramp", (0..700).map(|i| i as u8).collect()),
                ("random", rng.bytes(1500)),
            ] {
                for step in [1usize, 2, 3, 31, 32, 33, 64, 100_000] {
                    let n = d.len();
                    for iface in Iface::BOTH {
                        w.exec(&|| format!("{name}/step{step}/{}", iface.name()), 0, &mut |_| {
                            let mut b = (1..).map(|i| i * step).take_while(|b| *b < n);
                            match iface {
                                Iface::Incr => c04_incr(&*cfg, &d, &mut b),
                                Iface::Fce => c04_fce(&*cfg, &d, &mut b),
                            }
                        });
                    }
                }
            }
        });
    }
    // ordinary small configurations: all schedules, with empty and repeated calls
    let extra = ctx.pick(0, 2);
    per_strings(&mut v, "all-schedules", small(), move |s| s.e1 + extra, |w, s, d, max| {
        let cfg = (s.mk)();
        let budget = if d.len() + 2 <= max { 1 } else { 0 };
        w.exec(&|| format!("incr {}", hex(d)), budget, &mut |ch| incr_sched(&*cfg, d, ch))
            && w.exec(&|| format!("fce {}", hex(d)), budget, &mut |ch| fce_sched(&*cfg, d, ch, d.len() + 2 <= max))
            && w.exec(&|| format!("calls {}", hex(d)), 0, &mut |ch| {
                let n = d.len();
                let b: Vec<usize> = (1..n).filter(|_| ch.choose(2) == 1).collect();
                c04_incr(&*cfg, d, &mut b.iter().copied())?;
                c04_fce(&*cfg, d, &mut b.iter().copied())
            })
            && w.exec(&|| format!("loops {}", hex(d)), 0, &mut |_| {
                for strict in [false, true] {
                    let mut it = cfg.slices(d, strict);
                    let mut n = 0;
                    loop {
                        tick();
                        match it.next() {
                            None => break,
                            Some(x) => {
                                n += 1;
                                if x.is_empty() || n > d.len() {
                                    return Err(format!("strict={strict}: slice number {n} of {} bytes does not make progress", x.len()));
                                }
                            }
                        }
                    }
                }
                Ok(vec![])
            })
    });
    let wide = ctx.pick(2usize, 3);
    per_stream(&mut v, ctx, "streams", all(), move |w, s, st| {
        let cfg = (s.mk)();
        let pts = pts_for(st) / (4 - wide);
        stream_schedules(w, &s.spec, st, Iface::Incr, pts, &mut |b| c04_incr(&*cfg, &st.data, b));
        stream_schedules(w, &s.spec, st, Iface::Fce, pts, &mut |b| c04_fce(&*cfg, &st.data, b));
    });
    per_wide(&mut v, ctx, |w, s, st| {
        let cfg = (s.mk)();
        wide_schedules(w, &s.spec, st, Iface::Incr, &mut |b| c04_incr(&*cfg, &st.data, b));
        wide_schedules(w, &s.spec, st, Iface::Fce, &mut |b| c04_fce(&*cfg, &st.data, b));
    });
    per_mega(&mut v, ctx, mega_subjects(), |w, s, st| {
        let cfg = (s.mk)();
        mega_schedules(w, st, Iface::Incr, &mut |b| c04_incr(&*cfg, &st.data, b));
        mega_schedules(w, st, Iface::Fce, &mut |b| c04_fce(&*cfg, &st.data, b));
    });
    crate::extra::far(&mut v, ctx.seed, |_| true, |_| Ok(()));
    // sizes beyond 32 bits, without reading that much data
    job(&mut v, "huge-fastcdc".into(), |w| {
        let s = subject("fast-huge", Spec::Fast { gear: small_gear(), min: 5 << 30, normal: 6 << 30, max: 7 << 30 }, &[0], 0);
        let cfg = (s.mk)();
        let d = vec![0u8; 1 << 30];
        w.exec(&|| "zeros".into(), 0, &mut |_| {
            // the skipped minimum is not read; the byte after it matches at once
            let mut f = cfg.fce();
            let mut i = cfg.incr();
            for n in 0..5 {
                tick();
                let r = f.find(&d);
                if r != (None, d.len()) {
                    return Err(format!("fce: call {n} gave {r:?} below the minimum"));
                }
                let r = i.push(&d);
                if r.is_some() {
                    return Err(format!("incr: call {n} gave {r:?} below the minimum"));
                }
            }
            tick();
            let r = f.find(&d[..10]);
            if r != (Some(1), 1) {
                return Err(format!("fce: {r:?} after the minimum, expected an edge after 1 byte"));
            }
            Ok(vec![1])
        });
    });
    v
}

// ---------------------------------------------------------------- C05

/// One history of a slice iterator: `stop` items, then an action, checked
/// against the edges the chunker reports when driven by hand.
fn c05_one(cfg: &dyn Cfg, d: &[u8], more: &[u8], ch: &mut crate::engine::Chooser, stops: &[usize]) -> Result<Vec<usize>, String> {
    let edges = whole(cfg, Iface::Incr, d)?;
    let mut all = d.to_vec();
    all.extend_from_slice(more);
    let all_edges = whole(cfg, Iface::Incr, &all)?;
    let strict = ch.choose(2) == 1;
    let stop = stops[ch.choose(stops.len())];
    let action = ch.choose(if strict { 4 } else { 2 });
    trace(|| format!("strict={strict} stop after {stop} items, action {action} (0 run to the end, 1 into_parts, 2 take_rem and go on, 3 take_rem twice then into_parts)"));
    let mut it = cfg.slices(d, strict);
    let mut covered = 0usize;
    let mut n = 0usize;
    let mut ended = false;
    let limit = if action == 0 { usize::MAX } else { stop };
    let check_item = |x: &[u8], covered: usize, n: usize| -> Result<(), String> {
        let want_end = edges.get(n).copied();
        let end = match (want_end, strict) {
            (Some(e), _) => e,
            (None, false) => d.len(),
            (None, true) => return Err(format!("strict iterator gave item {n} of {} bytes though only {} chunks are complete", x.len(), edges.len())),
        };
        if covered >= d.len() {
            return Err(format!("item {n} of {} bytes after everything was handed out", x.len()));
        }
        if x.is_empty() || x.len() != end - covered || x.as_ptr() != d[covered..].as_ptr() || x != &d[covered..end] {
            return Err(format!("item {n} is {} bytes, expected data[{covered}..{end}]", x.len()));
        }
        Ok(())
    };
    while n < limit {
        tick();
        let r = it.next();
        trace(|| format!("next() = {:?}", r.map(|x| x.len())));
        match r {
            None => {
                ended = true;
                break;
            }
            Some(x) => {
                check_item(x, covered, n)?;
                covered += x.len();
                n += 1;
            }
        }
    }
    if ended {
        let want = if strict { edges.last().copied().unwrap_or(0) } else { d.len() };
        if covered != want {
            return Err(format!("iterator ended after {covered} of {want} bytes"));
        }
        for _ in 0..3 {
            tick();
            if it.next().is_some() {
                return Err("iterator gave an item after it had ended".into());
            }
        }
    }
    let mut rem_taken = false;
    if action >= 2 {
        let r = it.take_rem().unwrap();
        trace(|| format!("take_rem() = {} bytes", r.len()));
        if r != &d[covered..] {
            return Err(format!("take_rem() gave {} bytes, {} are not covered by slices", r.len(), d.len() - covered));
        }
        rem_taken = true;
        let r2 = it.take_rem().unwrap();
        if !r2.is_empty() {
            return Err("take_rem() handed out data twice".into());
        }
        if action == 2 {
            // nothing is left to iterate over
            tick();
            if let Some(x) = it.next() {
                return Err(format!("next() after take_rem() gave {} bytes", x.len()));
            }
            if it.next().is_some() {
                return Err("next() after the end gave an item".into());
            }
        }
    }
    let (mut i, rem) = it.into_parts();
    if rem_taken {
        if !rem.is_empty() {
            return Err(format!("into_parts() after take_rem() handed out {} bytes again", rem.len()));
        }
    } else {
        let want = if !strict && ended { &d[d.len()..] } else { &d[covered..] };
        if rem != want {
            return Err(format!("into_parts() gave {} bytes of remainder, expected {}", rem.len(), want.len()));
        }
    }
    // carry on with the stream: the chunker has seen everything once the
    // iterator has looked for an edge in vain (and nothing more after an
    // incomplete iteration)
    let saw_all = (ended && (strict || covered == d.len())) || (!strict && covered == d.len());
    let mut pos = if saw_all { d.len() } else { covered };
    let mut got: Vec<usize> = edges[..n.min(edges.len())].to_vec();
    let mut idle = 0;
    while pos < all.len() {
        tick();
        match i.push(&all[pos..]) {
            None => break,
            Some(x) => {
                if x > all.len() - pos {
                    return Err(format!("index {x} of {}", all.len() - pos));
                }
                pos += x;
                got.push(pos);
                idle += 1;
                if idle > all.len() + 2 {
                    return Err("no progress after into_parts()".into());
                }
            }
        }
    }
    // a chunker that has seen d and found no edge reports what follows from there
    let want: &[usize] = &all_edges;
    eq(&got, want, "edges found by the slices and by carrying on with the chunker")?;
    Ok(got)
}

/// The other methods of the iterators: after `stop` items, either `nth` and
/// the items behind, or all the rest by one of the methods; the size hint on
/// the way.
fn c05_methods(cfg: &dyn Cfg, d: &[u8], ch: &mut crate::engine::Chooser, stops: &[usize]) -> Result<Vec<usize>, String> {
    let edges = whole(cfg, Iface::Incr, d)?;
    let strict = ch.choose(2) == 1;
    let mut items: Vec<&[u8]> = vec![];
    let mut p = 0;
    for e in &edges {
        items.push(&d[p..*e]);
        p = *e;
    }
    if !strict && p < d.len() {
        items.push(&d[p..]);
    }
    let stop = stops[ch.choose(stops.iter().filter(|x| **x <= items.len()).count())];
    let method = ch.choose(RESTS.len() + 3);
    let name = RESTS.get(method).copied().unwrap_or(["nth(0)", "nth(1)", "nth(2)"][method.saturating_sub(RESTS.len()).min(2)]);
    trace(|| format!("strict={strict}, {stop} items by next(), then {name}"));
    let mut it = cfg.slices(d, strict);
    let hint = |it: &dyn SliceIter, left: usize| -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size_hint() gives {:?} with {left} items to come", (lo, hi)));
        }
        Ok(())
    };
    hint(&*it, items.len())?;
    for (i, x) in items[..stop].iter().enumerate() {
        tick();
        if it.next() != Some(*x) {
            return Err(format!("item {i} differs"));
        }
        hint(&*it, items.len() - i - 1)?;
    }
    let mut left = &items[stop..];
    if method >= RESTS.len() {
        // behind it the items go on, as often as nth is called
        let k = method - RESTS.len();
        loop {
            tick();
            let got = it.nth(k);
            if got != left.get(k).copied() {
                return Err(format!("{name} gives {:?} bytes at {} items, expected {:?}", got.map(|x| x.len()), items.len() - left.len(), left.get(k).map(|x| x.len())));
            }
            if got.is_none() {
                hint(&*it, 0)?;
                if it.next().is_some() || it.nth(0).is_some() {
                    return Err(format!("an item after {name} gave none"));
                }
                break;
            }
            left = &left[k + 1..];
            hint(&*it, left.len())?;
        }
    } else {
        tick();
        let want = match name {
            "skip(1)" => Rest::Items(left.get(1..).unwrap_or(&[]).to_vec()),
            "step_by(2)" => Rest::Items(left.iter().copied().step_by(2).collect()),
            "count" => Rest::Count(left.len()),
            "last" | "reduce" => Rest::Last(left.last().copied()),
            _ => Rest::Items(left.to_vec()),
        };
        let got = it.rest(method);
        if got != want {
            let lens = |r: &Rest| match r {
                Rest::Items(v) => format!("slices of {:?}", v.iter().map(|x| x.len()).take(20).collect::<Vec<_>>()),
                Rest::Count(n) => n.to_string(),
                Rest::Last(x) => format!("{:?}", x.map(|x| x.len())),
            };
            return Err(format!("{name} gives {}, expected {}", lens(&got), lens(&want)));
        }
    }
    Ok(edges)
}

pub fn c05(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let cap = ctx.pick(3000u64, 60_000);
    per_strings(&mut v, "histories", small(), move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        // every division of the stream into what is iterated over and what follows
        for cut in 0..=d.len() {
            let stops: Vec<usize> = (0..=cut).collect();
            if !w.exec(&|| format!("cut{cut} {}", hex(d)), 0, &mut |ch| c05_one(&*cfg, &d[..cut], &d[cut..], ch, &stops)) {
                return false;
            }
        }
        true
    });
    per_strings(&mut v, "methods", small(), move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        let stops: Vec<usize> = (0..=d.len()).collect();
        w.exec(&|| hex(d), 0, &mut |ch| c05_methods(&*cfg, d, ch, &stops))
    });
    let on = |w: &mut Worker, s: &Subj, st: &Stream, k: usize| {
        let cfg = (s.mk)();
        let n = st.data.len();
        if !w.exec(&|| format!("{}/methods", st.name), 0, &mut |ch| c05_methods(&*cfg, &st.data, ch, &[0, 1, 3])) {
            return;
        }
        let mut cuts = critical_positions(&s.spec, st, k);
        cuts.push(n);
        cuts.push(n / 2);
        for cut in cuts {
            let ne = match whole(&*cfg, Iface::Incr, &st.data[..cut]) {
                Ok(e) => e.len(),
                Err(m) => return w.violate(format!("{} whole", st.name), vec![], m, vec![]),
            };
            let mut stops: Vec<usize> = vec![0, 1, 2, 3, 5, ne.saturating_sub(1), ne, ne + 1];
            stops.sort();
            stops.dedup();
            if !w.exec(&|| format!("{}/cut{cut}", st.name), 0, &mut |ch| {
                c05_one(&*cfg, &st.data[..cut], &st.data[cut..], ch, &stops)
            }) {
                return;
            }
        }
    };
    per_stream(&mut v, ctx, "streams", all(), move |w, s, st| on(w, s, st, 10));
    per_stream(&mut v, ctx, "wide", wide(), move |w, s, st| on(w, s, st, 3));
    per_mega(&mut v, ctx, mega_subjects(), move |w, s, st| on(w, s, st, 0));
    v
}

// ---------------------------------------------------------------- C06

fn c06_check(spec: &Spec, edges: &[usize], n: usize) -> Result<(), String> {
    let (lo, hi) = spec.limits();
    let mut prev = 0;
    for &e in edges {
        let l = (e - prev) as u64;
        if l < lo {
            return Err(format!("chunk {prev}..{e} is {l} bytes, shorter than {lo}"));
        }
        if let Some(h) = hi {
            if l > h {
                return Err(format!("chunk {prev}..{e} is {l} bytes, longer than {h}"));
            }
        }
        prev = e;
    }
    if let Some(h) = hi {
        if (n - prev) as u64 > h {
            return Err(format!("{} bytes after the edge at {prev} and no edge, maximum {h}", n - prev));
        }
    }
    Ok(())
}

/// Configurations in which nothing in the data can trigger an edge: (subject, letters, maximum)
fn untriggered() -> Vec<(Subj, Vec<u8>, usize)> {
    use std::ops::Bound::*;
    let mut v = vec![];
    // letter 1 keeps bit 16 of the fingerprint set, which both masks contain
    for (a, b, c) in [(1u64, 2u64, 4u64), (2, 3, 6), (0, 2, 5), (3, 3, 8), (1, 6, 7), (100, 300, 1000), (5, 40, 41), (2048, 8192, 65536), (2, 2, 3)] {
        v.push((subject(&format!("fast-{a}-{b}-{c}"), Spec::Fast { gear: small_gear(), min: a, normal: b, max: c }, &[1], 0), vec![1u8], c as usize));
    }
    // a byte hash of zero never has a mask bit set
    let h: Arc<Vec<u32>> = Arc::new(vec![0; 256]);
    for (k, max) in [(1usize, 0u64), (1, 1), (2, 5), (5, 3), (8, 8), (33, 40), (67, 100), (67, 4096), (64, 65535), (64, 65536)] {
        v.push((
            subject(&format!("buz-{k}-{max}"), Spec::Buz { k, mask: 1, max, h: h.clone() }, &[0], 0),
            vec![0u8, 1, 255],
            max as usize + 1,
        ));
    }
    // for an average of 2^32 only a hash of exactly zero counts
    for (lo, hi, m) in [
        (Included(1u64), Included(3u64), 3usize),
        (Included(2), Excluded(6), 5),
        (Excluded(1), Excluded(5), 4),
        (Excluded(2), Included(7), 7),
        (Unbounded, Included(4), 4),
        (Unbounded, Excluded(9), 8),
        (Included(100), Included(1000), 1000),
        (Included(4096), Included(70000), 70000),
    ] {
        v.push((subject(&format!("zpaq-32-{lo:?}-{hi:?}"), Spec::Zpaq { avg: 32, lo, hi }, &[0], 0), vec![0, 1, 7], m));
    }
    v
}

pub fn c06(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    // not the empty ranges, and not those of lengths no chunk has
    let with_limits = |s: &Subject| {
        let (lo, hi) = s.spec.limits();
        matches!(s.spec.alg(), "fastcdc" | "zpaq" | "ram" | "mii" | "buzhash") && hi.map(|h| lo <= h).unwrap_or(true)
    };
    let subs: Vec<Subj> = small().into_iter().filter(|s| with_limits(s)).collect();
    let extra = ctx.pick(0, 2);
    per_strings(&mut v, "all-schedules", subs.clone(), move |s| s.e1 + extra, |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| format!("incr {}", hex(d)), 0, &mut |ch| {
            let e = incr_slices(&*cfg, d, ch)?;
            c06_check(&s.spec, &e, d.len())?;
            Ok(e)
        }) && w.exec(&|| format!("fce {}", hex(d)), 0, &mut |ch| {
            let e = fce_sched(&*cfg, d, ch, false)?;
            c06_check(&s.spec, &e, d.len())?;
            Ok(e)
        })
    });
    let cap = ctx.pick(200_000u64, 4_000_000);
    per_strings(&mut v, "deep", subs, move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| format!("both {}", hex(d)), 0, &mut |_| {
            let mut last = vec![];
            for i in Iface::BOTH {
                for step in [1, d.len().max(1)] {
                    last = stepped(&*cfg, i, d, step)?;
                    c06_check(&s.spec, &last, d.len())?;
                }
            }
            Ok(last)
        })
    });
    for (s, letters, m) in untriggered() {
        job(&mut v, format!("untriggered/{}", s.id), move |w| {
            let cfg = (s.mk)();
            let n = 3 * m + 2;
            let mut pats: Vec<(String, Vec<u8>)> = letters.iter().map(|l| (format!("const{l}"), vec![*l; n])).collect();
            let mut rng = Prng::new(3);
            pats.push(("mix".into(), (0..n).map(|_| letters[(rng.next() % letters.len() as u64) as usize]).collect()));
            let want: Vec<usize> = (1..=n / m).map(|i| i * m).collect();
            for (name, d) in pats {
                let st = Stream { name, data: Arc::new(d), marks: want.clone() };
                for iface in Iface::BOTH {
                    let pts = if n < 3000 { 30 } else { 16 };
                    stream_schedules(w, &s.spec, &st, iface, pts, &mut |b| {
                        let e = with_bounds(&*cfg, iface, &st.data, b)?;
                        eq(&e, &want, "nothing triggers an edge, chunks end at the maximum")?;
                        Ok(e)
                    });
                }
                // every prefix: the cut comes as soon as the maximum is reached
                if n < 3000 {
                    for len in 0..=n {
                        for iface in Iface::BOTH {
                            w.exec(&|| format!("{}/prefix{len}/{}", st.name, iface.name()), 0, &mut |_| {
                                let e = whole(&*cfg, iface, &st.data[..len])?;
                                eq(&e, &want[..want.iter().filter(|x| **x <= len).count()], "prefix")?;
                                Ok(e)
                            });
                        }
                    }
                }
            }
        });
    }
    per_stream(&mut v, ctx, "streams", all().into_iter().filter(|s| with_limits(s)).collect(), |w, s, st| {
        let cfg = (s.mk)();
        let pts = pts_for(st);
        for iface in Iface::BOTH {
            stream_schedules(w, &s.spec, st, iface, pts, &mut |b| {
                let e = with_bounds(&*cfg, iface, &st.data, b)?;
                c06_check(&s.spec, &e, st.data.len())?;
                Ok(e)
            });
        }
    });
    per_stream(&mut v, ctx, "wide", wide().into_iter().filter(|s| with_limits(s)).collect(), |w, s, st| {
        let cfg = (s.mk)();
        for iface in Iface::BOTH {
            wide_schedules(w, &s.spec, st, iface, &mut |b| {
                let e = with_bounds(&*cfg, iface, &st.data, b)?;
                c06_check(&s.spec, &e, st.data.len())?;
                Ok(e)
            });
        }
    });
    per_mega(&mut v, ctx, mega_subjects().into_iter().filter(|s| with_limits(s)).collect(), |w, s, st| {
        let cfg = (s.mk)();
        for iface in Iface::BOTH {
            mega_schedules(w, st, iface, &mut |b| {
                let e = with_bounds(&*cfg, iface, &st.data, b)?;
                c06_check(&s.spec, &e, st.data.len())?;
                Ok(e)
            });
        }
    });
    crate::extra::far(&mut v, ctx.seed, with_limits, crate::extra::far_limits);
    crate::extra::ahead(&mut v, ctx.seed, None, with_limits, crate::extra::far_limits);
    // the maximum of BuzHash::new_nom and the default ZPAQ maximum, reached
    job(&mut v, "default-maximum/buz-nom".into(), |w| {
        let s = bigs().into_iter().find(|s| s.id == "buz-nom0").unwrap();
        let cfg = (s.mk)();
        let n = (1usize << 24) + 5000;
        // a constant stream whose hash never has the mask bits set
        let b = (0..=255u8).find(|b| ref_edges(&s.spec, Iface::Fce, &[*b; 200]).is_empty());
        let Some(b) = b else { return };
        let d = vec![b; n];
        for iface in Iface::BOTH {
            for step in [n, 1 << 16, 100_003] {
                w.exec(&|| format!("const{b}/{}/step{step}", iface.name()), 0, &mut |_| {
                    let e = stepped(&*cfg, iface, &d, step)?;
                    eq(&e, &[(1 << 24) + 1], "nothing triggers an edge")?;
                    Ok(e)
                });
            }
        }
    });
    v
}

// ---------------------------------------------------------------- C07

fn c07_tail(cfg: &dyn Cfg, spec: &Spec, iface: Iface, d: &[u8], edges: &[usize], i: usize, step: usize) -> Result<(), String> {
    let e = edges[i];
    let back = if let Spec::Zstd { .. } = spec { 32.min(e) } else { 0 };
    let tail = &d[e - back..];
    let t = stepped(cfg, iface, tail, step.min(tail.len().max(1)))?;
    let t: Vec<usize> = t.iter().map(|x| x + e - back).collect();
    eq(&t, &edges[i + 1..], &format!("{}: the tail from the edge at {e}, chunked on its own", iface.name()))
}

pub fn c07(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let cap = ctx.pick(60_000u64, 2_000_000);
    per_strings(&mut v, "tails", small(), move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| hex(d).to_string(), 0, &mut |_| {
            let mut all = vec![];
            for iface in Iface::BOTH {
                for step in [usize::MAX, 1] {
                    let e = stepped(&*cfg, iface, d, step.min(d.len().max(1)))?;
                    for i in 0..e.len() {
                        c07_tail(&*cfg, &s.spec, iface, d, &e, i, usize::MAX)?;
                    }
                    all = e;
                }
            }
            Ok(all)
        })
    });
    let on = |w: &mut Worker, s: &Subj, st: &Stream, steps: &[usize]| {
        let cfg = (s.mk)();
        let d = &st.data[..];
        for iface in Iface::BOTH {
            for &step in steps {
                let n = d.len();
                if !w.exec(&|| format!("{}/{}/step{step}", st.name, iface.name()), 0, &mut |_| {
                    let e = stepped(&*cfg, iface, d, step.min(n))?;
                    // all edges of short streams; of long ones the first, the last, and those near others
                    let mut pick: Vec<usize> = (0..e.len()).collect();
                    if n > 3000 && e.len() > 24 {
                        let mut p: Vec<usize> = (0..12).chain(e.len() - 6..e.len()).collect();
                        let mut close: Vec<(usize, usize)> = (1..e.len()).map(|i| (e[i] - e[i - 1], i)).collect();
                        close.sort();
                        p.extend(close.iter().take(4).map(|c| c.1));
                        p.extend(close.iter().rev().take(2).map(|c| c.1));
                        p.sort();
                        p.dedup();
                        pick = p;
                    }
                    for i in pick {
                        c07_tail(&*cfg, &s.spec, iface, d, &e, i, usize::MAX)?;
                    }
                    Ok(e)
                }) {
                    return;
                }
            }
        }
    };
    per_stream(&mut v, ctx, "streams", all().into_iter().chain(wide()).collect(), move |w, s, st| on(w, s, st, &[usize::MAX, 1, 64, 1000]));
    per_mega(&mut v, ctx, mega_subjects(), move |w, s, st| on(w, s, st, &[usize::MAX, 65_537]));
    crate::extra::far(&mut v, ctx.seed, |s| ["far-buz-max", "far-ram", "far-fast", "far-zpaq-excl"].contains(&&s.id[..]), crate::extra::far_restart);
    crate::extra::ahead(&mut v, ctx.seed, None, |s| ["far-buz-max", "far-ram", "far-fast", "far-zpaq-excl"].contains(&&s.id[..]), crate::extra::far_restart);
    // edited streams re-align: same tail behind different heads
    per_stream(&mut v, ctx, "edits", all(), |w, s, st| {
        let cfg = (s.mk)();
        let d = &st.data[..st.data.len().min(if s.big { 60_000 } else { 2000 })];
        if d.len() < 40 || !st.name.starts_with("gaps") && !st.name.starts_with("random") {
            return;
        }
        for iface in Iface::BOTH {
            let Ok(base) = whole(&*cfg, iface, d) else { continue };
            let mut pos: Vec<usize> = vec![0, 1, 5, 20];
            for e in base.iter().take(3) {
                pos.extend([e.saturating_sub(1), *e, (*e + 1).min(d.len())]);
            }
            for p in pos {
                for (name, ins, del) in [("ins1", 1usize, 0usize), ("ins7", 7, 0), ("del1", 0, 1), ("del9", 0, 9), ("chg", 3, 3)] {
                    if p + del > d.len() {
                        continue;
                    }
                    w.exec(&|| format!("{}/{}/{name}@{p}", st.name, iface.name()), 0, &mut |_| {
                        let mut x = d[..p].to_vec();
                        x.extend((0..ins).map(|i| (i as u8).wrapping_mul(59).wrapping_add(d[p.min(d.len() - 1)] ^ 0x55)));
                        x.extend_from_slice(&d[p + del..]);
                        let e = whole(&*cfg, iface, &x)?;
                        // in terms of the common tail
                        let from = if let Spec::Zstd { .. } = &*s.spec { 32 } else { 0 };
                        let a: Vec<i64> = base.iter().map(|e| *e as i64 - (p + del) as i64).filter(|e| *e >= from).collect();
                        let b: Vec<i64> = e.iter().map(|e| *e as i64 - (p + ins) as i64).filter(|e| *e >= from).collect();
                        if let Some(c) = a.iter().find(|x| b.contains(x)) {
                            let a: Vec<&i64> = a.iter().filter(|x| *x > c).collect();
                            let b: Vec<&i64> = b.iter().filter(|x| *x > c).collect();
                            if a != b {
                                return Err(format!(
                                    "both have an edge {c} bytes into the common tail, later ones differ: {:?} and {:?}",
                                    &a[..a.len().min(6)],
                                    &b[..b.len().min(6)]
                                ));
                            }
                        }
                        Ok(e)
                    });
                }
            }
        }
    });
    v
}

// ---------------------------------------------------------------- C08

/// For every position at least a window past the previous edge, window -> edge.
fn c08_collect(spec: &Spec, d: &[u8], edges: &[usize], map: &mut HashMap<Vec<u8>, (bool, Vec<u8>)>, ctxlen: usize) -> Result<(), String> {
    let win = spec.window().unwrap();
    let max = match spec {
        Spec::Buz { max, .. } => *max,
        _ => u64::MAX,
    };
    let zstd = matches!(spec, Spec::Zstd { .. });
    let mut prev = 0;
    let mut ei = 0;
    for p in 1..=d.len() {
        let is = ei < edges.len() && edges[ei] == p;
        let len = p - prev;
        if len >= win && len as u64 <= max && !(zstd && p <= 32) {
            let key = d[p - win..p].to_vec();
            match map.get(&key) {
                None => {
                    map.insert(key, (is, d[p.saturating_sub(ctxlen)..p].to_vec()));
                }
                Some((was, other)) => {
                    if *was != is {
                        return Err(format!(
                            "window {} is {} an edge at {p} but is {} one after {}",
                            hex(&key),
                            if is { "at" } else { "not at" },
                            if *was { "at" } else { "not at" },
                            hex(other)
                        ));
                    }
                }
            }
        }
        if is {
            prev = p;
            ei += 1;
        }
    }
    Ok(())
}

pub fn c08(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let windowed = |s: &Subj| s.spec.window().is_some();
    let cap = ctx.pick(200_000u64, 3_000_000);
    for s in small().into_iter().filter(windowed) {
        for iface in Iface::BOTH {
            let s = s.clone();
            job(&mut v, format!("windows/{}/{}", s.id, iface.name()), move |w| {
                let cfg = (s.mk)();
                let n = depth_for(s.alpha.len(), cap);
                let mut map = HashMap::new();
                for step in [usize::MAX, 1] {
                    strings(&s.alpha, n, None, &mut |d| {
                        w.exec(&|| format!("step{step} {}", hex(d)), 0, &mut |_| {
                            let e = stepped(&*cfg, iface, d, step.min(d.len()))?;
                            c08_collect(&s.spec, d, &e, &mut map, 64)?;
                            Ok(e)
                        })
                    });
                }
                let hits = map.values().filter(|x| x.0).count();
                w.note = format!("streams of {n} bytes over {:?}: {} windows, {hits} of them edges", s.alpha, map.len());
            });
        }
    }
    // ... and behind more than 4 GiB
    crate::extra::far(&mut v, ctx.seed, |s| s.spec.window().is_some() && s.id != "far-buz-max" && s.id != "far-gzip-8192", crate::extra::far_window);
    crate::extra::ahead(&mut v, ctx.seed, None, |s| s.spec.window().is_some() && s.id != "far-buz-max", crate::extra::far_window);
    // the same window behind many different heads
    let seed = ctx.seed;
    let mut subs: Vec<Subj> = all().into_iter().chain(wide().into_iter().filter(|s| s.spec.window().unwrap_or(0) > 70 || s.spec.alg() == "gzip")).filter(windowed).collect();
    for k in 1..=70usize {
        if k > 2 {
            subs.push(subject(&format!("buz-go-k{k}"), Spec::Buz { k, mask: 255, max: 1 << 24, h: go_table() }, &[], 0));
        }
        if k % 5 == 0 || k.is_power_of_two() || k == 31 || k == 33 {
            subs.push(subject(&format!("bup-k{k}"), Spec::Bup { w: k }, &[], 0));
            subs.push(subject(&format!("gzip-k{k}"), Spec::Gzip { w: k, m: 97 }, &[], 0));
        }
    }
    for b in [6u32, 10, 16, 24] {
        subs.push(subject(&format!("pigz-b{b}"), Spec::Pigz { bits: b }, &[], 0));
    }
    for s in subs {
        job(&mut v, format!("heads/{}", s.id), move |w| {
            let cfg = (s.mk)();
            let win = s.spec.window().unwrap();
            let mut rng = Prng::new(seed + 11);
            // windows: some that are edges (found with the model), some that are not
            let mut wins: Vec<Vec<u8>> = vec![];
            let zstd = matches!(&*s.spec, Spec::Zstd { .. });
            let nw = if win > 1000 { 2 } else { 6 };
            for i in 0..nw {
                let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 100 + i);
                if zstd {
                    c.silence(40);
                    c.len = 0;
                }
                let want = win + 3 + i as usize;
                if !(matches!(&*s.spec, Spec::Zstd{bits} if *bits > 20) && i > 1) && c.chunk(want) {
                    wins.push(c.out[c.out.len() - win..].to_vec());
                }
                let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 200 + i);
                c.silence(win + 50);
                wins.push(c.out[c.out.len() - win..].to_vec());
            }
            wins.push(vec![0; win]);
            wins.push(vec![255; win]);
            let mut heads: Vec<Vec<u8>> = vec![vec![]];
            for a in [0u8, 1, 127, 255] {
                for l in [1usize, 2, 31, 32, 33, win, win + 1, 2 * win] {
                    if l < 20_000 {
                        heads.push(vec![a; l]);
                    }
                }
            }
            for l in [1usize, 2, 3, 5, 8, 13, 31, 40, win.saturating_sub(1), win, win + 1, win * 2 + 3] {
                if l < 20_000 {
                    heads.push(rng.bytes(l));
                    heads.push(rng.bytes(l));
                }
            }
            for b in 0..=255u8 {
                if win < 1000 {
                    heads.push(vec![b, !b]);
                }
            }
            // long ones, without and with edges
            if win < 1000 {
                for l in [300usize, 5000, 70_000] {
                    let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 300);
                    c.silence(l);
                    heads.push(c.out);
                }
                heads.push(rng.bytes(5000));
                heads.push(rng.bytes(66_000));
                heads.push(vec![0; 1_100_000]);
            }
            let mut edge_windows = 0;
            for iface in Iface::BOTH {
                for (wi, x) in wins.iter().enumerate() {
                    let mut seen: Option<(bool, Vec<u8>)> = None;
                    for (hi, h) in heads.iter().enumerate() {
                        let mut d = h.clone();
                        d.extend_from_slice(x);
                        if zstd && d.len() <= 32 {
                            continue;
                        }
                        let mut status = None;
                        let steps: &[usize] = if win > 1000 || d.len() > 100_000 { &[usize::MAX] } else { &[usize::MAX, 1, 7] };
                        for step in steps {
                            if !w.exec(&|| format!("{}/window{wi}/head{hi}/step{step}", iface.name()), 0, &mut |_| {
                                let e = stepped(&*cfg, iface, &d, (*step).min(d.len().max(1)))?;
                                let n = d.len();
                                let is = e.last() == Some(&n);
                                let prev = e.iter().rev().find(|p| **p < n).copied().unwrap_or(0);
                                if let Spec::Buz { max, .. } = &*s.spec {
                                    if (n - prev) as u64 > *max {
                                        return Ok(e);
                                    }
                                }
                                if n - prev < win || n == 0 {
                                    return Ok(e);
                                }
                                status = Some(is);
                                if let Some((was, other)) = &seen {
                                    if *was != is {
                                        return Err(format!(
                                            "window {} {} an edge after head {} but {} after head {}",
                                            hex(x),
                                            if is { "is" } else { "is not" },
                                            hex(h),
                                            if *was { "is one" } else { "is none" },
                                            hex(other)
                                        ));
                                    }
                                }
                                Ok(e)
                            }) {
                                return;
                            }
                            if let (Some(is), None) = (status, &seen) {
                                seen = Some((is, h.clone()));
                            }
                        }
                    }
                    if let Some((true, _)) = seen {
                        edge_windows += 1;
                    }
                }
            }
            w.note = format!("{} windows ({edge_windows} of them edges, both interfaces) behind {} heads", wins.len(), heads.len());
        });
    }
    v
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &Ctx) -> Vec<Job> {
    let mut v = vec![];
    let check = |spec: &Spec, r: &FceRun<'_>| -> Result<(), String> {
        let lb = spec.lookbehind();
        if r.max_kept > lb {
            return Err(format!("{} bytes kept after a call without an edge, the window is {lb}", r.max_kept));
        }
        let le = if let Spec::Zstd { .. } = spec { 32 } else { 0 };
        if r.max_kept_edge > le {
            return Err(format!("{} bytes before an edge kept, expected at most {le}", r.max_kept_edge));
        }
        Ok(())
    };
    let extra = ctx.pick(0, 2);
    per_strings(&mut v, "all-schedules", small(), move |s| s.e1 + extra, move |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| hex(d), 0, &mut |ch| {
            let n = d.len();
            let mut r = FceRun::new(&*cfg, d);
            r.find(0)?;
            while r.end < n {
                let end = n - ch.choose(n - r.end);
                r.feed(end)?;
                check(&s.spec, &r)?;
            }
            r.find(n)?;
            check(&s.spec, &r)?;
            Ok(r.edges)
        })
    });
    per_stream(&mut v, ctx, "streams", all(), move |w, s, st| {
        let cfg = (s.mk)();
        let pts = pts_for(st);
        stream_schedules(w, &s.spec, st, Iface::Fce, pts, &mut |b| {
            let mut r = FceRun::new(&*cfg, &st.data);
            for x in b {
                r.feed(x)?;
            }
            r.feed(st.data.len())?;
            check(&s.spec, &r)?;
            Ok(r.edges)
        });
    });
    per_mega(&mut v, ctx, mega_subjects(), move |w, s, st| {
        let cfg = (s.mk)();
        mega_schedules(w, st, Iface::Fce, &mut |b| {
            let mut r = FceRun::new(&*cfg, &st.data);
            for x in b {
                r.feed(x)?;
            }
            r.feed(st.data.len())?;
            check(&s.spec, &r)?;
            Ok(r.edges)
        });
    });
    per_wide(&mut v, ctx, move |w, s, st| {
        let cfg = (s.mk)();
        wide_schedules(w, &s.spec, st, Iface::Fce, &mut |b| {
            let mut r = FceRun::new(&*cfg, &st.data);
            for x in b {
                r.feed(x)?;
            }
            r.feed(st.data.len())?;
            check(&s.spec, &r)?;
            Ok(r.edges)
        });
    });
    v
}

// ---------------------------------------------------------------- C11..C20

/// Conformance with the definition of one algorithm.
pub fn conform(ctx: &Ctx, alg: &'static str) -> Vec<Job> {
    let mut v = vec![];
    let mine = |s: &Subj| s.spec.alg() == alg;
    let cap = ctx.pick(300_000u64, 5_000_000);
    let subs: Vec<Subj> = small().into_iter().filter(mine).collect();
    per_strings(&mut v, "model", subs.clone(), move |s| depth_for(s.alpha.len(), cap), |w, s, d, _| {
        let cfg = (s.mk)();
        w.exec(&|| hex(d), 0, &mut |_| {
            let mut last = vec![];
            for iface in Iface::BOTH {
                let want = ref_edges(&s.spec, iface, d);
                for step in [usize::MAX, 1] {
                    let e = stepped(&*cfg, iface, d, step.min(d.len().max(1)))?;
                    eq(&e, &want, &format!("{}, step {step}, against the definition", iface.name()))?;
                }
                last = want;
            }
            Ok(last)
        })
    });
    let extra = ctx.pick(0, 2);
    per_strings(&mut v, "model-all-schedules", subs.clone(), move |s| s.e1 + extra, |w, s, d, _| {
        let cfg = (s.mk)();
        let wi = ref_edges(&s.spec, Iface::Incr, d);
        let wf = ref_edges(&s.spec, Iface::Fce, d);
        w.exec(&|| format!("incr {}", hex(d)), 0, &mut |ch| {
            let e = incr_slices(&*cfg, d, ch)?;
            eq(&e, &wi, "incr against the definition")?;
            Ok(e)
        }) && w.exec(&|| format!("fce {}", hex(d)), 0, &mut |ch| {
            let e = fce_sched(&*cfg, d, ch, false)?;
            eq(&e, &wf, "fce against the definition")?;
            Ok(e)
        })
    });
    let nodes = ctx.pick(15_000, 300_000);
    for s in subs.clone() {
        for iface in Iface::BOTH {
            let s = s.clone();
            job(&mut v, format!("closure/{}/{}", s.id, iface.name()), move |w| {
                closure(w, &s, Kind::Sliced(iface), Kind::Ref(iface), &s.alpha, 2, nodes, 80)
            });
        }
    }
    // all 256 byte values, from every state, where the state space is small
    let bytes: Vec<u8> = (0..=255u8).collect();
    let mut full: Vec<Subj> = vec![];
    match alg {
        "pigz" => {
            for b in 0..=ctx.pick(9, 12) {
                full.push(subject(&format!("pigz-{b}"), Spec::Pigz { bits: b }, &bytes, 0));
            }
        }
        "mii" => {
            for w in 1..=ctx.pick(6u64, 12) {
                full.push(subject(&format!("mii-{w}"), Spec::Mii { w }, &bytes, 0));
            }
        }
        "ram" => {
            for w in [0u64, 1, 2, 3, 5] {
                full.push(subject(&format!("ram-{w}"), Spec::Ram { w }, &bytes, 0));
            }
        }
        "gzip" => {
            for (w, m) in [(1usize, 1u64), (1, 2), (1, 256), (1, 255)] {
                full.push(subject(&format!("gzip-{w}-{m}"), Spec::Gzip { w, m }, &bytes, 0));
            }
        }
        "bup" => full.push(subject("bup-1", Spec::Bup { w: 1 }, &bytes, 0)),
        "buzhash" => {
            full.push(subject("buz-1", Spec::Buz { k: 1, mask: 7, max: 5, h: go_table() }, &bytes, 0));
        }
        _ => {}
    }
    let full_nodes = ctx.pick(1600, 80_000);
    for s in full {
        for iface in Iface::BOTH {
            let s = s.clone();
            // RAM counts up to the end of a chunk that may never come
            let depth = if alg == "ram" { 9 } else { 80 };
            job(&mut v, format!("closure256/{}/{}", s.id, iface.name()), move |w| {
                closure(w, &s, Kind::Sliced(iface), Kind::Ref(iface), &s.alpha, 1, full_nodes, depth)
            });
        }
    }
    per_stream(&mut v, ctx, "streams", all().into_iter().filter(mine).chain(more_subjects(alg)).collect(), |w, s, st| {
        let cfg = (s.mk)();
        for iface in Iface::BOTH {
            let want = ref_edges(&s.spec, iface, &st.data);
            let pts = pts_for(st) / 2;
            stream_schedules(w, &s.spec, st, iface, pts, &mut |b| {
                let e = with_bounds(&*cfg, iface, &st.data, b)?;
                eq(&e, &want, "against the definition")?;
                Ok(e)
            });
        }
    });
    per_mega(&mut v, ctx, mega_subjects().into_iter().filter(mine).collect(), |w, s, st| {
        let cfg = (s.mk)();
        for iface in Iface::BOTH {
            let want = ref_edges(&s.spec, iface, &st.data);
            mega_schedules(w, st, iface, &mut |b| {
                let e = with_bounds(&*cfg, iface, &st.data, b)?;
                eq(&e, &want, "against the definition")?;
                Ok(e)
            });
        }
    });
    per_runs(&mut v, ctx, all().into_iter().filter(mine).chain(more_subjects(alg)).collect(), |w, s, d, a, b| {
        let cfg = (s.mk)();
        w.exec(&|| format!("run {a}..{b} in {}", hex(d)), 0, &mut |_| {
            let mut last = vec![];
            for iface in Iface::BOTH {
                let want = ref_edges(&s.spec, iface, d);
                eq(&whole(&*cfg, iface, d)?, &want, &format!("{}, against the definition", iface.name()))?;
                eq(&with_bounds(&*cfg, iface, d, &mut [a, b].into_iter())?, &want, &format!("{}, cut at the run, against the definition", iface.name()))?;
                last = want;
            }
            Ok(last)
        })
    });
    per_large(&mut v, ctx, all().into_iter().filter(mine).chain(more_subjects(alg)).collect(), |w, s, d, name, bounds| {
        let cfg = (s.mk)();
        Iface::BOTH.into_iter().all(|iface| {
            w.exec(&|| format!("{name}/{}", iface.name()), 0, &mut |_| {
                let want = ref_edges(&s.spec, iface, d);
                let e = with_bounds(&*cfg, iface, d, &mut bounds.iter().copied())?;
                eq(&e, &want, "against the definition")?;
                Ok(e)
            })
        })
    });
    // every byte value at every phase: each of the 256 values decides edges
    for s in all().into_iter().filter(mine).chain(more_subjects(alg)) {
        let seed = ctx.seed;
        job(&mut v, format!("last-byte/{}", s.id), move |w| {
            // at chosen points of a stream, every one of the 256 next bytes
            let cfg = (s.mk)();
            let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 5);
            let crit = s.spec.critical_lens().into_iter().max().unwrap_or(1) as usize;
            let lens: Vec<usize> = gap_lens(&s.spec, 9000).into_iter().chain([crit.min(9000) + 40]).collect();
            let mut heads: Vec<Vec<u8>> = vec![vec![]];
            for l in lens {
                let mut k = Crafter::new(&s.spec, Iface::Fce, seed + l as u64);
                k.silence(l);
                heads.push(k.out);
            }
            c.silence(crit.min(5000) + 100);
            heads.push(c.out);
            let mut hits = 0u64;
            for (hi, h) in heads.iter().enumerate() {
                for iface in Iface::BOTH {
                    let mut r = RefM::new(&s.spec, iface);
                    let mut hd = vec![];
                    for (i, b) in h.iter().enumerate() {
                        r.feed_at(i, *b, &mut hd);
                    }
                    if !w.exec(&|| format!("head{hi} of {}/{}", h.len(), iface.name()), 0, &mut |ch| {
                        let b = ch.choose(256) as u8;
                        let mut d = h.clone();
                        d.push(b);
                        let mut want = hd.clone();
                        let ev = r.peek(b);
                        match ev {
                            Ev::No => {}
                            Ev::After => want.push(h.len() + 1),
                            Ev::Before => want.push(h.len()),
                        }
                        if ev != Ev::No {
                            hits += 1;
                        }
                        let e = with_bounds(&*cfg, iface, &d, &mut std::iter::once(h.len()))?;
                        eq(&e, &want, &format!("last byte {b}, against the definition"))?;
                        Ok(e)
                    }) {
                        return;
                    }
                }
            }
            w.note = format!("{} heads x 256 last bytes x 2 interfaces, {hits} edges", heads.len());
        });
    }
    match alg {
        "bup" => crate::extra::c11(ctx, &mut v),
        "buzhash" => crate::extra::c12(ctx, &mut v),
        "fastcdc" => crate::extra::c13(ctx, &mut v),
        _ => {}
    }
    crate::extra::far(&mut v, ctx.seed, |s| s.spec.alg() == alg, crate::extra::far_conforms);
    crate::extra::ahead(&mut v, ctx.seed, None, |s| s.spec.alg() == alg, crate::extra::far_conforms);
    v
}

pub const ALGS: [&str; 10] = ["bup", "buzhash", "fastcdc", "gear", "gzip", "mii", "pigz", "ram", "zpaq", "zstd"];

/// The further parameter values of all algorithms.
pub fn wide() -> Vec<Subj> {
    ALGS.iter().flat_map(|a| more_subjects(a)).collect()
}

/// A few dozen schedules of the streams of the further parameter values.
pub fn wide_schedules(
    w: &mut Worker,
    spec: &Spec,
    st: &Stream,
    iface: Iface,
    f: &mut dyn FnMut(&mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String>,
) -> bool {
    let n = st.data.len();
    let mut steps = vec![1usize, 2, 3, 7, 16, 33, 64, 100, 257, 1000, 4096];
    for c in spec.critical_lens() {
        let c = c as usize;
        steps.extend([c.saturating_sub(1), c, c + 1, c / 2 + 1, 2 * c + 1]);
    }
    steps.retain(|s| *s > 0 && *s < n);
    steps.sort();
    steps.dedup();
    for s in steps {
        if !w.exec(&|| format!("{}/{}/step{s}", st.name, iface.name()), 0, &mut |_| f(&mut (1..).map(|i| i * s).take_while(|b| *b < n))) {
            return false;
        }
    }
    for c in critical_positions(spec, st, 12) {
        if !w.exec(&|| format!("{}/{}/at{c}", st.name, iface.name()), 0, &mut |_| f(&mut std::iter::once(c)))
            || !w.exec(&|| format!("{}/{}/bytes@{c}", st.name, iface.name()), 0, &mut |_| f(&mut (c..n.min(c + 40))))
        {
            return false;
        }
    }
    true
}

/// Runs `f` on the streams of all further parameter values, some values per job.
fn per_wide(v: &mut Vec<Job>, ctx: &Ctx, f: impl Fn(&mut Worker, &Subj, &Stream) + Send + Sync + Clone + 'static) {
    per_stream(v, ctx, "wide", wide(), f)
}

/// Runs `f` on streams with runs of one byte in them; it gets the stream and the bounds of the run.
fn per_runs(v: &mut Vec<Job>, ctx: &Ctx, subs: Vec<Subj>, f: impl Fn(&mut Worker, &Subj, &[u8], usize, usize) -> bool + Send + Sync + Clone + 'static) {
    let seed = ctx.seed;
    for s in subs {
        let f = f.clone();
        job(v, format!("runs/{}", s.id), move |w| {
            runs(&s, seed, &mut |d, a, b| f(w, &s, d, a, b));
        });
    }
}

/// Slow by definition in long streams.
fn slow(s: &Subj) -> bool {
    s.spec.window().unwrap_or(0) >= 4000 && s.spec.alg() != "gzip"
}

/// Runs `f` on a stream of short chunks, much data, and short chunks again, whole and in large pieces.
fn per_large(
    v: &mut Vec<Job>,
    ctx: &Ctx,
    subs: Vec<Subj>,
    f: impl Fn(&mut Worker, &Subj, &[u8], &str, &[usize]) -> bool + Send + Sync + Clone + 'static,
) {
    let seed = ctx.seed;
    for s in subs.into_iter().filter(|s| !slow(s)) {
        let f = f.clone();
        job(v, format!("large/{}", s.id), move |w| {
            let st = large(&s, seed);
            let n = st.data.len();
            for step in [usize::MAX, 100_000, 65_537, 65_536, 70_001] {
                let b: Vec<usize> = (1..).map(|i: usize| i.saturating_mul(step)).take_while(|b| *b < n).collect();
                if !f(w, &s, &st.data, &format!("step{step}"), &b) {
                    return;
                }
            }
            for c in [1, st.marks[0] - 1, st.marks[0], n - 100_000] {
                if !f(w, &s, &st.data, &format!("at{c}"), &[c]) {
                    return;
                }
            }
        });
    }
}

/// Configurations and streams for slices and buffers of megabytes.
pub fn mega_subjects() -> Vec<Subj> {
    // (a window of 4095 takes the definition too long)
    let mut v: Vec<Subj> = bigs().into_iter().filter(|s| s.spec.window().unwrap_or(0) < 4000 || s.spec.alg() == "gzip").collect();
    v.push(subject("mega-buz-k16", Spec::Buz { k: 16, mask: 0xffff, max: u64::MAX, h: go_table() }, &[], 0));
    v.push(subject("mega-fast", Spec::Fast { gear: gear64(), min: 100_000, normal: 700_000, max: 1_500_000 }, &[], 0));
    v.push(subject("mega-fast-skip", Spec::Fast { gear: gear64(), min: 1_100_000, normal: 1_100_000, max: 1 << 40 }, &[], 0));
    v.push(subject("mega-gear", Spec::Gear { log2: 20 }, &[], 0));
    v.push(subject("mega-gzip", Spec::Gzip { w: 100_000, m: 100_003 }, &[], 0));
    v.push(subject("mega-ram", Spec::Ram { w: 1_100_000 }, &[], 0));
    v.push(subject("mega-zpaq", Spec::Zpaq { avg: 20, lo: std::ops::Bound::Included(70_000), hi: std::ops::Bound::Excluded(1_500_000) }, &[], 0));
    v.push(subject("mega-pigz", Spec::Pigz { bits: 20 }, &[], 0));
    v
}

fn mega_streams(s: &Subject, seed: u64) -> Vec<Stream> {
    let mut rng = Prng::new(seed + 77);
    let mut a = rng.bytes(2_300_000);
    a.extend(rng.bytes(1));
    // long stretches of one value and of ramps between random ones
    let mut b = rng.bytes(200_000);
    b.extend(vec![0u8; 1_150_000]);
    b.extend(rng.bytes(100_000));
    b.extend(vec![255u8; 300_000]);
    b.extend((0..300_000u32).map(|i| !(i / 5) as u8));
    b.extend(rng.bytes(100_000));
    let mut v = vec![("mega-random", a), ("mega-mixed", b)];
    // no edge for more than a megabyte, where there is such data
    if s.spec.limits().1.unwrap_or(u64::MAX) > 1_200_000 {
        let mut c = Crafter::new(&s.spec, Iface::Fce, seed + 78);
        let slow = matches!(&*s.spec, Spec::Fast { .. } | Spec::Zpaq { .. });
        c.silence(if slow { 300_000 } else { 1_200_000 });
        let mut d = c.out;
        d.extend(rng.bytes(100_000));
        v.push(("mega-quiet", d));
    }
    v.into_iter().map(|(n, d)| Stream { name: n.into(), data: Arc::new(d), marks: vec![] }).collect()
}

fn mega_schedules(
    w: &mut Worker,
    st: &Stream,
    iface: Iface,
    f: &mut dyn FnMut(&mut dyn Iterator<Item = usize>) -> Result<Vec<usize>, String>,
) -> bool {
    let n = st.data.len();
    for s in [usize::MAX, 1 << 21, (1 << 20) + 1, 1 << 20, (1 << 20) - 1, 600_001, 131_072, 65_537, 65_536, 1] {
        if !w.exec(&|| format!("{}/{}/step{s}", st.name, iface.name()), 0, &mut |_| f(&mut (1..).map(|i: usize| i.saturating_mul(s)).take_while(|b| *b < n))) {
            return false;
        }
    }
    for c in [1usize, 1000, 70_000, n.saturating_sub(1_060_000), n - 1] {
        if c < n && !w.exec(&|| format!("{}/{}/at{c}", st.name, iface.name()), 0, &mut |_| f(&mut std::iter::once(c))) {
            return false;
        }
    }
    true
}

fn per_mega(v: &mut Vec<Job>, ctx: &Ctx, subs: Vec<Subj>, f: impl Fn(&mut Worker, &Subj, &Stream) + Send + Sync + Clone + 'static) {
    let seed = ctx.seed;
    for s in subs {
        let f = f.clone();
        job(v, format!("mega/{}", s.id), move |w| {
            let mut info = vec![];
            for st in &mega_streams(&s, seed) {
                info.push(format!("{}:{}B", st.name, st.data.len()));
                f(w, &s, st);
                if w.stopped() {
                    break;
                }
            }
            w.note = info.join(" ");
        });
    }
}

/// Further parameter values, on streams only.
pub fn more_subjects(alg: &str) -> Vec<Subj> {
    use std::ops::Bound::*;
    let mut v: Vec<Subj> = vec![];
    let mut add = |id: String, s: Spec| v.push(subject(&id, s, &[], 0));
    match alg {
        "bup" => {
            for w in (1usize..=70).chain([80, 95, 96, 97, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 5000]) {
                add(format!("m-bup-{w}"), Spec::Bup { w });
            }
        }
        "buzhash" => {
            for k in (1..=70usize).chain([95, 96, 97, 127, 128, 129, 255, 256, 257, 1000]) {
                add(format!("m-buz-{k}"), Spec::Buz { k, mask: 0xff, max: 1 << 24, h: go_table() });
            }
            for salt in [0u8, 1, 2, 3, 7, 0x0f, 0x10, 0x55, 0x7f, 0x80, 0xaa, 0xf0, 0xfe, 0xff] {
                add(format!("m-buz-salt{salt}"), Spec::Buz { k: 20, mask: 0x3f, max: 1 << 24, h: go_salted(salt) });
            }
            // limits out of reach, whose lower bits are not
            for max in [1u64 << 32, (1 << 32) + 20, (1 << 48) + 7, (1 << 63) + 1, u64::MAX - 1, u64::MAX] {
                add(format!("m-buz-max{max:x}"), Spec::Buz { k: 16, mask: 0xff, max, h: go_table() });
            }
            for (mask, max) in [(0u32, 10u64), (1, 10), (0x8000_0000, 50), (0xc000_0003, 100), (0xffff, 300), (u32::MAX, 77), (0xff, 1000)] {
                add(format!("m-buz-m{mask:x}-{max}"), Spec::Buz { k: 16, mask, max, h: go_table() });
            }
        }
        "fastcdc" => {
            for (a, b, c) in [
                (1u64, 64u64, 300u64), (10, 10, 50), (63, 64, 65), (64, 65, 66), (64, 128, 4096), (0, 0, 1000), (1, 2, 3), (500, 501, 2000), (0, 1000, 1001),
                (1, 4000, 4000), (256, 1024, 8192), (127, 128, 129), (255, 256, 257), (16, 70_000, 70_001), (65_535, 65_536, 65_537),
                // limits out of reach, whose lower bits are not
                (8, 64, 1 << 32), (8, 64, (1 << 32) + 100), (8, 1 << 32, 1 << 33), (8, (1 << 32) + 20, (1 << 32) + 30), (8, 64, u64::MAX), (8, u64::MAX, u64::MAX),
                ((1 << 32) + 4, (1 << 32) + 64, (1 << 32) + 200),
            ] {
                add(format!("m-fast-{a}-{b}-{c}"), Spec::Fast { gear: gear64(), min: a, normal: b, max: c });
            }
            for (a, b, c) in [(3u64, 10u64, 40u64), (64, 100, 300), (0, 5, 20)] {
                add(format!("m-fasts-{a}-{b}-{c}"), Spec::Fast { gear: small_gear(), min: a, normal: b, max: c });
            }
        }
        "gear" => {
            for l in 1..=18u32 {
                add(format!("m-gear-{l}"), Spec::Gear { log2: l });
            }
        }
        "gzip" => {
            for (w, m) in [
                (1usize, 3u64), (2, 2), (7, 16), (8, 10), (16, 100), (63, 64), (64, 63), (100, 1), (255, 256), (256, 255), (1000, 777), (4096, 4096), (8191, 4096), (10, 1_000_000), (3, 1 << 32), (20, (1 << 32) + 500), (20, (1 << 40) + 7), (5, u64::MAX), (300, 65_536), (129, 127), (128, 256),
            ] {
                add(format!("m-gzip-{w}-{m}"), Spec::Gzip { w, m });
            }
        }
        "mii" => {
            for w in (6..=12u64).chain([16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 254, 255, 256, 257, 259, (1 << 32) + 3, u64::MAX]) {
                add(format!("m-mii-{w}"), Spec::Mii { w });
            }
        }
        "pigz" => {
            for bits in 5..=31u32 {
                add(format!("m-pigz-{bits}"), Spec::Pigz { bits });
            }
        }
        "ram" => {
            for w in [4u64, 7, 8, 15, 16, 100, 255, 256, 257, 1000, 65535, 65536, (1 << 32) + 5, u64::MAX - 1, u64::MAX] {
                add(format!("m-ram-{w}"), Spec::Ram { w });
            }
        }
        "zpaq" => {
            for avg in 0..=16u32 {
                add(format!("m-zpaq-{avg}"), Spec::Zpaq { avg, lo: Unbounded, hi: Unbounded });
            }
            for (avg, lo, hi) in [
                (4u32, Included(16u64), Included(64u64)), (4, Excluded(16), Excluded(64)), (4, Included(16), Unbounded), (4, Unbounded, Excluded(64)),
                (6, Excluded(1), Unbounded), (6, Included(63), Excluded(65)), (8, Included(256), Included(257)), (3, Included(0), Included(0)), (3, Included(5), Included(5)),
                (3, Included(6), Excluded(6)), (5, Included(1), Included(65536)), (12, Included(300), Included(70_000)),
                // limits out of reach, whose lower bits are not
                (5, Included((1 << 32) + 40), Included((1 << 32) + 60)), (5, Included(16), Included((1 << 32) + 64)), (5, Excluded(16), Excluded((1 << 32) + 64)),
                (5, Unbounded, Included(1 << 32)), (5, Included(1 << 32), Unbounded), (5, Included(10), Included(u64::MAX)), (5, Included(10), Excluded(u64::MAX)), (5, Excluded(u64::MAX), Unbounded),
            ] {
                add(format!("m-zpaq-{avg}-{lo:?}-{hi:?}"), Spec::Zpaq { avg, lo, hi });
            }
        }
        "zstd" => {
            for bits in [21u32, 22] {
                add(format!("m-zstd-{bits}"), Spec::Zstd { bits });
            }
        }
        _ => {}
    }
    v
}
