//! C09: streams do not influence one another.

use crate::craft::{first_stream, Prng};
use crate::drive::*;
use crate::engine::{caught, trace, Ctx, Job, Worker};
use crate::props::{job, strings, wide};
use crate::refm::{ref_edges, Iface};
use crate::subj::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::Arc;

/// A stream to be processed through one interface in a few calls.
#[derive(Clone)]
pub struct Task {
    pub s: Subj,
    pub iface: Iface,
    pub data: Arc<Vec<u8>>,
    pub bounds: Vec<usize>,
    /// edges found by a process that did nothing else
    pub solo: Vec<usize>,
}

/// Of the further parameter values.
fn is_wide(s: &Subj) -> bool {
    s.id.starts_with("m-")
}

fn task_data(s: &Subj, seed: u64) -> Vec<u8> {
    if is_wide(s) {
        let st = first_stream(s, seed);
        let end = st.marks.iter().filter(|m| **m > 40).nth(2).copied().unwrap_or(st.data.len()) + 20;
        st.data[..end.min(st.data.len()).min(5_000)].to_vec()
    } else if !s.big {
        // a short stream over the letters with a few edges
        let mut best = vec![];
        let mut n = 0;
        for i in 0..400 {
            let mut r = Prng::new(seed + i);
            let len = 18 + (i as usize % 7);
            let d: Vec<u8> = (0..len).map(|_| s.alpha[(r.next() % s.alpha.len() as u64) as usize]).collect();
            let e = ref_edges(&s.spec, Iface::Fce, &d);
            let m = e.len();
            if (n == 0 && best.is_empty()) || (m > n && m <= 3) {
                n = m;
                best = d;
            }
        }
        best
    } else {
        let st = first_stream(s, seed);
        // up to a little beyond its third edge
        let end = st.marks.iter().filter(|m| **m > 200).nth(2).copied().unwrap_or(st.data.len()) + 50;
        st.data[..end.min(st.data.len()).min(40_000)].to_vec()
    }
}

pub fn run_task(cfg: &dyn Cfg, t: &Task) -> Result<Vec<usize>, String> {
    with_bounds(cfg, t.iface, &t.data, &mut t.bounds.iter().copied())
}

/// `mc solo ID IFACE BOUNDS` with the stream on stdin.
pub fn solo_main(args: &[String]) {
    let id = &args[0];
    let iface = if args[1] == "incr" { Iface::Incr } else { Iface::Fce };
    let bounds: Vec<usize> = args[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut data = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut data).unwrap();
    let s = all().into_iter().chain(wide()).find(|s| s.id == *id).unwrap();
    let cfg = (s.mk)();
    match caught(|| with_bounds(&*cfg, iface, &data, &mut bounds.iter().copied())) {
        Ok(e) => println!("OK {}", e.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        Err(m) => println!("ERR {m}"),
    }
}

/// `mc solomade SEED N`: the edges of one constructor's stream.
pub fn solomade_main(args: &[String]) {
    let m = crate::extra::made(args[0].parse().unwrap(), Some(args[1].parse().unwrap())).remove(0);
    let cfg = (m.mk)();
    for i in Iface::BOTH {
        match caught(|| m.edges(&*cfg, i)) {
            Ok(e) => println!("OK {}", e.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Err(m) => println!("ERR {m}"),
        }
    }
}

fn solomade(seed: u64, n: usize) -> Result<[Vec<usize>; 2], String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = Command::new(exe).args(["solomade", &seed.to_string(), &n.to_string()]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
    let o = String::from_utf8_lossy(&o.stdout).to_string();
    let v: Vec<Vec<usize>> = o
        .lines()
        .filter_map(|l| l.strip_prefix("OK"))
        .map(|x| x.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .collect();
    v.try_into().map_err(|_| format!("on its own: {}", o.trim()))
}

fn solo(t: &Task) -> Result<Vec<usize>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe)
        .args(["solo", &t.s.id, t.iface.name(), &t.bounds.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    c.stdin.take().unwrap().write_all(&t.data).map_err(|e| e.to_string())?;
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let o = String::from_utf8_lossy(&o.stdout).to_string();
    match o.trim_end().strip_prefix("OK") {
        Some(x) => Ok(x.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
        None => Err(format!("on its own: {}", o.trim())),
    }
}

/// f(0), ..., f(n - 1), eight at a time
fn parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new((0..n).map(|_| None).collect::<Vec<Option<T>>>());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let r = f(i);
                res.lock().unwrap()[i] = Some(r);
            });
        }
    });
    res.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

pub fn tasks(seed: u64) -> Result<Vec<Task>, String> {
    let subs: Vec<Subj> = all().into_iter().chain(wide()).filter(|s| s.id != "zstd-default").collect();
    let data = parallel(subs.len(), |i| Arc::new(task_data(&subs[i], seed)));
    let mut v = vec![];
    for (s, data) in subs.iter().zip(data) {
        let n = data.len();
        for iface in Iface::BOTH {
            v.push(Task { s: s.clone(), iface, data: data.clone(), bounds: vec![n / 5, n / 2, n - n / 7], solo: vec![] });
        }
    }
    let out = parallel(v.len(), |i| solo(&v[i]));
    for (t, r) in v.iter_mut().zip(out) {
        t.solo = r.map_err(|m| format!("{} {}: {m}", t.s.id, t.iface.name()))?;
    }
    Ok(v)
}

enum Run<'d> {
    I(IncrRun<'d>, usize),
    F(FceRun<'d>, usize),
}

impl<'d> Run<'d> {
    fn new(cfg: &dyn Cfg, t: &'d Task) -> Run<'d> {
        match t.iface {
            Iface::Incr => Run::I(IncrRun::new(cfg, &t.data), 0),
            Iface::Fce => Run::F(FceRun::new(cfg, &t.data), 0),
        }
    }
    /// One call; false when the stream is used up.
    fn step(&mut self, t: &Task) -> Result<bool, String> {
        let bound = |i: usize| t.bounds.get(i).copied().unwrap_or(t.data.len());
        match self {
            Run::I(r, b) => {
                if r.pos >= t.data.len() {
                    return Ok(false);
                }
                while bound(*b) <= r.pos {
                    *b += 1;
                }
                r.push(bound(*b))?;
                Ok(r.pos < t.data.len())
            }
            Run::F(r, b) => {
                let found = r.find(bound(*b))?;
                if !found {
                    if bound(*b) >= t.data.len() {
                        return Ok(false);
                    }
                    *b += 1;
                }
                Ok(true)
            }
        }
    }
    fn edges(&self) -> &[usize] {
        match self {
            Run::I(r, _) => &r.edges,
            Run::F(r, _) => &r.edges,
        }
    }
}

/// Both streams, call by call in every order with at most `switches` changes
/// from one to the other that are not due to a stream having ended (creating
/// the chunker is the first step of each).
fn pair(w: &mut Worker, a: &Task, b: &Task, ca: &dyn Cfg, cb: &dyn Cfg, tag: &str, switches: u32) -> bool {
    w.exec(&|| format!("{tag} {}/{} with {}/{}", a.s.id, a.iface.name(), b.s.id, b.iface.name()), switches, &mut |ch| {
        let mut ra: Option<Run<'_>> = None;
        let mut rb: Option<Run<'_>> = None;
        let (mut da, mut db) = (false, false);
        let mut turn_a = ch.choose(2) == 0;
        let mut fresh = true;
        while !da || !db {
            if da || db {
                turn_a = db;
            } else if !fresh && ch.dev(2) == 1 {
                turn_a = !turn_a;
            }
            fresh = false;
            if turn_a {
                trace(|| "A:".into());
                match &mut ra {
                    None => ra = Some(Run::new(ca, a)),
                    Some(r) => da = !r.step(a)?,
                }
            } else {
                trace(|| "B:".into());
                match &mut rb {
                    None => rb = Some(Run::new(cb, b)),
                    Some(r) => db = !r.step(b)?,
                }
            }
        }
        let (ra, rb) = (ra.unwrap(), rb.unwrap());
        if ra.edges() != a.solo {
            return Err(format!("stream A: edges {:?}, on its own {:?}", ra.edges(), a.solo));
        }
        if rb.edges() != b.solo {
            return Err(format!("stream B: edges {:?}, on its own {:?}", rb.edges(), b.solo));
        }
        let mut e = ra.edges().to_vec();
        e.extend(rb.edges());
        Ok(e)
    })
}

pub fn c09(ctx: &Ctx) -> Result<Vec<Job>, String> {
    let seed = ctx.seed;
    let ts = Arc::new(tasks(seed)?);
    let mut v = vec![];
    // one after another, in several orders, each with configurations old and new
    {
        let ts = ts.clone();
        job(&mut v, "sequences".into(), move |w| {
            let cfgs: Vec<Rc<dyn Cfg>> = ts.iter().map(|t| (t.s.mk)()).collect();
            let n = ts.len();
            let orders: Vec<(&str, Vec<usize>)> = vec![
                ("forward", (0..n).collect()),
                ("backward", (0..n).rev().collect()),
                ("stride", (0..n).map(|i| i * 7 % n).collect()),
                ("twice", (0..2 * n).map(|i| i / 2).collect()),
            ];
            for (name, o) in orders {
                for (pos, i) in o.into_iter().enumerate() {
                    let t = &ts[i];
                    if !w.exec(&|| format!("{name} number {pos}: {}/{}", t.s.id, t.iface.name()), 0, &mut |ch| {
                        let fresh;
                        let cfg: &dyn Cfg = if ch.choose(2) == 0 {
                            &*cfgs[i]
                        } else {
                            fresh = (t.s.mk)();
                            &*fresh
                        };
                        let e = run_task(cfg, t)?;
                        if e != t.solo {
                            return Err(format!("edges {e:?}, on its own {:?}", t.solo));
                        }
                        Ok(e)
                    }) {
                        return;
                    }
                }
            }
        });
    }
    // values made and used one after another
    {
        let list = Arc::new(crate::extra::made(seed, None));
        let alone = parallel(list.len(), |i| solomade(seed, i));
        let alone: Vec<[Vec<usize>; 2]> = alone.into_iter().enumerate().map(|(i, r)| r.map_err(|m| format!("{}: {m}", list[i].name))).collect::<Result<_, _>>()?;
        let alone = Arc::new(alone);
        crate::extra::made_pairs(&mut v, list, move |i, iface| alone[i][Iface::BOTH.iter().position(|x| *x == iface).unwrap()].clone());
    }
    // every pair of configurations of an algorithm and both interfaces
    let algs = ["bup", "buzhash", "fastcdc", "gear", "gzip", "mii", "pigz", "ram", "zpaq", "zstd"];
    let maxpair = ctx.pick(14usize, 60);
    let (sw_small, sw_large) = ctx.pick((4u32, 2u32), (6, 3));
    for alg in algs {
        let ts = ts.clone();
        job(&mut v, format!("pairs/{alg}"), move |w| {
            let mine: Vec<&Task> = ts.iter().filter(|t| t.s.spec.alg() == alg).collect();
            let small: Vec<&Task> = mine.iter().copied().filter(|t| !t.s.big && !is_wide(&t.s)).take(maxpair * 2).collect();
            let large: Vec<&Task> = mine.iter().copied().filter(|t| t.s.big).collect();
            for (set, sw) in [(&small, sw_small), (&large, sw_large)] {
                for i in 0..set.len() {
                    for j in i..set.len() {
                        let (a, b) = (set[i], set[j]);
                        let ca = (a.s.mk)();
                        if a.s.id == b.s.id {
                            // the same configuration object
                            if !pair(w, a, b, &*ca, &*ca, "shared configuration:", sw) {
                                return;
                            }
                            if let Some(cc) = ca.try_clone() {
                                if !pair(w, a, b, &*ca, &*cc, "cloned configuration:", sw) {
                                    return;
                                }
                            }
                        }
                        let cb = (b.s.mk)();
                        if !pair(w, a, b, &*ca, &*cb, "", sw) {
                            return;
                        }
                    }
                }
            }
        });
    }
    // further parameter values: each after, and interleaved with, each other
    for alg in algs {
        let ts = ts.clone();
        job(&mut v, format!("pairs-wide/{alg}"), move |w| {
            let mine: Vec<(&Task, Rc<dyn Cfg>)> = ts.iter().filter(|t| t.s.spec.alg() == alg && is_wide(&t.s)).map(|t| (t, (t.s.mk)())).collect();
            for (i, (a, ca)) in mine.iter().enumerate() {
                for (b, cb) in &mine[i..] {
                    if !pair(w, a, b, &**ca, &**cb, "", 1) {
                        return;
                    }
                }
            }
        });
    }
    // across algorithms
    {
        let ts = ts.clone();
        job(&mut v, "pairs/mixed".into(), move |w| {
            let sw = sw_small;
            let reps: Vec<&Task> = algs.iter().flat_map(|a| ts.iter().filter(|t| t.s.spec.alg() == *a).take(2).collect::<Vec<_>>()).collect();
            for i in 0..reps.len() {
                for j in i + 1..reps.len() {
                    let (a, b) = (reps[i], reps[j]);
                    if a.s.spec.alg() == b.s.spec.alg() {
                        continue;
                    }
                    let (ca, cb) = ((a.s.mk)(), (b.s.mk)());
                    if !pair(w, a, b, &*ca, &*cb, "", sw) {
                        return;
                    }
                }
            }
        });
    }
    // abandoned streams leave nothing behind
    {
        let ts = ts.clone();
        job(&mut v, "abandoned".into(), move |w| {
            for t in ts.iter() {
                let cfg = (t.s.mk)();
                let n = t.data.len();
                for cut in [1usize, 3, n / 3, n / 2, n - 1] {
                    if !w.exec(&|| format!("{}/{} after {cut} bytes", t.s.id, t.iface.name()), 0, &mut |ch| {
                        let other = Iface::BOTH[ch.choose(2)];
                        match other {
                            Iface::Incr => IncrRun::new(&*cfg, &t.data).push(cut)?,
                            Iface::Fce => FceRun::new(&*cfg, &t.data).find(cut)?,
                        };
                        let e = run_task(&*cfg, t)?;
                        if e != t.solo {
                            return Err(format!("edges {e:?}, on its own {:?}", t.solo));
                        }
                        Ok(e)
                    }) {
                        return;
                    }
                }
            }
        });
    }
    // clones at every point
    let plen = ctx.pick(5usize, 7);
    for s in small() {
        let cfg = (s.mk)();
        if cfg.incr().try_clone().is_none() && cfg.fce().try_clone().is_none() {
            continue;
        }
        job(&mut v, format!("clones/{}", s.id), move |w| {
            let cfg = (s.mk)();
            let tails: Vec<Vec<u8>> = {
                let mut t = vec![];
                let n = if s.alpha.len() == 2 { 4 } else { 3 };
                strings(&s.alpha, n, None, &mut |d| {
                    t.push(d.to_vec());
                    true
                });
                // windows longer than the prefix: extend by repetition
                let ext = s.spec.lookbehind().min(16);
                t.into_iter().map(|mut d| { let k = d.len(); for i in 0..ext { d.push(d[i % k]); } d }).collect()
            };
            let plen = if s.alpha.len() == 2 { plen + 5 } else { plen };
            strings(&s.alpha, plen, None, &mut |p| {
                // two different tails per prefix, going through all of them
                let k = p.iter().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(*b as usize));
                let (t1, t2) = (&tails[k % tails.len()], &tails[(k / 3 + 1) % tails.len()]);
                clone_case(w, &*cfg, p, t1, t2)
            });
        });
    }
    for s in wide() {
        let ts = ts.clone();
        job(&mut v, format!("clones/{}", s.id), move |w| {
            let cfg = (s.mk)();
            if cfg.incr().try_clone().is_none() && cfg.fce().try_clone().is_none() {
                return;
            }
            let d = ts.iter().find(|t| t.s.id == s.id).unwrap().data.clone();
            let mut r = Prng::new(seed + 9);
            let n = d.len();
            for cut in [0, 1, 2, 5, n / 4, n / 3, n / 2, n.saturating_sub(22), n.saturating_sub(21), n.saturating_sub(20), n.saturating_sub(19), n - 1] {
                let other = r.bytes(500);
                if !clone_case(w, &*cfg, &d[..cut.min(n)], &d[cut.min(n)..], &other) {
                    return;
                }
            }
        });
    }
    for s in bigs() {
        job(&mut v, format!("clones/{}", s.id), move |w| {
            let cfg = (s.mk)();
            if cfg.incr().try_clone().is_none() || s.id.starts_with("zstd") {
                return;
            }
            let d = task_data(&s, seed);
            let mut r = Prng::new(seed + 9);
            let n = d.len();
            for cut in [0, 1, 2, n / 4, n / 3, n / 2, n - 60, n - 51, n - 50, n - 49, n - 1] {
                let cut = cut.min(n);
                let other = r.bytes(3000);
                if !clone_case(w, &*cfg, &d[..cut], &d[cut..], &other) {
                    return;
                }
            }
        });
    }
    Ok(v)
}

fn clone_case(w: &mut Worker, cfg: &dyn Cfg, p: &[u8], t1: &[u8], t2: &[u8]) -> bool {
    let join = |t: &[u8]| [p, t].concat();
    let (d1, d2) = (join(t1), join(t2));
    let id = |k: &str| format!("{k}: {} then {} / {}", hex(p), hex(t1), hex(t2));
    let base = caught(|| Ok((whole(cfg, Iface::Incr, &d1)?, whole(cfg, Iface::Incr, &d2)?, whole(cfg, Iface::Fce, &d1)?, whole(cfg, Iface::Fce, &d2)?)));
    let (i1, i2, f1, f2) = match base {
        Ok(x) => x,
        Err(m) => {
            w.violate(id("alone"), vec![], m, vec![]);
            return false;
        }
    };
    w.exec(&|| id("incr"), 0, &mut |ch| {
        let mut a = IncrRun::new(cfg, &d1);
        a.feed(p.len())?;
        let Some(c) = a.i.try_clone() else { return Ok(vec![]) };
        let mut b = IncrRun { i: c, data: &d2, pos: a.pos, edges: a.edges.clone() };
        // original first, clone first, or alternating; or one of them dropped
        match ch.choose(5) {
            0 => {
                a.feed(d1.len())?;
                b.feed(d2.len())?;
            }
            1 => {
                b.feed(d2.len())?;
                a.feed(d1.len())?;
            }
            2 => {
                let m = d1.len().max(d2.len());
                for k in p.len() + 1..=m {
                    if k <= d1.len() {
                        a.feed(k)?;
                    }
                    if k <= d2.len() {
                        b.feed(k)?;
                    }
                }
            }
            3 => {
                drop(a);
                b.feed(d2.len())?;
                return if b.edges == i2 { Ok(b.edges) } else { Err(format!("clone: edges {:?}, a chunker fed the same {:?}", b.edges, i2)) };
            }
            _ => {
                drop(b);
                a.feed(d1.len())?;
                return if a.edges == i1 { Ok(a.edges) } else { Err(format!("original: edges {:?}, a chunker fed the same {:?}", a.edges, i1)) };
            }
        }
        if a.edges != i1 {
            return Err(format!("original: edges {:?}, a chunker fed the same {:?}", a.edges, i1));
        }
        if b.edges != i2 {
            return Err(format!("clone: edges {:?}, a chunker fed the same {:?}", b.edges, i2));
        }
        Ok(a.edges)
    }) && w.exec(&|| id("fce"), 0, &mut |ch| {
        let mut a = FceRun::new(cfg, &d1);
        a.feed(p.len())?;
        let Some(c) = a.f.try_clone() else { return Ok(vec![]) };
        let mut b = FceRun { f: c, data: &d2, base: a.base, end: a.end, edges: a.edges.clone(), on_call: None, max_kept: 0, max_kept_edge: 0 };
        if ch.choose(2) == 0 {
            a.feed(d1.len())?;
            b.feed(d2.len())?;
        } else {
            b.feed(d2.len())?;
            a.feed(d1.len())?;
        }
        if a.edges != f1 {
            return Err(format!("original: edges {:?}, a search of the same {:?}", a.edges, f1));
        }
        if b.edges != f2 {
            return Err(format!("clone: edges {:?}, a search of the same {:?}", b.edges, f2));
        }
        Ok(a.edges)
    })
}
