//! The explorer: enumerates choice sequences depth first, runs the real code on
//! every one of them, on all cores, and records what was covered.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
const SLOTS: usize = 64;
static PROGRESS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

/// Counts one call into the code under test.
#[inline]
pub fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        PROGRESS[s].fetch_add(1, Relaxed);
    }
}
/// The explorer itself is busy: no call to wait for.
pub fn alive() {
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        PROGRESS[s].fetch_add(1, Relaxed);
    }
}
pub fn tracing() -> bool {
    TRACE.with(|t| t.borrow().is_some())
}
pub fn trace(f: impl FnOnce() -> String) {
    TRACE.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            if v.len() < 400 {
                v.push(f());
            }
        }
    })
}

/// Source of the nondeterminism of one execution.
pub struct Chooser {
    pre: Vec<u32>,
    log: Vec<(u32, u32, bool)>,
    budget: u32,
    diverged: bool,
}

impl Chooser {
    fn new(pre: Vec<u32>, budget: u32) -> Self {
        Chooser { pre, log: vec![], budget, diverged: false }
    }
    /// any of 0..n
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.take(n as u32, false)
    }
    /// 0, or one of 1..n at the cost of one deviation
    pub fn dev(&mut self, n: usize) -> usize {
        if n <= 1 || self.budget == 0 {
            return 0;
        }
        let r = self.take(n as u32, true);
        if r > 0 {
            self.budget -= 1;
        }
        r
    }
    fn take(&mut self, n: u32, dev: bool) -> usize {
        let p = self.log.len();
        let pick = if p < self.pre.len() { self.pre[p] } else { 0 };
        if pick >= n {
            self.diverged = true;
        }
        let pick = pick.min(n - 1);
        self.log.push((pick, n, dev));
        pick as usize
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub exec: String,
    pub choices: Vec<u32>,
    pub msg: String,
    pub trace: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub executions: u64,
    pub edges: u64,
    pub with_edges: u64,
    pub outcomes: u64,
}

pub struct JobRow {
    pub name: String,
    pub st: Stats,
    pub note: String,
    pub complete: bool,
    pub secs: f64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub deadline: Instant,
    pub stop: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub rows: Mutex<Vec<JobRow>>,
    pub samples: Mutex<Vec<String>>,
    pub known: Mutex<std::collections::BTreeMap<String, u64>>,
    pub replay: Option<(String, String, Vec<u32>)>,
    running: Mutex<Vec<(String, String)>>,
}

pub type Job = (String, Box<dyn Fn(&mut Worker) + Send + Sync>);

pub struct Worker<'c> {
    pub ctx: &'c Ctx,
    pub job: String,
    pub st: Stats,
    pub note: String,
    pub complete: bool,
    outcomes: HashSet<u64>,
    slot: usize,
    samples: u32,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, cap: Duration) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            deadline: Instant::now() + cap,
            stop: AtomicBool::new(false),
            viol: Mutex::new(vec![]),
            rows: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            known: Mutex::new(Default::default()),
            replay: None,
            running: Mutex::new(vec![]),
        }
    }

    /// q in the quick tier, t in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }

    pub fn run(&self, jobs: Vec<Job>, threads: usize, hang: Duration, on_hang: &(dyn Fn(Violation) + Sync)) {
        // the long ones first
        let mut jobs = jobs;
        jobs.sort_by_key(|j| !(j.0.starts_with("streams") || j.0.starts_with("edits") || j.0.contains("default-maximum") || j.0.contains("4GiB")));
        let jobs = &jobs;
        let next = AtomicUsize::new(0);
        let live = AtomicUsize::new(threads);
        *self.running.lock().unwrap() = vec![(String::new(), String::new()); threads];
        std::thread::scope(|s| {
            for slot in 0..threads {
                let (next, live) = (&next, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|x| x.set(slot));
                        loop {
                            let n = next.fetch_add(1, SeqCst);
                            if n >= jobs.len() || self.stop.load(SeqCst) {
                                break;
                            }
                            let (name, f) = &jobs[n];
                            if let Some((j, _, _)) = &self.replay {
                                if j != name {
                                    continue;
                                }
                            }
                            self.running.lock().unwrap()[slot] = (name.clone(), String::new());
                            let mut w = Worker {
                                ctx: self,
                                job: name.clone(),
                                st: Default::default(),
                                note: String::new(),
                                complete: true,
                                outcomes: HashSet::new(),
                                slot,
                                samples: 0,
                            };
                            CALLS.with(|c| c.set(0));
                            let t0 = Instant::now();
                            if Instant::now() > self.deadline {
                                w.complete = false;
                            } else if let Err(m) = caught(|| {
                                f(&mut w);
                                Ok(0)
                            }) {
                                w.violate("job".into(), vec![], m, vec![]);
                            }
                            w.st.transitions += CALLS.with(|c| c.get());
                            w.st.outcomes = w.outcomes.len() as u64;
                            self.running.lock().unwrap()[slot] = (String::new(), String::new());
                            self.rows.lock().unwrap().push(JobRow {
                                name: name.clone(),
                                st: w.st,
                                note: w.note,
                                complete: w.complete,
                                secs: t0.elapsed().as_secs_f64(),
                            });
                        }
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            let mut last = [(0u64, Instant::now()); SLOTS];
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for slot in 0..threads {
                    let p = PROGRESS[slot].load(Relaxed);
                    let r = self.running.lock().unwrap()[slot].clone();
                    if p != last[slot].0 || r.0.is_empty() {
                        last[slot] = (p, Instant::now());
                    } else if last[slot].1.elapsed() > if r.0.starts_with("slice-of-4GiB") { 8 * hang } else { hang } {
                        on_hang(Violation {
                            job: r.0,
                            exec: r.1,
                            choices: vec![],
                            msg: format!("a call does not return ({} s without progress)", last[slot].1.elapsed().as_secs()),
                            trace: vec![],
                        });
                    }
                }
            }
        });
    }
}

/// Runs f, turning a panic into an error.
pub fn caught<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Worker<'_> {
    pub fn stopped(&mut self) -> bool {
        if self.ctx.stop.load(Relaxed) {
            self.complete = false;
            return true;
        }
        if Instant::now() > self.ctx.deadline {
            self.complete = false;
            return true;
        }
        false
    }

    pub fn violate(&self, exec: String, choices: Vec<u32>, msg: String, trace: Vec<String>) {
        self.ctx.stop.store(true, SeqCst);
        self.ctx.viol.lock().unwrap().push(Violation { job: self.job.clone(), exec, choices, msg, trace });
    }

    pub fn outcome(&mut self, edges: &[usize]) {
        self.st.edges += edges.len() as u64;
        if !edges.is_empty() {
            self.st.with_edges += 1;
        }
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash(&edges));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples < 1 {
            self.samples += 1;
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(format!("{}: {}", self.job, f()));
            }
        }
    }

    pub fn known(&self, what: &str) {
        *self.ctx.known.lock().unwrap().entry(what.to_string()).or_insert(0) += 1;
    }

    /// Explores all executions of `f` (all choices, with at most `budget`
    /// deviations). Returns false when exploration has to stop.
    pub fn exec(
        &mut self,
        id: &dyn Fn() -> String,
        budget: u32,
        f: &mut dyn FnMut(&mut Chooser) -> Result<Vec<usize>, String>,
    ) -> bool {
        if let Some((_, want, choices)) = &self.ctx.replay {
            if *want != id() {
                return !self.stopped();
            }
            let (r, tr, _) = self.one(choices.clone(), budget, f, true);
            match r {
                Ok(e) => println!("replay: no violation; edges {:?}", &e[..e.len().min(40)]),
                Err(m) => self.violate(id(), choices.clone(), m, tr),
            }
            self.ctx.stop.store(true, SeqCst);
            return false;
        }
        let mut pre: Vec<u32> = vec![];
        let mut since_check = 0u64;
        self.ctx.running.lock().unwrap()[self.slot].1 = String::new();
        if budget == 0 || since_check == 0 {
            // cheap enough to name the execution for the watchdog only on demand
        }
        loop {
            let (r, _, ch) = self.one(std::mem::take(&mut pre), budget, f, false);
            self.st.executions += 1;
            let fresh = ch.log.len() + 1;
            self.st.states += fresh as u64;
            match r {
                Ok(e) => {
                    self.outcome(&e);
                    if !e.is_empty() {
                        self.sample(|| format!("{} choices {:?} edges {:?}", id(), picks(&ch), &e[..e.len().min(12)]));
                    }
                }
                Err(m) => {
                    let choices = picks(&ch);
                    // run it again: the same schedule has to fail the same way
                    let (r2, tr, _) = self.one(choices.clone(), budget, f, true);
                    let m = match r2 {
                        Err(m2) if m2 == m => m,
                        Err(m2) => format!("{m} (second run: {m2})"),
                        Ok(_) => format!("{m} (not seen on a second run of the same schedule in this process)"),
                    };
                    self.violate(id(), choices, m, tr);
                    return false;
                }
            }
            // next choice sequence
            let mut log = ch.log;
            let mut spent: u32 = log.iter().filter(|l| l.2 && l.0 > 0).count() as u32;
            loop {
                match log.pop() {
                    None => return !self.stopped(),
                    Some((p, n, dev)) => {
                        if dev && p > 0 {
                            spent -= 1;
                        }
                        if p + 1 < n && (!dev || spent < budget) {
                            pre = log.iter().map(|l| l.0).collect();
                            pre.push(p + 1);
                            // nodes of the common prefix have been counted already
                            self.st.states -= pre.len() as u64;
                            break;
                        }
                    }
                }
            }
            since_check += 1;
            if since_check % 64 == 0 && self.stopped() {
                return false;
            }
        }
    }

    fn one(
        &mut self,
        pre: Vec<u32>,
        budget: u32,
        f: &mut dyn FnMut(&mut Chooser) -> Result<Vec<usize>, String>,
        traced: bool,
    ) -> (Result<Vec<usize>, String>, Vec<String>, Chooser) {
        let want = pre.len();
        let mut ch = Chooser::new(pre, budget);
        if traced {
            TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
        }
        let mut r = caught(|| f(&mut ch));
        if r.is_ok() && (ch.diverged || ch.log.len() < want) {
            r = Err("replay divergence: the same choices led to a different execution".into());
        }
        let tr = if traced { TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default() } else { vec![] };
        (r, tr, ch)
    }
}

fn picks(c: &Chooser) -> Vec<u32> {
    c.log.iter().map(|l| l.0).collect()
}
