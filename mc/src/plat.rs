//! C24: the same edges in every build and on every platform. The cases made
//! here are run by /verif/plat, built from the library for each of them.

use crate::craft::{critical_positions, first_stream, streams, Prng, Stream};
use crate::engine::{alive, Ctx, Job, Worker};
use crate::props::{job, wide};
use crate::refm::Spec;
use crate::subj::*;
use std::ops::Bound;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Instant;

struct Case {
    name: String,
    bytes: Vec<u8>,
}

/// A variant of the build, and how to run it.
struct Variant {
    name: &'static str,
    what: &'static str,
    /// runs the big list of cases (otherwise the small one)
    fast: bool,
    shards: usize,
    /// one of so many cases in the quick check (0: none)
    quick: usize,
}

/// What Miri runs a variant as.
fn triple(variant: &str) -> Option<&'static str> {
    Some(match variant {
        "s390x" => "s390x-unknown-linux-gnu",
        "powerpc" => "powerpc-unknown-linux-gnu",
        "aarch64" => "aarch64-unknown-linux-gnu",
        "i686-windows" => "i686-pc-windows-gnu",
        "riscv64" => "riscv64gc-unknown-linux-gnu",
        "aarch64-macos" => "aarch64-apple-darwin",
        _ => return None,
    })
}

const REFERENCE: &str = "x86_64-checked";
const VARIANTS: &[Variant] = &[
    Variant { name: "x86_64-release", what: "64-bit little-endian, optimised, without debug assertions and overflow checks", fast: true, shards: 2, quick: 1 },
    Variant { name: "wasm32", what: "32-bit little-endian, optimised, run by node", fast: true, shards: 3, quick: 1 },
    Variant { name: "s390x", what: "64-bit big-endian, run by Miri", fast: false, shards: 3, quick: 2 },
    Variant { name: "powerpc", what: "32-bit big-endian, run by Miri", fast: false, shards: 4, quick: 1 },
    Variant { name: "aarch64", what: "64-bit ARM, run by Miri", fast: false, shards: 2, quick: 3 },
    Variant { name: "i686-windows", what: "32-bit x86, Windows, run by Miri", fast: false, shards: 4, quick: 0 },
    Variant { name: "riscv64", what: "64-bit RISC-V, run by Miri", fast: false, shards: 4, quick: 0 },
    Variant { name: "aarch64-macos", what: "64-bit ARM, macOS, run by Miri", fast: false, shards: 4, quick: 0 },
];

fn put_bytes(o: &mut Vec<u8>, d: &[u8]) {
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
}
fn put_bound(o: &mut Vec<u8>, b: &Bound<u64>) {
    let (k, v) = match b {
        Bound::Included(v) => (0u8, *v),
        Bound::Excluded(v) => (1, *v),
        Bound::Unbounded => (2, 0),
    };
    o.push(k);
    o.extend(v.to_le_bytes());
}

fn cfg_bytes(spec: &Spec) -> Vec<u8> {
    let mut o = vec![];
    match spec {
        Spec::Bup { w } => {
            o.push(1);
            o.extend((*w as u64).to_le_bytes());
        }
        Spec::Buz { k, mask, max, h } => {
            o.push(3);
            o.extend((*k as u64).to_le_bytes());
            o.extend(mask.to_le_bytes());
            o.extend(max.to_le_bytes());
            h.iter().for_each(|x| o.extend(x.to_le_bytes()));
        }
        Spec::Fast { gear, min, normal, max } => {
            o.push(5);
            gear.iter().for_each(|x| o.extend(x.to_le_bytes()));
            [min, normal, max].iter().for_each(|x| o.extend(x.to_le_bytes()));
        }
        Spec::Gear { log2 } => {
            o.push(7);
            o.extend((*log2 as u64).to_le_bytes());
        }
        Spec::Gzip { w, m } => {
            o.push(9);
            o.extend((*w as u64).to_le_bytes());
            o.extend(m.to_le_bytes());
        }
        Spec::Mii { w } => {
            o.push(11);
            o.extend(w.to_le_bytes());
        }
        Spec::Pigz { bits } => o.extend([13, *bits as u8]),
        Spec::Ram { w } => {
            o.push(14);
            o.extend(w.to_le_bytes());
        }
        Spec::Zpaq { avg, lo, hi } => {
            o.extend([19, *avg as u8]);
            put_bound(&mut o, lo);
            put_bound(&mut o, hi);
        }
        Spec::Zstd { bits } => {
            o.push(21);
            o.extend((1u64 << bits).to_le_bytes());
        }
    }
    o
}

/// The default constructors, by subject.
fn default_of(id: &str) -> Option<Vec<u8>> {
    Some(match id {
        "bup-default" => vec![0],
        "buz-nom0" => vec![2, 0],
        "buz-nom-salt" => vec![2, 0x5a],
        "fast-default" => vec![4],
        "gear-default" => vec![6],
        "gzip-default" => vec![8],
        "mii-default" => vec![10],
        "pigz-default" => vec![12],
        "zpaq-default" => vec![15],
        "zpaq-10" => vec![16, 10],
        "zstd-default" => vec![20],
        _ => return None,
    })
}

fn all_streams(name: String, cfg: &[u8], alpha: &[u8], n: usize, scheds: bool) -> Case {
    let mut b = cfg.to_vec();
    b.push(0);
    put_bytes(&mut b, alpha);
    b.extend([n as u8, scheds as u8]);
    Case { name: format!("{name}/{n} letters{}", if scheds { ", all schedules" } else { "" }), bytes: b }
}

fn one_stream(name: String, cfg: &[u8], d: &[u8], lists: &[Vec<usize>]) -> Case {
    let mut b = cfg.to_vec();
    b.push(1);
    put_bytes(&mut b, d);
    b.extend((lists.len() as u32).to_le_bytes());
    for l in lists {
        b.extend((l.len() as u32).to_le_bytes());
        l.iter().for_each(|x| b.extend((*x as u32).to_le_bytes()));
    }
    Case { name, bytes: b }
}

fn constant(name: String, cfg: &[u8], b: u8, n: u32, step: u32) -> Case {
    let mut o = cfg.to_vec();
    o.extend([2, b]);
    o.extend(n.to_le_bytes());
    o.extend(step.to_le_bytes());
    Case { name: format!("{name}/{n} bytes of {b}"), bytes: o }
}

fn every(n: usize, step: usize) -> Vec<usize> {
    (1..).map(|i: usize| i.saturating_mul(step)).take_while(|e| *e < n).collect()
}

/// The longest n with letters^n within `most`, up to `cap`.
fn reach(letters: usize, most: usize, cap: usize) -> usize {
    (1..=cap).take_while(|n| letters.pow(*n as u32) <= most).last().unwrap_or(1)
}

/// The constructors working out parameters.
fn sized() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for p in 10..=24u8 {
        v.push((format!("zpaq with_average_size_pow_2({p})"), vec![16, p]));
    }
    for m in (0u64..=40).chain([63, 64, 65, 100, 127, 128, 255, 256, 1000, 4096, 5000, 65536, 100_000, 1 << 20, 20_000_000, 1 << 31, 1 << 32, (1 << 32) + 300, 1 << 33]) {
        let mut b = vec![17];
        b.extend(m.to_le_bytes());
        v.push((format!("zpaq with_max_size({m})"), b));
    }
    use Bound::*;
    for (lo, hi) in [
        (Included(16u64), Included(1024u64)), (Included(16), Excluded(1025)), (Excluded(15), Included(1023)), (Unbounded, Included(64)), (Unbounded, Excluded(64)),
        (Included(16), Unbounded), (Excluded(16), Unbounded), (Unbounded, Unbounded), (Included(100), Included(5000)), (Included(16), Included((1 << 32) + 64)),
        (Included((1 << 32) + 5), Unbounded), (Unbounded, Excluded(1 << 33)), (Included(1 << 58), Unbounded), (Included(u64::MAX), Unbounded),
    ] {
        let mut b = vec![18];
        put_bound(&mut b, &lo);
        put_bound(&mut b, &hi);
        v.push((format!("zpaq with_range({lo:?}, {hi:?})"), b));
    }
    for k in 0..31u32 {
        for s in [1u64 << (20 + k), (1 << (20 + k)) + (1 << 19)] {
            let mut b = vec![21];
            b.extend(s.to_le_bytes());
            v.push((format!("zstd with_target_section_size({s})"), b));
        }
    }
    for l in 1..=31u64 {
        let mut b = vec![7];
        b.extend(l.to_le_bytes());
        v.push((format!("gear with_average_size_log2({l})"), b));
    }
    v
}

fn parallel<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(x) = items.get(i) else { break };
                let r = f(x);
                out.lock().unwrap().push((i, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// Cases for the fast variants and for the slow ones.
fn cases(ctx: &Ctx) -> (Vec<Case>, Vec<Case>) {
    let seed = ctx.seed;
    let t = ctx.thorough;
    let mut jobs: Vec<(Subj, bool)> = all().into_iter().map(|s| (s, false)).collect();
    jobs.extend(wide().into_iter().map(|s| (s, true)));
    let made = parallel(&jobs, |(s, wide)| {
        let (mut fast, mut slow) = (vec![], vec![]);
        let cfg = cfg_bytes(&s.spec);
        let mut cfgs = vec![(s.id.clone(), cfg)];
        if let Some(b) = default_of(&s.id) {
            cfgs.push((format!("{} by its constructor", s.id), b));
        }
        for (ci, (name, cfg)) in cfgs.iter().enumerate() {
            if !s.alpha.is_empty() {
                let a = &s.alpha;
                for n in 1..=reach(a.len(), if t { 3000 } else { 300 }, 10) {
                    fast.push(all_streams(name.clone(), cfg, a, n, true));
                }
                fast.push(all_streams(name.clone(), cfg, a, reach(a.len(), if t { 600_000 } else { 20_000 }, 16), false));
                let two = &a[..2];
                for n in 1..=if t { 4 } else { 3 } {
                    slow.push(all_streams(name.clone(), cfg, two, n, true));
                }
                slow.push(all_streams(name.clone(), cfg, a, reach(a.len(), if t { 100 } else { 16 }, 8), false));
            }
            // crafted streams
            let sts: Vec<Stream> = if *wide || ci > 0 { vec![first_stream(s, seed)] } else { streams(s, seed, 1) };
            for (i, st) in sts.iter().enumerate() {
                let n = st.data.len();
                let mut lists: Vec<Vec<usize>> = [usize::MAX, 3, 64, 1000, 65_536].iter().filter(|x| **x > 10 || n < 30_000).map(|x| every(n, *x)).collect();
                lists.extend(critical_positions(&s.spec, st, if t { 20 } else { 6 }).into_iter().map(|c| vec![c]));
                fast.push(one_stream(format!("{name}/{}", st.name), cfg, &st.data, &lists));
                if i == 0 {
                    let far = if t { 20_000 } else { 800 };
                    let end = st.marks.iter().filter(|m| **m < far).nth(12).copied().unwrap_or(far) + 40;
                    let d = &st.data[..end.min(n)];
                    let lists = if t || !wide { vec![vec![], every(d.len(), 37)] } else { vec![every(d.len(), 37)] };
                    slow.push(one_stream(format!("{name}/start of {}", st.name), cfg, d, &lists));
                }
            }
        }
        (fast, slow)
    });
    let (mut fast, mut slow) = (vec![], vec![]);
    for (f, s) in made {
        fast.extend(f);
        slow.extend(s);
    }
    // constructors
    let mut d = Prng::new(seed + 91).bytes(60_000);
    for i in 20_000..40_000 {
        d[i] = (d[i] & 1) + b'a';
    }
    for (name, cfg) in sized() {
        fast.push(one_stream(name.clone(), &cfg, &d, &[vec![], every(d.len(), 1000)]));
        slow.push(one_stream(name.clone(), &cfg, &d[19_700..20_400], &[vec![]]));
        if cfg[0] < 21 {
            fast.push(constant(name, &cfg, b'x', 700_000, 70_001));
        }
    }
    // strings whose hash has a given number of ones, for all sizes
    let ones = crate::extra::trailing_ones(seed);
    for (name, cfg) in sized().into_iter().filter(|x| x.1[0] == 21) {
        for (n, d) in &ones {
            fast.push(one_stream(format!("{name}/{n} ones"), &cfg, d, &[]));
        }
        for (n, d) in ones.iter().step_by(3) {
            slow.push(one_stream(format!("{name}/{n} ones"), &cfg, d, &[vec![]]));
        }
    }
    // the maximum of the default
    fast.push(constant("buz-nom".into(), &[2, 0], b'x', (1 << 24) + 300, 1 << 20));
    (fast, slow)
}

fn file_of(cases: &[&Case]) -> Vec<u8> {
    let mut o = (cases.len() as u32).to_le_bytes().to_vec();
    for c in cases {
        put_bytes(&mut o, &c.bytes);
    }
    o
}

struct Place {
    plat: PathBuf,
    build: PathBuf,
    work: PathBuf,
}

/// Runs a command with its output in a file, until `until`.
fn run(c: &mut Command, log: &Path, until: Instant) -> Result<String, String> {
    let f = std::fs::File::create(log).map_err(|e| e.to_string())?;
    let g = f.try_clone().map_err(|e| e.to_string())?;
    let mut p = c.stdin(Stdio::null()).stdout(f).stderr(g).spawn().map_err(|e| format!("{c:?}: {e}"))?;
    loop {
        alive();
        match p.try_wait() {
            Ok(Some(s)) => {
                let t = std::fs::read_to_string(log).unwrap_or_default();
                return if s.success() { Ok(t) } else { Err(format!("{s}\n{t}")) };
            }
            Ok(None) => {}
            Err(e) => return Err(e.to_string()),
        }
        if Instant::now() > until {
            let _ = p.kill();
            let _ = p.wait();
            return Err("timeout".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

impl Place {
    fn cargo(&self, variant: &str, args: &[&str]) -> Command {
        let mut c = Command::new("cargo");
        c.args(args).current_dir(&self.plat).env("CARGO_NET_OFFLINE", "true").env("CARGO_TARGET_DIR", self.build.join(variant));
        c.env_remove("RUSTFLAGS").env_remove("CARGO_ENCODED_RUSTFLAGS").env_remove("RUSTUP_TOOLCHAIN");
        if triple(variant).is_some() {
            c.env("XDG_CACHE_HOME", self.build.join(format!("{variant}-sysroot")));
            c.env("MIRIFLAGS", "-Zmir-opt-level=4 -Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks");
        }
        c
    }
    /// The sources of the standard library's dependencies, with those of the library, as one directory.
    fn vendor(&self) -> Result<PathBuf, String> {
        let v = self.build.join("vendor");
        let script = r#"set -e
mkdir -p "$1"
s=$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor
for d in "$s"/*; do ln -sfn "$d" "$1/$(basename "$d")"; done
cargo metadata --offline --locked --format-version 1 --filter-platform wasm32-unknown-unknown >/dev/null
awk '/^name = /{n=$3} /^version = /{v=$3} /^checksum = /{gsub(/"/,"",n);gsub(/"/,"",v);gsub(/"/,"",$3);print n, v, $3}' Cargo.lock | while read n v sum; do
  f=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/"$n-$v" | head -1)
  mkdir -p "$1/$n-$v"
  cp -r "$f/." "$1/$n-$v/"
  echo "{\"files\":{},\"package\":\"$sum\"}" >"$1/$n-$v/.cargo-checksum.json"
done
"#;
        let mut c = Command::new("bash");
        c.args(["-c", script, "-"]).arg(&v).current_dir(&self.plat);
        run(&mut c, &self.work.join("vendor.log"), Instant::now() + std::time::Duration::from_secs(300))?;
        Ok(v)
    }
    fn build(&self, variant: &str) -> Result<(), String> {
        let until = Instant::now() + std::time::Duration::from_secs(600);
        let log = self.work.join(format!("{variant}.build.log"));
        let mut c = match variant {
            "x86_64-checked" => self.cargo("native", &["build", "--offline", "--locked", "--bin", "plat", "--profile", "checked"]),
            "x86_64-release" => self.cargo("native-release", &["build", "--offline", "--locked", "--bin", "plat", "--release"]),
            "wasm32" => {
                let v = self.vendor()?;
                let mut c = self.cargo("wasm32", &["+nightly", "build", "--offline", "--release", "--lib", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort"]);
                c.args(["--config", "source.crates-io.replace-with=\"v\"", "--config"]).arg(format!("source.v.directory={:?}", v.display().to_string()));
                c
            }
            m => {
                // a run over no cases
                let f = self.work.join(format!("{m}.none"));
                std::fs::write(&f, 0u32.to_le_bytes()).map_err(|e| e.to_string())?;
                let mut c = self.cargo(m, &["+nightly", "miri", "run", "--offline", "--bin", "plat", "--target", triple(m).unwrap(), "--", "digest"]);
                c.arg(&f).arg(self.work.join(format!("{m}.none.out")));
                c
            }
        };
        run(&mut c, &log, until).map(|_| ())
    }
    /// The command that runs a variant.
    fn command(&self, variant: &str) -> Command {
        match variant {
            "x86_64-checked" => Command::new(self.build.join("native/checked/plat")),
            "x86_64-release" => Command::new(self.build.join("native-release/release/plat")),
            "wasm32" => {
                let mut c = Command::new("node");
                c.arg(self.plat.join("run.mjs")).arg(self.build.join("wasm32/wasm32-unknown-unknown/release/plat.wasm"));
                c
            }
            m => self.cargo(m, &["+nightly", "miri", "run", "-q", "--offline", "--bin", "plat", "--target", triple(m).unwrap(), "--"]),
        }
    }
    /// The digests, and whether there was time for all of them.
    fn digests(&self, variant: &str, tag: &str, file: &Path, until: Instant) -> Result<(Vec<String>, bool), String> {
        let out = self.work.join(format!("{tag}.out"));
        let _ = std::fs::remove_file(&out);
        let mut c = self.command(variant);
        c.arg("digest").arg(file).arg(&out);
        let done = match run(&mut c, &self.work.join(format!("{tag}.log")), until) {
            Ok(_) => true,
            Err(m) if m == "timeout" => false,
            Err(m) => return Err(m),
        };
        let t = std::fs::read_to_string(&out).unwrap_or_default();
        let whole = t.rfind('\n').map_or("", |e| &t[..e]);
        Ok((whole.lines().map(|x| x.to_string()).collect(), done))
    }
    fn text(&self, variant: &str, file: &Path, n: usize) -> Vec<String> {
        let mut c = self.command(variant);
        c.arg("text").arg(file).arg(n.to_string());
        let until = Instant::now() + std::time::Duration::from_secs(100);
        match run(&mut c, &self.work.join(format!("{variant}.text")), until) {
            Ok(t) => t.lines().filter(|l| !l.starts_with("warning:")).map(|x| x.to_string()).collect(),
            Err(m) => vec![m],
        }
    }
}

fn cut(s: &str) -> String {
    if s.len() > 900 {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}..", &s[..e])
    } else {
        s.to_string()
    }
}

fn place() -> Result<Arc<Place>, String> {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let build = verif.join(".build/plat");
    let p = Arc::new(Place { plat: verif.join("plat"), work: build.join("work"), build });
    std::fs::create_dir_all(&p.work).map_err(|e| e.to_string())?;
    Ok(p)
}

/// Builds everything beforehand, so that the check has less to build.
pub fn prepare() -> Result<(), String> {
    let p = place()?;
    for n in std::iter::once(REFERENCE).chain(VARIANTS.iter().filter(|v| v.quick > 0).map(|v| v.name)) {
        p.build(n).map_err(|m| format!("{n}: {m}"))?;
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) -> Result<Vec<Job>, String> {
    let p = place()?;
    let variants: Vec<&'static Variant> = VARIANTS.iter().filter(|v| ctx.thorough || v.quick > 0).collect();
    let names: Vec<&'static str> = std::iter::once(REFERENCE).chain(variants.iter().map(|v| v.name)).collect();
    // builds, beside the cases being made
    let (built, (fast, slow)) = std::thread::scope(|s| {
        let h: Vec<_> = names.iter().map(|n| (*n, s.spawn(|| p.build(n)))).collect();
        let c = cases(ctx);
        (h.into_iter().map(|(n, h)| (n, h.join().unwrap())).collect::<Vec<_>>(), c)
    });
    for (n, r) in built {
        if let Err(m) = r {
            if n != REFERENCE && m.contains("could not compile `hash-roll`") {
                return Err(format!("the library does not compile for {n}: {m}"));
            }
            eprintln!("mc: {n} cannot be built:\n{m}");
            std::process::exit(2);
        }
    }
    let mut v = vec![];
    let of = |var: &Variant| if ctx.thorough { 4 } else { var.shards };
    // by turns, so that there is something of each if time is short
    for k in 0..4 {
        for var in variants.iter().copied().filter(|x| k < of(x)) {
            let list = if var.fast { &fast } else { &slow };
            let some = if ctx.thorough { 1 } else { var.quick };
            let mine: Vec<&Case> = list.iter().step_by(some).skip(k).step_by(of(var)).collect();
            let file = p.work.join(format!("{}-{k}.cases", var.name));
            std::fs::write(&file, file_of(&mine)).map_err(|e| e.to_string())?;
            let names: Vec<String> = mine.iter().map(|c| c.name.clone()).collect();
            let (p, deadline) = (p.clone(), ctx.deadline);
            job(&mut v, format!("{}/{k}", var.name), move |w| shard(w, &p, var, k, &file, &names, deadline));
        }
    }
    Ok(v)
}

fn shard(w: &mut Worker, p: &Place, var: &Variant, k: usize, file: &Path, names: &[String], until: Instant) {
    w.note = format!("{} cases; {}", names.len(), var.what);
    let get = |variant: &str, tag: String| match p.digests(variant, &tag, file, until) {
        Ok(x) => x,
        Err(m) => {
            eprintln!("mc: {variant}: {m}");
            std::process::exit(2);
        }
    };
    let (want, done1) = get(REFERENCE, format!("{}-{k}-ref", var.name));
    let (got, done2) = get(var.name, format!("{}-{k}", var.name));
    let n = want.len().min(got.len()).min(names.len());
    if !(done1 && done2) {
        w.complete = false;
        w.note += &format!("; compared {n} of them in time");
    } else if want.len() != names.len() || got.len() != names.len() {
        eprintln!("mc: {}: {} and {} results for {} cases", var.name, want.len(), got.len(), names.len());
        std::process::exit(2);
    }
    let mut edges = 0;
    for (i, n) in names.iter().enumerate().take(n) {
        if want[i] != got[i] {
            let (a, b) = (p.text(REFERENCE, file, i), p.text(var.name, file, i));
            let d = (0..a.len().max(b.len())).find(|j| a.get(*j) != b.get(*j));
            let line = |x: &[String]| d.and_then(|d| x.get(d)).map_or("nothing".to_string(), |l| cut(l));
            let msg = format!("{n}: {} gives other edges than {REFERENCE}", var.name);
            w.violate(n.clone(), vec![], msg, vec![format!("{REFERENCE}: {}", line(&a)), format!("{}: {}", var.name, line(&b))]);
            return;
        }
        let f: Vec<u64> = got[i].split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if let [h, streams, runs, e, calls] = f[..] {
            w.st.states += streams;
            w.st.executions += runs;
            w.st.transitions += calls;
            edges += e;
            w.outcome(&[h as usize]);
        }
    }
    w.st.edges = edges;
    let _ = std::fs::remove_file(file);
    w.sample(|| format!("{}: {}", names[0], got[0]));
}
