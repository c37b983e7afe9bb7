//! Explicit-state / stateless model checker for hash-roll: enumerates streams,
//! schedules, histories and configurations, and runs the real code on every
//! one of them.
//!
//!   mc check ID quick|thorough     explore, write evidence
//!   mc replay FILE                 run one recorded counterexample again
//!   mc solo ...                    (internal) one stream in a process of its own

mod closure;
#[cfg(feature = "cov")]
mod cost;
mod craft;
mod drive;
mod engine;
mod eq;
mod extra;
mod isolate;
mod plat;
mod props;
mod refm;
mod subj;
mod tables;

use engine::{Ctx, Job, JobRow as Row, Violation};
use refm::Iface;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
    "C21", "C22", "C23", "C24", "C25", "C26",
];

fn jobs(ctx: &Ctx) -> Result<Vec<Job>, String> {
    Ok(match ctx.prop.as_str() {
        "C01" => props::c01_c02(ctx, Iface::Incr),
        "C02" => props::c01_c02(ctx, Iface::Fce),
        "C03" => props::c03(ctx),
        "C04" => props::c04(ctx),
        "C05" => props::c05(ctx),
        "C06" => props::c06(ctx),
        "C07" => props::c07(ctx),
        "C08" => props::c08(ctx),
        "C09" => isolate::c09(ctx)?,
        "C10" => props::c10(ctx),
        "C11" => props::conform(ctx, "bup"),
        "C12" => props::conform(ctx, "buzhash"),
        "C13" => props::conform(ctx, "fastcdc"),
        "C14" => extra::c14(ctx),
        "C15" => props::conform(ctx, "gzip"),
        "C16" => props::conform(ctx, "mii"),
        "C17" => props::conform(ctx, "pigz"),
        "C18" => props::conform(ctx, "ram"),
        "C19" => props::conform(ctx, "zpaq"),
        "C20" => extra::c20(ctx),
        "C21" => extra::c21(ctx),
        "C22" => eq::c22(ctx),
        "C23" => extra::c23(ctx),
        "C24" => plat::c24(ctx)?,
        #[cfg(feature = "cov")]
        "C25" => cost::jobs(ctx, cost::What::Memory),
        #[cfg(feature = "cov")]
        "C26" => cost::jobs(ctx, cost::What::Work),
        x => panic!("unknown property {x}"),
    })
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(ctx: &Ctx, v: &Violation) -> PathBuf {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.replay", ctx.prop));
    let mut t = String::new();
    t.push_str(&format!("property {}\n", ctx.prop));
    t.push_str(&format!("tier {}\n", if ctx.thorough { "thorough" } else { "quick" }));
    t.push_str(&format!("seed {}\n", ctx.seed));
    t.push_str(&format!("job {}\n", v.job));
    t.push_str(&format!("exec {}\n", v.exec));
    t.push_str(&format!("choices {}\n", v.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    t.push_str(&format!("message {}\n", v.msg.replace('\n', " ")));
    t.push_str("# mc replay runs exactly this execution again; the calls it makes:\n");
    for l in &v.trace {
        t.push_str(&format!("# {l}\n"));
    }
    let _ = std::fs::write(&p, t);
    p
}

/// Entries "finding: property=ID key=KEY text" of the committed list.
fn findings(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut w = r.splitn(3, ' ');
            let (p, k, text) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            if p == format!("property={prop}") {
                v.push((k.trim_start_matches("key=").to_string(), text.to_string()));
            }
        }
    }
    v
}

struct Report {
    wall: f64,
    violation: Option<Violation>,
}

fn write_evidence(ctx: &Ctx, r: &Report, known: &[String]) {
    let rows = ctx.rows.lock().unwrap();
    let (mut st, mut tr, mut ex, mut ed, mut we, mut oc) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut incomplete = vec![];
    for x in rows.iter() {
        st += x.st.states;
        tr += x.st.transitions;
        ex += x.st.executions;
        ed += x.st.edges;
        we += x.st.with_edges;
        oc += x.st.outcomes;
        if !x.complete {
            incomplete.push(x.name.clone());
        }
    }
    let mut samples: Vec<String> = ctx.samples.lock().unwrap().iter().map(|s| jstr(s)).collect();
    if samples.is_empty() {
        samples.push(jstr("none recorded"));
    }
    let assumptions = [
        "bounds: exhaustive within the streams, schedules, configurations and depths listed under jobs (one row per family here; every job in evidence/<id>.jobs.tsv); beyond them only where a closure is marked closed",
        "closures identify states by the Debug output of the real state plus the bytes the caller retains",
        "crate compiled with debug assertions and overflow checks, so wrapping by accident shows up as a panic",
    ];
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!("\"property\": {},\n", jstr(&ctx.prop)));
    o.push_str(&format!("\"tier\": \"{}\",\n", if ctx.thorough { "thorough" } else { "quick" }));
    o.push_str(&format!("\"seed\": {},\n", ctx.seed));
    o.push_str("\"level\": \"model_checking\",\n");
    o.push_str("\"coverage\": {\n");
    o.push_str(&format!("  \"states\": {st},\n  \"transitions\": {tr},\n  \"traces_validated_against_impl\": {ex},\n"));
    o.push_str(&format!("  \"executions_with_edges\": {we},\n  \"edges_seen\": {ed},\n  \"distinct_outcomes\": {oc},\n"));
    o.push_str(&format!("  \"exhaustive\": {},\n", incomplete.is_empty()));
    o.push_str(&format!(
        "  \"not_exhausted_jobs\": {},\n  \"not_exhausted\": [{}],\n",
        incomplete.len(),
        incomplete.iter().take(60).map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str("  \"meaning\": \"states: nodes of the choice trees, and distinct states of the closures; transitions: calls into the code under test; traces_validated_against_impl: complete executions, every one of which runs the real code and is checked against the oracle\",\n");
    // one row per family of jobs; every single job is in the file beside it
    let mut fam: Vec<(String, Vec<&Row>)> = vec![];
    for x in rows.iter() {
        let f = x.name.split('/').next().unwrap_or("").to_string();
        match fam.iter_mut().find(|g| g.0 == f) {
            Some(g) => g.1.push(x),
            None => fam.push((f, vec![x])),
        }
    }
    let most = (36 / fam.len().max(1)).clamp(1, 6);
    o.push_str("  \"jobs\": [\n");
    o.push_str(
        &fam.iter()
            .map(|(f, v)| {
                let sum = |g: &dyn Fn(&Row) -> u64| v.iter().map(|x| g(x)).sum::<u64>();
                // the largest jobs of the family, with what they report
                let mut big = v.clone();
                big.sort_by_key(|x| std::cmp::Reverse(x.st.transitions));
                let eg = big
                    .iter()
                    .take(most)
                    .map(|x| {
                        format!(
                            "{{\"job\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"outcomes\": {}, \"complete\": {}, \"note\": {}}}",
                            jstr(&x.name),
                            x.st.executions,
                            x.st.states,
                            x.st.transitions,
                            x.st.outcomes,
                            x.complete,
                            jstr(&x.note.chars().take(400).collect::<String>())
                        )
                    })
                    .collect::<Vec<_>>()
                    .join(", ");
                format!(
                    "    {{\"family\": {}, \"jobs\": {}, \"complete\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"outcomes\": {}, \"secs\": {:.2}, \"largest\": [{eg}]}}",
                    jstr(f),
                    v.len(),
                    v.iter().filter(|x| x.complete).count(),
                    sum(&|x| x.st.executions),
                    sum(&|x| x.st.states),
                    sum(&|x| x.st.transitions),
                    sum(&|x| x.st.outcomes),
                    v.iter().map(|x| x.secs).sum::<f64>()
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    let mut tsv = String::from("job\texecutions\tstates\ttransitions\toutcomes\tcomplete\tsecs\tnote\n");
    for x in rows.iter() {
        tsv.push_str(&format!(
            "{}\t{}\t{}\t{}\t{}\t{}\t{:.2}\t{}\n",
            x.name,
            x.st.executions,
            x.st.states,
            x.st.transitions,
            x.st.outcomes,
            x.complete,
            x.secs,
            x.note.replace(['\n', '\t'], " ")
        ));
    }
    o.push_str("\n  ],\n");
    o.push_str(&format!("  \"samples\": [\n    {}\n  ]\n}},\n", samples.join(",\n    ")));
    o.push_str(&format!("\"known_findings\": [{}],\n", known.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("\"violations\": {},\n", r.violation.is_some() as u32));
    o.push_str(&format!("\"assumptions\": [{}],\n", assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!("\"wall_s\": {:.2}\n}}\n", r.wall));
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", ctx.prop)), o).expect("evidence");
    std::fs::write(dir.join(format!("{}.jobs.tsv", ctx.prop)), tsv).expect("evidence");
}

fn check(prop: &str, thorough: bool, replay: Option<(String, String, Vec<u32>)>, seed: u64) -> i32 {
    let start = Instant::now();
    let cap = std::env::var("MC_CAP_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 720 } else { 200 });
    let mut ctx = Ctx::new(prop, thorough, seed, Duration::from_secs(cap));
    let is_replay = replay.is_some();
    ctx.replay = replay;
    let finish = |ctx: &Ctx, v: Option<Violation>| -> i32 {
        let mut v = v;
        let listed = findings(prop);
        let mut known = vec![];
        for (k, n) in ctx.known.lock().unwrap().iter() {
            match listed.iter().find(|l| l.0 == *k) {
                Some((_, text)) => known.push(format!("{text} [{n} executions]")),
                None => {
                    if v.is_none() {
                        v = Some(Violation { job: "known".into(), exec: k.clone(), choices: vec![], msg: format!("{k}, which is not listed as a known finding"), trace: vec![] });
                    }
                }
            }
        }
        let r = Report { wall: start.elapsed().as_secs_f64(), violation: v };
        if !is_replay {
            write_evidence(ctx, &r, &known);
        }
        for k in &known {
            println!("KNOWN-FINDING: property={prop} {k}");
        }
        match &r.violation {
            Some(v) => {
                println!("{}: {}", v.job, v.exec);
                println!("  {}", v.msg);
                for l in v.trace.iter().take(if is_replay { 400 } else { 30 }) {
                    println!("    {l}");
                }
                let p = if is_replay { Path::new("-").to_path_buf() } else { write_replay(ctx, v) };
                println!("VIOLATION property={prop} replay={}", p.display());
                1
            }
            None => {
                if !is_replay {
                    let rows = ctx.rows.lock().unwrap();
                    let ex: u64 = rows.iter().map(|x| x.st.executions).sum();
                    let un = rows.iter().filter(|x| !x.complete).count();
                    println!(
                        "{prop} held: {} jobs, {ex} executions, {:.1} s{}",
                        rows.len(),
                        start.elapsed().as_secs_f64(),
                        if un > 0 { format!("; {un} jobs stopped at a bound (see evidence)") } else { String::new() }
                    );
                }
                0
            }
        }
    };
    let js = match jobs(&ctx) {
        Ok(j) => j,
        Err(m) => return finish(&ctx, Some(Violation { job: "setup".into(), exec: String::new(), choices: vec![], msg: m, trace: vec![] })),
    };
    let mut threads: usize = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 8);
    if prop == "C09" {
        // streams must not run beside one another here, other than as scheduled
        threads = 1;
    }
    let hang = Duration::from_secs(60);
    let on_hang = |v: Violation| {
        // the thread cannot be stopped: report and leave
        let c = finish(&ctx, Some(v));
        std::process::exit(c);
    };
    ctx.run(js, threads, hang, &on_hang);
    let v = {
        let mut vs = ctx.viol.lock().unwrap();
        vs.sort_by_key(|v| (v.trace.len(), v.exec.len()));
        vs.first().cloned()
    };
    finish(&ctx, v)
}

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let code = match args.first().map(|x| x.as_str()) {
        Some("solomade") => {
            isolate::solomade_main(&args[1..]);
            0
        }
        Some("solo") => {
            isolate::solo_main(&args[1..]);
            0
        }
        Some("check") if args.len() == 3 && IDS.contains(&args[1].as_str()) => check(&args[1], args[2] == "thorough", None, seed),
        Some("replay") if args.len() == 2 => {
            let t = std::fs::read_to_string(&args[1]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} ")).or(if l == k { Some("") } else { None })).unwrap_or("").to_string();
            let choices = get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
            let c = check(&get("property"), get("tier") == "thorough", Some((get("job"), get("exec"), choices)), get("seed").parse().unwrap_or(1));
            println!("recorded: {}", get("message"));
            c
        }
        Some("prepare") => match plat::prepare() {
            Ok(()) => 0,
            Err(m) => {
                eprintln!("{m}");
                1
            }
        },
        _ => {
            eprintln!("usage: mc check ID quick|thorough, mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
