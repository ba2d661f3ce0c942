#![allow(dead_code)]
mod alloc_guard;
mod common;
mod engine;
mod fakegss;
mod props;
mod scramref;

use engine::{run_prop, Prop, Progress, RunCfg};
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc_guard::Guard = alloc_guard::Guard;

/// CPU seconds a single case may burn when it is run alone before it counts as never returning.
const ALONE_CPU_S: u64 = 60;

struct Env {
    seed: u64,
    tier: &'static str,
    dir: PathBuf,
    threads: usize,
    scale: f64,
}
fn env() -> Env {
    let get = |n: &str| std::env::var(n).ok();
    Env {
        seed: get("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        tier: if get("VERIF_TIER").as_deref() == Some("thorough") { "thorough" } else { "quick" },
        dir: PathBuf::from(get("VERIF_DIR").unwrap_or_else(|| "/verif".into())),
        threads: get("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
        scale: get("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

struct Known {
    sig: String,
    text: String,
}
/// Lines `known: property=<id> sig=<signature> <what fails>`; `fixed:` lines suppress nothing.
fn known_findings(e: &Env, id: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(e.dir.join("KNOWN_FINDINGS")) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (sig, text) = rest.strip_prefix("sig=")?.split_once(' ')?;
            (p == id).then(|| Known { sig: sig.to_string(), text: text.to_string() })
        })
        .collect()
}

fn replay_path(e: &Env, id: &str) -> PathBuf {
    let d = e.dir.join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{id}-{}-{}.json", e.tier, e.seed))
}
fn write_json(p: &PathBuf, v: &Value) -> bool {
    if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(p, serde_json::to_string_pretty(v).unwrap() + "\n").is_ok()
}

fn evidence(e: &Env, p: &Prop, wall: f64, violations: u64, cov: Value) -> bool {
    let v = json!({
        "property": p.id, "tier": e.tier, "seed": e.seed, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions, "wall_s": wall, "violations": violations,
    });
    write_json(&e.dir.join("evidence").join(format!("{}.json", p.id)), &v)
}

fn worker(id: &str, only: Option<(String, u64)>) -> u8 {
    let e = env();
    engine::install_panic_hook();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let known = known_findings(&e, id);
    let sigs: Vec<String> = known.iter().map(|k| k.sig.clone()).collect();
    let alone = only.is_some();
    let cfg = RunCfg { seed: e.seed, tier: e.tier, threads: e.threads, scale: e.scale, progress: std::env::var("RSASL_PBT_PROGRESS").ok(), only };
    let t0 = Instant::now();
    let (stats, found) = match run_prop(&p, &cfg, &sigs) {
        Ok(x) => x,
        Err(f) => {
            eprintln!("HARNESS ERROR {id}: {}", f.msg);
            return 2;
        }
    };
    if alone {
        return u8::from(found.is_some());
    }
    let per_suite: Value = stats.per_suite.iter().map(|(k, v)| (k.clone(), json!({"evaluations": v.0, "wall_s": v.1}))).collect::<serde_json::Map<_, _>>().into();
    let cov = json!({
        "evaluations": stats.evaluations,
        "nontrivial": stats.nontrivial,
        "distinct_nontrivial": stats.distinct.len(),
        "rule": p.rule,
        "suites": per_suite,
        "labels": stats.labels,
        "known_finding_hits": stats.known_hits,
        "samples": stats.samples,
    });
    for k in &known {
        println!("KNOWN-FINDING: property={id} {} (met in {} cases of this run)", k.text, stats.known_hits.get(&k.sig).copied().unwrap_or(0));
    }
    println!("{id}: {} cases, {} distinct non-trivial, {:.1} s", stats.evaluations, stats.distinct.len(), t0.elapsed().as_secs_f64());
    if let Some(f) = found {
        let path = replay_path(&e, id);
        let doc = json!({
            "property": id, "suite": f.suite, "seed": e.seed, "case": f.index, "choices": f.choices,
            "signature": f.fail.sig, "message": f.fail.msg, "trace": f.notes,
            "reproducible": f.reproducible, "shrunk_from_choices": f.shrunk_from,
        });
        write_json(&path, &doc);
        let mut cov = cov;
        cov["violation"] = doc;
        evidence(&e, &p, t0.elapsed().as_secs_f64(), 1, cov);
        println!("  suite {} case {}: [{}] {}", f.suite, f.index, f.fail.sig, f.fail.msg);
        for n in &f.notes {
            println!("    {n}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !evidence(&e, &p, t0.elapsed().as_secs_f64(), 0, cov) {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    if e.scale >= 1.0 {
        let missing: Vec<&&str> = p.expect_labels.iter().filter(|l| !stats.labels.keys().any(|k| k.split_once(':').map(|x| x.1) == Some(**l) || k == *l)).collect();
        if !missing.is_empty() {
            eprintln!("HARNESS ERROR {id}: the generator never produced {missing:?}");
            return 2;
        }
    }
    0
}

enum End {
    Code(i32),
    Signal(i32),
    Stuck,
}
/// Runs a worker; with a progress file, until one case has kept a thread busy for `stuck_s` seconds.
fn run_child(args: &[String], progress: Option<(&str, u64)>, cpu: Option<u64>, slots: usize) -> End {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args);
    if let Some((p, _)) = progress {
        c.env("RSASL_PBT_PROGRESS", p);
    } else {
        c.env_remove("RSASL_PBT_PROGRESS");
    }
    unsafe {
        c.pre_exec(move || {
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            if let Some(s) = cpu {
                let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn worker");
    let prog = progress.and_then(|(p, stuck_s)| Some((Progress::open(p, slots)?, stuck_s)));
    let mut last: Vec<((u64, u64), Instant)> = vec![];
    let start = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            return match (st.code(), st.signal()) {
                (Some(c), _) => End::Code(c),
                (_, Some(s)) => End::Signal(s),
                _ => End::Code(2),
            };
        }
        if let Some((p, stuck_s)) = &prog {
            let now: Vec<(u64, u64)> = p.get();
            last.retain(|(c, _)| now.contains(c));
            for c in now {
                if !last.iter().any(|(l, _)| *l == c) {
                    last.push((c, Instant::now()));
                }
            }
            if last.iter().any(|(_, t)| t.elapsed().as_secs() > *stuck_s) {
                let _ = ch.kill();
                let _ = ch.wait();
                return End::Stuck;
            }
        } else if start.elapsed().as_secs() > 6 * ALONE_CPU_S {
            // no verdict: the machine is too busy
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Code(2);
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn check(id: &str) -> u8 {
    let e = env();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let prog = std::env::temp_dir().join(format!("rsasl-pbt-{}-{id}", std::process::id()));
    let prog_s = prog.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&prog);
    let end = run_child(&["worker".into(), id.into()], Some((&prog_s, p.stuck_s())), None, e.threads);
    let running = Progress::open(&prog_s, e.threads).map(|p| p.get()).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    let what = match end {
        End::Code(c) => return u8::try_from(c).unwrap_or(2),
        End::Signal(s) => format!("the process was killed by signal {s}"),
        End::Stuck => "a step did not return".to_string(),
    };
    // The process died or hung inside one of these cases: find out which, each alone.
    for (si, case) in running {
        let Some(s) = p.suites.get(si as usize) else { continue };
        let args = ["worker".into(), id.into(), s.name.into(), case.to_string()];
        let dead = match run_child(&args, None, Some(ALONE_CPU_S), 1) {
            End::Signal(libc::SIGXCPU) => Some(format!("the case alone used more than {ALONE_CPU_S} s of CPU time without returning")),
            End::Signal(libc::SIGKILL) => None,
            End::Signal(s) => Some(format!("the case alone ended the process with signal {s} (abort, stack overflow or more than 1 GiB of live memory)")),
            _ => None,
        };
        if let Some(why) = dead {
            let path = replay_path(&e, id);
            let doc = json!({"property": id, "suite": s.name, "seed": e.seed, "case": case, "signature": "process-death", "message": why});
            write_json(&path, &doc);
            evidence(&e, &p, t0.elapsed().as_secs_f64(), 1, json!({
                "evaluations": case + 1, "distinct_nontrivial": 0, "rule": p.rule, "samples": [doc],
                "explanation": "the run ended when a case killed the process; counts are a lower bound"}));
            println!("  suite {} case {case}: {what}; {why}", s.name);
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
    }
    eprintln!("HARNESS ERROR {id}: {what}, and no single case reproduces it");
    2
}

fn replay(file: &str) -> u8 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let v: Value = serde_json::from_str(&t).expect("replay file");
    let id = v["property"].as_str().expect("property");
    let suite = v["suite"].as_str().expect("suite");
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { return 2 };
    engine::install_panic_hook();
    match v["choices"].as_array() {
        Some(a) => {
            let c: Vec<u64> = a.iter().filter_map(Value::as_u64).collect();
            match engine::replay(&p, suite, &c) {
                Some((f, notes)) => {
                    for n in notes {
                        println!("    {n}");
                    }
                    println!("reproduced: [{}] {}", f.sig, f.msg);
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        None => {
            std::env::set_var("VERIF_SEED", v["seed"].to_string());
            match run_child(&["worker".into(), id.into(), suite.into(), v["case"].to_string()], None, Some(ALONE_CPU_S), 1) {
                End::Code(0) => {
                    println!("not reproduced");
                    0
                }
                End::Code(c) => u8::try_from(c).unwrap_or(2),
                End::Signal(s) => {
                    println!("reproduced: signal {s}");
                    1
                }
                End::Stuck => 2,
            }
        }
    }
}

fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(String::as_str).collect();
    ExitCode::from(match s.as_slice() {
        ["check", id] => check(id),
        ["worker", id] => worker(id, None),
        ["worker", id, suite, case] => worker(id, Some(((*suite).to_string(), case.parse().expect("case")))),
        ["replay", file] => replay(file),
        ["nonces"] => {
            for n in props::first_nonces() {
                println!("{n}");
            }
            0
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check <id> | replay <file> | list");
            2
        }
    })
}
