mod engine;
mod genrun;
mod sgen;
mod node;
mod refec;
mod refs;
mod refvm;
mod props;

use engine::*;
use std::collections::HashSet;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: Meter = Meter;

const VERIF: &str = "/verif";
/// What violations outside of any harness are recorded as.
const SETUP: &str = "setup";

fn ctx(prop: &str, thorough: bool, mode: Mode, names_file: Option<String>) -> Ctx {
    let known = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let mut it = l.split_whitespace();
            let p = it.next()?;
            let k = it.next()?.strip_prefix("key=")?;
            Some(format!("{}:{}", p, k))
        })
        .collect::<HashSet<_>>();
    Ctx {
        prop: prop.into(),
        thorough,
        mode,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16),
        rep: Mutex::new(Report::default()),
        names: Mutex::new(vec![]),
        names_file,
        known,
        replay_out: Mutex::new(None),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: std::env::var("MC_ONLY").ok(),
    }
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn worker(prop: &str, thorough: bool, dir: &str) {
    limit_memory();
    install_panic_hook();
    install_slots(&format!("{}/slots", dir));
    let slots = format!("{}/slots", dir);
    start_watchdog(slots, 90);
    let c = ctx(prop, thorough, Mode::Explore, Some(format!("{}/names", dir)));
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&c))).is_err() {
        // between the harnesses, where they build their values from valid parts with the library
        let m = last_panic();
        if m.contains("ENGINE") {
            eprintln!("mc: {}", m);
            std::process::exit(3);
        }
        let mut rep = c.rep.lock().unwrap();
        let after = rep.stats.keys().last().cloned().unwrap_or_default();
        rep.violations.push(Viol { harness: SETUP.into(), choices: vec![], desc: format!("building the values of a harness after {:?}", after), msg: format!("the library panicked or refused a valid value: {}", m) });
    }
    std::fs::write(format!("{}/report.json", dir), serde_json::to_vec(&*c.rep.lock().unwrap()).unwrap()).unwrap();
}

fn replay_case(prop: &str, thorough: bool, harness: &str, choices: Vec<u64>) -> Option<String> {
    install_panic_hook();
    let c = ctx(prop, thorough, Mode::Replay { harness: harness.into(), choices }, None);
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&c))).is_err() {
        return Some(if harness == SETUP { format!("FAIL panic: {}", last_panic()) } else { format!("no such case: {}", last_panic()) });
    }
    if harness == SETUP {
        return Some("ok".into());
    }
    let r = c.replay_out.lock().unwrap().clone();
    r
}

fn sig_of(st: &std::process::ExitStatus) -> Option<i32> {
    st.signal()
}

fn write_replay(prop: &str, tier: &str, v: &Viol) -> String {
    let dir = format!("{}/replays", VERIF);
    std::fs::create_dir_all(&dir).unwrap();
    let name: String = v.harness.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect();
    let path = format!("{}/{}-{}.json", dir, prop, name);
    let j = serde_json::json!({
        "property": prop, "tier": tier, "harness": v.harness, "choices": v.choices,
        "case": v.desc, "violation": v.msg,
        "how": format!("/verif/check.sh replay {}", path),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path
}

fn supervise(prop: &str, tier: &str) -> i32 {
    let t = Instant::now();
    let dir = format!("{}/target/work/{}-{}", VERIF, prop, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let errf = std::fs::File::create(format!("{}/stderr", dir)).unwrap();
    let mut child = Command::new(&exe)
        .args(["worker", prop, tier, &dir])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(errf)
        .spawn()
        .unwrap();
    let st = child.wait().unwrap();
    let mut rep: Report = std::fs::read(format!("{}/report.json", dir))
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or_default();
    if !st.success() {
        // the worker died: find out which of the active cases kills the code under test
        let names: Vec<String> = std::fs::read_to_string(format!("{}/names", dir)).unwrap_or_default().lines().map(|l| l.to_string()).collect();
        let hang = st.code() == Some(77);
        let mut found = false;
        let mut active: Vec<(String, Vec<u32>)> = read_slots(&format!("{}/slots", dir)).into_iter().filter_map(|(h, ch, _)| Some((names.get(h as usize)?.clone(), ch))).collect();
        if !hang {
            active.push((format!("S:{}", SETUP), vec![]));
        }
        for (n, ch) in active {
            let (kind, name) = n.split_at(2);
            let choices: Vec<u64> = if kind == "R:" {
                if ch.len() < 2 {
                    continue;
                }
                vec![ch[0] as u64 | (ch[1] as u64) << 32]
            } else {
                ch.iter().map(|x| *x as u64).collect()
            };
            let mut cmd = Command::new(&exe);
            cmd.args(["replay-case", prop, tier, name, &serde_json::to_string(&choices).unwrap()]);
            cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: 45, rlim_max: 50 };
                    libc::setrlimit(libc::RLIMIT_CPU, &l);
                    Ok(())
                });
            }
            let o = cmd.output().unwrap();
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            if let Some(s) = sig_of(&o.status) {
                let what = match s {
                    libc::SIGABRT => "aborted (stack overflow or refused allocation)",
                    libc::SIGSEGV | libc::SIGBUS => "crashed (memory fault / stack overflow)",
                    libc::SIGXCPU => "did not terminate within 45 s of CPU time",
                    libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => "trapped",
                    _ => continue,
                };
                rep.violations.push(Viol {
                    harness: name.into(),
                    choices,
                    desc: out.trim().to_string(),
                    msg: format!("the process {} (signal {})", what, s),
                });
                found = true;
                break;
            }
        }
        if !found {
            eprintln!(
                "mc: worker ended abnormally ({:?}{}) and no single case reproduces it; stderr: {}",
                st,
                if hang { ", watchdog" } else { "" },
                trunc(&std::fs::read_to_string(format!("{}/stderr", dir)).unwrap_or_default(), 2000)
            );
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    props::finish(prop, tier, t, rep)
}

pub fn conclude(prop: &str, tier: &str, t: Instant, rep: Report, extra: serde_json::Value) -> i32 {
    let (mut s, mut tr, mut v, mut calls, mut nodes) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut all_done = true;
    for (n, h) in &rep.stats {
        s += h.states;
        tr += h.transitions;
        v += h.traces;
        calls += h.impl_calls;
        nodes += h.tree_nodes;
        all_done &= h.completed;
        for x in h.samples.iter().take(2) {
            if samples.len() < 24 {
                samples.push(format!("{}: {}", n, x));
            }
        }
    }
    let mut cov = serde_json::json!({
        "states": s, "transitions": tr, "traces_validated_against_impl": v, "samples": samples,
        "exhaustive": all_done,
        "explanation": "states = distinct canonical states / observed behaviours; transitions = choice edges taken (or implementation calls for flat enumerations); traces = complete executions of the real code compared with the reference model",
        "choice_tree_nodes": nodes, "implementation_calls": calls,
        "bounds": rep.bounds,
        "harnesses": rep.stats.iter().map(|(n, h)| serde_json::json!({
            "name": n, "kind": h.kind, "states": h.states, "transitions": h.transitions, "traces": h.traces,
            "max_depth": h.max_depth, "completed": h.completed, "wall_s": h.wall_s })).collect::<Vec<_>>(),
        "known_findings_seen": rep.findings.iter().map(|(k, (n, m))| serde_json::json!({"key": k, "cases": n, "example": m})).collect::<Vec<_>>(),
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let ev = serde_json::json!({
        "property": prop, "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking", "coverage": cov,
        "assumptions": ["the reference model in /verif/mc/src states the property correctly", "values outside the stated alphabets and bounds are not covered"],
        "wall_s": t.elapsed().as_secs_f64(), "violations": rep.violations.len(),
    });
    std::fs::create_dir_all(format!("{}/evidence", VERIF)).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", VERIF, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (n, h) in &rep.stats {
        println!("{:40} {:9} states {:10} transitions {:10} traces  {:6.1}s{}", n, h.states, h.transitions, h.traces, h.wall_s, if h.completed { "" } else { "  (stopped)" });
    }
    println!("{}: states={} transitions={} traces={} wall={:.1}s", prop, s, tr, v, t.elapsed().as_secs_f64());
    for (k, (n, m)) in &rep.findings {
        println!("KNOWN-FINDING: property={} {} ({} cases) {}", prop, k, n, trunc(m, 300));
    }
    if !rep.violations.is_empty() {
        for v in &rep.violations {
            let p = write_replay(prop, tier, v);
            println!("{}: case {:?} {}", v.harness, v.choices, trunc(&v.desc, 600));
            println!("  {}", trunc(&v.msg, 1500));
            println!("VIOLATION property={} replay={}", prop, p);
        }
        return 1;
    }
    if !rep.engine_errors.is_empty() {
        for e in &rep.engine_errors {
            eprintln!("mc: engine error: {}", e);
        }
        return 2;
    }
    if v == 0 {
        eprintln!("mc: nothing was explored");
        return 2;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&a[2], &a[3]),
        Some("worker") => {
            worker(&a[2], a[3] == "thorough", &a[4]);
            0
        }
        Some("replay-case") => {
            let ch: Vec<u64> = serde_json::from_str(&a[5]).unwrap();
            let r = replay_case(&a[2], a[3] == "thorough", &a[4], ch);
            println!("{}", r.unwrap_or_else(|| "no such harness".into()));
            0
        }
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let ch: Vec<u64> = serde_json::from_value(j["choices"].clone()).unwrap();
            let r = replay_case(j["property"].as_str().unwrap(), j["tier"] == "thorough", j["harness"].as_str().unwrap(), ch).unwrap_or_default();
            println!("{}", r);
            if r.starts_with("FAIL") {
                1
            } else {
                0
            }
        }
        _ => {
            eprintln!("usage: mc run <property> quick|thorough | mc replay <file>");
            2
        }
    };
    let _ = Duration::from_secs(0);
    std::process::exit(code);
}
