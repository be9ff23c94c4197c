//! Compiles and runs generated programs against the real library and its real procedural macros.
//!
//! Many small programs (each a module with a `pub fn run() -> String`) are put in one file per batch. rustc's errors are
//! mapped back to the program whose lines they are in; that program counts as rejected, is taken out, and the rest is
//! compiled again until nothing is rejected. What is left is run.
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub const WORK: &str = "/verif/target/work";

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Rejected(String),
    Ran(String),
    Panicked(String),
    /// The generated program ended before it got there.
    Died(String),
}

fn artifacts() -> (String, Vec<(String, String)>) {
    let text = std::fs::read_to_string(format!("{}/artifacts.json", WORK)).expect("ENGINE: no artifacts.json, build with check.sh");
    let mut ext = vec![];
    let mut deps = String::new();
    for l in text.lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j["reason"] != "compiler-artifact" {
            continue;
        }
        let name = j["target"]["name"].as_str().unwrap_or("").replace('-', "_");
        if !["bitcoin_cash", "hex", "serde"].contains(&name.as_str()) {
            continue;
        }
        // build scripts and macros have their own copies of the libraries, with another opt-level
        if j["profile"]["opt_level"] != "2" {
            continue;
        }
        for f in j["filenames"].as_array().into_iter().flatten() {
            let f = f.as_str().unwrap_or("");
            if f.ends_with(".rlib") {
                deps = std::path::Path::new(f).parent().unwrap().to_str().unwrap().to_string();
                ext.push((name.clone(), f.to_string()));
            }
        }
    }
    assert!(ext.len() == 3, "ENGINE: libraries not found in artifacts.json: {:?}", ext);
    (deps, ext)
}

struct Batch<'a> {
    dir: String,
    prelude: &'a str,
    progs: Vec<(usize, &'a str)>,
}

impl<'a> Batch<'a> {
    fn rustc(&self, link: bool) -> std::process::Output {
        let (deps, ext) = artifacts();
        let src = format!("{}/gen.rs", self.dir);
        let mut c = Command::new("rustc");
        c.args(["--edition", "2018", "--crate-type", "bin", "--crate-name", "gen", "--cap-lints", "allow", "--error-format", "json", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=1"]);
        c.args(["-L", &format!("dependency={}", deps)]);
        if std::path::Path::new(&format!("{}/../deps", deps)).is_dir() {
            c.args(["-L", &format!("dependency={}/../deps", deps)]);
        }
        for (n, f) in &ext {
            c.args(["--extern", &format!("{}={}", n, f)]);
        }
        c.arg(if link { "--emit=link" } else { "--emit=metadata" });
        c.args(["-o", &format!("{}/{}", self.dir, if link { "gen" } else { "gen.rmeta" }), &src]);
        c.env("RUSTFMT", "/bin/true").current_dir(&self.dir);
        c.output().expect("ENGINE: cannot run rustc")
    }
    /// Writes the source; returns for every line the program it belongs to.
    fn write(&self) -> Vec<Option<usize>> {
        let mut s = String::new();
        let mut owner: Vec<Option<usize>> = vec![None]; // lines count from 1
        let mut add = |t: &str, o: Option<usize>, s: &mut String| {
            for l in t.lines() {
                s.push_str(l);
                s.push('\n');
                owner.push(o);
            }
        };
        add("#![allow(warnings)]", None, &mut s);
        add(&format!("pub mod prelude {{\n{}\n}}", self.prelude), None, &mut s);
        for (i, p) in &self.progs {
            add(&format!("mod p{} {{\nuse crate::prelude::*;\n{}\n}}", i, p), Some(*i), &mut s);
        }
        add("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n    let mut all: Vec<(usize, fn() -> String)> = Vec::new();", None, &mut s);
        for (i, _) in &self.progs {
            add(&format!("    all.push(({}, p{}::run));", i, i), Some(*i), &mut s);
        }
        add(
            "    for (i, f) in all {\n        match std::panic::catch_unwind(f) {\n            Ok(s) => println!(\"{}\\tR\\t{}\", i, s.replace('\\n', \" \")),\n            Err(e) => println!(\"{}\\tP\\t{}\", i, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\\n', \" \")),\n        }\n    }\n}",
            None,
            &mut s,
        );
        std::fs::write(format!("{}/gen.rs", self.dir), s).unwrap();
        owner
    }
    fn run(mut self, link_first: bool) -> Vec<(usize, Out)> {
        let mut outs = vec![];
        let mut link = link_first;
        loop {
            if self.progs.is_empty() {
                return outs;
            }
            let owner = self.write();
            let o = self.rustc(link);
            if o.status.success() {
                if !link {
                    link = true;
                    continue;
                }
                break;
            }
            let mut rejected: Vec<(usize, String)> = vec![];
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let mut unmapped = vec![];
            for l in err.lines() {
                let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                let lv = j["level"].as_str().unwrap_or("");
                if !lv.starts_with("error") {
                    continue;
                }
                let msg = j["message"].as_str().unwrap_or("").to_string();
                let who = culprit(&j, &owner);
                match who {
                    Some(i) => {
                        if !rejected.iter().any(|r| r.0 == i) {
                            rejected.push((i, msg))
                        }
                    }
                    None => unmapped.push(msg),
                }
            }
            if rejected.is_empty() {
                panic!("ENGINE: rustc failed on generated programs in {} without naming one: {:?} {}", self.dir, unmapped, err.lines().rev().take(3).collect::<Vec<_>>().join("\n"));
            }
            self.progs.retain(|(i, _)| !rejected.iter().any(|r| r.0 == *i));
            outs.extend(rejected.into_iter().map(|(i, m)| (i, Out::Rejected(m))));
            link = false;
        }
        let o = Command::new("timeout").args(["120", "./gen"]).current_dir(&self.dir).output().expect("ENGINE: cannot run generated program");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut seen = std::collections::HashMap::new();
        for l in text.lines() {
            let mut f = l.splitn(3, '\t');
            let (Some(i), Some(k), Some(p)) = (f.next().and_then(|x| x.parse::<usize>().ok()), f.next(), f.next()) else { continue };
            seen.insert(i, if k == "R" { Out::Ran(p.into()) } else { Out::Panicked(p.into()) });
        }
        for (i, _) in &self.progs {
            outs.push((*i, seen.remove(i).unwrap_or_else(|| Out::Died(format!("{:?}", o.status)))));
        }
        outs
    }
}

/// The program an error message points at: the first span (or the place it was expanded from) inside one.
fn culprit(j: &serde_json::Value, owner: &[Option<usize>]) -> Option<usize> {
    fn of_span(s: &serde_json::Value, owner: &[Option<usize>]) -> Option<usize> {
        let mut s = s;
        loop {
            if s["file_name"].as_str().map_or(false, |f| f.ends_with("gen.rs")) {
                if let Some(Some(i)) = s["line_start"].as_u64().and_then(|l| owner.get(l as usize)) {
                    return Some(*i);
                }
            }
            let e = &s["expansion"]["span"];
            if e.is_null() {
                return None;
            }
            s = e;
        }
    }
    let spans = j["spans"].as_array()?;
    spans
        .iter()
        .filter(|s| s["is_primary"] == true)
        .chain(spans.iter().filter(|s| s["is_primary"] != true))
        .find_map(|s| of_span(s, owner))
}

/// Compiles and runs all programs. `likely_ok`: most are expected to compile.
pub fn build(tag: &str, prelude: &str, progs: &[String], per_batch: usize, likely_ok: bool) -> Vec<Out> {
    let base = format!("{}/gen-{}-{}", WORK, tag, std::process::id());
    std::fs::create_dir_all(&base).unwrap();
    let n_batches = (progs.len() + per_batch - 1) / per_batch.max(1);
    let next = AtomicUsize::new(0);
    let outs: Mutex<Vec<(usize, Out)>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let fail: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(n_batches) {
            sc.spawn(|| loop {
                let b = next.fetch_add(1, SeqCst);
                if b >= n_batches || fail.lock().unwrap().is_some() {
                    break;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let dir = format!("{}/b{}", base, b);
                    std::fs::create_dir_all(&dir).unwrap();
                    // programs are dealt out so that a batch mixes cheap and expensive ones
                    let mine: Vec<(usize, &str)> = progs.iter().enumerate().filter(|(i, _)| i % n_batches == b).map(|(i, s)| (i, s.as_str())).collect();
                    let o = Batch { dir: dir.clone(), prelude, progs: mine }.run(likely_ok);
                    if std::env::var("GEN_KEEP").is_err() {
                        let _ = std::fs::remove_dir_all(&dir);
                    }
                    o
                }));
                match r {
                    Ok(o) => outs.lock().unwrap().extend(o),
                    Err(_) => *fail.lock().unwrap() = Some(crate::engine::last_panic()),
                }
            });
        }
    });
    if std::env::var("GEN_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&base);
    }
    if let Some(f) = fail.lock().unwrap().take() {
        panic!("ENGINE: {}", f);
    }
    let mut v = outs.into_inner().unwrap();
    v.sort_by_key(|o| o.0);
    assert_eq!(v.len(), progs.len(), "ENGINE: programs lost");
    v.into_iter().map(|o| o.1).collect()
}

/// Outcomes of a list of programs: compiled all at once when exploring, one at a time when a single case is replayed.
pub struct Lazy<'a> {
    tag: String,
    prelude: String,
    progs: &'a [String],
    all: Option<Vec<Out>>,
}
impl<'a> Lazy<'a> {
    pub fn new(c: &crate::engine::Ctx, tag: &str, prelude: &str, progs: &'a [String], per_batch: usize, likely_ok: bool) -> Self {
        let explore = matches!(c.mode, crate::engine::Mode::Explore);
        let wanted = c.only.as_ref().map_or(true, |o| tag.contains(o.as_str())) && c.rep.lock().unwrap().violations.is_empty();
        Lazy { tag: tag.into(), prelude: prelude.into(), progs, all: (explore && wanted).then(|| build(tag, prelude, progs, per_batch, likely_ok)) }
    }
    pub fn get(&self, i: usize) -> Out {
        match &self.all {
            Some(v) => v[i].clone(),
            None => build(&self.tag, &self.prelude, &self.progs[i..i + 1], 1, true).remove(0),
        }
    }
}
