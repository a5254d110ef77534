mod engine;
mod files;
mod glob;
mod model;
mod patchx;
mod props;
mod pyx;
mod resolve;
mod spaces;
mod spaces2;
mod spaces3;
mod spaces4;
mod spaces5;
mod spaces6;
mod spaces7;
mod spaces8;
mod spaces9;
mod spaces10;
mod spaces11;
mod spaces12;
mod spaces13;
mod svd;

use engine::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

pub fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or("/verif".into())
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a[..] {
        ["check", id, tier] => check(id, tier),
        ["worker", id, tier, scratch] => worker(id, tier, Path::new(scratch)),
        ["replay", file] => replay(Path::new(file)),
        ["list"] => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: mc check ID quick|thorough | mc replay FILE | mc list");
            exit(2)
        }
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        for b in [base, "/tmp"] {
            let p = PathBuf::from(format!("{b}/mc-{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&p);
            if std::fs::create_dir_all(&p).is_ok() {
                return Scratch(p);
            }
        }
        panic!("no scratch directory");
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the exploration in a child so that a crash or hang of the code under
/// test is attributed to the case that caused it instead of losing the run.
fn check(id: &str, tier: &str) -> ! {
    let scratch = Scratch::new();
    let me = std::env::current_exe().unwrap();
    let st = Command::new(&me).args(["worker", id, tier]).arg(&scratch.0).status().unwrap();
    let code = match st.code() {
        Some(c @ (0 | 1)) => c,
        Some(86) | None => attribute(id, &me, &scratch.0),
        Some(134) => attribute(id, &me, &scratch.0),
        Some(c) => c.max(2),
    };
    drop(scratch);
    exit(code)
}

fn attribute(id: &str, me: &Path, scratch: &Path) -> i32 {
    let cases = read_slots(&scratch.join("slots"));
    eprintln!("worker died; re-running {} active case(s) one by one", cases.len());
    for (i, c) in cases.iter().enumerate() {
        let out = verif_dir().join("out");
        let _ = std::fs::create_dir_all(&out);
        let key = fnv(c.to_string().as_bytes());
        let f = out.join(format!("{id}-crash-{key:016x}.json"));
        std::fs::write(&f, serde_json::to_string_pretty(c).unwrap()).unwrap();
        let d = scratch.join(format!("replay{i}"));
        std::fs::create_dir_all(&d).unwrap();
        let mut ch = Command::new(me).arg("replay").arg(&f).env("MC_SCRATCH", &d).spawn().unwrap();
        let t = Instant::now();
        let mut why = None;
        loop {
            match ch.try_wait().unwrap() {
                Some(s) => {
                    if s.code() != Some(0) {
                        why = Some(match s.code() {
                            Some(1) => "fails".to_string(),
                            Some(c) => format!("exit {c}"),
                            None => format!("crash ({s})"),
                        });
                    }
                    break;
                }
                None if t.elapsed() > Duration::from_secs(CASE_LIMIT_S) => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    why = Some("does not terminate".into());
                    break;
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        }
        if let Some(w) = why {
            say(&format!("VIOLATION property={id} replay={}", f.display()));
            say(&format!("  {w}"));
            return 1;
        }
        let _ = std::fs::remove_file(&f);
    }
    eprintln!("no active case reproduces the failure");
    2
}

fn known(id: &str) -> HashSet<String> {
    let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.json")) else { return HashSet::new() };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|f| f["property"] == id)
        .flat_map(|f| f["cases"].as_array().cloned().unwrap_or_default())
        .filter_map(|k| k.as_str().map(String::from))
        .collect()
}
fn known_desc(id: &str, key: &str) -> String {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&t).unwrap_or_default();
    for f in v["findings"].as_array().into_iter().flatten() {
        if f["property"] == id && f["cases"].as_array().is_some_and(|a| a.iter().any(|k| k == key)) {
            return f["what"].as_str().unwrap_or("").into();
        }
    }
    String::new()
}

/// how cases are made, from the statement of the property
fn rule(id: &str) -> String {
    let t = std::fs::read_to_string(verif_dir().join("properties.jsonl")).unwrap_or_default();
    for l in t.lines() {
        let v: Value = serde_json::from_str(l).unwrap_or_default();
        if v["id"] == id {
            return format!("{}; non-trivial: the executed code produced a result that differs from its input (or the case says so)", v["quantifier"]["text"].as_str().unwrap_or(""));
        }
    }
    String::new()
}

fn worker(id: &str, tier: &str, scratch: &Path) -> ! {
    mute_stdout();
    std::panic::set_hook(Box::new(|_| {}));
    let Some(p) = props::PROPS.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        exit(2)
    };
    let t0 = Instant::now();
    let ctx = Ctx::new(id, tier == "thorough", scratch.into(), props::handler, known(id));
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (p.explore)(&ctx);
        spaces7::explore(&ctx)
    })) {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("explorer panicked: {m:?}");
        exit(3)
    }
    let (bad, kn) = ctx.verdict(&verif_dir().join("out"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let ev = ctx.evidence(t0.elapsed().as_secs_f64(), seed, &rule(id), bad.is_empty(), bad.len());
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    let mut seen = HashSet::new();
    for k in kn {
        let w = known_desc(id, &k);
        if seen.insert(w.clone()) {
            say(&format!("KNOWN-FINDING: property={id} {w}"));
        }
    }
    for (f, why) in &bad {
        say(&format!("VIOLATION property={id} replay={}", f.display()));
        for l in why.lines().take(12) {
            say(&format!("  {}", l.chars().take(300).collect::<String>()));
        }
    }
    let c = &ev["coverage"];
    say(&format!(
        "{id} {tier}: cases={} states={} transitions={} outcomes={} wall={:.1}s",
        c["evaluations"], c["states"], c["transitions"], c["outcomes"], t0.elapsed().as_secs_f64()
    ));
    exit(if bad.is_empty() { 0 } else { 1 })
}

fn replay(file: &Path) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let own = if std::env::var_os("MC_SCRATCH").is_none() { Some(Scratch::new()) } else { None };
    let d = match &own {
        Some(s) => s.0.clone(),
        None => std::env::var_os("MC_SCRATCH").unwrap().into(),
    };
    set_thread_dir(&d);
    if std::env::var_os("MC_TRACE").is_none() {
        mute_stdout();
        std::panic::set_hook(Box::new(|_| {}));
    }
    let kind: &'static str = Box::leak(v["kind"].as_str().expect("kind").to_string().into_boxed_str());
    let c = Case::new(kind, v["input"].clone());
    // same stack as in the exploration
    let o = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            set_thread_dir(&d);
            props::handler(c.kind)(&c)
        })
        .unwrap()
        .join();
    drop(own);
    let Ok(o) = o else {
        say("handler panicked");
        exit(3)
    };
    match o.fail {
        Some(m) => {
            say(&format!("FAIL {m}"));
            exit(1)
        }
        None => {
            say(&format!("ok ({})", json!(o.class)));
            exit(0)
        }
    }
}
