//! Bounded exhaustive explorer: takes a finite, deterministically ordered
//! sequence of cases, executes every one of them, counts states, transitions
//! and outcomes, and turns the first failing case into a replayable file.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

pub const CASE_LIMIT_S: u64 = 40;
const SLOT: usize = 4 << 20;

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Case {
    pub kind: &'static str,
    pub input: Value,
}
impl Case {
    pub fn new(kind: &'static str, input: Value) -> Self {
        Case { kind, input }
    }
    pub fn key(&self) -> String {
        format!("{:016x}", fnv(format!("{}{}", self.kind, self.input).as_bytes()))
    }
}

#[derive(Default, Debug, Clone)]
pub struct Outcome {
    /// explanation, when the property does not hold on this case
    pub fail: Option<String>,
    /// hashes of the states reached
    pub states: Vec<u64>,
    /// executions of the real code compared with the oracle
    pub transitions: u64,
    /// outcome class, for the vacuity report
    pub class: String,
    /// state for the next exploration level
    pub next: Option<String>,
    /// counts as non-trivial
    pub nontrivial: bool,
}
impl Outcome {
    pub fn fail(m: impl Into<String>) -> Self {
        Outcome { fail: Some(m.into()), class: "violation".into(), transitions: 1, ..Default::default() }
    }
}

pub type Handler = fn(&Case) -> Outcome;

#[derive(Default)]
struct Stats {
    cases: u64,
    transitions: u64,
    nontrivial: u64,
    states: HashSet<u64>,
    edges: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    fails: Vec<(u64, Case, String)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub scratch: PathBuf,
    handler: fn(&str) -> Handler,
    threads: usize,
    stats: Mutex<Stats>,
    base: AtomicU64,
    stop: AtomicBool,
    slots: Slots,
    known: HashSet<String>,
    /// for development: report every failing case
    all: bool,
    pub notes: Mutex<Map<String, Value>>,
}

thread_local! {
    static DIR: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
/// private scratch directory of this thread (emptied by the caller as needed)
pub fn thread_dir() -> PathBuf {
    DIR.with(|d| d.borrow().clone().expect("scratch dir"))
}
pub fn set_thread_dir(p: &Path) {
    std::fs::create_dir_all(p).unwrap();
    DIR.with(|d| *d.borrow_mut() = Some(p.to_path_buf()));
}

/// shared memory telling the supervisor which case each thread is executing
#[derive(Clone, Copy)]
struct Slots(usize);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    fn open(path: &Path, n: usize) -> Slots {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((SLOT * n) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as usize)
    }
    fn put(&self, i: usize, s: &[u8]) {
        let n = s.len().min(SLOT - 8);
        unsafe {
            let p = (self.0 + i * SLOT) as *mut u8;
            (p as *mut u64).write_volatile(0);
            std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(8), n);
            (p as *mut u64).write_volatile(n as u64);
        }
    }
    fn clear(&self, i: usize) {
        unsafe { ((self.0 + i * SLOT) as *mut u64).write_volatile(0) }
    }
}
pub fn read_slots(path: &Path) -> Vec<Value> {
    let Ok(b) = std::fs::read(path) else { return vec![] };
    b.chunks(SLOT)
        .filter_map(|c| {
            let n = u64::from_le_bytes(c.get(..8)?.try_into().ok()?) as usize;
            if n == 0 {
                return None;
            }
            serde_json::from_slice(&c[8..8 + n]).ok()
        })
        .collect()
}

impl Ctx {
    pub fn new(
        prop: &str,
        thorough: bool,
        scratch: PathBuf,
        handler: fn(&str) -> Handler,
        known: HashSet<String>,
    ) -> Self {
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
        let slots = Slots::open(&scratch.join("slots"), threads);
        set_thread_dir(&scratch.join("main"));
        Ctx {
            prop: prop.into(),
            thorough,
            scratch,
            handler,
            threads,
            stats: Default::default(),
            base: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            slots,
            known,
            all: std::env::var_os("MC_ALL").is_some(),
            notes: Default::default(),
        }
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.notes.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn failed(&self) -> bool {
        self.stop.load(SeqCst)
    }

    /// Execute every case; returns `next` states in case order.
    pub fn run(&self, cases: impl Iterator<Item = Case> + Send) -> Vec<Option<String>> {
        self.run_h(cases, None)
    }
    /// Same, with an explicit (possibly stateful per call) handler.
    pub fn run_h(
        &self,
        cases: impl Iterator<Item = Case> + Send,
        h: Option<&(dyn Fn(&Case) -> Outcome + Sync)>,
    ) -> Vec<Option<String>> {
        if self.failed() {
            return vec![];
        }
        let (tx, rx) = mpsc::sync_channel::<Vec<(u64, Case)>>(64);
        let rx = Arc::new(Mutex::new(rx));
        let base = self.base.load(SeqCst);
        let total = AtomicU64::new(0);
        let nexts: Mutex<Vec<(u64, Option<String>)>> = Mutex::new(vec![]);
        let started: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let t0 = Instant::now();
        let done = AtomicBool::new(false);
        let live = AtomicUsize::new(self.threads);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let rx = rx.clone();
                let (nexts, started, live) = (&nexts, &started, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        set_thread_dir(&self.scratch.join(format!("t{t}")));
                        loop {
                            let batch = { rx.lock().unwrap().recv() };
                            let Ok(batch) = batch else { break };
                            let mut local: Vec<(u64, Case, Outcome)> = vec![];
                            for (i, c) in batch {
                                if self.stop.load(SeqCst) {
                                    break;
                                }
                                let f = self.to_json(&c).to_string();
                                self.slots.put(t, f.as_bytes());
                                started[t].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                let exec = || match h {
                                    Some(h) => h(&c),
                                    None => (self.handler)(c.kind)(&c),
                                };
                                let mut o = exec();
                                if let Some(m) = &o.fail {
                                    // a failure counts only if it repeats, perhaps
                                    // not at once: behaviour may depend on a hash seed
                                    if !(0..20).any(|_| exec().fail.is_some()) {
                                        eprintln!("engine: failure did not repeat: {m}\n{f}");
                                        std::process::exit(3);
                                    }
                                }
                                started[t].store(0, SeqCst);
                                self.slots.clear(t);
                                if o.fail.is_some() && !self.known.contains(&c.key()) && !self.all {
                                    self.stop.store(true, SeqCst);
                                }
                                if o.class.is_empty() {
                                    o.class = "ok".into();
                                }
                                local.push((i, c, o));
                            }
                            self.record(local, nexts);
                        }
                        live.fetch_sub(1, SeqCst);
                    })
                    .unwrap();
            }
            // hang watchdog
            s.spawn(|| {
                while !done.load(SeqCst) && live.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = t0.elapsed().as_millis() as u64;
                    for x in &started {
                        let v = x.load(SeqCst);
                        if v != 0 && now.saturating_sub(v) > CASE_LIMIT_S * 1000 {
                            std::process::exit(86);
                        }
                    }
                }
            });
            let mut batch = vec![];
            for c in cases {
                if self.stop.load(SeqCst) {
                    break;
                }
                let i = base + total.fetch_add(1, SeqCst);
                batch.push((i, c));
                if batch.len() >= 8 {
                    if tx.send(std::mem::take(&mut batch)).is_err() {
                        break;
                    }
                }
            }
            let _ = tx.send(batch);
            drop(tx);
        });
        done.store(true, SeqCst);
        self.base.store(base + total.load(SeqCst), SeqCst);
        let mut n = nexts.into_inner().unwrap();
        n.sort_by_key(|x| x.0);
        n.into_iter().map(|x| x.1).collect()
    }

    fn record(&self, local: Vec<(u64, Case, Outcome)>, nexts: &Mutex<Vec<(u64, Option<String>)>>) {
        let mut st = self.stats.lock().unwrap();
        let mut nx = nexts.lock().unwrap();
        for (i, c, o) in local {
            st.cases += 1;
            st.transitions += o.transitions;
            st.nontrivial += o.nontrivial as u64;
            st.states.extend(o.states.iter());
            st.edges.insert(fnv(c.input.to_string().as_bytes()));
            let first = !st.classes.contains_key(&o.class);
            *st.classes.entry(o.class.clone()).or_default() += 1;
            if first && st.samples.len() < 12 {
                let mut t = c.input.to_string();
                if t.len() > 1200 {
                    let mut k = 1200;
                    while !t.is_char_boundary(k) {
                        k -= 1;
                    }
                    t.truncate(k);
                    t.push_str("...");
                }
                st.samples.push(json!({"index": i, "kind": c.kind, "outcome": o.class, "input": t}));
            }
            if let Some(m) = o.fail {
                st.fails.push((i, c, m));
            }
            nx.push((i, o.next));
        }
    }

    fn to_json(&self, c: &Case) -> Value {
        json!({"property": self.prop, "kind": c.kind, "input": c.input})
    }

    /// failures not listed as known, and the known ones seen
    pub fn verdict(&self, out: &Path) -> (Vec<(PathBuf, String)>, Vec<String>) {
        let mut st = self.stats.lock().unwrap();
        st.fails.sort_by_key(|f| f.0);
        let mut bad = vec![];
        let mut known = vec![];
        for (i, c, m) in &st.fails {
            let key = c.key();
            if self.known.contains(&key) {
                known.push(key);
            } else if bad.len() < 3 || self.all {
                std::fs::create_dir_all(out).unwrap();
                let p = out.join(format!("{}-{key}.json", self.prop));
                let mut j = self.to_json(c);
                j["key"] = json!(key);
                j["index"] = json!(i);
                j["why"] = json!(m);
                std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                bad.push((p, m.clone()));
            }
        }
        (bad, known)
    }

    pub fn evidence(&self, wall: f64, seed: i64, bound: &str, exhaustive: bool, violations: usize) -> Value {
        let st = self.stats.lock().unwrap();
        let mut cov = json!({
            "states": st.states.len(),
            "transitions": st.edges.len(),
            "traces_validated_against_impl": st.transitions,
            "evaluations": st.cases,
            "distinct_nontrivial": st.nontrivial,
            "rule": bound,
            "exhaustive": exhaustive,
            "outcomes": st.classes,
            "samples": st.samples,
        });
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov[k] = v.clone();
        }
        json!({
            "property": self.prop,
            "tier": self.tier("quick", "thorough"),
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": [
                "svd-rs, svd-parser, svd-encoder, yaml-rust2 (dependencies) are trusted",
                "values outside the stated alphabets and sequences longer than the stated depth are not covered",
            ],
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": violations,
        })
    }
}

pub fn say(s: &str) {
    // stdout proper was moved to fd 200 by the worker
    let mut line = s.to_string();
    line.push('\n');
    unsafe {
        let fd = if libc::fcntl(200, libc::F_GETFD) >= 0 { 200 } else { 1 };
        libc::write(fd, line.as_ptr() as *const _, line.len());
    }
    let _ = std::io::stdout().flush();
}
/// keep our stdout at fd 200 and send everything the code under test prints to /dev/null
pub fn mute_stdout() {
    unsafe {
        libc::dup2(1, 200);
        libc::fcntl(200, libc::F_SETFD, libc::FD_CLOEXEC);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::close(n);
    }
}
