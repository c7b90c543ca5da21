//! Runs cases on several threads, collects what the monitors observed, writes evidence and replay files.

use crate::rng::{hash_str, mix};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub workload: String,
    pub case_seed: u64,
    pub step: usize,
    /// short stable name of the kind of deviation
    pub key: String,
    pub message: String,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn get(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s)
            }
        }
    }
}

/// What a workload gets to work with for one case.
pub struct Case {
    pub property: String,
    pub workload: String,
    pub seed: u64,
    pub step: usize,
    pub thorough: bool,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub trace: Vec<String>,
    pub want_sample: bool,
    pub known: Arc<Vec<(String, String)>>,
    pub known_hits: BTreeMap<String, u64>,
    pub verbose: bool,
}

impl Case {
    pub fn count(&mut self, k: &str) {
        self.count_n(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        if let Some(c) = self.stats.counters.get_mut(k) {
            *c += n
        } else {
            self.stats.counters.insert(k.to_string(), n);
        }
    }
    pub fn eval(&mut self) {
        self.stats.evaluations += 1
    }
    /// record a distinct non-trivial situation
    pub fn nontrivial(&mut self, sig: u64) {
        if self.stats.nontrivial.len() < 2_000_000 {
            self.stats.nontrivial.insert(sig);
        }
    }
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.verbose {
            eprintln!("[{}] {}", self.step, s);
        }
        if self.trace.len() >= 60 {
            self.trace.remove(0);
        }
        self.trace.push(s);
    }
    /// report that the property does not hold
    pub fn violate(&mut self, key: &str, message: String) {
        // a world that cannot be built decides only the properties about building it
        if key == "setup" {
            let about = if message.contains("creating the market") { "C18" } else { "C19" };
            if self.property != about && self.property != "C28" {
                self.count("setup failed");
                self.trace.push(message);
                return;
            }
        }
        for (p, k) in self.known.iter() {
            if p == &self.property && k == key {
                *self.known_hits.entry(key.to_string()).or_default() += 1;
                return;
            }
        }
        if self.verbose {
            eprintln!("VIOLATION step {} {}: {}", self.step, key, message);
        }
        if self.violations.len() < 3 {
            self.violations.push(Violation {
                property: self.property.clone(),
                workload: self.workload.clone(),
                case_seed: self.seed,
                step: self.step,
                key: key.into(),
                message,
                trace: self.trace.clone(),
            });
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

pub type WorkFn = fn(&mut Case);

pub struct Work {
    pub name: &'static str,
    pub f: WorkFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Plan {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be positive, otherwise the run observed nothing of interest
    pub need: &'static [&'static str],
    pub works: Vec<Work>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// `known-findings.txt`: lines `known: property=<id> key=<key> <text>`
pub fn known_findings() -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut p = String::new();
                let mut k = String::new();
                let mut rest = vec![];
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = x.into()
                    } else if let Some(x) = w.strip_prefix("key=") {
                        k = x.into()
                    } else {
                        rest.push(w)
                    }
                }
                v.push((p, k, rest.join(" ")));
            }
        }
    }
    v
}

fn thread_cpu_ms(tid: i64) -> u64 {
    if let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        if let Some(p) = s.rfind(')') {
            let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
            let ut: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0);
            let st: u64 = f.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
            return (ut + st) * 10;
        }
    }
    0
}

fn gettid() -> i64 {
    if let Ok(l) = std::fs::read_link("/proc/thread-self") {
        if let Some(n) = l.file_name() {
            return n.to_string_lossy().parse().unwrap_or(0);
        }
    }
    0
}

struct Slot {
    tid: i64,
    case_seed: AtomicU64,
    started_cpu: AtomicU64,
    work: AtomicUsize,
    busy: AtomicBool,
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn case_seed(seed: u64, work: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash_str(work) ^ mix(i.wrapping_mul(0x9E3779B97F4A7C15)))
}

/// Runs a plan; returns the process exit code.
pub fn run_plan(plan: &Plan) -> i32 {
    let start = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_seed();
    let scale: f64 = std::env::var("OBV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads: usize = std::env::var("OBV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    // no new cases are started after this time; what was explored by then is reported
    let budget = Duration::from_secs(if thorough { 3000 } else { 240 });
    let cpu_limit_ms: u64 = if cfg!(asan) { 400_000 } else { 120_000 };
    let findings = known_findings();
    let known: Arc<Vec<(String, String)>> =
        Arc::new(findings.iter().map(|(p, k, _)| (p.clone(), k.clone())).collect());
    let mut jobs: Vec<(usize, u64)> = vec![];
    let counts: Vec<u64> = plan
        .works
        .iter()
        .map(|w| (((if thorough { w.thorough } else { w.quick }) as f64) * scale).ceil() as u64)
        .collect();
    // interleave the workloads so that every one gets its share
    let max = counts.iter().copied().max().unwrap_or(0);
    let mut done = vec![0u64; counts.len()];
    for r in 1..=max {
        for (w, c) in counts.iter().enumerate() {
            while done[w] * max < r * c && done[w] < *c {
                jobs.push((w, done[w]));
                done[w] += 1;
            }
        }
    }
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Stats::default()));
    let viols: Arc<Mutex<Vec<Violation>>> = Arc::new(Mutex::new(vec![]));
    let known_hits: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let slots: Arc<Mutex<Vec<Arc<Slot>>>> = Arc::new(Mutex::new(vec![]));
    let harness_error: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let cases_run = Arc::new(AtomicU64::new(0));
    let per_work: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));

    let works: Arc<Vec<(String, WorkFn)>> =
        Arc::new(plan.works.iter().map(|w| (w.name.to_string(), w.f)).collect());
    let prop = plan.property.to_string();
    let mut handles = vec![];
    for _ in 0..threads {
        let (jobs, next, stop, total, viols, known, known_hits, slots, harness_error, works, prop, cases_run, per_work) = (
            jobs.clone(), next.clone(), stop.clone(), total.clone(), viols.clone(), known.clone(),
            known_hits.clone(), slots.clone(), harness_error.clone(), works.clone(), prop.clone(),
            cases_run.clone(), per_work.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let slot = Arc::new(Slot {
                        tid: gettid(),
                        case_seed: AtomicU64::new(0),
                        started_cpu: AtomicU64::new(0),
                        work: AtomicUsize::new(0),
                        busy: AtomicBool::new(false),
                    });
                    slots.lock().unwrap().push(slot.clone());
                    let mut acc = Stats::default();
                    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed() > budget {
                            break;
                        }
                        let j = next.fetch_add(1, Ordering::Relaxed);
                        if j >= jobs.len() {
                            break;
                        }
                        let (w, i) = jobs[j];
                        let (name, f) = &works[w];
                        let cs = case_seed(seed, name, i);
                        slot.case_seed.store(cs, Ordering::Relaxed);
                        slot.work.store(w, Ordering::Relaxed);
                        slot.started_cpu.store(thread_cpu_ms(slot.tid), Ordering::Relaxed);
                        slot.busy.store(true, Ordering::Relaxed);
                        if cfg!(asan) {
                            // a memory error ends the process: leave a note of what was running
                            use std::io::Write;
                            let f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/evidence/.cases-{prop}", verif_dir()));
                            if let Ok(mut f) = f {
                                let _ = f.write_all(format!("{name} {cs}\n").as_bytes());
                            }
                        }
                        let mut case = Case {
                            property: prop.clone(),
                            workload: name.clone(),
                            seed: cs,
                            step: 0,
                            thorough,
                            stats: Stats::default(),
                            violations: vec![],
                            trace: vec![],
                            want_sample: i == 0,
                            known: known.clone(),
                            known_hits: BTreeMap::new(),
                            verbose: false,
                        };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut case)));
                        slot.busy.store(false, Ordering::Relaxed);
                        if r.is_err() {
                            *harness_error.lock().unwrap() =
                                Some(format!("monitor failed in workload {name} case {cs}"));
                            stop.store(true, Ordering::Relaxed);
                        }
                        cases_run.fetch_add(1, Ordering::Relaxed);
                        *per_work.lock().unwrap().entry(name.clone()).or_default() += 1;
                        if !case.violations.is_empty() {
                            viols.lock().unwrap().extend(case.violations.drain(..));
                            stop.store(true, Ordering::Relaxed);
                        }
                        for (k, v) in std::mem::take(&mut case.known_hits) {
                            *hits.entry(k).or_default() += v;
                        }
                        acc.merge(case.stats);
                    }
                    total.lock().unwrap().merge(acc);
                    let mut h = known_hits.lock().unwrap();
                    for (k, v) in hits {
                        *h.entry(k).or_default() += v;
                    }
                })
                .unwrap(),
        );
    }
    // Watchdog: an operation on these small structures that burns minutes of CPU time does not terminate.
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.lock().unwrap().iter() {
            if s.busy.load(Ordering::Relaxed) {
                let used = thread_cpu_ms(s.tid).saturating_sub(s.started_cpu.load(Ordering::Relaxed));
                if used > cpu_limit_ms && s.busy.load(Ordering::Relaxed) {
                    let v = Violation {
                        property: prop.clone(),
                        workload: works[s.work.load(Ordering::Relaxed)].0.clone(),
                        case_seed: s.case_seed.load(Ordering::Relaxed),
                        step: 0,
                        key: "no-termination".into(),
                        message: format!("case used {used} ms of CPU time without finishing"),
                        trace: vec![],
                    };
                    let p = write_replay(&v);
                    write_evidence(plan, thorough, seed, start, &Stats::default(), 1, &BTreeMap::new(), &BTreeMap::new());
                    println!("{}", v.message);
                    println!("VIOLATION property={} replay={}", prop, p);
                    std::process::exit(1);
                }
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let total = std::mem::take(&mut *total.lock().unwrap());
    let mut viols = viols.lock().unwrap().clone();
    viols.sort_by_key(|v| (v.workload.clone(), v.case_seed, v.step));
    let hits = known_hits.lock().unwrap().clone();
    write_evidence(plan, thorough, seed, start, &total, viols.len(), &hits, &per_work.lock().unwrap());
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s",
        plan.property,
        cases_run.load(Ordering::Relaxed),
        total.evaluations,
        total.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    for (k, n) in &hits {
        let text = findings
            .iter()
            .find(|(p, kk, _)| p == plan.property && kk == k)
            .map(|(_, _, t)| t.clone())
            .unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({} times): {}", plan.property, k, n, text);
    }
    if !viols.is_empty() {
        for v in viols.iter().take(3) {
            let p = write_replay(v);
            println!("{} [{}] step {}: {}", v.workload, v.key, v.step, v.message);
            println!("VIOLATION property={} replay={}", plan.property, p);
        }
        return 1;
    }
    if let Some(e) = harness_error.lock().unwrap().clone() {
        println!("ERROR: {e}");
        return 2;
    }
    if total.get("setup failed") > 0 {
        println!("ERROR: the world of {} cases could not be built", total.get("setup failed"));
        return 2;
    }
    let missing: Vec<&str> = plan
        .need
        .iter()
        .copied()
        .filter(|n| total.counters.get(*n).copied().unwrap_or(0) == 0)
        .collect();
    if !missing.is_empty() || total.evaluations == 0 {
        println!("INCONCLUSIVE: the run never observed {:?}", missing);
        return 2;
    }
    0
}

pub fn write_replay(v: &Violation) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}-{:016x}.json", dir, v.property, v.workload, v.case_seed);
    let tr: Vec<String> = v.trace.iter().map(|t| jstr(t)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"workload\": {},\n \"case_seed\": {},\n \"step\": {},\n \"key\": {},\n \"message\": {},\n \"rerun\": {},\n \"trace\": [\n  {}\n ]\n}}\n",
        jstr(&v.property),
        jstr(&v.workload),
        v.case_seed,
        v.step,
        jstr(&v.key),
        jstr(&v.message),
        jstr(&format!("/verif/check {} replay {}", v.property, p)),
        tr.join(",\n  ")
    );
    let _ = std::fs::write(&p, s);
    p
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    plan: &Plan,
    thorough: bool,
    seed: u64,
    start: Instant,
    st: &Stats,
    violations: usize,
    hits: &BTreeMap<String, u64>,
    per_work: &BTreeMap<String, u64>,
) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let kv = |m: &BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("   {}: {}", jstr(k), v))
            .collect::<Vec<_>>()
            .join(",\n")
    };
    let samples: Vec<String> = st.samples.iter().map(|s| format!("   {}", jstr(s))).collect();
    let assumptions: Vec<String> = plan.assumptions.iter().map(|s| format!("  {}", jstr(s))).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases_per_workload\": {{\n{}\n  }},\n  \"observed\": {{\n{}\n  }},\n  \"known_findings\": {{\n{}\n  }},\n  \"samples\": [\n{}\n  ]\n }},\n \"assumptions\": [\n{}\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(plan.property),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        st.evaluations,
        st.nontrivial.len(),
        jstr(plan.rule),
        kv(per_work),
        kv(&st.counters),
        kv(hits),
        samples.join(",\n"),
        assumptions.join(",\n"),
        start.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::write(format!("{}/{}.json", dir, plan.property), s);
}

/// Re-runs one case verbosely.
pub fn replay(plan: &Plan, workload: &str, seed: u64) -> i32 {
    let w = match plan.works.iter().find(|w| w.name == workload) {
        Some(w) => w,
        None => {
            println!("ERROR: no workload {workload}");
            return 2;
        }
    };
    let mut case = Case {
        property: plan.property.into(),
        workload: workload.into(),
        seed,
        step: 0,
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        stats: Stats::default(),
        violations: vec![],
        trace: vec![],
        want_sample: false,
        known: Arc::new(vec![]),
        known_hits: BTreeMap::new(),
        verbose: true,
    };
    (w.f)(&mut case);
    for v in &case.violations {
        let p = write_replay(v);
        println!("[{}] step {}: {}", v.key, v.step, v.message);
        println!("VIOLATION property={} replay={}", plan.property, p);
    }
    if case.failed() {
        1
    } else {
        0
    }
}
