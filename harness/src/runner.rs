//! Runs the cases of a property in worker processes, gathers what the monitors saw, and writes the evidence.

use crate::rng::{fnv, mix};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What one case told
#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    /// fingerprints of distinct non-trivial cases
    pub prints: Vec<u64>,
    pub samples: Vec<Value>,
    /// known findings that were met
    pub findings: BTreeSet<String>,
    pub extra_evals: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }

    pub fn hit(&mut self, k: &str) {
        self.add(k, 1);
    }

    /// a distinct non-trivial case
    pub fn print(&mut self, bytes: &[u8]) {
        self.prints.push(fnv(bytes));
    }

    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }

    pub fn known(&mut self, key: &str) {
        if !self.findings.contains(key) {
            self.findings.insert(key.to_string());
        }
        self.add(&format!("known finding {key}"), 1);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(u64, &mut Stats) -> Result<(), String>,
    /// the input of a case, written out
    pub describe: Option<fn(u64) -> Value>,
    /// number of cases
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that have to be more than zero for the run to mean something
    pub need: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// worker processes
    pub jobs: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub fn case_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(base, fnv(id.as_bytes()), i)
}

static CASE_NO: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_AT: AtomicU64 = AtomicU64::new(0);

pub const HANG: i32 = 42;

/// seconds one case may take before it counts as a hang
fn limit() -> u64 {
    std::env::var("KV_CASE_LIMIT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(40)
}

fn watchdog(start: Instant) {
    let lim = limit();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let at = CASE_AT.load(Ordering::SeqCst);
            let now = start.elapsed().as_secs();
            if CASE_NO.load(Ordering::SeqCst) != u64::MAX && now > at + lim {
                std::process::exit(HANG);
            }
        }
    });
}

/// one case; a panic is a violation
pub fn run_case(p: &Prop, seed: u64, st: &mut Stats) -> Result<(), String> {
    match crate::obs::guard(|| (p.run)(seed, st)) {
        Ok(r) => r,
        Err(panic) => Err(format!("panic: {panic}")),
    }
}

/// a single case, in a process of its own
pub fn one(p: &Prop, seed: u64) {
    CASE_NO.store(0, Ordering::SeqCst);
    watchdog(Instant::now());
    match run_case(p, seed, &mut Stats::default()) {
        Ok(()) => println!("KVOK"),
        Err(m) => println!("KVVIOLATION {m}"),
    }
}

/// the worker: cases first, first+step.. below total; results on stdout
pub fn work(p: &Prop, base: u64, first: u64, step: u64, total: u64, secs: u64, state: &Path) {
    let start = Instant::now();
    watchdog(start);
    let f = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(state)
        .expect("state file");
    use std::os::unix::fs::FileExt;
    let mut st = Stats::default();
    let mut n = 0;
    let mut prints: HashSet<u64> = HashSet::new();
    let mut violation = None;
    let mut i = first;
    while i < total {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let _ = f.write_at(&i.to_le_bytes(), 0);
        CASE_AT.store(start.elapsed().as_secs(), Ordering::SeqCst);
        CASE_NO.store(i, Ordering::SeqCst);
        let seed = case_seed(base, p.id, i);
        let res = run_case(p, seed, &mut st);
        CASE_NO.store(u64::MAX, Ordering::SeqCst);
        n += 1;
        prints.extend(st.prints.drain(..));
        if let Err(m) = res {
            violation = Some(json!({"case": i, "seed": seed, "message": m}));
            break;
        }
        i += step;
    }
    let pf = state.with_extension("prints");
    let mut bytes = Vec::with_capacity(prints.len() * 8);
    for p in &prints {
        bytes.extend_from_slice(&p.to_le_bytes());
    }
    std::fs::write(&pf, bytes).expect("prints file");
    let out = json!({
        "evaluations": n + st.extra_evals,
        "counters": st.counters,
        "samples": st.samples,
        "findings": st.findings,
        "violation": violation,
    });
    println!("KVRESULT {out}");
    let _ = std::io::stdout().flush();
}

/// The build of this program without the feature `targets` of krates, which is off by default, for part of the cases of C06
fn plain_exe(id: &str, worker: u64) -> Option<std::path::PathBuf> {
    (id == "C06" && worker % 4 == 3).then_some(())?;
    let exe = std::env::current_exe()
        .expect("own path")
        .with_file_name("kv-plain");
    exe.exists().then_some(exe)
}

fn self_cmd(plain: Option<std::path::PathBuf>, args: &[String]) -> std::process::Command {
    let exe = plain.unwrap_or_else(|| std::env::current_exe().expect("own path"));
    let mut c = std::process::Command::new("sh");
    // bounds the memory of a runaway case
    c.arg("-c")
        .arg("ulimit -v 8000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(args);
    c
}

pub struct Known {
    pub entries: Vec<(String, String, String)>,
}

/// lines `finding: property=<id> key=<key> <what fails>`
pub fn known_file(path: &Path) -> Known {
    let mut entries = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(l) = l.strip_prefix("finding: property=") else {
            continue;
        };
        let Some((id, l)) = l.split_once(" key=") else {
            continue;
        };
        let (key, what) = l.split_once(' ').unwrap_or((l, ""));
        entries.push((id.to_string(), key.to_string(), what.to_string()));
    }
    Known { entries }
}

pub struct RunOut {
    pub evaluations: u64,
    pub prints: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub findings: BTreeSet<String>,
    /// (case, seed, message)
    pub violation: Option<(u64, u64, String)>,
    pub inconclusive: Vec<String>,
}

pub fn run_all(p: &Prop, tier: Tier, base: u64, dir: &Path) -> RunOut {
    let total = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let secs: u64 = match tier {
        Tier::Quick => 200,
        Tier::Thorough => 720,
    };
    let jobs = (p.jobs as u64).min(total).max(1);
    let mut kids = Vec::new();
    for j in 0..jobs {
        let state = dir.join(format!("{}-{j}.state", p.id));
        let args: Vec<String> = [
            "work".to_string(),
            p.id.to_string(),
            base.to_string(),
            j.to_string(),
            jobs.to_string(),
            total.to_string(),
            secs.to_string(),
            state.to_string_lossy().into_owned(),
        ]
        .to_vec();
        let child = self_cmd(plain_exe(p.id, j), &args)
            .env("KV_WORK", dir)
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push((j, state, child));
    }
    let mut out = RunOut {
        evaluations: 0,
        prints: HashSet::new(),
        counters: BTreeMap::new(),
        samples: vec![],
        findings: BTreeSet::new(),
        violation: None,
        inconclusive: vec![],
    };
    let handles: Vec<_> = kids
        .into_iter()
        .map(|(j, state, child)| {
            std::thread::spawn(move || (j, state, child.wait_with_output().expect("worker")))
        })
        .collect();
    for h in handles {
        let (j, state, o) = h.join().expect("join");
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let res = text
            .lines()
            .find_map(|l| l.strip_prefix("KVRESULT "))
            .and_then(|l| serde_json::from_str::<Value>(l).ok());
        let Some(v) = res else {
            // the process died
            let case = std::fs::read(&state).ok().and_then(|b| {
                b.get(..8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
            });
            let Some(case) = case else {
                out.inconclusive
                    .push(format!("worker {j} did not start: {:?}", o.status));
                continue;
            };
            if out.violation.is_some() {
                // nothing that a second look at another hang could change
                continue;
            }
            let seed = case_seed(base, p.id, case);
            let again = self_cmd(
                plain_exe(p.id, j),
                &["one".into(), p.id.into(), seed.to_string()],
            )
            .env("KV_CASE_LIMIT", "120")
            .output()
            .expect("isolated run");
            let t = String::from_utf8_lossy(&again.stdout).into_owned();
            if again.status.code() == Some(HANG) {
                out.violation = Some((case, seed, "the call does not return".into()));
            } else if let Some(l) = t.lines().find_map(|l| l.strip_prefix("KVVIOLATION ")) {
                out.violation = Some((case, seed, l.to_string()));
            } else if !t.contains("KVOK") {
                out.violation = Some((
                    case,
                    seed,
                    format!(
                        "the process died ({:?}): {}",
                        again.status,
                        String::from_utf8_lossy(&again.stderr)
                            .lines()
                            .last()
                            .unwrap_or("")
                    ),
                ));
            } else {
                out.inconclusive.push(format!(
                    "worker {j} died in case {case} ({:?}), but that case passes on its own: {}",
                    o.status,
                    String::from_utf8_lossy(&o.stderr)
                        .lines()
                        .last()
                        .unwrap_or("")
                ));
            }
            continue;
        };
        out.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        if let Some(c) = v["counters"].as_object() {
            for (k, n) in c {
                *out.counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if out.samples.len() < 4 {
                out.samples.push(s.clone());
            }
        }
        for f in v["findings"].as_array().into_iter().flatten() {
            out.findings.insert(f.as_str().unwrap_or("").to_string());
        }
        if let Some(x) = v.get("violation").filter(|x| !x.is_null()) {
            let case = x["case"].as_u64().unwrap();
            if out.violation.as_ref().is_none_or(|o| case < o.0) {
                out.violation = Some((
                    case,
                    x["seed"].as_u64().unwrap(),
                    x["message"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
        if let Ok(b) = std::fs::read(state.with_extension("prints")) {
            for c in b.chunks_exact(8) {
                out.prints.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    out
}

pub fn check(p: &Prop, tier: Tier, base: u64, verif: &Path) -> i32 {
    let start = Instant::now();
    let ev_dir = verif.join("evidence");
    std::fs::create_dir_all(&ev_dir).expect("evidence directory");
    let work = std::env::temp_dir().join(format!("kv-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work directory");
    let out = run_all(p, tier, base, &work);
    let _ = std::fs::remove_dir_all(&work);
    let known = known_file(&verif.join("known-findings.txt"));
    let mut code = 0;
    let mut violations = 0;

    let mut unlisted = Vec::new();
    for f in &out.findings {
        match known.entries.iter().find(|(id, k, _)| id == p.id && k == f) {
            Some((_, _, what)) => println!("KNOWN-FINDING: property={} {what}", p.id),
            None => unlisted.push(f.clone()),
        }
    }
    let mut message = out.violation.clone();
    if message.is_none() && !unlisted.is_empty() {
        message = Some((
            0,
            base,
            format!("findings that are not listed: {unlisted:?}"),
        ));
    }
    if let Some((case, seed, m)) = &message {
        violations = 1;
        code = 1;
        let replay = ev_dir.join(format!("{}.replay.json", p.id));
        let mut doc = json!({
            "property": p.id, "base_seed": base, "case": case, "case_seed": seed, "message": m,
            "reproduce": format!("/verif/check.sh one {} {seed}", p.id),
        });
        if let Some(x) = crate::describe(p.id, *seed) {
            doc["input"] = x;
        }
        let _ = std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}", m.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, replay.display());
    }
    for i in &out.inconclusive {
        println!("note: {i}");
    }
    let mut missing: Vec<&str> = Vec::new();
    if code == 0 {
        for n in p.need {
            if out.counters.get(*n).copied().unwrap_or(0) == 0 {
                missing.push(n);
            }
        }
        if out.evaluations == 0 || out.prints.is_empty() {
            missing.push("cases");
        }
    }
    let mut cov = json!({
        "evaluations": out.evaluations,
        "distinct_nontrivial": out.prints.len(),
        "rule": p.rule,
        "samples": out.samples,
        "observed": out.counters,
    });
    if !out.findings.is_empty() {
        cov["known_findings"] = json!(out.findings);
    }
    let ev = json!({
        "property": p.id, "tier": tier.name(), "seed": base, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(), "violations": violations,
    });
    std::fs::write(
        ev_dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence file");
    if !missing.is_empty() {
        println!("error: nothing was observed of: {missing:?}");
        return 3;
    }
    println!(
        "{}: {} evaluations, {} distinct, {:.1} s",
        p.id,
        out.evaluations,
        out.prints.len(),
        start.elapsed().as_secs_f64()
    );
    code
}

#[allow(dead_code)]
pub fn lines(p: &Path) -> Vec<String> {
    let f = std::fs::File::open(p).expect("open");
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .collect()
}

#[allow(dead_code)]
pub fn tmp() -> PathBuf {
    std::env::temp_dir()
}
