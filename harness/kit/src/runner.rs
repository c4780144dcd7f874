//! Runs a check: a supervisor hands numbered cases to worker processes, confirms what they report, and writes the
//! verdict and the evidence. A case is made from (seed, phase, number) alone, so a report names what replays it.
use crate::Rng;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// What one case showed.
pub enum Verdict {
    /// The property held on what was observed.
    Ok(Obs),
    /// It is broken: what was observed, and what should have been.
    Violation(String),
    /// It looks broken, by something that also depends on timing: to be seen again when nothing else runs.
    Suspect(String),
    /// Nothing can be said.
    Inconclusive(String),
}

/// What was observed in a case where the property held.
#[derive(Default, Clone)]
pub struct Obs {
    /// Cases with the same key are the same case.
    pub key: u64,
    /// Whether the case exercises the property at all.
    pub nontrivial: bool,
    /// The case, written out.
    pub sample: String,
    /// Events the monitors saw, added up over all cases.
    pub counts: Vec<(String, u64)>,
}

impl Obs {
    pub fn new(key: u64, nontrivial: bool, sample: impl Into<String>) -> Obs {
        Obs { key, nontrivial, sample: sample.into(), counts: vec![] }
    }
    pub fn count(mut self, name: &str, n: usize) -> Obs {
        self.counts.push((name.to_string(), n as u64));
        self
    }
}

/// What a case has to work with.
pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    /// Run alone, to confirm a suspicion or to replay: waits can be longer.
    pub alone: bool,
}

pub type CaseFn = fn(&mut Ctx) -> Verdict;

pub struct Phase {
    pub name: &'static str,
    /// The program that runs the cases, next to the supervisor's; "" for the supervisor's own.
    pub bin: &'static str,
    /// Cases to run, (quick, thorough).
    pub cases: (u64, u64),
    /// Seconds after which no more cases are started, (quick, thorough).
    pub secs: (u64, u64),
    pub workers: usize,
    /// Seconds a case may take before it is given up as inconclusive.
    pub case_secs: u64,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: Vec<Phase>,
}

fn case_seed(seed: u64, id: &str, phase: &str, idx: u64) -> u64 {
    crate::hash64(format!("{seed}/{id}/{phase}/{idx}").as_bytes())
}

/// The main function of a worker: answers "ID PHASE IDX SEED THOROUGH ALONE" lines with JSON ones.
pub fn worker(cases: &[(&str, CaseFn)]) {
    crate::guard::start_watchdog();
    let input = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        if input.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        let idx: u64 = f[2].parse().unwrap();
        let mut ctx = Ctx {
            rng: Rng::new(case_seed(f[3].parse().unwrap(), f[0], f[1], idx)),
            idx,
            thorough: f[4] == "1",
            alone: f[5] == "1",
        };
        let run = cases.iter().find(|c| c.0 == f[1]).expect("unknown phase").1;
        let answer = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ctx))) {
            Ok(Verdict::Ok(o)) => {
                json!({"v": "ok", "key": o.key, "nt": o.nontrivial, "sample": o.sample, "counts": o.counts})
            }
            Ok(Verdict::Violation(m)) => json!({"v": "violation", "m": m}),
            Ok(Verdict::Suspect(m)) => json!({"v": "suspect", "m": m}),
            Ok(Verdict::Inconclusive(m)) => json!({"v": "inconclusive", "m": m}),
            Err(_) => json!({"v": "inconclusive", "m": format!("the harness panicked: {}", crate::guard::last_panic())}),
        };
        let mut out = std::io::stdout().lock();
        let _ = writeln!(out, "{answer}");
        let _ = out.flush();
    }
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: mpsc::Receiver<String>,
}

impl Worker {
    fn start(bin: &str) -> std::io::Result<Worker> {
        let me = std::env::current_exe()?;
        let path = if bin.is_empty() { me } else { me.with_file_name(bin) };
        let mut child = Command::new(path).arg("--worker").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn()?;
        let to = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, from) = mpsc::channel();
        std::thread::spawn(move || {
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { return };
                if line.starts_with("{\"") && tx.send(line).is_err() {
                    return;
                }
            }
        });
        Ok(Worker { child, to, from })
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Copy)]
struct Run<'a> {
    check: &'a Check,
    seed: u64,
    thorough: bool,
}

/// Runs one case in the worker, which is replaced if it dies.
fn one(run: Run, phase: &Phase, idx: u64, alone: bool, slot: &mut Option<Worker>) -> Value {
    if slot.is_none() {
        match Worker::start(phase.bin) {
            Ok(w) => *slot = Some(w),
            Err(e) => return json!({"v": "inconclusive", "m": format!("cannot start worker: {e}")}),
        }
    }
    let w = slot.as_mut().unwrap();
    let line =
        format!("{} {} {idx} {} {} {}\n", run.check.id, phase.name, run.seed, run.thorough as u8, alone as u8);
    let sent = w.to.write_all(line.as_bytes()).and_then(|_| w.to.flush());
    let limit = Duration::from_secs(phase.case_secs * if alone { 2 } else { 1 });
    let got = if sent.is_ok() { w.from.recv_timeout(limit) } else { Err(mpsc::RecvTimeoutError::Disconnected) };
    match got {
        Ok(line) => serde_json::from_str(&line).unwrap_or_else(|e| json!({"v": "inconclusive", "m": format!("{e}")})),
        Err(mpsc::RecvTimeoutError::Timeout) => {
            *slot = None;
            json!({"v": "inconclusive", "m": format!("no end after {limit:?}")})
        }
        Err(mpsc::RecvTimeoutError::Disconnected) => {
            let status = w.child.wait();
            *slot = None;
            use std::os::unix::process::ExitStatusExt;
            let status = match status {
                Ok(s) => s,
                Err(e) => return json!({"v": "inconclusive", "m": format!("worker lost: {e}")}),
            };
            match (status.code(), status.signal()) {
                (Some(crate::guard::EXIT_ALLOC), _) => {
                    json!({"v": "violation", "m": "allocated more than its budget for this input"})
                }
                (Some(crate::guard::EXIT_CPU), _) => {
                    json!({"v": "violation", "m": "used more processor time than any input of this size can need"})
                }
                (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGSEGV)) | (_, Some(libc::SIGBUS)) | (_, Some(libc::SIGILL)) => {
                    json!({"v": "violation", "m": format!("the process running the code died: {status} (stack overflow or abort)")})
                }
                _ => json!({"v": "inconclusive", "m": format!("worker ended: {status}")}),
            }
        }
    }
}

struct Tally {
    ran: u64,
    ok: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<Value>,
    counts: BTreeMap<String, u64>,
    per_phase: BTreeMap<&'static str, u64>,
    suspects: Vec<(usize, u64, String)>,
    unsettled: Vec<(usize, u64, String)>,
    violation: Option<(usize, u64, String)>,
}

fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    // "KNOWN property=<id> match=<text every report of it contains> -- <what fails>"
    std::fs::read_to_string(format!("{root}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("KNOWN property={id} match=")))
        .filter_map(|l| l.split_once(" -- "))
        .map(|(m, w)| (m.to_string(), w.to_string()))
        .collect()
}

/// The main function of the supervisor: ID [--tier quick|thorough] [--seed N] [--replay FILE | --case PHASE:N]
/// [--phase NAME] [--cases N].
pub fn main(checks: Vec<Check>, root: &str, scratch: &str) -> ! {
    let code = supervise(checks, root);
    // Made by the workers for what they ran, all of which is over.
    let _ = std::fs::remove_dir_all(scratch);
    std::process::exit(code)
}

fn supervise(checks: Vec<Check>, root: &str) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let id = args.first().cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("no check {id}");
        return 3
    };
    let mut seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let mut only = opt("--case");
    if let Some(path) = opt("--replay") {
        let v: Value = std::fs::read(&path).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_else(|| {
            eprintln!("cannot read {path}");
            std::process::exit(3)
        });
        seed = v["seed"].as_u64().unwrap_or(1);
        tier = v["tier"].as_str().unwrap_or("quick").to_string();
        only = Some(format!("{}:{}", v["phase"].as_str().unwrap_or(""), v["case"]));
    }
    let thorough = tier == "thorough";
    let run = Run { check, seed, thorough };
    let known = known_findings(root, check.id);

    if let Some(only) = only {
        let (name, n) = only.rsplit_once(':').unwrap_or((&only, "0"));
        let Some(phase) = check.phases.iter().find(|p| p.name == name) else { return 3 };
        let answer = one(run, phase, n.parse().unwrap_or(0), true, &mut None);
        println!("{}", serde_json::to_string_pretty(&answer).unwrap());
        let bad = matches!(answer["v"].as_str(), Some("violation" | "suspect"));
        if bad {
            println!("VIOLATION property={} replay={}", check.id, opt("--replay").unwrap_or(only));
        }
        return if bad { 1 } else if answer["v"] == "ok" { 0 } else { 3 };
    }

    let start = Instant::now();
    let tally = Arc::new(Mutex::new(Tally {
        ran: 0,
        ok: 0,
        nontrivial: HashSet::new(),
        samples: vec![],
        counts: BTreeMap::new(),
        per_phase: BTreeMap::new(),
        suspects: vec![],
        unsettled: vec![],
        violation: None,
    }));
    let mut skipped = vec![];
    let mut known_hit: Vec<String> = vec![];
    for (pi, phase) in check.phases.iter().enumerate() {
        if opt("--phase").is_some_and(|p| p != phase.name) {
            continue;
        }
        let me = std::env::current_exe().unwrap();
        if !phase.bin.is_empty() && !me.with_file_name(phase.bin).exists() {
            skipped.push(phase.name);
            continue;
        }
        let cases = opt("--cases")
            .and_then(|c| c.parse().ok())
            .unwrap_or(if thorough { phase.cases.1 } else { phase.cases.0 });
        let secs = if thorough { phase.secs.1 } else { phase.secs.0 };
        let (next, left) = (AtomicU64::new(0), AtomicUsize::new(phase.workers));
        let t0 = Instant::now();
        let hits = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..phase.workers {
                s.spawn(|| {
                    let mut slot = None;
                    loop {
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        let stop = tally.lock().unwrap().violation.is_some() || tally.lock().unwrap().suspects.len() > 12;
                        if idx >= cases || t0.elapsed().as_secs() >= secs || stop {
                            left.fetch_sub(1, Ordering::SeqCst);
                            return;
                        }
                        let a = one(run, phase, idx, false, &mut slot);
                        let mut t = tally.lock().unwrap();
                        t.ran += 1;
                        *t.per_phase.entry(phase.name).or_default() += 1;
                        let m = a["m"].as_str().unwrap_or("").to_string();
                        match a["v"].as_str() {
                            Some("ok") => {
                                t.ok += 1;
                                let fresh = a["nt"] == true && t.nontrivial.insert(a["key"].as_u64().unwrap_or(0));
                                let shown = t.samples.iter().filter(|s| s["phase"] == phase.name).count();
                                if fresh && shown < 4 {
                                    t.samples.push(json!({"phase": phase.name, "case": idx, "what": a["sample"]}));
                                }
                                for c in a["counts"].as_array().into_iter().flatten() {
                                    let n = c[1].as_u64().unwrap_or(0);
                                    *t.counts.entry(c[0].as_str().unwrap_or("").into()).or_default() += n;
                                }
                            }
                            Some("violation") | Some("suspect") if known.iter().any(|k| m.contains(&k.0)) => {
                                t.ok += 1;
                                let k = known.iter().find(|k| m.contains(&k.0)).unwrap();
                                hits.lock().unwrap().push(k.1.clone());
                            }
                            Some("violation") => {
                                if t.violation.is_none() {
                                    t.violation = Some((pi, idx, m));
                                }
                            }
                            Some("suspect") => t.suspects.push((pi, idx, m)),
                            _ => t.unsettled.push((pi, idx, m)),
                        }
                    }
                });
            }
        });
        known_hit.extend(hits.into_inner().unwrap());
        let t = tally.lock().unwrap();
        if t.violation.is_some() || !t.suspects.is_empty() {
            break;
        }
    }

    // With nothing else running: a suspicion is a violation if two more runs out of at most three show it again.
    let mut t = Arc::try_unwrap(tally).ok().unwrap().into_inner().unwrap();
    let mut cleared = 0;
    for (pi, idx, m) in std::mem::take(&mut t.suspects).into_iter().take(8) {
        if t.violation.is_some() {
            break;
        }
        let (mut seen, mut not) = (0, 0);
        let mut slot = None;
        while seen < 2 && not < 2 {
            let a = one(run, &check.phases[pi], idx, true, &mut slot);
            match a["v"].as_str() {
                Some("violation" | "suspect") => seen += 1,
                _ => not += 1,
            }
        }
        if seen >= 2 {
            t.violation = Some((pi, idx, m));
        } else {
            eprintln!("not seen again: case {}:{idx}: {m}", check.phases[pi].name);
            cleared += 1;
        }
    }
    // Inconclusive ones get a second chance.
    let mut open = vec![];
    let unsettled = std::mem::take(&mut t.unsettled);
    for (n, (pi, idx, m)) in unsettled.into_iter().enumerate() {
        if t.violation.is_some() || n >= 6 {
            open.push(json!({"phase": check.phases[pi].name, "case": idx, "why": m}));
            continue;
        }
        let a = one(run, &check.phases[pi], idx, true, &mut None);
        let again = a["m"].as_str().unwrap_or("").to_string();
        match a["v"].as_str() {
            Some("ok") => {
                t.ok += 1;
                if a["nt"] == true {
                    t.nontrivial.insert(a["key"].as_u64().unwrap_or(0));
                }
            }
            Some("violation") => t.violation = Some((pi, idx, again)),
            _ => {
                eprintln!("inconclusive: case {}:{idx}: {m}", check.phases[pi].name);
                open.push(json!({"phase": check.phases[pi].name, "case": idx, "why": m}));
            }
        }
    }

    let mut coverage = Map::new();
    coverage.insert("evaluations".into(), json!(t.ran));
    coverage.insert("distinct_nontrivial".into(), json!(t.nontrivial.len()));
    coverage.insert("rule".into(), json!(check.rule));
    coverage.insert("samples".into(), json!(t.samples));
    coverage.insert("observed".into(), json!(t.counts));
    coverage.insert("cases_per_phase".into(), json!(t.per_phase));
    coverage.insert("inconclusive".into(), json!(open));
    coverage.insert("suspicions_not_seen_again".into(), json!(cleared));
    if !skipped.is_empty() {
        coverage.insert("phases_not_built".into(), json!(skipped));
    }
    let evidence = json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": (start.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": t.violation.is_some() as u32,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let path = format!("{root}/evidence/{}.json", check.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("cannot write {path}: {e}");
        return 3
    }

    known_hit.sort();
    known_hit.dedup();
    for k in known_hit {
        println!("KNOWN-FINDING: property={} {k}", check.id);
    }
    if let Some((pi, idx, m)) = t.violation {
        let phase = check.phases[pi].name;
        let dir = format!("{root}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{phase}-{idx}-{seed}.json", check.id);
        let replay = json!({"property": check.id, "phase": phase, "case": idx, "seed": seed,
            "tier": if thorough { "thorough" } else { "quick" }, "what": m});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n");
        println!("{m}");
        println!("VIOLATION property={} replay={path}", check.id);
        return 1
    }
    println!(
        "{}: held on {} cases ({} distinct and non-trivial), {} inconclusive, {:.1} s",
        check.id,
        t.ok,
        t.nontrivial.len(),
        open.len(),
        start.elapsed().as_secs_f64()
    );
    // Too little seen to say that it held.
    if t.nontrivial.len() < 2 || open.len() as u64 * 4 > t.ran {
        println!("INCONCLUSIVE property={}", check.id);
        return 3
    }
    0
}
