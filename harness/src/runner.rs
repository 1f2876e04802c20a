//! Runs a property over generated cases in worker processes, shrinks what
//! fails, writes replay files and the evidence.
//!
//! A worker is single-threaded and writes the index of the case it is at to a
//! file, so that a case that takes its process down can be told.

use crate::engine::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut G) -> Case,
    /// Fixed inputs that are tried before the generated ones.
    pub fixed: fn() -> Vec<Fixed>,
}

pub type Fixed = (String, Box<dyn Fn() -> Option<String> + Send>);


/// CPU seconds one case may take.
const CASE_CPU_S: i64 = 10;
/// Address space of a worker.
const MEM: u64 = 3 << 30;
const STACK: usize = 8 << 20;

fn verif_root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn arm() {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: CASE_CPU_S, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

pub fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: MEM, rlim_max: MEM };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// Runs `f` on a thread with a stack of the usual size of a main thread.
pub fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(70))
}

fn id_num(id: &str) -> u64 {
    hash_bytes(id.as_bytes())
}

fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(&[seed, id_num(id), index])
}

fn run_tape(p: &Prop, tape: &[u32]) -> Case {
    let mut g = G::replay(tape.to_vec());
    run_case(p, &mut g)
}

/// Runs a case. What the code under test hands out may be so broken that
/// looking at it fails.
fn run_case(p: &Prop, g: &mut G) -> Case {
    crate::ev::caught(|| (p.run)(g)).unwrap_or_else(|m| Case { nontrivial: true, fail: Some(format!("unusable: {m}")), ..Case::default() })
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discarded: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    labels: Labels,
    samples: Vec<String>,
}

/// When the quick tier stops, however many cases it has seen by then (in seconds since 1970).
const UNTIL: &str = "HARNESS_UNTIL";
const QUICK_SECONDS: u64 = 600;

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

fn out_of_time() -> bool {
    static AT: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    now() >= *AT.get_or_init(|| std::env::var(UNTIL).ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX))
}

const MAX_CLASSES: usize = 3;
const SHRINK: usize = 4000;
const SHRINK_SECONDS: u64 = 60;
/// How long to look for failures of other kinds.
const AFTER_FAILURE_SECONDS: u64 = 40;

pub fn worker(p: &'static Prop, seed: u64, part: u64, parts: u64, from: u64, total: u64, dir: &Path) {
    limits();
    let dir = dir.to_path_buf();
    on_stack(move || {
        let progress = fs::OpenOptions::new().create(true).truncate(false).write(true).open(dir.join(format!("progress{part}"))).unwrap();
        let mut st = Stats::default();
        let mut classes: HashSet<String> = HashSet::new();
        let mut i = from + (part + parts - from % parts) % parts;
        let mut first: Option<Instant> = None;
        while i < total && !out_of_time() && first.is_none_or(|t| t.elapsed().as_secs() < AFTER_FAILURE_SECONDS) {
            progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
            arm();
            let mut g = G::random(case_seed(seed, p.id, i));
            let c = run_case(p, &mut g);
            st.evaluations += 1;
            if c.discard {
                st.discarded += 1;
            }
            if c.nontrivial {
                st.nontrivial += 1;
                st.keys.insert(c.key);
            }
            for l in &c.labels {
                *st.labels.entry((*l).to_string()).or_default() += 1;
            }
            if st.samples.len() < 3 && c.nontrivial && !c.desc.is_empty() && i >= part + parts * 7 {
                st.samples.push(c.desc.chars().take(600).collect());
            }
            if let Some(msg) = &c.fail {
                let class = class_of(msg).to_string();
                if classes.insert(class.clone()) {
                    let tape = g.tape.clone();
                    // A smaller case may take the process down, or be a matter of chance.
                    let whole = json!({"index": i, "tape": tape, "message": msg, "desc": c.desc});
                    let file = dir.join(format!("found{part}-{i}"));
                    fs::write(&file, whole.to_string()).unwrap();
                    let start = Instant::now();
                    let small = shrink(tape, SHRINK, |t| {
                        arm();
                        start.elapsed().as_secs() < SHRINK_SECONDS && run_tape(p, t).fail.as_deref().map(class_of) == Some(class.as_str())
                    });
                    arm();
                    let c2 = run_tape(p, &small);
                    if let Some(m) = c2.fail {
                        let v = json!({"index": i, "tape": small, "message": m, "desc": c2.desc});
                        fs::write(&file, v.to_string()).unwrap();
                    }
                    first.get_or_insert_with(Instant::now);
                    if classes.len() >= MAX_CLASSES || class == "hang" {
                        break;
                    }
                }
            }
            i += parts;
        }
        progress.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
        let keys: Vec<u8> = st.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
        // Several runs of one part may follow each other (after a crash).
        fs::write(dir.join(format!("keys{part}-{from}")), keys).unwrap();
        let v = json!({"evaluations": st.evaluations, "discarded": st.discarded, "nontrivial": st.nontrivial,
            "labels": st.labels, "samples": st.samples});
        fs::write(dir.join(format!("result{part}-{from}")), v.to_string()).unwrap();
    });
}

/// Runs a single case given by its tape (a file); exit code 0 or 3.
pub fn one(p: &'static Prop, file: &Path) -> i32 {
    limits();
    let tape: Vec<u32> = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    on_stack(move || {
        arm();
        let c = run_tape(p, &tape);
        if let Some(m) = c.fail {
            println!("{m}");
            return 3;
        }
        0
    })
}

/// What a signal says about the case it ended.
fn signal_class(sig: i32) -> Option<&'static str> {
    match sig {
        libc::SIGSEGV => Some("crash: segmentation fault (memory error or stack overflow)"),
        libc::SIGBUS => Some("crash: bus error"),
        libc::SIGABRT => Some("crash: abort (stack overflow, out of memory at 3 GB, or unsafe precondition violated)"),
        libc::SIGILL => Some("crash: illegal instruction"),
        libc::SIGFPE => Some("crash: arithmetic trap"),
        libc::SIGTRAP => Some("crash: trap"),
        libc::SIGPROF => Some("hang: 10 s of CPU time on one case"),
        _ => None,
    }
}

/// Evaluates a tape in a child: `None` it passed, `Some(message)` it failed.
fn eval_child(p: &Prop, tape: &[u32], dir: &Path) -> Result<Option<String>, String> {
    let f = dir.join("one.json");
    fs::write(&f, serde_json::to_string(tape).unwrap()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["one", p.id])
        .arg(&f)
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if let Some(sig) = out.status.signal() {
        return match signal_class(sig) {
            Some(c) => Ok(Some(c.to_string())),
            None => Err(format!("case ended by signal {sig}")),
        };
    }
    match out.status.code() {
        Some(0) => Ok(None),
        Some(3) => Ok(Some(String::from_utf8_lossy(&out.stdout).trim().to_string())),
        c => Err(format!("case ended with {c:?}")),
    }
}

/// The tape of a case whose run kills the process: drawn in a child that logs every choice.
fn tape_of(p: &Prop, seed: u64, index: u64, dir: &Path) -> Vec<u32> {
    let log = dir.join("tape.log");
    let _ = fs::remove_file(&log);
    let _ = Command::new(std::env::current_exe().unwrap())
        .args(["log", p.id, &seed.to_string(), &index.to_string()])
        .arg(&log)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    fs::read(&log).unwrap_or_default().chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect()
}

pub fn log_case(p: &'static Prop, seed: u64, index: u64, file: &Path) {
    limits();
    let file = fs::File::create(file).unwrap();
    on_stack(move || {
        arm();
        let mut g = G::random(case_seed(seed, p.id, index));
        g.log = Some(file);
        let _ = (p.run)(&mut g);
    });
}

fn write_replay(p: &Prop, tier: &str, seed: u64, tape: &[u32], message: &str, desc: &str) -> PathBuf {
    let dir = verif_root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let v = json!({"property": p.id, "tier": tier, "seed": seed, "tape": tape, "message": message, "case": desc});
    let text = serde_json::to_string_pretty(&v).unwrap();
    let path = dir.join(format!("{}-{:016x}.json", p.id, hash_bytes(text.as_bytes())));
    fs::write(&path, text).unwrap();
    path
}

pub struct Found {
    pub message: String,
    pub replay: PathBuf,
}

/// Checks a property; the exit code.
pub fn check(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let total = std::env::var("HARNESS_N").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let parts: u64 = std::env::var("HARNESS_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::temp_dir().join(format!("harness-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = check_in(p, tier, seed, total, parts, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn check_in(p: &'static Prop, tier: &str, seed: u64, total: u64, parts: u64, dir: &Path, t0: Instant) -> i32 {
    let mut found: Vec<Found> = Vec::new();
    // Known findings and fixed inputs, each in a child of its own.
    let mut fixed_n = 0;
    let known = crate::known::run(p.id);
    for k in &known {
        println!("{k}");
    }
    let out = Command::new(std::env::current_exe().unwrap()).args(["fixed", p.id]).stderr(Stdio::null()).output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("RUN ") {
            fixed_n = n.parse::<u64>().unwrap_or(0);
        } else if let Some(m) = l.strip_prefix("FAIL ") {
            let m: String = serde_json::from_str(m).unwrap();
            let path = write_fixed_replay(p, &m);
            found.push(Found { message: m, replay: path });
        }
    }
    if !out.status.success() {
        let at = text.lines().rev().find_map(|l| l.strip_prefix("AT ")).unwrap_or("?").to_string();
        match out.status.signal().and_then(signal_class) {
            Some(c) => {
                let m = format!("{c} at fixed input {at}");
                let path = write_fixed_replay(p, &m);
                found.push(Found { message: m, replay: path });
            }
            None => {
                eprintln!("ERROR: fixed inputs ended with {:?} at {at}", out.status);
                return 2;
            }
        }
    }
    // Generated cases.
    let mut from: Vec<u64> = vec![0; parts as usize];
    let mut pending_parts: Vec<u64> = (0..parts).collect();
    let mut crashes = 0;
    let mut results: Vec<Value> = Vec::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut fails: Vec<Value> = Vec::new();
    let until = if tier == "thorough" { u64::MAX } else { now() + QUICK_SECONDS - t0.elapsed().as_secs().min(300) };
    while !pending_parts.is_empty() {
        let mut kids = Vec::new();
        for &k in &pending_parts {
            let c = Command::new(std::env::current_exe().unwrap())
                .args(["worker", p.id, &seed.to_string(), &k.to_string(), &parts.to_string(), &from[k as usize].to_string(), &total.to_string()])
                .arg(dir)
                .env(UNTIL, until.to_string())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn();
            match c {
                Ok(c) => kids.push((k, c)),
                Err(e) => {
                    eprintln!("ERROR: cannot start a worker: {e}");
                    return 2;
                }
            }
        }
        pending_parts.clear();
        for (k, mut c) in kids {
            let st = c.wait().unwrap();
            let f = from[k as usize];
            if st.success() {
                let r: Value = serde_json::from_str(&String::from_utf8_lossy(&fs::read(dir.join(format!("result{k}-{f}"))).unwrap())).unwrap();
                for b in fs::read(dir.join(format!("keys{k}-{f}"))).unwrap().chunks_exact(8) {
                    keys.insert(u64::from_le_bytes(b.try_into().unwrap()));
                }
                results.push(r);
                continue;
            }
            let idx = fs::read(dir.join(format!("progress{k}"))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes);
            let Some(idx) = idx.filter(|i| *i != u64::MAX) else {
                eprintln!("ERROR: worker {k} ended with {st:?}");
                return 2;
            };
            let Some(class) = st.signal().and_then(signal_class) else {
                eprintln!("ERROR: worker {k} ended with {st:?} at case {idx}");
                return 2;
            };
            crashes += 1;
            // It may have ended while a failure was made smaller.
            if dir.join(format!("found{k}-{idx}")).exists() {
                if crashes < 4 {
                    from[k as usize] = idx + 1;
                    pending_parts.push(k);
                }
                continue;
            }
            let known = |fails: &[Value], class: &str| fails.iter().any(|f| f["message"].as_str().map(class_of) == Some(class_of(class)));
            // One such case says it all; more of them only take time.
            if known(&fails, class) {
                continue;
            }
            let tape = tape_of(p, seed, idx, dir);
            match eval_child(p, &tape, dir) {
                Err(e) => {
                    eprintln!("ERROR: case {idx}: {e}");
                    return 2;
                }
                Ok(None) => {
                    // A matter of time or memory, which were short: nothing that could be shown.
                    eprintln!("NOTE: case {idx} ended its worker ({class}) but not a process of its own");
                }
                Ok(Some(m)) => {
                    let cls = class_of(&m).to_string();
                    if !known(&fails, &cls) {
                        let budget = if cls == "hang" { 12 } else { 400 };
                        let start = Instant::now();
                        let small = shrink(tape, budget, |t| start.elapsed().as_secs() < SHRINK_SECONDS && matches!(eval_child(p, t, dir), Ok(Some(m)) if class_of(&m) == cls));
                        let m2 = eval_child(p, &small, dir).ok().flatten().unwrap_or(m);
                        fails.push(json!({"index": idx, "tape": small, "message": m2, "desc": describe(p, &small, dir)}));
                    }
                }
            }
            // Go on behind the case, a few times.
            if crashes < 4 && fails.is_empty() {
                from[k as usize] = idx + 1;
                pending_parts.push(k);
            }
        }
    }
    for f in fs::read_dir(dir).unwrap().flatten() {
        if f.file_name().to_string_lossy().starts_with("found") {
            // What the code under test says may not even be UTF-8.
            let text = String::from_utf8_lossy(&fs::read(f.path()).unwrap()).to_string();
            match serde_json::from_str::<Value>(&text) {
                Ok(v) => fails.push(v),
                Err(e) => {
                    eprintln!("ERROR: a failure was found and cannot be read: {e}: {text}");
                    return 2;
                }
            }
        }
    }
    let mut seen: HashSet<String> = HashSet::new();
    fails.sort_by_key(|f| f["tape"].as_array().map_or(0, Vec::len));
    for f in &fails {
        let m = f["message"].as_str().unwrap_or("?").to_string();
        if seen.insert(class_of(&m).to_string()) {
            let tape: Vec<u32> = f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let path = write_replay(p, tier, seed, &tape, &m, f["desc"].as_str().unwrap_or(""));
            found.push(Found { message: m, replay: path });
        }
    }
    // Evidence.
    let sum = |k: &str| results.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    for r in &results {
        for (k, v) in r["labels"].as_object().unwrap() {
            *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        samples.extend(r["samples"].as_array().unwrap().iter().take(1).cloned());
    }
    if samples.is_empty() {
        samples.push(json!("(no case finished)"));
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": keys.len(),
            "nontrivial": sum("nontrivial"),
            "discarded": sum("discarded"),
            "regression_inputs": fixed_n,
            "known_findings_confirmed": known.len(),
            "rule": p.rule,
            "labels": labels,
            "samples": samples,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    let evd = verif_root().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {} regression inputs, {:.1} s",
        p.id,
        sum("evaluations"),
        keys.len(),
        sum("discarded"),
        fixed_n,
        t0.elapsed().as_secs_f64()
    );
    for f in &found {
        println!("  {}", f.message.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, f.replay.display());
    }
    i32::from(!found.is_empty())
}

fn describe(p: &Prop, tape: &[u32], dir: &Path) -> String {
    let f = dir.join("desc.json");
    fs::write(&f, serde_json::to_string(tape).unwrap()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap()).args(["desc", p.id]).arg(&f).env("HARNESS_DESC", "1").stderr(Stdio::null()).output();
    out.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default()
}

/// Prints what is known of a case before it takes the process down.
pub fn desc(p: &'static Prop, file: &Path) {
    let tape: Vec<u32> = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    limits();
    on_stack(move || {
        arm();
        let _ = run_tape(p, &tape);
    });
}

/// Prints what cases are generated (to measure how often something is).
pub fn gen_cases(p: &'static Prop, seed: u64, n: u64) {
    limits();
    on_stack(move || {
        arm();
        for i in 0..n {
            println!("{}", run_case(p, &mut G::random(case_seed(seed, p.id, i))).desc);
        }
    });
}

/// Called by properties with the text of the case, before anything runs on it.
pub fn about_to_run(text: &str) {
    use std::sync::OnceLock;
    static ON: OnceLock<bool> = OnceLock::new();
    if *ON.get_or_init(|| std::env::var_os("HARNESS_DESC").is_some()) {
        print!("{text:?}");
        let _ = std::io::stdout().flush();
    }
}

fn write_fixed_replay(p: &Prop, message: &str) -> PathBuf {
    let dir = verif_root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let v = json!({"property": p.id, "fixed": true, "message": message});
    let text = serde_json::to_string_pretty(&v).unwrap();
    let path = dir.join(format!("{}-{:016x}.json", p.id, hash_bytes(text.as_bytes())));
    fs::write(&path, text).unwrap();
    path
}

pub fn fixed(p: &'static Prop) {
    limits();
    on_stack(move || {
        let xs = (p.fixed)();
        println!("RUN {}", xs.len());
        for (name, f) in xs {
            arm();
            println!("AT {name}");
            if let Some(m) = crate::ev::caught(&f).unwrap_or_else(|m| Some(format!("unusable: {m}"))) {
                println!("FAIL {}", serde_json::to_string(&format!("{m} [{name}]")).unwrap());
            }
        }
    });
}

/// Replays a file: exit 1 when it still fails.
pub fn replay(props: &'static [Prop], file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("unknown property");
    if v["fixed"] == json!(true) {
        let st = Command::new(std::env::current_exe().unwrap()).args(["fixed", p.id]).status().unwrap();
        return i32::from(!st.success());
    }
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let dir = std::env::temp_dir();
    let r = eval_child(p, &tape, &dir);
    println!("case: {}", v["case"].as_str().unwrap_or(""));
    match r {
        Ok(None) => {
            println!("passes");
            0
        }
        Ok(Some(m)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
        Err(e) => {
            eprintln!("ERROR: {e}");
            2
        }
    }
}
