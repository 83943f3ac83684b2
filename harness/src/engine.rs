//! Runs a property over generated cases in parallel shards, shrinks failures, writes evidence.

use crate::tape::{hash_str, mix, shrink, Gen};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Viol {
    pub sig: String,
    pub msg: String,
}

pub fn viol<T>(sig: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { sig: sig.to_owned(), msg: msg })
}

#[derive(Default)]
pub struct Out {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: String,
    /// individual comparisons against the oracle
    pub checks: u64,
}

impl Out {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
}

pub type PropFn = fn(&mut Gen, &mut Out) -> Result<(), Viol>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: PropFn,
}

pub const SHARDS: u64 = 8;
pub const STACK: usize = 8 << 20;
/// a single case normally takes milliseconds
const HANG_SECS: u64 = 120;
/// the shrinker itself stops after 60 s
const SHRINK_SECS: u64 = 100;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or("?".to_owned(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

static ROUNDS: AtomicUsize = AtomicUsize::new(1);

/// how often over a case that depends on the schedule runs; more once it is known to fail
pub fn rounds() -> usize {
    ROUNDS.load(Ordering::Relaxed)
}

pub fn set_rounds(n: usize) {
    ROUNDS.store(n, Ordering::Relaxed);
}

/// is this place of a panic in the harness?
pub fn of_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("harness/src/") || loc == "?"
}

/// runs f; if it panics, place and message
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into())))
}

pub enum Outcome {
    Pass,
    Viol(Viol),
    HarnessBug(String),
}

pub fn run_case(f: PropFn, mut g: Gen) -> (Out, Vec<u64>, Outcome) {
    let mut out = Out::default();
    crate::real::set_uuid_style(g.below(5));
    let outcome = match guarded(|| f(&mut g, &mut out)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(v)) => Outcome::Viol(v),
        Err((loc, msg)) => {
            if of_harness(&loc) {
                Outcome::HarnessBug(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Outcome::Viol(Viol { sig: format!("panic at {}", strip_line(&loc)), msg: format!("panicked at {}: {}", loc, msg) })
            }
        }
    };
    (out, g.tape, outcome)
}

fn strip_line(loc: &str) -> &str {
    loc.rsplitn(2, ':').nth(1).unwrap_or(loc)
}

pub fn case_seed(seed: u64, id: &str, shard: u64, index: u64) -> u64 {
    mix(&[seed, hash_str(id), shard, index])
}

pub struct Paths {
    pub root: PathBuf,
}

impl Paths {
    pub fn evidence(&self, id: &str) -> PathBuf {
        self.root.join("evidence").join(format!("{}.json", id))
    }
    pub fn replay_dir(&self) -> PathBuf {
        self.root.join("replays")
    }
}

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial: u64,
    checks: u64,
    labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" ...");
        t
    }
}

pub struct Failure {
    shard: u64,
    index: u64,
    tape: Vec<u64>,
    viol: Viol,
}

pub fn run(p: &Prop, tier: &str, seed: u64, paths: &Paths, trace: Option<PathBuf>) -> i32 {
    let start = Instant::now();
    let scale: f64 = std::env::var("ADB_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let per_shard = (total + SHARDS - 1) / SHARDS;
    let stop = Arc::new(AtomicBool::new(false));
    let bug: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let failures: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(vec![]));
    let clocks: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(u64::MAX)).collect());
    let indices: Arc<Vec<AtomicU64>> = Arc::new((0..SHARDS).map(|_| AtomicU64::new(0)).collect());
    {
        let (clocks, indices) = (clocks.clone(), indices.clone());
        let (p, tier, root) = (Prop { ..*p }, tier.to_owned(), paths.root.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let now = start.elapsed().as_secs();
            for (shard, c) in clocks.iter().enumerate() {
                let t = c.load(Ordering::Relaxed);
                if t != u64::MAX && now > t + HANG_SECS {
                    let paths = Paths { root: root };
                    let index = indices[shard].load(Ordering::Relaxed);
                    let what = format!("seed {} shard {} case {} has not returned after {} s", seed, shard, index, HANG_SECS);
                    let path = write_replay(&paths, p.id, &json!({
                        "property": p.id, "signature": "hang", "seed": seed, "shard": shard, "index": index,
                    }));
                    println!("{}", what);
                    crash_evidence(&p, &tier, seed, &paths, what);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    std::process::exit(1);
                }
            }
        });
    }
    let mut handles = vec![];
    for shard in 0..SHARDS {
        let (stop, bug, failures, clocks) = (stop.clone(), bug.clone(), failures.clone(), clocks.clone());
        let indices = indices.clone();
        let (f, id) = (p.f, p.id);
        let trace = trace.clone();
        handles.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let mut st = Stats::default();
            let mut tf = trace.map(|d| std::fs::File::create(d.join(format!("shard{}", shard))).unwrap());
            for index in 0..per_shard {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                if let Some(ref mut tf) = tf {
                    use std::os::unix::fs::FileExt;
                    tf.write_all_at(&index.to_le_bytes(), 0).unwrap();
                }
                indices[shard as usize].store(index, Ordering::Relaxed);
                clocks[shard as usize].store(start.elapsed().as_secs(), Ordering::Relaxed);
                let (out, tape, outcome) = run_case(f, Gen::random(case_seed(seed, id, shard, index)));
                st.cases += 1;
                st.checks += out.checks;
                for l in &out.labels {
                    *st.labels.entry(*l).or_insert(0) += 1;
                }
                if out.nontrivial {
                    st.nontrivial += 1;
                    st.distinct.insert(hash_str(&out.desc));
                    if st.samples.len() < 2 && index % 7 == 3 {
                        st.samples.push(clip(&out.desc, 600));
                    }
                }
                match outcome {
                    Outcome::Pass => {}
                    Outcome::HarnessBug(m) => {
                        *bug.lock().unwrap() = Some(format!("{} (shard {} case {})", m, shard, index));
                        stop.store(true, Ordering::Relaxed);
                    }
                    Outcome::Viol(v) => {
                        failures.lock().unwrap().push(Failure { shard: shard, index: index, tape: tape, viol: v });
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            clocks[shard as usize].store(u64::MAX, Ordering::Relaxed);
            st
        }).unwrap());
    }
    let mut st = Stats::default();
    for h in handles {
        let s = h.join().expect("shard thread died");
        st.cases += s.cases;
        st.nontrivial += s.nontrivial;
        st.checks += s.checks;
        for (k, v) in s.labels {
            *st.labels.entry(k).or_insert(0) += v;
        }
        st.distinct.extend(s.distinct);
        st.samples.extend(s.samples);
    }
    if let Some(m) = bug.lock().unwrap().take() {
        println!("ERROR: {}", m);
        return 2;
    }
    let mut failures = failures.lock().unwrap();
    failures.sort_by_key(|f| (f.index, f.shard));
    let mut code = 0;
    let mut nviol = 0;
    if !failures.is_empty() {
        let first = failures.swap_remove(0);
        nviol = 1;
        report(p, tier, seed, paths, first);
        code = 1;
    }
    write_evidence(p, tier, seed, paths, &st, start, nviol);
    println!("{} {} tier: {} cases, {} non-trivial, {} distinct non-trivial, {} oracle comparisons, {:.1} s",
             p.id, tier, st.cases, st.nontrivial, st.distinct.len(), st.checks, start.elapsed().as_secs_f64());
    if std::env::var("ADB_VERBOSE").is_ok() {
        for (k, v) in &st.labels {
            println!("  {:>8} {}", v, k);
        }
    }
    code
}

/// shrinks a failure, writes the replay file and the VIOLATION line
fn report(p: &Prop, tier: &str, seed: u64, paths: &Paths, first: Failure) {
    let (f, sig) = (p.f, first.viol.sig.clone());
    set_rounds(10);
    // the smallest failing tape so far, reported as it is if a candidate of the shrinker hangs
    let best = Arc::new(Mutex::new(Some(first.tape.clone())));
    {
        let best = best.clone();
        let (p, tier, root) = (Prop { ..*p }, tier.to_owned(), paths.root.clone());
        let (sig, msg) = (first.viol.sig.clone(), first.viol.msg.clone());
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(SHRINK_SECS));
            if let Some(ref tape) = *best.lock().unwrap() {
                let paths = Paths { root: root };
                let path = write_replay(&paths, p.id, &json!({
                    "property": p.id, "signature": sig, "message": msg, "tape": tape, "seed": seed,
                    "note": "not fully shrunk: a smaller case does not return",
                }));
                println!("{}", clip(&msg, 4000));
                crash_evidence(&p, &tier, seed, &paths, clip(&msg, 600));
                println!("VIOLATION property={} replay={}", p.id, path.display());
                std::process::exit(1);
            }
        });
    }
    let small = shrink(first.tape.clone(), 6000, |t| {
        let (_, used, o) = run_case(f, Gen::replay(t.to_vec()));
        match o {
            Outcome::Viol(ref v) if v.sig == sig => {
                let mut b = best.lock().unwrap();
                if b.as_ref().map_or(false, |b| (used.len(), &used) < (b.len(), b)) {
                    *b = Some(used.clone());
                }
                Some(used)
            }
            _ => None,
        }
    });
    *best.lock().unwrap() = None;
    let (mut out, mut tape, o) = run_case(f, Gen::replay(small.clone()));
    let mut note = "";
    let v = match o {
        Outcome::Viol(v) => v,
        _ => {
            // not reproducible from the shrunk tape: fall back to the original one
            let (out2, tape2, o) = run_case(f, Gen::replay(first.tape.clone()));
            out = out2;
            tape = tape2;
            match o {
                Outcome::Viol(v) => v,
                _ => {
                    // the library keeps state between cases or is not deterministic
                    note = "seen once; the case alone does not reproduce it, the whole run with this seed may";
                    Viol { sig: first.viol.sig.clone(), msg: first.viol.msg.clone() }
                }
            }
        }
    };
    let path = write_replay(paths, p.id, &json!({
        "property": p.id, "signature": v.sig, "message": v.msg, "case": out.desc, "tape": tape, "note": note,
        "seed": seed, "shard": first.shard, "index": first.index,
    }));
    println!("{}", clip(&v.msg, 4000));
    println!("case: {}", clip(&out.desc, 4000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// A case found by the fuzzer: does it fail here too?
pub fn judge(p: &Prop, tier: &str, seed: u64, paths: &Paths, g: Gen) -> i32 {
    let (out, tape, o) = run_case(p.f, g);
    match o {
        Outcome::Pass => {
            println!("ERROR: the case passes here: {}", clip(&out.desc, 1000));
            3
        }
        Outcome::HarnessBug(m) => {
            println!("ERROR: {}", m);
            2
        }
        Outcome::Viol(v) => {
            report(p, tier, seed, paths, Failure { shard: 0, index: 0, tape: tape, viol: v });
            1
        }
    }
}

/// adds what the fuzzer did to the evidence of the run before it
pub fn add_fuzz_evidence(p: &Prop, paths: &Paths, fuzz: Value, nviol: u64) {
    let path = paths.evidence(p.id);
    let mut v: Value = match std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => return,
    };
    v["coverage"]["coverage_guided"] = fuzz;
    if nviol > 0 {
        v["violations"] = json!(nviol);
    }
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// evidence of a run that a crash or hang ended early
pub fn crash_evidence(p: &Prop, tier: &str, seed: u64, paths: &Paths, what: String) {
    let st = Stats { cases: 1, nontrivial: 1, samples: vec![what], ..Stats::default() };
    write_evidence(p, tier, seed, paths, &st, Instant::now(), 1);
}

pub fn write_replay(paths: &Paths, id: &str, v: &Value) -> PathBuf {
    let dir = paths.replay_dir();
    std::fs::create_dir_all(&dir).unwrap();
    let text = serde_json::to_string_pretty(v).unwrap();
    let path = dir.join(format!("{}-{:016x}.json", id, hash_str(&text)));
    std::fs::File::create(&path).unwrap().write_all(text.as_bytes()).unwrap();
    path
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, paths: &Paths, st: &Stats, start: Instant, nviol: u64) {
    let path = paths.evidence(p.id);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let mut samples: Vec<String> = st.samples.clone();
    samples.truncate(8);
    let v = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": st.distinct.len(),
            "oracle_comparisons": st.checks,
            "rule": p.rule,
            "classes": st.labels,
            "samples": samples,
            "exhaustive": false,
        },
        "assumptions": [
            "the reference model in /verif/harness/src/model.rs states the documented rules",
            "inputs up to the generated sizes; larger ones are not explored",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
