//! adbcheck run <id> | replay <file> | list
//! The parent process spawns a child for the actual run, so that a crash of the code under test
//! (signal, stack overflow) or a hang is turned into a reported violation.

mod doc;
mod engine;
mod gen;
mod model;
#[cfg(feature = "own")]
mod own;
mod props_build;
mod props_convert;
mod props_file;
mod props_match;
#[cfg(feature = "node")]
mod props_node;
mod props_object;
#[cfg(feature = "own")]
mod props_own;
mod props_syntax;
mod props_thread;
#[cfg(feature = "utils")]
mod props_utils;
mod real;
mod tape;

use engine::{Outcome, Paths, Prop};
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::Command;
use tape::Gen;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(props_match::props());
    v.extend(props_syntax::props());
    v.extend(props_file::props());
    v.extend(props_build::props());
    v.extend(props_object::props());
    v.extend(props_thread::props());
    #[cfg(feature = "node")]
    v.extend(props_node::props());
    #[cfg(feature = "own")]
    v.extend(props_own::props());
    #[cfg(feature = "utils")]
    v.extend(props_utils::props());
    v.extend(props_convert::props());
    v.sort_by_key(|p| p.id);
    v
}

fn root() -> PathBuf {
    match std::env::var("ADB_ROOT") {
        Ok(r) => PathBuf::from(r),
        Err(_) => PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_owned(),
    }
}

/// scratch directory, removed when the parent ends
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("adbcheck.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn find(id: &str) -> Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

fn child(args: &[String], scratch: &Scratch, trace: bool) -> std::process::ExitStatus {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("ADB_CHILD", "1").env("ADB_SCRATCH", &scratch.0);
    if trace {
        c.env("ADB_TRACE", "1");
    }
    c.status().expect("cannot start the child process")
}

/// runs one case of one shard on a thread like those of the full run
fn one_case(p: Prop, g: Gen) -> i32 {
    engine::set_rounds(50);
    let h = std::thread::Builder::new().stack_size(engine::STACK).spawn(move || {
        let (out, _, o) = engine::run_case(p.f, g);
        match o {
            Outcome::Pass => {
                println!("case: {}", out.desc);
                println!("passes");
                0
            }
            Outcome::Viol(v) => {
                println!("{}", v.msg);
                println!("case: {}", out.desc);
                1
            }
            Outcome::HarnessBug(m) => {
                println!("ERROR: {}", m);
                2
            }
        }
    });
    h.unwrap().join().unwrap()
}

fn run_parent(id: &str) -> i32 {
    let p = find(id);
    let paths = Paths { root: root() };
    let scratch = Scratch::new();
    let args: Vec<String> = vec!["run".into(), id.into()];
    let _ = std::fs::remove_file(paths.evidence(id));
    let st = child(&args, &scratch, false);
    if let Some(c) = st.code() {
        if c == 0 {
            known_findings(id, &paths, &scratch);
        }
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("the process running the cases was ended by signal {}; looking for the case", sig);
    if sig == 9 || sig == 15 {
        println!("ERROR: ended from outside; inconclusive");
        return 3;
    }
    if id == "C35" {
        // depends on the schedule: the whole run is the reproduction
        let what = format!("the run with seed {} ends the process with signal {}", seed(), sig);
        let path = engine::write_replay(&paths, id, &json!({ "property": id, "signature": what, "seed": seed(), "run": true }));
        println!("{}", what);
        engine::crash_evidence(&p, &tier(), seed(), &paths, what);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    let st = child(&args, &scratch, true);
    if st.signal().is_none() {
        println!("ERROR: the crash does not reproduce");
        return 3;
    }
    for shard in 0..engine::SHARDS {
        let f = scratch.0.join(format!("shard{}", shard));
        let b = match std::fs::read(&f) {
            Ok(b) if b.len() == 8 => b,
            _ => continue,
        };
        let index = u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]);
        let args: Vec<String> = vec!["case".into(), id.into(), seed().to_string(), shard.to_string(), index.to_string()];
        let st = child(&args, &scratch, false);
        let how = match (st.signal(), st.code()) {
            (Some(s), _) => format!("ends the process with signal {}", s),
            // its shrunken form crashed
            (None, Some(1)) => "breaks the property".to_owned(),
            _ => continue,
        };
        let path = engine::write_replay(&paths, id, &json!({
            "property": id, "signature": how, "seed": seed(), "shard": shard, "index": index,
        }));
        println!("the code under test {} in shard {} case {}", how, shard, index);
        engine::crash_evidence(&p, &tier(), seed(), &paths, format!("seed {} shard {} case {}: {}", seed(), shard, index, how));
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    println!("ERROR: no single case reproduces the crash");
    3
}

/// Coverage-guided search over the choices of the generators, by libFuzzer processes that share a corpus.
fn fuzz_parent(id: &str, binary: &str) -> i32 {
    let p = find(id);
    let paths = Paths { root: root() };
    let scratch = Scratch::new();
    let secs: u64 = std::env::var("ADB_FUZZ_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(240);
    let corpus = scratch.0.join("corpus");
    std::fs::create_dir_all(&corpus).unwrap();
    let mut r = tape::Rng::new(tape::mix(&[seed(), tape::hash_str(id), 77]));
    for i in 0..300 {
        let n = r.next() % *[64, 300, 2000, 8000].get((i % 4) as usize).unwrap();
        let b: Vec<u8> = (0..n).map(|_| (r.next() >> 32) as u8).collect();
        std::fs::write(corpus.join(format!("s{}", i)), b).unwrap();
    }
    let found = scratch.0.join("found.json");
    let mut workers = vec![];
    for w in 0..engine::SHARDS {
        let dir = scratch.0.join(format!("w{}", w));
        std::fs::create_dir_all(dir.join("art")).unwrap();
        let log = std::fs::File::create(dir.join("log")).unwrap();
        let c = Command::new(binary).arg(&corpus).arg(format!("-max_total_time={}", secs)).arg(format!("-seed={}", seed() * 100 + w + 1))
            .args(&["-max_len=16384", "-len_control=20", "-rss_limit_mb=3500", "-timeout=110", "-print_final_stats=1", "-reload=1", "-use_value_profile=1"])
            .arg(format!("-artifact_prefix={}/", dir.join("art").display()))
            .env("ADB_PROP", id).env("ADB_FOUND", &found).env("ADB_SCRATCH", &dir).current_dir(&dir)
            .stdout(std::process::Stdio::null()).stderr(log).spawn().expect("cannot start the fuzzer");
        workers.push(c);
    }
    // until all have ended, or the first finding
    let start = std::time::Instant::now();
    loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        let ended = workers.iter_mut().filter_map(|w| w.try_wait().unwrap()).collect::<Vec<_>>();
        let bad = ended.iter().any(|s| !s.success());
        if ended.len() == workers.len() || bad || start.elapsed().as_secs() > secs + 200 {
            for w in workers.iter_mut() {
                let _ = w.kill();
                let _ = w.wait();
            }
            break;
        }
    }
    let (mut runs, mut arts, mut cov) = (0u64, vec![], 0u64);
    for w in 0..engine::SHARDS {
        let dir = scratch.0.join(format!("w{}", w));
        let log = String::from_utf8_lossy(&std::fs::read(dir.join("log")).unwrap_or_default()).into_owned();
        let mut n = 0;
        for l in log.lines() {
            if let Some(x) = l.strip_prefix("stat::number_of_executed_units:") {
                n = x.trim().parse().unwrap_or(0);
            } else if l.starts_with('#') {
                let ws: Vec<&str> = l.split_whitespace().collect();
                n = n.max(ws[0][1..].parse().unwrap_or(0));
                if let Some(k) = ws.iter().position(|x| *x == "cov:") {
                    cov = cov.max(ws.get(k + 1).and_then(|x| x.parse().ok()).unwrap_or(0));
                }
            }
        }
        runs += n;
        for e in std::fs::read_dir(dir.join("art")).unwrap() {
            arts.push(e.unwrap().path());
        }
    }
    let units = std::fs::read_dir(&corpus).map(|d| d.count()).unwrap_or(0);
    let mut code = 0;
    let mut what = vec![];
    if found.exists() {
        what.push(vec!["judge".to_owned(), id.to_owned(), found.display().to_string()]);
    } else {
        arts.sort();
        for a in arts.iter().filter(|a| !a.file_name().unwrap().to_str().unwrap().starts_with("slow-unit")) {
            what.push(vec!["judge".to_owned(), id.to_owned(), a.display().to_string()]);
        }
    }
    for args in &what {
        let st = child(args, &scratch, false);
        let c = match (st.code(), st.signal()) {
            (Some(c), _) => c,
            (None, Some(s)) if s != 9 && s != 15 => {
                let b = std::fs::read(&args[2]).unwrap();
                let path = engine::write_replay(&paths, id, &json!({
                    "property": id, "signature": format!("ends the process with signal {}", s), "bytes": b,
                }));
                println!("VIOLATION property={} replay={}", id, path.display());
                1
            }
            _ => 3,
        };
        code = if c == 1 || code == 1 { 1 } else { c.max(code) };
    }
    engine::add_fuzz_evidence(&p, &paths, json!({
        "executions": runs, "corpus": units, "edges": cov, "seconds": start.elapsed().as_secs(),
        "rule": "libFuzzer mutates the choices of the generators of this check, guided by the coverage of the library, the oracle and the generators",
    }), if code == 1 { 1 } else { 0 });
    println!("{} coverage-guided: {} cases, {} edges, corpus of {} in {} s", id, runs, cov, units, start.elapsed().as_secs());
    code
}

/// a file of the fuzzer: a tape (JSON) or raw choices
fn judge(id: &str, file: &str) -> i32 {
    let b = std::fs::read(file).expect("cannot read the file");
    let g = match serde_json::from_slice::<Value>(&b) {
        Ok(ref v) if v["tape"].is_array() => Gen::replay(v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()),
        _ => Gen::bytes(b),
    };
    let p = find(id);
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(300));
        println!("ERROR: the case does not end");
        std::process::exit(3);
    });
    let h = std::thread::Builder::new().stack_size(engine::STACK).spawn(move || engine::judge(&p, &tier(), seed(), &Paths { root: root() }, g));
    h.unwrap().join().unwrap()
}

/// says for each recorded finding of the property whether its input still fails
fn known_findings(id: &str, paths: &Paths, scratch: &Scratch) {
    let text = match std::fs::read_to_string(paths.root.join("known_findings.json")) {
        Ok(t) => t,
        Err(_) => return,
    };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json");
    for k in v["known"].as_array().unwrap_or(&vec![]) {
        if k["property"].as_str() != Some(id) {
            continue;
        }
        // a process of its own with 1 GB of address space
        let st = Command::new("bash").arg("-c").arg("ulimit -c 0; ulimit -v 1000000; exec \"$0\" probe \"$1\"")
            .arg(std::env::current_exe().unwrap()).arg(k["probe"].as_str().unwrap_or(""))
            .env("ADB_CHILD", "1").env("ADB_SCRATCH", &scratch.0)
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if st.map(|st| st.signal().is_some()).unwrap_or(false) {
            println!("KNOWN-FINDING: property={} {}", id, k["what"].as_str().unwrap_or(""));
        }
    }
}

/// the inputs of the recorded findings
fn probe(name: &str) -> i32 {
    let text = match name {
        "yaml-nesting" => format!("{}{}", "[".repeat(100_000), "]".repeat(100_000)),
        "yaml-aliases" => {
            let mut t = "a0: &a0 [x, x, x, x, x, x, x, x, x, x]\n".to_owned();
            for i in 1..9 {
                t.push_str(&format!("a{}: &a{} [{}]\n", i, i, vec![format!("*a{}", i - 1); 10].join(", ")));
            }
            t
        }
        _ => return 2,
    };
    let path = real::put("yaml", text.as_bytes());
    match actiondb::matcher::PatternLoader::load_file(&path) {
        Ok(_) => 0,
        Err(_) => 0,
    }
}

fn tier() -> String {
    std::env::var("VERIF_TIER").unwrap_or("quick".to_owned())
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).expect("cannot read the replay file");
    let v: Value = serde_json::from_str(&text).expect("not a replay file");
    let p = find(v["property"].as_str().unwrap());
    if v["run"].as_bool() == Some(true) {
        return engine::run(&p, &tier(), v["seed"].as_u64().unwrap(), &Paths { root: root() }, None);
    }
    if let Some(b) = v["bytes"].as_array() {
        return one_case(p, Gen::bytes(b.iter().map(|x| x.as_u64().unwrap() as u8).collect()));
    }
    let g = match v["tape"].as_array() {
        Some(t) => Gen::replay(t.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Gen::random(engine::case_seed(v["seed"].as_u64().unwrap(), p.id, v["shard"].as_u64().unwrap(), v["index"].as_u64().unwrap())),
    };
    one_case(p, g)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let is_child = std::env::var("ADB_CHILD").is_ok();
    let a: Vec<&str> = args.iter().map(|x| &x[..]).collect();
    let code = match &a[..] {
        ["list"] => {
            for p in props() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        ["run", id] if !is_child => run_parent(id),
        ["run", id] => {
            engine::install_panic_hook();
            real::install_logger();
            let trace = std::env::var("ADB_TRACE").ok().map(|_| real::scratch_root());
            engine::run(&find(id), &tier(), seed(), &Paths { root: root() }, trace)
        }
        ["fuzz", id, binary] if !is_child => fuzz_parent(id, binary),
        ["judge", id, file] if is_child => {
            engine::install_panic_hook();
            real::install_logger();
            judge(id, file)
        }
        ["probe", name] if is_child => probe(name),
        ["case", id, seed, shard, index] => {
            engine::install_panic_hook();
            real::install_logger();
            let p = find(id);
            let s = engine::case_seed(seed.parse().unwrap(), p.id, shard.parse().unwrap(), index.parse().unwrap());
            one_case(p, Gen::random(s))
        }
        ["replay", _] if !is_child => {
            let scratch = Scratch::new();
            let st = child(&args, &scratch, false);
            st.code().unwrap_or_else(|| {
                println!("ended by signal {}", st.signal().unwrap_or(0));
                1
            })
        }
        ["replay", file] => {
            engine::install_panic_hook();
            real::install_logger();
            replay(file)
        }
        _ => {
            eprintln!("usage: adbcheck run <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
