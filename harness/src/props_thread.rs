//! Use from several threads: C35.

use crate::doc;
use crate::engine::{self, viol, Out, Prop, Viol};
use crate::gen::{render, World};
use crate::props_file::{kind_of, observe};
use crate::props_syntax::gen_malformed;
use crate::real::*;
use crate::tape::Gen;
use actiondb::grammar::parser;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::{BuildError, Pattern, PatternLoader};
use std::sync::Barrier;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C35", quick: 12_000, thorough: 250_000, f: c35,
               rule: "two to six scripts of compiling, loading, building and parsing with independent texts, files and matchers, run alone first and then all at the same time in threads of their own, several times over. Non-trivial: at least two scripts have an operation of the same sort" },
    ]
}

/// one use of the library, described by texts alone: nothing of the library is shared between threads
#[derive(Clone, Debug)]
enum Op {
    Compile(String, Vec<String>),
    Document(String),
    File { path: String, way: u64, kind: Kind, msgs: Vec<String> },
    Match { kind: Kind, texts: Vec<String>, msgs: Vec<String>, clone: bool },
}

#[derive(Clone, Debug)]
struct Script {
    style: u64,
    ops: Vec<Op>,
}

/// the words of a text in which the members of a set are listed in any order
fn words(t: &str) -> String {
    let t = t.replace(',', " ");
    let mut w: Vec<&str> = t.split_whitespace().collect();
    w.sort();
    w.join(" ")
}

fn error(e: &BuildError) -> String {
    format!("{} error: {}", kind_of(e), words(&e.to_string()))
}

fn answers(m: &dyn actiondb::matcher::Matcher, msgs: &[String]) -> String {
    let a: Vec<Answer> = msgs.iter().map(|x| answer(m, x)).collect();
    format!("{:?}", a)
}

fn perform(op: &Op) -> String {
    match *op {
        Op::Compile(ref text, ref probes) => match parser::pattern(text) {
            Err(e) => {
                let mut x: Vec<_> = e.expected.iter().map(|x| x.to_string()).collect();
                x.sort();
                format!("error {}:{} at {}: {:?}; {}", e.line, e.column, e.offset, x, words(&e.to_string()))
            }
            Ok(cp) => {
                let mut s = String::new();
                for t in &cp {
                    match *t {
                        TokenType::Literal(ref l) => s.push_str(&format!("{:?} ", l)),
                        TokenType::Parser(ref p) => {
                            let got: Vec<_> = probes.iter().map(|x| p.parse(x).map(|r| r.value().to_owned())).collect();
                            s.push_str(&format!("{:?} {:?} {:?} ", p.name(), p.hash_os(), got));
                        }
                    }
                }
                s
            }
        },
        Op::Document(ref text) => match Pattern::from_json(text) {
            Ok(p) => format!("{:?}", observe(&p)),
            Err(e) => words(&e.to_string()),
        },
        Op::File { ref path, way, kind, ref msgs } => {
            let (r, mut log) = logged(|| match way {
                0 => PatternLoader::load_file(path).map(|f| {
                    let v: Vec<String> = f.into_iter().map(|r| match r {
                        Ok(p) => format!("{:?}", observe(&p)),
                        Err(e) => error(&e),
                    }).collect();
                    v.join("; ")
                }),
                1 => load_strict(kind, path).map(|m| answers(&*m, msgs)),
                _ => load_lenient(kind, path).map(|m| answers(&*m, msgs)),
            });
            for l in log.iter_mut() {
                *l = words(l);
            }
            match r {
                Ok(s) => format!("{} {:?}", s, log),
                Err(e) => format!("{} {:?}", error(&e), log),
            }
        }
        Op::Match { kind, ref texts, ref msgs, clone } => {
            let mut m = new_matcher(kind);
            for (i, t) in texts.iter().enumerate() {
                if let Ok(cp) = parser::pattern(t) {
                    m.add_pattern(pattern(i, cp, &Meta::default(), None));
                }
            }
            if clone {
                m = m.boxed_clone();
            }
            answers(&*m, msgs)
        }
    }
}

/// the directory for the files of a case
fn place() -> std::path::PathBuf {
    scratch().join("together")
}

fn file(g: &mut Gen, tag: &str) -> Op {
    let mut w = World::new(g, false);
    let mut docs = doc::gen_docs(g, &mut w, 4);
    // files of a few patterns; the others take long
    docs.truncate(12);
    if !docs.is_empty() && g.chance(1, 4) {
        // a pattern or a test which does not go
        let i = g.below(docs.len() as u64) as usize;
        docs[i].text = gen_malformed(g);
    }
    let node = doc::file_node(g, &docs);
    let (ext, mut text) = if doc::yaml_can(&node) && g.bool() { ("yaml", doc::yaml(g, &node)) } else { ("json", doc::json(g, &node)) };
    if g.chance(1, 8) {
        let at = g.range(0, text.len());
        text.truncate((0..=at).rev().find(|i| text.is_char_boundary(*i)).unwrap_or(0));
    }
    let file = place().join(format!("{}.{}", tag, ext));
    std::fs::write(&file, text.as_bytes()).unwrap();
    let mut path = file.to_str().unwrap().to_owned();
    if g.chance(1, 3) {
        // relative to the working directory, which is that of all threads
        let up = std::env::current_dir().unwrap().components().count() - 1;
        path = format!("{}{}", "../".repeat(up), &path[1..]);
    }
    let pats: Vec<_> = docs.iter().map(|d| d.toks.clone()).collect();
    let n = g.range(1, 5);
    Op::File { path: path, way: g.below(3), kind: *g.pick(&KINDS), msgs: if pats.is_empty() { vec![w.any_text(g, 5)] } else { w.messages(g, &pats, n) } }
}

fn op(g: &mut Gen, tag: &str, sort: u64) -> Op {
    match sort {
        0 => {
            let mut w = World::new(g, false);
            let text = if g.chance(2, 3) { gen_malformed(g) } else {
                let p = w.pattern(g, &[]);
                render(g, &p)
            };
            let n = g.range(0, 3);
            Op::Compile(text, (0..n).map(|_| w.any_text(g, 5)).collect())
        }
        1 => {
            let mut w = World::new(g, false);
            let mut docs = doc::gen_docs(g, &mut w, 1);
            docs.truncate(1);
            if docs.is_empty() || g.chance(1, 8) {
                return Op::Document(gen_malformed(g));
            }
            let node = doc::pat_node(g, 1, &docs[0]);
            Op::Document(doc::json(g, &node))
        }
        2 => file(g, tag),
        _ => {
            let mut w = World::new(g, false);
            let mut pats = w.patterns(g);
            pats.truncate(12);
            let n = g.range(1, 6);
            let msgs = if pats.is_empty() { vec![w.any_text(g, 5)] } else { w.messages(g, &pats, n) };
            let mut texts: Vec<String> = vec![];
            for p in &pats {
                texts.push(render(g, p));
            }
            Op::Match { kind: *g.pick(&KINDS), texts: texts, msgs: msgs, clone: g.chance(1, 4) }
        }
    }
}

fn sort_of(op: &Op) -> u64 {
    match *op {
        Op::Compile(..) => 0,
        Op::Document(..) => 1,
        Op::File { .. } => 2,
        Op::Match { .. } => 3,
    }
}

/// what the library finds and has to leave as it is: settings of the process and the files
#[derive(PartialEq, Debug)]
struct Around {
    directory: Option<std::path::PathBuf>,
    variables: Vec<(std::ffi::OsString, std::ffi::OsString)>,
    hook: bool,
    level: log::LevelFilter,
    files: Vec<(String, Option<Vec<u8>>)>,
}

fn around() -> Around {
    let mut variables: Vec<_> = std::env::vars_os().collect();
    variables.sort();
    let hook = match engine::guarded(|| panic!("of the caller")) {
        Ok(()) => false,
        Err((loc, _)) => loc.contains("props_thread.rs"),
    };
    let mut files: Vec<_> = std::fs::read_dir(place()).unwrap().map(|e| {
        let p = e.unwrap().path();
        (p.display().to_string(), std::fs::read(&p).ok())
    }).collect();
    files.sort();
    Around { directory: std::env::current_dir().ok(), variables: variables, hook: hook, level: log::max_level(), files: files }
}

/// what differs between two of them
fn changed(a: &Around, b: &Around) -> Option<String> {
    if a.directory != b.directory {
        return Some(format!("the working directory, from {:?} to {:?}", a.directory, b.directory));
    }
    if a.variables != b.variables {
        return Some("the environment variables".to_owned());
    }
    if a.hook != b.hook {
        return Some("the panic hook".to_owned());
    }
    if a.level != b.level {
        return Some(format!("the log level, from {:?} to {:?}", a.level, b.level));
    }
    for x in &a.files {
        match b.files.iter().find(|y| y.0 == x.0) {
            Some(y) if x.1 == y.1 => {}
            Some(_) => return Some(format!("the content of {}", x.0)),
            None => return Some(format!("{}, which is gone", x.0)),
        }
    }
    b.files.iter().find(|y| !a.files.iter().any(|x| x.0 == y.0)).map(|y| format!("{}, which was not there", y.0))
}

fn run(s: &Script) -> Vec<String> {
    set_uuid_style(s.style);
    s.ops.iter().map(perform).collect()
}

fn c35(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let _ = std::fs::remove_dir_all(place());
    std::fs::create_dir_all(place()).unwrap();
    let n = g.range(2, 6);
    // mostly of the same few sorts, so that they meet
    let sorts: Vec<u64> = match g.below(6) {
        0 => vec![0, g.below(2)],
        1 => vec![2],
        2 => vec![3],
        3 => vec![0, 3],
        _ => vec![0, 1, 2, 3],
    };
    let mut scripts: Vec<Script> = vec![];
    for i in 0..n {
        if i > 0 && g.chance(1, 5) {
            // the same work twice
            let again = scripts[g.below(i as u64) as usize].clone();
            scripts.push(again);
            continue;
        }
        let k = g.range(1, 4);
        let style = g.below(4);
        set_uuid_style(style);
        let ops = (0..k).map(|j| {
            let sort = *g.pick(&sorts);
            op(g, &format!("f{}_{}", i, j), sort)
        }).collect();
        scripts.push(Script { style: style, ops: ops });
    }
    out.desc = format!("{:?}", scripts);
    for (i, s) in scripts.iter().enumerate() {
        for t in &scripts[..i] {
            if s.ops.iter().any(|a| t.ops.iter().any(|b| sort_of(a) == sort_of(b))) {
                out.nontrivial = true;
            }
        }
    }
    out.label_if(scripts.iter().any(|s| s.ops.iter().any(|o| sort_of(o) == 2)), "files");
    out.label_if(scripts.iter().filter(|s| s.ops.iter().any(|o| sort_of(o) == 0)).count() > 1, "compiling in more than one");
    engine::install_panic_hook();
    let before = around();
    let alone: Vec<Vec<String>> = scripts.iter().map(run).collect();
    out.checks += 1;
    if let Some(what) = changed(&before, &around()) {
        return viol("changes its surroundings", format!("{:?} changes {}", scripts, what));
    }
    // the short ones meet seldom
    let short = scripts.iter().all(|s| s.ops.iter().all(|o| sort_of(o) < 2));
    let rounds = engine::rounds() * if short { 60 } else { 4 };
    let barrier = Barrier::new(scripts.len());
    let results: Vec<Result<Option<(usize, String)>, (String, String)>> = std::thread::scope(|sc| {
        let handles: Vec<_> = scripts.iter().zip(&alone).map(|(s, expected)| {
            let barrier = &barrier;
            std::thread::Builder::new().stack_size(engine::STACK).spawn_scoped(sc, move || {
                barrier.wait();
                engine::guarded(|| {
                    for _ in 0..rounds {
                        let got = run(s);
                        if let Some(i) = (0..got.len()).find(|i| got[*i] != expected[*i]) {
                            return Some((i, got[i].clone()));
                        }
                    }
                    None
                })
            }).unwrap()
        }).collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        out.checks += (scripts[i].ops.len() * rounds) as u64;
        match r {
            Ok(None) => {}
            Ok(Some((k, got))) => return viol("differs", format!("in a thread beside {} others, {:?} gives\n  {}\ninstead of what it gives alone\n  {}", n - 1, scripts[i].ops[k], got, alone[i][k])),
            Err((loc, msg)) => {
                if engine::of_harness(&loc) {
                    panic!("in a thread: {} at {}", msg, loc);
                }
                return viol("panic", format!("in a thread beside {} others, {:?} panics at {}: {}", n - 1, scripts[i].ops, loc, msg));
            }
        }
    }
    out.checks += 1;
    if let Some(what) = changed(&before, &around()) {
        return viol("changes its surroundings", format!("{:?}, all at the same time, changes {}", scripts, what));
    }
    Ok(())
}
