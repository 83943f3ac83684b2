//! Pattern files: C12-C15.

use crate::doc::{self, Node, PatDoc, TestDoc};
use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::World;
use crate::model::{compile, Verdict};
use crate::props_build::mentions;
use crate::props_syntax::{gen_malformed, same_tokens};
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::{BuildError, Pattern, PatternLoader};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", quick: 60_000, thorough: 1_600_000, f: c12,
               rule: "documents of 0-150 patterns with random metadata and test messages, written as JSON with random key order, blanks and escapes. Non-trivial: at least one pattern with an optional field" },
        Prop { id: "C13", quick: 36_000, thorough: 960_000, f: c13,
               rule: "the same document written as JSON and as YAML (block, flow, quoting styles), loaded, strictly built and asked the same messages. Non-trivial: at least one pattern with an optional field" },
        Prop { id: "C14", quick: 90_000, thorough: 2_400_000, f: c14,
               rule: "a valid document with exactly one schema fault injected at a random place, as JSON or YAML. Non-trivial: the fault is inside a pattern or test message and there are other patterns" },
        Prop { id: "C30", quick: 90_000, thorough: 2_400_000, f: c30,
               rule: "valid documents in which one or more patterns have a malformed text or none, with their other fields in random order, and documents without a fault, loaded in all ways with the log captured. Non-trivial: there is a fault, and a name or a pattern without a fault besides" },
        Prop { id: "C15", quick: 150_000, thorough: 4_000_000, f: c15,
               rule: "extensions, missing and unreadable files, non-UTF-8 bytes at random places, syntactically broken documents, loaded in all ways. Non-trivial: every case is a failure case of one class; distinct by path and content" },
    ]
}

/// observable content of a loaded pattern
#[derive(Debug, PartialEq, Clone)]
pub struct Loaded {
    uuid: String,
    meta: Meta,
    tests: Vec<(String, BTreeMap<String, String>, Option<Vec<String>>)>,
}

fn test_tuple(t: &TestMessage) -> (String, BTreeMap<String, String>, Option<Vec<String>>) {
    (t.message().to_owned(), t.values().clone(), t.tags().map(|x| x.to_vec()))
}

pub fn observe(p: &Pattern) -> Loaded {
    let mut c = p.clone();
    let mut tests = vec![];
    while let Some(t) = c.pop_test_message() {
        tests.push(test_tuple(&t));
    }
    tests.sort();
    Loaded {
        uuid: p.uuid().hyphenated().to_string(),
        meta: Meta { name: p.name().map(|x| x.to_owned()), values: p.values().cloned(), tags: p.tags().map(|x| x.to_vec()) },
        tests: tests,
    }
}

fn expected(i: usize, d: &PatDoc) -> Loaded {
    let mut tests: Vec<_> = d.tests.iter().flat_map(|x| x.iter()).map(|t: &TestDoc| (t.message.clone(), t.values.clone().unwrap_or_default(), t.tags.clone())).collect();
    tests.sort();
    Loaded { uuid: uuid_of(i).hyphenated().to_string(), meta: d.meta.clone(), tests: tests }
}

fn rich(docs: &[PatDoc]) -> bool {
    docs.iter().any(|d| d.meta != Meta::default() || d.tests.is_some())
}

/// a file of some 20 to 40 MB
fn large_file(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    out.label("large file");
    let n = g.range(1, 3) * 10_000_000 + g.range(7_000_000, 7_000_100);
    let which = g.below(6);
    let unit = *g.pick(&["x", "é", "ab ", "1234567", "😀"]);
    let long = unit.repeat(n / unit.len());
    let pad = " ".repeat(if which == 5 { n } else { 0 });
    let put = |k: u64| if k == which { &long[..] } else { "z" };
    let before = g.range(0, 3);
    out.desc = format!("field {} of pattern {} is {:?} up to {} bytes", which, before, unit, n);
    let mut text = String::from("{\"patterns\": [");
    for i in 0..before {
        text.push_str(&format!("{{\"uuid\": \"{}\", \"pattern\": \"a\"}}, ", uuid_of(i).hyphenated()));
    }
    text.push_str(&format!("{{\"uuid\": \"{}\", \"pattern\": \"a\", \"name\": \"{}\", \"tags\": [\"{}\"], \"values\": {{\"{}\": \"{}\"}}, {}\"test_messages\": [{{\"message\": \"{}\"}}]}}]}}",
                           uuid_of(before).hyphenated(), put(0), put(1), put(2), put(3), pad, put(4)));
    let path = put_somewhere(g, "json", text.as_bytes());
    drop(text);
    let file = match PatternLoader::load_file(&path) {
        Ok(f) => f,
        Err(e) => return viol("valid file rejected", format!("a valid document of {} bytes or more is rejected: {}", n, e)),
    };
    out.checks += 1;
    let ok = file.patterns().len() == before + 1 && {
        let p = observe(&file.patterns()[before]);
        p.meta.name.as_ref().map_or(false, |x| x == put(0)) && p.meta.tags.as_ref().map_or(false, |x| x.len() == 1 && x[0] == put(1))
            && p.meta.values.as_ref().map_or(false, |x| x.len() == 1 && x.iter().all(|(k, v)| k == put(2) && v == put(3)))
            && p.tests.len() == 1 && p.tests[0].0 == put(4)
    };
    if !ok {
        return viol("content", format!("a document of {} bytes or more is not loaded as it is written ({})", n, out.desc));
    }
    Ok(())
}

fn c12(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    if g.chance(1, 6000) {
        return large_file(g, out);
    }
    let mut w = World::new(g, false);
    if g.chance(1, 6) {
        out.label("repeated uuids");
        crate::real::set_uuid_style(g.below(3) + 10);
    }
    let docs = doc::gen_docs(g, &mut w, 5);
    let node = doc::file_node(g, &docs);
    let text = doc::json(g, &node);
    out.desc = text.clone();
    out.nontrivial = rich(&docs);
    out.label_if(docs.len() > 20, "many patterns");
    out.label_if(text.len() > 65536, "file over 64 KiB");
    let path = put_somewhere(g, "json", text.as_bytes());
    out.label_if(!path.ends_with("/p.json"), "unusual path");
    let file = match PatternLoader::load_file(&path) {
        Ok(f) => f,
        Err(e) => return viol("valid file rejected", format!("the valid document {:?} in {:?} is rejected: {}", text, path, e)),
    };
    out.checks += 1;
    if file.patterns().len() != docs.len() {
        return viol("number of patterns", format!("{} patterns are loaded from {:?}", file.patterns().len(), text));
    }
    for (i, (p, d)) in file.patterns().iter().zip(&docs).enumerate() {
        out.checks += 1;
        let (got, want) = (observe(p), expected(i, d));
        if got != want {
            return viol("content", format!("pattern {} is loaded as {:?} instead of {:?}", i, got, want));
        }
        if compile(&d.text) == Verdict::Accept(d.toks.clone()) {
            same_tokens(g, out, &w, &d.toks, p.pattern(), &d.text)?;
        }
    }
    // iterating over the file gives each pattern once
    let mut seen: Vec<String> = vec![];
    for r in file {
        match r {
            Ok(p) => {
                let o = observe(&p);
                match (0..docs.len()).find(|i| expected(*i, &docs[*i]) == o) {
                    Some(_) => seen.push(o.uuid),
                    None => return viol("content", format!("iterating the file gives an unknown pattern {:?}", o)),
                }
            }
            Err(e) => return viol("iteration", format!("iterating a loaded file gives an error: {}", e)),
        }
    }
    seen.sort();
    let mut want: Vec<String> = (0..docs.len()).map(|i| uuid_of(i).hyphenated().to_string()).collect();
    want.sort();
    out.checks += 1;
    if seen != want {
        return viol("iteration", format!("iterating the file of {} patterns gives {:?}", docs.len(), seen));
    }
    // single patterns
    if !docs.is_empty() {
        let i = g.range(0, docs.len() - 1);
        let n = doc::pat_node(g, i, &docs[i]);
        let t = doc::json(g, &n);
        out.checks += 1;
        match Pattern::from_json(&t) {
            Ok(p) => if observe(&p) != expected(i, &docs[i]) {
                return viol("content", format!("Pattern::from_json({:?}) gives {:?}", t, observe(&p)));
            },
            Err(e) => return viol("valid pattern rejected", format!("Pattern::from_json rejects {:?}: {}", t, e)),
        }
    }
    Ok(())
}

fn c13(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    let mut docs = doc::gen_docs(g, &mut w, 4);
    if g.chance(2, 3) {
        // keep only expectations that can hold, so that strict building often succeeds
        for d in &mut docs {
            let toks = d.toks.clone();
            if let Some(ref mut ts) = d.tests {
                for t in ts.iter_mut() {
                    t.message = w.sample(g, &toks);
                    t.values = None;
                    t.tags = d.meta.tags.clone();
                }
            }
        }
    }
    let node = doc::file_node(g, &docs);
    let j = doc::json(g, &node);
    let y = doc::yaml(g, &node);
    out.desc = format!("JSON {:?} YAML {:?}", j, y);
    out.nontrivial = rich(&docs);
    let pj = put_somewhere(g, "json", j.as_bytes());
    let ext = *g.pick(&["yaml", "yml", "yaml", "YAML", "YML"]);
    let py = put_somewhere(g, ext, y.as_bytes());
    let (fj, fy) = (PatternLoader::load_file(&pj), PatternLoader::load_file(&py));
    out.checks += 1;
    match (fj, fy) {
        (Ok(a), Ok(b)) => {
            let (x, z): (Vec<_>, Vec<_>) = (a.patterns().iter().map(observe).collect(), b.patterns().iter().map(observe).collect());
            if x != z {
                return viol("different content", format!("JSON {:?} loads as {:?}, YAML {:?} as {:?}", j, x, y, z));
            }
            let order = |f: actiondb::matcher::pattern::file::PatternFile| -> Vec<String> {
                f.into_iter().map(|r| r.map(|p| p.uuid().hyphenated().to_string()).unwrap_or("error".to_owned())).collect()
            };
            let toks = |f: &actiondb::matcher::pattern::file::PatternFile| -> Vec<String> {
                f.patterns().iter().map(|p| format!("{:?}", p.pattern())).collect()
            };
            if toks(&a) != toks(&b) {
                return viol("different patterns", format!("JSON {:?} and YAML {:?} give different compiled patterns", j, y));
            }
            if order(a) != order(b) {
                return viol("different order", format!("JSON {:?} and YAML {:?} are iterated in different order", j, y));
            }
        }
        (Err(a), Err(b)) => {
            out.label("both rejected");
            let _ = (a, b);
            out.nontrivial = false;
        }
        (Ok(_), Err(e)) => return viol("YAML rejected", format!("the JSON document loads, the YAML document {:?} does not: {}", y, e)),
        (Err(e), Ok(_)) => return viol("JSON rejected", format!("the YAML document loads, the JSON document {:?} does not: {}", j, e)),
    }
    let mut msgs: Vec<String> = vec![];
    for d in docs.iter().take(6) {
        msgs.push(w.sample(g, &d.toks));
    }
    msgs.push(w.text(g, 0, 5));
    for k in KINDS.iter() {
        out.checks += 1;
        match (load_strict(*k, &pj), load_strict(*k, &py)) {
            (Ok(a), Ok(b)) => {
                out.label("strict build succeeds");
                for m in &msgs {
                    out.checks += 1;
                    if answer(&*a, m) != answer(&*b, m) {
                        return viol("different answers", format!("{:?}: the matchers built from JSON {:?} and YAML {:?} answer {:?} differently", k, j, y, m));
                    }
                }
            }
            (Err(a), Err(b)) => {
                out.label("strict build fails");
                if a.to_string() != b.to_string() {
                    return viol("different errors", format!("{:?}: strict loading of JSON {:?} fails with {}, of YAML {:?} with {}", k, j, a, y, b));
                }
            }
            (a, b) => return viol("different outcome", format!("{:?}: strict loading of JSON {:?} gives {:?}, of YAML {:?} gives {:?}", k, j, a.map(|_| ()).map_err(|e| e.to_string()), y, b.map(|_| ()).map_err(|e| e.to_string()))),
        }
        out.checks += 1;
        match (load_lenient(*k, &pj), load_lenient(*k, &py)) {
            (Ok(a), Ok(b)) => for m in &msgs {
                if answer(&*a, m) != answer(&*b, m) {
                    return viol("different answers", format!("{:?}: leniently loaded JSON {:?} and YAML {:?} answer {:?} differently", k, j, y, m));
                }
            },
            (a, b) => return viol("different outcome", format!("{:?}: lenient loading of JSON {:?} gives {:?}, of YAML {:?} gives {:?}", k, j, a.map(|_| ()).map_err(|e| e.to_string()), y, b.map(|_| ()).map_err(|e| e.to_string()))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- faults

pub fn kind_of(e: &BuildError) -> &'static str {
    match *e {
        BuildError::TestMessage(_) => "test message",
        BuildError::Io(_) => "io",
        BuildError::DeserJson(_) => "json",
        BuildError::DeserYaml(_) => "yaml",
        BuildError::UnsupportedFileExtension => "extension",
        BuildError::NotUtf8FileName => "file name",
    }
}

/// all ways of loading a file must fail with this kind of error
fn must_fail(out: &mut Out, path: &str, kind: &str, what: &str) -> Result<Vec<String>, Viol> {
    let mut texts = vec![];
    let mut results: Vec<(&'static str, Result<(), BuildError>)> = vec![
        ("load_file", PatternLoader::load_file(path).map(|_| ())),
    ];
    for k in KINDS.iter() {
        results.push(("from_file", load_strict(*k, path).map(|_| ())));
        results.push(("from_file_ignore_errors", load_lenient(*k, path).map(|_| ())));
    }
    for (way, r) in results {
        out.checks += 1;
        match r {
            Ok(()) => return viol("accepted", format!("{}: {} succeeds", what, way)),
            Err(e) => {
                if kind_of(&e) != kind {
                    return viol("wrong kind of error", format!("{}: {} fails as a {} error instead of {}: {}", what, way, kind_of(&e), kind, e));
                }
                texts.push(e.to_string());
            }
        }
    }
    Ok(texts)
}

fn field<'a>(n: &'a mut Node, k: &str) -> Option<&'a mut Node> {
    match *n {
        Node::Map(ref mut v) => v.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1),
        _ => None,
    }
}

fn entries(n: &mut Node) -> &mut Vec<(String, Node)> {
    match *n {
        Node::Map(ref mut v) => v,
        _ => panic!("not a map"),
    }
}

fn items(n: &mut Node) -> &mut Vec<Node> {
    match *n {
        Node::Seq(ref mut v) => v,
        _ => panic!("not a sequence"),
    }
}

fn wrong_type(g: &mut Gen, want: &str) -> Node {
    let scalar = |g: &mut Gen| Node::Raw((*g.pick(&["1", "true", "-3", "0", "false"])).to_owned());
    match want {
        "string" => match g.below(4) {
            0 | 1 => scalar(g),
            2 => Node::Seq(vec![Node::Str("a".to_owned())]),
            _ => Node::Map(vec![("a".to_owned(), Node::Str("b".to_owned()))]),
        },
        "map" => match g.below(4) {
            0 => scalar(g),
            1 => Node::Str("a".to_owned()),
            2 => Node::Seq(vec![Node::Str("a".to_owned())]),
            _ => {
                let x = wrong_type(g, "string");
                let mut v = vec![("a".to_owned(), Node::Str("b".to_owned()))];
                let at = g.range(0, 1);
                v.insert(at, ("c".to_owned(), x));
                Node::Map(v)
            }
        },
        "seq" => match g.below(4) {
            0 => scalar(g),
            1 => Node::Str("a".to_owned()),
            2 => Node::Map(vec![("a".to_owned(), Node::Str("b".to_owned()))]),
            _ => {
                let x = wrong_type(g, "string");
                let mut v = vec![Node::Str("a".to_owned()), Node::Str("b".to_owned())];
                let at = g.range(0, 2);
                v.insert(at, x);
                Node::Seq(v)
            }
        },
        _ => panic!("unknown type"),
    }
}

const FIELDS: [(&str, &str); 5] = [("uuid", "string"), ("pattern", "string"), ("name", "string"), ("values", "map"), ("tags", "seq")];

/// Injects one schema fault; returns its description and the missing field, if that is the fault.
fn inject(g: &mut Gen, node: &mut Node, out: &mut Out) -> (String, Option<&'static str>) {
    let unknown = |g: &mut Gen, known: &[&str]| -> String {
        loop {
            let k = match g.below(3) {
                0 => (*g.pick(&["Name", "uuids", "", "x", "message", "uuid", "patterns", "pattern", "name", "test_message", "testmessages", "tag", "value", "values ", " name", "UUID", "é", "test_messages", "description", "pattern\n", "values", "tags",
                                "_comment", "_", "__id", "comment", "comments", "//", "#", "$schema", "x-note", "version", "id", "class", "rule", "test-messages", "testMessages", "messages", "program", "type", "meta", "author", "doc", "null"])).to_owned(),
                1 => {
                    // a known name with one change
                    let base: Vec<char> = g.pick(&["patterns", "uuid", "pattern", "name", "values", "tags", "test_messages", "message"]).chars().collect();
                    let at = g.range(0, base.len() - 1);
                    let c = *g.pick(&['_', '-', 'x', ' ', '.', 'S', 's', '\0', '0', '$', 'é']);
                    let mut b = base.clone();
                    match g.below(8) {
                        // other case; YAML and YML are accepted
                        6 => b[at] = b[at].to_ascii_uppercase(),
                        7 => {
                            b[0] = b[0].to_ascii_uppercase();
                            if g.bool() {
                                b.iter_mut().skip(1).for_each(|c| if g.bool() { *c = c.to_ascii_uppercase() });
                            }
                        }
                        0 => b.insert(0, c),
                        1 => b.push(c),
                        2 => b.insert(at, c),
                        3 => b[at] = c,
                        4 => b[at] = b[at].to_ascii_uppercase(),
                        _ => {
                            b.remove(at);
                        }
                    }
                    b.into_iter().collect()
                }
                _ => (0..g.range(0, 8)).map(|_| *g.pick(&['a', 'b', 'e', 'g', 'm', 'n', 's', 't', 'u', '_', '-', '$', '.', '1', ' ', 'é'])).collect(),
            };
            if !known.contains(&&k[..]) {
                return k;
            }
        }
    };
    let any_node = |g: &mut Gen| -> Node {
        match g.below(6) {
            5 => Node::Seq(vec![Node::Str("a".to_owned())]),
            0 => Node::Str("v".to_owned()),
            1 => Node::Raw("1".to_owned()),
            2 => Node::Raw("null".to_owned()),
            3 => Node::Seq(vec![]),
            _ => Node::Map(vec![]),
        }
    };
    let n = items(field(node, "patterns").unwrap()).len();
    let level = g.weighted(&[2, 8, 5]);
    if level == 0 || n == 0 {
        out.label("fault at file level");
        return match g.below(4) {
            0 => {
                let k = unknown(g, &["patterns"]);
                let v = any_node(g);
                let at = g.range(0, 1);
                entries(node).insert(at, (k.clone(), v));
                (format!("unknown field {:?} at file level", k), None)
            }
            1 => {
                entries(node).clear();
                ("no patterns field".to_owned(), Some("patterns"))
            }
            2 => {
                let x = match g.below(4) {
                    0 => Node::Raw("1".to_owned()),
                    1 => Node::Str("a".to_owned()),
                    2 => Node::Map(vec![("a".to_owned(), Node::Str("b".to_owned()))]),
                    _ => Node::Seq(vec![Node::Str("a".to_owned())]),
                };
                *field(node, "patterns").unwrap() = x;
                ("patterns has the wrong type".to_owned(), None)
            }
            _ => {
                let inner = node.clone();
                *node = match g.below(3) {
                    0 => Node::Seq(vec![inner]),
                    1 => Node::Str("patterns".to_owned()),
                    _ => Node::Raw("3".to_owned()),
                };
                ("the document has the wrong type".to_owned(), None)
            }
        };
    }
    let i = g.range(0, n - 1);
    let pat = &mut items(field(node, "patterns").unwrap())[i];
    if level == 2 {
        // make sure there is a test message
        if field(pat, "test_messages").is_none() {
            entries(pat).push(("test_messages".to_owned(), Node::Seq(vec![])));
        }
        let ts = items(field(pat, "test_messages").unwrap());
        let extra = g.range(0, 2);
        while ts.len() <= extra {
            ts.push(Node::Map(vec![("message".to_owned(), Node::Str("m".to_owned()))]));
        }
        let j = g.range(0, ts.len() - 1);
        out.label("fault in a test message");
        return match g.below(4) {
            0 => {
                let k = unknown(g, &["message", "values", "tags"]);
                let v = any_node(g);
                let at = g.range(0, entries(&mut ts[j]).len());
                entries(&mut ts[j]).insert(at, (k.clone(), v));
                (format!("unknown field {:?} in test message {} of pattern {}", k, j, i), None)
            }
            1 => {
                entries(&mut ts[j]).retain(|x| x.0 != "message");
                (format!("test message {} of pattern {} has no message", j, i), Some("message"))
            }
            2 => {
                let (f, t) = *g.pick(&[("message", "string"), ("values", "map"), ("tags", "seq")]);
                let x = wrong_type(g, t);
                entries(&mut ts[j]).retain(|y| y.0 != f);
                let at = g.range(0, entries(&mut ts[j]).len());
                entries(&mut ts[j]).insert(at, (f.to_owned(), x));
                (format!("{} has the wrong type in test message {} of pattern {}", f, j, i), None)
            }
            _ => {
                ts[j] = match g.below(3) {
                    0 => Node::Str("m".to_owned()),
                    1 => Node::Raw("1".to_owned()),
                    _ => Node::Seq(vec![Node::Str("m".to_owned())]),
                };
                (format!("test message {} of pattern {} is no map", j, i), None)
            }
        };
    }
    out.label("fault in a pattern");
    match g.below(6) {
        0 => {
            let k = unknown(g, &["uuid", "pattern", "name", "values", "tags", "test_messages"]);
            let v = any_node(g);
            let at = g.range(0, entries(pat).len());
            entries(pat).insert(at, (k.clone(), v));
            (format!("unknown field {:?} in pattern {}", k, i), None)
        }
        1 => {
            let f = *g.pick(&["uuid", "pattern"]);
            entries(pat).retain(|x| x.0 != f);
            (format!("pattern {} has no {}", i, f), Some(f))
        }
        2 => {
            let u = uuid_of(i).hyphenated().to_string();
            let bad = if g.bool() {
                match g.below(7) {
                    0 => u[..35].to_owned(),
                    1 => format!("{}0", u),
                    2 => u.replacen('-', "g", 1),
                    3 => String::new(),
                    4 => format!("g{}", &u[1..]),
                    5 => u.replace("-", " "),
                    _ => u.replace("-", "")[..31].to_owned(),
                }
            } else {
                // a few edits, most of which keep the length
                let mut c: Vec<char> = doc::uuid_text(g, i).chars().collect();
                loop {
                    let at = g.range(0, c.len().max(1) - 1);
                    let x = *g.pick(&['0', '9', 'a', 'F', '-', '-', 'g', ' ', ':', '{', 'é']);
                    match g.below(6) {
                        0 => c.insert(at, x),
                        1 if !c.is_empty() => {
                            c.remove(at);
                        }
                        2 if c.contains(&'-') => {
                            // hyphens less
                            for x in c.iter_mut().filter(|x| **x == '-') {
                                if g.bool() {
                                    *x = '5';
                                }
                            }
                        }
                        3 if !c.is_empty() => {
                            let to = g.range(0, c.len() - 1);
                            c.swap(at, to);
                        }
                        _ if !c.is_empty() => c[at] = x,
                        _ => c.push(x),
                    }
                    let t: String = c.iter().cloned().collect();
                    if !is_uuid(&t) && !g.chance(1, 3) {
                        break t;
                    }
                }
            };
            *field(pat, "uuid").unwrap() = Node::Str(bad.clone());
            (format!("malformed uuid {:?} in pattern {}", bad, i), None)
        }
        3 => {
            let (f, t) = *g.pick(&FIELDS);
            let x = wrong_type(g, t);
            entries(pat).retain(|y| y.0 != f);
            let at = g.range(0, entries(pat).len());
            entries(pat).insert(at, (f.to_owned(), x));
            (format!("{} has the wrong type in pattern {}", f, i), None)
        }
        4 => {
            let bad = if g.bool() { malformed(g) } else { (*g.pick(&["", "%{", "%{INT", "a%{FLOAT}", "%{INT:a}%{SET}", "%{SET(\"\")}", "x %{INT(min_len=)} y", "%{GREEDY:} a", "%{INT:a}%{", "%{INT(min_len=99999999999999999999)}", "literal %{x} end"])).to_owned() };
            match compile(&bad) {
                Verdict::Reject(_) => {}
                _ => panic!("not malformed"),
            }
            *field(pat, "pattern").unwrap() = Node::Str(bad.clone());
            (format!("invalid pattern text {:?} in pattern {}", bad, i), None)
        }
        _ => {
            let x = match g.below(3) {
                0 => Node::Str("p".to_owned()),
                1 => Node::Raw("1".to_owned()),
                _ => Node::Seq(vec![Node::Str("p".to_owned())]),
            };
            *pat = x;
            (format!("pattern {} is no map", i), None)
        }
    }
}

/// the spellings of a UUID: 32 hexadecimal digits, in groups of 8-4-4-4-12 or not, the former also as a URN
fn is_uuid(t: &str) -> bool {
    let hex = |t: &str, n: usize| t.len() == n && t.bytes().all(|b| b.is_ascii_hexdigit());
    let groups: Vec<&str> = t.split('-').collect();
    if groups.len() == 5 {
        let first = if groups[0].starts_with("urn:uuid:") { &groups[0][9..] } else { groups[0] };
        return hex(first, 8) && (1..4).all(|i| hex(groups[i], 4)) && hex(groups[4], 12);
    }
    hex(t, 32)
}

/// a text that is certainly no pattern
fn malformed(g: &mut Gen) -> String {
    for _ in 0..4 {
        let t = gen_malformed(g);
        if let Verdict::Reject(_) = compile(&t) {
            return t;
        }
    }
    "%{".to_owned()
}

fn word_in(text: &str, word: &str) -> bool {
    text.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').any(|w| w == word)
}

/// the entries of the list of patterns
fn listed(n: &doc::Node) -> Option<&Vec<doc::Node>> {
    match *n {
        doc::Node::Map(ref m) => m.iter().filter(|e| e.0 == "patterns").map(|e| match e.1 {
            doc::Node::Seq(ref v) => Some(v),
            _ => None,
        }).next().unwrap_or(None),
        _ => None,
    }
}

fn c14(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    if g.chance(1, 6) {
        out.label("repeated uuids");
        crate::real::set_uuid_style(g.below(3) + 10);
    }
    let docs = doc::gen_docs(g, &mut w, 4);
    let mut node = doc::file_node(g, &docs);
    let sound = node.clone();
    let (what, missing) = inject(g, &mut node, out);
    // the patterns one by one
    if let (Some(before), Some(after)) = (listed(&sound), listed(&node)) {
        for (i, n) in after.iter().enumerate() {
            let same = before.len() == after.len() && before[i] == *n;
            if !same && before.len() != after.len() || g.chance(1, 2) {
                continue;
            }
            let mut text = doc::json(g, n);
            let mut what = what.clone();
            let mut missing = missing;
            if same {
                if g.chance(1, 2) {
                    continue;
                }
                missing = None;
                let junk = *g.pick(&["}", "]", ",", "{}", "1", "x", "\"", ";", "\u{feff}", "\0", "//c", ",,", "null", "\u{a0}"]);
                what = format!("junk {:?}", junk);
                if g.bool() {
                    text.push_str(junk);
                } else {
                    text.insert_str(0, junk);
                }
            }
            out.label("a single pattern");
            out.desc = format!("{}: {:?}", what, text);
            out.checks += 1;
            match Pattern::from_json(&text) {
                Ok(_) => return viol("invalid pattern accepted", format!("Pattern::from_json accepts {:?} with {}", text, what)),
                Err(e) => if let Some(f) = missing {
                    if !word_in(&e.to_string(), f) {
                        return viol("missing field not named", format!("{} in {:?}: the error does not name {:?}: {}", what, text, f, e));
                    }
                },
            }
        }
    }
    let yaml = g.chance(2, 5);
    let text = if yaml { doc::yaml(g, &node) } else { doc::json(g, &node) };
    let path = put(if yaml { "yaml" } else { "json" }, text.as_bytes());
    out.desc = format!("{}: {:?}", what, text);
    out.nontrivial = docs.len() > 1 && !out.labels.contains(&"fault at file level");
    out.label_if(yaml, "yaml");
    let texts = must_fail(out, &path, if yaml { "yaml" } else { "json" }, &format!("{} in {:?}", what, text))?;
    if let Some(f) = missing {
        for t in &texts {
            out.checks += 1;
            if !word_in(t, f) {
                return viol("missing field not named", format!("{} in {:?}: the error does not name {:?}: {}", what, text, f, t));
            }
        }
    }
    Ok(())
}

fn c30(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    let docs = doc::gen_docs(g, &mut w, 4);
    let mut node = doc::file_node(g, &docs);
    let n = docs.len();
    // (malformed text, uuid, name) of the faulty patterns
    let mut faulty: Vec<(Option<String>, String, Option<String>)> = vec![];
    let count = if n == 0 || g.chance(1, 8) { 0 } else { 1 + g.weighted(&[12, 2, 1]) };
    for _ in 0..count {
        let i = g.range(0, n - 1);
        let pat = &mut items(field(&mut node, "patterns").unwrap())[i];
        let text = match field(pat, "pattern") {
            Some(&mut Node::Str(ref t)) => t.clone(),
            _ => continue,
        };
        if let Verdict::Reject(_) = compile(&text) {
            continue;
        }
        let bad = if g.chance(1, 4) {
            out.label("no pattern field");
            entries(pat).retain(|x| x.0 != "pattern");
            None
        } else {
            out.label("malformed pattern text");
            let t = malformed(g);
            *field(pat, "pattern").unwrap() = Node::Str(t.clone());
            Some(t)
        };
        if g.chance(1, 3) {
            g.shuffle(entries(pat));
        }
        let name = match field(pat, "name") {
            Some(&mut Node::Str(ref t)) => Some(t.clone()),
            _ => None,
        };
        faulty.push((bad, uuid_of(i).hyphenated().to_string(), name));
    }
    let yaml = g.chance(2, 5);
    out.label_if(yaml, "yaml");
    out.label_if(faulty.is_empty(), "no fault");
    out.label_if(faulty.iter().any(|f| f.2.is_some()), "named pattern");
    out.nontrivial = !faulty.is_empty() && (faulty.len() < n || faulty.iter().any(|f| f.2.is_some()));
    let single = !yaml && n == 1 && g.bool();
    let text = if single {
        let pat = items(field(&mut node, "patterns").unwrap())[0].clone();
        doc::json(g, &pat)
    } else if yaml {
        doc::yaml(g, &node)
    } else {
        doc::json(g, &node)
    };
    out.desc = format!("{:?}", text);
    let (ok, log, way) = if single {
        let (r, log) = logged(|| Pattern::from_json(&text).is_ok());
        (r, log, "Pattern::from_json")
    } else {
        let path = put(if yaml { "yaml" } else { "json" }, text.as_bytes());
        let k = *g.pick(&KINDS);
        match if faulty.is_empty() { 0 } else { g.below(3) } {
            0 => {
                let (r, log) = logged(|| PatternLoader::load_file(&path).is_ok());
                (r, log, "load_file")
            }
            1 => {
                let (r, log) = logged(|| load_strict(k, &path).is_ok());
                (r, log, "from_file")
            }
            _ => {
                let (r, log) = logged(|| load_lenient(k, &path).is_ok());
                (r, log, "from_file_ignore_errors")
            }
        }
    };
    out.checks += 1;
    if ok != faulty.is_empty() {
        return viol("wrong outcome", format!("{}: {:?} with the faults {:?} {}", way, text, faulty, if ok { "loads" } else { "does not load" }));
    }
    if faulty.is_empty() {
        if !log.is_empty() {
            return viol("error logged without a fault", format!("{}: {:?} loads, but the log has {:?}", way, text, log));
        }
        return Ok(());
    }
    let mut why = vec![];
    for &(ref bad, ref uuid, ref name) in &faulty {
        let reason = match *bad {
            Some(ref t) => match actiondb::grammar::parser::pattern(t) {
                Ok(_) => return viol("malformed accepted", format!("{:?} compiles", t)),
                Err(e) => Some(e),
            },
            None => None,
        };
        out.checks += 1;
        let fits = log.iter().any(|l| {
            let low = l.to_lowercase();
            (low.contains(&uuid[..]) || low.contains(&uuid.replace("-", "")))
                && name.as_ref().map_or(true, |x| mentions(l, x))
                && bad.as_ref().map_or(word_in(l, "pattern"), |x| mentions(l, x))
                && reason.as_ref().map_or(true, |e| {
                    // the set of expected things has no fixed order
                    word_in(l, &e.line.to_string()) && word_in(l, &e.column.to_string()) && e.expected.iter().all(|x| mentions(l, x))
                })
        });
        if fits {
            return Ok(());
        }
        why.push(format!("uuid {}, name {:?}, text {:?}, reason {:?}", uuid, name, bad, reason.map(|e| e.to_string())));
    }
    viol("rejected pattern not in the log", format!("{}: {:?}: no error in the log shows {}: {:?}", way, text, why.join(" or "), log))
}

fn c15(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let dir = scratch();
    let d = |s: &str| dir.join(s).to_str().unwrap().to_owned();
    let mut w = World::new(g, false);
    let docs = doc::gen_docs(g, &mut w, 2);
    let node = doc::file_node(g, &docs);
    let yaml = g.bool();
    let ext = if yaml { *g.pick(&["yaml", "yml", "yaml", "YAML", "YML"]) } else { "json" };
    let kind = if yaml { "yaml" } else { "json" };
    let text = if yaml { doc::yaml(g, &node) } else { doc::json(g, &node) };
    out.nontrivial = true;
    match g.weighted(&[4, 3, 5, 6]) {
        0 => {
            out.label("unsupported extension");
            let name = if g.bool() {
                (*g.pick(&["p", "p.", "p.txt", "p.xml", "p.jso", "p.jsonx", "p.json.bak", "p.yamll", "p.ym", "p.yaml~", ".json", "json", "yaml", "p.json ", "p.é", "p.toml", "p.json5", "a.json.d", "p.j", ".yaml", "p. json", "p.ya ml"])).to_owned()
            } else {
                // a supported extension with one change
                let stem = *g.pick(&["p", "p.json", "p.yaml", "json", "a.b", "", ".p", "p.yml"]);
                let base: Vec<char> = g.pick(&["json", "yaml", "yml"]).chars().collect();
                loop {
                    let mut b = base.clone();
                    let at = g.range(0, b.len() - 1);
                    let c = *g.pick(&['a', 'l', 's', 'x', 'c', '5', 'p', ' ', '~', 'é', '1', '_', '-', 'm']);
                    match g.below(8) {
                        // other case; YAML and YML are accepted
                        6 => b[at] = b[at].to_ascii_uppercase(),
                        7 => {
                            b[0] = b[0].to_ascii_uppercase();
                            if g.bool() {
                                b.iter_mut().skip(1).for_each(|c| if g.bool() { *c = c.to_ascii_uppercase() });
                            }
                        }
                        0 => b.insert(0, c),
                        1 => b.push(c),
                        2 => b.insert(at, c),
                        3 => b[at] = c,
                        4 => {
                            b.remove(at);
                        }
                        _ => b.truncate(at),
                    }
                    let e: String = b.into_iter().collect();
                    if !["json", "yaml", "yml", "YAML", "YML"].contains(&&e[..]) && (!stem.is_empty() || !e.is_empty()) {
                        break format!("{}.{}", stem, e);
                    }
                }
            };
            let exists = g.bool();
            let path = d(&name);
            if exists {
                std::fs::write(&path, text.as_bytes()).unwrap();
            }
            out.label_if(exists, "existing file");
            out.desc = format!("{:?} exists={}", name, exists);
            let r = must_fail(out, &path, "extension", &out.desc.clone()).map(|_| ());
            let _ = std::fs::remove_file(&path);
            r?;
            if g.chance(1, 4) {
                let path = *g.pick(&["", "/", ".", "..", "/nonexistent/x", "no_such_directory_here/", "x/.."]);
                out.desc = format!("path {:?}", path);
                must_fail(out, path, "extension", &out.desc.clone())?;
            }
        }
        1 => {
            out.label("file that cannot be opened or read");
            let name = format!("q.{}", ext);
            let path = d(&name);
            let _ = std::fs::remove_file(&path);
            let what = match g.below(7) {
                0 => "missing file",
                1 => {
                    std::fs::create_dir_all(&path).unwrap();
                    "directory"
                }
                2 => {
                    std::os::unix::fs::symlink(&path, &path).unwrap();
                    "symbolic link to itself"
                }
                3 => {
                    std::os::unix::fs::symlink(d("nothing here"), &path).unwrap();
                    "dangling symbolic link"
                }
                4 => {
                    // opening succeeds, reading fails
                    std::os::unix::fs::symlink("/proc/self/mem", &path).unwrap();
                    "file whose reading fails"
                }
                5 => "missing directory",
                _ => "NUL in the path",
            };
            let used = match what {
                "missing directory" => d(&format!("nodir/{}", name)),
                "NUL in the path" => d(&format!("a\0b.{}", ext)),
                _ => path.clone(),
            };
            out.desc = format!("{} {:?}", what, ext);
            let r = must_fail(out, &used, "io", &out.desc.clone()).map(|_| ());
            if what == "directory" {
                let _ = std::fs::remove_dir(&path);
            } else {
                let _ = std::fs::remove_file(&path);
            }
            r?;
        }
        2 => {
            out.label("not UTF-8");
            let mut b = text.clone().into_bytes();
            if g.chance(1, 6) {
                // a long file, so that the fault is behind the first buffers
                let pad = if yaml { "# padding\n".repeat(*g.pick(&[10usize, 900, 7000])) } else { " ".repeat(*g.pick(&[100usize, 9000, 70000])) };
                let mut x = pad.into_bytes();
                if g.bool() {
                    x.extend(b);
                    b = x;
                } else {
                    b.extend(x);
                }
                out.label("long file");
            }
            let at = match g.below(4) {
                0 => 0,
                1 => b.len(),
                _ => g.range(0, b.len()),
            };
            let bad: &[u8] = *g.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xf5\x80\x80\x80", b"\xfe\xff"]);
            for (i, x) in bad.iter().enumerate() {
                b.insert(at + i, *x);
            }
            if std::str::from_utf8(&b).is_ok() {
                out.nontrivial = false;
                return Ok(());
            }
            let path = put(ext, &b);
            out.desc = format!("{} {:?} with bytes {:?} at {}", ext, text, bad, at);
            must_fail(out, &path, "io", &out.desc.clone())?;
        }
        _ => {
            out.label("broken document");
            let broken: String = if yaml {
                let text = doc::yaml_bare(g, &node);
                match g.below(3) {
                    0 => format!("{}{}", text, *g.pick(&["\"unclosed", "]", "}", "a: [b\n", "{a: b\n", "'unclosed\n", "a: \"b\n"])),
                    1 => (*g.pick(&["[", "{", "patterns: [", "patterns: [{uuid: \"a\"", "\"", "patterns:\n  - uuid: \"x\n", "- a\nb: c\n", "", "a", "12", "patterns", "patterns: x", "---\n", "# only a comment\n", "[]", "null", "*unknown"])).to_owned(),
                    _ => format!("{}{}", *g.pick(&["]", "}", "\"a\nb: \"", "[", "{"]), text),
                }
            } else {
                let cs: Vec<char> = text.chars().collect();
                match g.below(4) {
                    0 => {
                        // truncation
                        let end = text.trim_end().chars().count();
                        cs[..g.range(0, end - 1)].iter().collect()
                    }
                    1 => format!("{}{}", text, *g.pick(&["}", "]", ",", "{}", "1", "x", "\"", "{\"patterns\":[]}", "\u{feff}", "\0", "//c"])),
                    2 => format!("{}{}", *g.pick(&["x", ",", "[", "{", "\u{feff}", "'", "//c\n", "\0", "1"]), text),
                    _ => {
                        let mut s = cs.clone();
                        let at = g.range(0, s.len() - 1);
                        s[at] = *g.pick(&['\u{1}', '\'', ';', '\n']);
                        s.into_iter().collect()
                    }
                }
            };
            // raw control characters inside a JSON string are left to the JSON library
            let plain: String = broken.chars().map(|c| match c {
                '\n' | '\r' | '\t' => ' ',
                c if c < ' ' => 'x',
                c => c,
            }).collect();
            if !yaml && serde_json::from_str::<serde_json::Value>(&plain).is_ok() {
                out.nontrivial = false;
                return Ok(());
            }
            let path = put(ext, broken.as_bytes());
            out.desc = format!("{} {:?}", ext, broken);
            must_fail(out, &path, kind, &out.desc.clone())?;
        }
    }
    Ok(())
}
