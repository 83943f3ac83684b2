//! Building matchers from pattern sources, test messages and their errors: C16-C19.

use crate::doc::{self, gen_meta, PatDoc, TestDoc};
use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::{render, World};
use crate::model::{compile, Tok, Verdict};
use crate::props_file::kind_of;
use crate::props_match::show;
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::pattern::testmessage::{Error, TestMessage};
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::{BuildError, Matcher, Pattern, PatternLoader};
use actiondb::parsers::{GreedyParser, ParseResult, Parser};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C16", quick: 240_000, thorough: 9_600_000, f: c16,
               rule: "sources of 1-40 patterns and error elements, test messages whose expectations hold or are spoilt in one place. Non-trivial: at least two elements and at least one test message" },
        Prop { id: "C17", quick: 8_000_000, thorough: 120_000_000, f: c17,
               rule: "a match result with random parsed values, additional values and tags, and a test message whose expectations are drawn from them and spoilt in places. Non-trivial: at least one expectation" },
        Prop { id: "C18", quick: 180_000, thorough: 7_200_000, f: c18,
               rule: "as C16, built leniently with the log captured. Non-trivial: at least one failing element that is followed by another element" },
        Prop { id: "C19", quick: 4_500_000, thorough: 60_000_000, f: c19,
               rule: "every error constructor with random data and uuid, errors of spoilt test messages, and build errors wrapping them. Non-trivial: the data is not empty" },
    ]
}

struct Elem {
    /// which of the patterns this is
    idx: usize,
    toks: Vec<Tok>,
    meta: Meta,
    tests: Option<Vec<TestDesc>>,
    /// an erroneous element instead of a pattern
    error: Option<usize>,
}

#[derive(Clone, Debug)]
struct TestDesc {
    message: String,
    values: BTreeMap<String, String>,
    tags: Option<Vec<String>>,
}

impl TestDesc {
    fn real(&self) -> TestMessage {
        TestMessage::new(self.message.clone(), self.values.clone(), self.tags.clone())
    }
}

/// what went wrong with a test message, as far as the error may tell
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    NoMatch { uuid: String, message: String },
    Other { uuid: String, got: String, message: String },
    Missing { uuid: String, key: String },
    Differs { uuid: String, key: String, want: String, got: String },
    Tags { uuid: String, want: Option<Vec<String>>, got: Option<Vec<String>> },
}

fn fail_of(e: &Error) -> Fail {
    match *e {
        Error::ValueNotMatch { ref pattern_uuid, ref key, ref expected_value, ref got_value } => Fail::Differs { uuid: pattern_uuid.clone(), key: key.clone(), want: expected_value.clone(), got: got_value.clone() },
        Error::KeyNotFound { ref pattern_uuid, ref key } => Fail::Missing { uuid: pattern_uuid.clone(), key: key.clone() },
        Error::TestMessageDoesntMatch { ref pattern_uuid, ref message } => Fail::NoMatch { uuid: pattern_uuid.clone(), message: message.clone() },
        Error::MatchedToOtherPattern { ref expected_uuid, ref got_uuid, ref message } => Fail::Other { uuid: expected_uuid.clone(), got: got_uuid.clone(), message: message.clone() },
        Error::UnexpectedTags { ref pattern_uuid, ref expected, ref got } => Fail::Tags { uuid: pattern_uuid.clone(), want: expected.clone(), got: got.clone() },
    }
}

/// the faults of an expectation against parsed values and metadata
fn expectation_faults(uuid: &str, t: &TestDesc, parsed: &BTreeMap<String, String>, meta: &Meta) -> Vec<Fail> {
    let mut out = vec![];
    for (k, v) in &t.values {
        let got = parsed.get(k).or_else(|| meta.values.as_ref().and_then(|m| m.get(k)));
        match got {
            None => out.push(Fail::Missing { uuid: uuid.to_owned(), key: k.clone() }),
            Some(g) => if g != v {
                out.push(Fail::Differs { uuid: uuid.to_owned(), key: k.clone(), want: v.clone(), got: g.clone() });
            },
        }
    }
    if let Some(ref tags) = t.tags {
        let none = vec![];
        let have = meta.tags.as_ref().unwrap_or(&none);
        if tags.iter().any(|x| !have.contains(x)) {
            out.push(Fail::Tags { uuid: uuid.to_owned(), want: t.tags.clone(), got: meta.tags.clone() });
        }
    }
    out
}

fn hyph(i: usize) -> String {
    uuid_of(i).hyphenated().to_string()
}

fn error_elem(i: usize, code: usize) -> BuildError {
    match code % 6 {
        3 => BuildError::NotUtf8FileName,
        4 => BuildError::UnsupportedFileExtension,
        5 => BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, "the same broken element".to_owned())),
        0 => BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("broken element {}", i))),
        1 => BuildError::from(Error::key_not_found(&uuid_of(900_000 + i), &format!("broken element {}", i))),
        _ => match PatternLoader::load_file(&put("json", format!("{{\"broken element {}\":1}}", i).as_bytes())) {
            Err(e) => e,
            Ok(_) => BuildError::Io(std::io::Error::new(std::io::ErrorKind::Other, format!("broken element {}", i))),
        },
    }
}

struct Src {
    elems: Vec<Elem>,
    built: Built,
    msgs: Vec<String>,
    kind: Kind,
}

fn gen_src(g: &mut Gen, want_errors: bool) -> Result<Src, Viol> {
    let mut w = World::new(g, false);
    let pats = w.patterns(g);
    let kind = *g.pick(&[Kind::Trie, Kind::Array, Kind::Trie, Kind::Array, if cfg!(feature = "own") { Kind::Own } else { Kind::Trie }]);
    let built = Built::new(g, &pats, false)?;
    let mut m = new_matcher(kind);
    let mut elems = vec![];
    let spoil_rate = *g.pick(&[0u64, 1, 3]);
    for (i, p) in pats.iter().enumerate() {
        let meta = gen_meta(g, &w);
        m.add_pattern(pattern(i, built.cps[i].clone(), &meta, None));
        let tests = if g.chance(1, 4) { None } else {
            let mut ts = vec![];
            let many = w.big && g.chance(1, 5);
            let n = if !many { g.range(0, 3) } else if g.chance(1, 3) { *g.pick(&[64usize, 65, 100, 129, 150]) } else { g.range(8, 40) };
            // among many messages, perhaps a single one fails
            let single = if many && g.chance(2, 3) { Some(g.range(0, n - 1)) } else { None };
            for k in 0..n {
                let spoil_rate = match single {
                    Some(at) => if at == k { 8 } else { 0 },
                    None => spoil_rate,
                };
                let mut msg = w.sample(g, p);
                // mostly messages that this very pattern wins
                for _ in 0..3 {
                    let mine = m.parse(&msg).map_or(false, |r| r.pattern().uuid() == &uuid_of(i));
                    if mine || spoil_rate > 0 && g.chance(spoil_rate, 12) {
                        break;
                    }
                    msg = w.sample(g, p);
                }
                let parsed: BTreeMap<String, String> = m.parse(&msg).map(|r| r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()).unwrap_or_default();
                let mut have: BTreeMap<String, String> = meta.values.clone().unwrap_or_default();
                have.extend(parsed.clone());
                let mut values = BTreeMap::new();
                for (k, v) in &have {
                    if g.bool() {
                        values.insert(k.clone(), v.clone());
                    }
                }
                let mut tags = if g.bool() { None } else {
                    Some(meta.tags.clone().unwrap_or_default().into_iter().filter(|_| g.bool()).collect::<Vec<_>>())
                };
                if spoil_rate > 0 && g.chance(spoil_rate, 8) {
                    match g.below(4) {
                        0 => {
                            values.insert((*g.pick(&["a", "b", "nokey", "k1"])).to_owned(), "x".to_owned());
                        }
                        1 => {
                            let ks: Vec<String> = values.keys().cloned().collect();
                            if !ks.is_empty() {
                                let k = g.pick(&ks).clone();
                                let v = w.mutate(g, &values[&k]);
                                values.insert(k, v);
                            }
                        }
                        2 => {
                            let mut t = tags.unwrap_or_default();
                            let at = g.range(0, t.len());
                            t.insert(at, (*g.pick(&["t", "x", "tag", ""])).to_owned());
                            tags = Some(t);
                        }
                        _ => msg = w.mutate(g, &msg),
                    }
                }
                ts.push(TestDesc { message: msg, values: values, tags: tags });
            }
            Some(ts)
        };
        elems.push(Elem { idx: i, toks: p.clone(), meta: meta, tests: tests, error: None });
        while want_errors && g.chance(1, 8) {
            elems.push(Elem { idx: usize::MAX, toks: vec![], meta: Meta::default(), tests: None, error: Some(g.below(6) as usize) });
            if g.bool() {
                break;
            }
        }
    }
    let n = g.range(2, 8);
    let msgs = w.messages(g, &pats, n);
    Ok(Src { elems: elems, built: built, msgs: msgs, kind: kind })
}

impl Src {
    fn describe(&self) -> String {
        let mut s = format!("{:?}", self.kind);
        for e in &self.elems {
            match e.error {
                Some(c) => s.push_str(&format!(" error({})", c)),
                None => s.push_str(&format!(" {} {:?} tests {:?}", show(&e.toks), e.meta, e.tests)),
            }
        }
        s
    }

    fn source(&self) -> Source {
        let mut v: Source = vec![];
        for (k, e) in self.elems.iter().enumerate() {
            match e.error {
                Some(c) => v.push(Err(error_elem(k, c))),
                None => {
                    let tests = e.tests.as_ref().map(|ts| ts.iter().map(|t| t.real()).collect());
                    v.push(Ok(pattern(e.idx, self.built.cps[e.idx].clone(), &e.meta, tests)));
                }
            }
        }
        v
    }

    /// the caller's own matcher was given every pattern once and in order
    fn each_added_once(&self, out: &mut Out) -> Result<(), Viol> {
        if self.kind == Kind::Own {
            out.label("the caller's own matcher");
            let want: Vec<_> = self.elems.iter().filter(|e| e.error.is_none()).map(|e| uuid_of(e.idx)).collect();
            let got = take_added();
            if got != want {
                return viol("patterns added", format!("the matcher was given the patterns {:?} instead of {:?}", got, want));
            }
        }
        Ok(())
    }

    /// element index -> admissible reports, computed by adding the patterns one by one
    fn faults(&self, out: &mut Out) -> (Box<dyn Matcher>, Vec<(usize, Vec<Fail>)>, Vec<usize>) {
        let mut m = new_matcher(self.kind);
        let mut faults = vec![];
        let mut after_error = vec![];
        for (k, e) in self.elems.iter().enumerate() {
            if e.error.is_some() {
                faults.push((k, vec![]));
                after_error.push(k);
                continue;
            }
            let i = e.idx;
            m.add_pattern(pattern(i, self.built.cps[i].clone(), &e.meta, None));
            let mut fs = vec![];
            for t in e.tests.iter().flat_map(|x| x.iter()) {
                out.checks += 1;
                match m.parse(&t.message) {
                    None => fs.push(Fail::NoMatch { uuid: hyph(i), message: t.message.clone() }),
                    Some(r) => {
                        let got = r.pattern().uuid().hyphenated().to_string();
                        if got != hyph(i) {
                            fs.push(Fail::Other { uuid: hyph(i), got: got, message: t.message.clone() });
                        } else {
                            let parsed: BTreeMap<String, String> = r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                            fs.extend(expectation_faults(&hyph(i), t, &parsed, &e.meta));
                        }
                    }
                }
            }
            if !fs.is_empty() {
                faults.push((k, fs));
            }
        }
        (m, faults, after_error)
    }
}

/// Writes the elements as a pattern file and brings them into the order in which the file yields them.
fn as_file(g: &mut Gen, out: &mut Out, s: &mut Src) -> Result<Option<String>, Viol> {
    let mut docs = vec![];
    for e in &s.elems {
        let text = render(g, &e.toks);
        if e.error.is_some() || compile(&text) != Verdict::Accept(e.toks.clone()) {
            return Ok(None);
        }
        docs.push(PatDoc {
            toks: e.toks.clone(),
            text: text,
            meta: e.meta.clone(),
            tests: e.tests.as_ref().map(|ts| ts.iter().map(|t| TestDoc { message: t.message.clone(), values: Some(t.values.clone()), tags: t.tags.clone() }).collect()),
        });
    }
    let node = doc::file_node(g, &docs);
    let path = if g.chance(1, 4) && doc::yaml_can(&node) {
        let y = doc::yaml(g, &node);
        put("yml", y.as_bytes())
    } else {
        let j = doc::json(g, &node);
        put("json", j.as_bytes())
    };
    let mut order = vec![];
    let file = match PatternLoader::load_file(&path) {
        Ok(f) => f,
        Err(e) => return viol("file rejected", format!("a valid pattern file is rejected: {}", e)),
    };
    for p in file {
        match p {
            Ok(p) => order.push(index_of(p.uuid(), docs.len())),
            Err(e) => return viol("file rejected", format!("a valid pattern file yields an error: {}", e)),
        }
    }
    let mut sorted: Vec<usize> = order.iter().filter_map(|x| *x).collect();
    sorted.sort();
    if sorted != (0..docs.len()).collect::<Vec<_>>() {
        return viol("file content", format!("a file of {} patterns yields {:?}", docs.len(), order));
    }
    let mut old: Vec<Option<Elem>> = std::mem::replace(&mut s.elems, vec![]).into_iter().map(Some).collect();
    s.elems = order.into_iter().map(|i| old[i.unwrap()].take().unwrap()).collect();
    out.label("from a file");
    out.desc = s.describe();
    Ok(Some(path))
}

fn compare(out: &mut Out, s: &Src, got: &dyn Matcher, want: &dyn Matcher) -> Result<(), Viol> {
    let mut msgs = s.msgs.clone();
    for e in &s.elems {
        for t in e.tests.iter().flat_map(|x| x.iter()).take(3) {
            msgs.push(t.message.clone());
        }
    }
    for m in &msgs {
        out.checks += 1;
        let (a, b) = (answer(got, m), answer(want, m));
        if a != b {
            return viol("built matcher differs", format!("message {:?} is answered {:?}; adding the patterns one by one answers {:?}", m, a, b));
        }
        let meta = |m: &dyn Matcher, msg: &str| m.parse(msg).map(|r| (r.pattern().name().map(|x| x.to_owned()), r.pattern().values().cloned(), r.pattern().tags().map(|x| x.to_vec())));
        if meta(got, m) != meta(want, m) {
            return viol("built matcher differs", format!("message {:?}: the metadata of the match differs from adding the patterns one by one", m));
        }
    }
    Ok(())
}

fn c16(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let errors = g.chance(1, 3);
    let mut s = gen_src(g, errors)?;
    out.desc = s.describe();
    let path = if !errors && g.chance(1, 6) { as_file(g, out, &mut s)? } else { None };
    let tests: usize = s.elems.iter().map(|e| e.tests.as_ref().map_or(0, |t| t.len())).sum();
    out.nontrivial = s.elems.len() >= 2 && tests > 0;
    let (want, faults, _) = s.faults(out);
    take_added();
    let got = match path {
        Some(ref path) => load_strict(s.kind, path),
        None => source_strict(s.kind, s.source()),
    };
    out.checks += 1;
    match (got, faults.first()) {
        (Ok(m), None) => {
            out.label("all hold");
            s.each_added_once(out)?;
            compare(out, &s, &*m, &*want)
        }
        (Ok(_), Some(&(k, ref f))) => viol("failing source accepted", format!("strict building succeeds although element {} fails: {:?}", k, f)),
        (Err(e), None) => viol("good source refused", format!("strict building fails although all test messages hold: {}", e)),
        (Err(e), Some(&(k, ref fs))) => {
            out.label_if(faults.len() > 1, "several failing elements");
            out.label_if(fs.len() > 1, "several faults in one element");
            match s.elems[k].error {
                Some(c) => {
                    out.label("erroneous element");
                    let w = error_elem(k, c);
                    if kind_of(&w) != kind_of(&e) || w.to_string() != e.to_string() {
                        return viol("wrong error", format!("element {} is the error {:?}, but the build fails with {:?}", k, w.to_string(), e.to_string()));
                    }
                }
                None => match e {
                    BuildError::TestMessage(ref t) => {
                        let f = fail_of(t);
                        out.label(match f {
                            Fail::NoMatch { .. } => "fails: unmatched",
                            Fail::Other { .. } => "fails: other pattern",
                            Fail::Missing { .. } => "fails: missing key",
                            Fail::Differs { .. } => "fails: value differs",
                            Fail::Tags { .. } => "fails: tags",
                        });
                        if !fs.contains(&f) {
                            return viol("wrong error", format!("element {} fails with one of {:?}, but the build reports {:?}", k, fs, f));
                        }
                    }
                    e => return viol("wrong error", format!("element {} fails with one of {:?}, but the build reports {}", k, fs, e)),
                },
            }
            Ok(())
        }
    }
}

fn c18(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let errors = !g.chance(1, 5);
    let mut s = gen_src(g, errors)?;
    out.desc = s.describe();
    let path = if !errors && g.bool() { as_file(g, out, &mut s)? } else { None };
    let (want, faults, _) = s.faults(out);
    let src = s.source();
    let kind = s.kind;
    take_added();
    let (m, log) = logged(move || match path {
        Some(ref path) => load_lenient(kind, path),
        None => Ok(source_lenient(kind, src)),
    });
    let m = match m {
        Ok(m) => m,
        Err(e) => return viol("lenient building fails", format!("lenient building of a valid file fails: {}", e)),
    };
    s.each_added_once(out)?;
    if log.len() < faults.len() {
        return viol("error not logged", format!("{} elements fail, but the log has only {:?}", faults.len(), log));
    }
    out.nontrivial = faults.iter().any(|f| f.0 + 1 < s.elems.len());
    out.label_if(faults.is_empty(), "nothing fails");
    for &(k, ref fs) in &faults {
        out.checks += 1;
        match s.elems[k].error {
            Some(c) => {
                out.label("erroneous element");
                let text = error_elem(k, c).to_string();
                let same = faults.iter().filter(|f| s.elems[f.0].error.map_or(false, |c| error_elem(f.0, c).to_string() == text)).count();
                out.label_if(same > 1, "several elements with the same error");
                if log.iter().filter(|l| l.contains(&text)).count() < same {
                    return viol("error not logged", format!("the erroneous element {} ({}, {} such elements) is not in the log: {:?}", k, text, same, log));
                }
            }
            None => {
                out.label("failing test message");
                let uuid = match fs[0] {
                    Fail::NoMatch { ref uuid, .. } | Fail::Other { ref uuid, .. } | Fail::Missing { ref uuid, .. } | Fail::Differs { ref uuid, .. } | Fail::Tags { ref uuid, .. } => uuid,
                };
                if !log.iter().any(|l| l.contains(&uuid[..])) {
                    return viol("error not logged", format!("the failing test message of element {} ({}) is not in the log: {:?}", k, uuid, log));
                }
            }
        }
    }
    compare(out, &s, &*m, &*want)
}

fn c17(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let w = World::new(g, true);
    let mut meta = gen_meta(g, &w);
    let mut parsed: BTreeMap<String, String> = BTreeMap::new();
    if g.chance(1, 60) {
        // many of one or all kinds
        out.label("many expectations");
        let n = g.range(1, 130);
        let kinds = g.below(7) + 1;
        for i in 0..n {
            if kinds & 1 != 0 {
                parsed.insert(format!("v{}", i), w.any_text(g, 2));
            }
            if kinds & 2 != 0 {
                meta.values.get_or_insert_with(Default::default).insert(format!("w{}", i), w.any_text(g, 2));
            }
            if kinds & 4 != 0 {
                meta.tags.get_or_insert_with(Default::default).push(format!("t{}", i));
            }
        }
    }
    let extra: Vec<String> = meta.values.iter().flat_map(|m| m.keys().cloned()).collect();
    let mut mebibyte = false;
    if g.chance(1, 80_000) {
        // one value of more than a mebibyte, expected with another end
        mebibyte = true;
        let n = (1 << 20) + g.range(1, 100_000);
        let unit = w.text(g, 1, 3);
        parsed.insert("huge".to_owned(), unit.chars().cycle().take(n).collect());
        out.label("huge value");
    }
    for _ in 0..g.range(0, 4) {
        let k = if !extra.is_empty() && g.chance(1, 3) { g.pick(&extra).clone() } else { (*g.pick(&["a", "b", "k1", "key", "", "é", "A"])).to_owned() };
        let v = w.any_text(g, 4);
        parsed.insert(k, v);
    }
    // expectations drawn from what is there, spoilt in places
    let mut have: BTreeMap<String, String> = meta.values.clone().unwrap_or_default();
    have.extend(parsed.clone());
    let mut values = BTreeMap::new();
    for (k, v) in &have {
        if g.bool() {
            values.insert(k.clone(), v.clone());
        }
    }
    let mut tags: Option<Vec<String>> = if g.chance(1, 3) { None } else {
        let mut t: Vec<String> = meta.tags.clone().unwrap_or_default().into_iter().filter(|_| g.bool()).collect();
        g.shuffle(&mut t);
        if !t.is_empty() && g.chance(1, 6) {
            let x = g.pick(&t).clone();
            t.push(x);
        }
        Some(t)
    };
    if g.chance(1, 2) {
        match g.below(7) {
            6 => {
                // a key much like an existing one
                let ks: Vec<String> = have.keys().cloned().collect();
                if !ks.is_empty() {
                    let k = g.pick(&ks).clone();
                    let v = values.remove(&k).unwrap_or_else(|| have[&k].clone());
                    values.insert(w.look_alike(g, &k), v);
                }
            }
            0 => {
                values.insert((*g.pick(&["a", "b", "nokey", "k1", "", "A"])).to_owned(), w.any_text(g, 2));
            }
            1 | 2 => {
                let ks: Vec<String> = values.keys().cloned().collect();
                if !ks.is_empty() {
                    let k = g.pick(&ks).clone();
                    let v = match g.below(5) {
                        4 => w.look_alike(g, &values[&k]),
                        0 => format!("{} ", values[&k]),
                        1 => values[&k].to_uppercase(),
                        2 => meta.values.as_ref().and_then(|m| m.get(&k)).cloned().unwrap_or_default(),
                        _ => w.mutate(g, &values[&k]),
                    };
                    values.insert(k, v);
                }
            }
            3 | 4 => {
                let mut t = tags.unwrap_or_default();
                let at = g.range(0, t.len());
                let x = match g.below(4) {
                    3 => match meta.tags {
                        Some(ref t) if !t.is_empty() => {
                            let base = g.pick(t).clone();
                            w.look_alike(g, &base)
                        }
                        _ => "tt".to_owned(),
                    },
                    0 => (*g.pick(&["t", "x", "tag", ""])).to_owned(),
                    1 => w.any_text(g, 3),
                    _ => meta.tags.as_ref().and_then(|t| t.first()).map_or("q".to_owned(), |t| format!("{}x", t)),
                };
                t.insert(at, x);
                tags = Some(t);
            }
            _ => {
                // swap two expected values
                let ks: Vec<String> = values.keys().cloned().collect();
                if ks.len() >= 2 {
                    let (a, b) = (values[&ks[0]].clone(), values[&ks[1]].clone());
                    values.insert(ks[0].clone(), b);
                    values.insert(ks[1].clone(), a);
                }
            }
        }
    }
    if mebibyte {
        let mut v = parsed["huge"].clone();
        if g.chance(3, 4) {
            v.pop();
            v.push(if g.bool() { '~' } else { w.ch(g) });
        }
        values.insert("huge".to_owned(), v);
    }
    let t = TestDesc { message: "m".to_owned(), values: values, tags: tags };
    out.desc = format!("parsed {:?} {:?} expected {:?}", parsed, meta, t);
    out.nontrivial = !t.values.is_empty() || t.tags.is_some();
    out.label_if(parsed.keys().any(|k| extra.contains(k)), "key both parsed and additional");
    let p: Pattern = pattern(7, vec![], &meta, None);
    let parsers: Vec<(GreedyParser, &String)> = parsed.iter().map(|(k, v)| {
        let mut p = GreedyParser::new();
        p.set_name(Some(k.clone()));
        (p, v)
    }).collect();
    let unnamed = GreedyParser::new();
    let mut r = MatchResult::new(&p);
    for (i, &(ref p, v)) in parsers.iter().enumerate() {
        r.insert(ParseResult::new(p, v));
        if i == 0 {
            r.insert(ParseResult::new(&unnamed, "unnamed"));
        }
    }
    let want = expectation_faults(&hyph(7), &t, &parsed, &meta);
    out.label_if(want.is_empty(), "holds");
    out.label_if(!want.is_empty(), "fails");
    out.checks += 1;
    match (t.real().test_result(&r), want.is_empty()) {
        (Ok(()), true) => Ok(()),
        (Ok(()), false) => viol("failing expectation passes", format!("the test passes although {:?}", want)),
        (Err(e), true) => viol("met expectation fails", format!("the test fails although every expectation is met: {}", e)),
        (Err(e), false) => {
            let f = fail_of(&e);
            if want.contains(&f) {
                Ok(())
            } else {
                viol("wrong reason", format!("the test fails with {:?}, but the unmet expectations are {:?}", f, want))
            }
        }
    }
}

// ---------------------------------------------------------------- error texts

/// the text mentions the datum, verbatim or in a quoted form
pub fn mentions(text: &str, datum: &str) -> bool {
    let dbg = format!("{:?}", datum);
    text.contains(datum) || text.contains(&dbg[1..dbg.len() - 1]) || text.contains(&datum.escape_default().to_string())
}

/// which of the two labels stands nearest before the marker
fn label_before(text: &str, marker: &str, labels: &[&'static str]) -> Option<&'static str> {
    let at = text.find(marker)?;
    labels.iter().filter_map(|l| text[..at].rfind(l).map(|p| (p, *l))).max().map(|x| x.1)
}

fn check_text(out: &mut Out, text: &str, f: &Fail) -> Result<(), Viol> {
    let need = |out: &mut Out, what: &str, datum: &str| -> Result<(), Viol> {
        out.checks += 1;
        if mentions(text, datum) {
            Ok(())
        } else {
            viol("error text", format!("the text of {:?} does not show the {} {:?}: {:?}", f, what, datum, text))
        }
    };
    match *f {
        Fail::NoMatch { ref uuid, ref message } => {
            need(out, "uuid", uuid)?;
            need(out, "message", message)
        }
        Fail::Other { ref uuid, ref got, ref message } => {
            need(out, "uuid", uuid)?;
            need(out, "other uuid", got)?;
            need(out, "message", message)?;
            let labels = ["expected", "got"];
            if uuid != got && (label_before(text, uuid, &labels) == Some("got") || label_before(text, got, &labels) == Some("expected")) {
                return viol("error text", format!("the text confuses expected and actual pattern of {:?}: {:?}", f, text));
            }
            Ok(())
        }
        Fail::Missing { ref uuid, ref key } => {
            need(out, "uuid", uuid)?;
            need(out, "key", key)
        }
        Fail::Differs { ref uuid, ref key, ref want, ref got } => {
            need(out, "uuid", uuid)?;
            need(out, "key", key)?;
            need(out, "expected value", want)?;
            need(out, "actual value", got)
        }
        Fail::Tags { ref uuid, ref want, ref got } => {
            need(out, "uuid", uuid)?;
            for t in want.iter().flat_map(|x| x.iter()) {
                need(out, "expected tag", t)?;
            }
            for t in got.iter().flat_map(|x| x.iter()) {
                need(out, "actual tag", t)?;
            }
            Ok(())
        }
    }
}

#[allow(deprecated)]
fn short_text(e: &dyn std::error::Error) -> String {
    let _ = e.cause().map(|c| c.to_string());
    e.description().to_owned()
}

fn check_error(out: &mut Out, e: Error, f: Fail) -> Result<(), Viol> {
    out.checks += 1;
    if fail_of(&e) != f {
        return viol("error data", format!("the error holds {:?} instead of {:?}", fail_of(&e), f));
    }
    let text = e.to_string();
    check_text(out, &text, &f)?;
    let about = short_text(&e);
    let b = BuildError::from(e);
    out.checks += 1;
    if about.is_empty() || short_text(&b) != about {
        return viol("description", format!("the error is described as {:?}, wrapped in a build error as {:?}", about, short_text(&b)));
    }
    if !b.to_string().contains(&text) {
        return viol("build error text", format!("the build error {:?} does not show the wrapped {:?}", b.to_string(), text));
    }
    Ok(())
}

#[derive(Debug)]
struct Plain(String);
impl std::fmt::Display for Plain {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Plain {}

#[derive(Debug)]
struct Caused {
    text: String,
    cause: Plain,
}
impl std::fmt::Display for Caused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
impl std::error::Error for Caused {
    fn cause(&self) -> Option<&dyn std::error::Error> {
        Some(&self.cause)
    }
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.cause)
    }
}

/// the short description of a build error is that of the error it wraps
fn described(e: &BuildError) -> Result<(), Viol> {
    let inner = match *e {
        BuildError::TestMessage(ref x) => short_text(x),
        BuildError::Io(ref x) => short_text(x),
        BuildError::DeserJson(ref x) => short_text(x),
        BuildError::DeserYaml(ref x) => short_text(x),
        _ => return Ok(()),
    };
    if short_text(e) != inner {
        return viol("description", format!("the error is described as {:?}, wrapped in a build error as {:?}", inner, short_text(e)));
    }
    Ok(())
}

fn c19(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let w = World::new(g, true);
    let (i, j) = (g.range(0, 1000), g.range(0, 1000));
    let a = w.any_text(g, 6);
    let b = w.any_text(g, 6);
    let c = w.any_text(g, 6);
    let (ta, tb) = (gen_meta(g, &w).tags, gen_meta(g, &w).tags);
    out.nontrivial = !a.is_empty() && !b.is_empty();
    let (u, v) = (uuid_of(i), uuid_of(j));
    match g.below(7) {
        0 => {
            out.label("value differs");
            // distinguishable values show whether expected and actual are told apart
            let marked = g.bool();
            let (b, c) = if marked { ("ZZwantedZZ".to_owned(), "QQactualQQ".to_owned()) } else { (b, c) };
            out.desc = format!("value_not_match {:?} {:?} {:?}", a, b, c);
            let e = Error::value_not_match(&u, &a, &b, &c);
            let text = e.to_string();
            let labels = ["expected", "got"];
            if marked && !a.contains("expected") && !a.contains("got") && (label_before(&text, &b, &labels) == Some("got") || label_before(&text, &c, &labels) == Some("expected")) {
                return viol("error text", format!("the text confuses expected and actual value: {:?}", text));
            }
            check_error(out, e, Fail::Differs { uuid: hyph(i), key: a, want: b, got: c })
        }
        1 => {
            out.label("missing key");
            out.desc = format!("key_not_found {:?}", a);
            check_error(out, Error::key_not_found(&u, &a), Fail::Missing { uuid: hyph(i), key: a })
        }
        2 => {
            out.label("unmatched");
            out.desc = format!("test_message_does_not_match {:?}", a);
            let t = TestMessage::new(a.clone(), BTreeMap::new(), ta);
            check_error(out, Error::test_message_does_not_match(&u, &t), Fail::NoMatch { uuid: hyph(i), message: a })
        }
        3 => {
            out.label("other pattern");
            out.desc = format!("matched_to_other_pattern {:?} {} {}", a, i, j);
            check_error(out, Error::matched_to_other_pattern(&u, &v, &a), Fail::Other { uuid: hyph(i), got: hyph(j), message: a })
        }
        4 => {
            out.label("tags");
            out.desc = format!("unexpected_tags {:?} {:?}", ta, tb);
            let marked = g.bool();
            let (ta, tb) = if marked { (Some(vec!["ZZwantedZZ".to_owned()]), Some(vec!["QQactualQQ".to_owned()])) } else { (ta, tb) };
            let e = Error::unexpected_tags(&u, ta.clone(), tb.clone());
            let text = e.to_string();
            let labels = ["expected:", "expected=", "got"];
            if marked && (label_before(&text, "ZZwantedZZ", &labels) == Some("got") || label_before(&text, "QQactualQQ", &labels).map_or(false, |l| l != "got")) {
                return viol("error text", format!("the text confuses expected and actual tags: {:?}", text));
            }
            check_error(out, e, Fail::Tags { uuid: hyph(i), want: ta, got: tb })
        }
        5 => {
            out.label("io error");
            out.desc = format!("io error {:?}", a);
            let e = BuildError::from(std::io::Error::new(std::io::ErrorKind::Other, a.clone()));
            out.checks += 1;
            if !mentions(&e.to_string(), &a) {
                return viol("build error text", format!("the build error {:?} does not show the wrapped {:?}", e.to_string(), a));
            }
            described(&e)?;
            // an error that has a cause of its own
            let b = g.pick(&["", "disk", "\u{e9}", "a: b"]).to_string();
            let e = BuildError::from(std::io::Error::new(std::io::ErrorKind::Other, Caused { text: a.clone(), cause: Plain(b.clone()) }));
            described(&e)?;
            let mut at: Option<&dyn std::error::Error> = Some(&e);
            let mut seen = false;
            while let Some(x) = at {
                seen = seen || mentions(&x.to_string(), &b);
                #[allow(deprecated)]
                {
                    at = x.cause();
                }
            }
            if !seen {
                return viol("cause", format!("the cause {:?} of the wrapped error is not found from the build error {:?}", b, e));
            }
            Ok(())
        }
        _ => {
            out.label("deserialization error");
            let yaml = g.bool();
            let text = (*g.pick(&["{", "{\"patterns\": 1}", "{\"x\": 1}", "{\"patterns\": [{\"uuid\": \"x\", \"pattern\": \"a\"}]}", "[", "{\"patterns\": [{\"pattern\": \"a\"}]}"])).to_owned();
            out.desc = format!("{} {}", yaml, text);
            let path = put(if yaml { "yaml" } else { "json" }, text.as_bytes());
            out.checks += 1;
            match PatternLoader::load_file(&path) {
                Ok(_) => return viol("accepted", format!("{:?} is loaded", text)),
                Err(kept) => {
                    let shown = kept.to_string();
                    let inner = match kept {
                        BuildError::DeserJson(ref x) => x.to_string(),
                        BuildError::DeserYaml(ref x) => x.to_string(),
                        _ => return viol("wrong kind", format!("{:?} fails with {}", text, kept)),
                    };
                    if inner.is_empty() || !shown.contains(&inner) {
                        return viol("build error text", format!("the build error {:?} does not show the wrapped {:?}", shown, inner));
                    }
                    described(&kept)?;
                }
            }
            Ok(())
        }
    }
}
