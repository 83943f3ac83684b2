//! The PatternDB converter utils/pdb2adb: C25. The Perl modules it needs are not installed; those in
//! /verif/perl stand in for them.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::World;
use crate::model::{canon, compile, Tok, Verdict};
use crate::props_match::{merge_literals, show};
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::PatternLoader;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", quick: 4_000, thorough: 120_000, f: c25,
               rule: "PatternDB files of 1-4 rulesets with 0-5 rules of 1-3 patterns, written as XML in different ways, converted by the script (with stand-ins for the Perl modules it needs) with random options. Non-trivial: at least two patterns are to be converted, one of them with a parser" },
    ]
}

enum Piece {
    Lit(String),
    /// as written between two @, and what it is converted to; None if it is not supported
    Parser(String, Option<Vec<Tok>>),
}

struct Rule {
    id: String,
    pats: Vec<Vec<Piece>>,
    tags: Vec<String>,
    values: Vec<(String, String)>,
    examples: Vec<(String, String, Option<Vec<(String, String)>>)>,
}

struct Set {
    name: Option<String>,
    id: String,
    programs: Vec<String>,
    rules: Vec<Rule>,
}

const PLAIN: &'static str = "AZERTYUIOPQSDFGHJKLMWXCVBNazertyuiopqsdfghjklmwxcvbn1234567890";

/// text that XML can hold
fn text(g: &mut Gen, lo: usize, hi: usize) -> String {
    let n = g.range(lo, hi);
    let mut s = String::new();
    for _ in 0..n {
        match g.weighted(&[20, 6, 3]) {
            0 => s.push_str(*g.pick(&["a", "b", "c", "0", "7", " ", "x y", "from ", "user="])),
            1 => s.push_str(*g.pick(&[":", "%", "{", "}", "%{", "@", "\"", "'", "&", "<", ">", "]]>", "&amp;", "$", "\\", "(", ")", "[", "]", "::", "@@", "%{INT}", ",", "#", "|", "/", "-", "--", "*", "?", "^", ".", "=", "~", "`"])),
            _ => s.push_str(*g.pick(&["é", "ß", "日本", "😀", "\u{a0}", "ő", "\u{7f}", "\t"])),
        }
    }
    s
}

/// text for a pattern: must not run together with its neighbours to something else
fn lit(g: &mut Gen, lo: usize, hi: usize) -> String {
    let mut s = text(g, lo, hi).replace("\\", "/");
    while s.ends_with('%') {
        s.pop();
    }
    if s.chars().count() < lo { "z".to_owned() } else { s }
}

fn no_at(s: String) -> String {
    s.replace("@", "+")
}

fn piece(g: &mut Gen, last: bool) -> Piece {
    if g.chance(2, 5) {
        return Piece::Lit(lit(g, 1, 5));
    }
    let key: Option<String> = match g.below(4) {
        0 => None,
        1 => Some((*g.pick(&["a", "b", "usracct.username", ".dict.x", "_k", "K9"])).to_owned()),
        _ => Some(format!("{}{}", g.pick(&["k", "x.", "_", "Q"]), g.below(12))),
    };
    let name = Some(key.clone().unwrap_or("pdb2adb2ignore".to_owned()));
    let k = key.unwrap_or_default();
    // without options the trailing colons may be left out
    let bare = |g: &mut Gen, ty: &str, k: &str| -> String {
        if k.is_empty() {
            format!("{}{}", ty, g.pick(&["", ":"]))
        } else {
            format!("{}:{}", ty, k)
        }
    };
    let set = |s: String| Tok::Set { set: s, min: None, max: None, name: name.clone() };
    let greedy = Tok::Greedy { name: name.clone(), end: None };
    match g.weighted(&[9, 5, 6, 3, 5, 5, 2, 2, if last { 5 } else { 0 }, 1]) {
        0 => {
            let e = match g.below(4) {
                0 => " ".to_owned(),
                1 => (*g.pick(&[":", "::", ":x", "a:b", ": ", ",", "\"", "0", "%{"])).to_owned(),
                _ => no_at(lit(g, 1, 3)),
            };
            Piece::Parser(format!("ESTRING:{}:{}", k, e), Some(vec![greedy, Tok::Lit(e)]))
        }
        1 => {
            let q = *g.pick(&["\"", "'", "()", "[]", "<>", "{}", "\"\"", "::", ":", "0", "->"]);
            let a: String = q.chars().take(1).collect();
            let b: String = q.chars().last().into_iter().collect();
            Piece::Parser(format!("QSTRING:{}:{}", k, q), Some(vec![Tok::Lit(a), greedy, Tok::Lit(b)]))
        }
        2 => Piece::Parser(bare(g, "NUMBER", &k), Some(vec![Tok::Int { min: None, max: None, name: name.clone() }])),
        3 => Piece::Parser(bare(g, "HOSTNAME", &k), Some(vec![set(format!("{}-.", PLAIN))])),
        4 => if g.bool() {
            Piece::Parser(bare(g, "STRING", &k), Some(vec![set(PLAIN.to_owned())]))
        } else {
            let o = no_at(text(g, 1, 3)).replace("\"", "");
            Piece::Parser(format!("STRING:{}:{}", k, o), Some(vec![set(format!("{}{}", PLAIN, o))]))
        },
        5 => {
            let o = no_at(text(g, 1, 4)).replace("\"", "");
            let o = if o.is_empty() { "0".to_owned() } else { o };
            Piece::Parser(format!("SET:{}:{}", k, o), Some(vec![set(o)]))
        }
        6 => {
            let ty = *g.pick(&["FLOAT", "DOUBLE"]);
            Piece::Parser(bare(g, ty, &k), Some(vec![set("1234567890.".to_owned())]))
        }
        7 => {
            let ty = *g.pick(&["IPvANY", "MACADDR", "IPv4", "LLADDR"]);
            Piece::Parser(bare(g, ty, &k), Some(vec![greedy]))
        }
        8 => Piece::Parser(bare(g, "ANYSTRING", &k), Some(vec![greedy])),
        _ => {
            let ty = *g.pick(&["PCRE", "EMAIL", "IPv6", "OPTIONALSET", "string", "XYZ"]);
            Piece::Parser(format!("{}:{}:[a]", ty, k), None)
        }
    }
}

fn pdb_text(p: &[Piece]) -> String {
    p.iter().map(|x| match *x {
        Piece::Lit(ref l) => l.replace("@", "@@"),
        Piece::Parser(ref t, _) => format!("@{}@", t),
    }).collect()
}

/// the tokens of the converted pattern
fn converted(p: &[Piece], program: Option<&str>) -> Option<Vec<Tok>> {
    let mut toks = vec![];
    if let Some(x) = program {
        toks.push(Tok::Lit(format!("{}: ", x)));
    }
    for x in p {
        match *x {
            Piece::Lit(ref l) => toks.push(Tok::Lit(l.clone())),
            Piece::Parser(_, Some(ref t)) => toks.extend(t.iter().cloned()),
            Piece::Parser(_, None) => return None,
        }
    }
    let mut toks = merge_literals(&toks);
    for i in 1..toks.len() {
        if let Tok::Lit(l) = toks[i].clone() {
            if let Tok::Greedy { ref mut end, .. } = toks[i - 1] {
                *end = Some(l);
            }
        }
    }
    Some(canon(&toks))
}

fn pairs(g: &mut Gen, max: usize) -> Vec<(String, String)> {
    (0..g.range(0, max)).map(|i| {
        let k = if g.bool() { format!("k{}", i) } else { xml_name_text(g) };
        (k, some_text(g, 0, 4))
    }).collect()
}

fn xml_name_text(g: &mut Gen) -> String {
    text(g, 1, 3).replace("\t", "T")
}

/// not only blanks
fn some_text(g: &mut Gen, lo: usize, hi: usize) -> String {
    let s = text(g, lo, hi);
    if !s.is_empty() && s.trim().is_empty() { format!("{}x", s) } else { s }
}

fn gen_sets(g: &mut Gen) -> Vec<Set> {
    let mut n = 0;
    let mut sets = vec![];
    for i in 0..g.range(1, 3) {
        let mut rules = vec![];
        for _ in 0..g.range(0, 4) {
            n += 1;
            let mut pats = vec![];
            for _ in 0..*g.pick(&[1, 1, 1, 2, 3]) {
                let len = g.range(1, 6);
                let mut p: Vec<Piece> = (0..len).map(|j| piece(g, j + 1 == len)).collect();
                // a pattern with something in it besides blanks
                if pdb_text(&p).trim().is_empty() {
                    p.push(Piece::Lit("x".to_owned()));
                }
                if g.chance(1, 40) {
                    p = vec![Piece::Lit("0".to_owned())];
                }
                pats.push(p);
            }
            let mut values = pairs(g, 3);
            if g.chance(1, 5) {
                values.push(("m".to_owned(), "$(grep x)".to_owned()));
            }
            rules.push(Rule {
                id: uuid_of(n).hyphenated().to_string(),
                pats: pats,
                tags: (0..g.range(0, 3)).map(|_| some_text(g, 0, 3)).collect(),
                values: values,
                examples: (0..g.range(0, 3)).map(|_| {
                    let v = if g.chance(1, 3) { None } else { Some(pairs(g, 3)) };
                    (xml_name_text(g), some_text(g, 1, 6), v)
                }).collect(),
            });
        }
        let programs = (0..*g.pick(&[1, 1, 1, 1, 1, 2, 0])).map(|_| {
            let mut s = format!("p{}", lit(g, 0, 2));
            if s.contains("%{") || s.contains('@') {
                s = "sshd".to_owned();
            }
            s
        }).collect();
        sets.push(Set {
            name: if g.chance(1, 5) { None } else { Some(format!("{}{}", g.pick(&["sshd", "my rules ", "é"]), i)) },
            id: format!("ruleset-{}", i),
            programs: programs,
            rules: rules,
        });
    }
    sets
}

// ---------------------------------------------------------------- XML

fn content(g: &mut Gen, s: &str) -> String {
    let mut o = String::new();
    if g.chance(1, 8) && !s.contains("]]>") {
        return format!("<![CDATA[{}]]>", s);
    }
    for c in s.chars() {
        match c {
            '&' => o.push_str(*g.pick(&["&amp;", "&#38;"])),
            '<' => o.push_str(*g.pick(&["&lt;", "&#x3c;"])),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str(*g.pick(&["\"", "&quot;"])),
            '\'' => o.push_str(*g.pick(&["'", "&apos;"])),
            c => if g.chance(1, 30) { o.push_str(&format!("&#{};", c as u32)) } else { o.push(c) },
        }
    }
    o
}

fn attr(g: &mut Gen, k: &str, v: &str) -> String {
    let q = *g.pick(&["\"", "'"]);
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    format!(" {}={}{}{}", k, q, o, q)
}

fn elem(g: &mut Gen, name: &str, attrs: &str, body: String) -> String {
    if body.is_empty() && g.bool() {
        return format!("<{}{}/>{}", name, attrs, gap(g));
    }
    format!("<{}{}>{}</{}>{}", name, attrs, body, name, gap(g))
}

fn gap(g: &mut Gen) -> &'static str {
    *g.pick(&["\n", "\n  ", "\n\t", "", "\n", "\n<!-- <pattern>no</pattern> -->\n", "\r\n"])
}

/// either directly or in a wrapper
fn group(g: &mut Gen, wrapper: &str, items: Vec<String>) -> String {
    let s: String = items.concat();
    if g.chance(1, 4) {
        s
    } else if s.is_empty() && g.bool() {
        s
    } else {
        format!("<{}>{}{}</{}>{}", wrapper, gap(g), s, wrapper, gap(g))
    }
}

fn xml(g: &mut Gen, sets: &[Set]) -> String {
    let mut doc = String::new();
    for s in sets {
        let mut parts = vec![];
        if g.bool() {
            parts.push(elem(g, "description", "", "  about\n this ".to_owned()));
        }
        let ps: Vec<String> = s.programs.iter().map(|p| {
            let c = content(g, p);
            elem(g, "pattern", "", c)
        }).collect();
        parts.push(group(g, "patterns", ps));
        let mut rules = vec![];
        for r in &s.rules {
            let mut rp = vec![];
            let ps: Vec<String> = r.pats.iter().map(|p| {
                let c = content(g, &pdb_text(p));
                elem(g, "pattern", "", c)
            }).collect();
            rp.push(group(g, "patterns", ps));
            let es: Vec<String> = r.examples.iter().map(|&(ref prog, ref msg, ref vals)| {
                let a = attr(g, "program", prog);
                let c = content(g, msg);
                let mut b = vec![elem(g, "test_message", &a, c)];
                if let Some(ref vals) = *vals {
                    let vs: Vec<String> = vals.iter().map(|&(ref k, ref v)| {
                        let a = attr(g, "name", k);
                        let c = content(g, v);
                        elem(g, "test_value", &a, c)
                    }).collect();
                    b.push(format!("<test_values>{}</test_values>{}", vs.concat(), gap(g)));
                }
                if g.bool() {
                    b.reverse();
                }
                format!("<example>{}{}</example>{}", gap(g), b.concat(), gap(g))
            }).collect();
            rp.push(group(g, "examples", es));
            let vs: Vec<String> = r.values.iter().map(|&(ref k, ref v)| {
                let a = attr(g, "name", k);
                let c = content(g, v);
                elem(g, "value", &a, c)
            }).collect();
            rp.push(group(g, "values", vs));
            let ts: Vec<String> = r.tags.iter().map(|t| {
                let c = content(g, t);
                elem(g, "tag", "", c)
            }).collect();
            rp.push(group(g, "tags", ts));
            if g.chance(1, 3) {
                rp.push("<description>of the rule</description>\n<urls><url>http://x</url></urls>\n".to_owned());
            }
            if g.chance(1, 4) {
                rp.push("<actions><action trigger='match'><message inherit-properties='TRUE'><values><value name='act'>v</value></values><tags><tag>act</tag></tags></message></action></actions>\n".to_owned());
            }
            g.shuffle(&mut rp);
            let mut a = format!("{} provider='x' class='system'", attr(g, "id", &r.id));
            if g.chance(1, 4) {
                a.push_str(" context-id='c' context-timeout=\"10\" context-scope='host'");
            }
            rules.push(format!("<rule{}>{}{}</rule>{}", a, gap(g), rp.concat(), gap(g)));
        }
        parts.push(if g.chance(1, 4) { rules.concat() } else { format!("<rules>{}{}</rules>{}", gap(g), rules.concat(), gap(g)) });
        if g.chance(1, 4) {
            parts.reverse();
        }
        let mut a = match s.name {
            Some(ref n) => attr(g, "name", n),
            None => String::new(),
        };
        a.push_str(&attr(g, "id", &s.id));
        doc.push_str(&format!("<ruleset{}>{}{}</ruleset>{}", a, gap(g), parts.concat(), gap(g)));
    }
    format!("{}<patterndb version='4' pub_date='2016-01-01'>{}{}</patterndb>\n", g.pick(&["<?xml version='1.0' encoding='UTF-8'?>\n", "", "\u{feff}<?xml version=\"1.0\"?>"]), gap(g), doc)
}

// ---------------------------------------------------------------- the check

/// what is to be written for one pattern; the uuid is that of the rule for its first pattern
#[derive(Debug, Clone, PartialEq)]
struct Entry {
    uuid: Option<String>,
    set: String,
    toks: Vec<Tok>,
    tags: Vec<String>,
    values: BTreeMap<String, String>,
    tests: Vec<(String, BTreeMap<String, String>)>,
}

fn map_of(v: &Value) -> BTreeMap<String, String> {
    v.as_object().map_or(BTreeMap::new(), |o| o.iter().map(|(k, x)| (k.clone(), x.as_str().unwrap_or("not a string").to_owned())).collect())
}

fn script() -> String {
    format!("{}/utils/pdb2adb", std::env::var("ADB_REPO").unwrap_or("/repo".to_owned()))
}

fn c25(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let _ = World::new(g, false);
    let sets = gen_sets(g);
    let with_program = g.chance(1, 2);
    let examples = g.chance(4, 5);
    let doc = xml(g, &sets);
    out.desc = doc.clone();
    let mut args: Vec<&str> = vec![];
    if with_program {
        args.push(*g.pick(&["-P", "--program"]));
    } else if g.chance(1, 5) {
        args.push("--no-program");
    }
    if !examples {
        args.push(*g.pick(&["--no-examples", "--noexamples"]));
    }
    if g.chance(1, 5) {
        args.push("-p");
    }
    let input = put("xml", doc.as_bytes());
    let perl = format!("{}/perl", crate::root().display());
    let run = Command::new("perl").arg("-I").arg(&perl).arg(script()).args(&args).arg(&input)
        .env("PERL_HASH_SEED", g.below(1 << 30).to_string()).env("PERL_RAND_SEED", g.below(1 << 30).to_string())
        .env("LC_ALL", "C").env_remove("PERL5LIB").env_remove("PERL5OPT").env_remove("PERL_UNICODE")
        .stdin(Stdio::null()).output();
    let run = match run {
        Ok(r) => r,
        Err(e) => panic!("cannot run perl: {}", e),
    };
    let warnings = String::from_utf8_lossy(&run.stderr).into_owned();
    if run.status.code() == Some(97) {
        panic!("the stand-in modules do not do: {}", warnings);
    }
    if !run.status.success() {
        return viol("conversion fails", format!("converting {:?} ends with {}: {}", doc, run.status, warnings));
    }
    // what is to come out
    let mut want: Vec<Entry> = vec![];
    for s in &sets {
        let set = s.name.clone().unwrap_or(s.id.clone());
        for r in &s.rules {
            if s.programs.is_empty() {
                out.label("no program");
                out.checks += 1;
                if !warnings.contains(&r.id[..]) {
                    return viol("silently dropped", format!("rule {} belongs to a ruleset without program; no warning in {:?}", r.id, warnings));
                }
                continue;
            }
            for (i, p) in r.pats.iter().enumerate() {
                let toks = match converted(p, if with_program { Some(&s.programs[0][..]) } else { None }) {
                    Some(t) => t,
                    None => {
                        out.label("unsupported parser");
                        out.checks += 1;
                        if !warnings.contains("unsupported") {
                            return viol("silently dropped", format!("pattern {:?} is not supported; no warning in {:?}", pdb_text(p), warnings));
                        }
                        continue;
                    }
                };
                want.push(Entry {
                    uuid: if i == 0 { Some(r.id.clone()) } else { None },
                    set: set.clone(),
                    toks: toks,
                    tags: r.tags.clone(),
                    values: r.values.iter().filter(|kv| !kv.1.contains("$(")).cloned().collect(),
                    tests: if examples {
                        r.examples.iter().map(|&(ref prog, ref msg, ref vals)| {
                            let m = if with_program { format!("{}: {}", prog, msg) } else { msg.clone() };
                            (m, vals.clone().unwrap_or_default().into_iter().collect())
                        }).collect()
                    } else {
                        vec![]
                    },
                });
            }
        }
    }
    out.nontrivial = want.len() >= 2 && want.iter().any(|e| e.toks.iter().any(|t| !t.is_lit()));
    out.label_if(with_program, "program");
    out.label_if(!examples, "no examples");
    // what came out: a pattern file
    let path = put("json", &run.stdout);
    let json = String::from_utf8_lossy(&run.stdout).into_owned();
    out.checks += 1;
    let file = match PatternLoader::load_file(&path) {
        Ok(f) => f,
        Err(e) => return viol("does not load", format!("the conversion of {:?} does not load: {}: {}", doc, e, json)),
    };
    let v: Value = match serde_json::from_str(&json) {
        Ok(v) => v,
        Err(e) => return viol("does not load", format!("the conversion is not JSON: {}: {}", e, json)),
    };
    let none = vec![];
    let got = v["patterns"].as_array().unwrap_or(&none);
    if file.patterns().len() != want.len() || got.len() != want.len() {
        return viol("number of patterns", format!("{} patterns instead of {} for {:?}: {}", got.len(), want.len(), doc, json));
    }
    let mut uuids = BTreeSet::new();
    let mut names = BTreeSet::new();
    let ids: BTreeSet<String> = sets.iter().flat_map(|s| s.rules.iter()).map(|r| r.id.clone()).collect();
    for p in got {
        out.checks += 1;
        let text = p["pattern"].as_str().unwrap_or("");
        let toks = match compile(text) {
            Verdict::Accept(t) => canon(&t),
            _ => return viol("not a pattern", format!("{:?} is not a well-formed pattern", text)),
        };
        let uuid = p["uuid"].as_str().unwrap_or("").to_lowercase();
        let name = p["name"].as_str().unwrap_or("").to_owned();
        if !uuids.insert(uuid.clone()) || !names.insert(name.clone()) {
            return viol("same uuid or name", format!("two patterns have uuid {:?} or name {:?}: {}", uuid, name, json));
        }
        let set = match name.rfind('_') {
            Some(i) => name[..i].to_owned(),
            None => return viol("name", format!("a pattern is named {:?}", name)),
        };
        let e = Entry {
            uuid: if ids.contains(&uuid) { Some(uuid) } else { None },
            set: set,
            toks: toks,
            tags: p["tags"].as_array().map_or(vec![], |a| a.iter().map(|t| t.as_str().unwrap_or("not a string").to_owned()).collect()),
            values: map_of(&p["values"]),
            tests: p["test_messages"].as_array().map_or(vec![], |a| a.iter().map(|t| (t["message"].as_str().unwrap_or("").to_owned(), map_of(&t["values"]))).collect()),
        };
        match want.iter().position(|w| *w == e) {
            Some(i) => {
                want.remove(i);
            }
            None => {
                let near: Vec<String> = want.iter().filter(|w| w.uuid == e.uuid).map(|w| format!("{} {:?}", show(&w.toks), w)).collect();
                return viol("conversion", format!("{:?} is converted to {} {:?}; to be written: {:?}", doc, text, e, near));
            }
        }
    }
    Ok(())
}
