//! Pattern file documents: a generic tree, its JSON and YAML spellings, and the content it stands for.

use crate::gen::{render, World};
use crate::model::Tok;
use crate::real::{uuid_of, Meta};
use crate::tape::Gen;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Str(String),
    /// number, true, false or null, spelled alike in both formats
    Raw(String),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct TestDoc {
    pub message: String,
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
}

#[derive(Clone, Debug)]
pub struct PatDoc {
    pub toks: Vec<Tok>,
    pub text: String,
    pub meta: Meta,
    pub tests: Option<Vec<TestDoc>>,
}

fn short(s: String) -> String {
    s.chars().take(60).collect()
}

fn strings(g: &mut Gen, w: &World, max: usize) -> Vec<String> {
    let n = if w.big && g.chance(1, 6) { g.range(10, 70) } else { g.range(0, max) };
    (0..n).map(|_| w.any_text(g, 4)).collect()
}

fn map(g: &mut Gen, w: &World) -> BTreeMap<String, String> {
    let n = if w.big && g.chance(1, 6) { g.range(10, 70) } else { g.range(0, 4) };
    let mut m = BTreeMap::new();
    for i in 0..n {
        let k = match g.below(3) {
            0 => (*g.pick(&["a", "b", "k1", "name", "uuid", "values", "message", "pattern", "tags"])).to_owned(),
            1 => format!("k{}", i),
            _ => short(w.any_text(g, 4)),
        };
        m.insert(k, w.any_text(g, 5));
    }
    m
}

pub fn gen_meta(g: &mut Gen, w: &World) -> Meta {
    Meta {
        name: if g.chance(1, 3) { None } else { Some(w.any_text(g, 6)) },
        values: if g.chance(1, 3) { None } else { Some(map(g, w)) },
        tags: if g.chance(1, 3) { None } else { Some(strings(g, w, 4)) },
    }
}

/// Documents with free content; test messages need not hold.
pub fn gen_docs(g: &mut Gen, w: &mut World, max: usize) -> Vec<PatDoc> {
    let n = if w.big && g.chance(1, 4) { g.range(20, 150) } else { g.range(0, max) };
    let mut pats: Vec<Vec<Tok>> = vec![];
    for _ in 0..n {
        let p = w.pattern(g, &pats);
        pats.push(p);
    }
    let mut out = vec![];
    for p in pats {
        let text = render(g, &p);
        let meta = gen_meta(g, w);
        let tests = if g.chance(1, 3) { None } else {
            let n = if w.big && g.chance(1, 6) { g.range(10, 40) } else { g.range(0, 3) };
            Some((0..n).map(|_| TestDoc {
                message: if g.bool() { w.sample(g, &p) } else { w.any_text(g, 8) },
                values: if g.chance(1, 3) { None } else { Some(map(g, w)) },
                tags: if g.chance(1, 3) { None } else { Some(strings(g, w, 3)) },
            }).collect())
        };
        out.push(PatDoc { toks: p, text: text, meta: meta, tests: tests });
    }
    if out.len() > 1 && g.chance(1, 4) {
        // parts or all of an entry repeat those of another one
        for _ in 0..g.range(1, out.len().min(6)) {
            let from = g.range(0, out.len() - 1);
            let to = if g.bool() { (from + 1) % out.len() } else { g.range(0, out.len() - 1) };
            let src = out[from].clone();
            match g.below(6) {
                0 => out[to] = src,
                1 => out[to].meta.name = src.meta.name,
                2 => out[to].meta = src.meta,
                3 => out[to].tests = src.tests,
                4 => out[to].meta.values = src.meta.values,
                _ => {
                    out[to].toks = src.toks;
                    out[to].text = src.text;
                }
            }
        }
    }
    out
}

fn s(x: &str) -> Node {
    Node::Str(x.to_owned())
}

fn map_node(g: &mut Gen, m: &BTreeMap<String, String>) -> Node {
    let mut v: Vec<(String, Node)> = m.iter().map(|(k, v)| (k.clone(), s(v))).collect();
    if v.len() < 12 {
        g.shuffle(&mut v);
    }
    Node::Map(v)
}

fn seq_node(v: &[String]) -> Node {
    Node::Seq(v.iter().map(|x| s(x)).collect())
}

pub fn test_node(g: &mut Gen, t: &TestDoc) -> Node {
    let mut m = vec![("message".to_owned(), s(&t.message))];
    if let Some(ref v) = t.values {
        m.push(("values".to_owned(), map_node(g, v)));
    }
    if let Some(ref v) = t.tags {
        m.push(("tags".to_owned(), seq_node(v)));
    }
    g.shuffle(&mut m);
    Node::Map(m)
}

pub fn uuid_text(g: &mut Gen, i: usize) -> String {
    let u = uuid_of(i);
    match g.weighted(&[6, 2, 2, 1, 1]) {
        0 => u.hyphenated().to_string(),
        1 => u.hyphenated().to_string().to_uppercase(),
        2 => u.simple().to_string(),
        3 => u.simple().to_string().to_uppercase(),
        _ => u.urn().to_string(),
    }
}

pub fn pat_node(g: &mut Gen, i: usize, d: &PatDoc) -> Node {
    let u = uuid_text(g, i);
    let mut m = vec![("uuid".to_owned(), s(&u)), ("pattern".to_owned(), s(&d.text))];
    if let Some(ref n) = d.meta.name {
        m.push(("name".to_owned(), s(n)));
    }
    if let Some(ref v) = d.meta.values {
        m.push(("values".to_owned(), map_node(g, v)));
    }
    if let Some(ref v) = d.meta.tags {
        m.push(("tags".to_owned(), seq_node(v)));
    }
    if let Some(ref ts) = d.tests {
        let ts: Vec<Node> = ts.iter().map(|t| test_node(g, t)).collect();
        m.push(("test_messages".to_owned(), Node::Seq(ts)));
    }
    g.shuffle(&mut m);
    Node::Map(m)
}

pub fn file_node(g: &mut Gen, docs: &[PatDoc]) -> Node {
    let v: Vec<Node> = docs.iter().enumerate().map(|(i, d)| pat_node(g, i, d)).collect();
    Node::Map(vec![("patterns".to_owned(), Node::Seq(v))])
}

// ---------------------------------------------------------------- JSON

fn json_str(g: &mut Gen, x: &str, o: &mut String) {
    let style = g.below(4);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if style != 1 => o.push_str("\\n"),
            '\t' if style != 1 => o.push_str("\\t"),
            '\r' if style != 1 => o.push_str("\\r"),
            '/' if style == 2 => o.push_str("\\/"),
            c if (c as u32) < 0x20 || style == 1 || (style == 2 && !c.is_ascii()) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if style == 1 {
                        o.push_str(&format!("\\u{:04X}", u));
                    } else {
                        o.push_str(&format!("\\u{:04x}", u));
                    }
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(g: &mut Gen, style: u64, o: &mut String) {
    match style {
        0 => {}
        1 => o.push(' '),
        _ => o.push_str(*g.pick(&["", "\n", " ", "\t", "\r\n", "  "])),
    }
}

fn json_node(g: &mut Gen, n: &Node, style: u64, o: &mut String) {
    match *n {
        Node::Str(ref x) => json_str(g, x, o),
        Node::Raw(ref x) => o.push_str(x),
        Node::Seq(ref v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(g, style, o);
                json_node(g, x, style, o);
                ws(g, style, o);
            }
            o.push(']');
        }
        Node::Map(ref v) => {
            o.push('{');
            for (i, &(ref k, ref x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(g, style, o);
                json_str(g, k, o);
                ws(g, style, o);
                o.push(':');
                ws(g, style, o);
                json_node(g, x, style, o);
                ws(g, style, o);
            }
            o.push('}');
        }
    }
}

pub fn json(g: &mut Gen, n: &Node) -> String {
    let mut o = String::new();
    let style = g.below(3);
    ws(g, style, &mut o);
    json_node(g, n, style, &mut o);
    ws(g, style, &mut o);
    o
}

// ---------------------------------------------------------------- YAML

fn yaml_str(g: &mut Gen, x: &str, o: &mut String) {
    let plain = !x.is_empty() && x.len() < 60 && x.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') &&
        !["true", "false", "null", "yes", "no", "on", "off", "y", "n"].contains(&x);
    // a quoted scalar may hold every character from the blank on as it is
    let single = !x.is_empty() && x.chars().all(|c| c >= ' ' || c == '\t');
    let raw_tab = g.chance(1, 3);
    let raw = g.chance(1, 2);
    match g.below(4) {
        0 if plain => o.push_str(x),
        1 if single => {
            o.push('\'');
            o.push_str(&x.replace("'", "''"));
            o.push('\'');
        }
        _ => {
            o.push('"');
            for c in x.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' if raw_tab => o.push('\t'),
                    '\t' => o.push_str("\\t"),
                    '\r' => o.push_str("\\r"),
                    c if c >= ' ' && (raw || c <= '~') => o.push(c),
                    c if (c as u32) < 0x100 && (c as u32) < 0xa0 => o.push_str(&format!("\\x{:02x}", c as u32)),
                    c if c.is_alphabetic() || "€😀😁₭∂".contains(c) => o.push(c),
                    c if (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push_str(&format!("\\U{:08x}", c as u32)),
                }
            }
            o.push('"');
        }
    }
}

/// breaks a quoted scalar over several lines: a line break stands for a blank, an escaped one for nothing
fn fold(g: &mut Gen, quoted: &str, indent: usize) -> String {
    let cs: Vec<char> = quoted.chars().collect();
    let double = cs[0] == '"';
    let escaped_breaks = double && g.chance(1, 3);
    // an escape sequence is not to be torn
    let mut inside = vec![false; cs.len() + 10];
    let mut i = 1;
    while double && i < cs.len() {
        if cs[i] == '\\' {
            let n = match cs[i + 1] {
                'x' => 3,
                'u' => 5,
                'U' => 9,
                _ => 1,
            };
            for j in i + 1..i + 1 + n {
                inside[j] = true;
            }
            i += n;
        }
        i += 1;
    }
    let mut o = String::new();
    for (i, c) in cs.iter().enumerate() {
        let solid = |j: usize| cs.get(j).map_or(false, |c| !c.is_whitespace() && *c != '\u{feff}');
        // not next to the quotation marks, no escaped blank
        if *c == ' ' && i > 1 && i + 2 < cs.len() && solid(i - 1) && solid(i + 1) && cs[i - 1] != '\\' && g.bool() {
            o.push_str(*g.pick(&["\n", " \n", "\r\n"]));
            o.push_str(&" ".repeat(indent + g.range(0, 3)));
        } else {
            if escaped_breaks && i > 1 && i + 1 < cs.len() && !inside[i] && solid(i) && g.chance(1, 6) {
                o.push_str(*g.pick(&["\\\n", "\\\r\n"]));
                o.push_str(&" ".repeat(indent + g.range(0, 3)));
            }
            o.push(*c);
        }
    }
    o
}

/// a scalar as a value, whose further lines are indented by at least `indent`
fn yaml_text(g: &mut Gen, x: &str, indent: usize, o: &mut String) {
    let mut q = String::new();
    yaml_str(g, x, &mut q);
    if (q.starts_with('"') || q.starts_with('\'')) && g.chance(1, 3) {
        q = fold(g, &q, indent);
    }
    o.push_str(&q);
}

/// a text that can be written as a literal block
fn blockable(x: &str) -> bool {
    let lines: Vec<&str> = x.split('\n').collect();
    !x.is_empty() && x.chars().all(|c| (c >= ' ' && c <= '~') || c == '\n' || (c >= '\u{a1}' && c.is_alphabetic())) &&
        lines.iter().enumerate().all(|(i, l)| !l.starts_with(' ') && (!l.is_empty() || i + 1 == lines.len())) && lines[0] != ""
}

fn yaml_flow(g: &mut Gen, n: &Node, indent: usize, o: &mut String) {
    match *n {
        Node::Str(ref x) => yaml_text(g, x, indent, o),
        Node::Raw(ref x) => o.push_str(x),
        Node::Seq(ref v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                yaml_flow(g, x, indent, o);
            }
            o.push(']');
        }
        Node::Map(ref v) => {
            o.push('{');
            for (i, &(ref k, ref x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                yaml_str(g, k, o);
                o.push_str(": ");
                yaml_flow(g, x, indent, o);
            }
            o.push('}');
        }
    }
}

/// writes the value after "key:" or "-", with its line end
fn yaml_value(g: &mut Gen, n: &Node, indent: usize, o: &mut String) {
    let empty = match *n {
        Node::Seq(ref v) => v.is_empty(),
        Node::Map(ref v) => v.is_empty(),
        _ => true,
    };
    if let Node::Str(ref x) = *n {
        if blockable(x) && g.chance(1, 6) {
            // literal block; one line feed at the end is kept by "|" and dropped by "|-"
            o.push_str(if x.ends_with('\n') { " |\n" } else { " |-\n" });
            for l in x.trim_end_matches('\n').split('\n') {
                o.push_str(&" ".repeat(indent + 1));
                o.push_str(l);
                o.push('\n');
            }
            return;
        }
    }
    if empty || g.chance(1, 8) {
        o.push(' ');
        yaml_flow(g, n, indent + 1, o);
        o.push('\n');
    } else {
        o.push('\n');
        yaml_block(g, n, indent, o);
    }
}

/// now and then a comment or an empty line before an entry
fn yaml_gap(g: &mut Gen, pad: &str, o: &mut String) {
    if g.chance(1, 24) {
        match g.below(4) {
            0 => o.push('\n'),
            1 => {
                o.push_str(pad);
                o.push_str("# comment: \"x\n");
            }
            2 => o.push_str("# - a: [\n"),
            _ => o.push_str("\n\n"),
        }
    }
}

fn yaml_block(g: &mut Gen, n: &Node, indent: usize, o: &mut String) {
    let pad = " ".repeat(indent);
    match *n {
        Node::Seq(ref v) => for x in v {
            match *x {
                Node::Map(ref m) if !m.is_empty() && g.bool() => {
                    // compact form: "- key: value"
                    for (i, &(ref k, ref x)) in m.iter().enumerate() {
                        yaml_gap(g, &pad, o);
                        o.push_str(&pad);
                        o.push_str(if i == 0 { "- " } else { "  " });
                        yaml_str(g, k, o);
                        o.push(':');
                        yaml_value(g, x, indent + 4, o);
                    }
                }
                ref x => {
                    yaml_gap(g, &pad, o);
                    o.push_str(&pad);
                    o.push('-');
                    yaml_value(g, x, indent + 2, o);
                }
            }
        },
        Node::Map(ref v) => for &(ref k, ref x) in v {
            yaml_gap(g, &pad, o);
            o.push_str(&pad);
            yaml_str(g, k, o);
            o.push(':');
            yaml_value(g, x, indent + 2, o);
        },
        _ => panic!("scalar in block position"),
    }
}

/// one YAML document without anything around it
pub fn yaml_bare(g: &mut Gen, n: &Node) -> String {
    let mut o = String::new();
    let empty = match *n {
        Node::Seq(ref v) => v.is_empty(),
        Node::Map(ref v) => v.is_empty(),
        _ => true,
    };
    if empty || g.chance(1, 10) {
        yaml_flow(g, n, 1, &mut o);
        o.push('\n');
    } else {
        yaml_block(g, n, 0, &mut o);
    }
    o
}

pub fn yaml(g: &mut Gen, n: &Node) -> String {
    let mut o = String::new();
    if g.chance(1, 3) {
        if g.chance(1, 4) {
            o.push_str(*g.pick(&["# about: these patterns\n", "\n", "# - x\n\n#\n", "%YAML 1.1\n", "# a\n%YAML 1.2\n", "   # indented\n"]));
        }
        o.push_str(*g.pick(&["---\n", "---\n", "--- # start\n", "---\n\n"]));
    } else if g.chance(1, 10) {
        o.push_str(*g.pick(&["# about: these patterns\n", "\n\n", "#\n# ---\n", "  # indented\n"]));
    }
    let bare = yaml_bare(g, n);
    o.push_str(&bare);
    if g.chance(1, 8) {
        o.push_str(*g.pick(&["...\n", "# the end\n", "\n\n", "...\n# the end\n", "# ---\n", "..."]));
    }
    // the last line need not be ended, unless a literal block keeps its line feed
    if g.chance(1, 16) && o.ends_with('\n') && !o.contains(" |\n") {
        o.pop();
    }
    if g.chance(1, 10) {
        // line ends of the other kind
        o = o.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    o
}

/// YAML restricts keys to 1024 characters on one line
pub fn yaml_can(n: &Node) -> bool {
    match *n {
        Node::Seq(ref v) => v.iter().all(yaml_can),
        Node::Map(ref v) => v.iter().all(|x| x.0.chars().count() <= 60 && yaml_can(&x.1)),
        _ => true,
    }
}
