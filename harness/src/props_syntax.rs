//! Pattern syntax and robustness: C09-C11.

use crate::doc;
use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::{render, World};
use crate::model::{compile, tok_len, Tok, Verdict};
use crate::props_match::show;
use crate::real::*;
use crate::tape::Gen;
use actiondb::grammar::parser;
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::trie::parser_factory::TrieParserFactory;
use actiondb::matcher::{Pattern, PatternLoader};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", quick: 3_000_000, thorough: 80_000_000, f: c09,
               rule: "token sequences of 1-80 tokens written in pattern text with random spellings (parameter order, blanks, leading zeros, escapes), compared token by token with what compiling gives: literals, names, identity with a builder-made parser, and behaviour on probe texts. Non-trivial: at least one parser and one literal or parameter" },
        Prop { id: "C10", quick: 9_000_000, thorough: 120_000_000, f: c10,
               rule: "pattern texts with one or several injected faults (and syntax soup), judged by an independent recogniser. Non-trivial: the text is malformed by the recogniser and longer than 3 bytes" },
        Prop { id: "C11", quick: 150_000, thorough: 6_000_000, f: c11,
               rule: "syntax soup compiled as patterns, added to both matchers and fed arbitrary messages; mutated JSON and YAML files loaded in all ways. Non-trivial: a pattern compiled and messages were parsed, or a mutated file was loaded" },
        Prop { id: "C32", quick: 600_000, thorough: 15_000_000, f: c32,
               rule: "malformed pattern texts as in C10; for the place the error names, every terminal of the syntax is put there with every one of a set of completions and the result judged by the independent recogniser. Non-trivial: at least one terminal is listed and at least one is not" },
    ]
}

fn c09(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    let mut earlier = vec![];
    let mut p = w.pattern(g, &earlier);
    for _ in 0..g.range(0, 2) {
        earlier.push(p);
        p = w.pattern(g, &earlier);
    }
    // the escaped form of a parser start, in any position
    if g.chance(1, 5) {
        let i = g.range(0, p.len());
        let l = (*g.pick(&["%{", "%{INT}", "a%{", "%{x", "\\{%", "%%{{", "\\%{", "%\\{"])).to_owned();
        p.insert(i, Tok::Lit(l));
        p = crate::gen::fix_grammar(p);
        out.label("escaped parser start");
    }
    let text = render(g, &p);
    out.desc = format!("{:?}", text);
    out.nontrivial = p.iter().any(|t| !t.is_lit()) && (p.len() > 1 || text.contains('('));
    out.label_if(p.iter().any(|t| if let Tok::Greedy { end: Some(_), .. } = *t { true } else { false }), "greedy with end");
    out.label_if(p.len() > 20, "long pattern");
    if compile(&text) != Verdict::Accept(p.clone()) {
        // the spelling does not denote the tokens by the model: generator restriction
        out.nontrivial = false;
        out.label("not expressible");
        return Ok(());
    }
    let cp = match g.below(12) {
        0 => {
            // as the text of a pattern that is loaded
            out.label("in a JSON document");
            let id = uuid_of(1).hyphenated().to_string();
            let doc = doc::json(g, &doc::Node::Map(vec![("uuid".to_owned(), doc::Node::Str(id)), ("pattern".to_owned(), doc::Node::Str(text.clone()))]));
            Pattern::from_json(&doc).map(|p| p.pattern().clone()).map_err(|e| e.to_string())
        }
        i if i % 2 == 0 => parser::pattern(&text).map_err(|e| e.to_string()),
        _ => parser::pattern_with_factory::<TrieParserFactory>(&text).map_err(|e| e.to_string()),
    };
    let cp = match cp {
        Ok(c) => c,
        Err(e) => return viol("valid pattern rejected", format!("{:?} is rejected: {}", text, e)),
    };
    same_tokens(g, out, &w, &p, &cp, &text)
}

pub fn same_tokens(g: &mut Gen, out: &mut Out, w: &World, p: &[Tok], cp: &CompiledPattern, text: &str) -> Result<(), Viol> {
    out.checks += 1;
    if cp.len() != p.len() {
        return viol("token count", format!("{:?} compiles to {} tokens instead of {}: {:?}", text, cp.len(), p.len(), cp));
    }
    for (i, (t, r)) in p.iter().zip(cp).enumerate() {
        out.checks += 1;
        match (t, r) {
            (&Tok::Lit(ref l), &TokenType::Literal(ref x)) => if l != x {
                return viol("literal", format!("{:?}: literal {} is {:?} instead of {:?}", text, i, x, l));
            },
            (&Tok::Lit(_), _) | (_, &TokenType::Literal(_)) => {
                return viol("token type", format!("{:?}: token {} should be {}, but is {:?}", text, i, show(&[t.clone()]), r));
            }
            (t, &TokenType::Parser(ref x)) => {
                let b = real_parser(g, t);
                if x.name() != t.name() {
                    return viol("name", format!("{:?}: token {} is named {:?} instead of {:?}", text, i, x.name(), t.name()));
                }
                if x.hash_os() != b.hash_os() {
                    return viol("parser", format!("{:?}: token {} should be {}, but is {:?}", text, i, show(&[t.clone()]), x));
                }
                for _ in 0..3 {
                    let mut s = String::new();
                    w.sample_tok(g, t, &mut s);
                    s.push_str(&w.text(g, 0, 3));
                    if let Tok::Greedy { end: Some(ref e), .. } = *t {
                        if g.bool() {
                            s.push_str(e);
                        }
                    }
                    out.checks += 1;
                    let got = x.parse(&s).map(|r| r.value().len());
                    if got != tok_len(t, &s) {
                        return viol("behaviour", format!("{:?}: token {} {} consumes {:?} bytes of {:?} instead of {:?}", text, i, show(&[t.clone()]), got, s, tok_len(t, &s)));
                    }
                }
            }
        }
    }
    Ok(())
}

const SOUP: [&str; 48] = ["%{", "}", "%{INT", "%{SET(\"", "%{GREEDY", "INT", "SET", "GREEDY", "(", ")", "\"", ",", " ", "min_len=", "max_len=", "=", "1", "10", "0", ":", "name", "a", ".b", "_c", "%", "{", "\\", "\\%\\{", "\n", "\r\n", "é", "😀", "-", "9", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "%{INT}", "%{INT:a}", "%{GREEDY:x}", "%{SET(\"ab\"):s}", "min_len", "x", "%{int}", "%{INT(min_len=1)}", "\"ab\"", ", ", "\u{2028}"];

fn soup(g: &mut Gen, hi: usize) -> String {
    let n = g.range(0, hi);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*g.pick(&SOUP));
    }
    s
}

/// a character which a lax reader could take for the one at a place
fn look_alike(g: &mut Gen, cs: &[char], at: usize) -> char {
    if g.chance(1, 4) {
        return g.range(0, 127) as u8 as char;
    }
    match cs.get(at).cloned().unwrap_or(' ') {
        ' ' | ',' => *g.pick(&['\t', '\u{b}', '\u{c}', '\r', '\n', '\u{a0}', '\u{3000}', '\u{2003}', '\u{feff}', '\u{200b}', ';', '、', '，']),
        '"' => *g.pick(&['\'', '`', '“', '”', '«', '\u{ff02}']),
        '(' | '{' => *g.pick(&['[', '<', '（', '｛']),
        ')' | '}' => *g.pick(&[']', '>', '）', '｝']),
        '%' => *g.pick(&['$', '@', '％', '٪']),
        ':' => *g.pick(&[';', '：', '=', '@']),
        '=' => *g.pick(&[':', '＝', '>', '<']),
        c if c.is_ascii_digit() => *g.pick(&['٣', '１', '²', '½', '+', '-', '.', '_', 'e', 'x', '᠐', '𝟙']),
        c if c.is_ascii_lowercase() && g.bool() => c.to_ascii_uppercase(),
        c if c.is_ascii_uppercase() && g.bool() => c.to_ascii_lowercase(),
        _ => *g.pick(&['é', 'ſ', '\u{212a}', 'а', 'µ', 'ª', '中', '_', '-', '$', '/', '\u{301}', '\0', '\u{7f}']),
    }
}

/// injects a fault into a pattern text
fn spoil(g: &mut Gen, text: &str) -> String {
    let cs: Vec<char> = text.chars().collect();
    // positions next to syntax characters are the interesting ones
    let hot: Vec<usize> = (0..cs.len()).filter(|i| "%{}()\",:=\\_".contains(cs[*i]) || cs[*i].is_ascii_digit()).collect();
    let at = if !hot.is_empty() && g.chance(3, 4) { *g.pick(&hot) } else { g.range(0, cs.len()) };
    let mut v = cs.clone();
    match g.below(6) {
        0 => if at < v.len() {
            v.remove(at);
        },
        1 => {
            let ins: Vec<char> = if g.chance(1, 3) { vec![look_alike(g, &cs, at)] } else { (*g.pick(&SOUP)).chars().collect() };
            for c in ins.into_iter().rev() {
                v.insert(at.min(cs.len()), c);
            }
        }
        2 => if at < v.len() {
            v[at] = if g.chance(1, 2) { look_alike(g, &cs, at) } else { *g.pick(&['%', '{', '}', '(', ')', '"', ',', ':', '=', 'x', '1', ' ', '\n', 'é', '-', '\\']) };
        },
        3 => v.truncate(at),
        4 => if at + 1 < v.len() {
            v.swap(at, at + 1);
        },
        _ => if at < v.len() {
            let c = v[at];
            v.insert(at, c);
        },
    }
    v.into_iter().collect()
}

pub fn gen_malformed(g: &mut Gen) -> String {
    let mut w = World::new(g, false);
    match g.weighted(&[70, 20, 3, 7]) {
        0 => {
            let p = w.pattern(g, &[]);
            let mut t = render(g, &p);
            if g.chance(1, 6) {
                t = format!("{}{}{}", *g.pick(&["l1\nl2\n", "a\r\nb", "\n", "é\r\n\n", "\r"]), t, *g.pick(&["", "\n", "\r\nx"]));
            }
            for _ in 0..g.weighted(&[0, 12, 4, 2]) {
                t = spoil(g, &t);
            }
            t
        }
        1 => soup(g, 10),
        2 => String::new(),
        _ => {
            // a valid beginning, then a broken parser, then anything
            let p = w.pattern(g, &[]);
            let mut t = render(g, &p);
            t.push_str(*g.pick(&["%{", "%{INT", "%{INT:", "%{INT:}", "%{INT:a b}", "%{INT(}", "%{INT(min_len=)}", "%{INT(min_len=a)}", "%{INT(min_len=1,)}", "%{INT(len=3)}",
                "%{INT(min_len=1 max_len=2)}", "%{SET}", "%{SET()}", "%{SET(\"\")}", "%{SET(\"a)}", "%{SET(a)}", "%{SET(\"a\" min_len=1)}", "%{SET(\"a\",x)}", "%{GREEDY:}",
                "%{GREEDY(a)}", "%{GREEDY:a", "%{greedy}", "%{FLOAT:x}", "%{}", "%{ INT}", "%{INT }", "%{INT:a/b}", "%{INT:é}", "%{INT(min_len=99999999999999999999999)}",
                "%{INT(max_len=18446744073709551616)}", "%{SET(\"a\", min_len=-1)}", "%{INT(min_len=1.5)}", "%{INTEGER}", "%{SETS(\"a\")}", "%{GREEDYx}", "%{INT(min_len =1)}"]));
            if g.bool() {
                t.push_str(&soup(g, 4));
            }
            t
        }
    }
}

fn c10(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let text = gen_malformed(g);
    out.desc = format!("{:?}", text);
    let verdict = compile(&text);
    let real = match g.below(2) {
        0 => parser::pattern(&text),
        _ => parser::pattern_with_factory::<TrieParserFactory>(&text),
    };
    out.checks += 1;
    match verdict {
        Verdict::Accept(_) => out.label("still well-formed"),
        Verdict::Unspecified => out.label("unspecified"),
        Verdict::Reject(at) => {
            out.label("malformed");
            out.nontrivial = text.len() > 3;
            match real {
                Ok(ref c) => return viol("malformed accepted", format!("{:?} is malformed at byte {} but compiles to {:?}", text, at, c)),
                Err(ref e) => if e.offset < at {
                    return viol("position before the fault", format!("{:?}: reported offset {}, but everything before byte {} is well-formed", text, e.offset, at));
                },
            }
        }
    }
    if let Err(ref e) = real {
        out.checks += 1;
        out.label_if(text.contains("\r\n"), "CRLF");
        out.label_if(e.line > 1, "fault after the first line");
        if e.offset > text.len() {
            return viol("position outside", format!("{:?}: reported offset {} is outside the text", text, e.offset));
        }
        let before = &text.as_bytes()[..e.offset];
        let line = 1 + before.iter().filter(|b| **b == b'\n').count();
        let col = 1 + before.iter().rev().take_while(|b| **b != b'\n').count();
        if e.line != line || e.column != col {
            return viol("inconsistent position", format!("{:?}: offset {} is line {} column {}, but {}:{} is reported", text, e.offset, line, col, e.line, e.column));
        }
        let shown = e.to_string();
        if !shown.contains(&format!("{}:{}", line, col)) {
            return viol("inconsistent position", format!("{:?}: the error text {:?} does not show {}:{}", text, shown, line, col));
        }
    }
    Ok(())
}

fn arbitrary_bytes(g: &mut Gen, base: &[u8]) -> Vec<u8> {
    let mut b = base.to_vec();
    let mut nested = false;
    for _ in 0..g.range(1, 6) {
        let n = b.len();
        let at = g.range(0, n);
        match g.below(10) {
            8 => {
                // lost separators, the length stays
                let to = *g.pick(&b"0aF-"[..]);
                let n = g.range(1, 4);
                for x in b[at..].iter_mut().filter(|x| **x == b'-').take(n) {
                    *x = to;
                }
            }
            9 if nested => {}
            9 => {
                nested = true;
                // nesting, up to about a thousand levels
                let n = *g.pick(&[3usize, 10, 60, 400, 1000]);
                let ins = g.pick(&["[", "{", "- ", "{a: ", "[{\"a\":", "? ", "\"a\": [", "!!seq [", "- - ? "]).repeat(n);
                let ins = &ins[..ins.len().min(3000)];
                b.splice(at..at, ins.bytes());
            }
            0 => if at < n {
                b.remove(at);
            },
            1 => b.insert(at, *g.pick(&b"{}[]\",:\\ \n-#&*!|>'%@`?0123456789aenultrfs.~\t\r\x00\xff\xc3\xa9"[..])),
            2 => if at < n {
                b[at] = *g.pick(&b"{}[]\",:\\ \n-#&*!|>'%@`?09e.~\t\r\x00\xff\xc3"[..]);
            },
            3 => {
                b.truncate(at);
                if g.chance(1, 4) {
                    // a block scalar of nothing at the end
                    b.extend(g.pick(&["|", "|\n", ": >\n", "- |+\n", ": |2-\n", "- >\r"]).bytes());
                }
            }
            4 => {
                let end = (at + g.range(0, 20)).min(n);
                let c = b[at..end].to_vec();
                let to = g.range(0, n);
                for (i, x) in c.into_iter().enumerate() {
                    b.insert(to + i, x);
                }
            }
            5 => {
                let end = (at + g.range(0, 30)).min(n);
                b.drain(at..end);
            }
            6 => {
                let ins: &str = *g.pick(&["&a ", "*a", "<<: ", "!!str ", "!!null ", "!!int ", "!!bool ", "!!float ", "!<x> ", "null", "1e999", "-0", "\\u0000", "\\ud800", "\\x", "|\n", ">-\n", "? ", "--- ", "...\n", "%YAML 1.1\n", "\u{feff}", "'", "true", "1.5", "18446744073709551616", "[[", "{{", "]]", "\\\n", "\\\r\n", "\r\n", "- - ", "\\U00110000", "\\ud83d\\ude00"]);
                for (i, x) in ins.bytes().enumerate() {
                    b.insert(at + i, x);
                }
            }
            _ => if at < n {
                b[at] ^= 1 << g.below(8);
            },
        }
    }
    b
}

/// patterns of up to a thousand tokens
fn long_patterns(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    verbose_log(false);
    let n = *g.pick(&[200usize, 400, 700, 1000]);
    let unit: Vec<Tok> = (0..g.range(1, 4)).map(|_| w.tok(g)).collect();
    let mut pats: Vec<Vec<Tok>> = vec![];
    for _ in 0..g.range(1, 3) {
        let mut p: Vec<Tok> = unit.iter().cycle().take(n).cloned().collect();
        let k = g.range(0, p.len() - 1);
        p[k] = w.tok(g);
        pats.push(crate::gen::fix_grammar(p));
    }
    out.label("up to a thousand tokens");
    out.nontrivial = true;
    let msgs: Vec<String> = (0..3).map(|_| w.message(g, &pats)).collect();
    out.desc = format!("{} tokens, unit {} messages {:?}", n, show(&unit), msgs.iter().map(|m| m.len()).collect::<Vec<_>>());
    let mut ms: Vec<_> = KINDS.iter().map(|k| new_matcher(*k)).collect();
    for (i, p) in pats.iter().enumerate() {
        let text = render(g, p);
        out.checks += 1;
        if let Ok(cp) = parser::pattern(&text) {
            for m in &mut ms {
                m.add_pattern(pattern(i, cp.clone(), &Meta::default(), None));
            }
        }
        for m in &ms {
            let c = m.boxed_clone();
            for msg in &msgs {
                out.checks += 1;
                let _ = answer(&*c, msg);
            }
        }
    }
    Ok(())
}

fn c11(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    // in a part of the cases with a logger that formats all messages
    let verbose = g.chance(1, 4);
    out.label_if(verbose, "trace log on");
    verbose_log(verbose);
    if g.chance(1, 300) {
        return long_patterns(g, out);
    }
    if g.chance(2, 3) {
        let mut w = World::new(g, false);
        let mut texts: Vec<String> = vec![];
        for _ in 0..g.range(1, 8) {
            let t = match g.weighted(&[3, 3, 2, 2]) {
                0 => gen_malformed(g),
                1 => {
                    let p = w.pattern(g, &[]);
                    render(g, &p)
                }
                2 if !texts.is_empty() => {
                    let b = g.pick(&texts).clone();
                    if g.bool() { w.mutate(g, &b) } else { spoil(g, &b) }
                }
                _ => soup(g, 8),
            };
            texts.push(t);
        }
        let free_world = World::new(g, true);
        let mut msgs: Vec<String> = vec![];
        for _ in 0..g.range(1, 10) {
            let m = match g.below(5) {
                0 => free_world.text(g, 0, 8),
                1 => {
                    let b = g.pick(&texts).clone();
                    w.mutate(g, &b)
                }
                2 => w.any_text(g, 8),
                3 => {
                    let t = g.pick(&texts).clone();
                    match compile(&t) {
                        Verdict::Accept(p) => w.sample(g, &p),
                        _ => t,
                    }
                }
                _ => {
                    let t = g.pick(&texts).clone();
                    match compile(&t) {
                        Verdict::Accept(p) => {
                            let s = w.sample(g, &p);
                            w.mutate(g, &s)
                        }
                        _ => w.text(g, 0, 5),
                    }
                }
            };
            msgs.push(m);
        }
        out.desc = format!("patterns {:?} messages {:?}", texts, msgs);
        let mut ms: Vec<_> = KINDS.iter().map(|k| new_matcher(*k)).collect();
        for (i, t) in texts.iter().enumerate() {
            out.checks += 1;
            match parser::pattern(t) {
                Ok(cp) => {
                    out.nontrivial = true;
                    out.label("compiled");
                    for m in &mut ms {
                        m.add_pattern(pattern(i, cp.clone(), &Meta::default(), None));
                    }
                }
                Err(e) => {
                    let _ = e.to_string();
                    out.label("rejected");
                }
            }
            for m in &ms {
                for msg in &msgs {
                    out.checks += 1;
                    let _ = answer(&**m, msg);
                }
            }
        }
        let _ = ms[0].boxed_clone();
        let _ = format!("{:?}", ms);
        Ok(())
    } else {
        let mut w = World::new(g, false);
        let docs = doc::gen_docs(g, &mut w, 3);
        let node = doc::file_node(g, &docs);
        let yaml = g.bool();
        let text = if yaml { doc::yaml(g, &node) } else { doc::json(g, &node) };
        let bytes = arbitrary_bytes(g, text.as_bytes());
        let shown = String::from_utf8_lossy(&bytes).into_owned();
        out.desc = format!("{} {:?}", if yaml { "yaml" } else { "json" }, shown);
        out.nontrivial = true;
        let path = put(if yaml { "yaml" } else { "json" }, &bytes);
        out.checks += 5;
        match PatternLoader::load_file(&path) {
            Ok(f) => {
                out.label("mutated file loads");
                let _ = f.patterns().len();
            }
            Err(e) => {
                let _ = e.to_string();
                out.label("mutated file fails");
            }
        }
        for k in KINDS.iter() {
            let _ = load_strict(*k, &path).map(|m| answer(&*m, &shown)).map_err(|e| e.to_string());
            let _ = load_lenient(*k, &path).map(|m| answer(&*m, &shown)).map_err(|e| e.to_string());
        }
        let _ = Pattern::from_json(&shown).map_err(|e| e.to_string());
        Ok(())
    }
}

/// the terminals of the syntax as an error lists them, with texts they stand for
const TERMINALS: [(&str, &[&str]); 17] = [
    ("%{", &["%{"]), ("}", &["}"]), ("(", &["("]), (")", &[")"]), (":", &[":"]), ("\"", &["\""]), (",", &[","]), (" ", &[" "]), ("=", &["="]),
    ("min_len", &["min_len"]), ("max_len", &["max_len"]), ("INT", &["INT"]), ("SET", &["SET"]), ("GREEDY", &["GREEDY"]),
    ("[a-zA-Z_.]", &["k", "Q", "_", "."]), ("[a-z-A-Z0-9_.]", &["0", "k", "Q", "_", "."]), ("[0-9]", &["0", "7"]),
];

/// what a text cut off anywhere inside a parser needs to become well-formed
const ENDINGS: [&str; 14] = ["", "}", "INT}", "SET(\"a\")}", "(\"a\")}", "\"a\")}", "a\")}", "\")}", ")}", "1)}", "=1)}", "min_len=1)}", "a}", "x"];

/// can the text be completed to a well-formed one: surely, perhaps
fn viable(text: &str) -> (bool, bool) {
    let mut perhaps = false;
    for e in ENDINGS.iter() {
        match compile(&format!("{}{}", text, e)) {
            Verdict::Accept(_) => return (true, true),
            Verdict::Unspecified => perhaps = true,
            Verdict::Reject(_) => {}
        }
    }
    (false, perhaps)
}

fn c32(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let text = gen_malformed(g);
    out.desc = format!("{:?}", text);
    let e = match parser::pattern(&text) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let shown = e.to_string();
    out.checks += 1;
    for t in e.expected.iter() {
        let t: String = t.chars().flat_map(|c| c.escape_default()).collect();
        if !shown.contains(&t) {
            return viol("not shown", format!("{:?}: {:?} is expected at offset {}, but the error text {:?} does not say so", text, t, e.offset, shown));
        }
    }
    match parser::pattern_with_factory::<TrieParserFactory>(&text) {
        Err(ref f) if *f == e && f.expected == e.expected => {}
        other => return viol("differs", format!("{:?}: the error is {:?}, with the factory given {:?}", text, e, other)),
    }
    if !text.is_char_boundary(e.offset.min(text.len())) || e.offset > text.len() {
        return viol("position", format!("{:?}: the reported offset {} is not a place between characters", text, e.offset));
    }
    // the malformed piece; all before it is well-formed
    let start = match compile(&text) {
        Verdict::Reject(at) if at <= e.offset => at,
        _ => {
            out.label("unspecified");
            return Ok(());
        }
    };
    let before = &text[start..e.offset];
    let behind = &text[e.offset..];
    let digits = before.len() - before.trim_end_matches(|c: char| c.is_ascii_digit()).len();
    if digits > 0 && format!("{}9", &before[before.len() - digits..]).parse::<usize>().is_err() {
        // the number itself is or would become the fault, which no list of terminals can tell
        out.label("a number too large");
        return Ok(());
    }
    // an empty set of characters is noticed late and reported where SET stands
    let empty_set = behind.starts_with("SET(\"\"");
    for (i, c) in behind.char_indices().take(if empty_set { 0 } else { 60 }) {
        let further = &text[start..e.offset + i + c.len_utf8()];
        out.checks += 1;
        if viable(further).0 {
            return viol("place", format!("{:?}: reported at offset {} ({:?} are expected), but a well-formed pattern can begin with {:?}", text, e.offset, e.expected, further));
        }
    }
    let (mut listed, mut left_out) = (0, 0);
    // inside a literal or a character set anything can follow
    let any = viable(&format!("{}\u{1}", before)).0;
    // in a name, letters are not the beginning of a word of the syntax
    let name = viable(&format!("{}k", before)).0;
    let in_name = name && viable(&format!("{}0", before)).0;
    for &(t, samples) in TERMINALS.iter() {
        let has = e.expected.contains(t);
        let v: Vec<(bool, bool)> = samples.iter().map(|s| viable(&format!("{}{}", before, s))).collect();
        let must = match t {
            "[a-zA-Z_.]" => name && !in_name,
            "[a-z-A-Z0-9_.]" => in_name,
            _ => !name || !t.contains(char::is_alphanumeric),
        };
        out.checks += 1;
        if has {
            listed += 1;
            // the start of a set of characters: the quotation mark that must not follow is listed
            let look_ahead = t == "\"" && before.ends_with("(\"");
            if !look_ahead && !v.iter().any(|v| v.1) {
                return viol("wrong expectation", format!("{:?}: at offset {} {:?} is expected, but no well-formed pattern goes on like this", text, e.offset, t));
            }
        } else {
            left_out += 1;
            if !any && must && v.iter().any(|v| v.0) && !samples.iter().any(|s| behind.starts_with(s)) {
                return viol("missing expectation", format!("{:?}: at offset {} a well-formed pattern can go on with {:?}, but only {:?} are expected", text, e.offset, t, e.expected));
            }
        }
    }
    out.checks += 1;
    let has = e.expected.contains("<character>");
    if has {
        listed += 1;
    }
    if has != (any && behind.is_empty()) {
        return viol("any character", format!("{:?}: at offset {} {:?} are expected", text, e.offset, e.expected));
    }
    out.nontrivial = listed > 0 && left_out > 0;
    Ok(())
}
