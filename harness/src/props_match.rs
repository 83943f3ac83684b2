//! Matchers and parsers: C01-C08, C20, C21, C24.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::{canon_all, render, World, BOUNDS};
use crate::doc::{self, PatDoc};
use crate::model::{compile, find_first, fit, set_len, values, winner, Tok, Verdict};
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::Matcher;
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, Parser, SetParser};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 600_000, thorough: 24_000_000, f: c01,
               rule: "1-10 (sometimes 200) related patterns, by builder or pattern text, in both matchers; messages sampled from a pattern, mutated, spliced or random. Non-trivial: at least two patterns and at least one message that fits none of them although it was derived from one, or that fits some but not all" },
        Prop { id: "C02", quick: 600_000, thorough: 24_000_000, f: c02,
               rule: "as C01. Non-trivial: some matched message has a pattern with at least one named parser" },
        Prop { id: "C03", quick: 600_000, thorough: 24_000_000, f: c03,
               rule: "as C01. Non-trivial: at least two patterns and at least one message that fits one of them" },
        Prop { id: "C04", quick: 500_000, thorough: 20_000_000, f: c04,
               rule: "as C01, without adjacent literals. Non-trivial: at least one message fits two or more patterns" },
        Prop { id: "C05", quick: 600_000, thorough: 24_000_000, f: c05,
               rule: "as C04, trie compared with suffix array. Non-trivial: at least two patterns and one message that some pattern fits" },
        Prop { id: "C06", quick: 400_000, thorough: 16_000_000, f: c06,
               rule: "random interleavings of add, parse, clone and drop on up to 4 matchers of one kind, each answer compared with a freshly filled matcher. Non-trivial: the history has a parse followed by an add followed by a parse, or a clone whose two sides were changed afterwards, and some answer was a match" },
        Prop { id: "C07", quick: 1_500_000, thorough: 60_000_000, f: c07,
               rule: "SET/INT parsers with random sets and limits, changed by setters between parses, on texts starting with runs around the limits. Non-trivial: the run is not empty and a limit is set, or the text has a multi-byte character" },
        Prop { id: "C08", quick: 12_000_000, thorough: 160_000_000, f: c08,
               rule: "GREEDY parsers with random end strings on texts holding (partial, overlapping, repeated) occurrences. Non-trivial: the end string occurs, or only a proper prefix of it does" },
        Prop { id: "C20", quick: 12_000_000, thorough: 160_000_000, f: c20,
               rule: "pairs of parsers, the second derived from the first by 0-3 attribute changes through another construction way. Non-trivial: the pair has the same type" },
        Prop { id: "C21", quick: 350_000, thorough: 14_000_000, f: c21,
               rule: "pattern sets with random metadata added to both matchers (and their clones); every match's metadata is compared with what was added. Non-trivial: a matched pattern has metadata and shares its first token with another pattern" },
        Prop { id: "C24", quick: 1_800, thorough: 72_000, f: c24,
               rule: "pattern files of 20-600 patterns with up to 60 (some 500) tokens, long literals and values, loaded leniently into both matchers; for each of up to 150 messages made by filling in a pattern. Non-trivial: at least 20 patterns and 20 matched messages" },
    ]
}

struct Scene {
    pats: Vec<Vec<Tok>>,
    built: Built,
    msgs: Vec<String>,
}

pub fn merge_literals(p: &[Tok]) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    for t in p {
        match (t, out.last_mut()) {
            (Tok::Lit(l), Some(&mut Tok::Lit(ref mut prev))) => prev.push_str(l),
            (t, _) => out.push(t.clone()),
        }
    }
    out
}

fn scene(g: &mut Gen, out: &mut Out, merged: bool) -> Result<Scene, Viol> {
    let free = g.chance(1, 3);
    let mut w = World::new(g, free);
    let mut pats = w.patterns(g);
    if merged {
        pats = pats.iter().map(|p| merge_literals(p)).collect();
    } else if free && g.chance(1, 6) {
        // only a builder can make empty literals
        out.label("empty literals");
        for p in pats.iter_mut() {
            while g.chance(1, 3) {
                let k = g.range(0, p.len());
                p.insert(k, Tok::Lit(String::new()));
            }
        }
    }
    let built = Built::new(g, &pats, free)?;
    let n = g.range(4, 16);
    let msgs = w.messages(g, &pats, n);
    out.label_if(free, "builder only");
    out.label_if(w.big, "big world");
    out.label_if(pats.len() > 20, "wide");
    out.label_if(msgs.iter().any(|m| !m.is_ascii()), "non-ascii message");
    Ok(Scene { pats: pats, built: built, msgs: msgs })
}

pub fn describe(pats: &[Vec<Tok>], msgs: &[String]) -> String {
    let mut s = String::from("patterns");
    for p in pats {
        s.push_str(&format!(" {}", show(p)));
    }
    s.push_str(" messages");
    for m in msgs {
        s.push_str(&format!(" {:?}", m));
    }
    s
}

/// compact, complete description of a token sequence
pub fn show(p: &[Tok]) -> String {
    let mut s = String::from("[");
    for (i, t) in p.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        let lim = |min: &Option<usize>, max: &Option<usize>| match (min, max) {
            (None, None) => String::new(),
            (a, b) => format!("<{}..{}>", a.map_or("".into(), |x| x.to_string()), b.map_or("".into(), |x| x.to_string())),
        };
        let nm = |n: &Option<String>| n.as_ref().map_or(String::new(), |n| format!(":{:?}", n));
        s.push_str(&match *t {
            Tok::Lit(ref l) => format!("{:?}", l),
            Tok::Set { ref set, ref min, ref max, ref name } => format!("SET({:?}){}{}", set, lim(min, max), nm(name)),
            Tok::Int { ref min, ref max, ref name } => format!("INT{}{}", lim(min, max), nm(name)),
            Tok::Other { ref kind, ref name } => format!("{:?}{}", kind, nm(name)),
            Tok::Greedy { ref name, ref end } => format!("GREEDY({}){}", end.as_ref().map_or("".into(), |e| format!("{:?}", e)), nm(name)),
        });
    }
    s.push(']');
    s
}

pub type Got = Option<(Option<usize>, BTreeMap<String, String>)>;

pub fn ask(m: &dyn Matcher, msg: &str, n: usize) -> Got {
    m.parse(msg).map(|r| {
        (index_of(r.pattern().uuid(), n), r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect())
    })
}

fn c01(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, false)?;
    out.desc = describe(&s.pats, &s.msgs);
    let fits: Vec<usize> = s.msgs.iter().map(|m| s.pats.iter().filter(|p| fit(p, m).is_some()).count()).collect();
    out.nontrivial = s.pats.len() >= 2 && fits.iter().any(|n| *n < s.pats.len());
    out.label_if(fits.iter().any(|n| *n == 0), "message that fits nothing");
    for k in KINDS.iter() {
        let m = s.built.fill(*k);
        for msg in &s.msgs {
            out.checks += 1;
            if let Some((i, _)) = ask(&*m, msg, s.pats.len()) {
                match i {
                    None => return viol("unknown pattern", format!("{:?} reports a pattern that was never added for {:?}", k, msg)),
                    Some(i) => if fit(&s.pats[i], msg).is_none() {
                        return viol("unsound match", format!("{:?} reports pattern #{} {} for message {:?}, which does not fit it", k, i, show(&s.pats[i]), msg));
                    },
                }
            }
        }
    }
    Ok(())
}

fn c02(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, false)?;
    out.desc = describe(&s.pats, &s.msgs);
    for k in KINDS.iter() {
        let m = s.built.fill(*k);
        for msg in &s.msgs {
            if let Some((Some(i), got)) = ask(&*m, msg, s.pats.len()) {
                if let Some(pieces) = fit(&s.pats[i], msg) {
                    let want: BTreeMap<String, String> = values(&s.pats[i], &pieces).into_iter().map(|(a, b)| (a.to_owned(), b.to_owned())).collect();
                    out.checks += 1;
                    if !want.is_empty() {
                        out.nontrivial = true;
                    }
                    let named = s.pats[i].iter().filter(|t| t.name().is_some()).count();
                    out.label_if(named > want.len(), "repeated name");
                    out.label_if(s.pats[i].iter().any(|t| !t.is_lit() && t.name().is_none()), "unnamed parser");
                    if got != want {
                        return viol("wrong values", format!("{:?}: pattern {} on message {:?} gives {:?} instead of {:?}", k, show(&s.pats[i]), msg, got, want));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c03(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, false)?;
    out.desc = describe(&s.pats, &s.msgs);
    let fitting: Vec<Option<usize>> = s.msgs.iter().map(|m| s.pats.iter().position(|p| fit(p, m).is_some())).collect();
    out.nontrivial = s.pats.len() >= 2 && fitting.iter().any(|x| x.is_some());
    for k in KINDS.iter() {
        let m = s.built.fill(*k);
        for (msg, f) in s.msgs.iter().zip(&fitting) {
            if let Some(i) = *f {
                out.checks += 1;
                if m.parse(msg).is_none() {
                    return viol("missed match", format!("{:?}: message {:?} fits pattern #{} {} but is reported as unmatched", k, msg, i, show(&s.pats[i])));
                }
            }
        }
    }
    Ok(())
}

fn c04(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, true)?;
    out.desc = describe(&s.pats, &s.msgs);
    let pats = canon_all(&s.pats);
    let fits: Vec<usize> = s.msgs.iter().map(|msg| pats.iter().filter(|p| fit(p, msg).is_some()).count()).collect();
    out.nontrivial = fits.iter().any(|n| *n >= 2);
    out.label_if(fits.iter().any(|n| *n >= 3), "three or more candidates");
    for k in KINDS.iter() {
        let m = s.built.fill(*k);
        for (msg, n) in s.msgs.iter().zip(&fits) {
            if *n < 2 {
                continue;
            }
            out.checks += 1;
            let w = match winner(&pats, msg) {
                Some(w) => w,
                None => continue,
            };
            match ask(&*m, msg, pats.len()) {
                Some((Some(i), _)) => if w != i {
                    return viol("wrong precedence", format!("{:?}: message {:?} is attributed to pattern #{} {} although #{} {} takes precedence", k, msg, i, show(&pats[i]), w, show(&pats[w])));
                },
                Some((None, _)) => return viol("unknown pattern", format!("{:?}: message {:?} is attributed to a pattern that was never added", k, msg)),
                None => return viol("no winner", format!("{:?}: message {:?} fits {} patterns, #{} {} takes precedence, but none is reported", k, msg, n, w, show(&pats[w]))),
            }
        }
    }
    Ok(())
}

fn c05(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, true)?;
    out.desc = describe(&s.pats, &s.msgs);
    out.nontrivial = s.pats.len() >= 2 && s.msgs.iter().any(|m| s.pats.iter().any(|p| fit(p, m).is_some()));
    let t = s.built.fill(Kind::Trie);
    let a = s.built.fill(Kind::Array);
    for msg in &s.msgs {
        out.checks += 1;
        let (x, y) = (ask(&*t, msg, s.pats.len()), ask(&*a, msg, s.pats.len()));
        if x != y {
            return viol("matchers differ", format!("message {:?}: trie says {:?}, suffix array says {:?}", msg, x, y));
        }
    }
    Ok(())
}

fn c06(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let free = g.chance(1, 3);
    let mut w = World::new(g, free);
    let pats = w.patterns(g);
    let built = Built::new(g, &pats, free)?;
    let n = g.range(3, 8);
    let msgs = w.messages(g, &pats, n);
    let kind = *g.pick(&KINDS);
    struct M {
        m: Box<dyn Matcher>,
        added: Vec<usize>,
        parsed: bool,
        pap: u8,
    }
    let mut ms = vec![M { m: new_matcher(kind), added: vec![], parsed: false, pap: 0 }];
    let mut next = 0;
    let mut ops = String::new();
    let mut fresh: BTreeMap<Vec<usize>, Box<dyn Matcher>> = BTreeMap::new();
    let mut matched = false;
    let mut cloned_changed = false;
    let steps = g.range(4, 30);
    for _ in 0..steps {
        let k = g.range(0, ms.len() - 1);
        match g.weighted(&[30, 30, 12, 6, 1, 2, 3]) {
            5 => {
                // matchers that come after one another, perhaps in the same place in memory
                let a = g.range(0, ms.len() - 1);
                let drop_first = g.chance(3, 4);
                ops.push_str(&format!(" succession({},{},{})", k, a, drop_first));
                out.label("matchers in succession");
                for msg in &msgs {
                    let first = ms[k].m.boxed_clone();
                    let _ = answer(&*first, msg);
                    let second;
                    if drop_first {
                        drop(first);
                        second = ms[a].m.boxed_clone();
                    } else {
                        second = ms[a].m.boxed_clone();
                        drop(first);
                    }
                    let got = answer(&*second, msg);
                    let mut f = new_matcher(kind);
                    for i in &ms[a].added {
                        built.add(&mut *f, *i);
                    }
                    let want = answer(&*f, msg);
                    out.checks += 1;
                    if got != want {
                        out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
                        return viol("history dependence", format!("{:?} #{}: message {:?} is answered {:?} by a clone, a freshly filled matcher answers {:?}; operations{}", kind, a, msg, got, want, ops));
                    }
                }
            }
            6 => {
                // the caller reads its messages into one buffer
                ops.push_str(&format!(" buffer({})", k));
                out.label("messages in one buffer");
                let most = msgs.iter().map(|m| m.len()).max().unwrap_or(0) + 8;
                let mut buffer = String::with_capacity(most);
                let mut f = new_matcher(kind);
                for i in &ms[k].added {
                    built.add(&mut *f, *i);
                }
                for _ in 0..g.range(2, 12) {
                    let base = g.pick(&msgs).clone();
                    let mut bytes = base.into_bytes();
                    if g.chance(1, 2) {
                        // another message of the same length
                        let at: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i] < 0x80).collect();
                        if !at.is_empty() {
                            let i = *g.pick(&at);
                            bytes[i] = *g.pick(b"a1 x0");
                        }
                    }
                    let msg = String::from_utf8(bytes).expect("ASCII for ASCII");
                    buffer.clear();
                    buffer.push_str(&msg);
                    let got = answer(&*ms[k].m, &buffer);
                    let want = answer(&*f, &msg);
                    out.checks += 1;
                    if got != want {
                        out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
                        return viol("history dependence", format!("{:?} #{}: message {:?} in a used buffer is answered {:?}, a freshly filled matcher answers {:?}; operations{}", kind, k, msg, got, want, ops));
                    }
                }
                ms[k].parsed = true;
            }
            4 => {
                // many messages in a row; then each message is judged by a matcher that has parsed nothing yet
                let times = *g.pick(&[2usize, 5, 20, 70, 150, 300, 1100]);
                let one = if g.chance(2, 3) { Some(g.range(0, msgs.len() - 1)) } else { None };
                ops.push_str(&format!(" burst({},{:?},{})", k, one, times));
                out.label("burst of messages");
                for i in 0..times {
                    let _ = answer(&*ms[k].m, &msgs[one.unwrap_or(i % msgs.len())]);
                }
                ms[k].parsed = true;
                for msg in &msgs {
                    let mut f = new_matcher(kind);
                    for i in &ms[k].added {
                        built.add(&mut *f, *i);
                    }
                    let want = answer(&*f, msg);
                    let got = answer(&*ms[k].m, msg);
                    out.checks += 1;
                    if got != want {
                        out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
                        return viol("history dependence", format!("{:?} #{}: message {:?} is answered {:?}, a freshly filled matcher answers {:?}; operations{}", kind, k, msg, got, want, ops));
                    }
                }
            }
            0 => {
                let i = if next < pats.len() && g.chance(4, 5) { next += 1; next - 1 } else { g.range(0, pats.len() - 1) };
                ops.push_str(&format!(" add({},{})", k, i));
                built.add(&mut *ms[k].m, i);
                ms[k].added.push(i);
                if ms[k].parsed {
                    ms[k].pap = 1;
                }
                if ms.len() > 1 {
                    cloned_changed = true;
                }
            }
            1 => {
                let j = g.range(0, msgs.len() - 1);
                ops.push_str(&format!(" parse({},{})", k, j));
                let added = ms[k].added.clone();
                let f = fresh.entry(added.clone()).or_insert_with(|| {
                    let mut m = new_matcher(kind);
                    for i in &added {
                        built.add(&mut *m, *i);
                    }
                    m
                });
                let want = answer(&**f, &msgs[j]);
                let got = answer(&*ms[k].m, &msgs[j]);
                out.checks += 1;
                matched = matched || want.is_some();
                if ms[k].pap == 1 {
                    ms[k].pap = 2;
                }
                ms[k].parsed = true;
                if got != want {
                    out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
                    return viol("history dependence", format!("{:?} #{}: message {:?} is answered {:?}, a freshly filled matcher answers {:?}; operations{}", kind, k, msgs[j], got, want, ops));
                }
            }
            2 => if ms.len() < 4 {
                ops.push_str(&format!(" clone({})", k));
                let c = ms[k].m.boxed_clone();
                let added = ms[k].added.clone();
                ms.push(M { m: c, added: added, parsed: ms[k].parsed, pap: 0 });
                out.label("clone");
            },
            _ => if ms.len() > 1 {
                ops.push_str(&format!(" drop({})", k));
                ms.remove(k);
            },
        }
    }
    // at the end every matcher still answers everything
    for (k, m) in ms.iter().enumerate() {
        let mut f = new_matcher(kind);
        for i in &m.added {
            built.add(&mut *f, *i);
        }
        for msg in &msgs {
            out.checks += 1;
            let (got, want) = (answer(&*m.m, msg), answer(&*f, msg));
            matched = matched || want.is_some();
            if got != want {
                out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
                return viol("history dependence", format!("{:?} #{}: message {:?} is finally answered {:?}, a freshly filled matcher answers {:?}; operations{}", kind, k, msg, got, want, ops));
            }
        }
    }
    out.desc = format!("{:?} {} operations{}", kind, describe(&pats, &msgs), ops);
    out.nontrivial = matched && (cloned_changed || ms.iter().any(|m| m.pap == 2));
    Ok(())
}

// ---------------------------------------------------------------- parsers

enum AnyParser {
    Set(SetParser),
    Int(IntParser),
}

impl AnyParser {
    fn p(&self) -> &dyn Parser {
        match *self {
            AnyParser::Set(ref p) => p,
            AnyParser::Int(ref p) => p,
        }
    }
    fn l(&mut self) -> &mut dyn HasLengthConstraint {
        match *self {
            AnyParser::Set(ref mut p) => p,
            AnyParser::Int(ref mut p) => p,
        }
    }
}

/// a text starting with a run of set characters of a length around the limits
fn run_text(g: &mut Gen, w: &World, set: &[char], min: Option<usize>, max: Option<usize>) -> String {
    let mut cands: Vec<usize> = vec![0, 1, 2, 3, 5];
    for l in [min, max].iter() {
        if let Some(v) = *l {
            for d in [v.wrapping_sub(1), v, v.wrapping_add(1)].iter() {
                if *d <= 70_000 {
                    cands.push(*d);
                    cands.push(*d);
                }
            }
        }
    }
    if w.big {
        cands.push(*g.pick(&BOUNDS));
    }
    let mut n = *g.pick(&cands);
    if let Some(h) = w.huge(g) {
        n = h;
    }
    let mut s = String::new();
    if !set.is_empty() {
        if n > 64 {
            let k = g.range(0, set.len() - 1);
            s.extend(set.iter().cycle().skip(k).take(n));
        } else {
            for _ in 0..n {
                s.push(*g.pick(set));
            }
        }
    }
    match g.below(if set.len() > 10 { 5 } else { 4 }) {
        0 => {}
        1 => {
            let t = w.text(g, 0, 4);
            s.push_str(&t);
        }
        4 => {
            // what is missing between the characters of the set
            let holes: Vec<char> = set.iter()
                                      .filter_map(|c| char::from_u32(*c as u32 + 1))
                                      .filter(|c| !set.contains(c))
                                      .collect();
            if !holes.is_empty() {
                s.push(*g.pick(&holes));
            }
            s.push(*g.pick(set));
        }
        2 => {
            // a character close to one of the set, then more of the set
            if !set.is_empty() {
                let c = *g.pick(set) as u32;
                let d = *g.pick(&[1u32, 0x20, 0x40, 0x80, 0x100, 0x1000, 0x10000]);
                let x = if g.bool() { c.wrapping_add(d) } else { c.wrapping_sub(d) };
                s.push(char::from_u32(x).unwrap_or('~'));
                for _ in 0..g.range(0, 3) {
                    s.push(*g.pick(set));
                }
            }
        }
        _ => {
            s.push(*g.pick(&['٣', '１', 'é', ' ', '\u{0}', '/', ':', '😀', '\u{660}', 'A']));
            if !set.is_empty() {
                s.push(*g.pick(set));
            }
        }
    }
    s
}

fn c07(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let is_int = g.chance(2, 5);
    let mut name = w.name(g);
    let (mut min, mut max): (Option<usize>, Option<usize>) = (None, None);
    let mut set = if is_int { "0123456789".to_owned() } else if g.chance(1, 30) { String::new() } else if g.chance(1, 12) { w.wide_set(g) } else { w.set_chars(g) };
    let mut p = if is_int {
        AnyParser::Int(match name {
            Some(ref n) => IntParser::with_name(n.clone()),
            None => IntParser::new(),
        })
    } else {
        AnyParser::Set(match (&name, g.bool()) {
            (&Some(ref n), true) => SetParser::from_str(n, &set),
            (&Some(ref n), false) => SetParser::with_name(n.clone(), &set),
            (&None, _) => SetParser::new(&set),
        })
    };
    let mut hist = format!("{} {:?} {:?}", if is_int { "INT" } else { "SET" }, name, set);
    let rounds = g.range(1, 4);
    for _ in 0..rounds {
        for _ in 0..g.range(0, 3) {
            match g.below(4) {
                0 => {
                    min = w.limit(g);
                    p.l().set_min_length(min);
                    hist.push_str(&format!(" min={:?}", min));
                }
                1 => {
                    max = w.limit(g);
                    p.l().set_max_length(max);
                    hist.push_str(&format!(" max={:?}", max));
                }
                2 => if let AnyParser::Set(ref mut p) = p {
                    set = w.set_chars(g);
                    p.set_character_set(&set);
                    hist.push_str(&format!(" set={:?}", set));
                },
                _ => {
                    name = w.name(g);
                    match p {
                        AnyParser::Set(ref mut p) => p.set_name(name.clone()),
                        AnyParser::Int(ref mut p) => p.set_name(name.clone()),
                    }
                    hist.push_str(&format!(" name={:?}", name));
                }
            }
        }
        out.checks += 1;
        if p.l().min_length() != min || p.l().max_length() != max || p.p().name() != name.as_ref().map(|x| &x[..]) {
            out.desc = hist.clone();
            return viol("attributes", format!("{}: the parser reports limits {:?}..{:?} and name {:?}", hist, p.l().min_length(), p.l().max_length(), p.p().name()));
        }
        let cs: Vec<char> = set.chars().collect();
        for _ in 0..g.range(1, 3) {
            let text = run_text(g, &w, &cs, min, max);
            let want = set_len(&text, &|c| set.contains(c), min, max);
            let got = p.p().parse(&text).map(|r| (r.value().to_owned(), r.parser().name().map(|x| x.to_owned())));
            let clone_got = p.p().boxed_clone().parse(&text).map(|r| r.value().to_owned());
            out.checks += 1;
            let run = text.chars().take_while(|c| set.contains(*c)).count();
            if (run > 0 && (min.is_some() || max.is_some())) || !text.is_ascii() {
                out.nontrivial = true;
            }
            out.label_if(run > 64, "long run");
            out.label_if(want.is_none() && run > 0, "refused by a limit");
            out.label_if(want.is_some(), "matched");
            let ok = match (&got, want) {
                (&None, None) => true,
                (&Some((ref v, ref n)), Some(k)) => *v == text[..k] && *n == name,
                _ => false,
            };
            if !ok {
                out.desc = format!("{} text={:?}", hist, text);
                return viol("wrong run", format!("{}: text {:?} gives {:?}, expected {:?}", hist, text, got, want.map(|k| &text[..k])));
            }
            if clone_got != got.map(|x| x.0) {
                out.desc = format!("{} text={:?}", hist, text);
                return viol("clone differs", format!("{}: a clone parses {:?} differently: {:?}", hist, text, clone_got));
            }
            hist.push_str(&format!(" parse({:?})", text));
        }
    }
    out.desc = hist;
    Ok(())
}

fn c08(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let mut name = w.name(g);
    let gen_end = |g: &mut Gen, w: &World| -> Option<String> {
        match g.weighted(&[10, 30, 10, 3, 2, 10]) {
            0 => None,
            1 => Some(w.text(g, 1, 4)),
            5 => {
                // of two letters, with occurrences that begin within others
                let (a, b) = (w.ch(g), w.ch(g));
                let n = if g.chance(1, 8) { g.range(17, 70) } else { g.range(4, 16) };
                Some((0..n).map(|_| if g.bool() { a } else { b }).collect())
            }
            2 => {
                // self-overlapping
                let u = w.text(g, 1, 2);
                let mut e = u.repeat(g.range(1, 3));
                e.push_str(&w.text(g, 0, 1));
                Some(e)
            }
            3 => Some(String::new()),
            _ => if w.big { Some(w.long_text(g)) } else { Some(w.text(g, 1, 12)) },
        }
    };
    let mut end = gen_end(g, &w);
    let mut p = match (&name, &end) {
        (&Some(ref n), &Some(ref e)) if g.bool() => GreedyParser::from_str(n, e),
        (&Some(ref n), _) => {
            let mut p = GreedyParser::with_name(n.clone());
            p.set_end_string(end.clone());
            p
        }
        _ => {
            let mut p = GreedyParser::new();
            p.set_end_string(end.clone());
            p
        }
    };
    let mut hist = format!("GREEDY {:?} end={:?}", name, end);
    for _ in 0..g.range(1, 4) {
        if g.chance(1, 3) {
            end = gen_end(g, &w);
            p.set_end_string(end.clone());
            hist.push_str(&format!(" end={:?}", end));
        }
        if g.chance(1, 6) {
            name = w.name(g);
            p.set_name(name.clone());
            hist.push_str(&format!(" name={:?}", name));
        }
        // text: pieces of the end string, the end string, other text
        let mut text = String::new();
        for _ in 0..g.range(0, 6) {
            match g.below(4) {
                0 => text.push_str(&w.text(g, 0, 4)),
                1 => if let Some(ref e) = end {
                    let cs: Vec<char> = e.chars().collect();
                    let k = g.range(0, cs.len());
                    let i = if g.bool() { 0 } else { g.range(0, k) };
                    text.extend(cs[i..k].iter());
                },
                2 => if let Some(ref e) = end {
                    text.push_str(e);
                },
                _ => if w.big && g.bool() {
                    let t = w.long_text(g);
                    text.push_str(&t)
                } else {
                    text.push(w.ch(g))
                },
            }
        }
        let want = match end {
            None => Some(text.len()),
            Some(ref e) => find_first(&text, e),
        };
        let got = p.parse(&text).map(|r| (r.value().to_owned(), r.parser().name().map(|x| x.to_owned())));
        let clone_got = p.boxed_clone().parse(&text).map(|r| r.value().to_owned());
        out.checks += 1;
        out.label_if(want == Some(0), "empty value");
        out.label_if(want.is_none(), "end not found");
        if end.as_ref().map_or(false, |e| !e.is_empty() && text.contains(e.chars().next().unwrap())) {
            out.nontrivial = true;
        }
        let ok = match (&got, want) {
            (&None, None) => true,
            (&Some((ref v, ref n)), Some(k)) => *v == text[..k] && *n == name,
            _ => false,
        };
        if !ok {
            out.desc = format!("{} text={:?}", hist, text);
            return viol("wrong greedy value", format!("{}: text {:?} gives {:?}, expected {:?}", hist, text, got, want.map(|k| &text[..k])));
        }
        if clone_got != got.map(|x| x.0) {
            out.desc = format!("{} text={:?}", hist, text);
            return viol("clone differs", format!("{}: a clone parses {:?} differently: {:?}", hist, text, clone_got));
        }
        hist.push_str(&format!(" parse({:?})", text));
    }
    out.desc = hist;
    Ok(())
}

fn parser_tok(g: &mut Gen, w: &mut World) -> Tok {
    loop {
        let t = w.parser(g);
        if !t.is_lit() {
            return t;
        }
    }
}

fn c20(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let a = parser_tok(g, &mut w);
    let mut b = a.clone();
    for _ in 0..g.range(0, 3) {
        b = w.tweak(g, &b);
    }
    if g.chance(1, 8) {
        b = parser_tok(g, &mut w);
    }
    if g.chance(1, 10) {
        // move text between the name and the other string attribute
        b = match b {
            Tok::Set { set, min, max, name: Some(n) } => Tok::Set { set: n, min: min, max: max, name: Some(set) },
            Tok::Greedy { name, end } => Tok::Greedy { name: end, end: name },
            Tok::Int { min, max, name: Some(_) } => Tok::Int { min: min, max: max, name: None },
            t => t,
        };
    }
    out.desc = format!("{} {}", show(&[a.clone()]), show(&[b.clone()]));
    let (x, y) = (real_parser(g, &a), real_parser(g, &b));
    let same = a.canon() == b.canon();
    out.nontrivial = std::mem::discriminant(&a) == std::mem::discriminant(&b);
    out.label_if(same, "same configuration");
    out.label_if(!same, "different configuration");
    out.checks += 4;
    let (hx, hy) = (x.hash_os(), y.hash_os());
    if (hx == hy) != same {
        return viol("identity", format!("{} and {} are configured {} but their identity hashes are {}", show(&[a]), show(&[b]), if same { "alike" } else { "differently" }, if same { "different" } else { "equal" }));
    }
    let text = w.text(g, 0, 6);
    let _ = x.parse(&text).map(|r| r.value().len());
    let _ = x.parse("0a").map(|r| r.value().len());
    if x.hash_os() != hx {
        return viol("identity changes by parsing", format!("identity of {} changed after a parse", show(&[a])));
    }
    if x.boxed_clone().hash_os() != hx {
        return viol("identity of clone", format!("the clone of {} has another identity", show(&[a])));
    }
    // changing the name and changing it back
    let mut z = x.boxed_clone();
    z.set_name(Some("other name, not the same".to_owned()));
    if z.hash_os() == hx {
        return viol("identity", format!("renaming {} does not change its identity", show(&[a])));
    }
    z.set_name(a.name().map(|n| n.to_owned()));
    if z.hash_os() != hx {
        return viol("identity", format!("renaming {} and back changes its identity", show(&[a])));
    }
    Ok(())
}

pub fn gen_meta(g: &mut Gen, w: &World) -> Meta {
    let name = if g.chance(1, 3) { None } else { Some(w.any_text(g, 6)) };
    let values = if g.chance(1, 3) { None } else {
        let n = if w.big && g.chance(1, 5) { g.range(10, 70) } else { g.range(0, 4) };
        let mut m = BTreeMap::new();
        for i in 0..n {
            let k = if n > 8 { format!("k{}", i) } else { w.any_text(g, 4) };
            m.insert(k, w.any_text(g, 5));
        }
        Some(m)
    };
    let tags = if g.chance(1, 3) { None } else {
        let n = if w.big && g.chance(1, 5) { g.range(10, 70) } else { g.range(0, 4) };
        Some((0..n).map(|_| w.any_text(g, 4)).collect())
    };
    Meta { name: name, values: values, tags: tags }
}

fn c21(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let s = scene(g, out, false)?;
    let w = World::new(g, true);
    let mut metas: Vec<Meta> = s.pats.iter().map(|_| gen_meta(g, &w)).collect();
    let with_tests = g.bool();
    out.desc = format!("{} metadata {:?}", describe(&s.pats, &s.msgs), metas);
    // patterns added again as they are, but with other metadata
    let mut again: Vec<(usize, Meta)> = vec![];
    let expressible = !out.labels.contains(&"builder only");
    if expressible && g.chance(1, 5) {
        for _ in 0..g.range(1, 3) {
            let i = g.range(0, s.pats.len() - 1);
            let m = gen_meta(g, &w);
            again.push((i, m));
        }
        out.desc.push_str(&format!(" then again {:?}", again));
        out.label("added again with other metadata");
    }
    // some as a pattern file
    let mut path = None;
    if expressible && again.is_empty() && g.chance(1, 6) {
        let docs: Vec<PatDoc> = s.pats.iter().zip(&metas).map(|(p, m)| PatDoc {
            toks: p.clone(), text: render(g, p), meta: m.clone(), tests: if with_tests { Some(vec![]) } else { None },
        }).collect();
        if docs.iter().all(|d| compile(&d.text) == Verdict::Accept(d.toks.clone())) {
            let node = doc::file_node(g, &docs);
            path = Some(if g.chance(1, 4) && doc::yaml_can(&node) {
                let y = doc::yaml(g, &node);
                put("yaml", y.as_bytes())
            } else {
                let j = doc::json(g, &node);
                put("json", j.as_bytes())
            });
            out.label("from a file");
        }
    }
    let first = metas.clone();
    for &(i, ref m) in &again {
        metas[i] = m.clone();
    }
    for k in KINDS.iter() {
        let m = match path {
            Some(ref path) => match load_lenient(*k, path) {
                Ok(m) => m,
                Err(e) => return viol("file rejected", format!("a valid pattern file is rejected: {}", e)),
            },
            None => {
                let mut m = new_matcher(*k);
                for i in 0..s.pats.len() {
                    let tests = if with_tests { Some(vec![]) } else { None };
                    m.add_pattern(pattern(i, s.built.cps[i].clone(), &first[i], tests));
                }
                for &(i, ref meta) in &again {
                    m.add_pattern(pattern(i, s.built.cps[i].clone(), meta, None));
                }
                m
            }
        };
        let c = m.boxed_clone();
        for m in [&m, &c].iter() {
            for msg in &s.msgs {
                if let Some(r) = m.parse(msg) {
                    out.checks += 1;
                    let p = r.pattern();
                    let i = match index_of(p.uuid(), s.pats.len()) {
                        Some(i) => i,
                        None => return viol("unknown uuid", format!("{:?}: the match of {:?} has a uuid that no pattern has: {}", k, msg, p.uuid())),
                    };
                    if metas[i] != Meta::default() && s.pats.iter().enumerate().any(|(j, q)| j != i && q[0] == s.pats[i][0]) {
                        out.nontrivial = true;
                    }
                    let got = Meta { name: p.name().map(|x| x.to_owned()), values: p.values().cloned(), tags: p.tags().map(|x| x.to_vec()) };
                    if got != metas[i] {
                        return viol("metadata", format!("{:?}: pattern #{} matched {:?} with metadata {:?}, but was added with {:?}", k, i, msg, got, metas[i]));
                    }
                    // the reported metadata is that of a pattern which fits the message
                    if fit(&s.pats[i], msg).is_none() && s.pats.iter().any(|p| fit(p, msg).is_some()) {
                        return viol("metadata of another pattern", format!("{:?}: the match of {:?} carries the metadata of pattern #{}, which does not fit", k, msg, i));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- end to end

const WORDS: [&str; 40] = ["sshd", "Accepted", "password", "for", "from", "port", "session", "opened", "closed", "user", "by", "(uid=0)", "error:", "failed", "connection", "reset", "timeout", "GET", "POST", "HTTP/1.1", "status", "=", ":", "[", "]", "kernel:", "device", "eth0", "link", "up", "down", "naïve", "Größe", "日本", "100%", "%", "{x}", "\"quoted\"", "a\\b", "tab\there"];

/// more patterns than 16 bits can number, each recognised by its own beginning
fn c24_huge(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let n = 65_536 + g.range(1, 3000);
    let tail = g.below(3);
    let mut order: Vec<usize> = (0..n).collect();
    // a file may be read from either end
    if !g.chance(1, 4) {
        order.reverse();
    }
    for _ in 0..g.range(0, 20) {
        let (a, b) = (g.range(0, n - 1), g.range(0, n - 1));
        order.swap(a, b);
    }
    let mut doc = String::from("{\"patterns\":[");
    for (k, i) in order.iter().enumerate() {
        if k > 0 {
            doc.push(',');
        }
        let t = match tail {
            0 => "",
            1 => " %{INT:a}",
            _ => if i % 2 == 0 { " %{INT:a}" } else { "" },
        };
        doc.push_str(&format!("{{\"uuid\":\"{}\",\"pattern\":\"{:05}{}\"}}", uuid_of(*i).hyphenated(), i, t));
    }
    doc.push_str("]}");
    let path = put("json", doc.as_bytes());
    let mut which: Vec<usize> = vec![0, 1, 65_535, 65_536, n - 1, n, order[0], order[65_535], order[65_536], order[n - 1]];
    for _ in 0..60 {
        which.push(g.range(0, n + 20));
        which.push(order[g.range(65_536, n - 1)]);
    }
    out.label("more than 65536 patterns");
    out.nontrivial = true;
    out.desc = format!("{} patterns of five digits, form {}; {:?}", n, tail, which);
    for k in KINDS.iter() {
        let m = match if g.bool() { load_lenient(*k, &path) } else { load_strict(*k, &path) } {
            Ok(m) => m,
            Err(e) => return viol("load failed", format!("a file of {} documented patterns does not load: {}", n, e)),
        };
        for i in &which {
            let long = tail == 1 || tail == 2 && i % 2 == 0;
            for with in [false, true].iter() {
                let msg = format!("{:05}{}", i, if *with { format!(" {}", i * 7) } else { String::new() });
                let mut want = None;
                if *i < n && *with == long {
                    let mut vals = BTreeMap::new();
                    if long {
                        vals.insert("a".to_owned(), (i * 7).to_string());
                    }
                    want = Some((uuid_of(*i).hyphenated().to_string(), vals));
                }
                out.checks += 1;
                let got = answer(&*m, &msg);
                if got != want {
                    return viol("many patterns", format!("{:?} of {} patterns: message {:?} gives {:?} instead of {:?}", k, n, msg, got, want));
                }
            }
        }
    }
    Ok(())
}

fn c24(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    if g.chance(1, 400) {
        return c24_huge(g, out);
    }
    let mut w = World::new(g, false);
    w.big = true;
    let n = *g.pick(&[20usize, 40, 60, 100, 200, 400, 600]);
    let mut pats: Vec<Vec<Tok>> = vec![];
    let long = g.bool();
    for i in 0..n {
        let mut p: Vec<Tok> = vec![];
        if !pats.is_empty() && g.chance(2, 3) {
            // share the beginning of an earlier pattern
            let base = g.pick(&pats).clone();
            let k = g.range(0, base.len());
            p.extend(base[..k].to_vec());
        }
        let len = if long && g.chance(1, 20) { g.range(20, 60) } else if long && g.chance(1, 150) { g.range(100, 500) } else { g.range(2, 9) };
        for j in 0..len {
            let t = match g.below(10) {
                _ if len >= 20 && j % 2 == 0 => Tok::Lit(format!(" f{}=", j)),
                0..=4 => {
                    let mut l = (*g.pick(&WORDS)).to_owned();
                    for _ in 0..g.range(0, 2) {
                        l.push(' ');
                        l.push_str(*g.pick(&WORDS));
                    }
                    if long && g.chance(1, 40) {
                        l.push_str(&w.long_text(g));
                    }
                    l.push(' ');
                    Tok::Lit(l)
                }
                5 | 6 => Tok::Int { min: small(g), max: None, name: name24(g) },
                7 => Tok::Set { set: "abcdefghijklmnopqrstuvwxyz0123456789.-_".to_owned(), min: None, max: None, name: name24(g) },
                8 => Tok::Set { set: "0123456789.".to_owned(), min: small(g), max: Some(15), name: name24(g) },
                _ => Tok::Greedy { name: name24(g), end: None },
            };
            p.push(t);
        }
        if g.bool() {
            p.push(Tok::Lit(format!("id{}", i)));
        }
        pats.push(crate::gen::fix_grammar(p));
    }
    // write the file by hand: JSON with the two required fields
    let mut doc = String::from("{\"patterns\":[");
    let mut texts = vec![];
    for (i, p) in pats.iter().enumerate() {
        if i > 0 {
            doc.push(',');
        }
        let t = render(g, p);
        doc.push_str(&format!("{{\"uuid\":\"{}\",\"pattern\":{}}}", uuid_of(i).hyphenated(), serde_json::to_string(&t).unwrap()));
        texts.push(t);
    }
    doc.push_str("]}");
    let path = put("json", doc.as_bytes());
    let mut msgs: Vec<String> = vec![];
    for _ in 0..g.range(40, 150) {
        let p = g.pick(&pats).clone();
        let mut s = String::new();
        for t in &p {
            match *t {
                Tok::Greedy { .. } => {
                    for _ in 0..g.range(0, 3) {
                        s.push_str(*g.pick(&WORDS));
                    }
                    if g.chance(1, 60) {
                        s.push_str(&"long value ".repeat(*g.pick(&[10usize, 100, 700, 7000])));
                    }
                }
                Tok::Int { min, .. } => {
                    let n = if g.chance(1, 60) { *g.pick(&[100usize, 1000, 5000, 70000]) } else { min.unwrap_or(1).max(1) + g.range(0, 3) };
                    s.extend("1234567890".chars().cycle().take(n));
                }
                ref t => w.sample_tok(g, t, &mut s),
            }
        }
        msgs.push(s);
    }
    out.desc = format!("{} patterns, e.g. {:?}; {} messages, e.g. {:?}; tape hash {}", n, texts[..2].to_vec(), msgs.len(), msgs[0].chars().take(200).collect::<String>(), crate::tape::hash_str(&doc));
    let mut matched = 0;
    for k in KINDS.iter() {
        let m = match load_lenient(*k, &path) {
            Ok(m) => m,
            Err(e) => return viol("load failed", format!("a file of {} documented patterns does not load: {}", n, e)),
        };
        for msg in &msgs {
            let fitting = pats.iter().position(|p| fit(p, msg).is_some());
            let got = ask(&*m, msg, n);
            out.checks += 1;
            match (fitting, got) {
                (None, None) => {}
                (Some(i), None) => return viol("missed", format!("{:?}: message {:?} fits pattern {:?} but is unmatched", k, msg, texts[i])),
                (_, Some((None, _))) => return viol("unknown pattern", format!("{:?}: message {:?} is attributed to an unknown pattern", k, msg)),
                (_, Some((Some(i), vals))) => {
                    matched += 1;
                    match fit(&pats[i], msg) {
                        None => return viol("unsound", format!("{:?}: message {:?} is attributed to {:?}", k, msg, texts[i])),
                        Some(pieces) => {
                            let want: BTreeMap<String, String> = values(&pats[i], &pieces).into_iter().map(|(a, b)| (a.to_owned(), b.to_owned())).collect();
                            if want != vals {
                                return viol("values", format!("{:?}: message {:?} with pattern {:?} gives {:?}", k, msg, texts[i], vals));
                            }
                        }
                    }
                }
            }
        }
    }
    out.nontrivial = n >= 20 && matched >= 20;
    Ok(())
}

fn small(g: &mut Gen) -> Option<usize> {
    if g.chance(1, 3) { Some(g.range(1, 3)) } else { None }
}

fn name24(g: &mut Gen) -> Option<String> {
    if g.chance(1, 6) { None } else { Some(format!("{}{}", *g.pick(&["user", "ip", "port", "proc.id", "x_y"]), g.below(4))) }
}
