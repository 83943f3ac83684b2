//! The objects patterns are made of: C29.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::World;
use crate::model::Tok;
use crate::props_match::{gen_meta, show};
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder, TokenType};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::Pattern;
use actiondb::parsers::{ParseResult, Parser};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C29", quick: 1_500_000, thorough: 60_000_000, f: c29,
               rule: "patterns, test messages and match results made in different ways from random parts and then read, changed and emptied in random order, also as clones; compared with the parts. Non-trivial: at least two tokens and some metadata" },
    ]
}

fn tok_eq(want: &Tok, p: &TokenType, r: &dyn Parser) -> bool {
    match (want, p) {
        (&Tok::Lit(ref l), &TokenType::Literal(ref x)) => l == x,
        (&Tok::Lit(_), _) | (_, &TokenType::Literal(_)) => false,
        (t, &TokenType::Parser(ref x)) => x.name() == t.name() && x.hash_os() == r.hash_os(),
    }
}

fn same(g: &mut Gen, toks: &[Tok], cp: &CompiledPattern) -> bool {
    toks.len() == cp.len() && toks.iter().zip(cp).all(|(t, c)| match *t {
        Tok::Lit(ref l) => if let TokenType::Literal(ref x) = *c { l == x } else { false },
        ref t => {
            let r = real_parser(g, t);
            tok_eq(t, c, &*r)
        }
    })
}

fn c29(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    if g.chance(1, 100_000) {
        out.label("many random uuids");
        let n = 400_000;
        out.desc = format!("{} random uuids", n);
        let mut all: Vec<[u8; 16]> = (0..n).map(|_| *Pattern::with_random_uuid().uuid().as_bytes()).collect();
        all.sort();
        out.checks += n;
        for x in all.windows(2) {
            if x[0] == x[1] {
                return viol("random uuid", format!("two of {} random uuids are {:?}", n, x[0]));
            }
        }
        return Ok(());
    }
    let mut w = World::new(g, true);
    let mut toks = w.pattern(g, &[]);
    while g.chance(1, 8) {
        let k = g.range(0, toks.len());
        toks.insert(k, Tok::Lit(String::new()));
    }
    let meta = gen_meta(g, &w);
    let tests: Option<Vec<(String, BTreeMap<String, String>, Option<Vec<String>>)>> = if g.chance(1, 4) { None } else {
        Some((0..g.range(0, 4)).map(|_| {
            let m = gen_meta(g, &w);
            (w.any_text(g, 5), m.values.unwrap_or_default(), m.tags)
        }).collect())
    };
    out.desc = format!("{} {:?} {:?}", show(&toks), meta, tests);
    out.nontrivial = toks.len() >= 2 && meta != Meta::default();
    let uuid = uuid_of(g.range(0, 300));
    let cp = build(g, &toks);
    // a builder gives all tokens so far, however often it is asked
    if g.chance(1, 4) {
        let mut toks = toks.clone();
        while g.chance(1, 3) {
            let k = g.range(0, toks.len());
            toks.insert(k, Tok::Lit(String::new()));
        }
        let mut b = CompiledPatternBuilder::new();
        let mut n = 0;
        while n < toks.len() {
            let k = g.range(1, 3).min(toks.len() - n);
            for t in &toks[n..n + k] {
                match *t {
                    Tok::Lit(ref l) => b.literal(l.clone()),
                    ref t => b.parser(real_parser(g, t)),
                };
            }
            n += k;
            out.checks += 1;
            let cp = b.build();
            if !same(g, &toks[..n], &cp) {
                return viol("builder", format!("after the tokens {} the builder gives {:?}", show(&toks[..n]), cp));
            }
        }
    }
    // test messages
    let real_tests = tests.clone().map(|ts| ts.into_iter().map(|t| TestMessage::new(t.0, t.1, t.2)).collect::<Vec<_>>());
    for (t, r) in tests.iter().flat_map(|x| x.iter()).zip(real_tests.iter().flat_map(|x| x.iter())) {
        out.checks += 1;
        if r.message() != t.0 || *r.values() != t.1 || r.tags().map(|x| x.to_vec()) != t.2 {
            return viol("test message", format!("a test message made from {:?} is {:?}", t, r));
        }
    }
    let bare = g.chance(1, 4);
    let random = bare && g.bool();
    let mut p = if random {
        out.label("random uuid");
        let a = Pattern::with_random_uuid();
        if Pattern::with_random_uuid().uuid() == a.uuid() {
            return viol("random uuid", format!("two random uuids are {}", a.uuid()));
        }
        a
    } else if bare {
        Pattern::with_uuid(uuid)
    } else {
        Pattern::new(meta.name.clone(), uuid, if g.bool() { cp.clone() } else { vec![] }, real_tests, meta.values.clone(), meta.tags.clone())
    };
    let uuid = if random { *p.uuid() } else { uuid };
    if bare || p.pattern().is_empty() {
        p.set_pattern(cp);
        out.label("pattern set later");
    }
    let (meta, tests) = if bare { (Meta::default(), None) } else { (meta, tests) };
    let mut patterns: Vec<(Pattern, Vec<Tok>, Vec<(String, BTreeMap<String, String>, Option<Vec<String>>)>)> = vec![(p, toks, tests.unwrap_or_default())];
    for _ in 0..g.range(1, 14) {
        let i = g.range(0, patterns.len() - 1);
        match g.below(5) {
            0 => if patterns.len() < 3 {
                let c = patterns[i].clone();
                patterns.push(c);
            },
            1 | 2 => {
                let (ref mut p, ref mut toks, _) = patterns[i];
                let got = p.pop_first_token();
                let want = if toks.is_empty() { None } else { Some(toks.remove(0)) };
                out.checks += 1;
                let ok = match (&got, &want) {
                    (&None, &None) => true,
                    (&Some(ref a), &Some(ref b)) => same(g, &[b.clone()], &vec![a.clone()]),
                    _ => false,
                };
                if !ok {
                    return viol("first token", format!("the first token is {:?} instead of {:?}", got, want));
                }
            }
            3 => {
                let (ref mut p, _, ref mut tests) = patterns[i];
                let got = p.pop_test_message().map(|t| (t.message().to_owned(), t.values().clone(), t.tags().map(|x| x.to_vec())));
                out.checks += 1;
                // in any order, but each once
                match got {
                    None => if !tests.is_empty() {
                        return viol("test messages", format!("no more test messages, but {:?} are left", tests));
                    },
                    Some(t) => match tests.iter().position(|x| *x == t) {
                        Some(k) => {
                            tests.remove(k);
                        }
                        None => return viol("test messages", format!("{:?} is given instead of one of {:?}", t, tests)),
                    },
                }
            }
            _ => {
                let n = w.pattern(g, &[]);
                let cp = build(g, &n);
                let cp = if g.bool() { cp.clone() } else { cp };
                patterns[i].0.set_pattern(cp);
                patterns[i].1 = n;
            }
        }
        for (i, &(ref p, ref toks, _)) in patterns.iter().enumerate() {
            out.checks += 1;
            let m = Meta { name: p.name().map(|x| x.to_owned()), values: p.values().cloned(), tags: p.tags().map(|x| x.to_vec()) };
            if *p.uuid() != uuid || m != meta || !same(g, toks, p.pattern()) {
                return viol("content", format!("pattern {} is {:?} instead of {} {} {:?}", i, p, uuid, show(toks), meta));
            }
        }
    }
    // a match result
    let kept: Vec<String>;
    let p = &patterns[0].0;
    // names may come again; then the value given last counts
    let repeat = g.chance(1, 3);
    // the values may be parts of one message, as a matcher gives them
    let message = w.any_text(g, 12);
    let parts = g.chance(1, 3);
    let named: Vec<(Box<dyn Parser>, String)> = (0..g.range(0, 5)).map(|i| {
        let mut p = {
            let t = w.parser(g);
            real_parser(g, &t)
        };
        let number = if repeat { g.below(2) as usize } else { i };
        p.set_name(if g.chance(1, 4) { None } else { Some(format!("n{}", number)) });
        (p, w.any_text(g, 4))
    }).collect();
    let cuts: Vec<usize> = message.char_indices().map(|x| x.0).chain(Some(message.len())).collect();
    let named: Vec<(Box<dyn Parser>, &str)> = {
        let own: Vec<&str> = named.iter().map(|_| {
            let a = g.range(0, cuts.len() - 1);
            let b = (a + g.range(0, 3)).min(cuts.len() - 1);
            &message[cuts[a]..cuts[b]]
        }).collect();
        kept = named.iter().map(|x| x.1.clone()).collect();
        named.into_iter().zip(kept.iter().zip(own)).map(|((p, _), (v, part))| (p, if parts { part } else { &v[..] })).collect()
    };
    let mut r = MatchResult::new(p);
    let mut want: BTreeMap<&str, &str> = BTreeMap::new();
    for &(ref p, v) in &named {
        let pr = ParseResult::new(&**p, v);
        out.checks += 1;
        if pr.value() != v || pr.parser().name() != p.name() {
            return viol("parse result", format!("a parse result of {:?} and {:?} holds {:?}", p.name(), v, pr.value()));
        }
        r.insert(pr);
        if let Some(n) = p.name() {
            want.insert(n, v);
        }
    }
    out.checks += 1;
    if *r.values() != want || r.pattern() as *const Pattern != p as *const Pattern {
        return viol("match result", format!("the values inserted are {:?}, those given {:?}", want, r.values()));
    }
    Ok(())
}
