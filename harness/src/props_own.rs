//! Parsers and parser factories of the caller's own: C26, C27, C31.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::{canon_all, render, World};
use crate::model::{compile, fit, values, winner, OtherKind, Tok, Verdict};
use crate::props_match::{ask, describe, merge_literals, show, Got};
use crate::real::*;
use crate::tape::Gen;
use actiondb::grammar::parser;
use actiondb::matcher::compiled_pattern::{CompiledPatternBuilder, TokenType};
use actiondb::parsers::ObjectSafeHash;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C26", quick: 2_000_000, thorough: 80_000_000, f: c26,
               rule: "pattern texts as for C09, a third of them mutated, compiled with a parser factory of the caller's own and with the standard one. Non-trivial: the text is accepted and has a parser, or is rejected" },
        Prop { id: "C27", quick: 400_000, thorough: 16_000_000, f: c27,
               rule: "as C04, with parsers the caller defines (fixed length, optional text, text before the last occurrence, none or more characters, never) mixed with built-in ones or with the caller's versions of them; answers compared with the model. Non-trivial: some message fits a pattern with a parser of the caller's own" },
        Prop { id: "C31", quick: 200_000, thorough: 8_000_000, f: c31,
               rule: "pattern sets as for C27 and sets that branch along a chain of up to 48 tokens, with counting parsers of the caller's own; messages that fit, nearly fit, or fail at the end of the chain. Non-trivial: a message on which at least ten parsers were asked" },
    ]
}

/// more calls than this per parser of the patterns are too many
const CALLS_PER_PARSER: u64 = 4;

/// patterns that branch off a chain of tokens at many places
fn chain(g: &mut Gen, w: &mut World) -> Vec<Vec<Tok>> {
    let depth = g.range(4, 48);
    // mostly with separators that no parser takes, so that messages get far
    let sep = if g.chance(4, 5) { Some(*g.pick(&["|", "\u{1f}", "€|"])) } else { None };
    let mut spine: Vec<Tok> = vec![];
    while spine.len() < depth {
        if let Some(sep) = sep {
            let end = g.range(0, spine.len() / 3);
            match g.below(4) {
                0 => spine.push(Tok::Int { min: None, max: None, name: w.name(g) }),
                1 => spine.push(Tok::Set { set: "ab".to_owned(), min: None, max: None, name: w.name(g) }),
                2 => spine.push(Tok::Other { kind: OtherKind::AnyNumber("0123456789ab".to_owned()), name: w.name(g) }),
                _ => spine.push(Tok::Greedy { end: Some(format!("{}{}", sep, end)), name: w.name(g) }),
            }
            spine.push(Tok::Lit(format!("{}{}", sep, end)));
        } else {
            let t = w.tok(g);
            spine.push(t);
        }
    }
    let spine = merge_literals(&spine);
    let mut pats = vec![spine.clone()];
    for _ in 0..g.range(0, 20) {
        let mut p = spine.clone();
        match g.below(4) {
            // the same beginning, an end of its own
            0 => {
                let k = g.range(0, p.len());
                p.truncate(k);
                for _ in 0..g.range(1, 3) {
                    p.push(w.tok(g));
                }
            }
            // another token at one place
            1 => {
                let k = g.range(0, p.len() - 1);
                p[k] = w.tok(g);
            }
            // a differently named parser at one place
            2 => {
                let k = g.range(0, p.len() - 1);
                p[k] = w.tweak(g, &spine[k]);
            }
            // changed at several places
            _ => for k in 0..p.len() {
                if g.chance(1, 8) {
                    p[k] = w.tweak(g, &spine[k]);
                }
            },
        }
        let p = merge_literals(&p);
        if !p.is_empty() {
            pats.push(p);
        }
    }
    g.shuffle(&mut pats);
    pats
}

fn c31(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    w.own_parsers = g.bool();
    crate::own::set_identity_style(g.below(6));
    let pats: Vec<Vec<Tok>> = if g.chance(2, 3) {
        out.label("chain");
        chain(g, &mut w)
    } else {
        w.patterns(g).iter().map(|p| merge_literals(p)).collect()
    };
    let mut cps = vec![];
    let mut parsers = 0;
    for p in &pats {
        let mut b = CompiledPatternBuilder::new();
        for t in p {
            match *t {
                Tok::Lit(ref l) => b.literal(l.clone()),
                ref t => {
                    parsers += 1;
                    b.parser(Box::new(OwnParser(t.canon())))
                }
            };
        }
        cps.push(b.build());
    }
    let built = Built { cps: cps, cloned: None };
    let n = g.range(2, 8);
    let mut msgs = w.messages(g, &pats, n);
    for _ in 0..3 {
        // fails at its very end only
        let base = { let p = g.pick(&pats).clone(); w.sample(g, &p) };
        msgs.push(format!("{}{}", base, *g.pick(&["\u{1}", "~", "1", "a", " "])));
        if let Some((k, _)) = base.char_indices().last() {
            msgs.push(base[..k].to_owned());
        }
    }
    out.desc = describe(&pats, &msgs);
    let bound = CALLS_PER_PARSER * parsers as u64;
    for k in KINDS.iter() {
        let m = built.fill(*k);
        for msg in &msgs {
            out.checks += 1;
            crate::own::count_calls(bound + 1000);
            let _ = m.parse(msg);
            let n = crate::own::calls();
            crate::own::count_calls(u64::MAX);
            out.nontrivial = out.nontrivial || n >= 10;
            out.label_if(n >= 100, "hundred calls");
            if n > bound {
                return viol("too much work", format!("{:?}: for message {:?} parsers are called at least {} times, although the patterns have only {} parsers", k, msg, n, parsers));
            }
        }
    }
    Ok(())
}

fn c26(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, false);
    let p = w.pattern(g, &[]);
    let mut text = render(g, &p);
    if g.chance(1, 3) {
        text = w.mutate(g, &text);
        out.label("mutated");
    }
    out.desc = format!("{:?}", text);
    let own = parser::pattern_with_factory::<OwnParserFactory>(&text);
    let std = parser::pattern(&text);
    out.checks += 1;
    let (own, std) = match (own, std) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            out.nontrivial = true;
            out.label("rejected");
            return if a == b { Ok(()) } else { viol("error", format!("{:?} is rejected with {:?} by one factory and with {:?} by the other", text, a, b)) };
        }
        (Ok(_), Err(e)) => return viol("accepted by one", format!("{:?} is rejected with the standard factory only: {}", text, e)),
        (Err(e), Ok(_)) => return viol("accepted by one", format!("{:?} is rejected with the caller's factory only: {}", text, e)),
    };
    out.nontrivial = own.iter().any(|t| if let TokenType::Parser(_) = *t { true } else { false });
    if own.len() != std.len() {
        return viol("token count", format!("{:?} compiles to {:?} with the caller's factory, but to {:?} with the standard one", text, own, std));
    }
    let toks = match compile(&text) {
        Verdict::Accept(t) => t,
        _ => return Ok(()),
    };
    if own.len() != toks.len() {
        return viol("token count", format!("{:?} compiles to {:?}", text, own));
    }
    for (i, (t, r)) in toks.iter().zip(&own).enumerate() {
        out.checks += 1;
        let same = match (t, r) {
            (&Tok::Lit(ref l), &TokenType::Literal(ref x)) => l == x,
            (&Tok::Lit(_), _) | (_, &TokenType::Literal(_)) => false,
            (t, &TokenType::Parser(ref x)) => format!("{:?}", x) == format!("{:?}", OwnParser(t.clone())) && x.hash_os() == OwnParser(t.clone()).hash_os(),
        };
        if !same {
            return viol("factory call", format!("{:?}: token {} should be made for {}, but is {:?}", text, i, show(&[t.clone()]), r));
        }
    }
    Ok(())
}

fn c27(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    w.own_parsers = true;
    crate::own::set_identity_style(g.below(6));
    let pats: Vec<Vec<Tok>> = w.patterns(g).iter().map(|p| merge_literals(p)).collect();
    let all_own = g.bool();
    let mut cps = vec![];
    for p in &pats {
        let mut b = CompiledPatternBuilder::new();
        for t in p {
            match *t {
                Tok::Lit(ref l) => b.literal(l.clone()),
                ref t if all_own => b.parser(Box::new(OwnParser(t.canon()))),
                ref t => b.parser(real_parser(g, t)),
            };
        }
        cps.push(b.build());
    }
    let built = Built { cps: cps, cloned: None };
    let n = g.range(4, 16);
    let msgs = w.messages(g, &pats, n);
    let pats = canon_all(&pats);
    out.desc = describe(&pats, &msgs);
    out.label_if(all_own, "no built-in parser");
    let wants: Vec<Option<usize>> = msgs.iter().map(|m| winner(&pats, m)).collect();
    out.nontrivial = wants.iter().any(|w| w.map_or(false, |i| pats[i].iter().any(|t| if let Tok::Other { .. } = *t { true } else { all_own && !t.is_lit() })));
    for k in KINDS.iter() {
        let m = built.fill(*k);
        let m = if g.chance(1, 4) { m.boxed_clone() } else { m };
        for (msg, want) in msgs.iter().zip(&wants) {
            out.checks += 1;
            let got = ask(&*m, msg, pats.len());
            let want: Got = want.map(|i| (Some(i), values(&pats[i], &fit(&pats[i], msg).unwrap_or_default()).into_iter().map(|(a, b)| (a.to_owned(), b.to_owned())).collect()));
            if got != want {
                return viol("own parsers", format!("{:?}: message {:?} is answered {:?} instead of {:?}", k, msg, got, want));
            }
        }
    }
    Ok(())
}
