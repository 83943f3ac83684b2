//! Nodes of the trie and the suffix array used by hand: C28, C33, C34.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::World;
use crate::model::Tok;
use crate::props_match::show;
use crate::real::*;
use crate::tape::Gen;
use actiondb::matcher::compiled_pattern::TokenType;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::node::interface::{Entry, LiteralEntry, ParserEntry, SuffixTree as Tree};
use actiondb::matcher::trie::node::{LiteralNode, ParserNode};
use actiondb::matcher::trie::SuffixTree;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::ParseResult;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C28", quick: 4_000_000, thorough: 60_000_000, f: c28,
               rule: "histories of inserting and looking up literals (and parsers) in trie nodes and their clones, many literals being prefixes of others or sharing them; compared with a set of strings. Non-trivial: two inserted literals share a prefix and some looked-up text was not inserted although it is a prefix or an extension of one that was" },
        Prop { id: "C33", quick: 300_000, thorough: 10_000_000, f: c33,
               rule: "pattern sets as in C01, put into a trie node by node in random ways (and partly as patterns); its answers, and those of its parser nodes, compared with tries filled in the ordinary way. Non-trivial: at least two patterns, a message that one of them fits and something put in by hand" },
        Prop { id: "C34", quick: 300_000, thorough: 10_000_000, f: c34,
               rule: "suffix arrays of 0-10 (sometimes 200) patterns with related literals, asked for the entry nearest to literals, their prefixes, extensions and mutations; compared with the longest common prefix over all literals. Non-trivial: at least three literals and a text that is none of them" },
    ]
}

fn c28(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let mut trees: Vec<(SuffixTree, BTreeSet<String>, usize)> = vec![(SuffixTree::new(), BTreeSet::new(), 0)];
    let mut hist: Vec<String> = vec![];
    let mut pool: Vec<String> = vec![];
    let n = if g.chance(1, 30) { g.range(30, 300) } else { g.range(2, 24) };
    let mut missed = false;
    for _ in 0..n {
        let text = match g.below(if pool.is_empty() { 2 } else { 7 }) {
            0 => w.text(g, 0, 6),
            1 => w.any_text(g, 5),
            2 => g.pick(&pool).clone(),
            3 => {
                let s = g.pick(&pool).clone();
                let bounds: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect();
                s[..*g.pick(&bounds)].to_owned()
            }
            4 => format!("{}{}", g.pick(&pool), w.text(g, 1, 3)),
            5 => {
                let s = g.pick(&pool).clone();
                w.look_alike(g, &s)
            }
            _ => {
                let s = g.pick(&pool).clone();
                w.mutate(g, &s)
            }
        };
        let i = g.range(0, trees.len() - 1);
        match g.weighted(&[10, 10, 2, 1]) {
            0 => {
                hist.push(format!("{}.insert({:?})", i, text));
                let (ref mut t, ref mut set, _) = trees[i];
                let (lit, has) = {
                    let n = t.insert_literal(&text);
                    (n.literal().to_owned(), n.has_value())
                };
                set.insert(text.clone());
                out.checks += 1;
                if !text.ends_with(&lit[..]) || !has {
                    return viol("inserted node", format!("{:?}: the node for {:?} holds {:?}, has value: {}", hist, text, lit, has));
                }
                pool.push(text);
            }
            1 => {
                hist.push(format!("{}.lookup({:?})", i, text));
                let mutable = g.bool();
                let (ref mut t, ref set, _) = trees[i];
                let found = if mutable { t.lookup_literal_mut(&text).map(|x| x.1).map_err(|x| x.1) } else { t.lookup_literal(&text).map(|x| x.1).map_err(|x| x.1) };
                out.checks += 1;
                let there = set.contains(&text);
                if !there && set.iter().any(|s| s.starts_with(&text[..]) || (!s.is_empty() && text.starts_with(&s[..]))) {
                    missed = true;
                }
                match found {
                    Ok(_) if !there => return viol("finds what is not there", format!("{:?}: {:?} was not inserted", hist, text)),
                    Err(_) if there => return viol("does not find", format!("{:?}: {:?} was inserted", hist, text)),
                    Err(rest) => {
                        let ok = rest <= text.len() && text.is_char_boundary(text.len() - rest) && {
                            let head = &text[..text.len() - rest];
                            head.is_empty() || set.iter().any(|s| s.starts_with(head))
                        };
                        if !ok {
                            return viol("remaining length", format!("{:?}: {} bytes of {:?} are said to remain", hist, rest, text));
                        }
                    }
                    Ok(_) => {}
                }
            }
            2 => {
                let t = w.parser(g);
                hist.push(format!("{}.parser({})", i, show(&[t.clone()])));
                let p = real_parser(g, &t);
                let h = p.hash_os();
                let got = trees[i].0.insert_parser(p).parser().hash_os();
                trees[i].2 += 1;
                out.checks += 1;
                if got != h {
                    return viol("parser node", format!("{:?}: the node is that of another parser", hist));
                }
            }
            _ => if trees.len() < 4 {
                hist.push(format!("{}.clone()", i));
                let c = trees[i].clone();
                trees.push(c);
                out.label("clone");
            },
        }
    }
    out.desc = hist.join(" ");
    let all: Vec<&String> = trees[0].1.iter().collect();
    let shared = all.windows(2).any(|p| !p[0].is_empty() && p[0].chars().next() == p[1].chars().next());
    out.nontrivial = shared && missed;
    for (i, &mut (ref mut t, ref set, parsers)) in trees.iter_mut().enumerate() {
        out.checks += 1;
        if t.is_leaf() != (set.is_empty() && parsers == 0) {
            return viol("leaf", format!("{:?}: tree {} with {} literals and {} parsers is a leaf: {}", hist, i, set.len(), parsers, t.is_leaf()));
        }
        for l in &pool {
            out.checks += 1;
            if t.lookup_literal(l).is_ok() != set.contains(l) || t.lookup_literal_mut(l).is_ok() != set.contains(l) {
                return viol("in the end", format!("{:?}: tree {}: {:?} was inserted: {}, but is found: {}", hist, i, l, set.contains(l), t.lookup_literal(l).is_ok()));
            }
        }
    }
    Ok(())
}

/// puts a pattern into a trie by way of its nodes
fn put_by_hand(g: &mut Gen, tree: &mut SuffixTree, mut p: Pattern, hand: &mut usize) {
    match g.below(6) {
        0 => return tree.add_pattern(p),
        1 => return Tree::insert(tree, p),
        _ => {}
    }
    match p.pop_first_token() {
        None => {}
        Some(TokenType::Literal(l)) => {
            *hand += 1;
            if tree.is_leaf() && g.bool() {
                let mut node = LiteralNode::new(l);
                node.set_has_value(true);
                put_under(g, &mut node, p, hand);
                tree.add_literal_node(node);
            } else {
                put_under(g, tree.insert_literal(&l), p, hand);
            }
        }
        Some(TokenType::Parser(parser)) => {
            *hand += 1;
            put_under(g, tree.insert_parser(parser), p, hand);
        }
    }
}

fn put_under<E: Entry<ST = SuffixTree>>(g: &mut Gen, node: &mut E, p: Pattern, hand: &mut usize) {
    if g.chance(1, 3) {
        node.insert(p);
    } else if p.pattern().is_empty() {
        node.set_pattern(Some(p));
    } else {
        if node.child().is_none() {
            node.set_child(Some(if g.bool() { SuffixTree::new() } else { SuffixTree::default() }));
        }
        put_by_hand(g, node.child_mut().expect("the child was set"), p, hand);
    }
}

type Told = Option<(String, BTreeMap<String, String>)>;

fn told(r: Option<actiondb::matcher::result::MatchResult>) -> Told {
    r.map(|r| (r.pattern().uuid().hyphenated().to_string(), r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
}

fn c33(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    if g.chance(1, 20) {
        return literal_nodes(g, out);
    }
    if g.chance(1, 12) {
        return split_node(g, out);
    }
    let free = g.chance(1, 3);
    let mut w = World::new(g, free);
    let pats: Vec<Vec<Tok>> = w.patterns(g).iter().map(|p| crate::props_match::merge_literals(p)).collect();
    let built = Built::new(g, &pats, free)?;
    let n = g.range(3, 10);
    let msgs = w.messages(g, &pats, n);
    out.desc = crate::props_match::describe(&pats, &msgs);
    let ordinary = built.fill(Kind::Trie);
    let mut tree = SuffixTree::new();
    let mut hand = 0;
    for i in 0..pats.len() {
        put_by_hand(g, &mut tree, pattern(i, built.cps[i].clone(), &Meta::default(), None), &mut hand);
        if g.chance(1, 10) {
            tree = tree.clone();
        }
        if g.chance(1, 8) {
            // a node at which no pattern ends matches nothing
            out.label("node without a pattern");
            bare_node(g, &mut w, &mut tree, &built, 0);
        }
    }
    let mut matched = false;
    for msg in &msgs {
        out.checks += 1;
        let (a, b) = (told(tree.parse(msg)), answer(&*ordinary, msg));
        matched |= b.is_some();
        if a != b {
            return viol("by hand", format!("message {:?}: filled by hand the trie says {:?}, filled with patterns {:?}", msg, a, b));
        }
        let p = w.parser(g);
        let parser = real_parser(g, &p);
        let value = w.text(g, 0, 3);
        out.checks += 1;
        let a = told(tree.parse_then_push_kvpair(msg, ParseResult::new(&*parser, &value)));
        let b = told(tree.parse(msg).map(|mut r| {
            r.insert(ParseResult::new(&*parser, &value));
            r
        }));
        if a != b {
            return viol("value added", format!("message {:?} with value {:?} of {} added: {:?} instead of {:?}", msg, value, show(&[p]), a, b));
        }
    }
    out.nontrivial = pats.len() >= 2 && matched && hand > 0;
    // single nodes
    for _ in 0..2 {
        let i = g.range(0, pats.len() - 1);
        let alike = |t: &TokenType, u: &TokenType| match (t, u) {
            (&TokenType::Parser(ref a), &TokenType::Parser(ref b)) => a.hash_os() == b.hash_os(),
            _ => false,
        };
        let first = match built.cps[i].iter().next() {
            Some(&TokenType::Parser(ref p)) => p.boxed_clone(),
            Some(&TokenType::Literal(ref l)) => {
                // the node of a literal holds the pattern that ends there
                let mut t = tree.clone();
                let node = t.insert_literal(l);
                let want = built.cps.iter().rposition(|c| c.len() == 1 && match c.iter().next() {
                    Some(&TokenType::Literal(ref x)) => x == l,
                    _ => false,
                });
                let copy = node.clone();
                out.checks += 1;
                let got = node.pattern().map(|p| p.uuid().clone());
                if got != want.map(uuid_of) || copy.pattern().map(|p| p.uuid().clone()) != got {
                    return viol("pattern of a literal", format!("the node of {:?} has pattern {:?} instead of #{:?}", l, got, want));
                }
                if LiteralEntry::literal(node) != LiteralNode::literal(node) || copy.literal() != node.literal() || node.is_leaf() != Entry::child(node).is_none() {
                    return viol("literal node", format!("the node of {:?} is in disagreement with itself: {:?}", l, node));
                }
                continue;
            }
            None => continue,
        };
        let mut sub = new_matcher(Kind::Trie);
        let mut count = 0;
        let mut here = None;
        for (k, c) in built.cps.iter().enumerate() {
            if c.iter().next().map_or(false, |t| alike(t, &built.cps[i].iter().next().unwrap())) {
                built.add(&mut *sub, k);
                count += 1;
                if c.len() == 1 {
                    here = Some(uuid_of(k));
                }
            }
        }
        out.label("parser node");
        out.label_if(count > 1, "parser node of several patterns");
        let mut t = tree.clone();
        let hash = first.hash_os();
        let name = first.name().map(|n| n.to_owned());
        let mut alone;
        let node: &mut ParserNode = if g.bool() {
            t.insert_parser(first)
        } else {
            // a node of its own
            alone = ParserNode::new(first);
            let mut hand = 0;
            for (k, c) in built.cps.iter().enumerate() {
                if c.iter().next().map_or(false, |t| alike(t, &built.cps[i].iter().next().unwrap())) {
                    let mut p = pattern(k, c.clone(), &Meta::default(), None);
                    p.pop_first_token();
                    put_under(g, &mut alone, p, &mut hand);
                }
            }
            &mut alone
        };
        out.checks += 1;
        if ParserNode::parser(node).hash_os() != hash || ParserEntry::parser(node).hash_os() != hash || ParserNode::parser(node).name().map(|n| n.to_owned()) != name {
            return viol("parser of a node", format!("the node of {:?} has another parser: {:?}", built.cps[i].iter().next(), node));
        }
        if node.pattern().map(|p| p.uuid().clone()) != here || node.is_leaf() != node.node().is_none() || Entry::child(node).is_none() != node.is_leaf() {
            return viol("parser node", format!("the node of {:?} has pattern {:?} instead of {:?}, or is in disagreement with itself", built.cps[i].iter().next(), node.pattern().map(|p| p.uuid()), here));
        }
        let copy = node.clone();
        for msg in &msgs {
            out.checks += 1;
            let want = answer(&*sub, msg);
            let got = [told(ParserNode::parse(node, msg)), told(ParserEntry::parse(node, msg)), told(ParserNode::parse(&copy, msg))];
            if got.iter().any(|a| *a != want) {
                return viol("answer of a node", format!("message {:?}: the node of {:?} says {:?}, a trie of the patterns below it {:?}", msg, built.cps[i].iter().next(), got, want));
            }
        }
    }
    Ok(())
}

/// puts a node without a pattern, or a few of them below one another, into the trie
fn bare_node(g: &mut Gen, w: &mut World, tree: &mut SuffixTree, built: &Built, depth: usize) {
    let mut child = SuffixTree::new();
    while depth < 2 && g.bool() {
        bare_node(g, w, &mut child, built, depth + 1);
    }
    let below = depth < 2 && g.chance(1, 3);
    let t = w.parser(g);
    let p = real_parser(g, &t);
    let taken = built.cps.iter().any(|c| c.iter().any(|t| match *t {
        TokenType::Parser(ref x) => x.hash_os() == p.hash_os(),
        _ => false,
    }));
    // a parser of a pattern would otherwise become the first one of its place
    if g.bool() || taken {
        let node = tree.insert_literal(&w.text(g, 1, 3));
        if node.is_leaf() && below {
            node.set_child(Some(child));
        }
    } else {
        let node = tree.insert_parser(p);
        if node.is_leaf() && below {
            node.set_child(Some(child));
        }
    }
}

/// literal nodes are ordered by their first characters
fn literal_nodes(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let a = w.text(g, 0, 4);
    let b = match g.below(4) {
        0 => w.text(g, 0, 4),
        1 => w.any_text(g, 4),
        2 => w.look_alike(g, &a),
        _ => w.mutate(g, &a),
    };
    out.desc = format!("literal nodes {:?} {:?}", a, b);
    out.nontrivial = !a.is_empty() && !b.is_empty();
    let (x, y) = (LiteralNode::new(&a[..]), LiteralNode::new(b.clone()));
    let want = a.chars().next().cmp(&b.chars().next());
    out.checks += 6;
    let ok = x.cmp(&y) == want && x.partial_cmp(&y) == Some(want) && (x == y) == (want == std::cmp::Ordering::Equal)
        && (x != y) == (want != std::cmp::Ordering::Equal) && x.cmp_str(&b) == want && y.cmp(&x) == want.reverse();
    if !ok || x.literal() != a || x.has_value() || !x.is_leaf() {
        return viol("order of literal nodes", format!("nodes of {:?} and {:?}: {:?}, {:?}, {:?} instead of {:?}", a, b, x.cmp(&y), x.partial_cmp(&y), x.cmp_str(&b), want));
    }
    Ok(())
}

/// a literal node split by hand goes on like one split by the insertion of a second literal
fn split_node(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let a = format!("{}{}", w.text(g, 1, 4), w.text(g, 1, 4));
    let cuts: Vec<usize> = a.char_indices().map(|x| x.0).skip(1).collect();
    let k = *g.pick(&cuts);
    let mut rest = match g.below(4) {
        0 => String::new(),
        1 => w.look_alike(g, &a[k..]),
        _ => w.text(g, 0, 3),
    };
    while rest.chars().next().is_some() && rest.chars().next() == a[k..].chars().next() {
        rest.remove(0);
    }
    let b = format!("{}{}", &a[..k], rest);
    let below: Vec<Tok> = (0..g.weighted(&[3, 3, 2, 1])).map(|_| if g.bool() { Tok::Lit(w.text(g, 1, 3)) } else { w.parser(g) }).collect();
    let ends = below.is_empty() || g.chance(2, 3);
    let single = |g: &mut Gen, i: usize, t: &[Tok]| {
        let cp = build(g, t);
        pattern(i, cp, &Meta::default(), None)
    };
    let mut child = None;
    if !below.is_empty() {
        let mut t = SuffixTree::new();
        for (i, x) in below.iter().enumerate() {
            let p = single(g, i + 2, &[x.clone()]);
            t.add_pattern(p);
        }
        child = Some(t);
    }
    out.desc = format!("node {:?} (a pattern: {}) above {}, split after {} for {:?}", a, ends, show(&below), k, b);
    out.nontrivial = !below.is_empty();
    out.label("split by hand");
    // by insertion
    let mut ordinary = SuffixTree::new();
    {
        let node = ordinary.insert_literal(&a);
        if ends {
            let p = single(g, 0, &[]);
            node.set_pattern(Some(p));
        }
        node.set_child(child.clone());
    }
    let p = single(g, 1, &[]);
    ordinary.insert_literal(&b).set_pattern(Some(p));
    // by hand
    let mut node = LiteralNode::new(a.clone());
    node.set_has_value(true);
    if ends {
        let p = single(g, 0, &[]);
        node.set_pattern(Some(p));
    }
    node.set_node(child);
    node.split(k, &b);
    out.checks += 1;
    if node.literal() != &a[..k] || node.has_value() || node.pattern().is_some() || node.is_leaf() || node.node().is_none() {
        return viol("split node", format!("{}: afterwards the node is {:?}", out.desc, node));
    }
    if g.chance(1, 4) {
        node = node.clone();
    }
    let found = node.node().map(|n| (n.lookup_literal(&a[k..]).is_ok(), n.lookup_literal(&b[k..]).is_ok()));
    if found != Some((true, true)) {
        return viol("split node", format!("{}: the rests are found below it: {:?}", out.desc, found));
    }
    let p = single(g, 1, &[]);
    node.node_mut().unwrap().insert_literal(&b[k..]).set_pattern(Some(p));
    let mut tree = SuffixTree::new();
    tree.add_literal_node(node);
    let mut msgs = vec![a.clone(), b.clone(), a[..k].to_owned(), a[k..].to_owned()];
    for x in &below {
        let mut m = a.clone();
        w.sample_tok(g, x, &mut m);
        msgs.push(m);
        let mut m = b.clone();
        w.sample_tok(g, x, &mut m);
        msgs.push(m);
    }
    msgs.push(w.mutate(g, &a));
    msgs.push(w.look_alike(g, &b));
    for m in &msgs {
        out.checks += 1;
        let (x, y) = (told(tree.parse(m)), told(ordinary.parse(m)));
        if x != y {
            return viol("split by hand", format!("{}: message {:?} gives {:?}, after insertion {:?}", out.desc, m, x, y));
        }
    }
    // what ends at the first literal is found there
    let want = if ends { Some(uuid_of(0).hyphenated().to_string()) } else { None };
    let got = told(tree.parse(&a)).map(|x| x.0);
    if ends && got != want {
        return viol("split by hand", format!("{}: {:?} gives {:?}", out.desc, a, got));
    }
    Ok(())
}

fn common(a: &str, b: &str) -> usize {
    a.chars().zip(b.chars()).take_while(|x| x.0 == x.1).map(|x| x.0.len_utf8()).sum()
}

fn c34(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut w = World::new(g, true);
    let mut pats = w.patterns(g);
    if g.bool() {
        // literals made of one another
        for _ in 0..g.range(1, 12) {
            let l = match g.pick(&pats).iter().find(|t| t.is_lit()) {
                Some(&Tok::Lit(ref l)) => l.clone(),
                _ => w.text(g, 1, 4),
            };
            let l = match g.below(4) {
                0 => format!("{}{}", l, w.text(g, 1, 3)),
                1 => w.look_alike(g, &l),
                2 => w.mutate(g, &l),
                _ => {
                    let b: Vec<usize> = l.char_indices().map(|x| x.0).chain(Some(l.len())).collect();
                    l[..*g.pick(&b)].to_owned()
                }
            };
            pats.push(vec![Tok::Lit(l)]);
        }
    }
    if g.chance(1, 40) {
        pats.clear();
    }
    let mut m = SuffixArrayMatcherFactory::new_matcher();
    let mut lits: BTreeSet<String> = BTreeSet::new();
    for (i, p) in pats.iter().enumerate() {
        let cp = build(g, p);
        if let Some(&TokenType::Literal(ref l)) = cp.iter().next() {
            lits.insert(l.clone());
        }
        m.add_pattern(pattern(i, cp, &Meta::default(), None));
        if g.chance(1, 12) {
            m = m.clone();
        }
    }
    out.desc = format!("literals {:?}", lits);
    let lits: Vec<String> = lits.into_iter().collect();
    // an entry is known by where it is
    let mut at: BTreeMap<usize, &str> = BTreeMap::new();
    for l in &lits {
        out.checks += 1;
        match m.longest_common_prefix(l) {
            None => return viol("no entry", format!("{:?}: nothing is near {:?}, although it was added", lits, l)),
            Some(e) => if let Some(k) = at.insert(e as *const _ as *const u8 as usize, l) {
                return viol("same entry", format!("{:?}: the entry nearest to {:?} and that nearest to {:?} are the same", lits, k, l));
            },
        }
    }
    let mut other = false;
    for _ in 0..g.range(3, 12) {
        let v = if lits.is_empty() || g.chance(1, 5) { w.any_text(g, 5) } else {
            let l = g.pick(&lits).clone();
            match g.below(5) {
                0 => format!("{}{}", l, w.text(g, 1, 3)),
                1 => w.look_alike(g, &l),
                2 => w.mutate(g, &l),
                3 => l,
                _ => {
                    let b: Vec<usize> = l.char_indices().map(|x| x.0).chain(Some(l.len())).collect();
                    l[..*g.pick(&b)].to_owned()
                }
            }
        };
        out.desc.push_str(&format!(" {:?}", v));
        other |= !lits.contains(&v);
        out.checks += 1;
        let best = lits.iter().map(|l| common(l, &v)).max();
        let got = m.longest_common_prefix(&v).map(|e| at.get(&(e as *const _ as *const u8 as usize)));
        match (got, best) {
            (None, None) => {}
            (Some(Some(l)), Some(n)) if common(l, &v) == n => {}
            (got, best) => return viol("not the nearest", format!("{:?}: nearest to {:?} is said to be {:?}, but {:?} bytes can be shared", lits, v, got, best)),
        }
    }
    out.nontrivial = lits.len() >= 3 && other;
    Ok(())
}
