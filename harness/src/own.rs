//! A matcher, parsers and a parser factory as a caller could implement them.

use crate::model::{tok_len, Tok};
use actiondb::matcher::compiled_pattern::{CompiledPattern, TokenType};
use actiondb::matcher::result::MatchResult;
use actiondb::matcher::{Matcher, MatcherFactory, Pattern};
use actiondb::parsers::{ObjectSafeHash, OptionalParameter, ParseResult, Parser, ParserFactory};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use uuid::Uuid;

/// The simplest matcher: of the patterns that fit, the last one added.
#[derive(Debug, Clone)]
pub struct OwnMatcher {
    pats: Vec<(Pattern, CompiledPattern)>,
}

pub struct OwnFactory;

thread_local! {
    /// what was added to matchers of the caller's own
    static ADDED: RefCell<Vec<Uuid>> = RefCell::new(vec![]);
}

pub fn take_added() -> Vec<Uuid> {
    ADDED.with(|a| std::mem::replace(&mut *a.borrow_mut(), vec![]))
}

impl MatcherFactory for OwnFactory {
    type Matcher = OwnMatcher;
    fn new_matcher() -> OwnMatcher {
        OwnMatcher { pats: vec![] }
    }
}

impl Matcher for OwnMatcher {
    fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
        for &(ref p, ref toks) in self.pats.iter().rev() {
            let mut rest = text;
            let mut found = vec![];
            let fits = toks.iter().all(|t| match *t {
                TokenType::Literal(ref l) => {
                    let ok = rest.starts_with(&l[..]);
                    if ok {
                        rest = &rest[l.len()..];
                    }
                    ok
                }
                TokenType::Parser(ref parser) => match parser.parse(rest) {
                    Some(r) => {
                        let left = rest.get(r.value().len()..);
                        rest = left.unwrap_or("");
                        found.push(r);
                        left.is_some()
                    }
                    None => false,
                },
            });
            if fits && rest.is_empty() {
                let mut result = MatchResult::new(p);
                while let Some(r) = found.pop() {
                    result.insert(r);
                }
                return Some(result);
            }
        }
        None
    }
    fn add_pattern(&mut self, pattern: Pattern) {
        ADDED.with(|a| a.borrow_mut().push(*pattern.uuid()));
        let toks = pattern.pattern().clone();
        self.pats.push((pattern, toks));
    }
    fn boxed_clone(&self) -> Box<dyn Matcher> {
        Box::new(self.clone())
    }
}

/// A parser of the caller's own: does what the model says. Alike if the tokens are equal.
#[derive(Clone)]
pub struct OwnParser(pub Tok);

/// tells nothing about the parser if it is identified by a number
impl fmt::Debug for OwnParser {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if IDENTITY.with(|i| i.borrow().0) == 0 {
            write!(f, "OwnParser({:?})", self.0)
        } else {
            f.write_str("OwnParser")
        }
    }
}

thread_local! {
    /// how the identities of the caller's parsers are made, and the parsers numbered so far
    static IDENTITY: RefCell<(u64, HashMap<Tok, u64>)> = RefCell::new((0, HashMap::new()));
}

/// starts numbering anew: 0 means hashes, other styles numbers that differ in a few bits only
pub fn set_identity_style(style: u64) {
    IDENTITY.with(|i| *i.borrow_mut() = (style, HashMap::new()));
}

impl ObjectSafeHash for OwnParser {
    fn hash_os(&self) -> u64 {
        let number = IDENTITY.with(|i| {
            let (style, ref mut toks) = *i.borrow_mut();
            if style == 0 {
                return None;
            }
            let next = toks.len() as u64;
            let n = match toks.get(&self.0).cloned() {
                Some(n) => n,
                None => {
                    toks.insert(self.0.clone(), next);
                    next
                }
            };
            Some(match style {
                1 => n,
                2 => n << 32,
                3 => n << 48,
                4 => !n,
                _ => n.wrapping_mul(0x1_0000_0001),
            })
        });
        if let Some(n) = number {
            return n;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.0.hash(&mut h);
        h.finish()
    }
}

thread_local! {
    /// calls of the caller's parsers and how many of them are answered; all later ones fail
    static CALLS: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, u64::MAX));
}

/// counts the calls from now on
pub fn count_calls(limit: u64) {
    CALLS.with(|c| c.set((0, limit)));
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get().0)
}

impl Parser for OwnParser {
    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
        let (n, limit) = CALLS.with(|c| c.get());
        CALLS.with(|c| c.set((n + 1, limit)));
        if n >= limit {
            return None;
        }
        tok_len(&self.0, value).map(|n| ParseResult::new(self, &value[..n]))
    }
    fn name(&self) -> Option<&str> {
        self.0.name()
    }
    fn set_name(&mut self, new: Option<String>) {
        match self.0 {
            Tok::Lit(_) => {}
            Tok::Set { ref mut name, .. } | Tok::Int { ref mut name, .. } | Tok::Greedy { ref mut name, .. } | Tok::Other { ref mut name, .. } => *name = new,
        }
    }
    fn boxed_clone(&self) -> Box<dyn Parser> {
        Box::new(self.clone())
    }
}

/// Makes the caller's own parsers from written ones.
pub struct OwnParserFactory;

fn own_limits(ps: Option<Vec<OptionalParameter>>) -> (Option<usize>, Option<usize>) {
    let (mut min, mut max) = (None, None);
    for p in ps.into_iter().flat_map(|x| x) {
        let OptionalParameter::Int(k, v) = p;
        match k {
            "min_len" => min = Some(v),
            "max_len" => max = Some(v),
            // shows up as a difference
            _ => min = Some(987_654_321),
        }
    }
    (min, max)
}

impl ParserFactory for OwnParserFactory {
    fn new_set<'a>(set: &str, name: Option<&str>, ps: Option<Vec<OptionalParameter<'a>>>) -> Box<dyn Parser> {
        let (min, max) = own_limits(ps);
        Box::new(OwnParser(Tok::Set { set: set.to_owned(), min: min, max: max, name: name.map(|x| x.to_owned()) }))
    }
    fn new_int(name: Option<&str>, ps: Option<Vec<OptionalParameter>>) -> Box<dyn Parser> {
        let (min, max) = own_limits(ps);
        Box::new(OwnParser(Tok::Int { min: min, max: max, name: name.map(|x| x.to_owned()) }))
    }
    fn new_greedy(name: Option<&str>, end: Option<&str>) -> Box<dyn Parser> {
        Box::new(OwnParser(Tok::Greedy { name: name.map(|x| x.to_owned()), end: end.map(|x| x.to_owned()) }))
    }
}
