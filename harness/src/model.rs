//! Independent reference model of patterns and matching, written from the README.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tok {
    Lit(String),
    Set { set: String, min: Option<usize>, max: Option<usize>, name: Option<String> },
    Int { min: Option<usize>, max: Option<usize>, name: Option<String> },
    Greedy { name: Option<String>, end: Option<String> },
    /// a parser that the caller defines
    Other { kind: OtherKind, name: Option<String> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OtherKind {
    /// exactly so many characters
    Fixed(usize),
    /// the text before the last occurrence
    BeforeLast(String),
    /// as many of these characters as there are, also none
    AnyNumber(String),
    /// this text or nothing
    Optional(String),
    /// never
    Nothing,
}

pub fn other_len(k: &OtherKind, text: &str) -> Option<usize> {
    match *k {
        OtherKind::Fixed(n) => {
            let mut len = 0;
            let mut it = text.chars();
            for _ in 0..n {
                match it.next() {
                    Some(c) => len += c.len_utf8(),
                    None => return None,
                }
            }
            Some(len)
        }
        OtherKind::BeforeLast(ref e) => text.rfind(&e[..]),
        OtherKind::AnyNumber(ref set) => Some(text.chars().take_while(|c| set.contains(*c)).map(|c| c.len_utf8()).sum()),
        OtherKind::Optional(ref t) => Some(if text.starts_with(&t[..]) { t.len() } else { 0 }),
        OtherKind::Nothing => None,
    }
}

impl Tok {
    pub fn name(&self) -> Option<&str> {
        match *self {
            Tok::Lit(_) => None,
            Tok::Set { ref name, .. } | Tok::Int { ref name, .. } | Tok::Greedy { ref name, .. } | Tok::Other { ref name, .. } => {
                name.as_ref().map(|x| &x[..])
            }
        }
    }
    pub fn is_lit(&self) -> bool {
        if let Tok::Lit(_) = *self { true } else { false }
    }
    /// canonical form: parsers that are configured alike compare equal
    pub fn canon(&self) -> Tok {
        match *self {
            Tok::Set { ref set, min, max, ref name } => {
                let mut cs: Vec<char> = set.chars().collect();
                cs.sort();
                cs.dedup();
                Tok::Set { set: cs.into_iter().collect(), min: min, max: max, name: name.clone() }
            }
            ref x => x.clone(),
        }
    }
}

pub fn canon(p: &[Tok]) -> Vec<Tok> {
    p.iter().map(|t| t.canon()).collect()
}

/// byte length consumed by a SET over these characters
pub fn set_len(text: &str, is_in: &dyn Fn(char) -> bool, min: Option<usize>, max: Option<usize>) -> Option<usize> {
    let mut chars = 0;
    let mut bytes = 0;
    for c in text.chars() {
        if !is_in(c) {
            break;
        }
        chars += 1;
        bytes += c.len_utf8();
    }
    if chars == 0 || min.map_or(false, |m| chars < m) || max.map_or(false, |m| chars > m) {
        None
    } else {
        Some(bytes)
    }
}

/// naive first occurrence
pub fn find_first(text: &str, needle: &str) -> Option<usize> {
    let t = text.as_bytes();
    let n = needle.as_bytes();
    if n.len() > t.len() {
        return None;
    }
    let mut i = 0;
    while i + n.len() <= t.len() {
        if &t[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// byte length consumed by one token at the start of the text
pub fn tok_len(t: &Tok, text: &str) -> Option<usize> {
    match *t {
        Tok::Lit(ref l) => if text.as_bytes().starts_with(l.as_bytes()) { Some(l.len()) } else { None },
        Tok::Set { ref set, min, max, .. } => set_len(text, &|c| set.contains(c), min, max),
        Tok::Int { min, max, .. } => set_len(text, &|c| c >= '0' && c <= '9', min, max),
        Tok::Greedy { end: Some(ref e), .. } => find_first(text, e),
        Tok::Greedy { end: None, .. } => Some(text.len()),
        Tok::Other { ref kind, .. } => other_len(kind, text),
    }
}

/// The pieces each token consumes if the pattern fits the whole message.
pub fn fit<'m>(p: &[Tok], msg: &'m str) -> Option<Vec<&'m str>> {
    let mut rest = msg;
    let mut out = Vec::with_capacity(p.len());
    for t in p {
        match tok_len(t, rest) {
            Some(n) => {
                out.push(&rest[..n]);
                rest = &rest[n..];
            }
            None => return None,
        }
    }
    if rest.is_empty() { Some(out) } else { None }
}

pub fn values<'p, 'm>(p: &'p [Tok], pieces: &[&'m str]) -> BTreeMap<&'p str, &'m str> {
    let mut m = BTreeMap::new();
    for (t, v) in p.iter().zip(pieces) {
        if let Some(n) = t.name() {
            m.entry(n).or_insert(*v);
        }
    }
    m
}

/// Index of the pattern that wins among `pats` (in insertion order, canonical) for the message.
pub fn winner(pats: &[Vec<Tok>], msg: &str) -> Option<usize> {
    let fits: Vec<usize> = (0..pats.len()).filter(|i| fit(&pats[*i], msg).is_some()).collect();
    let mut best: Option<usize> = None;
    for i in fits {
        best = Some(match best {
            None => i,
            Some(b) => if beats(pats, i, b) { i } else { b },
        });
    }
    best
}

fn beats(pats: &[Vec<Tok>], a: usize, b: usize) -> bool {
    let (p, q) = (&pats[a], &pats[b]);
    let mut i = 0;
    while i < p.len() && i < q.len() && p[i] == q[i] {
        i += 1;
    }
    if i == p.len() && i == q.len() {
        return a > b; // identical: the one added last
    }
    if i == p.len() {
        return true;
    }
    if i == q.len() {
        return false;
    }
    match (&p[i], &q[i]) {
        (&Tok::Lit(ref x), &Tok::Lit(ref y)) => x.len() > y.len(),
        (&Tok::Lit(_), _) => true,
        (_, &Tok::Lit(_)) => false,
        (x, y) => {
            let first = |t: &Tok| {
                pats.iter().position(|r| r.len() > i && r[..i] == p[..i] && &r[i] == t).unwrap()
            };
            first(x) < first(y)
        }
    }
}

// ---------------------------------------------------------------- pattern syntax

pub fn escape(l: &str) -> String {
    l.replace("%{", "\\%\\{")
}

pub fn unescape(l: &str) -> String {
    let mut out = String::new();
    let mut rest = l;
    while !rest.is_empty() {
        if rest.starts_with("\\%\\{") {
            out.push_str("%{");
            rest = &rest[4..];
        } else {
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(Vec<Tok>),
    /// byte offset where the first malformed piece starts
    Reject(usize),
    /// text whose status README, grammar and tests do not agree on
    Unspecified,
}

struct Rd<'a> {
    s: &'a str,
    p: usize,
}

impl<'a> Rd<'a> {
    fn eat(&mut self, x: &str) -> bool {
        if self.s[self.p..].starts_with(x) {
            self.p += x.len();
            true
        } else {
            false
        }
    }
    fn peek(&self) -> Option<char> {
        self.s[self.p..].chars().next()
    }
}

enum Bad {
    Reject,
    Unspecified,
}

fn rd_name(r: &mut Rd) -> Result<Option<String>, Bad> {
    if !r.eat(":") {
        return Ok(None);
    }
    let start = r.p;
    while let Some(c) = r.peek() {
        if c == '-' {
            return Err(Bad::Unspecified);
        }
        let ok = c.is_ascii_alphabetic() || c == '_' || c == '.' || (r.p > start && c.is_ascii_digit());
        if !ok {
            break;
        }
        r.p += 1;
    }
    if r.p == start {
        if r.peek().map_or(false, |c| c.is_ascii_digit()) {
            // README allows digits anywhere, the grammar not in front
            return Err(Bad::Unspecified);
        }
        return Err(Bad::Reject);
    }
    Ok(Some(r.s[start..r.p].to_owned()))
}

fn rd_param(r: &mut Rd) -> Result<Option<(bool, usize)>, Bad> {
    let save = r.p;
    let is_min = if r.eat("min_len=") {
        true
    } else if r.eat("max_len=") {
        false
    } else {
        return Ok(None);
    };
    let start = r.p;
    while r.peek().map_or(false, |c| c.is_ascii_digit()) {
        r.p += 1;
    }
    if start == r.p {
        r.p = save;
        return Ok(None);
    }
    match r.s[start..r.p].parse::<usize>() {
        Ok(v) => Ok(Some((is_min, v))),
        Err(_) => Err(Bad::Reject),
    }
}

fn rd_comma(r: &mut Rd) -> bool {
    if !r.eat(",") {
        return false;
    }
    while r.eat(" ") {}
    true
}

/// param (comma param)*, possibly none
fn rd_params(r: &mut Rd, min: &mut Option<usize>, max: &mut Option<usize>) -> Result<usize, Bad> {
    let mut n = 0;
    loop {
        let save = r.p;
        if n > 0 && !rd_comma(r) {
            break;
        }
        match rd_param(r)? {
            Some((true, v)) => *min = Some(v),
            Some((false, v)) => *max = Some(v),
            None => {
                r.p = save;
                break;
            }
        }
        n += 1;
    }
    Ok(n)
}

fn rd_parser(r: &mut Rd) -> Result<Tok, Bad> {
    if !r.eat("%{") {
        return Err(Bad::Reject);
    }
    let (mut min, mut max) = (None, None);
    let tok = if r.eat("GREEDY") {
        let name = rd_name(r)?;
        Tok::Greedy { name: name, end: None }
    } else if r.eat("SET") {
        if !r.eat("(\"") {
            return Err(Bad::Reject);
        }
        let start = r.p;
        while r.peek().map_or(false, |c| c != '"') {
            r.p += r.peek().unwrap().len_utf8();
        }
        let set = r.s[start..r.p].to_owned();
        if set.is_empty() || !r.eat("\"") {
            return Err(Bad::Reject);
        }
        if rd_comma(r) {
            if rd_params(r, &mut min, &mut max)? == 0 && r.s[r.p..].starts_with(")") {
                // a comma with nothing behind it: accidental leniency of the grammar
                return Err(Bad::Unspecified);
            }
        }
        if !r.eat(")") {
            return Err(Bad::Reject);
        }
        let name = rd_name(r)?;
        Tok::Set { set: set, min: min, max: max, name: name }
    } else if r.eat("INT") {
        if r.eat("(") {
            let n = rd_params(r, &mut min, &mut max)?;
            if !r.eat(")") {
                return Err(Bad::Reject);
            }
            if n == 0 {
                return Err(Bad::Unspecified);
            }
        }
        let name = rd_name(r)?;
        Tok::Int { min: min, max: max, name: name }
    } else {
        return Err(Bad::Reject);
    };
    if !r.eat("}") {
        return Err(Bad::Reject);
    }
    Ok(tok)
}

/// Recogniser for the pattern syntax.
pub fn compile(s: &str) -> Verdict {
    if s.is_empty() {
        return Verdict::Reject(0);
    }
    let mut r = Rd { s: s, p: 0 };
    let mut toks: Vec<Tok> = Vec::new();
    while r.p < s.len() {
        let start = r.p;
        if s[r.p..].starts_with("%{") {
            match rd_parser(&mut r) {
                Ok(t) => toks.push(t),
                Err(Bad::Reject) => return Verdict::Reject(start),
                Err(Bad::Unspecified) => return Verdict::Unspecified,
            }
        } else {
            let end = find_first(&s[r.p..], "%{").map_or(s.len(), |i| r.p + i);
            let lit = unescape(&s[r.p..end]);
            r.p = end;
            if let Some(&mut Tok::Greedy { ref mut end, .. }) = toks.last_mut() {
                *end = Some(lit.clone());
            }
            toks.push(Tok::Lit(lit));
        }
    }
    Verdict::Accept(toks)
}
