//! Generators for texts, patterns, pattern sets and messages.

use std::cell::Cell;
use crate::model::{canon, escape, unescape, OtherKind, Tok};
use crate::tape::Gen;

pub const BOUNDS: [usize; 30] = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097];

const MULTI: [char; 16] = ['é', 'ã', '¡', '®', '¢', '€', '₭', '∂', '😀', '😁', 'ñ', '日', '本', 'ő', '\u{7ff}', '\u{10ffff}'];
const SPECIAL: [char; 24] = ['%', '{', '}', '\\', '"', '\n', '\r', '\t', '\0', '(', ')', ',', '=', '\'', ':', '-', '\u{feff}', '\u{85}', '\u{2028}', '\u{7f}', '\u{301}', '\u{fffd}', '#', '\u{a0}'];

/// per-case text world: alphabet and pools that make strings collide
pub struct World {
    pub alpha: Vec<char>,
    lits: Vec<String>,
    toks: Vec<Tok>,
    names: Vec<String>,
    /// names, end strings and token sequences that only the builder API can express
    pub free: bool,
    pub big: bool,
    huge: Cell<bool>,
    /// parsers that the caller defines
    pub own_parsers: bool,
}

fn any_char(g: &mut Gen) -> char {
    loop {
        let v = match g.below(4) {
            0 => g.below(0x80),
            1 => g.below(0x800),
            2 => g.below(0x10000),
            _ => g.below(0x110000),
        };
        if let Some(c) = char::from_u32(v as u32) {
            return c;
        }
    }
}

/// a piece of a log message
fn words(g: &mut Gen) -> String {
    let mut s = String::new();
    for i in 0..g.range(1, 5) {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(*g.pick(&["user", "User", "login", "from", "accepted", "Accepted", "password", "for", "port", "id=", "[", "]:", "sshd", "GET /", "größe", "100%", "a"]));
    }
    s
}

impl World {
    pub fn new(g: &mut Gen, free: bool) -> World {
        let mut alpha: Vec<char> = match g.below(5) {
            4 => "aAbB12 ".chars().collect(),
            0 => "ab1".chars().collect(),
            1 => "a1 :".chars().collect(),
            2 => "abcx012 :".chars().collect(),
            _ => "abcdefgijklmoprstuz0123456789 :./[]-_=,".chars().collect(),
        };
        match g.weighted(&[50, 25, 15, 10]) {
            0 => {}
            1 => {
                for _ in 0..g.range(1, 5) {
                    alpha.push(*g.pick(&MULTI));
                }
            }
            2 => {
                for _ in 0..g.range(1, 5) {
                    alpha.push(*g.pick(&SPECIAL));
                }
                if g.bool() {
                    alpha.extend("%{\\".chars());
                }
            }
            _ => {
                for _ in 0..g.range(1, 8) {
                    match g.below(3) {
                        0 => alpha.push(*g.pick(&MULTI)),
                        1 => alpha.push(*g.pick(&SPECIAL)),
                        _ => {
                            let c = any_char(g);
                            alpha.push(c)
                        }
                    }
                }
            }
        }
        let big = g.chance(1, 12);
        let huge = Cell::new(big && g.chance(1, 1500));
        World { alpha: alpha, lits: vec![], toks: vec![], names: vec![], free: free, big: big, huge: huge, own_parsers: false }
    }

    /// once in a while, the length of one text of more than a mebibyte
    pub fn huge(&self, g: &mut Gen) -> Option<usize> {
        if self.huge.get() && g.chance(1, 3) {
            self.huge.set(false);
            return Some((1 << 20) * g.range(1, 2) + g.range(0, 70_000));
        }
        None
    }

    pub fn ch(&self, g: &mut Gen) -> char {
        *g.pick(&self.alpha)
    }

    pub fn text(&self, g: &mut Gen, lo: usize, hi: usize) -> String {
        let n = g.range(lo, hi);
        (0..n).map(|_| self.ch(g)).collect()
    }

    /// a long text made of a repeated unit, of a size around a boundary
    pub fn long_text(&self, g: &mut Gen) -> String {
        let unit = self.text(g, 1, 3);
        if let Some(n) = self.huge(g) {
            return unit.chars().cycle().take(n).collect();
        }
        let n = if g.chance(1, 80) { *g.pick(&[8191usize, 16384, 32768, 65535, 65536, 65537, 70000]) } else { *g.pick(&BOUNDS) };
        unit.chars().cycle().take(n).collect()
    }

    /// free text for values, tags, names: anything
    pub fn any_text(&self, g: &mut Gen, hi: usize) -> String {
        match g.weighted(&[6, 3, 1]) {
            0 => self.text(g, 0, hi),
            1 => {
                let n = g.range(0, hi);
                (0..n).map(|_| *g.pick(&['a', 'k', 'v', '1', ' ', '.', 'é', '"', '\\', '\n', ':', '{', '😀'])).collect()
            }
            _ => if self.big { self.long_text(g) } else { self.text(g, 0, hi) },
        }
    }

    fn lit(&mut self, g: &mut Gen) -> String {
        let l = match g.weighted(&[30, 15, 45, 2, 6]) {
            0 => self.text(g, 1, 3),
            1 => self.text(g, 1, 8),
            2 if !self.lits.is_empty() => {
                let base = g.pick(&self.lits).clone();
                self.mutate(g, &base)
            }
            3 if self.big => self.long_text(g),
            4 => if g.bool() { self.text(g, 9, 40) } else { words(g) },
            _ => self.text(g, 1, 4),
        };
        if l.is_empty() { "a".to_owned() } else { l }
    }

    /// a string related to `base`: extension, prefix, changed character, itself
    pub fn mutate(&self, g: &mut Gen, base: &str) -> String {
        let cs: Vec<char> = base.chars().collect();
        match g.below(7) {
            6 => self.look_alike(g, base),
            0 => base.to_owned(),
            1 => cs[..g.range(0, cs.len())].iter().collect(),
            2 => {
                let mut s = base.to_owned();
                s.push_str(&self.text(g, 1, 3));
                s
            }
            3 => {
                let k = g.range(0, cs.len());
                let mut s: String = cs[..k].iter().collect();
                s.push_str(&self.text(g, 1, 2));
                s
            }
            4 => {
                let k = g.range(0, cs.len());
                let mut s: String = cs[..k].iter().collect();
                s.push(self.ch(g));
                s.extend(cs[k..].iter());
                s
            }
            _ => {
                let mut cs = cs;
                if !cs.is_empty() {
                    // long texts are often told apart by their beginning alone
                    let k = if cs.len() > 300 && g.bool() { cs.len() - 1 - g.range(0, 3) } else { g.range(0, cs.len() - 1) };
                    if g.chance(1, 3) {
                        cs.remove(k);
                    } else {
                        cs[k] = self.ch(g);
                    }
                }
                cs.into_iter().collect()
            }
        }
    }

    /// a string that a careless comparison takes for `base`
    pub fn look_alike(&self, g: &mut Gen, base: &str) -> String {
        let mut cs: Vec<char> = base.chars().collect();
        let flip = |c: char| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
        match g.below(11) {
            10 => {
                // another character of the same kind
                let hot: Vec<usize> = (0..cs.len()).filter(|i| !cs[*i].is_ascii_alphabetic()).collect();
                if !hot.is_empty() {
                    let k = *g.pick(&hot);
                    cs[k] = match cs[k] {
                        c if c.is_whitespace() => *g.pick(&['\t', ' ', '\n', '\r', '\u{b}', '\u{a0}', '\u{3000}', '\u{200b}']),
                        c if c.is_numeric() => *g.pick(&['0', '1', '٣', '１', '²', '½', '𝟙', 'O', 'l']),
                        'é' => 'e',
                        'ñ' => 'n',
                        'ő' => 'ö',
                        '-' => *g.pick(&['\u{ad}', '–', '_', '−']),
                        '.' => *g.pick(&['…', ',', 'x', '．']),
                        '/' => '\\',
                        '"' => '\'',
                        c if c as u32 > 0x7f => '?',
                        c => char::from_u32(c as u32 + 0xfee0).unwrap_or('?'),
                    };
                }
                cs.into_iter().collect()
            }
            0 => cs.iter().map(|c| flip(*c)).collect(),
            1 => base.to_lowercase(),
            2 => base.to_uppercase(),
            3 => {
                if !cs.is_empty() {
                    let k = g.range(0, cs.len() - 1);
                    cs[k] = flip(cs[k]);
                }
                cs.into_iter().collect()
            }
            4 => format!("{}{}", base, *g.pick(&[" ", "\n", "\t", "\0", "\r\n", "\u{301}", "\u{feff}"])),
            5 => format!("{}{}", *g.pick(&[" ", "\n", "\t", "\u{feff}", "0", "+"]), base),
            6 => base.trim().to_owned(),
            7 => {
                if cs.len() > 1 {
                    let k = g.range(0, cs.len() - 2);
                    cs.swap(k, k + 1);
                }
                cs.into_iter().collect()
            }
            8 => {
                // same low byte
                if !cs.is_empty() {
                    let k = g.range(0, cs.len() - 1);
                    cs[k] = char::from_u32(cs[k] as u32 ^ *g.pick(&[0x100u32, 0x10000, 0x80, 0x20, 1])).unwrap_or('x');
                }
                cs.into_iter().collect()
            }
            _ => {
                // one blank more or less
                match cs.iter().position(|c| *c == ' ') {
                    Some(k) if g.bool() => {
                        cs.remove(k);
                    }
                    Some(k) => cs.insert(k, ' '),
                    None => cs.reverse(),
                }
                cs.into_iter().collect()
            }
        }
    }

    pub fn name(&mut self, g: &mut Gen) -> Option<String> {
        if g.chance(1, 5) {
            return None;
        }
        if !self.names.is_empty() && g.chance(1, 2) {
            return Some(g.pick(&self.names).clone());
        }
        let n = match g.weighted(&[10, 5, 1]) {
            0 => (*g.pick(&["a", "b", "k1", ".x.y", "_n", "A_b.C9", "ab", "a.b", "B", "_"])).to_owned(),
            1 => {
                let first = *g.pick(&['a', 'b', 'Z', '_', '.']);
                let mut s = first.to_string();
                for _ in 0..g.range(0, 6) {
                    s.push(*g.pick(&['a', 'z', 'A', 'Z', '0', '9', '_', '.']));
                }
                s
            }
            _ => {
                if self.big {
                    let n = *g.pick(&BOUNDS);
                    "nameX_1.".chars().cycle().take(n).collect()
                } else if self.free {
                    self.any_text(g, 4)
                } else {
                    "n".to_owned()
                }
            }
        };
        self.names.push(n.clone());
        Some(n)
    }

    pub fn limit(&self, g: &mut Gen) -> Option<usize> {
        match g.weighted(&[50, 40, 2, 1]) {
            0 => None,
            1 => Some(g.range(0, 4)),
            2 => Some(*g.pick(&BOUNDS)),
            _ => Some(*g.pick(&[65535, 65536, 65537, 4294967295, 4294967296, usize::MAX - 1, usize::MAX])),
        }
    }

    /// most of a range of characters
    pub fn wide_set(&self, g: &mut Gen) -> String {
        let first = *g.pick(&[0x20u32, 0x20, 0x30, 0x41, 0x61, 0x7f, 0xa0, 0xc0, 0x400, 0x7c0, 0xffc0, 0x1f600, 0]);
        let n = if g.chance(1, 12) { g.range(200, 600) } else { g.range(12, 100) };
        let mut cs: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32(first + i)).collect();
        for _ in 0..g.range(0, 3) {
            if cs.len() > 1 {
                let i = g.range(0, cs.len() - 1);
                cs.remove(i);
            }
        }
        match g.below(3) {
            0 => cs.reverse(),
            1 => cs.extend(self.text(g, 0, 2).chars()),
            _ => {}
        }
        cs.into_iter().collect()
    }

    pub fn set_chars(&self, g: &mut Gen) -> String {
        if g.chance(1, 25) {
            let s = self.wide_set(g);
            return if self.free { s } else { s.chars().filter(|c| *c != '"').collect() };
        }
        let s: String = match g.below(8) {
            // means only its characters, whatever it looks like
            7 => (*g.pick(&["a-z", "0-9", "a-c", "a-zA-Z0-9", "^ab", "^0-9", "\\d", "\\w+", "[ab]", "a..z", "[:alpha:]", "*", "?", ".", "a|b", "\\n", "\\", "-", "é-ö", "a,b", "%{", "0x"])).to_owned(),
            0 => "0123456789".to_owned(),
            1 => "abcdefghijklmnopqrstuvwxyz".to_owned(),
            2 => "01".to_owned(),
            3 => "0123456789abcdefABCDEF".to_owned(),
            _ => self.text(g, 1, 4),
        };
        let s: String = if self.free { s } else { s.chars().filter(|c| *c != '"').collect() };
        if s.is_empty() { "ab".to_owned() } else { s }
    }

    fn other_kind(&self, g: &mut Gen) -> OtherKind {
        match g.below(9) {
            0 | 1 => OtherKind::Fixed(g.range(0, 4)),
            2 | 3 => OtherKind::BeforeLast(self.text(g, 1, 2)),
            4 | 5 => OtherKind::AnyNumber(self.set_chars(g)),
            6 | 7 => OtherKind::Optional(self.text(g, 1, 2)),
            _ => OtherKind::Nothing,
        }
    }

    fn fresh_parser(&mut self, g: &mut Gen) -> Tok {
        if self.own_parsers && g.chance(2, 3) {
            return Tok::Other { kind: self.other_kind(g), name: self.name(g) };
        }
        match g.weighted(&[35, 35, 30]) {
            0 => Tok::Int { min: self.limit(g), max: self.limit(g), name: self.name(g) },
            1 => Tok::Set { set: self.set_chars(g), min: self.limit(g), max: self.limit(g), name: self.name(g) },
            _ => {
                let end = if self.free {
                    match g.below(3) {
                        0 => None,
                        1 => Some(self.text(g, 0, 2)),
                        _ => Some(self.lit(g)),
                    }
                } else {
                    None
                };
                Tok::Greedy { name: self.name(g), end: end }
            }
        }
    }

    /// changes one attribute of a parser
    pub fn tweak(&mut self, g: &mut Gen, t: &Tok) -> Tok {
        match t.clone() {
            Tok::Lit(l) => {
                let m = self.mutate(g, &l);
                Tok::Lit(if m.is_empty() { l } else { m })
            }
            Tok::Set { set, min, max, name } => match g.below(6) {
                0 => Tok::Set { set: set, min: min, max: max, name: self.name(g) },
                1 => Tok::Set { set: set, min: self.limit(g), max: max, name: name },
                2 => Tok::Set { set: set, min: min, max: self.limit(g), name: name },
                3 => Tok::Set { set: self.set_chars(g), min: min, max: max, name: name },
                4 => Tok::Set { set: set, min: max, max: min, name: name },
                _ => {
                    let mut cs: Vec<char> = set.chars().collect();
                    if g.bool() {
                        cs.reverse();
                    } else if g.bool() && !cs.is_empty() {
                        // a character related to one of the set, instead of it or besides
                        let at = g.range(0, cs.len() - 1);
                        let c = cs[at];
                        let d = *g.pick(&[1u32, 2, 16, 32, 64, 128, 256, 512, 1024, 65536]);
                        let n = if g.bool() { (c as u32).wrapping_add(d) } else { (c as u32).wrapping_sub(d) };
                        if let Some(x) = char::from_u32(n).filter(|x| self.free || *x != '"') {
                            if g.bool() {
                                cs[at] = x;
                            } else {
                                cs.push(x);
                            }
                        }
                    } else {
                        let c = self.ch(g);
                        if self.free || c != '"' {
                            cs.push(c);
                        }
                    }
                    Tok::Set { set: cs.into_iter().collect(), min: min, max: max, name: name }
                }
            },
            Tok::Int { min, max, name } => match g.below(5) {
                0 => Tok::Int { min: min, max: max, name: self.name(g) },
                1 => Tok::Int { min: self.limit(g), max: max, name: name },
                2 => Tok::Int { min: min, max: self.limit(g), name: name },
                3 => Tok::Int { min: max, max: min, name: name },
                _ => Tok::Set { set: "0123456789".to_owned(), min: min, max: max, name: name },
            },
            Tok::Other { kind, name } => if g.bool() {
                Tok::Other { kind: kind, name: self.name(g) }
            } else {
                Tok::Other { kind: self.other_kind(g), name: name }
            },
            Tok::Greedy { name, end } => {
                if self.free && g.bool() {
                    let e = end.as_ref().map(|e| e.clone()).unwrap_or_default();
                    let e = self.mutate(g, &e);
                    Tok::Greedy { name: name, end: if g.chance(1, 4) { None } else { Some(e) } }
                } else {
                    Tok::Greedy { name: self.name(g), end: end }
                }
            }
        }
    }

    pub fn parser(&mut self, g: &mut Gen) -> Tok {
        let t = if !self.toks.is_empty() && g.chance(1, 2) {
            let t = g.pick(&self.toks).clone();
            if g.bool() { t } else { self.tweak(g, &t) }
        } else {
            self.fresh_parser(g)
        };
        if !t.is_lit() {
            self.toks.push(t.clone());
        }
        t
    }

    pub fn tok(&mut self, g: &mut Gen) -> Tok {
        if g.chance(11, 20) {
            self.parser(g)
        } else {
            let l = self.lit(g);
            self.lits.push(l.clone());
            Tok::Lit(l)
        }
    }

    fn toks(&mut self, g: &mut Gen, lo: usize, hi: usize) -> Vec<Tok> {
        let n = g.range(lo, hi);
        (0..n).map(|_| self.tok(g)).collect()
    }

    /// a long pattern that a message can fit: separators that no parser consumes
    fn long_toks(&mut self, g: &mut Gen) -> Vec<Tok> {
        let n = if g.chance(1, 6) { g.range(100, 300) } else { g.range(20, 80) };
        let sep = *g.pick(&["|", "\u{1f}", "€|"]);
        let n = if g.chance(1, 12) { g.range(300, 600) } else { n };
        let own_names = g.bool();
        let mut p = vec![];
        while p.len() < n {
            p.push(Tok::Lit(format!("{}{}", sep, self.text(g, 0, 2))));
            let mut t = self.parser(g);
            match t {
                Tok::Set { ref mut min, ref mut max, .. } | Tok::Int { ref mut min, ref mut max, .. } => {
                    *min = min.map(|x| x.min(3));
                    *max = max.map(|x| x.max(3));
                }
                _ => {}
            }
            if own_names {
                let own = Some(format!("n{}", p.len()));
                match t {
                    Tok::Set { ref mut name, .. } | Tok::Int { ref mut name, .. } | Tok::Greedy { ref mut name, .. } => *name = own,
                    _ => {}
                }
            }
            p.push(t);
        }
        p
    }

    /// A pattern, often derived from an earlier one.
    pub fn pattern(&mut self, g: &mut Gen, earlier: &[Vec<Tok>]) -> Vec<Tok> {
        let p = if earlier.is_empty() || g.chance(1, 3) {
            if self.big && g.chance(1, 10) { if g.chance(1, 3) { self.toks(g, 20, 80) } else { self.long_toks(g) } } else { self.toks(g, 1, 5) }
        } else {
            let base = g.pick(earlier).clone();
            match g.weighted(&[6, 4, 1, 3, 3, 2]) {
                0 => {
                    let k = g.range(0, base.len());
                    let mut p = base[..k].to_vec();
                    let t = self.toks(g, 1, 3);
                    p.extend(t);
                    p
                }
                1 => {
                    let mut p = base;
                    let k = g.range(0, p.len() - 1);
                    p[k] = self.tweak(g, &p[k].clone());
                    p
                }
                2 => base,
                3 => {
                    let mut p = base;
                    let t = self.toks(g, 1, 2);
                    p.extend(t);
                    p
                }
                4 => {
                    let k = g.range(1, base.len());
                    base[..k].to_vec()
                }
                _ => {
                    let other = g.pick(earlier).clone();
                    let (i, j) = (g.range(0, base.len()), g.range(0, other.len()));
                    let mut p = base[..i].to_vec();
                    p.extend(other[j..].to_vec());
                    p
                }
            }
        };
        if self.free { self.fix_free(g, p) } else { fix_grammar(p) }
    }

    fn fix_free(&mut self, g: &mut Gen, p: Vec<Tok>) -> Vec<Tok> {
        let mut out: Vec<Tok> = vec![];
        for t in p {
            match (t, out.last_mut()) {
                // mostly merge adjacent literals
                (Tok::Lit(l), Some(&mut Tok::Lit(ref mut prev))) if !g.chance(1, 4) => prev.push_str(&l),
                (Tok::Lit(l), Some(&mut Tok::Greedy { ref mut end, .. })) if g.chance(3, 4) => {
                    *end = Some(l.clone());
                    out.push(Tok::Lit(l));
                }
                (t, _) => out.push(t),
            }
        }
        if out.is_empty() { vec![Tok::Lit("a".to_owned())] } else { out }
    }

    pub fn patterns(&mut self, g: &mut Gen) -> Vec<Vec<Tok>> {
        let mut pats: Vec<Vec<Tok>> = vec![];
        if self.big {
            match g.below(10) {
                0 | 1 => self.wide(g, &mut pats),
                2 => self.wide_parsers(g, &mut pats),
                3 => self.deep(g, &mut pats),
                _ => {}
            }
        }
        let n = g.weighted(&[10, 14, 16, 16, 12, 10, 8, 6, 4, 4]) + 1;
        for _ in 0..n {
            let p = self.pattern(g, &pats);
            pats.push(p);
        }
        if g.chance(1, 4) {
            g.shuffle(&mut pats);
        }
        pats
    }

    /// many patterns under one common prefix, to reach wide nodes
    fn wide(&mut self, g: &mut Gen, pats: &mut Vec<Vec<Tok>>) {
        let prefix = self.text(g, 0, 3);
        let n = if g.chance(1, 40) { *g.pick(&[260usize, 520, 1030, 2060]) } else { *g.pick(&[9usize, 17, 33, 40, 65, 90, 130, 200]) };
        let kind = g.below(4);
        let tail = if g.bool() { Some(self.parser(g)) } else { None };
        for i in 0..n {
            let key = match kind {
                0 => char::from_u32(0x21 + i as u32).unwrap_or('x').to_string(),
                1 => format!("{:03}", i),
                2 => char::from_u32(0x3b1 + i as u32 * 7).unwrap_or('x').to_string(),
                _ => "ab".chars().cycle().take(i + 1).collect(),
            };
            if kind == 3 && i > 60 {
                break;
            }
            let mut p = vec![Tok::Lit(format!("{}{}", prefix, key))];
            if let Some(ref t) = tail {
                p.push(t.clone());
            }
            let p = if self.free { p } else { fix_grammar(p) };
            pats.push(p);
        }
        g.shuffle(pats);
    }

    /// many parsers at one place that consume the same text, so that most alternatives are tried
    fn wide_parsers(&mut self, g: &mut Gen, pats: &mut Vec<Vec<Tok>>) {
        let prefix = self.text(g, 0, 2);
        let n = if g.chance(1, 40) { *g.pick(&[260usize, 520, 1030]) } else { *g.pick(&[5usize, 9, 17, 33, 40, 65, 90, 130]) };
        let kind = g.below(4);
        let same_tail = g.chance(1, 5);
        let inner = if g.chance(1, 3) { Some(self.parser(g)) } else { None };
        for i in 0..n {
            let name = Some(format!("n{}", i));
            let t = match if kind == 3 { g.below(3) } else { kind } {
                0 => Tok::Int { min: None, max: None, name: name },
                1 => Tok::Set { set: "0123456789".to_owned(), min: None, max: Some(100 + i), name: if g.bool() { name } else { None } },
                _ => Tok::Set { set: format!("0123456789{}", char::from_u32(0x3b1 + i as u32).unwrap_or('x')), min: None, max: None, name: None },
            };
            let mut p = vec![];
            if !prefix.is_empty() {
                p.push(Tok::Lit(prefix.clone()));
            }
            p.push(t);
            if let Some(ref t) = inner {
                p.push(Tok::Lit(" ".to_owned()));
                p.push(t.clone());
            }
            if !same_tail {
                p.push(Tok::Lit(format!("/{}", i)));
            }
            pats.push(if self.free { p } else { fix_grammar(p) });
        }
        g.shuffle(pats);
    }

    /// two ways at every level of a long chain, only one of which leads to an end
    fn deep(&mut self, g: &mut Gen, pats: &mut Vec<Vec<Tok>>) {
        let levels = if g.chance(1, 20) { *g.pick(&[130usize, 260]) } else { *g.pick(&[3usize, 5, 9, 17, 33, 40, 65]) };
        let sep = *g.pick(&["-", " ", "é", "::"]);
        let way = |g: &mut Gen, b: bool, i: usize| {
            let name = if g.chance(1, 6) { None } else { Some(format!("{}{}", if b { "b" } else { "a" }, i)) };
            match (b, i % 3) {
                (false, 0) => Tok::Int { min: None, max: None, name: name },
                (false, _) => Tok::Set { set: "0123456789".to_owned(), min: None, max: None, name: name },
                (true, _) => Tok::Set { set: "1234567890x".to_owned(), min: None, max: None, name: name },
            }
        };
        let swap = g.chance(1, 3);
        let mut chain = vec![];
        for i in 0..levels {
            chain.push(way(g, swap, i));
            chain.push(Tok::Lit(sep.to_owned()));
        }
        let mut full = chain.clone();
        full.push(Tok::Lit("$".to_owned()));
        pats.push(fix_grammar(full));
        for j in 0..levels {
            if levels > 9 && !g.chance(1, if levels > 100 { 40 } else { 4 }) {
                continue;
            }
            let mut p = chain[..2 * j].to_vec();
            for i in j..levels {
                p.push(way(g, !swap, i));
                p.push(Tok::Lit(sep.to_owned()));
            }
            p.push(Tok::Lit(format!("end{}", j)));
            pats.push(fix_grammar(p));
        }
        if g.bool() {
            g.shuffle(pats);
        }
    }

    // ------------------------------------------------------------ messages

    /// what a parser might be given
    pub fn sample_tok(&self, g: &mut Gen, t: &Tok, out: &mut String) {
        self.sample_tok_in(g, t, out, false)
    }

    /// strict: stay within the limits
    fn sample_tok_in(&self, g: &mut Gen, t: &Tok, out: &mut String, strict: bool) {
        let run = |g: &mut Gen, min: Option<usize>, max: Option<usize>| -> usize {
            let lo = min.unwrap_or(1).max(1);
            let hi = max.unwrap_or(lo.saturating_add(3));
            if lo > 5000 {
                return g.range(1, 3);
            }
            if max.map_or(true, |x| x > 5_000_000) {
                if let Some(n) = self.huge(g) {
                    return n;
                }
            }
            let hi = hi.min(lo + 4097).max(lo);
            match g.weighted(&[40, 20, 20, 5, 5, 2]) {
                0 => g.range(lo, hi.min(lo + 4)),
                1 => lo,
                2 => hi,
                3 if !strict => lo - 1,
                4 if !strict => hi + 1,
                _ => if self.big && !strict { *g.pick(&BOUNDS) } else { lo },
            }
        };
        match *t {
            Tok::Lit(ref l) => out.push_str(l),
            Tok::Set { ref set, min, max, .. } => {
                let n = run(g, min, max);
                let cs: Vec<char> = set.chars().collect();
                if cs.is_empty() {
                    return;
                }
                if n > 40 {
                    let k = g.range(0, cs.len() - 1);
                    out.extend(cs.iter().cycle().skip(k).take(n));
                } else {
                    for _ in 0..n {
                        out.push(*g.pick(&cs));
                    }
                }
            }
            Tok::Int { min, max, .. } => {
                let n = run(g, min, max);
                if n > 40 {
                    out.extend("0123456789".chars().cycle().take(n));
                } else {
                    for _ in 0..n {
                        out.push(*g.pick(&['1', '0', '2', '3', '4', '5', '6', '7', '8', '9']));
                    }
                }
            }
            Tok::Other { ref kind, .. } => match *kind {
                OtherKind::Fixed(n) => out.push_str(&self.text(g, n, n)),
                OtherKind::BeforeLast(ref e) => {
                    out.push_str(&self.text(g, 0, 2));
                    if g.bool() {
                        out.push_str(e);
                    }
                }
                OtherKind::AnyNumber(ref set) => {
                    let cs: Vec<char> = set.chars().collect();
                    for _ in 0..g.range(0, 3) {
                        out.push(*g.pick(&cs));
                    }
                }
                OtherKind::Optional(ref t) => if g.bool() { out.push_str(t) },
                OtherKind::Nothing => {}
            },
            Tok::Greedy { ref end, .. } => {
                if let Some(n) = self.huge(g) {
                    let unit = self.text(g, 1, 3);
                    out.extend(unit.chars().cycle().take(n));
                }
                match g.weighted(&[50, 10, 5, 10]) {
                    0 => out.push_str(&self.text(g, 0, 4)),
                    1 => {}
                    2 => if self.big { out.push_str(&self.long_text(g)) },
                    _ => {
                        out.push_str(&self.text(g, 0, 2));
                        if let Some(ref e) = *end {
                            // a proper prefix of the end string
                            let cs: Vec<char> = e.chars().collect();
                            if cs.len() > 1 {
                                out.extend(cs[..g.range(1, cs.len() - 1)].iter());
                            }
                        }
                    }
                }
            }
        }
    }

    pub fn sample(&self, g: &mut Gen, p: &[Tok]) -> String {
        let mut s = String::new();
        let strict = p.len() > 12 && !g.chance(1, 8);
        for t in p {
            self.sample_tok_in(g, t, &mut s, strict);
        }
        s
    }

    pub fn message(&self, g: &mut Gen, pats: &[Vec<Tok>]) -> String {
        let p = g.pick(pats);
        match g.weighted(&[60, 20, 8, 6, 2, 2]) {
            0 => self.sample(g, p),
            1 => {
                let s = self.sample(g, p);
                self.mutate(g, &s)
            }
            2 => self.text(g, 0, 6),
            3 => {
                let q = g.pick(pats);
                let (i, j) = (g.range(0, p.len()), g.range(0, q.len()));
                let mut s = self.sample(g, &p[..i]);
                s.push_str(&self.sample(g, &q[j..]));
                s
            }
            4 => String::new(),
            _ => {
                // the prefix of a sample, cut at any character
                let s = self.sample(g, p);
                let cs: Vec<char> = s.chars().collect();
                cs[..g.range(0, cs.len())].iter().collect()
            }
        }
    }

    pub fn messages(&self, g: &mut Gen, pats: &[Vec<Tok>], n: usize) -> Vec<String> {
        (0..n).map(|_| self.message(g, pats)).collect()
    }
}

/// Turns any token sequence into one the pattern syntax can express.
pub fn fix_grammar(p: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = vec![];
    for t in p {
        match (t, out.last_mut()) {
            (Tok::Lit(l), Some(&mut Tok::Lit(ref mut prev))) => prev.push_str(&l),
            (Tok::Lit(ref l), _) if l.is_empty() => {}
            (t, _) => out.push(t),
        }
    }
    for t in &mut out {
        if let Tok::Lit(ref mut l) = *t {
            if unescape(&escape(l)) != *l {
                *l = l.replace("\\", "/");
            }
        }
    }
    for i in 0..out.len() {
        let next = match out.get(i + 1) {
            Some(&Tok::Lit(ref l)) => Some(l.clone()),
            _ => None,
        };
        if let Tok::Greedy { ref mut end, .. } = out[i] {
            *end = next;
        }
    }
    if out.is_empty() {
        out.push(Tok::Lit("a".to_owned()));
    }
    out
}

pub fn canon_all(pats: &[Vec<Tok>]) -> Vec<Vec<Tok>> {
    pats.iter().map(|p| canon(p)).collect()
}

/// Writes a (grammar-expressible) token sequence in pattern syntax, choosing among its spellings.
pub fn render(g: &mut Gen, p: &[Tok]) -> String {
    let mut s = String::new();
    for t in p {
        match *t {
            Tok::Lit(ref l) => s.push_str(&escape(l)),
            Tok::Int { min, max, ref name } => {
                s.push_str("%{INT");
                let ps = params(g, min, max);
                if !ps.is_empty() {
                    s.push('(');
                    s.push_str(&ps);
                    s.push(')');
                }
                push_name(&mut s, name);
            }
            Tok::Set { ref set, min, max, ref name } => {
                s.push_str("%{SET(\"");
                s.push_str(set);
                s.push('"');
                let ps = params(g, min, max);
                if !ps.is_empty() {
                    s.push_str(comma(g));
                    s.push_str(&ps);
                }
                s.push(')');
                push_name(&mut s, name);
            }
            Tok::Other { .. } => panic!("not in the pattern syntax"),
            Tok::Greedy { ref name, .. } => {
                s.push_str("%{GREEDY");
                push_name(&mut s, name);
            }
        }
    }
    s
}

fn push_name(s: &mut String, name: &Option<String>) {
    if let Some(ref n) = *name {
        s.push(':');
        s.push_str(n);
    }
    s.push('}');
}

fn comma(g: &mut Gen) -> &'static str {
    *g.pick(&[",", ", ", ",  "])
}

fn number(g: &mut Gen, v: usize) -> String {
    if g.chance(1, 12) { format!("00{}", v) } else { v.to_string() }
}

fn params(g: &mut Gen, min: Option<usize>, max: Option<usize>) -> String {
    let mut ps: Vec<String> = vec![];
    if let Some(v) = min {
        ps.push(format!("min_len={}", number(g, v)));
    }
    if let Some(v) = max {
        ps.push(format!("max_len={}", number(g, v)));
    }
    if ps.len() == 2 && g.bool() {
        ps.swap(0, 1);
    }
    if !ps.is_empty() && g.chance(1, 16) {
        // overridden by what follows
        for _ in 0..g.range(1, 3) {
            let key = if g.bool() { &ps[0][..8] } else { &ps[ps.len() - 1][..8] };
            let p = format!("{}{}", key, g.range(0, 12));
            ps.insert(0, p);
        }
    }
    let mut s = String::new();
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            s.push_str(comma(g));
        }
        s.push_str(p);
    }
    s
}
