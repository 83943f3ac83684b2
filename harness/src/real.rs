//! Bridge from the model to the library under test.

use crate::engine::{viol, Viol};
use crate::gen::render;
use crate::model::Tok;
#[cfg(feature = "own")]
pub use crate::own::*;
use crate::tape::Gen;
use actiondb::matcher::compiled_pattern::{CompiledPattern, CompiledPatternBuilder};
use actiondb::matcher::pattern::testmessage::TestMessage;
use actiondb::matcher::suffix_array::SuffixArrayMatcherFactory;
use actiondb::matcher::trie::factory::TrieMatcherFactory;
use actiondb::matcher::{BuildError, FromPatternSource, Matcher, MatcherFactory, Pattern, PatternLoader};
use actiondb::parsers::{GreedyParser, HasLengthConstraint, IntParser, Parser, SetParser};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Trie,
    Array,
    /// a matcher of the caller's own, only for building
    Own,
}

// without the caller's own implementations, which then are not chosen either
#[cfg(not(feature = "own"))]
use actiondb::matcher::trie::factory::TrieMatcherFactory as OwnFactory;
#[cfg(not(feature = "own"))]
pub fn take_added() -> Vec<Uuid> {
    vec![]
}

pub const KINDS: [Kind; 2] = [Kind::Trie, Kind::Array];

pub fn new_matcher(k: Kind) -> Box<dyn Matcher> {
    match k {
        Kind::Trie => Box::new(TrieMatcherFactory::new_matcher()),
        Kind::Array => Box::new(SuffixArrayMatcherFactory::new_matcher()),
        Kind::Own => Box::new(OwnFactory::new_matcher()),
    }
}

/// Builds a parser through one of its public construction ways.
pub fn real_parser(g: &mut Gen, t: &Tok) -> Box<dyn Parser> {
    match *t {
        Tok::Lit(_) => panic!("not a parser"),
        #[cfg(feature = "own")]
        Tok::Other { .. } => Box::new(OwnParser(t.clone())),
        #[cfg(not(feature = "own"))]
        Tok::Other { .. } => panic!("not built in"),
        Tok::Set { ref set, min, max, ref name } => {
            let mut p = match g.below(3) {
                0 => {
                    let mut p = SetParser::new(set);
                    p.set_name(name.clone());
                    p
                }
                1 => {
                    let mut p = SetParser::from_str(name.as_ref().map_or("other", |x| &x[..]), set);
                    p.set_name(name.clone());
                    p
                }
                _ => {
                    let mut p = SetParser::with_name("tmp".to_owned(), "zq");
                    p.set_character_set(set);
                    p.set_name(name.clone());
                    p
                }
            };
            p.set_min_length(min);
            p.set_max_length(max);
            Box::new(p)
        }
        Tok::Int { min, max, ref name } => {
            let mut p = match *name {
                Some(ref n) if g.bool() => IntParser::with_name(n.clone()),
                _ => {
                    let mut p = IntParser::new();
                    p.set_name(name.clone());
                    p
                }
            };
            p.set_max_length(max);
            p.set_min_length(min);
            Box::new(p)
        }
        Tok::Greedy { ref name, ref end } => {
            let p = match (name, end) {
                (&Some(ref n), &Some(ref e)) if g.bool() => GreedyParser::from_str(n, e),
                (&Some(ref n), _) if g.bool() => {
                    let mut p = GreedyParser::with_name(n.clone());
                    p.set_end_string(end.clone());
                    p
                }
                _ => {
                    let mut p = GreedyParser::new();
                    p.set_end_string(end.clone());
                    p.set_name(name.clone());
                    p
                }
            };
            Box::new(p)
        }
    }
}

pub fn build(g: &mut Gen, p: &[Tok]) -> CompiledPattern {
    let mut b = CompiledPatternBuilder::new();
    for t in p {
        match *t {
            Tok::Lit(ref l) => {
                b.literal(l.clone());
            }
            ref t => {
                let parser = real_parser(g, t);
                b.parser(parser);
            }
        }
    }
    b.build()
}

pub fn compile_text(text: &str) -> Result<CompiledPattern, Viol> {
    match actiondb::grammar::parser::pattern(text) {
        Ok(p) => Ok(p),
        Err(e) => viol("valid pattern rejected", format!("pattern {:?} is in the documented syntax but is rejected: {}", text, e)),
    }
}

/// compiled pattern, by builder or (if expressible) by pattern text
pub fn compiled(g: &mut Gen, p: &[Tok], free: bool) -> Result<CompiledPattern, Viol> {
    if !free && g.bool() {
        let text = render(g, p);
        compile_text(&text)
    } else {
        Ok(build(g, p))
    }
}

thread_local! {
    static UUID_STYLE: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

/// how the UUIDs of this case differ: everywhere, or only in a few bytes at the end, start or middle
pub fn set_uuid_style(style: u64) {
    UUID_STYLE.with(|s| s.set(style));
}

pub fn uuid_of(i: usize) -> Uuid {
    let mut b = [0u8; 16];
    let x = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
    match UUID_STYLE.with(|s| s.get()) {
        // the same one more than once
        10 => b[3] = (i / 2) as u8,
        11 => b[12] = (i % 2) as u8,
        12 => b[0] = 7,
        // the first one is the nil UUID
        1 => for k in 0..8 {
            b[15 - k] = (i >> (8 * k)) as u8;
        },
        2 => for k in 0..8 {
            b[k] = (i >> (8 * k)) as u8;
        },
        3 => {
            b = [0xab; 16];
            for k in 0..4 {
                b[6 + k] = (i >> (8 * k)) as u8;
            }
        }
        _ => for k in 0..8 {
            b[k] = (x >> (8 * k)) as u8;
            b[15 - k] = (i >> (8 * k)) as u8;
        },
    }
    Uuid::from_bytes(&b).unwrap()
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Meta {
    pub name: Option<String>,
    pub values: Option<BTreeMap<String, String>>,
    pub tags: Option<Vec<String>>,
}

pub fn pattern(i: usize, cp: CompiledPattern, meta: &Meta, tests: Option<Vec<TestMessage>>) -> Pattern {
    Pattern::new(meta.name.clone(), uuid_of(i), cp, tests, meta.values.clone(), meta.tags.clone())
}

/// The patterns, compiled, ready to be added to several matchers.
pub struct Built {
    pub cps: Vec<CompiledPattern>,
    /// the matcher is replaced by its clone before this many patterns were added
    pub cloned: Option<usize>,
}

impl Built {
    pub fn new(g: &mut Gen, pats: &[Vec<Tok>], free: bool) -> Result<Built, Viol> {
        let mut cps = vec![];
        for p in pats {
            cps.push(compiled(g, p, free)?);
        }
        let at = if g.chance(1, 3) { Some(g.range(0, cps.len())) } else { None };
        Ok(Built { cps: cps, cloned: at })
    }
    pub fn add(&self, m: &mut dyn Matcher, i: usize) {
        m.add_pattern(pattern(i, self.cps[i].clone(), &Meta::default(), None));
    }
    pub fn fill(&self, k: Kind) -> Box<dyn Matcher> {
        let mut m = new_matcher(k);
        for i in 0..self.cps.len() {
            if self.cloned == Some(i) {
                m = m.boxed_clone();
            }
            self.add(&mut *m, i);
        }
        if self.cloned == Some(self.cps.len()) {
            m = m.boxed_clone();
        }
        m
    }
}

/// index of the pattern with this uuid
pub fn index_of(u: &Uuid, n: usize) -> Option<usize> {
    (0..n).find(|i| uuid_of(*i) == *u)
}

pub type Answer = Option<(String, BTreeMap<String, String>)>;

pub fn answer(m: &dyn Matcher, msg: &str) -> Answer {
    m.parse(msg).map(|r| {
        (r.pattern().uuid().hyphenated().to_string(),
         r.values().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect())
    })
}

// ---------------------------------------------------------------- log capture

struct Capture;

thread_local! {
    /// format every record, as a logger of level trace would
    static FORMAT: std::cell::Cell<bool> = std::cell::Cell::new(false);
    static RECORDS: RefCell<Option<Vec<(log::Level, String)>>> = RefCell::new(None);
}

impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.level() > log::Level::Error {
            if FORMAT.with(|f| f.get()) {
                let _ = format!("{}", r.args());
            }
            return;
        }
        RECORDS.with(|x| {
            if let Some(ref mut v) = *x.borrow_mut() {
                v.push((r.level(), format!("{}", r.args())));
            }
        });
    }
    fn flush(&self) {}
}

pub fn install_logger() {
    static CAPTURE: Capture = Capture;
    log::set_logger(&CAPTURE).unwrap();
    log::set_max_level(log::LevelFilter::Error);
}

/// turns formatting of records of all levels on or off for this thread
pub fn verbose_log(on: bool) {
    log::set_max_level(log::LevelFilter::Trace);
    FORMAT.with(|f| f.set(on));
}

/// runs f and returns the error-level records it logged
pub fn logged<T, F: FnOnce() -> T>(f: F) -> (T, Vec<String>) {
    RECORDS.with(|x| *x.borrow_mut() = Some(vec![]));
    let r = f();
    let v = RECORDS.with(|x| x.borrow_mut().take()).unwrap_or_default();
    (r, v.into_iter().filter(|x| x.0 == log::Level::Error).map(|x| x.1).collect())
}

// ---------------------------------------------------------------- scratch files

pub fn scratch_root() -> PathBuf {
    PathBuf::from(std::env::var("ADB_SCRATCH").expect("ADB_SCRATCH"))
}

thread_local! {
    static DIR: RefCell<Option<PathBuf>> = RefCell::new(None);
}

/// this thread's scratch directory
pub fn scratch() -> PathBuf {
    DIR.with(|d| {
        if d.borrow().is_none() {
            static N: AtomicUsize = AtomicUsize::new(0);
            let p = scratch_root().join(format!("t{}", N.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir_all(&p).unwrap();
            *d.borrow_mut() = Some(p);
        }
        d.borrow().clone().unwrap()
    })
}

/// writes the bytes into a scratch file with this extension and returns its path
pub fn put(ext: &str, bytes: &[u8]) -> String {
    let p = scratch().join(format!("p.{}", ext));
    std::fs::write(&p, bytes).unwrap();
    p.to_str().unwrap().to_owned()
}

/// like put, now and then under an unusual name or reached by an unusual path
pub fn put_somewhere(g: &mut Gen, ext: &str, bytes: &[u8]) -> String {
    if !g.chance(1, 6) {
        return put(ext, bytes);
    }
    let base = scratch();
    let dir = *g.pick(&["", "", "d", "d.json", "d.yaml", "d e", "é", "-", "~", "$HOME", "%2e%2e", "*", "a/b/c"]);
    let d = if dir.is_empty() { base.clone() } else { base.join(dir) };
    std::fs::create_dir_all(&d).unwrap();
    let stem = match g.below(8) {
        0 => "n".repeat(*g.pick(&[100usize, 240])),
        1 => format!("p.{}", *g.pick(&["json", "yaml", "yml", "txt", "x.y"])),
        _ => (*g.pick(&["q", "a.b.c", ".hidden", "a b", " p", "p ", "~", "$HOME", "%41", "p*", "[p]", "p?", "é", "😀", "-p", "--", "#p", "p;q", "p&q", "p|q", "..p", "json", "\\", "p\nq", "'p'", "\"p\"", "file:p", "CON"])).to_owned(),
    };
    let file = d.join(format!("{}.{}", stem, ext));
    std::fs::write(&file, bytes).unwrap();
    let abs = file.to_str().unwrap().to_owned();
    match g.below(6) {
        0 => abs.replace('/', "//"),
        1 => abs.replace('/', "/./"),
        2 => {
            // relative; steps up from the root lead nowhere
            let up = std::env::current_dir().unwrap().components().count() - 1 + g.range(0, 2);
            format!("{}{}", "../".repeat(up), &abs[1..])
        }
        3 => {
            let (b, n) = (base.to_str().unwrap(), base.file_name().unwrap().to_str().unwrap());
            format!("{}/../{}{}", b, n, &abs[b.len()..])
        }
        4 => {
            let link = base.join(format!("link.{}", ext));
            let _ = std::fs::remove_file(&link);
            std::os::unix::fs::symlink(&file, &link).unwrap();
            link.to_str().unwrap().to_owned()
        }
        _ => abs,
    }
}

// ---------------------------------------------------------------- loading

pub fn load_lenient(k: Kind, path: &str) -> Result<Box<dyn Matcher>, BuildError> {
    match k {
        Kind::Trie => PatternLoader::from_file_ignore_errors::<TrieMatcherFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Array => PatternLoader::from_file_ignore_errors::<SuffixArrayMatcherFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Own => PatternLoader::from_file_ignore_errors::<OwnFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
    }
}

pub fn load_strict(k: Kind, path: &str) -> Result<Box<dyn Matcher>, BuildError> {
    match k {
        Kind::Trie => PatternLoader::from_file::<TrieMatcherFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Array => PatternLoader::from_file::<SuffixArrayMatcherFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Own => PatternLoader::from_file::<OwnFactory>(path).map(|m| Box::new(m) as Box<dyn Matcher>),
    }
}

pub type Source = Vec<Result<Pattern, BuildError>>;

pub fn source_strict(k: Kind, src: Source) -> Result<Box<dyn Matcher>, BuildError> {
    let mut it = src.into_iter();
    match k {
        Kind::Trie => <TrieMatcherFactory as MatcherFactory>::Matcher::from_source::<TrieMatcherFactory>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Array => <SuffixArrayMatcherFactory as MatcherFactory>::Matcher::from_source::<SuffixArrayMatcherFactory>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>),
        Kind::Own => <OwnFactory as MatcherFactory>::Matcher::from_source::<OwnFactory>(&mut it).map(|m| Box::new(m) as Box<dyn Matcher>),
    }
}

pub fn source_lenient(k: Kind, src: Source) -> Box<dyn Matcher> {
    let mut it = src.into_iter();
    match k {
        Kind::Trie => Box::new(<TrieMatcherFactory as MatcherFactory>::Matcher::from_source_ignore_errors::<TrieMatcherFactory>(&mut it)),
        Kind::Array => Box::new(<SuffixArrayMatcherFactory as MatcherFactory>::Matcher::from_source_ignore_errors::<SuffixArrayMatcherFactory>(&mut it)),
        Kind::Own => Box::new(<OwnFactory as MatcherFactory>::Matcher::from_source_ignore_errors::<OwnFactory>(&mut it)),
    }
}
