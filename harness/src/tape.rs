//! Choice-tape generator: every random decision is a bounded draw recorded on a tape.
//! Generation replays deterministically from the tape, and shrinking edits the tape.

pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(&[h, s.len() as u64])
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Gen {
    src: Source,
    pos: usize,
    /// the choices actually made
    pub tape: Vec<u64>,
}

/// Upper bound on choices per case: generators stop branching into bigger things past it.
const MAX_CHOICES: usize = 400_000;

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { src: Source::Random(Rng::new(seed)), pos: 0, tape: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Gen {
        Gen { src: Source::Replay(tape), pos: 0, tape: Vec::new() }
    }
    /// choices from the bytes of a fuzzer; 0 when they are used up
    pub fn bytes(bytes: Vec<u8>) -> Gen {
        Gen { src: Source::Bytes(bytes), pos: 0, tape: Vec::new() }
    }
    /// uniform in 0..n (0 is the simplest choice)
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.tape.len() >= MAX_CHOICES {
            0
        } else {
            match self.src {
                Source::Random(ref mut r) => r.next() % n,
                Source::Bytes(ref b) => {
                    let width = if n <= 1 << 8 { 1 } else if n <= 1 << 16 { 2 } else { 8 };
                    let mut v = 0u64;
                    for _ in 0..width {
                        v = v << 8 | b.get(self.pos).cloned().unwrap_or(0) as u64;
                        self.pos += 1;
                    }
                    v % n
                }
                Source::Replay(ref t) => {
                    let v = t.get(self.pos).cloned().unwrap_or(0);
                    self.pos += 1;
                    if v < n { v } else { v % n }
                }
            }
        };
        self.tape.push(v);
        assert!(self.tape.len() < 4 * MAX_CHOICES, "a generator does not end");
        v
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // the false outcome is the simple one
        self.below(den) >= den - num
    }
    /// index chosen with the given weights; index 0 should be the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            // a draw of 0 keeps the order
            let j = i - self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// Shrinks a failing tape. `fails` runs the case and tells whether it still fails, returning the
/// tape it consumed.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(start: Vec<u64>, budget: usize, mut fails: F) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || std::time::Instant::now() > deadline {
            *left = 0;
            return false;
        }
        *left -= 1;
        if let Some(t) = fails(cand) {
            // accept only if strictly simpler
            if (t.len(), &t) < (best.len(), &*best) {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(&c, &mut best, &mut left) {
                    i += if size > 8 { size / 2 } else { 1 };
                }
                if left == 0 {
                    return best;
                }
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1].iter() {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    attempt(&c, &mut best, &mut left);
                }
                i += size;
                if left == 0 {
                    return best;
                }
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut left) {
                    lo = mid + 1;
                }
                if left == 0 {
                    return best;
                }
            }
            // lower a value while deleting the following one (length prefixes)
            if i + 1 < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                c.remove(i + 1);
                attempt(&c, &mut best, &mut left);
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
