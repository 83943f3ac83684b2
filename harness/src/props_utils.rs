//! The utilities: C22, C23.

use crate::engine::{viol, Out, Prop, Viol};
use crate::gen::World;
use crate::tape::Gen;
use actiondb::utils::{CommonPrefix, SortedVec};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C22", quick: 1_200_000, thorough: 60_000_000, f: c22,
               rule: "random push/remove/find histories over keys with many ties, compared with a plain vector. Non-trivial: at least 4 operations with a tie or a removal" },
        Prop { id: "C23", quick: 14_000_000, thorough: 320_000_000, f: c23,
               rule: "pairs of strings sharing a prefix, many with characters that share leading bytes. Non-trivial: both non-empty and different" },
        Prop { id: "C36", quick: 4_000_000, thorough: 100_000_000, f: c36,
               rule: "texts from a few characters around the escape, escaped and unescaped, and lists of lists. Non-trivial: the text has an escape that looks like or overlaps another, or there are two non-empty lists" },
    ]
}

/// what a literal of a pattern text stands for, by going through it once
fn unescaped(t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut s = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i..].starts_with(&['\\', '%', '\\', '{']) {
            s.push_str("%{");
            i += 4;
        } else {
            s.push(c[i]);
            i += 1;
        }
    }
    s
}

fn c36(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    if g.chance(1, 4) {
        let lists: Vec<Vec<u64>> = (0..g.range(0, 6)).map(|_| (0..g.range(0, 5)).map(|_| g.below(100)).collect()).collect();
        out.desc = format!("{:?}", lists);
        out.nontrivial = lists.iter().filter(|l| !l.is_empty()).count() >= 2;
        let mut want = vec![];
        for l in &lists {
            want.extend_from_slice(l);
        }
        out.checks += 1;
        let got = actiondb::utils::flatten_vec(lists.clone());
        if got != want {
            return viol("flattened", format!("{:?} is flattened to {:?}", lists, got));
        }
        return Ok(());
    }
    let mut t = String::new();
    let n = if g.chance(1, 200) { g.range(50, 2000) } else { g.range(0, 9) };
    for _ in 0..n {
        t.push_str(*g.pick(&["\\", "%", "{", "}", "\\%\\{", "\\%\\{", "%{", "\\%{", "%\\{", "a", "é", "%\\", " ", "\n", "😀"]));
    }
    out.desc = format!("{:?}", t);
    let want = unescaped(&t);
    out.nontrivial = want != t && (want.contains('\\') || want.matches("%{").count() > 1);
    out.checks += 1;
    let got = actiondb::grammar::unescape_literal(&t);
    if got != want {
        return viol("unescaped", format!("{:?} is unescaped to {:?} instead of {:?}", t, got, want));
    }
    // a literal that was escaped comes back, if the escape was not in it already
    let escaped = t.replace("%{", "\\%\\{");
    if unescaped(&t) == t && unescaped(&escaped) == t {
        out.checks += 1;
        let got = actiondb::grammar::unescape_literal(&escaped);
        if got != t {
            return viol("there and back", format!("{:?}, escaped as {:?}, is unescaped to {:?}", t, escaped, got));
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Item {
    key: u32,
    id: usize,
}

impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.key.cmp(&o.key)
    }
}

fn c22(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let mut v: SortedVec<Item> = SortedVec::new();
    let mut model: Vec<Item> = vec![];
    let keys = *g.pick(&[2u64, 5, 20, 1000, 100_000]);
    let n = match g.below(400) {
        0 => g.range(300, 2500),
        1..=20 => g.range(40, 300),
        _ => g.range(1, 25),
    };
    let mut hist = String::new();
    let mut ties = false;
    let mut removed = false;
    for id in 0..n {
        match g.weighted(&[6, 2, 1]) {
            0 => {
                let key = g.below(keys) as u32;
                ties = ties || model.iter().any(|x| x.key == key);
                hist.push_str(&format!(" push({})", key));
                v.push(Item { key: key, id: id });
                model.push(Item { key: key, id: id });
            }
            1 => if !model.is_empty() {
                let i = g.range(0, model.len() - 1);
                hist.push_str(&format!(" remove({})", i));
                let want = v.get(i).map(|x| x.id);
                let r = v.remove(i);
                removed = true;
                out.checks += 1;
                if want != Some(r.id) || !model.iter().any(|x| x.id == r.id && x.key == r.key) {
                    out.desc = hist.clone();
                    return viol("remove", format!("remove({}) returned {:?}, the element there was {:?}; history{}", i, r, want, hist));
                }
                model.retain(|x| x.id != r.id);
            },
            _ => if g.chance(1, 3) {
                v = v.clone();
            },
        }
        let step = n > 40 && id % (if n > 300 { 128 } else { 16 }) != 0 && id + 1 != n;
        if step {
            continue;
        }
        // invariant
        out.checks += 1;
        let got: Vec<Item> = (0..v.len()).filter_map(|i| v.get(i).cloned()).collect();
        let mut a: Vec<(u32, usize)> = got.iter().map(|x| (x.key, x.id)).collect();
        let sorted = a.windows(2).all(|w| w[0].0 <= w[1].0);
        let mut b: Vec<(u32, usize)> = model.iter().map(|x| (x.key, x.id)).collect();
        a.sort();
        b.sort();
        if !sorted || a != b || v.is_empty() != model.is_empty() || v.get(v.len()).is_some() || v.get_mut(model.len()).is_some() {
            out.desc = hist.clone();
            return viol("contents", format!("after{} the vector holds {:?} instead of {:?}", hist, got, b));
        }
        for _ in 0..(if n > 300 { 20 } else { 3 }) {
            let key = if !model.is_empty() && g.bool() { g.pick(&model).key } else { g.below(keys + 1) as u32 };
            let probe = Item { key: key, id: usize::MAX };
            let there = model.iter().any(|x| x.key == key);
            let pos = v.find_pos(&probe);
            let val = v.find(&probe).map(|x| x.key);
            let by = v.binary_search_by(|x| x.key.cmp(&key));
            out.checks += 3;
            let pos_ok = match pos {
                Some(i) => v.get(i).map(|x| x.key) == Some(key),
                None => !there,
            };
            let val_ok = if there { val == Some(key) } else { val.is_none() };
            let by_ok = match by {
                Ok(i) => v.get(i).map(|x| x.key) == Some(key),
                Err(i) => !there && i <= got.len() && got[..i].iter().all(|x| x.key < key) && got[i..].iter().all(|x| x.key > key),
            };
            if !pos_ok || !val_ok || !by_ok {
                out.desc = hist.clone();
                return viol("search", format!("after{} searching {} gives {:?}, {:?}, {:?}; contents {:?}", hist, key, pos, val, by, got));
            }
        }
    }
    out.nontrivial = n >= 4 && (ties || removed);
    out.label_if(n > 40, "long history");
    out.desc = hist;
    Ok(())
}

fn c23(g: &mut Gen, out: &mut Out) -> Result<(), Viol> {
    let w = World::new(g, true);
    let base = if w.big && g.chance(1, 3) { w.long_text(g) } else { w.text(g, 0, 8) };
    let mut a = base.clone();
    let mut b = match g.below(3) {
        0 => base.clone(),
        1 => w.mutate(g, &base),
        _ => w.text(g, 0, 6),
    };
    // a pair of different characters that share leading or trailing bytes
    if g.chance(1, 2) {
        let c = *g.pick(&['é', '€', '😀', 'ñ', '本', 'a', '\u{80}', '\u{800}', '\u{10000}']) as u32;
        let d = *g.pick(&[1u32, 2, 0x40, 0x80, 0x1000, 0x40000]);
        let x = char::from_u32(c).unwrap();
        let y = char::from_u32(c ^ d).unwrap_or('~');
        a.push(x);
        b.push(y);
        if g.bool() {
            a.push_str(&w.text(g, 0, 3));
        }
        if g.bool() {
            b.push_str(&w.text(g, 0, 3));
        }
    }
    out.desc = format!("{:?} {:?}", a, b);
    out.nontrivial = !a.is_empty() && !b.is_empty() && a != b;
    out.label_if(!a.is_ascii(), "non-ascii");
    let want: usize = a.chars().zip(b.chars()).take_while(|&(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum();
    out.checks += 4;
    let (n, m) = (a.common_prefix_len(&b), b.common_prefix_len(&a));
    if n != want || m != want {
        return viol("prefix length", format!("common prefix of {:?} and {:?} is {} and {}, expected {}", a, b, n, m, want));
    }
    let h = a.has_common_prefix(&b);
    if h != if want > 0 { Some(want) } else { None } {
        return viol("has prefix", format!("has_common_prefix of {:?} and {:?} is {:?}, expected length {}", a, b, h, want));
    }
    for s in [&a, &b].iter() {
        let head = s.rtrunc(s.len() - want);
        let tail = s.ltrunc(want);
        if format!("{}{}", head, tail) != **s || head.len() != want {
            return viol("cut", format!("{:?} cut at {} gives {:?} and {:?}", s, want, head, tail));
        }
    }
    // two pieces of one text, which may lie in each other
    if g.chance(1, 3) {
        let bounds: Vec<usize> = a.char_indices().map(|x| x.0).chain(Some(a.len())).collect();
        let mut piece = |g: &mut Gen| {
            let x = if g.bool() { 0 } else { g.range(0, bounds.len() - 1) };
            let y = g.range(x, bounds.len() - 1);
            &a[bounds[x]..bounds[y]]
        };
        let (x, y) = (piece(g), piece(g));
        let want: usize = x.chars().zip(y.chars()).take_while(|&(x, y)| x == y).map(|(x, _)| x.len_utf8()).sum();
        out.checks += 1;
        if x.common_prefix_len(y) != want || x.has_common_prefix(y) != if want > 0 { Some(want) } else { None } {
            return viol("prefix of pieces", format!("common prefix of the pieces {:?} and {:?} of {:?} is {}, expected {}", x, y, a, x.common_prefix_len(y), want));
        }
    }
    // cutting anywhere at a character boundary
    let bounds: Vec<usize> = a.char_indices().map(|x| x.0).chain(Some(a.len())).collect();
    let k = *g.pick(&bounds);
    if a.ltrunc(k) != &a[k..] || a.rtrunc(a.len() - k) != &a[..k] {
        return viol("cut", format!("{:?} cut at {} gives {:?} and {:?}", a, k, a.rtrunc(a.len() - k), a.ltrunc(k)));
    }
    Ok(())
}
