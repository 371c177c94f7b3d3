//! Ropes of very long texts and maps and sets of very many keys, recorded as runs.
use crate::ord::{Coll, Key};
use crate::rope::{bound, num};
use crate::util::*;
use generic_btree::{OrdTreeMap, OrdTreeSet, Rope};
use std::cmp::Reverse;
use std::ops::Bound;

const LETTERS: usize = 95;

/// Runs of characters that count up.
fn runs(text: &[u8]) -> Vec<(usize, usize)> {
    let mut r: Vec<(usize, usize)> = vec![];
    for b in text {
        let c = (*b as usize).wrapping_sub(32);
        match r.last_mut() {
            Some(l) if (l.0 + l.1) % LETTERS == c => l.1 += 1,
            _ => r.push((c, 1)),
        }
    }
    r
}
fn jruns(r: &[(usize, usize)]) -> String {
    list(r.iter().map(|(c, n)| format!("[{},{}]", c, n)))
}
fn text(r: &[(usize, usize)]) -> String {
    let mut s = String::new();
    for (c, n) in r {
        for i in 0..*n {
            s.push((32 + (c + i) % LETTERS) as u8 as char);
        }
    }
    s
}

struct Text {
    rope: Rope,
    len: usize,
}

impl Text {
    fn call(&mut self, head: String, f: impl FnOnce(&mut Rope)) -> bool {
        let rope = &mut self.rope;
        let out = guard(&head, || {
            f(rope);
            (rope.to_string().into_bytes(), rope.len(), rope.is_empty())
        });
        match out {
            Err(m) => {
                emit(&format!("{{{},\"pn\":\"{}\"}}", head, esc(&m)));
                false
            }
            Ok((t, n, e)) => {
                let ck = guard(&head, || rope.check()).is_ok();
                self.len = t.len();
                emit(&format!(
                    "{{{},\"c\":{},\"n\":{},\"e\":{},\"ck\":{}}}",
                    head,
                    jruns(&runs(&t)),
                    num(n),
                    e as u32,
                    ck as u32
                ));
                true
            }
        }
    }
    /// `how` 0: at once; 1: character by character; 2: from the last character to the first
    fn insert(&mut self, pos: usize, r: &[(usize, usize)], how: usize) -> bool {
        let s = text(r);
        let r = runs(s.as_bytes());
        let head = format!("\"op\":\"ins\",\"pos\":{},\"b\":{},\"how\":{}", pos, jruns(&r), how);
        self.call(head, |rope| match how {
            0 => rope.insert(pos, &s),
            1 => {
                for i in 0..s.len() {
                    rope.insert(pos + i, &s[i..i + 1]);
                }
            }
            _ => {
                for i in (0..s.len()).rev() {
                    rope.insert(pos, &s[i..i + 1]);
                }
            }
        })
    }
    fn delete(&mut self, a: Bound<usize>, b: Bound<usize>) -> bool {
        let head = format!("\"op\":\"del\",\"lo\":{},\"hi\":{}", bound(&a), bound(&b));
        self.call(head, |rope| rope.delete_range((a, b)))
    }
    /// one character at a time, forwards or backwards
    fn nibble(&mut self, a: usize, b: usize, back: bool) -> bool {
        let head = format!("\"op\":\"del\",\"lo\":[1,{}],\"hi\":[2,{}],\"how\":{}", a, b, 1 + back as u32);
        self.call(head, |rope| {
            for i in a..b {
                let p = if back { b - 1 - (i - a) } else { a };
                rope.delete_range(p..p + 1);
            }
        })
    }
}

pub fn rope(seed: u64, steps: usize, size: usize) {
    let mut rng = Rng::new(seed);
    let mut left = steps;
    while left > 0 {
        let k = left.min(80);
        left -= k;
        let size = rng.range(size / 2, size);
        emit("{\"op\":\"reset\"}");
        let mut t = Text {
            rope: Rope::new(),
            len: 0,
        };
        let piece = |rng: &mut Rng, n: usize| -> Vec<(usize, usize)> {
            let parts = rng.range(1, 3);
            (0..parts).map(|_| (rng.below(LETTERS), n / parts + 1)).collect()
        };
        let how = rng.below(4);
        let first = piece(&mut rng, size);
        let ok = match how {
            0 => t.insert(0, &first, 1 + rng.below(2)),
            1 => {
                let (n, inner) = (size / 2, piece(&mut rng, size / 2));
                let p = rng.below(n);
                t.insert(0, &first, 0) && t.insert(p, &inner, 0)
            }
            _ => t.insert(0, &first, 0),
        };
        if !ok {
            continue;
        }
        let mut at = 0;
        for _ in 0..k {
            let n = t.len;
            at = match rng.below(8) {
                0 => 0,
                1 => n,
                2..=4 => rng.below(n + 1),
                _ => (at + rng.below(300)).saturating_sub(150),
            }
            .min(n);
            let more = match rng.below(5) {
                0 => 1,
                1 => rng.range(1, 30),
                2 => rng.range(1, 3000),
                _ => rng.range(1, 400),
            };
            let r = piece(&mut rng, more);
            let end = (at + more).min(n);
            let ok = match rng.below(14) {
                0 | 1 => t.insert(at, &r, 0),
                2 | 3 => t.insert(at, &r, 1),
                4 => t.insert(at, &r, 2),
                5 => t.insert(rng.below(n + 1), &[(rng.below(LETTERS), size / 6 + 1)], 0),
                6 => t.delete(Bound::Included(at), Bound::Excluded(end)),
                7 if at > 0 => t.delete(Bound::Excluded(at - 1), Bound::Included(end)),
                8 if n > size / 3 => {
                    let b = at + rng.below(n - at + 1);
                    t.delete(Bound::Included(at), Bound::Excluded(b))
                }
                9 => t.nibble(at, end, false),
                10 => t.nibble(at, end, true),
                11 if rng.chance(12) => t.delete(Bound::Included(at), Bound::Unbounded),
                12 if rng.chance(12) => t.call("\"op\":\"clear\"".into(), |r| r.clear()),
                _ if n < size => t.insert(at, &r, rng.below(3)),
                _ => t.nibble(at, end, rng.chance(50)),
            };
            if !ok {
                break;
            }
        }
    }
}

// ------------------------------------------------------------- maps and sets
struct Many<C> {
    c: C,
    pairs: usize,
}

fn stretch(xs: &[(i64, i64)]) -> String {
    let mut r: Vec<(i64, i64, i64)> = vec![];
    for (k, v) in xs {
        match r.last_mut() {
            Some(l) if l.1 + 1 == *k && l.2 == *v => l.1 = *k,
            _ => r.push((*k, *k, *v)),
        }
    }
    list(r.iter().map(|(a, b, v)| format!("[{},{},{}]", a, b, v)))
}

/// The keys in some order: ascending, descending, from both ends, at random.
fn order(rng: &mut Rng, lo: i64, hi: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (lo..=hi).collect();
    match rng.below(5) {
        0 => v.reverse(),
        1 => {
            let n = v.len();
            v = (0..n).map(|i| if i % 2 == 0 { v[i / 2] } else { v[n - 1 - i / 2] }).collect();
        }
        2 => {
            for i in (1..v.len()).rev() {
                let j = rng.below(i + 1);
                v.swap(i, j);
            }
        }
        _ => {}
    }
    v
}

fn act<K: Key, C: Coll<K>>(m: &mut Many<C>, keys: &[i64], put: Option<i64>) -> bool {
    let (lo, hi) = (*keys.iter().min().unwrap(), *keys.iter().max().unwrap());
    let head = match put {
        Some(v) => format!("\"op\":\"put\",\"lo\":{},\"hi\":{},\"v\":{}", lo, hi, v),
        None => format!("\"op\":\"del\",\"lo\":{},\"hi\":{}", lo, hi),
    };
    let out = guard(&head, || {
        let mut got = vec![];
        for k in keys {
            match put {
                Some(v) => m.c.put(K::of(*k), v),
                None => {
                    let r = m.c.del(&K::of(*k));
                    if !r.is_empty() {
                        got.push((r[0], r[1]));
                    }
                }
            }
        }
        got.sort();
        (got, m.c.all(), m.c.keys(), m.c.size(), m.c.empty())
    });
    match out {
        Err(msg) => {
            emit(&format!("{{{},\"pn\":\"{}\"}}", head, esc(&msg)));
            false
        }
        Ok((got, all, ks, n, e)) => {
            m.pairs = all.len();
            let same = ks.len() == all.len() && ks.iter().zip(&all).all(|(a, b)| *a == b.0);
            emit(&format!(
                "{{{},\"r\":{},\"c\":{},\"n\":{},\"e\":{},\"ik\":{}}}",
                head,
                stretch(&got),
                stretch(&all),
                num(n),
                e as u32,
                same as u32
            ));
            true
        }
    }
}

fn episode<K: Key, C: Coll<K>>(rng: &mut Rng, steps: usize, size: usize) {
    emit("{\"op\":\"reset\"}");
    let set = C::NAME == "set";
    let (low, high) = (-50_000, -50_000 + 2 * size as i64);
    let mut m = Many {
        c: C::make(false),
        pairs: 0,
    };
    let a = low + rng.below(size) as i64;
    let keys = order(rng, a, a + size as i64 - 1);
    if !act::<K, C>(&mut m, &keys, Some(if set { 0 } else { 5 })) {
        return;
    }
    for _ in 0..steps {
        let a = low + rng.below(2 * size) as i64;
        let k = match rng.below(7) {
            0 => 1,
            1 => rng.range(1, size / 2),
            2 | 3 => rng.range(1, 30),
            _ => rng.range(1, 2000),
        } as i64;
        let keys = order(rng, a, (a + k - 1).min(high));
        let v = if set { 0 } else { rng.below(5) as i64 };
        let put = rng.chance(if m.pairs < size { 60 } else { 35 });
        if !act::<K, C>(&mut m, &keys, if put { Some(v) } else { None }) {
            return;
        }
    }
    // everything goes
    if rng.chance(30) {
        let keys = order(rng, low, high);
        let _ = act::<K, C>(&mut m, &keys, None) && act::<K, C>(&mut m, &[7], Some(0));
    }
}

pub fn map(seed: u64, kind: &str, steps: usize, size: usize) {
    let mut rng = Rng::new(seed);
    let mut left = steps;
    let mut n = rng.below(5);
    while left > 0 {
        let k = left.min(40);
        left -= k;
        n += 1;
        let size = rng.range(size / 2, size);
        let set = kind == "set" || (kind == "both" && rng.chance(50));
        let r = &mut rng;
        match (n % 5, set) {
            (0, false) => episode::<u32, OrdTreeMap<_, _>>(r, k, size),
            (1, false) => episode::<i64, OrdTreeMap<_, _>>(r, k, size),
            (2, false) => episode::<String, OrdTreeMap<_, _>>(r, k, size),
            (3, false) => episode::<Reverse<i32>, OrdTreeMap<_, _>>(r, k, size),
            (_, false) => episode::<(i16, u8), OrdTreeMap<_, _>>(r, k, size),
            (0, true) => episode::<u32, OrdTreeSet<_>>(r, k, size),
            (1, true) => episode::<i64, OrdTreeSet<_>>(r, k, size),
            (2, true) => episode::<String, OrdTreeSet<_>>(r, k, size),
            (3, true) => episode::<Reverse<i32>, OrdTreeSet<_>>(r, k, size),
            (_, true) => episode::<(i16, u8), OrdTreeSet<_>>(r, k, size),
        }
    }
}
