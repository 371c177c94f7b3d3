//! The ordered map and set under test.
use crate::util::*;
use generic_btree::{OrdTreeMap, OrdTreeSet};
use std::cmp::Reverse;
use std::fmt::Debug;

/// Keys are numbers in the log, in an order that agrees with the order of the type.
pub trait Key: Clone + Ord + Debug + 'static {
    const NAME: &'static str;
    fn of(n: i64) -> Self;
    fn num(&self) -> i64;
}
impl Key for u32 {
    const NAME: &'static str = "u32";
    fn of(n: i64) -> Self {
        (n + 100_000) as u32
    }
    fn num(&self) -> i64 {
        *self as i64 - 100_000
    }
}
impl Key for i64 {
    const NAME: &'static str = "i64";
    fn of(n: i64) -> Self {
        n
    }
    fn num(&self) -> i64 {
        *self
    }
}
impl Key for String {
    const NAME: &'static str = "string";
    fn of(n: i64) -> Self {
        format!("{:07}", n + 100_000)
    }
    fn num(&self) -> i64 {
        self.parse::<i64>().unwrap() - 100_000
    }
}
impl Key for Reverse<i32> {
    const NAME: &'static str = "reverse";
    fn of(n: i64) -> Self {
        Reverse(-(n as i32))
    }
    fn num(&self) -> i64 {
        -(self.0 as i64)
    }
}
/// a pair that compares by its first part, then by its second
impl Key for (i16, u8) {
    const NAME: &'static str = "pair";
    fn of(n: i64) -> Self {
        (n.div_euclid(16) as i16, n.rem_euclid(16) as u8)
    }
    fn num(&self) -> i64 {
        self.0 as i64 * 16 + self.1 as i64
    }
}

/// The map, or the set seen as a map to 0.
pub trait Coll<K: Key> {
    const NAME: &'static str;
    fn make(default: bool) -> Self;
    fn put(&mut self, k: K, v: i64);
    /// the removed pair; a set only says whether it removed
    fn del(&mut self, k: &K) -> Vec<i64>;
    fn all(&self) -> Vec<(i64, i64)>;
    fn keys(&self) -> Vec<i64>;
    fn size(&self) -> usize;
    fn empty(&self) -> bool;
}
impl<K: Key> Coll<K> for OrdTreeMap<K, String> {
    const NAME: &'static str = "map";
    fn make(default: bool) -> Self {
        if default {
            Default::default()
        } else {
            Self::new()
        }
    }
    fn put(&mut self, k: K, v: i64) {
        self.insert(k, v.to_string())
    }
    fn del(&mut self, k: &K) -> Vec<i64> {
        match self.delete(k) {
            Some((k, v)) => vec![k.num(), v.parse().unwrap()],
            None => vec![],
        }
    }
    fn all(&self) -> Vec<(i64, i64)> {
        self.iter()
            .map(|(k, v)| (k.num(), v.parse().unwrap()))
            .collect()
    }
    fn keys(&self) -> Vec<i64> {
        self.iter_key().map(|k| k.num()).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
}
impl<K: Key> Coll<K> for OrdTreeSet<K> {
    const NAME: &'static str = "set";
    fn make(default: bool) -> Self {
        if default {
            Default::default()
        } else {
            Self::new()
        }
    }
    fn put(&mut self, k: K, _: i64) {
        self.insert(k)
    }
    fn del(&mut self, k: &K) -> Vec<i64> {
        if self.delete(k) {
            vec![k.num(), 0]
        } else {
            vec![]
        }
    }
    fn all(&self) -> Vec<(i64, i64)> {
        self.iter().map(|k| (k.num(), 0)).collect()
    }
    fn keys(&self) -> Vec<i64> {
        self.iter().map(|k| k.num()).collect()
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
}

fn pairs(xs: &[(i64, i64)]) -> String {
    list(xs.iter().map(|(k, v)| format!("[{},{}]", k, v)))
}

struct Run<C> {
    c: C,
    seen: Vec<(i64, i64)>,
}

enum Act {
    Put(i64, i64),
    Del(i64),
}

/// Performs one call and writes its event; false if it failed.
fn step<K: Key, C: Coll<K>>(r: &mut Run<C>, a: &Act) -> bool {
    let pend = match a {
        Act::Put(k, v) => format!("\"op\":\"put\",\"k\":{},\"v\":{}", k, v),
        Act::Del(k) => format!("\"op\":\"del\",\"k\":{}", k),
    };
    let out = guard(&pend, || {
        let got = match a {
            Act::Put(k, v) => {
                r.c.put(K::of(*k), *v);
                vec![]
            }
            Act::Del(k) => r.c.del(&K::of(*k)),
        };
        (got, r.c.all(), r.c.keys(), r.c.size(), r.c.empty())
    });
    match out {
        Err(m) => {
            emit(&format!("{{{},\"pn\":\"{}\"}}", pend, esc(&m)));
            false
        }
        Ok((got, all, keys, size, empty)) => {
            let (p, s) = window(&r.seen, &all);
            let same = keys.len() == all.len() && keys.iter().zip(&all).all(|(a, b)| *a == b.0);
            emit(&format!(
                "{{{},\"r\":{},\"p\":{},\"s\":{},\"m\":{},\"n\":{},\"e\":{},\"ik\":{}}}",
                pend,
                ints(&got),
                p,
                s,
                pairs(&all[p..all.len() - s]),
                size.min(2_000_000_000),
                empty as u8,
                same as u8,
            ));
            r.seen = all;
            true
        }
    }
}

/// Lengths of the common prefix and suffix.
pub fn window<T: PartialEq>(a: &[T], b: &[T]) -> (usize, usize) {
    let m = a.len().min(b.len());
    let mut p = 0;
    while p < m && a[p] == b[p] {
        p += 1;
    }
    let mut s = 0;
    while s < m - p && a[a.len() - 1 - s] == b[b.len() - 1 - s] {
        s += 1;
    }
    (p, s)
}

fn episode<K: Key, C: Coll<K>>(rng: &mut Rng, budget: usize) -> usize {
    emit(&format!(
        "{{\"op\":\"reset\",\"ty\":\"{}\",\"key\":\"{}\"}}",
        C::NAME,
        K::NAME
    ));
    let set = C::NAME == "set";
    let pend = "\"op\":\"new\"";
    let made = guard(pend, || {
        let c = C::make(rng.chance(50));
        let x = (c.all(), c.size(), c.empty());
        (c, x)
    });
    let mut r = match made {
        Err(m) => {
            emit(&format!("{{{},\"pn\":\"{}\"}}", pend, esc(&m)));
            return 1;
        }
        Ok((c, (all, n, e))) => {
            emit(&format!(
                "{{{},\"r\":[],\"p\":0,\"s\":0,\"m\":{},\"n\":{},\"e\":{},\"ik\":1}}",
                pend,
                pairs(&all),
                n,
                e as u8
            ));
            Run { c, seen: all }
        }
    };
    let target = *rng.pick(&[0, 1, 2, 3, 8, 14, 30, 60, 120, 250, 500, 1300]);
    let universe = (target * *rng.pick(&[1, 2, 4, 40]) + rng.range(1, 8)) as i64;
    let shift = *rng.pick(&[0, -universe / 2, -universe, 7]);
    let len = (target * 4 + 30).min(budget);
    let mut next = 0i64;
    let pattern = rng.below(6);
    let mut n = 0;
    let mut phase = 0;
    let mut left = 0;
    while n < len {
        if left == 0 {
            left = rng.range(1, target + 8);
            phase = rng.below(5);
        }
        left -= 1;
        let growing = match phase {
            0 => true,
            1 => false,
            2 => rng.chance(50),
            _ => r.seen.len() < target + rng.below(4),
        };
        let some = |rng: &mut Rng, r: &Run<C>| -> i64 { r.seen[rng.below(r.seen.len())].0 };
        let k = if growing {
            if !r.seen.is_empty() && rng.chance(12) {
                some(rng, &r) // replace
            } else {
                match pattern {
                    0 => {
                        next += 1;
                        next % (universe + 1) + shift
                    }
                    1 => {
                        next += 1;
                        universe - next % (universe + 1) + shift
                    }
                    2 if !r.seen.is_empty() => {
                        // near an existing key
                        some(rng, &r) + rng.range(0, 4) as i64 - 2
                    }
                    _ => rng.below(universe as usize) as i64 + shift,
                }
            }
        } else if r.seen.is_empty() || rng.chance(20) {
            // often absent: gaps, before the first, after the last
            match rng.below(4) {
                0 if !r.seen.is_empty() => some(rng, &r) + 1,
                1 if !r.seen.is_empty() => some(rng, &r) - 1,
                2 => *rng.pick(&[shift - 9, universe + shift + 9]),
                _ => rng.below(universe as usize) as i64 + shift,
            }
        } else {
            match pattern {
                0 => r.seen[0].0,
                1 => r.seen[r.seen.len() - 1].0,
                3 => {
                    let at = r.seen.len() / 2;
                    r.seen[at].0
                }
                _ => some(rng, &r),
            }
        };
        let k = k.clamp(-90_000, 90_000);
        let v = if set { 0 } else { rng.below(1000) as i64 };
        n += 1;
        let act = if growing { Act::Put(k, v) } else { Act::Del(k) };
        if !step::<K, C>(&mut r, &act) {
            return n;
        }
    }
    // sometimes take everything out again
    if rng.chance(40) {
        while !r.seen.is_empty() && n < budget {
            let at = match pattern {
                0 => 0,
                1 => r.seen.len() - 1,
                _ => rng.below(r.seen.len()),
            };
            n += 1;
            let k = r.seen[at].0;
            if !step::<K, C>(&mut r, &Act::Del(k)) {
                return n;
            }
        }
        let k = rng.range(0, 5) as i64;
        step::<K, C>(&mut r, &Act::Del(k));
        step::<K, C>(&mut r, &Act::Put(k, 0));
        n += 2;
    }
    n
}

pub fn run(seed: u64, kind: &str, steps: usize) {
    let mut rng = Rng::new(seed);
    let mut n = 0;
    while n < steps {
        let budget = steps - n + 40;
        let set = match kind {
            "map" => false,
            "set" => true,
            _ => rng.chance(50),
        };
        n += match (rng.below(5), set) {
            (0, false) => episode::<u32, OrdTreeMap<_, _>>(&mut rng, budget),
            (1, false) => episode::<i64, OrdTreeMap<_, _>>(&mut rng, budget),
            (2, false) => episode::<String, OrdTreeMap<_, _>>(&mut rng, budget),
            (3, false) => episode::<Reverse<i32>, OrdTreeMap<_, _>>(&mut rng, budget),
            (_, false) => episode::<(i16, u8), OrdTreeMap<_, _>>(&mut rng, budget),
            (0, true) => episode::<u32, OrdTreeSet<_>>(&mut rng, budget),
            (1, true) => episode::<i64, OrdTreeSet<_>>(&mut rng, budget),
            (2, true) => episode::<String, OrdTreeSet<_>>(&mut rng, budget),
            (3, true) => episode::<Reverse<i32>, OrdTreeSet<_>>(&mut rng, budget),
            (_, true) => episode::<(i16, u8), OrdTreeSet<_>>(&mut rng, budget),
        };
    }
}

/// Replays the cases of a file: one line per history, a list of [op, key, value] (0: put, 1: delete).
pub fn replay(cases: &[Vec<i64>], kind: &str) {
    fn go<C: Coll<i64>>(cases: &[Vec<i64>]) {
        let mut n = 0;
        for nums in cases {
            emit(&format!("{{\"op\":\"reset\",\"ty\":\"{}\",\"key\":\"i64\"}}", C::NAME));
            let mut r = Run {
                c: C::make(false),
                seen: vec![],
            };
            for a in nums.chunks(3) {
                let v = if C::NAME == "set" { 0 } else { a[2] };
                let act = if a[0] == 0 { Act::Put(a[1], v) } else { Act::Del(a[1]) };
                n += 1;
                if !step::<i64, C>(&mut r, &act) {
                    break;
                }
            }
        }
        println!("{{\"histories\":{},\"calls\":{}}}", cases.len(), n);
    }
    if kind == "set" {
        go::<OrdTreeSet<i64>>(cases)
    } else {
        go::<OrdTreeMap<i64, String>>(cases)
    }
}
