//! Chooses histories: what to call next, given the observed shape of the tree.
use crate::el::*;
use crate::tree::*;
use crate::util::*;

#[allow(unused)]
pub const OPS: [&str; 17] = [
    "push", "prepend", "ins", "insq", "insm", "from", "rm", "drain", "drainq", "upd", "upl", "ups",
    "uplr", "clear", "gem", "ucf", "clone",
];

/// What a history emphasises.
pub struct Profile {
    pub name: &'static str,
    pub w: [u32; 17],
    /// percent of steps followed by a query event, and which kinds
    pub q: usize,
    pub kinds: &'static [(&'static str, usize)],
    /// leaf-count targets, for the small and for the shipped fan-out
    pub small: &'static [usize],
    pub big: &'static [usize],
    pub two_trees: bool,
    /// percent of zero-length elements
    pub markers: usize,
    /// few steps on trees of many levels
    pub deep: bool,
}

//                 push prep ins insq insm from rm drn drq upd upl ups uplr clr gem ucf clone
const BASE: [u32; 17] = [6, 6, 30, 8, 8, 0, 14, 5, 4, 8, 12, 8, 4, 0, 3, 1, 0];
const SMALL: &[usize] = &[2, 5, 9, 16, 28, 45, 70, 110];
const BIG: &[usize] = &[3, 11, 24, 60, 110, 170];
const LONG: &[usize] = &[2, 5, 9, 16, 28];

macro_rules! prof {
    ($n:literal, [$($i:literal = $w:literal),*], $q:literal, $k:expr) => {
        Profile { name: $n, w: { #[allow(unused_mut)] let mut w = BASE; $( w[$i] = $w; )* w }, q: $q, kinds: $k,
            small: SMALL, big: BIG, two_trees: false, markers: 6, deep: false }
    };
}

pub fn profile(name: &str) -> Profile {
    match name {
        "C01" => prof!("C01", [0 = 14, 1 = 14, 2 = 60, 3 = 25, 4 = 3], 3, &[("look", 4), ("iter", 1)]),
        "C02" => prof!("C02", [4 = 50, 5 = 2, 13 = 1], 8, &[("look", 6), ("nav", 4), ("cmp", 3)]),
        "C03" => prof!("C03", [7 = 35, 8 = 18, 5 = 1], 6, &[("look", 6), ("nav", 4), ("cmp", 3)]),
        "C04" => prof!("C04", [6 = 55, 5 = 1], 6, &[("look", 6), ("nav", 4), ("cmp", 3), ("handles", 1)]),
        "C05" => prof!("C05", [9 = 55, 5 = 1], 4, &[("look", 4), ("nav", 2)]),
        "C06" => prof!("C06", [10 = 40, 11 = 35, 5 = 1], 4, &[("look", 4), ("nav", 2), ("cmp", 3)]),
        "C07" => prof!("C07", [12 = 45, 5 = 1], 4, &[("look", 4), ("nav", 2)]),
        "C08" => prof!("C08", [5 = 1, 12 = 8, 14 = 8, 15 = 2], 3, &[("look", 3)]),
        "C09" => prof!("C09", [5 = 1, 13 = 1, 6 = 24, 7 = 10, 4 = 12], 4, &[("nav", 6), ("cmp", 4)]),
        "C10" => {
            let mut p = prof!("C10", [5 = 1, 6 = 30, 7 = 14, 8 = 4, 9 = 3, 10 = 8, 11 = 6, 12 = 1, 14 = 0, 15 = 0], 2, &[("ends", 1)]);
            p.small = &[3, 12, 40, 90, 160, 260];
            p.big = &[4, 30, 90, 170, 300];
            p.markers = 2;
            p
        }
        "C11" => prof!("C11", [5 = 1], 45, &[("look", 40), ("range", 8), ("sum", 8), ("path", 5)]),
        "C12" => prof!("C12", [5 = 1], 45, &[("visit", 22)]),
        "C13" => prof!("C13", [5 = 1], 45, &[("cmp", 25), ("nav", 12), ("pref", 10), ("shift", 14), ("ends", 1)]),
        "C14" => prof!("C14", [5 = 1], 45, &[("iter", 1), ("irange", 8), ("ends", 1)]),
        "C15" => prof!("C15", [5 = 1, 15 = 16], 45, &[("filter", 6)]),
        "C16" => prof!("C16", [5 = 1, 6 = 20, 7 = 8], 25, &[("handles", 1)]),
        "C17" => prof!("C17", [2 = 40, 9 = 25, 10 = 30, 11 = 20, 12 = 12], 2, &[("handles", 1)]),
        "C18" => {
            let mut p = prof!("C18", [5 = 1, 13 = 4, 16 = 5, 15 = 2], 10, &[("look", 6), ("nav", 3), ("handles", 1), ("iter", 1)]);
            p.two_trees = true;
            p.small = &[2, 5, 12, 30];
            p.big = &[3, 13, 40];
            p
        }
        _ => {
            let mut p = prof!("C22", [5 = 1, 13 = 1, 16 = 1, 15 = 2, 7 = 9, 8 = 8], 20, &[
                ("look", 6), ("range", 3), ("sum", 2), ("path", 2), ("visit", 3), ("cmp", 4), ("nav", 3), ("pref", 3),
                ("shift", 3), ("ends", 1), ("iter", 1), ("irange", 3), ("filter", 2), ("handles", 1)]);
            p.two_trees = true;
            p.small = &[0, 1, 2, 4, 7, 12, 25, 60];
            p.big = &[0, 1, 2, 6, 12, 26, 80];
            p.markers = 12;
            p
        }
    }
}

pub struct Gen {
    pub r: Rng,
    next_id: i32,
    markers: usize,
    hot: usize,
    /// histories with one preferred place: 0 none, 1 front, 2 back, 3 one node border
    bias: usize,
    full: bool,
    fan: usize,
    /// large batches
    deep: bool,
}

impl Gen {
    fn fresh(&mut self, n: usize) -> Vec<i32> {
        (0..n)
            .map(|_| {
                self.next_id += 1;
                self.next_id * 8 + self.r.below(8) as i32
            })
            .collect()
    }

    /// a new element that fits the mode, for the place after `before` and before `after`
    fn elem(&mut self, before: Option<i32>, after: Option<i32>) -> El {
        if self.r.chance(self.markers) {
            self.next_id += 1;
            return El::new(vec![-(self.next_id * 8 + self.r.below(8) as i32) - 1]);
        }
        El::new(self.units(before, after))
    }

    fn units(&mut self, before: Option<i32>, after: Option<i32>) -> Vec<i32> {
        let before = before.filter(|x| *x >= 0);
        let after = after.filter(|x| *x >= 0);
        match mode() {
            Mode::Text => {
                let n = if self.r.chance(50) {
                    1
                } else {
                    self.r.range(1, cap())
                };
                self.fresh(n)
            }
            Mode::Atom => {
                let most = if cap() > 20 { cap() } else { 5 };
                let n = if self.r.chance(45) { 1 } else { self.r.range(2, most) };
                self.fresh(n)
            }
            Mode::Rle => {
                let x = match self.r.below(5) {
                    0 if before.is_some() => before.unwrap(),
                    1 if after.is_some() => after.unwrap(),
                    _ => 8 + self.r.below(8) as i32,
                };
                vec![x; self.r.range(1, if cap() > 20 { cap() } else { 4 })]
            }
            Mode::Run => {
                let n = self.r.range(1, if cap() > 20 { 40 } else { 4 });
                let start = match self.r.below(4) {
                    0 if before.is_some() => before.unwrap() + 8,
                    1 if after.is_some_and(|a| a >= 8 * n as i32) => after.unwrap() - 8 * n as i32,
                    _ => {
                        self.next_id += 50;
                        self.next_id * 8 + self.r.below(8) as i32
                    }
                };
                (0..n as i32).map(|i| start + 8 * i).collect()
            }
        }
    }

    /// a place: leaf index
    fn leaf(&mut self, d: &Dump) -> usize {
        let n = d.leaves.len();
        let style = if self.bias != 0 && self.r.chance(70) {
            self.bias + 1
        } else {
            self.r.weighted(&[30, 12, 6, 6, 16, 14, 10, 10])
        };
        let i = match style {
            0 => self.r.below(n),
            1 => self.hot + self.r.below(3),
            2 => 0,
            3 => n - 1,
            4 => {
                // the first or last element of a node
                let k = self.r.below(d.levels[0].len());
                let of: Vec<usize> = (0..n).filter(|i| d.leaves[*i].node == k).collect();
                if of.is_empty() {
                    0
                } else if self.r.chance(50) {
                    of[0]
                } else {
                    of[of.len() - 1]
                }
            }
            5 => {
                // an element of a node that is nearly full
                let fullest = d.levels[0].iter().map(|x| x.cnt).max().unwrap();
                self.in_node(d, |c| c >= fullest)
            }
            6 => {
                // an element of a node with few children
                let least = d.levels[0].iter().map(|x| x.cnt).min().unwrap();
                self.in_node(d, |c| c <= least)
            }
            _ => {
                // at the border of a node one level up
                if d.levels.len() < 2 {
                    self.r.below(n)
                } else {
                    let k = self.r.below(d.levels[1].len());
                    let upto: usize = d.levels[1][..k].iter().map(|x| x.cnt).sum();
                    let at = d
                        .leaves
                        .iter()
                        .position(|l| l.node >= upto)
                        .unwrap_or(n - 1);
                    if self.r.chance(50) {
                        at
                    } else {
                        at.saturating_sub(1)
                    }
                }
            }
        };
        let i = i.min(n - 1);
        self.hot = i.saturating_sub(1);
        i
    }

    fn in_node(&mut self, d: &Dump, f: impl Fn(usize) -> bool) -> usize {
        let c: Vec<usize> = (0..d.leaves.len())
            .filter(|i| f(d.levels[0][d.leaves[*i].node].cnt))
            .collect();
        if c.is_empty() {
            return self.r.below(d.leaves.len());
        }
        *self.r.pick(&c)
    }

    fn offset(&mut self, l: &LeafD) -> usize {
        let n = l.len();
        match self.r.below(4) {
            0 => 0,
            1 => n,
            _ => self.r.below(n + 1),
        }
    }

    fn cursor(&mut self, d: &Dump) -> (usize, usize) {
        let i = self.leaf(d);
        (i, self.offset(&d.leaves[i]))
    }

    fn around(d: &Dump, i: usize, off: usize) -> (Option<i32>, Option<i32>) {
        let l = &d.leaves[i];
        let before = if off > 0 {
            l.it.get(off - 1).copied()
        } else {
            i.checked_sub(1).and_then(|j| d.leaves[j].it.last().copied())
        };
        let after = if off < l.it.len() {
            l.it.get(off).copied()
        } else {
            d.leaves.get(i + 1).and_then(|x| x.it.first().copied())
        };
        (before, after)
    }

    fn pos(&mut self, d: &Dump) -> usize {
        let total = d.units();
        if d.leaves.is_empty() || self.r.chance(15) {
            return if self.r.chance(50) { total } else { 0 };
        }
        let (i, off) = self.cursor(d);
        d.leaves[..i].iter().map(|l| l.len()).sum::<usize>() + off
    }

    /// an ordered pair of cursors
    fn span(&mut self, d: &Dump) -> ((usize, usize), (usize, usize)) {
        let n = d.leaves.len();
        let a = self.cursor(d);
        let b = match self.r.below(10) {
            0 => a,
            1 | 2 => {
                // within the same element
                (a.0, self.offset(&d.leaves[a.0]))
            }
            3 | 4 => {
                let j = (a.0 + self.r.range(0, 3)).min(n - 1);
                (j, self.offset(&d.leaves[j]))
            }
            5 => {
                // about one node further
                let j = (a.0 + self.r.range(self.fan / 2, self.fan + 2)).min(n - 1);
                (j, self.offset(&d.leaves[j]))
            }
            6 => (n - 1, d.leaves[n - 1].len()),
            7 => (0, 0),
            _ => self.cursor(d),
        };
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }

    fn batch(&mut self, d: &Dump, at: Option<(usize, usize)>) -> Vec<El> {
        let n = match self.r.below(10) {
            0 => 0,
            1 => 1,
            2 | 3 => 2,
            4..=6 => self.r.range(2, 6),
            7 | 8 => self.r.range(self.fan - 3, self.fan + 3),
            _ if self.deep => self.r.range(self.fan, 6 * self.fan * self.fan),
            _ => self.r.range(10, 3 * self.fan),
        };
        self.batch_of(d, at, n)
    }

    fn batch_of(&mut self, d: &Dump, at: Option<(usize, usize)>, n: usize) -> Vec<El> {
        let (mut before, after) = match at {
            Some((i, o)) => Self::around(d, i, o),
            None => (d.leaves.last().and_then(|l| l.it.last().copied()), None),
        };
        let mut v = vec![];
        for _ in 0..n {
            let e = self.elem(before, after);
            before = e.it.last().copied();
            v.push(e);
        }
        v
    }

    /// pieces an update of one element leaves behind
    fn pieces(&mut self, l: &LeafD, allow_two: bool) -> (Vec<i32>, Option<Vec<i32>>, Option<Vec<i32>>) {
        let it = &l.it;
        let marker = it[0] < 0;
        let n = it.len();
        let changed = |r: &mut Rng, v: &[i32]| {
            let x = r.below(8) as i32;
            v.iter().map(|y| add(*y, x)).collect::<Vec<_>>()
        };
        let kind = if marker {
            *self.r.pick(&[0usize, 1, 2, 4, 5])
        } else {
            self.r.below(7)
        };
        match kind {
            0 => (it.clone(), None, None),
            1 => (changed(&mut self.r, it), None, None),
            2 => {
                if marker || self.r.chance(40) {
                    (vec![], None, None)
                } else {
                    let a = self.r.below(n + 1);
                    (it[..a].to_vec(), None, None)
                }
            }
            3 => {
                let a = self.r.below(n + 1);
                let b = if allow_two {
                    self.r.range(a, n)
                } else {
                    n
                };
                let mid = changed(&mut self.r, &it[a..b]);
                let right = it[b..].to_vec();
                if allow_two && (b < n || self.r.chance(30)) {
                    (it[..a].to_vec(), Some(mid), Some(right))
                } else {
                    (it[..a].to_vec(), Some([mid, right].concat()), None)
                }
            }
            4 => {
                let e1 = self.elem(it.last().copied(), None).it;
                let e2 = if allow_two && self.r.chance(50) {
                    Some(self.elem(e1.last().copied(), None).it)
                } else {
                    None
                };
                (it.clone(), Some(e1), e2)
            }
            5 => {
                let e1 = self.elem(None, None).it;
                if self.r.chance(30) {
                    return (it.clone(), None, Some(e1));
                }
                let e2 = if allow_two && self.r.chance(50) {
                    if self.r.chance(30) {
                        Some(vec![])
                    } else {
                        Some(self.elem(e1.last().copied(), None).it)
                    }
                } else {
                    None
                };
                (vec![], Some(e1), e2)
            }
            _ => {
                // cut in two, the right part continuing as it was: it may merge with what follows
                let a = self.r.below(n + 1);
                (it[..a].to_vec(), Some(it[a..].to_vec()), None)
            }
        }
    }

    fn one(&mut self, w: &World<impl HT>, t: usize, kind: usize, dead: &[u32]) -> Option<Op> {
        let d = w.d(t);
        let n = d.leaves.len();
        let cur = |c: (usize, usize)| -> Cur { (d.leaves[c.0].id, c.1) };
        Some(match kind {
            0 => {
                let b = d.leaves.last().and_then(|l| l.it.last().copied());
                Op::Push(self.elem(b, None))
            }
            1 => {
                let a = d.leaves.first().and_then(|l| l.it.first().copied());
                Op::Prepend(self.elem(None, a))
            }
            2 => {
                if n == 0 {
                    return None;
                }
                let c = self.cursor(d);
                let (b, a) = Self::around(d, c.0, c.1);
                Op::Ins(cur(c), self.elem(b, a))
            }
            3 => {
                let p = self.pos(d);
                let (b, a) = match d.lookup(p) {
                    Some((i, o)) => Self::around(d, i, o),
                    None => (None, None),
                };
                Op::InsQ(p, self.elem(b, a))
            }
            4 => {
                if n == 0 {
                    let b = self.batch(d, None);
                    return Some(Op::InsMany(None, b));
                }
                if self.r.chance(4) {
                    // without a cursor: appended, for a batch of one
                    let b = self.batch_of(d, None, 1);
                    return Some(Op::InsMany(None, b));
                }
                let c = self.cursor(d);
                let b = self.batch(d, Some(c));
                Op::InsMany(Some(cur(c)), b)
            }
            5 => {
                let m = self.r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 10, 11, 13, 16, 17, 21, 40, 64, 65, 101, 120]);
                let m = *m;
                let b = self.batch_of(d, None, m);
                Op::From(b)
            }
            6 => {
                if n == 0 || (!dead.is_empty() && self.r.chance(6)) {
                    if dead.is_empty() {
                        return None;
                    }
                    let h = *self.r.pick(dead);
                    return Some(Op::Rm((h, self.r.below(3))));
                }
                let c = self.cursor(d);
                Op::Rm(cur(c))
            }
            7 => {
                if n == 0 {
                    return None;
                }
                let (a, b) = self.span(d);
                let k = *self.r.pick(&[0usize, 1, 2, 5, 100000]);
                Op::Drain(cur(a), cur(b), k)
            }
            8 => {
                let (a, b) = if n == 0 {
                    (0, self.r.below(2))
                } else {
                    let (a, b) = self.span(d);
                    let base = |c: (usize, usize)| {
                        d.leaves[..c.0].iter().map(|l| l.len()).sum::<usize>() + c.1
                    };
                    (base(a), base(b))
                };
                let k = *self.r.pick(&[0usize, 1, 3, 100000, 100000]);
                Op::DrainQ(a, b, k)
            }
            9 => {
                if n == 0 || !self.full {
                    return None;
                }
                let (a, b) = self.span(d);
                let k = self.r.weighted(&[36, 8, 22, 13, 8, 6, 10, 14]) as u32;
                Op::Upd(cur(a), cur(b), k, self.r.below(8) as i32)
            }
            10 => {
                if n == 0 {
                    return None;
                }
                let i = self.leaf(d);
                let l = &d.leaves[i];
                let (a, b, c) = self.pieces(l, true);
                // the flag tells whether the element's summary changes
                let (x, y) = (El::new(a.clone()), El::new(l.it.clone()));
                let same = sum_cache(&x) == sum_cache(&y) && max_cache(&x) == max_cache(&y);
                let flag = !same || self.r.chance(50);
                Op::Upl(l.id, a, b, c, flag)
            }
            11 => {
                if n == 0 || !self.full {
                    return None;
                }
                let total = d.units();
                let p = if self.r.chance(6) { total } else { self.pos(d) };
                let (i, _) = d.lookup(p).unwrap();
                let l = &d.leaves[i];
                if self.r.chance(6) {
                    return Some(Op::Ups(p, true, l.it.clone(), None));
                }
                let (mut a, mut b, _) = self.pieces(l, false);
                if b.as_ref().is_some_and(|x| x.is_empty()) {
                    b = None;
                }
                if a.is_empty() {
                    if let Some(x) = b.take() {
                        a = x;
                    }
                }
                Op::Ups(p, false, a, b)
            }
            12 => {
                if n == 0 || !self.full {
                    return None;
                }
                let m = self.r.range(1, 6);
                let extra = *self.r.pick(&[0usize, 0, 8, 16]);
                let mut v = vec![];
                let mut i = self.leaf(d);
                for _ in 0..m {
                    if self.r.chance(45) {
                        i = self.leaf(d);
                    }
                    let l = &d.leaves[i];
                    let n = l.len();
                    if n == 0 {
                        if self.r.chance(30) {
                            v.push((l.id, 0, 0, self.r.below(8) as i32));
                        }
                        continue;
                    }
                    let a = self.r.below(n + 1);
                    let b = self.r.range(a, n);
                    let (a, b) = if self.r.chance(20) { (0, n) } else { (a, b) };
                    // one call never both grows and shrinks: the order of application is not promised
                    let x = self.r.below(8) + if self.r.chance(60) { extra } else { 0 };
                    v.push((l.id, a, b, x as i32));
                }
                Op::Uplr(v)
            }
            13 => Op::Clear,
            14 => {
                if n == 0 {
                    return None;
                }
                let i = self.leaf(d);
                Op::Gem(
                    d.leaves[i].id,
                    self.r.below(20) as i32,
                    self.r.below(3) as u32,
                )
            }
            15 => {
                let (k, p) = self.filter(d);
                let x = if self.r.chance(50) { 0 } else { self.r.below(8) as i32 };
                Op::Ucf(k, p, x)
            }
            _ => Op::CloneTo(1 - t),
        })
    }

    fn filter(&mut self, d: &Dump) -> (u32, i64) {
        let k = self.r.below(5) as u32;
        let p = match k {
            0 => {
                let top = d.leaves.iter().map(|l| l.c.x).max().unwrap_or(1);
                let node = d.levels[0].iter().map(|l| l.c.x).max().unwrap_or(1);
                *self.r.pick(&[top, (top + 1) / 2, node, node - 1])
            }
            1 => {
                let top = d.levels.iter().flat_map(|l| l.iter()).map(|n| n.c.len).max();
                self.r.below(top.unwrap_or(1).max(0) as usize + 1) as i64
            }
            _ => self.r.below(3) as i64,
        };
        (k, p)
    }

    fn queries(&mut self, w: &World<impl HT>, t: usize, p: &Profile) -> Vec<Q> {
        let d = w.d(t);
        let n = d.leaves.len();
        let mut v = vec![];
        let total = d.units();
        for (kind, count) in p.kinds {
            match *kind {
                "look" => {
                    if total <= *count {
                        for i in 0..total + 2 {
                            v.push(Q::Look(i));
                        }
                    } else {
                        for _ in 0..*count {
                            let x = self.pos(d);
                            v.push(Q::Look(if self.r.chance(30) { x.saturating_sub(1) } else { x }));
                        }
                        v.push(Q::Look(total + self.r.below(3)));
                    }
                }
                "range" => {
                    for _ in 0..*count {
                        let (a, b) = (self.pos(d), self.pos(d));
                        v.push(Q::Range(a.min(b), a.max(b)));
                    }
                }
                "sum" => {
                    let top = d.rc.x.max(0) as usize;
                    for _ in 0..*count {
                        v.push(Q::BySum(self.r.below(top + 2) as i64));
                    }
                }
                "path" => {
                    for _ in 0..*count {
                        let depth = d.depth();
                        let path = (0..depth)
                            .map(|_| (self.r.below(self.fan), !self.r.chance(15)))
                            .collect();
                        v.push(Q::Path(path, self.r.below(4), self.r.chance(80)));
                    }
                }
                "ends" => v.push(Q::Ends),
                "iter" => v.push(Q::Iter),
                "handles" => v.push(Q::Handles),
                "filter" => {
                    for _ in 0..*count {
                        let (k, p) = self.filter(d);
                        v.push(Q::Filter(k, p));
                    }
                }
                "irange" if n == 0 => v.push(Q::IterRange(None, 2, (0, 0))),
                _ if n == 0 => {}
                "cmp" => {
                    for _ in 0..*count {
                        let (a, b) = if self.r.chance(30) {
                            let (a, b) = self.span(d);
                            if self.r.chance(50) {
                                (a, b)
                            } else {
                                (b, a)
                            }
                        } else {
                            (self.cursor(d), self.cursor(d))
                        };
                        v.push(Q::Cmp(
                            (d.leaves[a.0].id, a.1),
                            (d.leaves[b.0].id, b.1),
                        ));
                    }
                }
                "irange" => {
                    for _ in 0..*count {
                        let (a, b) = self.span(d);
                        let s = if self.r.chance(15) {
                            None
                        } else {
                            Some((d.leaves[a.0].id, a.1))
                        };
                        let kind = self.r.weighted(&[50, 35, 15]) as u32;
                        v.push(Q::IterRange(s, kind, (d.leaves[b.0].id, b.1)));
                    }
                }
                k => {
                    for _ in 0..*count {
                        let c = self.cursor(d);
                        let c = (d.leaves[c.0].id, c.1);
                        match k {
                            "nav" => {
                                v.push(Q::Next(c));
                                v.push(Q::Prev(c));
                            }
                            "pref" => {
                                v.push(Q::PrefL(c));
                                v.push(Q::PrefR(c));
                            }
                            "shift" => v.push(Q::Shift(c)),
                            "visit" => v.push(Q::Visit(c)),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        }
        v
    }
}

/// A plan over several calls. 0: drain the front, then take away what is left there, bit by bit;
/// 1: drain many stretches from the back to the front, leaving little between them.
#[derive(Default)]
struct Motif {
    kind: usize,
    left: usize,
    pos: usize,
    t: usize,
    began: bool,
}

impl Gen {
    fn planned(&mut self, d: &Dump, m: &mut Motif) -> Option<Op> {
        let n = d.leaves.len();
        if n < 3 {
            m.left = 0;
            return None;
        }
        let id = |i: usize| d.leaves[i].id;
        if m.kind == 0 {
            if !m.began || self.r.chance(6) {
                m.began = true;
                let i = self.r.range(1, n - 2);
                let o = if self.r.chance(70) { 0 } else { self.offset(&d.leaves[i]) };
                return Some(Op::Drain((id(0), 0), (id(i), o), 100000));
            }
            let i = *self.r.pick(&[0usize, 0, 0, 0, 1, 2]);
            return Some(match self.r.below(8) {
                0 => Op::Drain((id(0), 0), (id((i + 1).min(n - 1)), 0), 0),
                1 | 2 => Op::Upl(id(i), vec![], None, None, true),
                3 if self.full && d.leaves[i].len() > 0 => {
                    let at = d.leaves[..i].iter().map(|l| l.len()).sum::<usize>();
                    Op::Ups(at, false, vec![], None)
                }
                _ => Op::Rm((id(i), 0)),
            });
        }
        let w = self.r.range(1, 3 * self.fan);
        m.pos = m.pos.min(n);
        if m.pos < w + 2 {
            m.left = 0;
            return None;
        }
        let a = m.pos - w;
        let end = if m.pos < n { (id(m.pos), 0) } else { (id(n - 1), d.leaves[n - 1].len()) };
        m.pos = a - self.r.range(1, 2);
        Some(Op::Drain((id(a), 0), end, 100000))
    }
}

/// One episode: grow, churn and shrink around changing targets.
pub fn episode<B: HT>(seed: u64, p: &Profile, fan: usize, steps: usize, m: Mode, cap: usize) {
    set_mode(m, cap);
    let mut g = Gen {
        r: Rng::new(seed),
        next_id: 100,
        markers: 0,
        hot: 0,
        bias: 0,
        full: B::FULL,
        fan,
        deep: p.deep,
    };
    g.markers = if g.r.chance(40) { 0 } else { p.markers };
    g.bias = *g.r.pick(&[0usize, 0, 0, 0, 0, 1, 2, 3]);
    let mut w: World<B> = World::new(true);
    emit(&w.reset_event(&format!("{}-{}", p.name, seed), fan, m));
    // long elements: fewer of them
    let sizes = if cap > 20 { LONG } else if fan <= 6 { p.small } else { p.big };
    let mut target = *g.r.pick(sizes);
    let mut churn = g.r.range(4, 30);
    let mut fast = g.r.chance(60);
    if g.full && p.deep && g.r.chance(70) {
        let d = w.d(0).clone();
        let b = g.batch_of(&d, None, target);
        if w.apply(0, &Op::InsMany(None, b)).is_err() {
            return;
        }
    } else if p.deep || g.r.chance(35) && p.w[5] > 0 && target > 4 {
        let d = w.d(0).clone();
        let b = g.batch_of(&d, None, target);
        if w.apply(0, &Op::From(b)).is_err() {
            return;
        }
    }
    let mut done = 0;
    let mut streak = (0, 0);
    let mut motif = Motif::default();
    while done < steps {
        let t = if w.live(1) && g.r.chance(50) { 1 } else { 0 };
        let n = w.d(t).leaves.len();
        let mut ws = p.w;
        let grow = n + 2 < target;
        let shrink = n > target + 2 + target / 8;
        if grow {
            for k in [6, 7, 8] {
                ws[k] = (ws[k] + 7) / 8;
            }
            if fast {
                ws[4] += 20;
            }
        } else if shrink {
            for k in [0, 1, 2, 3, 4] {
                ws[k] = (ws[k] + 7) / 8;
            }
            ws[6] += 40;
            if fast {
                ws[7] += 10;
            }
        } else {
            churn = churn.saturating_sub(1);
            if churn == 0 {
                target = *g.r.pick(sizes);
                churn = g.r.range(4, 30);
                fast = g.r.chance(50);
                if g.r.chance(30) {
                    g.bias = g.r.below(4);
                }
            }
        }
        if n > if p.deep { 2500 } else { 400 } {
            ws[4] = 0;
        }
        if g.r.chance(97) {
            ws[5] = 0;
            ws[13] = ws[13].min(2);
        }
        if !p.two_trees || g.r.chance(60) {
            ws[16] = 0;
        }
        // sometimes one kind of call many times over
        if streak.1 > 0 {
            streak.1 -= 1;
        } else if !grow && g.r.chance(if p.name == "C06" { 5 } else { 1 }) {
            streak = (g.r.weighted(&ws), g.r.range(6, 30));
        }
        let kind = if streak.1 > 0 { streak.0 } else { g.r.weighted(&ws) };
        // an update in a shrinking phase usually empties elements
        let dead: Vec<u32> = if kind == 6 {
            let live: std::collections::HashSet<u32> =
                w.d(t).leaves.iter().map(|l| l.id).collect();
            let known = w.s(t).known() as u32;
            (0..known).filter(|i| !live.contains(i)).collect()
        } else {
            vec![]
        };
        // or a longer plan
        if motif.left > 0 {
            motif.left -= 1;
        } else if !grow && n > fan && g.r.chance(if p.deep { 9 } else { 2 }) {
            motif = Motif {
                kind: g.r.below(2),
                left: g.r.range(2, 12),
                pos: n,
                t,
                began: false,
            };
        }
        let planned = if motif.left > 0 && w.live(motif.t) {
            let d = w.d(motif.t).clone();
            g.planned(&d, &mut motif)
        } else {
            None
        };
        let t = if planned.is_some() { motif.t } else { t };
        let Some(op) = planned.or_else(|| g.one(&w, t, kind, &dead)) else {
            streak.1 = 0;
            if n == 0 && ws[0] + ws[1] + ws[4] == 0 {
                return;
            }
            continue;
        };
        done += 1;
        if w.apply(t, &op).is_err() {
            return;
        }
        if g.r.chance(p.q) {
            let qs = g.queries(&w, t, p);
            if !qs.is_empty() && w.apply(t, &Op::Queries(qs)).is_err() {
                return;
            }
        }
    }
}

/// The number of children at which a node splits, found by looking.
pub fn fan_out() -> usize {
    set_mode(Mode::Atom, 4);
    let mut s: Slot<Sum<true>> = Slot::new();
    for i in 0..64 {
        s.tree.push(El::new(vec![8 * i]));
        if s.tree.depth() > 1 {
            return i as usize + 1;
        }
    }
    0
}

pub fn run(seed: u64, profile_name: &str, steps: usize, deep: bool) {
    let mut p = profile(profile_name);
    if deep {
        p.small = &[230, 400, 650];
        p.big = &[700, 1300, 1800];
        p.deep = true;
    }
    let fan = match guard("\"op\":\"fan\",\"t\":0", fan_out) {
        Ok(f) if f >= 4 => f,
        _ => 12,
    };
    let mut r = Rng::new(seed);
    let mut left = steps;
    let mut ep = 0u64;
    while left > 0 {
        let len = if deep { r.range(30, 60) } else { r.range(40, 160).min(left.max(40)) };
        left = left.saturating_sub(len);
        let s = r.next() >> 16;
        let m = *r.pick(&[Mode::Text, Mode::Text, Mode::Rle, Mode::Run, Mode::Atom, Mode::Atom]);
        let cap = if !deep && r.chance(5) {
            *r.pick(&[30usize, 80, 300])
        } else {
            *r.pick(&[3usize, 4, 4, 6])
        };
        let needs_full = matches!(p.name, "C05" | "C07");
        match r.below(10) {
            0 | 1 if !needs_full => episode::<Max>(s, &p, fan, len, m, cap),
            2 | 3 => episode::<Sum<false>>(s, &p, fan, len, m, cap),
            _ => episode::<Sum<true>>(s, &p, fan, len, m, cap),
        }
        ep += 1;
    }
    let _ = ep;
}
