//! Trees of very many elements, recorded as stretches of consecutively numbered elements.
use crate::util::*;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{
    BTree, BTreeTrait, Child, Cursor, LeafIndex, LengthFinder, PreviousCache, QueryResult,
    UseLengthFinder,
};
use std::ops::{Bound, Range};

/// An element of length one, or what is left of one that was sliced to nothing.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Unit {
    id: u32,
    w: u8,
    gone: bool,
}

impl Unit {
    fn new(id: u32, w: u8) -> Self {
        Unit { id, w, gone: false }
    }
}

impl HasLength for Unit {
    fn rle_len(&self) -> usize {
        !self.gone as usize
    }
}
impl Sliceable for Unit {
    fn _slice(&self, r: Range<usize>) -> Self {
        Unit {
            gone: self.gone || r.is_empty(),
            ..*self
        }
    }
}
impl Mergeable for Unit {
    fn can_merge(&self, _: &Self) -> bool {
        false
    }
    fn merge_right(&mut self, _: &Self) {
        panic!("elements that cannot merge were merged")
    }
    fn merge_left(&mut self, _: &Self) {
        panic!("elements that cannot merge were merged")
    }
}
impl TryInsert for Unit {
    fn try_insert(&mut self, _: usize, e: Self) -> Result<(), Self> {
        Err(e)
    }
}
impl CanRemove for Unit {
    fn can_remove(&self) -> bool {
        self.gone
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Sums {
    len: i32,
    w: i32,
}
impl std::ops::AddAssign for Sums {
    fn add_assign(&mut self, o: Sums) {
        self.len += o.len;
        self.w += o.w;
    }
}
impl CanRemove for Sums {
    fn can_remove(&self) -> bool {
        self.len == 0 && self.w == 0
    }
}
fn minus(a: &Sums, b: &Sums) -> Sums {
    Sums {
        len: a.len - b.len,
        w: a.w - b.w,
    }
}

#[derive(Debug)]
struct Units<const DIFF: bool>;
impl<const DIFF: bool> BTreeTrait for Units<DIFF> {
    type Elem = Unit;
    type Cache = Sums;
    type CacheDiff = Sums;
    const USE_DIFF: bool = DIFF;
    fn calc_cache_internal(cache: &mut Sums, caches: &[Child<Self>]) -> Sums {
        let mut n = Sums::default();
        for c in caches {
            n += *c.cache();
        }
        let d = minus(&n, cache);
        *cache = n;
        d
    }
    fn apply_cache_diff(cache: &mut Sums, diff: &Sums) {
        *cache += *diff;
    }
    fn merge_cache_diff(a: &mut Sums, b: &Sums) {
        *a += *b;
    }
    fn get_elem_cache(e: &Unit) -> Sums {
        Sums {
            len: !e.gone as i32,
            w: if e.gone { 0 } else { e.w as i32 },
        }
    }
    fn new_cache_to_diff(c: &Sums) -> Sums {
        *c
    }
    fn sub_cache(l: &Sums, r: &Sums) -> Sums {
        minus(l, r)
    }
}
impl<const DIFF: bool> UseLengthFinder<Units<DIFF>> for Units<DIFF> {
    fn get_len(c: &Sums) -> usize {
        c.len as usize
    }
}

/// Stretches of consecutive numbers of one weight.
#[derive(Default)]
struct Runs(Vec<(u32, u32, u8)>);
impl Runs {
    fn put(&mut self, id: u32, w: u8) {
        match self.0.last_mut() {
            Some(l) if l.1 + 1 == id && l.2 == w => l.1 = id,
            _ => self.0.push((id, id, w)),
        }
    }
    fn of<'a>(es: impl IntoIterator<Item = &'a Unit>) -> Self {
        let mut r = Runs::default();
        for e in es {
            if e.gone {
                // nothing of length nothing may be left
                r.0.push((e.id, e.id, 99));
            } else {
                r.put(e.id, e.w);
            }
        }
        r
    }
    fn json(&self) -> String {
        list(self.0.iter().map(|(a, b, w)| format!("[{},{},{}]", a, b, w)))
    }
}

struct World<const D: bool> {
    tree: BTree<Units<D>>,
    rng: Rng,
    next: u32,
    handles: Vec<(u32, LeafIndex)>,
    size: usize,
    /// the structure is checked after every n-th call
    every: usize,
    count: usize,
}

struct Stop;

impl<const D: bool> World<D> {
    fn at(&self, p: usize) -> QueryResult {
        self.tree.query::<LengthFinder>(&p).unwrap()
    }
    fn cur(&self, p: usize) -> Cursor {
        self.at(p).cursor
    }
    fn id(&self, l: LeafIndex) -> i64 {
        self.tree.get_elem(l).map(|e| e.id as i64).unwrap_or(-1)
    }
    fn place(&self, c: Option<Cursor>) -> String {
        match c {
            None => "[-1,0]".into(),
            Some(c) => format!("[{},{}]", self.id(c.leaf), c.offset),
        }
    }
    fn note(&mut self, id: u32, l: LeafIndex) {
        if self.handles.len() < 400 {
            self.handles.push((id, l));
        } else {
            let i = self.rng.below(400);
            self.handles[i] = (id, l);
        }
    }

    /// One call, or several of one kind.
    fn call(
        &mut self,
        op: &str,
        args: String,
        f: impl FnOnce(&mut Self) -> String,
    ) -> Result<(), Stop> {
        let head = format!("\"op\":\"{}\"{}", op, args);
        self.count += 1;
        let check = self.count % self.every == 0;
        let mut done = false;
        let r = guard(&head, || f(self)).and_then(|r| {
            done = true;
            guard(&head, || {
                let runs = Runs::of(self.tree.iter());
                let c = *self.tree.root_cache();
                let nodes = self.tree.node_len();
                self.size = runs.0.iter().map(|r| (r.1 - r.0 + 1) as usize).sum();
                // the average is reported as the number of links it stands for
                let inner = nodes as f64 - self.size as f64;
                let links = (self.tree.internal_avg_children_num() * inner).round() as i64;
                format!(
                    "\"r\":{},\"c\":{},\"d\":{},\"nl\":{},\"li\":{},\"rc\":[{},{}]",
                    r,
                    runs.json(),
                    self.tree.depth(),
                    nodes,
                    links,
                    c.len,
                    c.w
                )
            })
        });
        match r {
            Ok(s) => {
                let ck = !check || guard(&head, || self.tree.check()).is_ok();
                emit(&format!("{{{},{},\"ck\":{}}}", head, s, ck as u32));
                Ok(())
            }
            Err(m) => {
                emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&m)));
                if done {
                    // it was looking at the tree that failed
                    emit(&format!(
                        "{{\"op\":\"q\",\"at\":\"Iter\",\"pn\":\"panic: {}\"}}",
                        esc(&m)
                    ));
                }
                Err(Stop)
            }
        }
    }

    /// Insertion of `k` elements.
    fn grow(&mut self, op: &'static str, a: usize, k: usize) -> Result<(), Stop> {
        // a chunk is far below the time after which a call counts as stuck
        let mut left = k;
        let mut a = a;
        while left > 0 {
            let k = left.min(3_000_000);
            left -= k;
            let lo = self.next;
            self.next += k as u32;
            let w = self.rng.below(4) as u8;
            let args = match op {
                "push" | "prepend" | "from" => {
                    format!(",\"k\":{},\"lo\":{},\"w\":{}", k, lo, w)
                }
                _ => format!(",\"a\":{},\"k\":{},\"lo\":{},\"w\":{}", a, k, lo, w),
            };
            let sample = (k / 40).max(1);
            let es = lo..lo + k as u32;
            self.call(op, args, |s| {
                match op {
                    "push" => {
                        for i in es {
                            let c = s.tree.push(Unit::new(i, w));
                            if i as usize % sample == 0 {
                                s.note(i, c.leaf);
                            }
                        }
                    }
                    "prepend" => {
                        for i in es.rev() {
                            let c = s.tree.prepend(Unit::new(i, w));
                            if i as usize % sample == 0 {
                                s.note(i, c.leaf);
                            }
                        }
                    }
                    "insq" => {
                        for (n, i) in es.enumerate() {
                            let (c, _) =
                                s.tree.insert::<LengthFinder>(&(a + n), Unit::new(i, w));
                            if i as usize % sample == 0 {
                                s.note(i, c.leaf);
                            }
                        }
                    }
                    "ins" => {
                        // each one before what was inserted before it
                        for i in es.rev() {
                            let c = s.cur(a);
                            let (c, _) = s.tree.insert_by_path(c, Unit::new(i, w));
                            if i as usize % sample == 0 {
                                s.note(i, c.leaf);
                            }
                        }
                    }
                    "insm" => {
                        let c = s.tree.query::<LengthFinder>(&a).map(|q| q.cursor);
                        s.tree
                            .insert_many_by_cursor(c, es.map(|i| Unit::new(i, w)));
                    }
                    _ => {
                        s.tree = es.map(|i| Unit::new(i, w)).collect();
                        s.handles.clear();
                    }
                }
                "[]".into()
            })?;
            if op != "prepend" {
                a += k;
            }
        }
        Ok(())
    }

    fn cut(&mut self, op: &'static str, a: usize, b: usize) -> Result<(), Stop> {
        self.call(op, format!(",\"a\":{},\"b\":{}", a, b), |s| {
            let got: Vec<Unit> = match op {
                "drain" => {
                    let r = s.tree.range::<LengthFinder>(a..b).unwrap();
                    s.tree.drain(r).collect()
                }
                "drainq" => s.tree.drain_by_query::<LengthFinder>(a..b).collect(),
                _ => (a..b)
                    .map(|_| {
                        let c = s.cur(a);
                        s.tree.remove_leaf(c).unwrap()
                    })
                    .collect(),
            };
            Runs::of(&got).json()
        })
    }

    fn touch(&mut self, op: &'static str, a: usize, b: usize) -> Result<(), Stop> {
        fn heavier(e: &mut Unit) -> Sums {
            let old = e.w as i32;
            e.w = (e.w + 1) % 4;
            Sums {
                len: 0,
                w: e.w as i32 - old,
            }
        }
        self.call(op, format!(",\"a\":{},\"b\":{}", a, b), |s| match op {
            "upd" => {
                let mut calls = 0;
                let r = s.cur(a)..s.cur(b);
                s.tree.update(r, &mut |e: &mut Unit| {
                    calls += 1;
                    Some(heavier(e))
                });
                format!("[{}]", calls)
            }
            "uplr" => {
                let leaves: Vec<_> = s
                    .tree
                    .iter_range((
                        Bound::Included(s.cur(a)),
                        if b > a {
                            Bound::Included(s.cur(b - 1))
                        } else {
                            Bound::Excluded(s.cur(a))
                        },
                    ))
                    .map(|x| (x.cursor().leaf, 0..1, ()))
                    .collect();
                s.tree.update_leaves_with_arg_in_ranges(leaves, |e, _| {
                    heavier(e);
                });
                "[]".into()
            }
            _ => {
                for p in a..b {
                    let h = s.cur(p).leaf;
                    let d = heavier(s.tree.get_elem_mut(h).unwrap());
                    if p % 3 == 0 || !D {
                        s.tree.recursive_update_cache(h.into(), D, None);
                    } else {
                        s.tree.recursive_update_cache(h.into(), D, Some(d));
                    }
                }
                "[]".into()
            }
        })
    }

    /// A heavier element, and a new one after it.
    fn update(&mut self, op: &'static str, a: usize) -> Result<(), Stop> {
        let lo = self.next;
        self.next += 1;
        let w = self.rng.below(4) as u8;
        let args = format!(",\"a\":{},\"k\":1,\"lo\":{},\"w\":{}", a, lo, w);
        self.call(op, args, |s| {
            let new = Unit::new(lo, w);
            if op == "upl" {
                let l = s.cur(a).leaf;
                s.tree.update_leaf(l, |e| {
                    e.w = (e.w + 1) % 4;
                    (true, Some(new), None)
                });
            } else {
                s.tree.update_leaf_by_search::<LengthFinder>(&a, |e, _| {
                    let old = e.w as i32;
                    e.w = (e.w + 1) % 4;
                    let d = Sums {
                        len: 1,
                        w: e.w as i32 - old + w as i32,
                    };
                    Some((d, Some(new), None))
                });
            }
            "[]".into()
        })
    }

    fn filter_update(&mut self) -> Result<(), Stop> {
        self.call("ucf", String::new(), |s| {
            let mut seen = vec![];
            s.tree.update_cache_and_elem_with_filter(
                |c| {
                    let drill = c.w > 0;
                    c.w = 0;
                    drill
                },
                |e| {
                    seen.push(e.id);
                    e.w = 0;
                },
            );
            // the summary of the whole is the caller's part, too
            if let Some(l) = s.tree.first_leaf() {
                s.tree.recursive_update_cache(l.into(), false, None);
            }
            seen.sort();
            let mut r = Runs::default();
            for id in seen {
                r.put(id, 0);
            }
            r.json()
        })
    }

    fn clear(&mut self) -> Result<(), Stop> {
        self.call("clear", String::new(), |s| {
            s.tree.clear();
            s.handles.clear();
            "[]".into()
        })
    }

    fn copy(&mut self) -> Result<(), Stop> {
        self.call("clone", String::new(), |s| {
            s.tree = s.tree.clone();
            "[]".into()
        })
    }

    fn ask(&mut self, at: &str, keys: &[(&str, String)]) {
        let ks = keys
            .iter()
            .map(|k| format!("\"{}\"", k.0))
            .collect::<Vec<_>>()
            .join(",");
        let body = keys
            .iter()
            .map(|k| format!("\"{}\":{}", k.0, k.1))
            .collect::<Vec<_>>()
            .join(",");
        emit(&format!(
            "{{\"op\":\"q\",\"at\":\"{}\",\"ks\":[{}],{}}}",
            at, ks, body
        ));
    }

    /// Questions of one kind.
    fn query(
        &mut self,
        at: &'static str,
        key: &'static str,
        times: usize,
        mut f: impl FnMut(&mut Self) -> String,
    ) -> Result<(), Stop> {
        let head = format!("\"op\":\"q\",\"at\":\"{}\"", at);
        match guard(&head, || {
            let v: Vec<_> = (0..times).map(|_| f(self)).collect();
            list(v)
        }) {
            Ok(s) => {
                self.ask(at, &[(key, s)]);
                Ok(())
            }
            Err(m) => {
                emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&m)));
                Err(Stop)
            }
        }
    }

    fn some(&mut self) -> usize {
        let n = self.size;
        match self.rng.below(8) {
            0 => 0,
            1 => n - 1,
            2 => self.rng.below(20.min(n)),
            3 => n - 1 - self.rng.below(20.min(n)),
            _ => self.rng.below(n),
        }
    }

    fn queries(&mut self) -> Result<(), Stop> {
        let n = self.size;
        self.query("Ends", "en", 1, |s| {
            let t = &s.tree;
            format!(
                "[{},{},{},{}]",
                t.first_leaf().map(|l| s.id(l)).unwrap_or(-1),
                t.last_leaf().map(|l| s.id(l)).unwrap_or(-1),
                s.place(t.start_cursor()),
                s.place(t.end_cursor())
            )
        })?;
        let hs = self.handles.clone();
        let mut each = hs.iter();
        self.query("Handles", "hd", hs.len(), |s| {
            let (i, l) = each.next().unwrap();
            format!("[{},{}]", i, s.id(*l))
        })?;
        if n == 0 {
            return Ok(());
        }
        self.query("Look", "lk", 12, |s| {
            let p = if s.rng.chance(10) { n } else { s.some() };
            let r = s.at(p);
            format!("[{},{},{},{}]", p, s.id(r.leaf()), r.offset(), r.found() as u32)
        })?;
        self.query("Range", "rg", 6, |s| {
            let (a, b) = (s.some(), s.some());
            let (a, b) = (a.min(b), a.max(b));
            let r = s.tree.range::<LengthFinder>(a..b).unwrap();
            format!("[{},{},{},{}]", a, b, s.id(r.start.leaf()), s.id(r.end.leaf()))
        })?;
        self.query("Next", "nx", 8, |s| {
            let p = s.some();
            let r = s.tree.next_elem(s.cur(p));
            format!("[{},{}]", p, r.map(|c| s.id(c.leaf)).unwrap_or(-1))
        })?;
        self.query("Prev", "pv", 8, |s| {
            let p = s.some();
            let r = s.tree.prev_elem(s.cur(p));
            format!("[{},{}]", p, r.map(|c| s.id(c.leaf)).unwrap_or(-1))
        })?;
        self.query("Cmp", "cm", 12, |s| {
            let p = s.some();
            let q = match s.rng.below(4) {
                0 => p,
                1 => (p + s.rng.below(30)).min(n - 1),
                _ => s.some(),
            };
            let r = s.tree.compare_pos(s.cur(p), s.cur(q)) as i32;
            format!("[{},{},{}]", p, q, r)
        })?;
        for (at, key) in [("PrefL", "pl"), ("PrefR", "pr"), ("Shift", "sh")] {
            self.query(at, key, 8, |s| {
                let (p, off) = (s.some(), s.rng.below(2));
                let mut c = s.cur(p);
                c.offset = off;
                let r = match key {
                    "pl" => s.tree.prefer_left(c),
                    "pr" => s.tree.prefer_right(c),
                    _ => s.tree.shift_path_by_one_offset(c),
                };
                format!("[{},{},{}]", p, off, s.place(r))
            })?;
        }
        self.query("Visit", "vp", 8, |s| {
            let (p, off) = (s.some(), s.rng.below(2));
            let mut c = s.cur(p);
            c.offset = off;
            let mut sum = Sums::default();
            let mut last = -1;
            let mut visits = 0;
            s.tree.visit_previous_caches(c, |x| match x {
                PreviousCache::NodeCache(c) => {
                    visits += 1;
                    sum += *c
                }
                PreviousCache::PrevSiblingElem(e) => {
                    visits += 1;
                    sum += Units::<D>::get_elem_cache(e)
                }
                PreviousCache::ThisElemAndOffset { offset, .. } => last = offset as i64,
            });
            format!(
                "[{},{},[{},{},{}],{},{}]",
                p,
                off,
                sum.len,
                sum.w,
                last,
                visits,
                s.tree.depth()
            )
        })?;
        self.query("IterRange", "ir", 4, |s| {
            let p = s.some();
            let q = if s.rng.chance(70) {
                (p + s.rng.below(3000)).min(n - 1)
            } else {
                n - 1
            };
            let incl = s.rng.below(2);
            let (a, b) = (s.cur(p), s.cur(q));
            let end = if incl == 1 {
                Bound::Included(b)
            } else {
                Bound::Excluded(b)
            };
            let runs = Runs::of(s.tree.iter_range((Bound::Included(a), end)).map(|x| x.elem));
            format!("[{},{},{},{}]", p, q, incl, runs.json())
        })?;
        self.query("Filter", "wf", 1, |s| {
            let mut seen = Runs::default();
            let mut places = Runs::default();
            for (r, e) in s.tree.iter_with_filter(|c: &Sums| (c.w > 0, *c)) {
                seen.put(e.id, e.w);
                places.put(r.len as u32, 1);
            }
            format!("[{},{}]", seen.json(), places.json())
        })
    }
}

fn history<const D: bool>(mut rng: Rng, steps: usize, size: usize, every: usize, n: usize) {
    let tall = n == 1;
    emit(&format!(
        "{{\"op\":\"reset\",\"fan\":{},\"diff\":{}}}",
        crate::gen::fan_out(),
        D as u32
    ));
    let how = if tall || rng.chance(20) { 0 } else { 2 + n };
    let mut w = World::<D> {
        tree: BTree::new(),
        rng,
        next: 1,
        handles: vec![],
        size: 0,
        every,
        count: 0,
    };
    let w = &mut w;
    let _ = (|| -> Result<(), Stop> {
        match how {
            0 => w.grow("push", 0, size)?,
            h if h % 3 == 0 => w.grow("prepend", 0, size)?,
            h if h % 3 == 1 => {
                w.grow("from", 0, size / 2)?;
                w.grow("insq", size / 5, size / 2)?
            }
            _ => {
                w.grow("insm", 0, size / 2)?;
                w.grow("ins", size / 5, size / 2)?
            }
        }
        w.queries()?;
        for step in 0..steps {
            let n = w.size;
            let few = if size > 1_000_000 { 20 } else { 300 };
            if n == 0 {
                let k = w.rng.range(1, size);
                w.grow(if step % 2 == 0 { "insm" } else { "push" }, 0, k)?;
                continue;
            }
            let a = w.some();
            let more = match w.rng.below(4) {
                0 => 1,
                1 => w.rng.range(1, 12),
                _ => w.rng.range(1, few),
            };
            let b = match w.rng.below(6) {
                0 => n,
                1 => a + w.rng.below(n - a + 1),
                _ => (a + more).min(n),
            };
            let at = if w.rng.chance(10) { n } else { a };
            let near = (a + more.min(40)).min(n);
            match w.rng.below(22) {
                0 | 1 => w.grow("push", 0, more)?,
                2 => w.grow("prepend", 0, more)?,
                3 | 4 => w.grow("insq", at, more)?,
                5 => w.grow("ins", at, more)?,
                6 | 7 => w.grow("insm", at, more)?,
                8 | 9 => w.cut("drain", a, near)?,
                10 => w.cut("drainq", a, near)?,
                // a large part of it
                11 if n > size / 4 => w.cut("drain", a, b)?,
                11 => w.grow("push", 0, size / 3)?,
                12 | 13 => w.cut("rm", a, near)?,
                14 => w.touch("upd", a, b)?,
                15 => w.touch("upd", a, near)?,
                16 => w.touch("uplr", a, near)?,
                17 => w.touch("gem", a, near)?,
                18 => w.update("upl", a)?,
                19 => w.update("ups", a)?,
                20 => w.copy()?,
                _ if w.rng.chance(60) => w.filter_update()?,
                _ if w.rng.chance(20) => w.clear()?,
                _ => w.queries()?,
            }
            if w.rng.chance(if tall { 60 } else { 25 }) {
                w.queries()?;
            }
        }
        w.queries()
    })();
}

pub fn run(seed: u64, steps: usize, size: usize) {
    let mut rng = Rng::new(seed);
    let huge = size > 1_000_000;
    let every = if huge { 6 } else { 1 };
    let mut left = steps;
    let mut n = 0;
    while left > 0 {
        let k = left.min(if huge { steps } else { 60 });
        left -= k;
        n += 1;
        let size = if huge {
            size
        } else {
            rng.range(size / 2, size)
        };
        let r = Rng::new(rng.next());
        // the first history always grows at its end: that makes the most levels
        let size = if n == 1 && !huge { size.max(40_000) } else { size };
        if huge || rng.chance(60) {
            history::<true>(r, k, size, every, n)
        } else {
            history::<false>(r, k, size, every, n)
        }
    }
}
