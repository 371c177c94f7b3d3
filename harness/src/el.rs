//! The element types and summaries the trees are instantiated with.
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTreeTrait, Child, FindResult, Query, UseLengthFinder};
use std::cell::Cell;
use std::ops::Range;

/// How elements merge. A unit is a number `8 * id + v`; a zero-length element is one negative number.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// chunks of at most `cap` units: merge and absorb whatever fits
    Text,
    /// runs of one value: merge on equal value
    Rle,
    /// ascending runs: `a` then `b` merge only if `b` continues `a`
    Run,
    /// never merge
    Atom,
}

thread_local! {
    static MODE: Cell<(Mode, usize)> = const { Cell::new((Mode::Atom, 4)) };
}

pub fn set_mode(m: Mode, cap: usize) {
    MODE.with(|x| x.set((m, cap)));
}
pub fn mode() -> Mode {
    MODE.with(|x| x.get().0)
}
pub fn cap() -> usize {
    MODE.with(|x| x.get().1)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct El {
    pub it: Vec<i32>,
}

impl El {
    pub fn new(it: Vec<i32>) -> Self {
        Self { it }
    }
    pub fn marker(&self) -> bool {
        self.it.first().is_some_and(|x| *x < 0)
    }
    pub fn add(&mut self, d: i32) {
        for x in self.it.iter_mut() {
            *x = add(*x, d);
        }
    }
    /// as `Touch` of the specification
    pub fn touch(&mut self, x: i32) {
        self.add(x);
        match x {
            8..=15 => self.grow(1),
            16.. => self.it.truncate(1),
            _ => {}
        }
    }
    /// one unit becomes two
    pub fn grow(&mut self, d: i32) {
        if self.it.len() == 1 && !self.marker() {
            self.it.push(add(self.it[0], d));
        }
    }
}

fn abs(x: i32) -> i32 {
    if x < 0 {
        -x - 1
    } else {
        x
    }
}
pub fn val(x: i32) -> i32 {
    abs(x) & 7
}
/// what an item adds to the second measure; a zero-length element may add nothing
pub fn weight(x: i32) -> i64 {
    val(x) as i64 + (x >= 0) as i64
}
pub fn add(x: i32, d: i32) -> i32 {
    let y = abs(x);
    let z = (y & !7) | (((y & 7) + d) & 7);
    if x < 0 {
        -z - 1
    } else {
        z
    }
}

impl HasLength for El {
    fn rle_len(&self) -> usize {
        if self.marker() {
            0
        } else {
            self.it.len()
        }
    }
}

impl Sliceable for El {
    fn _slice(&self, range: Range<usize>) -> Self {
        if self.marker() {
            panic!("a zero-length element was sliced");
        }
        El::new(self.it[range].to_vec())
    }
}

impl Mergeable for El {
    fn can_merge(&self, rhs: &Self) -> bool {
        if self.marker() || rhs.marker() {
            return false;
        }
        let (Some(a), Some(b)) = (self.it.last(), rhs.it.first()) else {
            return mode() == Mode::Text;
        };
        match mode() {
            Mode::Text => self.it.len() + rhs.it.len() <= cap(),
            Mode::Rle => a == b,
            Mode::Run => a + 8 == *b,
            Mode::Atom => false,
        }
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.it.extend_from_slice(&rhs.it);
    }
    fn merge_left(&mut self, left: &Self) {
        self.it.splice(0..0, left.it.iter().copied());
    }
}

impl TryInsert for El {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        if mode() != Mode::Text
            || self.marker()
            || elem.marker()
            || self.it.len() + elem.it.len() > cap()
        {
            return Err(elem);
        }
        self.it.splice(pos..pos, elem.it.iter().copied());
        Ok(())
    }
}

impl CanRemove for El {
    fn can_remove(&self) -> bool {
        self.it.is_empty()
    }
}

/// A summary: number of units, and a second measure (a sum or a maximum of values).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct C2 {
    pub len: i64,
    pub x: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct D2 {
    pub len: i64,
    pub x: i64,
}

impl CanRemove for D2 {
    fn can_remove(&self) -> bool {
        self.len == 0 && self.x == 0
    }
}

pub fn sum_cache(e: &El) -> C2 {
    C2 {
        len: e.rle_len() as i64,
        x: e.it.iter().map(|x| weight(*x)).sum(),
    }
}
pub fn max_cache(e: &El) -> C2 {
    C2 {
        len: e.rle_len() as i64,
        x: e.it.iter().map(|x| weight(*x)).max().unwrap_or(0),
    }
}

/// What the harness needs of a tree type.
pub trait HT:
    BTreeTrait<Elem = El, Cache = C2> + UseLengthFinder<Self> + Sized + 'static
{
    /// differences are meaningful, so every operation is supported
    const FULL: bool;
    const NAME: &'static str;
    fn diff(old: C2, new: C2) -> Self::CacheDiff;
}

/// Sums, maintained by differences (`DIFF`) or recomputed.
#[derive(Debug)]
pub struct Sum<const DIFF: bool>;

impl<const DIFF: bool> BTreeTrait for Sum<DIFF> {
    type Elem = El;
    type Cache = C2;
    type CacheDiff = D2;
    const USE_DIFF: bool = DIFF;
    fn calc_cache_internal(cache: &mut C2, caches: &[Child<Self>]) -> D2 {
        let mut n = C2::default();
        for c in caches {
            n.len += c.cache.len;
            n.x += c.cache.x;
        }
        let d = D2 {
            len: n.len - cache.len,
            x: n.x - cache.x,
        };
        *cache = n;
        d
    }
    fn apply_cache_diff(cache: &mut C2, diff: &D2) {
        cache.len += diff.len;
        cache.x += diff.x;
    }
    fn merge_cache_diff(a: &mut D2, b: &D2) {
        a.len += b.len;
        a.x += b.x;
    }
    fn get_elem_cache(elem: &El) -> C2 {
        sum_cache(elem)
    }
    fn new_cache_to_diff(c: &C2) -> D2 {
        D2 { len: c.len, x: c.x }
    }
    fn sub_cache(l: &C2, r: &C2) -> D2 {
        D2 {
            len: l.len - r.len,
            x: l.x - r.x,
        }
    }
}

impl<const DIFF: bool> UseLengthFinder<Sum<DIFF>> for Sum<DIFF> {
    fn get_len(cache: &C2) -> usize {
        cache.len as usize
    }
}

impl<const DIFF: bool> HT for Sum<DIFF> {
    const FULL: bool = true;
    const NAME: &'static str = if DIFF { "diff" } else { "sum" };
    fn diff(old: C2, new: C2) -> D2 {
        D2 {
            len: new.len - old.len,
            x: new.x - old.x,
        }
    }
}

/// Maxima: there are no differences, everything is recomputed.
#[derive(Debug)]
pub struct Max;

impl BTreeTrait for Max {
    type Elem = El;
    type Cache = C2;
    type CacheDiff = ();
    const USE_DIFF: bool = false;
    fn calc_cache_internal(cache: &mut C2, caches: &[Child<Self>]) {
        let mut n = C2::default();
        for c in caches {
            n.len += c.cache.len;
            n.x = n.x.max(c.cache.x);
        }
        *cache = n;
    }
    fn apply_cache_diff(_: &mut C2, _: &()) {
        panic!("a difference was applied to a summary that has none");
    }
    fn merge_cache_diff(_: &mut (), _: &()) {}
    fn get_elem_cache(elem: &El) -> C2 {
        max_cache(elem)
    }
    fn new_cache_to_diff(_: &C2) {}
    fn sub_cache(_: &C2, _: &C2) {}
}

impl UseLengthFinder<Max> for Max {
    fn get_len(cache: &C2) -> usize {
        cache.len as usize
    }
}

impl HT for Max {
    const FULL: bool = false;
    const NAME: &'static str = "max";
    fn diff(_: C2, _: C2) {}
}

/// A query that follows a given path of child slots and records every child list it is shown.
pub struct Explorer {
    pub lists: Vec<Vec<(generic_btree::ArenaIndex, C2)>>,
}
impl<B: HT> Query<B> for Explorer {
    type QueryArg = Vec<usize>;
    fn init(_: &Self::QueryArg) -> Self {
        Explorer { lists: vec![] }
    }
    fn find_node(&mut self, target: &Self::QueryArg, children: &[Child<B>]) -> FindResult {
        let i = target.get(self.lists.len()).copied().unwrap_or(0);
        self.lists
            .push(children.iter().map(|c| (c.arena, *c.cache())).collect());
        FindResult::new_found(i.min(children.len() - 1), 0)
    }
    fn confirm_elem(&mut self, _: &Self::QueryArg, _: &El) -> (usize, bool) {
        (0, true)
    }
}

/// A query by path whose steps report found or missing as told.
pub struct PathQuery {
    at: usize,
}
impl<B: HT> Query<B> for PathQuery {
    /// (slot, found) per level, and the leaf's (offset, found)
    type QueryArg = (Vec<(usize, bool)>, usize, bool);
    fn init(_: &Self::QueryArg) -> Self {
        PathQuery { at: 0 }
    }
    fn find_node(&mut self, target: &Self::QueryArg, children: &[Child<B>]) -> FindResult {
        let (i, f) = target.0.get(self.at).copied().unwrap_or((0, true));
        self.at += 1;
        let i = i.min(children.len() - 1);
        if f {
            FindResult::new_found(i, 0)
        } else {
            FindResult::new_missing(i, 0)
        }
    }
    fn confirm_elem(&mut self, target: &Self::QueryArg, _: &El) -> (usize, bool) {
        (target.1, target.2)
    }
}

/// Lookup by the second (additive) measure.
pub struct SumFinder {
    left: i64,
}
impl<B: HT> Query<B> for SumFinder {
    type QueryArg = i64;
    fn init(t: &i64) -> Self {
        SumFinder { left: *t }
    }
    fn find_node(&mut self, _: &i64, children: &[Child<B>]) -> FindResult {
        for (i, c) in children.iter().enumerate() {
            if self.left < c.cache().x {
                return FindResult::new_found(i, 0);
            }
            self.left -= c.cache().x;
        }
        self.left += children.last().unwrap().cache().x;
        FindResult::new_missing(children.len() - 1, 0)
    }
    fn confirm_elem(&mut self, _: &i64, elem: &El) -> (usize, bool) {
        let mut off = 0;
        for x in &elem.it {
            let w = weight(*x);
            if self.left < w {
                return (off, true);
            }
            self.left -= w;
            off += 1;
        }
        (off, false)
    }
}
