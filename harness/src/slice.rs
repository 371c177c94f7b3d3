//! The slicing helpers, on an element type that only slices and on the rope's gap buffer.
use crate::el::El;
use crate::rope::bound;
use crate::util::*;
use generic_btree::rle::{HasLength, Sliceable};
use std::ops::Bound;

fn bnd(k: i64, x: i64) -> Bound<usize> {
    match k {
        1 => Bound::Included(x as usize),
        2 => Bound::Excluded(x as usize),
        _ => Bound::Unbounded,
    }
}

fn list_of(xs: &[Vec<i32>]) -> String {
    list(xs.iter().map(|x| ints(x)))
}

/// Something that can be sliced; contents are lists of numbers below 100, an update adds 100.
pub trait Piece: Sized {
    const NAME: &'static str;
    fn make(items: &[i32], gap: Option<usize>) -> Self;
    fn items(&self) -> Vec<i32>;
    fn length(&self) -> usize;
    fn cut(&self, r: (Bound<usize>, Bound<usize>)) -> Self;
    fn cut_in_place(&mut self, r: (Bound<usize>, Bound<usize>));
    fn halve(&mut self, pos: usize) -> Self;
    fn update(
        &mut self,
        r: (Bound<usize>, Bound<usize>),
        f: &mut dyn FnMut(Vec<i32>) -> Vec<i32>,
    ) -> (Option<Self>, Option<Self>);
}

impl Piece for El {
    const NAME: &'static str = "plain";
    fn make(items: &[i32], _: Option<usize>) -> Self {
        El::new(items.to_vec())
    }
    fn items(&self) -> Vec<i32> {
        self.it.clone()
    }
    fn length(&self) -> usize {
        self.rle_len()
    }
    fn cut(&self, r: (Bound<usize>, Bound<usize>)) -> Self {
        self.slice(r)
    }
    fn cut_in_place(&mut self, r: (Bound<usize>, Bound<usize>)) {
        self.slice_(r)
    }
    fn halve(&mut self, pos: usize) -> Self {
        self.split(pos)
    }
    fn update(
        &mut self,
        r: (Bound<usize>, Bound<usize>),
        f: &mut dyn FnMut(Vec<i32>) -> Vec<i32>,
    ) -> (Option<Self>, Option<Self>) {
        self.update_with_split(r, |x| x.it = f(std::mem::take(&mut x.it)))
    }
}

#[cfg(generic_btree_verif_gap)]
impl Piece for generic_btree::VerifGap {
    const NAME: &'static str = "gap";
    fn make(items: &[i32], gap: Option<usize>) -> Self {
        let mut g = Self::empty();
        let b: Vec<u8> = items.iter().map(|x| *x as u8).collect();
        assert!(g.insert(0, &b));
        if let Some(x) = gap {
            g.move_gap(x);
        }
        g
    }
    fn items(&self) -> Vec<i32> {
        self.bytes().iter().map(|x| *x as i32).collect()
    }
    fn length(&self) -> usize {
        self.length()
    }
    fn cut(&self, r: (Bound<usize>, Bound<usize>)) -> Self {
        self.slice(r)
    }
    fn cut_in_place(&mut self, r: (Bound<usize>, Bound<usize>)) {
        self.slice_in_place(r)
    }
    fn halve(&mut self, pos: usize) -> Self {
        self.split(pos)
    }
    fn update(
        &mut self,
        r: (Bound<usize>, Bound<usize>),
        f: &mut dyn FnMut(Vec<i32>) -> Vec<i32>,
    ) -> (Option<Self>, Option<Self>) {
        self.update_with_split(r, |x| {
            let n = x.bytes().len();
            let new: Vec<u8> = f(x.items()).iter().map(|v| *v as u8).collect();
            x.delete(0..n);
            assert!(x.insert(0, &new));
        })
    }
}

/// op 0: slice, 1: slice in place, 2: split (at the lower end), 3: update a sub-range
pub fn case<P: Piece>(
    op: i64,
    n: usize,
    gap: Option<usize>,
    lo: Bound<usize>,
    hi: Bound<usize>,
    grow: i64,
    base: i32,
) {
    let old: Vec<i32> = (0..n as i32).map(|x| (x + base) % 100 + 1).collect();
    let name = ["slice", "slicein", "split", "update"][op as usize];
    let pend = format!(
        "\"op\":\"{}\",\"ty\":\"{}\",\"old\":{},\"gap\":{},\"lo\":{},\"hi\":{},\"w\":{}",
        name,
        P::NAME,
        ints(&old),
        gap.map(|x| x as i64).unwrap_or(-1),
        bound(&lo),
        bound(&hi),
        grow
    );
    let out = guard(&pend, || {
        let mut x = P::make(&old, gap);
        match op {
            0 => {
                let r = x.cut((lo, hi));
                // (what is left, its length, pieces, calls)
                let len = r.length();
                (x.items(), x.length(), vec![r.items()], vec![len], vec![])
            }
            1 => {
                x.cut_in_place((lo, hi));
                (x.items(), x.length(), vec![], vec![], vec![])
            }
            2 => {
                let pos = match lo {
                    Bound::Included(x) => x,
                    _ => 0,
                };
                let r = x.halve(pos);
                let len = r.length();
                (x.items(), x.length(), vec![r.items()], vec![len], vec![])
            }
            _ => {
                let mut given = vec![];
                let (a, b) = x.update((lo, hi), &mut |it| {
                    given.push(it.clone());
                    let mut it: Vec<i32> = it.iter().map(|v| v + 100).collect();
                    match grow {
                        1 => it.push(99), // grows
                        2 => {
                            it.pop(); // shrinks
                        }
                        _ => {}
                    }
                    it
                });
                let mut ps = vec![];
                let mut ls = vec![];
                for p in [&a, &b] {
                    if let Some(p) = p {
                        ps.push(p.items());
                        ls.push(p.length());
                    }
                }
                let holes = a.is_none() && b.is_some();
                if holes {
                    ps.insert(0, vec![-1]);
                    ls.insert(0, 0);
                }
                (x.items(), x.length(), ps, ls, given)
            }
        }
    });
    match out {
        Err(m) => emit(&format!("{{{},\"pn\":\"{}\"}}", pend, esc(&m))),
        Ok((left, len, ps, ls, given)) => emit(&format!(
            "{{{},\"left\":{},\"n\":{},\"r\":{},\"rn\":{},\"given\":{}}}",
            pend,
            ints(&left),
            len,
            list_of(&ps),
            ints(&ls),
            list_of(&given)
        )),
    }
}

/// Runs the cases of a file: lines [type, op, length, gap, lo kind, lo, hi kind, hi, growth].
pub fn replay(cases: &[Vec<i64>]) {
    emit("{\"op\":\"reset\",\"ty\":\"cases\",\"cap\":0}");
    let mut n = 0;
    for l in cases {
        for c in l.chunks(9) {
            let gap = if c[3] < 0 { None } else { Some(c[3] as usize) };
            let (lo, hi) = (bnd(c[4], c[5]), bnd(c[6], c[7]));
            n += 1;
            if c[0] == 0 {
                case::<El>(c[1], c[2] as usize, gap, lo, hi, c[8], 0);
            } else {
                #[cfg(generic_btree_verif_gap)]
                case::<generic_btree::VerifGap>(c[1], c[2] as usize, gap, lo, hi, c[8], 0);
            }
        }
    }
    println!("{{\"calls\":{}}}", n);
}

/// Random cases on longer elements.
pub fn random(seed: u64, steps: usize) {
    let mut rng = Rng::new(seed);
    let gapped = cfg!(generic_btree_verif_gap);
    let cap = if cfg!(generic_btree_verif) { 12 } else { 128 };
    for _ in 0..steps {
        let n = rng.range(0, cap);
        let gap = if rng.chance(70) { Some(rng.range(0, n)) } else { None };
        let op = rng.below(4) as i64;
        let a = rng.range(0, n);
        let b = rng.range(a, n);
        let lo = match rng.below(3) {
            0 if a == 0 => Bound::Unbounded,
            1 if a > 0 => Bound::Excluded(a - 1),
            _ => Bound::Included(a),
        };
        let hi = match rng.below(3) {
            0 if b == n => Bound::Unbounded,
            1 if b > 0 => Bound::Included(b - 1),
            _ => Bound::Excluded(b),
        };
        let (lo, hi) = if op == 2 {
            (Bound::Included(a), Bound::Unbounded)
        } else if op == 3 && rng.chance(10) {
            (Bound::Included(b), Bound::Excluded(a))
        } else {
            (lo, hi)
        };
        let mut grow = if op == 3 { rng.below(3) as i64 } else { 0 };
        if n == cap && grow == 1 {
            grow = 0;
        }
        let base = rng.below(100) as i32;
        #[cfg(generic_btree_verif_gap)]
        if rng.chance(80) {
            case::<generic_btree::VerifGap>(op, n, gap, lo, hi, grow, base);
            continue;
        }
        let _ = gapped;
        case::<El>(op, n, None, lo, hi, grow, base);
    }
}

#[cfg(not(generic_btree_verif_gap))]
pub fn gaps(_: u64, _: usize) {}

/// Histories of one gap buffer.
#[cfg(generic_btree_verif_gap)]
pub fn gaps(seed: u64, steps: usize) {
    use generic_btree::VerifGap;
    let mut rng = Rng::new(seed);
    let cap = VerifGap::max_len();
    let mut n = 0;
    let mut fresh = 0u8;
    while n < steps {
        emit(&format!("{{\"op\":\"reset\",\"ty\":\"gapbuf\",\"cap\":{}}}", cap));
        let mut g = VerifGap::empty();
        for _ in 0..rng.range(5, 60) {
            n += 1;
            let len = g.bytes().len();
            let mut some = |rng: &mut Rng, max: usize| -> Vec<u8> {
                (0..rng.range(0, max))
                    .map(|_| {
                        fresh = fresh % 250 + 1;
                        fresh
                    })
                    .collect()
            };
            let max = *rng.pick(&[1, 3, cap / 2, cap + 2]);
            let (pa, pb) = (rng.range(0, len), rng.range(0, len));
            let pos = *rng.pick(&[0, len, pa, pb]);
            let (pend, what) = match rng.below(16) {
                0..=2 => {
                    let b = some(&mut rng, max);
                    (format!("\"op\":\"gins\",\"pos\":{},\"b\":{}", pos, ints(&b)), (0, b, vec![], None))
                }
                3 => {
                    let (a, b) = (some(&mut rng, max / 2 + 1), some(&mut rng, max / 2 + 1));
                    (
                        format!("\"op\":\"gpair\",\"pos\":{},\"b\":{},\"b2\":{}", pos, ints(&a), ints(&b)),
                        (1, a, b, None),
                    )
                }
                4..=6 => {
                    let x = rng.range(0, len + 2);
                    let y = rng.range(0, len + 2);
                    let lo = *rng.pick(&[Bound::Included(x), Bound::Excluded(x), Bound::Unbounded, Bound::Included(x.min(y))]);
                    let hi = *rng.pick(&[Bound::Included(y), Bound::Excluded(y), Bound::Unbounded, Bound::Excluded(x.max(y))]);
                    (
                        format!("\"op\":\"gdel\",\"lo\":{},\"hi\":{}", bound(&lo), bound(&hi)),
                        (2, vec![], vec![], Some((lo, hi))),
                    )
                }
                7 => (format!("\"op\":\"gmove\",\"pos\":{}", pos), (3, vec![], vec![], None)),
                8 => (format!("\"op\":\"gsplit\",\"pos\":{}", pos), (4, vec![], vec![], None)),
                9 => {
                    let b = some(&mut rng, max.min(cap));
                    (format!("\"op\":\"gcan\",\"b\":{}", ints(&b)), (5, b, vec![], None))
                }
                10 => {
                    let b = some(&mut rng, (cap - len).min(max));
                    (format!("\"op\":\"gright\",\"b\":{}", ints(&b)), (6, b, vec![], None))
                }
                13 => {
                    let b = some(&mut rng, (cap - len).min(max));
                    (format!("\"op\":\"gleft\",\"b\":{}", ints(&b)), (7, b, vec![], None))
                }
                11..=12 => {
                    let (a, b) = (pa.min(pb), pa.max(pb));
                    let mut lo = *rng.pick(&[Bound::Included(a), Bound::Unbounded, Bound::Included(0)]);
                    if a > 0 && rng.chance(30) {
                        lo = Bound::Excluded(a - 1);
                    }
                    let mut hi = *rng.pick(&[Bound::Excluded(b), Bound::Unbounded, Bound::Excluded(len)]);
                    if b > a && rng.chance(30) {
                        hi = Bound::Included(b - 1);
                    }
                    let cut = rng.chance(35);
                    (
                        format!(
                            "\"op\":\"{}\",\"lo\":{},\"hi\":{}",
                            if cut { "gcut" } else { "gslice" },
                            bound(&lo),
                            bound(&hi)
                        ),
                        (if cut { 10 } else { 9 }, vec![], vec![], Some((lo, hi))),
                    )
                }
                _ => {
                    let b = some(&mut rng, max.min(cap));
                    (format!("\"op\":\"gtry\",\"pos\":{},\"b\":{}", pos, ints(&b)), (8, b, vec![], None))
                }
            };
            let at = rng.range(0, what.1.len());
            let out = guard(&pend, || {
                // another buffer with the bytes, its gap somewhere
                let other = |b: &[u8]| {
                    let mut o = VerifGap::empty();
                    assert!(o.insert(0, b));
                    o.move_gap(at);
                    o
                };
                let mut rest = vec![];
                let ok = match what.0 {
                    0 => g.insert(pos, &what.1),
                    1 => g.insert_pair(pos, &what.1, &what.2),
                    2 => {
                        g.delete(what.3.unwrap());
                        true
                    }
                    3 => {
                        g.move_gap(pos);
                        true
                    }
                    4 => {
                        rest = g.split(pos).bytes();
                        true
                    }
                    5 => g.can_merge(&other(&what.1)),
                    6 => {
                        g.merge_right(&other(&what.1));
                        true
                    }
                    7 => {
                        g.merge_left(&other(&what.1));
                        true
                    }
                    9 => {
                        rest = g.slice(what.3.unwrap()).bytes();
                        true
                    }
                    10 => {
                        g.slice_in_place(what.3.unwrap());
                        true
                    }
                    _ => g.try_insert(pos, other(&what.1)),
                };
                (ok, g.bytes(), g.length(), rest)
            });
            match out {
                Err(m) => {
                    emit(&format!("{{{},\"pn\":\"{}\"}}", pend, esc(&m)));
                    break;
                }
                Ok((ok, now, len, rest)) => emit(&format!(
                    "{{{},\"ok\":{},\"now\":{},\"n\":{},\"rest\":{}}}",
                    pend,
                    ok as u8,
                    ints(&now),
                    len,
                    ints(&rest)
                )),
            }
        }
    }
}
