//! Histories that the model of the balancing algorithms made: every shape is built by the real code
//! along the model's path to it, and every transition of the model is made from there.
//!
//! A case file has one line per shape, "S shape parent op args | levels", and one per transition,
//! "T shape op args | levels"; levels are numbers of children, bottom-up.
use crate::el::*;
use crate::tree::*;
use crate::util::*;

type Shape = Vec<Vec<usize>>;
struct Step {
    shape: usize,
    op: Vec<usize>,
    /// the shapes the model allows
    want: Vec<Shape>,
}

#[derive(Default)]
struct Tally {
    shapes: usize,
    shapes_alike: usize,
    moves: usize,
    moves_alike: usize,
    skipped: usize,
    queries: usize,
}

struct Maker {
    next_id: i32,
    len: usize,
    n: usize,
}
impl Maker {
    fn units(&mut self) -> Vec<i32> {
        (0..self.len)
            .map(|_| {
                self.next_id += 1;
                self.next_id * 8 + (self.next_id % 5)
            })
            .collect()
    }
    fn el(&mut self) -> El {
        El::new(self.units())
    }

    /// the operation on this tree; None: it has no such place
    fn op(&mut self, d: &Dump, op: &[usize]) -> Option<Op> {
        self.n += 1;
        let leaf = |i: usize| d.leaves.get(i.wrapping_sub(1));
        let cur = |i: usize, o: usize| -> Option<Cur> {
            let l = leaf(i)?;
            let n = l.len();
            Some((
                l.id,
                match o {
                    0 => 0,
                    2 => n,
                    _ if n >= 2 => n / 2,
                    _ => return None,
                },
            ))
        };
        let pos = |i: usize| d.leaves[..i - 1].iter().map(|l| l.len()).sum::<usize>();
        Some(match op[0] {
            0 => Op::Push(self.el()),
            1 => Op::Prepend(self.el()),
            2 => Op::Ins(cur(op[1], op[2])?, self.el()),
            3 => {
                let c = cur(op[1], op[2])?;
                Op::InsMany(Some(c), (0..op[3]).map(|_| self.el()).collect())
            }
            4 => {
                let es: Vec<El> = (0..op[1]).map(|_| self.el()).collect();
                if op.get(2) == Some(&1) {
                    Op::From(es)
                } else {
                    Op::InsMany(None, es)
                }
            }
            5 => Op::Rm(cur(op[1], 0)?),
            6 => Op::Upl(leaf(op[1])?.id, vec![], None, None, true),
            7 => {
                let l = leaf(op[1])?;
                let it = &l.it;
                if it.len() < 2 {
                    return None;
                }
                let two = if op[2] == 2 { Some(self.units()) } else { None };
                Op::Upl(l.id, it[..1].to_vec(), Some(it[1..].to_vec()), two, true)
            }
            8 => Op::Ups({ leaf(op[1])?; pos(op[1]) }, false, vec![], None),
            9 => {
                let l = leaf(op[1])?;
                let half = (l.it.len() + 1) / 2;
                Op::Ups(pos(op[1]), false, l.it[..half].to_vec(), Some(self.units()))
            }
            10 => {
                let (a, b) = (cur(op[1], op[2])?, cur(op[3], op[4])?);
                Op::Drain(a, b, *[1000, 0, 1000, 1][..].get(self.n % 4).unwrap())
            }
            11 => {
                let (a, b) = (cur(op[2], op[3])?, cur(op[4], op[5])?);
                Op::Upd(a, b, op[1] as u32, 0)
            }
            12 => {
                let mut v = vec![];
                for (i, k) in [(op[1], op[2]), (op[3], op[4])] {
                    if i == 0 {
                        continue;
                    }
                    let l = leaf(i)?;
                    let n = l.len();
                    if n < k + 1 {
                        return None;
                    }
                    for j in 0..k + 1 {
                        // every other part is changed
                        let to = if j == k { n } else { j + 1 };
                        v.push((l.id, j, to, if j % 2 == 0 { 1 } else { 0 }));
                    }
                }
                Op::Uplr(v)
            }
            _ => return None,
        })
    }
}

fn shape(d: &Dump) -> Shape {
    d.levels
        .iter()
        .map(|l| l.iter().map(|n| n.cnt).collect())
        .collect()
}

fn parse(path: &str) -> (Vec<(usize, Vec<usize>, Shape)>, Vec<Step>) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut shapes = vec![];
    let mut steps = vec![];
    for l in text.lines() {
        let (a, b) = l.split_once('|').unwrap();
        let xs: Vec<usize> = numbers(&a[1..]).into_iter().map(|x| x as usize).collect();
        let mut want: Vec<Shape> = b
            .split('|')
            .map(|z| {
                z.split(';')
                    .map(|y| numbers(y).into_iter().map(|x| x as usize).collect())
                    .collect()
            })
            .collect();
        if a.starts_with('S') {
            assert_eq!(xs[0], shapes.len());
            shapes.push((xs[1], xs[2..].to_vec(), want.remove(0)));
        } else {
            steps.push(Step {
                shape: xs[0],
                op: xs[1..].to_vec(),
                want,
            });
        }
    }
    (shapes, steps)
}

/// every query of the profile, everywhere
fn all_queries<B: HT>(w: &World<B>, kinds: &str) -> Vec<Q> {
    let d = w.d(0);
    let n = d.leaves.len();
    let total = d.units();
    let mut v = vec![];
    let curs: Vec<Cur> = d
        .leaves
        .iter()
        .flat_map(|l| {
            let mut o = vec![0, 1.min(l.len()), l.len().saturating_sub(1), l.len()];
            o.dedup();
            o.into_iter().map(|o| (l.id, o)).collect::<Vec<_>>()
        })
        .collect();
    for k in kinds.split(',') {
        match k {
            "look" => {
                for p in 0..=total + 1 {
                    v.push(Q::Look(p));
                }
                v.push(Q::Look(total + 1000));
            }
            "range" => {
                let step = 1 + total / 24;
                for a in (0..=total + 1).step_by(step) {
                    for b in (a..=total + 1).step_by(step) {
                        v.push(Q::Range(a, b));
                    }
                }
            }
            "sum" => {
                for x in 0..=d.rc.x + 1 {
                    v.push(Q::BySum(x));
                }
            }
            "path" => {
                let h = d.depth();
                let top: Vec<usize> = d
                    .levels
                    .iter()
                    .rev()
                    .map(|l| l.iter().map(|x| x.cnt).max().unwrap_or(0) + 1)
                    .collect();
                let mut path = vec![0usize; h];
                'paths: loop {
                    let miss = path.iter().sum::<usize>() % (h + 2);
                    v.push(Q::Path(
                        path.iter().enumerate().map(|(i, s)| (*s, i != miss)).collect(),
                        path[h - 1] % 3,
                        path[0] % 5 != 4,
                    ));
                    let mut k = h;
                    loop {
                        if k == 0 {
                            break 'paths;
                        }
                        k -= 1;
                        path[k] += 1;
                        if path[k] < top[k] {
                            break;
                        }
                        path[k] = 0;
                    }
                }
            }
            "cmp" => {
                for (i, a) in curs.iter().enumerate() {
                    for (j, b) in curs.iter().enumerate() {
                        // all pairs of elements, offsets in turn
                        if a.0 == b.0 || (i + j) % 3 == 0 {
                            v.push(Q::Cmp(*a, *b));
                        }
                    }
                }
            }
            "nav" => {
                for c in &curs {
                    v.push(Q::Next(*c));
                    v.push(Q::Prev(*c));
                }
            }
            "pref" => {
                for c in &curs {
                    v.push(Q::PrefL(*c));
                    v.push(Q::PrefR(*c));
                }
            }
            "shift" => {
                for l in &d.leaves {
                    for o in 0..=l.len() {
                        v.push(Q::Shift((l.id, o)));
                    }
                }
            }
            "visit" => {
                for l in &d.leaves {
                    v.push(Q::Visit((l.id, l.len() / 2)));
                }
            }
            "ends" => v.push(Q::Ends),
            "iter" => v.push(Q::Iter),
            "handles" => v.push(Q::Handles),
            "filter" => {
                let mut ps: Vec<i64> = d
                    .levels
                    .iter()
                    .flatten()
                    .flat_map(|x| [x.c.x, x.c.x + 1])
                    .chain(d.leaves.iter().flat_map(|l| [l.c.x, l.c.x + 1]))
                    .collect();
                ps.sort();
                ps.dedup();
                for p in ps {
                    v.push(Q::Filter(0, p));
                }
                let mut ps: Vec<i64> = d
                    .levels
                    .iter()
                    .flatten()
                    .flat_map(|x| [x.c.len, x.c.len - 1])
                    .chain(d.leaves.iter().map(|l| l.c.len))
                    .collect();
                ps.sort();
                ps.dedup();
                for p in ps {
                    v.push(Q::Filter(1, p));
                }
                for p in 0..3 {
                    v.push(Q::Filter(2, p));
                }
                v.push(Q::Filter(3, 0));
                v.push(Q::Filter(4, 0));
            }
            "irange" if n == 0 => {
                for k in 2..3 {
                    v.push(Q::IterRange(None, k, (0, 0)));
                }
            }
            "irange" => {
                let few: Vec<Cur> = d
                    .leaves
                    .iter()
                    .enumerate()
                    .flat_map(|(i, l)| {
                        if n > 9 {
                            vec![(l.id, [0, l.len() / 2, l.len()][i % 3])]
                        } else {
                            vec![(l.id, 0), (l.id, l.len())]
                        }
                    })
                    .collect();
                for (i, a) in few.iter().enumerate() {
                    for b in &few[i..] {
                        for k in 0..2 {
                            v.push(Q::IterRange(Some(*a), k, *b));
                        }
                    }
                    v.push(Q::IterRange(Some(*a), 2, (0, 0)));
                    v.push(Q::IterRange(None, 0, *a));
                    v.push(Q::IterRange(None, 1, *a));
                }
                v.push(Q::IterRange(None, 2, (0, 0)));
            }
            _ => {}
        }
    }
    v
}

pub struct Args<'a> {
    pub file: &'a str,
    pub kind: &'a str,
    pub queries: &'a str,
    pub both: bool,
    pub part: usize,
    pub parts: usize,
}

fn go<B: HT>(a: &Args) -> Tally {
    let (shapes, steps) = parse(a.file);
    set_mode(Mode::Atom, 4);
    let fan = match guard("\"op\":\"fan\",\"t\":0", crate::gen::fan_out) {
        Ok(f) if f >= 4 => f,
        _ => 12,
    };
    let mut t = Tally::default();
    let mut mine: Vec<Vec<usize>> = vec![vec![]; shapes.len()];
    for (i, s) in steps.iter().enumerate() {
        mine[s.shape].push(i);
    }
    for i in 0..shapes.len() {
        if i % a.parts != a.part {
            continue;
        }
        if mine[i].is_empty() && a.queries.is_empty() {
            continue;
        }
        let mut path = vec![];
        let mut k = i;
        while k != 0 {
            path.push(k);
            k = shapes[k].0;
        }
        path.reverse();
        set_mode(Mode::Atom, 4);
        let mut m = Maker {
            next_id: 0,
            len: 4,
            n: i,
        };
        let mut w: World<B> = World::new(true);
        w.watch = a.both;
        emit(&w.reset_event(&format!("shape{}", i), fan, Mode::Atom));
        let mut ok = true;
        for k in path {
            let Some(op) = m.op(w.d(0), &shapes[k].1) else {
                ok = false;
                t.skipped += mine[i].len();
                break;
            };
            if !B::FULL && matches!(op, Op::Upd(..) | Op::Ups(..) | Op::Uplr(..)) {
                ok = false;
                t.skipped += mine[i].len();
                break;
            }
            if w.apply(0, &op).is_err() {
                ok = false;
                break;
            }
        }
        if !ok {
            continue;
        }
        t.shapes += 1;
        if shape(w.d(0)) == shapes[i].2 {
            t.shapes_alike += 1;
        }
        if !a.queries.is_empty() {
            let qs = all_queries(&w, a.queries);
            t.queries += qs.len();
            if !qs.is_empty() && w.apply(0, &Op::Queries(qs)).is_err() {
                continue;
            }
        }
        for s in &mine[i] {
            let s = &steps[*s];
            let Some(op) = m.op(w.d(0), &s.op) else {
                t.skipped += 1;
                continue;
            };
            // an update by differences of summaries that have none
            if !B::FULL && matches!(op, Op::Upd(..) | Op::Ups(..) | Op::Uplr(..)) {
                t.skipped += 1;
                continue;
            }
            t.moves += 1;
            if w.apply(0, &Op::CloneTo(1)).is_err() {
                break;
            }
            if w.apply(1, &op).is_err() {
                w.slots[1] = None;
                continue;
            }
            if s.want.contains(&shape(w.d(1))) {
                t.moves_alike += 1;
            }
            if a.both {
                // and the other way round: change the original, restore it from its copy
                let Some(op) = m.op(w.d(0), &s.op) else { continue };
                if w.apply(0, &Op::CloneTo(1)).is_err()
                    || w.apply(0, &op).is_err()
                    || w.apply(1, &Op::CloneTo(0)).is_err()
                {
                    break;
                }
            }
            w.slots[1] = None;
        }
    }
    t
}

pub fn replay(a: &Args) {
    let t = match a.kind {
        "max" => go::<Max>(a),
        "sum" => go::<Sum<false>>(a),
        _ => go::<Sum<true>>(a),
    };
    println!(
        "{{\"shapes\":{},\"shapes_as_modelled\":{},\"transitions\":{},\"transitions_as_modelled\":{},\"skipped\":{},\"queries\":{}}}",
        t.shapes, t.shapes_alike, t.moves, t.moves_alike, t.skipped, t.queries
    );
}
