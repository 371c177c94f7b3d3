//! One tree under test: the operations, the observation of its state through the public interface,
//! and the event written for every call.
use crate::el::*;
use crate::util::*;
use generic_btree::rle::{CanRemove, HasLength};
use generic_btree::{ArenaIndex, BTree, Cursor, LeafIndex, LengthFinder, PreviousCache, QueryResult};
use std::collections::HashMap;
use std::ops::Bound;

/// a cursor: (handle number, offset)
pub type Cur = (u32, usize);

#[derive(Clone, Debug)]
pub struct LeafD {
    pub id: u32,
    pub c: C2,
    pub it: Vec<i32>,
    pub node: usize,
    pub slot: usize,
}
impl LeafD {
    pub fn len(&self) -> usize {
        if self.it.first().is_some_and(|x| *x < 0) {
            0
        } else {
            self.it.len()
        }
    }
    fn same(&self, o: &LeafD) -> bool {
        self.id == o.id && self.c == o.c && self.it == o.it
    }
}

#[derive(Clone, Debug)]
pub struct NodeD {
    pub cnt: usize,
    pub c: C2,
    pub arena: Option<u64>,
}

/// The observed state of a tree.
#[derive(Clone, Debug, Default)]
pub struct Dump {
    pub leaves: Vec<LeafD>,
    /// internal nodes by level, bottom-up; the last level is the root alone
    pub levels: Vec<Vec<NodeD>>,
    pub rc: C2,
    pub nl: usize,
    /// 1: elements at different depths, 2: a listed element is gone, 3: an element links to another
    /// node than the one that lists it, 4: a node without room, 5: an element listed twice
    pub bad: Vec<u32>,
}
impl Dump {
    pub fn pos(&self, id: u32) -> Option<usize> {
        self.leaves.iter().position(|l| l.id == id)
    }
    pub fn units(&self) -> usize {
        self.leaves.iter().map(|l| l.len()).sum()
    }
    pub fn depth(&self) -> usize {
        self.levels.len()
    }
    /// leaf index and offset that a lookup by position resolves to
    pub fn lookup(&self, pos: usize) -> Option<(usize, usize)> {
        let mut left = pos;
        let n = self.leaves.len();
        for (i, l) in self.leaves.iter().enumerate() {
            if left < l.len() {
                return Some((i, left));
            }
            if i + 1 < n {
                left -= l.len();
            }
        }
        if n == 0 {
            None
        } else {
            Some((n - 1, left))
        }
    }
}

fn bits(a: ArenaIndex) -> u64 {
    match a {
        ArenaIndex::Leaf(x) => x.to_bits(),
        ArenaIndex::Internal(x) => x.to_bits(),
    }
}
fn lbits(a: LeafIndex) -> u64 {
    a.inner().to_bits()
}

pub struct Slot<B: HT> {
    pub tree: BTree<B>,
    pub d: Dump,
    ids: HashMap<u64, u32>,
    handles: Vec<LeafIndex>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Push(El),
    Prepend(El),
    Ins(Cur, El),
    InsQ(usize, El),
    InsMany(Option<Cur>, Vec<El>),
    From(Vec<El>),
    Rm(Cur),
    Drain(Cur, Cur, usize),
    DrainQ(usize, usize, usize),
    Upd(Cur, Cur, u32, i32),
    /// handle, left, new 1, new 2, "summary changed"
    Upl(u32, Vec<i32>, Option<Vec<i32>>, Option<Vec<i32>>, bool),
    /// position, declined, left, new
    Ups(usize, bool, Vec<i32>, Option<Vec<i32>>),
    Uplr(Vec<(u32, usize, usize, i32)>),
    Clear,
    /// to the other slot
    CloneTo(usize),
    /// mutate through get_elem_mut, then repair summaries; 0: from scratch, 1: with the difference
    Gem(u32, i32, u32),
    /// filtered update: filter (kind, parameter), d
    Ucf(u32, i64, i32),
    Queries(Vec<Q>),
}

#[derive(Clone, Debug)]
pub enum Q {
    Look(usize),
    Range(usize, usize),
    BySum(i64),
    Path(Vec<(usize, bool)>, usize, bool),
    Cmp(Cur, Cur),
    Next(Cur),
    Prev(Cur),
    PrefL(Cur),
    PrefR(Cur),
    Shift(Cur),
    Iter,
    IterRange(Option<Cur>, u32, Cur),
    Filter(u32, i64),
    Visit(Cur),
    Ends,
    Handles,
}

pub fn accept(kind: u32, k: i64, c: C2) -> bool {
    match kind {
        0 => c.x >= k,
        1 => c.len <= k,
        2 => (c.len + c.x).rem_euclid(3) != k.rem_euclid(3),
        3 => c.len > 0,
        _ => true,
    }
}

fn jel(it: &[i32]) -> String {
    ints(it)
}
fn jcur(c: Cur) -> String {
    format!("[{},{}]", c.0, c.1)
}
fn jopt(x: &Option<Vec<i32>>) -> String {
    match x {
        Some(v) => format!("[{}]", jel(v)),
        None => "[]".into(),
    }
}

impl<B: HT> Slot<B> {
    pub fn new() -> Self {
        let mut s = Slot {
            tree: BTree::new(),
            d: Dump::default(),
            ids: HashMap::new(),
            handles: vec![],
        };
        s.d = s.observe();
        s
    }

    fn id_of(&mut self, h: LeafIndex) -> u32 {
        let n = self.handles.len() as u32;
        match self.ids.entry(lbits(h)) {
            std::collections::hash_map::Entry::Occupied(e) => *e.get(),
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(n);
                self.handles.push(h);
                n
            }
        }
    }

    fn h(&self, id: u32) -> LeafIndex {
        self.handles[id as usize]
    }
    fn cur(&self, c: Cur) -> Cursor {
        Cursor {
            leaf: self.h(c.0),
            offset: c.1,
        }
    }
    pub fn known(&self) -> usize {
        self.handles.len()
    }
    fn jc(&mut self, c: Cursor) -> String {
        format!("[{},{}]", self.id_of(c.leaf), c.offset)
    }
    fn joc(&mut self, c: Option<Cursor>) -> String {
        match c {
            Some(c) => self.jc(c),
            None => "[-1,0]".into(),
        }
    }

    /// Reads the whole tree through queries that walk every path.
    pub fn observe(&mut self) -> Dump {
        let mut d = Dump {
            rc: *self.tree.root_cache(),
            nl: self.tree.node_len(),
            ..Default::default()
        };
        let (r, ex) = self.tree.query_with_finder_return::<Explorer>(&vec![]);
        if r.is_none() {
            d.levels = vec![vec![NodeD {
                cnt: 0,
                c: d.rc,
                arena: None,
            }]];
            return d;
        }
        let depth = ex.lists.len();
        let mut tops: Vec<Vec<NodeD>> = vec![vec![]; depth];
        tops[0].push(NodeD {
            cnt: ex.lists[0].len(),
            c: d.rc,
            arena: None,
        });
        let mut path = vec![0usize; depth.saturating_sub(1)];
        let mut lists = ex.lists;
        // the shallowest level whose child list is new
        let mut from = 0;
        let mut parents: Vec<u64> = vec![];
        let mut root_parents: Vec<u64> = vec![];
        loop {
            if lists.len() != depth {
                d.bad.push(1);
                break;
            }
            // nodes at level k (k >= 1) are children path[k-1] of lists[k-1]
            for k in from.max(1)..depth {
                let (a, c) = lists[k - 1][path[k - 1]];
                tops[k].push(NodeD {
                    cnt: lists[k].len(),
                    c,
                    arena: Some(bits(a)),
                });
                if self.tree.get_internal(a).is_full() {
                    d.bad.push(4);
                }
            }
            let owner = if depth > 1 {
                Some(bits(lists[depth - 2][path[depth - 2]].0))
            } else {
                None
            };
            let node = tops[depth - 1].len() - 1;
            for (slot, (a, c)) in lists[depth - 1].clone().into_iter().enumerate() {
                let ArenaIndex::Leaf(raw) = a else {
                    d.bad.push(1);
                    continue;
                };
                let h: LeafIndex = raw.into();
                let id = self.id_of(h);
                let Some(el) = self.tree.get_elem(h) else {
                    d.bad.push(2);
                    continue;
                };
                let it = el.it.clone();
                let p = self.tree.get_leaf(a).parent();
                match owner {
                    Some(o) => {
                        if bits(p) != o {
                            d.bad.push(3);
                        }
                    }
                    None => root_parents.push(bits(p)),
                }
                parents.push(bits(p));
                if d.leaves.len() > 100_000 {
                    d.bad.push(5);
                    return d;
                }
                d.leaves.push(LeafD {
                    id,
                    c,
                    it,
                    node,
                    slot,
                });
            }
            // next path
            let mut k = depth as isize - 2;
            while k >= 0 {
                if path[k as usize] + 1 < lists[k as usize].len() {
                    break;
                }
                k -= 1;
            }
            if k < 0 {
                break;
            }
            path[k as usize] += 1;
            for j in k as usize + 1..path.len() {
                path[j] = 0;
            }
            from = k as usize + 1;
            let (_, ex) = self.tree.query_with_finder_return::<Explorer>(&path);
            lists = ex.lists;
        }
        if let Some(first) = root_parents.first() {
            // every element of a one-level tree links to the root
            if root_parents.iter().any(|x| x != first) {
                d.bad.push(3);
            }
        }
        tops.reverse();
        d.levels = tops;
        let mut seen = std::collections::HashSet::new();
        if d.leaves.iter().any(|l| !seen.insert(l.id)) {
            d.bad.push(5);
        }
        d.bad.sort();
        d.bad.dedup();
        d
    }

    /// The event's state part: what changed between the two observations.
    pub fn delta(&self, old: &Dump, refs: &[usize]) -> String {
        let new = &self.d;
        let (n, m) = (old.leaves.len(), new.leaves.len());
        let mut p = 0;
        while p < n && p < m && old.leaves[p].same(&new.leaves[p]) {
            p += 1;
        }
        let mut s = 0;
        while s < n - p && s < m - p && old.leaves[n - 1 - s].same(&new.leaves[m - 1 - s]) {
            s += 1;
        }
        for &r in refs {
            p = p.min(r);
            s = s.min(n.saturating_sub(1).saturating_sub(r));
        }
        self.delta_at(p, s)
    }

    fn delta_at(&self, p: usize, s: usize) -> String {
        let new = &self.d;
        let m = new.leaves.len();
        let mid = list(new.leaves[p..m - s].iter().map(|l| {
            format!("[{},[{},{}],{}]", l.id, l.c.len, l.c.x, jel(&l.it))
        }));
        let lv = list(new.levels.iter().map(|l| {
            list(
                l.iter()
                    .map(|x| format!("[{},{},{}]", x.cnt, x.c.len, x.c.x)),
            )
        }));
        format!(
            "\"p\":{},\"s\":{},\"m\":{},\"lv\":{},\"rc\":[{},{}],\"nl\":{},\"bad\":{}",
            p,
            s,
            mid,
            lv,
            new.rc.len,
            new.rc.x,
            new.nl,
            ints(&new.bad)
        )
    }

    fn checked(&self) -> u32 {
        match guard("\"op\":\"check\"", || self.tree.check()) {
            Ok(_) => 1,
            Err(_) => 0,
        }
    }

    fn refs_of(&self, cs: &[Cur]) -> Vec<usize> {
        cs.iter().filter_map(|c| self.d.pos(c.0)).collect()
    }
}

fn split_list<B: HT>(s: &mut Slot<B>, sp: &generic_btree::SplittedLeaves) -> String {
    let v: Vec<LeafIndex> = sp.arr.iter().copied().collect();
    ints(&v.into_iter().map(|x| s.id_of(x)).collect::<Vec<_>>())
}

/// The trees of one episode.
pub struct World<B: HT> {
    pub slots: Vec<Option<Slot<B>>>,
    pub check_every_step: bool,
    /// after every operation on one tree, look at the other
    pub watch: bool,
}

/// The episode cannot go on: the failure is in the log.
pub struct Stop;

impl<B: HT> World<B> {
    pub fn new(check: bool) -> Self {
        World {
            slots: vec![Some(Slot::new()), None],
            check_every_step: check,
            watch: true,
        }
    }

    pub fn s(&mut self, t: usize) -> &mut Slot<B> {
        self.slots[t].as_mut().unwrap()
    }
    pub fn d(&self, t: usize) -> &Dump {
        &self.slots[t].as_ref().unwrap().d
    }
    pub fn live(&self, t: usize) -> bool {
        self.slots[t].is_some()
    }

    pub fn reset_event(&self, tag: &str, fan: usize, mode: Mode) -> String {
        format!(
            "{{\"op\":\"reset\",\"t\":0,\"ty\":\"{}\",\"md\":\"{:?}\",\"fan\":{},\"cap\":{},\"tag\":\"{}\"}}",
            B::NAME,
            mode,
            fan,
            cap(),
            tag
        )
    }

    pub fn apply(&mut self, t: usize, op: &Op) -> Result<(), Stop> {
        if let Op::Queries(qs) = op {
            return self.queries(t, qs);
        }
        if let Op::CloneTo(u) = op {
            return self.clone_to(t, *u);
        }
        let sl = self.slots[t].as_mut().unwrap();
        let n = sl.d.leaves.len();
        let look = |sl: &Slot<B>, p: usize| -> Vec<usize> {
            sl.d.lookup(p).map(|x| vec![x.0]).unwrap_or_default()
        };
        let (head, refs) = match op {
            Op::Push(e) => (
                format!("\"op\":\"push\",\"e\":{}", jel(&e.it)),
                if n > 0 { vec![n - 1] } else { vec![] },
            ),
            Op::Prepend(e) => (
                format!("\"op\":\"prepend\",\"e\":{}", jel(&e.it)),
                if n > 0 { vec![0] } else { vec![] },
            ),
            Op::Ins(c, e) => (
                format!("\"op\":\"ins\",\"c\":{},\"e\":{}", jcur(*c), jel(&e.it)),
                sl.refs_of(&[*c]),
            ),
            Op::InsQ(p, e) => (
                format!("\"op\":\"insq\",\"pos\":{},\"e\":{}", p, jel(&e.it)),
                look(sl, *p),
            ),
            Op::InsMany(c, es) => (
                format!(
                    "\"op\":\"insm\",\"c\":{},\"es\":{}",
                    c.map(jcur).unwrap_or("[-1,0]".into()),
                    list(es.iter().map(|e| jel(&e.it)))
                ),
                match c {
                    Some(c) => sl.refs_of(&[*c]),
                    None if n > 0 => vec![n - 1],
                    None => vec![],
                },
            ),
            Op::From(es) => (
                format!(
                    "\"op\":\"from\",\"es\":{}",
                    list(es.iter().map(|e| jel(&e.it)))
                ),
                vec![],
            ),
            Op::Rm(c) => (
                format!("\"op\":\"rm\",\"c\":{}", jcur(*c)),
                sl.refs_of(&[*c]),
            ),
            Op::Drain(a, b, k) => (
                format!(
                    "\"op\":\"drain\",\"c\":{},\"c2\":{},\"k\":{}",
                    jcur(*a),
                    jcur(*b),
                    k
                ),
                sl.refs_of(&[*a, *b]),
            ),
            Op::DrainQ(a, b, k) => (
                format!("\"op\":\"drainq\",\"pos\":{},\"pos2\":{},\"k\":{}", a, b, k),
                [look(sl, *a), look(sl, *b)].concat(),
            ),
            Op::Upd(a, b, k, x) => (
                format!(
                    "\"op\":\"upd\",\"c\":{},\"c2\":{},\"k\":{},\"x\":{}",
                    jcur(*a),
                    jcur(*b),
                    k,
                    x
                ),
                sl.refs_of(&[*a, *b]),
            ),
            Op::Upl(h, l, n1, n2, f) => (
                format!(
                    "\"op\":\"upl\",\"h\":{},\"fl\":{},\"f1\":{},\"f2\":{},\"fg\":{}",
                    h,
                    jel(l),
                    jopt(n1),
                    jopt(n2),
                    *f as u32
                ),
                {
                    // the following element may take part of the new content
                    let mut r = sl.refs_of(&[(*h, 0)]);
                    if let Some(i) = r.first().copied() {
                        r.push((i + 1).min(n - 1));
                    }
                    r
                },
            ),
            Op::Ups(p, dec, l, n1) => (
                format!(
                    "\"op\":\"ups\",\"pos\":{},\"dec\":{},\"fl\":{},\"f1\":{}",
                    p,
                    *dec as u32,
                    jel(l),
                    jopt(n1)
                ),
                look(sl, *p),
            ),
            Op::Uplr(v) => (
                format!(
                    "\"op\":\"uplr\",\"v\":{}",
                    list(
                        v.iter()
                            .map(|x| format!("[{},{},{},{}]", x.0, x.1, x.2, x.3))
                    )
                ),
                sl.refs_of(&v.iter().map(|x| (x.0, 0)).collect::<Vec<_>>()),
            ),
            Op::Clear => ("\"op\":\"clear\"".to_string(), vec![]),
            Op::Gem(h, x, m) => (
                format!("\"op\":\"gem\",\"h\":{},\"x\":{},\"how\":{}", h, x, m),
                sl.refs_of(&[(*h, 0)]),
            ),
            Op::Ucf(kind, k, x) => (
                format!("\"op\":\"ucf\",\"fk\":{},\"fp\":{},\"x\":{}", kind, k, x),
                if n > 0 { vec![0, n - 1] } else { vec![] },
            ),
            Op::Queries(_) | Op::CloneTo(_) => unreachable!(),
        };
        let head = format!("{},\"t\":{}", head, t);
        let res = guard(&head, || run(sl, op));
        let res = match res {
            Ok(r) => r,
            Err(msg) => {
                emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&msg)));
                let s = self.slots[t].take();
                std::mem::forget(s);
                return Err(Stop);
            }
        };
        let sl = self.slots[t].as_mut().unwrap();
        let obs = guard(&head, || sl.observe());
        let new = match obs {
            Ok(d) => d,
            Err(msg) => {
                emit(&format!(
                    "{{{},\"pn\":\"the tree cannot be read afterwards: {}\"}}",
                    head,
                    esc(&msg)
                ));
                let s = self.slots[t].take();
                std::mem::forget(s);
                return Err(Stop);
            }
        };
        let old = std::mem::replace(&mut sl.d, new);
        let delta = sl.delta(&old, &refs);
        let ck = if self.check_every_step {
            self.slots[t].as_ref().unwrap().checked()
        } else {
            1
        };
        emit(&format!("{{{},{},{},\"ck\":{}}}", head, res, delta, ck));
        let u = 1 - t;
        if self.watch && self.slots[u].is_some() {
            self.observe_event(u)?;
        }
        Ok(())
    }

    /// The other tree, which the last operation must not have changed.
    fn observe_event(&mut self, u: usize) -> Result<(), Stop> {
        let head = format!("\"op\":\"obs\",\"t\":{}", u);
        let sl = self.slots[u].as_mut().unwrap();
        let obs = guard(&head, || sl.observe());
        match obs {
            Ok(d) => {
                let old = std::mem::replace(&mut sl.d, d);
                let delta = sl.delta(&old, &[]);
                emit(&format!("{{{},{},\"ck\":1}}", head, delta));
                Ok(())
            }
            Err(msg) => {
                emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&msg)));
                Err(Stop)
            }
        }
    }

    fn clone_to(&mut self, t: usize, u: usize) -> Result<(), Stop> {
        let head = format!("\"op\":\"clone\",\"t\":{},\"u\":{}", t, u);
        let watch = self.watch;
        let sl = self.slots[t].as_mut().unwrap();
        let r = guard(&head, || {
            let mut c = Slot {
                tree: sl.tree.clone(),
                d: Dump::default(),
                ids: sl.ids.clone(),
                handles: sl.handles.clone(),
            };
            c.d = c.observe();
            c
        });
        match r {
            Ok(c) => {
                let delta = c.delta(&self.d(t), &[]);
                // a sound tree's copy is sound
                let ck = (c.checked() == 1 || self.slots[t].as_ref().unwrap().checked() == 0) as u32;
                emit(&format!("{{{},{},\"ck\":{}}}", head, delta, ck));
                self.slots[u] = Some(c);
                if watch {
                    self.observe_event(t)
                } else {
                    Ok(())
                }
            }
            Err(msg) => {
                emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&msg)));
                Err(Stop)
            }
        }
    }

    fn queries(&mut self, t: usize, qs: &[Q]) -> Result<(), Stop> {
        let sl = self.slots[t].as_mut().unwrap();
        let mut out: Vec<(&'static str, Vec<String>)> = vec![];
        let mut add = |k: &'static str, s: String| match out.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1.push(s),
            None => out.push((k, vec![s])),
        };
        let mut failed = None;
        for q in qs {
            let head = format!("\"op\":\"q\",\"t\":{},\"at\":\"{}\"", t, esc(&format!("{:?}", q)));
            match guard(&head, || ask(sl, q)) {
                Ok((k, s)) => add(k, s),
                Err(msg) => {
                    failed = Some((head, msg));
                    break;
                }
            }
        }
        let body = out
            .iter()
            .map(|(k, v)| format!("\"{}\":{}", k, list(v.iter().cloned())))
            .collect::<Vec<_>>()
            .join(",");
        let keys = list(out.iter().map(|(k, _)| format!("\"{}\"", k)));
        if !body.is_empty() {
            emit(&format!(
                "{{\"op\":\"q\",\"t\":{},\"ks\":{},{}}}",
                t, keys, body
            ));
        }
        if let Some((head, msg)) = failed {
            emit(&format!("{{{},\"pn\":\"panic: {}\"}}", head, esc(&msg)));
            return Err(Stop);
        }
        Ok(())
    }
}

fn run<B: HT>(sl: &mut Slot<B>, op: &Op) -> String {
    let cache = |e: &El| B::get_elem_cache(e);
    match op {
        Op::Push(e) => {
            let c = sl.tree.push(e.clone());
            format!("\"r\":{},\"sp\":[]", sl.jc(c))
        }
        Op::Prepend(e) => {
            let c = sl.tree.prepend(e.clone());
            format!("\"r\":{},\"sp\":[]", sl.jc(c))
        }
        Op::Ins(c, e) => {
            let c = sl.cur(*c);
            let (r, sp) = sl.tree.insert_by_path(c, e.clone());
            format!("\"r\":{},\"sp\":{}", sl.jc(r), split_list(sl, &sp))
        }
        Op::InsQ(p, e) => {
            let (r, sp) = sl.tree.insert::<LengthFinder>(p, e.clone());
            format!("\"r\":{},\"sp\":{}", sl.jc(r), split_list(sl, &sp))
        }
        Op::InsMany(c, es) => {
            let c = c.map(|c| sl.cur(c));
            sl.tree.insert_many_by_cursor(c, es.iter().cloned());
            "\"r\":[]".into()
        }
        Op::From(es) => {
            sl.tree = es.iter().cloned().collect();
            sl.ids.clear();
            sl.handles.clear();
            "\"r\":[]".into()
        }
        Op::Rm(c) => {
            let c = sl.cur(*c);
            let r = sl.tree.remove_leaf(c);
            format!("\"r\":{}", jopt(&r.map(|e| e.it)))
        }
        Op::Drain(a, b, k) => {
            let q = |c: Cursor| QueryResult {
                cursor: c,
                found: true,
            };
            let (a, b) = (q(sl.cur(*a)), q(sl.cur(*b)));
            let mut got = vec![];
            let mut end = 0;
            {
                let mut dr = sl.tree.drain(a..b);
                while got.len() < *k {
                    match dr.next() {
                        Some(e) => got.push(e.it),
                        None => {
                            end = 1;
                            break;
                        }
                    }
                }
            }
            format!(
                "\"r\":{},\"end\":{}",
                list(got.iter().map(|x| jel(x))),
                end
            )
        }
        Op::DrainQ(a, b, k) => {
            let mut got = vec![];
            let mut end = 0;
            {
                let mut dr = sl.tree.drain_by_query::<LengthFinder>(*a..*b);
                while got.len() < *k {
                    match dr.next() {
                        Some(e) => got.push(e.it),
                        None => {
                            end = 1;
                            break;
                        }
                    }
                }
            }
            format!(
                "\"r\":{},\"end\":{}",
                list(got.iter().map(|x| jel(x))),
                end
            )
        }
        Op::Upd(a, b, k, x) => {
            let (a, b) = (sl.cur(*a), sl.cur(*b));
            let mut calls = 0u32;
            let sp = sl.tree.update(a..b, &mut |e: &mut El| {
                calls += 1;
                let old = cache(e);
                let even = val(e.it[0]) % 2 == 0;
                match k {
                    0 => e.add(*x),
                    1 => {}
                    2 if even => e.it.clear(),
                    3 if even => e.add(*x),
                    2 | 3 => {}
                    5 => e.it.clear(),
                    6 if calls % 2 == 1 => e.it.clear(),
                    6 => {}
                    7 => e.grow(*x),
                    _ => e.it.truncate(1),
                }
                // a difference need not be told when there is none
                let new = cache(e);
                if old == new && (calls + *k as u32) % 3 != 0 {
                    None
                } else {
                    Some(B::diff(old, new))
                }
            });
            format!("\"sp\":{},\"calls\":{}", split_list(sl, &sp), calls)
        }
        Op::Upl(h, l, n1, n2, f) => {
            let h = sl.h(*h);
            let (v, sp) = sl.tree.update_leaf(h, |e| {
                e.it = l.clone();
                (
                    *f,
                    n1.clone().map(El::new),
                    n2.clone().map(El::new),
                )
            });
            format!("\"r\":{},\"sp\":{}", v as u32, split_list(sl, &sp))
        }
        Op::Ups(p, dec, l, n1) => {
            let mut seen = (vec![], None);
            let (c, sp) = sl.tree.update_leaf_by_search::<LengthFinder>(p, |e, q| {
                seen = (e.it.clone(), Some(q));
                if *dec {
                    return None;
                }
                let old = cache(e);
                e.it = l.clone();
                let mut new = cache(e);
                let n1 = n1.clone().map(El::new);
                if let Some(n1) = n1.as_ref() {
                    let c = cache(n1);
                    new.len += c.len;
                    new.x += c.x;
                }
                Some((B::diff(old, new), n1, None))
            });
            let q = seen.1.unwrap();
            format!(
                "\"r\":{},\"sp\":{},\"q\":{},\"qf\":{},\"saw\":{}",
                sl.joc(c),
                split_list(sl, &sp),
                sl.jc(q.cursor),
                q.found as u32,
                jel(&seen.0)
            )
        }
        Op::Uplr(v) => {
            let args: Vec<_> = v
                .iter()
                .map(|(h, a, b, x)| (sl.h(*h), *a..*b, *x))
                .collect();
            let r = sl
                .tree
                .update_leaves_with_arg_in_ranges(args, |e, x| e.touch(*x));
            let ids: Vec<_> = r.into_iter().map(|x| sl.id_of(x)).collect();
            format!("\"sp\":{}", ints(&ids))
        }
        Op::Clear => {
            sl.tree.clear();
            sl.ids.clear();
            sl.handles.clear();
            "\"r\":[]".into()
        }
        Op::Gem(h, x, how) => {
            let h = sl.h(*h);
            let old = cache(sl.tree.get_elem(h).unwrap());
            let e = sl.tree.get_elem_mut(h).unwrap();
            e.touch(*x);
            let new = cache(e);
            if *how == 0 {
                sl.tree.recursive_update_cache(h.into(), B::USE_DIFF, None);
            } else if *how == 1 {
                sl.tree.recursive_update_cache(
                    h.into(),
                    B::USE_DIFF,
                    if B::USE_DIFF {
                        Some(B::diff(old, new))
                    } else {
                        None
                    },
                );
            } else {
                sl.tree.recursive_update_cache(h.into(), false, None);
            }
            "\"r\":[]".into()
        }
        Op::Ucf(kind, k, x) => {
            let mut offered = vec![];
            let mut got = vec![];
            sl.tree.update_cache_and_elem_with_filter(
                |c| {
                    offered.push(*c);
                    accept(*kind, *k, *c)
                },
                |e| {
                    got.push(e.it.clone());
                    e.add(*x);
                },
            );
            // keeping the summaries up to date is the caller's part
            if *x != 0 {
                let hs: Vec<_> = sl.d.leaves.iter().map(|l| sl.handles[l.id as usize]).collect();
                for h in hs {
                    sl.tree.recursive_update_cache(h.into(), false, None);
                }
            }
            got.sort();
            offered.sort_by_key(|c| (c.len, c.x));
            format!(
                "\"r\":{},\"off\":{}",
                list(got.iter().map(|x| jel(x))),
                list(offered.iter().map(|c| format!("[{},{}]", c.len, c.x)))
            )
        }
        Op::Queries(_) | Op::CloneTo(_) => unreachable!(),
    }
}

fn ask<B: HT>(sl: &mut Slot<B>, q: &Q) -> (&'static str, String) {
    match q {
        Q::Look(p) => {
            let (r, f) = sl.tree.query_with_finder_return::<LengthFinder>(p);
            let plain = sl.tree.query::<LengthFinder>(p);
            let same = r == plain;
            let par = match f.parent {
                None => -1,
                Some(x) => sl.d.levels[0]
                    .iter()
                    .position(|n| n.arena == Some(x.to_bits()))
                    .map(|i| i as i64)
                    .unwrap_or(-2),
            };
            let s = match r {
                None => format!("[{},-1,0,0,0,-1,{}]", p, same as u32),
                Some(r) => {
                    let ok = r.elem(&sl.tree).map(|e| &e.it)
                        == sl.tree.get_elem(r.leaf()).map(|e| &e.it)
                        && r.offset() == r.cursor().offset;
                    format!(
                        "[{},{},{},{},{},{},{}]",
                        p,
                        sl.id_of(r.leaf()),
                        r.offset(),
                        r.found() as u32,
                        f.slot,
                        par,
                        (same && ok) as u32
                    )
                }
            };
            ("lk", s)
        }
        Q::Range(a, b) => {
            let r = sl.tree.range::<LengthFinder>(*a..*b);
            let s = match r {
                None => format!("[{},{},[-1,0],0,[-1,0],0]", a, b),
                Some(r) => format!(
                    "[{},{},{},{},{},{}]",
                    a,
                    b,
                    sl.jc(r.start.cursor),
                    r.start.found as u32,
                    sl.jc(r.end.cursor),
                    r.end.found as u32
                ),
            };
            ("rg", s)
        }
        Q::BySum(x) => {
            let r = sl.tree.query::<SumFinder>(x);
            let s = match r {
                None => format!("[{},[-1,0],0]", x),
                Some(r) => format!("[{},{},{}]", x, sl.jc(r.cursor), r.found as u32),
            };
            ("sm", s)
        }
        Q::Path(p, off, f) => {
            let r = sl.tree.query::<PathQuery>(&(p.clone(), *off, *f));
            let s = match r {
                None => format!(
                    "[{},{},{},{},[-1,0],0]",
                    ints(&p.iter().map(|x| x.0).collect::<Vec<_>>()),
                    ints(&p.iter().map(|x| x.1 as u32).collect::<Vec<_>>()),
                    off,
                    *f as u32
                ),
                Some(r) => format!(
                    "[{},{},{},{},{},{}]",
                    ints(&p.iter().map(|x| x.0).collect::<Vec<_>>()),
                    ints(&p.iter().map(|x| x.1 as u32).collect::<Vec<_>>()),
                    off,
                    *f as u32,
                    sl.jc(r.cursor),
                    r.found as u32
                ),
            };
            ("pq", s)
        }
        Q::Cmp(a, b) => {
            let r = sl.tree.compare_pos(sl.cur(*a), sl.cur(*b)) as i32;
            ("cm", format!("[{},{},{}]", jcur(*a), jcur(*b), r))
        }
        Q::Next(c) => {
            let r = sl.tree.next_elem(sl.cur(*c));
            ("nx", format!("[{},{}]", jcur(*c), sl.joc(r)))
        }
        Q::Prev(c) => {
            let r = sl.tree.prev_elem(sl.cur(*c));
            ("pv", format!("[{},{}]", jcur(*c), sl.joc(r)))
        }
        Q::PrefL(c) => {
            let r = sl.tree.prefer_left(sl.cur(*c));
            ("pl", format!("[{},{}]", jcur(*c), sl.joc(r)))
        }
        Q::PrefR(c) => {
            let r = sl.tree.prefer_right(sl.cur(*c));
            ("pr", format!("[{},{}]", jcur(*c), sl.joc(r)))
        }
        Q::Shift(c) => {
            let r = sl.tree.shift_path_by_one_offset(sl.cur(*c));
            ("sh", format!("[{},{}]", jcur(*c), sl.joc(r)))
        }
        Q::Iter => {
            let v: Vec<_> = sl.tree.iter().map(|e| jel(&e.it)).collect();
            ("it", list(v))
        }
        Q::IterRange(a, kind, b) => {
            let start = match a {
                Some(a) => Bound::Included(sl.cur(*a)),
                None => Bound::Unbounded,
            };
            // 0: exclusive end, 1: inclusive end, 2: unbounded end
            let end = match kind {
                0 => Bound::Excluded(sl.cur(*b)),
                1 => Bound::Included(sl.cur(*b)),
                _ => Bound::Unbounded,
            };
            let v: Vec<_> = sl
                .tree
                .iter_range((start, end))
                .map(|s| (*s.cursor(), s.elem.it.clone(), s.start, s.end))
                .collect();
            let o = |x: Option<usize>| x.map(|x| x as i64).unwrap_or(-1);
            let items = list(v.into_iter().map(|(c, it, s, e)| {
                format!("[{},{},{},{}]", sl.jc(c), jel(&it), o(s), o(e))
            }));
            (
                "ir",
                format!(
                    "[{},{},{},{}]",
                    a.map(jcur).unwrap_or("[-1,0]".into()),
                    kind,
                    if *kind == 2 { "[-1,0]".into() } else { jcur(*b) },
                    items
                ),
            )
        }
        Q::Filter(kind, k) => {
            #[derive(Default, Clone, Copy)]
            struct R(i64, i64);
            impl std::ops::AddAssign for R {
                fn add_assign(&mut self, o: R) {
                    self.0 += o.0;
                    self.1 += o.1;
                }
            }
            let v: Vec<_> = sl
                .tree
                .iter_with_filter(|c: &C2| (accept(*kind, *k, *c), R(c.len, c.x)))
                .map(|(r, e)| format!("[{},{},{}]", r.0, r.1, jel(&e.it)))
                .collect();
            ("wf", format!("[{},{},{}]", kind, k, list(v)))
        }
        Q::Visit(c) => {
            let mut v = vec![];
            let mut last = vec![];
            sl.tree.visit_previous_caches(sl.cur(*c), |p| match p {
                PreviousCache::NodeCache(c) => v.push(format!("[{},{}]", c.len, c.x)),
                PreviousCache::PrevSiblingElem(e) => {
                    let c = B::get_elem_cache(e);
                    v.push(format!("[{},{}]", c.len, c.x))
                }
                PreviousCache::ThisElemAndOffset { elem, offset } => {
                    last.push(format!("[{},{}]", jel(&elem.it), offset));
                    // anything after this element's own report must be noticed
                    v.push("[0,0]".into());
                }
            });
            if v.last().map(|s| s.as_str()) == Some("[0,0]") {
                v.pop();
            } else {
                v.push("[-1,-1]".into());
            }
            ("vp", format!("[{},{},{}]", jcur(*c), list(v), list(last)))
        }
        Q::Ends => {
            let f = sl.tree.first_leaf();
            let l = sl.tree.last_leaf();
            let s = sl.tree.start_cursor();
            let e = sl.tree.end_cursor();
            let fi = f.map(|x| sl.id_of(x) as i64).unwrap_or(-1);
            let li = l.map(|x| sl.id_of(x) as i64).unwrap_or(-1);
            // the average is reported as the number of links it stands for
            let nodes = sl.d.levels.iter().map(|l| l.len()).sum::<usize>();
            let links = (sl.tree.internal_avg_children_num() * nodes as f64).round();
            if sl.d.leaves.len() <= 40 {
                std::hint::black_box(format!("{:?}", sl.tree));
            }
            (
                "en",
                format!(
                    "[{},{},{},{},{},{},{}]",
                    fi,
                    li,
                    sl.joc(s),
                    sl.joc(e),
                    sl.tree.is_empty() as u32,
                    sl.tree.depth(),
                    links as i64
                ),
            )
        }
        Q::Handles => {
            let mut v = vec![];
            for (i, h) in sl.handles.iter().enumerate() {
                if let Some(e) = sl.tree.get_elem(*h) {
                    v.push(format!("[{},{}]", i, jel(&e.it)));
                }
            }
            ("hd", list(v))
        }
    }
}

#[allow(unused)]
fn _uses(e: &El) -> (usize, bool) {
    (e.rle_len(), e.can_remove())
}
