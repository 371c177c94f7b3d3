//! The rope under test.
use crate::ord::window;
use crate::util::*;
use generic_btree::Rope;
use std::ops::Bound;

const CAP: usize = if cfg!(generic_btree_verif) { 12 } else { 128 };

pub enum Act {
    Ins(usize, String),
    Del(Bound<usize>, Bound<usize>),
    Clear,
}

pub fn num(x: usize) -> usize {
    x.min(2_000_000_000)
}
/// [kind, position]; 0: none, 1: included, 2: excluded
pub fn bound(b: &Bound<usize>) -> String {
    match b {
        Bound::Unbounded => "[0,0]".into(),
        Bound::Included(x) => format!("[1,{}]", num(*x)),
        Bound::Excluded(x) => format!("[2,{}]", num(*x)),
    }
}

pub struct Run {
    pub rope: Rope,
    pub seen: Vec<u8>,
    pub n: usize,
}

fn name(a: &Act) -> String {
    match a {
        Act::Ins(p, s) => format!("\"op\":\"ins\",\"pos\":{},\"b\":{}", p, ints(s.as_bytes())),
        Act::Del(a, b) => format!("\"op\":\"del\",\"lo\":{},\"hi\":{}", bound(a), bound(b)),
        Act::Clear => "\"op\":\"clear\"".into(),
    }
}

impl Run {
    pub fn new(default: bool) -> Self {
        emit(&format!("{{\"op\":\"reset\",\"ty\":\"rope\",\"cap\":{}}}", CAP));
        let rope = if default { Rope::default() } else { Rope::new() };
        Run {
            rope,
            seen: vec![],
            n: 0,
        }
    }
    fn observe(&mut self, pend: &str, f: impl FnOnce(&mut Rope)) -> bool {
        self.n += 1;
        let rope = &mut self.rope;
        let out = guard(pend, || {
            f(rope);
            (rope.to_string().into_bytes(), rope.len(), rope.is_empty())
        });
        let (text, len, empty) = match out {
            Err(m) => {
                emit(&format!("{{{},\"pn\":\"{}\"}}", pend, esc(&m)));
                return false;
            }
            Ok(x) => x,
        };
        let ck = guard(pend, || rope.check()).is_ok();
        let (p, s) = window(&self.seen, &text);
        emit(&format!(
            "{{{},\"p\":{},\"s\":{},\"m\":{},\"n\":{},\"e\":{},\"ck\":{}}}",
            pend,
            p,
            s,
            ints(&text[p..text.len() - s]),
            num(len),
            empty as u8,
            ck as u8
        ));
        self.seen = text;
        true
    }
    pub fn step(&mut self, a: &Act) -> bool {
        let pend = name(a);
        self.observe(&pend, |r| match a {
            Act::Ins(p, s) => r.insert(*p, s),
            Act::Del(a, b) => r.delete_range((*a, *b)),
            Act::Clear => r.clear(),
        })
    }
    /// the greatest character boundary at or before x
    fn floor(&self, x: usize) -> usize {
        let mut x = x.min(self.seen.len());
        while x < self.seen.len() && x > 0 && self.seen[x] & 0xC0 == 0x80 {
            x -= 1;
        }
        x
    }
    fn ceil(&self, x: usize) -> usize {
        let mut x = x.min(self.seen.len());
        while x < self.seen.len() && self.seen[x] & 0xC0 == 0x80 {
            x += 1;
        }
        x
    }
}

fn text(rng: &mut Rng, chars: usize, multi: usize) -> String {
    let mut s = String::new();
    for _ in 0..chars {
        if rng.chance(multi) {
            s.push(*rng.pick(&['é', 'ß', '漢', '字', '\u{10348}', '🙂', '\u{7FF}', '\u{FFFF}']));
        } else {
            s.push((b'a' + rng.below(26) as u8) as char);
        }
    }
    s
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => 0,
        1..=4 => 1,
        5 => 2,
        6 => rng.range(1, 5),
        7 => rng.range(1, CAP),
        8 => CAP - 2 + rng.below(5),
        9 => 2 * CAP - 1 + rng.below(3),
        10 => rng.range(1, 4 * CAP),
        _ => rng.range(CAP, CAP * 10),
    }
}

fn start(rng: &mut Rng, x: usize) -> Bound<usize> {
    match rng.below(4) {
        0 if x == 0 => Bound::Unbounded,
        1 if x > 0 => Bound::Excluded(x - 1),
        _ => Bound::Included(x),
    }
}
fn end(rng: &mut Rng, x: usize, len: usize) -> Bound<usize> {
    match rng.below(5) {
        0 | 1 if x == len => match rng.below(5) {
            0 => Bound::Excluded(len + 1 + rng.below(2 * CAP)),
            1 => Bound::Included(len + rng.below(2 * CAP)),
            2 => Bound::Included(usize::MAX),
            3 => Bound::Excluded(usize::MAX),
            _ => Bound::Unbounded,
        },
        2 if x > 0 => Bound::Included(x - 1),
        _ => Bound::Excluded(x),
    }
}

fn episode(rng: &mut Rng, budget: usize) -> usize {
    let mut r = Run::new(rng.chance(50));
    let limit = *rng.pick(&[4, CAP, 3 * CAP, 10 * CAP, 40 * CAP, 160 * CAP]);
    let multi = *rng.pick(&[0, 0, 10, 60]);
    let steps = rng.range(20, 260).min(budget);
    let big = rng.chance(30);
    let mut at = 0usize; // where the last edit was
    let mut mode = 0;
    let mut left = 0;
    if !r.observe("\"op\":\"new\"", |_| {}) {
        return 1;
    }
    if rng.chance(35) {
        let n = rng.range(1, limit);
        let s = text(rng, n, multi);
        if !r.step(&Act::Ins(0, s)) {
            return r.n;
        }
    }
    while r.n < steps {
        if left == 0 {
            left = rng.range(1, 40);
            mode = rng.below(12);
        }
        left -= 1;
        let len = r.seen.len();
        let near = |rng: &mut Rng, r: &Run| {
            let d = *rng.pick(&[1, 2, 4, CAP, 2 * CAP]);
            r.floor((at + rng.below(2 * d + 1)).saturating_sub(d))
        };
        let grow = len == 0 || (len < limit && rng.chance(60));
        let act = match mode {
            // typing: right at the end of the last edit
            0 | 1 if len < limit => {
                let p = r.floor(at);
                let n = if big { size(rng) } else { 1 };
                Act::Ins(p, text(rng, n, multi))
            }
            // backspace
            2 if at > 0 && len > 0 => {
                let p = r.floor(at);
                let a = r.floor(p.saturating_sub(1));
                Act::Del(start(rng, a), end(rng, p, len))
            }
            // delete forward
            3 if len > 0 => {
                let a = r.floor(at);
                let b = r.ceil(a + 1);
                Act::Del(start(rng, a), end(rng, b, len))
            }
            // front, back
            4 if grow => Act::Ins(0, {
                let n = size(rng);
                text(rng, n, multi)
            }),
            5 if grow => Act::Ins(len, {
                let n = size(rng);
                text(rng, n, multi)
            }),
            // the same place again and again: before what was inserted
            6 if grow => Act::Ins(near(rng, &r), {
                let n = if big { size(rng) } else { rng.range(1, 2) };
                text(rng, n, multi)
            }),
            // large deletions
            7 if len > 0 && left % 4 == 0 => {
                let a = r.floor(rng.below(len + 1));
                let b = r.ceil(a + rng.below(len - a + 1));
                Act::Del(start(rng, a), end(rng, b, len))
            }
            8 if left % 8 == 0 => match rng.below(8) {
                0 => Act::Clear,
                1 => Act::Del(Bound::Unbounded, Bound::Unbounded),
                2 => {
                    let a = r.floor(rng.below(len + 1));
                    Act::Del(start(rng, a), end(rng, len, len))
                }
                3 => {
                    let b = r.floor(rng.below(len + 1));
                    Act::Del(start(rng, 0), end(rng, b, len))
                }
                // nothing
                4 => {
                    let a = r.floor(rng.below(len + 1));
                    Act::Del(Bound::Included(a), Bound::Excluded(a))
                }
                // inverted, or all past the end
                5 => {
                    let a = r.floor(rng.below(len + 1));
                    let b = r.floor(rng.below(a + 1));
                    Act::Del(Bound::Included(a), Bound::Excluded(b))
                }
                6 => Act::Del(
                    *rng.pick(&[
                        Bound::Included(len),
                        Bound::Excluded(len),
                        Bound::Included(len + 5),
                        Bound::Included(usize::MAX),
                        Bound::Excluded(usize::MAX),
                    ]),
                    *rng.pick(&[
                        Bound::Unbounded,
                        Bound::Excluded(len + 9),
                        Bound::Included(usize::MAX),
                        Bound::Excluded(len),
                    ]),
                ),
                _ => {
                    let a = r.floor(rng.below(len + 1));
                    let b = r.ceil(a + 1 + rng.below(CAP));
                    Act::Del(start(rng, a), end(rng, b, len))
                }
            },
            // random edits
            9 | 10 if grow => {
                let p = r.floor(rng.below(len + 1));
                let n = if big { size(rng) } else { rng.range(1, 4) };
                Act::Ins(p, text(rng, n, multi))
            }
            _ if len > 0 => {
                let a = if rng.chance(50) {
                    near(rng, &r)
                } else {
                    r.floor(rng.below(len + 1))
                };
                let w = *rng.pick(&[1, 1, 1, 2, CAP / 2, CAP, CAP + 1, 3 * CAP]);
                let b = r.ceil((a + w).min(len));
                Act::Del(start(rng, a), end(rng, b, len))
            }
            _ => Act::Ins(0, {
                let n = size(rng);
                text(rng, n, multi)
            }),
        };
        match &act {
            Act::Ins(p, s) => at = p + s.len(),
            Act::Del(a, _) => {
                at = match a {
                    Bound::Included(x) => *x,
                    Bound::Excluded(x) => x.saturating_add(1),
                    Bound::Unbounded => 0,
                }
            }
            Act::Clear => {}
        }
        // typing goes on behind or before what was typed
        if rng.chance(4) {
            at = rng.below(r.seen.len() + 1);
        }
        let ok = r.step(&act);
        at = at.min(r.seen.len());
        if !ok {
            break;
        }
    }
    r.n
}

pub fn run(seed: u64, steps: usize) {
    let mut rng = Rng::new(seed);
    let mut n = 0;
    while n < steps {
        n += episode(&mut rng, steps - n + 20);
    }
}

/// Replays histories: a line is a list of [op, a, b]; 0: insert b new bytes at a, 1: delete a..b,
/// 2: clear.
pub fn replay(cases: &[Vec<i64>]) {
    let mut n = 0;
    for l in cases {
        let mut r = Run::new(false);
        let mut fresh = 0u8;
        for a in l.chunks(3) {
            let act = match a[0] {
                0 => Act::Ins(
                    a[1] as usize,
                    (0..a[2])
                        .map(|_| {
                            fresh = (fresh + 1) % 90;
                            (b'!' + fresh) as char
                        })
                        .collect(),
                ),
                1 => Act::Del(Bound::Included(a[1] as usize), Bound::Excluded(a[2] as usize)),
                _ => Act::Clear,
            };
            n += 1;
            if !r.step(&act) {
                break;
            }
        }
    }
    println!("{{\"histories\":{},\"calls\":{}}}", cases.len(), n);
}
