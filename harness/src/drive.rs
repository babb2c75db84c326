//! Chooses operations. It sees only the reference contents, so a run is determined by its seed.
use crate::ops::Op;
use crate::rng::Rng;
use crate::util::{key, librrb_width};
use std::collections::VecDeque;

pub struct Profile {
    /// number of vectors alive at once
    pub k: usize,
    pub maxlen: i64,
    pub ops: usize,
    pub weights: Vec<(String, u64)>,
    /// favour bulk growth
    pub bulk: u64,
    /// the kind of iterator, if only one
    pub ik: Option<i64>,
    /// operations at random after a script
    pub tail: usize,
}

pub fn parse_profile(s: &str) -> Profile {
    let mut p = Profile { k: 4, maxlen: 90, ops: 120, weights: vec![], bulk: 0, ik: None, tail: 12 };
    for kv in s.split(',').filter(|x| !x.is_empty()) {
        let (k, v) = kv.split_once('=').expect("profile entry");
        let n: u64 = v.parse().unwrap();
        match k {
            "k" => p.k = n as usize,
            "maxlen" => p.maxlen = n as i64,
            "ops" => p.ops = n as usize,
            "bulk" => p.bulk = n,
            "tail" => p.tail = n as usize,
            "ik" => p.ik = Some(n as i64),
            _ => p.weights.push((k.to_string(), n)),
        }
    }
    p
}

pub struct Driver {
    pub rng: Rng,
    w: i64,
    next: i64,
    burst: Option<(String, i64, u64)>,
    queue: VecDeque<Op>,
    tracked: bool,
    threads: bool,
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Driver {
    pub fn new(seed: u64, tracked: bool, threads: bool) -> Driver {
        Driver {
            rng: Rng::new(seed),
            w: librrb_width() as i64,
            next: 1,
            burst: None,
            queue: VecDeque::new(),
            tracked,
            threads,
        }
    }

    fn below(&mut self, n: i64) -> i64 {
        if n <= 0 {
            0
        } else {
            self.rng.below(n as u64) as i64
        }
    }

    fn fresh(&mut self, n: i64) -> i64 {
        // a gap now and then, so that separately pushed runs do not always join up
        if self.rng.one_in(8) {
            self.next += 1;
        }
        let x = self.next;
        self.next += n;
        x
    }

    /// A position in 0..=n.
    fn pos(&mut self, n: i64) -> i64 {
        let w = self.w;
        let p = match self.below(8) {
            0 => self.below(3),
            1 => n - self.below(3),
            2 => self.below(n / w + 1) * w + self.below(3) - 1,
            3 => n - self.below(n / w + 1) * w + self.below(3) - 1,
            _ => self.below(n + 1),
        };
        p.clamp(0, n)
    }

    fn size(&mut self, max: i64) -> i64 {
        let w = self.w;
        let s = match self.below(7) {
            0 => self.below(3),
            1 => w + self.below(3) - 1,
            2 => w * (1 + self.below(2 * w)) + self.below(3) - 1,
            3 => w * w + self.below(2 * w) - w,
            4 => self.below(3 * w),
            _ => self.below(max + 1),
        };
        s.clamp(0, max)
    }

    /// Past the end, by a little or by all there is.
    fn beyond(&mut self, n: i64) -> i64 {
        let d = self.below(3);
        if self.rng.one_in(2) { n + d } else { crate::util::FAR + d }
    }

    fn range(&mut self, n: i64) -> (i64, i64) {
        let (a, b) = (self.pos(n), self.pos(n));
        (a.min(b), a.max(b))
    }

    /// Encodes s..e in one of the ways a caller can write it.
    fn encode(&mut self, s: i64, e: i64, n: i64) -> [i64; 4] {
        let (k1, x1) = match self.below(3) {
            0 if s == 0 => (0, 0),
            1 if s > 0 => (2, s - 1),
            _ => (1, s),
        };
        let (k2, x2) = match self.below(3) {
            0 if e == n => (0, 0),
            1 if e > 0 => (1, e - 1),
            _ => (2, e),
        };
        [k1, x1, k2, x2]
    }

    pub fn pick(&mut self, p: &Profile, mir: &[Option<Vec<u32>>]) -> Op {
        if let Some(op) = self.queue.pop_front() {
            return op;
        }
        let len = |h: i64| mir[h as usize].as_ref().map(|m| m.len() as i64);
        if let Some((name, h, left)) = self.burst.take() {
            if let Some(n) = len(h) {
                if left > 0 && n < p.maxlen {
                    self.burst = Some((name.clone(), h, left - 1));
                    return self.deque(&name, h);
                }
            }
        }
        let live: Vec<i64> = (0..mir.len() as i64).filter(|h| len(*h).is_some()).collect();
        let free: Vec<i64> = (0..mir.len() as i64).filter(|h| len(*h).is_none()).collect();
        if live.is_empty() {
            return self.ctor(0, p);
        }
        // small vectors keep the world alive; long ones get cut
        let h = *self.rng.pick(&live);
        let n = len(h).unwrap();
        if n > p.maxlen {
            let at = self.pos(n);
            return match self.below(3) {
                0 => Op::new("slice_from_start", &[h, at]),
                1 => Op::new("slice_to_end", &[h, at]),
                _ => Op::new("drop", &[h]),
            };
        }
        let total: u64 = p.weights.iter().map(|x| x.1).sum();
        let mut r = self.rng.below(total.max(1));
        let mut group = "deque";
        for (g, w) in &p.weights {
            if r < *w {
                group = g;
                break;
            }
            r -= *w;
        }
        let m = mir[h as usize].as_ref().unwrap();
        match group {
            "ctor" => match free.first() {
                Some(f) => self.ctor(*f, p),
                None => Op::new("drop", &[h]),
            },
            "deque" => {
                let name = *self.rng.pick(&["push_back", "push_front", "pop_back", "pop_front"]);
                if p.bulk > 0 && self.rng.below(10) < p.bulk {
                    let k = self.size(p.maxlen);
                    return match name {
                        "push_back" | "push_front" => {
                            let k = k.min(p.maxlen - n).max(0);
                            let x = self.fresh(k);
                            Op::new(&format!("{}_n", name), &[h, x, k])
                        }
                        _ => Op::new(&format!("{}_n", name), &[h, self.below(k + 1)]),
                    };
                }
                if self.rng.one_in(2) {
                    let max = if self.rng.one_in(4) { 4 * self.w as u64 } else { self.w as u64 + 1 };
                    self.burst = Some((name.to_string(), h, self.rng.below(max)));
                }
                self.deque(name, h)
            }
            "concat" => {
                let g = *self.rng.pick(&live);
                if g == h || self.rng.one_in(3) {
                    let name = *self.rng.pick(&["append_clone", "prepend_clone"]);
                    Op::new(name, &[h, g])
                } else {
                    let name = *self.rng.pick(&["append", "prepend"]);
                    Op::new(name, &[h, g])
                }
            }
            // nothing is ever taken off
            "grow" => match self.below(6) {
                0 => match free.first() {
                    Some(f) => self.ctor(*f, p),
                    None => Op::new("drop", &[h]),
                },
                1 => {
                    let (k, name) = (self.below(2 * self.w), *self.rng.pick(&["push_back_n", "push_front_n"]));
                    let x = self.fresh(k);
                    Op::new(name, &[h, x, k])
                }
                2 => {
                    let g = *self.rng.pick(&live);
                    let name = *self.rng.pick(&["append_clone", "prepend_clone"]);
                    Op::new(name, &[h, g])
                }
                _ => {
                    let most = if self.rng.one_in(2) { 9 } else { 2 * self.w };
                    let n = 1 + self.below(most);
                    let k = (1 + self.below(12 * self.w)).min(p.maxlen / n).max(1);
                    let x = self.fresh(k * n);
                    Op::new("joins", &[h, x, k, n, self.below(6)])
                }
            },
            "split" => {
                let mut at = self.pos(n);
                if self.rng.one_in(30) {
                    at = self.beyond(n);
                }
                match (free.first(), self.below(6)) {
                    (Some(g), 0..=2) => Op::new("split_off", &[h, at, *g]),
                    (Some(g), 3) => {
                        let (mut s, mut e) = self.range(n);
                        if self.rng.one_in(30) {
                            e = n + 1 + self.below(3);
                        }
                        if self.rng.one_in(60) {
                            s = n + 1;
                            e = n + 2;
                        }
                        let b = self.encode(s, e, n);
                        Op::new("extract", &[h, b[0], b[1], b[2], b[3], *g])
                    }
                    (_, 4) => Op::new("slice_to_end", &[h, at]),
                    _ => Op::new("slice_from_start", &[h, at]),
                }
            }
            "insdel" => {
                let at = self.pos(n);
                if self.rng.one_in(2) && n < p.maxlen {
                    let x = self.fresh(1);
                    Op::new("insert", &[h, at, x])
                } else {
                    let at = if self.rng.one_in(30) { self.beyond(n) } else { at };
                    Op::new("remove", &[h, at])
                }
            }
            "access" => {
                let mut i = self.pos(n);
                if self.rng.one_in(40) {
                    i = self.beyond(n);
                }
                match self.below(10) {
                    9 => Op::new("all", &[h]),
                    0 => Op::new("front", &[h]),
                    1 => Op::new("back", &[h]),
                    2 => Op::new("len", &[h]),
                    3 => Op::new("get", &[h, i + self.rng.one_in(10) as i64]),
                    4 if n > 0 => Op::new("index", &[h, i.min(n - 1)]),
                    _ => {
                        let x = self.fresh(1);
                        let how = self.below(5);
                        let i = if how == 2 { i.min(n - 1) } else { i };
                        if n == 0 && how == 2 {
                            Op::new("get", &[h, 0])
                        } else {
                            Op::new("set", &[h, i, x, how])
                        }
                    }
                }
            }
            "oob" => {
                let i = n + self.below(3);
                match self.below(8) {
                    0 => Op::new("index", &[h, i]),
                    1 => {
                        let (x, how) = (self.fresh(1), self.below(3));
                        Op::new("set", &[h, i, x, how])
                    }
                    2 => Op::new("get", &[h, i]),
                    3 => Op::new("remove", &[h, i]),
                    4 => Op::new("slice_from_start", &[h, i]),
                    5 => Op::new("reverse_range", &[h, 1, 0, 2, i + 1]),
                    6 => Op::new("sort", &[h, 3, 0, 0, 1, 0, 2, i + 1]),
                    _ => match free.first() {
                        Some(g) => Op::new("split_off", &[h, i, *g]),
                        None => Op::new("get", &[h, i]),
                    },
                }
            }
            "clone" => match free.first() {
                Some(g) => Op::new("clone", &[h, *g]),
                None => {
                    let g = *self.rng.pick(&live);
                    if g != h && self.rng.one_in(3) {
                        Op::new("clone_from", &[h, g])
                    } else {
                        Op::new("drop", &[h])
                    }
                }
            },
            "iter" => self.iter(h, n, p.ik),
            "fc" => self.fc(h, n),
            "fm" => self.fm(h, n),
            "par" if self.threads => {
                let x = self.fresh(n + 1);
                let mut cuts: Vec<i64> = (0..1 + self.below(5)).map(|_| self.pos(n)).collect();
                cuts.sort_unstable();
                let turns = if self.rng.one_in(2) { 1 + self.below(1 << 30) } else { 0 };
                Op::sess("par", &[h], vec![vec![x, 1 + 2 * self.below(2)], cuts, vec![turns]])
            }
            "conc" if self.threads => {
                let kept = if self.rng.one_in(2) { h } else { -1 };
                let (s, c) = (self.below(1 << 30), 3 + self.below(30));
                let turns = if self.rng.one_in(2) { 1 + self.below(1 << 30) } else { 0 };
                Op::new("conc", &[s, c, kept, turns])
            }
            "rev" => {
                if self.rng.one_in(3) {
                    Op::new("reverse", &[h])
                } else {
                    let (s, e) = self.range(n);
                    let b = self.encode(s, e, n);
                    Op::new("reverse_range", &[h, b[0], b[1], b[2], b[3]])
                }
            }
            "sort" => self.sort(h, n, None),
            "dual" => {
                if live.len() < 2 {
                    return match free.first() {
                        Some(g) => Op::new("clone", &[h, *g]),
                        None => Op::new("len", &[h]),
                    };
                }
                let mut g = *self.rng.pick(&live);
                while g == h {
                    g = *self.rng.pick(&live);
                }
                let n2 = len(g).unwrap();
                let (mode, kind, mm) = (self.below(5), self.below(6), 1 + self.below(7));
                let (s, e) = self.range(n.min(n2));
                let b = self.encode(s, e, n);
                if (mode == 0 || mode == 2) && n2 < n {
                    return Op::new("dual", &[g, h, mode, kind, mm, 1, 0, 2, 0]);
                }
                Op::new("dual", &[h, g, mode, kind, mm, b[0], b[1], b[2], b[3]])
            }
            "search" => self.search(h, m),
            "cmp" if self.tracked && n <= 2000 && self.rng.one_in(3) => {
                let g = *self.rng.pick(&live);
                let (m, q) = (self.below(4) * (1 + self.below(n + 3)), 1 + self.below(3));
                Op::new("pcmp", &[h, g, m, q])
            }
            "cmp" => {
                if live.len() < 2 {
                    return match free.first() {
                        Some(g) => Op::new("clone", &[h, *g]),
                        None => Op::new("len", &[h]),
                    };
                }
                let mut g = *self.rng.pick(&live);
                while g == h {
                    g = *self.rng.pick(&live);
                }
                Op::new("cmp", &[h, g])
            }
            "bomb" => match self.below(if self.tracked { 6 } else { 3 }) {
                0 => {
                    let (s, e) = self.range(n);
                    let b = self.encode(s, e, n);
                    let (mode, kind, mm, k) = (2 + self.below(3), self.below(8), 1 + self.below(7), self.below(4 * n + 4));
                    Op::new("bomb_sort", &[h, mode, kind, mm, b[0], b[1], b[2], b[3], k])
                }
                1 => match free.first() {
                    Some(f) => {
                        let k = self.size(p.maxlen);
                        let x = self.fresh(k + 1);
                        let at = self.below(k + 2);
                        Op::new("bomb_from_iter", &[*f, x, k, at])
                    }
                    None => Op::new("drop", &[h]),
                },
                2 => {
                    let g = *self.rng.pick(&live);
                    if g == h {
                        return Op::new("len", &[h]);
                    }
                    let n2 = len(g).unwrap();
                    let (s, e) = self.range(n.min(n2));
                    let b = self.encode(s, e, -1);
                    let (kind, mm, k) = (self.below(8), 1 + self.below(7), self.below(4 * n + 4));
                    Op::new("bomb_dual", &[h, g, 3, kind, mm, b[0], b[1], b[2], b[3], k])
                }
                _ => {
                    let what = self.below(6);
                    let k = self.below(2 * self.w + 2);
                    let x = self.fresh(1);
                    let mut g = h;
                    if what == 1 {
                        g = *self.rng.pick(&live);
                    } else if what == 2 {
                        g = *free.first().unwrap_or(&h);
                    }
                    if (what == 1 || what == 2) && g == h {
                        return Op::new("len", &[h]);
                    }
                    Op::new("bomb_clone", &[h, what, g, k, x])
                }
            },
            _ => Op::new("len", &[h]),
        }
    }

    fn ctor(&mut self, f: i64, p: &Profile) -> Op {
        match self.below(10) {
            0 => Op::new("new", &[f]),
            1 => Op::new("default", &[f]),
            2 => {
                let x = self.fresh(1);
                Op::new("single", &[f, x])
            }
            3 => {
                let n = *self.rng.pick(&[0i64, 1, 2, 3, 5, 19]);
                let x = self.fresh(n);
                Op::new("macro", &[f, x, n])
            }
            4 => {
                let most = if self.rng.one_in(8) { p.maxlen } else { p.maxlen.min(4 * self.w + 60) };
                let n = self.size(most);
                let x = self.fresh(1);
                Op::new("const", &[f, x, n])
            }
            _ => {
                let n = self.size(p.maxlen);
                let x = self.fresh(n);
                Op::new("from_iter", &[f, x, n])
            }
        }
    }

    fn deque(&mut self, name: &str, h: i64) -> Op {
        if name.starts_with("push") {
            let x = self.fresh(1);
            Op::new(name, &[h, x])
        } else {
            Op::new(name, &[h])
        }
    }

    fn sort(&mut self, h: i64, n: i64, want: Option<(i64, i64, i64, i64)>) -> Op {
        let (mut mode, mut kind, mut m) = (self.below(5), self.below(6), 1 + self.below(7));
        let (mut s, mut e) = self.range(n);
        if let Some((k2, m2, s2, e2)) = want {
            mode = 3 + self.below(2);
            kind = k2;
            m = m2;
            s = s2;
            e = e2;
        }
        let b = self.encode(s, e, n);
        Op::new("sort", &[h, mode, kind, m, b[0], b[1], b[2], b[3]])
    }

    fn search(&mut self, h: i64, mir: &[u32]) -> Op {
        self.search_by(h, mir, None)
    }

    /// A search; by the given key, when there is one, the vector being sorted by it.
    fn search_by(&mut self, h: i64, mir: &[u32], by: Option<(i64, i64)>) -> Op {
        let n = mir.len() as i64;
        let mut mode = self.below(8);
        if by.map_or(false, |k| k.0 != 0) {
            mode = 2 + self.below(4);
        }
        let (kind, m) = match by {
            Some(k) => k,
            None if matches!(mode, 0 | 1 | 6 | 7) => (0, 1),
            None => (self.below(6), 1 + self.below(7)),
        };
        let (s, e) = if matches!(mode, 1 | 3 | 5 | 7) { self.range(n) } else { (0, n) };
        let b = self.encode(s, e, n);
        let seg = &mir[s as usize..e as usize];
        let near = |d: &mut Driver| -> i64 {
            let k = if seg.is_empty() { d.below(9) } else { key(kind, m, seg[d.below(seg.len() as i64) as usize]) };
            k + if d.rng.one_in(3) { d.below(3) - 1 } else { 0 }
        };
        let t = near(self);
        let idx = if self.rng.one_in(12) { self.beyond(n) } else if self.rng.one_in(6) { self.pos(n) } else { s + self.below(e - s) };
        let (k1, k2) = (self.below(3), self.below(3));
        let (mut v1, mut v2) = (near(self).max(1), near(self).max(1));
        if v1 > v2 {
            std::mem::swap(&mut v1, &mut v2);
        }
        let t = if matches!(mode, 0 | 1) { t.max(1) } else { t };
        // an exact hit, so that the index forms have something to find
        let t = if matches!(mode, 4 | 5) && n > 0 && !self.rng.one_in(4) && idx < n { key(kind, m, mir[idx as usize]) } else { t };
        let op = Op::new("erange", &[h, mode, kind, m, t, b[0], b[1], b[2], b[3], idx, k1, v1, k2, v2]);
        let sorted = seg.windows(2).all(|p| key(kind, m, p[0]) <= key(kind, m, p[1]));
        if sorted {
            op
        } else {
            // sort first, then search
            self.queue.push_back(op);
            self.sort(h, n, Some((kind, m, s, e)))
        }
    }

    /// `nth`, or one of the other ways to pass over k elements.
    fn passing(&mut self, c: i64, k: i64) -> Vec<i64> {
        if self.rng.one_in(2) {
            vec![c, k]
        } else {
            vec![c + 10, k, self.below(5)]
        }
    }

    /// A call that takes an iterator for good.
    fn ending(&mut self, kind: i64, n: i64) -> Vec<i64> {
        match self.below(5) {
            4 if kind == 1 => vec![17, self.fresh(n + 1)],
            4 => vec![17],
            c => vec![11 + c],
        }
    }

    fn iter(&mut self, h: i64, n: i64, ik: Option<i64>) -> Op {
        let kind = ik.unwrap_or_else(|| self.below(3));
        let mut cmds = vec![];
        let style = self.below(6);
        let count = match style {
            0 | 1 => n + 3,
            _ => self.below(n.min(60) + 4),
        };
        for _ in 0..count.min(150) {
            let c = match style {
                0 => 0,
                1 => 1,
                2 => self.below(2),
                _ => match self.below(12) {
                    0..=3 => 0,
                    4..=7 => 1,
                    8 => 2,
                    9 => 5,
                    10 => 6,
                    _ if kind == 0 => 10,
                    _ => 0,
                },
            };
            let c = if kind == 1 && c < 2 && self.rng.one_in(2) { c + 3 } else { c };
            cmds.push(match c {
                3 | 4 => vec![c, self.fresh(1)],
                5 | 6 => {
                    let m = self.w * 2;
                    let k = if self.rng.one_in(30) { self.beyond(n) } else { self.below(m) };
                    self.passing(c, k)
                }
                10 => vec![c, self.below(4)],
                _ => vec![c],
            });
        }
        if self.rng.one_in(3) {
            let end = self.ending(kind, n);
            cmds.push(end);
        } else if self.rng.one_in(2) {
            let c = if kind == 1 { 7 } else { 7 + self.below(2) };
            if c == 7 && kind == 1 {
                let x = self.fresh(n + 1);
                cmds.push(vec![7, x]);
            } else {
                cmds.push(vec![c]);
            }
            cmds.push(vec![2]);
            cmds.push(vec![0]);
            cmds.push(vec![1]);
        }
        Op::sess("iter", &[h, kind], cmds)
    }

    fn stride(&mut self, n: i64) -> i64 {
        match self.below(4) {
            0 => 1,
            1 => (n - 1).max(1),
            _ => loop {
                let s = 1 + self.below(n.max(1));
                if gcd(s as u64, n.max(1) as u64) == 1 {
                    return s;
                }
            },
        }
    }

    fn fc(&mut self, h: i64, n: i64) -> Op {
        let mut foci: Vec<(i64, i64, i64)> = vec![];
        let mut cmds = vec![];
        let mut id = 0;
        let mut tail = false;
        for _ in 0..2 + self.below(24) {
            if foci.is_empty() || (id < 14 && self.rng.one_in(8)) {
                if self.rng.one_in(2) {
                    cmds.push(vec![0, id, self.below(2)]);
                    foci.push((id, 0, n));
                } else {
                    let (s, mut e) = self.range(n);
                    if self.rng.one_in(10) {
                        e = self.beyond(n);
                    }
                    cmds.push(vec![1, id, s, e]);
                    foci.push((id, s.min(n), e.min(n)));
                }
                id += 1;
                continue;
            }
            let i = self.below(foci.len() as i64) as usize;
            let (f, lo, hi) = foci[i];
            let m = hi - lo;
            match self.below(12) {
                0 if id < 14 && m > 0 => {
                    let at = self.pos(m).min(m - 1);
                    cmds.push(vec![4, f, at, id, id + 1]);
                    foci.swap_remove(i);
                    foci.push((id, lo, lo + at));
                    foci.push((id + 1, lo + at, hi));
                    id += 2;
                }
                1 => {
                    let (s, e) = self.range(m);
                    let b = self.encode(s, e, m);
                    cmds.push(vec![3, f, b[0], b[1], b[2], b[3]]);
                    foci[i] = (f, lo + s, lo + e);
                }
                2 if id < 15 => {
                    cmds.push(vec![5, f, id]);
                    foci.push((id, lo, hi));
                    id += 1;
                }
                3 => cmds.push(vec![6, f]),
                4 if m > 0 => {
                    let s = self.stride(m);
                    cmds.push(vec![8, f, s, self.below(m)]);
                }
                5 if m > 0 => cmds.push(vec![7, f, self.pos(m).min(m - 1)]),
                6 => cmds.push(vec![2, f, self.beyond(m)]),
                _ => cmds.push(vec![2, f, self.pos(m)]),
            }
        }
        if self.rng.one_in(25) && !foci.is_empty() {
            let (f, lo, hi) = foci[0];
            let m = hi - lo;
            match self.below(3) {
                0 => cmds.push(vec![7, f, m + self.below(3)]),
                1 => cmds.push(vec![4, f, m + 1 + self.below(3), 14, 15]),
                _ => cmds.push(vec![3, f, 1, 0, 2, m + 1 + self.below(2)]),
            }
            tail = true;
        }
        let mut op = Op::sess("fc", &[h], cmds);
        op.tail_panics = tail;
        op
    }

    fn fm(&mut self, h: i64, n: i64) -> Op {
        let mut foci: Vec<(i64, i64, i64)> = vec![(0, 0, n)];
        let mut stack: Vec<(usize, (i64, i64, i64))> = vec![];
        let mut cmds = vec![];
        let mut id = 1;
        let mut tail = false;
        for _ in 0..2 + self.below(40) {
            let i = self.below(foci.len() as i64) as usize;
            let (f, lo, hi) = foci[i];
            let m = hi - lo;
            match self.below(14) {
                0 | 1 if stack.len() < 6 => {
                    let at = self.pos(m);
                    cmds.push(vec![4, f, at, id, id + 1]);
                    let parent = foci.remove(i);
                    stack.push((i, parent));
                    foci.push((id, lo, lo + at));
                    foci.push((id + 1, lo + at, hi));
                    id += 2;
                }
                2 if !stack.is_empty() => {
                    cmds.push(vec![5]);
                    foci.pop();
                    foci.pop();
                    let (i, p) = stack.pop().unwrap();
                    foci.insert(i, p);
                }
                3 => cmds.push(vec![6, f]),
                4 if m > 0 => {
                    let (s, x) = (self.stride(m), self.fresh(m));
                    cmds.push(vec![9, f, x, s, self.below(m)]);
                }
                5 if m > 0 => {
                    let x = self.fresh(1);
                    cmds.push(vec![7, f, self.pos(m).min(m - 1), x]);
                }
                6 => cmds.push(vec![2, f, self.beyond(m)]),
                7 if foci.len() > 1 => {
                    let j = self.below(foci.len() as i64) as usize;
                    let (g, lo2, hi2) = foci[j];
                    if i != j && m > 0 && hi2 > lo2 {
                        let (a, b) = (self.pos(m).min(m - 1), self.pos(hi2 - lo2).min(hi2 - lo2 - 1));
                        cmds.push(vec![8, f, a, g, b]);
                    }
                }
                8..=10 => {
                    let x = self.fresh(1);
                    cmds.push(vec![3, f, self.pos(m), x]);
                }
                _ => cmds.push(vec![2, f, self.pos(m)]),
            }
        }
        if self.rng.one_in(25) {
            let (f, lo, hi) = *foci.last().unwrap();
            let m = hi - lo;
            let x = self.fresh(1);
            match self.below(2) {
                0 => cmds.push(vec![7, f, m + self.below(3), x]),
                _ => cmds.push(vec![4, f, m + 1 + self.below(3), id, id + 1]),
            }
            tail = true;
        }
        let mut op = Op::sess("fm", &[h], cmds);
        op.tail_panics = tail;
        op
    }

    pub fn skip(&mut self, x: i64) {
        self.next = self.next.max(x);
    }

    /// All of 0..=n, or a good many of them.
    fn spots(&mut self, n: i64, most: i64) -> Vec<i64> {
        if n < most {
            return (0..=n).collect();
        }
        let mut v: Vec<i64> = (0..most).map(|_| self.pos(n)).collect();
        v.extend([0, 1, n - 1, n]);
        v.sort_unstable();
        v.dedup();
        v
    }

    /// What a property wants done to the vector 0 of every shape: as a rule, one operation at
    /// every position, each to a clone of its own.
    pub fn battery(&mut self, name: &str, mir: &[Option<Vec<u32>>]) -> Vec<Op> {
        let mut out: Vec<Op> = vec![];
        let n = match mir.first() {
            Some(Some(m)) => m.len() as i64,
            _ => return out,
        };
        let other = mir.get(3).map(|m| m.is_some()).unwrap_or(false);
        let w = self.w;
        let o = |name: &str, a: &[i64]| Op::new(name, a);
        let on_clone = |out: &mut Vec<Op>, ops: Vec<Op>| {
            out.push(Op::new("clone", &[0, 1]));
            out.extend(ops);
            out.push(Op::new("drop", &[1]));
            out.push(Op::new("drop", &[2]));
        };
        match name {
            "grow" => {
                for i in 0..6 {
                    let (k, m) = (4 * w + 7 * i, 1 + i % 3 + i / 4 * w);
                    let (x, y) = (self.fresh(k * m), self.fresh(k * m));
                    on_clone(
                        &mut out,
                        vec![
                            o("joins", &[1, x, k, m, i]),
                            o("clone", &[1, 2]),
                            o("append", &[1, 2]),
                            o("joins", &[1, y, k, m, (i + 3) % 6]),
                            o("split_off", &[1, n / 2, 2]),
                            o("prepend", &[1, 2]),
                        ],
                    );
                }
                for i in self.spots(n, 24) {
                    let x = self.fresh(1);
                    on_clone(&mut out, vec![o("split_off", &[1, i, 2]), o("append_clone", &[1, 2]), o("prepend_clone", &[2, 1]), o("prepend", &[1, 2])]);
                    on_clone(&mut out, vec![o("insert", &[1, i, x]), o("remove", &[1, i / 2])]);
                }
            }
            "ends" => {
                for (push, pop) in [("push_back", "pop_back"), ("push_front", "pop_front"), ("push_back", "pop_front"), ("push_front", "pop_back")] {
                    let mut ops = vec![];
                    for _ in 0..(2 * w + 2).min(20) {
                        ops.push(o(push, &[1, self.fresh(1)]));
                    }
                    for _ in 0..(n + 4).min(120) {
                        ops.push(o(pop, &[1]));
                    }
                    on_clone(&mut out, ops);
                }
                for k in [w * w, 2 * w * w + 3] {
                    let (x, y) = (self.fresh(k), self.fresh(k));
                    on_clone(
                        &mut out,
                        vec![
                            o("push_front_n", &[1, x, k]),
                            o("push_back_n", &[1, y, k]),
                            o("pop_back_n", &[1, n + k]),
                            o("pop_front_n", &[1, 2 * k]),
                        ],
                    );
                }
            }
            "join" => {
                on_clone(&mut out, vec![o("append_clone", &[1, 1]), o("prepend_clone", &[1, 0])]);
                if other {
                    on_clone(&mut out, vec![o("append_clone", &[1, 3])]);
                    on_clone(&mut out, vec![o("prepend_clone", &[1, 3])]);
                    on_clone(&mut out, vec![o("clone", &[3, 2]), o("append", &[2, 1]), o("append_clone", &[2, 3])]);
                }
                for i in self.spots(n, 40) {
                    on_clone(&mut out, vec![o("split_off", &[1, i, 2]), o("append", &[2, 1])]);
                    on_clone(&mut out, vec![o("split_off", &[1, i, 2]), o("append", &[1, 2])]);
                    on_clone(&mut out, vec![o("slice_to_end", &[1, i]), o("append_clone", &[1, 0])]);
                }
            }
            "cut" => {
                for i in self.spots(n + 1, 70) {
                    on_clone(&mut out, vec![o("split_off", &[1, i, 2])]);
                    on_clone(&mut out, vec![o("slice_from_start", &[1, i]), o("push_back", &[1, self.fresh(1)])]);
                    on_clone(&mut out, vec![o("slice_to_end", &[1, i]), o("push_front", &[1, self.fresh(1)])]);
                    let j = (i + 1 + self.below(n + 1)).min(n);
                    if i <= j {
                        let b = self.encode(i, j, n);
                        on_clone(&mut out, vec![o("extract", &[1, b[0], b[1], b[2], b[3], 2])]);
                    }
                }
            }
            "insdel" => {
                for i in self.spots(n, 70) {
                    on_clone(&mut out, vec![o("insert", &[1, i, self.fresh(1)])]);
                    on_clone(&mut out, vec![o("remove", &[1, i])]);
                }
            }
            "access" => {
                out.push(o("get", &[0, crate::util::FAR]));
                for i in self.spots(n, 90) {
                    out.push(o("get", &[0, i]));
                    if i < n {
                        out.push(o("index", &[0, i]));
                        let how = self.below(3);
                        on_clone(&mut out, vec![o("set", &[1, i, self.fresh(1), how]), o("set", &[1, i, self.fresh(1), 2 - how])]);
                    }
                }
                on_clone(
                    &mut out,
                    vec![o("set", &[1, 0, self.fresh(1), 3]), o("set", &[1, 0, self.fresh(1), 4]), o("front", &[1]), o("back", &[1]), o("len", &[1])],
                );
            }
            "iter" => {
                for kind in 0..3 {
                    let set = |d: &mut Driver, c: i64| if kind == 1 { vec![c + 3, d.fresh(1)] } else { vec![c] };
                    for style in 0..4 {
                        let mut cmds = vec![];
                        for k in 0..n + 1 {
                            let c = match style {
                                0 => 0,
                                1 => 1,
                                2 => k % 2,
                                _ => self.below(2),
                            };
                            cmds.push(set(self, c));
                            if k % 5 == 0 {
                                cmds.push(vec![2]);
                            }
                        }
                        out.push(Op::new("clone", &[0, 1]));
                        out.push(Op::sess("iter", &[1, kind], cmds));
                        out.push(Op::new("drop", &[1]));
                    }
                    // every split of the sequence into a front and a back part
                    for i in self.spots(n, 12) {
                        let mut cmds = vec![];
                        if i > 0 {
                            let c = self.passing(5, i - 1);
                            cmds.push(c);
                        }
                        let k = self.below(w);
                        let c = self.passing(6, k);
                        cmds.push(c);
                        cmds.push(set(self, 0));
                        cmds.push(set(self, 1));
                        cmds.push(vec![2]);
                        if kind == 0 {
                            cmds.push(vec![10, self.below(4)]);
                        }
                        if self.rng.one_in(3) {
                            let end = self.ending(kind, n);
                            cmds.push(end);
                        }
                        cmds.push(if kind == 1 { vec![7, self.fresh(n + 1)] } else { vec![7 + self.below(2)] });
                        cmds.push(vec![0]);
                        cmds.push(vec![1]);
                        out.push(Op::new("clone", &[0, 1]));
                        out.push(Op::sess("iter", &[1, kind], cmds));
                        out.push(Op::new("drop", &[1]));
                    }
                }
            }
            "fc" => {
                // every position after every other, through windows of the vector
                for (lo, hi) in self.windows(n, 14) {
                    let m = hi - lo;
                    let mut cmds = vec![vec![1, 0, lo, hi], vec![6, 0]];
                    for i in self.spots(m, 12) {
                        for j in self.spots(m, 12) {
                            cmds.push(vec![2, 0, i]);
                            cmds.push(vec![2, 0, j]);
                        }
                    }
                    if m > 0 {
                        let at = self.below(m);
                        cmds.push(vec![4, 0, at, 1, 2]);
                        cmds.push(vec![2, 2, crate::util::FAR]);
                        for i in self.spots(m - at, 10) {
                            cmds.push(vec![2, 2, i]);
                            cmds.push(vec![2, 1, at - 1 - i.min(at)]);
                        }
                    }
                    cmds.retain(|c| c.iter().all(|x| *x >= 0));
                    out.push(Op::sess("fc", &[0], cmds));
                }
                for _ in 0..4 {
                    out.push(self.fc(0, n));
                }
            }
            "fm" => {
                for (i, k) in self.spots(n, 10).into_iter().enumerate() {
                    let mut cmds = vec![vec![4, 0, k, 1, 2]];
                    for (f, m) in [(1, k), (2, n - k)] {
                        cmds.push(vec![6, f]);
                        for i in self.spots(m, 8) {
                            cmds.push(vec![2, f, i]);
                            cmds.push(vec![3, f, m - 1 - i.min(m), self.fresh(1)]);
                            cmds.push(vec![2, f, i]);
                        }
                    }
                    // split the halves once more, write to all the parts, join everything
                    let (f, m) = if i % 2 == 0 { (1, k) } else { (2, n - k) };
                    let at = self.below(m + 1);
                    cmds.push(vec![4, f, at, 3, 4]);
                    cmds.push(vec![2, 3, crate::util::FAR]);
                    for (g, l) in [(3, at), (4, m - at)] {
                        if l > 0 {
                            let (s, x) = (self.stride(l), self.fresh(l));
                            cmds.push(vec![9, g, x, s, self.below(l)]);
                        }
                    }
                    cmds.push(vec![5]);
                    for i in self.spots(m, 6) {
                        cmds.push(vec![2, f, i]);
                    }
                    cmds.push(vec![5]);
                    for i in self.spots(n, 12) {
                        for j in self.spots(n, 6) {
                            cmds.push(vec![2, 0, i]);
                            cmds.push(vec![2, 0, j]);
                        }
                    }
                    cmds.retain(|c| c.iter().all(|x| *x >= 0));
                    out.push(Op::new("clone", &[0, 1]));
                    out.push(Op::sess("fm", &[1], cmds));
                    out.push(Op::new("drop", &[1]));
                }
                for _ in 0..4 {
                    out.push(self.fm(0, n));
                }
            }
            "sort" => {
                for (kind, m) in [(0, 1), (1, 1), (2, 3), (3, 4), (5, 7), (4, 1)] {
                    let mode = if kind == 0 { 0 } else { 2 };
                    on_clone(&mut out, vec![o("sort", &[1, mode, kind, m, 0, 0, 0, 0]), o("sort", &[1, 2, 5, 11, 0, 0, 0, 0])]);
                }
                for (lo, hi) in self.windows(n, 16) {
                    let b = self.encode(lo, hi, n);
                    let (kind, m) = (self.below(6), 1 + self.below(7));
                    let mode = *self.rng.pick(&[1i64, 3, 4]);
                    on_clone(&mut out, vec![o("sort", &[1, 2, 5, 7, 0, 0, 0, 0]), o("sort", &[1, mode, kind, m, b[0], b[1], b[2], b[3]])]);
                }
            }
            "dual" => {
                for i in self.spots(n, 12) {
                    let b = self.encode(0, n, n);
                    let (kind, m) = (self.below(6), 1 + self.below(7));
                    let mut ops = vec![o("clone", &[0, 2]), o("split_off", &[2, i, 3]), o("append", &[3, 2])];
                    if i % 3 == 0 {
                        let (k, x) = (1 + self.below(w), self.fresh(4 * w));
                        ops.push(o("push_back_n", &[3, x, k]));
                    }
                    ops.push(o("dual", &[1, 3, *self.rng.pick(&[1i64, 3, 4]), kind, m, b[0], b[1], b[2], b[3]]));
                    let (lo, hi) = self.range(n);
                    let b = self.encode(lo, hi, n);
                    ops.push(o("dual", &[1, 3, *self.rng.pick(&[1i64, 3, 4]), 5, 1 + self.below(9), b[0], b[1], b[2], b[3]]));
                    ops.push(o("drop", &[3]));
                    on_clone(&mut out, ops);
                }
            }
            "search" => {
                for (kind, m) in [(0, 1), (1, 1), (2, 3), (3, 4), (5, 7), (4, 1)] {
                    let mut sorted = mir[0].clone().unwrap();
                    sorted.sort_by_key(|x| crate::util::key(kind, m, *x));
                    let mut ops = vec![o("sort", &[1, 2, kind, m, 0, 0, 0, 0])];
                    if kind != 0 {
                        // equal elements may be in any order: the kinds of search that ask by key only
                        for _ in 0..12 {
                            ops.push(self.search_by(1, &sorted, Some((kind, m))));
                        }
                    } else {
                        for _ in 0..24 {
                            ops.push(self.search_by(1, &sorted, Some((0, 1))));
                        }
                    }
                    on_clone(&mut out, ops);
                }
            }
            "cmp" => {
                on_clone(&mut out, vec![o("cmp", &[1, 0])]);
                if self.tracked {
                    on_clone(&mut out, vec![o("pcmp", &[1, 1, 0, 1]), o("pcmp", &[1, 1, n + 1, 1]), o("pcmp", &[0, 1, 1 + n / 2, 1]), o("pcmp", &[0, 0, 2, 2])]);
                }
                for i in self.spots(n, 24) {
                    // the same contents in another shape; then one more, one less, one other
                    let mut ops = vec![o("split_off", &[1, i, 2]), o("append", &[1, 2]), o("cmp", &[1, 0]), o("cmp", &[0, 1])];
                    if i < n {
                        ops.push(o("set", &[1, i, self.fresh(1), 0]));
                        ops.push(o("cmp", &[1, 0]));
                        ops.push(o("cmp", &[0, 1]));
                        ops.push(o("pop_back", &[1]));
                        ops.push(o("cmp", &[0, 1]));
                    }
                    on_clone(&mut out, ops);
                    on_clone(&mut out, vec![o("slice_from_start", &[1, i]), o("cmp", &[1, 0]), o("cmp", &[0, 1])]);
                    if self.tracked && i < n {
                        // the one odd element at i, of contents otherwise the same
                        let (m, x) = (n + 2 * i + 5, mir[0].as_ref().unwrap()[i as usize] as i64);
                        let m = if x > 1 { x - 1 } else { m };
                        on_clone(
                            &mut out,
                            vec![
                                o("pcmp", &[1, 0, m, 1]),
                                o("split_off", &[1, i, 2]),
                                o("pcmp", &[0, 1, m, 1]),
                                o("append", &[1, 2]),
                                o("pcmp", &[1, 0, m, 1]),
                                o("set", &[1, i, x / 2 * 2 + (1 - x % 2), 0]),
                                o("pcmp", &[1, 0, 0, 2]),
                                o("pcmp", &[0, 1, 0, 1]),
                            ],
                        );
                    }
                    if i < n {
                        on_clone(&mut out, vec![o("remove", &[1, i]), o("cmp", &[1, 0]), o("cmp", &[0, 1])]);
                    }
                }
            }
            "bomb" => {
                let after = |d: &mut Driver, ops: &mut Vec<Op>| {
                    ops.push(Op::new("push_front", &[1, d.fresh(1)]));
                    ops.push(Op::new("push_back", &[1, d.fresh(1)]));
                    ops.push(Op::new("pop_front", &[1]));
                };
                for k in self.spots(4 * n + 2, 10) {
                    let (kind, m, mode) = (self.below(8), 1 + self.below(7), 2 + self.below(3));
                    let (lo, hi) = if self.rng.one_in(2) { (0, n) } else { self.range(n) };
                    let b = self.encode(lo, hi, n);
                    let mut ops = vec![o("bomb_sort", &[1, mode, kind, m, b[0], b[1], b[2], b[3], k])];
                    after(self, &mut ops);
                    on_clone(&mut out, ops);
                    let b = self.encode(lo, hi, -1);
                    let mut ops = vec![o("clone", &[0, 2]), o("bomb_dual", &[1, 2, 3, kind, m, b[0], b[1], b[2], b[3], k])];
                    after(self, &mut ops);
                    on_clone(&mut out, ops);
                }
                if self.tracked {
                    for what in 0..6 {
                        for k in self.spots(2 * w, 5) {
                            let g = if what == 1 || what == 2 { 2 } else { 1 };
                            let mut ops = vec![];
                            if what == 1 {
                                ops.push(o("clone", &[0, 2]));
                            }
                            ops.push(o("bomb_clone", &[1, what, g, k, self.fresh(1)]));
                            after(self, &mut ops);
                            on_clone(&mut out, ops);
                        }
                    }
                }
            }
            "ctor" => {
                let (x, y) = (self.fresh(1), self.fresh(1));
                on_clone(&mut out, vec![o("push_front", &[1, x]), o("push_back", &[1, y]), o("append_clone", &[1, 0]), o("prepend_clone", &[1, 0])]);
                for i in self.spots(n, 6) {
                    on_clone(&mut out, vec![o("split_off", &[1, i, 2]), o("append", &[2, 1])]);
                    out.push(o("get", &[0, i]));
                    on_clone(&mut out, vec![o("set", &[1, i.min(n - 1).max(0), self.fresh(1), 0])]);
                }
                on_clone(&mut out, vec![o("pop_back_n", &[1, n])]);
                on_clone(&mut out, vec![o("pop_front_n", &[1, n])]);
                out.push(Op::sess("iter", &[0, 0], vec![vec![7]]));
            }
            "rev" => {
                for (lo, hi) in self.windows(n, 60) {
                    let b = self.encode(lo, hi, n);
                    on_clone(&mut out, vec![o("reverse_range", &[1, b[0], b[1], b[2], b[3]])]);
                }
                on_clone(&mut out, vec![o("reverse", &[1])]);
            }
            _ => {}
        }
        out
    }

    fn windows(&mut self, n: i64, most: usize) -> Vec<(i64, i64)> {
        let mut v: Vec<(i64, i64)> = (0..=n.min(20)).flat_map(|i| (i..=n.min(20)).map(move |j| (i, j))).collect();
        if v.len() > most || n > 20 {
            v = (0..most).map(|_| self.range(n)).collect();
            v.push((0, n));
        }
        v
    }
}
