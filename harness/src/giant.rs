//! What vectors longer than memory are made of, and the calls made on them.
use crate::rng::Rng;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicI64, Ordering};

pub const NONE: i64 = 999_999;
const MOST: u64 = u64::MAX - 1;

/// Elements of these worlds.
pub trait Plain: Clone {
    const SMALL: bool;
    fn mk(x: u32) -> Self;
    fn val(&self) -> u32;
    fn reset() {}
    /// clones since last asked, -1 if not counted
    fn count() -> i64 {
        -1
    }
    fn alive() -> u64 {
        0
    }
}
impl Plain for u32 {
    const SMALL: bool = false;
    fn mk(x: u32) -> u32 {
        x
    }
    fn val(&self) -> u32 {
        *self
    }
}

/// An element that takes no room, but is counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Nil;
static ALIVE: AtomicI64 = AtomicI64::new(0);
static CLONES: AtomicI64 = AtomicI64::new(0);
impl Clone for Nil {
    fn clone(&self) -> Nil {
        ALIVE.fetch_add(1, Ordering::Relaxed);
        CLONES.fetch_add(1, Ordering::Relaxed);
        Nil
    }
}
impl Drop for Nil {
    fn drop(&mut self) {
        ALIVE.fetch_sub(1, Ordering::Relaxed);
    }
}
impl Plain for Nil {
    const SMALL: bool = true;
    fn mk(_: u32) -> Nil {
        ALIVE.fetch_add(1, Ordering::Relaxed);
        Nil
    }
    fn val(&self) -> u32 {
        0
    }
    fn reset() {
        ALIVE.store(0, Ordering::Relaxed);
    }
    fn count() -> i64 {
        CLONES.swap(0, Ordering::Relaxed)
    }
    fn alive() -> u64 {
        // fewer than none shows as very many
        ALIVE.load(Ordering::Relaxed) as u64
    }
}

/// Numbers in three digits of 28 bits, for TLC.
pub fn num(x: u64) -> String {
    format!("[{},{},{}]", x >> 56, (x >> 28) & 0xfff_ffff, x & 0xfff_ffff)
}
pub fn nums(x: &[u64]) -> String {
    format!("[{}]", x.iter().map(|y| num(*y)).collect::<Vec<_>>().join(","))
}

pub type Runs = Vec<(u32, u64)>;

pub fn len(s: &Runs) -> u64 {
    s.iter().map(|x| x.1).sum()
}
fn push(s: &mut Runs, v: u32, n: u64) {
    match s.last_mut() {
        _ if n == 0 => {}
        Some(l) if l.0 == v => l.1 += n,
        _ => s.push((v, n)),
    }
}
fn cat(s: &Runs, t: &Runs) -> Runs {
    let mut out = s.clone();
    for (v, n) in t {
        push(&mut out, *v, *n);
    }
    out
}
fn cut(s: &Runs, at: u64) -> (Runs, Runs) {
    let (mut l, mut r, mut p) = (vec![], vec![], 0);
    for (v, n) in s {
        let k = at.saturating_sub(p).min(*n);
        push(&mut l, *v, k);
        push(&mut r, *v, n - k);
        p += n;
    }
    (l, r)
}
fn put(s: &Runs, at: u64, v: u32) -> Runs {
    if at >= len(s) {
        return s.clone();
    }
    let (l, r) = cut(s, at);
    cat(&cat(&l, &vec![(v, 1)]), &cut(&r, 1).1)
}

pub struct Out {
    pub f: File,
    pub cur: File,
    pub n: u64,
}
impl Out {
    pub fn line(&mut self, s: &str) {
        self.n += 1;
        self.f.write_all(s.as_bytes()).unwrap();
        self.f.write_all(b"\n").unwrap();
    }
    pub fn intent(&mut self, op: &str, a: &[i64], v: &[i64], n: &[u64]) {
        let s = format!("{} {:?} {:?} {:?}", op, a, v, n);
        self.cur.set_len(0).unwrap();
        self.cur.write_all_at(s.as_bytes(), 0).unwrap();
    }
}

/// A call: its vectors, values, numbers; and what it leaves.
pub struct G {
    pub op: &'static str,
    pub a: Vec<i64>,
    pub v: Vec<i64>,
    pub n: Vec<u64>,
    pub mir: Vec<Option<Runs>>,
}

pub struct Gen {
    small: bool,
    /// elements in order, so that searches have something to find
    sorted: bool,
    low: u32,
    high: u32,
}

impl Gen {
    pub fn new(small: bool, r: &mut Rng) -> Gen {
        Gen { small, sorted: !small && r.one_in(2), low: 500_000, high: 500_000 }
    }

    fn value(&self, r: &mut Rng) -> u32 {
        if self.small {
            0
        } else {
            1 + r.below(40) as u32
        }
    }

    fn long(&self, r: &mut Rng) -> u64 {
        if r.one_in(3) || self.small && !r.one_in(4) {
            return r.below(300);
        }
        let x = if r.one_in(3) { r.next() | 1 << 61 } else { r.next() >> r.below(62) };
        match r.below(4) {
            // powers of two and what is around them
            0 => x.checked_next_power_of_two().map_or(MOST - 2, |y| y - 1).saturating_add(r.below(3)).min(MOST),
            1 => (x >> 2).min(MOST),
            _ => x.min(MOST),
        }
    }

    fn place(s: &Runs, r: &mut Rng) -> u64 {
        let n = len(s);
        let x = match r.below(4) {
            0 => r.below(n + 1),
            1 => r.below(70).min(n),
            2 => n - r.below(70).min(n),
            _ => {
                let k = r.below(s.len() as u64 + 1) as usize;
                len(&s[..k].to_vec()).saturating_add(r.below(5)).saturating_sub(2)
            }
        };
        x.min(n)
    }

    pub fn next(&mut self, m: &[Option<Runs>], r: &mut Rng) -> G {
        loop {
            if let Some(g) = self.attempt(m, r) {
                return g;
            }
        }
    }

    fn attempt(&mut self, m: &[Option<Runs>], r: &mut Rng) -> Option<G> {
        let live: Vec<usize> = (0..m.len()).filter(|h| m[*h].is_some()).collect();
        let free = (0..m.len()).find(|h| m[*h].is_none());
        let mut mir = m.to_vec();
        if live.is_empty() || free.is_some() && r.one_in(6) {
            let h = free.unwrap();
            let mut x = self.value(r);
            if self.sorted {
                self.high += 2;
                x = self.high;
            }
            let (op, n) = match r.below(3) {
                0 => ("from_iter", r.below(400)),
                _ => ("const", self.long(r)),
            };
            let mut s = vec![];
            push(&mut s, x, n);
            mir[h] = Some(s);
            return Some(G { op, a: vec![h as i64], v: vec![x as i64], n: vec![n], mir });
        }
        let h = live[r.below(live.len() as u64) as usize];
        let g = live[r.below(live.len() as u64) as usize];
        let s = m[h].clone().unwrap();
        let n = len(&s);
        let t = m[g].clone().unwrap();
        let (hi, gi) = (h as i64, g as i64);
        let p = Gen::place(&s, r);
        let q = Gen::place(&s, r);
        let (lo, up) = (p.min(q), p.max(q));
        let inner = if n == 0 { 0 } else { p.min(n - 1) };
        let mut x = self.value(r);
        let done = |op, a: &[i64], v: &[i64], n: &[u64], mir| Some(G { op, a: a.to_vec(), v: v.to_vec(), n: n.to_vec(), mir });
        let few = n <= 3000;
        // no more runs than can be told
        let room = s.len() + t.len() < 26 && n.checked_add(len(&t)).map_or(false, |x| x <= MOST);
        match r.below(33) {
            0 | 1 => {
                let front = r.one_in(2);
                if n >= MOST || s.len() > 24 {
                    return None;
                }
                let one;
                if self.sorted {
                    if front {
                        if s.first().map_or(false, |y| y.0 <= self.low) {
                            self.low = s[0].0 - 1;
                        }
                        self.low -= 1;
                        x = self.low;
                    } else {
                        self.high += 2;
                        x = self.high;
                    }
                }
                one = vec![(x, 1)];
                mir[h] = Some(if front { cat(&one, &s) } else { cat(&s, &one) });
                done(if front { "push_front" } else { "push_back" }, &[hi], &[x as i64], &[], mir)
            }
            2 => {
                mir[h] = Some(cut(&s, n.saturating_sub(1)).0);
                done("pop_back", &[hi], &[], &[], mir)
            }
            3 => {
                mir[h] = Some(cut(&s, 1).1);
                done("pop_front", &[hi], &[], &[], mir)
            }
            4 => done(if r.one_in(2) { "front" } else { "back" }, &[hi], &[], &[], mir),
            5 | 6 | 7 => {
                if !room {
                    return None;
                }
                if g == h || r.one_in(2) {
                    if r.one_in(2) {
                        mir[h] = Some(cat(&s, &t));
                        return self.in_order(done("append_clone", &[hi, gi], &[], &[], mir), h);
                    }
                    mir[h] = Some(cat(&t, &s));
                    return self.in_order(done("prepend_clone", &[hi, gi], &[], &[], mir), h);
                }
                mir[g] = None;
                if r.one_in(2) {
                    mir[h] = Some(cat(&s, &t));
                    self.in_order(done("append", &[hi, gi], &[], &[], mir), h)
                } else {
                    mir[h] = Some(cat(&t, &s));
                    self.in_order(done("prepend", &[hi, gi], &[], &[], mir), h)
                }
            }
            8 | 9 => {
                let f = free?;
                let (l, k) = cut(&s, p);
                mir[h] = Some(l);
                mir[f] = Some(k);
                done("split_off", &[hi, f as i64], &[], &[p], mir)
            }
            10 => {
                mir[h] = Some(cut(&s, p).0);
                done("slice_from_start", &[hi], &[], &[p], mir)
            }
            11 => {
                mir[h] = Some(cut(&s, p).1);
                done("slice_to_end", &[hi], &[], &[p], mir)
            }
            12 => {
                let f = free?;
                let (l, k) = cut(&s, up);
                let (l, mid) = cut(&l, lo);
                mir[h] = Some(cat(&l, &k));
                mir[f] = Some(mid);
                done("extract", &[hi, f as i64], &[], &[lo, up], mir)
            }
            13 => {
                if n >= MOST || s.len() > 24 {
                    return None;
                }
                let (l, k) = cut(&s, p);
                if self.sorted {
                    x = l.last().or(k.first())?.0;
                }
                mir[h] = Some(cat(&cat(&l, &vec![(x, 1)]), &k));
                done("insert", &[hi], &[x as i64], &[p], mir)
            }
            14 => {
                let (l, k) = cut(&s, inner);
                mir[h] = Some(cat(&l, &cut(&k, 1).1));
                if n == 0 {
                    return None;
                }
                done("remove", &[hi], &[], &[inner], mir)
            }
            15 => done("get", &[hi], &[], &[if r.one_in(4) { n.saturating_add(self.long(r)) } else { p }], mir),
            16 => {
                if n == 0 {
                    return None;
                }
                done("index", &[hi], &[], &[inner], mir)
            }
            17 => {
                if self.sorted || n == 0 || s.len() > 23 {
                    return None;
                }
                mir[h] = Some(put(&s, inner, x));
                done("set", &[hi], &[x as i64, r.below(3) as i64], &[inner], mir)
            }
            18 => {
                if h != g && r.one_in(3) {
                    mir[h] = Some(t);
                    return done("clone_from", &[hi, gi], &[], &[], mir);
                }
                let f = free?;
                mir[f] = Some(s);
                done("clone", &[hi, f as i64], &[], &[], mir)
            }
            19 => {
                if r.one_in(2) {
                    return None;
                }
                mir[h] = None;
                done("drop", &[hi], &[], &[], mir)
            }
            20 | 21 => {
                let mode = r.below(4);
                let (a, b) = if r.one_in(3) { (0, n) } else { (lo, up) };
                let w = b - a;
                let (c, d) = if r.one_in(2) { (0, w) } else { let (x, y) = (r.below(w + 1), r.below(w + 1)); (x.min(y), x.max(y)) };
                let w = d - c;
                if w == 0 {
                    return None;
                }
                // nothing can be split at its end
                let k = if r.one_in(3) { 0 } else { r.below(w) };
                let mut v = vec![a, b, c, d, k];
                for i in 0..2 + 2 * r.below(3) {
                    let l = if i % 2 == 0 { k } else { w - k };
                    v.push(match r.below(5) {
                        0 => l,
                        1 => l.saturating_sub(1),
                        2 => 0,
                        _ => r.below(l + 1),
                    });
                }
                done("fc_get", &[hi], &[mode as i64], &v, mir)
            }
            22 | 23 => {
                if self.sorted || s.len() > 14 {
                    return None;
                }
                let mut v = vec![p];
                let mut vals = vec![];
                let mut now = s.clone();
                for i in 0..2 + 2 * r.below(2) {
                    let l = if i % 2 == 0 { p } else { n - p };
                    let at = match r.below(5) {
                        0 => l,
                        1 => l.saturating_sub(1),
                        2 => 0,
                        _ => r.below(l + 1),
                    };
                    let x = self.value(r);
                    v.push(at);
                    vals.push(x as i64);
                    if at < l {
                        now = put(&now, if i % 2 == 0 { at } else { p + at }, x);
                    }
                }
                mir[h] = Some(now);
                done("fm_set", &[hi], &vals, &v, mir)
            }
            24 => {
                let v: Vec<i64> = (0..1 + r.below(5)).map(|_| r.below(2) as i64).collect();
                done("it_next", &[hi], &v, &[], mir)
            }
            25 => {
                if self.sorted || s.len() > 14 {
                    return None;
                }
                let mut v = vec![];
                let (mut f, mut b, mut now) = (0, 0, s.clone());
                for _ in 0..1 + r.below(5) {
                    let (back, x) = (r.below(2), self.value(r));
                    v.push(back as i64);
                    v.push(x as i64);
                    if f + b < n {
                        if back == 1 {
                            b += 1;
                            now = put(&now, n - b, x);
                        } else {
                            now = put(&now, f, x);
                            f += 1;
                        }
                    }
                }
                mir[h] = Some(now);
                done("it_next_set", &[hi], &v, &[], mir)
            }
            26 => {
                if !r.one_in(3) {
                    return None;
                }
                let v: Vec<i64> = (0..1 + r.below(5)).map(|_| r.below(2) as i64).collect();
                mir[h] = None;
                done("into_iter", &[hi], &v, &[], mir)
            }
            27 | 28 if !self.small => {
                if !self.sorted {
                    return None;
                }
                let y = if s.is_empty() || r.one_in(5) { self.high } else { s[r.below(s.len() as u64) as usize].0 };
                let y = (y as i64 + r.below(3) as i64 - 1).max(0);
                done("erange", &[hi], &[y, r.below(4) as i64], &[lo, up], mir)
            }
            29 | 30 => {
                if s.len() > 20 {
                    return None;
                }
                // what is put in order fits in memory
                let all = few && r.one_in(2);
                let (lo, up) = if all { (0, n) } else { (lo, up.min(lo + r.below(200))) };
                let (l, k) = cut(&s, up);
                let (l, mut mid) = cut(&l, lo);
                let op = if self.sorted { r.below(2) } else { r.below(3) };
                let mode = match (op, all) {
                    (2, true) if r.one_in(2) => 0,
                    (2, _) => 1,
                    (_, true) => r.below(5),
                    _ => 2 + r.below(3),
                };
                if op == 2 {
                    mid.reverse();
                } else {
                    if self.sorted && mode == 2 {
                        return None;
                    }
                    mid.sort();
                    if mode == 2 {
                        mid.reverse();
                    }
                }
                // neighbours of the same element become one run
                let mid = mid.iter().fold(vec![], |x, y| cat(&x, &vec![*y]));
                let now = cat(&cat(&l, &mid), &k);
                mir[h] = Some(now.clone());
                match op {
                    0 => done("sort", &[hi], &[mode as i64], &[lo, up], mir),
                    1 => {
                        let f = free?;
                        mir[f] = Some(now);
                        done("dual", &[hi, f as i64], &[mode as i64], &[lo, up], mir)
                    }
                    _ => done("reverse_range", &[hi], &[mode as i64], &[lo, up], mir),
                }
            }
            _ if self.small && few => match r.below(2) {
                0 => done("all", &[hi], &[0], &[], mir),
                _ => {
                    if g == h || len(&t) > 3000 {
                        return None;
                    }
                    done("cmp", &[hi, gi], &[], &[], mir)
                }
            },
            _ => None,
        }
    }

    /// Joins keep the order, if there is to be one.
    fn in_order(&self, g: Option<G>, h: usize) -> Option<G> {
        let g = g?;
        let s = g.mir[h].as_ref().unwrap();
        if self.sorted && s.windows(2).any(|w| w[0].0 > w[1].0) {
            return None;
        }
        Some(g)
    }
}

/// Time this thread has had, in nanoseconds.
pub fn cpu() -> u64 {
    #[repr(C)]
    struct Spec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, to: *mut Spec) -> i32;
    }
    let mut t = Spec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
