// Included once per vector kind; the including module defines `V` (the vector type), `E` (its
// element) and `THREADS`. A world is a handful of vectors, the operations done to them and what
// was observed of them afterwards.
use crate::ops::*;
use crate::tok::{self, El};
use crate::util::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct World {
    pub slots: Vec<Option<V>>,
    pub mir: Vec<Option<Vec<u32>>>,
    last: Vec<Option<String>>,
    lastlive: BTreeMap<u32, i64>,
    /// are heights told?
    ht: bool,
    /// heights when last told
    lastht: Vec<Option<i64>>,
    /// nothing was ever cut off these
    grown: Vec<bool>,
    pub log: Log,
    /// set when the reference disagrees with the run: the run is worth the checker's time
    pub suspect: Option<String>,
    /// allocations outstanding before the first operation
    base: i64,
    /// the world cannot go on (an operation panicked that should not have)
    pub dead: bool,
    /// an element's clone panicked: what was half built may have been leaked
    leaky: bool,
}

fn shape_note(v: &V) {
    #[cfg(librrb_verif)]
    if v.len() <= 6000 {
        note_shape(v.verif_shape());
    }
    let _ = v;
}

/// Are the heights of the trees to be told?
fn heights() -> bool {
    cfg!(librrb_verif) && std::env::var_os("RRBH_HEIGHTS").is_some()
}

fn height(v: &V) -> i64 {
    #[cfg(librrb_verif)]
    return v.verif_height() as i64;
    #[cfg(not(librrb_verif))]
    {
        let _ = v;
        0
    }
}

/// The height a tree of n elements that only ever grew may have.
fn levels(n: i64) -> i64 {
    (0..60).find(|k| 2 * n < (librrb_width() as i64) << k).unwrap()
}

/// A hasher that takes notice of how it is fed.
struct Chunks(u64);
impl Hasher for Chunks {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = (self.0 ^ 0x5bd1_e995).rotate_left(23).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn hash_of(v: &V) -> u64 {
    let mut h = Chunks(0);
    v.hash(&mut h);
    h.finish()
}

fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

impl World {
    pub fn new(k: usize, log: Log) -> World {
        tok::reset_ledger();
        let mut w = World {
            slots: (0..k).map(|_| None).collect(),
            mir: (0..k).map(|_| None).collect(),
            last: (0..k).map(|_| None).collect(),
            lastlive: BTreeMap::new(),
            ht: heights(),
            lastht: vec![None; k],
            grown: vec![false; k],
            log,
            suspect: None,
            base: 0,
            dead: false,
            leaky: false,
        };
        w.log.line(&format!(
            "{{\"op\":\"reset\",\"a\":[{},{},{},{}],\"r\":[],\"p\":0,\"o\":0,\"obs\":[],\"c\":0,\"ch\":0,\"live\":[],\"tot\":0,\"f\":0,\"ht\":[]}}",
            k,
            librrb_width(),
            E::TRACKED as i32,
            heights() as i32
        ));
        w.base = crate::mem::live();
        w
    }

    /// Reads the contents of every live vector and adds what changed to the event.
    fn finish(&mut self, op: &str, a: &[i64], r: &Res, panicked: bool, observe: bool) {
        let mut obs = String::new();
        if observe {
            for h in 0..self.slots.len() {
                let now = match &self.slots[h] {
                    None => None,
                    Some(v) => {
                        let read = catch_unwind(AssertUnwindSafe(|| {
                            let n = v.len();
                            let mut ids = Vec::with_capacity(n);
                            for i in 0..n {
                                match v.get(i) {
                                    Some(x) => ids.push(x.id()),
                                    None => break,
                                }
                            }
                            (n, ids)
                        }));
                        // read wrongly by index: what does an iterator see?
                        let wrong = match &read {
                            Ok((n, ids)) => self.mir[h].as_ref() != Some(ids) || *n != ids.len(),
                            Err(_) => true,
                        };
                        let other = if wrong {
                            let most = self.mir[h].as_ref().map_or(0, |m| m.len()) + 1;
                            catch_unwind(AssertUnwindSafe(|| v.iter().take(most).map(|x| x.id()).collect::<Vec<u32>>())).ok()
                        } else {
                            None
                        };
                        let other = match (&other, &read) {
                            (Some(o), Ok((_, ids))) if o == ids => String::new(),
                            (Some(o), _) => format!(",{}", runs_json(o)),
                            _ => String::new(),
                        };
                        match read {
                            Ok((n, ids)) => {
                                if self.suspect.is_none() && (self.mir[h].as_ref() != Some(&ids) || n != ids.len()) {
                                    self.suspect = Some(format!("contents of {} after {}", h, op));
                                }
                                Some(format!("[{},{},{}{}]", h, n, runs_json(&ids), other))
                            }
                            Err(_) => {
                                self.suspect = Some(format!("reading {} after {} panics", h, op));
                                self.dead = true;
                                Some(format!("[{},-1,[]{}]", h, other))
                            }
                        }
                    }
                };
                if now != self.last[h] {
                    if let Some(v) = &self.slots[h] {
                        let _ = catch_unwind(AssertUnwindSafe(|| shape_note(v)));
                    }
                    if let Some(s) = &now {
                        if !obs.is_empty() {
                            obs.push(',');
                        }
                        obs.push_str(s);
                    } else {
                        if !obs.is_empty() {
                            obs.push(',');
                        }
                        obs.push_str(&format!("[{},-2,[]]", h));
                    }
                    self.last[h] = now;
                }
            }
        }
        let ht = if observe && self.ht { self.tell_heights(op, a) } else { String::new() };
        let (mut live, mut changed, mut tot, mut clones, mut faults) = (String::new(), 0, 0, 0, String::new());
        if E::TRACKED {
            tok::with(|l| {
                tot = l.total;
                clones = l.clones;
                l.clones = 0;
                for f in l.faults.drain(..) {
                    faults.push_str(&f);
                    faults.push(';');
                }
            });
            if !faults.is_empty() && self.suspect.is_none() {
                self.suspect = Some(faults.clone());
            }
            if observe {
                let mut occ: BTreeMap<u32, i64> = BTreeMap::new();
                for m in self.mir.iter().flatten() {
                    for x in m {
                        *occ.entry(*x).or_insert(0) += 1;
                    }
                }
                let now: BTreeMap<u32, i64> = tok::with(|l| {
                    l.live.retain(|_, n| *n != 0);
                    l.live.iter().map(|(a, b)| (*a, *b)).collect()
                });
                let leaky = self.leaky;
                let sus = now.iter().any(|(id, n)| *n < 0 || (!leaky && *n > occ.get(id).copied().unwrap_or(0)))
                    || occ.keys().any(|id| !now.contains_key(id));
                if sus && self.suspect.is_none() {
                    self.suspect = Some(format!("live elements after {}", op));
                }
                if now != self.lastlive {
                    // runs of identities alive equally often
                    changed = 1;
                    let mut runs: Vec<(u32, u32, i64)> = vec![];
                    for (id, n) in &now {
                        match runs.last_mut() {
                            Some(r) if r.0 + r.1 == *id && r.2 == *n => r.1 += 1,
                            _ => runs.push((*id, 1, *n)),
                        }
                    }
                    live = runs.iter().map(|r| format!("[{},{},{}]", r.0, r.1, r.2)).collect::<Vec<_>>().join(",");
                }
                self.lastlive = now;
            }
        }
        self.log.line(&format!(
            "{{\"op\":\"{}\",\"a\":{},\"r\":{},\"p\":{},\"o\":{},\"obs\":[{}],\"c\":{},\"ch\":{},\"live\":[{}],\"tot\":{},\"f\":{},\"ht\":[{}]}}",
            op,
            ints(a),
            r.json(),
            panicked as i32,
            observe as i32,
            obs,
            clones,
            changed,
            live,
            tot,
            !faults.is_empty() as i32,
            ht
        ));
    }

    /// The heights that changed; are they what the operation may lead to?
    fn tell_heights(&mut self, op: &str, a: &[i64]) -> String {
        let at = |i: usize| a.get(i).map_or(usize::MAX, |x| *x as usize);
        let was = |w: &World, i: usize| w.lastht.get(at(i)).copied().flatten();
        let known = |w: &World, i: usize| w.grown.get(at(i)).copied().unwrap_or(false);
        let (h, g) = (known(self, 0), known(self, 1));
        let set = |w: &mut World, i: usize, x: bool| {
            if let Some(y) = w.grown.get_mut(at(i)) {
                *y = x
            }
        };
        let rise = match op {
            "new" | "default" | "single" | "from_iter" | "macro" | "const" | "bomb_from_iter" => {
                set(self, 0, true);
                None
            }
            "joins" => Some(1 + levels(a[2] * a[3])),
            "push_back_n" | "push_front_n" => Some(1 + levels(a[2])),
            "clone" => {
                set(self, 1, h);
                Some(0)
            }
            "clone_from" => {
                set(self, 0, g);
                Some(0)
            }
            "append" | "prepend" | "append_clone" | "prepend_clone" => {
                set(self, 0, h && g);
                Some(1)
            }
            "push_back" | "push_front" => Some(1),
            "insert" | "remove" | "extract" => {
                set(self, 0, false);
                if op == "extract" {
                    set(self, 5, false);
                }
                Some(1)
            }
            "pop_back" | "pop_front" | "pop_back_n" | "pop_front_n" | "slice_from_start" | "slice_to_end" | "split_off" => {
                set(self, 0, false);
                if op == "split_off" {
                    set(self, 2, false);
                }
                Some(0)
            }
            "conc_close" | "bomb_clone" => {
                self.grown.iter_mut().for_each(|x| *x = false);
                None
            }
            _ => Some(0),
        };
        let most = rise.map(|r| {
            let parts = match op {
                "clone" => was(self, 0),
                "clone_from" => was(self, 1),
                "append" | "prepend" | "append_clone" | "prepend_clone" => was(self, 0).max(was(self, 1)),
                _ => was(self, 0),
            };
            parts.unwrap_or(0) + r
        });
        let mut out = String::new();
        for h in 0..self.slots.len() {
            let now = match &self.slots[h] {
                None => None,
                Some(v) => catch_unwind(AssertUnwindSafe(|| height(v))).ok(),
            };
            if now != self.lastht[h] {
                if let (Some(k), Some(v)) = (now, &self.slots[h]) {
                    if !out.is_empty() {
                        out.push(',');
                    }
                    out.push_str(&format!("[{},{}]", h, k));
                    let tall = self.grown[h] && k > levels(v.len() as i64);
                    if (tall || most.map_or(false, |m| k > m)) && self.suspect.is_none() {
                        self.suspect = Some(format!("height {} of {} after {}", k, h, op));
                    }
                }
                self.lastht[h] = now;
            }
        }
        out
    }

    fn v(&mut self, h: i64) -> &mut V {
        self.slots[h as usize].as_mut().unwrap()
    }
    fn m(&mut self, h: i64) -> &mut Vec<u32> {
        self.mir[h as usize].as_mut().unwrap()
    }
    pub fn len(&self, h: i64) -> i64 {
        self.mir[h as usize].as_ref().map(|m| m.len() as i64).unwrap_or(-1)
    }

    /// Runs one operation on the real vectors and on the reference, and logs it.
    pub fn exec(&mut self, op: &Op) {
        beat();
        self.log.intent(op);
        if op.name == "conc" {
            return self.conc(op);
        }
        if op.name == "sched" {
            return self.sched(op);
        }
        if op.cmds.is_some() {
            return self.session(op);
        }
        let bombs = op.name.starts_with("bomb");
        let real = {
            let this = AssertUnwindSafe(&mut *self);
            catch_unwind(move || {
                let t = this;
                let t = t.0;
                let _on = crate::mem::On::new();
                t.real(op)
            })
        };
        tok::with(|l| l.clone_bomb = -1);
        tok::CMP_BOMB.with(|b| *b.borrow_mut() = -1);
        let (res, panicked) = match real {
            Ok(r) => (r, false),
            Err(_) => (Res::None, true),
        };
        if bombs {
            // a user callback may have panicked half way: the reference takes what is there
            self.resync(op, panicked);
        } else {
            let want = self.reference(op);
            match (&want, panicked) {
                (Want::Panic, true) => {}
                (Want::Res(w), false) if *w == res => {}
                (Want::Any(_), false) => {}
                _ => {
                    if self.suspect.is_none() {
                        self.suspect = Some(format!("{:?} {} {:?} {}", op, panicked, res, self.log.n));
                    }
                    if panicked {
                        self.dead = true;
                    }
                }
            }
            if let Want::Any(h) = want {
                if !panicked {
                    self.adopt(h)
                }
            }
        }
        self.finish(&op.name, &op.a, &res, panicked, true);
    }

    /// The reference cannot predict the order of equal elements: check what it can, take the rest.
    fn adopt(&mut self, hs: Vec<(usize, Box<dyn Fn(&[u32], &[u32]) -> bool>)>) {
        for (h, check) in hs {
            let got: Vec<u32> = {
                let v = self.slots[h].as_ref().unwrap();
                (0..v.len()).map(|i| v.get(i).map(|x| x.id()).unwrap_or(0)).collect()
            };
            let old = self.mir[h].take().unwrap();
            if !check(&old, &got) && self.suspect.is_none() {
                self.suspect = Some("order".to_string());
            }
            self.mir[h] = Some(got);
        }
    }

    fn resync(&mut self, op: &Op, panicked: bool) {
        let h = op.a[0] as usize;
        let read = |v: &V| -> Vec<u32> { (0..v.len()).map(|i| v.get(i).map(|x| x.id()).unwrap_or(0)).collect() };
        if op.name == "bomb_from_iter" {
            self.mir[h] = self.slots[h].as_ref().map(read);
            return;
        }
        if op.name == "bomb_clone" && panicked {
            self.leaky = true;
            // what an interrupted structural operation leaves behind is only promised to be
            // droppable: drop it
            let mut hs = vec![h];
            if op.a[1] == 1 || op.a[1] == 2 {
                hs.push(op.a[2] as usize);
            }
            for h in hs {
                if let Some(v) = self.slots[h].take() {
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(v)));
                }
                self.mir[h] = None;
            }
            return;
        }
        for h in 0..self.slots.len() {
            if h as i64 == op.a[0] || (op.name == "bomb_dual" && h as i64 == op.a[1]) || op.name == "bomb_clone" {
                let got = self.slots[h].as_ref().map(read);
                if op.name != "bomb_clone" {
                    let mut x = got.clone().unwrap_or_default();
                    let mut y = self.mir[h].clone().unwrap_or_default();
                    x.sort_unstable();
                    y.sort_unstable();
                    if x != y && self.suspect.is_none() {
                        self.suspect = Some(format!("{} lost elements", op.name));
                    }
                }
                self.mir[h] = got;
            }
        }
    }

    fn put(&mut self, h: i64, v: V) {
        let h = h as usize;
        assert!(self.slots[h].is_none(), "harness: slot in use");
        self.slots[h] = Some(v);
    }

    fn two(&mut self, h: i64, g: i64) -> (&mut V, &mut V) {
        let (h, g) = (h as usize, g as usize);
        assert!(h != g);
        if h < g {
            let (x, y) = self.slots.split_at_mut(g);
            (x[h].as_mut().unwrap(), y[0].as_mut().unwrap())
        } else {
            let (x, y) = self.slots.split_at_mut(h);
            (y[0].as_mut().unwrap(), x[g].as_mut().unwrap())
        }
    }

    fn real(&mut self, op: &Op) -> Res {
        let a = &op.a;
        let us = |i: usize| far(a[i]);
        let id = |x: E| x.id() as i64;
        match op.name.as_str() {
            "new" => {
                self.put(a[0], V::new());
                Res::None
            }
            "default" => {
                self.put(a[0], V::default());
                Res::None
            }
            "single" => {
                self.put(a[0], V::singleton(E::mk(a[1] as u32)));
                Res::None
            }
            "from_iter" => {
                let (x, n) = (a[1] as u32, us(2) as u32);
                let mut i = 0;
                // iterators that know how many they give, do not, come in parts, or go on after a None
                let v: V = match x % 4 {
                    0 => (0..n).map(|i| E::mk(x + i)).collect(),
                    1 => (0..2 * n).filter(|i| i % 2 == 1).map(|i| E::mk(x + i / 2)).collect(),
                    2 => (0..n / 3).chain(n / 3..n).map(|i| E::mk(x + i)).collect(),
                    _ => std::iter::from_fn(|| {
                        i += 1;
                        if i == n + 1 { None } else { Some(E::mk(x + i - 1)) }
                    })
                    .collect(),
                };
                self.put(a[0], v);
                Res::None
            }
            "macro" => {
                let x = a[1] as u32;
                let e = |i: u32| E::mk(x + i);
                let v = match a[2] {
                    0 => make![],
                    1 => make![e(0)],
                    2 => make![e(0), e(1)],
                    3 => make![e(0), e(1), e(2),],
                    5 => make![e(0), e(1), e(2), e(3), e(4)],
                    _ => make![
                        e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15),
                        e(16), e(17), e(18),
                    ],
                };
                self.put(a[0], v);
                Res::None
            }
            "const" => {
                let v = V::constant_vec_of_length(E::mk(a[1] as u32), us(2));
                self.put(a[0], v);
                Res::None
            }
            "clone" => {
                let v = self.v(a[0]).clone();
                self.put(a[1], v);
                Res::None
            }
            "clone_from" => {
                let (x, y) = self.two(a[0], a[1]);
                x.clone_from(y);
                Res::None
            }
            "drop" => {
                self.slots[us(0)] = None;
                Res::None
            }
            "push_back" => {
                let x = E::mk(a[1] as u32);
                self.v(a[0]).push_back(x);
                Res::None
            }
            "push_front" => {
                let x = E::mk(a[1] as u32);
                self.v(a[0]).push_front(x);
                Res::None
            }
            "pop_back" => Res::opt(self.v(a[0]).pop_back().map(id)),
            "pop_front" => Res::opt(self.v(a[0]).pop_front().map(id)),
            "joins" => {
                // k vectors of n elements each, joined on one after the other
                let (k, n) = (a[2], a[3]);
                for i in 0..k {
                    let x = a[1] + n * if a[4] % 2 == 0 { i } else { k - 1 - i };
                    let mut o: V = V::new();
                    match a[4] / 2 {
                        0 => o = (x..x + n).map(|y| E::mk(y as u32)).collect(),
                        1 => (x..x + n).for_each(|y| o.push_back(E::mk(y as u32))),
                        _ => (x..x + n).rev().for_each(|y| o.push_front(E::mk(y as u32))),
                    }
                    if a[4] % 2 == 0 {
                        self.v(a[0]).append(o);
                    } else {
                        self.v(a[0]).prepend(o);
                    }
                }
                Res::None
            }
            "push_back_n" => {
                let v = self.v(a[0]);
                for i in 0..a[2] {
                    v.push_back(E::mk((a[1] + i) as u32));
                }
                Res::None
            }
            "push_front_n" => {
                let v = self.v(a[0]);
                for i in 0..a[2] {
                    v.push_front(E::mk((a[1] + a[2] - 1 - i) as u32));
                }
                Res::None
            }
            "pop_back_n" => {
                let v = self.v(a[0]);
                let mut got = vec![];
                for _ in 0..a[1] {
                    match v.pop_back() {
                        Some(x) => got.push(x.id()),
                        None => break,
                    }
                }
                got.reverse();
                Res::Runs(got)
            }
            "pop_front_n" => {
                let v = self.v(a[0]);
                let mut got = vec![];
                for _ in 0..a[1] {
                    match v.pop_front() {
                        Some(x) => got.push(x.id()),
                        None => break,
                    }
                }
                Res::Runs(got)
            }
            "append" => {
                let o = self.slots[us(1)].take().unwrap();
                self.v(a[0]).append(o);
                Res::None
            }
            "prepend" => {
                let o = self.slots[us(1)].take().unwrap();
                self.v(a[0]).prepend(o);
                Res::None
            }
            "append_clone" => {
                let o = self.v(a[1]).clone();
                self.v(a[0]).append(o);
                Res::None
            }
            "prepend_clone" => {
                let o = self.v(a[1]).clone();
                self.v(a[0]).prepend(o);
                Res::None
            }
            "split_off" => {
                let o = self.v(a[0]).split_off(us(1));
                self.put(a[2], o);
                Res::None
            }
            "slice_from_start" => {
                self.v(a[0]).slice_from_start(us(1));
                Res::None
            }
            "slice_to_end" => {
                self.v(a[0]).slice_to_end(us(1));
                Res::None
            }
            "extract" => {
                let o = self.v(a[0]).extract_slice(bounds(&a[1..5]));
                self.put(a[5], o);
                Res::None
            }
            "insert" => {
                let x = E::mk(a[2] as u32);
                self.v(a[0]).insert(us(1), x);
                Res::None
            }
            "remove" => Res::opt(self.v(a[0]).remove(us(1)).map(id)),
            "get" => Res::opt(self.v(a[0]).get(us(1)).map(|x| x.id() as i64)),
            "index" => Res::Ints(vec![self.v(a[0])[us(1)].id() as i64]),
            "front" => Res::opt(self.v(a[0]).front().map(|x| x.id() as i64)),
            "back" => Res::opt(self.v(a[0]).back().map(|x| x.id() as i64)),
            "all" => Res::Runs(self.v(a[0]).iter().map(|x| x.id()).collect()),
            "len" => {
                let v = self.v(a[0]);
                Res::Ints(vec![v.len() as i64, v.is_empty() as i64])
            }
            "set" => {
                // h i x how
                let (i, x) = (us(1), a[2] as u32);
                let v = self.v(a[0]);
                let put = |y: &mut E| {
                    let old = y.id() as i64;
                    y.set_id(x);
                    old
                };
                Res::opt(match a[3] {
                    0 => v.get_mut(i).map(put),
                    1 => v.get_mut_guarded(i).map(|mut g| {
                        let old = g.id() as i64;
                        *g = E::mk(x);
                        assert_eq!(g.id(), x);
                        old
                    }),
                    2 => Some(put(&mut v[i])),
                    3 => v.front_mut().map(put),
                    _ => v.back_mut().map(put),
                })
            }
            "reverse" => {
                self.v(a[0]).reverse();
                Res::None
            }
            "reverse_range" => {
                self.v(a[0]).reverse_range(bounds(&a[1..5]));
                Res::None
            }
            "sort" | "bomb_sort" => {
                // h mode kind m ka x kb y (bomb)
                let (kind, m) = (a[2], a[3]);
                if op.name == "bomb_sort" {
                    tok::CMP_BOMB.with(|b| *b.borrow_mut() = a[8]);
                }
                let lawless = std::cell::Cell::new(m as u64);
                let cmp = |x: &E, y: &E| {
                    tok::tick();
                    if kind > 5 {
                        return disorder(kind, &lawless, x.id(), y.id());
                    }
                    key(kind, m, x.id()).cmp(&key(kind, m, y.id()))
                };
                let by = |x: &E| {
                    tok::tick();
                    if kind > 5 {
                        return disorder(7, &lawless, x.id(), 0) as i64;
                    }
                    key(kind, m, x.id())
                };
                let b = bounds(&a[4..8]);
                let v = self.v(a[0]);
                match a[1] {
                    0 => v.sort(),
                    1 => v.sort_range(b),
                    2 => v.sort_by(&cmp),
                    3 => v.sort_range_by(&cmp, b),
                    _ => v.sort_range_by_key(&by, b),
                }
                Res::None
            }
            "dual" | "bomb_dual" => {
                // h g mode kind m ka x kb y (bomb)
                let (kind, m) = (a[3], a[4]);
                if op.name == "bomb_dual" {
                    tok::CMP_BOMB.with(|b| *b.borrow_mut() = a[9]);
                }
                let lawless = std::cell::Cell::new(m as u64);
                let cmp = |x: &E, y: &E| {
                    tok::tick();
                    if kind > 5 {
                        return disorder(kind, &lawless, x.id(), y.id());
                    }
                    key(kind, m, x.id()).cmp(&key(kind, m, y.id()))
                };
                let by = |x: &E| {
                    tok::tick();
                    if kind > 5 {
                        return disorder(7, &lawless, x.id(), 0) as i64;
                    }
                    key(kind, m, x.id())
                };
                let b = bounds(&a[5..9]);
                let (v, w) = self.two(a[0], a[1]);
                match a[2] {
                    0 => v.dual_sort(w),
                    1 => v.dual_sort_range(b, w),
                    2 => v.dual_sort_by(&cmp, w),
                    3 => v.dual_sort_range_by(&cmp, b, w),
                    _ => v.dual_sort_range_by_key(&by, b, w),
                }
                Res::None
            }
            "bomb_clone" => {
                // h what g n: the n-th clone of an element panics
                tok::with(|l| l.clone_bomb = a[3]);
                match a[1] {
                    0 => {
                        let n = self.v(a[0]).len();
                        if n > 0 {
                            if let Some(x) = self.v(a[0]).get_mut(n / 2) {
                                let y = x.id();
                                x.set_id(y);
                            }
                        }
                    }
                    1 => {
                        let o = self.slots[us(2)].take().unwrap();
                        self.v(a[0]).append(o);
                    }
                    2 => {
                        let at = self.v(a[0]).len() / 2;
                        let o = self.v(a[0]).split_off(at);
                        self.slots[us(2)] = Some(o);
                    }
                    3 => {
                        let x = E::mk(a[4] as u32);
                        self.v(a[0]).push_back(x);
                    }
                    4 => {
                        self.v(a[0]).pop_front();
                    }
                    _ => {
                        for x in self.v(a[0]).iter_mut() {
                            let y = x.id();
                            x.set_id(y);
                        }
                    }
                }
                Res::None
            }
            "bomb_from_iter" => {
                let (x, n, k) = (a[1] as u32, us(2), us(3));
                let v: V = (0..n)
                    .map(|i| {
                        if i == k {
                            panic!("callback bomb")
                        }
                        E::mk(x + i as u32)
                    })
                    .collect();
                self.put(a[0], v);
                Res::None
            }
            "cmp" => {
                // == != < cmp, hashes agree
                let (x, y) = self.two(a[0], a[1]);
                let (x, y) = (&*x, &*y);
                let eq = x == y;
                let pc = x.partial_cmp(y).map(ord).unwrap_or(9);
                Res::Ints(vec![eq as i64, (x != y) as i64, ord(x.cmp(y)), pc, (hash_of(x) == hash_of(y)) as i64])
            }
            "pcmp" => {
                // by elements that may be equal though different, or compare with nothing
                let (x, y) = (self.slots[us(0)].as_ref().unwrap(), self.slots[us(1)].as_ref().unwrap());
                tok::PARTIAL.with(|p| p.set((a[2] as u32, a[3] as u32)));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    vec![
                        (x == y) as i64,
                        (x != y) as i64,
                        x.partial_cmp(y).map(ord).unwrap_or(9),
                        (x < y) as i64,
                        (x <= y) as i64,
                        (x > y) as i64,
                        (x >= y) as i64,
                    ]
                }));
                tok::PARTIAL.with(|p| p.set((0, 1)));
                match r {
                    Ok(r) => Res::Ints(r),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
            "erange" => {
                // h mode kind m t ka x kb y index k1 b1 k2 b2
                let (kind, m, t) = (a[2], a[3], a[4]);
                let b = bounds(&a[5..9]);
                let f = |x: &E| {
                    tok::tick();
                    key(kind, m, x.id()).cmp(&t)
                };
                let tv = E::mk(t.max(0) as u32);
                let (lo, hi) = (E::mk(a[11] as u32), E::mk(a[13] as u32));
                let bound = |k: i64, x| match k {
                    0 => Bound::Unbounded,
                    1 => Bound::Included(x),
                    _ => Bound::Excluded(x),
                };
                let v = self.v(a[0]);
                let out = match a[1] {
                    0 => v.equal_range(&tv),
                    1 => v.equal_range_in_range(&tv, b),
                    2 => v.equal_range_by(&f),
                    3 => v.equal_range_in_range_by(&f, b),
                    4 => Ok(v.equal_range_for_index_by(us(9), &f)),
                    5 => Ok(v.equal_range_for_index_in_range_by(us(9), &f, b)),
                    6 => v.between_range(bound(a[10], &lo), bound(a[12], &hi)),
                    _ => v.between_range_in_range(bound(a[10], &lo), bound(a[12], &hi), b),
                };
                match out {
                    Ok(r) => Res::Ints(vec![1, r.start as i64, r.end as i64]),
                    Err(e) => Res::Ints(vec![0, e as i64]),
                }
            }
            x => panic!("harness: unknown operation {}", x),
        }
    }

    /// What a plain `Vec` would do. Only used to pick runs for the checker.
    fn reference(&mut self, op: &Op) -> Want {
        let a = &op.a;
        let us = |i: usize| a[i] as usize;
        let run = |x: i64, n: i64| (x..x + n).map(|y| y as u32).collect::<Vec<u32>>();
        let none = Want::Res(Res::None);
        match op.name.as_str() {
            "new" | "default" => self.mir[us(0)] = Some(vec![]),
            "single" => self.mir[us(0)] = Some(vec![a[1] as u32]),
            "from_iter" | "macro" => self.mir[us(0)] = Some(run(a[1], a[2])),
            "const" => self.mir[us(0)] = Some(vec![a[1] as u32; us(2)]),
            "clone" => self.mir[us(1)] = self.mir[us(0)].clone(),
            "clone_from" => self.mir[us(0)] = self.mir[us(1)].clone(),
            "drop" => self.mir[us(0)] = None,
            "push_back" => self.m(a[0]).push(a[1] as u32),
            "push_front" => self.m(a[0]).insert(0, a[1] as u32),
            "push_back_n" => self.m(a[0]).extend(run(a[1], a[2])),
            "push_front_n" => {
                let mut x = run(a[1], a[2]);
                let m = self.m(a[0]);
                x.append(m);
                *m = x;
            }
            "pop_back" => return Want::Res(Res::opt(self.m(a[0]).pop().map(|x| x as i64))),
            "pop_front" => {
                let m = self.m(a[0]);
                return Want::Res(Res::opt(if m.is_empty() { None } else { Some(m.remove(0) as i64) }));
            }
            "pop_back_n" => {
                let m = self.m(a[0]);
                let k = m.len() - us(1).min(m.len());
                return Want::Res(Res::Runs(m.split_off(k)));
            }
            "pop_front_n" => {
                let m = self.m(a[0]);
                let k = us(1).min(m.len());
                let rest = m.split_off(k);
                return Want::Res(Res::Runs(std::mem::replace(m, rest)));
            }
            "append" => {
                let mut o = self.mir[us(1)].take().unwrap();
                self.m(a[0]).append(&mut o);
            }
            "prepend" => {
                let mut o = self.mir[us(1)].take().unwrap();
                let m = self.m(a[0]);
                o.append(m);
                *m = o;
            }
            "joins" => {
                let mut x = run(a[1], a[2] * a[3]);
                let m = self.m(a[0]);
                if a[4] % 2 == 0 {
                    m.append(&mut x);
                } else {
                    x.append(m);
                    *m = x;
                }
            }
            "append_clone" => {
                let mut o = self.m(a[1]).clone();
                self.m(a[0]).append(&mut o);
            }
            "prepend_clone" => {
                let mut o = self.m(a[1]).clone();
                let m = self.m(a[0]);
                o.append(m);
                *m = o;
            }
            "split_off" => {
                let m = self.m(a[0]);
                let at = us(1).min(m.len());
                let o = m.split_off(at);
                self.mir[us(2)] = Some(o);
            }
            "slice_from_start" => self.m(a[0]).truncate(us(1)),
            "slice_to_end" => {
                let m = self.m(a[0]);
                let at = us(1).min(m.len());
                *m = m.split_off(at);
            }
            "extract" => {
                let m = self.m(a[0]);
                let (s, e) = span(&a[1..5], m.len());
                let e = e.min(m.len());
                let s = s.min(e);
                let mut tail = m.split_off(e);
                let mid = m.split_off(s);
                m.append(&mut tail);
                self.mir[us(5)] = Some(mid);
            }
            "insert" => {
                let m = self.m(a[0]);
                let at = us(1).min(m.len());
                m.insert(at, a[2] as u32);
            }
            "remove" => {
                let m = self.m(a[0]);
                return Want::Res(Res::opt(if us(1) < m.len() { Some(m.remove(us(1)) as i64) } else { None }));
            }
            "get" => return Want::Res(Res::opt(self.m(a[0]).get(us(1)).map(|x| *x as i64))),
            "index" => {
                return match self.m(a[0]).get(us(1)) {
                    Some(x) => Want::Res(Res::Ints(vec![*x as i64])),
                    None => Want::Panic,
                }
            }
            "front" => return Want::Res(Res::opt(self.m(a[0]).first().map(|x| *x as i64))),
            "back" => return Want::Res(Res::opt(self.m(a[0]).last().map(|x| *x as i64))),
            "all" => return Want::Res(Res::Runs(self.m(a[0]).clone())),
            "len" => {
                let n = self.m(a[0]).len() as i64;
                return Want::Res(Res::Ints(vec![n, (n == 0) as i64]));
            }
            "set" => {
                let m = self.m(a[0]);
                let i = match a[3] {
                    3 => 0,
                    4 => m.len().wrapping_sub(1),
                    _ => us(1),
                };
                return match m.get_mut(i) {
                    Some(y) => Want::Res(Res::opt(Some(std::mem::replace(y, a[2] as u32) as i64))),
                    None if a[3] == 2 => Want::Panic,
                    None => Want::Res(Res::opt(None)),
                };
            }
            "reverse" => self.m(a[0]).reverse(),
            "reverse_range" => {
                let m = self.m(a[0]);
                let (s, e) = span(&a[1..5], m.len());
                if e > m.len() || s > e {
                    return Want::Panic;
                }
                m[s..e].reverse();
            }
            "sort" => {
                let n = self.m(a[0]).len();
                let (kind, mm) = if a[1] < 2 { (0, 0) } else { (a[2], a[3]) };
                let (s, e) = if a[1] == 0 || a[1] == 2 { (0, n) } else { span(&a[4..8], n) };
                if e > n || s > e {
                    return Want::Panic;
                }
                return Want::Any(vec![(
                    us(0),
                    Box::new(move |old, new| {
                        old.len() == new.len()
                            && old[..s] == new[..s]
                            && old[e..] == new[e..]
                            && same_bag(&old[s..e], &new[s..e])
                            && new[s..e].windows(2).all(|p| key(kind, mm, p[0]) <= key(kind, mm, p[1]))
                    }),
                )]);
            }
            "dual" => {
                let n = self.m(a[0]).len();
                let (kind, mm) = if a[2] < 2 { (0, 0) } else { (a[3], a[4]) };
                let (s, e) = if a[2] == 0 || a[2] == 2 { (0, n) } else { span(&a[5..9], n) };
                let n2 = self.m(a[1]).len();
                if e > n || e > n2 || s > e {
                    return Want::Panic;
                }
                let (old, old2) = (self.m(a[0]).clone(), self.m(a[1]).clone());
                let new: Vec<u32> = {
                    let v = self.v(a[0]);
                    (0..v.len()).map(|i| v.get(i).map(|x| x.id()).unwrap_or(0)).collect()
                };
                return Want::Any(vec![
                    (
                        us(0),
                        Box::new(move |old, new| {
                            old.len() == new.len()
                                && old[..s] == new[..s]
                                && old[e..] == new[e..]
                                && new[s..e].windows(2).all(|p| key(kind, mm, p[0]) <= key(kind, mm, p[1]))
                        }),
                    ),
                    (
                        us(1),
                        Box::new(move |_, new2| {
                            if new2.len() != old2.len() || new.len() != old.len() || new2[..s] != old2[..s] || new2[e..] != old2[e..] {
                                return false;
                            }
                            let mut x: Vec<_> = (s..e).map(|i| (old[i], old2[i])).collect();
                            let mut y: Vec<_> = (s..e).map(|i| (new[i], new2[i])).collect();
                            x.sort_unstable();
                            y.sort_unstable();
                            x == y
                        }),
                    ),
                ]);
            }
            "cmp" => {
                let (x, y) = (self.m(a[0]).clone(), self.m(a[1]).clone());
                let c = ord(x.cmp(&y));
                return Want::Res(Res::Ints(vec![(c == 0) as i64, (c != 0) as i64, c, c, (c == 0) as i64]));
            }
            "pcmp" => {
                let (x, y) = (self.m(a[0]).clone(), self.m(a[1]).clone());
                let (m, q) = (a[2] as u32, a[3] as u32);
                let one = |x: u32, y: u32| if m > 0 && (x % m == 1 || y % m == 1) { None } else { Some((x / q).cmp(&(y / q))) };
                let mut c = Some(x.len().cmp(&y.len()));
                for (x, y) in x.iter().zip(&y) {
                    let d = one(*x, *y);
                    if d != Some(Ordering::Equal) {
                        c = d;
                        break;
                    }
                }
                let eq = (c == Some(Ordering::Equal)) as i64;
                let is = |o: &[Ordering]| c.map_or(0, |c| o.contains(&c) as i64);
                use Ordering::*;
                return Want::Res(Res::Ints(vec![eq, 1 - eq, c.map(ord).unwrap_or(9), is(&[Less]), is(&[Less, Equal]), is(&[Greater]), is(&[Greater, Equal])]));
            }
            "erange" => {
                let m = self.m(a[0]).clone();
                let n = m.len();
                let (s, e) = match a[1] {
                    1 | 3 | 5 | 7 => span(&a[5..9], n),
                    _ => (0, n),
                };
                if e > n || s > e {
                    return Want::Panic;
                }
                let f = |x: u32| -> Ordering {
                    let x64 = x as i64;
                    match a[1] {
                        0 | 1 => x64.cmp(&a[4].max(0)),
                        6 | 7 => {
                            if (a[10] == 2 && x64 <= a[11]) || (a[10] == 1 && x64 < a[11]) {
                                Ordering::Less
                            } else if (a[12] == 2 && x64 >= a[13]) || (a[12] == 1 && x64 > a[13]) {
                                Ordering::Greater
                            } else {
                                Ordering::Equal
                            }
                        }
                        _ => key(a[2], a[3], x).cmp(&a[4]),
                    }
                };
                let seg: Vec<Ordering> = m[s..e].iter().map(|x| f(*x)).collect();
                let lt = s + seg.iter().filter(|o| **o == Ordering::Less).count();
                let eq = seg.iter().filter(|o| **o == Ordering::Equal).count();
                if a[1] == 4 || a[1] == 5 {
                    let i = us(9);
                    return Want::Res(Res::Ints(if i >= s && i < e && f(m[i]) == Ordering::Equal {
                        vec![1, lt as i64, (lt + eq) as i64]
                    } else {
                        vec![1, 0, 0]
                    }));
                }
                return Want::Res(Res::Ints(if eq > 0 {
                    vec![1, lt as i64, (lt + eq) as i64]
                } else {
                    vec![0, lt as i64]
                }));
            }
            x => panic!("harness: unknown operation {}", x),
        }
        none
    }

    // ------------------------------------------------------------------ sessions

    fn session(&mut self, op: &Op) {
        let h = op.a[0] as usize;
        let cmds = op.cmds.as_ref().unwrap();
        self.finish(&format!("{}_open", op.name), &op.a, &Res::None, false, false);
        let mut st = Sess { cur: 0, log: vec![], suspect: None };
        let on = crate::mem::On::new();
        let panicked = match op.name.as_str() {
            "iter" => match op.a[1] {
                0 => {
                    let (v, m) = (self.slots[h].as_ref().unwrap(), self.mir[h].as_ref().unwrap());
                    catch_unwind(AssertUnwindSafe(|| st.iter(v, m, cmds))).is_err()
                }
                1 => {
                    let (v, m) = (self.slots[h].as_mut().unwrap(), self.mir[h].as_mut().unwrap());
                    catch_unwind(AssertUnwindSafe(|| st.iter_mut(v, m, cmds))).is_err()
                }
                _ => {
                    let (v, m) = (self.slots[h].take().unwrap(), self.mir[h].take().unwrap());
                    catch_unwind(AssertUnwindSafe(|| st.into_iter(v, m, cmds))).is_err()
                }
            },
            "fc" => {
                let (v, m) = (self.slots[h].as_ref().unwrap(), self.mir[h].as_ref().unwrap());
                catch_unwind(AssertUnwindSafe(|| st.focus(v, m, cmds))).is_err()
            }
            "fm" => {
                let (v, m) = (self.slots[h].as_mut().unwrap(), self.mir[h].as_mut().unwrap());
                let n = m.len();
                catch_unwind(AssertUnwindSafe(|| {
                    let mut root = v.focus_mut();
                    let mut foci = vec![(0i64, &mut root as *mut _ as *mut Fm)];
                    let mut info = vec![(0i64, 0usize, n)];
                    let mut at = 0;
                    st.focus_mut(&mut foci, &mut info, m, cmds, &mut at, 0);
                }))
                .is_err()
            }
            "par" => {
                let v = self.slots[h].as_mut().unwrap();
                let m = self.mir[h].as_mut().unwrap();
                catch_unwind(AssertUnwindSafe(|| st.par(v, m, cmds))).is_err()
            }
            x => panic!("harness: unknown session {}", x),
        };
        drop(on);
        let last = if E::TRACKED { tok::take_clones() } else { 0 };
        for (name, a, r, c) in std::mem::take(&mut st.log) {
            tok::with(|l| l.clones = c);
            self.finish(name, &a, &r, false, false);
        }
        tok::with(|l| l.clones = last);
        if panicked {
            let c = cmds[st.cur].clone();
            self.finish(&format!("{}_panic", op.name), &c, &Res::None, true, false);
            if !op.tail_panics && self.suspect.is_none() {
                self.suspect = Some(format!("{:?} panics", op));
            }
            if !op.tail_panics {
                self.dead = true;
            }
        } else if op.tail_panics && self.suspect.is_none() {
            self.suspect = Some(format!("{:?} does not panic", op));
        }
        if let Some(s) = st.suspect.take() {
            if self.suspect.is_none() {
                self.suspect = Some(s);
            }
        }
        self.finish(&format!("{}_close", op.name), &op.a, &Res::None, false, true);
    }
}

/// What a thread does to the vectors it was given, from their contents alone.
fn conc_op(r: &mut crate::rng::Rng, h: i64, m: &[u32], x: u32) -> Op {
    let n = m.len() as i64;
    let at = |r: &mut crate::rng::Rng, n: i64| r.below(n as u64 + 1) as i64;
    match r.below(14) {
        0 | 1 => Op::new("push_back", &[h, x as i64]),
        2 | 3 => Op::new("push_front", &[h, x as i64]),
        4 => Op::new("pop_back", &[h]),
        5 => Op::new("pop_front", &[h]),
        6 | 7 => Op::new("set", &[h, at(r, n), x as i64, r.below(2) as i64]),
        8 => Op::new("insert", &[h, at(r, n), x as i64]),
        9 => Op::new("remove", &[h, at(r, n)]),
        10 if n < 400 => Op::new("append_clone", &[h, h]),
        11 if n > 4 => Op::new("slice_from_start", &[h, n - at(r, 3)]),
        12 => Op::new("reverse", &[h]),
        _ => Op::new("all", &[h]),
    }
}

/// Lets a vector into a thread whatever its kind; only the thread-safe kinds are ever sent.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Turns of a few points each, for threads at random.
fn random_turns(seed: u64, threads: usize) -> Vec<(usize, i64)> {
    let mut r = crate::rng::Rng::new(seed);
    (0..300).map(|_| (r.below(threads.max(1) as u64) as usize, 1 + r.below(9) as i64)).collect()
}

/// What the threads of a schedule do, by number.
const CALLS: [&str; 15] = [
    "set", "push_back", "push_front", "pop_back", "pop_front", "insert", "remove", "reverse", "slice_from_start", "slice_to_end",
    "drop", "all", "clone", "append_clone", "get",
];

type ConcLog = Vec<(String, Vec<i64>, Res)>;
type Moved = (usize, V, Vec<u32>);

impl World {
    /// Every live vector goes to a thread of its own, which works on it; the vector `a[2]` stays
    /// and is read by two threads at once, which also change clones of it. Storage is shared
    /// between them all as the history before has left it.
    fn conc(&mut self, op: &Op) {
        if !THREADS {
            return;
        }
        let (seed, nops, kept) = (op.a[0] as u64, op.a[1], op.a[2]);
        self.finish("conc_open", &op.a, &Res::None, false, false);
        let moved: Vec<Moved> = (0..self.slots.len())
            .filter(|h| *h as i64 != kept)
            .filter_map(|h| self.slots[h].take().map(|v| (h, v)))
            .map(|(h, v)| (h, v, self.mir[h].take().unwrap()))
            .collect();
        let total = moved.len();
        let stay: Option<(usize, &V, &Vec<u32>)> =
            self.slots.get(kept as usize).and_then(|x| x.as_ref()).map(|v| (kept as usize, v, self.mir[kept as usize].as_ref().unwrap()));
        let threads = total + if stay.is_some() { 2 } else { 0 };
        let gate = std::sync::Barrier::new(threads);
        let gate = &gate;
        let taken = E::TRACKED && op.a.len() > 3 && op.a[3] > 0;
        if taken {
            tok::turns::start(random_turns(op.a[3] as u64, threads), threads);
            (0..threads).for_each(tok::turns::expect);
        }
        let part = move |me: usize| taken.then(|| tok::turns::begin(me));
        type Out = (Option<Sent<Moved>>, ConcLog, Option<String>);
        let outs: Vec<Option<Out>> = std::thread::scope(|s| {
            let mut ts = vec![];
            for (me, (h, v, m)) in moved.into_iter().enumerate() {
                let pack = Sent((h, v, m));
                ts.push(s.spawn(move || {
                    let _part = part(me);
                    let (h, v, m) = pack.get();
                    let mut r = crate::rng::Rng::new(seed ^ (h as u64 + 1).wrapping_mul(0x9E37_79B9));
                    let mut w = World { slots: vec![Some(v)], mir: vec![Some(m)], last: vec![None], lastlive: BTreeMap::new(), ht: false, lastht: vec![], grown: vec![], log: Log::default(), suspect: None, base: 0, dead: false, leaky: false };
                    let mut out: ConcLog = vec![];
                    gate.wait();
                    for i in 0..nops {
                        let x = 20_000_000 + (h as u32) * 100_000 + i as u32;
                        let o = conc_op(&mut r, 0, w.mir[0].as_ref().unwrap(), x);
                        let want = w.reference(&o);
                        let got = {
                            let _on = crate::mem::On::new();
                            w.real(&o)
                        };
                        if let Want::Res(x) = want {
                            if x != got && w.suspect.is_none() {
                                w.suspect = Some(format!("{:?} in a thread: {:?}", o, got));
                            }
                        }
                        let mut a = o.a.clone();
                        a[0] = h as i64;
                        if o.name == "append_clone" {
                            a[1] = h as i64;
                        }
                        out.push((o.name.clone(), a, got));
                        beat();
                    }
                    let (v, m) = (w.slots[0].take().unwrap(), w.mir[0].take().unwrap());
                    (Some(Sent((h, v, m))), out, w.suspect.take())
                }));
            }
            if let Some((h, v, m)) = stay {
                for k in 0..2u64 {
                    let pack = Sent((v as *const V, m as *const Vec<u32>));
                    ts.push(s.spawn(move || {
                        let _part = part(total + k as usize);
                        let (v, m) = pack.get();
                        let (v, m): (&V, &Vec<u32>) = unsafe { (&*v, &*m) };
                        let mut r = crate::rng::Rng::new(seed ^ (77 + k));
                        let mut out: ConcLog = vec![];
                        let mut sus = None;
                        gate.wait();
                        for i in 0..nops {
                            let n = m.len() as u64;
                            let j = r.below(n + 2) as usize;
                            match r.below(5) {
                                0 => {
                                    let got: Vec<u32> = v.iter().map(|x| x.id()).collect();
                                    if got != *m {
                                        sus = Some("a shared read went wrong".to_string());
                                    }
                                    out.push(("all".into(), vec![h as i64], Res::Runs(got)));
                                }
                                1 => {
                                    // a clone made here, changed and dropped again
                                    let _on = crate::mem::On::new();
                                    let mut c = v.clone();
                                    c.push_back(E::mk(19_000_000 + i as u32));
                                    c.push_front(E::mk(19_500_000 + i as u32));
                                    if let Some(y) = c.get_mut(j) {
                                        y.set_id(19_900_000);
                                    }
                                    let _ = c.pop_back();
                                }
                                2 => {
                                    let mut f = v.focus();
                                    let got = f.get(j).map(|x| x.id() as i64);
                                    if got != m.get(j).map(|x| *x as i64) {
                                        sus = Some("a shared focus went wrong".to_string());
                                    }
                                    out.push(("get".into(), vec![h as i64, j as i64], Res::opt(got)));
                                }
                                _ => {
                                    let got = v.get(j).map(|x| x.id() as i64);
                                    if got != m.get(j).map(|x| *x as i64) {
                                        sus = Some("a shared get went wrong".to_string());
                                    }
                                    out.push(("get".into(), vec![h as i64, j as i64], Res::opt(got)));
                                }
                            }
                            beat();
                        }
                        (None, out, sus)
                    }));
                }
            }
            ts.into_iter().map(|t| t.join().ok()).collect()
        });
        if taken {
            tok::turns::stop();
        }
        let mut panicked = false;
        let total_clones = if E::TRACKED { tok::take_clones() } else { 0 };
        for o in outs {
            match o {
                None => panicked = true,
                Some((back, log, sus)) => {
                    if let Some(p) = back {
                        let (h, v, m) = p.get();
                        self.slots[h] = Some(v);
                        self.mir[h] = Some(m);
                    }
                    for (name, a, r) in log {
                        self.finish(&name, &a, &r, false, false);
                    }
                    if sus.is_some() && self.suspect.is_none() {
                        self.suspect = sus;
                    }
                }
            }
        }
        if panicked {
            self.suspect.get_or_insert("a thread panicked".to_string());
            self.dead = true;
        }
        tok::with(|l| l.clones = total_clones);
        self.finish("conc_close", &op.a, &Res::None, panicked, true);
    }
}

impl World {
    /// Threads take turns as the schedule says. `a` is the vector all see and nobody changes, and
    /// how many points a turn's are; a command is `1 thread call arguments..` or
    /// `2 thread points`. The threads own two vectors each, 2t and 2t + 1.
    fn sched(&mut self, op: &Op) {
        if !THREADS {
            return;
        }
        let (kept, scale) = (op.a[0] as usize, op.a[1]);
        let cmds = op.cmds.clone().unwrap_or_default();
        let size = self.slots.len();
        let threads = kept / 2;
        self.finish("conc_open", &op.a, &Res::None, false, false);
        let turns: Vec<(usize, i64)> =
            cmds.iter().filter(|c| c[0] == 2 && (c[1] as usize) < threads).map(|c| (c[1] as usize, c[2] * scale)).collect();
        tok::turns::start(turns, threads);
        (0..threads).for_each(tok::turns::expect);
        let shared: Option<Sent<(*const V, *const Vec<u32>)>> = match (&self.slots[kept], &self.mir[kept]) {
            (Some(v), Some(m)) => Some(Sent((v as *const V, m as *const Vec<u32>))),
            _ => None,
        };
        let (kv, km) = shared.map(|s| s.get()).unwrap_or((std::ptr::null(), std::ptr::null()));
        let mut packs = vec![];
        for t in 0..threads {
            let mine = |h: usize| h / 2 == t && h < kept;
            let vs: Vec<Option<V>> = (0..size).map(|h| if mine(h) { self.slots[h].take() } else { None }).collect();
            let ms: Vec<Option<Vec<u32>>> = (0..size).map(|h| if mine(h) { self.mir[h].take() } else { None }).collect();
            let todo: Vec<Vec<i64>> = cmds.iter().filter(|c| c[0] == 1 && c[1] as usize == t).cloned().collect();
            packs.push(Sent((vs, ms, todo, kv, km)));
        }
        type Back = Sent<(Vec<Option<V>>, Vec<Option<Vec<u32>>>)>;
        let outs: Vec<Option<(Back, ConcLog, Option<String>)>> = std::thread::scope(|s| {
            let ts: Vec<_> = packs
                .into_iter()
                .enumerate()
                .map(|(t, pack)| {
                    s.spawn(move || {
                        let _part = tok::turns::begin(t);
                        let (vs, ms, todo, kv, km) = pack.get();
                        let (kv, km): (Option<&V>, Option<&Vec<u32>>) = unsafe { (kv.as_ref(), km.as_ref()) };
                        let last = vec![None; vs.len()];
                        let mut w = World { slots: vs, mir: ms, last, lastlive: BTreeMap::new(), ht: false, lastht: vec![], grown: vec![], log: Log::default(), suspect: None, base: 0, dead: false, leaky: false };
                        let mut out: ConcLog = vec![];
                        for c in todo {
                            tok::turns::point();
                            beat();
                            let o = Op::new(CALLS[c[2] as usize], &c[3..]);
                            let h = c[3] as usize;
                            if h == kept {
                                let (Some(v), Some(m)) = (kv, km) else { continue };
                                if o.name == "clone" {
                                    let g = c[4] as usize;
                                    if w.slots[g].is_some() {
                                        continue;
                                    }
                                    let _on = crate::mem::On::new();
                                    w.slots[g] = Some(v.clone());
                                    w.mir[g] = Some(m.clone());
                                    out.push((o.name.clone(), o.a.clone(), Res::None));
                                } else {
                                    let got: Vec<u32> = v.iter().map(|x| x.id()).collect();
                                    if got != *m {
                                        w.suspect = Some("a shared read went wrong".to_string());
                                    }
                                    out.push(("all".into(), vec![h as i64], Res::Runs(got)));
                                }
                                continue;
                            }
                            if w.slots[h].is_none() || (o.name == "clone" && w.slots[c[4] as usize].is_some()) {
                                continue;
                            }
                            let want = w.reference(&o);
                            let got = {
                                let _on = crate::mem::On::new();
                                w.real(&o)
                            };
                            if let Want::Res(x) = want {
                                if x != got && w.suspect.is_none() {
                                    w.suspect = Some(format!("{:?} in a thread: {:?}", o, got));
                                }
                            }
                            out.push((o.name.clone(), o.a.clone(), got));
                        }
                        let back = (std::mem::take(&mut w.slots), std::mem::take(&mut w.mir));
                        (Sent(back), out, w.suspect.take())
                    })
                })
                .collect();
            ts.into_iter().map(|t| t.join().ok()).collect()
        });
        tok::turns::stop();
        let mut panicked = false;
        let total_clones = if E::TRACKED { tok::take_clones() } else { 0 };
        for o in outs {
            let Some((back, log, sus)) = o else {
                panicked = true;
                continue;
            };
            let (vs, ms) = back.get();
            for (h, v) in vs.into_iter().enumerate() {
                if v.is_some() {
                    self.slots[h] = v;
                }
            }
            for (h, m) in ms.into_iter().enumerate() {
                if m.is_some() {
                    self.mir[h] = m;
                }
            }
            for (name, a, r) in log {
                self.finish(&name, &a, &r, false, false);
            }
            if sus.is_some() && self.suspect.is_none() {
                self.suspect = sus;
            }
        }
        if panicked {
            self.suspect.get_or_insert("a thread panicked".to_string());
            self.dead = true;
        }
        tok::with(|l| l.clones = total_clones);
        self.finish("conc_close", &op.a, &Res::None, panicked, true);
    }
}

/// The element after the next k, by another way than `nth`; those passed are dropped.
fn pass<I: Iterator>(it: &mut I, k: usize, how: i64) -> Option<I::Item> {
    let (mut n, mut got) = (0, None);
    match how {
        0 => it.find(|_| {
            n += 1;
            n > k
        }),
        1 => {
            let hit = it.any(|x| {
                n += 1;
                if n > k {
                    got = Some(x);
                }
                n > k
            });
            got.filter(|_| hit)
        }
        2 => {
            let at = it.position(|x| {
                n += 1;
                if n > k {
                    got = Some(x);
                }
                n > k
            });
            got.filter(|_| at == Some(k))
        }
        3 => it.skip(k).next(),
        _ => {
            let _ = it.take(k).count();
            it.next()
        }
    }
}

fn pass_back<I: DoubleEndedIterator + ExactSizeIterator>(it: &mut I, k: usize, how: i64) -> Option<I::Item> {
    let (mut n, mut got) = (0, None);
    match how {
        0 => it.rfind(|_| {
            n += 1;
            n > k
        }),
        1 => {
            let left = it.len();
            let at = it.rposition(|x| {
                n += 1;
                if n > k {
                    got = Some(x);
                }
                n > k
            });
            got.filter(|_| at.map(|x| x + k + 1) == Some(left))
        }
        2 => pass(&mut it.rev(), k, 3),
        3 => pass(&mut it.rev(), k, 4),
        _ => pass(&mut it.rev(), k, 1),
    }
}

struct Sess {
    /// the command that is running
    cur: usize,
    log: Vec<(&'static str, Vec<i64>, Res, u64)>,
    suspect: Option<String>,
}

type Fm = FMut<'static>;

impl Sess {
    fn ev(&mut self, name: &'static str, a: Vec<i64>, got: Res, want: Res) {
        let _off = crate::mem::Off::new();
        if got != want && self.suspect.is_none() {
            self.suspect = Some(format!("{} {:?}: {:?}, not {:?}", name, a, got, want));
        }
        let c = if E::TRACKED { tok::take_clones() } else { 0 };
        self.log.push((name, a, got, c));
    }

    fn iter(&mut self, v: &V, m: &[u32], cmds: &[Vec<i64>]) {
        let mut it = if cmds.len() % 2 == 0 { v.iter() } else { v.into_iter() };
        let mut rf = m.iter();
        let g = |x: Option<&E>| Res::opt(x.map(|y| y.id() as i64));
        let w = |x: Option<&u32>| Res::opt(x.map(|y| *y as i64));
        for (ci, c) in cmds.iter().enumerate() {
            self.cur = ci;
            beat();
            match c[0] {
                0 | 3 => self.ev("it_next", vec![], g(it.next()), w(rf.next())),
                1 | 4 => self.ev("it_back", vec![], g(it.next_back()), w(rf.next_back())),
                2 => {
                    let (lo, hi) = it.size_hint();
                    let got = vec![it.len() as i64, lo as i64, hi.map(|x| x as i64).unwrap_or(-1)];
                    let n = rf.len() as i64;
                    self.ev("it_len", vec![], Res::Ints(got), Res::Ints(vec![n, n, n]));
                }
                5 => self.ev("it_nth", vec![c[1]], g(it.nth(far(c[1]))), w(rf.nth(far(c[1])))),
                6 => self.ev("it_nth_back", vec![c[1]], g(it.nth_back(far(c[1]))), w(rf.nth_back(far(c[1])))),
                15 => self.ev("it_nth", vec![c[1]], g(pass(&mut it, far(c[1]), c[2])), w(rf.nth(far(c[1])))),
                16 => self.ev("it_nth_back", vec![c[1]], g(pass_back(&mut it, far(c[1]), c[2])), w(rf.nth_back(far(c[1])))),
                17 => {
                    // what has been given out outlives the iterator
                    let held: Vec<&E> = it.collect();
                    let got = held.iter().map(|x| x.id()).collect();
                    self.ev("it_rest", vec![], Res::Runs(got), Res::Runs(rf.copied().collect()));
                    return;
                }
                10 => {
                    // a copy of the iterator goes the rest of the way, or takes over
                    let mut copy = it.clone();
                    let want: Vec<u32> = rf.clone().copied().collect();
                    if c[1] == 2 {
                        std::mem::swap(&mut it, &mut copy);
                    }
                    let mut got = vec![];
                    let mut tail = vec![];
                    while let Some(x) = if c[1] == 1 { copy.next_back() } else { copy.next() } {
                        if c[1] == 1 {
                            tail.push(x.id());
                        } else {
                            got.push(x.id());
                        }
                        if c[1] == 3 {
                            tail.extend(copy.next_back().map(|x| x.id()));
                        }
                    }
                    tail.reverse();
                    got.append(&mut tail);
                    self.ev("it_fork", vec![c[1]], Res::Runs(got), Res::Runs(want));
                }
                11 => {
                    let (got, want) = (it.count(), rf.count());
                    self.ev("it_count", vec![], Res::Ints(vec![got as i64]), Res::Ints(vec![want as i64]));
                    return;
                }
                12 => {
                    self.ev("it_last", vec![], g(it.last()), w(rf.last()));
                    return;
                }
                13 => {
                    let (mut got, mut want) = (vec![], vec![]);
                    it.for_each(|x| got.push(x.id()));
                    rf.for_each(|x| want.push(*x));
                    self.ev("it_fold", vec![], Res::Runs(got), Res::Runs(want));
                    return;
                }
                14 => {
                    let (mut got, mut want) = (vec![], vec![]);
                    it.rfold((), |_, x| got.push(x.id()));
                    rf.rfold((), |_, x| want.push(*x));
                    got.reverse();
                    want.reverse();
                    self.ev("it_fold", vec![], Res::Runs(got), Res::Runs(want));
                    return;
                }
                7 => {
                    let got: Vec<u32> = it.by_ref().map(|x| x.id()).collect();
                    let want: Vec<u32> = rf.by_ref().copied().collect();
                    self.ev("it_rest", vec![], Res::Runs(got), Res::Runs(want));
                }
                _ => {
                    let mut got: Vec<u32> = it.by_ref().rev().map(|x| x.id()).collect();
                    got.reverse();
                    let mut want: Vec<u32> = rf.by_ref().rev().copied().collect();
                    want.reverse();
                    self.ev("it_rest_rev", vec![], Res::Runs(got), Res::Runs(want));
                }
            }
        }
    }

    fn iter_mut(&mut self, v: &mut V, m: &mut [u32], cmds: &[Vec<i64>]) {
        let mut it = if cmds.len() % 2 == 0 { v.iter_mut() } else { v.into_iter() };
        let mut rf = m.iter_mut();
        for (ci, c) in cmds.iter().enumerate() {
            self.cur = ci;
            beat();
            match c[0] {
                0 | 1 => {
                    let (x, y) = if c[0] == 0 { (it.next(), rf.next()) } else { (it.next_back(), rf.next_back()) };
                    let name = if c[0] == 0 { "it_next" } else { "it_back" };
                    self.ev(name, vec![], Res::opt(x.map(|x| x.id() as i64)), Res::opt(y.map(|y| *y as i64)));
                }
                3 | 4 => {
                    let (x, y) = if c[0] == 3 { (it.next(), rf.next()) } else { (it.next_back(), rf.next_back()) };
                    let name = if c[0] == 3 { "it_next_set" } else { "it_back_set" };
                    let got = x.map(|x| {
                        let o = x.id() as i64;
                        x.set_id(c[1] as u32);
                        o
                    });
                    let want = y.map(|y| std::mem::replace(y, c[1] as u32) as i64);
                    self.ev(name, vec![c[1]], Res::opt(got), Res::opt(want));
                }
                2 => {
                    let (lo, hi) = it.size_hint();
                    let got = vec![it.len() as i64, lo as i64, hi.map(|x| x as i64).unwrap_or(-1)];
                    let n = rf.len() as i64;
                    self.ev("it_len", vec![], Res::Ints(got), Res::Ints(vec![n, n, n]));
                }
                5 => {
                    let k = far(c[1]);
                    let got = it.nth(k).map(|x| x.id() as i64);
                    let want = rf.nth(k).map(|x| *x as i64);
                    self.ev("it_nth", vec![c[1]], Res::opt(got), Res::opt(want));
                }
                6 => {
                    let k = far(c[1]);
                    let got = it.nth_back(k).map(|x| x.id() as i64);
                    let want = rf.nth_back(k).map(|x| *x as i64);
                    self.ev("it_nth_back", vec![c[1]], Res::opt(got), Res::opt(want));
                }
                15 => {
                    let got = pass(&mut it, far(c[1]), c[2]).map(|x| x.id() as i64);
                    let want = rf.nth(far(c[1])).map(|x| *x as i64);
                    self.ev("it_nth", vec![c[1]], Res::opt(got), Res::opt(want));
                }
                16 => {
                    let got = pass_back(&mut it, far(c[1]), c[2]).map(|x| x.id() as i64);
                    let want = rf.nth_back(far(c[1])).map(|x| *x as i64);
                    self.ev("it_nth_back", vec![c[1]], Res::opt(got), Res::opt(want));
                }
                17 => {
                    // what has been given out outlives the iterator
                    let held: Vec<&mut E> = it.collect();
                    let got: Vec<u32> = held.iter().map(|x| x.id()).collect();
                    for (i, x) in held.into_iter().enumerate() {
                        x.set_id(c[1] as u32 + i as u32);
                    }
                    let mut want = vec![];
                    for (i, x) in rf.enumerate() {
                        want.push(std::mem::replace(x, c[1] as u32 + i as u32));
                    }
                    self.ev("it_rest_set", vec![c[1]], Res::Runs(got), Res::Runs(want));
                    return;
                }
                11 => {
                    let (got, want) = (it.count(), rf.count());
                    self.ev("it_count", vec![], Res::Ints(vec![got as i64]), Res::Ints(vec![want as i64]));
                    return;
                }
                12 => {
                    let (got, want) = (it.last().map(|x| x.id() as i64), rf.last().map(|x| *x as i64));
                    self.ev("it_last", vec![], Res::opt(got), Res::opt(want));
                    return;
                }
                13 | 14 => {
                    let (mut got, mut want) = (vec![], vec![]);
                    let put = c.get(1).copied();
                    let left = rf.len() as u32;
                    let mut n = 0;
                    let back = c[0] == 14;
                    let each = |x: &mut E| {
                        got.push(x.id());
                        n += 1;
                        if let Some(p) = put {
                            x.set_id(p as u32 + if back { left.saturating_sub(n) } else { n - 1 });
                        }
                    };
                    if c[0] == 13 {
                        it.for_each(each);
                    } else {
                        it.rev().for_each(each);
                        got.reverse();
                    }
                    for (i, x) in rf.enumerate() {
                        want.push(*x);
                        if let Some(p) = put {
                            *x = p as u32 + i as u32;
                        }
                    }
                    let name = if put.is_some() { "it_rest_set" } else { "it_fold" };
                    self.ev(name, put.into_iter().collect(), Res::Runs(got), Res::Runs(want));
                    return;
                }
                _ => {
                    // hold every remaining reference at once, then write through all of them
                    let held: Vec<&mut E> = it.by_ref().collect();
                    let got: Vec<u32> = held.iter().map(|x| x.id()).collect();
                    let refs: Vec<&mut u32> = rf.by_ref().collect();
                    let want: Vec<u32> = refs.iter().map(|x| **x).collect();
                    for (i, x) in held.into_iter().enumerate() {
                        x.set_id(c[1] as u32 + i as u32);
                    }
                    for (i, x) in refs.into_iter().enumerate() {
                        *x = c[1] as u32 + i as u32;
                    }
                    self.ev("it_rest_set", vec![c[1]], Res::Runs(got), Res::Runs(want));
                }
            }
        }
    }

    fn into_iter(&mut self, v: V, m: Vec<u32>, cmds: &[Vec<i64>]) {
        let mut it = v.into_iter();
        let mut rf = m.into_iter();
        let g = |x: Option<E>| Res::opt(x.map(|y| y.id() as i64));
        let w = |x: Option<u32>| Res::opt(x.map(|y| y as i64));
        for (ci, c) in cmds.iter().enumerate() {
            self.cur = ci;
            beat();
            match c[0] {
                0 | 3 => self.ev("it_next", vec![], g(it.next()), w(rf.next())),
                1 | 4 => self.ev("it_back", vec![], g(it.next_back()), w(rf.next_back())),
                2 => {
                    let (lo, hi) = it.size_hint();
                    let got = vec![it.len() as i64, lo as i64, hi.map(|x| x as i64).unwrap_or(-1)];
                    let n = rf.len() as i64;
                    self.ev("it_len", vec![], Res::Ints(got), Res::Ints(vec![n, n, n]));
                }
                5 => self.ev("it_nth", vec![c[1]], g(it.nth(far(c[1]))), w(rf.nth(far(c[1])))),
                6 => self.ev("it_nth_back", vec![c[1]], g(it.nth_back(far(c[1]))), w(rf.nth_back(far(c[1])))),
                15 => self.ev("it_nth", vec![c[1]], g(pass(&mut it, far(c[1]), c[2])), w(rf.nth(far(c[1])))),
                16 => self.ev("it_nth_back", vec![c[1]], g(pass_back(&mut it, far(c[1]), c[2])), w(rf.nth_back(far(c[1])))),
                17 => {
                    let held: Vec<E> = it.collect();
                    let got = held.iter().map(|x| x.id()).collect();
                    self.ev("it_rest", vec![], Res::Runs(got), Res::Runs(rf.collect()));
                    return;
                }
                11 => {
                    let (got, want) = (it.count(), rf.count());
                    self.ev("it_count", vec![], Res::Ints(vec![got as i64]), Res::Ints(vec![want as i64]));
                    return;
                }
                12 => {
                    self.ev("it_last", vec![], g(it.last()), w(rf.last()));
                    return;
                }
                13 => {
                    let (mut got, mut want) = (vec![], vec![]);
                    it.for_each(|x| got.push(x.id()));
                    rf.for_each(|x| want.push(x));
                    self.ev("it_fold", vec![], Res::Runs(got), Res::Runs(want));
                    return;
                }
                14 => {
                    let (mut got, mut want) = (vec![], vec![]);
                    it.rfold((), |_, x| got.push(x.id()));
                    rf.rfold((), |_, x| want.push(x));
                    got.reverse();
                    want.reverse();
                    self.ev("it_fold", vec![], Res::Runs(got), Res::Runs(want));
                    return;
                }
                7 => {
                    let got: Vec<u32> = it.by_ref().map(|x| x.id()).collect();
                    let want: Vec<u32> = rf.by_ref().collect();
                    self.ev("it_rest", vec![], Res::Runs(got), Res::Runs(want));
                }
                _ => {
                    let mut got: Vec<u32> = it.by_ref().rev().map(|x| x.id()).collect();
                    got.reverse();
                    let mut want: Vec<u32> = rf.by_ref().rev().collect();
                    want.reverse();
                    self.ev("it_rest_rev", vec![], Res::Runs(got), Res::Runs(want));
                }
            }
        }
    }

    fn focus(&mut self, v: &V, m: &[u32], cmds: &[Vec<i64>]) {
        let mut foci: Vec<Option<(Foc, usize, usize)>> = (0..16).map(|_| None).collect();
        let at = |m: &[u32], lo: usize, hi: usize, i: usize| {
            if lo + i < hi {
                Some(m[lo + i] as i64)
            } else {
                None
            }
        };
        for (ci, c) in cmds.iter().enumerate() {
            self.cur = ci;
            beat();
            let f = c[1] as usize;
            match c[0] {
                0 => {
                    foci[f] = Some((if c[2] == 0 { v.focus() } else { Foc::new(v) }, 0, m.len()));
                    self.ev("fc_new", vec![c[1]], Res::None, Res::None);
                }
                1 => {
                    let (s, e) = (far(c[2]), far(c[3]));
                    foci[f] = Some((Foc::narrowed_tree(v, s..e), s.min(m.len()), e.min(m.len())));
                    self.ev("fc_narrowed", vec![c[1], c[2], c[3]], Res::None, Res::None);
                }
                2 => {
                    let (fo, lo, hi) = foci[f].as_mut().unwrap();
                    let got = fo.get(far(c[2])).map(|x| x.id() as i64);
                    let want = at(m, *lo, *hi, c[2] as usize);
                    self.ev("fc_get", vec![c[1], c[2]], Res::opt(got), Res::opt(want));
                }
                3 => {
                    let (fo, lo, hi) = foci[f].as_mut().unwrap();
                    let (s, e) = span(&c[2..6], *hi - *lo);
                    fo.narrow(bounds(&c[2..6]));
                    *hi = *lo + e;
                    *lo += s;
                    self.ev("fc_narrow", c[1..6].to_vec(), Res::None, Res::None);
                }
                4 => {
                    let (fo, lo, hi) = foci[f].take().unwrap();
                    let at = c[2] as usize;
                    let (x, y) = fo.split_at(at);
                    foci[c[3] as usize] = Some((x, lo, lo + at));
                    foci[c[4] as usize] = Some((y, lo + at, hi));
                    self.ev("fc_split", c[1..5].to_vec(), Res::None, Res::None);
                }
                5 => {
                    foci[c[2] as usize] = foci[f].clone();
                    self.ev("fc_clone", vec![c[1], c[2]], Res::None, Res::None);
                }
                6 => {
                    let (fo, lo, hi) = foci[f].as_ref().unwrap();
                    let n = (*hi - *lo) as i64;
                    let got = vec![fo.len() as i64, fo.is_empty() as i64];
                    self.ev("fc_len", vec![c[1]], Res::Ints(got), Res::Ints(vec![n, (n == 0) as i64]));
                }
                7 => {
                    let (fo, lo, hi) = foci[f].as_mut().unwrap();
                    let got = fo.index(c[2] as usize).id() as i64;
                    let want = at(m, *lo, *hi, c[2] as usize);
                    self.ev("fc_get", vec![c[1], c[2]], Res::Ints(vec![got]), Res::opt(want));
                }
                _ => {
                    // read the whole focus, in an order given by a stride
                    let (fo, lo, hi) = foci[f].as_mut().unwrap();
                    let n = *hi - *lo;
                    let mut got = vec![0u32; n];
                    let stride = c[2] as usize;
                    for i in 0..n {
                        let j = (i * stride + c[3] as usize) % n;
                        got[j] = fo.get(j).map(|x| x.id()).unwrap_or(0);
                    }
                    let want = m[*lo..*hi].to_vec();
                    self.ev("fc_all", vec![c[1]], Res::Runs(got), Res::Runs(want));
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn focus_mut(
        &mut self,
        foci: &mut Vec<(i64, *mut Fm)>,
        info: &mut Vec<(i64, usize, usize)>,
        m: &mut Vec<u32>,
        cmds: &[Vec<i64>],
        at: &mut usize,
        depth: usize,
    ) {
        while *at < cmds.len() {
            beat();
            let c = &cmds[*at];
            self.cur = *at;
            *at += 1;
            let pos = |foci: &Vec<(i64, *mut Fm)>, f: i64| foci.iter().position(|x| x.0 == f).unwrap();
            let rng = |info: &Vec<(i64, usize, usize)>, f: i64| {
                let x = info.iter().rev().find(|x| x.0 == f).unwrap();
                (x.1, x.2)
            };
            match c[0] {
                2 | 3 | 7 => {
                    let p = pos(foci, c[1]);
                    let (lo, hi) = rng(info, c[1]);
                    let i = far(c[2]);
                    let idx = lo + c[2] as usize;
                    let want = if idx < hi { Some(m[idx] as i64) } else { None };
                    if c[0] == 2 {
                        let got = unsafe { &mut *foci[p].1 }.get(i).map(|x| x.id() as i64);
                        self.ev("fm_get", vec![c[1], c[2]], Res::opt(got), Res::opt(want));
                    } else {
                        let put = |y: &mut E| {
                            let old = y.id() as i64;
                            y.set_id(c[3] as u32);
                            old
                        };
                        let got = if c[0] == 3 { unsafe { &mut *foci[p].1 }.get(i).map(put) } else { Some(put(unsafe { &mut *foci[p].1 }.index(i))) };
                        if idx < hi {
                            m[idx] = c[3] as u32;
                        }
                        self.ev("fm_set", vec![c[1], c[2], c[3]], Res::opt(got), Res::opt(want));
                    }
                }
                6 => {
                    let p = pos(foci, c[1]);
                    let (lo, hi) = rng(info, c[1]);
                    let n = (hi - lo) as i64;
                    let got = vec![unsafe { &*foci[p].1 }.len() as i64, unsafe { &*foci[p].1 }.is_empty() as i64];
                    self.ev("fm_len", vec![c[1]], Res::Ints(got), Res::Ints(vec![n, (n == 0) as i64]));
                }
                4 => {
                    let p = pos(foci, c[1]);
                    let (lo, hi) = rng(info, c[1]);
                    let mid = lo + c[2] as usize;
                    let (fid, parent) = foci.remove(p);
                    {
                        let (mut l, mut r) = unsafe { &mut *parent }.split_at(c[2] as usize);
                        self.ev("fm_split", c[1..5].to_vec(), Res::None, Res::None);
                        info.push((c[3], lo, mid));
                        info.push((c[4], mid, hi));
                        let mut sub = foci.clone();
                        sub.push((c[3], &mut l as *mut _ as *mut Fm));
                        sub.push((c[4], &mut r as *mut _ as *mut Fm));
                        self.focus_mut(&mut sub, info, m, cmds, at, depth + 1);
                        info.pop();
                        info.pop();
                    }
                    self.ev("fm_join", c[1..5].to_vec(), Res::None, Res::None);
                    foci.insert(p, (fid, parent));
                }
                5 => {
                    if depth > 0 {
                        return;
                    }
                }
                8 => {
                    // swap f i g j
                    let (p, q) = (pos(foci, c[1]), pos(foci, c[3]));
                    let (i, j) = (c[2] as usize, c[4] as usize);
                    let (lo1, lo2) = (rng(info, c[1]).0, rng(info, c[3]).0);
                    let x: *mut E = unsafe { &mut *foci[p].1 }.index(i);
                    let y: *mut E = unsafe { &mut *foci[q].1 }.index(j);
                    if p != q {
                        unsafe { std::mem::swap(&mut *x, &mut *y) };
                        m.swap(lo1 + i, lo2 + j);
                        self.ev("fm_swap", c[1..5].to_vec(), Res::None, Res::None);
                    }
                }
                _ => {
                    // write x, x+1, ... through the whole focus in an order given by a stride
                    let p = pos(foci, c[1]);
                    let (lo, hi) = rng(info, c[1]);
                    let n = hi - lo;
                    let (x, stride, off) = (c[2] as u32, c[3] as usize, c[4] as usize);
                    let mut got = vec![0u32; n];
                    for k in 0..n {
                        let i = (k * stride + off) % n;
                        if let Some(y) = unsafe { &mut *foci[p].1 }.get(i) {
                            got[i] = y.id();
                            y.set_id(x + i as u32);
                        }
                    }
                    let want = m[lo..hi].to_vec();
                    for (i, y) in m[lo..hi].iter_mut().enumerate() {
                        *y = x + i as u32;
                    }
                    self.ev("fm_fill", vec![c[1], c[2]], Res::Runs(got), Res::Runs(want));
                }
            }
        }
    }

    /// Splits the vector's mutable focus at the given positions and gives every part to a thread
    /// of its own, which overwrites it. `cmds` is `[x, stride]` followed by the split positions.
    fn par(&mut self, v: &mut V, m: &mut [u32], cmds: &[Vec<i64>]) {
        let x = cmds[0][0] as u32;
        let stride = cmds[0][1] as usize;
        let cuts: Vec<usize> = cmds[1].iter().map(|c| *c as usize).collect();
        let mut reads = vec![];
        let taken = E::TRACKED && cmds.len() > 2 && cmds[2][0] > 0;
        if taken {
            tok::turns::start(random_turns(cmds[2][0] as u64, cuts.len() + 1), cuts.len() + 1);
            tok::turns::expect(0);
        }
        let part = taken.then(|| tok::turns::begin(0));
        let mut root = v.focus_mut();
        par_rec(&mut root, &cuts, 0, x, stride, &mut reads, taken.then_some(0));
        drop(part);
        drop(root);
        if taken {
            tok::turns::stop();
        }
        reads.sort_by_key(|r| r.0);
        let got: Vec<u32> = reads.into_iter().flat_map(|r| r.1).collect();
        let want = m.to_vec();
        for (i, y) in m.iter_mut().enumerate() {
            *y = x + i as u32;
        }
        self.ev("par_fill", vec![x as i64], Res::Runs(got), Res::Runs(want));
    }
}

type Part = (usize, Vec<u32>);

fn par_work(f: &mut FMut, base: usize, x: u32, stride: usize) -> Part {
    let n = f.len();
    let mut got = vec![0u32; n];
    let stride = if n % stride == 0 { 1 } else { stride };
    for k in 0..n {
        let i = (k * stride) % n;
        if let Some(y) = f.get(i) {
            got[i] = y.id();
            y.set_id(x + (base + i) as u32);
        }
    }
    (base, got)
}

fn par_rec(f: &mut FMut, cuts: &[usize], base: usize, x: u32, stride: usize, out: &mut Vec<Part>, me: Option<usize>) {
    if cuts.is_empty() {
        out.push(par_work(f, base, x, stride));
        // whoever waits for another thread is out of the turns
        tok::turns::done();
        return;
    }
    let mid = cuts.len() / 2;
    let (mut l, mut r) = f.split_at(cuts[mid] - base);
    let (lc, rc) = (&cuts[..mid], &cuts[mid + 1..]);
    let rbase = cuts[mid];
    struct Unwinding;
    impl Drop for Unwinding {
        fn drop(&mut self) {
            if std::thread::panicking() {
                tok::turns::done();
            }
        }
    }
    let rest = std::thread::scope(|s| {
        let _unwinding = Unwinding;
        let r = &mut r;
        let other = me.map(|m| m + mid + 1);
        if let Some(o) = other {
            tok::turns::expect(o);
        }
        let t = s.spawn(move || {
            let _part = other.map(tok::turns::begin);
            let mut o = vec![];
            par_rec(r, rc, rbase, x, stride, &mut o, other);
            o
        });
        par_rec(&mut l, lc, base, x, stride, out, me);
        t.join()
    });
    match rest {
        Ok(o) => out.extend(o),
        Err(_) => panic!("a thread panicked"),
    }
}

impl Drop for World {
    fn drop(&mut self) {
        if self.dead {
            for s in self.slots.iter_mut() {
                std::mem::forget(s.take());
            }
        }
    }
}

/// One world from its seed.
pub fn world(p: &crate::drive::Profile, seed: u64, log: Log) -> (Log, Option<String>) {
    let mut w = World::new(p.k, log);
    let mut d = crate::drive::Driver::new(seed, E::TRACKED, THREADS);
    for _ in 0..p.ops {
        let op = d.pick(p, &w.mir);
        w.exec(&op);
        if w.dead {
            break;
        }
    }
    w.end();
    (std::mem::take(&mut w.log), w.suspect.take())
}

/// One world that starts with given operations, then a battery of others, then some at random.
pub fn scripted(ops: &[Op], battery: &str, p: &crate::drive::Profile, seed: u64, log: Log) -> (Log, Option<String>) {
    let mut w = World::new(p.k, log);
    let mut d = crate::drive::Driver::new(seed, E::TRACKED, THREADS);
    let mut top = 0;
    for op in ops {
        top = op.a.iter().copied().max().unwrap_or(0).max(top);
    }
    d.skip(top + 1000);
    let mut todo: std::collections::VecDeque<Op> = ops.iter().cloned().collect();
    let mut stage = 0;
    while !w.dead && w.suspect.is_none() {
        let op = match todo.pop_front() {
            Some(op) => op,
            None if stage == 0 => {
                stage = 1;
                todo = d.battery(battery, &w.mir).into();
                continue;
            }
            None if stage <= p.tail => {
                stage += 1;
                d.pick(p, &w.mir)
            }
            None => break,
        };
        let alive: Vec<bool> = w.slots.iter().map(|x| x.is_some()).collect();
        if op.fits(&alive) {
            w.exec(&op);
        }
    }
    w.end();
    (std::mem::take(&mut w.log), w.suspect.take())
}

/// One world from a script.
pub fn script(ops: &[Op], k: usize, log: Log) -> (Log, Option<String>) {
    let mut w = World::new(k, log);
    for op in ops {
        let alive: Vec<bool> = w.slots.iter().map(|x| x.is_some()).collect();
        if !op.fits(&alive) {
            continue;
        }
        w.exec(op);
        if w.dead {
            break;
        }
    }
    w.end();
    (std::mem::take(&mut w.log), w.suspect.take())
}

impl World {
    /// Drops every vector, so that the ledger must come out even.
    fn end(&mut self) {
        for h in 0..self.slots.len() {
            if !self.dead && self.slots[h].is_some() {
                self.exec(&Op::new("drop", &[h as i64]));
            }
        }
        if !self.dead {
            // everything the library allocated is released by now
            let left = crate::mem::live() - self.base;
            if left != 0 && !self.leaky && self.suspect.is_none() {
                self.suspect = Some(format!("{} allocations left", left));
            }
            self.finish("end", &[], &Res::Ints(vec![left]), false, false);
        }
    }
}
