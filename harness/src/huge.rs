// Included once per vector kind, like world.rs. Vectors far longer than memory: almost all of their
// storage is shared, made by constant vectors and joins with themselves. And vectors of elements that
// take no room. A vector is told as runs of equal elements, by looking at the ends of every run.
use crate::giant::{self, Runs, G};
use crate::rng::Rng;
use crate::util::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct World {
    slots: Vec<Option<V>>,
    mir: Vec<Option<Runs>>,
}

fn height(v: &V) -> i64 {
    #[cfg(librrb_verif)]
    return v.verif_height() as i64;
    #[cfg(not(librrb_verif))]
    {
        let _ = v;
        -1
    }
}

fn hash_of(v: &V) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn val(x: Option<&E>) -> i64 {
    x.map_or(giant::NONE, |x| x.val() as i64)
}

type Out = (Vec<i64>, Vec<u64>);

impl World {
    fn v(&mut self, h: i64) -> &mut V {
        self.slots[h as usize].as_mut().unwrap()
    }

    /// Makes the call; what it gives back.
    fn call(&mut self, op: &str, a: &[i64], v: &[i64], n: &[u64]) -> Out {
        let us = |i: usize| n[i] as usize;
        let mk = |i: usize| E::mk(v[i] as u32);
        let h = a[0];
        let none: Out = (vec![], vec![]);
        match op {
            "const" => {
                self.slots[h as usize] = Some(V::constant_vec_of_length(mk(0), us(0)));
                none
            }
            "from_iter" => {
                self.slots[h as usize] = Some((0..us(0)).map(|_| mk(0)).collect());
                none
            }
            "push_back" => {
                self.v(h).push_back(mk(0));
                none
            }
            "push_front" => {
                self.v(h).push_front(mk(0));
                none
            }
            "pop_back" => (vec![val(self.v(h).pop_back().as_ref())], vec![]),
            "pop_front" => (vec![val(self.v(h).pop_front().as_ref())], vec![]),
            "front" => (vec![val(self.v(h).front())], vec![]),
            "back" => (vec![val(self.v(h).back())], vec![]),
            "append" | "prepend" => {
                let w = self.slots[a[1] as usize].take().unwrap();
                if op == "append" {
                    self.v(h).append(w)
                } else {
                    self.v(h).prepend(w)
                }
                none
            }
            "append_clone" | "prepend_clone" => {
                let w = self.v(a[1]).clone();
                if op == "append_clone" {
                    self.v(h).append(w)
                } else {
                    self.v(h).prepend(w)
                }
                none
            }
            "split_off" => {
                let w = self.v(h).split_off(us(0));
                self.slots[a[1] as usize] = Some(w);
                none
            }
            "slice_from_start" => {
                self.v(h).slice_from_start(us(0));
                none
            }
            "slice_to_end" => {
                self.v(h).slice_to_end(us(0));
                none
            }
            "extract" => {
                let w = self.v(h).extract_slice(us(0)..us(1));
                self.slots[a[1] as usize] = Some(w);
                none
            }
            "insert" => {
                self.v(h).insert(us(0), mk(0));
                none
            }
            "remove" => (vec![val(self.v(h).remove(us(0)).as_ref())], vec![]),
            "get" => (vec![val(self.v(h).get(us(0)))], vec![]),
            "index" => (vec![val(Some(&self.v(h)[us(0)]))], vec![]),
            "set" => {
                let e = mk(0);
                let ok = match v[1] {
                    0 => self.v(h).get_mut(us(0)).map(|x| *x = e).is_some(),
                    1 => self.v(h).get_mut_guarded(us(0)).map(|mut x| *x = e).is_some(),
                    _ => {
                        self.v(h)[us(0)] = e;
                        true
                    }
                };
                (vec![ok as i64], vec![])
            }
            "clone" => {
                let w = self.v(h).clone();
                self.slots[a[1] as usize] = Some(w);
                none
            }
            "clone_from" => {
                let w = self.slots[a[1] as usize].take().unwrap();
                self.v(h).clone_from(&w);
                self.slots[a[1] as usize] = Some(w);
                none
            }
            "drop" => {
                self.slots[h as usize] = None;
                none
            }
            "fc_get" => {
                // narrowed to n0..n1, then to n2..n3 within, split at n4; then places in either part
                let w = self.v(h);
                let (mut f, len) = (w.focus(), w.len());
                if v[0] & 1 == 1 {
                    f.narrow(us(0)..us(1));
                } else if (us(0), us(1)) != (0, len) {
                    f = Foc::narrowed_tree(w, us(0)..us(1));
                }
                if v[0] & 2 == 2 || us(2) != 0 || us(3) != us(1) - us(0) {
                    f.narrow(us(2)..us(3));
                }
                let (mut l, mut r) = f.split_at(us(4));
                let mut rv = vec![];
                for i in 5..n.len() {
                    rv.push(val(if i % 2 == 1 { l.get(us(i)) } else { r.get(us(i)) }));
                }
                (rv, vec![l.len() as u64, r.len() as u64])
            }
            "fm_set" => {
                // split at n0; n1 in the left and n2 in the right part written, by turns
                let mut f = self.v(h).focus_mut();
                let (mut l, mut r) = f.split_at(us(0));
                let rn = vec![l.len() as u64, r.len() as u64];
                let mut rv = vec![];
                for i in 1..n.len() {
                    let x = if i % 2 == 1 { l.get(us(i)) } else { r.get(us(i)) };
                    rv.push(val(x.as_deref()));
                    if let Some(x) = x {
                        *x = mk(i - 1);
                    }
                }
                (rv, rn)
            }
            "it_next" => {
                // steps: 0 next, 1 next_back
                let mut rv = vec![];
                let mut it = self.v(h).iter();
                for s in v {
                    rv.push(val(if *s == 0 { it.next() } else { it.next_back() }));
                }
                let l = it.len() as u64;
                (rv, vec![l, it.size_hint().0 as u64])
            }
            "it_next_set" => {
                let mut rv = vec![];
                let mut it = self.v(h).iter_mut();
                let mut held = vec![];
                for s in v.chunks(2) {
                    let x = if s[0] == 0 { it.next() } else { it.next_back() };
                    rv.push(val(x.as_deref()));
                    if let Some(x) = x {
                        held.push((x, s[1]));
                    }
                }
                let l = it.len() as u64;
                for (x, e) in held {
                    *x = E::mk(e as u32);
                }
                (rv, vec![l])
            }
            "into_iter" => {
                let mut rv = vec![];
                let mut it = self.slots[h as usize].take().unwrap().into_iter();
                for s in v {
                    rv.push(val(if *s == 0 { it.next() } else { it.next_back() }.as_ref()));
                }
                let l = it.len() as u64;
                (rv, vec![l])
            }
            "erange" => {
                let t = v[0] as u32;
                let f = |x: &E| x.val().cmp(&t);
                let w = self.v(h);
                let out = match v[1] {
                    0 => w.equal_range_by(&f),
                    1 => w.equal_range_in_range_by(&f, us(0)..us(1)),
                    2 => w.equal_range(&E::mk(t)),
                    _ => w.equal_range_in_range(&E::mk(t), us(0)..us(1)),
                };
                match out {
                    Ok(r) => (vec![1], vec![r.start as u64, r.end as u64]),
                    Err(i) => (vec![0], vec![i as u64]),
                }
            }
            "all" => {
                let w = self.v(h);
                let same = w.iter().all(|x| x.val() == v[0] as u32);
                (vec![same as i64], vec![w.iter().count() as u64, w.iter().rev().count() as u64])
            }
            "sort" => {
                let w = self.v(h);
                match v[0] {
                    0 => w.sort(),
                    1 => w.sort_by(&|a: &E, b: &E| a.val().cmp(&b.val())),
                    2 => w.sort_range_by(&|a: &E, b: &E| b.val().cmp(&a.val()), us(0)..us(1)),
                    3 => w.sort_range(us(0)..us(1)),
                    _ => w.sort_range_by_key(&|a: &E| a.val(), us(0)..us(1)),
                }
                none
            }
            "dual" => {
                let mut u = self.v(h).clone();
                let w = self.v(h);
                match v[0] {
                    0 => w.dual_sort(&mut u),
                    1 => w.dual_sort_by(&|a: &E, b: &E| a.val().cmp(&b.val()), &mut u),
                    2 => w.dual_sort_range_by(&|a: &E, b: &E| b.val().cmp(&a.val()), us(0)..us(1), &mut u),
                    3 => w.dual_sort_range(us(0)..us(1), &mut u),
                    _ => w.dual_sort_range_by_key(&|a: &E| a.val(), us(0)..us(1), &mut u),
                }
                self.slots[a[1] as usize] = Some(u);
                none
            }
            "reverse_range" => {
                if v[0] == 0 {
                    self.v(h).reverse()
                } else {
                    self.v(h).reverse_range(us(0)..us(1))
                }
                none
            }
            "cmp" => {
                let w = self.slots[a[1] as usize].take().unwrap();
                let u = self.v(h);
                let o = match (*u).cmp(&w) {
                    Ordering::Less => -1,
                    Ordering::Equal => 0,
                    Ordering::Greater => 1,
                };
                let r = vec![(*u == w) as i64, o, (hash_of(u) == hash_of(&w)) as i64];
                self.slots[a[1] as usize] = Some(w);
                (r, vec![])
            }
            x => panic!("unknown call {}", x),
        }
    }

    fn probe(&self, h: usize, full: bool, r: &mut Rng) -> Vec<(u64, i64)> {
        let (v, m) = (self.slots[h].as_ref().unwrap(), self.mir[h].as_ref().unwrap());
        let mut at = vec![];
        let mut p = 0u64;
        for (_, n) in m {
            if full || r.one_in(4) {
                at.push(p);
                at.push(p + n - 1);
                at.push(p + r.below(*n));
            }
            p += n;
        }
        at.push(p);
        at.push(p.saturating_add(r.next() >> 2));
        let mut f = v.focus();
        at.iter()
            .map(|i| {
                let (x, y) = (val(v.get(*i as usize)), val(f.get(*i as usize)));
                (*i, if x == y { x } else { -2 - x })
            })
            .collect()
    }

    fn show(&self, touched: &[i64], r: &mut Rng) -> (String, String, String) {
        let (mut lens, mut pr, mut ht) = (vec![], vec![], vec![]);
        for h in 0..self.slots.len() {
            let Some(v) = &self.slots[h] else { continue };
            lens.push(format!("[{},{}]", h, giant::num(v.len() as u64)));
            if height(v) >= 0 {
                ht.push(format!("[{},{}]", h, height(v)));
            }
            for (i, x) in self.probe(h, touched.contains(&(h as i64)), r) {
                pr.push(format!("[{},{},{}]", h, giant::num(i), x));
            }
        }
        (lens.join(","), pr.join(","), ht.join(","))
    }
}

/// One world; false if it could not go on.
pub fn giants(out: &mut giant::Out, seed: u64) {
    let mut r = Rng::new(seed);
    let k = 4;
    let mut w = World { slots: (0..k).map(|_| None).collect(), mir: vec![None; k] };
    let mut g = giant::Gen::new(E::SMALL, &mut r);
    E::reset();
    out.line(&format!("{{\"op\":\"reset\",\"a\":[{},{}]}}", librrb_width(), E::SMALL as i32));
    for _ in 0..40 {
        let G { op, a, v, n, mir } = g.next(&w.mir, &mut r);
        beat();
        out.intent(op, &a, &v, &n);
        E::count();
        let got = catch_unwind(AssertUnwindSafe(|| w.call(op, &a, &v, &n)));
        let c = E::count();
        w.mir = mir;
        let p = got.is_err();
        let (rv, rn) = got.unwrap_or_default();
        let shown = if p {
            Ok(Default::default())
        } else {
            catch_unwind(AssertUnwindSafe(|| w.show(&a, &mut r)))
        };
        let dead = p || shown.is_err();
        let (len, pr, ht) = shown.unwrap_or_else(|_| ("[0,[-1,-1,-1]]".to_string(), String::new(), String::new()));
        out.line(&format!(
            "{{\"op\":\"{}\",\"a\":{},\"v\":{},\"n\":{},\"rv\":{},\"rn\":{},\"p\":{},\"len\":[{}],\"pr\":[{}],\"ht\":[{}],\"c\":{},\"alive\":{}}}",
            op,
            ints(&a),
            ints(&v),
            giant::nums(&n),
            ints(&rv),
            giant::nums(&rn),
            p as i32,
            len,
            pr,
            ht,
            c,
            giant::num(E::alive())
        ));
        if dead {
            std::mem::forget(w);
            return;
        }
    }
    out.intent("end", &[0], &[], &[]);
    let ok = catch_unwind(AssertUnwindSafe(|| w.slots.clear())).is_ok();
    out.line(&format!(
        "{{\"op\":\"end\",\"a\":[0],\"v\":[],\"n\":[],\"rv\":[],\"rn\":[],\"p\":{},\"len\":[],\"pr\":[],\"ht\":[],\"c\":0,\"alive\":{}}}",
        !ok as i32,
        giant::num(E::alive())
    ));
}

/// What is timed: each leaves the vector as long as it was.
fn timed(op: &str, v: &mut V, i: usize) {
    let n = v.len();
    let p = i.wrapping_mul(2_654_435_761) % n;
    let x = || E::mk(i as u32);
    match op {
        "push_back" => {
            v.push_back(x());
            v.pop_back();
        }
        "push_front" => {
            v.push_front(x());
            v.pop_front();
        }
        "pop_back" => {
            // over the borders of leaves
            let w: Vec<E> = (0..70).map(|_| v.pop_back().unwrap()).collect();
            w.into_iter().rev().for_each(|y| v.push_back(y));
        }
        "pop_front" => {
            let w: Vec<E> = (0..70).map(|_| v.pop_front().unwrap()).collect();
            w.into_iter().rev().for_each(|y| v.push_front(y));
        }
        "front" => assert!(v.front().is_some() && v.back().is_some() && v.len() == n),
        "get" => assert!(v.get(p).is_some() && v.get(n).is_none()),
        "set" => {
            *v.get_mut(p).unwrap() = x();
            *v.get_mut_guarded(p).unwrap() = x();
            v[p] = x();
        }
        "split_off" => {
            let w = v.split_off(p);
            v.append(w);
        }
        "slice_from_start" => {
            v.slice_from_start(n - 3);
            (0..3).for_each(|_| v.push_back(x()));
        }
        "slice_to_end" => {
            v.slice_to_end(3);
            (0..3).for_each(|_| v.push_front(x()));
        }
        "extract" => {
            let mut w = v.extract_slice(p..n.min(p + 20));
            (w.len()..20).for_each(|_| w.push_back(x()));
            v.append(w);
            v.slice_from_start(n);
        }
        "append" => {
            v.append((0..5).map(|_| x()).collect());
            v.slice_from_start(n);
        }
        "prepend" => {
            v.prepend((0..5).map(|_| x()).collect());
            v.slice_to_end(5);
        }
        "insert" => {
            v.insert(p, x());
            v.remove(n - p);
        }
        "clone" => {
            let mut w = v.clone();
            w.push_back(x());
            *w.get_mut(p).unwrap() = x();
        }
        "clone_from" => {
            let mut w: V = (0..9).map(|_| x()).collect();
            w.clone_from(v);
            w.pop_front();
        }
        "fc_get" => {
            let mut f = v.focus();
            assert!(f.get(p).is_some());
            f.narrow(p / 2..n);
            let (mut l, mut r) = f.split_at((n - p / 2) / 2);
            assert!(l.get(0).is_some() || r.get(0).is_some());
        }
        "fm_set" => {
            let mut f = v.focus_mut();
            *f.get(p).unwrap() = x();
            let (mut l, mut r) = f.split_at(p);
            *r.get(0).unwrap() = x();
            assert!(l.get(p).is_none());
        }
        "it_next" => {
            let mut it = v.iter();
            assert!(it.next().is_some() && it.next_back().is_some() && it.len() == n - 2);
        }
        "it_next_set" => {
            let mut it = v.iter_mut();
            *it.next().unwrap() = x();
            *it.next_back().unwrap() = x();
        }
        "into_iter" => {
            let mut it = v.clone().into_iter();
            assert!(it.next().is_some() && it.next_back().is_some());
        }
        "erange" => {
            let t = v.get(p).unwrap().val();
            let _ = v.equal_range_by(&|y: &E| y.val().cmp(&t));
            let _ = v.equal_range_in_range_by(&|y: &E| y.val().cmp(&t), p / 2..n);
        }
        _ => panic!("unknown call {}", op),
    }
}
pub const TIMED: &[&str] = &[
    "push_back", "push_front", "pop_back", "pop_front", "front", "get", "set", "split_off", "slice_from_start", "slice_to_end", "extract",
    "append", "prepend", "insert", "clone", "clone_from", "fc_get", "fm_set", "it_next", "it_next_set", "into_iter", "erange",
];

fn made(n: usize, how: u64) -> V {
    let mut r = Rng::new(how);
    let mut v = V::new();
    if how == 0 {
        return (0..n).map(|i| E::mk(i as u32)).collect();
    }
    while v.len() < n {
        let k = (1 + r.below(n as u64 / 50 + 1) as usize).min(n - v.len());
        let at = v.len();
        match r.below(3) {
            0 => (at..at + k).for_each(|i| v.push_back(E::mk(i as u32))),
            _ => v.append((at..at + k).map(|i| E::mk(i as u32)).collect()),
        }
    }
    v
}

/// How long calls take on short vectors, and on long ones that share nothing. In nanoseconds of this thread.
pub fn costs(out: &mut giant::Out, seed: u64) {
    out.line(&format!("{{\"op\":\"reset\",\"a\":[{},{}]}}", librrb_width(), E::SMALL as i32));
    for (j, op) in TIMED.iter().enumerate() {
        for how in [0, seed] {
            beat();
            out.intent(op, &[0], &[], &[]);
            let mut took = vec![];
            for n in [500, 1 << 20] {
                let mut v = made(n, how);
                let start = giant::cpu();
                for i in 0..300 {
                    timed(op, &mut v, i + seed as usize);
                }
                took.push(((giant::cpu() - start) / 300).min(1 << 30) as i64);
                assert!(v.len() == n);
                beat();
            }
            out.line(&format!(
                "{{\"op\":\"cost\",\"a\":[0],\"v\":[{}],\"n\":[],\"rv\":{},\"rn\":[],\"p\":0,\"len\":[],\"pr\":[],\"ht\":[],\"c\":-1,\"alive\":[0,0,0]}}",
                j,
                ints(&took)
            ));
        }
    }
}
