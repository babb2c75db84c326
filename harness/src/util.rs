use crate::ops::Op;
use std::collections::HashSet;
use std::fs::File;
use std::io::Write;
use std::ops::Bound;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static BEAT: AtomicU64 = AtomicU64::new(0);

/// Progress, for the watchdog.
pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

pub fn librrb_width() -> usize {
    librrb::RRB_WIDTH
}

pub static SHAPES: Mutex<Option<HashSet<String>>> = Mutex::new(None);
pub const MAX_SHAPES: usize = 400_000;

#[allow(dead_code)]
pub fn note_shape(s: String) {
    if s.len() > 6000 {
        return;
    }
    let mut g = SHAPES.lock().unwrap_or_else(|e| e.into_inner());
    let set = g.get_or_insert_with(HashSet::new);
    if set.len() < MAX_SHAPES {
        set.insert(s);
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    None,
    Ints(Vec<i64>),
    Runs(Vec<u32>),
}

impl Res {
    pub fn opt(x: Option<i64>) -> Res {
        Res::Ints(x.into_iter().collect())
    }
    pub fn json(&self) -> String {
        match self {
            Res::None => "[]".to_string(),
            Res::Ints(v) => ints(v),
            Res::Runs(v) => runs_json(v),
        }
    }
}

/// Which vectors an unpredictable operation changes, and what must be true of the change.
pub type Adopt = Vec<(usize, Box<dyn Fn(&[u32], &[u32]) -> bool>)>;
pub enum Want {
    Res(Res),
    Panic,
    Any(Adopt),
}

pub fn ints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

/// A sequence as maximal runs of consecutive numbers.
pub fn runs_json(v: &[u32]) -> String {
    let mut s = String::from("[");
    let mut i = 0;
    while i < v.len() {
        let mut j = i + 1;
        while j < v.len() && v[j] as u64 == v[j - 1] as u64 + 1 {
            j += 1;
        }
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("[{},{}]", v[i], j - i));
        i = j;
    }
    s.push(']');
    s
}

/// Bounds encoded as kind (0 none, 1 included, 2 excluded) and value, twice.
pub fn bounds(a: &[i64]) -> (Bound<usize>, Bound<usize>) {
    let b = |k: i64, x: i64| match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(far(x)),
        _ => Bound::Excluded(far(x)),
    };
    (b(a[0], a[1]), b(a[2], a[3]))
}

/// An index as the library is given it. Those from FAR up stand for the last ones there are.
pub const FAR: i64 = 2_000_000_000;
pub fn far(i: i64) -> usize {
    if i >= FAR {
        usize::MAX - (i - FAR) as usize
    } else {
        i as usize
    }
}

/// The half-open range the bounds stand for.
pub fn span(a: &[i64], n: usize) -> (usize, usize) {
    let s = match a[0] {
        0 => 0,
        1 => a[1] as usize,
        _ => a[1] as usize + 1,
    };
    let e = match a[2] {
        0 => n,
        1 => a[3] as usize + 1,
        _ => a[3] as usize,
    };
    (s, e)
}

/// The sort keys the comparators use.
pub fn key(kind: i64, m: i64, id: u32) -> i64 {
    let id = id as i64;
    match kind {
        0 => id,
        1 => -id,
        2 => id % m,
        3 => id / m,
        4 => 0,
        _ => (id * 31) % m,
    }
}

/// Comparisons no order answers to: 6 goes round in a circle, others answer as they please.
pub fn disorder(kind: i64, state: &std::cell::Cell<u64>, x: u32, y: u32) -> std::cmp::Ordering {
    use std::cmp::Ordering;
    let n = if kind == 6 {
        (x as u64 % 3 + 3 - y as u64 % 3) % 3
    } else {
        let s = state.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + x as u64 * 3 + y as u64);
        state.set(s);
        (s >> 40) % 3
    };
    [Ordering::Equal, Ordering::Less, Ordering::Greater][n as usize]
}

pub fn same_bag(x: &[u32], y: &[u32]) -> bool {
    let (mut x, mut y) = (x.to_vec(), y.to_vec());
    x.sort_unstable();
    y.sort_unstable();
    x == y
}

/// The event log of a world: kept in memory, or written through when a crash is being retraced.
#[derive(Default)]
pub struct Log {
    pub buf: String,
    pub ops: String,
    pub n: usize,
    pub through: Option<(File, File)>,
}

impl Log {
    pub fn line(&mut self, s: &str) {
        self.n += 1;
        if let Some((f, _)) = &mut self.through {
            let _ = writeln!(f, "{}", s);
        } else {
            self.buf.push_str(s);
            self.buf.push('\n');
        }
    }
    pub fn intent(&mut self, op: &Op) {
        let s = op.text();
        if let Some((_, f)) = &mut self.through {
            let _ = writeln!(f, "{}", s);
        }
        self.ops.push_str(&s);
        self.ops.push('\n');
    }
}
