//! Elements. `Tok` is an element whose every instance is tracked: who is alive, who was dropped
//! twice, who was read after its drop, how often elements were cloned.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub trait El: Clone + fmt::Debug + Ord + Hash + Send + Sync + 'static {
    const TRACKED: bool;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn set_id(&mut self, id: u32) {
        *self = Self::mk(id);
    }
}

impl El for u32 {
    const TRACKED: bool = false;
    fn mk(id: u32) -> u32 {
        id
    }
    fn id(&self) -> u32 {
        *self
    }
}

#[derive(Default)]
pub struct Ledger {
    /// id of every instance, DEAD for a dropped one
    pub inst: Vec<u32>,
    /// number of live instances of an id
    pub live: std::collections::HashMap<u32, i64>,
    pub faults: Vec<String>,
    pub clones: u64,
    /// countdown to a panicking clone; negative: never
    pub clone_bomb: i64,
    /// countdown to a panicking drop; negative: never
    pub total: u64,
}

pub static LEDGER: Mutex<Option<Ledger>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    let _out = crate::mem::Off::new();
    let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(|| Ledger { clone_bomb: -1, ..Default::default() }))
}

/// Element clones since the last call.
pub fn take_clones() -> u64 {
    with(|l| std::mem::take(&mut l.clones))
}

pub fn reset_ledger() {
    let mut g = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    *g = Some(Ledger { clone_bomb: -1, ..Default::default() });
}

thread_local! { pub static CMP_BOMB: RefCell<i64> = const { RefCell::new(-1) }; }

/// Says which of several threads runs, and for how many of the points where the library calls the
/// elements' own code: the schedules the specification of storage shared under threads prints.
pub mod turns {
    use std::cell::Cell;
    use std::sync::{Condvar, Mutex, MutexGuard};

    struct State {
        /// whose turn, for how many points
        list: Vec<(usize, i64)>,
        at: usize,
        /// who takes part and is not done
        here: Vec<bool>,
    }
    static STATE: Mutex<Option<State>> = Mutex::new(None);
    static CHANGED: Condvar = Condvar::new();
    const NOBODY: usize = usize::MAX;
    thread_local! { static ME: Cell<usize> = const { Cell::new(NOBODY) }; }

    fn lock() -> MutexGuard<'static, Option<State>> {
        STATE.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn start(list: Vec<(usize, i64)>, threads: usize) {
        let _out = crate::mem::Off::new();
        *lock() = Some(State { list, at: 0, here: vec![false; threads] });
    }
    pub fn stop() {
        let _out = crate::mem::Off::new();
        *lock() = None;
    }
    /// A thread that is about to start.
    pub fn expect(me: usize) {
        if let Some(s) = lock().as_mut() {
            s.here[me] = true;
        }
    }
    /// This thread is `me` while this lives.
    pub struct Part;
    pub fn begin(me: usize) -> Part {
        ME.with(|x| x.set(me));
        Part
    }
    pub fn done() {
        let me = ME.with(|x| x.replace(NOBODY));
        if me != NOBODY {
            if let Some(s) = lock().as_mut() {
                s.here[me] = false;
            }
            CHANGED.notify_all();
        }
    }
    impl Drop for Part {
        fn drop(&mut self) {
            done();
        }
    }
    /// Waits for this thread's turn.
    pub fn point() {
        let me = ME.try_with(|x| x.get()).unwrap_or(NOBODY);
        if me == NOBODY {
            return;
        }
        let _out = crate::mem::Off::new();
        let mut g = lock();
        loop {
            let Some(s) = g.as_mut() else { return };
            let from = s.at;
            while s.at < s.list.len() && (s.list[s.at].1 <= 0 || !s.here[s.list[s.at].0]) {
                s.at += 1;
            }
            if s.at != from {
                CHANGED.notify_all();
            }
            let cur = match s.list.get(s.at) {
                Some(x) => x.0,
                None => s.here.iter().position(|x| *x).unwrap_or(me),
            };
            if cur == me {
                if let Some(x) = s.list.get_mut(s.at) {
                    x.1 -= 1;
                }
                return;
            }
            g = CHANGED.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// Counts down to a panic in a user callback.
pub fn tick() {
    CMP_BOMB.with(|b| {
        let v = *b.borrow();
        if v >= 0 {
            *b.borrow_mut() = v - 1;
            if v == 0 {
                panic!("callback bomb");
            }
        }
    });
}

/// Aligned as few elements are, so that nothing may take that for granted.
#[repr(align(32))]
pub struct Tok {
    inst: u32,
    id: u32,
    /// makes the element wider than a word and gives it a destructor
    canary: u64,
}

const DEAD: u32 = u32::MAX;
const CANARY: u64 = 0x5AFE_5AFE_5AFE_5AFE;

impl Tok {
    fn fresh(id: u32) -> Tok {
        let inst = with(|l| {
            let i = l.inst.len() as u32;
            l.inst.push(id);
            *l.live.entry(id).or_insert(0) += 1;
            l.total += 1;
            i
        });
        Tok { inst, id, canary: CANARY ^ inst as u64 }
    }
    fn check(&self, what: &str) -> bool {
        with(|l| {
            let ok = self.canary == CANARY ^ self.inst as u64
                && l.inst.get(self.inst as usize).copied() == Some(self.id)
                && self.id != DEAD;
            if !ok && l.faults.len() < 4 {
                l.faults.push(format!("{} of a dead or corrupt element", what));
            }
            ok
        })
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        turns::point();
        self.check("clone");
        let boom = with(|l| {
            l.clones += 1;
            if l.clone_bomb >= 0 {
                l.clone_bomb -= 1;
                l.clone_bomb == -1
            } else {
                false
            }
        });
        if boom {
            panic!("callback bomb");
        }
        Tok::fresh(self.id)
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        turns::point();
        if self.check("drop") {
            with(|l| {
                l.inst[self.inst as usize] = DEAD;
                *l.live.get_mut(&self.id).unwrap() -= 1;
                l.total -= 1;
            });
        }
        self.canary = 0;
    }
}

impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.id)
    }
}
thread_local! {
    /// (m, q): elements compare by their identity divided by q, and one that leaves 1 when divided
    /// by m (if that is not 0) compares with nothing, itself included
    pub static PARTIAL: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 1)) };
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.partial_cmp(o) == Some(Ordering::Equal)
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        let (m, q) = PARTIAL.with(|p| p.get());
        let (x, y) = (self.id(), o.id());
        if m > 0 && (x % m == 1 || y % m == 1) {
            return None;
        }
        Some((x / q).cmp(&(y / q)))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        self.id().cmp(&o.id())
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id().hash(h)
    }
}

impl El for Tok {
    const TRACKED: bool = true;
    fn mk(id: u32) -> Tok {
        Tok::fresh(id)
    }
    fn id(&self) -> u32 {
        turns::point();
        self.check("read");
        self.id
    }
}
