//! Large caches (hundreds to a hundred thousand entries): all sequences of bursts of operations, judged against a plain
//! map after every operation, and completely after every burst.
use crate::explore::panic_text;
use crate::model::c;
use quick_cache::{sync, unsync, Lifecycle, OptionsBuilder, Weighter};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static EV: RefCell<Vec<(u32, u32, u32)>> = const { RefCell::new(vec![]) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
#[derive(Debug)]
struct V {
    uid: u32,
    w: u32,
}
fn v(uid: u32, w: u32) -> V {
    LIVE.with(|l| l.set(l.get() + 1));
    V { uid, w }
}
impl Clone for V {
    fn clone(&self) -> V {
        v(self.uid, self.w)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
/// Those numbered that way are pinned.
fn pinned(uid: u32) -> bool {
    uid >> 31 == 1
}
#[derive(Clone)]
struct We;
impl Weighter<u32, V> for We {
    fn weight(&self, _: &u32, v: &V) -> u64 {
        v.w as u64
    }
}
#[derive(Clone)]
struct Li;
impl Lifecycle<u32, V> for Li {
    type RequestState = ();
    fn begin_request(&self) {}
    fn is_pinned(&self, _: &u32, v: &V) -> bool {
        pinned(v.uid)
    }
    fn on_evict(&self, _: &mut (), k: u32, v: V) {
        EV.with(|e| e.borrow_mut().push((k, v.uid, v.w)));
    }
}
#[derive(Clone, Default)]
struct Bu;
struct Ha(u64);
impl std::hash::BuildHasher for Bu {
    type Hasher = Ha;
    fn build_hasher(&self) -> Ha {
        Ha(0)
    }
}
impl std::hash::Hasher for Ha {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u32(*x as u32);
        }
    }
    fn write_u32(&mut self, x: u32) {
        let y = (self.0 ^ x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.0 = (y ^ y >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    }
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 32
    }
}
type U = unsync::Cache<u32, V, We, Bu, Li>;
type S = sync::Cache<u32, V, We, Bu, Li>;
type G<'a> = sync::PlaceholderGuard<'a, u32, V, We, Bu, Li>;

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub name: &'static str,
    /// 0 is the unsync cache
    pub shards: usize,
    pub items: usize,
    pub cap: u32,
    pub hot: f64,
    pub ghost: f64,
    /// weights are 1..=that
    pub heavy: u32,
    pub depth: usize,
}

pub fn configs(thorough: bool) -> Vec<Config> {
    let d = |q: usize, t: usize| if thorough { t } else { q };
    let x = |name, shards, items, cap, hot, ghost, heavy, depth| Config { name, shards, items, cap, hot, ghost, heavy, depth };
    vec![
        x("unsync, unit weights", 0, 600, 600, 0.97, 0.5, 1, d(2, 3)),
        x("unsync, weights", 0, 100, 1500, 0.5, 1.0, 5, d(2, 3)),
        x("unsync, all hot", 0, 512, 512, 1.0, 0.5, 1, d(2, 3)),
        x("sync, one shard", 1, 300, 300, 0.9, 0.5, 1, d(3, 4)),
        x("sync, 8 shards", 8, 1024, 2048, 0.97, 0.5, 3, d(2, 3)),
        x("unsync, 70000 entries", 0, 0, 70_000, 0.97, 0.5, 1, d(1, 2)),
        x("sync, 64 shards, 70000 entries", 64, 70_000, 70_000, 0.97, 0.5, 1, d(1, 2)),
    ]
}

enum C {
    U(Box<U>),
    S(Box<S>),
}

struct W<'a> {
    c: &'a mut C,
    cfg: &'a Config,
    map: Vec<(u32, u32)>,
    len: usize,
    weight: u64,
    /// unpinned entries that weigh something
    loose: usize,
    pins: usize,
    cap: u64,
    uid: u32,
    /// what is inserted is pinned
    pin: bool,
    ops: u64,
    /// what was broken, and by which call
    bad: Option<(u64, String)>,
}

impl W<'_> {
    fn fail(&mut self, tags: u64, m: impl FnOnce() -> String) {
        if self.bad.is_none() {
            self.bad = Some((tags, m()));
        }
    }
    fn take(&mut self, k: u32) {
        let (u, w) = self.map[k as usize];
        if u != 0 {
            self.len -= 1;
            self.weight -= w as u64;
            self.loose -= (w != 0 && !pinned(u)) as usize;
            self.pins -= pinned(u) as usize;
            self.map[k as usize] = (0, 0);
        }
    }
    /// A request that may have stored `new` under `k`.
    fn stored(&mut self, k: u32, uid: u32, w: u32) {
        let old = self.map[k as usize];
        let room = self.weight - old.1 as u64 + w as u64 <= self.cap && self.cfg.shards < 2;
        self.take(k);
        self.map[k as usize] = (uid, w);
        self.len += 1;
        self.weight += w as u64;
        self.loose += (w != 0 && !pinned(uid)) as usize;
        self.pins += pinned(uid) as usize;
        let mut displaced = old.0 == 0;
        for (ek, eu, ew) in EV.with(|e| std::mem::take(&mut *e.borrow_mut())) {
            if (ek, eu) == (k, old.0) && !displaced {
                displaced = true;
                continue;
            }
            if ek as usize >= self.map.len() || self.map[ek as usize].0 != eu {
                self.fail(c(2), || format!("storing k{k}: eviction of k{ek}#{eu} reported, which is not there"));
                return;
            }
            self.take(ek);
            if ew == 0 {
                self.fail(c(5), || format!("storing k{k}: k{ek} of weight 0 was evicted"));
            }
            if pinned(eu) {
                self.fail(c(6), || format!("storing k{k}: k{ek} was evicted although it is pinned"));
            }
            if room && ek != k {
                self.fail(c(7), || format!("storing k{k}: k{ek} was evicted although there was room"));
            }
        }
        if !displaced {
            self.fail(c(2), || format!("storing k{k}: the displaced value #{} was not reported", old.0));
        }
        // with several shards the others may be where they do not help
        let own = (w != 0 && self.map[k as usize].0 == uid && !pinned(uid)) as usize;
        if w != 0 && self.weight > self.cap && if self.cfg.shards < 2 { self.loose > own } else { self.pins == 0 } {
            let x = self.weight;
            self.fail(c(3) | c(6), || format!("storing k{k}: weight {x} is more than the capacity"));
        }
        self.sizes();
    }
    fn quiet(&mut self, what: &str, k: u32) {
        let n = EV.with(|e| std::mem::take(&mut *e.borrow_mut()).len());
        if n != 0 {
            self.fail(c(2) | c(14), || format!("{what} k{k} reported {n} evictions"));
        }
    }
    fn sizes(&mut self) {
        self.ops += 1;
        let (l, w) = match self.c {
            C::U(x) => (x.len(), x.weight()),
            C::S(x) if self.cfg.shards <= 8 || self.ops % 64 == 0 => (x.len(), x.weight()),
            _ => return,
        };
        if (l, w) != (self.len, self.weight) {
            let want = (self.len, self.weight);
            self.census(c(1) | c(2) | c(9));
            self.fail(c(4), || format!("len {l} and weight {w}, but stored are {want:?}"));
        }
    }
    /// Is exactly what should be resident resident?
    fn census(&mut self, tags: u64) {
        for k in 0..self.map.len() as u32 {
            let got = match self.c {
                C::U(x) => x.peek(&k).map_or(0, |v| v.uid),
                C::S(x) => x.peek(&k).map_or(0, |v| v.uid),
            };
            let want = self.map[k as usize].0;
            if got != want {
                self.fail(tags, || format!("k{k} has #{got}, should have #{want} (0: absent)"));
                return;
            }
        }
    }
    fn weigh(&self, k: u32) -> u32 {
        1 + k % self.cfg.heavy
    }
    fn insert(&mut self, k: u32, w: u32) {
        self.uid += 1;
        let uid = self.uid | (self.pin as u32) << 31;
        match self.c {
            C::U(x) => x.insert(k, v(uid, w)),
            C::S(x) => x.insert(k, v(uid, w)),
        }
        self.stored(k, uid, w);
    }
    fn get(&mut self, k: u32) {
        let got = match self.c {
            C::U(x) => x.get(&k).map_or(0, |v| v.uid),
            C::S(x) => x.get(&k).map_or(0, |v| v.uid),
        };
        self.ops += 1;
        let want = self.map[k as usize].0;
        if got != want {
            self.fail(c(1), || format!("get k{k} gives #{got}, stored is #{want}"));
        }
    }
    fn goi(&mut self, k: u32, ok: bool) {
        self.goi_w(k, ok, self.weigh(k))
    }
    fn goi_w(&mut self, k: u32, ok: bool, w: u32) {
        self.uid += 1;
        let uid = self.uid;
        let f = || if ok { Ok(v(uid, w)) } else { Err(()) };
        let got = match self.c {
            C::U(x) => x.get_or_insert_with(&k, f).map(|v| v.map_or(0, |v| v.uid)),
            C::S(x) => x.get_or_insert_with(&k, f).map(|v| v.uid),
        };
        let was = self.map[k as usize].0;
        let want = if was != 0 { Ok(was) } else if ok { Ok(uid) } else { Err(()) };
        // an unsync load that was evicted at once returns nothing
        if got != want && !(got == Ok(0) && was == 0 && ok) {
            self.fail(c(1) | c(10), || format!("get_or_insert k{k} gives {got:?}, expected {want:?}"));
        }
        if was == 0 && ok {
            self.stored(k, uid, w);
        } else {
            self.quiet("get_or_insert", k);
            self.sizes();
        }
    }
    fn replace(&mut self, k: u32, w: u32, soft: bool) {
        self.uid += 1;
        let uid = self.uid;
        let r = match self.c {
            C::U(x) => x.replace(k, v(uid, w), soft),
            C::S(x) => x.replace(k, v(uid, w), soft),
        };
        let there = self.map[k as usize].0 != 0;
        if r.is_ok() != there {
            self.fail(c(8), || format!("replace k{k}: {}, resident: {there}", r.is_ok()));
        }
        match r {
            Ok(()) => self.stored(k, uid, w),
            Err(x) => {
                if (x.0, x.1.uid) != (k, uid) {
                    self.fail(c(8), || format!("replace k{k} gives back another entry"));
                }
                self.quiet("replace", k);
                self.sizes();
            }
        }
    }
    fn remove(&mut self, k: u32) {
        let got = match self.c {
            C::U(x) => x.remove(&k),
            C::S(x) => x.remove(&k),
        };
        let got = got.map_or((k, 0), |x| (x.0, x.1.uid));
        let want = (k, self.map[k as usize].0);
        if got != want {
            self.fail(c(9), || format!("remove gives {got:?} instead of {want:?}"));
        }
        self.take(k);
        self.quiet("remove", k);
        self.sizes();
    }
    fn retain(&mut self, keep: impl Fn(u32) -> bool) {
        match self.c {
            C::U(x) => x.retain(|k, _| keep(*k)),
            C::S(x) => x.retain(|k, _| keep(*k)),
        }
        for k in 0..self.map.len() as u32 {
            if !keep(k) {
                self.take(k);
            }
        }
        self.quiet("retain", 0);
        self.census(c(9));
        self.sizes();
    }
    /// Many loads at once; half of them are abandoned.
    fn loads(&mut self, from: u32, to: u32) {
        let C::S(x) = &*self.c else {
            for k in from..to {
                self.goi(k, k % 2 == 0);
            }
            return;
        };
        // Safety: the cache stays where it is and the guards are gone before it is
        let x: &'static S = unsafe { &*(&**x as *const S) };
        let mut held: Vec<(u32, G<'static>)> = vec![];
        for k in from..to {
            match x.get_value_or_guard(&k, None) {
                sync::GuardResult::Guard(g) => {
                    if self.map[k as usize].0 != 0 {
                        self.fail(c(1) | c(10), || format!("k{k} is resident but a guard was given"));
                    }
                    held.push((k, g));
                }
                sync::GuardResult::Value(v) => {
                    if self.map[k as usize].0 != v.uid {
                        self.fail(c(1) | c(10), || format!("guard lookup of k{k} gives #{}", v.uid));
                    }
                }
                sync::GuardResult::Timeout => self.fail(c(10) | c(20), || format!("k{k} timed out")),
            }
        }
        self.quiet("guard lookup", from);
        self.sizes();
        // taken in another order
        let by = to as usize % (held.len() + 1);
        held.rotate_left(by);
        for (k, g) in held {
            if k % 2 == 0 {
                self.uid += 1;
                let (uid, w) = (self.uid, self.weigh(k));
                if g.insert(v(uid, w)).is_err() {
                    self.fail(c(10), || format!("the load of k{k} was refused"));
                    return;
                }
                self.stored(k, uid, w);
            } else {
                drop(g);
                self.quiet("abandoning", k);
                self.sizes();
            }
        }
    }
    fn full(&mut self) {
        for k in 0..self.map.len() as u32 {
            let got = match self.c {
                C::U(x) => x.peek(&k).map_or(0, |v| v.uid),
                C::S(x) => x.peek(&k).map_or(0, |v| v.uid),
            };
            let want = self.map[k as usize].0;
            if got != want {
                self.fail(c(1) | c(2) | c(4) | c(9), || format!("afterwards k{k} holds #{got} instead of #{want}"));
            }
        }
        if let C::U(x) = self.c {
            let mut n = 0;
            let mut wrong = None;
            for (k, v) in x.iter() {
                n += 1;
                if self.map[*k as usize].0 != v.uid {
                    wrong = Some(*k);
                }
            }
            if n != self.len || wrong.is_some() {
                let len = self.len;
                self.fail(c(4) | c(1), || format!("iteration yields {n} entries of {len}, wrong is {wrong:?}"));
            }
        }
        let live = LIVE.with(|l| l.get());
        if live != self.len as i64 {
            let len = self.len;
            self.fail(c(17), || format!("{live} values are alive, {len} entries are resident"));
        }
    }

    fn phase(&mut self, p: usize) {
        let n = self.map.len() as u32;
        let a = n / 3;
        match p {
            0 => (0..a).for_each(|k| self.insert(k, self.weigh(k))),
            1 => (0..n).for_each(|k| self.insert(k, self.weigh(k))),
            2 => (0..a).for_each(|k| self.get(k)),
            3 => (0..n).rev().for_each(|k| self.goi(k, true)),
            4 => (0..n).step_by(2).for_each(|k| self.replace(k, 1 + (self.weigh(k) + 1) % self.cfg.heavy, k % 4 == 0)),
            5 => (1..n).step_by(2).for_each(|k| self.remove(k)),
            6 => self.retain(|k| k % 3 == 0),
            7 => (a..2 * a).step_by(4).for_each(|k| self.insert(k, 0)),
            8 => {
                match self.c {
                    C::U(x) => {
                        let mut it: Vec<(u32, u32)> = x.drain().map(|(k, v)| (k, v.uid)).collect();
                        it.sort();
                        let want: Vec<(u32, u32)> = self.map.iter().enumerate().filter(|x| x.1 .0 != 0).map(|x| (x.0 as u32, x.1 .0)).collect();
                        if it != want {
                            self.fail(c(4) | c(9), || format!("drain yields {} entries, {} were resident", it.len(), want.len()));
                        }
                    }
                    C::S(x) => x.clear(),
                }
                (0..n).for_each(|k| self.take(k));
                self.quiet("clear", 0);
                self.census(c(9));
                self.sizes();
            }
            9 => {
                (0..70_000u32.min(a * 20)).for_each(|_| self.get(1));
                (0..70_000u32.min(a * 20)).for_each(|i| self.insert(2, 1 + i % self.cfg.heavy));
            }
            10 => (0..n).for_each(|k| self.goi(k, false)),
            12 => {
                // a new, a resident and a loaded one push out a crowd
                let h = ((self.cap as f64 / self.cfg.shards.max(1) as f64 * self.cfg.hot) as u32 / 2).max(1);
                let was = (0..a).find(|k| self.map[*k as usize].0 != 0).unwrap_or(0);
                self.insert(n - 1, h);
                self.insert(n - 1, 1);
                (0..a).for_each(|k| self.insert(k, self.weigh(k)));
                self.insert(was, h);
                self.insert(was, 1);
                (0..a).for_each(|k| self.insert(k, self.weigh(k)));
                self.goi_w(n - 2, true, h);
            }
            13 => {
                // no more than half of the weight
                (1..a).step_by(2).for_each(|k| {
                    if self.pins * 2 * (self.cfg.heavy as usize) < self.cap as usize {
                        self.pin = true;
                        self.insert(k, self.weigh(k));
                        self.pin = false;
                    }
                });
                (0..n).filter(|k| self.map[*k as usize].0 != 0).collect::<Vec<_>>().into_iter().for_each(|k| self.get(k));
            }
            14 => (0..n).for_each(|k| {
                if pinned(self.map[k as usize].0) {
                    self.insert(k, self.weigh(k));
                }
            }),
            11 => self.loads(a / 2, 2 * a),
            _ => {
                match self.c {
                    C::U(x) => x.reserve(n as usize),
                    C::S(x) => x.reserve(n as usize),
                }
                self.quiet("reserve", 0);
                self.sizes();
            }
        }
        self.full();
    }
}
const PHASES: [&str; 16] = ["fill", "scan", "look up", "load all", "replace every other", "remove every other", "retain every third", "weightless", "clear", "one key often", "failing loads", "many guards", "heavy", "pin every other", "unpin", "reserve"];

fn cache(x: &Config) -> C {
    let mut o = OptionsBuilder::new();
    o.estimated_items_capacity(x.items).weight_capacity(x.cap as u64).hot_allocation(x.hot).ghost_allocation(x.ghost);
    if x.shards == 0 {
        return C::U(Box::new(U::with_options(o.build().unwrap(), We, Bu, Li)));
    }
    C::S(Box::new(S::with_options(o.shards(x.shards).build().unwrap(), We, Bu, Li)))
}

fn run(x: &Config, seq: &[usize]) -> (u64, Option<(u64, String)>) {
    EV.with(|e| e.borrow_mut().clear());
    LIVE.with(|l| l.set(0));
    let mut ch = cache(x);
    let cap = match &ch {
        C::U(x) => x.capacity(),
        C::S(x) => x.capacity(),
    };
    let mut w = W { c: &mut ch, cfg: x, map: vec![(0, 0); x.cap as usize * 3], len: 0, weight: 0, loose: 0, pins: 0, cap, uid: 0, pin: false, ops: 0, bad: None };
    for (i, p) in seq.iter().enumerate() {
        w.phase(*p);
        if let Some((t, m)) = w.bad.take() {
            let s: Vec<&str> = seq[..=i].iter().map(|p| PHASES[*p]).collect();
            return (w.ops, Some((t, format!("{}: {}: {m}", x.name, s.join("; ")))));
        }
    }
    let ops = w.ops;
    drop(ch);
    let l = LIVE.with(|l| l.get());
    (ops, (l != 0).then(|| (c(17), format!("{}: {l} values are alive after the cache was dropped", x.name))))
}

/// Returns sequences and operations, and what was found.
pub fn bulk(thorough: bool, tags: u64) -> (u64, u64, Option<String>) {
    let mut todo: Vec<(Config, Vec<usize>)> = vec![];
    for x in configs(thorough).into_iter().rev() {
        // every sequence starts with an empty or a full cache
        for first in [0, 1] {
            for i in 0..PHASES.len().pow(x.depth as u32) {
                let mut s = vec![first];
                let mut y = i;
                for _ in 0..x.depth {
                    s.push(y % PHASES.len());
                    y /= PHASES.len();
                }
                todo.push((x, s));
            }
        }
    }
    let pos = std::sync::atomic::AtomicUsize::new(0);
    let ops = std::sync::atomic::AtomicU64::new(0);
    let found = std::sync::Mutex::new(None::<(usize, String)>);
    use std::sync::atomic::Ordering::*;
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = pos.fetch_add(1, Relaxed);
                if i >= todo.len() || found.lock().unwrap().is_some() {
                    break;
                }
                crate::main_progress();
                let m = match catch_unwind(AssertUnwindSafe(|| run(&todo[i].0, &todo[i].1))) {
                    Ok((n, r)) => {
                        ops.fetch_add(n, Relaxed);
                        match r {
                            Some((t, m)) if t & tags != 0 => m,
                            _ => continue,
                        }
                    }
                    Err(e) => format!("{}: {:?}: panicked: {}", todo[i].0.name, todo[i].1.iter().map(|p| PHASES[*p]).collect::<Vec<_>>(), panic_text(&*e)),
                };
                let mut f = found.lock().unwrap();
                if f.as_ref().is_none_or(|f| f.0 > i) {
                    *f = Some((i, m));
                }
            });
        }
    });
    (todo.len() as u64, ops.into_inner(), found.into_inner().unwrap().map(|x| x.1))
}
