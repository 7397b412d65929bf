//! C17: all short cycles of operations, repeated; the memory in use must stop growing.
use quick_cache::{sync, unsync, DefaultHashBuilder, Lifecycle, OptionsBuilder, Weighter};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

pub struct Counting;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
fn live() -> isize {
    LIVE.with(|l| l.get())
}

#[derive(Clone, Copy)]
struct W;
impl Weighter<u64, u64> for W {
    fn weight(&self, _: &u64, v: &u64) -> u64 {
        v & 0xff
    }
}
#[derive(Clone, Copy)]
struct Lc;
impl Lifecycle<u64, u64> for Lc {
    type RequestState = ();
    fn begin_request(&self) {}
    fn on_evict(&self, _: &mut (), _: u64, _: u64) {}
    fn is_pinned(&self, _: &u64, v: &u64) -> bool {
        v & 0x100 != 0
    }
}

type U = unsync::Cache<u64, u64, W, DefaultHashBuilder, Lc>;
type S = sync::Cache<u64, u64, W, DefaultHashBuilder, Lc>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    Get(u64),
    Ins(u64, u64),
    Rep(u64, u64, bool),
    Rem(u64),
    Goi(u64, u64),
    GoiErr(u64),
    GmoiErr(u64),
    GuardIns(u64, u64),
    GuardDrop(u64),
    /// a load of the key is overtaken by this store, then completed
    Overtaken(u64, u64),
    /// a load of the key is overtaken by its removal, then completed
    Removed(u64),
    /// as above, then dropped
    RemovedDrop(u64),
    Cleared(u64),
    /// a waiter that times out
    Wait(u64),
    /// async waiter, polled once and dropped
    WaitAsync(u64),
    PeekMut(u64, u64),
    Clear,
    Drain,
    RetainNone,
    RetainOdd,
    Reserve,
    Clone,
}

const PIN1: u64 = 0x101;

fn alphabet(sync: bool, fresh: bool) -> Vec<G> {
    let mut v = vec![];
    let vals: &[u64] = if fresh { &[1, 2, 9] } else { &[0, 1, 9, PIN1] };
    for k in 0..2 {
        v.push(G::Get(k));
        v.extend(vals.iter().map(|x| G::Ins(k, *x)));
        v.push(G::Rem(k));
        if k == 0 {
            v.extend([G::Rep(k, 1, false), G::Rep(k, vals[vals.len() - 2], true)]);
            v.extend([G::Goi(k, 1), G::GoiErr(k), G::GuardIns(k, 9), G::GuardDrop(k)]);
            if sync {
                v.extend([G::Overtaken(k, 1), G::Overtaken(k, 9), G::Removed(k), G::RemovedDrop(k), G::Cleared(k), G::Wait(k), G::WaitAsync(k)]);
            } else {
                v.extend([G::PeekMut(k, 1), G::PeekMut(k, vals[0]), G::GmoiErr(k), G::Drain, G::Clone]);
            }
        }
    }
    v.extend([G::Clear, G::RetainNone, G::RetainOdd, G::Reserve]);
    v
}

enum C {
    U(U),
    S(S),
}

struct Guards<'a> {
    _g: Option<sync::PlaceholderGuard<'a, u64, u64, W, DefaultHashBuilder, Lc>>,
}

impl C {
    fn new(sync: bool) -> C {
        let o = OptionsBuilder::new()
            .estimated_items_capacity(4)
            .weight_capacity(3)
            .hot_allocation(0.7)
            .ghost_allocation(0.5)
            .shards(1)
            .build()
            .unwrap();
        if sync {
            C::S(S::with_options(o, W, Default::default(), Lc))
        } else {
            C::U(U::with_options(o, W, Default::default(), Lc))
        }
    }
    fn op(&mut self, g: G, base: u64) {
        match self {
            C::U(c) => match g {
                G::Get(k) => drop(c.get(&(k + base)).copied()),
                G::Ins(k, v) => c.insert(k + base, v),
                G::Rep(k, v, s) => drop(c.replace(k + base, v, s)),
                G::Rem(k) => drop(c.remove(&(k + base))),
                G::Goi(k, v) => drop(c.get_or_insert_with(&(k + base), || Ok::<_, ()>(v)).map(|x| x.copied())),
                G::GoiErr(k) => drop(c.get_or_insert_with(&(k + base), || Err::<u64, _>(())).map(|x| x.copied())),
                G::GmoiErr(k) => drop(c.get_mut_or_insert_with(&(k + base), || Err::<u64, _>(())).map(|_| ())),
                G::GuardIns(k, v) => {
                    if let Err(g) = c.get_ref_or_guard(&(k + base)) {
                        g.insert(v)
                    }
                }
                G::GuardDrop(k) => drop(c.get_mut_or_guard(&(k + base)).map(|_| ())),
                G::PeekMut(k, v) => {
                    if let Some(mut r) = c.peek_mut(&(k + base)) {
                        *r = v
                    }
                }
                G::Clear => c.clear(),
                G::Drain => drop(c.drain().next()),
                G::RetainNone => c.retain(|_, _| false),
                G::RetainOdd => c.retain(|k, _| k % 2 == 1),
                G::Reserve => c.reserve(8),
                G::Clone => {
                    let n = c.clone();
                    *c = n;
                }
                _ => (),
            },
            C::S(c) => Self::sop(c, g, base),
        }
    }
    fn sop(c: &S, g: G, base: u64) {
        let guard = |k: u64| match c.get_value_or_guard(&k, Some(Duration::ZERO)) {
            sync::GuardResult::Guard(g) => Some(g),
            _ => None,
        };
        match g {
            G::Get(k) => drop(c.get(&(k + base))),
            G::Ins(k, v) => c.insert(k + base, v),
            G::Rep(k, v, s) => drop(c.replace(k + base, v, s)),
            G::Rem(k) => drop(c.remove(&(k + base))),
            G::Goi(k, v) => {
                if let Some(g) = guard(k + base) {
                    let _ = g.insert(v);
                }
            }
            G::GoiErr(k) => drop(guard(k + base)),
            G::GuardIns(k, v) => {
                if let Some(g) = guard(k + base) {
                    let _ = g.insert(v);
                }
            }
            G::GuardDrop(k) => {
                let key = k + base;
                let f = pin!(c.get_value_or_guard_async(&key));
                if let Poll::Ready(r) = f.poll(&mut Context::from_waker(Waker::noop())) {
                    drop(r)
                }
            }
            G::Overtaken(k, v) => {
                if let Some(g) = guard(k + base) {
                    c.insert(k + base, v);
                    let _ = g.insert(1);
                }
            }
            G::Removed(k) => {
                if let Some(g) = guard(k + base) {
                    c.remove(&(k + base));
                    let _ = g.insert(1);
                }
            }
            G::RemovedDrop(k) => {
                if let Some(g) = guard(k + base) {
                    c.remove(&(k + base));
                    drop(g);
                }
            }
            G::Cleared(k) => {
                if let Some(g) = guard(k + base) {
                    c.clear();
                    drop(g);
                }
            }
            G::Wait(k) => drop(guard(k + base)),
            G::WaitAsync(k) => {
                let key = k + base;
                let f = pin!(c.get_value_or_guard_async(&key));
                let _ = f.poll(&mut Context::from_waker(Waker::noop()));
            }
            G::Clear => c.clear(),
            G::RetainNone => c.retain(|_, _| false),
            G::RetainOdd => c.retain(|k, _| k % 2 == 1),
            G::Reserve => c.reserve(8),
            _ => (),
        }
    }
}

/// Fresh keys per repetition make sense only if everything stored can leave again.
fn run(sync: bool, fresh: bool, hold: bool, cycle: &[G], reps: u64) -> Result<u64, String> {
    let before = live();
    let mut marks: Vec<isize> = Vec::with_capacity(8);
    let mut ops = 0;
    {
        let mut c = C::new(sync);
        let mut next = 32;
        // a load of key 0 that stays pending
        let held = if hold {
            let C::S(s) = &c else { return Ok(0) };
            // Safety: dropped before the cache
            let s: &'static S = unsafe { &*(s as *const S) };
            match s.get_value_or_guard(&0, None) {
                sync::GuardResult::Guard(g) => Some(g),
                _ => return Err("no guard on an empty cache".into()),
            }
        } else {
            None
        };
        let held = Guards { _g: held };
        for r in 1..=reps {
            let base = if fresh { r * 4 } else { 0 };
            for g in cycle {
                c.op(*g, base);
                ops += 1;
            }
            if r == next {
                marks.push(live() - before);
                next *= 2;
            }
        }
        drop(held);
        drop(c);
    }
    // the marks vector itself is part of the live count throughout
    let left = live() - before - (marks.capacity() * std::mem::size_of::<isize>()) as isize;
    if left > 0 {
        return Err(format!("{left} bytes are never freed"));
    }
    if marks.len() >= 3 && marks.windows(2).all(|w| w[0] < w[1]) {
        return Err(format!("memory in use after 32, 64, ... repetitions: {marks:?}"));
    }
    Ok(ops)
}

fn sequences(n: usize, len: usize) -> usize {
    n.pow(len as u32)
}

pub struct GrowthResult {
    pub cycles: u64,
    pub ops: u64,
    pub complete: bool,
    pub found: Option<String>,
    pub sample: String,
}

pub fn growth(len: usize, reps: u64, deadline: Instant) -> GrowthResult {
    let mut res = GrowthResult {
        cycles: 0,
        ops: 0,
        complete: true,
        found: None,
        sample: String::new(),
    };
    for (sync, fresh, hold) in [
        (false, false, false),
        (false, true, false),
        (true, false, false),
        (true, true, false),
        (true, false, true),
        (true, true, true),
    ] {
        let mut al = alphabet(sync, fresh);
        if hold {
            al.retain(|g| !matches!(g, G::Clear | G::Cleared(_)));
        }
        for l in 1..=len {
            let total = sequences(al.len(), l);
            let pos = AtomicUsize::new(0);
            let (cyc, ops) = (AtomicU64::new(0), AtomicU64::new(0));
            let stop = AtomicBool::new(false);
            let cut = AtomicBool::new(false);
            let found: Mutex<Option<String>> = Mutex::new(None);
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| {
                        let mut cycle = Vec::with_capacity(len);
                        loop {
                            let s = pos.fetch_add(64, Relaxed);
                            if s >= total || stop.load(Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                cut.store(true, Relaxed);
                                break;
                            }
                            for i in s..(s + 64).min(total) {
                                cycle.clear();
                                let mut x = i;
                                for _ in 0..l {
                                    cycle.push(al[x % al.len()]);
                                    x /= al.len();
                                }
                                let go = || {
                                    std::panic::catch_unwind(|| run(sync, fresh, hold, &cycle, reps))
                                        .unwrap_or_else(|e| Err(format!("panicked: {}", crate::explore::panic_text(&*e))))
                                };
                                // what is allocated once per thread or process shows up the first time only
                                let r = go().or_else(|_| go()).or_else(|_| go());
                                cyc.fetch_add(1, Relaxed);
                                crate::main_progress();
                                match r {
                                    Ok(n) => {
                                        ops.fetch_add(n, Relaxed);
                                    }
                                    Err(e) => {
                                        *found.lock().unwrap() = Some(format!(
                                            "{} cache{}, repeating {:?}{}: {e}",
                                            if sync { "sync" } else { "unsync" },
                                            if hold { " with a load of key 0 pending" } else { "" },
                                            cycle,
                                            if fresh { " with fresh keys each time" } else { "" },
                                        ));
                                        stop.store(true, Relaxed);
                                        break;
                                    }
                                }
                            }
                        }
                    });
                }
            });
            res.cycles += cyc.load(Relaxed);
            res.ops += ops.load(Relaxed);
            res.complete &= !cut.load(Relaxed);
            res.sample = format!("{:?}", &al[..l]);
            let f = found.into_inner().unwrap();
            if f.is_some() {
                res.found = f;
                return res;
            }
        }
    }
    res
}
