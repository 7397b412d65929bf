//! Thread programs and how they run on the real cache.
use crate::sched::*;
use quick_cache::sync::{Cache, GuardResult};
use quick_cache::{Lifecycle, OptionsBuilder, Weighter};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub const NK: usize = 4;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static KEYS: Cell<i64> = const { Cell::new(0) };
    /// Per thread: that call of user code panics, 0 is none.
    static FUSE: [Cell<u8>; MAXT] = const { [const { Cell::new(0) }; MAXT] };
}
const MAXT: usize = 16;

/// The cache calls user code, which may be made to panic.
fn user_call() {
    let me = s().cur;
    if me >= MAXT {
        return;
    }
    let left = FUSE.with(|f| {
        let n = f[me].get();
        f[me].set(n.saturating_sub(1));
        n
    });
    if left == 1 {
        std::panic::resume_unwind(Box::new(Boom));
    }
}
pub struct Boom;

/// A key that counts its instances.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct K(u64);
pub fn key(k: u8) -> K {
    KEYS.with(|l| l.set(l.get() + 1));
    K(k as u64)
}
impl Clone for K {
    fn clone(&self) -> Self {
        user_call();
        key(self.0 as u8)
    }
}
impl Drop for K {
    fn drop(&mut self) {
        KEYS.with(|l| l.set(l.get() - 1));
    }
}

/// What is stored: a number that identifies it, its weight, and whether it is pinned.
#[derive(Debug, PartialEq, Eq)]
pub struct Val {
    pub uid: u16,
    pub w: u16,
    pub pin: bool,
}
impl Val {
    pub fn new(v: V) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Val { uid: v.uid, w: v.w, pin: v.pin }
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        user_call();
        LIVE.with(|l| l.set(l.get() + 1));
        Val { uid: self.uid, w: self.w, pin: self.pin }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct V {
    pub uid: u16,
    pub w: u16,
    pub pin: bool,
}
pub fn v(w: u16) -> V {
    V { uid: 0, w, pin: false }
}
pub fn pinned(w: u16) -> V {
    V { uid: 0, w, pin: true }
}

#[derive(Clone)]
pub struct We;
impl Weighter<K, Val> for We {
    fn weight(&self, _: &K, v: &Val) -> u64 {
        v.w as u64
    }
}
#[derive(Clone)]
pub struct Li;
impl Lifecycle<K, Val> for Li {
    type RequestState = ();
    fn begin_request(&self) {
        user_code("begins a request");
        user_call();
    }
    fn end_request(&self, _: ()) {
        user_code("ends a request");
        user_call();
    }
    fn is_pinned(&self, _: &K, v: &Val) -> bool {
        v.pin
    }
    fn on_evict(&self, _: &mut (), k: K, v: Val) {
        let c = s();
        let e = (k.0 as u16) << 12 | v.uid;
        if c.cur == DIRECT {
            c.direct_ev.push(e);
        } else {
            c.th[c.cur].ev.push(e);
        }
        user_call();
    }
}
#[derive(Clone)]
pub struct Bu;
pub struct Ha(u64);
impl std::hash::BuildHasher for Bu {
    type Hasher = Ha;
    fn build_hasher(&self) -> Ha {
        Ha(0)
    }
}
impl std::hash::Hasher for Ha {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
    fn finish(&self) -> u64 {
        self.0 << 60 | self.0 << 32 | self.0
    }
}
pub type C = Cache<K, Val, We, Bu, Li>;
type Guard<'a> = quick_cache::sync::PlaceholderGuard<'a, K, Val, We, Bu, Li>;

/// How long a timed call waits.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum To {
    Never,
    Ns(u64),
    Max,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Am {
    /// the future may be dropped while it waits
    pub drop: bool,
    /// the future may be polled while it waits
    pub spur: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok(V),
    Err,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Load {
    pub inner: Vec<T>,
    pub out: Out,
    /// an async loader waits once
    pub pend: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Act {
    pub inner: Vec<T>,
    pub ins: Option<V>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Get(u8),
    Peek(u8),
    Has(u8),
    Ins(u8, V),
    Rep(u8, V, bool),
    Rem(u8),
    Clear,
    /// keeps only that key
    Retain(u8),
    Len,
    Weight,
    Empty,
    Reserve,
    Goi(u8, Load),
    GoiA(u8, Load, Am),
    Acq(u8, To, Act),
    AcqA(u8, Am, Act),
    Sleep(u64),
    Signal(u8),
    Wait(u8),
    /// that call of user code (counted from 0) panics, if there is one
    Boom(u8, Box<T>),
}

impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.uid)?;
        if self.w != 1 {
            write!(f, "(weight {})", self.w)?;
        }
        if self.pin {
            write!(f, "(pinned)")?;
        }
        Ok(())
    }
}
fn list(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; ")
}
impl std::fmt::Display for Load {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.pend {
            write!(f, "waits; ")?;
        }
        if !self.inner.is_empty() {
            write!(f, "{}; ", list(&self.inner))?;
        }
        match &self.out {
            Out::Ok(v) => write!(f, "Ok({v})"),
            Out::Err => write!(f, "Err"),
            Out::Panic => write!(f, "panic"),
        }
    }
}
impl std::fmt::Display for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if !self.inner.is_empty() {
            write!(f, "{}; ", list(&self.inner))?;
        }
        match &self.ins {
            Some(v) => write!(f, "insert {v}"),
            None => write!(f, "drop guard"),
        }
    }
}
impl std::fmt::Display for Am {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.drop {
            write!(f, " may be dropped")?;
        }
        if self.spur {
            write!(f, " may be re-polled")?;
        }
        Ok(())
    }
}
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Get(k) => write!(f, "get k{k}"),
            T::Peek(k) => write!(f, "peek k{k}"),
            T::Has(k) => write!(f, "contains k{k}"),
            T::Ins(k, v) => write!(f, "insert k{k} {v}"),
            T::Rep(k, v, soft) => write!(f, "replace k{k} {v}{}", if *soft { " soft" } else { "" }),
            T::Rem(k) => write!(f, "remove k{k}"),
            T::Retain(k) => write!(f, "retain k{k}"),
            T::Goi(k, l) => write!(f, "get_or_insert k{k} {{{l}}}"),
            T::GoiA(k, l, a) => write!(f, "get_or_insert_async k{k} {{{l}}}{a}"),
            T::Acq(k, To::Never, a) => write!(f, "value_or_guard k{k} {{{a}}}"),
            T::Acq(k, To::Ns(d), a) => write!(f, "value_or_guard k{k} timeout {d} {{{a}}}"),
            T::Acq(k, To::Max, a) => write!(f, "value_or_guard k{k} timeout max {{{a}}}"),
            T::AcqA(k, m, a) => write!(f, "value_or_guard_async k{k} {{{a}}}{m}"),
            T::Boom(n, t) => write!(f, "{t} (call {n} of user code panics)"),
            x => write!(f, "{}", format!("{x:?}").to_lowercase()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub cfg: usize,
    pub setup: Vec<T>,
    pub th: Vec<Vec<T>>,
    pub spurious: u8,
    pub points64: bool,
    pub delays: bool,
    pub bound: u8,
}
impl std::fmt::Display for Prog {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[{}] first: {}", CFGS[self.cfg].0, list(&self.setup))?;
        for (i, t) in self.th.iter().enumerate() {
            write!(f, " || T{i}: {}", list(t))?;
        }
        write!(f, " (at most {} {}, {} spurious wake-ups)", self.bound, if self.delays { "delays" } else { "preemptions" }, self.spurious)
    }
}
impl Prog {
    /// Gives every stored value its number.
    pub fn number(&mut self) {
        fn go(ops: &mut [T], n: &mut u16) {
            for o in ops {
                let mut set = |v: &mut V| {
                    *n += 1;
                    v.uid = *n;
                };
                match o {
                    T::Ins(_, v) | T::Rep(_, v, _) => set(v),
                    T::Goi(_, l) | T::GoiA(_, l, _) => {
                        if let Out::Ok(v) = &mut l.out {
                            set(v);
                        }
                        go(&mut l.inner, n);
                    }
                    T::Acq(_, _, a) | T::AcqA(_, _, a) => {
                        if let Some(v) = &mut a.ins {
                            set(v);
                        }
                        go(&mut a.inner, n);
                    }
                    T::Boom(_, t) => go(std::slice::from_mut(t), n),
                    _ => {}
                }
            }
        }
        let mut n = 0;
        go(&mut self.setup, &mut n);
        for t in &mut self.th {
            go(t, &mut n);
        }
    }
    pub fn timers(&self) -> bool {
        fn go(ops: &[T]) -> bool {
            ops.iter().any(|o| match o {
                T::Sleep(_) => true,
                T::Acq(_, t, a) => *t != To::Never || go(&a.inner),
                T::AcqA(_, _, a) => go(&a.inner),
                T::Goi(_, l) | T::GoiA(_, l, _) => go(&l.inner),
                T::Boom(_, t) => go(std::slice::from_ref(t)),
                _ => false,
            })
        }
        self.th.iter().any(|t| go(t))
    }
}

/// name, capacity, estimated items, shards, hot share, ghost share
pub const CFGS: &[(&str, u64, usize, usize, f64, f64)] = &[
    ("capacity 2", 2, 2, 1, 0.99, 1.0),
    ("capacity 100", 100, 8, 1, 0.97, 0.5),
    ("2 shards of capacity 3", 6, 64, 2, 0.99, 0.5),
    ("2 shards of capacity 50", 100, 64, 2, 0.97, 0.5),
    ("capacity 3, half of it hot", 3, 3, 1, 0.5, 1.0),
];

pub fn cache(cfg: usize) -> C {
    let c = CFGS[cfg];
    let o = OptionsBuilder::new()
        .estimated_items_capacity(c.2)
        .weight_capacity(c.1)
        .shards(c.3)
        .hot_allocation(c.4)
        .ghost_allocation(c.5)
        .build()
        .unwrap();
    Cache::with_options(o, We, Bu, Li)
}

/// The number of shards, the capacity of one, and which keys share one.
#[derive(Clone, Copy, Debug, Default)]
pub struct Shape {
    pub n: u8,
    pub cap: u64,
    /// heavier entries are not admitted
    pub hot: u64,
    pub total: u64,
    pub of: [u8; NK],
}

/// Learns it from the outside: two entries which exceed the capacity of a shard stay both only in different shards.
pub fn shape(cfg: usize) -> Option<Shape> {
    let c = cache(cfg);
    let mut sh = Shape { n: c.num_shards() as u8, cap: c.shard_capacity(), hot: (c.shard_capacity() as f64 * CFGS[cfg].4) as u64, total: c.capacity(), of: [0; NK] };
    drop(c);
    if sh.n < 2 {
        return Some(sh);
    }
    let mut next = 0;
    let heavy = sh.hot as u16;
    for k in 0..NK {
        let same = (0..k).find(|j| {
            let c = cache(cfg);
            c.insert(key(*j as u8), Val::new(v(heavy)));
            c.insert(key(k as u8), Val::new(v(heavy)));
            c.len() < 2
        });
        sh.of[k] = same.map_or_else(
            || {
                next += 1;
                next - 1
            },
            |j| sh.of[j],
        );
    }
    s().direct_ev.clear();
    (next <= sh.n).then_some(sh)
}

// ---------------------------------------------------------------------------------------------------- history

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum What {
    Get(u8),
    Peek(u8),
    Has(u8),
    Ins(u8, V),
    Rep(u8, V),
    Rem(u8),
    Clear,
    Retain(u8),
    Len,
    Weight,
    Empty,
    /// value or guard, with a time limit
    Acq(u8),
    /// guard of that call, key, value
    Fin(u8, u8, V),
    Abandon(u8, u8),
    Stats,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ret {
    Running,
    None,
    /// 0 is nothing
    Val(u16),
    Bool(bool),
    Num(u64),
    Guard,
    Timeout,
    /// dropped while waiting; whether it was ever polled
    Gone(bool),
    Ok,
    Err,
    Unknown,
    Two(u64, u64),
    /// user code panicked
    Boom,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub th: u8,
    pub what: What,
    pub inv: u32,
    pub res: u32,
    pub ret: Ret,
    pub ev: Vec<u16>,
}
impl std::fmt::Display for Call {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let who = if self.th as usize == DIRECT { "end".to_string() } else { format!("T{}", self.th) };
        write!(f, "[{}-{}] {who} {:?} -> {:?}", self.inv, self.res, self.what, self.ret)?;
        if !self.ev.is_empty() {
            write!(f, " evicting {:?}", self.ev.iter().map(|e| format!("k{}#{}", e >> 12, e & 0xfff)).collect::<Vec<_>>())?;
        }
        Ok(())
    }
}

fn hash_of(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct World {
    pub c: C,
    pub calls: RefCell<Vec<Call>>,
}

impl World {
    fn begin(&self, what: What) -> usize {
        let c = s();
        let inv = c.invoke(hash_of(&what), true);
        let c = s();
        let th = c.cur as u8;
        if c.cur == DIRECT {
            c.direct_ev.clear();
        } else {
            c.th[c.cur].ev.clear();
        }
        let mut l = self.calls.borrow_mut();
        l.push(Call { th, what, inv, res: u32::MAX, ret: Ret::Running, ev: vec![] });
        l.len() - 1
    }
    fn end(&self, i: usize, ret: Ret) {
        let c = s();
        let mut l = self.calls.borrow_mut();
        let k = &mut l[i];
        k.ev = if c.cur == DIRECT { std::mem::take(&mut c.direct_ev) } else { std::mem::take(&mut c.th[c.cur].ev) };
        k.res = c.respond(mix(hash_of(&ret), hash_of(&k.ev)));
        k.ret = ret;
    }
    fn call(&self, what: What, f: impl FnOnce(&C) -> Ret) {
        let i = self.begin(what);
        let r = f(&self.c);
        self.end(i, r);
    }
}

fn opt(v: Option<Val>) -> Ret {
    Ret::Val(v.map_or(0, |v| v.uid))
}

/// User code runs: no lock may be held.
fn user_code(at: &str) {
    let c = s();
    if c.cur != DIRECT && !c.th[c.cur].held.is_empty() {
        let m = format!("T{} {at} with a cache lock held", c.cur);
        c.fail(Kind::LockHeld, m);
    }
}

pub struct LoaderPanic;

struct ModelWaker(u8, u32, u32);
impl Wake for ModelWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let c = s();
        if c.cur == DIRECT {
            return;
        }
        request(Req::Wake(self.0, self.1, self.2));
    }
}

enum Drive<R> {
    Ready(R),
    Dropped,
}

/// A small executor. `waiting` tells whether the future may be dropped or re-polled now.
fn drive<F: Future>(f: F, am: Am) -> (Drive<F::Output>, bool) {
    let mut f = Box::pin(f);
    let me = s().cur;
    s().th[me].serial += 1;
    s().th[me].woken = false;
    let mut gen = 0;
    let mut spur = am.spur;
    let mut fresh = true;
    if am.drop && s().pick(2) == 1 {
        drop(f);
        return (Drive::Dropped, false);
    }
    loop {
        let c = s();
        if fresh {
            gen += 1;
            c.th[me].gen = gen;
            // a wake-up through an earlier waker counts no more
            c.th[me].woken = false;
        }
        let w = Waker::from(Arc::new(ModelWaker(me as u8, c.th[me].serial, gen)));
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(r) => {
                drop(f);
                return (Drive::Ready(r), true);
            }
            Poll::Pending => {}
        }
        // the executor keeps no waker of its own
        drop(w);
        // what next: wait, drop, poll again with another waker, poll again with the same waker
        let n = 1 + am.drop as usize + 2 * spur as usize;
        match s().pick(n) {
            0 => {
                request(Req::WaitTask);
                fresh = true;
                if am.drop && s().pick(2) == 1 {
                    drop(f);
                    return (Drive::Dropped, true);
                }
            }
            1 if am.drop => {
                request(Req::Free);
                drop(f);
                return (Drive::Dropped, true);
            }
            x => {
                spur = false;
                fresh = x == n - 2;
                request(Req::Free);
            }
        }
    }
}

/// Where an asynchronous load is.
#[derive(Default)]
struct Stage {
    acquired: Cell<bool>,
    fin: Cell<Option<usize>>,
    abandon: Cell<Option<usize>>,
}

struct LoaderFut<'a> {
    w: &'a World,
    k: u8,
    l: &'a Load,
    acq: usize,
    st: Rc<Stage>,
    waited: bool,
}
impl Future for LoaderFut<'_> {
    type Output = Result<Val, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        user_code("runs its loader");
        if !self.st.acquired.get() {
            self.st.acquired.set(true);
            self.w.end(self.acq, Ret::Guard);
        }
        if self.l.pend && !self.waited {
            self.waited = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(self.w.load(self.k, self.l, self.acq, &self.st))
    }
}
impl Drop for LoaderFut<'_> {
    fn drop(&mut self) {
        if self.st.acquired.get() && self.st.fin.get().is_none() && self.st.abandon.get().is_none() {
            self.st.abandon.set(Some(self.w.begin(What::Abandon(self.acq as u8, self.k))));
        }
    }
}

impl World {
    /// The body of a loader.
    fn load(&self, k: u8, l: &Load, acq: usize, st: &Stage) -> Result<Val, ()> {
        self.run_list(&l.inner);
        match &l.out {
            Out::Ok(v) => {
                st.fin.set(Some(self.begin(What::Fin(acq as u8, k, *v))));
                Ok(Val::new(*v))
            }
            Out::Err => {
                st.abandon.set(Some(self.begin(What::Abandon(acq as u8, k))));
                Err(())
            }
            Out::Panic => {
                st.abandon.set(Some(self.begin(What::Abandon(acq as u8, k))));
                std::panic::resume_unwind(Box::new(LoaderPanic))
            }
        }
    }

    /// Ends the calls a load consisted of. `r`: what it returned, None if it was dropped or panicked.
    fn loaded(&self, l: &Load, acq: usize, st: &Stage, r: Option<Result<Val, ()>>, polled: bool) {
        if !st.acquired.get() {
            match r {
                Some(Ok(v)) => self.end(acq, Ret::Val(v.uid)),
                Some(Err(())) => {
                    s().fail(Kind::History, "a call failed although its loader never ran".into());
                    self.end(acq, Ret::Unknown)
                }
                None => self.end(acq, Ret::Gone(polled)),
            }
            return;
        }
        if let Some(i) = st.fin.get() {
            let Out::Ok(v) = &l.out else { unreachable!() };
            if !matches!(&r, Some(Ok(x)) if x.uid == v.uid) {
                s().fail(Kind::History, format!("a call loaded #{} but returned {r:?}", v.uid));
            }
            self.end(i, Ret::Unknown);
        }
        if let Some(i) = st.abandon.get() {
            if matches!(r, Some(Ok(_))) {
                s().fail(Kind::History, format!("a call whose loader failed returned {r:?}"));
            }
            self.end(i, Ret::None);
        }
    }

    fn guard(&self, acq: usize, k: u8, g: Guard<'_>, a: &Act) {
        user_code("got its guard");
        self.end(acq, Ret::Guard);
        self.run_list(&a.inner);
        match a.ins {
            Some(v) => {
                let i = self.begin(What::Fin(acq as u8, k, v));
                let r = match g.insert(Val::new(v)) {
                    Ok(()) => Ret::Ok,
                    Err(x) if x.uid == v.uid => Ret::Err,
                    Err(x) => {
                        s().fail(Kind::History, format!("a guard gave back #{} instead of #{}", x.uid, v.uid));
                        Ret::Err
                    }
                };
                self.end(i, r);
            }
            None => {
                let i = self.begin(What::Abandon(acq as u8, k));
                drop(g);
                self.end(i, Ret::None);
            }
        }
    }

    pub fn run_list(&self, ops: &[T]) {
        for o in ops {
            self.exec(o);
        }
    }

    pub fn exec(&self, op: &T) {
        use What as W;
        match op {
            T::Get(k) => self.call(W::Get(*k), |c| opt(c.get(&key(*k)))),
            T::Peek(k) => self.call(W::Peek(*k), |c| opt(c.peek(&key(*k)))),
            T::Has(k) => self.call(W::Has(*k), |c| Ret::Bool(c.contains_key(&key(*k)))),
            T::Ins(k, v) => self.call(W::Ins(*k, *v), |c| {
                c.insert(key(*k), Val::new(*v));
                Ret::None
            }),
            T::Rep(k, v, soft) => self.call(W::Rep(*k, *v), |c| match c.replace(key(*k), Val::new(*v), *soft) {
                Ok(()) => Ret::Ok,
                Err((rk, rv)) => {
                    if rk.0 != *k as u64 || rv.uid != v.uid {
                        s().fail(Kind::History, format!("replace gave back k{}#{}", rk.0, rv.uid));
                    }
                    Ret::Err
                }
            }),
            T::Rem(k) => self.call(W::Rem(*k), |c| match c.remove(&key(*k)) {
                None => Ret::Val(0),
                Some((rk, rv)) => {
                    if rk.0 != *k as u64 {
                        s().fail(Kind::History, format!("remove of k{k} gave back k{}", rk.0));
                    }
                    Ret::Val(rv.uid)
                }
            }),
            T::Clear => self.call(W::Clear, |c| {
                c.clear();
                Ret::None
            }),
            T::Retain(k) => self.call(W::Retain(*k), |c| {
                c.retain(|x, _| x.0 == *k as u64);
                Ret::None
            }),
            T::Len => self.call(W::Len, |c| Ret::Num(c.len() as u64)),
            T::Weight => self.call(W::Weight, |c| Ret::Num(c.weight())),
            T::Empty => self.call(W::Empty, |c| Ret::Bool(c.is_empty())),
            T::Reserve => self.c.reserve(5),
            T::Goi(k, l) => {
                let acq = self.begin(W::Acq(*k));
                let st = Stage::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    self.c.get_or_insert_with(&key(*k), || {
                        user_code("runs its loader");
                        st.acquired.set(true);
                        self.end(acq, Ret::Guard);
                        self.load(*k, l, acq, &st)
                    })
                }));
                let r = match r {
                    Ok(r) => Some(r),
                    Err(e) if e.is::<LoaderPanic>() => None,
                    Err(e) => std::panic::resume_unwind(e),
                };
                self.loaded(l, acq, &st, r, true);
            }
            T::GoiA(k, l, am) => {
                let acq = self.begin(W::Acq(*k));
                let st = Rc::new(Stage::default());
                let key = key(*k);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let f = LoaderFut { w: self, k: *k, l, acq, st: st.clone(), waited: false };
                    drive(self.c.get_or_insert_async(&key, f), *am)
                }));
                let (r, polled) = match r {
                    Ok((Drive::Ready(r), p)) => (Some(r), p),
                    Ok((Drive::Dropped, p)) => (None, p),
                    Err(e) if e.is::<LoaderPanic>() => (None, true),
                    Err(e) => std::panic::resume_unwind(e),
                };
                self.loaded(l, acq, &st, r, polled);
            }
            T::Acq(k, to, a) => {
                let acq = self.begin(W::Acq(*k));
                let limit = match to {
                    To::Never => None,
                    To::Ns(d) => Some(Duration::from_nanos(*d)),
                    To::Max => Some(Duration::MAX),
                };
                let me = s().cur;
                if let (To::Ns(d), true) = (to, me != DIRECT) {
                    s().th[me].timeout = Some(*d);
                    s().th[me].limit = None;
                    s().th[me].first = None;
                    s().th[me].lag = 0;
                }
                let t0 = s().now;
                let r = self.c.get_value_or_guard(&key(*k), limit);
                let t1 = s().now;
                if me != DIRECT {
                    s().th[me].timeout = None;
                    s().th[me].limit = None;
                }
                match r {
                    GuardResult::Value(v) => self.end(acq, Ret::Val(v.uid)),
                    GuardResult::Timeout => {
                        match to {
                            To::Ns(d) if t1 - t0 >= *d => {}
                            To::Ns(d) => s().fail(Kind::Timeout, format!("T{me} timed out after {} of {d}", t1 - t0)),
                            _ => s().fail(Kind::Timeout, format!("T{me} timed out without a timeout")),
                        }
                        self.end(acq, Ret::Timeout)
                    }
                    GuardResult::Guard(g) => self.guard(acq, *k, g, a),
                }
            }
            T::AcqA(k, am, a) => {
                let acq = self.begin(W::Acq(*k));
                let key = key(*k);
                match drive(self.c.get_value_or_guard_async(&key), *am) {
                    (Drive::Ready(Ok(v)), _) => self.end(acq, Ret::Val(v.uid)),
                    (Drive::Ready(Err(g)), _) => self.guard(acq, *k, g, a),
                    (Drive::Dropped, p) => self.end(acq, Ret::Gone(p)),
                }
            }
            T::Sleep(d) => {
                let c = s();
                let t = c.cur;
                c.th[t].deadline = Some(c.now + *d);
                c.th[t].expired = false;
                request(Req::Op(quick_cache::mc::Op::Sleep(*d)));
            }
            T::Signal(n) => {
                request(Req::Flag(*n));
            }
            T::Wait(n) => {
                request(Req::WaitFlag(*n));
            }
            T::Boom(n, t) => {
                let me = s().cur;
                FUSE.with(|f| f[me].set(n + 1));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(t)));
                FUSE.with(|f| f[me].set(0));
                let Err(e) = r else { return };
                if !e.is::<Boom>() {
                    std::panic::resume_unwind(e);
                }
                s().th[me].timeout = None;
                s().th[me].limit = None;
                if !s().th[me].held.is_empty() {
                    s().fail(Kind::LockHeld, format!("T{me} still holds a cache lock after a panic"));
                }
                let open = self.calls.borrow().iter().position(|c| c.th as usize == me && c.ret == Ret::Running);
                if let Some(i) = open {
                    self.end(i, Ret::Boom);
                }
            }
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic".into()
    }
}

/// One execution. Returns the history.
pub fn execute(p: &Rc<Prog>, tries: bool) -> Vec<Call> {
    LIVE.with(|l| l.set(0));
    KEYS.with(|l| l.set(0));
    FUSE.with(|f| f.iter().for_each(|x| x.set(0)));
    s().reset(p.bound, p.spurious, p.timers(), p.points64, tries, p.delays);
    let w = Rc::new(World { c: cache(p.cfg), calls: RefCell::new(vec![]) });
    w.run_list(&p.setup);
    w.calls.borrow_mut().clear();
    let (h0, m0) = (w.c.hits(), w.c.misses());
    let mut calls = vec![];
    // what is there at the beginning
    for k in 0..NK as u8 {
        if let Some(v) = w.c.peek(&key(k as u8)) {
            s().tick += 2;
            let t = s().tick;
            calls.push(Call {
                th: DIRECT as u8,
                what: What::Ins(k, V { uid: v.uid, w: v.w, pin: v.pin }),
                inv: t - 1,
                res: t,
                ret: Ret::None,
                ev: vec![],
            });
        }
    }
    *w.calls.borrow_mut() = calls;
    // synchronization objects from here on belong to the threads
    let probe = quick_cache::mc::sync::atomic::AtomicBool::new(false);
    probe.load(std::sync::atomic::Ordering::Relaxed);
    s().fixed = s().probe;
    for t in 0..p.th.len() {
        let (w, p) = (w.clone(), p.clone());
        s().spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run_list(&p.th[t])));
            if let Err(e) = r {
                s().fail(Kind::Panic, format!("T{t} panicked: {}", panic_text(&*e)));
            }
        });
    }
    if !s().run_all() {
        // the threads are still using it
        let calls = w.calls.borrow().clone();
        std::mem::forget(w);
        return calls;
    }
    if s().vio.is_some() || s().dfs.pruned {
        let calls = w.calls.borrow().clone();
        return calls;
    }
    let fin = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let (h1, m1) = (w.c.hits(), w.c.misses());
        w.call(What::Stats, |_| Ret::Two(h1.wrapping_sub(h0), m1.wrapping_sub(m0)));
        w.exec(&T::Len);
        w.exec(&T::Weight);
        w.exec(&T::Empty);
        for k in 0..NK as u8 {
            w.exec(&T::Peek(k));
        }
        // everything else has been dropped or handed back
        let n = (0..NK as u8).filter(|k| w.c.contains_key(&key(*k))).count() as i64;
        let (values, keys) = (LIVE.with(|l| l.get()), KEYS.with(|l| l.get()));
        if values != n || keys != n {
            s().fail(Kind::Leak, format!("{n} entries are resident after all calls returned, but the cache holds {keys} keys and {values} values"));
        }
        for k in 0..NK as u64 {
            match w.c.get_value_or_guard(&key(k as u8), Some(Duration::from_nanos(5))) {
                GuardResult::Timeout => {
                    s().fail(Kind::Stuck, format!("k{k} is still being loaded although all calls returned"));
                    return;
                }
                GuardResult::Value(_) => {}
                GuardResult::Guard(g) => {
                    let _ = g.insert(Val::new(V { uid: 4000 + k as u16, w: 1, pin: false }));
                }
            }
        }
        let mut sum = (0, 0);
        for k in 0..NK as u64 {
            if let Some(v) = w.c.peek(&key(k as u8)) {
                sum.0 += 1;
                sum.1 += v.w as u64;
            }
        }
        if (w.c.len() as u64, w.c.weight()) != sum {
            s().fail(Kind::Weight, format!("afterwards len() {} weight() {} but resident are {sum:?}", w.c.len(), w.c.weight()));
        }
    }));
    if let Err(e) = fin {
        if !e.is::<DirectPark>() {
            s().fail(Kind::Panic, format!("after the threads: panicked: {}", panic_text(&*e)));
        }
        std::mem::forget(w);
        return vec![];
    }
    let w = Rc::try_unwrap(w).unwrap_or_else(|_| panic!("still shared"));
    let World { c, calls } = w;
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(c))) {
        s().fail(Kind::Panic, format!("dropping the cache: panicked: {}", panic_text(&*e)));
    }
    let live = LIVE.with(|l| l.get());
    let keys = KEYS.with(|l| l.get());
    if keys != 0 && s().vio.is_none() {
        s().fail(Kind::Leak, format!("{keys} keys were never dropped, or dropped twice"));
    }
    if live != 0 && s().vio.is_none() {
        s().fail(Kind::Leak, format!("{live} values were never dropped, or dropped twice"));
    }
    calls.into_inner()
}
