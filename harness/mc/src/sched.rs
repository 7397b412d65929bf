//! The controlled scheduler: model threads are coroutines on one OS thread, every synchronization operation of
//! the code under test is a request that the scheduler grants. All choices are taken by the [`Dfs`].
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use quick_cache::mc::{Op, Runtime};
use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;

pub const DIRECT: usize = 15;
pub const MAXT: usize = 15;
const STEP_CAP: u32 = 20_000;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51_7C_C1_B7_27_22_0A_95;
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

/// What a model thread asks for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Start,
    /// a point where switching to another thread is no preemption
    Free,
    Op(Op),
    Now,
    WaitTask,
    Wake(u8, u32, u32),
    WaitFlag(u8),
    Flag(u8),
    Done,
}

/// One alternative of a scheduling decision.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Alt {
    Run(usize),
    Timer,
    Spurious(usize),
}

pub struct Th {
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    pub req: Req,
    pub hash: u64,
    pub token: bool,
    pub deadline: Option<u64>,
    pub expired: bool,
    result: bool,
    pub held: Vec<(u64, bool)>,
    pub serial: u32,
    pub gen: u32,
    pub woken: bool,
    /// timeout of the running timed call, and the latest time at which it may still wait
    pub timeout: Option<u64>,
    pub limit: Option<u64>,
    pub first: Option<u64>,
    /// time that passed since then while it was ready to run
    pub lag: u64,
    pub ev: Vec<u16>,
}

#[derive(Clone, Default)]
struct Lock {
    writer: bool,
    readers: u32,
}

#[derive(Clone, Copy, Default)]
struct Ob {
    name: u64,
    last: u64,
    reads: u64,
}

/// Depth first search over the choices of all executions of one program.
pub struct Dfs {
    pub stack: Vec<(u16, u16)>,
    pub pos: usize,
    visited: HashMap<u64, u8, BH>,
    pub pruned: bool,
    pub replay: bool,
    pub states: u64,
    pub transitions: u64,
    pub broken: bool,
}

#[derive(Clone, Default)]
pub struct BH;
pub struct H(u64);
impl std::hash::BuildHasher for BH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0)
    }
}
impl std::hash::Hasher for H {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

impl Dfs {
    pub fn new() -> Self {
        Dfs { stack: vec![], pos: 0, visited: HashMap::default(), pruned: false, replay: false, states: 0, transitions: 0, broken: false }
    }
    /// `n` alternatives; `key` identifies the state, `left` is the remaining preemption budget.
    fn choose(&mut self, n: usize, key: u64, left: u8) -> usize {
        if self.pruned {
            return 0;
        }
        if self.pos < self.stack.len() {
            let (c, m) = self.stack[self.pos];
            self.pos += 1;
            if m != 0 && m as usize != n || c as usize >= n {
                // the execution does not repeat itself
                self.broken = true;
                self.pruned = true;
                return 0;
            }
            return c as usize;
        }
        if self.replay {
            return 0;
        }
        let v = self.visited.entry(key).or_insert(0);
        if *v > left {
            self.pruned = true;
            return 0;
        }
        if *v == 0 {
            self.states += 1;
        }
        *v = left + 1;
        self.transitions += n as u64;
        self.stack.push((0, n as u16));
        self.pos += 1;
        0
    }
    /// Moves on to the next execution.
    pub fn next(&mut self) -> bool {
        self.pos = 0;
        self.pruned = false;
        while let Some((c, n)) = self.stack.pop() {
            if c + 1 < n {
                self.stack.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

pub struct Sched {
    pub th: Vec<Th>,
    pub cur: usize,
    pub now: u64,
    pub flags: u32,
    pub vio: Option<(Kind, String)>,
    locks: Vec<Lock>,
    obs: Vec<Ob>,
    tokens: [Ob; MAXT],
    flagobs: [Ob; 32],
    pub fixed: u64,
    responses: u64,
    pub tick: u32,
    left: u8,
    pub spurious: u8,
    timers: bool,
    points64: bool,
    /// every departure from the default thread counts, not only preemptions
    delays: bool,
    tries: bool,
    pub restart: bool,
    steps: u32,
    streak: u32,
    pub dfs: Dfs,
    pub trace: Option<Vec<String>>,
    pub direct_ev: Vec<u16>,
    /// the synchronization object last read outside of the threads
    pub probe: u64,
    pub stacks: Vec<DefaultStack>,
    pub beat: Option<&'static std::sync::atomic::AtomicU64>,
}

/// What kind of guarantee was broken.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Stuck,
    Panic,
    History,
    Stats,
    Timeout,
    LockHeld,
    Leak,
    Weight,
}

struct Cellish(UnsafeCell<Option<Sched>>);
thread_local! {
    static SCHED: Cellish = const { Cellish(UnsafeCell::new(None)) };
    static INDEX: Cell<usize> = const { Cell::new(0) };
}

/// The scheduler of this OS thread. Borrows are short and never span a suspension.
#[allow(clippy::mut_from_ref)]
pub fn s() -> &'static mut Sched {
    // Safety: one OS thread, coroutines never keep the reference over a suspension
    SCHED.with(|c| unsafe { (*c.0.get()).as_mut().unwrap() })
}

pub fn install() {
    SCHED.with(|c| unsafe { *c.0.get() = Some(Sched::new()) });
    quick_cache::mc::set_runtime(Some(&Rt));
}

struct Rt;
impl Runtime for Rt {
    fn op(&self, op: Op) -> bool {
        s().op(op)
    }
    fn current(&self) -> u64 {
        s().cur as u64
    }
    fn now(&self) -> u64 {
        let c = s();
        if c.cur != DIRECT && c.timers {
            request(Req::Now);
        }
        s().now
    }
}

/// Thrown out of a call outside of the model threads that would wait forever.
pub struct DirectPark;

/// Suspends the current model thread until the scheduler grants the request.
pub fn request(r: Req) -> bool {
    let c = s();
    let t = c.cur;
    assert!(t != DIRECT);
    c.th[t].req = r;
    let y = c.th[t].yielder;
    // Safety: the yielder lives as long as the coroutine that runs this
    unsafe { (*y).suspend(()) };
    s().th[t].result
}

impl Sched {
    fn new() -> Self {
        Sched {
            th: vec![],
            cur: DIRECT,
            now: 0,
            flags: 0,
            vio: None,
            locks: vec![],
            obs: vec![],
            tokens: Default::default(),
            flagobs: Default::default(),
            fixed: 0,
            responses: 0,
            tick: 0,
            left: 0,
            spurious: 0,
            timers: false,
            points64: false,
            delays: false,
            tries: false,
            restart: false,
            steps: 0,
            streak: 0,
            dfs: Dfs::new(),
            trace: None,
            direct_ev: vec![],
            probe: 0,
            stacks: vec![],
            beat: None,
        }
    }

    /// Before an execution.
    pub fn reset(&mut self, bound: u8, spurious: u8, timers: bool, points64: bool, tries: bool, delays: bool) {
        quick_cache::mc::reset_ids();
        assert!(self.th.is_empty());
        self.cur = DIRECT;
        self.now = 1_000;
        self.flags = 0;
        self.vio = None;
        self.locks.clear();
        self.obs.clear();
        self.tokens = Default::default();
        self.flagobs = Default::default();
        self.fixed = u64::MAX;
        self.responses = 0;
        self.tick = 0;
        self.left = bound;
        self.spurious = spurious;
        self.timers = timers;
        self.points64 = points64;
        self.delays = delays;
        self.tries = tries;
        self.restart = false;
        self.steps = 0;
        self.streak = 0;
        self.direct_ev.clear();
        if let Some(t) = &mut self.trace {
            t.clear();
        }
    }

    pub fn fail(&mut self, k: Kind, m: String) {
        if self.vio.is_none() {
            self.vio = Some((k, m));
        }
    }

    fn lock(&mut self, id: u64) -> &mut Lock {
        let i = id as usize;
        if self.locks.len() <= i {
            self.locks.resize(i + 1, Lock::default());
        }
        &mut self.locks[i]
    }

    fn op(&mut self, op: Op) -> bool {
        if self.cur == DIRECT {
            return self.direct(op);
        }
        match op {
            Op::UnlockRead(_) | Op::UnlockWrite(_) if !self.tries => {
                self.effect(self.cur, op);
                true
            }
            // counters of the policy commute, statistics matter only where they are checked
            Op::AtomicRead(_, b) | Op::AtomicWrite(_, b) if b == 16 || b == 64 && !self.points64 => true,
            Op::TryLockRead(_) | Op::TryLockWrite(_) if !self.tries => {
                // unlocking has to become a scheduling point; start this program again
                self.restart = true;
                self.dfs.pruned = true;
                request(Req::Op(op))
            }
            Op::ParkTimeout(d) | Op::Sleep(d) => {
                let t = self.cur;
                self.th[t].deadline = if d >= 1 << 60 { None } else { Some(self.now + d.max(1)) };
                self.parking();
                request(Req::Op(op))
            }
            Op::Park => {
                self.th[self.cur].deadline = None;
                self.parking();
                request(Req::Op(op))
            }
            _ => request(Req::Op(op)),
        }
    }

    fn advance(&mut self, now: u64) {
        let d = now - self.now;
        self.now = now;
        for t in &mut self.th {
            let parked = matches!(t.req, Req::Op(Op::Park | Op::ParkTimeout(_))) && !t.token;
            if t.first.is_some() && !parked {
                t.lag += d;
            }
        }
    }

    fn parking(&mut self) {
        let now = self.now;
        let t = &mut self.th[self.cur];
        t.expired = false;
        if let Some(d) = t.timeout {
            // "without waiting substantially longer"; a thread that is late because it did not get to run may
            // still wait for a moment
            let slack = d / 4 + 10;
            let first = *t.first.get_or_insert(now);
            t.limit = Some(first.saturating_add(d).saturating_add(t.lag).max(now).saturating_add(slack));
        }
    }

    /// Outside of the model threads nothing can interfere.
    fn direct(&mut self, op: Op) -> bool {
        match op {
            Op::LockRead(id) | Op::TryLockRead(id) => {
                if self.lock(id).writer {
                    self.fail(Kind::Stuck, "a lock is still held although no call is running".into());
                }
                self.lock(id).readers += 1;
            }
            Op::LockWrite(id) | Op::TryLockWrite(id) => {
                let l = self.lock(id);
                if l.writer || l.readers > 0 {
                    self.fail(Kind::Stuck, "a lock is still held although no call is running".into());
                }
                self.lock(id).writer = true;
            }
            Op::UnlockRead(id) => {
                let l = self.lock(id);
                l.readers = l.readers.saturating_sub(1);
            }
            Op::UnlockWrite(id) => self.lock(id).writer = false,
            Op::Park => {
                self.fail(Kind::Stuck, "a call waits although no load is in progress".into());
                std::panic::resume_unwind(Box::new(DirectPark));
            }
            Op::AtomicRead(id, _) => self.probe = id,
            Op::ParkTimeout(d) | Op::Sleep(d) => self.now = self.now.saturating_add(d.clamp(1, 1 << 50)),
            _ => {}
        }
        true
    }

    fn ob(&mut self, id: u64, t: usize) -> &mut Ob {
        let i = id as usize;
        if self.obs.len() <= i {
            self.obs.resize(i + 1, Ob::default());
        }
        if self.obs[i].name == 0 {
            // objects created before the threads started have a fixed number, the others are named after the
            // event that used them first
            self.obs[i].name = if id < self.fixed { id } else { mix(self.th[t].hash, 77) | 1 << 63 };
        }
        &mut self.obs[i]
    }

    fn ev_read(&mut self, t: usize, id: u64, kind: u64) {
        let h0 = mix(self.th[t].hash, kind);
        let o = self.ob(id, t);
        let h = mix(mix(h0, o.name), o.last);
        o.reads = o.reads.wrapping_add(h);
        self.th[t].hash = h;
    }

    fn ev_write(&mut self, t: usize, id: u64, kind: u64) {
        let h0 = mix(self.th[t].hash, kind);
        let o = self.ob(id, t);
        let h = mix(mix(mix(h0, o.name), o.last), o.reads);
        o.last = h;
        o.reads = 0;
        self.th[t].hash = h;
    }

    fn ev_token(&mut self, t: usize, target: usize, consume: bool) {
        let h = mix(mix(self.th[t].hash, 50 + consume as u64), target as u64);
        let o = &mut self.tokens[target];
        if consume {
            let h = mix(mix(h, o.last), o.reads);
            o.last = h;
            o.reads = 0;
            self.th[t].hash = h;
        } else {
            let h = mix(h, o.last);
            o.reads = o.reads.wrapping_add(h);
            self.th[t].hash = h;
        }
    }

    pub fn note(&mut self, x: u64) {
        if self.cur != DIRECT {
            let t = &mut self.th[self.cur];
            t.hash = mix(t.hash, x);
        }
    }

    /// The operation takes place.
    fn effect(&mut self, t: usize, op: Op) -> bool {
        match op {
            Op::LockRead(id) => {
                self.ev_read(t, id, 1);
                self.lock(id).readers += 1;
                self.th[t].held.push((id, false));
            }
            Op::LockWrite(id) => {
                self.ev_write(t, id, 2);
                self.lock(id).writer = true;
                self.th[t].held.push((id, true));
            }
            Op::TryLockRead(id) => {
                let ok = !self.lock(id).writer;
                self.ev_write(t, id, 3 + ok as u64);
                if ok {
                    self.lock(id).readers += 1;
                    self.th[t].held.push((id, false));
                }
                return ok;
            }
            Op::TryLockWrite(id) => {
                let l = self.lock(id);
                let ok = !l.writer && l.readers == 0;
                self.ev_write(t, id, 5 + ok as u64);
                if ok {
                    self.lock(id).writer = true;
                    self.th[t].held.push((id, true));
                }
                return ok;
            }
            Op::UnlockRead(id) => {
                self.ev_read(t, id, 7);
                let l = self.lock(id);
                l.readers = l.readers.saturating_sub(1);
                self.unheld(t, id);
            }
            Op::UnlockWrite(id) => {
                self.ev_write(t, id, 8);
                self.lock(id).writer = false;
                self.unheld(t, id);
            }
            Op::AtomicRead(id, _) => self.ev_read(t, id, 9),
            Op::AtomicWrite(id, _) => self.ev_write(t, id, 10),
            Op::Park | Op::ParkTimeout(_) => {
                self.ev_token(t, t, true);
                let h = &mut self.th[t];
                h.hash = mix(h.hash, h.token as u64);
                h.token = false;
                h.deadline = None;
                h.expired = false;
            }
            Op::Sleep(_) => {
                let h = &mut self.th[t];
                h.deadline = None;
                h.expired = false;
            }
            Op::Unpark(x) => {
                let x = x as usize;
                if x < self.th.len() {
                    self.ev_token(t, x, false);
                    self.th[x].token = true;
                }
            }
            Op::Yield => {}
        }
        true
    }

    fn unheld(&mut self, t: usize, id: u64) {
        // a guard may be dropped by another thread than the one that locked
        for x in std::iter::once(t).chain(0..self.th.len()) {
            if let Some(p) = self.th[x].held.iter().rposition(|h| h.0 == id) {
                self.th[x].held.remove(p);
                return;
            }
        }
    }

    fn enabled(&self, t: usize) -> bool {
        let h = &self.th[t];
        let lock = |id: u64| self.locks.get(id as usize).cloned().unwrap_or_default();
        match h.req {
            Req::Done => false,
            Req::Op(Op::LockRead(id)) => {
                !lock(id).writer
                    // a reader that already holds the lock does not overtake a waiting writer
                    && !(h.held.iter().any(|x| x.0 == id)
                        && self.th.iter().enumerate().any(|(u, o)| u != t && o.req == Req::Op(Op::LockWrite(id))))
            }
            Req::Op(Op::LockWrite(id)) => {
                let l = lock(id);
                !l.writer && l.readers == 0
            }
            Req::Op(Op::Park | Op::ParkTimeout(_)) => h.token || h.expired,
            Req::Op(Op::Sleep(_)) => h.expired,
            Req::WaitTask => h.woken,
            Req::WaitFlag(n) => self.flags >> n & 1 == 1,
            _ => true,
        }
    }

    fn state_key(&self) -> u64 {
        let mut k = mix(self.cur as u64, self.spurious as u64 + (self.flags as u64) << 8);
        k = mix(k, self.now);
        for t in &self.th {
            k = mix(mix(k, t.hash), t.lag);
        }
        k
    }

    /// A choice that is not about scheduling.
    pub fn pick(&mut self, n: usize) -> usize {
        if n < 2 {
            return 0;
        }
        self.note(0xC0);
        let k = mix(self.state_key(), 0xC1);
        let left = self.left;
        let c = self.dfs.choose(n, k, left);
        self.note(c as u64 + 0x100);
        if self.cur != DIRECT && self.trace.is_some() {
            let m = format!("T{} takes alternative {c} of {n}", self.cur);
            self.trace.as_mut().unwrap().push(m);
        }
        c
    }

    /// A call begins (`false`: without offering a switch).
    pub fn invoke(&mut self, what: u64, point: bool) -> u32 {
        if self.cur != DIRECT {
            if point {
                request(Req::Free);
            }
            let r = self.responses;
            let t = &mut self.th[self.cur];
            t.hash = mix(mix(t.hash, what), r);
        }
        self.tick += 1;
        self.tick
    }
    pub fn respond(&mut self, what: u64) -> u32 {
        if self.cur != DIRECT {
            let t = &mut self.th[self.cur];
            t.hash = mix(mix(t.hash, what), 0x5E5);
            self.responses = self.responses.wrapping_add(t.hash);
        }
        self.tick += 1;
        self.tick
    }

    pub fn spawn(&mut self, f: impl FnOnce() + 'static) {
        let stack = self.stacks.pop().unwrap_or_else(|| DefaultStack::new(256 << 10).unwrap());
        let t = self.th.len();
        let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            s().th[t].yielder = y;
            f();
            s().th[t].req = Req::Done;
        });
        self.th.push(Th {
            co: Some(co),
            yielder: std::ptr::null(),
            req: Req::Start,
            hash: mix(t as u64, 1),
            token: false,
            deadline: None,
            expired: false,
            result: false,
            held: vec![],
            serial: 0,
            gen: 0,
            woken: false,
            timeout: None,
            limit: None,
            first: None,
            lag: 0,
            ev: vec![],
        });
    }

    fn run(&mut self, t: usize) {
        let req = self.th[t].req;
        if let Some(tr) = &mut self.trace {
            let x = match req {
                Req::Op(o) => format!("{o:?}"),
                r => format!("{r:?}"),
            };
            let p = if self.th[t].expired { " (time is up)" } else { "" };
            tr.push(format!("T{t} {x}{p}"));
        }
        let mut r = true;
        match req {
            Req::Op(op) => r = self.effect(t, op),
            Req::WaitTask => {
                self.ev_token(t, t, true);
                self.th[t].woken = false;
            }
            Req::Wake(x, serial, gen) => {
                let x = x as usize;
                self.ev_token(t, x, false);
                let h = &mut self.th[x];
                if h.serial == serial && h.gen == gen {
                    h.woken = true;
                }
            }
            Req::Now => {
                let n = self.now;
                let h = &mut self.th[t];
                h.hash = mix(h.hash, n);
            }
            Req::WaitFlag(n) => {
                let o = self.flagobs[n as usize].last;
                let h = &mut self.th[t];
                h.hash = mix(h.hash, o);
            }
            Req::Flag(n) => {
                self.flags |= 1 << n;
                let h = &mut self.th[t];
                h.hash = mix(h.hash, 0xF1A6);
                self.flagobs[n as usize].last = h.hash;
            }
            _ => {}
        }
        self.th[t].result = r;
        self.cur = t;
        let mut co = self.th[t].co.take().unwrap();
        let res = co.resume(());
        let c = s();
        match res {
            CoroutineResult::Yield(()) => c.th[t].co = Some(co),
            CoroutineResult::Return(()) => c.stacks.push(co.into_stack()),
        }
    }

    /// Runs all threads to their end. False: they got stuck, the coroutines are lost.
    pub fn run_all(&mut self) -> bool {
        let n = self.th.len();
        let mut cur = usize::MAX;
        loop {
            self.steps += 1;
            if let Some(b) = self.beat {
                b.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            if self.steps > STEP_CAP {
                self.fail(Kind::Stuck, format!("no end in sight after {STEP_CAP} steps"));
                return self.lost();
            }
            let mut alts = [(Alt::Timer, 0u8); 2 * MAXT + 1];
            let mut k = 0;
            // switching away is free if the running thread cannot go on, or offered it
            let relaxed = cur < n && (matches!(self.th[cur].req, Req::Op(Op::Yield)) || self.streak > 200);
            let stay = cur < n && self.enabled(cur) && !relaxed;
            let free = !stay || matches!(self.th[cur].req, Req::Free | Req::Start);
            if stay {
                alts[k] = (Alt::Run(cur), 0);
                k += 1;
            }
            for t in 0..n {
                // delay bounding: the first one is the default, any other costs
                let cost = if self.delays { (k > 0) as u8 } else { !free as u8 };
                if t != cur && self.enabled(t) && cost <= self.left {
                    alts[k] = (Alt::Run(t), cost);
                    k += 1;
                }
            }
            if relaxed && self.enabled(cur) {
                alts[k] = (Alt::Run(cur), 0);
                k += 1;
            }
            let runnable = k;
            let mut next = None;
            for t in &self.th {
                if t.expired && t.req != Req::Done {
                    next = None;
                    break;
                }
                let parked = matches!(t.req, Req::Op(Op::Park | Op::ParkTimeout(_))) && !t.token;
                if parked || matches!(t.req, Req::Op(Op::Sleep(_))) {
                    let d = match (t.deadline, t.limit) {
                        (Some(d), _) => Some(d),
                        // an unlimited wait in a call with a time limit
                        (None, Some(l)) if l < 1 << 60 => Some(l + 1),
                        _ => None,
                    };
                    if let Some(d) = d {
                        next = Some(next.map_or(d, |x: u64| x.min(d)));
                    }
                }
            }
            if self.th.iter().any(|t| t.expired) {
                next = None;
            }
            if next.is_some() {
                alts[k] = (Alt::Timer, 0);
                k += 1;
            }
            if k == 0 {
                if self.th.iter().all(|t| t.req == Req::Done) {
                    self.finish();
                    return true;
                }
                let mut m = String::from("stuck:");
                for (i, t) in self.th.iter().enumerate() {
                    if t.req != Req::Done {
                        let what = match t.req {
                            Req::Op(Op::Park | Op::ParkTimeout(_)) | Req::WaitTask => "waits to be woken".into(),
                            Req::Op(Op::LockRead(l)) => format!("waits to read lock {l}"),
                            Req::Op(Op::LockWrite(l)) => format!("waits to write lock {l}"),
                            Req::WaitFlag(_) => "loads until another thread is done".into(),
                            r => format!("{r:?}"),
                        };
                        m += &format!(" T{i} {what}");
                        if !t.held.is_empty() {
                            m += &format!(" holding locks {:?}", t.held.iter().map(|h| h.0).collect::<Vec<_>>());
                        }
                        m += ";";
                    }
                }
                self.fail(Kind::Stuck, m);
                return self.lost();
            }
            if runnable > 0 && self.spurious > 0 {
                for t in 0..n {
                    if matches!(self.th[t].req, Req::Op(Op::Park | Op::ParkTimeout(_))) && !self.enabled(t) {
                        alts[k] = (Alt::Spurious(t), 0);
                        k += 1;
                    }
                }
            }
            let c = if k > 1 {
                self.cur = cur.min(MAXT);
                let key = self.state_key();
                self.dfs.choose(k, key, self.left)
            } else {
                0
            };
            let (alt, cost) = alts[c];
            self.left -= cost;
            match alt {
                Alt::Run(t) => {
                    self.streak = if t == cur { self.streak + 1 } else { 0 };
                    cur = t;
                    self.run(t);
                    self.cur = DIRECT;
                }
                Alt::Timer => {
                    self.advance(next.unwrap());
                    if let Some(tr) = &mut self.trace {
                        tr.push(format!("time passes: {}", self.now));
                    }
                    let now = self.now;
                    let mut late = None;
                    for (i, t) in self.th.iter_mut().enumerate() {
                        let parked = matches!(t.req, Req::Op(Op::Park | Op::ParkTimeout(_))) && !t.token;
                        if parked && t.limit.is_some_and(|l| now > l) {
                            late = Some(i);
                        }
                        if (parked || matches!(t.req, Req::Op(Op::Sleep(_)))) && t.deadline.is_some_and(|d| d <= now) {
                            t.expired = true;
                            t.hash = mix(t.hash, now);
                        }
                    }
                    if let Some(i) = late {
                        self.fail(Kind::Timeout, format!("T{i} still waits at {now}, long after its timeout"));
                        return self.lost();
                    }
                }
                Alt::Spurious(t) => {
                    self.spurious -= 1;
                    if let Some(tr) = &mut self.trace {
                        tr.push(format!("T{t} wakes up spuriously"));
                    }
                    // half of the time is gone
                    if let Some(d) = self.th[t].deadline {
                        let d = self.now + (d - self.now) / 2;
                        if !self.th.iter().any(|x| x.expired || x.deadline.is_some_and(|y| y <= d)) {
                            self.advance(d);
                        }
                    }
                    let now = self.now;
                    let h = &mut self.th[t];
                    h.token = true;
                    h.hash = mix(mix(h.hash, 0x5B), now);
                }
            }
        }
    }

    fn finish(&mut self) {
        for t in 0..self.th.len() {
            if !self.th[t].held.is_empty() {
                self.fail(Kind::Stuck, format!("T{t} ended with a lock held"));
            }
        }
        self.th.clear();
        self.cur = DIRECT;
    }

    fn lost(&mut self) -> bool {
        for t in self.th.drain(..) {
            std::mem::forget(t);
        }
        self.cur = DIRECT;
        false
    }
}
