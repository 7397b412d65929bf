//! The real cache plus everything the caller of it holds, and the execution of one operation.
use crate::types::*;
use quick_cache::{sync, unsync, OptionsBuilder};
use std::fmt;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub const MAXK: usize = 256;
/// guards held at the same time
pub const MAXG: usize = 4;
pub type Res = Vec<Option<Vu>>;

/// Whether a retain with this mask keeps the key.
pub fn keeps(mask: u64, k: u8) -> bool {
    mask >> (k % 64) & 1 == 1
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
    Unsync,
    Sync,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub flavor: Flavor,
    pub cap: u64,
    pub items: usize,
    pub hot: f64,
    pub ghost: f64,
    pub shards: usize,
    pub hash: HashKind,
    pub weigh: W,
    pub nkeys: u8,
    pub guards: usize,
    pub ops: Vec<Op>,
    /// capacity of one shard and of the whole cache, and which keys share a shard; see `prepare`
    pub scap: u64,
    pub tcap: u64,
    pub of: [u8; MAXK],
}

impl Cfg {
    pub fn new(flavor: Flavor, cap: u64, items: usize, hot: f64, ghost: f64, nkeys: u8) -> Self {
        Cfg {
            name: String::new(),
            flavor,
            cap,
            items,
            hot,
            ghost,
            shards: 1,
            hash: HashKind::Spread,
            weigh: W {
                bonus: false,
                scale: 1,
            },
            nkeys,
            guards: 0,
            ops: vec![],
            scap: cap,
            tcap: cap,
            of: [0; MAXK],
        }
    }
    /// The hot share of the capacity of a shard.
    pub fn hot_target(&self) -> u64 {
        (self.scap as f64 * self.hot) as u64
    }
    /// Finds out which keys share a shard: two entries too heavy to be resident together are, in the same shard.
    pub fn prepare(&mut self) -> Result<(), String> {
        if self.flavor == Flavor::Unsync || self.shards < 2 {
            return Ok(());
        }
        let shape = |w: &World| {
            let s = w.s.as_ref().unwrap();
            (s.num_shards() as u64, s.shard_capacity(), s.capacity())
        };
        let (n, sc, tc) = {
            let w = World::new(self);
            let r = shape(&w);
            w.finish();
            r
        };
        if tc != n * sc || tc < self.cap || tc - self.cap >= n {
            return Err(format!("{n} shards of capacity {sc}, capacity() is {tc}, asked for {}", self.cap));
        }
        self.scap = sc;
        self.tcap = tc;
        let heavy = self.hot_target();
        if heavy * 2 <= sc || heavy > 255 {
            return Err("configuration cannot tell shards apart".into());
        }
        let mut next = 0;
        for k in 0..self.nkeys {
            let mut shard = None;
            for j in 0..k {
                let mut w = World::new(self);
                w.exec(Op::Insert(j, crate::types::w(heavy as u8)));
                w.exec(Op::Insert(k, crate::types::w(heavy as u8)));
                let both = w.s.as_ref().unwrap().len() == 2;
                w.finish();
                if !both {
                    shard = Some(self.of[j as usize]);
                    break;
                }
            }
            self.of[k as usize] = shard.unwrap_or_else(|| {
                next += 1;
                next - 1
            });
        }
        if next as u64 > n {
            return Err(format!("{n} shards but {next} independent keys"));
        }
        take_events();
        Ok(())
    }
    pub fn describe(&self) -> String {
        format!(
            "{:?} cache, capacity {}, estimated items {}, hot share {}, ghost share {}, shards {}, hasher {:?}, {} keys, {} guards, weighter {:?}",
            self.flavor, self.cap, self.items, self.hot, self.ghost, self.shards, self.hash, self.nkeys, self.guards, self.weigh
        )
    }
}

/// In which form a key is passed.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    Owned,
    Borrowed,
    Equiv,
}

/// What a loader does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Load {
    Val(Class),
    Err,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get(u8, Form),
    Peek(u8, Form),
    Contains(u8, Form),
    GetMut(u8, Option<Class>),
    PeekMut(u8, Option<Class>),
    Insert(u8, Class),
    InsertLc(u8, Class),
    Replace(u8, Class, bool),
    ReplaceLc(u8, Class, bool),
    Remove(u8, Form),
    /// keep exactly the keys in the mask
    Retain(u64),
    Clear,
    /// drain, consuming that many items
    Drain(u8),
    Iter,
    Reserve(u16),
    Goi(u8, Form, Load),
    Gmoi(u8, Load),
    /// unsync get_mut_or_insert_with whose result is then written to
    GmoiMut(u8, Class, Class),
    /// obtain the guard and complete it at once
    GuardIns(u8, Class, bool),
    GuardInsLc(u8, Class),
    /// sync: obtain the guard, let another call join it (and perhaps give up), complete it
    GuardJoin(u8, Class, bool),
    /// obtain the guard and drop it at once
    GuardDrop(u8, bool),
    /// sync: obtain a guard and hold it
    Acq(u8, Form),
    AcqAsync(u8, Form),
    GIns(u8, Class),
    GInsLc(u8, Class),
    GDrop(u8),
    GoiAsync(u8, Load),
    /// unsync: continue with a clone, drop the original
    CloneSwap,
    /// len, weight, is_empty, capacity
    Size,
    /// the same operation, but its n-th call of user code that may panic does
    Fused(&'static Op, u8),
}

impl Op {
    pub fn plain(self) -> Op {
        match self {
            Op::Fused(o, _) => *o,
            o => o,
        }
    }
    /// Takes entries out.
    pub fn takes(self) -> bool {
        matches!(self, Op::Remove(..) | Op::Retain(_) | Op::Clear | Op::Drain(_))
    }
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

pub type Vu = (u32, Class);

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Skip,
    Unit,
    Bool(bool),
    Val(Option<Vu>),
    /// what the mutable reference showed before, and after writing
    Mut(Option<Vu>),
    Done,
    DoneLc(u32),
    Refused { k: u8, inst: u32, given: u32, uid: u32 },
    Removed(Option<(u8, u32)>),
    Items(Vec<(u8, Vu)>),
    /// get-or-insert returned Ok; how often the loader ran
    Loaded(Option<Vu>, u32),
    LoadErr(u32),
    LoadPanic(u32),
    Hit(Vu),
    GotGuard,
    Pending,
    GuardRefused(u32),
    NoSuch,
    /// user code panicked
    Blown(Point),
}

pub type UC = unsync::Cache<K, V, W, HB, L>;
pub type SC = sync::Cache<K, V, W, HB, L>;
type Guard = sync::PlaceholderGuard<'static, K, V, W, HB, L>;

pub struct World {
    pub u: Option<Box<UC>>,
    guards: Vec<Option<Guard>>,
    pub s: Option<Own>,
    next_uid: u32,
}

/// The shared cache; not a Box, because guards refer to it while it is moved around.
pub struct Own(*mut SC);

impl std::ops::Deref for Own {
    type Target = SC;
    fn deref(&self) -> &SC {
        unsafe { &*self.0 }
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

/// Raised by panicking loaders.
pub struct LoaderPanic;

impl World {
    pub fn new(cfg: &Cfg) -> Self {
        let mut ob = OptionsBuilder::new();
        ob.estimated_items_capacity(cfg.items)
            .weight_capacity(cfg.cap)
            .hot_allocation(cfg.hot)
            .ghost_allocation(cfg.ghost)
            .shards(cfg.shards);
        let o = ob.build().unwrap();
        let (mut u, mut s) = (None, None);
        match cfg.flavor {
            Flavor::Unsync => {
                u = Some(Box::new(UC::with_options(o, cfg.weigh, HB(cfg.hash), L(cfg.weigh))))
            }
            Flavor::Sync => {
                s = Some(Own(Box::into_raw(Box::new(SC::with_options(o, cfg.weigh, HB(cfg.hash), L(cfg.weigh))))))
            }
        }
        World {
            u,
            s,
            guards: (0..cfg.guards).map(|_| None).collect(),
            next_uid: 1,
        }
    }

    /// Ends the world; everything the cache holds is dropped. Guards go first.
    pub fn finish(mut self) {
        self.guards.clear();
        self.u = None;
        self.s = None;
    }

    /// uid of the value the next operation stores
    pub fn upcoming_uid(&self) -> u32 {
        self.next_uid
    }

    fn free_slot(&self) -> Option<usize> {
        self.guards.iter().position(|g| g.is_none())
    }

    fn sref(&self) -> &'static SC {
        // Safety: guards are dropped before the cache, see finish
        unsafe { &*self.s.as_ref().unwrap().0 }
    }

    pub fn exec(&mut self, op: Op) -> Out {
        if let Op::Fused(op, n) = op {
            set_fuse(Some(n));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec(*op)));
            set_fuse(None);
            return match r {
                // no such call
                Ok(_) => Out::Skip,
                Err(e) => match e.downcast::<Blown>() {
                    Ok(b) => Out::Blown(b.0),
                    Err(e) => std::panic::resume_unwind(e),
                },
            };
        }
        let uid = self.next_uid;
        self.next_uid += 1;
        if self.u.is_some() {
            self.exec_unsync(op, uid)
        } else {
            self.exec_sync(op, uid)
        }
    }

    fn exec_unsync(&mut self, op: Op, uid: u32) -> Out {
        let c = self.u.as_mut().unwrap();
        let vu = |v: &V| (v.uid, v.c);
        match op {
            Op::Get(k, f) => Out::Val(match f {
                Form::Owned => c.get(&K::new(k)).map(vu),
                Form::Borrowed => c.get(&KQ(k)).map(vu),
                Form::Equiv => c.get(&KE(k)).map(vu),
            }),
            Op::Peek(k, f) => Out::Val(match f {
                Form::Owned => c.peek(&K::new(k)).map(vu),
                Form::Borrowed => c.peek(&KQ(k)).map(vu),
                Form::Equiv => c.peek(&KE(k)).map(vu),
            }),
            Op::Contains(k, f) => Out::Bool(match f {
                Form::Owned => c.contains_key(&K::new(k)),
                Form::Borrowed => c.contains_key(&KQ(k)),
                Form::Equiv => c.contains_key(&KE(k)),
            }),
            Op::GetMut(k, m) => Out::Mut(c.get_mut(&KQ(k)).map(|mut r| {
                let before = vu(&r);
                if let Some(m) = m {
                    *r = V::new(uid, m);
                    assert_eq!(vu(&r), (uid, m), "RefMut does not read back what was written");
                }
                before
            })),
            Op::PeekMut(k, m) => Out::Mut(c.peek_mut(&KE(k)).map(|mut r| {
                let before = vu(&r);
                if let Some(m) = m {
                    *r = V::new(uid, m);
                    assert_eq!(vu(&r), (uid, m), "RefMut does not read back what was written");
                }
                before
            })),
            Op::Insert(k, cl) => {
                c.insert(K::new(k), V::new(uid, cl));
                Out::Done
            }
            Op::InsertLc(k, cl) => Out::DoneLc(c.insert_with_lifecycle(K::new(k), V::new(uid, cl)).0),
            Op::Replace(k, cl, soft) => {
                let key = K::new(k);
                let given = key.inst();
                match c.replace(key, V::new(uid, cl), soft) {
                    Ok(()) => Out::Done,
                    Err((k, v)) => Out::Refused {
                        k: k.id(),
                        inst: k.inst(),
                        given,
                        uid: v.uid,
                    },
                }
            }
            Op::ReplaceLc(k, cl, soft) => {
                let key = K::new(k);
                let given = key.inst();
                match c.replace_with_lifecycle(key, V::new(uid, cl), soft) {
                    Ok(r) => Out::DoneLc(r.0),
                    Err((k, v)) => Out::Refused {
                        k: k.id(),
                        inst: k.inst(),
                        given,
                        uid: v.uid,
                    },
                }
            }
            Op::Remove(k, f) => Out::Removed(
                match f {
                    Form::Owned => c.remove(&K::new(k)),
                    Form::Borrowed => c.remove(&KQ(k)),
                    Form::Equiv => c.remove(&KE(k)),
                }
                .map(|(k, v)| (k.id(), v.uid)),
            ),
            Op::Retain(mask) => {
                c.retain(|k, _| {
                    point(Point::Predicate);
                    keeps(mask, k.id())
                });
                Out::Unit
            }
            Op::Clear => {
                c.clear();
                Out::Unit
            }
            Op::Drain(n) => {
                let mut it = c.drain();
                let mut got = vec![];
                for _ in 0..n {
                    let Some((k, v)) = it.next() else { break };
                    got.push((k.id(), vu(&v)));
                }
                drop(it);
                Out::Items(got)
            }
            Op::Iter => Out::Items(c.iter().map(|(k, v)| (k.id(), vu(v))).collect()),
            Op::Reserve(n) => {
                c.reserve(n as usize);
                Out::Unit
            }
            Op::Goi(k, f, l) => {
                let mut ran = 0;
                let with = || {
                    ran += 1;
                    match l {
                        Load::Val(cl) => Ok(V::new(uid, cl)),
                        Load::Err => Err(()),
                        Load::Panic => std::panic::panic_any(LoaderPanic),
                    }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match f {
                    Form::Owned => c.get_or_insert_with(&K::new(k), with).map(|v| v.map(vu)),
                    _ => c.get_or_insert_with(&KQ(k), with).map(|v| v.map(vu)),
                }));
                load_out(r, ran)
            }
            Op::Gmoi(k, l) => {
                let mut ran = 0;
                let with = || {
                    ran += 1;
                    match l {
                        Load::Val(cl) => Ok(V::new(uid, cl)),
                        Load::Err => Err(()),
                        Load::Panic => std::panic::panic_any(LoaderPanic),
                    }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    c.get_mut_or_insert_with(&KQ(k), with).map(|v| v.map(|v| vu(&v)))
                }));
                load_out(r, ran)
            }
            Op::GmoiMut(k, cl, m) => {
                let mut ran = 0;
                let r = c.get_mut_or_insert_with(&KQ(k), || {
                    ran += 1;
                    Ok::<_, ()>(V::new(uid, cl))
                });
                let got = r.unwrap().map(|mut r| {
                    let before = vu(&r);
                    r.uid = uid;
                    r.c = m;
                    before
                });
                Out::Loaded(got, ran)
            }
            Op::GuardIns(k, cl, m) => {
                if m {
                    match c.get_mut_or_guard(&KQ(k)) {
                        Ok(v) => v.map_or(Out::NoSuch, |v| Out::Hit(vu(&v))),
                        Err(g) => {
                            g.insert(V::new(uid, cl));
                            Out::Done
                        }
                    }
                } else {
                    match c.get_ref_or_guard(&KQ(k)) {
                        Ok(v) => Out::Hit(vu(v)),
                        Err(g) => {
                            g.insert(V::new(uid, cl));
                            Out::Done
                        }
                    }
                }
            }
            Op::GuardInsLc(k, cl) => match c.get_ref_or_guard(&KQ(k)) {
                Ok(v) => Out::Hit(vu(v)),
                Err(g) => Out::DoneLc(g.insert_with_lifecycle(V::new(uid, cl)).0),
            },
            Op::GuardDrop(k, m) => {
                if m {
                    match c.get_mut_or_guard(&KQ(k)) {
                        Ok(v) => v.map_or(Out::NoSuch, |v| Out::Hit(vu(&v))),
                        Err(_) => Out::GotGuard,
                    }
                } else {
                    match c.get_ref_or_guard(&K::new(k)) {
                        Ok(v) => Out::Hit(vu(v)),
                        Err(_) => Out::GotGuard,
                    }
                }
            }
            Op::CloneSwap => {
                let n = c.clone();
                *self.u.as_mut().unwrap() = n;
                Out::Unit
            }
            Op::Size => {
                let _ = (c.len(), c.weight(), c.is_empty(), c.capacity());
                Out::Unit
            }
            Op::Acq(..) | Op::AcqAsync(..) | Op::GIns(..) | Op::GInsLc(..) | Op::GDrop(..) | Op::GoiAsync(..) | Op::GuardJoin(..) | Op::Fused(..) => Out::Skip,
        }
    }

    fn exec_sync(&mut self, op: Op, uid: u32) -> Out {
        let c = self.sref();
        let vu = |v: V| (v.uid, v.c);
        match op {
            Op::Get(k, f) => Out::Val(match f {
                Form::Owned => c.get(&K::new(k)).map(vu),
                Form::Borrowed => c.get(&KQ(k)).map(vu),
                Form::Equiv => c.get(&KE(k)).map(vu),
            }),
            Op::Peek(k, f) => Out::Val(match f {
                Form::Owned => c.peek(&K::new(k)).map(vu),
                Form::Borrowed => c.peek(&KQ(k)).map(vu),
                Form::Equiv => c.peek(&KE(k)).map(vu),
            }),
            Op::Contains(k, f) => Out::Bool(match f {
                Form::Owned => c.contains_key(&K::new(k)),
                Form::Borrowed => c.contains_key(&KQ(k)),
                Form::Equiv => c.contains_key(&KE(k)),
            }),
            Op::Insert(k, cl) => {
                c.insert(K::new(k), V::new(uid, cl));
                Out::Done
            }
            Op::InsertLc(k, cl) => Out::DoneLc(c.insert_with_lifecycle(K::new(k), V::new(uid, cl)).0),
            Op::Replace(k, cl, soft) => {
                let key = K::new(k);
                let given = key.inst();
                match c.replace(key, V::new(uid, cl), soft) {
                    Ok(()) => Out::Done,
                    Err((k, v)) => Out::Refused {
                        k: k.id(),
                        inst: k.inst(),
                        given,
                        uid: v.uid,
                    },
                }
            }
            Op::ReplaceLc(k, cl, soft) => {
                let key = K::new(k);
                let given = key.inst();
                match c.replace_with_lifecycle(key, V::new(uid, cl), soft) {
                    Ok(r) => Out::DoneLc(r.0),
                    Err((k, v)) => Out::Refused {
                        k: k.id(),
                        inst: k.inst(),
                        given,
                        uid: v.uid,
                    },
                }
            }
            Op::Remove(k, f) => Out::Removed(
                match f {
                    Form::Owned => c.remove(&K::new(k)),
                    Form::Borrowed => c.remove(&KQ(k)),
                    Form::Equiv => c.remove(&KE(k)),
                }
                .map(|(k, v)| (k.id(), v.uid)),
            ),
            Op::Retain(mask) => {
                c.retain(|k, _| {
                    point(Point::Predicate);
                    keeps(mask, k.id())
                });
                Out::Unit
            }
            Op::Clear => {
                c.clear();
                Out::Unit
            }
            Op::Reserve(n) => {
                c.reserve(n as usize);
                Out::Unit
            }
            Op::Goi(k, f, l) => {
                let mut ran = 0;
                let with = || {
                    ran += 1;
                    match l {
                        Load::Val(cl) => Ok(V::new(uid, cl)),
                        Load::Err => Err(()),
                        Load::Panic => std::panic::panic_any(LoaderPanic),
                    }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match f {
                    Form::Owned => c.get_or_insert_with(&K::new(k), with).map(|v| Some(vu(v))),
                    _ => c.get_or_insert_with(&KQ(k), with).map(|v| Some(vu(v))),
                }));
                load_out(r, ran)
            }
            Op::GoiAsync(k, l) => {
                let mut ran = 0;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let with = async {
                        ran += 1;
                        match l {
                            Load::Val(cl) => Ok(V::new(uid, cl)),
                            Load::Err => Err(()),
                            Load::Panic => std::panic::panic_any(LoaderPanic),
                        }
                    };
                    let key = K::new(k);
                    let fut = pin!(c.get_or_insert_async(&key, with));
                    match fut.poll(&mut Context::from_waker(Waker::noop())) {
                        Poll::Ready(r) => Some(r.map(|v| Some(vu(v)))),
                        Poll::Pending => None,
                    }
                }));
                match r {
                    Ok(None) => Out::Pending,
                    Ok(Some(r)) => load_out(Ok(r), ran),
                    Err(e) => load_out(Err(e), ran),
                }
            }
            Op::Acq(k, f) => {
                let Some(slot) = self.free_slot() else {
                    return Out::Skip;
                };
                let r = match f {
                    Form::Owned => c.get_value_or_guard(&K::new(k), Some(Duration::ZERO)),
                    _ => c.get_value_or_guard(&KQ(k), Some(Duration::ZERO)),
                };
                match r {
                    sync::GuardResult::Value(v) => Out::Hit(vu(v)),
                    sync::GuardResult::Guard(g) => {
                        self.guards[slot] = Some(g);
                        Out::GotGuard
                    }
                    sync::GuardResult::Timeout => Out::Pending,
                }
            }
            Op::AcqAsync(k, f) => {
                let Some(slot) = self.free_slot() else {
                    return Out::Skip;
                };
                let r = match f {
                    Form::Owned => {
                        let key = K::new(k);
                        let fut = pin!(c.get_value_or_guard_async(&key));
                        fut.poll(&mut Context::from_waker(Waker::noop()))
                    }
                    _ => {
                        let key = KQ(k);
                        let fut = pin!(c.get_value_or_guard_async(&key));
                        fut.poll(&mut Context::from_waker(Waker::noop()))
                    }
                };
                match r {
                    Poll::Ready(Ok(v)) => Out::Hit(vu(v)),
                    Poll::Ready(Err(g)) => {
                        self.guards[slot] = Some(g);
                        Out::GotGuard
                    }
                    Poll::Pending => Out::Pending,
                }
            }
            Op::GIns(slot, cl) => {
                let Some(g) = self.guards[slot as usize].take() else {
                    return Out::Skip;
                };
                match g.insert(V::new(uid, cl)) {
                    Ok(()) => Out::Done,
                    Err(v) => Out::GuardRefused(v.uid),
                }
            }
            Op::GInsLc(slot, cl) => {
                let Some(g) = self.guards[slot as usize].take() else {
                    return Out::Skip;
                };
                match g.insert_with_lifecycle(V::new(uid, cl)) {
                    Ok(r) => Out::DoneLc(r.0),
                    Err(v) => Out::GuardRefused(v.uid),
                }
            }
            Op::GDrop(slot) => {
                if self.guards[slot as usize].take().is_none() {
                    return Out::Skip;
                }
                Out::Unit
            }
            Op::GuardIns(k, cl, _) => match c.get_value_or_guard(&KQ(k), Some(Duration::ZERO)) {
                sync::GuardResult::Value(v) => Out::Hit(vu(v)),
                sync::GuardResult::Guard(g) => match g.insert(V::new(uid, cl)) {
                    Ok(()) => Out::Done,
                    Err(v) => Out::GuardRefused(v.uid),
                },
                sync::GuardResult::Timeout => Out::Pending,
            },
            Op::GuardJoin(k, cl, stays) => match c.get_value_or_guard(&KQ(k), Some(Duration::ZERO)) {
                sync::GuardResult::Value(v) => Out::Hit(vu(v)),
                sync::GuardResult::Guard(g) => {
                    let key = KQ(k);
                    let mut fut = Some(Box::pin(c.get_value_or_guard_async(&key)));
                    let cx = &mut Context::from_waker(Waker::noop());
                    if fut.as_mut().unwrap().as_mut().poll(cx).is_ready() {
                        return Out::Pending;
                    }
                    if !stays {
                        fut = None;
                    }
                    let r = g.insert(V::new(uid, cl));
                    if let Some(f) = fut.as_mut() {
                        if !matches!(f.as_mut().poll(cx), Poll::Ready(Ok(v)) if v.uid == uid) {
                            return Out::Pending;
                        }
                    }
                    match r {
                        Ok(()) => Out::Done,
                        Err(v) => Out::GuardRefused(v.uid),
                    }
                }
                sync::GuardResult::Timeout => Out::Pending,
            },
            Op::GuardDrop(k, _) => match c.get_value_or_guard(&KQ(k), Some(Duration::ZERO)) {
                sync::GuardResult::Value(v) => Out::Hit(vu(v)),
                sync::GuardResult::Guard(_) => Out::GotGuard,
                sync::GuardResult::Timeout => Out::Pending,
            },
            Op::Size => {
                let _ = (c.len(), c.weight(), c.is_empty(), c.capacity());
                Out::Unit
            }
            _ => Out::Skip,
        }
    }

    pub fn dump(&self, out: &mut String) {
        #[cfg(quick_cache_verif)]
        {
            if let Some(u) = &self.u {
                u.verif_dump(out);
            }
            if let Some(s) = &self.s {
                s.verif_dump(out);
            }
        }
        // entries that the hash table does not find any more are part of the state too
        #[cfg(quick_cache_verif_map)]
        {
            let mut lost = String::new();
            if let Some(u) = &self.u {
                u.verif_misplaced(&mut lost);
            }
            if let Some(s) = &self.s {
                s.verif_misplaced(&mut lost);
            }
            if !lost.is_empty() {
                out.push('\n');
                out.push_str(&lost);
            }
        }
        let _ = out;
    }

    pub fn stats(&self) -> (u64, u64) {
        #[cfg(feature = "full")]
        {
            if let Some(u) = &self.u {
                return (u.hits(), u.misses());
            }
            if let Some(s) = &self.s {
                return (s.hits(), s.misses());
            }
        }
        (0, 0)
    }

    pub fn observe(&self, nkeys: u8) -> Obs {
        let mut o = Obs::default();
        o.res.resize(nkeys as usize, None);
        if let Some(c) = &self.u {
            o.len = c.len();
            o.weight = c.weight();
            o.empty = c.is_empty();
            o.cap = c.capacity();
            let vu = |v: &V| (v.uid, v.c);
            for k in 0..nkeys {
                o.res[k as usize] = c.peek(&KQ(k)).map(vu);
                if c.peek(&KE(k)).map(vu) != o.res[k as usize]
                    || c.contains_key(&KQ(k)) != o.res[k as usize].is_some()
                    || c.contains_key(&KE(k)) != o.res[k as usize].is_some()
                {
                    o.disagree = Some(k);
                }
            }
            let mut its = vec![];
            for (k, v) in c.iter() {
                its.push((k.id(), vu(v)));
                if its.len() > 2 * MAXK {
                    break;
                }
            }
            its.sort_by_key(|x| (x.0, x.1 .0));
            o.iter = Some(its);
        } else if let Some(c) = &self.s {
            o.len = c.len();
            o.weight = c.weight();
            o.empty = c.is_empty();
            o.cap = c.capacity();
            let vu = |v: V| (v.uid, v.c);
            for k in 0..nkeys {
                o.res[k as usize] = c.peek(&KQ(k)).map(vu);
                if c.peek(&KE(k)).map(vu) != o.res[k as usize]
                    || c.contains_key(&KQ(k)) != o.res[k as usize].is_some()
                    || c.contains_key(&KE(k)) != o.res[k as usize].is_some()
                {
                    o.disagree = Some(k);
                }
            }
        }
        o
    }
}

fn load_out(r: Result<Result<Option<Vu>, ()>, Box<dyn std::any::Any + Send>>, ran: u32) -> Out {
    match r {
        Ok(Ok(v)) => Out::Loaded(v, ran),
        Ok(Err(())) => Out::LoadErr(ran),
        Err(e) if e.is::<LoaderPanic>() => Out::LoadPanic(ran),
        Err(e) => std::panic::resume_unwind(e),
    }
}

#[derive(Default, Clone, Debug)]
pub struct Obs {
    pub len: usize,
    pub weight: u64,
    pub empty: bool,
    pub cap: u64,
    pub res: Res,
    pub iter: Option<Vec<(u8, Vu)>>,
    pub disagree: Option<u8>,
}
