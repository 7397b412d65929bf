//! Key, value, hasher, weighter and lifecycle types the caches under test are instantiated with.
//! All bookkeeping is thread local: a history runs entirely on one OS thread.
use quick_cache::{Equivalent, Lifecycle, Weighter};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Default)]
pub struct Tracker {
    /// liveness per key instance
    keys: Vec<bool>,
    live_keys: usize,
    /// per value instance (the uid it holds is in the value)
    vals: Vec<bool>,
    live_vals: usize,
    pub double_drop: Option<String>,
    pub events: Vec<Event>,
    next_req: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Event {
    Begin(u32),
    Before { r: u32, k: u8, uid: u32, w: u64 },
    Evict { r: u32, k: u8, uid: u32, w: u64, pinned: bool },
    End(u32),
    DropState(u32),
}

thread_local! {
    pub static T: RefCell<Tracker> = RefCell::new(Tracker::default());
}

pub fn reset() {
    T.with(|t| *t.borrow_mut() = Tracker::default());
}
pub fn live() -> (usize, usize) {
    T.with(|t| {
        let t = t.borrow();
        (t.live_keys, t.live_vals)
    })
}
pub fn take_events() -> Vec<Event> {
    T.with(|t| std::mem::take(&mut t.borrow_mut().events))
}
pub fn take_double_drop() -> Option<String> {
    T.with(|t| t.borrow_mut().double_drop.take())
}
fn log(e: Event) {
    T.with(|t| t.borrow_mut().events.push(e))
}

/// Where user code can be made to panic.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Point {
    /// copying a key or value
    Copy,
    Predicate,
    /// one of the lifecycle hooks
    Hook,
}
/// Raised at such a point.
pub struct Blown(pub Point);

thread_local! {
    static FUSE: std::cell::Cell<Option<u8>> = const { std::cell::Cell::new(None) };
}
/// Lets the n-th such point from now on panic.
pub fn set_fuse(n: Option<u8>) {
    FUSE.with(|f| f.set(n));
}
pub fn point(p: Point) {
    FUSE.with(|f| match f.get() {
        None => (),
        Some(0) => {
            f.set(None);
            std::panic::panic_any(Blown(p));
        }
        Some(n) => f.set(Some(n - 1)),
    })
}

struct KTok(u32);
impl KTok {
    fn new() -> Self {
        T.with(|t| {
            let mut t = t.borrow_mut();
            t.keys.push(true);
            t.live_keys += 1;
            KTok(t.keys.len() as u32 - 1)
        })
    }
}
impl Drop for KTok {
    fn drop(&mut self) {
        T.with(|t| {
            let mut t = t.borrow_mut();
            let i = self.0 as usize;
            if i >= t.keys.len() || !t.keys[i] {
                t.double_drop = Some(format!("key instance {i} dropped twice"));
                return;
            }
            t.keys[i] = false;
            t.live_keys -= 1;
        })
    }
}
struct VTok(u32);
impl VTok {
    fn new() -> Self {
        T.with(|t| {
            let mut t = t.borrow_mut();
            t.vals.push(true);
            t.live_vals += 1;
            VTok(t.vals.len() as u32 - 1)
        })
    }
}
impl Drop for VTok {
    fn drop(&mut self) {
        T.with(|t| {
            let mut t = t.borrow_mut();
            let i = self.0 as usize;
            if i >= t.vals.len() || !t.vals[i] {
                t.double_drop = Some(format!("value instance {i} dropped twice"));
                return;
            }
            t.vals[i] = false;
            t.live_vals -= 1;
        })
    }
}

/// Borrowed form of a key, from which owned keys can be made.
#[derive(PartialEq, Eq, Hash, Debug)]
pub struct KQ(pub u8);

/// Owned key. Equality and hash depend on the id only.
pub struct K {
    q: KQ,
    tok: KTok,
}
impl K {
    pub fn new(id: u8) -> Self {
        K {
            q: KQ(id),
            tok: KTok::new(),
        }
    }
    pub fn id(&self) -> u8 {
        self.q.0
    }
    pub fn inst(&self) -> u32 {
        self.tok.0
    }
}
impl Clone for K {
    fn clone(&self) -> Self {
        point(Point::Copy);
        K::new(self.q.0)
    }
}
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        self.q == o.q
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.q.hash(h)
    }
}
impl fmt::Debug for K {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}", self.q.0)
    }
}
impl Borrow<KQ> for K {
    fn borrow(&self) -> &KQ {
        &self.q
    }
}
impl ToOwned for KQ {
    type Owned = K;
    fn to_owned(&self) -> K {
        point(Point::Copy);
        K::new(self.0)
    }
}
/// Another form of a key that is only equivalent, not borrowed.
pub struct KE(pub u8);
impl Hash for KE {
    fn hash<H: Hasher>(&self, h: &mut H) {
        KQ(self.0).hash(h)
    }
}
impl Equivalent<K> for KE {
    fn equivalent(&self, k: &K) -> bool {
        self.0 == k.id()
    }
}

/// What `before_evict` does to a value.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rescue {
    No,
    /// becomes weightless
    Zero,
    /// becomes this heavy
    To(u8),
}

/// Everything about a value the cache can react to.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Class {
    pub w: u8,
    pub pinned: bool,
    pub rescue: Rescue,
}
pub const fn w(w: u8) -> Class {
    Class {
        w,
        pinned: false,
        rescue: Rescue::No,
    }
}
pub const fn pin(w: u8) -> Class {
    Class {
        w,
        pinned: true,
        rescue: Rescue::No,
    }
}
pub const fn zeroed(w: u8) -> Class {
    Class {
        w,
        pinned: false,
        rescue: Rescue::Zero,
    }
}
pub const fn shrunk(w: u8, to: u8) -> Class {
    Class {
        w,
        pinned: false,
        rescue: Rescue::To(to),
    }
}
impl fmt::Debug for Class {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "w{}", self.w)?;
        if self.pinned {
            write!(f, "pinned")?;
        }
        match self.rescue {
            Rescue::No => Ok(()),
            Rescue::Zero => write!(f, "zeroed"),
            Rescue::To(t) => write!(f, "shrinks{t}"),
        }
    }
}

/// A value. The uid identifies what was stored and is not part of the state the exploration compares.
pub struct V {
    pub uid: u32,
    pub c: Class,
    _tok: VTok,
}
impl V {
    pub fn new(uid: u32, c: Class) -> Self {
        V {
            uid,
            c,
            _tok: VTok::new(),
        }
    }
}
impl Clone for V {
    fn clone(&self) -> Self {
        point(Point::Copy);
        V::new(self.uid, self.c)
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "V({},{},{:?})", self.c.w, self.c.pinned, self.c.rescue)
    }
}

/// Weight of a value, plus one for key 0 if `bonus` (unless weightless).
#[derive(Clone, Copy, Debug)]
pub struct W {
    pub bonus: bool,
    pub scale: u64,
}
impl W {
    pub fn of(&self, k: u8, c: Class) -> u64 {
        if c.w == 0 {
            0
        } else {
            c.w as u64 * self.scale + (self.bonus && k == 0) as u64
        }
    }
}
impl Weighter<K, V> for W {
    fn weight(&self, k: &K, v: &V) -> u64 {
        self.of(k.id(), v.c)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HashKind {
    /// injective, all bits used
    Spread,
    /// injective, identical high and middle bits, differs in the low bits only
    Low,
    /// all keys collide
    Const,
    /// two classes
    Two,
    /// zero for all keys
    Zero,
    /// injective, the shard is picked by the lowest bits of the key
    Wide,
}
#[derive(Clone, Copy)]
pub struct HB(pub HashKind);
impl fmt::Debug for HB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "HB")
    }
}
pub struct HS(HashKind, u64);
impl HB {
    pub fn of(&self, id: u8) -> u64 {
        let id = id as u64;
        match self.0 {
            HashKind::Spread => (id + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(7),
            HashKind::Low => 0xABCD_EF01_0000_0000 | id,
            HashKind::Const => 0x1234_5678_9ABC_DEF0,
            HashKind::Two => {
                if id % 2 == 0 {
                    0x1111_2222_3333_4444
                } else {
                    0x9999_8888_7777_6666
                }
            }
            HashKind::Zero => 0,
            // consecutive keys in different shards
            HashKind::Wide => (id << 32 | (id & 1) << 57 | id ^ 5).wrapping_add(3 << 60),
        }
    }
}
impl BuildHasher for HB {
    type Hasher = HS;
    fn build_hasher(&self) -> HS {
        HS(self.0, 0)
    }
}
impl Hasher for HS {
    fn finish(&self) -> u64 {
        HB(self.0).of(self.1 as u8)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = *x as u64;
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.1 = i as u64;
    }
}

/// Records every hook call.
#[derive(Clone, Copy)]
pub struct L(pub W);
impl fmt::Debug for L {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "L")
    }
}
pub struct Req(pub u32);
impl Drop for Req {
    fn drop(&mut self) {
        log(Event::DropState(self.0));
    }
}
impl Lifecycle<K, V> for L {
    type RequestState = Req;
    fn is_pinned(&self, _k: &K, v: &V) -> bool {
        v.c.pinned
    }
    fn begin_request(&self) -> Req {
        point(Point::Hook);
        let r = T.with(|t| {
            let mut t = t.borrow_mut();
            t.next_req += 1;
            t.next_req
        });
        log(Event::Begin(r));
        Req(r)
    }
    fn before_evict(&self, s: &mut Req, k: &K, v: &mut V) {
        match v.c.rescue {
            Rescue::No => (),
            Rescue::Zero => v.c = w(0),
            Rescue::To(to) => v.c = w(to),
        }
        log(Event::Before {
            r: s.0,
            k: k.id(),
            uid: v.uid,
            w: self.0.of(k.id(), v.c),
        });
    }
    fn on_evict(&self, s: &mut Req, k: K, v: V) {
        log(Event::Evict {
            r: s.0,
            k: k.id(),
            uid: v.uid,
            w: self.0.of(k.id(), v.c),
            pinned: v.c.pinned,
        });
        point(Point::Hook);
    }
    fn end_request(&self, s: Req) {
        log(Event::End(s.0));
        std::mem::forget(s);
        point(Point::Hook);
    }
}
