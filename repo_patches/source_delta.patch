From 8c28e96520fb69cca6efc297a3b7763e2bf7b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 01/12] hook: scheduler-driven sync primitives behind
 cfg(quick_cache_mc)

---
 src/lib.rs              |   7 +-
 src/mc.rs               | 435 ++++++++++++++++++++++++++++++++++++++++
 src/shim.rs             |   9 +-
 src/sync_placeholder.rs |   3 +-
 4 files changed, 450 insertions(+), 4 deletions(-)
 create mode 100644 src/mc.rs

diff --git a/src/lib.rs b/src/lib.rs
index ddc0cfe..b9ee0b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,13 +53,18 @@
 //! implementation instead.
 #![allow(clippy::type_complexity)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
+// quick_cache_mc and quick_cache_verif guard instrumentation for model checking
+#![allow(unexpected_cfgs)]
 
 #[cfg(not(fuzzing))]
 mod linked_slab;
 #[cfg(fuzzing)]
 pub mod linked_slab;
+#[cfg(quick_cache_mc)]
+#[doc(hidden)]
+pub mod mc;
 mod options;
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(any(feature = "shuttle", quick_cache_mc)))]
 mod rw_lock;
 mod shard;
 mod shim;
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..b7c0659
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,435 @@
+//! Synchronization primitives driven by an external scheduler.
+//!
+//! Only compiled with `--cfg quick_cache_mc`, for model checking. Every operation that other threads can
+//! observe is announced to the [`Runtime`] registered for the current OS thread, which decides when it takes
+//! place. Without a registered runtime the primitives behave like uncontended ones.
+use std::cell::Cell;
+
+/// An operation that is about to take place.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+pub enum Op {
+    /// Acquire the lock in shared mode, blocks.
+    LockRead(u64),
+    /// Acquire the lock in exclusive mode, blocks.
+    LockWrite(u64),
+    /// Acquire the lock in shared mode, or fail.
+    TryLockRead(u64),
+    /// Acquire the lock in exclusive mode, or fail.
+    TryLockWrite(u64),
+    UnlockRead(u64),
+    UnlockWrite(u64),
+    /// Atomic read of an object with that many bits.
+    AtomicRead(u64, u32),
+    /// Atomic write or read-modify-write of an object with that many bits.
+    AtomicWrite(u64, u32),
+    Park,
+    /// Park for at most that many nanoseconds.
+    ParkTimeout(u64),
+    /// Unpark the thread with that id.
+    Unpark(u64),
+    Yield,
+    /// Sleep for that many nanoseconds.
+    Sleep(u64),
+}
+
+pub trait Runtime {
+    /// Returns once `op` took place. The result is only meaningful for the try operations.
+    fn op(&self, op: Op) -> bool;
+    /// Id of the current thread.
+    fn current(&self) -> u64;
+    /// Current time in nanoseconds.
+    fn now(&self) -> u64;
+}
+
+thread_local! {
+    static RUNTIME: Cell<Option<&'static dyn Runtime>> = const { Cell::new(None) };
+    static NEXT_ID: Cell<u64> = const { Cell::new(1) };
+}
+
+/// Registers the runtime for the current OS thread.
+pub fn set_runtime(rt: Option<&'static dyn Runtime>) {
+    RUNTIME.with(|r| r.set(rt));
+}
+
+/// Restarts the numbering of synchronization objects created by the current OS thread.
+pub fn reset_ids() {
+    NEXT_ID.with(|n| n.set(1));
+}
+
+fn new_id() -> u64 {
+    NEXT_ID.with(|n| n.replace(n.get() + 1))
+}
+
+fn op(op: Op) -> bool {
+    RUNTIME.with(|r| r.get()).is_none_or(|rt| rt.op(op))
+}
+
+pub mod rw_lock {
+    use super::{new_id, op, Op};
+    use std::{
+        cell::UnsafeCell,
+        ops::{Deref, DerefMut},
+    };
+
+    pub struct RwLock<T: ?Sized> {
+        id: u64,
+        data: UnsafeCell<T>,
+    }
+
+    // Safety: the runtime only grants compatible accesses at any given time.
+    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
+    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
+
+    pub struct RwLockReadGuard<'rwlock, T: ?Sized>(&'rwlock RwLock<T>);
+    pub struct RwLockWriteGuard<'rwlock, T: ?Sized>(&'rwlock RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub fn new(t: T) -> Self {
+            Self {
+                id: new_id(),
+                data: UnsafeCell::new(t),
+            }
+        }
+
+        pub fn into_inner(self) -> T {
+            self.data.into_inner()
+        }
+    }
+
+    impl<T: ?Sized> RwLock<T> {
+        pub fn read(&self) -> RwLockReadGuard<'_, T> {
+            op(Op::LockRead(self.id));
+            RwLockReadGuard(self)
+        }
+
+        pub fn write(&self) -> RwLockWriteGuard<'_, T> {
+            op(Op::LockWrite(self.id));
+            RwLockWriteGuard(self)
+        }
+
+        pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
+            op(Op::TryLockRead(self.id)).then(|| RwLockReadGuard(self))
+        }
+
+        pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
+            op(Op::TryLockWrite(self.id)).then(|| RwLockWriteGuard(self))
+        }
+
+        pub fn get_mut(&mut self) -> &mut T {
+            self.data.get_mut()
+        }
+    }
+
+    impl<T: Default> Default for RwLock<T> {
+        fn default() -> Self {
+            Self::new(T::default())
+        }
+    }
+
+    impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            f.debug_struct("RwLock").finish_non_exhaustive()
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
+        fn drop(&mut self) {
+            op(Op::UnlockRead(self.0.id));
+        }
+    }
+
+    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
+        fn drop(&mut self) {
+            op(Op::UnlockWrite(self.0.id));
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            // Safety: shared access was granted until the guard drops
+            unsafe { &*self.0.data.get() }
+        }
+    }
+
+    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            // Safety: exclusive access was granted until the guard drops
+            unsafe { &*self.0.data.get() }
+        }
+    }
+
+    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            // Safety: exclusive access was granted until the guard drops
+            unsafe { &mut *self.0.data.get() }
+        }
+    }
+}
+
+pub mod sync {
+    pub use std::sync::*;
+
+    use super::rw_lock::{self, RwLockWriteGuard};
+
+    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(rw_lock::RwLock<T>);
+
+    impl<T> Mutex<T> {
+        pub fn new(t: T) -> Self {
+            Self(rw_lock::RwLock::new(t))
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            Ok(self.0.write())
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            self.0.try_write().ok_or(TryLockError::WouldBlock)
+        }
+
+        pub fn into_inner(self) -> LockResult<T> {
+            Ok(self.0.into_inner())
+        }
+    }
+
+    pub mod atomic {
+        pub use std::sync::atomic::{compiler_fence, fence, Ordering};
+
+        use crate::mc::{new_id, op, Op};
+
+        macro_rules! common {
+            ($name:ident, $ty:ty, $bits:expr) => {
+                pub struct $name {
+                    id: u64,
+                    value: std::sync::atomic::$name,
+                }
+
+                impl $name {
+                    pub fn new(value: $ty) -> Self {
+                        Self {
+                            id: new_id(),
+                            value: std::sync::atomic::$name::new(value),
+                        }
+                    }
+                    pub fn get_mut(&mut self) -> &mut $ty {
+                        self.value.get_mut()
+                    }
+                    pub fn into_inner(self) -> $ty {
+                        self.value.into_inner()
+                    }
+                    pub fn load(&self, o: Ordering) -> $ty {
+                        op(Op::AtomicRead(self.id, $bits));
+                        self.value.load(o)
+                    }
+                    pub fn store(&self, v: $ty, o: Ordering) {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.store(v, o)
+                    }
+                    pub fn swap(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.swap(v, o)
+                    }
+                    pub fn compare_exchange(
+                        &self,
+                        c: $ty,
+                        n: $ty,
+                        s: Ordering,
+                        f: Ordering,
+                    ) -> Result<$ty, $ty> {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.compare_exchange(c, n, s, f)
+                    }
+                    pub fn compare_exchange_weak(
+                        &self,
+                        c: $ty,
+                        n: $ty,
+                        s: Ordering,
+                        f: Ordering,
+                    ) -> Result<$ty, $ty> {
+                        self.compare_exchange(c, n, s, f)
+                    }
+                    #[allow(deprecated)]
+                    pub fn fetch_update(
+                        &self,
+                        s: Ordering,
+                        f: Ordering,
+                        u: impl FnMut($ty) -> Option<$ty>,
+                    ) -> Result<$ty, $ty> {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.fetch_update(s, f, u)
+                    }
+                    pub fn fetch_and(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.fetch_and(v, o)
+                    }
+                    pub fn fetch_or(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.fetch_or(v, o)
+                    }
+                    pub fn fetch_xor(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, $bits));
+                        self.value.fetch_xor(v, o)
+                    }
+                }
+
+                impl Default for $name {
+                    fn default() -> Self {
+                        Self::new(Default::default())
+                    }
+                }
+
+                impl From<$ty> for $name {
+                    fn from(value: $ty) -> Self {
+                        Self::new(value)
+                    }
+                }
+
+                impl std::fmt::Debug for $name {
+                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                        self.value.fmt(f)
+                    }
+                }
+            };
+        }
+
+        macro_rules! integer {
+            ($name:ident, $ty:ty) => {
+                common!($name, $ty, <$ty>::BITS);
+
+                impl $name {
+                    pub fn fetch_add(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, <$ty>::BITS));
+                        self.value.fetch_add(v, o)
+                    }
+                    pub fn fetch_sub(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, <$ty>::BITS));
+                        self.value.fetch_sub(v, o)
+                    }
+                    pub fn fetch_max(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, <$ty>::BITS));
+                        self.value.fetch_max(v, o)
+                    }
+                    pub fn fetch_min(&self, v: $ty, o: Ordering) -> $ty {
+                        op(Op::AtomicWrite(self.id, <$ty>::BITS));
+                        self.value.fetch_min(v, o)
+                    }
+                }
+            };
+        }
+
+        common!(AtomicBool, bool, 1);
+        integer!(AtomicU8, u8);
+        integer!(AtomicU16, u16);
+        integer!(AtomicU32, u32);
+        integer!(AtomicU64, u64);
+        integer!(AtomicUsize, usize);
+    }
+}
+
+pub mod thread {
+    pub use std::thread::*;
+
+    use super::{op, Op, RUNTIME};
+    use std::time::Duration;
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
+    pub struct ThreadId(u64);
+
+    #[derive(Debug, Clone)]
+    pub struct Thread(u64);
+
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            ThreadId(self.0)
+        }
+
+        pub fn unpark(&self) {
+            op(Op::Unpark(self.0));
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(RUNTIME.with(|r| r.get()).map_or(0, |rt| rt.current()))
+    }
+
+    pub fn park() {
+        op(Op::Park);
+    }
+
+    pub fn park_timeout(dur: Duration) {
+        op(Op::ParkTimeout(dur.as_nanos().min(u64::MAX as u128) as u64));
+    }
+
+    pub fn yield_now() {
+        op(Op::Yield);
+    }
+
+    pub fn sleep(dur: Duration) {
+        op(Op::Sleep(dur.as_nanos().min(u64::MAX as u128) as u64));
+    }
+}
+
+pub mod time {
+    pub use std::time::*;
+
+    use super::RUNTIME;
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            let now = RUNTIME.with(|r| r.get()).map_or(0, |rt| rt.now());
+            Self(Duration::from_nanos(now))
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.0.saturating_sub(earlier.0)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, dur: Duration) -> Option<Self> {
+            self.0.checked_add(dur).map(Self)
+        }
+
+        pub fn checked_sub(&self, dur: Duration) -> Option<Self> {
+            self.0.checked_sub(dur).map(Self)
+        }
+    }
+
+    impl std::ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, dur: Duration) -> Self {
+            Self(self.0 + dur)
+        }
+    }
+
+    impl std::ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, dur: Duration) -> Self {
+            Self(self.0 - dur)
+        }
+    }
+
+    impl std::ops::Sub for Instant {
+        type Output = Duration;
+        fn sub(self, earlier: Self) -> Duration {
+            self.duration_since(earlier)
+        }
+    }
+}
diff --git a/src/shim.rs b/src/shim.rs
index b2ec18d..ebbba8f 100644
--- a/src/shim.rs
+++ b/src/shim.rs
@@ -1,10 +1,15 @@
 #![allow(dead_code)]
 
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(any(feature = "shuttle", quick_cache_mc)))]
 pub(crate) use crate::rw_lock;
-#[cfg(not(feature = "shuttle"))]
+#[cfg(not(quick_cache_mc))]
+pub use std::time;
+#[cfg(not(any(feature = "shuttle", quick_cache_mc)))]
 pub use std::{sync, thread};
 
+#[cfg(quick_cache_mc)]
+pub use crate::mc::{rw_lock, sync, thread, time};
+
 #[cfg(feature = "shuttle")]
 pub use shuttle::*;
 
diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..e1184c6 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -2,7 +2,7 @@ use std::{
     future::Future,
     hash::{BuildHasher, Hash},
     task::Poll,
-    time::{Duration, Instant},
+    time::Duration,
 };
 
 use crate::{
@@ -15,6 +15,7 @@ use crate::{
             Arc,
         },
         thread,
+        time::Instant,
     },
     Equivalent, Lifecycle, Weighter,
 };
-- 
2.43.0


From 29985d70471c5dd0d5820f73a4624ded0b4fd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 02/12] hook: dump of the internal state behind
 cfg(quick_cache_verif)

---
 src/shard.rs  |  2 ++
 src/sync.rs   | 14 ++++++++++++++
 src/unsync.rs | 12 ++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..a33fa80 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -63,6 +63,7 @@ struct Placeholder<Key, Plh> {
 }
 
 #[derive(Clone)]
+#[cfg_attr(quick_cache_verif, derive(Debug))]
 enum Entry<Key, Val, Plh> {
     Resident(Resident<Key, Val>),
     Placeholder(Placeholder<Key, Plh>),
@@ -72,6 +73,7 @@ enum Entry<Key, Val, Plh> {
 /// A bounded cache using a modified CLOCK-PRO eviction policy.
 /// The implementation allows some parallelism as gets don't require exclusive access.
 /// Any evicted items are returned so they can be dropped by the caller, outside the locks.
+#[cfg_attr(quick_cache_verif, derive(Debug))]
 pub struct CacheShard<Key, Val, We, B, L, Plh> {
     hash_builder: B,
     /// Map to an entry in the `entries` slab.
diff --git a/src/sync.rs b/src/sync.rs
index eb0e806..d7c0546 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -427,6 +427,20 @@ impl<
     }
 }
 
+#[cfg(quick_cache_verif)]
+impl<Key, Val, We, B, L> Cache<Key, Val, We, B, L>
+where
+    CacheShard<Key, Val, We, B, L, SharedPlaceholder<Val>>: std::fmt::Debug,
+{
+    /// Writes the complete internal state, for verification only.
+    #[doc(hidden)]
+    pub fn verif_dump(&self, out: &mut dyn std::fmt::Write) {
+        for shard in &*self.shards {
+            writeln!(out, "{:?}", *shard.read()).unwrap();
+        }
+    }
+}
+
 impl<Key, Val, We, B, L> std::fmt::Debug for Cache<Key, Val, We, B, L> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("Cache").finish_non_exhaustive()
diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..35fe743 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -379,6 +379,18 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
     }
 }
 
+#[cfg(quick_cache_verif)]
+impl<Key, Val, We, B, L> Cache<Key, Val, We, B, L>
+where
+    CacheShard<Key, Val, We, B, L, SharedPlaceholder>: std::fmt::Debug,
+{
+    /// Writes the complete internal state, for verification only.
+    #[doc(hidden)]
+    pub fn verif_dump(&self, out: &mut dyn std::fmt::Write) {
+        write!(out, "{:?}", self.shard).unwrap();
+    }
+}
+
 impl<Key, Val, We, B, L> std::fmt::Debug for Cache<Key, Val, We, B, L> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("Cache").finish_non_exhaustive()
-- 
2.43.0


From 2413d980a36b5e194206986a678ca12332a25cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 03/12] fix: free the slot of abandoned placeholders

remove_placeholder only removed the placeholder from the map, the slab slot and the key it holds
were never reused, so every abandoned guard leaked memory until the cache was cleared.
---
 src/shard.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index a33fa80..aa3874c 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -184,6 +184,8 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            // the placeholder isn't linked to any list
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From 973f5082812b1526cee6a883a4f1c12a89cfa179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 04/12] fix: don't leave a placeholder behind if an unsync
 get_or_insert_with closure fails

The placeholder of a failed load stayed in the map forever, so loads failing for ever new keys
grew the cache without bound.
---
 src/unsync.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 35fe743..b846a0e 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -252,12 +252,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                self.shard.lifecycle.end_request(lcs);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                plh.idx
+                let idx = plh.idx;
+                // removes the placeholder if `with` fails
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token(idx))
@@ -278,12 +281,15 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
-                let mut lcs = self.shard.lifecycle.begin_request();
-                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
-                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-                self.shard.lifecycle.end_request(lcs);
-                plh.idx
+                let idx = plh.idx;
+                // removes the placeholder if `with` fails
+                let guard = Guard {
+                    cache: self,
+                    placeholder: plh,
+                    inserted: false,
+                };
+                guard.insert(with()?);
+                idx
             }
         };
         Ok(self.shard.peek_token_mut(idx).map(RefMut))
-- 
2.43.0


From 97c48c55c5b2fd1147d3a986edadf2780555c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 05/12] fix: count the miss of get_value_or_guard once

The fast path of get_value_or_guard and get_value_or_guard_async recorded a miss and then
upsert_placeholder recorded another miss, or a hit, for the same lookup.
---
 src/shard.rs | 32 ++++++++++++++++++++------------
 src/sync.rs  |  4 ++--
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index aa3874c..9224a5d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -493,20 +493,28 @@ impl<
     where
         Q: Hash + Equivalent<Key> + ?Sized,
     {
-        if let Some((_, resident)) = self.search_resident(hash, key) {
-            let referenced = resident.referenced.load(atomic::Ordering::Relaxed);
-            // Attempt to avoid contention on hot items, which may have their counters maxed out
-            if referenced < MAX_F {
-                // While extremely unlikely, this increment can theoretically overflow.
-                // Even if that happens there's no impact correctness wise.
-                resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
-            }
-            record_hit!(self);
-            Some(&resident.value)
-        } else {
+        let value = self.get_hit(hash, key);
+        if value.is_none() {
             record_miss!(self);
-            None
         }
+        value
+    }
+
+    /// Same as `get` but doesn't record a miss, for lookups that continue with `upsert_placeholder`.
+    pub fn get_hit<Q>(&self, hash: u64, key: &Q) -> Option<&Val>
+    where
+        Q: Hash + Equivalent<Key> + ?Sized,
+    {
+        let (_, resident) = self.search_resident(hash, key)?;
+        let referenced = resident.referenced.load(atomic::Ordering::Relaxed);
+        // Attempt to avoid contention on hot items, which may have their counters maxed out
+        if referenced < MAX_F {
+            // While extremely unlikely, this increment can theoretically overflow.
+            // Even if that happens there's no impact correctness wise.
+            resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
+        }
+        record_hit!(self);
+        Some(&resident.value)
     }
 
     pub fn get_mut<Q>(&mut self, hash: u64, key: &Q) -> Option<RefMut<'_, Key, Val, We, B, L, Plh>>
diff --git a/src/sync.rs b/src/sync.rs
index d7c0546..c2b6627 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -358,7 +358,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_hit(hash, key) {
             return GuardResult::Value(v.clone());
         }
         PlaceholderGuard::join(&self.lifecycle, shard, hash, key, timeout)
@@ -401,7 +401,7 @@ impl<
         Q: Hash + Equivalent<Key> + ToOwned<Owned = Key> + ?Sized,
     {
         let (shard, hash) = self.shard_for(key).unwrap();
-        if let Some(v) = shard.read().get(hash, key) {
+        if let Some(v) = shard.read().get_hit(hash, key) {
             return Ok(v.clone());
         }
         JoinFuture::new(&self.lifecycle, shard, hash, key).await
-- 
2.43.0


From 9bc07a818e415e1dd1b40fce8814dc7a82bc37d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 06/12] fix: park for the remaining time in get_value_or_guard

The waiter parked for the time that had already elapsed instead of the time left, so it first spun
and then could overshoot the timeout by up to its whole duration.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index e1184c6..b3cbd50 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -239,7 +239,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0


From 6f073518bdf78204ce4c28403636b4ce46470ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:53 +0000
Subject: [PATCH 07/12] fix: an overweight insert makes a pending load of its
 key obsolete

Inserting a value that is too heavy to be admitted removed a resident value of the key but left a
placeholder alone, so a load started before the insert could still store its older value.
---
 src/shard.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9224a5d..da3a137 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1009,9 +1009,17 @@ impl<
         strategy: InsertStrategy,
     ) -> Result<(), (Key, Val)> {
         // Make sure to remove any existing entry
-        if let Some((idx, _)) = self.search_resident(hash, &key) {
-            if let Some((ek, ev)) = self.remove_internal(hash, idx) {
-                self.lifecycle.on_evict(lcs, ek, ev);
+        if let Some(idx) = self.search(hash, &key) {
+            let remove = match self.entries.get(idx) {
+                Some((Entry::Resident(_), _)) => true,
+                // As with any other insert, a pending load of the key is obsolete from now on
+                Some((Entry::Placeholder(_), _)) => matches!(strategy, InsertStrategy::Insert),
+                _ => false,
+            };
+            if remove {
+                if let Some((ek, ev)) = self.remove_internal(hash, idx) {
+                    self.lifecycle.on_evict(lcs, ek, ev);
+                }
             }
         }
         if matches!(strategy, InsertStrategy::Replace { .. }) {
-- 
2.43.0


From 1fe6bba257e302845ddfef67607bc5d32caa5195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:11 +0000
Subject: [PATCH 08/12] hook: entries the hash table lost, behind
 cfg(quick_cache_verif_map)

---
 src/shard.rs  | 19 +++++++++++++++++++
 src/sync.rs   | 13 +++++++++++++
 src/unsync.rs | 11 +++++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index da3a137..3cf11c4 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1087,6 +1087,25 @@ impl<
     }
 }
 
+#[cfg(quick_cache_verif_map)]
+impl<Key: Hash, Val, We, B: BuildHasher, L, Plh> CacheShard<Key, Val, We, B, L, Plh> {
+    /// Entries that the map doesn't find under their own hash, for verification only.
+    pub fn verif_misplaced(&self) -> Vec<Token> {
+        let misplaced = |&&idx: &&Token| {
+            let hash = match self.entries.get(idx) {
+                Some((Entry::Resident(Resident { key, .. }), _))
+                | Some((Entry::Placeholder(Placeholder { key, .. }), _)) => {
+                    self.hash_builder.hash_one(key)
+                }
+                Some((Entry::Ghost(hash), _)) => *hash,
+                None => return true,
+            };
+            self.map.find(hash, |&i| i == idx).is_none()
+        };
+        self.map.iter().filter(misplaced).copied().collect()
+    }
+}
+
 /// Structure wrapping a mutable reference to a cached item.
 pub struct RefMut<'cache, Key, Val, We: Weighter<Key, Val>, B, L, Plh: SharedPlaceholder> {
     cache: &'cache mut CacheShard<Key, Val, We, B, L, Plh>,
diff --git a/src/sync.rs b/src/sync.rs
index c2b6627..6c2392e 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -441,6 +441,19 @@ where
     }
 }
 
+#[cfg(quick_cache_verif_map)]
+impl<Key: Hash, Val, We, B: BuildHasher, L> Cache<Key, Val, We, B, L> {
+    /// Writes which entries the hash tables don't find, for verification only.
+    #[doc(hidden)]
+    pub fn verif_misplaced(&self, out: &mut dyn std::fmt::Write) {
+        for (i, shard) in self.shards.iter().enumerate() {
+            for idx in shard.read().verif_misplaced() {
+                write!(out, "misplaced {i} {idx} ").unwrap();
+            }
+        }
+    }
+}
+
 impl<Key, Val, We, B, L> std::fmt::Debug for Cache<Key, Val, We, B, L> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("Cache").finish_non_exhaustive()
diff --git a/src/unsync.rs b/src/unsync.rs
index b846a0e..82de798 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -397,6 +397,17 @@ where
     }
 }
 
+#[cfg(quick_cache_verif_map)]
+impl<Key: Hash, Val, We, B: BuildHasher, L> Cache<Key, Val, We, B, L> {
+    /// Writes which entries the hash table doesn't find, for verification only.
+    #[doc(hidden)]
+    pub fn verif_misplaced(&self, out: &mut dyn std::fmt::Write) {
+        for idx in self.shard.verif_misplaced() {
+            write!(out, "misplaced {idx} ").unwrap();
+        }
+    }
+}
+
 impl<Key, Val, We, B, L> std::fmt::Debug for Cache<Key, Val, We, B, L> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("Cache").finish_non_exhaustive()
-- 
2.43.0


From 6b5b42c54e29023412da6549b15c6398324a6f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:29 +0000
Subject: [PATCH 09/12] fix: making an entry weightless moved the hand of the
 clock

---
 src/shard.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 3cf11c4..78dc1e9 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -205,7 +205,10 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
         if old_weight == 0 && new_weight != 0 {
             *target_head = Some(self.entries.link(idx, *target_head));
         } else if old_weight != 0 && new_weight == 0 {
-            *target_head = self.entries.unlink(idx);
+            let next = self.entries.unlink(idx);
+            if *target_head == Some(idx) {
+                *target_head = next;
+            }
         }
     }
 }
@@ -810,7 +813,10 @@ impl<
                 if evicted_weight == 0 && weight != 0 {
                     *list_head = Some(self.entries.link(idx, *list_head));
                 } else if evicted_weight != 0 && weight == 0 {
-                    *list_head = self.entries.unlink(idx);
+                    let next = self.entries.unlink(idx);
+                    if *list_head == Some(idx) {
+                        *list_head = next;
+                    }
                 }
                 self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
             }
-- 
2.43.0


From 64adc19423e0f27efb412b1a8aa54f398634932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:29 +0000
Subject: [PATCH 10/12] fix: a panic in on_evict left a dangling entry in the
 hash table

---
 src/shard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 78dc1e9..fd9ee17 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -730,8 +730,8 @@ impl<
                     unsafe { core::hint::unreachable_unchecked() };
                 };
                 self.hot_head = next;
-                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
                 self.map_remove(hash, idx);
+                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
             }
             return true;
         }
-- 
2.43.0


From c7ce04ad5f9dc4b3b9e1b5c3dbf96116d08f087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:29 +0000
Subject: [PATCH 11/12] fix: a panic in begin_request left a load pending for
 ever

---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index b3cbd50..1bd33c4 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -299,6 +299,7 @@ impl<
     /// A placeholder can be removed as a result of a `remove` call
     /// or a non-placeholder `insert` with the same key.
     pub fn insert_with_lifecycle(mut self, value: Val) -> Result<L::RequestState, Val> {
+        let mut lcs = self.lifecycle.begin_request();
         let referenced;
         {
             let mut state = self.shared.state.write();
@@ -315,7 +316,6 @@ impl<
         //   - the placeholder will be removed here, if it still exists
         self.inserted = true;
 
-        let mut lcs = self.lifecycle.begin_request();
         self.shard
             .write()
             .replace_placeholder(&mut lcs, &self.shared, referenced, value)?;
-- 
2.43.0


From 8c15fda3692cffd202ada2df7164e6c10664c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:31 +0000
Subject: [PATCH 12/12] fix: a panic while cloning the value in a notified
 async waiter aborted the process

---
 src/sync_placeholder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 1bd33c4..c76990c 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -477,12 +477,11 @@ impl<
                 ..
             } => {
                 let mut waiter = waiter.write();
-                if waiter.notified {
-                    waiter.notified = false;
-                } else {
+                if !waiter.notified {
                     waiter.waker.clone_from(cx.waker());
                     return Poll::Pending;
                 }
+                // stays notified: if cloning the value panics there's nothing for drop to unregister
                 // drop waiter first to avoid deadlock due to lock order
                 drop(waiter);
                 Err(shard.read())
-- 
2.43.0

