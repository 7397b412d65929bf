//! C15: every point of a grid of configurations.
use crate::types::*;
use crate::world::*;
use quick_cache::{sync, unsync};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct GridResult {
    pub points: u64,
    pub ops: u64,
    pub found: Option<String>,
    pub sample: String,
}

fn point(cfg: &Cfg) -> Result<u64, String> {
    reset();
    let mut ops = 0;
    let mut w = World::new(cfg);
    let (n, sc) = match &w.s {
        Some(s) => (s.num_shards() as u64, s.shard_capacity()),
        None => (1, cfg.cap),
    };
    let tc = w.observe(0).cap;
    if !n.is_power_of_two() || n > cfg.shards.next_power_of_two() as u64 {
        return Err(format!("num_shards() is {n}"));
    }
    if sc.checked_mul(n) != Some(tc) {
        return Err(format!("capacity() is {tc}, {n} shards of {sc}"));
    }
    // the next multiple of the number of shards may not be representable
    let fits = cfg.cap.checked_add(n - 1).is_some();
    if fits && tc < cfg.cap || tc > cfg.cap.saturating_add(n - 1) || !fits && cfg.cap - tc >= n {
        return Err(format!("capacity() is {tc} with {n} shards"));
    }
    let target = (sc as f64 * cfg.hot) as u64;
    let nk = cfg.nkeys;
    for round in 0..2 {
        for k in 0..nk {
            let cl = crate::types::w(1 + (k + round) % 3);
            let wt = cfg.weigh.of(k, cl);
            let seen = round > 0 || cfg.flavor == Flavor::Sync && k % 2 == 1;
            let out = if k % 2 == 1 { w.exec(Op::Goi(k, Form::Borrowed, Load::Val(cl))) } else { w.exec(Op::Insert(k, cl)) };
            ops += 1;
            let o = w.observe(nk);
            let sum: u64 = (0..nk).filter_map(|k| o.res[k as usize].map(|e| cfg.weigh.of(k, e.1))).sum();
            if let Some(k) = o.disagree {
                return Err(format!("lookups of k{k} disagree"));
            }
            if o.len != o.res.iter().flatten().count() || o.weight != sum || o.empty != (o.len == 0) {
                return Err(format!("len {} weight {} empty {}, resident {:?}", o.len, o.weight, o.empty, o.res));
            }
            if sum > tc {
                return Err(format!("weight {sum} exceeds capacity {tc}"));
            }
            if cfg.hash == HashKind::Const && sum > sc {
                return Err(format!("keys of one shard weigh {sum}, shard capacity {sc}"));
            }
            if wt > target && k % 2 == 0 && o.res[k as usize].is_some() {
                return Err(format!("k{k} of weight {wt} admitted, hot share is {target}"));
            }
            if k % 2 == 0 && wt <= target && !seen && o.res[k as usize].is_none() {
                return Err(format!("k{k} of weight {wt} not resident after insert, hot share is {target}"));
            }
            if k % 2 == 1 && !matches!(out, Out::Loaded(..)) {
                return Err(format!("get_or_insert_with returned {out:?}"));
            }
            // everything fits in any one shard
            let all: u64 = 3 * nk as u64 * cfg.weigh.scale;
            if all <= target && o.len != if round == 0 { k as usize + 1 } else { nk as usize } {
                return Err(format!("{} entries after {} keys though all fit", o.len, k + 1));
            }
        }
        for k in 0..nk {
            let have = w.observe(nk).res[k as usize];
            ops += 2;
            let r = w.exec(Op::Get(k, Form::Equiv));
            if r != Out::Val(have) {
                return Err(format!("get of k{k} returned {r:?}, peek {have:?}"));
            }
        }
    }
    w.exec(Op::Reserve(64));
    let have = w.observe(nk).res[0];
    let r = w.exec(Op::Remove(0, Form::Owned));
    if r != Out::Removed(have.map(|x| (0, x.0))) {
        return Err(format!("remove returned {r:?}, resident was {have:?}"));
    }
    let before = w.observe(nk).res;
    w.exec(Op::Retain(0xAAAA_AAAA_AAAA_AAAA));
    let o = w.observe(nk);
    if (0..nk as usize).any(|k| o.res[k] != if k % 2 == 0 { None } else { before[k] }) {
        return Err(format!("retain left {:?} of {:?}", o.res, before));
    }
    w.exec(Op::Clear);
    let o = w.observe(nk);
    if o.len != 0 || o.weight != 0 || !o.empty || o.res.iter().any(|x| x.is_some()) {
        return Err(format!("not empty after clear: {o:?}"));
    }
    w.exec(Op::Insert(1, crate::types::w(1)));
    let o = w.observe(nk);
    if o.res[1].is_some() != (cfg.weigh.of(1, crate::types::w(1)) <= target) {
        return Err("insert after clear".into());
    }
    take_events();
    w.finish();
    if live() != (0, 0) {
        return Err("keys or values left".into());
    }
    Ok(ops + 5)
}

fn constructors() -> Result<u64, String> {
    let mut n = 0;
    for cap in [0usize, 1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 65, 100, 127, 128, 1000, 4096, 5000] {
        n += 4;
        let c = sync::Cache::<u64, u64>::new(cap);
        let s = c.num_shards() as u64;
        let lo = cap as u64;
        if c.capacity() < lo || c.capacity() > lo + s - 1 || c.capacity() != s * c.shard_capacity() || !s.is_power_of_two() {
            return Err(format!("sync::Cache::new({cap}): capacity {} in {s} shards", c.capacity()));
        }
        for k in 0..20u64 {
            c.insert(k, k);
            if cap >= 64 && c.get(&k) != Some(k) {
                return Err(format!("sync::Cache::new({cap}) does not hold {k}"));
            }
        }
        if c.len() as u64 > c.capacity() {
            return Err(format!("sync::Cache::new({cap}) holds {}", c.len()));
        }
        let mut c = unsync::Cache::<u64, u64>::new(cap);
        if c.capacity() != lo {
            return Err(format!("unsync::Cache::new({cap}): capacity {}", c.capacity()));
        }
        for k in 0..20u64 {
            c.insert(k, k);
        }
        if c.len() as u64 > lo || cap >= 64 && c.len() != 20 {
            return Err(format!("unsync::Cache::new({cap}) holds {}", c.len()));
        }
        #[derive(Clone)]
        struct Ten;
        impl quick_cache::Weighter<u64, u64> for Ten {
            fn weight(&self, _: &u64, _: &u64) -> u64 {
                10
            }
        }
        let wc = cap as u64 * 10;
        let c = sync::Cache::with_weighter(cap, wc, Ten);
        let s = c.num_shards() as u64;
        if c.capacity() < wc || c.capacity() > wc + s - 1 {
            return Err(format!("sync::Cache::with_weighter({cap}, {wc}): capacity {}", c.capacity()));
        }
        let mut c = unsync::Cache::with_weighter(cap, wc, Ten);
        for k in 0..20u64 {
            c.insert(k, k);
        }
        if c.capacity() != wc || c.weight() > wc || c.weight() != 10 * c.len() as u64 || cap >= 64 && c.len() != 20 {
            return Err(format!("unsync::Cache::with_weighter({cap}, {wc}): capacity {} weight {}", c.capacity(), c.weight()));
        }
    }
    Ok(n)
}

/// A weighter that does not depend on the value.
#[derive(Clone)]
struct Mod(u64);
impl quick_cache::Weighter<u64, u64> for Mod {
    fn weight(&self, k: &u64, _: &u64) -> u64 {
        1 + k % self.0
    }
}

type Fixed = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

/// What a cache holds after each step of a history that fills it twice, admits ghosts and tries every weight up to
/// its capacity.
fn footprint_u(o: quick_cache::Options, cap: u64) -> Vec<u64> {
    let mut c = unsync::Cache::<u64, u64, Mod, Fixed, unsync::DefaultLifecycle<u64, u64>>::with_options(o, Mod(3), Fixed::default(), Default::default());
    let mut out = vec![c.capacity()];
    let n = cap.min(300);
    for round in 0..3 {
        for k in 0..2 * n {
            c.insert(k, round);
            if k % 3 == round {
                c.get(&(k / 2));
            }
            out.push(c.len() as u64);
        }
        out.extend((0..2 * n).filter(|k| c.peek(k).is_some()));
    }
    out
}

fn footprint_s(o: quick_cache::Options, cap: u64) -> Vec<u64> {
    let c = sync::Cache::<u64, u64, Mod, Fixed, sync::DefaultLifecycle<u64, u64>>::with_options(o, Mod(3), Fixed::default(), Default::default());
    let mut out = vec![c.capacity(), c.num_shards() as u64];
    let n = cap.min(300);
    for round in 0..3 {
        for k in 0..2 * n {
            c.insert(k, round);
            if k % 3 == round {
                c.get(&(k / 2));
            }
            out.push(c.len() as u64);
        }
        out.extend((0..2 * n).filter(|k| c.peek(k).is_some()));
    }
    out
}

/// The largest weight that is admitted to an empty cache of one shard.
fn threshold(o: quick_cache::Options, cap: u64) -> u64 {
    #[derive(Clone)]
    struct Val;
    impl quick_cache::Weighter<u64, u64> for Val {
        fn weight(&self, _: &u64, v: &u64) -> u64 {
            *v
        }
    }
    let mut best = 0;
    for w in 1..=cap + 1 {
        let mut c = unsync::Cache::with_options(o.clone(), Val, Fixed::default(), unsync::DefaultLifecycle::default());
        c.insert(0, w);
        if c.peek(&0).is_some() {
            best = w;
        }
    }
    best
}

/// Every subset of the setters, in both orders, with and without an earlier setting that is overridden.
fn builders() -> Result<u64, String> {
    use quick_cache::OptionsBuilder;
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let mut n = 0;
    for (items, cap, shards, hot, ghost) in [(100usize, 200u64, 1usize, 0.25, 0.1), (128, 100, 3, 0.97, 1.0), (40, 64, 2, 1.0, 0.0), (4096, 8000, 64, 0.5, 0.5)] {
        let set = |b: &mut OptionsBuilder, f: u32, over: bool| {
            match f {
                0 => b.estimated_items_capacity(if over { items + 50 } else { items }),
                1 => b.weight_capacity(if over { cap * 2 } else { cap }),
                2 => b.shards(if over { shards * 4 } else { shards }),
                3 => b.hot_allocation(if over { 0.125 } else { hot }),
                _ => b.ghost_allocation(if over { 0.75 } else { ghost }),
            };
        };
        for mask in 0..32u32 {
            let mut full = OptionsBuilder::new();
            full.estimated_items_capacity(items).weight_capacity(cap);
            full.shards(if mask & 4 != 0 { shards } else { cores * 4 });
            full.hot_allocation(if mask & 8 != 0 { hot } else { 0.97 });
            full.ghost_allocation(if mask & 16 != 0 { ghost } else { 0.5 });
            let full = full.build().map_err(|e| format!("complete options refused: {e}"))?;
            let want = (footprint_u(full.clone(), cap), footprint_s(full.clone(), cap));
            for style in 0..4 {
                n += 1;
                let mut b = OptionsBuilder::new();
                for over in [true, false] {
                    if over && style < 2 {
                        continue;
                    }
                    for i in 0..5u32 {
                        let f = if style % 2 == 0 { i } else { 4 - i };
                        if mask & 1 << f != 0 {
                            set(&mut b, f, over);
                        }
                    }
                }
                let what = || format!("options {mask:05b} set to {items} {cap} {shards} {hot} {ghost}, style {style}");
                for _ in 0..2 {
                    match b.build() {
                        Err(_) if mask & 3 != 3 => {}
                        Err(e) => return Err(format!("{}: build failed: {e}", what())),
                        Ok(_) if mask & 3 != 3 => return Err(format!("{}: build succeeded", what())),
                        Ok(o) => {
                            if footprint_u(o.clone(), cap) != want.0 {
                                return Err(format!("{}: the unsync cache differs from one with the same values and the documented defaults", what()));
                            }
                            if footprint_s(o, cap) != want.1 {
                                return Err(format!("{}: the sync cache differs from one with the same values and the documented defaults", what()));
                            }
                        }
                    }
                }
            }
        }
        // the hot share decides what is admitted
        let mut b = OptionsBuilder::new();
        b.estimated_items_capacity(items).weight_capacity(cap).hot_allocation(hot);
        let t = threshold(b.build().unwrap(), cap.min(200));
        let want = ((cap as f64 * hot) as u64).min(cap.min(200) + 1);
        if t != want {
            return Err(format!("capacity {cap}, hot share {hot}: weights up to {t} are admitted, not {want}"));
        }
        let t = threshold(OptionsBuilder::new().estimated_items_capacity(items).weight_capacity(200).build().unwrap(), 200);
        if t != 194 {
            return Err(format!("capacity 200, default hot share: weights up to {t} are admitted, not 194"));
        }
        n += 2;
        // the shorthands
        let o = || OptionsBuilder::new().estimated_items_capacity(items).weight_capacity(cap).build().unwrap();
        let same = sync::Cache::with_options(o(), Mod(3), Fixed::default(), sync::DefaultLifecycle::<u64, u64>::default());
        for c in [
            (sync::Cache::<u64, u64, Mod, Fixed>::with(items, cap, Mod(3), Fixed::default(), Default::default()).capacity(), same.capacity()),
            (sync::Cache::<u64, u64, Mod>::with_weighter(items, cap, Mod(3)).capacity(), same.capacity()),
            (sync::Cache::<u64, u64, Mod>::with_weighter(items, cap, Mod(3)).num_shards() as u64, same.num_shards() as u64),
            (unsync::Cache::<u64, u64, Mod, Fixed>::with(items, cap, Mod(3), Fixed::default(), Default::default()).capacity(), cap),
            (unsync::Cache::<u64, u64, Mod>::with_weighter(items, cap, Mod(3)).capacity(), cap),
        ] {
            n += 1;
            if c.0 != c.1 {
                return Err(format!("a shorthand constructor for {items} items, weight {cap} gives {}, with_options {}", c.0, c.1));
            }
        }
    }
    for share in [-1.0, -0.001, 1.001, 2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, f64::MIN_POSITIVE, 0.3, 1.0] {
        for which in [false, true] {
            n += 1;
            let refused = catch_unwind(|| {
                let mut b = OptionsBuilder::new();
                b.estimated_items_capacity(10).weight_capacity(10);
                if which {
                    b.hot_allocation(share);
                } else {
                    b.ghost_allocation(share);
                }
                b.build().is_err()
            })
            .unwrap_or(true);
            if refused != !(0.0..=1.0).contains(&share) {
                return Err(format!("{} share {share}: refused is {refused}", if which { "hot" } else { "ghost" }));
            }
        }
    }
    Ok(n)
}

pub fn grid(thorough: bool) -> GridResult {
    let mut r = GridResult {
        points: 0,
        ops: 0,
        found: None,
        sample: String::new(),
    };
    for f in [constructors, builders] {
        match catch_unwind(f) {
            Ok(Ok(n)) => r.points += n,
            Ok(Err(e)) => {
                r.found = Some(e);
                return r;
            }
            Err(e) => {
                r.found = Some(format!("constructor panicked: {}", crate::explore::panic_text(&*e)));
                return r;
            }
        }
    }
    let mut shards: Vec<usize> = (0..=17).collect();
    shards.extend([31, 32, 33, 64, 100]);
    let mut items = vec![0usize, 1, 2, 31, 32, 33, 63, 64, 65, 96, 97, 128, 255, 256, 257, 1000, 4096, usize::MAX];
    let mut caps = vec![0u64, 1, 2, 3, 7, 31, 32, 33, 64, 100, 127, 1000, u32::MAX as u64, 1 << 32, (1 << 53) + 1, u64::MAX - 100, u64::MAX - 1, u64::MAX];
    if thorough {
        shards.extend([1000, 1024, 1025, 4096]);
        items.extend([3, 16, 127, 129, 511, 512, 513, 1 << 20]);
        caps.extend([4, 5, 6, 8, 15, 16, 17, 63, 65, 255, 256, 257, 10000]);
    }
    let mut points = vec![];
    for flavor in [Flavor::Unsync, Flavor::Sync] {
        for &sh in &shards {
            if flavor == Flavor::Unsync && sh != 1 {
                continue;
            }
            for &it in &items {
                for &cap in &caps {
                    for hot in [0.0, 0.1, 0.5, 0.97, 1.0] {
                        for ghost in [0.0, 0.1, 0.5, 0.97, 1.0] {
                            let wide = sh > 4;
                            if wide && !(hot == 0.97 && ghost == 0.5 || hot == 0.5 && ghost == 1.0) {
                                continue;
                            }
                            let mut c = Cfg::new(flavor, cap, it, hot, ghost, 6);
                            c.shards = sh;
                            if cap > 1 << 40 {
                                c.weigh.scale = 1 << 36;
                            }
                            points.push(c.clone());
                            if sh > 1 && (hot == 0.97 || wide) {
                                // consecutive keys in different shards
                                c.nkeys = 20;
                                c.hash = HashKind::Wide;
                                points.push(c.clone());
                                // all keys in one shard
                                c.hash = HashKind::Const;
                                points.push(c);
                            }
                        }
                    }
                }
            }
        }
    }
    r.sample = points[points.len() / 2].describe();
    let pos = std::sync::atomic::AtomicUsize::new(0);
    let ops = std::sync::atomic::AtomicU64::new(0);
    let found = std::sync::Mutex::new(None::<(usize, String)>);
    use std::sync::atomic::Ordering::*;
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = pos.fetch_add(1, Relaxed);
                if i >= points.len() || found.lock().unwrap().is_some() {
                    break;
                }
                crate::main_progress();
                let e = match catch_unwind(AssertUnwindSafe(|| point(&points[i]))) {
                    Ok(Ok(n)) => {
                        ops.fetch_add(n, Relaxed);
                        continue;
                    }
                    Ok(Err(e)) => e,
                    Err(e) => format!("panicked: {}", crate::explore::panic_text(&*e)),
                };
                let mut f = found.lock().unwrap();
                if f.as_ref().is_none_or(|f| f.0 > i) {
                    *f = Some((i, format!("{}: {e}", points[i].describe())));
                }
            });
        }
    });
    r.points += points.len() as u64;
    r.ops += ops.into_inner();
    r.found = found.into_inner().unwrap().map(|x| x.1);
    r
}
