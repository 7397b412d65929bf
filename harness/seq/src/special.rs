//! Properties that are not about a single step: neutral calls (C11), scans (C12), the reference policy (C13),
//! construction and sharding (C15), memory growth (C17), clones (C18).
use crate::dump::{canon, Canon};
use crate::explore::*;
use crate::model::*;
use crate::types::*;
use crate::world::*;
use std::collections::VecDeque;

fn canon_of(w: &World) -> Canon {
    let mut d = String::new();
    w.dump(&mut d);
    canon(&d, &[])
}

fn resident_keys(w: &World, nkeys: u8) -> Vec<Option<u32>> {
    let o = w.observe(nkeys);
    (0..nkeys).map(|k| o.res[k as usize].map(|_| 1)).collect()
}

pub fn evicted(ev: &[Event]) -> Vec<(u8, bool)> {
    // key and whether it was evicted to make room (as opposed to displaced)
    let mut v: Vec<(u8, bool)> = vec![];
    for (i, e) in ev.iter().enumerate() {
        if let Event::Evict { k, uid, .. } = e {
            let pre = i > 0 && matches!(ev[i - 1], Event::Before { uid: u, .. } if u == *uid);
            v.push((*k, pre));
        }
    }
    v.sort_unstable();
    v
}

/// Looks for a continuation of at most `depth` operations in which the caches behave differently.
fn distinguish(cfg: &Cfg, make: &dyn Fn(&[Op]) -> (World, World), depth: usize, count: &mut u64) -> Option<String> {
    let ops: Vec<Op> = cfg
        .ops
        .iter()
        .copied()
        .filter(|o| matches!(o, Op::Insert(..) | Op::Get(..) | Op::GuardIns(..) | Op::Remove(..)))
        .collect();
    let mut stack: Vec<Vec<Op>> = vec![vec![]];
    let mut budget = 200_000u32;
    let mut i = 0;
    // breadth first, shortest difference first
    while i < stack.len() {
        let p = stack[i].clone();
        i += 1;
        if p.len() >= depth {
            continue;
        }
        for &o in &ops {
            if budget == 0 {
                return None;
            }
            budget -= 1;
            *count += 2 * (p.len() as u64 + 1);
            let (mut a, mut b) = make(&p);
            take_events();
            a.exec(o);
            let ea = evicted(&take_events());
            b.exec(o);
            let eb = evicted(&take_events());
            let (ra, rb) = (resident_keys(&a, cfg.nkeys), resident_keys(&b, cfg.nkeys));
            a.finish();
            b.finish();
            if ea != eb || ra != rb {
                let mut q: Vec<String> = p.iter().map(|o| o.to_string()).collect();
                q.push(o.to_string());
                return Some(format!("continuation [{}]: evicts {ea:?} versus {eb:?}", q.join("; ")));
            }
            let mut q = p.clone();
            q.push(o);
            stack.push(q);
        }
    }
    None
}

/// C11: at every reachable state, every neutral call leaves the state as it was, or at least nothing that can be
/// observed through evictions later differs.
pub fn neutral(cfg: &Cfg, path: &[u16], m: &Model, _c: &Canon, v: &mut Viols) -> u64 {
    let mut count = 0;
    let base = replay(cfg, path);
    let bc = canon_of(&base);
    base.finish();
    let classes: Vec<Class> = {
        let mut l: Vec<Class> = vec![];
        for o in &cfg.ops {
            if let Op::Insert(_, c) = o {
                if !l.contains(c) {
                    l.push(*c)
                }
            }
        }
        l
    };
    let mut ops: Vec<Op> = vec![Op::Iter, Op::Size, Op::Reserve(3), Op::Reserve(100)];
    let total: u64 = (0..cfg.nkeys).filter_map(|k| m.res[k as usize].map(|e| cfg.weigh.of(k, e.1))).sum();
    let mut pairs: Vec<(Op, Op)> = vec![];
    for k in 0..cfg.nkeys {
        for f in [Form::Owned, Form::Borrowed, Form::Equiv] {
            ops.push(Op::Peek(k, f));
            ops.push(Op::Contains(k, f));
        }
        ops.push(Op::PeekMut(k, None));
        match m.res[k as usize] {
            None => {
                ops.push(Op::Get(k, Form::Borrowed));
                ops.push(Op::GetMut(k, None));
                for c in &classes {
                    ops.push(Op::Replace(k, *c, true));
                    ops.push(Op::Replace(k, *c, false));
                }
            }
            Some((_, old)) => {
                for c in &classes {
                    let fits = total - cfg.weigh.of(k, old) + cfg.weigh.of(k, *c) <= cfg.cap;
                    if fits && (c.pinned || cfg.weigh.of(k, *c) <= cfg.hot_target()) {
                        pairs.push((Op::Replace(k, *c, true), Op::PeekMut(k, Some(*c))));
                    }
                }
            }
        }
    }
    if cfg.flavor == Flavor::Sync {
        ops.retain(|o| !matches!(o, Op::Iter | Op::PeekMut(..) | Op::GetMut(..)));
        pairs.clear();
    }
    let run = |extra: Op, rest: &[Op]| {
        let mut w = replay(cfg, path);
        w.exec(extra);
        for o in rest {
            w.exec(*o);
        }
        w
    };
    for o in ops {
        count += 1;
        crumb(path, None);
        let w = run(o, &[]);
        let wc = canon_of(&w);
        w.finish();
        if wc.text != bc.text || bc.text.is_empty() {
            // without a dump only the behaviour can tell
            let make = |p: &[Op]| {
                // uids differ between the two, only keys are compared
                let mut a = World::new(cfg);
                for &i in path {
                    a.exec(cfg.ops[i as usize]);
                }
                let mut b = World::new(cfg);
                for &i in path {
                    b.exec(cfg.ops[i as usize]);
                }
                b.exec(o);
                for x in p {
                    a.exec(*x);
                    b.exec(*x);
                }
                (a, b)
            };
            reset();
            let d = if bc.text.is_empty() { 1 } else { 3 };
            if let Some(d) = distinguish(cfg, &make, d, &mut count) {
                v.push((c(11), format!("{o} influences later evictions: {d}")));
            }
        }
    }
    for (a, b) in pairs {
        count += 2;
        let wa = run(a, &[]);
        let ca = canon_of(&wa);
        wa.finish();
        let wb = run(b, &[]);
        let cb = canon_of(&wb);
        wb.finish();
        if ca.text != cb.text || ca.text.is_empty() {
            let make = |p: &[Op]| {
                let mk = |first: Op| {
                    let mut w = World::new(cfg);
                    for &i in path {
                        w.exec(cfg.ops[i as usize]);
                    }
                    w.exec(first);
                    for x in p {
                        w.exec(*x);
                    }
                    w
                };
                (mk(a), mk(b))
            };
            reset();
            let d = if ca.text.is_empty() { 1 } else { 3 };
            if let Some(d) = distinguish(cfg, &make, d, &mut count) {
                v.push((c(11), format!("{a} influences later evictions differently from {b}: {d}")));
            }
        }
    }
    count
}

/// C18: at every reachable state a clone has the same state, and neither is affected by what is done to the other.
pub fn clones(cfg: &Cfg, path: &[u16], _m: &Model, _c: &Canon, v: &mut Viols) -> u64 {
    let mut count = 0;
    let twin = |w: &World| {
        let mut t = World::new(cfg);
        t.u = Some(Box::new((**w.u.as_ref().unwrap()).clone()));
        t
    };
    {
        let a = replay(cfg, path);
        let b = twin(&a);
        count += 1;
        let (ca, cb) = (canon_of(&a), canon_of(&b));
        let (oa, ob) = (a.observe(cfg.nkeys), b.observe(cfg.nkeys));
        if oa.res != ob.res || oa.len != ob.len || oa.weight != ob.weight || oa.cap != ob.cap || oa.iter != ob.iter || ob.disagree.is_some() {
            v.push((c(18), format!("clone differs: {oa:?} versus {ob:?}")));
        }
        if a.stats() != b.stats() {
            v.push((c(18), format!("clone has statistics {:?} instead of {:?}", b.stats(), a.stats())));
        }
        a.finish();
        b.finish();
        if ca.text != cb.text || ca.text.is_empty() {
            let make = |p: &[Op]| {
                let mut a = World::new(cfg);
                for &i in path {
                    a.exec(cfg.ops[i as usize]);
                }
                let mut b = twin(&a);
                for x in p {
                    a.exec(*x);
                    b.exec(*x);
                }
                (a, b)
            };
            reset();
            let d = if ca.text.is_empty() { 1 } else { 3 };
            if let Some(d) = distinguish(cfg, &make, d, &mut count) {
                v.push((c(18), format!("clone decides differently: {d}")));
            }
        }
    }
    for &op in &cfg.ops {
        if matches!(op, Op::CloneSwap) {
            continue;
        }
        for on_clone in [true, false] {
            count += 1;
            crumb(path, None);
            let mut a = replay(cfg, path);
            let mut b = twin(&a);
            let (mut x, y) = if on_clone { (b, a) } else { (std::mem::replace(&mut a, World::new(cfg)), std::mem::replace(&mut b, World::new(cfg))) };
            let before = (y.observe(cfg.nkeys), canon_of(&y).text, y.stats());
            x.exec(op);
            let after = (y.observe(cfg.nkeys), canon_of(&y).text, y.stats());
            let which = if on_clone { "original" } else { "clone" };
            if before.0.res != after.0.res || before.0.len != after.0.len || before.0.weight != after.0.weight || before.1 != after.1 || before.2 != after.2 {
                v.push((c(18), format!("{op} on the other cache changed the {which}")));
            }
            let live = live();
            let n = y.observe(0).len + x.observe(0).len;
            if live != (n, n) {
                v.push((c(18) | c(17), format!("{op} after clone: {live:?} keys and values alive, {n} entries")));
            }
            x.finish();
            // the other one still works
            let o = y.observe(cfg.nkeys);
            if o.res != before.0.res {
                v.push((c(18), format!("dropping the other cache changed the {which}")));
            }
            y.finish();
        }
    }
    take_events();
    count
}

/// C12: at every reachable state, look everything up, then scan.
pub fn scan(cfg: &Cfg, path: &[u16], m: &Model, _c: &Canon, v: &mut Viols) -> u64 {
    let old: Vec<u8> = (0..cfg.nkeys).filter(|k| m.res[*k as usize].is_some()).collect();
    if old.is_empty() {
        return 0;
    }
    let cl = m.res[old[0] as usize].unwrap().1;
    if cl.w == 0 || old.iter().any(|k| m.res[*k as usize].unwrap().1 != cl) {
        return 0;
    }
    let fits = (cfg.hot_target() / cfg.weigh.of(100, cl)) as usize;
    if cfg.scap - cfg.hot_target() < cfg.weigh.of(100, cl) {
        // no room for newcomers outside the hot segment
        return 0;
    }
    let want = old.len().min(fits);
    let mut count = 0;
    // loads join the hot segment whenever the cache has room, so a scan through guards is only harmless if the hot
    // segment is within its share: in a cache filled by inserting every entry once
    let total: u64 = old.iter().map(|k| cfg.weigh.of(*k, cl)).sum();
    let plain = total + cfg.weigh.of(100, cl) > cfg.scap && {
        let mut seen = std::collections::HashSet::new();
        path.iter().all(|i| match cfg.ops[*i as usize] {
            Op::Insert(k, _) => seen.insert(k),
            Op::Get(..) => true,
            _ => false,
        })
    };
    for how in 0..if plain { 4 } else { 1 } {
        for twice in [false, true] {
            crumb(path, None);
            let mut w = replay(cfg, path);
            for &k in &old {
                w.exec(if how == 2 { Op::Goi(k, Form::Owned, Load::Err) } else { Op::Get(k, Form::Equiv) });
                if twice {
                    w.exec(Op::Get(k, Form::Equiv));
                }
            }
            for i in 0..(3 * cfg.cap / cfg.weigh.of(100, cl) + 3) as u8 {
                let k = 100 + i;
                count += 1;
                w.exec(match how {
                    0 => Op::Insert(k, cl),
                    1 => Op::GuardIns(k, cl, false),
                    2 => Op::Goi(k, Form::Borrowed, Load::Val(cl)),
                    _ if i % 2 == 0 => Op::Insert(k, cl),
                    _ => Op::GuardIns(k, cl, true),
                });
                let o = w.observe(cfg.nkeys);
                let left = old.iter().filter(|k| o.res[**k as usize].is_some()).count();
                if left < want {
                    v.push((
                        c(12),
                        format!("{} entries looked up, {fits} fit the hot share, only {left} left after {} new entries (way {how})", old.len(), i + 1),
                    ));
                    break;
                }
            }
            take_events();
            w.finish();
        }
    }
    count
}

/// C12 for many sizes: a cache filled by inserts, everything looked up in some way, then scanned in some way.
pub fn scan_sweep(thorough: bool) -> (u64, u64, Option<String>) {
    let (mut points, mut ops) = (0, 0);
    let hots = [0.1, 0.25, 0.5, 0.67, 0.75, 0.9, 0.97];
    for flavor in [Flavor::Unsync, Flavor::Sync] {
        for cap in 2..if thorough { 60u64 } else { 34 } {
            for hot in hots {
                for ghost in [0.0, 0.5, 1.0] {
                    for wt in 1..4u8 {
                        let cl = w(wt);
                        let cfg = Cfg::new(flavor, cap, cap as usize, hot, ghost, 0);
                        let n = cap / wt as u64;
                        let fits = cfg.hot_target() / wt as u64;
                        if cap - cfg.hot_target() < wt as u64 || n == 0 {
                            continue;
                        }
                        let want = n.min(fits) as usize;
                        for look in 0..3 {
                            for how in 0..4 {
                                points += 1;
                                crate::main_progress();
                                reset();
                                let mut x = World::new(&cfg);
                                for k in 0..n as u8 {
                                    x.exec(Op::Insert(k, cl));
                                }
                                for k in 0..n as u8 {
                                    ops += 1;
                                    x.exec(match look {
                                        0 => Op::Get(k, Form::Borrowed),
                                        1 if flavor == Flavor::Unsync => Op::GetMut(k, None),
                                        1 => Op::GuardDrop(k, false),
                                        _ => Op::Goi(k, Form::Owned, Load::Err),
                                    });
                                }
                                for i in 0..(2 * n + 2) as u8 {
                                    ops += 1;
                                    let k = 100 + i;
                                    x.exec(match how {
                                        0 => Op::Insert(k, cl),
                                        1 => Op::GuardIns(k, cl, false),
                                        2 => Op::Goi(k, Form::Borrowed, Load::Val(cl)),
                                        _ if i % 2 == 0 => Op::Insert(k, cl),
                                        _ => Op::GuardIns(k, cl, true),
                                    });
                                }
                                let left = x.observe(n as u8).res.iter().flatten().count();
                                take_events();
                                x.finish();
                                if left < want {
                                    return (
                                        points,
                                        ops,
                                        Some(format!(
                                            "{}: filled with {n} entries of weight {wt}, looked up (way {look}), scanned (way {how}): {left} left, {want} fit the hot share",
                                            cfg.describe()
                                        )),
                                    );
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    (points, ops, None)
}

// ------------------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug)]
struct PEnt {
    k: u8,
    c: Class,
    w: u64,
    refs: u8,
    hot: bool,
}

/// The documented policy, written independently of the implementation: two queues and a queue of ghosts.
/// Weightless entries belong to a segment but are in no queue.
#[derive(Clone, Debug)]
pub struct Policy {
    weigh: W,
    cap: u64,
    share: u64,
    ghosts: usize,
    hot: VecDeque<PEnt>,
    cold: VecDeque<PEnt>,
    idle: Vec<PEnt>,
    ghost: VecDeque<u8>,
    /// pending loads: key, which one, whether the key was remembered
    pend: Vec<(u8, u32, bool)>,
    /// guards held: key, which load
    held: Vec<Option<(u8, u32)>>,
    loads: u32,
    out: Vec<u8>,
}

impl Policy {
    pub fn new(cfg: &Cfg) -> Self {
        Policy {
            weigh: cfg.weigh,
            cap: cfg.cap,
            share: cfg.hot_target(),
            ghosts: (cfg.items as f64 * cfg.ghost) as usize,
            hot: VecDeque::new(),
            cold: VecDeque::new(),
            idle: vec![],
            ghost: VecDeque::new(),
            pend: vec![],
            held: vec![None; cfg.guards],
            loads: 0,
            out: vec![],
        }
    }
    fn hot_w(&self) -> u64 {
        self.hot.iter().map(|e| e.w).sum()
    }
    fn total(&self) -> u64 {
        self.hot_w() + self.cold.iter().map(|e| e.w).sum::<u64>()
    }
    fn entry(&mut self, k: u8) -> Option<&mut PEnt> {
        self.hot.iter_mut().chain(self.cold.iter_mut()).chain(self.idle.iter_mut()).find(|e| e.k == k)
    }
    fn take(&mut self, k: u8) -> Option<PEnt> {
        for q in [&mut self.hot, &mut self.cold] {
            if let Some(i) = q.iter().position(|e| e.k == k) {
                return q.remove(i);
            }
        }
        let i = self.idle.iter().position(|e| e.k == k)?;
        Some(self.idle.remove(i))
    }
    /// Joins its segment, as the newest.
    fn join(&mut self, e: PEnt) {
        if e.w == 0 {
            self.idle.push(e)
        } else if e.hot {
            self.hot.push_back(e)
        } else {
            self.cold.push_back(e)
        }
    }
    /// The value of a resident key changes; it keeps its place unless it has or had no weight.
    fn rewrite(&mut self, k: u8, c: Class) {
        let w = self.weigh.of(k, c);
        let Some(e) = self.entry(k) else { return };
        let moves = (e.w == 0) != (w == 0);
        (e.c, e.w) = (c, w);
        if moves {
            let e = self.take(k).unwrap();
            self.join(e);
        }
    }
    fn lookup(&mut self, k: u8) -> bool {
        match self.entry(k) {
            Some(e) => {
                e.refs = (e.refs + 1).min(2);
                true
            }
            None => false,
        }
    }
    /// Called before it is evicted: stays after all, without weight.
    fn rescued(&mut self, mut e: PEnt) -> Option<PEnt> {
        if e.c.rescue == Rescue::Zero {
            e.c = w(0);
            e.w = 0;
            self.idle.push(e);
            return None;
        }
        Some(e)
    }
    fn trim_hot(&mut self) -> bool {
        let mut pinned = 0;
        while pinned < self.hot.len() {
            let mut e = self.hot.pop_front().unwrap();
            if e.c.pinned {
                e.refs = e.refs.saturating_sub(1);
                self.hot.push_back(e);
                pinned += 1;
                continue;
            }
            if e.refs == 0 {
                if let Some(e) = self.rescued(e) {
                    self.out.push(e.k);
                }
                return true;
            }
            // there is one to evict, in this round or a later one
            pinned = 0;
            e.refs -= 1;
            self.hot.push_back(e);
        }
        false
    }
    fn make_room(&mut self) -> bool {
        for _ in 0..self.cold.len() {
            let mut e = self.cold.pop_front().unwrap();
            if e.refs > 0 {
                e.refs -= 1;
                e.hot = true;
                self.hot.push_back(e);
                while self.hot_w() > self.share && self.trim_hot() {}
                return true;
            }
            if e.c.pinned {
                self.cold.push_back(e);
                continue;
            }
            if let Some(e) = self.rescued(e) {
                self.out.push(e.k);
                self.ghost.push_back(e.k);
                if self.ghost.len() > self.ghosts {
                    self.ghost.pop_front();
                }
            }
            return true;
        }
        self.trim_hot()
    }
    fn shrink(&mut self) {
        while self.total() > self.cap && self.make_room() {}
    }
    fn ghosted(&mut self, k: u8) -> bool {
        let n = self.ghost.len();
        self.ghost.retain(|g| *g != k);
        n != self.ghost.len()
    }
    /// None if it is too heavy; before that is decided it may have been changed.
    fn admit(&self, k: u8, c: Class) -> Option<Class> {
        if self.weigh.of(k, c) <= self.share || c.pinned {
            return Some(c);
        }
        let c = match c.rescue {
            Rescue::No => c,
            Rescue::Zero => w(0),
            Rescue::To(to) => w(to),
        };
        (self.weigh.of(k, c) <= self.share).then_some(c)
    }
    fn new_entry(&self, k: u8, c: Class, hot: bool, refs: u8) -> PEnt {
        PEnt { k, c, w: self.weigh.of(k, c), refs, hot }
    }
    fn insert(&mut self, k: u8, c: Class) {
        let Some(c) = self.admit(k, c) else {
            self.take(k);
            self.pend.retain(|p| p.0 != k);
            self.out.push(k);
            return;
        };
        if self.lookup(k) {
            self.rewrite(k, c);
            self.shrink();
        } else if let Some(i) = self.pend.iter().position(|p| p.0 == k) {
            let hot = self.pend.remove(i).2;
            let e = self.new_entry(k, c, hot, 1);
            self.join(e);
            self.shrink();
        } else if self.ghosted(k) {
            let e = self.new_entry(k, c, true, 0);
            self.join(e);
            self.shrink();
        } else {
            let mut e = self.new_entry(k, c, false, 0);
            e.hot = self.hot_w() + e.w <= self.share;
            while self.total() + e.w > self.cap && self.make_room() {}
            self.join(e);
        }
    }
    fn replace(&mut self, k: u8, c: Class, soft: bool) {
        if self.entry(k).is_none() {
            return;
        }
        let Some(c) = self.admit(k, c) else {
            self.take(k);
            return;
        };
        if !soft {
            self.lookup(k);
        }
        self.rewrite(k, c);
        self.shrink();
    }
    fn load(&mut self, k: u8, c: Option<Class>) {
        if self.lookup(k) || self.pend.iter().any(|p| p.0 == k) {
            return;
        }
        let was_ghost = self.ghosted(k);
        if let Some(c) = c {
            self.fill(k, c, was_ghost, 0);
        }
    }
    fn fill(&mut self, k: u8, c: Class, was_ghost: bool, refs: u8) {
        let Some(c) = self.admit(k, c) else {
            self.out.push(k);
            return;
        };
        let mut e = self.new_entry(k, c, was_ghost, refs);
        e.hot |= self.total() + e.w <= self.cap;
        let weightless = e.w == 0;
        self.join(e);
        if !weightless {
            self.shrink();
        }
    }
    pub fn step(&mut self, cfg: &Cfg, op: Op) -> Vec<u8> {
        self.out.clear();
        match op {
            Op::Get(k, _) | Op::GetMut(k, None) => {
                self.lookup(k);
            }
            Op::Insert(k, c) | Op::InsertLc(k, c) => self.insert(k, c),
            Op::Replace(k, c, soft) | Op::ReplaceLc(k, c, soft) => self.replace(k, c, soft),
            Op::Remove(k, _) => {
                if self.take(k).is_none() {
                    self.ghosted(k);
                    self.pend.retain(|p| p.0 != k);
                }
            }
            Op::Retain(mask) => {
                for k in 0..cfg.nkeys {
                    if !keeps(mask, k) {
                        self.take(k);
                    }
                }
            }
            Op::Clear | Op::Drain(_) => {
                self.hot.clear();
                self.cold.clear();
                self.idle.clear();
                self.ghost.clear();
                self.pend.clear();
            }
            Op::Goi(k, _, l) | Op::Gmoi(k, l) | Op::GoiAsync(k, l) => self.load(
                k,
                match l {
                    Load::Val(c) => Some(c),
                    _ => None,
                },
            ),
            Op::GuardIns(k, c, _) | Op::GuardInsLc(k, c) | Op::GuardJoin(k, c, false) => self.load(k, Some(c)),
            Op::GuardJoin(k, c, true) => {
                if !self.lookup(k) && !self.pend.iter().any(|p| p.0 == k) {
                    let was_ghost = self.ghosted(k);
                    self.fill(k, c, was_ghost, 1);
                }
            }
            Op::GuardDrop(k, _) => self.load(k, None),
            Op::GetMut(k, Some(c)) => {
                self.lookup(k);
                self.rewrite(k, c);
            }
            Op::PeekMut(k, Some(c)) => self.rewrite(k, c),
            Op::GmoiMut(k, c, then) => {
                self.load(k, Some(c));
                self.rewrite(k, then);
            }
            Op::Acq(k, _) | Op::AcqAsync(k, _) => {
                if !self.lookup(k) && !self.pend.iter().any(|p| p.0 == k) {
                    self.loads += 1;
                    let g = self.ghosted(k);
                    self.pend.push((k, self.loads, g));
                    let free = self.held.iter().position(|h| h.is_none()).unwrap();
                    self.held[free] = Some((k, self.loads));
                }
            }
            Op::GIns(s, c) | Op::GInsLc(s, c) => {
                if let Some((k, n)) = self.held[s as usize].take() {
                    if let Some(i) = self.pend.iter().position(|p| p.1 == n) {
                        let hot = self.pend.remove(i).2;
                        self.fill(k, c, hot, 0);
                    }
                }
            }
            Op::GDrop(s) => {
                if let Some((_, n)) = self.held[s as usize].take() {
                    self.pend.retain(|p| p.1 != n);
                }
            }
            _ => (),
        }
        let mut o = self.out.clone();
        o.sort_unstable();
        o
    }

    /// Takes the step and compares.
    pub fn judge(&mut self, cfg: &Cfg, op: Op, n: &Model, info: &StepInfo, v: &mut Viols) {
        let want = self.step(cfg, op);
        let mut got = info.evicted.clone();
        got.sort_unstable();
        if got != want {
            v.push((c(13), format!("{op} evicted {got:?}, the policy evicts {want:?}")));
        }
        for k in 0..cfg.nkeys {
            let r = self.entry(k).is_some();
            if r != n.res[k as usize].is_some() {
                v.push((c(13), format!("after {op}: k{k} resident: {}, by the policy: {r}", !r)));
                break;
            }
        }
    }
}

pub fn policy(cfg: &Cfg, path: &[u16], op: Op, _m: &Model, n: &Model, info: &StepInfo, v: &mut Viols, extra: &mut String) {
    let mut p = Policy::new(cfg);
    for &i in path {
        p.step(cfg, cfg.ops[i as usize]);
    }
    p.judge(cfg, op, n, info, v);
    use std::fmt::Write;
    p.idle.sort_by_key(|e| e.k);
    write!(extra, "{:?}{:?}{:?}{:?}", p.hot, p.cold, p.idle, p.ghost).unwrap();
    for h in p.held.iter().flatten() {
        write!(extra, "{h:?}", h = (h.0, p.pend.iter().find(|x| x.1 == h.1).map(|x| x.2))).unwrap();
    }
}
