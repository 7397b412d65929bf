//! The specification: what one operation may do, given what is resident and which loads are pending.
//! Evictions are not predicted; they are taken from the lifecycle events and judged.
use crate::types::*;
use crate::world::*;

pub const fn c(n: u32) -> u64 {
    1 << n
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct GuardM {
    pub k: u8,
    pub valid: bool,
    /// slab slot of the placeholder if known
    pub slot: u32,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub res: Res,
    /// newest stored (or refused) value, 0 if none since the key was last taken out
    pub latest: Vec<u32>,
    pub guards: [Option<GuardM>; MAXG],
    pub hits: u64,
    pub misses: u64,
    pub seen: [u64; 4],
    /// largest number of map entries so far
    pub hw: u16,
    pub reserved: bool,
}

pub type Viols = Vec<(u64, String)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Store {
    Insert,
    Replace,
    Guard,
}

/// What happened in a step beyond the change of state, for properties that look at evictions.
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct StepInfo {
    /// keys evicted (or refused) in this step, in order; not displaced ones
    pub evicted: Vec<u8>,
    pub stored: bool,
}

impl Model {
    pub fn new(cfg: &Cfg) -> Self {
        Model {
            res: vec![None; cfg.nkeys as usize],
            latest: vec![0; cfg.nkeys as usize],
            guards: [None; MAXG],
            hits: 0,
            misses: 0,
            seen: [0; 4],
            hw: 0,
            reserved: false,
        }
    }

    pub fn pending(&self, k: u8) -> bool {
        self.guards.iter().flatten().any(|g| g.k == k && g.valid)
    }

    fn see(&mut self, k: u8) {
        self.seen[k as usize / 64] |= 1 << (k % 64);
    }
    fn saw(&self, k: u8) -> bool {
        self.seen[k as usize / 64] >> (k % 64) & 1 == 1
    }

    /// Whether this key or one with the same hash was used before.
    fn seen_hash(&self, cfg: &Cfg, k: u8) -> bool {
        let h = HB(cfg.hash);
        (0..cfg.nkeys).any(|x| self.saw(x) && h.of(x) == h.of(k))
    }

    fn invalidate(&mut self, k: u8) {
        for g in self.guards.iter_mut().flatten() {
            if g.k == k {
                g.valid = false;
            }
        }
    }

    /// Whether the operation makes sense here (it must not block).
    pub fn enabled(&self, cfg: &Cfg, op: Op) -> bool {
        match op {
            Op::Fused(op, _) => self.enabled(cfg, *op),
            Op::Goi(k, ..) | Op::GuardIns(k, ..) | Op::GuardJoin(k, ..) | Op::GuardDrop(k, ..) | Op::GoiAsync(k, _) if cfg.flavor == Flavor::Sync => {
                !self.pending(k)
            }
            Op::Acq(..) | Op::AcqAsync(..) => self.guards[..cfg.guards].iter().any(|g| g.is_none()),
            Op::GIns(s, _) | Op::GInsLc(s, _) | Op::GDrop(s) => self.guards[s as usize].is_some(),
            Op::Reserve(_) => !self.reserved,
            _ => true,
        }
    }

    #[allow(clippy::too_many_arguments)]
    pub fn step(
        &self,
        cfg: &Cfg,
        op: Op,
        uid: u32,
        out: &Out,
        ev: &[Event],
        obs: &Obs,
        live: (usize, usize),
        stats: (u64, u64),
        info: &mut StepInfo,
        v: &mut Viols,
    ) -> Model {
        if let Out::Blown(p) = out {
            return self.blown(cfg, op, *p, uid, ev, obs, live, stats, info, v);
        }
        let m = self;
        let mut n = self.clone();
        let wt = |k: u8, cl: Class| cfg.weigh.of(k, cl);
        let target = cfg.hot_target();
        let mut work = m.res.clone();
        // ---- what is being stored
        let mut store: Option<(Store, u8, Class)> = None;
        let mut lc_variant = false;
        let mut guard_invalid = false;
        let mut exp_hit = 0;
        let mut exp_miss = 0;
        let mut loader_runs = 0;
        let optag;
        match op {
            Op::Get(k, _) | Op::GetMut(k, _) => {
                optag = c(1);
                if m.res[k as usize].is_some() {
                    exp_hit = 1
                } else {
                    exp_miss = 1
                }
            }
            Op::Peek(..) | Op::PeekMut(..) | Op::Contains(..) => optag = c(1),
            Op::Iter => optag = c(1) | c(4),
            Op::Insert(k, cl) | Op::InsertLc(k, cl) => {
                optag = 0;
                store = Some((Store::Insert, k, cl));
                lc_variant = matches!(op, Op::InsertLc(..));
            }
            Op::Replace(k, cl, _) | Op::ReplaceLc(k, cl, _) => {
                optag = c(8);
                store = Some((Store::Replace, k, cl));
                lc_variant = matches!(op, Op::ReplaceLc(..));
            }
            Op::Remove(..) | Op::Retain(_) | Op::Clear | Op::Drain(_) => optag = c(9),
            Op::Reserve(_) | Op::Size => optag = 0,
            Op::CloneSwap => optag = c(18),
            Op::Goi(k, _, l) | Op::Gmoi(k, l) | Op::GoiAsync(k, l) => {
                optag = c(10);
                if m.res[k as usize].is_some() {
                    exp_hit = 1;
                } else {
                    exp_miss = 1;
                    loader_runs = 1;
                    if let Load::Val(cl) = l {
                        store = Some((Store::Guard, k, cl));
                    }
                }
            }
            Op::GmoiMut(k, cl, _) => {
                optag = c(10);
                if m.res[k as usize].is_some() {
                    exp_hit = 1;
                } else {
                    exp_miss = 1;
                    loader_runs = 1;
                    store = Some((Store::Guard, k, cl));
                }
            }
            Op::GuardIns(k, cl, _) | Op::GuardInsLc(k, cl) | Op::GuardJoin(k, cl, _) => {
                optag = c(10);
                if m.res[k as usize].is_some() {
                    exp_hit = 1;
                } else {
                    exp_miss = 1;
                    store = Some((Store::Guard, k, cl));
                    lc_variant = matches!(op, Op::GuardInsLc(..));
                    exp_hit = matches!(op, Op::GuardJoin(..)) as u64;
                }
            }
            Op::GuardDrop(k, _) => {
                optag = c(10);
                if m.res[k as usize].is_some() {
                    exp_hit = 1;
                } else {
                    exp_miss = 1;
                }
            }
            Op::Acq(k, _) | Op::AcqAsync(k, _) => {
                optag = c(10) | c(20);
                if m.res[k as usize].is_some() || m.pending(k) {
                    exp_hit = 1;
                } else {
                    exp_miss = 1;
                }
            }
            Op::GIns(s, cl) | Op::GInsLc(s, cl) => {
                optag = c(10) | c(25);
                let g = m.guards[s as usize].unwrap();
                lc_variant = matches!(op, Op::GInsLc(..));
                store = Some((Store::Guard, g.k, cl));
                guard_invalid = !g.valid;
                n.guards[s as usize] = None;
            }
            Op::GDrop(s) => {
                optag = c(10);
                n.guards[s as usize] = None;
            }
            Op::Fused(..) => unreachable!(),
        }
        macro_rules! bad {
            ($tags:expr, $($a:tt)*) => { v.push(($tags, format!($($a)*))) };
        }
        // ---- request protocol
        let begins: Vec<u32> = ev
            .iter()
            .filter_map(|e| if let Event::Begin(r) = e { Some(*r) } else { None })
            .collect();
        let ends = ev.iter().filter(|e| matches!(e, Event::End(_))).count();
        let drops = ev.iter().filter(|e| matches!(e, Event::DropState(_))).count();
        let succeeded = !matches!(out, Out::Refused { .. } | Out::GuardRefused(_));
        if store.is_none() {
            if !begins.is_empty() {
                bad!(c(14) | optag, "{op} started a request");
            }
            if ev.iter().any(|e| matches!(e, Event::Evict { .. })) {
                bad!(c(2) | c(14) | optag, "{op} stores nothing but reported an eviction: {ev:?}");
            }
        } else if begins.len() != 1 {
            bad!(c(14), "{op} called begin_request {} times", begins.len());
        } else {
            let r = begins[0];
            for e in ev {
                if let Event::Before { r: x, .. } | Event::Evict { r: x, .. } | Event::End(x) | Event::DropState(x) = e {
                    if *x != r {
                        bad!(c(14), "{op}: request state {x} used in request {r}");
                    }
                }
            }
            if succeeded && !lc_variant {
                if ends != 1 || drops != 0 || !matches!(ev.last(), Some(Event::End(_))) {
                    bad!(c(14), "{op} did not finish with exactly one end_request: {ev:?}");
                }
            } else if succeeded {
                if ends != 0 || drops != 1 || *out != Out::DoneLc(r) && !matches!(out, Out::Hit(_)) {
                    bad!(c(14), "{op} did not return its request state without end_request: {ev:?} {out:?}");
                }
            } else if ends != 0 || drops != 1 {
                bad!(c(14), "failed {op} must not end its request: {ev:?}");
            }
        }
        // ---- evictions
        let mut new_class = store.map(|s| s.2);
        let mut new_before = false;
        let mut new_reported = 0;
        let mut new_reported_before = false;
        let mut displaced = false;
        let mut touched_others = false;
        let old = store.and_then(|(_, k, _)| m.res[k as usize]);
        for (i, e) in ev.iter().enumerate() {
            match *e {
                Event::Before { k, uid: u, w, .. } => {
                    if let Some((_, nk, _)) = store.filter(|_| u == uid) {
                        if nk != k {
                            bad!(c(14) | c(2), "before_evict of the new value with key {k}, stored under {nk}");
                        }
                        let cl = new_class.as_mut().unwrap();
                        if cl.pinned {
                            bad!(c(6), "{op}: before_evict of the new, pinned value");
                        }
                        rescue(cl);
                        new_before = true;
                    } else if let Some((ru, cl)) = work[k as usize].as_mut().filter(|x| x.0 == u) {
                        touched_others = true;
                        if cl.pinned {
                            bad!(c(6), "{op}: before_evict of pinned entry k{k}");
                        }
                        if wt(k, *cl) == 0 {
                            bad!(c(5) | c(14), "{op}: before_evict of zero weight entry k{k}");
                        }
                        rescue(cl);
                        let _ = ru;
                        if w != 0 && !matches!(ev.get(i + 1), Some(Event::Evict { k: ek, uid: eu, .. }) if *ek == k && *eu == u) {
                            bad!(c(14) | c(2), "{op}: before_evict of k{k} left weight {w} but no on_evict of it followed");
                        }
                    } else {
                        bad!(c(14) | c(2), "{op}: before_evict of (k{k}, v{u}) which is not in the cache");
                    }
                }
                Event::Evict { k, uid: u, w, pinned, .. } => {
                    let preceded = i > 0 && matches!(ev[i - 1], Event::Before { k: bk, uid: bu, .. } if bk == k && bu == u);
                    if store.is_some() && u == uid {
                        if store.unwrap().1 != k {
                            bad!(c(2), "on_evict of the new value with key {k}");
                        }
                        new_reported += 1;
                        new_reported_before = preceded;
                        info.evicted.push(k);
                        if pinned {
                            bad!(c(6) | c(7), "{op}: pinned new value was reported as evicted");
                        }
                        if w == 0 {
                            bad!(c(5), "{op}: weightless new value was reported as evicted");
                        }
                    } else if work[k as usize].is_some_and(|x| x.0 == u) {
                        let is_old = store.is_some_and(|s| s.1 == k && s.0 != Store::Guard);
                        if preceded {
                            if is_old {
                                bad!(c(14), "{op}: before_evict of the displaced entry k{k}");
                            }
                        } else if is_old {
                            displaced = true;
                        } else {
                            bad!(c(14) | c(2), "{op}: k{k} evicted without before_evict");
                        }
                        if !displaced || !is_old {
                            touched_others = true;
                            info.evicted.push(k);
                            if pinned {
                                bad!(c(6), "{op}: pinned entry k{k} was evicted");
                            }
                            if w == 0 {
                                bad!(c(5), "{op}: zero weight entry k{k} was evicted");
                            }
                        }
                        work[k as usize] = None;
                    } else {
                        bad!(c(2), "{op}: on_evict of (k{k}, v{u}), which is not in the cache at that moment");
                    }
                }
                _ => (),
            }
        }
        // ---- effect of the store
        let mut stored_nonzero = false;
        if let Some((kind, k, _)) = store {
            let ki = k as usize;
            // as it is now, and as it was when it was (or would have been) admitted
            let cl_now = new_class.unwrap();
            let mut cl = store.unwrap().2;
            if !cl.pinned && wt(k, cl) > target && new_before {
                rescue(&mut cl);
            }
            let overweight = !cl.pinned && wt(k, cl) > target;
            let room_total = |stored: bool| -> u64 {
                (0..cfg.nkeys)
                    .filter(|x| *x != k && cfg.of[*x as usize] == cfg.of[ki])
                    .filter_map(|x| m.res[x as usize].map(|e| wt(x, e.1)))
                    .sum::<u64>()
                    + if stored { wt(k, cl) } else { 0 }
            };
            let fails = guard_invalid || kind == Store::Replace && (old.is_none() || overweight);
            match out {
                Out::Refused { k: rk, inst, given, uid: ru } => {
                    if !fails {
                        bad!(c(8) | c(7), "{op} failed although k{k} is resident and the value fits");
                    }
                    if *rk != k || inst != given || *ru != uid {
                        bad!(c(8), "{op} returned (k{rk}#{inst}, v{ru}) instead of its arguments (k{k}#{given}, v{uid})");
                    }
                    if new_reported != 0 {
                        bad!(c(8) | c(2), "{op}: value both returned and reported as evicted");
                    }
                    if overweight && old.is_some() {
                        if !displaced && fails {
                            bad!(c(2) | c(8) | c(1), "{op}: refused as too heavy, but the old value was not reported");
                        }
                        work[ki] = None;
                    }
                    if touched_others {
                        bad!(c(8), "failed {op} evicted other entries");
                    }
                }
                Out::GuardRefused(ru) => {
                    if !guard_invalid {
                        bad!(c(10) | c(20), "{op} returned the value though the key was not removed, overwritten or cleared");
                    }
                    if *ru != uid {
                        bad!(c(10) | c(25), "{op} returned another value");
                    }
                    if new_reported != 0 {
                        bad!(c(2) | c(25) | c(10), "{op}: value both returned and reported");
                    }
                    if touched_others {
                        bad!(c(10) | c(25), "failed {op} evicted entries");
                    }
                }
                _ => {
                    if fails && kind == Store::Replace {
                        bad!(c(8) | c(7), "{op} succeeded; k{k} resident: {}, too heavy: {overweight}", old.is_some());
                    }
                    if guard_invalid {
                        bad!(c(10) | c(25) | c(1), "{op} succeeded though the key was removed, overwritten or cleared since the guard was obtained");
                    }
                    if old.is_some() && !displaced {
                        bad!(c(2), "{op}: the displaced value of k{k} was not reported");
                    }
                    n.latest[ki] = uid;
                    work[ki] = None;
                    if overweight {
                        if new_reported == 0 {
                            bad!(c(7) | c(2), "{op}: too heavy for the hot share but not reported as refused");
                        } else if !new_before {
                            bad!(c(14) | c(5), "{op}: refused without before_evict");
                        }
                        if !info.stored && touched_others && room_total(false) <= cfg.scap {
                            bad!(c(7), "{op}: refused, but evicted other entries within capacity");
                        }
                    } else {
                        info.stored = true;
                        let room = room_total(true) <= cfg.scap;
                        if room && touched_others {
                            bad!(c(7), "{op} evicted {:?} although everything fits", info.evicted);
                        }
                        if new_reported == 0 {
                            work[ki] = Some((uid, cl_now));
                            stored_nonzero = wt(k, cl) != 0;
                        } else {
                            if !new_reported_before {
                                bad!(c(14), "{op}: new value evicted without before_evict");
                            }
                            if room {
                                bad!(c(7), "{op}: new value evicted although everything fits");
                            }
                            if kind == Store::Insert && !m.seen_hash(cfg, k) {
                                bad!(c(7), "{op}: never seen key not resident after insert");
                            }
                            stored_nonzero = true;
                        }
                    }
                    if new_reported > 1 {
                        bad!(c(2), "{op}: new value reported {new_reported} times");
                    }
                }
            }
        }
        // ---- results
        let expect_val = |k: u8| m.res[k as usize];
        match (op, out) {
            (_, Out::Skip) => (),
            (Op::Get(k, _), Out::Val(r)) | (Op::Peek(k, _), Out::Val(r)) => {
                if *r != expect_val(k) {
                    bad!(c(1), "{op} returned {r:?}, expected {:?}", expect_val(k));
                }
            }
            (Op::Contains(k, _), Out::Bool(b)) => {
                if *b != expect_val(k).is_some() {
                    bad!(c(1), "{op} returned {b}");
                }
            }
            (Op::GetMut(k, nc), Out::Mut(r)) | (Op::PeekMut(k, nc), Out::Mut(r)) => {
                if *r != expect_val(k) {
                    bad!(c(1), "{op} returned {r:?}, expected {:?}", expect_val(k));
                }
                if let (Some(nc), Some(_)) = (nc, expect_val(k)) {
                    work[k as usize] = Some((uid, nc));
                    n.latest[k as usize] = uid;
                }
            }
            (Op::Remove(k, _), Out::Removed(r)) => {
                if *r != expect_val(k).map(|x| (k, x.0)) {
                    bad!(c(9) | c(2) | c(24), "{op} returned {r:?}, expected {:?}", expect_val(k));
                }
                work[k as usize] = None;
                n.latest[k as usize] = 0;
                n.invalidate(k);
            }
            (Op::Retain(mask), _) => {
                for k in 0..cfg.nkeys as usize {
                    if !keeps(mask, k as u8) && work[k].is_some() {
                        work[k] = None;
                        n.latest[k] = 0;
                    }
                }
            }
            (Op::Clear, _) | (Op::Drain(_), _) => {
                if let (Op::Drain(cnt), Out::Items(its)) = (op, out) {
                    let total = m.res.iter().flatten().count();
                    let mut ks = its.clone();
                    ks.sort_by_key(|x| x.0);
                    ks.dedup_by_key(|x| x.0);
                    if ks.len() != its.len()
                        || its.len() != total.min(cnt as usize)
                        || its.iter().any(|(k, e)| m.res[*k as usize] != Some(*e))
                    {
                        bad!(c(9) | c(4), "{op} yielded {its:?}, resident were {:?}", &m.res[..cfg.nkeys as usize]);
                    }
                }
                work.fill(None);
                n.latest.fill(0);
                for g in n.guards.iter_mut().flatten() {
                    g.valid = false;
                }
            }
            (Op::Iter, Out::Items(_)) => (),
            (Op::Goi(k, _, l), _) | (Op::Gmoi(k, l), _) | (Op::GoiAsync(k, l), _) => {
                let hit = m.res[k as usize];
                let (ok, runs) = match (out, hit, l) {
                    (Out::Loaded(r, n), Some(h), _) => (*r == Some(h), *n),
                    (Out::Loaded(r, n), None, Load::Val(_)) => {
                        let fine = match r {
                            Some(x) => x.0 == uid,
                            None => cfg.flavor == Flavor::Unsync && work[k as usize].is_none(),
                        };
                        (fine, *n)
                    }
                    (Out::LoadErr(n), None, Load::Err) => (true, *n),
                    (Out::LoadPanic(n), None, Load::Panic) => (true, *n),
                    (Out::Loaded(_, n), _, _) | (Out::LoadErr(n), _, _) | (Out::LoadPanic(n), _, _) => (false, *n),
                    _ => (false, 99),
                };
                if !ok {
                    bad!(c(1) | c(10) | c(20), "{op} returned {out:?}, resident before: {hit:?}");
                }
                if runs != loader_runs {
                    bad!(c(1) | c(10) | c(20), "{op} ran its loader {runs} times, resident before: {hit:?}");
                }
            }
            (Op::GmoiMut(k, _, nc), Out::Loaded(r, runs)) => {
                if *runs != loader_runs {
                    bad!(c(1) | c(10) | c(20), "{op} ran its loader {runs} times");
                }
                let exp = work[k as usize];
                if *r != exp {
                    bad!(c(1) | c(10), "{op} returned {r:?}, expected {exp:?}");
                }
                if exp.is_some() {
                    work[k as usize] = Some((uid, nc));
                    n.latest[k as usize] = uid;
                }
            }
            (Op::GuardIns(k, ..), _) | (Op::GuardJoin(k, ..), _) | (Op::GuardInsLc(k, _), _) | (Op::GuardDrop(k, _), _) => {
                let hit = m.res[k as usize];
                let ok = match out {
                    Out::Hit(h) => hit == Some(*h),
                    Out::Done | Out::DoneLc(_) | Out::GotGuard => hit.is_none(),
                    Out::GuardRefused(_) => true, // judged above
                    _ => false,
                };
                if !ok {
                    bad!(c(1) | c(10) | c(20), "{op} returned {out:?}, resident before: {hit:?}");
                }
            }
            (Op::Acq(k, _), _) | (Op::AcqAsync(k, _), _) => {
                let hit = m.res[k as usize];
                let ok = match out {
                    Out::Hit(h) => hit == Some(*h),
                    Out::GotGuard => hit.is_none() && !m.pending(k),
                    Out::Pending => hit.is_none() && m.pending(k),
                    _ => false,
                };
                if !ok {
                    bad!(c(1) | c(10) | c(20) | c(25), "{op} returned {out:?}, resident before: {hit:?}, pending: {}", m.pending(k));
                }
                if *out == Out::GotGuard {
                    if let Some(s) = n.guards.iter().position(|g| g.is_none()) {
                        n.guards[s] = Some(GuardM { k, valid: true, slot: 0 });
                    }
                }
            }
            (Op::Insert(k, _), _) | (Op::InsertLc(k, _), _) => n.invalidate(k),
            (Op::Reserve(_), _) => n.reserved = true,
            _ => (),
        }
        // ---- state
        for k in 0..cfg.nkeys as usize {
            let (e, o) = (work[k], obs.res[k]);
            if e == o {
                continue;
            }
            let mut tags = c(2) | optag;
            match (e, o) {
                (Some(e), None) => {
                    if wt(k as u8, e.1) == 0 {
                        tags |= c(5);
                    }
                    if e.1.pinned {
                        tags |= c(6);
                    }
                    if let Some((kind, sk, _)) = store {
                        if sk as usize == k {
                            tags |= c(7);
                            if kind == Store::Replace {
                                tags |= c(8);
                            }
                        } else {
                            tags |= c(7);
                        }
                    }
                    bad!(tags, "after {op}: k{k} (v{}) disappeared without being reported or taken out", e.0);
                }
                (None, Some(o)) => {
                    if n.latest[k] != o.0 {
                        tags |= c(1);
                    }
                    if store.is_some_and(|s| s.1 as usize == k) {
                        tags |= c(7);
                    }
                    bad!(tags, "after {op}: k{k} is resident with v{} but should be absent", o.0);
                }
                (Some(e), Some(o)) if e.0 != o.0 => {
                    bad!(tags | c(1), "after {op}: k{k} has v{} instead of v{}", o.0, e.0);
                }
                _ => bad!(tags | c(4), "after {op}: k{k} has {o:?} instead of {e:?}"),
            }
        }
        for k in 0..cfg.nkeys as usize {
            if let Some(o) = obs.res[k] {
                if n.latest[k] != 0 && n.latest[k] != o.0 {
                    bad!(c(1) | optag, "after {op}: k{k} has v{}, newest stored value is v{}", o.0, n.latest[k]);
                }
            }
        }
        if let Some(k) = obs.disagree {
            bad!(c(1) | c(19), "after {op}: lookups of k{k} disagree");
        }
        let cnt = obs.res.iter().flatten().count();
        let sum: u64 = (0..cfg.nkeys).filter_map(|k| obs.res[k as usize].map(|e| wt(k, e.1))).sum();
        let any_guard = n.guards.iter().any(|g| g.is_some());
        let acct = c(4) | optag & (c(9) | c(10) | c(18)) | if any_guard { c(10) } else { 0 };
        if obs.len != cnt {
            bad!(acct, "after {op}: len() is {}, {cnt} entries are resident", obs.len);
        }
        if obs.empty != (obs.len == 0) {
            bad!(c(4), "after {op}: is_empty() is {} with len() {}", obs.empty, obs.len);
        }
        if obs.weight != sum {
            bad!(acct, "after {op}: weight() is {}, resident entries weigh {sum}", obs.weight);
        }
        if let Some(it) = &obs.iter {
            let exp: Vec<(u8, Vu)> = (0..cfg.nkeys).filter_map(|k| obs.res[k as usize].map(|e| (k, e))).collect();
            if *it != exp {
                bad!(c(4) | c(1), "after {op}: iter() yields {it:?}, lookups {exp:?}");
            }
        }
        if let (Op::Iter, Out::Items(its)) = (op, out) {
            let mut its = its.clone();
            its.sort_by_key(|x| x.0);
            if Some(&its) != obs.iter.as_ref() {
                bad!(c(4) | c(1), "iter() yields {its:?}");
            }
        }
        if obs.cap != cfg.tcap {
            bad!(c(15) | c(3), "after {op}: capacity() is {}", obs.cap);
        }
        // ---- weight bound, per shard
        let inplace = matches!(op, Op::GetMut(..) | Op::PeekMut(..) | Op::GmoiMut(..));
        let shards = cfg.of[..cfg.nkeys as usize].iter().max().map_or(1, |x| x + 1);
        for sh in 0..shards {
            let keys = || (0..cfg.nkeys).filter(|k| cfg.of[*k as usize] == sh);
            let total = |res: &Res| -> u64 { keys().filter_map(|k| res[k as usize].map(|e| wt(k, e.1))).sum() };
            let mut now = total(&obs.res);
            if cfg.shards == 1 {
                now = now.max(obs.weight);
            }
            if now <= cfg.scap {
                continue;
            }
            if stored_nonzero && !inplace && store.is_some_and(|s| cfg.of[s.1 as usize] == sh) {
                let sk = store.unwrap().1;
                for k in keys().filter(|k| *k != sk) {
                    if let Some((_, cl)) = obs.res[k as usize] {
                        if wt(k, cl) != 0 && !cl.pinned {
                            bad!(c(3) | c(6) | c(15), "after {op}: weight {now} exceeds capacity {} but k{k} was not evicted", cfg.scap);
                            break;
                        }
                    }
                }
            }
            let pins = m.res.iter().chain(obs.res.iter()).flatten().any(|e| e.1.pinned);
            if total(&m.res) <= cfg.scap && !pins && !inplace {
                bad!(c(3) | c(15), "after {op}: weight {now} exceeds capacity {}", cfg.scap);
            }
        }
        if obs.weight > cfg.tcap && sum <= cfg.tcap {
            bad!(c(3), "after {op}: weight() {} exceeds capacity {}", obs.weight, cfg.tcap);
        }
        // ---- statistics
        if cfg!(feature = "full") {
            let got = (stats.0.wrapping_sub(m.hits), stats.1.wrapping_sub(m.misses));
            if got != (exp_hit, exp_miss) && *out != Out::Skip {
                bad!(c(16) | optag & c(18), "{op} added {got:?} to (hits, misses) instead of {:?}", (exp_hit, exp_miss));
            }
            n.hits = stats.0;
            n.misses = stats.1;
        }
        // ---- memory
        let guards = n.guards.iter().flatten().count();
        if live.0 < cnt || live.0 > cnt + guards {
            bad!(c(17) | optag & c(10), "after {op}: {} keys alive, {cnt} entries resident, {guards} guards held", live.0);
        }
        if live.1 != cnt {
            bad!(c(17), "after {op}: {} values alive, {cnt} entries resident", live.1);
        }
        if let Some(d) = take_double_drop() {
            bad!(c(17), "after {op}: {d}");
        }
        // ---- continue from what is really there
        n.res.clone_from(&obs.res);
        for k in 0..cfg.nkeys as usize {
            if n.res[k].is_some() || n.pending(k as u8) {
                n.see(k as u8);
            }
        }
        if let Some((_, k, _)) = store {
            n.see(k as u8);
        }
        match op {
            Op::Goi(k, ..) | Op::Gmoi(k, _) | Op::GoiAsync(k, _) | Op::GuardDrop(k, _) => n.see(k),
            Op::Clear | Op::Drain(_) => n.seen = [0; 4],
            _ => (),
        }
        n
    }
}

impl Model {
    /// The operation was left by a panic of user code.
    #[allow(clippy::too_many_arguments)]
    fn blown(&self, cfg: &Cfg, op: Op, p: Point, uid: u32, ev: &[Event], obs: &Obs, live: (usize, usize), stats: (u64, u64), info: &mut StepInfo, v: &mut Viols) -> Model {
        let m = self;
        let mut n = self.clone();
        macro_rules! bad {
            ($($a:tt)*) => { v.push((c(28), format!($($a)*))) };
        }
        let target = match op.plain() {
            Op::Insert(k, _) | Op::InsertLc(k, _) | Op::Replace(k, ..) | Op::ReplaceLc(k, ..) => Some(k),
            Op::Goi(k, _, Load::Val(_)) | Op::Gmoi(k, Load::Val(_)) | Op::GoiAsync(k, Load::Val(_)) => Some(k),
            Op::GmoiMut(k, ..) | Op::GuardIns(k, ..) | Op::GuardJoin(k, ..) | Op::GuardInsLc(k, _) => Some(k),
            Op::GIns(s, _) | Op::GInsLc(s, _) => m.guards[s as usize].map(|g| g.k),
            _ => None,
        };
        let fails = match op.plain() {
            Op::Replace(k, ..) | Op::ReplaceLc(k, ..) => m.res[k as usize].is_none(),
            Op::GIns(s, _) | Op::GInsLc(s, _) => !m.guards[s as usize].unwrap().valid,
            _ => false,
        };
        if let Op::GIns(s, _) | Op::GInsLc(s, _) | Op::GDrop(s) = op.plain() {
            n.guards[s as usize] = None;
        }
        let reported = |k: u8, u: u32| ev.iter().filter(|e| matches!(e, Event::Evict { k: ek, uid: eu, .. } if *ek == k && *eu == u)).count();
        for e in ev {
            if let Event::Evict { k, uid: u, .. } = *e {
                info.evicted.push(k);
                let known = m.res[k as usize].is_some_and(|x| x.0 == u) || target == Some(k) && u == uid;
                if !known || reported(k, u) > 1 {
                    bad!("{op}: on_evict of (k{k}, v{u}), which is not in the cache at that moment");
                }
            }
        }
        let calm = target.is_none() || p == Point::Predicate;
        for k in 0..cfg.nkeys {
            let (old, now) = (m.res[k as usize], obs.res[k as usize]);
            let is_new = now.is_some_and(|x| x.0 == uid && target == Some(k) && !fails);
            if let Some(o) = old {
                let gone = now.is_none_or(|x| x.0 != o.0);
                let named = matches!(op.plain(), Op::Retain(mask) if !keeps(mask, k));
                match reported(k, o.0) {
                    0 if gone && !named => bad!("{op} left by a panic: k{k} (v{}) disappeared without being reported", o.0),
                    1.. if !gone => bad!("{op} left by a panic: k{k} (v{}) was reported as evicted but is resident", o.0),
                    _ if gone && calm && !named => bad!("{op} left by a panic: k{k} (v{}) is gone", o.0),
                    _ => (),
                }
                if !gone && now != old && !ev.iter().any(|e| matches!(e, Event::Before { uid, .. } if *uid == o.0)) {
                    bad!("{op} left by a panic: k{k} has {now:?} instead of {o:?}");
                }
            }
            if now.is_some() && now.map(|x| x.0) != old.map(|x| x.0) && !is_new {
                bad!("{op} left by a panic: k{k} has {now:?}, before {old:?}");
            }
            if is_new {
                if reported(k, uid) > 0 {
                    bad!("{op} left by a panic: the new value was reported as evicted but is resident");
                }
                info.stored = true;
                n.latest[k as usize] = uid;
            }
            if target == Some(k) && (is_new || reported(k, uid) > 0) {
                n.invalidate(k);
            }
        }
        let cnt = obs.res.iter().flatten().count();
        let sum: u64 = (0..cfg.nkeys).filter_map(|k| obs.res[k as usize].map(|e| cfg.weigh.of(k, e.1))).sum();
        let iter = (0..cfg.nkeys).filter_map(|k| obs.res[k as usize].map(|e| (k, e))).collect::<Vec<_>>();
        if obs.len != cnt || obs.empty != (cnt == 0) || obs.weight != sum || obs.disagree.is_some() || obs.iter.as_ref().is_some_and(|i| *i != iter) {
            bad!("{op} left by a panic: len {} weight {} empty {} iter {:?}, resident are {iter:?} of weight {sum}", obs.len, obs.weight, obs.empty, obs.iter);
        }
        let guards = n.guards.iter().flatten().count();
        if live.0 < cnt || live.0 > cnt + guards || live.1 != cnt {
            bad!("{op} left by a panic: {live:?} keys and values alive, {cnt} entries resident, {guards} guards held");
        }
        if let Some(d) = take_double_drop() {
            bad!("{op} left by a panic: {d}");
        }
        n.hits = stats.0;
        n.misses = stats.1;
        n.res.clone_from(&obs.res);
        for k in 0..cfg.nkeys {
            if n.res[k as usize].is_some() || n.pending(k) || target == Some(k) {
                n.see(k);
            }
        }
        if let Op::Goi(k, ..) | Op::Gmoi(k, _) | Op::GoiAsync(k, _) | Op::GuardDrop(k, _) = op.plain() {
            n.see(k);
        }
        n
    }
}

fn rescue(cl: &mut Class) {
    match cl.rescue {
        Rescue::No => (),
        Rescue::Zero => *cl = w(0),
        Rescue::To(t) => *cl = w(t),
    }
}
