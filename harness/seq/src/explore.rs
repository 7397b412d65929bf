//! Breadth first exploration of all operation sequences, merging histories that lead to the same state.
use crate::dump::{canon, Canon};
use crate::model::*;
use crate::types::{self, take_events};
use crate::world::*;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Node {
    pub path: Box<[u16]>,
    pub model: Model,
}

pub struct Found {
    pub msg: String,
    pub path: Vec<u16>,
}

pub type StepHook = fn(&Cfg, &[u16], Op, &Model, &Model, &StepInfo, &mut Viols, &mut String);
/// Returns the number of operations executed.
pub type StateHook = fn(&Cfg, &[u16], &Model, &Canon, &mut Viols) -> u64;

pub struct Job<'a> {
    pub cfg: &'a Cfg,
    pub tags: u64,
    /// clauses that count once entries were taken out
    pub after: u64,
    /// operations after which these count
    pub took: fn(Op) -> bool,
    pub depth: usize,
    pub max_states: usize,
    pub merge: bool,
    pub step: Option<StepHook>,
    pub state: Option<StateHook>,
    pub deadline: Instant,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub hook_ops: u64,
    pub depth: usize,
    pub closed: bool,
    pub cut: bool,
    pub evictions: u64,
    pub parsed: bool,
    pub sample: String,
}

pub const WORKERS: usize = 8;

/// What each worker is doing, for the watchdog and the crash handler.
pub struct Crumb {
    pub busy: AtomicU64,
    pub in_op: AtomicBool,
    pub path: Mutex<Vec<u16>>,
}
#[allow(clippy::declare_interior_mutable_const)]
const CRUMB: Crumb = Crumb {
    busy: AtomicU64::new(0),
    in_op: AtomicBool::new(false),
    path: Mutex::new(Vec::new()),
};
pub static CRUMBS: [Crumb; WORKERS] = [CRUMB; WORKERS];
thread_local! {
    pub static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub fn crumb(path: &[u16], op: Option<u16>) {
    let me = ME.with(|m| m.get());
    if me < WORKERS {
        if let Ok(mut p) = CRUMBS[me].path.try_lock() {
            p.clear();
            p.extend_from_slice(path);
            p.extend(op);
        }
        CRUMBS[me].busy.fetch_add(1, Relaxed);
        CRUMBS[me].in_op.store(true, Relaxed);
    }
}

fn hash128(s: &str, extra: &[u8]) -> u128 {
    let mut a = DefaultHasher::new();
    a.write_u8(1);
    a.write(s.as_bytes());
    a.write(extra);
    let mut b = DefaultHasher::new();
    b.write_u8(2);
    b.write(extra);
    b.write(s.as_bytes());
    (a.finish() as u128) << 64 | b.finish() as u128
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Builds the cache and brings it to the end of the path.
pub fn replay(cfg: &Cfg, path: &[u16]) -> World {
    types::reset();
    let mut w = World::new(cfg);
    for &i in path {
        w.exec(cfg.ops[i as usize]);
    }
    take_events();
    w
}

pub fn path_text(cfg: &Cfg, path: &[u16]) -> String {
    path.iter().map(|&i| cfg.ops[i as usize].to_string()).collect::<Vec<_>>().join("; ")
}

pub struct StepResult {
    pub model: Model,
    pub canon: Canon,
    pub extra: String,
    pub skip: bool,
    pub evicted: usize,
}

/// One transition of the real cache, judged. None if the code under test panicked (reported in `v`).
pub fn transition(cfg: &Cfg, path: &[u16], m: &Model, opi: u16, step: Option<StepHook>, v: &mut Viols) -> Option<StepResult> {
    let op = cfg.ops[opi as usize];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut w = replay(cfg, path);
        let uid = w.upcoming_uid();
        let out = w.exec(op);
        let ev = take_events();
        let live = types::live();
        let stats = w.stats();
        let mut dump = String::new();
        w.dump(&mut dump);
        let obs = w.observe(cfg.nkeys);
        let mut info = StepInfo::default();
        let skip = out == Out::Skip;
        let mut n = if skip {
            m.clone()
        } else {
            m.step(cfg, op, uid, &out, &ev, &obs, live, stats, &mut info, v)
        };
        let mut extra = String::new();
        if let Some(s) = step {
            s(cfg, path, op, m, &n, &info, v, &mut extra);
        }
        // everything goes away with the cache
        w.finish();
        let (lk, lv) = types::live();
        if (lk, lv) != (0, 0) {
            v.push((c(17), format!("after {op} and dropping the cache: {lk} keys and {lv} values still alive")));
        }
        if let Some(d) = types::take_double_drop() {
            v.push((c(17), format!("after {op} and dropping the cache: {d}")));
        }
        take_events();
        let mut held = vec![];
        if cfg.guards > 0 {
            // slots of newly obtained guards
            let probe = canon(&dump, &[]);
            for g in n.guards.iter_mut().flatten() {
                if g.slot == 0 && g.valid {
                    let name = format!("K{}", g.k);
                    g.slot = probe.placeholders.iter().find(|p| p.0 == name).map_or(0, |p| p.1);
                }
            }
            held = n.guards.iter().flatten().map(|g| g.slot).collect();
        }
        let canon = canon(&dump, &held);
        n.hw = n.hw.max(canon.entries as u16);
        // a key is resident, loading or remembered; some slack, but no growth
        if canon.parsed && canon.entries > 2 * cfg.nkeys as usize + 2 {
            v.push((c(17) | c(28), format!("after {op}: {} slots are occupied on behalf of {} keys", canon.entries, cfg.nkeys)));
        }
        StepResult {
            model: n,
            canon,
            extra,
            skip,
            evicted: info.evicted.len(),
        }
    }));
    match r {
        Ok(r) => Some(r),
        Err(e) => {
            v.push((u64::MAX, format!("{op} panicked: {}", panic_text(&*e))));
            None
        }
    }
}

pub fn state_key(r: &StepResult, path: &[u16], opi: u16, merge: bool) -> u128 {
    let mut x = Vec::with_capacity(16);
    if !merge || r.canon.text.is_empty() {
        for p in path {
            x.extend_from_slice(&p.to_le_bytes());
        }
        x.extend_from_slice(&opi.to_le_bytes());
        return hash128("", &x);
    }
    x.extend_from_slice(&r.model.hw.to_le_bytes());
    x.push(r.model.reserved as u8);
    for g in r.model.guards {
        match g {
            None => x.push(255),
            Some(g) => {
                x.push(g.k);
                x.push(g.valid as u8);
            }
        }
    }
    x.extend_from_slice(r.extra.as_bytes());
    hash128(&r.canon.text, &x)
}

pub fn explore(job: &Job) -> (Stats, Option<Found>) {
    let cfg = job.cfg;
    let visited: Vec<Mutex<HashSet<u128>>> = (0..256).map(|_| Mutex::new(HashSet::new())).collect();
    let mut st = Stats {
        parsed: true,
        ..Default::default()
    };
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let mut frontier = vec![Node {
        path: Box::new([]),
        model: Model::new(cfg),
    }];
    st.states = 1;
    let states = AtomicU64::new(1);
    let trans = AtomicU64::new(0);
    let hook_ops = AtomicU64::new(0);
    let evictions = AtomicU64::new(0);
    let unparsed = AtomicU64::new(0);
    let sample = Mutex::new(String::new());
    for depth in 0..job.depth {
        if frontier.is_empty() {
            st.closed = true;
            break;
        }
        st.depth = depth + 1;
        let next: Mutex<Vec<Node>> = Mutex::new(vec![]);
        let pos = AtomicUsize::new(0);
        let chunk = (frontier.len() / (WORKERS * 8)).clamp(1, 64);
        std::thread::scope(|sc| {
            for wid in 0..WORKERS {
                let (frontier, next, pos, stop, found, visited) = (&frontier, &next, &pos, &stop, &found, &visited);
                let (states, trans, hook_ops, evictions, unparsed, sample) =
                    (&states, &trans, &hook_ops, &evictions, &unparsed, &sample);
                sc.spawn(move || {
                    ME.with(|m| m.set(wid));
                    let mut local = vec![];
                    let mut lt = 0u64;
                    let mut v: Viols = vec![];
                    'outer: loop {
                        let s = pos.fetch_add(chunk, Relaxed);
                        if s >= frontier.len() {
                            break;
                        }
                        for node in &frontier[s..(s + chunk).min(frontier.len())] {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            if Instant::now() > job.deadline {
                                stop.store(true, Relaxed);
                                break 'outer;
                            }
                            for opi in 0..cfg.ops.len() as u16 {
                                let op = cfg.ops[opi as usize];
                                if !node.model.enabled(cfg, op) {
                                    continue;
                                }
                                crumb(&node.path, Some(opi));
                                lt += 1;
                                let r = transition(cfg, &node.path, &node.model, opi, job.step, &mut v);
                                let mut newnode = None;
                                if let Some(r) = r {
                                    if !r.skip {
                                        evictions.fetch_add(r.evicted as u64, Relaxed);
                                        if !r.canon.parsed {
                                            unparsed.fetch_add(1, Relaxed);
                                        }
                                        let key = state_key(&r, &node.path, opi, job.merge);
                                        let fresh = visited[(key >> 120) as usize].lock().unwrap().insert(key);
                                        if fresh {
                                            let mut p = node.path.to_vec();
                                            p.push(opi);
                                            if let Some(h) = job.state {
                                                let n = catch_unwind(AssertUnwindSafe(|| h(cfg, &p, &r.model, &r.canon, &mut v)));
                                                match n {
                                                    Ok(n) => {
                                                        hook_ops.fetch_add(n, Relaxed);
                                                    }
                                                    Err(e) => v.push((u64::MAX, format!("panicked in the continuation: {}", panic_text(&*e)))),
                                                }
                                            }
                                            newnode = Some(Node {
                                                path: p.into(),
                                                model: r.model,
                                            });
                                        }
                                    }
                                }
                                if !v.is_empty() {
                                    let took = || (job.took)(op) || node.path.iter().any(|i| (job.took)(cfg.ops[*i as usize]));
                                    let tags = if job.after != 0 && took() { job.tags | job.after } else { job.tags };
                                    if let Some(x) = v.iter().find(|x| x.0 & tags != 0) {
                                        let mut p = node.path.to_vec();
                                        p.push(opi);
                                        let mut f = found.lock().unwrap();
                                        if f.as_ref().is_none_or(|f| f.path.len() > p.len()) {
                                            *f = Some(Found { msg: x.1.clone(), path: p });
                                        }
                                        stop.store(true, Relaxed);
                                        break 'outer;
                                    }
                                    v.clear();
                                }
                                if let Some(n) = newnode {
                                    let c = states.fetch_add(1, Relaxed);
                                    if c % 997 == 500 {
                                        if let Ok(mut s) = sample.try_lock() {
                                            *s = path_text(cfg, &n.path);
                                        }
                                    }
                                    local.push(n);
                                }
                            }
                        }
                    }
                    CRUMBS[wid].in_op.store(false, Relaxed);
                    trans.fetch_add(lt, Relaxed);
                    next.lock().unwrap().append(&mut local);
                });
            }
        });
        st.transitions = trans.load(Relaxed);
        st.states = states.load(Relaxed);
        if stop.load(Relaxed) {
            st.cut = true;
            break;
        }
        frontier = next.into_inner().unwrap();
        // deterministic order
        frontier.sort_by(|a, b| a.path.cmp(&b.path));
        if st.states as usize > job.max_states && !frontier.is_empty() {
            st.cut = true;
            break;
        }
    }
    if frontier.is_empty() {
        st.closed = true;
    }
    st.hook_ops = hook_ops.load(Relaxed);
    st.evictions = evictions.load(Relaxed);
    st.parsed = unparsed.load(Relaxed) == 0;
    st.sample = sample.into_inner().unwrap();
    if st.sample.is_empty() {
        if let Some(n) = frontier.first() {
            st.sample = path_text(cfg, &n.path);
        }
    }
    let f = found.into_inner().unwrap();
    (st, f)
}
