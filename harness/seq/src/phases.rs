//! Larger caches: all sequences of phases, each phase a burst of operations over a range of keys.
//! Every single operation is judged like in the exploration of small caches; nothing is merged.
use crate::dump::canon;
use crate::explore::*;
use crate::model::*;
use crate::special::{evicted, Policy};
use crate::types::{self, take_events, Class};
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Twin {
    No,
    /// judge against the reference policy
    Policy,
    /// a second cache that is also asked neutral questions between phases
    Neutral,
    /// soft replace on one, in-place write on the other
    Soft,
    /// a clone made between phases
    Clone,
}

#[derive(Clone)]
pub struct Phase {
    pub name: String,
    pub ops: Vec<Op>,
}

fn class(s: &str) -> Class {
    let (kind, rest) = s.split_at(1);
    let mut n = rest.split('>');
    let a: u8 = n.next().unwrap().parse().unwrap();
    match kind {
        "w" => types::w(a),
        "p" => types::pin(a),
        "z" => types::zeroed(a),
        "s" => types::shrunk(a, n.next().unwrap().parse().unwrap()),
        _ => panic!("class {s}"),
    }
}

/// `kind:range:class`, several joined by `+`; a range is `from-to` (exclusive), `from-to/step`, or `to-from` backwards.
pub fn phase(text: &str) -> Phase {
    let mut ops = vec![];
    for part in text.split('+') {
        let f: Vec<&str> = part.split(':').collect();
        let range = f.get(1).copied().unwrap_or("0-0");
        let (r, step) = range.split_once('/').unwrap_or((range, "1"));
        let (a, b) = r.split_once('-').unwrap_or((r, r));
        let (a, b, step): (u8, u8, usize) = (a.parse().unwrap_or(0), b.parse().unwrap_or(0), step.parse().unwrap());
        let ks: Vec<u8> = if a <= b { (a..b).step_by(step).collect() } else { (b..a).rev().step_by(step).collect() };
        let cl = || class(f[2]);
        match f[0] {
            "clear" => ops.push(Op::Clear),
            "drain" => ops.push(Op::Drain(a)),
            "reserve" => ops.push(Op::Reserve(100)),
            "clone" => ops.push(Op::CloneSwap),
            "even" => ops.push(Op::Retain(0x5555_5555_5555_5555)),
            "odd" => ops.push(Op::Retain(!0x5555_5555_5555_5555)),
            "third" => ops.push(Op::Retain(0x9249_2492_4924_9249)),
            "none" => ops.push(Op::Retain(0)),
            "low" => ops.push(Op::Retain((1 << a) - 1)),
            _ => {
                for k in ks {
                    match f[0] {
                        "ins" => ops.push(Op::Insert(k, cl())),
                        "inslc" => ops.push(Op::InsertLc(k, cl())),
                        "get" => ops.push(Op::Get(k, Form::Borrowed)),
                        "get3" => ops.extend([Op::Get(k, Form::Owned); 3]),
                        "getmut" => ops.push(Op::GetMut(k, None)),
                        "mut" => ops.push(Op::GetMut(k, Some(cl()))),
                        "pmut" => ops.push(Op::PeekMut(k, Some(cl()))),
                        "rem" => ops.push(Op::Remove(k, Form::Equiv)),
                        "rep" => ops.push(Op::Replace(k, cl(), false)),
                        "reps" => ops.push(Op::Replace(k, cl(), true)),
                        "goi" => ops.push(Op::Goi(k, Form::Borrowed, Load::Val(cl()))),
                        "goie" => ops.push(Op::Goi(k, Form::Borrowed, Load::Err)),
                        "goip" => ops.push(Op::Goi(k, Form::Owned, Load::Panic)),
                        "gmoi" => ops.push(Op::Gmoi(k, Load::Val(cl()))),
                        "goia" => ops.push(Op::GoiAsync(k, Load::Val(cl()))),
                        "gins" => ops.push(Op::GuardIns(k, cl(), false)),
                        "gdrop" => ops.push(Op::GuardDrop(k, false)),
                        "acq" => ops.push(Op::Acq(k, Form::Borrowed)),
                        "acqa" => ops.push(Op::AcqAsync(k, Form::Owned)),
                        "fin" => ops.push(Op::GIns(k, cl())),
                        "fail" => ops.push(Op::GDrop(k)),
                        // one after the other
                        "churn" => ops.extend([Op::Insert(k, cl()), Op::Remove(k, Form::Owned)]),
                        "insget" => ops.extend([Op::Insert(k, cl()), Op::Get(k, Form::Equiv)]),
                        x => panic!("phase {x}"),
                    }
                }
            }
        }
    }
    Phase { name: text.into(), ops }
}

pub struct PJob<'a> {
    pub cfg: &'a Cfg,
    pub phases: &'a [Phase],
    pub depth: usize,
    pub tags: u64,
    pub after: u64,
    pub took: fn(Op) -> bool,
    pub twin: Twin,
    pub state: Option<StateHook>,
    pub deadline: Instant,
}

fn ask(w: &mut World, cfg: &Cfg) {
    let o = w.observe(cfg.nkeys);
    w.exec(Op::Size);
    if cfg.flavor == Flavor::Unsync {
        w.exec(Op::Iter);
    }
    for k in 0..cfg.nkeys {
        w.exec(Op::Peek(k, Form::Equiv));
        w.exec(Op::Contains(k, Form::Owned));
        if cfg.flavor == Flavor::Unsync {
            w.exec(Op::PeekMut(k, None));
        }
        if o.res[k as usize].is_none() {
            w.exec(Op::Get(k, Form::Borrowed));
            w.exec(Op::Replace(k, types::w(1), k % 2 == 0));
        }
    }
    take_events();
}

/// Runs one sequence of phases; the violations found first.
pub fn run(j: &PJob, seq: &[u16], ops: &mut u64) -> Option<String> {
    let cfg = j.cfg;
    let mut where_ = String::new();
    let r = catch_unwind(AssertUnwindSafe(|| {
        types::reset();
        let mut w = World::new(cfg);
        let mut m = Model::new(cfg);
        let mut twin: Option<World> = match j.twin {
            Twin::Neutral | Twin::Soft => Some(World::new(cfg)),
            _ => None,
        };
        let mut policy = (j.twin == Twin::Policy).then(|| Policy::new(cfg));
        let mut path: Vec<u16> = vec![];
        let mut v: Viols = vec![];
        let took = std::cell::Cell::new(false);
        let pick = |v: &mut Viols| -> Option<String> {
            let tags = if took.get() { j.tags | j.after } else { j.tags };
            let r = v.iter().find(|x| x.0 & tags != 0).map(|x| x.1.clone());
            v.clear();
            r
        };
        for (pi, &ph) in seq.iter().enumerate() {
            let p = &j.phases[ph as usize];
            match j.twin {
                Twin::Neutral => ask(twin.as_mut().unwrap(), cfg),
                Twin::Soft => {
                    let t = twin.as_mut().unwrap();
                    for k in 0..cfg.nkeys {
                        if let Some((_, cl)) = m.res[k as usize] {
                            w.exec(Op::Replace(k, cl, true));
                            t.exec(Op::PeekMut(k, Some(cl)));
                        }
                    }
                    take_events();
                    m.res = w.observe(cfg.nkeys).res;
                }
                Twin::Clone if pi + 1 >= seq.len() / 2 && pi > 0 => {
                    if let Some(t) = twin.take() {
                        t.finish();
                    }
                    let mut t = World::new(cfg);
                    t.u = Some(Box::new((**w.u.as_ref().unwrap()).clone()));
                    twin = Some(t);
                }
                _ => (),
            }
            for (oi, &op) in p.ops.iter().enumerate() {
                if !m.enabled(cfg, op) {
                    continue;
                }
                where_.clear();
                use std::fmt::Write;
                let _ = write!(where_, "phase {} ({}), step {}: ", pi + 1, p.name, oi + 1);
                *ops += 1;
                took.set(took.get() || (j.took)(op));
                let uid = w.upcoming_uid();
                let out = w.exec(op);
                let ev = take_events();
                if let Some(t) = twin.as_mut() {
                    let o2 = t.exec(op);
                    let e2 = take_events();
                    let (ea, eb) = (evicted(&ev), evicted(&e2));
                    if ea != eb || std::mem::discriminant(&out) != std::mem::discriminant(&o2) {
                        let (tag, what) = match j.twin {
                            Twin::Neutral => (11, "questions that should be neutral influenced it"),
                            Twin::Soft => (11, "soft replace influenced it differently from writing in place"),
                            _ => (18, "the clone behaves differently"),
                        };
                        v.push((c(tag), format!("{op} gives {out:?} and evicts {ea:?}, the twin {o2:?} and {eb:?}: {what}")));
                        if let Some(x) = pick(&mut v) {
                            return Some(x);
                        }
                    }
                    if out == Out::Skip {
                        continue;
                    }
                    m.res = w.observe(cfg.nkeys).res;
                    continue;
                }
                if out == Out::Skip {
                    continue;
                }
                let live = types::live();
                let stats = w.stats();
                let obs = w.observe(cfg.nkeys);
                let mut info = StepInfo::default();
                m = m.step(cfg, op, uid, &out, &ev, &obs, live, stats, &mut info, &mut v);
                if let Some(p) = policy.as_mut() {
                    p.judge(cfg, op, &m, &info, &mut v);
                }
                if !v.is_empty() {
                    if let Some(x) = pick(&mut v) {
                        return Some(x);
                    }
                }
                if j.state.is_some() {
                    path.push(cfg.ops.iter().position(|o| *o == op).unwrap() as u16);
                }
            }
            if let Some(t) = twin.as_ref() {
                let (a, b) = (w.observe(cfg.nkeys), t.observe(cfg.nkeys));
                if a.len != b.len || a.weight != b.weight || (0..cfg.nkeys as usize).any(|k| a.res[k].is_some() != b.res[k].is_some()) {
                    v.push((c(11) | c(18), format!("after the phase the twins hold different entries: {a:?} versus {b:?}")));
                    if let Some(x) = pick(&mut v) {
                        return Some(x);
                    }
                }
            }
        }
        where_.clear();
        where_.push_str("at the end: ");
        if let Some(t) = twin {
            t.finish();
        }
        if let Some(h) = j.state {
            w.finish();
            *ops += h(cfg, &path, &m, &canon("", &[]), &mut v);
        } else {
            w.finish();
            let l = types::live();
            if l != (0, 0) {
                v.push((c(17), format!("{l:?} keys and values alive after dropping the cache")));
            }
            if let Some(d) = types::take_double_drop() {
                v.push((c(17), d));
            }
        }
        take_events();
        pick(&mut v)
    }));
    match r {
        Ok(r) => r.map(|m| where_ + &m),
        Err(e) => Some(format!("{where_}panicked: {}", panic_text(&*e))),
    }
}

pub fn text(phases: &[Phase], seq: &[u16]) -> String {
    seq.iter().map(|i| phases[*i as usize].name.clone()).collect::<Vec<_>>().join("; ")
}

pub fn explore(j: &PJob) -> (Stats, Option<Found>) {
    let n = j.phases.len();
    let total = n.pow(j.depth as u32);
    let pos = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let cut = AtomicBool::new(false);
    let (seqs, ops) = (AtomicU64::new(0), AtomicU64::new(0));
    let found: Mutex<Option<(usize, Found)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for wid in 0..WORKERS {
            let (pos, stop, cut, seqs, ops, found) = (&pos, &stop, &cut, &seqs, &ops, &found);
            sc.spawn(move || {
                ME.with(|m| m.set(wid));
                let mut seq = vec![0u16; j.depth];
                let (mut ls, mut lo) = (0, 0);
                loop {
                    let i = pos.fetch_add(1, Relaxed);
                    if i >= total || stop.load(Relaxed) {
                        break;
                    }
                    if Instant::now() > j.deadline {
                        cut.store(true, Relaxed);
                        break;
                    }
                    let mut x = i;
                    for s in seq.iter_mut().rev() {
                        *s = (x % n) as u16;
                        x /= n;
                    }
                    crumb(&seq, None);
                    ls += 1;
                    if let Some(msg) = run(j, &seq, &mut lo) {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|f| f.0 > i) {
                            *f = Some((i, Found { msg, path: seq.clone() }));
                        }
                        stop.store(true, Relaxed);
                    }
                }
                CRUMBS[wid].in_op.store(false, Relaxed);
                seqs.fetch_add(ls, Relaxed);
                ops.fetch_add(lo, Relaxed);
            });
        }
    });
    let st = Stats {
        states: seqs.load(Relaxed),
        transitions: ops.load(Relaxed),
        depth: j.depth,
        closed: !cut.load(Relaxed) && !stop.load(Relaxed),
        cut: cut.load(Relaxed),
        parsed: true,
        sample: text(j.phases, &(0..j.depth).map(|i| (i * 3 % n) as u16).collect::<Vec<_>>()),
        ..Default::default()
    };
    (st, found.into_inner().unwrap().map(|x| x.1))
}
