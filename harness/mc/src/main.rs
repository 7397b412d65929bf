//! Stateless model checking of the sync cache: all interleavings of small thread programs on the real code.
//!
//!   mc check <C16|C20..C28> <quick|thorough> <out.json> [seconds]
//!   mc replay <job> <program> <choices...>
//!   mc list <prop> <tier>        the programs
mod lin;
mod progs;
mod sched;
mod world;
use sched::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use world::*;

const WORKERS: usize = 8;
static BEATS: [AtomicU64; WORKERS] = [const { AtomicU64::new(0) }; WORKERS];
static AT: [AtomicUsize; WORKERS] = [const { AtomicUsize::new(usize::MAX) }; WORKERS];
static PATHS: [Mutex<Vec<u16>>; WORKERS] = [const { Mutex::new(Vec::new()) }; WORKERS];
static TRIES: AtomicBool = AtomicBool::new(false);
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

#[derive(Default, Clone)]
struct Stats {
    executions: u64,
    pruned: u64,
    states: u64,
    transitions: u64,
    histories: u64,
    complete: bool,
    sample: String,
}

struct Found {
    path: Vec<u16>,
    kind: Kind,
    msg: String,
    text: String,
}

/// What breaks the property.
fn relevant(prop: u32, k: Kind) -> bool {
    match prop {
        16 => k == Kind::Stats,
        17 => matches!(k, Kind::Leak | Kind::Panic),
        20 => matches!(k, Kind::History | Kind::Panic | Kind::Stuck),
        21 => matches!(k, Kind::Stuck | Kind::Panic),
        22 => matches!(k, Kind::Timeout | Kind::Stuck | Kind::Panic | Kind::History),
        23 => matches!(k, Kind::Stuck | Kind::Panic | Kind::History),
        24 | 25 => matches!(k, Kind::History | Kind::Panic),
        26 => matches!(k, Kind::History | Kind::Panic | Kind::Leak | Kind::Weight),
        27 => matches!(k, Kind::LockHeld | Kind::Stuck | Kind::Panic),
        _ => true,
    }
}

fn history_text(p: &Prog, calls: &[Call]) -> String {
    let mut t = format!("{p} ::");
    for c in calls {
        write!(t, " {c};").unwrap();
    }
    t
}

/// Judges one finished execution.
fn judge(calls: &[Call], shape: Shape, prop: u32, seen: &mut HashSet<u64>) -> Option<(Kind, String)> {
    if !relevant(prop, Kind::History) && !relevant(prop, Kind::Weight) && prop != 16 {
        return None;
    }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut order: Vec<&Call> = calls.iter().collect();
    order.sort_by_key(|c| (c.th, c.inv));
    for c in &order {
        (c.th, &c.what, &c.ret, &c.ev).hash(&mut h);
        let mut before = 0u64;
        for (i, d) in order.iter().enumerate() {
            before |= ((d.res < c.inv) as u64) << i;
        }
        before.hash(&mut h);
    }
    if !seen.insert(h.finish()) {
        return None;
    }
    let mut plain = lin::Lin::new(calls, shape, false);
    if !plain.ok() {
        let open: Vec<String> = plain.stuck.iter().take(4).map(|i| calls[*i].to_string()).collect();
        return Some((Kind::History, format!("no sequential order of the calls explains the results; the best one stops before {}", open.join(" | "))));
    }
    let pins = calls.iter().any(|c| c.ret == Ret::Boom || matches!(&c.what, What::Ins(_, v) | What::Rep(_, v) | What::Fin(_, _, v) if v.pin));
    for c in calls {
        if let (What::Weight, Ret::Num(x), false) = (&c.what, &c.ret, pins) {
            if *x > shape.total {
                return Some((Kind::Weight, format!("weight() {x} exceeds capacity() {}", shape.total)));
            }
        }
    }
    if prop == 16 && !lin::Lin::new(calls, shape, true).ok() {
        let c = calls.iter().find(|c| c.what == What::Stats).unwrap();
        return Some((Kind::Stats, format!("hits and misses {:?} do not count every lookup exactly once", c.ret)));
    }
    None
}

fn explore(prog: &Prog, shape: Shape, prop: u32, deadline: Instant, stop: &AtomicBool) -> (Stats, Option<Found>) {
    let p = Rc::new(prog.clone());
    let me = ME.with(|m| m.get());
    loop {
        let tries = TRIES.load(Relaxed);
        let mut st = Stats::default();
        let mut seen = HashSet::new();
        s().dfs = Dfs::new();
        loop {
            if me < WORKERS {
                let mut path = PATHS[me].lock().unwrap();
                path.clear();
                path.extend(s().dfs.stack.iter().map(|x| x.0));
            }
            let calls = execute(&p, tries);
            st.executions += 1;
            if s().restart {
                break;
            }
            if s().dfs.broken {
                // not a verdict about the code, but nothing more can be said about this program
                return (st, None);
            }
            let pruned = s().dfs.pruned;
            st.pruned += pruned as u64;
            let mut bad = s().vio.take();
            // what was found at the very end does not hide what the calls returned
            if matches!(&bad, Some((k @ (Kind::Leak | Kind::Weight), _)) if !relevant(prop, *k)) {
                bad = None;
            }
            if bad.is_none() && !pruned {
                bad = judge(&calls, shape, prop, &mut seen);
                if st.sample.is_empty() {
                    st.sample = history_text(&p, &calls);
                }
            }
            if let Some((kind, msg)) = bad {
                if relevant(prop, kind) {
                    st.states = s().dfs.states;
                    st.transitions = s().dfs.transitions;
                    let path = s().dfs.stack.iter().map(|x| x.0).collect();
                    return (st, Some(Found { path, kind, msg, text: history_text(&p, &calls) }));
                }
            }
            if !s().dfs.next() {
                st.complete = true;
                break;
            }
            if st.executions % 64 == 0 && (Instant::now() > deadline || stop.load(Relaxed)) {
                break;
            }
        }
        if s().restart {
            TRIES.store(true, Relaxed);
            s().restart = false;
            continue;
        }
        st.states = s().dfs.states;
        st.transitions = s().dfs.transitions;
        st.histories = seen.len() as u64;
        return (st, None);
    }
}

fn shapes() -> Vec<Option<Shape>> {
    s().reset(0, 0, false, false, false, false);
    (0..CFGS.len()).map(shape).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Report {
    prop: String,
    tier: String,
    out: String,
    jobs: Vec<(String, u64, u64, Stats)>,
    samples: Vec<String>,
    skipped: u64,
}
static REPORT: Mutex<Option<(Report, Instant)>> = Mutex::new(None);

impl Report {
    fn write(&self, start: Instant, violation: Option<(&[u16], &str, &str)>) {
        let tot = self.jobs.iter().fold(Stats::default(), |mut a, j| {
            a.states += j.3.states;
            a.transitions += j.3.transitions;
            a.executions += j.3.executions;
            a.histories += j.3.histories;
            a
        });
        let complete = self.skipped == 0 && self.jobs.iter().all(|j| j.1 == j.2) && violation.is_none();
        let jobs: Vec<String> = self
            .jobs
            .iter()
            .map(|(n, all, done, s)| {
                format!(
                    "{{\"name\":{},\"programs\":{all},\"explored_completely\":{done},\"executions\":{},\"cut_as_seen\":{},\"states\":{},\"transitions\":{},\"distinct_histories\":{}}}",
                    esc(n), s.executions, s.pruned, s.states, s.transitions, s.histories
                )
            })
            .collect();
        let mut t = format!(
            "{{\"engine\":\"mc\",\"variant\":\"interleavings\",\"property\":{},\"tier\":{},\"wall_s\":{:.2},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_histories\":{},\"exhaustive\":{complete},\"jobs\":[{}],\"samples\":[{}]",
            esc(&self.prop),
            esc(&self.tier),
            start.elapsed().as_secs_f64(),
            tot.states,
            tot.transitions,
            tot.executions,
            tot.histories,
            jobs.join(","),
            self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        );
        if let Some((path, text, msg)) = violation {
            let p: Vec<String> = path.iter().map(|x| x.to_string()).collect();
            write!(
                t,
                ",\"violation\":{{\"job\":{},\"path\":[{}],\"history\":{},\"message\":{}}}",
                esc(&format!("{}-{}", self.prop, self.tier)),
                p.join(","),
                esc(text),
                esc(msg)
            )
            .unwrap();
        }
        t.push_str("}\n");
        std::fs::write(&self.out, t).unwrap();
    }
}

fn watchdog(progs: std::sync::Arc<Vec<(String, Prog)>>) {
    std::thread::spawn(move || {
        let mut last = [(0u64, Instant::now()); WORKERS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..WORKERS {
                let b = BEATS[i].load(Relaxed);
                if b != last[i].0 || AT[i].load(Relaxed) == usize::MAX {
                    last[i] = (b, Instant::now());
                }
                if last[i].1.elapsed() > Duration::from_secs(20) {
                    let at = AT[i].load(Relaxed);
                    let mut path = vec![at as u16];
                    path.extend(PATHS[i].lock().map(|p| p.clone()).unwrap_or_default());
                    let text = progs[at].1.to_string();
                    if let Some((r, t)) = REPORT.lock().unwrap().as_ref() {
                        r.write(*t, Some((&path, &text, "does not return: endless loop without any synchronization (20 s)")));
                    }
                    println!("HANG {text}");
                    unsafe { libc::_exit(1) }
                }
            }
        }
    });
}

extern "C" fn on_signal(sig: libc::c_int) {
    // no allocation here
    unsafe {
        let mut buf = [0u8; 2048];
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for x in b {
                if n < buf.len() {
                    buf[n] = *x;
                    n += 1;
                }
            }
        };
        fn num(mut v: usize, put: &mut dyn FnMut(&[u8])) {
            let mut d = [0u8; 20];
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            put(&d[i..]);
        }
        put(b"CRASH ");
        num(sig as usize, &mut put);
        put(b" 0");
        let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if me < WORKERS {
            put(b" ");
            num(AT[me].load(Relaxed), &mut put);
            if let Ok(p) = PATHS[me].try_lock() {
                for x in p.iter() {
                    put(b" ");
                    num(*x as usize, &mut put);
                }
            }
        }
        put(b"\n");
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(77);
    }
}

fn check(prop: &str, tier: &str, out: &str, secs: u64) -> i32 {
    let n: u32 = prop[1..].parse().expect("property id");
    let start = Instant::now();
    let end = start + Duration::from_secs(secs);
    let progs = std::sync::Arc::new(progs::plan(n, tier == "thorough"));
    let mut names: Vec<String> = vec![];
    for p in progs.iter() {
        if !names.contains(&p.0) {
            names.push(p.0.clone());
        }
    }
    *REPORT.lock().unwrap() = Some((
        Report {
            prop: prop.into(),
            tier: tier.into(),
            out: out.into(),
            jobs: names.iter().map(|x| (x.clone(), 0, 0, Stats::default())).collect(),
            ..Default::default()
        },
        start,
    ));
    watchdog(progs.clone());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, Found)>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for me in 0..WORKERS {
            let (progs, next, stop, found) = (&progs, &next, &stop, &found);
            sc.spawn(move || {
                ME.with(|m| m.set(me));
                install();
                s().beat = Some(&BEATS[me]);
                let sh = shapes();
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= progs.len() || stop.load(Relaxed) {
                        break;
                    }
                    let now = Instant::now();
                    let (name, p) = &progs[i];
                    let r = match sh[p.cfg] {
                        Some(_) if now > end => None,
                        Some(x) => {
                            AT[me].store(i, Relaxed);
                            // one program does not take the time of all others
                            let left = (progs.len() - i).div_ceil(WORKERS) as u32;
                            let share = ((end - now) / left * 10).max(Duration::from_secs(2)).min(end - now);
                            let r = explore(p, x, n, now + share, stop);
                            AT[me].store(usize::MAX, Relaxed);
                            Some(r)
                        }
                        None => None,
                    };
                    let mut o = REPORT.lock().unwrap();
                    let rep = &mut o.as_mut().unwrap().0;
                    let Some((st, f)) = r else {
                        rep.skipped += 1;
                        continue;
                    };
                    if rep.samples.len() < 8 && i % (progs.len() / 6 + 1) == 0 && !st.sample.is_empty() {
                        rep.samples.push(st.sample.clone());
                    }
                    let j = rep.jobs.iter_mut().find(|j| j.0 == *name).unwrap();
                    j.1 += 1;
                    j.2 += st.complete as u64;
                    j.3.executions += st.executions;
                    j.3.pruned += st.pruned;
                    j.3.states += st.states;
                    j.3.transitions += st.transitions;
                    j.3.histories += st.histories;
                    drop(o);
                    if let Some(f) = f {
                        stop.store(true, Relaxed);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().is_none_or(|x| i < x.0) {
                            *g = Some((i, f));
                        }
                    }
                }
                // what is left of abandoned executions is not cleaned up
                s().dfs = Dfs::new();
            });
        }
    });
    let o = REPORT.lock().unwrap();
    let (r, _) = o.as_ref().unwrap();
    let f = found.lock().unwrap().take();
    match f {
        Some((i, f)) => {
            let mut path = vec![i as u16];
            path.extend(&f.path);
            r.write(start, Some((&path, &f.text, &format!("[{:?}] {}", f.kind, f.msg))));
            1
        }
        None => {
            r.write(start, None);
            0
        }
    }
}

fn find(job: &str) -> (u32, Vec<(String, Prog)>) {
    let (p, tier) = job.split_once('-').unwrap_or((job, "quick"));
    let n: u32 = p[1..].parse().unwrap();
    (n, progs::plan(n, tier == "thorough"))
}

fn replay(job: &str, path: &[u16]) -> i32 {
    install();
    let (n, progs) = find(job);
    let p = Rc::new(progs[path[0] as usize].1.clone());
    println!("{p}");
    let sh = shapes()[p.cfg].expect("shape");
    let mut tries = false;
    loop {
        let c = s();
        c.trace = Some(vec![]);
        c.dfs = Dfs::new();
        c.dfs.replay = true;
        c.dfs.stack = path[1..].iter().map(|x| (*x, 0)).collect();
        let calls = execute(&p, tries);
        if s().restart {
            tries = true;
            continue;
        }
        for l in s().trace.as_ref().unwrap() {
            println!("  {l}");
        }
        for c in &calls {
            println!("{c}");
        }
        let v = s().vio.take().or_else(|| judge(&calls, sh, n, &mut HashSet::new()));
        return match v {
            Some((k, m)) => {
                println!("[{k:?}] {m}");
                1
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
}

fn main() {
    if std::env::var_os("MC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    let args: Vec<String> = std::env::args().collect();
    let nums = |a: &[String]| -> Vec<u16> { a.iter().map(|x| x.parse().unwrap()).collect() };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &args[3], &args[4], args.get(5).map_or(600, |s| s.parse().unwrap())),
        Some("replay") => replay(&args[2], &nums(&args[3..])),
        Some("jobname") => {
            println!("?");
            0
        }
        Some("text") => {
            let p = nums(&args[3..]);
            println!("{}", find(&args[2]).1[p[0] as usize].1);
            0
        }
        Some("list") => {
            for (i, (n, p)) in find(&args[2]).1.iter().enumerate() {
                println!("{i} {n} {p}");
            }
            0
        }
        _ => 2,
    };
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    // abandoned coroutines are not unwound
    unsafe { libc::_exit(code) }
}
