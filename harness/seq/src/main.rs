//! Explicit-state exploration of operation histories of quick_cache, on the real code.
//!
//!   seq check <C01..C27> <quick|thorough> <out.json> [seconds]   explore, write what was covered
//!   seq replay <file>                                          re-run a counterexample
//!   seq bench [names]                                          run configurations with all clauses
mod alpha;
mod bulk;
mod dump;
mod explore;
mod grid;
mod growth;
mod jobs;
mod model;
mod phases;
mod plain;
mod special;
mod tour;
mod types;
mod world;
use explore::*;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: growth::Counting = growth::Counting;

static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn main_progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

const RELEASE: bool = !cfg!(debug_assertions);
fn variant() -> &'static str {
    match (RELEASE, cfg!(feature = "full")) {
        (false, true) => "debug",
        (true, false) => "release",
        _ => "other",
    }
}

/// For the watchdog and the signal handler: what is running.
static JOB: Mutex<String> = Mutex::new(String::new());
static JOBNO: AtomicUsize = AtomicUsize::new(0);
static OUT: Mutex<Option<Report>> = Mutex::new(None);

struct Report {
    prop: String,
    tier: String,
    out: String,
    start: Instant,
    jobs: Vec<String>,
    states: u64,
    transitions: u64,
    hook_ops: u64,
    closed: bool,
    samples: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    fn write(&self, violation: Option<(&str, &[u16], &str, &str)>) {
        let mut s = String::new();
        write!(
            s,
            "{{\"engine\":\"seq\",\"variant\":{},\"property\":{},\"tier\":{},\"wall_s\":{:.2},\"states\":{},\"transitions\":{},\"checked_ops\":{},\"exhaustive\":{},\"merged\":{},\"jobs\":[{}],\"samples\":[{}]",
            esc(variant()),
            esc(&self.prop),
            esc(&self.tier),
            self.start.elapsed().as_secs_f64(),
            self.states,
            self.transitions,
            self.hook_ops,
            self.closed,
            cfg!(quick_cache_verif),
            self.jobs.join(","),
            self.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        if let Some((job, path, text, msg)) = violation {
            let p: Vec<String> = path.iter().map(|x| x.to_string()).collect();
            write!(
                s,
                ",\"violation\":{{\"job\":{},\"path\":[{}],\"history\":{},\"message\":{}}}",
                esc(job),
                p.join(","),
                esc(text),
                esc(msg)
            )
            .unwrap();
        }
        s.push_str("}\n");
        std::fs::write(&self.out, s).unwrap();
    }
}

#[cfg_attr(miri, allow(dead_code))]
extern "C" fn on_signal(sig: libc::c_int) {
    // no allocation here
    unsafe {
        let mut buf = [0u8; 512];
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for x in b {
                if n < buf.len() {
                    buf[n] = *x;
                    n += 1;
                }
            }
        };
        fn num(mut v: usize, put: &mut dyn FnMut(&[u8])) {
            let mut d = [0u8; 20];
            let mut i = 20;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            put(&d[i..]);
        }
        put(b"CRASH ");
        num(sig as usize, &mut put);
        put(b" ");
        num(JOBNO.load(Relaxed), &mut put);
        let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
        if me < WORKERS {
            if let Ok(p) = CRUMBS[me].path.try_lock() {
                for x in p.iter() {
                    put(b" ");
                    num(*x as usize, &mut put);
                }
            }
        }
        put(b"\n");
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(77);
    }
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = vec![(0u64, Instant::now()); WORKERS + 1];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut active = false;
            let mut stuck = None;
            for i in 0..=WORKERS {
                let b = if i < WORKERS { CRUMBS[i].busy.load(Relaxed) } else { PROGRESS.load(Relaxed) };
                if b != last[i].0 {
                    last[i] = (b, Instant::now());
                }
                if last[i].1.elapsed() < Duration::from_secs(20) {
                    active = true;
                } else if i < WORKERS && CRUMBS[i].in_op.load(Relaxed) {
                    stuck = Some(i);
                }
            }
            // one worker hangs in the code under test, or nothing moves at all
            let job = JOB.lock().unwrap().clone();
            if job.is_empty() || stuck.is_none() && active {
                continue;
            }
            let path = stuck.and_then(|i| CRUMBS[i].path.lock().ok().map(|p| p.clone())).unwrap_or_default();
            let text = jobs::pool().iter().find(|j| j.name == job).map_or(String::new(), |j| text_of(j, &path));
            if let Some(r) = OUT.lock().unwrap().as_ref() {
                r.write(Some((&job, &path, &text, "does not return: endless loop or deadlock (nothing happened for 20 s)")));
            }
            println!("HANG {job}");
            // not returning is not undefined
            let ub = OUT.lock().unwrap().as_ref().is_some_and(|r| r.prop == "C29");
            unsafe { libc::_exit(if ub { 3 } else { 1 }) }
        }
    });
}

fn pjob(j: &jobs::J, tags: (u64, u64, fn(world::Op) -> bool), thorough: bool, deadline: Instant) -> phases::PJob<'_> {
    phases::PJob {
        cfg: &j.cfg,
        phases: &j.phases,
        depth: if thorough { j.deep } else { j.depth },
        tags: tags.0,
        after: tags.1,
        took: tags.2,
        twin: j.twin,
        state: j.state,
        deadline,
    }
}

fn text_of(j: &jobs::J, path: &[u16]) -> String {
    if j.phases.is_empty() {
        path_text(&j.cfg, path)
    } else {
        phases::text(&j.phases, path)
    }
}

fn run_job(j: &mut jobs::J, tags: (u64, u64, fn(world::Op) -> bool), thorough: bool, deadline: Instant) -> (Stats, Option<Found>) {
    *JOB.lock().unwrap() = j.name.into();
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| j.cfg.prepare()))
        .unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(&*e))))
    {
        let f = if tags.0 & (model::c(15) | model::c(1)) != 0 { Some(Found { msg: e, path: vec![] }) } else { None };
        return (Stats::default(), f);
    }
    let mut job = Job {
        cfg: &j.cfg,
        tags: tags.0,
        after: tags.1,
        took: tags.2,
        depth: j.depth,
        max_states: j.max_states,
        merge: j.merge,
        step: j.step,
        state: j.state,
        deadline,
    };
    if !cfg!(quick_cache_verif) {
        // histories cannot be merged without the dump
        job.depth = job.depth.min(12);
        job.max_states = job.max_states.min(300_000);
    }
    let r = if j.phases.is_empty() { explore(&job) } else { phases::explore(&pjob(j, tags, thorough, deadline)) };
    JOB.lock().unwrap().clear();
    r
}

fn check(prop: &str, tier: &str, out: &str, secs: u64) -> i32 {
    let n: u32 = prop[1..].parse().expect("property id");
    let thorough = tier == "thorough";
    let start = Instant::now();
    let end = start + Duration::from_secs(secs);
    *OUT.lock().unwrap() = Some(Report {
        prop: prop.into(),
        tier: tier.into(),
        out: out.into(),
        start,
        jobs: vec![],
        states: 0,
        transitions: 0,
        hook_ops: 0,
        closed: true,
        samples: vec![],
    });
    let (names, tags, after, took) = jobs::plan(n, thorough, RELEASE);
    let total = names.len();
    for (i, name) in names.iter().enumerate() {
        let pos = jobs::pool().iter().position(|j| j.name == *name).unwrap_or_else(|| panic!("no configuration {name}"));
        let mut j = jobs::pool().swap_remove(pos);
        JOBNO.store(pos, Relaxed);
        let now = Instant::now();
        if now >= end {
            let mut o = OUT.lock().unwrap();
            let r = o.as_mut().unwrap();
            r.closed = false;
            r.jobs.push(format!("{{\"name\":{},\"skipped\":\"out of time\"}}", esc(name)));
            continue;
        }
        // what is left, shared fairly, but unused time is passed on
        let share = if thorough { (end - now) / (total - i) as u32 * 2 } else { end - now };
        let t = Instant::now();
        let (st, f) = run_job(&mut j, (tags, after, took), thorough, (now + share).min(end));
        let mut o = OUT.lock().unwrap();
        let r = o.as_mut().unwrap();
        r.states += st.states;
        r.transitions += st.transitions;
        r.hook_ops += st.hook_ops;
        // without merging the depth is the bound, and it is complete up to it
        r.closed &= st.closed || !j.merge && !st.cut;
        r.jobs.push(format!(
            "{{\"name\":{},\"config\":{},\"alphabet\":{},\"states\":{},\"transitions\":{},\"hook_operations\":{},\"evictions\":{},\"depth\":{},\"closed\":{},\"merged\":{},\"dump_parsed\":{},\"wall_s\":{:.2}}}",
            esc(j.name),
            esc(&j.cfg.describe()),
            j.cfg.ops.len(),
            st.states,
            st.transitions,
            st.hook_ops,
            st.evictions,
            st.depth,
            st.closed,
            j.merge && cfg!(quick_cache_verif),
            st.parsed,
            t.elapsed().as_secs_f64()
        ));
        if r.samples.len() < 6 && !st.sample.is_empty() {
            r.samples.push(format!("{}: {}", j.name, st.sample));
        }
        if let Some(f) = f {
            r.closed = false;
            r.write(Some((j.name, &f.path, &text_of(&j, &f.path), &f.msg)));
            return 1;
        }
    }
    if n == 15 {
        *JOB.lock().unwrap() = "grid".into();
        let g = grid::grid(thorough);
        let mut o = OUT.lock().unwrap();
        let r = o.as_mut().unwrap();
        r.states += g.points;
        r.transitions += g.ops;
        r.jobs.push(format!("{{\"name\":\"grid\",\"configurations\":{},\"operations\":{}}}", g.points, g.ops));
        r.samples.push(format!("grid: {}", g.sample));
        if let Some(m) = g.found {
            r.write(Some(("grid", &[], &m, &m)));
            return 1;
        }
    }
    if n == 12 {
        *JOB.lock().unwrap() = "sweep".into();
        let (points, ops, found) = std::panic::catch_unwind(|| special::scan_sweep(thorough))
            .unwrap_or_else(|e| (0, 0, Some(format!("panicked: {}", panic_text(&*e)))));
        let mut o = OUT.lock().unwrap();
        let r = o.as_mut().unwrap();
        r.states += points;
        r.transitions += ops;
        r.jobs.push(format!("{{\"name\":\"sweep\",\"configurations\":{points},\"operations\":{ops}}}"));
        if let Some(m) = found {
            r.write(Some(("sweep", &[], &m, &m)));
            return 1;
        }
    }
    if matches!(n, 1..=10 | 17) {
        *JOB.lock().unwrap() = "bulk".into();
        let (seqs, ops, found) = bulk::bulk(thorough, tags);
        let mut o = OUT.lock().unwrap();
        let r = o.as_mut().unwrap();
        r.states += seqs;
        r.transitions += ops;
        r.jobs.push(format!("{{\"name\":\"bulk\",\"sequences\":{seqs},\"operations\":{ops}}}"));
        if let Some(m) = found {
            r.write(Some(("bulk", &[], &m, &m)));
            return 1;
        }
    }
    if n == 17 {
        *JOB.lock().unwrap() = "plain".into();
        let (seqs, ops, found) = plain::plain(if thorough { 5 } else { 4 });
        {
            let mut o = OUT.lock().unwrap();
            let r = o.as_mut().unwrap();
            r.states += seqs;
            r.transitions += ops;
            r.jobs.push(format!("{{\"name\":\"plain\",\"sequences\":{seqs},\"operations\":{ops}}}"));
            if let Some(m) = found {
                r.write(Some(("plain", &[], &m, &m)));
                return 1;
            }
        }
        *JOB.lock().unwrap() = "growth".into();
        let left = end.saturating_duration_since(Instant::now()).max(Duration::from_secs(5));
        let g = growth::growth(if thorough { 4 } else { 3 }, 128, Instant::now() + left);
        let mut o = OUT.lock().unwrap();
        let r = o.as_mut().unwrap();
        r.states += g.cycles;
        r.transitions += g.ops;
        r.closed &= g.complete;
        r.jobs.push(format!("{{\"name\":\"growth\",\"cycles\":{},\"operations\":{},\"complete\":{}}}", g.cycles, g.ops, g.complete));
        r.samples.push(format!("growth: {}", g.sample));
        if let Some(m) = g.found {
            r.write(Some(("growth", &[], &m, &m)));
            return 1;
        }
    }
    JOB.lock().unwrap().clear();
    OUT.lock().unwrap().as_ref().unwrap().write(None);
    0
}

/// Writes walks through every transition of the configurations for C29, and prints what they cover.
fn tours(tier: &str, out: &str) -> i32 {
    let thorough = tier == "thorough";
    let (names, ..) = jobs::plan(30, thorough, RELEASE);
    let (mut text, mut rep) = (String::new(), vec![]);
    for name in names {
        let pos = jobs::pool().iter().position(|j| j.name == name).expect("configuration");
        JOBNO.store(pos, Relaxed);
        let mut j = jobs::pool().swap_remove(pos);
        if !cfg!(quick_cache_verif) {
            j.max_states = 400;
        }
        let g = tour::graph(&j);
        let w = tour::walks(&g, 400);
        for p in &w {
            write!(text, "{name}").unwrap();
            for x in p {
                write!(text, " {x}").unwrap();
            }
            text.push('\n');
        }
        rep.push(format!(
            "{{\"name\":{},\"config\":{},\"alphabet\":{},\"states\":{},\"transitions\":{},\"walks\":{},\"operations\":{},\"closed\":{}}}",
            esc(name),
            esc(&j.cfg.describe()),
            j.cfg.ops.len(),
            g.succ.len(),
            g.transitions,
            w.len(),
            w.iter().map(|p| p.len()).sum::<usize>(),
            g.succ.iter().flatten().all(|e| e.1 != u32::MAX)
        ));
    }
    std::fs::write(out, text).unwrap();
    println!("[{}]", rep.join(","));
    0
}

/// One history, judged step by step.
fn replay_path(name: &str, path: &[u16]) -> i32 {
    if name == "grid" || name == "growth" || name == "sweep" || name == "plain" || name == "bulk" {
        let m = if name == "sweep" { special::scan_sweep(true).2 } else if name == "plain" { plain::plain(5).2 } else if name == "bulk" { bulk::bulk(false, u64::MAX).2 } else if name == "grid" { grid::grid(false).found } else { growth::growth(3, 256, Instant::now() + Duration::from_secs(600)).found };
        println!("{}", m.as_deref().unwrap_or("no violation"));
        return m.is_some() as i32;
    }
    let pos = jobs::pool().iter().position(|j| j.name == name).expect("configuration");
    let mut j = jobs::pool().swap_remove(pos);
    if let Err(e) = j.cfg.prepare() {
        println!("{e}");
        return 1;
    }
    println!("{}", j.cfg.describe());
    if !j.phases.is_empty() {
        println!("  {}", text_of(&j, path));
        let r = phases::run(&pjob(&j, (u64::MAX, 0, |_| false), false, Instant::now()), path, &mut 0);
        println!("    {}", r.as_deref().unwrap_or("no violation"));
        return r.is_some() as i32;
    }
    let mut m = model::Model::new(&j.cfg);
    let mut bad = 0;
    for i in 0..path.len() {
        let mut v = vec![];
        println!("  {}", j.cfg.ops[path[i] as usize]);
        let r = transition(&j.cfg, &path[..i], &m, path[i], j.step, &mut v);
        if let (Some(r), Some(h)) = (&r, j.state) {
            h(&j.cfg, &path[..=i], &r.model, &r.canon, &mut v);
        }
        for x in &v {
            let props: Vec<String> = (1..=29).filter(|p| x.0 >> p & 1 == 1).map(|p| format!("C{p:02}")).collect();
            println!("    [{}] {}", if x.0 == u64::MAX { "all".into() } else { props.join(" ") }, x.1);
            bad = 1;
        }
        match r {
            Some(r) => m = r.model,
            None => break,
        }
    }
    bad
}

fn main() {
    if std::env::var_os("SEQ_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    #[cfg(not(miri))]
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            watchdog();
            let secs = args.get(5).map_or(600, |s| s.parse().unwrap());
            std::process::exit(check(&args[2], &args[3], &args[4], secs));
        }
        Some("replay") => {
            // job, then the indices of the operations
            let path: Vec<u16> = args[3..].iter().map(|x| x.parse().unwrap()).collect();
            std::process::exit(replay_path(&args[2], &path));
        }
        Some("tours") => std::process::exit(tours(&args[2], &args[3])),
        Some("walks") => {
            // lines of a job and the indices of operations
            let pool = jobs::ub();
            for (i, l) in std::fs::read_to_string(&args[2]).unwrap().lines().enumerate() {
                let mut l = l.split(' ');
                let name = l.next().unwrap();
                let path: Vec<u16> = l.map(|x| x.parse().unwrap()).collect();
                let j = pool.iter().find(|j| j.name == name).expect("configuration");
                println!("WALK {i}");
                tour::walk(&j.cfg, &path, args.len() > 3);
            }
            println!("END");
        }
        Some("jobname") => println!("{}", jobs::pool()[args[2].parse::<usize>().unwrap()].name),
        Some("text") => {
            let path: Vec<u16> = args[3..].iter().map(|x| x.parse().unwrap()).collect();
            let pool = jobs::pool();
            println!("{}", text_of(pool.iter().find(|j| j.name == args[2]).unwrap(), &path));
        }
        Some("bench") => {
            for mut j in jobs::pool() {
                let big = j.name.chars().next().unwrap().is_uppercase();
                if if args.len() > 2 { !args[2..].iter().any(|a| a == j.name) } else { big } {
                    continue;
                }
                let t = Instant::now();
                let (s, f) = run_job(&mut j, (u64::MAX, 0, |_| false), std::env::var_os("DEEP").is_some(), Instant::now() + Duration::from_secs(600));
                println!("{:7} {:4} ops {:8} states {:9} transitions {:9} hook depth {:3} closed {} parsed {} {:.1}s", j.name, j.cfg.ops.len(), s.states, s.transitions, s.hook_ops, s.depth, s.closed, s.parsed, t.elapsed().as_secs_f64());
                if let Some(f) = f {
                    println!("   FOUND {} :: {}", text_of(&j, &f.path), f.msg);
                }
            }
        }
        _ => {
            eprintln!("usage: seq check|replay|bench");
            std::process::exit(2);
        }
    }
}
