//! Caches with the default lifecycle, weighter and hash function: what leaves is dropped by the time the call returns.
//! All sequences of operations up to a length, without merging.
use quick_cache::{sync, unsync};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LIVE: [Cell<i64>; 2] = const { [const { Cell::new(0) }; 2] };
}
fn add(i: usize, n: i64) {
    LIVE.with(|l| l[i].set(l[i].get() + n));
}
fn live() -> (i64, i64) {
    LIVE.with(|l| (l[0].get(), l[1].get()))
}
#[derive(PartialEq, Eq, Hash, Debug)]
struct K(u64);
#[derive(Debug)]
struct V(u64);
fn k(x: u64) -> K {
    add(0, 1);
    K(x)
}
fn v(x: u64) -> V {
    add(1, 1);
    V(x)
}
impl Clone for K {
    fn clone(&self) -> K {
        k(self.0)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        v(self.0)
    }
}
impl Drop for K {
    fn drop(&mut self) {
        add(0, -1)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        add(1, -1)
    }
}

const NK: u64 = 4;
const OPS: &[&str] = &["insert", "insert_with_lifecycle", "get", "remove", "replace", "get_or_insert_with", "failing get_or_insert_with", "guard", "replace_with_lifecycle"];
const ALL: usize = 9 * 3 + 2;

fn name(o: usize) -> String {
    match o {
        27 => "retain even".into(),
        28 => "clear".into(),
        o => format!("{} k{}", OPS[o / 3], o % 3 + (o / 3 == 1) as usize),
    }
}

fn step_u(c: &mut unsync::Cache<K, V>, o: usize, n: u64) {
    let q = (o % 3) as u64;
    match o {
        27 => c.retain(|x, _| x.0 % 2 == 0),
        28 => c.clear(),
        _ => match o / 3 {
            0 => c.insert(k(q), v(n)),
            1 => c.insert_with_lifecycle(k(q + 1), v(n)),
            2 => {
                c.get(&K0(q).k());
            }
            3 => drop(c.remove(&K0(q).k())),
            4 => drop(c.replace(k(q), v(n), false)),
            5 => {
                let _ = c.get_or_insert_with::<_, ()>(&K0(q).k(), || Ok(v(n)));
            }
            6 => {
                let _ = c.get_or_insert_with::<_, ()>(&K0(q).k(), || Err(()));
            }
            7 => {
                if let Err(g) = c.get_ref_or_guard(&K0(q).k()) {
                    g.insert(v(n))
                }
            }
            _ => drop(c.replace_with_lifecycle(k(q), v(n), true)),
        },
    }
}
fn step_s(c: &sync::Cache<K, V>, o: usize, n: u64) {
    let q = (o % 3) as u64;
    match o {
        27 => c.retain(|x, _| x.0 % 2 == 0),
        28 => c.clear(),
        _ => match o / 3 {
            0 => c.insert(k(q), v(n)),
            1 => drop(c.insert_with_lifecycle(k(q + 1), v(n))),
            2 => drop(c.get(&K0(q).k())),
            3 => drop(c.remove(&K0(q).k())),
            4 => drop(c.replace(k(q), v(n), false)),
            5 => drop(c.get_or_insert_with::<_, ()>(&K0(q).k(), || Ok(v(n)))),
            6 => drop(c.get_or_insert_with::<_, ()>(&K0(q).k(), || Err(()))),
            7 => {
                if let sync::GuardResult::Guard(g) = c.get_value_or_guard(&K0(q).k(), None) {
                    drop(g.insert(v(n)))
                }
            }
            _ => drop(c.replace_with_lifecycle(k(q), v(n), true)),
        },
    }
}
/// A key for a lookup, which is gone after the statement.
struct K0(u64);
impl K0 {
    fn k(&self) -> K {
        k(self.0)
    }
}

fn judge(len: usize, held: usize) -> Option<String> {
    let want = (len as i64, len as i64);
    (live() != want || held != len).then(|| format!("{len} entries, {held} of them found, but {} keys and {} values are alive", live().0, live().1))
}

fn run(seq: &[usize], cap: usize, sync_: bool) -> Result<(), String> {
    LIVE.with(|l| l.iter().for_each(|x| x.set(0)));
    let err = |i: usize, m: String| Err(format!("{}::Cache::new({cap}): {}: {m}", if sync_ { "sync" } else { "unsync" }, seq[..=i].iter().map(|o| name(*o)).collect::<Vec<_>>().join("; ")));
    if sync_ {
        let c = sync::Cache::<K, V>::new(cap);
        for (i, o) in seq.iter().enumerate() {
            step_s(&c, *o, i as u64);
            // only the last step is new
            if i + 1 == seq.len() {
                let held = (0..NK).filter(|x| c.contains_key(&k(*x))).count();
                if let Some(m) = judge(c.len(), held) {
                    return err(i, m);
                }
            }
        }
    } else {
        let mut c = unsync::Cache::<K, V>::new(cap);
        for (i, o) in seq.iter().enumerate() {
            step_u(&mut c, *o, i as u64);
            if i + 1 == seq.len() {
                let held = (0..NK).filter(|x| c.contains_key(&k(*x))).count();
                if let Some(m) = judge(c.len(), held) {
                    return err(i, m);
                }
            }
        }
    }
    if live() != (0, 0) {
        return err(seq.len() - 1, format!("after the cache was dropped {:?} keys and values are alive", live()));
    }
    Ok(())
}

/// Returns sequences and operations, and what was found.
pub fn plain(depth: usize) -> (u64, u64, Option<String>) {
    let (mut seqs, mut ops) = (0u64, 0u64);
    for len in 1..=depth {
        let total = (ALL as u64).pow(len as u32);
        let found = std::sync::Mutex::new(None::<(u64, String)>);
        let pos = std::sync::atomic::AtomicU64::new(0);
        use std::sync::atomic::Ordering::*;
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let from = pos.fetch_add(256, Relaxed);
                    if from >= total || found.lock().unwrap().is_some() {
                        break;
                    }
                    crate::main_progress();
                    for x in from..(from + 256).min(total) {
                        let mut y = x;
                        let seq: Vec<usize> = (0..len)
                            .map(|_| {
                                let o = (y % ALL as u64) as usize;
                                y /= ALL as u64;
                                o
                            })
                            .collect();
                        for cap in [1, 2, 3] {
                            for s in [false, true] {
                                let e = match catch_unwind(AssertUnwindSafe(|| run(&seq, cap, s))) {
                                    Ok(Ok(())) => continue,
                                    Ok(Err(e)) => e,
                                    Err(e) => format!("{:?} panicked: {}", seq.iter().map(|o| name(*o)).collect::<Vec<_>>(), crate::explore::panic_text(&*e)),
                                };
                                let mut f = found.lock().unwrap();
                                if f.as_ref().is_none_or(|f| f.0 > x) {
                                    *f = Some((x, e));
                                }
                            }
                        }
                    }
                });
            }
        });
        seqs += total * 6;
        ops += total * 6 * len as u64;
        if let Some(f) = found.into_inner().unwrap() {
            return (seqs, ops, Some(f.1));
        }
    }
    (seqs, ops, None)
}
