//! Which thread programs are explored for which property.
use crate::world::*;

fn ld(out: Out) -> Load {
    Load { inner: vec![], out, pend: false }
}
fn goi(k: u8) -> T {
    T::Goi(k, ld(Out::Ok(v(1))))
}
fn goi_w(k: u8, w: u16) -> T {
    T::Goi(k, ld(Out::Ok(v(w))))
}
fn goi_err(k: u8) -> T {
    T::Goi(k, ld(Out::Err))
}
fn goi_panic(k: u8) -> T {
    T::Goi(k, ld(Out::Panic))
}
fn goi_do(k: u8, inner: Vec<T>) -> T {
    T::Goi(k, Load { inner, out: Out::Ok(v(1)), pend: false })
}
fn goi_do_err(k: u8, inner: Vec<T>) -> T {
    T::Goi(k, Load { inner, out: Out::Err, pend: false })
}
fn am(drop: bool, spur: bool) -> Am {
    Am { drop, spur }
}
fn goia(k: u8) -> T {
    T::GoiA(k, ld(Out::Ok(v(1))), am(false, false))
}
fn goia_err(k: u8) -> T {
    T::GoiA(k, ld(Out::Err), am(false, false))
}
fn goia_x(k: u8, out: Out, pend: bool, drop: bool, spur: bool) -> T {
    T::GoiA(k, Load { inner: vec![], out, pend }, am(drop, spur))
}
fn goia_do(k: u8, inner: Vec<T>) -> T {
    T::GoiA(k, Load { inner, out: Out::Ok(v(1)), pend: true }, am(false, false))
}
fn act(ins: bool) -> Act {
    Act { inner: vec![], ins: ins.then_some(v(1)) }
}
fn acq(k: u8, ins: bool) -> T {
    T::Acq(k, To::Never, act(ins))
}
fn acq_w(k: u8, w: u16) -> T {
    T::Acq(k, To::Never, Act { inner: vec![], ins: Some(v(w)) })
}
fn acq_do(k: u8, inner: Vec<T>, ins: bool) -> T {
    T::Acq(k, To::Never, Act { inner, ins: ins.then_some(v(1)) })
}
fn acq_t(k: u8, t: u64, ins: bool) -> T {
    T::Acq(k, To::Ns(t), act(ins))
}
fn acq_to(k: u8, t: To, ins: bool) -> T {
    T::Acq(k, t, act(ins))
}
fn acqa(k: u8, ins: bool) -> T {
    T::AcqA(k, am(false, false), act(ins))
}
fn acqa_x(k: u8, ins: bool, drop: bool, spur: bool) -> T {
    T::AcqA(k, am(drop, spur), act(ins))
}
fn acqa_do(k: u8, inner: Vec<T>, ins: bool) -> T {
    T::AcqA(k, am(false, false), Act { inner, ins: ins.then_some(v(1)) })
}
fn ins(k: u8) -> T {
    T::Ins(k, v(1))
}
fn ins_w(k: u8, w: u16) -> T {
    T::Ins(k, v(w))
}
fn rep(k: u8) -> T {
    T::Rep(k, v(1), false)
}
const HUGE: u16 = 200;

type Threads = Vec<Vec<T>>;

/// All ways to give `n` threads one program each, up to the order of the threads.
fn multi(alpha: &[Vec<T>], n: usize) -> Vec<Threads> {
    fn go(alpha: &[Vec<T>], n: usize, from: usize, cur: &mut Threads, out: &mut Vec<Threads>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..alpha.len() {
            cur.push(alpha[i].clone());
            go(alpha, n - 1, i, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(alpha, n, 0, &mut vec![], &mut out);
    out
}
/// One thread program from each list, in all combinations.
fn cross(lists: &[&[Vec<T>]]) -> Vec<Threads> {
    let mut out: Vec<Threads> = vec![vec![]];
    for l in lists {
        out = out.into_iter().flat_map(|o| l.iter().map(move |x| [o.clone(), vec![x.clone()]].concat())).collect();
    }
    out
}
fn one(a: &[T]) -> Vec<Vec<T>> {
    a.iter().map(|x| vec![x.clone()]).collect()
}
fn seqs(a: &[T], b: &[T]) -> Vec<Vec<T>> {
    a.iter().flat_map(|x| b.iter().map(move |y| vec![x.clone(), y.clone()])).collect()
}

struct Plan {
    out: Vec<(String, Prog)>,
    /// added to every bound
    extra: u8,
}
impl Plan {
    /// `setups`: configuration and what happens before the threads start.
    fn add(&mut self, name: &str, setups: &[(usize, Vec<T>)], threads: &[Threads], bound: u8, spurious: u8, stats: bool) {
        for th in threads {
            for (cfg, setup) in setups {
                let mut p = Prog { cfg: *cfg, setup: setup.clone(), th: th.clone(), spurious, points64: stats, delays: false, bound: bound + self.extra };
                p.number();
                self.out.push((name.to_string(), p));
            }
        }
    }
}

/// Nothing there; room for two.
fn empty() -> (usize, Vec<T>) {
    (0, vec![])
}
/// Plenty of room.
fn big() -> (usize, Vec<T>) {
    (1, vec![])
}
fn resident() -> (usize, Vec<T>) {
    (1, vec![ins(0)])
}
/// Full without k0.
fn full() -> (usize, Vec<T>) {
    (0, vec![ins(1), ins(2)])
}
/// k0 was evicted and is remembered.
fn ghost() -> (usize, Vec<T>) {
    (0, vec![ins(0), ins(1), ins(2), ins(3), ins(1)])
}
fn two() -> (usize, Vec<T>) {
    (3, vec![])
}

pub fn plan(prop: u32, thorough: bool) -> Vec<(String, Prog)> {
    let extra = match (prop, thorough) {
        (16 | 17 | 24 | 25 | 26 | 27, false) => 2,
        (16 | 17 | 24 | 25 | 26 | 27, true) => 4,
        (23, false) => 1,
        (23, true) => 3,
        (22, false) => 0,
        (22, true) => 1,
        (_, false) => 1,
        (_, true) => 2,
    };
    let mut p = Plan { out: vec![], extra };
    // many callers of one key, in the order they come
    let crowd = |n: u8| -> Vec<Threads> {
        let mut out = vec![];
        let i = || vec![T::Signal(0), T::Wait(n)];
        let load = |out| T::Goi(0, Load { inner: i(), out, pend: false });
        for first in [load(Out::Ok(v(1))), load(Out::Err), load(Out::Panic), acqa_do(0, i(), true), acqa_do(0, i(), false), acq_do(0, [i(), vec![T::Rem(0)]].concat(), true), acq_do(0, [i(), vec![ins(0)]].concat(), false)] {
            for w in [vec![goi(0)], vec![acqa(0, true)], vec![goi_err(0)], vec![acqa(0, false)], vec![goi(0), acqa(0, true)], vec![goi_err(0), goi(0), acqa(0, false)]] {
                let mut th = vec![vec![first.clone()]];
                th.extend((0..n).map(|i| vec![T::Wait(i), T::Signal(i + 1), w[i as usize % w.len()].clone()]));
                out.push(th);
            }
        }
        out
    };
    // more of them, one default schedule and a few departures from it
    let throng = |n: u8| -> Vec<(String, Prog)> {
        let mut q = Plan { out: vec![], extra: 0 };
        q.add("throng", &[big()], &crowd(n), if thorough { 3 } else { 2 }, 0, false);
        q.out.iter_mut().for_each(|p| p.1.delays = true);
        q.out
    };
    // the ways to load k0
    let loads = || vec![goi(0), goi_err(0), goi_panic(0), goia(0), goia_err(0), acq(0, true), acq(0, false), acqa(0, true), acqa(0, false)];
    let timed = || vec![acq_t(0, 100, true), acq_t(0, 100, false)];
    let cancel = || vec![acqa_x(0, true, true, false), acqa_x(0, false, true, false), goia_x(0, Out::Ok(v(1)), true, true, false)];
    let disrupt = || vec![T::Rem(0), ins(0), ins_w(0, HUGE), T::Clear, rep(0), T::Retain(1)];
    match prop {
        16 => {
            let look = vec![T::Get(0), goi(0), goi_err(0), goia(0), acq(0, true), acq(0, false), acqa(0, true), acq_t(0, 100, true), T::Get(1)];
            let other = vec![T::Peek(0), T::Has(0), ins(0), T::Rem(0), rep(0), T::Clear];
            let st = [big(), resident(), two()];
            p.add("lookups", &st, &multi(&one(&look), 2), 2, 0, true);
            p.add("lookups and others", &st, &cross(&[&one(&look), &one(&other)]), 2, 0, true);
            p.add("three lookups", &[big()], &multi(&one(&look[..7]), 3), 1, 0, true);
            p.add("cancelled", &[big()], &cross(&[&one(&look[..7]), &one(&cancel())]), 2, 0, true);
            p.add("evicting", &[full(), ghost()], &multi(&one(&look), 2), 2, 0, true);
            p.add("two each", &[big()], &multi(&seqs(&look[..4], &[T::Get(0), goi(0), T::Rem(0)]), 2), 1, 0, true);
        }
        17 => {
            let l = [&loads()[..], &[acq_t(0, 100, true), acq_t(0, 100, false), goi_w(0, HUGE)], &cancel()].concat();
            let d = [disrupt(), vec![ins(1), T::Rem(1), goi(1), T::Retain(0)]].concat();
            p.add("two loads", &[big(), full(), ghost()], &multi(&one(&l), 2), 2, 0, false);
            p.add("load and another call", &[big(), full(), ghost(), resident()], &cross(&[&one(&l), &one(&d)]), 2, 0, false);
            p.add("two loads and another call", &[big()], &cross(&[&multi2(&one(&[&loads()[..], &cancel()[..1], &timed()[..1]].concat())), &one(&disrupt()[..4])].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 0, false);
            p.add("loads inside loads", &[big()], &cross(&[&one(&disrupt().into_iter().flat_map(|x| [goi_do(0, vec![x.clone()]), acq_do(0, vec![x], false)]).collect::<Vec<_>>()), &one(&loads()[..6])]), 1, 0, false);
            p.add("stores", &[resident(), full(), (4, vec![ins(1), ins(2), ins(0)])], &multi(&one(&[&d[..], &[goi(0), acqa(0, false)]].concat()), 2), 2, 0, false);
        }
        20 => {
            p.add("two loads", &[empty(), ghost(), full(), resident()], &multi(&one(&loads()), 2), 2, 0, false);
            p.add("three loads", &[empty()], &multi(&one(&loads()), 3), 2, 0, false);
            let few = [goi(0), goi_err(0), acqa(0, true), acq(0, false)];
            p.add("two loads each", &[empty()], &multi(&seqs(&few, &few), 2), 2, 0, false);
            p.add("load of another key", &[big()], &cross(&[&one(&few), &one(&few), &one(&[goi(1), goi_err(1)])]), 1, 0, false);
            p.extra = thorough as u8;
            p.add("timed and cancelled", &[big()], &cross(&[&one(&few), &one(&few), &one(&[timed(), cancel()].concat())]), 1, 1, false);
            p.add("four loads", &[big()], &multi(&one(&[goi(0), goi_err(0), acqa(0, false)]), 4), 1, 0, false);
            p.extra = extra;
            p.add("evicted meanwhile", &[full()], &cross(&[&one(&few), &seqs(&[ins(1), ins(3)], &[ins(2)])]), 2, 0, false);
            p.extra = 0;
            p.add("crowd", &[big()], &(if thorough { crowd(6) } else { crowd(5).into_iter().step_by(7).collect::<Vec<_>>() }), 0, 0, false);
            // those that are no burden for the search for an order
            p.out.extend(throng(12).into_iter().enumerate().filter(|(i, _)| matches!(i % 6, 0 | 1 | 4)).map(|x| x.1));
        }
        21 => {
            let l = [goi(0), goi_err(0), goi_panic(0), acq(0, false), acqa(0, true), acqa(0, false)];
            p.add("loads and other calls", &[big()], &cross(&[&multi2(&one(&l)), &one(&disrupt())].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 2, 1, false);
            p.add("timed", &[big()], &cross(&[&multi2(&one(&l)), &one(&timed())].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 1, false);
            p.add("cancelled", &[big()], &cross(&[&multi2(&one(&l)), &one(&cancel())].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 0, false);
            let all = [vec![goi(0), goi(1), goi_err(0), acqa(1, true)], disrupt(), vec![T::Get(0), T::Len, T::Weight, T::Empty, T::Reserve, ins(1), T::Rem(1)]].concat();
            p.add("any two", &[(2, vec![ins(0)]), (2, vec![])], &multi(&one(&all), 2), 2, 0, false);
            p.add("any two, two each", &[(2, vec![])], &multi(&seqs(&[goi(0), goi_err(0), goi(1), T::Clear, ins(0)], &[goi(1), goi_err(1), goi(0), T::Rem(0), T::Len]), 2), 1, 0, false);
            p.extra = thorough as u8;
            p.add("removed and loaded again", &[big()], &cross(&[&one(&l), &one(&l), &seqs(&[T::Rem(0), ins(0), T::Clear], &[goi(0), goi_err(0), acqa(0, false)])]), 1, 0, false);
            p.extra = extra;
            p.add("abandoned by all", &[big()], &multi(&one(&[goi_err(0), acq(0, false), acqa(0, false), goia_err(0), goi_panic(0)]), 3), 2, 0, false);
            p.extra = thorough as u8;
            p.add("four", &[big()], &multi(&one(&[goi_err(0), goi(0), acqa(0, false), T::Rem(0)]), 4), 1, 0, false);
            p.extra = 0;
            p.add("crowd", &[big()], &(if thorough { crowd(6) } else { crowd(5).into_iter().skip(1).step_by(5).collect::<Vec<_>>() }), 0, 0, false);
            p.out.extend(throng(13));
        }
        22 => {
            let waiters = vec![acq_t(0, 100, true), acq_t(0, 100, false), acq_t(0, 0, true), acq_to(0, To::Max, true)];
            let slow = |d| vec![goi_do(0, vec![T::Sleep(d)]), goi_do_err(0, vec![T::Sleep(d)]), acq_do(0, vec![T::Sleep(d)], false), acqa_do(0, vec![T::Sleep(d)], true)];
            let plain = vec![goi(0), goi_err(0), acq(0, false), acqa(0, true)];
            p.add("one waits", &[big(), (0, vec![])], &cross(&[&one(&[slow(50), slow(150), plain.clone()].concat()), &one(&waiters)]), 2, 2, false);
            p.add("two wait", &[big()], &cross(&[&one(&[slow(150), plain.clone()].concat()), &pairs(&waiters[..3])].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 1, false);
            p.add("with other waiters", &[big()], &cross(&[&one(&[slow(150), plain.clone()].concat()), &one(&waiters[..2]), &one(&[goi(0), acq(0, false), acqa(0, true), goi_err(0), acqa(0, false)])]), 1, 1, false);
            p.add("removed meanwhile", &[big()], &cross(&[&one(&slow(150)), &one(&waiters), &one(&[T::Rem(0), ins(0), T::Clear])]), 1, 1, false);
            p.add("again", &[big()], &cross(&[&one(&slow(150)), &seqs(&[acq_t(0, 60, true), acq_t(0, 60, false)], &[acq_t(0, 60, true), goi(0), T::Get(0)])]), 2, 1, false);
            p.add("different limits", &[big()], &cross(&[&one(&slow(150)), &one(&[acq_t(0, 60, true), acq_t(0, 60, false)]), &one(&[acq_t(0, 200, true), acq_t(0, 200, false)])]), 1, 1, false);
            p.add("without limit", &[big()], &cross(&[&one(&slow(150)), &one(&[acq(0, true), acq(0, false)])]), 2, 2, false);
            for l in [999u64, 1_000_003, 3_500_000, 5_000_000_007, (1 << 32) + 50, 3_600_000_000_000, (50 * 86_400 + 1) * 1_000_000_000] {
                p.add("long limits", &[big()], &cross(&[&one(&[slow(1), slow(l / 2), slow(l - 1), slow(l + 1), slow(l * 2)].concat()), &one(&[acq_t(0, l, true), acq_t(0, l, false)])]), 1, 1, false);
            }
            p.add("load of one that timed out", &[big()], &cross(&[&[vec![acq_do(0, vec![T::Sleep(50)], false)]], &one(&[acq_do(0, vec![T::Sleep(100)], false), goi_do_err(0, vec![T::Sleep(100)])]), &one(&[acq_t(0, 100, true), acq_t(0, 100, false)])]), 1, 1, false);
        }
        23 => {
            let a = |d, s| vec![acqa_x(0, true, d, s), acqa_x(0, false, d, s), goia_x(0, Out::Ok(v(1)), true, d, s), goia_x(0, Out::Err, false, d, s)];
            let owner = vec![goi(0), goi_err(0), goi_panic(0), acq(0, true), acq(0, false), goia_x(0, Out::Ok(v(1)), true, false, false)];
            let free = a(true, true);
            p.add("one future", &[big(), ghost()], &cross(&[&one(&owner), &one(&free)]), 2, 0, false);
            p.add("only futures", &[big()], &multi(&one(&free), 2), 2, 0, false);
            p.add("future and another waiter", &[big()], &cross(&[&one(&owner[..5]), &one(&a(true, false)), &one(&[goi(0), acqa(0, true), acqa(0, false), acq(0, false)])]), 1, 0, false);
            p.add("re-polled and another waiter", &[big()], &cross(&[&one(&owner[..5]), &one(&a(false, true)), &one(&[goi(0), acqa(0, false)])]), 1, 0, false);
            p.add("two droppable futures", &[big()], &cross(&[&one(&owner[..5]), &pairs(&a(true, false))].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 0, false);
            p.add("removed meanwhile", &[big()], &cross(&[&one(&owner[..5]), &one(&free), &one(&[T::Rem(0), ins(0), T::Clear])]), 1, 0, false);
            p.add("timed", &[big()], &cross(&[&one(&owner[..5]), &one(&a(true, false)), &one(&timed())]), 1, 0, false);
            p.add("then again", &[big()], &cross(&[&one(&owner[..5]), &seqs(&a(true, false)[..2], &[goi(0), T::Get(0), acqa(0, true)])]), 2, 0, false);
        }
        24 => {
            let base = vec![T::Get(0), T::Has(0), ins(0), rep(0), T::Rem(0), goi(0), acq(0, true), acqa(0, true)];
            let more = vec![T::Peek(0), T::Clear, T::Retain(1), T::Len, T::Weight, T::Empty, ins(1), T::Rem(1), T::Get(1), goi_err(0), acq(0, false), goia(0), acq_t(0, 100, true), ins_w(0, HUGE), goi_w(0, HUGE), goi(1)];
            let all = [base.clone(), more.clone()].concat();
            p.add("any two", &[big(), resident(), (2, vec![]), full()], &multi(&one(&all), 2), 2, 0, false);
            p.add("any three", &[big(), resident()], &multi(&one(&base), 3), 2, 0, false);
            p.add("two each", &[big(), resident()], &multi(&seqs(&base, &[T::Get(0), ins(0), T::Rem(0), goi(0)]), 2), 2, 0, false);
            p.extra = thorough as u8;
            p.add("any four", &[big(), resident()], &multi(&one(&[T::Get(0), ins(0), T::Rem(0), goi(0), rep(0), acqa(0, false)]), 4), 1, 0, false);
            p.extra = extra;
            let f = [T::Get(0), ins(0), T::Rem(0), goi(0)];
            let three: Vec<Vec<T>> = seqs(&f, &f).into_iter().flat_map(|s| f.iter().map(move |x| [s.clone(), vec![x.clone()]].concat())).collect();
            p.add("three each", &[big()], &multi(&three, 2), 1, 0, false);
            p.add("two, two and one", &[big(), full()], &cross(&[&seqs(&f, &f[..2]), &seqs(&f[1..], &f[..2]), &one(&f)]), 0, 0, false);
            p.add("two each, others", &[resident()], &cross(&[&seqs(&[ins(0), T::Rem(0), goi(0)], &[T::Get(0), T::Rem(0), T::Get(1), ins(1)]), &seqs(&more[..12], &[T::Get(0), ins(0)])]), 1, 0, false);
            p.add("evicting", &[full(), (4, vec![ins(1), ins(2)])], &multi(&seqs(&[ins(0), goi(0), ins(3), T::Rem(1), T::Get(1)], &[T::Get(0), ins(1), goi(3), rep(2)]), 2), 1, 0, false);
            p.add("two shards", &[(2, vec![ins_w(0, 2)])], &multi(&seqs(&[ins_w(0, 2), ins_w(1, 2), ins_w(2, 2), goi(1), T::Clear], &[T::Len, T::Weight, T::Get(0), T::Empty, T::Rem(1)]), 2), 1, 0, false);
        }
        25 => {
            let own = vec![acq(0, true), goi(0), acqa(0, true), goia(0), acq_w(0, HUGE), goi_err(0), acq(0, false)];
            let dis = [disrupt(), vec![T::Rem(1), ins(1)]].concat();
            p.add("load and change", &[big(), ghost(), full()], &cross(&[&one(&own), &one(&dis)]), 2, 0, false);
            p.add("load and two changes", &[big(), empty()], &cross(&[&one(&own), &seqs(&dis[..6], &[T::Rem(0), ins(0), T::Clear, goi(0), acq(0, false), T::Get(0)])]), 2, 0, false);
            p.add("two loads and change", &[big()], &cross(&[&one(&own[..5]), &one(&[goi(0), acq(0, false), acqa(0, true), goi_err(0)]), &one(&dis[..4])]), 2, 0, false);
            p.add("two loads and two changes", &[big()], &cross(&[&one(&[goi(0), acq(0, true), goi_err(0)]), &one(&[goi(0), acq(0, false)]), &seqs(&[T::Rem(0), ins(0), ins_w(0, HUGE)], &[T::Rem(0), ins(0), goi(0)])]), 1, 0, false);
            p.add("changed from within", &[big(), full()], &cross(&[&one(&nested(&[T::Rem(0), ins(0), ins_w(0, HUGE), T::Clear])), &one(&[goi(0), T::Get(0), T::Rem(0), ins(0), acq(0, false), acqa(0, true)])]), 2, 0, false);
            p.add("slot reused", &[big(), empty()], &cross(&[&one(&[acq_do(0, vec![T::Rem(0), acq_do(1, vec![], true)], true), acq_do(0, vec![T::Rem(0), goi(1), ins(2)], true), acq_do(0, vec![T::Clear, goi(1)], true)]), &one(&[goi(0), goi(1), T::Get(1), T::Rem(1), acq(0, false)])]), 2, 0, false);
        }
        26 => {
            let sto = vec![ins(0), ins(1), ins(3), goi(0), goi(3), rep(1), T::Rem(1), acqa(3, true)];
            let obs = vec![T::Len, T::Weight, T::Empty];
            let st = [full(), empty(), (4, vec![ins(1), ins(2), ins(0)])];
            p.add("two stores", &st, &multi(&one(&[sto.clone(), vec![T::Clear, T::Retain(1), ins_w(0, HUGE), goi_w(0, HUGE), T::Ins(0, pinned(2)), T::Ins(1, pinned(1)), ins_w(0, 0), T::Rep(1, v(2), true)]].concat()), 2), 2, 0, false);
            p.add("three stores", &[full()], &multi(&one(&sto), 3), 2, 0, false);
            p.extra = thorough as u8;
            p.add("four stores", &[full()], &multi(&one(&[ins(0), ins(1), goi(0), ins(3), T::Rem(1), acqa(3, false)]), 4), 1, 0, false);
            p.extra = extra;
            p.add("stores and observer", &[full()], &cross(&[&pairs(&sto), &one(&obs)].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 0, false);
            p.add("two each", &[full(), (4, vec![ins(1), ins(2)])], &multi(&seqs(&sto[..6], &[ins(0), T::Rem(0), goi(3), T::Weight]), 2), 1, 0, false);
            p.add("two shards", &[(2, vec![ins_w(0, 2), ins_w(1, 2)])], &multi(&seqs(&[ins_w(2, 2), ins_w(3, 2), goi_w(2, 2), T::Clear, T::Rem(0)], &[T::Weight, T::Len, ins_w(0, 2)]), 2), 1, 0, false);
            p.add("loads abandoned and replaced", &[full()], &multi(&one(&[goi(0), goi_err(0), ins(0), T::Rem(0), T::Clear, acqa_x(0, true, true, false)]), 3), 1, 0, false);
        }
        27 => {
            let any = |k: u8| vec![T::Get(k), T::Peek(k), T::Has(k), ins(k), rep(k), T::Rem(k), T::Clear, T::Retain(k), T::Len, T::Weight, T::Empty, T::Reserve];
            let inner = [any(0), vec![goi(2), goi_err(2), acqa(2, true), ins(2), T::Rem(2), T::Get(2), acq_t(2, 50, true)]].concat();
            let st = [(3, vec![ins(2)]), (0, vec![]), full()];
            p.add("alone", &st, &cross(&[&one(&nested(&inner))]), 2, 0, false);
            p.add("with another call", &[(0, vec![]), (3, vec![])], &cross(&[&one(&nested(&[any(0), vec![goi(2), goi(1)]].concat())), &one(&[goi(0), ins(0), T::Rem(0), goi(2), T::Clear, acqa(0, false)])]), 2, 0, false);
            // the loader ends only once the other thread got through
            let wait = |t: fn(u8, Vec<T>) -> T| vec![t(0, vec![T::Wait(0)])];
            let slow: Vec<T> = [wait(goi_do), wait(goi_do_err), wait(goia_do), vec![acq_do(0, vec![T::Wait(0)], true), acq_do(0, vec![T::Wait(0)], false), acqa_do(0, vec![T::Wait(0)], true)]].concat();
            let go = [any(0), any(2), vec![goi(2), goi_err(2), acqa(2, true), goi(1), ins(1), acq_t(0, 50, true)]].concat();
            let th: Vec<Threads> = slow.iter().flat_map(|x| go.iter().map(move |y| vec![vec![x.clone()], vec![y.clone(), T::Signal(0)]])).collect();
            p.add("slow loader", &[(1, vec![]), (0, vec![ins(2)])], &th, 2, 0, false);
            let th: Vec<Threads> = slow.iter().flat_map(|x| go.iter().map(move |y| vec![vec![x.clone()], vec![goi(0)], vec![y.clone(), T::Signal(0)]])).collect();
            p.add("slow loader and a waiter", &[(1, vec![])], &th, 1, 0, false);
            let th: Vec<Threads> = slow.iter().flat_map(|x| go.iter().map(move |y| vec![vec![x.clone()], vec![acqa(0, false)], vec![y.clone(), T::Signal(0)]])).collect();
            p.add("slow loader and an async waiter", &[(1, vec![])], &th, 1, 0, false);
            p.add("loaders within loaders", &[big(), (3, vec![])], &cross(&[&one(&[goi_do(0, vec![goi(1)]), goi_do(0, vec![goi_do(1, vec![goi(2)])])]), &one(&[goi_do(0, vec![goi(1)]), goi(1), goi_do(2, vec![goi(3)]), goi_do(1, vec![T::Rem(0)])])]), 2, 0, false);
        }
        28 => {
            let own = [goi(0), goia(0), acq(0, true), acqa(0, true)];
            let wait = [goi(0), goi_err(0), acq(0, false), acqa(0, true), acqa(0, false), acqa_x(0, true, true, false), acq_t(0, 100, true)];
            p.add("interrupted load and a waiter", &[big(), full()], &cross(&[&one(&boom(&own, 6)), &one(&wait)]), 2, 0, false);
            p.add("interrupted load and two waiters", &[big()], &cross(&[&one(&boom(&own, 4)), &pairs(&wait[..5])].map(|x| &x[..])).into_iter().map(split).collect::<Vec<_>>(), 1, 0, false);
            p.add("load and an interrupted waiter", &[big(), full()], &cross(&[&one(&[&own[..], &[goi_err(0), acq(0, false), acqa(0, false)]].concat()), &one(&boom(&[&own[..], &wait[1..]].concat(), 3))]), 2, 0, false);
            p.add("load, interrupted and other waiter", &[big()], &cross(&[&one(&[goi(0), goi_err(0), acqa(0, true), acq(0, false)]), &one(&boom(&own, 4)), &one(&wait[..5])]), 1, 0, false);
            p.add("both interrupted", &[big(), full(), ghost()], &multi(&one(&boom(&own, 4)), 2), 2, 0, false);
            p.add("all interrupted", &[big()], &multi(&one(&boom(&[goi(0), acqa(0, true)], 4)), 3), 1, 0, false);
            p.add("then again", &[big(), full()], &cross(&[&seqs(&boom(&own, 4), &[goi(0), T::Get(0), T::Rem(0)]), &one(&[goi(0), acqa(0, true), acq(0, false), ins(0)])]), 2, 0, false);
            let other = [T::Get(0), T::Rem(0), ins(0), rep(0), T::Clear, T::Weight, ins(1), T::Rem(1), goi(0), acq(0, false)];
            p.add("interrupted load and another call", &[big(), full()], &cross(&[&one(&boom(&own, 6)), &one(&other)]), 2, 0, false);
            p.add("interrupted store and another call", &[resident(), full(), ghost(), (4, vec![ins(1), ins(2), ins(0)])], &cross(&[&one(&boom(&[ins(0), rep(0), ins(1), ins_w(0, HUGE), T::Get(0)], 4)), &one(&[&other[..], &[acqa(0, true), goi_err(0)]].concat())]), 2, 0, false);
            p.add("interrupted store during a load", &[big(), full()], &cross(&[&one(&[goi(0), acqa(0, true), acq(0, false)]), &one(&boom(&[ins(0), ins(1), ins_w(0, HUGE)], 3)), &one(&[goi(0), acqa(0, true), T::Rem(0)])]), 1, 0, false);
            p.add("re-polled", &[big()], &cross(&[&one(&[goi(0), goi_err(0), acq(0, true)]), &one(&boom(&[acqa_x(0, true, false, true), acqa_x(0, true, true, true), goia_x(0, Out::Ok(v(1)), true, true, true)], 3))]), 2, 0, false);
        }
        _ => {}
    }
    p.out
}

/// Each of them, with a panic in each of its first `n` calls of user code.
fn boom(a: &[T], n: u8) -> Vec<T> {
    a.iter().flat_map(|t| (0..n).map(move |i| T::Boom(i, Box::new(t.clone())))).collect()
}

/// A loader or the holder of a guard of k0 does that before it is done.
fn nested(inner: &[T]) -> Vec<T> {
    inner
        .iter()
        .flat_map(|i| {
            let i = vec![i.clone()];
            [goi_do(0, i.clone()), goi_do_err(0, i.clone()), goia_do(0, i.clone()), acq_do(0, i.clone(), true), acq_do(0, i.clone(), false), acqa_do(0, i, true)]
        })
        .collect()
}

const SPLIT: T = T::Signal(7);
/// Pairs of threads, written as one.
fn pairs(a: &[T]) -> Vec<Vec<T>> {
    multi2(&one(a))
}
fn multi2(a: &[Vec<T>]) -> Vec<Vec<T>> {
    multi(a, 2).into_iter().map(|m| [m[0].clone(), vec![SPLIT], m[1].clone()].concat()).collect()
}
fn split(t: Threads) -> Threads {
    t.into_iter().flat_map(|x| x.split(|o| *o == SPLIT).map(|y| y.to_vec()).collect::<Vec<_>>()).collect()
}
