//! The oracle: is there a sequential order of the calls, respecting real time, which explains all results?
//!
//! A load is one object: it is pending from the moment its guard is handed out, can change hands when it is
//! abandoned, is filled (everyone who waits for it gets the value) and then stored, unless its key was
//! overwritten, removed or cleared meanwhile. Calls on several shards take effect shard by shard.
use crate::world::*;
use std::collections::HashSet;

const MAXC: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Ls {
    Gone,
    Owned,
    Handing,
    Done(u16),
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    map: [u16; NK],
    /// number of the call which created the load, plus one
    pend: [u8; NK],
    load: Vec<(Ls, u32)>,
    /// per call: 0 not begun, 255 finished, or how far it is
    prog: Vec<u8>,
    /// per call: the load it joined or owns
    of: Vec<u8>,
    acc: Vec<u64>,
    hits: u8,
    misses: u8,
}

pub struct Lin<'a> {
    calls: &'a [Call],
    shape: Shape,
    stats: bool,
    weight: Vec<(u16, u64, bool)>,
    seen: HashSet<St>,
    pub deepest: usize,
    pub stuck: Vec<usize>,
}

impl<'a> Lin<'a> {
    pub fn new(calls: &'a [Call], shape: Shape, stats: bool) -> Self {
        let mut weight = vec![];
        for c in calls {
            if let What::Ins(_, v) | What::Rep(_, v) | What::Fin(_, _, v) = &c.what {
                weight.push((v.uid, v.w as u64, v.pin));
            }
        }
        Lin { calls, shape, stats, weight, seen: HashSet::new(), deepest: 0, stuck: vec![] }
    }

    fn w(&self, uid: u16) -> (u64, bool) {
        self.weight.iter().find(|x| x.0 == uid).map_or((0, false), |x| (x.1, x.2))
    }

    pub fn ok(&mut self) -> bool {
        let n = self.calls.len();
        assert!(n <= MAXC);
        let st = St {
            map: [0; NK],
            pend: [0; NK],
            load: vec![(Ls::Gone, 0); n],
            prog: vec![0; n],
            of: vec![0; n],
            acc: vec![0; n],
            hits: 0,
            misses: 0,
        };
        self.go(st)
    }

    fn go(&mut self, st: St) -> bool {
        let open: Vec<usize> = (0..self.calls.len()).filter(|i| st.prog[*i] != 255).collect();
        if open.is_empty() {
            return true;
        }
        let done = self.calls.len() - open.len();
        if done > self.deepest || self.stuck.is_empty() {
            self.deepest = done;
            self.stuck = open.clone();
        }
        if self.seen.contains(&st) {
            return false;
        }
        // nothing that began after the earliest end of an unfinished call can happen before that call
        let first = open.iter().map(|i| self.calls[*i].res).min().unwrap();
        let mut next = vec![];
        for i in &open {
            if self.calls[*i].inv < first {
                self.steps(&st, *i, &mut next);
            }
        }
        for x in next {
            if self.go(x) {
                return true;
            }
        }
        self.seen.insert(st);
        false
    }

    /// Stores `v` under `k`, with the evictions the call reported.
    /// `over`: the evictions were interrupted.
    fn store(&self, st: &mut St, k: usize, v: V, ev: &[u16], over: bool) -> bool {
        let old = st.map[k];
        let mut extra = old;
        st.map[k] = v.uid;
        for e in ev {
            let (ek, eu) = ((e >> 12) as usize, e & 0xfff);
            if ek == k && eu == extra && extra != 0 {
                extra = 0;
            } else if ek < NK && st.map[ek] == eu && eu != 0 {
                st.map[ek] = 0;
            } else {
                return false;
            }
        }
        // a replaced value is reported
        if extra != 0 {
            return false;
        }
        if over {
            return true;
        }
        let mut sum = 0;
        let mut pins = false;
        for x in 0..NK {
            if st.map[x] != 0 && self.shape.of[x] == self.shape.of[k] {
                let (w, p) = self.w(st.map[x]);
                sum += w;
                pins |= p;
            }
        }
        pins || sum <= self.shape.cap
    }

    /// What was reported is gone. The value that was to be stored may be among it.
    fn gone(&self, st: &mut St, ev: &[u16], own: u16) -> bool {
        ev.iter().all(|e| {
            let (ek, eu) = ((e >> 12) as usize, e & 0xfff);
            let there = ek < NK && st.map[ek] == eu && eu != 0;
            if there {
                st.map[ek] = 0;
            }
            there || *e == own
        })
    }

    fn leave(&self, st: &mut St, i: usize, k: usize) {
        let l = st.of[i] as usize;
        st.load[l].1 &= !(1 << i);
        if st.load[l].0 == Ls::Handing && st.load[l].1 == 0 {
            st.load[l].0 = Ls::Gone;
            if st.pend[k] as usize == l + 1 {
                st.pend[k] = 0;
            }
        }
    }

    fn abandon(&self, n: &mut St, l: usize, k: usize) {
        if n.load[l].1 != 0 {
            n.load[l].0 = Ls::Handing;
        } else {
            n.load[l].0 = Ls::Gone;
            if n.pend[k] as usize == l + 1 {
                n.pend[k] = 0;
            }
        }
    }

    fn steps(&self, st: &St, i: usize, out: &mut Vec<St>) {
        let c = &self.calls[i];
        let mut n = st.clone();
        n.prog[i] = 255;
        let quiet = c.ev.is_empty();
        let boom = c.ret == Ret::Boom;
        // the request was interrupted: nothing stored, what was evicted is gone
        if boom && matches!(c.what, What::Ins(..) | What::Rep(..)) {
            let mut n = n.clone();
            if let (What::Ins(k, _), false) = (&c.what, quiet) {
                n.pend[*k as usize] = 0;
            }
            let own = match &c.what {
                What::Ins(k, v) | What::Rep(k, v) => (*k as u16) << 12 | v.uid,
                _ => 0,
            };
            if self.gone(&mut n, &c.ev, own) {
                out.push(n);
            }
        }
        let is = |k: u8, u: u16| st.map[k as usize] == u;
        match (&c.what, &c.ret) {
            (What::Get(k), Ret::Val(u)) => {
                if quiet && is(*k, *u) {
                    n.hits += (*u != 0) as u8;
                    n.misses += (*u == 0) as u8;
                    out.push(n);
                }
            }
            (What::Get(k) | What::Peek(k), Ret::Boom) => {
                if quiet && !is(*k, 0) {
                    out.push(n);
                }
            }
            (What::Peek(k), Ret::Val(u)) => {
                if quiet && is(*k, *u) {
                    out.push(n);
                }
            }
            (What::Has(k), Ret::Bool(b)) => {
                if quiet && is(*k, 0) != *b {
                    out.push(n);
                }
            }
            (What::Ins(k, v), Ret::None | Ret::Boom) => {
                n.pend[*k as usize] = 0;
                if self.store(&mut n, *k as usize, *v, &c.ev, boom) {
                    out.push(n);
                }
            }
            (What::Rep(k, v), Ret::Ok | Ret::Boom) => {
                if !is(*k, 0) && self.store(&mut n, *k as usize, *v, &c.ev, boom) {
                    out.push(n);
                }
            }
            (What::Rep(k, v), Ret::Err) => {
                let k = *k as usize;
                if st.map[k] == 0 {
                    if quiet {
                        out.push(n);
                    }
                } else if v.w as u64 > self.shape.hot && c.ev[..] == [(k as u16) << 12 | st.map[k]] {
                    n.map[k] = 0;
                    out.push(n);
                }
            }
            (What::Rem(k), Ret::Val(u)) => {
                if quiet && is(*k, *u) {
                    n.map[*k as usize] = 0;
                    n.pend[*k as usize] = 0;
                    out.push(n);
                }
            }
            (What::Clear | What::Retain(_) | What::Len | What::Weight | What::Empty, r) => {
                if !quiet {
                    return;
                }
                // shard by shard, in any order; prog is the set of shards that are done
                for sh in 0..self.shape.n.max(1) {
                    if st.prog[i] >> sh & 1 == 1 {
                        continue;
                    }
                    let mut n = st.clone();
                    n.prog[i] |= 1 << sh;
                    let mine: Vec<usize> = (0..NK).filter(|k| self.shape.of[*k] == sh).collect();
                    let full = n.prog[i] + 1 == 1 << self.shape.n.max(1);
                    let mut end = full;
                    match (&c.what, r) {
                        (What::Clear, _) => {
                            for k in mine {
                                n.map[k] = 0;
                                n.pend[k] = 0;
                            }
                        }
                        (What::Retain(keep), _) => {
                            for k in mine {
                                if k != *keep as usize {
                                    n.map[k] = 0;
                                }
                            }
                        }
                        (What::Len, Ret::Num(x)) => {
                            n.acc[i] += mine.iter().filter(|k| st.map[**k] != 0).count() as u64;
                            if full && n.acc[i] != *x {
                                continue;
                            }
                        }
                        (What::Weight, Ret::Num(x)) => {
                            n.acc[i] += mine.iter().map(|k| self.w(st.map[*k]).0).sum::<u64>();
                            if full && n.acc[i] != *x {
                                continue;
                            }
                        }
                        (What::Empty, Ret::Bool(b)) => {
                            let empty = mine.iter().all(|k| st.map[*k] == 0);
                            if *b && !empty {
                                continue;
                            }
                            if !*b {
                                if !empty {
                                    end = true;
                                } else if full {
                                    continue;
                                }
                            }
                        }
                        _ => continue,
                    }
                    if end {
                        n.prog[i] = 255;
                        n.acc[i] = 0;
                    }
                    out.push(n);
                }
            }
            (What::Acq(k), r) => {
                if !quiet {
                    return;
                }
                let k = *k as usize;
                if st.prog[i] == 1 {
                    // joined
                    let l = st.of[i] as usize;
                    match (r, st.load[l].0) {
                        (Ret::Val(u), Ls::Done(x)) if *u == x => {
                            n.load[l].1 &= !(1 << i);
                            out.push(n);
                        }
                        (Ret::Boom, Ls::Done(_)) => {
                            n.load[l].1 &= !(1 << i);
                            out.push(n);
                        }
                        (Ret::Guard, Ls::Handing) => {
                            n.load[l].1 &= !(1 << i);
                            n.load[l].0 = Ls::Owned;
                            out.push(n);
                        }
                        (Ret::Timeout, Ls::Owned | Ls::Handing) | (Ret::Gone(true), _) => {
                            self.leave(&mut n, i, k);
                            out.push(n);
                        }
                        _ => {}
                    }
                    return;
                }
                match r {
                    Ret::Val(u) if *u != 0 && st.map[k] == *u => {
                        let mut n = n.clone();
                        n.hits += 1;
                        out.push(n);
                    }
                    // left no trace; whether it counts as a lookup is open
                    Ret::Boom => {
                        out.push(n.clone());
                        let mut m = n.clone();
                        m.misses += 1;
                        out.push(m);
                        let mut m = n.clone();
                        m.hits += 1;
                        out.push(m);
                    }
                    Ret::Guard if st.map[k] == 0 && st.pend[k] == 0 => {
                        let mut n = n.clone();
                        n.misses += 1;
                        n.pend[k] = i as u8 + 1;
                        n.load[i] = (Ls::Owned, 0);
                        n.of[i] = i as u8;
                        out.push(n);
                    }
                    Ret::Gone(false) => {
                        out.push(n);
                        return;
                    }
                    _ => {}
                }
                if st.map[k] == 0 && st.pend[k] != 0 {
                    let l = st.pend[k] as usize - 1;
                    n.hits += 1;
                    match st.load[l].0 {
                        // filled, but not stored yet
                        Ls::Done(x) => {
                            if *r == Ret::Val(x) || boom {
                                out.push(n);
                            }
                        }
                        Ls::Owned | Ls::Handing => {
                            n.prog[i] = 1;
                            n.of[i] = l as u8;
                            n.load[l].1 |= 1 << i;
                            out.push(n);
                        }
                        Ls::Gone => {}
                    }
                }
            }
            (What::Fin(a, k, v), r) => {
                let l = st.of[*a as usize] as usize;
                let k = *k as usize;
                if st.prog[i] == 0 {
                    if boom && quiet {
                        let mut n = n.clone();
                        self.abandon(&mut n, l, k);
                        out.push(n);
                    }
                    n.prog[i] = 1;
                    n.load[l].0 = Ls::Done(v.uid);
                    out.push(n);
                } else if st.pend[k] as usize == l + 1 {
                    n.pend[k] = 0;
                    if *r != Ret::Err && self.store(&mut n, k, *v, &c.ev, boom) {
                        out.push(n);
                    }
                } else if *r != Ret::Ok && quiet {
                    out.push(n);
                }
            }
            (What::Abandon(a, k), _) => {
                let l = st.of[*a as usize] as usize;
                if !quiet {
                    return;
                }
                self.abandon(&mut n, l, *k as usize);
                out.push(n);
            }
            (What::Stats, Ret::Two(h, m)) => {
                if !self.stats || (st.hits as u64, st.misses as u64) == (*h, *m) {
                    out.push(n);
                }
            }
            _ => {}
        }
    }
}
