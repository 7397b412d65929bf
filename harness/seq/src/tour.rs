//! C29: walks that take every transition of a state graph, to be executed under an interpreter that detects
//! undefined behaviour.
use crate::explore::*;
use crate::jobs::J;
use crate::model::{Model, Viols};
use crate::types;
use crate::world::*;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Graph {
    /// for each state the operations that do something, and where they lead
    pub succ: Vec<Vec<(u16, u32)>>,
    pub transitions: u64,
}

/// The reachable states of a job, by the same rules as the exploration.
pub fn graph(j: &J) -> Graph {
    let cfg = &j.cfg;
    let mut ids: HashMap<u128, u32> = HashMap::new();
    let mut nodes = vec![Node {
        path: Box::new([]),
        model: Model::new(cfg),
    }];
    let mut g = Graph {
        succ: vec![],
        transitions: 0,
    };
    let mut v: Viols = vec![];
    ME.with(|m| m.set(0));
    while g.succ.len() < nodes.len() {
        let node = nodes[g.succ.len()].clone();
        let mut out = vec![];
        for opi in 0..cfg.ops.len() as u16 {
            if !node.model.enabled(cfg, cfg.ops[opi as usize]) {
                continue;
            }
            crumb(&node.path, Some(opi));
            v.clear();
            let Some(mut r) = transition(cfg, &node.path, &node.model, opi, None, &mut v) else { continue };
            if r.skip {
                continue;
            }
            g.transitions += 1;
            // how large the cache once was does not matter here
            r.model.hw = 0;
            r.model.reserved = false;
            let key = state_key(&r, &node.path, opi, j.merge);
            let n = nodes.len() as u32;
            let id = *ids.entry(key).or_insert(n);
            if id == n {
                if nodes.len() >= j.max_states || node.path.len() >= j.depth {
                    ids.remove(&key);
                    out.push((opi, u32::MAX));
                    continue;
                }
                let mut p = node.path.to_vec();
                p.push(opi);
                nodes.push(Node {
                    path: p.into(),
                    model: r.model,
                });
            }
            out.push((opi, id));
        }
        let me = g.succ.len() as u32;
        out.sort_by_key(|e| e.1 != me);
        g.succ.push(out);
    }
    g
}

/// Walks from the initial state, none longer than about `len`, that together take every edge.
pub fn walks(g: &Graph, len: usize) -> Vec<Vec<u16>> {
    let mut left: Vec<VecDeque<(u16, u32)>> = g.succ.iter().map(|s| s.iter().copied().collect()).collect();
    let mut todo: usize = left.iter().map(|l| l.len()).sum();
    let mut res = vec![];
    let mut seen = vec![u32::MAX; left.len()];
    let mut stamp = 0;
    while todo > 0 {
        let (mut at, mut walk) = (0u32, vec![]);
        while walk.len() < len && todo > 0 && at != u32::MAX {
            if let Some((op, to)) = left[at as usize].pop_front() {
                todo -= 1;
                walk.push(op);
                at = to;
                continue;
            }
            // the nearest state with an edge left
            stamp += 1;
            let mut from: HashMap<u32, (u32, u16)> = HashMap::new();
            let mut q = VecDeque::from([at]);
            seen[at as usize] = stamp;
            let mut goal = None;
            'bfs: while let Some(s) = q.pop_front() {
                for &(op, to) in &g.succ[s as usize] {
                    if to == u32::MAX || seen[to as usize] == stamp {
                        continue;
                    }
                    seen[to as usize] = stamp;
                    from.insert(to, (s, op));
                    if !left[to as usize].is_empty() {
                        goal = Some(to);
                        break 'bfs;
                    }
                    q.push_back(to);
                }
            }
            let Some(goal) = goal else { break };
            let mut leg = vec![];
            let mut x = goal;
            while x != at {
                let (s, op) = from[&x];
                leg.push(op);
                x = s;
            }
            walk.extend(leg.into_iter().rev());
            at = goal;
        }
        if walk.is_empty() {
            // edges of states that cannot be reached any more; cannot happen, the graph is reachable from state 0
            break;
        }
        res.push(walk);
    }
    res
}

/// Executes one walk. The results are judged elsewhere; here only how the code gets them matters.
pub fn walk(cfg: &Cfg, path: &[u16], verbose: bool) {
    types::reset();
    let mut w = World::new(cfg);
    for (i, &op) in path.iter().enumerate() {
        if verbose {
            println!("AT {i}");
        }
        let op = cfg.ops[op as usize];
        let _ = catch_unwind(AssertUnwindSafe(|| w.exec(op)));
        types::take_events();
        if i % 16 == 0 {
            let _ = catch_unwind(AssertUnwindSafe(|| w.observe(cfg.nkeys)));
        }
    }
    let _ = catch_unwind(AssertUnwindSafe(|| w.finish()));
}
