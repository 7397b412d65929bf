//! Which configurations decide which property.
use crate::alpha::alpha;
use crate::explore::{StateHook, StepHook};
use crate::model::c;
use crate::phases::{phase, Phase, Twin};
use crate::special;
use crate::types::*;
use crate::world::*;

pub struct J {
    pub name: &'static str,
    pub cfg: Cfg,
    pub depth: usize,
    pub max_states: usize,
    pub merge: bool,
    pub step: Option<StepHook>,
    pub state: Option<StateHook>,
    pub phases: Vec<Phase>,
    pub twin: Twin,
    /// phases per sequence in the thorough run
    pub deep: usize,
}

const EVERY: usize = 200;

#[allow(clippy::too_many_arguments)]
fn j(name: &'static str, flavor: Flavor, nkeys: u8, cap: u64, hot: f64, ghost: f64, guards: usize, kinds: &str, cl: &[Class]) -> J {
    let mut cfg = Cfg::new(flavor, cap, cap as usize, hot, ghost, nkeys);
    cfg.name = name.into();
    cfg.guards = guards;
    cfg.ops = alpha(flavor, nkeys, guards as u8, kinds, cl);
    J {
        name,
        cfg,
        depth: EVERY,
        max_states: usize::MAX,
        merge: true,
        step: None,
        state: None,
        phases: vec![],
        twin: Twin::No,
        deep: 0,
    }
}

/// A larger cache, all sequences of so many phases.
#[allow(clippy::too_many_arguments)]
fn p(name: &'static str, flavor: Flavor, nkeys: u8, cap: u64, hot: f64, ghost: f64, guards: usize, depth: (usize, usize), phases: &str) -> J {
    let mut x = j(name, flavor, nkeys, cap, hot, ghost, guards, "", &[]);
    x.phases = phases.split_whitespace().map(phase).collect();
    for o in x.phases.iter().flat_map(|p| &p.ops) {
        if !x.cfg.ops.contains(o) {
            x.cfg.ops.push(*o);
        }
    }
    x.depth = depth.0;
    x.deep = depth.1;
    x.merge = false;
    x
}

impl J {
    fn twin(mut self, t: Twin) -> J {
        self.twin = t;
        self
    }
    fn with(mut self, f: impl FnOnce(&mut Cfg)) -> J {
        f(&mut self.cfg);
        self
    }
    /// more operations
    fn plus(mut self, kinds: &str, cl: &[Class]) -> J {
        for o in alpha(self.cfg.flavor, self.cfg.nkeys, self.cfg.guards as u8, kinds, cl) {
            if !self.cfg.ops.contains(&o) {
                self.cfg.ops.push(o);
            }
        }
        self
    }
    /// every operation that calls user code also with a panic in its first, second, ... such call
    fn fused(mut self, calls: u8) -> J {
        let sync = self.cfg.flavor == Flavor::Sync;
        let ops = self.cfg.ops.clone();
        for o in ops {
            let calls = match o {
                Op::Get(..) | Op::Peek(..) if sync => 1,
                Op::Insert(..) | Op::Replace(..) | Op::InsertLc(..) | Op::ReplaceLc(..) => calls,
                Op::Goi(..) | Op::Gmoi(..) | Op::GmoiMut(..) | Op::GoiAsync(..) => calls,
                Op::GuardIns(..) | Op::GuardInsLc(..) | Op::GIns(..) | Op::GInsLc(..) => calls,
                Op::GuardDrop(..) | Op::Acq(..) | Op::AcqAsync(..) => 2,
                Op::Retain(_) => self.cfg.nkeys,
                Op::CloneSwap => 2 * self.cfg.nkeys,
                _ => 0,
            };
            let o: &'static Op = Box::leak(Box::new(o));
            self.cfg.ops.extend((0..calls).map(|n| Op::Fused(o, n)));
        }
        self
    }
    fn flat(mut self, depth: usize) -> J {
        self.merge = false;
        self.depth = depth;
        self
    }
    fn cap_states(mut self, n: usize) -> J {
        self.max_states = n;
        self
    }
    fn step(mut self, h: StepHook) -> J {
        self.step = Some(h);
        self
    }
    fn state(mut self, h: StateHook) -> J {
        self.state = Some(h);
        self
    }
}

const FULL: &str = "get getmut peek contains ins rep rem remforms retain retain1 clear drain goi goio gmoi goie gmoie gins gmins gdrop gmdrop iter reserve mutate pmutate gmoimut getforms peekmut clone";
const FULLS: &str = "get getforms peek contains ins rep rem remforms retain retain1 retainodd clear goi goio goie goia goiae gins gdrop acq acqa slots reserve";

/// Small enough for an interpreter.
pub fn ub() -> Vec<J> {
    use Flavor::{Sync, Unsync};
    vec![
        j("ubu", Unsync, 2, 1, 1.0, 1.0, 0, "get getmut peek peekmut contains ins reps rem retain1 clear drain goi goie gmoi gins gmins gdrop iter reserve gmoimut clone", &[w(1)]).plus("mutate", &[w(0)]).plus("goi gmoi", &[w(2)]),
        j("ubu3", Unsync, 3, 2, 0.5, 1.0, 0, "get ins rem gins", &[w(1)]),
        j("ubw", Unsync, 2, 2, 0.5, 0.5, 0, "ins clear", &[zeroed(1), pin(3)]).plus("mutate", &[w(0)]),
        j("ubx", Unsync, 2, 1, 1.0, 1.0, 0, "get ins reph retain1 goi gmoi goie gins clone", &[w(1)]).fused(4),
        j("ubs", Sync, 2, 1, 1.0, 1.0, 1, "get ins reps rem retain1 clear goi goie goia acq slots", &[w(1)]),
        j("ubs2", Sync, 1, 1, 1.0, 1.0, 2, "get ins rem clear acq acqa slots goie", &[w(1)]),
        j("ubxs", Sync, 2, 1, 1.0, 1.0, 1, "ins acq slots", &[w(1)]).fused(3),
        j("ubc", Unsync, 3, 1, 1.0, 1.0, 0, "get ins rem gins gdrop clear", &[w(1)]).with(|c| c.hash = HashKind::Const),
        j("UBU", Unsync, 2, 2, 0.5, 1.0, 0, FULL, &[w(0), w(1)]),
        j("UBW", Unsync, 2, 2, 0.5, 0.5, 0, "get ins reph gins gmoimut mutate clear", &[w(0), w(1), pin(3), zeroed(1)]),
        j("UBS", Sync, 2, 1, 1.0, 1.0, 1, FULLS, &[w(0), w(1)]),
        j("UBS2", Sync, 2, 1, 1.0, 1.0, 2, "get ins rem clear acq acqa slots", &[w(1)]),
        j("UBX", Unsync, 2, 1, 1.0, 1.0, 0, "get ins reph retain1 goi gmoi goie gins clone", &[w(0), w(1)]).fused(5),
        j("UBXS", Sync, 2, 1, 1.0, 1.0, 1, "get peek ins rem retain1 acq slots goi goie goia", &[w(1)]).fused(5),
    ]
}

pub fn pool() -> Vec<J> {
    let mut p = main_pool();
    p.extend(ub());
    p
}

fn main_pool() -> Vec<J> {
    use Flavor::{Sync, Unsync};
    let lru = "get ins rem gins goi";
    vec![
        // --- unsync, plain
        j("u2", Unsync, 3, 2, 0.5, 0.5, 0, FULL, &[w(0), w(1)]),
        j("u2x", Unsync, 4, 2, 0.5, 1.0, 0, "get ins rem retain clear drain goie gins gdrop", &[w(0), w(1)]),
        j("u3w", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rep rem retain clear drain goi gmoi gins mutate", &[w(0), w(1), w(2)]).plus("ins rep goi gins", &[w(3)]).plus("ins reph gins", &[w(5)]),
        j("u3m", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rem mutate pmutate gmoimut iter", &[w(0), w(1), w(4)]),
        j("u4w", Unsync, 4, 4, 0.75, 0.5, 0, "get ins reph rem gins", &[w(1), w(2)]),
        j("u5", Unsync, 5, 3, 0.67, 1.0, 0, lru, &[w(1)]),
        j("u6", Unsync, 6, 4, 0.5, 0.5, 0, "get ins rem", &[w(1)]),
        // --- pinned
        j("u3p", Unsync, 3, 3, 0.67, 0.5, 0, "get ins reph rem retain gins mutate", &[w(0), w(1), pin(1), pin(3)]),
        j("u4p", Unsync, 4, 3, 0.67, 0.5, 0, "get ins rem gins", &[w(1), pin(2)]),
        j("u4pm", Unsync, 4, 2, 0.5, 0.5, 0, "ins mutate", &[w(1), pin(1)]),
        // --- changed by before_evict
        j("u3z", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rem gins pmutate", &[w(1), zeroed(1), shrunk(2, 1)]).plus("ins rep goi", &[zeroed(3), shrunk(3, 1)]).plus("ins reps gins", &[w(5), zeroed(5)]),
        j("u4z", Unsync, 4, 4, 0.5, 0.5, 0, "get ins", &[w(1), zeroed(2)]),
        // --- shares
        j("hot0", Unsync, 3, 3, 0.0, 0.5, 0, "get ins rep rem goi gins mutate", &[w(0), w(1), pin(1)]),
        j("hot1", Unsync, 3, 3, 1.0, 0.5, 0, "get ins rep rem goi gins mutate", &[w(0), w(1), w(3)]),
        j("ghost0", Unsync, 4, 2, 0.5, 0.0, 0, "get ins rep rem goi gins", &[w(0), w(1)]),
        j("cap0", Unsync, 3, 0, 0.97, 0.5, 0, "get ins rep rem retain clear drain goi goie gins gdrop mutate", &[w(0), w(1), pin(1)]),
        j("cap1", Unsync, 3, 1, 1.0, 1.0, 0, "get ins rep rem retain clear drain goi goie gins gdrop mutate", &[w(0), w(1), pin(1)]).with(|c| c.items = 3),
        j("items0", Unsync, 3, 3, 0.67, 1.0, 0, "get ins rep rem goi gins", &[w(1), w(2)]).with(|c| c.items = 0),
        j("items9", Unsync, 4, 3, 0.67, 1.0, 0, "get ins rem gins retain clear", &[w(1), w(2)]).with(|c| c.items = 9),
        // --- weights
        j("bonus", Unsync, 3, 4, 0.75, 0.5, 0, "get ins reph rem gins mutate", &[w(0), w(1), w(2)]).plus("ins reps goi", &[w(3)]).with(|c| c.weigh.bonus = true),
        j("big", Unsync, 3, 3 << 40, 0.67, 0.5, 0, "get ins rep rem gins mutate", &[w(0), w(1), w(2), w(3)]).with(|c| {
            c.weigh.scale = 1 << 40;
            c.items = 3
        }),
        j("huge", Unsync, 3, 3 << 61, 0.67, 0.5, 0, "get ins rep rem gins", &[w(1), w(2), w(3)]).with(|c| {
            c.weigh.scale = 1 << 61;
            c.items = 3
        }),
        // --- request state returned
        j("lcu", Unsync, 3, 2, 0.5, 0.5, 0, "get inslc ins replc reps rem ginslc gins goi", &[w(0), w(1), w(2), zeroed(1)]).plus("ins inslc reps gins", &[w(4)]),
        j("lcs", Sync, 2, 2, 0.5, 0.5, 1, "inslc ins replc reps rem acq slots slotslc goi clear", &[w(1), w(2), zeroed(1)]),
        // --- sync
        j("s0", Sync, 3, 3, 0.67, 0.5, 0, "get getforms peek contains ins rep rem remforms retain retainodd clear goi goio goie goia goiae gins gdrop reserve", &[w(0), w(1), w(3)]),
        j("s1", Sync, 3, 2, 0.5, 0.5, 1, FULLS, &[w(1)]),
        j("s1z", Sync, 3, 2, 0.5, 0.5, 1, "get ins rep rem retain clear acq acqa slots goi goie", &[w(0), w(1)]),
        j("s2", Sync, 3, 3, 0.67, 0.5, 2, "get ins rem acq slots goie gjoin", &[w(1)]).plus("ins slots reph", &[w(3)]),
        j("s2k", Sync, 2, 2, 0.5, 0.5, 2, FULLS, &[w(0), w(1), w(2)]).plus("ins slots reph", &[w(3)]),
        j("s1p", Sync, 3, 3, 0.67, 0.5, 1, "get ins reph rem acq slots gjoin", &[w(1), pin(5)]).plus("ins slots", &[zeroed(4)]),
        j("s2g", Sync, 3, 2, 0.5, 1.0, 2, "get ins rem acq slots gjoin", &[w(1)]),
        // --- several shards
        j("sh2", Sync, 4, 6, 0.67, 0.5, 0, "get getforms ins reps rem remforms retain retain1 clear goi goio", &[w(1), w(2)]).with(|c| {
            c.items = 64;
            c.shards = 2;
            c.ghost = 0.05
        }),
        j("sh4", Sync, 3, 10, 0.67, 0.5, 1, "get ins reph rem retain1 clear acq slots", &[w(1), w(3)]).with(|c| {
            c.items = 128;
            c.shards = 3;
            c.ghost = 0.04
        }),
        // --- user code panics
        j("xu2", Unsync, 3, 2, 0.5, 1.0, 0, "get ins reph rem retain1 clear goi gmoi goie gins gdrop mutate clone", &[w(0), w(1)]).fused(6),
        j("xu3", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rem goi", &[w(1), w(2)]).plus("ins reph", &[w(3)]).fused(7),
        j("xu3p", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rem gins", &[w(1), pin(2)]).fused(7),
        j("xu4", Unsync, 4, 3, 0.67, 1.0, 0, "get ins rem gins", &[w(1)]).fused(5),
        j("xuz", Unsync, 3, 3, 0.67, 0.5, 0, "get ins gins", &[w(1), zeroed(1), shrunk(4, 1)]).fused(6),
        j("xulc", Unsync, 3, 2, 0.5, 0.5, 0, "get inslc replc ginslc rem", &[w(1), w(2)]).fused(6),
        j("xs1", Sync, 3, 2, 0.5, 0.5, 1, "get peek ins rem retain1 acq slots goi goie goia goiae", &[w(1)]).fused(7),
        j("xs2", Sync, 2, 2, 0.5, 0.5, 2, "get ins reph rem acq acqa slots gins clear", &[w(1), w(2)]).fused(7),
        j("xs2k", Sync, 3, 2, 0.5, 1.0, 2, "get ins rem acq slots", &[w(1)]).fused(7),
        j("xsh", Sync, 3, 6, 0.67, 0.5, 0, "get ins rem retain retain1 goi", &[w(1), w(2)]).fused(6).with(|c| {
            c.items = 64;
            c.shards = 2;
            c.ghost = 0.05
        }),
        // --- colliding hashes
        j("cc", Unsync, 3, 2, 0.5, 1.0, 0, FULL, &[w(0), w(1)]).with(|c| c.hash = HashKind::Const),
        j("cz", Unsync, 4, 2, 0.5, 1.0, 0, "get getmut ins rep rem retain goi gins gdrop clear", &[w(1)]).with(|c| c.hash = HashKind::Zero),
        j("c2", Unsync, 4, 3, 0.67, 0.5, 0, "get ins rep rem goi gins gdrop", &[w(1), w(2)]).with(|c| c.hash = HashKind::Two),
        j("cl", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rep rem goi goie gins", &[w(0), w(1), w(2)]).with(|c| c.hash = HashKind::Low),
        j("cs", Sync, 3, 2, 0.5, 1.0, 2, "get getforms ins rep rem remforms retain clear acq acqa slots goi goio goia", &[w(1)]).with(|c| c.hash = HashKind::Const),
        j("cs2", Sync, 3, 2, 0.5, 1.0, 1, "get peek ins rep rem retain clear acq acqa slots goi goia goie", &[w(1), w(2)]).with(|c| c.hash = HashKind::Two),
        // --- no merging: every sequence
        j("flatu", Unsync, 2, 1, 1.0, 1.0, 0, "get ins reps rem retain clear drain goi goie gins gdrop", &[w(1)]).flat(4),
        j("flatu3", Unsync, 3, 2, 0.5, 0.5, 0, "get ins rem gins", &[w(1)]).flat(5),
        j("flats", Sync, 2, 1, 1.0, 1.0, 2, "get ins rem clear acq slots", &[w(1)]).flat(5),
        // --- with hooks
        j("scan3", Unsync, 3, 4, 0.5, 0.5, 0, "get ins rem gins goi", &[w(1)]).state(special::scan),
        j("scan4", Unsync, 4, 3, 0.67, 1.0, 0, "get ins rem gins", &[w(1)]).state(special::scan),
        j("scan5", Unsync, 5, 4, 0.75, 0.5, 0, "get ins gins", &[w(1)]).state(special::scan),
        j("scan2", Unsync, 3, 4, 0.5, 0.5, 0, "get ins rem gins", &[w(2)]).state(special::scan),
        j("scanm", Unsync, 3, 3, 0.67, 0.5, 0, "get ins reps rem gins mutate", &[w(0), w(1)]).state(special::scan),
        j("scans", Sync, 3, 3, 0.67, 0.5, 0, "get ins rem gins goi", &[w(1)]).state(special::scan),
        j("scan97", Unsync, 5, 4, 0.97, 0.5, 0, "get ins rem", &[w(1)]).state(special::scan),
        j("neu", Unsync, 3, 3, 0.67, 0.5, 0, "get ins rem gins", &[w(1), w(2)]).state(special::neutral),
        j("neu4", Unsync, 4, 3, 0.67, 1.0, 0, "get ins rem", &[w(1)]).state(special::neutral),
        j("neup", Unsync, 3, 2, 0.5, 0.5, 0, "get ins gins", &[w(0), w(1), pin(1)]).state(special::neutral),
        j("neus", Sync, 3, 3, 0.67, 0.5, 0, "get ins rem gins", &[w(1), w(2)]).state(special::neutral),
        j("neum", Unsync, 3, 3, 0.67, 0.5, 0, "get ins mutate", &[w(0), w(1), w(2)]).state(special::neutral),
        j("clo", Unsync, 3, 3, 0.67, 0.5, 0, "get ins reps rem retain clear drain gins goie mutate", &[w(0), w(1), w(2)]).state(special::clones),
        j("clo4", Unsync, 4, 3, 0.67, 1.0, 0, "get ins rem gins clear", &[w(1)]).state(special::clones),
        j("clop", Unsync, 3, 2, 0.5, 0.5, 0, "get ins rem mutate", &[w(1), pin(1), zeroed(1)]).state(special::clones),
        j("pol3", Unsync, 3, 2, 0.5, 0.5, 0, "get getmut ins rep rem retain clear drain goi goie gins gdrop", &[w(1)]).step(special::policy),
        j("pol4", Unsync, 4, 3, 0.67, 0.67, 0, "get ins rep rem goi gins gdrop", &[w(1)]).step(special::policy),
        j("pol5", Unsync, 5, 4, 0.5, 0.5, 0, "get ins rem gins", &[w(1)]).step(special::policy),
        j("polw", Unsync, 3, 4, 0.75, 0.5, 0, "get ins rep rem gins", &[w(1), w(2), w(3), w(4)]).step(special::policy),
        j("polw4", Unsync, 4, 5, 0.6, 0.4, 0, "get ins gins", &[w(1), w(2)]).step(special::policy),
        j("polh1", Unsync, 4, 3, 1.0, 1.0, 0, "get ins reps rem gins", &[w(1)]).step(special::policy),
        j("polg", Unsync, 5, 2, 0.5, 1.0, 0, "get ins rem gins", &[w(1)]).step(special::policy),
        j("pols", Sync, 4, 3, 0.67, 0.67, 0, "get ins rep rem goi goie gins gdrop retain", &[w(1)]).step(special::policy),
        j("polz", Unsync, 3, 3, 0.67, 0.67, 0, "get ins reps rem gins mutate", &[w(0), w(1)]).step(special::policy),
        j("polz4", Unsync, 4, 4, 0.5, 0.5, 0, "get ins pmutate", &[w(0), w(1)]).step(special::policy),
        j("polp", Unsync, 4, 3, 0.67, 0.67, 0, "get ins gins", &[w(1), pin(1)]).step(special::policy),
        j("polpm", Unsync, 3, 2, 0.5, 1.0, 0, "get ins rep gins rem mutate", &[w(1), pin(1), pin(2)]).step(special::policy),
        j("polr", Unsync, 4, 3, 0.67, 0.34, 0, "get ins", &[w(1), zeroed(1)]).step(special::policy),
        j("polrg", Unsync, 3, 3, 0.67, 0.34, 0, "get ins gins", &[w(1), zeroed(1), zeroed(3), shrunk(3, 1)]).step(special::policy),
        j("polzc", Unsync, 4, 4, 0.25, 0.25, 0, "get ins pmutate", &[w(0), w(1)]).step(special::policy),
        j("polzh", Unsync, 4, 4, 1.0, 0.5, 0, "get ins", &[w(0), w(1)]).step(special::policy),
        j("polgd", Sync, 3, 2, 0.5, 1.0, 2, "get ins reps rem acq slots goie", &[w(1)]).step(special::policy),
        j("poljn", Sync, 4, 3, 0.34, 0.67, 0, "get ins rem gjoin gins", &[w(1)]).step(special::policy),
        j("poljw", Sync, 3, 3, 0.67, 0.5, 1, "get ins gjoin acq slots", &[w(1), w(2), w(3)]).step(special::policy),
        j("polgz", Sync, 3, 2, 0.5, 0.5, 1, "get ins rem acq slots retain1", &[w(0), w(1), pin(1)]).step(special::policy),
        // --- larger
        j("S1", Sync, 3, 2, 0.5, 0.5, 1, FULLS, &[w(0), w(1)]),
        j("S2G", Sync, 4, 2, 0.5, 1.0, 2, "get ins rem acq slots", &[w(1)]),
        j("HOT1", Unsync, 4, 3, 1.0, 0.5, 0, "get ins rep rem goi gins mutate", &[w(0), w(1), w(3)]),
        j("U4ZZ", Unsync, 4, 4, 0.5, 0.5, 0, "get ins reps gins", &[w(1), zeroed(2), shrunk(2, 1), w(2)]),
        j("U4M", Unsync, 4, 4, 0.75, 0.5, 0, "get ins rep rem gins mutate", &[w(1), w(2), w(4)]),
        j("U3W", Unsync, 3, 4, 0.75, 0.5, 0, FULL, &[w(0), w(1), w(2), w(4)]).cap_states(400_000),
        j("U4W", Unsync, 4, 5, 0.6, 0.4, 0, "get ins rep rem gins mutate retain clear", &[w(0), w(1), w(2), w(3)]).cap_states(1_000_000),
        j("U5", Unsync, 5, 4, 0.75, 0.75, 0, "get ins reps rem gins goie", &[w(1), w(2)]).cap_states(1_000_000),
        j("U6", Unsync, 6, 4, 0.5, 1.0, 0, "get ins rem gins", &[w(1)]).cap_states(1_000_000),
        j("U4P", Unsync, 4, 4, 0.75, 0.5, 0, "get ins rep rem gins mutate", &[w(0), w(1), pin(1), pin(5)]).cap_states(600_000),
        j("U4Z", Unsync, 4, 4, 0.75, 0.5, 0, "get ins reps rem gins pmutate", &[w(1), w(2), zeroed(2), shrunk(5, 2)]).cap_states(600_000),
        j("S3", Sync, 3, 3, 0.67, 1.0, 2, FULLS, &[w(0), w(1), w(3)]).cap_states(500_000),
        j("S4", Sync, 4, 3, 0.67, 0.5, 2, "get ins reps rem acq slots goie clear", &[w(1), w(3)]).cap_states(500_000),
        j("SP", Sync, 3, 3, 0.67, 0.5, 2, "get ins reph rem retain acq slots", &[w(0), w(1), pin(4), zeroed(4)]).cap_states(500_000),
        j("SH", Sync, 6, 6, 0.75, 0.5, 1, "get ins rem retain1 clear acq slots", &[w(1), w(2)])
            .with(|c| {
                c.items = 64;
                c.shards = 2;
                c.ghost = 0.04
            })
            .cap_states(500_000),
        j("CC", Sync, 4, 3, 0.67, 0.67, 2, "get ins reps rem acq slots goi", &[w(1), w(3)]).with(|c| c.hash = HashKind::Two).cap_states(500_000),
        j("FLAT", Unsync, 3, 2, 0.5, 0.5, 0, "get ins rem gins goie reps", &[w(1)]).flat(6).cap_states(5_000_000),
        j("FLATS", Sync, 2, 1, 1.0, 1.0, 2, "get ins rem clear acq slots goie", &[w(1), w(2)]).flat(6).cap_states(5_000_000),
        j("SCAN", Unsync, 6, 5, 0.6, 0.6, 0, "get ins gins", &[w(1)]).state(special::scan).cap_states(400_000),
        j("NEU", Unsync, 4, 4, 0.75, 0.5, 0, "get ins rem gins", &[w(0), w(1), w(2)]).state(special::neutral).cap_states(100_000),
        j("CLO", Unsync, 4, 4, 0.75, 0.5, 0, "get ins reps rem gins mutate", &[w(0), w(1), w(2)]).state(special::clones).cap_states(100_000),
        j("XU4", Unsync, 4, 4, 0.75, 0.5, 0, "get ins reph rem gins retain1", &[w(1), w(2)]).plus("ins", &[w(0), pin(1)]).fused(8).cap_states(60_000),
        j("XS3", Sync, 3, 3, 0.67, 0.5, 2, "get ins reph rem acq slots goi goie retain1", &[w(1), w(2)]).fused(8).cap_states(60_000),
        j("POL", Unsync, 6, 4, 0.5, 0.75, 0, "get ins rem gins", &[w(1)]).step(special::policy).cap_states(600_000),
        j("POLW", Unsync, 4, 5, 0.6, 0.4, 0, "get ins rep rem gins gdrop", &[w(1), w(2), w(3)]).step(special::policy).cap_states(600_000),
        j("POLR", Unsync, 4, 4, 0.5, 0.5, 0, "get ins reps gins mutate", &[w(0), w(1), zeroed(1), shrunk(4, 1)]).step(special::policy).cap_states(600_000),
        j("POLP", Unsync, 5, 4, 0.5, 0.75, 0, "get ins gins rem", &[w(1), pin(1), pin(3)]).step(special::policy).cap_states(600_000),
        j("POLG", Sync, 4, 3, 0.67, 0.67, 2, "get ins reps rem acq slots goie", &[w(0), w(1), pin(1)]).step(special::policy).cap_states(600_000),
        // --- larger caches, by phases
        p("pu", Unsync, 40, 20, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-40:w1 ins:39-20:w2 get:0-20 get3:5-12+get:30-40 rem:0-40/3 even low:12 clear drain:3 rep:0-40/2:w2 goi:0-30/2:w1 goie:8-24 gins:40-10/3:w1 mut:0-40/5:w4 pmut:0-40/4:w0 churn:10-20:w1 ins:5-9:w20+insget:30-36:w1"),
        p("ps", Sync, 40, 20, 0.75, 0.5, 4, (4, 5), "ins:0-30:w1 ins:39-20:w2 get:0-20 get3:5-12 rem:0-40/3 odd clear rep:0-40/2:w2 goi:0-40/2:w1 goie:8-24 gins:40-10/3:w1 acq:3-7 acqa:18-22 fin:0-4:w1 fail:0-4/2 ins:3-5:w20+rem:19-21 goia:0-40/4:w2"),
        p("pp", Unsync, 32, 16, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-32:w1 ins:4-8:p3 ins:0-32/5:p1 ins:12-20:z2 ins:20-26:s3>1 get:0-20 rem:4-8 none rep:0-32/3:p2 gins:0-32/2:z1 mut:0-32/3:w1 pmut:4-32/4:p1 ins:1-3:p30 ins:3-6:z20 mut:0-32/4:w0"),
        p("pw", Unsync, 150, 100, 0.8, 0.3, 0, (4, 5), "ins:0-90:w1 ins:60-150:w1 get:0-75 get3:40-60 rem:0-150/3 even ins:149-100:w3 goi:0-150/2:w1 goie:0-150/4 rep:0-150/3:w2 drain:2"),
        p("ph", Unsync, 30, 12, 1.0, 0.25, 0, (4, 5), "ins:0-12:w1 ins:10-30:w1 get:0-20 get3:5-9 rem:0-30/3 goi:0-30/2:w1 rep:0-12:w3 clear gins:5-15:w2 mut:0-30/4:w0 ins:0-12:w12"),
        p("pc", Unsync, 24, 10, 0.7, 1.0, 0, (4, 5), "ins:0-12:w1 ins:8-24:w1 get:0-20 get3:5-9 rem:0-24/3 third goi:0-24/2:w1 goie:4-16 rep:0-12:w3 clear gins:5-15:w2 drain:1").with(|c| c.hash = HashKind::Two),
        p("pcs", Sync, 24, 10, 0.7, 1.0, 4, (4, 5), "ins:0-12:w1 ins:8-24:w1 get:0-20 rem:0-24/3 third goi:0-24/2:w1 goie:4-16 rep:0-12:w3 clear acq:2-6 acqa:9-13 fin:0-4:w1 fail:0-4/2").with(|c| c.hash = HashKind::Const),
        p("psh", Sync, 48, 40, 0.75, 0.5, 2, (4, 5), "ins:0-30:w1 ins:20-48:w1 ins:47-30:w2 get:0-24 rem:0-48/3 even none clear rep:0-48/2:w2 goi:0-48/2:w1 goie:8-24 acq:3-5 fin:0-2:w1 goia:0-48/4:w2 ins:0-6:w40").with(|c| {
            c.items = 256;
            c.shards = 4
        }),
        p("psh8", Sync, 24, 32, 0.75, 0.1, 1, (4, 5), "ins:0-8:w1 ins:4-24:w1 get:0-12 rem:0-24/3 even odd none clear rep:0-24/2:w2 goi:0-24/3:w1 goie:8-16 acq:3-4 fin:0-1:w1 ins:0-6:w4").with(|c| {
            c.items = 256;
            c.shards = 7;
            c.hash = HashKind::Wide
        }),
        p("ppol", Unsync, 40, 20, 0.75, 0.5, 0, (4, 5), "ins:0-15:w1 ins:10-40:w1 ins:39-20:w2 get:0-20 get3:5-12+get:30-40 rem:0-40/3 even clear rep:0-40/2:w2 goi:0-30/2:w1 goie:8-24 gins:40-10/3:w1 reps:0-40/3:w1 ins:0-8:w1+get:0-4 ins:4-6:w16").twin(Twin::Policy),
        p("ppolz", Unsync, 32, 16, 0.75, 0.5, 0, (4, 5), "ins:0-12:w1 ins:10-32:w1 get:0-20 get3:5-9 ins:2-30/4:w0 mut:0-32/3:w0 pmut:1-32/3:w2 mut:2-32/3:w1 ins:4-8:p1 rep:0-32/5:p2 ins:8-20:z1 gins:0-32/3:z2 ins:20-26:s20>1 rem:0-32/3 third").twin(Twin::Policy),
        p("ppols", Sync, 24, 12, 0.67, 0.5, 4, (4, 5), "ins:0-9:w1 ins:6-24:w1 get:0-12 rem:0-24/3 odd acq:2-4 acqa:18-20 fin:0-4:w1 fail:0-4/2 ins:1-5:w0 ins:16-22:p1 goi:0-24/4:z2 ins:2-4:w12").twin(Twin::Policy),
        p("ppolb", Unsync, 150, 80, 0.9, 0.5, 0, (4, 5), "ins:0-72:w1 ins:72-150:w1 ins:149-100:w2 get:0-75 get3:40-60 rem:0-150/3 even goi:0-150/2:w1 goie:0-150/4 rep:0-150/3:w2").twin(Twin::Policy),
        p("pscan", Unsync, 24, 12, 0.75, 0.5, 0, (4, 5), "ins:0-9:w1 ins:6-24:w1 ins:23-14:w1 get:0-20 get3:5-12 rem:0-24/3 even clear rep:0-24/2:w1 goi:0-24/2:w1 goie:8-20 gins:24-10/3:w1").state(special::scan),
        p("pscanb", Unsync, 60, 40, 0.9, 0.5, 0, (3, 5), "ins:0-36:w1 ins:20-60:w1 get:0-30 get3:10-20 rem:0-60/3 even goi:0-60/2:w1 gins:60-30:w1").state(special::scan),
        p("pneu", Unsync, 30, 16, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-30:w1 ins:29-16:w2 get:0-16 get3:5-12 rem:0-30/3 even clear rep:0-30/2:w2 goi:0-30/2:w1 goie:8-24 mut:0-30/5:w3 pmut:0-30/4:w0 ins:0-8:w1+get:0-4").twin(Twin::Neutral),
        p("pneus", Sync, 30, 16, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-30:w1 ins:29-16:w2 get:0-16 get3:5-12 rem:0-30/3 even clear rep:0-30/2:w2 goi:0-30/2:w1 goie:8-24 ins:0-8:w1+get:0-4").twin(Twin::Neutral),
        p("psoft", Unsync, 30, 16, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-30:w1 ins:29-16:w2 get:0-16 get3:5-12 rem:0-30/3 even clear rep:0-30/2:w2 goi:0-30/2:w1 goie:8-24 gins:0-30/3:w1 ins:0-8:w1+get:0-4").twin(Twin::Soft),
        p("pclo", Unsync, 30, 16, 0.75, 0.5, 0, (4, 5), "ins:0-16:w1 ins:10-30:w1 ins:29-16:w2 get:0-16 get3:5-12 rem:0-30/3 even clear drain:2 rep:0-30/2:w2 goi:0-30/2:w1 goie:8-24 mut:0-30/5:w3 pmut:0-30/4:w0 ins:0-8:p1 reserve").twin(Twin::Clone),
    ]
}

/// Names of the configurations for a property, and the clauses that count.
pub fn plan(prop: u32, thorough: bool, release: bool) -> (Vec<&'static str>, u64, u64, fn(Op) -> bool) {
    let quick: &str = match prop {
        1 => "u2 u3w u3m s1 bonus flatu c2",
        2 => "u2 u3w u3p u3z lcu s2k flatu3",
        3 => "u2 u3w u3m u3p u4w hot1 bonus big huge s0 cap0",
        4 => "u2 u3w u3m u3p u3z s1 bonus big cap0 flatu",
        5 => "u2 u2x u3w u3z u4z hot0 s1p cap0",
        6 => "u3p u4p u4pm s1p hot0 cap0",
        7 => "u2 u3w u3p u4z hot0 hot1 u5 s1 cap1",
        8 => "u2 u3w u3z ghost0 s2k s1 lcu",
        9 => "u2 u2x u3w s0 s2k sh2 flatu pol3 pols ppol",
        10 => "u2 u2x s1 s2 s2k s2g flats",
        11 => "neu neu4 neup neus neum",
        12 => "scan3 scan4 scan5 scan2 scanm scans scan97",
        13 => "pol3 pol4 pol5 polw polw4 polh1 polg pols polz polz4 polp polpm polr polrg polzc polzh polgd polgz poljn poljw",
        14 => "lcu lcs u3z u3p s2k u2",
        15 => "sh2 sh4 hot0 hot1 ghost0 cap0 cap1 items0 items9 big huge",
        16 => "u2 u2x s1 s2k s2g",
        17 => "u2 u3p lcu s2k s2g cc flats",
        18 => "clo clo4 clop u2",
        19 => "cc cz c2 cl cs cs2",
        20 => "s1 s2k s2g",
        25 => "s2 s2k s1p cs s2g flats",
        28 if release => "xu2 xu3 xu3p xu4 xuz xulc",
        28 => "xu2 xu3 xu3p xu4 xuz xulc xs1 xs2 xsh",
        29 => "u2 u3p u3z s2k xu2 xu3p xuz xs1 xs2 cc cs clop pu ps pp",
        // what is interpreted
        30 => "ubu ubu3 ubw ubx ubs ubs2 ubxs ubc",
        _ => "",
    };
    let more: &str = match prop {
        11 => "NEU",
        12 => "SCAN",
        13 => "POL POLW POLR POLP POLG",
        18 => "CLO u2x",
        29 => "u3w s1 xu4 xulc xsh xs2k U3W S3 SP XU4 XS3 U4Z",
        30 => "UBU UBW UBS UBS2 UBX UBXS",
        28 if !release => "xs2k XU4 XS3",
        28 => "XU4",
        19 => "CC",
        15 => "SH s0 s1",
        20 | 25 => "S1 S2G S3 S4 SP FLATS s1 s1z",
        10 => "S1 S2G S3 S4 SP FLATS u3w s1p FLAT",
        _ => "u2x u4w u5 u6 u4p HOT1 U4ZZ U4M S1 S2G s1z u4pm u4z hot0 hot1 ghost0 cap1 items0 items9 lcs s0 s2 s1p sh4 c2 cs U3W U4W U5 U6 U4P U4Z S3 S4 SP SH FLAT FLATS",
    };
    let phases: &str = match prop {
        1 | 2 | 4 | 9 | 14 | 16 | 17 => "pu ps pp pw pc",
        3 => "pu ps pw ph pp",
        5 | 6 => "pp pu",
        7 => "pu pp pw ph",
        8 => "pu ps pp",
        10 => "ps pcs pu",
        11 => "pneu pneus psoft",
        12 => "pscan pscanb",
        13 => "ppol ppolz ppols ppolb",
        15 => "psh psh8 ph",
        18 => "pclo pu",
        19 => "pc pcs",
        20 | 25 => "ps pcs",
        _ => "",
    };
    // unusual shares, sizes and hashes, for everything that is about single steps
    let edges: &str = match prop {
        1..=10 | 14 | 16 | 17 => "ghost0 hot0 hot1 cap0 cap1 items0 items9 cz c2 cs2 sh4 lcs",
        _ => "",
    };
    let mut names: Vec<&'static str> = vec![];
    for n in [quick, phases, edges].iter().flat_map(|l| l.split_whitespace()) {
        if !names.contains(&n) {
            names.push(n);
        }
    }
    if thorough {
        for n in more.split_whitespace() {
            if !names.contains(&n) {
                names.push(n);
            }
        }
    } else if release {
        // the same code without assertions, statistics and parking_lot: the cheaper half
        names.retain(|n| !matches!(*n, "u3w" | "u4z" | "u3z" | "s1p" | "clo" | "bonus" | "u2"));
    }
    let tags = match prop {
        19 => c(19) | c(1) | c(2) | c(4) | c(8) | c(9) | c(10) | c(25),
        15 => c(15) | c(1) | c(2) | c(3) | c(4) | c(7) | c(9),
        // only crashes
        29 => 0,
        p => c(p),
    };
    // everything else keeps holding after entries were taken out, or after a panic
    let after = if prop == 9 || prop == 28 { u64::MAX } else { 0 };
    let took: fn(Op) -> bool = if prop == 28 { |o| matches!(o, Op::Fused(..) | Op::Goi(_, _, Load::Panic) | Op::Gmoi(_, Load::Panic) | Op::GoiAsync(_, Load::Panic)) } else { |o| o.takes() };
    (names, tags, after, took)
}
