//! Scenarios: a configuration, a program per simulated thread, and (for replays) the recorded
//! deviations from the default schedule.
use serde::{Deserialize, Serialize};
use simstd::rt::arena::AlignMode;
use simstd::rt::{Choice, Config, Kind, Policy};

macro_rules! ops {
    ($($name:ident = $v:expr;)*) => {
        $(pub const $name: u8 = $v;)*
        pub fn op_name(c: u8) -> &'static str {
            match c { $($v => stringify!($name),)* _ => "?" }
        }
    };
}
ops! {
    GET = 0;
    GET_KV = 1;
    CONTAINS = 2;
    INSERT = 3;
    TRY_INSERT = 4;
    TRY_INSERT_WITH = 5;
    GET_OR_INSERT = 6;
    GET_OR_INSERT_WITH = 7;
    UPDATE = 8;
    UPDATE_OR_INSERT = 9;
    COMPUTE = 10;
    REMOVE = 11;
    REMOVE_ENTRY = 12;
    REMOVE_IF = 13;
    CLEAR = 20;
    RETAIN = 21;
    ITER = 22;
    LEN = 23;
    IS_EMPTY = 24;
    RESERVE = 25;
    CLONE = 26;
    DEBUG = 27;
    SERIALIZE = 28;
    EXTEND = 29;
    BULK = 30;
    RESERVE_HUGE = 31;
    EQ = 32;
    PIN = 40;
    UNPIN = 41;
    GIVE = 42;
    TAKE = 43;
    REL = 44;
    ACQ = 45;
    FLUSH = 46;
    REFRESH = 47;
    PAUSE = 48;
    QUIET = 49;
}

pub const F_FOREIGN: u8 = 1;
/// Ignore the pinned guard: use a fresh one.
pub const F_FRESH: u8 = 2;
/// (with F_FRESH / F_FOREIGN) owned guard instead of a local one
pub const F_OWNED: u8 = 4;
/// (with F_FRESH) pinned reference instead of an explicit guard
pub const F_PIN: u8 = 8;
/// The shared guard (a guard used by several threads at once).
pub const F_SHARED: u8 = 16;

/// The caller's closure itself uses the map when first called.
pub const F_NEST: u8 = 32;

/// (solo start) as soon as every other thread is between operations or hashing an unrelated key.
pub const SOLO_AWAY: u16 = u16::MAX;

/// An operation: code, key, argument, flags, closure call that panics (1-based), solo start (1-based).
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Op(pub u8, pub u32, pub u32, pub u8, pub u8, pub u16);

impl Op {
    pub fn new(c: u8, k: u32) -> Op {
        Op(c, k, 0, 0, 0, 0)
    }
    pub fn arg(mut self, a: u32) -> Op {
        self.2 = a;
        self
    }
    pub fn flag(mut self, f: u8) -> Op {
        self.3 |= f;
        self
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} k{} a{}", op_name(self.0), self.1, self.2);
        for (b, n) in [(F_FOREIGN, " foreign-guard"), (F_FRESH, " fresh-guard"), (F_OWNED, " owned"), (F_PIN, " pin"), (F_SHARED, " shared-guard"), (F_NEST, " nested-operation")] {
            if self.3 & b != 0 {
                s += n;
            }
        }
        if self.4 > 0 {
            s += &format!(" panic@{}", self.4);
        }
        if self.5 > 0 {
            s += &if self.5 == SOLO_AWAY { " solo-while-others-away".into() } else { format!(" solo@{}", self.5) };
        }
        s
    }
}

/// `Scenario::incremental` that stands for a chunk size of zero.
pub const NO_CHUNK: usize = usize::MAX - 7;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub profile: String,
    pub seed: u64,
    pub set: bool,
    /// Element shape: 0 = 24 bytes / align 8, 1 = 5 bytes / align 1, 2 = 64 bytes / align 64.
    pub elem: u8,
    /// 0 = blocking, otherwise the incremental chunk size (`NO_CHUNK`: zero).
    pub incremental: usize,
    /// 0 = default capacity
    pub cap: usize,
    pub hash: Vec<u64>,
    /// The collector's own algorithm, or the adversarial stand-in.
    pub real: bool,
    pub batch: usize,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
    pub cfg: Cfg,
    /// Bound on solo steps.
    pub bound: u64,
    /// Drop the map in whatever state the operations leave it (nothing completes a resize first).
    #[serde(default)]
    pub early: bool,
    /// Entries copied at a time by a blocking resize (0: as many as in a real build).
    #[serde(default)]
    pub chunk: usize,
    /// Misbehaving keys.
    #[serde(default)]
    pub wicked: crate::types::Faults,
    pub choices: Option<Vec<(u8, u32, u32, u8, u32)>>,
    /// Expected class and message (replay files).
    #[serde(default)]
    pub violation: Option<(String, String)>,
    #[serde(default)]
    pub property: Option<String>,
    /// The build the violation was found with.
    #[serde(default)]
    pub build: Option<String>,
    #[serde(default)]
    pub readable: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub policy: (u8, u32, u32, u32),
    pub weak: bool,
    pub stale_pm: u32,
    pub cas_fail_pm: u32,
    pub spurious: u32,
    pub soft: u64,
    pub hard: u64,
    pub minimal_align: bool,
    pub cpus: usize,
    pub refuse_nth: u32,
    pub lazy_pm: u32,
}

pub fn kind_of(k: u8) -> Kind {
    [Kind::Sched, Kind::Stale, Kind::CasFail, Kind::Spurious, Kind::Lazy, Kind::Reclaim][k as usize]
}

impl Scenario {
    pub fn config(&self) -> Config {
        let c = &self.cfg;
        let (p, a, b, d) = c.policy;
        Config {
            seed: self.seed,
            policy: match p {
                0 => Policy::Random { read: a, write: b },
                1 => Policy::Pct { depth: a, len: b },
                2 => Policy::Stall { write: a, stall_ppm: b, max: d },
                _ => Policy::Quantum { lo: a, hi: b },
            },
            weak: c.weak,
            stale_pm: c.stale_pm,
            cas_fail_pm: c.cas_fail_pm,
            spurious: c.spurious,
            soft_limit: c.soft,
            hard_limit: c.hard,
            align: if c.minimal_align { AlignMode::Minimal } else { AlignMode::Malloc },
            cpus: c.cpus,
            refuse_nth: c.refuse_nth,
            replay: self
                .choices
                .as_ref()
                .map(|v| v.iter().map(|&(t, op, k, kind, val)| Choice { t, op, k, kind: kind_of(kind), val }).collect()),
            lazy_pm: c.lazy_pm,
        }
    }
    pub fn policy_name(&self) -> &'static str {
        ["random", "pct", "stall", "quantum"][self.cfg.policy.0.min(3) as usize]
    }
    pub fn nops(&self) -> usize {
        self.pre.len() + self.post.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
}
