//! Which workloads exercise a property, and which violation classes break it.

pub struct Prop {
    pub id: &'static str,
    /// Profile and weight (share of the runs).
    pub profiles: &'static [(&'static str, f64)],
    pub classes: &'static [&'static str],
}

/// Broken memory or a crash: no property holds on such a run.
pub const FATAL: &[&str] = &[
    "uaf", "wild", "wild-free", "wild-retire", "double-free", "double-retire", "double-drop", "use-after-drop", "corrupt", "memory-blowup", "crash", "harness-panic", "panic",
];

pub const ALL_CLASSES: &[&str] = &[
    "linearizability", "len", "contents", "garbage", "leak", "closure", "wrong-key", "ref-changed", "iter", "format", "bulk", "panic-swallowed", "foreign-accepted", "shrunk",
    "read-blocked", "write-blocked", "write-waits", "write-work", "key-replaced", "race", "publication", "deadlock", "livelock", "hang", "harness",
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        profiles: &[("overflow", 0.1), ("chunks", 0.5), ("deep", 0.5), ("mix", 3.0), ("all", 2.0), ("long", 1.0), ("churn", 2.0), ("block", 1.0), ("grow", 0.15), ("closure", 1.0), ("hold", 1.0), ("abort", 0.3), ("quiet", 0.3), ("weak", 1.0), ("seq", 0.3)],
        classes: &["linearizability", "contents", "wrong-key", "closure", "race", "publication", "len"],
    },
    Prop {
        id: "C02",
        profiles: &[("chunks", 0.7), ("deep", 0.3), ("closure", 4.0), ("closure-resize", 4.0), ("nested", 1.5), ("panic", 1.0), ("solo-write", 0.5), ("weak", 0.5), ("all", 0.5), ("large", 0.002)],
        classes: &["linearizability", "closure", "contents", "wrong-key", "ref-changed", "len", "race", "publication"],
    },
    Prop { id: "C03", profiles: &[("chunks", 0.3), ("weak", 4.0), ("weak-churn", 4.0), ("weak-all", 2.0), ("all", 0.3)], classes: &["race", "publication", "linearizability", "ref-changed", "wrong-key", "iter", "contents", "closure"] },
    Prop {
        id: "C04",
        profiles: &[("overflow", 0.2), ("chunks", 0.7), ("deep", 1.0), ("hold", 4.0), ("churn", 2.0), ("reclaim", 1.0), ("owned", 1.0), ("all", 1.0), ("weak-churn", 1.0), ("sweep", 1.0), ("iter", 1.0), ("abort", 0.3), ("grow", 0.1), ("weak-all", 0.5)],
        classes: &["ref-changed", "race", "publication", "wrong-key"],
    },
    Prop {
        id: "C05",
        profiles: &[("overflow", 0.2), ("chunks", 0.7), ("deep", 0.5), ("drop", 3.0), ("reclaim", 2.0), ("churn", 2.0), ("panic", 1.0), ("abort", 0.5), ("bulk", 1.0), ("grow", 0.15), ("hold", 1.0), ("sweep", 1.0), ("closure-resize", 1.0), ("refuse", 0.5), ("set", 0.5), ("foreign", 0.3), ("huge", 0.2)],
        classes: &["leak"],
    },
    Prop {
        id: "C06",
        profiles: &[("overflow", 0.6), ("chunks", 2.0), ("deep", 1.0), ("churn", 3.0), ("block", 2.0), ("grow", 0.4), ("abort", 0.6), ("sweep", 0.5), ("large", 0.03), ("capacity", 0.2), ("long", 0.5), ("iter", 0.5), ("closure-resize", 1.0), ("weak-churn", 0.5), ("seq", 0.3)],
        classes: &["linearizability", "contents", "iter", "wrong-key", "closure", "len", "race", "publication", "leak", "ref-changed"],
    },
    Prop { id: "C07", profiles: &[("chunks", 0.3), ("deep", 0.3), ("iter", 5.0), ("set", 0.5), ("churn", 1.0), ("all", 1.0), ("grow", 0.1), ("weak-all", 1.0), ("abort", 0.1)], classes: &["iter", "linearizability", "wrong-key", "format", "contents", "race", "publication", "ref-changed"] },
    Prop { id: "C08", profiles: &[("chunks", 0.3), ("sweep", 4.0), ("len-sweep", 1.0), ("set", 1.0), ("nested", 0.5), ("abort", 0.2), ("grow", 0.1), ("weak-all", 0.5)], classes: &["linearizability", "closure", "contents", "len", "wrong-key", "iter", "ref-changed"] },
    Prop { id: "C09", profiles: &[("deep", 0.2), ("len", 4.0), ("len-sweep", 3.0), ("churn", 1.0), ("grow", 0.1), ("quiet", 0.5), ("bulk", 0.5), ("abort", 0.1)], classes: &["len"] },
    Prop {
        id: "C10",
        profiles: &[("overflow", 0.5), ("chunks", 2.5), ("deep", 0.5), ("block", 4.0), ("churn", 2.0), ("grow", 0.3), ("abort", 1.5), ("all", 1.0), ("nested", 0.5), ("weak-churn", 1.0), ("long", 0.5), ("panic", 0.5), ("capacity", 0.2), ("large", 0.03), ("set", 0.5), ("huge", 0.5), ("sweep", 0.5), ("solo-write", 0.5), ("solo-read", 0.5)],
        classes: &["deadlock", "livelock", "hang", "read-blocked", "write-blocked"],
    },
    Prop { id: "C11", profiles: &[("solo-read", 1.0)], classes: &["read-blocked", "linearizability", "iter", "deadlock", "livelock", "hang", "wrong-key"] },
    Prop { id: "C12", profiles: &[("solo-write", 1.0)], classes: &["write-blocked", "linearizability", "livelock", "deadlock", "hang", "closure", "contents"] },
    Prop {
        id: "C13",
        profiles: &[("panic", 1.0), ("nested", 0.15)],
        classes: &["panic-swallowed", "closure", "linearizability", "contents", "leak", "garbage", "deadlock", "livelock", "hang", "len", "wrong-key", "ref-changed", "iter"],
    },
    Prop { id: "C14", profiles: &[("foreign", 1.0)], classes: &["foreign-accepted", "linearizability", "contents", "leak", "len", "iter", "closure", "bulk"] },
    Prop { id: "C15", profiles: &[("set", 1.0)], classes: ALL_CLASSES },
    Prop { id: "C16", profiles: &[("owned", 1.0)], classes: ALL_CLASSES },
    Prop {
        id: "C17",
        profiles: &[("bulk", 1.0)],
        classes: &["bulk", "format", "leak", "linearizability", "contents", "iter", "len", "panic-swallowed", "garbage", "wrong-key", "closure", "deadlock", "livelock", "hang"],
    },
    Prop {
        id: "C18",
        profiles: &[("chunks", 0.2), ("deep", 0.3), ("capacity", 1.0), ("huge", 2.0), ("all", 1.0), ("churn", 1.0), ("quiet", 0.5), ("seq", 1.0)],
        classes: &["shrunk", "deadlock", "livelock", "hang", "linearizability", "contents", "len", "leak"],
    },
    Prop { id: "C19", profiles: &[("tight", 2.0), ("zero", 1.0), ("refuse", 1.0)], classes: ALL_CLASSES },
    Prop {
        id: "C20",
        profiles: &[("overflow", 0.3), ("chunks", 0.7), ("deep", 0.5), ("reclaim", 3.0), ("churn", 1.0), ("abort", 0.5), ("panic", 0.5), ("sweep", 0.5), ("grow", 0.1), ("hold", 0.5), ("set", 0.5), ("closure-resize", 0.5)],
        classes: &["garbage", "leak"],
    },
    Prop { id: "C23", profiles: &[("stepwise", 1.0)], classes: &["write-waits", "write-work", "linearizability", "closure", "contents", "deadlock", "livelock", "hang"] },
    Prop { id: "C24", profiles: &[("keys", 1.0), ("set", 2.0)], classes: &["key-replaced", "linearizability", "iter", "bulk", "ref-changed", "contents"] },
    Prop { id: "C25", profiles: &[("space", 1.0)], classes: &["space", "shrunk", "garbage", "leak", "contents", "len"] },
    Prop { id: "C26", profiles: &[("wicked", 1.0)], classes: &["leak", "ref-changed", "race", "publication"] },
    // Everything at once, for tools/mutate.py.
    Prop {
        id: "ALL",
        profiles: &[("overflow", 0.3), ("chunks", 1.0), ("deep", 1.0), 
            ("mix", 1.0), ("all", 2.0), ("long", 0.5), ("weak", 1.5), ("weak-churn", 2.0), ("weak-all", 1.5), ("closure", 1.0), ("closure-resize", 1.5), ("nested", 0.7), ("churn", 2.0), ("block", 1.0), ("iter", 1.0),
            ("sweep", 1.0), ("len", 1.0), ("len-sweep", 1.0), ("hold", 1.0), ("set", 1.0), ("owned", 1.0), ("panic", 1.0), ("foreign", 1.0), ("bulk", 1.0), ("capacity", 0.3), ("huge", 0.5), ("tight", 0.5), ("zero", 0.5),
            ("refuse", 0.5), ("reclaim", 1.0), ("drop", 1.0), ("solo-read", 1.0), ("solo-write", 1.0), ("abort", 0.5), ("grow", 0.1), ("large", 0.004), ("quiet", 0.3), ("seq", 0.3), ("stepwise", 0.3), ("keys", 0.3), ("space", 0.1),
        ],
        classes: ALL_CLASSES,
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

impl Prop {
    pub fn accepts(&self, class: &str) -> bool {
        FATAL.contains(&class) || self.classes.contains(&class)
    }
}
