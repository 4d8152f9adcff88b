//! Minimisation: every attempt runs in a forked process, because the system under test may crash.
use crate::engine::{arm_timer, classes, exit_now, map_shared, pack, read_str, run_owned, signal_class};
use crate::exec::POST_BASE;
use crate::prog::*;
use simstd::rt::{self, Choice, MIRROR, MIRROR_CAP};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

type Log = Vec<(u8, u32, u32, u8, u32)>;

#[repr(C)]
struct Res {
    ok: AtomicU64,
    /// Seed of the run under way.
    seed: AtomicU64,
    replaying: AtomicU64,
    msg: [u8; 1200],
}

struct M {
    res: *mut Res,
    mirror: *mut Choice,
    class: String,
    until: Instant,
    attempts: u64,
}

impl M {
    /// Does the scenario (or, failing that, the same program under one of `seeds` other schedules)
    /// still show the violation? Returns it with the decision log that does.
    fn attempt(&mut self, s: &Scenario, seeds: u64) -> Option<Scenario> {
        self.attempts += 1;
        unsafe {
            let res = &mut *self.res;
            res.ok.store(0, SeqCst);
            *(self.mirror as *mut u64) = 0;
            let pid = libc::fork();
            if pid < 0 {
                return None;
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                MIRROR = self.mirror;
                for k in 0..=seeds {
                    let mut c = s.clone();
                    if k > 0 {
                        c.choices = None;
                        c.seed = crate::engine::mix(s.seed, k) >> 1;
                    }
                    *(self.mirror as *mut u64) = 0;
                    res.seed.store(c.seed, SeqCst);
                    arm_timer(20);
                    let mut ok = false;
                    run_owned(c, |_, o| {
                        if let Some((_, m)) = classes(&o).into_iter().find(|x| x.0 == self.class) {
                            let m = m.as_bytes();
                            let n = m.len().min(1199);
                            let dst = &mut (&mut *self.res).msg;
                            dst[..n].copy_from_slice(&m[..n]);
                            dst[n] = 0;
                            ok = true;
                        }
                    });
                    if ok {
                        res.ok.store(1, SeqCst);
                        break;
                    }
                    if Instant::now() > self.until {
                        break;
                    }
                }
                exit_now(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let died = libc::WIFSIGNALED(st) && signal_class(libc::WTERMSIG(st)) == Some(&self.class);
            if !died && res.ok.load(SeqCst) == 0 {
                return None;
            }
            let mut r = s.clone();
            r.seed = res.seed.load(SeqCst);
            let n = (*(self.mirror as *mut u64) as usize).min(MIRROR_CAP - 1);
            let log: Vec<Choice> = (0..n).map(|i| *self.mirror.add(1 + i)).collect();
            r.choices = Some(pack(&log));
            let m = if died { format!("the process running the simulation was ended by signal {}", libc::WTERMSIG(st)) } else { read_str(&res.msg) };
            r.violation = Some((self.class.clone(), m));
            Some(r)
        }
    }
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
}

/// Remove operations [from, from+n) of list `l` (0 = pre, 1..=threads, last = post).
fn cut(s: &Scenario, l: usize, from: usize, n: usize) -> Scenario {
    let mut r = s.clone();
    let last = s.threads.len() + 1;
    let (list, t, base) = if l == 0 {
        (&mut r.pre, 0u8, 0u32)
    } else if l == last {
        (&mut r.post, 0, POST_BASE)
    } else {
        (&mut r.threads[l - 1], l as u8, 0)
    };
    let len = list.len() as u32;
    list.drain(from..from + n);
    if let Some(c) = &mut r.choices {
        let (a, b) = (base + from as u32 + 1, base + (from + n) as u32 + 1);
        c.retain_mut(|x| {
            if x.0 == t && x.1 > base && x.1 <= base + len {
                if x.1 >= a && x.1 < b {
                    return false;
                }
                if x.1 >= b {
                    x.1 -= n as u32;
                }
            }
            true
        });
    }
    r
}

fn drop_thread(s: &Scenario, l: usize) -> Scenario {
    let mut r = s.clone();
    let n = s.threads.len() + 1;
    r.threads.remove(l - 1);
    if let Some(c) = &mut r.choices {
        let old = std::mem::take(c);
        for x in old {
            if x.0 as usize == l {
                continue;
            }
            let mut y = x;
            if x.0 as usize > l {
                y.0 -= 1;
            }
            if x.3 == 0 {
                // Switch targets are relative to the current (or default) thread; keep the target.
                let target = (x.0 as usize + x.4 as usize) % n;
                if target == l {
                    continue;
                }
                let nt = if target > l { target - 1 } else { target };
                let v = (nt + (n - 1) - y.0 as usize) % (n - 1);
                y.4 = v as u32;
            }
            c.push(y);
        }
    }
    r
}

pub fn minimise(s: Scenario, class: &str, limit: Duration) -> Scenario {
    let mut m = M {
        res: map_shared(std::mem::size_of::<Res>()) as *mut Res,
        mirror: map_shared((MIRROR_CAP + 1) * std::mem::size_of::<Choice>()) as *mut Choice,
        class: class.to_string(),
        until: Instant::now() + limit,
        attempts: 0,
    };
    let Some(mut best) = m.attempt(&s, 0) else {
        // The seed itself is the replay.
        return s;
    };
    let slow = s.nops() > 1000;
    let seeds = if slow { 3 } else { 40 };
    loop {
        let before = (best.threads.len(), best.nops(), best.choices.as_ref().unwrap().len());
        // Whole threads.
        let mut l = best.threads.len();
        while l >= 1 && best.threads.len() > 1 && !m.late() {
            if let Some(r) = m.attempt(&drop_thread(&best, l), seeds) {
                best = r;
            }
            l -= 1;
        }
        // Operations.
        for l in (0..=best.threads.len() + 1).rev() {
            let len = |b: &Scenario| {
                if l == 0 {
                    b.pre.len()
                } else if l == b.threads.len() + 1 {
                    b.post.len()
                } else {
                    b.threads[l - 1].len()
                }
            };
            let mut n = len(&best).max(1);
            loop {
                let mut at = len(&best) as i64 - n as i64;
                while at > -(n as i64) && !m.late() {
                    let from = at.max(0) as usize;
                    let k = (n as i64 + at.min(0)) as usize;
                    if k > 0 && from + k <= len(&best) {
                        if let Some(r) = m.attempt(&cut(&best, l, from, k), if n == 1 { seeds } else { seeds / 4 }) {
                            best = r;
                        }
                    }
                    at -= n as i64;
                }
                if n == 1 || m.late() {
                    break;
                }
                n = (n / 2).max(1);
            }
        }
        // Simpler operations.
        if best.nops() <= 60 {
            for l in 0..=best.threads.len() + 1 {
                let n = if l == 0 { best.pre.len() } else if l == best.threads.len() + 1 { best.post.len() } else { best.threads[l - 1].len() };
                for i in 0..n {
                    for what in 0..4 {
                        if m.late() {
                            break;
                        }
                        let mut c = best.clone();
                        let last = c.threads.len() + 1;
                        let o = if l == 0 { &mut c.pre[i] } else if l == last { &mut c.post[i] } else { &mut c.threads[l - 1][i] };
                        let old = *o;
                        match what {
                            0 => o.3 = 0,
                            1 => o.4 = 0,
                            2 if !matches!(o.0, RESERVE | EXTEND | BULK) => o.2 = 0,
                            3 if matches!(o.0, UPDATE | UPDATE_OR_INSERT | TRY_INSERT | TRY_INSERT_WITH | GET_OR_INSERT | GET_OR_INSERT_WITH | COMPUTE) => {
                                *o = Op::new(INSERT, o.1).flag(o.3)
                            }
                            _ => {}
                        }
                        if *o != old {
                            if let Some(r) = m.attempt(&c, 3) {
                                best = r;
                            }
                        }
                    }
                }
            }
        }
        // Simpler configurations.
        let tweaks: &[fn(&mut Scenario)] = &[
            |s| s.cfg.weak = false,
            |s| s.cfg.spurious = 0,
            |s| s.cfg.cas_fail_pm = 0,
            |s| s.cfg.lazy_pm = 0,
            |s| s.cfg.refuse_nth = 0,
            |s| s.cfg.minimal_align = false,
            |s| s.real = false,
            |s| s.batch = 1,
            |s| s.elem = if s.elem == 3 { 3 } else { 0 },
            |s| s.cfg.cpus = 1,
            |s| s.cfg.policy = (0, 15, 30, 0),
            |s| {
                let n = s.pre.iter().chain(s.post.iter()).chain(s.threads.iter().flatten()).map(|o| o.1 + 1).max().unwrap_or(1);
                s.hash.truncate(n as usize)
            },
        ];
        for t in tweaks {
            if m.late() {
                break;
            }
            let mut c = best.clone();
            t(&mut c);
            if serde_json::to_string(&c).unwrap() != serde_json::to_string(&best).unwrap() {
                if let Some(r) = m.attempt(&c, 3) {
                    best = r;
                }
            }
        }
        // Decisions.
        let mut n = (best.choices.as_ref().unwrap().len() / 2).max(1);
        loop {
            let mut at = best.choices.as_ref().unwrap().len() as i64 - n as i64;
            while at > -(n as i64) && !m.late() {
                let c: &Log = best.choices.as_ref().unwrap();
                let from = at.max(0) as usize;
                let to = ((at + n as i64) as usize).min(c.len());
                if from < to {
                    let mut r = best.clone();
                    r.choices.as_mut().unwrap().drain(from..to);
                    if let Some(r) = m.attempt(&r, 0) {
                        if r.choices.as_ref().unwrap().len() < best.choices.as_ref().unwrap().len() {
                            best = r;
                        }
                    }
                }
                at -= n as i64;
            }
            if n == 1 || m.late() {
                break;
            }
            n /= 2;
        }
        if m.late() || before == (best.threads.len(), best.nops(), best.choices.as_ref().unwrap().len()) {
            break;
        }
    }
    best.readable = crate::engine::readable(&best);
    best.readable.extend(best.choices.as_ref().unwrap().iter().take(80).map(|c| crate::engine::describe_choice(c, best.threads.len() + 1)));
    best.readable.push(format!("minimised in {} attempts", m.attempts));
    let _ = rt::KINDS;
    best
}
