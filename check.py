#!/usr/bin/env python3
"""check.py build | <property> [quick|thorough]: build the simulator around /repo's current sources and
search for violations of one property. Exit 0: none found; 1: VIOLATION printed; 2: no answer."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
OUT = os.path.join(VERIF, "out")
BINS = {"release": os.path.join(SIM, "target", "release", "dst"), "dbg": os.path.join(SIM, "target-dbg", "dbg", "dst")}

REAL = ["all of /repo/src (raw table, probing, resizing, parker, stack, counter, map, set, refs, iterators, serde impls), unmodified",
        "seize's guards, thread ids and retirement lists (its hyaline reclamation in the runs marked real_collector_runs)"]
STUB = ["std atomics, fences, Mutex, park/unpark, spin/yield, available_parallelism: simulated memory model and scheduler",
        "the global allocator: simulated heap with liveness shadow, refusals and minimal alignment",
        "seize's choice of when to reclaim: adversarial eager reclamation outside real_collector_runs",
        "threads: fibers of one OS thread; caller's keys, values, hashers and closures: instrumented"]
FAULTS = {"stalls": "thread stalled for up to thousands of steps", "stale": "load returned an older permitted value", "cas_fail": "compare_exchange_weak failed spuriously",
          "spurious": "spurious wakeup or stray unpark token", "refused": "table allocation refused", "late": "reclamation postponed",
          "caller_faults": "caller code (closure, clone, element, iterator) panicked, failed or lied", "foreign": "operation given a guard of another collector",
          "gives": "owned guard handed to another thread", "solos": "all other threads stopped for good during one operation",
          "misaligned_runs": "runs on a heap that gives no more alignment than asked for", "fair_runs": "runs that reached the fault-free fair phase"}


def src_hash():
    h = hashlib.sha256()
    files = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", VERIF_SRC_HASH=src_hash())
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    os.makedirs(os.path.join(SIM, "target"), exist_ok=True)
    with open(os.path.join(SIM, "target", ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ps = []
        for name, args in (("release", ["--release", "--target-dir", "target"]), ("dbg", ["--profile", "dbg", "--target-dir", "target-dbg"])):
            ps.append((name, subprocess.Popen(["cargo", "build", "--offline", "-q"] + args, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = False
        for name, p in ps:
            o = p.communicate()[0].decode(errors="replace")
            if p.returncode != 0:
                bad = True
                print("build of the simulator (%s) failed:\n%s" % (name, o[-6000:]))
    return not bad


def known(prop):
    """Entries of known_findings.txt: (id, file) of the findings and (property, text) of the fixes."""
    fs = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l.split(" :: ")[0].split()[1:])
                if d["property"] == prop:
                    fs.append((d["scenario"], d["class"], l.split(" :: ", 1)[1]))
    return fs


def pinned(binary, files):
    p = subprocess.run([binary, "pinned"] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise RuntimeError("pinned scenarios: " + p.stderr.decode())
    res = []
    for l in p.stdout.decode().splitlines():
        f, c, m = l.split("\t", 2)
        res.append((f, c, m))
    return res


def accepts(binary, prop):
    return set(subprocess.run([binary, "classes", prop], stdout=subprocess.PIPE, check=True).stdout.decode().split())


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "build":
        return 0 if build() else 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = float(os.environ.get("VERIF_SECS", "600" if tier == "thorough" else "50"))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not build():
        return 2
    t_build = time.time() - t0
    cpus = os.cpu_count() or 4
    try:
        cpus = len(os.sched_getaffinity(0))
    except OSError:
        pass
    ok_classes = accepts(BINS["release"], prop)

    # Pinned scenarios: known findings, and the histories of repaired defects.
    violation = None
    n_pinned = 0
    notes = []
    for scen, cls, text in known(prop):
        res = pinned(BINS["release"], [os.path.join(VERIF, scen)])
        n_pinned += 1
        got = [c for _, c, _ in res]
        if cls in got:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            notes.append("known finding reproduced: " + text)
        else:
            notes.append("known finding did not reproduce (%s): %s" % (",".join(got), text))
    rdir = os.path.join(VERIF, "regress")
    pins = sorted(os.path.join(rdir, f) for f in os.listdir(rdir) if f.endswith(".json")) if os.path.isdir(rdir) else []
    for b in ("release", "dbg"):
        if pins and not violation:
            for f, c, m in pinned(BINS[b], pins):
                n_pinned += c == "none"
                if c in ok_classes and not violation:
                    out = os.path.join(OUT, "%s-pinned.json" % prop)
                    s = json.load(open(f))
                    s["build"], s["property"], s["violation"] = b, prop, [c, m]
                    json.dump(s, open(out, "w"))
                    violation = {"class": c, "message": m, "replay": out, "profile": "pinned:" + os.path.basename(f), "build": b}

    # Search.
    parts = []
    if not violation:
        split = {"release": max(1, cpus * 5 // 8), "dbg": max(1, cpus - max(1, cpus * 5 // 8))}
        ps = []
        for b, w in split.items():
            o = os.path.join(OUT, "%s-%s.json" % (prop, b))
            if os.path.exists(o):
                os.remove(o)
            r = os.path.join(OUT, "%s-%s-replay.json" % (prop, b))
            cmd = [BINS[b], "search", "--property", prop, "--seed", str(seed), "--secs", str(secs), "--workers", str(w), "--out", o, "--replay-out", r,
                   "--shrink", "60", "--distinct-bits", "27" if tier == "thorough" else "25"]
            ps.append((b, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        # The first to find a violation ends the other.
        left = list(ps)
        hit = False
        while left:
            for x in list(left):
                b, o, p = x
                if p.poll() is not None:
                    left.remove(x)
                    if p.returncode == 1:
                        hit = True
            if hit:
                for _, _, p in left:
                    p.kill()
                    p.wait()
                left = []
            elif time.time() - t0 > t_build + secs + 200:
                for _, _, p in left:
                    p.kill()
                    p.wait()
                print("the search did not end in time")
                return 2
            time.sleep(0.05)
        for b, o, p in ps:
            if p.returncode in (0, 1) and os.path.exists(o):
                j = json.load(open(o))
                parts.append(j)
                if j["violation"] and not violation:
                    violation = j["violation"]
            elif not hit:
                print("the %s search failed (%s): %s" % (b, p.returncode, p.stdout.read().decode(errors="replace")[-2000:]))
                return 2

    # Evidence.
    def total(k):
        v = [p["counters"][k] for p in parts]
        return (max(v) if k == "max_op_steps" else sum(v)) if v else 0

    runs, wall = total("runs"), time.time() - t0
    search_s = max([p["secs"] for p in parts], default=0.0)
    prof, other, pol = {}, {}, {}
    for p in parts:
        for k, v in p["profiles"].items():
            prof[k] = prof.get(k, 0) + v
        for k, v in p["policies"].items():
            pol[k] = pol.get(k, 0) + v
        for k, v in p["other_classes"].items():
            other.setdefault(k, {"count": 0, "build": p["build"], "profile": v["profile"], "seed": v["seed"]})["count"] += v["count"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": total("distinct"),
        "rule": "one evaluation = one simulated run of a generated program under a seeded scheduler; it is non-trivial if its threads really interleaved (more context switches than starting "
                "and joining them takes) or it has one thread only; distinct = different hash of the sequence of (thread switched to, kind and address of the access switched at), counted in a hash set of bounded size",
        "samples": [s for p in parts for s in p["samples"]][:4] or [violation or "no run was made"],
        "nontrivial_runs": total("nontrivial"),
        "runs_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "seeds_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "simulated_steps": total("steps"),
        "simulated_time": "the code under test has no clock or timer; simulated time is counted in scheduling points (atomic accesses, fences, lock, park and caller-code points)",
        "operations": total("ops"),
        "context_switches": total("switches"),
        "faults_injected": {t: total(k) for k, t in FAULTS.items()},
        "reach": {"parks": total("parks"), "lock_waits": total("lock_waits"), "tables_allocated_beyond_the_first": total("resizes"), "runs_under_weak_memory": total("weak_runs"),
                  "runs_with_hyaline_reclamation": total("real_collector_runs"), "incremental_resize_runs": total("incremental_runs"), "closure_retries": total("closure_retries"),
                  "closures_that_used_the_map_themselves": total("nested"), "references_rechecked": total("held_checks"), "histories_too_hard_to_check": total("lin_unknown"), "longest_operation_in_own_steps": total("max_op_steps"),
                  "atomic_loads": total("loads"), "atomic_stores": total("stores"), "atomic_rmws": total("rmws"), "alloc_error_aborts": total("alloc_aborts")},
        "runs_by_profile": prof,
        "runs_by_scheduler_policy": pol,
        "runs_by_build": {p["build"]: p["counters"]["runs"] for p in parts},
        "violations_of_other_properties_seen": other,
        "determinism": {p["build"]: p["determinism"] for p in parts},
        "pinned_scenarios_run": n_pinned,
        "worker_restarts": sum(p["worker_restarts"] for p in parts),
        "real_components": REAL,
        "stub_components": STUB,
        "build_s": round(t_build, 1),
        "notes": notes,
        "violation": violation,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 1), "violations": 1 if violation else 0,
        "assumptions": ["the simulated memory model permits store buffering and stale loads but no load-store reordering or out-of-thin-air values",
                        "the simulated primitives behave as std documents; seize's guards are the real code, its reclamation is real or replaced by an adversarial but permitted one"],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in parts:
        d = p.get("determinism") or {}
        if d.get("mismatches"):
            print("warning: %d of the re-run executions differed (%s build)" % (d["mismatches"], p["build"]))
    for k, v in other.items():
        print("note: %d runs ended in a violation of another property: %s (%s build, profile %s, seed %s)" % (v["count"], k, v["build"], v["profile"], v["seed"]))
    if violation:
        final = os.path.join(OUT, "replay-%s-%s.json" % (prop, violation["class"]))
        os.replace(violation["replay"], final)
        p = subprocess.run([BINS[violation["build"]], "replay", final, "--quiet"], stdout=subprocess.PIPE)
        print("%s: %s" % (violation["class"], violation.get("minimised_message") or violation["message"]))
        for l in json.load(open(final)).get("readable", [])[:40]:
            print("  " + l)
        print("replayed in a fresh process: %s" % ("same violation" if p.returncode == 1 else "exit %d" % p.returncode))
        print("to replay: %s replay %s" % (BINS[violation["build"]], final))
        print("VIOLATION property=%s replay=%s" % (prop, final))
        return 1
    print("%s: no violation in %d runs (%d distinct interleavings, %d steps), build %.0f s, search %.0f s" % (prop, runs, total("distinct"), total("steps"), t_build, search_s))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        print("error: %r" % (e,))
        sys.exit(2)
