#!/usr/bin/env python3
"""mutate.py list | run SHARD NSHARDS OUT [SECS] : mutation testing of the simulator. Makes small changes to
/repo/src in a scratch copy (/tmp/lab/mutN), builds, and searches with every profile for SECS seconds.
Survivors point at behaviour no oracle looks at, or at equivalent mutants."""
import json, os, re, subprocess, sys, time, random

ROOT = "/repo"
FILES = ["src/raw/mod.rs", "src/raw/alloc.rs", "src/raw/probe.rs", "src/raw/utils/counter.rs", "src/raw/utils/mod.rs", "src/raw/utils/parker.rs",
         "src/raw/utils/stack.rs", "src/raw/utils/tagged.rs", "src/map.rs", "src/set.rs", "src/serde_impls.rs"]
ORD = {"Ordering::Release": ["Ordering::Relaxed"], "Ordering::Acquire": ["Ordering::Relaxed"], "Ordering::AcqRel": ["Ordering::Acquire", "Ordering::Release"],
       "Ordering::SeqCst": ["Ordering::Relaxed", "Ordering::AcqRel"]}
SIMPLE = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
          (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"), (r" \* 2\b", " * 1"), (r" \+= 1\b", " += 0"), (r" << 1\b", " << 0"), (r" >> 1\b", " >> 0"), (r" / 2\b", " / 1"), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"),
          (r"\bSome\(([a-z_.]+)\)$", "None")]


def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join(ROOT, f)).read().split("\n")
        stop = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]")), len(lines))
        for i, l in enumerate(lines[:stop]):
            s = l.strip()
            if not s or s.startswith(("//", "#[", "use ", "pub use ", "debug_assert", "assert", "impl", "pub struct", "where", "mod ")):
                continue
            code = l.split("//")[0].rstrip()

            def add(kind, a, b, new):
                out.append({"file": f, "line": a + 1, "n": b - a, "kind": kind, "new": new, "old": "\n".join(lines[a:b])})
            for o, ns in ORD.items():
                for m in re.finditer(re.escape(o) + r"\b", code):
                    for n in ns:
                        if "load" in code and n == "Ordering::AcqRel":
                            n = "Ordering::Acquire"
                        if "store" in code and n == "Ordering::AcqRel":
                            n = "Ordering::Release"
                        add("order", i, i + 1, [code[:m.start()] + n + code[m.end():]])
            for pat, rep in SIMPLE:
                for m in re.finditer(pat, code):
                    if pat in (" < ", " > ") and ("<'" in code or "fn " in code):
                        continue
                    add("op", i, i + 1, [code[:m.start()] + m.expand(rep) + code[m.end():]])
            m = re.match(r"^(\s*)(\} else )?(if|while) (?!let\b)(.*) \{$", code)
            if m:
                for v in ("true", "false"):
                    if m.group(3) == "while" and v == "true":
                        continue
                    add("cond", i, i + 1, ["%s%s%s (%s) %s %s {" % (m.group(1), m.group(2) or "", m.group(3), m.group(4), "||" if v == "true" else "&&", v)])
            # Statement deletion.
            j = i - 1
            while j >= 0 and (not lines[j].strip() or lines[j].strip().startswith("//")):
                j -= 1
            prev = lines[j].split("//")[0].rstrip() if j >= 0 else ""
            if prev.endswith(("{", "}", ";")) and not re.match(r"(let|return|pub|fn|const|static|type|struct|enum|for|while|if|loop|match|unsafe \{$|\}|break|continue|use|mod|impl|macro)", s):
                d, k = 0, i
                while k < min(stop, i + 12):
                    c = lines[k].split("//")[0].rstrip()
                    d += sum(c.count(x) for x in "([{") - sum(c.count(x) for x in ")]}")
                    if d == 0 and c.endswith(";"):
                        add("delete", i, k + 1, [re.match(r"\s*", l).group() + "{}"])
                        break
                    if d < 0:
                        break
                    k += 1
    for n, m in enumerate(out):
        m["id"] = n
    return out


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m["id"], m["file"], m["line"], m["kind"], m["old"].strip().replace("\n", " "), "->", m["new"][0].strip())
        return
    shard, n, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    secs = float(sys.argv[5]) if len(sys.argv) > 5 else 20
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["old"], r["new"][0], r["line"]) for r in map(json.loads, open(out))}
    lab = "/tmp/lab/mut%d" % shard
    if not os.path.exists(lab):
        subprocess.check_call(["/verif/tools/lab.sh", "mut%d" % shard])
    random.seed(1)
    random.shuffle(ms)
    for i, m in enumerate(ms):
        if i % n != shard or (m["file"], m["old"], m["new"][0], m["line"]) in done:
            continue
        p = os.path.join(lab, "repo", m["file"])
        orig = open(p).read()
        lines = orig.split("\n")
        a = m["line"] - 1
        lines[a:a + m["n"]] = m["new"]
        open(p, "w").write("\n".join(lines))
        t = time.time()
        env = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", VERIF_SRC_HASH="m%d-%d" % (m["id"], time.time()))
        b = subprocess.run(["cargo", "build", "--offline", "-q", "--release", "--target-dir", "target"], cwd=lab + "/verif/sim", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            m["result"] = "build"
        else:
            m["build_s"] = round(time.time() - t)
            rj = lab + "/r.json"
            if os.path.exists(rj):
                os.remove(rj)
            try:
                c = subprocess.run([lab + "/verif/sim/target/release/dst", "search", "--property", "ALL", "--seed", "1", "--secs", str(secs), "--workers", "2", "--out", rj,
                                    "--replay-out", lab + "/rep.json", "--shrink", "0", "--distinct-bits", "20"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 120)
                m["result"] = {0: "SURVIVED", 1: "killed"}.get(c.returncode, "rc%d" % c.returncode)
                if c.returncode == 1:
                    v = json.load(open(rj))["violation"]
                    m["class"], m["profile"] = v["class"], v["profile"]
            except subprocess.TimeoutExpired:
                m["result"] = "timeout"
        m["s"] = round(time.time() - t)
        open(p, "w").write(orig)
        with open(out, "a") as fh:
            fh.write(json.dumps(m) + "\n")


main()
