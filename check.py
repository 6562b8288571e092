#!/usr/bin/env python3
"""check.py ID [TIER]: decides one property on /repo's working tree.

Builds the property's binary against /repo in both float widths, runs both, writes
evidence/ID.json, and exits 0 (held), 1 (VIOLATION line printed) or 2 (no answer).
check.py --replay FILE: runs a saved counterexample again.
"""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "/repo/src"
WIDTHS = ["f32", "f64"]
ENV = dict(os.environ)
ENV.pop("RUST_BACKTRACE", None)
ENV.pop("VERIF_DICT", None)


def dictionary(items, scratch):
    """Hands the harness literals to generate from (steers generation, decides nothing)."""
    f = os.path.join(scratch, "fresh.dict")
    with open(f, "w") as h:
        h.write("".join("%s\n" % i for i in items))
    ENV["VERIF_DICT"] = f


def fresh_literals():
    """Literals of the code under test that it did not have when baseline.dict was written."""
    try:
        sys.path.insert(0, os.path.join(HERE, "tools"))
        sys.dont_write_bytecode = True
        import literals
        return literals.fresh(SRC, os.path.join(HERE, "harness", "baseline.dict"))[:400]
    except Exception as e:
        print("check: no dictionary (%s)" % e, file=sys.stderr)
        return []


def fail(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def build(width, names):
    r = subprocess.run(["bash", os.path.join(HERE, "harness/build.sh"), width] + names, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
        fail("the %s harness does not build against /repo" % width)


def binary(width, name):
    return os.path.join(HERE, "target", width, "debug", name)


def known(pid):
    """Open known findings of a property: (signature, text). 'fixed:' entries suppress nothing."""
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f, encoding="utf-8"):
            if line.startswith("open: property=%s " % pid):
                sig, _, text = line[len("open: property=%s " % pid):].strip().partition(" :: ")
                out.append((sig, text))
    return out


def locked():
    os.makedirs(os.path.join(HERE, "target"), exist_ok=True)
    f = open(os.path.join(HERE, "target", ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def replay(path):
    d = json.load(open(path))
    lock = locked()
    name = d["property"].lower()
    build(d["width"], [name])
    scratch = tempfile.mkdtemp(prefix="pbrtrs-verif-")
    try:
        dictionary(d.get("fresh", []), scratch)
        try:
            rc = subprocess.run([binary(d["width"], name), "--replay", os.path.abspath(path)], env=ENV, timeout=300).returncode
        except subprocess.TimeoutExpired:
            print("does not return within 300 s")
            rc = 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc not in (0, 2):  # 1, or the code under test took the process down
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
        rc = 1
    sys.exit(rc)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    if len(sys.argv) < 2:
        fail("usage: check.py ID [quick|thorough]")
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        fail("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1") & (2 ** 63 - 1)
    except ValueError:
        fail("VERIF_SEED is not a number")
    name = pid.lower()
    t0 = time.time()
    evidence = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    lock = locked()
    for w in WIDTHS:
        build(w, [name])
    build_s = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="pbrtrs-verif-")
    parts, found, error = [], [], None
    fresh = fresh_literals()
    try:
        dictionary(fresh, scratch)
        for w in WIDTHS:
            part = os.path.join(scratch, w + ".json")
            rep = os.path.join(HERE, "replays", "%s-%s-seed%d.json" % (pid, w, seed))
            if os.path.exists(rep):
                os.unlink(rep)
            r = subprocess.run([binary(w, name), "--tier", tier, "--seed", str(seed), "--dir", os.path.join(scratch, w), "--evidence", part, "--replay-out", rep], env=ENV, cwd=scratch)
            if r.returncode not in (0, 1) or not os.path.exists(part):
                error = "%s %s ended with %d" % (name, w, r.returncode)
                continue
            p = json.load(open(part))
            parts.append(p)
            if r.returncode == 1:
                found.append((w, rep, p["violation"]))
                if fresh:
                    d = json.load(open(rep))
                    d["fresh"] = fresh
                    with open(rep, "w") as f:
                        json.dump(d, f, indent=1, ensure_ascii=False)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    del lock
    openf = known(pid)
    new = [f for f in found if not any(f[2] == sig for sig, _ in openf)]
    for sig, text in openf:
        print("KNOWN-FINDING: property=%s %s" % (pid, text or sig))
    if error and not new:
        fail(error)
    labels = {}
    for p in parts:
        for k, v in p["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "nontrivial": sum(p["nontrivial"] for p in parts),
            "rule": parts[0]["rule"],
            "samples": [s for p in parts for s in p["samples"][:4]],
            "classes": labels,
            "builds": [{"float": p["width"], "evaluations": p["evaluations"], "distinct_nontrivial": p["distinct_nontrivial"], "wall_s": p["wall_s"]} for p in parts],
            "build_s": round(build_s, 1),
            "new_literals": len(fresh),
            "guided": {"evaluations": sum(p["guided"] for p in parts), "features": [p["features"] for p in parts],
                       "rule": "cases mutated from the shortest ones that reached a feature (an edge of the code under test, once or repeatedly), rare features first; they are part of the evaluations"},
        },
        "assumptions": ["the oracle in harness/src/bin/%s.rs and the model it uses state the property correctly" % name,
                        "/repo is compiled with the pinned toolchain, overflow checks and debug assertions on, and --cfg pbrtrs_verif (read access only)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    tmp = evidence + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.rename(tmp, evidence)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, new[0][1]))
        sys.exit(1)
    print("%s held: %d cases (%d distinct and non-trivial) in %.1f s" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    sys.exit(0)


main()
