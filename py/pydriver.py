"""Runs the Python harness of a property in parallel shards; same contract as check.py."""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import build as B  # noqa: E402

PY = "/opt/mpart-venv/bin/python3"


def env(d):
    e = dict(os.environ)
    e.update(PYTHONPATH=d, OMP_NUM_THREADS="1", OMP_PROC_BIND="false", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
             MPART_WARNINGS="OFF", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1")
    return e


def main(prop, conf, a, t0, workdir):
    with open(os.path.join(B.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = B.build_python()
    tb = time.time() - t0
    script = os.path.join(HERE, conf["harness"] + ".py")
    ev = env(d)

    def call(args, timeout=None, log=None):
        p = subprocess.run([PY, script] + args, env=ev, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        txt = p.stdout.decode(errors="replace")
        if log:
            open(log, "w").write(txt)
        return p.returncode, txt

    def replay(path):
        return call(["replay", "--file", path])

    if a.replay:
        rc, txt = replay(os.path.abspath(a.replay))
        print(txt)
        return rc

    scale = a.scale if a.scale is not None else conf.get("scale_" + a.tier, 1.0 if a.tier == "quick" else 12.0)
    tlimit = conf.get("time_" + a.tier, 330 if a.tier == "quick" else 3000)
    seed = a.seed if a.tier == "quick" else a.seed + 500000
    shards = conf.get("shards", 8)

    def shard(s):
        out = os.path.join(workdir, "shard%d.json" % s)
        st = os.path.join(workdir, "shard%d.status" % s)
        for p in (out, out + ".hashes", st):
            if os.path.exists(p):
                os.remove(p)
        args = ["run", "--seed", str(seed * 1000 + s), "--scale", str(scale), "--time", str(tlimit), "--out", out, "--status", st]
        if a.only:
            args += ["--only", a.only]
        try:
            rc, txt = call(args, tlimit * 1.3 + 200, os.path.join(workdir, "shard%d.log" % s))
        except subprocess.TimeoutExpired:
            rc, txt = "timeout", ""
        if os.path.exists(out):
            r = json.load(open(out))
            r["hashes"] = open(out + ".hashes", "rb").read()
            return r
        name, cseed, idx = (open(st).read().split() + ["?", "0", "0"])[:3] if os.path.exists(st) else ("?", "0", "0")
        return {"evaluations": int(idx), "discarded": 0, "comparisons": 0, "labels": {}, "per_sub": {}, "nontrivial_sub": {}, "discards": {},
                "samples": [], "hashes": b"", "timeup": False, "txt": txt,
                "failures": [{"sub": name, "seed": int(cseed), "tag": "crash", "msg": "worker ended with %s\n%s" % (rc, txt[-1500:])}]}

    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(shard, range(shards)))
    trun = time.time() - t0 - tb

    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    for k in known.get("findings", []):
        if k["property"] == prop:
            rc, txt = replay(os.path.join(VERIF, k["replay"]))
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]) if rc == 1 else "note: known finding no longer fails: %s" % k["what"])
    violations = []
    nreg = 0
    rdir = os.path.join(VERIF, "regressions", prop)
    if os.path.isdir(rdir):
        for f in sorted(os.listdir(rdir)):
            nreg += 1
            rc, txt = replay(os.path.join(rdir, f))
            if rc == 1:
                violations.append((os.path.join(rdir, f), txt))

    fails = {}
    for s, r in enumerate(res):
        for f in r["failures"]:
            fails.setdefault((f["sub"], f["tag"]), (s, f))
    for n, ((sub, tag), (s, f)) in enumerate(sorted(fails.items())):
        if n >= 4 and violations:
            break
        path = os.path.join(VERIF, "replay-out", "%s-%s-%s.txt" % (prop, sub, re.sub(r"[^A-Za-z0-9]+", "_", tag)[:40]))
        raw = os.path.join(workdir, "raw.txt")
        if "choices" not in f:
            # the worker died: regenerate the case from its seed
            f["choices"] = json.loads(call(["choices", "--only", sub, "--seed", str(f["seed"])])[1].strip().splitlines()[-1]) if sub != "?" else None
        if f["choices"] is not None:
            with open(raw, "w") as o:
                o.write("sub %s\nchoices %s\n# %s: %s\n" % (sub, " ".join(map(str, f["choices"])), tag, f["msg"].replace("\n", " ")))
            if os.path.exists(path):
                os.remove(path)
            rc, txt = call(["shrink", "--file", raw, "--out", path, "--time", "40"])
            if os.path.exists(path) and all(replay(path)[0] == 1 for _ in range(3)):
                violations.append((path, txt))
                continue
            if all(replay(raw)[0] == 1 for _ in range(3)):
                open(path, "w").write(open(raw).read())
                violations.append((path, f["msg"]))
                continue
        again = [shard(s) for _ in range(2)]
        if all(any(q["sub"] == sub and q["tag"] == tag for q in r["failures"]) for r in again):
            with open(path, "w") as o:
                o.write("# history-dependent: fails in the course of: %s run --seed %d --scale %g\nsub %s\nchoices %s\n# %s: %s\n"
                        % (script, seed * 1000 + s, scale, sub, " ".join(map(str, f["choices"] or [])), tag, f["msg"].replace("\n", " ")))
            violations.append((path, tag + ": " + f["msg"]))
        else:
            print("note: failure did not reproduce and is not reported: %s %s %s" % (sub, tag, f["msg"][:1500]))

    hashes = set()
    for r in res:
        h = r["hashes"]
        hashes.update(struct.unpack("%dQ" % (len(h) // 8), h))

    def merge(key):
        m = {}
        for r in res:
            for k, v in r[key].items():
                m[k] = m.get(k, 0) + v
        return m
    samples = []
    for r in res:
        for x in r["samples"]:
            if sum(1 for y in samples if y.split(":")[0] == x.split(":")[0]) < 2:
                samples.append(x)
    n = sum(r["evaluations"] for r in res)
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hashes), "rule": conf["rule"], "samples": samples or ["(no non-trivial case)"],
            "discarded": sum(r["discarded"] for r in res), "oracle_comparisons": sum(r["comparisons"] for r in res),
            "cases_by_subproperty": merge("per_sub"), "nontrivial_by_subproperty": merge("nontrivial_sub"), "classes": merge("labels"),
            "discard_reasons": merge("discards"), "regression_replays": nreg, "shards": shards,
            "stopped_by_time_limit": any(r["timeup"] for r in res), "build_s": round(tb, 1), "search_s": round(trun, 1),
        },
        "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, %d discarded, build %.0fs search %.0fs"
          % (prop, a.tier, a.seed, n, len(hashes), evidence["coverage"]["oracle_comparisons"], evidence["coverage"]["discarded"], tb, trun))
    for path, txt in violations:
        print(txt[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if violations else 0
