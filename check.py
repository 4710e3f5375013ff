#!/usr/bin/env python3
"""Decides one property: python3 check.py C01 [--tier quick|thorough] [--seed N]

Builds MParT from /repo's working tree, runs the property's harness in parallel shards, shrinks and replays any
failure, writes evidence/<id>.json. Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
"""
import argparse
import concurrent.futures as cf
import fcntl
import json
import os
import re
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402

CONF = json.load(open(os.path.join(HERE, "checks.json")))
SHARDS = 8


def harness_env(conf):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = str(conf.get("threads", 1))
    e["OMP_PROC_BIND"] = "false"
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["MPART_WARNINGS"] = "OFF"
    e["MALLOC_PERTURB_"] = "165"  # fresh heap memory is never conveniently zero
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=165:detect_odr_violation=0"
    return e


def run_shard(binary, conf, workdir, shard, seed, scale, tlimit, only=None):
    out = os.path.join(workdir, "shard%d.json" % shard)
    status = os.path.join(workdir, "shard%d.status" % shard)
    for p in (out, out + ".hashes", status):
        if os.path.exists(p):
            os.remove(p)
    cmd = [binary, "run", "--seed", str(seed * 1000 + shard), "--scale", str(scale), "--time", str(tlimit),
           "--out", out, "--status", status, "--casecpu", str(conf.get("casecpu", 60))]
    if only:
        cmd += ["--only", only]
    log = open(os.path.join(workdir, "shard%d.log" % shard), "wb")
    try:
        p = subprocess.run(cmd, env=harness_env(conf), stdout=log, stderr=subprocess.STDOUT, timeout=tlimit * 1.3 + 400)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if os.path.exists(out):
        r = json.load(open(out))
        r["hashes"] = open(out + ".hashes", "rb").read()
        return r
    # died inside a case: the status file says which one
    names = [l.split()[0] for l in subprocess.run([binary, "list"], stdout=subprocess.PIPE, env=harness_env(conf)).stdout.decode().splitlines()]
    data = open(status, "rb").read(4096)
    outcome, sub, cseed, idx = struct.unpack("iiQQ", data[:24])
    tag = data[32:32 + 256].split(b"\0")[0].decode(errors="replace")
    return {"died": True, "rc": rc, "evaluations": int(idx), "discarded": 0, "comparisons": 0, "labels": {}, "per_sub": {}, "nontrivial_sub": {},
            "discards": {}, "samples": [], "hashes": b"", "timeup": False,
            "failures": [{"sub": names[sub] if 0 <= sub < len(names) else names[0], "seed": str(cseed),
                          "tag": tag or "crash", "msg": "harness died (%s)" % rc}]}


def replay(binary, conf, path):
    p = subprocess.run([binary, "replay", "--file", path, "--casecpu", str(conf.get("casecpu", 60))], env=harness_env(conf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.property
    conf = CONF[prop]
    t0 = time.time()
    workdir = os.path.join(B.BUILD, "work", prop)
    os.makedirs(workdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay-out"), exist_ok=True)

    if conf.get("kind") == "python":
        sys.path.insert(0, os.path.join(HERE, "py"))
        import pydriver
        return pydriver.main(prop, conf, a, t0, workdir)

    with open(os.path.join(B.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        binary = B.build([conf["harness"]], conf.get("variant", "plain"), only=conf.get("sources"))[conf["harness"]]
    tb = time.time() - t0

    if a.replay:
        rc, txt = replay(binary, conf, a.replay)
        print(txt)
        return rc

    scale = a.scale if a.scale is not None else conf.get("scale_" + a.tier, 1.0 if a.tier == "quick" else 12.0)
    tlimit = conf.get("time_" + a.tier, 330 if a.tier == "quick" else 3000)
    seed = a.seed if a.tier == "quick" else a.seed + 500000
    shards = conf.get("shards", SHARDS)
    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(lambda s: run_shard(binary, conf, workdir, s, seed, scale, tlimit, a.only), range(shards)))
    trun = time.time() - t0 - tb

    # known findings: fixed replays that must still fail the same way, reported but not counted as violations
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    for k in known.get("findings", []):
        if k["property"] != prop:
            continue
        rc, txt = replay(binary, conf, os.path.join(HERE, k["replay"]))
        if rc == 1:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding no longer fails: %s" % k["what"])
    # regression replays of repaired defects and of earlier failures
    regress = []
    rdir = os.path.join(HERE, "regressions", prop)
    if os.path.isdir(rdir):
        for f in sorted(os.listdir(rdir)):
            regress.append(os.path.join(rdir, f))
    nreg = 0
    violations = []
    for f in regress:
        nreg += 1
        rc, txt = replay(binary, conf, f)
        if rc == 1:
            violations.append((f, txt))

    fails = {}
    for shard, r in enumerate(res):
        for f in r["failures"]:
            fails.setdefault((f["sub"], f["tag"]), (shard, f))
    for n, ((sub, tag), (shard, f)) in enumerate(sorted(fails.items())):
        if n >= 4 and violations:
            break
        path = os.path.join(HERE, "replay-out", "%s-%s-%s.txt" % (prop, sub, re.sub(r"[^A-Za-z0-9]+", "_", tag)[:40]))
        if os.path.exists(path):
            os.remove(path)
        p = subprocess.run([binary, "shrink", "--sub", sub, "--seed", f["seed"], "--out", path, "--time", "40",
                            "--casecpu", str(conf.get("casecpu", 60))], env=harness_env(conf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = p.stdout.decode(errors="replace")
        if os.path.exists(path):
            if all(replay(binary, conf, path)[0] == 1 for _ in range(3)):
                violations.append((path, txt))
                continue
            # the shrunk case is not stable: fall back to the original one
            with open(path, "w") as o:
                o.write("sub %s\nseed %s\n# %s: %s\n" % (sub, f["seed"], tag, f["msg"].replace("\n", " ")))
            if all(replay(binary, conf, path)[0] == 1 for _ in range(3)):
                violations.append((path, txt))
                continue
        # depends on what ran before it in the same process: repeat the whole shard twice
        again = [run_shard(binary, conf, workdir, shard, seed, scale, tlimit) for _ in range(2)]
        if all(any(g["sub"] == sub and g["tag"] == tag for g in r["failures"]) for r in again):
            with open(path, "w") as o:
                o.write("# history-dependent: fails in the course of: %s run --seed %d --scale %g\nsub %s\nseed %s\n# %s: %s\n"
                        % (os.path.basename(binary), seed * 1000 + shard, scale, sub, f["seed"], tag, f["msg"].replace("\n", " ")))
            violations.append((path, f["tag"] + ": " + f["msg"]))
        else:
            print("note: failure did not reproduce and is not reported: %s %s %s" % (sub, tag, f["msg"][:300]))

    hashes = set()
    for r in res:
        h = r["hashes"]
        hashes.update(struct.unpack("%dQ" % (len(h) // 8), h))

    def merge(key):
        m = {}
        for r in res:
            for k, v in r[key].items():
                m[k] = m.get(k, 0) + v
        return m
    ev = sum(r["evaluations"] for r in res)
    samples = []
    for r in res:
        for s in r["samples"]:
            if sum(1 for x in samples if x.split(":")[0] == s.split(":")[0]) < 2:
                samples.append(s)
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": conf["rule"],
            "samples": samples or ["(no non-trivial case)"],
            "discarded": sum(r["discarded"] for r in res),
            "oracle_comparisons": sum(r["comparisons"] for r in res),
            "cases_by_subproperty": merge("per_sub"),
            "nontrivial_by_subproperty": merge("nontrivial_sub"),
            "classes": merge("labels"),
            "discard_reasons": merge("discards"),
            "regression_replays": nreg,
            "shards": shards,
            "stopped_by_time_limit": any(r["timeup"] for r in res),
            "build_s": round(tb, 1), "search_s": round(trun, 1),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(evidence, o, indent=1)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, %d discarded, build %.0fs search %.0fs"
          % (prop, a.tier, a.seed, ev, len(hashes), evidence["coverage"]["oracle_comparisons"], evidence["coverage"]["discarded"], tb, trun))
    if violations:
        for path, txt in violations:
            print(txt[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        sys.exit(3)
