"""Property-based testing engine for the Python harness: choice-sequence generators, shrinking by editing the choices.

Every random decision is one integer below a bound, recorded in order. A case is replayed from its recorded choices
(a missing choice counts as 0), so deleting, zeroing and halving choices yields smaller cases that still are well-formed.
"""
import hashlib
import json
import os
import random
import struct
import sys
import time
import traceback

import numpy as np


class Fail(Exception):
    def __init__(self, tag, msg):
        super().__init__(tag + ": " + msg)
        self.tag, self.msg = tag, msg


class Discard(Exception):
    pass


class G:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed)
        self.given = choices
        self.choices = []
        self.notes = []
        self.labels = []
        self.nt = False
        self.ncmp = 0
        self.trace = None

    def below(self, n):
        """uniform in 0..n-1"""
        if self.given is not None:
            i = len(self.choices)
            v = self.given[i] % n if i < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        if self.trace is not None:
            os.write(self.trace, b"%d " % v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def coin(self):
        return self.below(2) == 1

    def chance(self, a, b):
        return self.below(b) >= b - a

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def real(self, lo, hi):
        return lo + (hi - lo) * self.below(1 << 20) / float(1 << 20)

    def normal(self):
        # zero choice = 0; sum of three uniforms
        k = self.below(1 << 20)
        if k == 0:
            return 0.0
        r = random.Random(k)
        return round(r.gauss(0, 1), 4)

    def vec(self, n, s=1.0):
        return np.array([s * self.normal() for _ in range(n)], dtype=float)

    def mat(self, r, c, s=1.0):
        # one choice per matrix keeps the sequences short
        k = self.below(1 << 20)
        if k == 0:
            return np.zeros((r, c))
        rs = np.random.RandomState(k)
        return np.round(s * rs.randn(r, c), 4)

    def note(self, s):
        self.notes.append(str(s))

    def label(self, s):
        self.labels.append(s)

    def nontrivial(self):
        self.nt = True

    def discard(self, why):
        raise Discard(why)

    def check(self, ok, tag, msg=""):
        self.ncmp += 1
        if not ok:
            raise Fail(tag, msg if isinstance(msg, str) else repr(msg))

    def close(self, tag, got, want, tol, ctx=""):
        """|got-want| <= tol (array), NaN in either but not both is a failure"""
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.ncmp += max(1, got.size)
        if got.shape != want.shape:
            raise Fail(tag, "shape %s instead of %s %s" % (got.shape, want.shape, ctx))
        bad = ~((np.abs(got - want) <= tol) | (np.isnan(got) & np.isnan(want)) | (got == want))
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Fail(tag, "got %.17g want %.17g at %s (tol %s) %s" % (got[i], want[i], i, np.broadcast_to(tol, got.shape)[i], ctx))

    def raises(self, tag, f, ctx=""):
        self.ncmp += 1
        try:
            f()
        except Exception:
            return
        raise Fail(tag, "no exception: " + ctx)


def run_case(fn, g):
    """(outcome, tag, msg): outcome ok, fail or discard"""
    try:
        fn(g)
        return "ok", "", ""
    except Discard as e:
        return "discard", str(e), ""
    except Fail as e:
        return "fail", e.tag, e.msg
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        return "fail", "exception", "%s: %s at %s" % (type(e).__name__, str(e)[:600], " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in reversed(tb[-4:])))


def forked(fn, choices, seconds=60):
    """runs one case in a child process so that crashes and hangs are outcomes too"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        import resource
        import signal
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.alarm(seconds)
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("PBT_VERBOSE"):
            os.dup2(dn, 2)
        g = G(choices=choices)
        res = run_case(fn, g)
        data = json.dumps([res, g.choices, g.notes]).encode()
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        try:
            res, ch, notes = json.loads(data)
            return tuple(res), ch, notes
        except ValueError:
            pass
    return ("fail", "crash", "the process died (wait status %d)" % st), list(choices), []


def shrink(fn, choices, tag, limit):
    end = time.time() + limit
    best = list(choices)

    def fails(c):
        res, used, _ = forked(fn, c)
        return (res[0] == "fail" and res[1] == tag), used
    ok, used = fails(best)
    if not ok:
        return None
    if len(used) < len(best):
        best = used
    improved = True
    while improved and time.time() < end:
        improved = False
        n = len(best)
        size = max(1, n // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                c = best[:i] + best[i + size:]
                ok, used = fails(c)
                if ok:
                    best = used if len(used) < len(best) else c
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end:
                break
            if best[i] == 0:
                continue
            for v in (0, 1, best[i] // 2, best[i] - 1):
                if v >= best[i]:
                    continue
                c = best[:i] + [v] + best[i + 1:]
                ok, used = fails(c)
                if ok:
                    best = c
                    improved = True
                    break
    return best


def load_replay(path):
    sub, ch = None, None
    for l in open(path):
        if l.startswith("sub "):
            sub = l.split()[1]
        elif l.startswith("choices"):
            ch = [int(x) for x in l.split()[1:]]
    return sub, ch


def main(props, argv):
    """props: list of (name, cases per shard, function)"""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["run", "shrink", "replay", "list", "choices"])
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--time", type=float, default=300)
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("--status")
    ap.add_argument("--file")
    a = ap.parse_args(argv)
    table = {n: f for n, _, f in props}
    if a.mode == "choices":
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            g = G(seed=a.seed)
            g.trace = w
            run_case(table[a.only], g)
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.waitpid(pid, 0)
        print(json.dumps([int(x) for x in data.split()]))
        return 0
    if a.mode == "list":
        for n, c, _ in props:
            print(n, c)
        return 0
    if a.mode == "replay":
        sub, ch = load_replay(a.file)
        res, used, notes = forked(table[sub], ch, 120)
        print("%s: %s %s %s" % (sub, res[0], res[1], res[2]))
        for n in notes:
            print("  " + n)
        return 1 if res[0] == "fail" else 0
    if a.mode == "shrink":
        sub, ch = load_replay(a.file)
        res, used, _ = forked(table[sub], ch)
        if res[0] != "fail":
            print("does not fail")
            return 0
        best = shrink(table[sub], used, res[1], a.time) or used
        res, used, notes = forked(table[sub], best)
        with open(a.out, "w") as o:
            o.write("sub %s\nchoices %s\n# %s: %s\n" % (sub, " ".join(map(str, best)), res[1], res[2].replace("\n", " ")))
            for n in notes:
                o.write("# %s\n" % n.replace("\n", " "))
        print("%s: %s %s" % (sub, res[1], res[2]))
        for n in notes:
            print("  " + n)
        return 1
    # run
    start = time.time()
    r = {"evaluations": 0, "discarded": 0, "comparisons": 0, "labels": {}, "per_sub": {}, "nontrivial_sub": {}, "discards": {},
         "samples": [], "failures": [], "timeup": False}
    hashes = set()
    order = []
    for pi, (name, n, fn) in enumerate(props):
        if a.only and name != a.only:
            continue
        k = max(1, int(n * a.scale))
        order += [((i + 0.5) / k, pi, i) for i in range(k)]
    order.sort()
    failed = set()
    st = open(a.status, "wb", buffering=0) if a.status else None
    for _, pi, i in order:
        name, _, fn = props[pi]
        if time.time() - start > a.time:
            r["timeup"] = True
            break
        if name in failed:
            continue
        cseed = int.from_bytes(hashlib.sha256(("%d/%s/%d" % (a.seed, name, i)).encode()).digest()[:6], "big")
        if st:
            st.seek(0)
            st.write(("%s %d %d\n" % (name, cseed, r["evaluations"])).ljust(120).encode())
        g = G(seed=cseed)
        outcome, tag, msg = run_case(fn, g)
        r["evaluations"] += 1
        r["comparisons"] += g.ncmp
        r["per_sub"][name] = r["per_sub"].get(name, 0) + 1
        for l in g.labels:
            r["labels"][l] = r["labels"].get(l, 0) + 1
        if outcome == "discard":
            r["discarded"] += 1
            r["discards"][tag] = r["discards"].get(tag, 0) + 1
        elif outcome == "fail":
            failed.add(name)
            r["failures"].append({"sub": name, "choices": g.choices, "tag": tag, "msg": msg})
        elif g.nt:
            h = hashlib.sha256((name + "|" + " ".join(map(str, g.choices))).encode()).digest()[:8]
            if h not in hashes:
                hashes.add(h)
                r["nontrivial_sub"][name] = r["nontrivial_sub"].get(name, 0) + 1
            if sum(1 for s in r["samples"] if s.startswith(name + ":")) < 2:
                r["samples"].append("%s: %s" % (name, "; ".join(g.notes)[:400]))
    open(a.out + ".hashes", "wb").write(b"".join(hashes))
    json.dump(r, open(a.out, "w"))
    return 0
