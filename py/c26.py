"""C26: the Python interface agrees with the native library (numpy reference models, finite differences, round trips)."""
import copy
import gc
import io
import itertools
import math
import os
import pickle
import sys
import tempfile

import numpy as np
import torch

import mpart as mt

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtpy  # noqa: E402

torch.set_num_threads(1)
gc.collect()
gc.freeze()  # collections during the search only look at what the cases made

# ----------------------------------------------------------------------------------------------------------------
# reference definitions in numpy

def herm(a, n, x):
    p0, p1 = np.ones_like(x), a * x
    if n == 0:
        return p0
    for k in range(2, n + 1):
        p0, p1 = p1, a * x * p1 - a * (k - 1) * p0
    return p1


def basis_raw(o, k, x, der):
    """der-th derivative of the k-th one dimensional basis function (k >= 1)"""
    if o["basis"] == 2:
        if k == 1:
            return [x, np.ones_like(x), np.zeros_like(x)][der]
        n = k - 2
        s = np.exp(-x * x / 2) / math.sqrt(2.0 ** n * math.factorial(n) * math.sqrt(math.pi))
        p = herm(2, n, x)
        dp = 2 * n * herm(2, n - 1, x) if n >= 1 else np.zeros_like(x)
        return [s * p, s * (dp - x * p), (x * x - 2 * n - 1) * s * p][der]
    a = o["basis"] == 0 and 1 or 2
    c = 1.0
    m = k
    for _ in range(der):
        c *= a * m
        m -= 1
    r = c * herm(a, m, x) if m >= 0 else np.zeros_like(x)
    if o["norm"]:
        r = r / (math.sqrt(math.sqrt(2 * math.pi) * math.factorial(k)) if a == 1 else math.sqrt(math.sqrt(math.pi) * 2.0 ** k * math.factorial(k)))
    return r


def basis(o, k, x, der=0):
    if k == 0:
        return np.ones_like(x) if der == 0 else np.zeros_like(x)
    lb, ub = o["lb"], o["ub"]
    if np.isinf(lb) and np.isinf(ub):
        return basis_raw(o, k, x, der)
    b = np.clip(x, lb, ub)
    inside = b == x
    if der == 0:
        return basis_raw(o, k, b, 0) + np.where(inside, 0.0, (x - b) * basis_raw(o, k, b, 1))
    if der == 1:
        return basis_raw(o, k, b, 1)
    return np.where(inside, basis_raw(o, k, b, 2), 0.0)


def pos(o, v):
    return np.exp(v) if o["exp"] else np.logaddexp(0, v)


def dpos(o, v):
    return np.exp(v) if o["exp"] else 1 / (1 + np.exp(-v))


def cc_rule(n):
    if n == 1:
        return np.array([0.5]), np.array([1.0])
    N = n - 1
    k = np.arange(n)
    s = np.zeros(n)
    for j in range(1, N // 2 + 1):
        s += (1.0 if 2 * j == N else 2.0) / (4.0 * j * j - 1) * np.cos(2 * j * k * math.pi / N)
    c = np.where((k == 0) | (k == N), 1.0, 2.0)
    return (1 + np.cos(k * math.pi / N)) / 2, c / N * (1 - s) / 2


GL = np.polynomial.legendre.leggauss(24)


class RefComp:
    def __init__(self, o, mset):
        self.o, self.m = o, [tuple(q) for q in mset]
        self.nin, self.nout, self.nc = len(self.m[0]), 1, len(self.m)

    def coll(self, c, x):
        """coefficients of the one dimensional expansion in the last variable, by order"""
        a = {}
        for ci, q in zip(c, self.m):
            t = ci * np.ones(x.shape[1])
            for j in range(self.nin - 1):
                if q[j]:
                    t = t * basis(self.o, q[j], x[j])
            a[q[-1]] = a.get(q[-1], 0) + t
        return a

    def exp1(self, a, t, der):
        return sum((a[k] * basis(self.o, k, t, der) for k in a), np.zeros_like(t))

    def eval(self, c, x):
        o = self.o
        a = self.coll(c, x)
        xd = x[-1]
        f = lambda t: pos(o, self.exp1(a, t, 1)) + o["nugget"]
        I = np.zeros_like(xd)
        if o["quad"] == 0:
            for t, w in zip(*cc_rule(o["pts"])):
                I = I + w * f(xd * t)
            I = I * xd
        else:
            cuts = np.array([np.sort([0.0, v] + [min(max(b, min(v, 0.0)), max(v, 0.0)) for b in (o["lb"], o["ub"])]) for v in xd]).T
            s = np.where(xd < 0, -1.0, 1.0)
            for lo, hi in zip(cuts[:-1], cuts[1:]):
                for q in range(3):
                    u, v = lo + (hi - lo) * q / 3, lo + (hi - lo) * (q + 1) / 3
                    for t, w in zip(*GL):
                        I = I + s * w * (v - u) / 2 * f((u + v) / 2 + (v - u) / 2 * t)
        return (self.exp1(a, np.zeros_like(xd), 0) + I)[None, :]

    def diag(self, c, x):
        o = self.o
        a = self.coll(c, x)
        xd = x[-1]
        if o["cont"] or o["quad"] != 0:
            return (pos(o, self.exp1(a, xd, 1)) + o["nugget"])[None, :]
        s = np.zeros_like(xd)
        for t, w in zip(*cc_rule(o["pts"])):
            d = self.exp1(a, xd * t, 1)
            s = s + w * (pos(o, d) + o["nugget"] + xd * t * dpos(o, d) * self.exp1(a, xd * t, 2))
        return s[None, :]

    def logdet(self, c, x):
        with np.errstate(all="ignore"):
            return np.log(self.diag(c, x)).sum(axis=0)


class RefTri:
    def __init__(self, parts):
        self.parts = parts
        self.nin = parts[-1].nin
        self.nout = sum(p.nout for p in parts)
        self.nc = sum(p.nc for p in parts)

    def split(self, c):
        k = 0
        for p in self.parts:
            yield p, c[k:k + p.nc]
            k += p.nc

    def eval(self, c, x):
        return np.vstack([p.eval(q, x[:p.nin]) for p, q in self.split(c)])

    def logdet(self, c, x):
        return sum(p.logdet(q, x[:p.nin]) for p, q in self.split(c))

    def diagmin(self, c, x):
        return min(p.diagmin(q, x[:p.nin]) if hasattr(p, "diagmin") else p.diag(q, x[:p.nin]).min() for p, q in self.split(c))


class RefAff:
    def __init__(self, A, b, n=None):
        self.A, self.b = A, b
        self.nout = A.shape[0] if A is not None else len(b)
        self.nin = A.shape[1] if A is not None else len(b)
        self.nc = 0

    def eval(self, c, x):
        y = x if self.A is None else self.A @ x
        return y + (0 if self.b is None else self.b[:, None])

    def logdet(self, c, x):
        if self.A is None:
            return np.zeros(x.shape[1])
        return np.full(x.shape[1], np.linalg.slogdet(self.A[:, self.nin - self.nout:])[1])

    def diagmin(self, c, x):
        return 1.0


class RefId:
    def __init__(self, nin, nout):
        self.nin, self.nout, self.nc = nin, nout, 0

    def eval(self, c, x):
        return x[self.nin - self.nout:]

    def logdet(self, c, x):
        return np.zeros(x.shape[1])

    def diagmin(self, c, x):
        return 1.0


class RefComposed(RefTri):
    def __init__(self, parts):
        RefTri.__init__(self, parts)
        self.nin, self.nout = parts[0].nin, parts[-1].nout

    def eval(self, c, x):
        for p, q in self.split(c):
            x = p.eval(q, x)
        return x

    def logdet(self, c, x):
        s = 0
        for p, q in self.split(c):
            s = s + p.logdet(q, x)
            x = p.eval(q, x)
        return s

    def diagmin(self, c, x):
        m = np.inf
        for p, q in self.split(c):
            m = min(m, p.diagmin(q, x) if hasattr(p, "diagmin") else p.diag(q, x).min())
            x = p.eval(q, x)
        return m


class RefSumm:
    def __init__(self, aff, comp):
        self.aff, self.comp = aff, comp
        self.nin, self.nout, self.nc = aff.nin + 1, 1, comp.nc

    def lift(self, x):
        return np.vstack([self.aff.eval(None, x[:-1]), x[-1:]])

    def eval(self, c, x):
        return self.comp.eval(c, self.lift(x))

    def logdet(self, c, x):
        return self.comp.logdet(c, self.lift(x))

    def diagmin(self, c, x):
        return self.comp.diag(c, self.lift(x)).min()


# ----------------------------------------------------------------------------------------------------------------
# generators

BASES = [mt.BasisTypes.ProbabilistHermite, mt.BasisTypes.PhysicistHermite, mt.BasisTypes.HermiteFunctions]
QUADS = [mt.QuadTypes.ClenshawCurtis, mt.QuadTypes.AdaptiveSimpson, mt.QuadTypes.AdaptiveClenshawCurtis]


def draw_opts(g, smooth=False, fine=False):
    o = {"basis": g.below(3), "norm": not g.chance(1, 3), "exp": g.chance(1, 3), "quad": 0, "cont": True, "nugget": 0.0,
         "lb": -np.inf, "ub": np.inf, "pts": 5}
    if g.chance(1, 4):
        o["nugget"] = g.pick([0.01, 0.5, 1e-6])
    if not smooth:
        o["quad"] = g.pick([0, 0, 1, 2])
        o["cont"] = not g.chance(1, 3)
        if g.chance(1, 3):
            o["lb"], o["ub"] = -g.real(0.5, 2.0), g.real(0.5, 2.0)
    o["pts"] = g.range(17, 29) if fine else g.range(4, 9)
    m = mt.MapOptions()
    m.basisType = BASES[o["basis"]]
    m.basisNorm = o["norm"]
    m.posFuncType = mt.PosFuncTypes.Exp if o["exp"] else mt.PosFuncTypes.SoftPlus
    m.quadType = QUADS[o["quad"]]
    m.contDeriv = o["cont"]
    m.nugget = o["nugget"]
    m.basisLB, m.basisUB = o["lb"], o["ub"]
    m.quadPts = o["pts"]
    m.quadAbsTol = m.quadRelTol = 1e-8
    m.quadMaxSub = 30
    o["native"] = m
    return o


def total_order(dim, order):
    return [q for q in itertools.product(range(order + 1), repeat=dim) if sum(q) <= order]


def draw_mset(g, dim, order):
    """(fixed set, list of multi-indices in its order)"""
    way = g.below(3)
    if way == 0:
        s = mt.FixedMultiIndexSet(dim, order)
    elif way == 1:
        s = mt.MultiIndexSet.CreateTotalOrder(dim, order, mt.NoneLim()).fix(True)
    else:
        idx = np.array(total_order(dim, order), dtype=np.int32)
        keep = np.array([True] + [not g.chance(1, 4) for _ in range(len(idx) - 1)])
        s = mt.MultiIndexSet(idx[keep]).fix(g.coin())
    m = [tuple(s.IndexToMulti(i)) for i in range(s.Size())]
    return s, m


def draw_component(g, o, dim, order=None):
    order = g.range(1, 3 if dim < 3 else 2) if order is None else order
    s, m = draw_mset(g, dim, order)
    return mt.CreateComponent(s, o["native"]), RefComp(o, m), "component(dim %d, %d terms)" % (dim, len(m))


def draw_affine(g, nin, nout):
    way = g.below(3) if nin == nout else g.below(2)
    A = np.eye(nout, nin, nin - nout) * 1.0 + g.mat(nout, nin, 0.2) if way != 2 else None
    b = g.vec(nout) if way != 1 else None
    if way == 2:
        return mt.AffineMap(b), RefAff(None, b), "affine(b)"
    if way == 1:
        return mt.AffineMap(np.asfortranarray(A)), RefAff(A, None), "affine(A %dx%d)" % A.shape
    return mt.AffineMap(np.asfortranarray(A), b), RefAff(A, b), "affine(A,b %dx%d)" % A.shape


def draw_map(g, o, nin=None, nout=None, depth=2, square=False):
    nin = g.range(1, 3) if nin is None else nin
    nout = nin if square else (g.range(1, nin) if nout is None else nout)
    kinds = ["tri"]
    if nout == 1:
        kinds += ["comp", "comp"]
        if nin > 1:
            kinds += ["summ"]
    if depth > 0:
        kinds += ["affine", "id", "custom"]
        if nin == nout:
            kinds += ["composed", "composed", "single"]
    k = g.pick(kinds)
    if k == "comp":
        return draw_component(g, o, nin)
    if k == "tri":
        order = g.range(1, 3 if nin < 3 else 2)
        m = mt.CreateTriangular(nin, nout, order, o["native"])
        parts = []
        for i in range(nout):
            s = mt.FixedMultiIndexSet(nin - nout + i + 1, order)
            parts.append(RefComp(o, [tuple(s.IndexToMulti(j)) for j in range(s.Size())]))
        return m, RefTri(parts), "triangular(%d->%d, order %d)" % (nin, nout, order)
    if k == "affine":
        return draw_affine(g, nin, nout)
    if k == "id":
        return mt.IdentityMap(nin, nout), RefId(nin, nout), "identity(%d->%d)" % (nin, nout)
    if k == "summ":
        s = g.range(1, nin - 1)
        A = g.mat(s, nin - 1, 0.7)
        b = g.vec(s, 0.5)
        c, r, d = draw_component(g, o, s + 1, 2)
        # held only by the summarized map afterwards
        return mt.SummarizedMap(mt.AffineFunction(np.asfortranarray(A), b), c), RefSumm(RefAff(A, b), r), "summarized(%s)" % d
    if k == "single":
        a = g.range(1, nin)
        c, r, d = draw_component(g, o, a)
        parts = ([RefId(a - 1, a - 1)] if a > 1 else []) + [r] + ([RefId(nin, nin - a)] if a < nin else [])
        return mt.CreateSingleEntryMap(nin, a, c), RefTri(parts), "single(%d of %d)" % (a, nin)
    move = g.coin()
    if k == "custom":
        ms, rs, ds = [], [], []
        left, at = nout, nin - nout
        while left > 0:
            w = g.range(1, left)
            m, r, d = draw_map(g, o, at + w, w, depth - 1)
            at += w
            left -= w
            ms.append(m), rs.append(r), ds.append(d)
        if move:
            for m, r in zip(ms, rs):
                m.SetCoeffs(np.zeros(r.nc)) if r.nc else None
        return mt.TriangularMap(ms, move), RefTri(rs), "custom[%s]" % ", ".join(ds)
    n = g.range(1, 3)
    ms, rs, ds = [], [], []
    for i in range(n):
        m, r, d = draw_map(g, o, nin, nin if (i < n - 1 or k == "composed") else nout, depth - 1)
        ms.append(m), rs.append(r), ds.append(d)
    if move:
        for m, r in zip(ms, rs):
            m.SetCoeffs(np.zeros(r.nc)) if r.nc else None
    return mt.ComposedMap(ms, move, g.pick([-1, 1, 2])), RefComposed(rs), "composed[%s]" % ", ".join(ds)


def draw_all(g, smooth=False, fine=False, **kw):
    o = draw_opts(g, smooth, fine)
    if o["quad"] != 0:
        kw["depth"] = 0  # quadrature tolerances would be amplified by the following maps
    m, r, d = draw_map(g, o, **kw)
    g.note("%s basis %d norm %d exp %d quad %d cont %d pts %d nugget %g box [%g,%g]" % (d, o["basis"], o["norm"], o["exp"], o["quad"], o["cont"], o["pts"], o["nugget"], o["lb"], o["ub"]))
    g.check(m.inputDim == r.nin and m.outputDim == r.nout and m.numCoeffs == r.nc, "dims", "%s reports %d->%d with %d coefficients, expected %d->%d with %d" % (d, m.inputDim, m.outputDim, m.numCoeffs, r.nin, r.nout, r.nc))
    scale = 0.3 if o["exp"] else 0.6
    if o["basis"] == 1 and not o["norm"]:
        scale *= 0.3
    c = scale * g.vec(r.nc)
    set_coeffs(g, m, c)
    return o, m, r, c


def set_coeffs(g, m, c):
    if len(c) == 0 and g.coin():
        return
    a = np.array(c, dtype=float)
    m.SetCoeffs(a)
    a[:] = 99.0  # SetCoeffs copies
    g.check(np.array_equal(np.array(m.CoeffMap()), c), "coeffs-read", "CoeffMap() differs from what SetCoeffs was given")


def layout(g, A, native=False):
    """an array with the values of A in some memory layout; native: writable float64 only"""
    A = np.array(A, dtype=float)
    w = g.below(6 if native else 8)
    if A.ndim == 1:
        if w in (0, 1, 2):
            return A
        if w == 3:
            B = np.full(3 * len(A) + 1, 7.5)
            V = B[1::3][:len(A)]
            V[:] = A
            return V
        if w == 4:
            B = np.full((len(A), 3), -2.5)
            B[:, 1] = A
            return B[:, 1]
        if w == 5:
            B = np.full(len(A) + 4, 3.5)
            B[2:2 + len(A)] = A
            return B[2:2 + len(A)]
        if w == 6 and A.size > 1:
            return A[::-1].copy()[::-1]
        A.setflags(write=False)
        return A
    if w == 0:
        return np.ascontiguousarray(A)
    if w == 1:
        return np.asfortranarray(A)
    r, c = A.shape
    if w == 2:
        B = np.full((2 * r + 1, 3 * c + 2), 7.5)
        V = B[1:2 * r + 1:2, 2:3 * c + 2:3]
        V[:] = A
        return V
    if w == 3:
        B = np.full((c + 3, r + 2), -7.5)
        V = B[1:c + 1, 2:r + 2].T
        V[:] = A
        return V
    if w == 4:
        B = np.full((r, c, 2), 1.25)
        B[:, :, 1] = A
        return B[:, :, 1]
    if w == 5:
        B = np.full((r + 2, c), 5.5, order="F")
        B[1:r + 1] = A
        return B[1:r + 1]
    if w == 6 and A.size > 1:  # pybind11 itself refuses negative strides of one-element arrays
        return A[::-1, ::-1].copy()[::-1, ::-1]
    A.setflags(write=False)
    return A


def sane(g, r, c, x, lim=1e5):
    """native code ends the process on non-finite values by design: keep away from them, judged by the reference"""
    with np.errstate(all="ignore"):
        y, l = r.eval(c, x), r.logdet(c, x)
    if not (np.all(np.isfinite(y)) and np.abs(y).max() < lim and np.all(np.isfinite(l))):
        g.discard("extreme values")
    return y


def invertible(g, o):
    """far from the data an exponential of a growing polynomial overflows, which ends the process by design"""
    if o["exp"] and o["basis"] != 2:
        g.discard("inverse of exponentials of polynomials")


def resolved(g, o, r, c, x):
    """the quadrature rule is accurate around the points, so that the evaluated function is increasing there"""
    old = o["pts"]
    k = r.nin - r.nout
    try:
        for t in (0.0, -2.0, 2.0, -4.0, 4.0):
            q = x.copy()
            q[k:] += t
            v = []
            for n in (old, 61):
                o["pts"] = n
                with np.errstate(all="ignore"):
                    v.append(r.eval(c, q))
            if not np.all(np.abs(v[0] - v[1]) <= 1e-4 * (1 + np.abs(v[1]))):
                g.discard("quadrature not resolved")
    finally:
        o["pts"] = old


def pts(g, n, N=None):
    N = g.range(1, 4) if N is None else N
    return g.mat(n, N)


def tolv(o, want, tight=1e-9, loose=2e-5):
    return (tight if o["quad"] == 0 else loose) * (1 + np.abs(want))


# ----------------------------------------------------------------------------------------------------------------
# sub-properties

def p_reference(g):
    """Evaluate and LogDeterminant against the numpy reference, in any array layout"""
    o, m, r, c = draw_all(g)
    x = pts(g, r.nin)
    want = sane(g, r, c, x, 1e6)
    xl = layout(g, x)
    got = m.Evaluate(xl)
    g.check(np.array_equal(xl, x), "input-changed", "Evaluate changed its argument")
    nested = 1.0 if isinstance(r, RefComp) else 30.0
    g.close("evaluate", got, want, nested * tolv(o, want))
    wl = r.logdet(c, x)
    if np.all(np.isfinite(wl)) and np.abs(wl).max() < 12:
        g.close("logdet", m.LogDeterminant(layout(g, x)), wl, nested * (1e-8 if o["quad"] == 0 else 1e-4 if o["cont"] else 5e-3) * (1 + np.abs(wl)))
    if r.nc:
        # CoeffMap is a view of the coefficients: writing through it changes the map
        c2 = c * 0.5 - 0.01
        v = m.CoeffMap()
        if v.flags.writeable:
            w2 = sane(g, r, c2, x, 1e6)
            v[:] = c2
            g.close("evaluate-after-coeffmap-write", m.Evaluate(x), w2, nested * tolv(o, w2))
        g.nontrivial()
    if isinstance(m, mt.TriangularMap):
        for i in range(len(r.parts) if isinstance(r, RefTri) else 0):
            p = m.GetComponent(i)
            q = r.parts[i]
            g.check((p.inputDim, p.outputDim, p.numCoeffs) == (q.nin, q.nout, q.nc), "getcomponent")


def fd(f, x, i, h):
    e = np.zeros(x.shape[0])
    e[i] = h
    s = (slice(None),) + (None,) * (x.ndim - 1)
    e = e[s]
    return (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h)


def deriv(f, x, i):
    a, b = fd(f, x, i, 1e-3), fd(f, x, i, 2e-3)
    return a, np.abs(a - b)


def p_derivatives(g):
    """Gradient, CoeffGrad, LogDeterminantInputGrad/CoeffGrad against differences of Evaluate/LogDeterminant"""
    o, m, r, c = draw_all(g, smooth=True)
    x = pts(g, r.nin)
    N = x.shape[1]
    s = g.mat(r.nout, N)
    sane(g, r, c, x, 1e4)
    y = m.Evaluate(x)
    G = m.Gradient(layout(g, x), layout(g, s))
    g.check(G.shape == (r.nin, N), "gradient-shape", str(G.shape))
    for i in range(r.nin):
        d, e = deriv(lambda q: (m.Evaluate(q) * s).sum(axis=0), x, i)
        g.close("gradient", G[i], d, 2e-6 * (1 + np.abs(d) + np.abs(y).max()) + 10 * e, "input %d" % i)
    L = m.LogDeterminant(x)
    ok = np.all(np.isfinite(L)) and np.abs(L).max() < 10
    if ok:
        D = m.LogDeterminantInputGrad(layout(g, x))
        g.check(D.shape == (r.nin, N), "ldig-shape", str(D.shape))
        for i in range(r.nin):
            d, e = deriv(lambda q: m.LogDeterminant(q), x, i)
            g.close("ld-input-grad", D[i], d, 2e-6 * (1 + np.abs(d) + np.abs(L).max()) + 10 * e, "input %d" % i)
    if r.nc == 0:
        return
    C = m.CoeffGrad(layout(g, x), layout(g, s))
    g.check(C.shape == (r.nc, N), "coeffgrad-shape", str(C.shape))

    def at(f):
        def h(q):
            m.SetCoeffs(np.ascontiguousarray(q))
            v = f()
            m.SetCoeffs(np.array(c))
            return v
        return h
    if ok:
        H = m.LogDeterminantCoeffGrad(layout(g, x))
        g.check(H.shape == (r.nc, N), "ldcg-shape", str(H.shape))
    for i in [g.below(r.nc) for _ in range(min(r.nc, 4))]:
        d, e = deriv(at(lambda: (m.Evaluate(x) * s).sum(axis=0)), c, i)
        g.close("coeff-grad", C[i], d, 2e-6 * (1 + np.abs(d) + np.abs(y).max()) + 10 * e, "coefficient %d" % i)
        if ok:
            d, e = deriv(at(lambda: m.LogDeterminant(x)), c, i)
            g.close("ld-coeff-grad", H[i], d, 2e-6 * (1 + np.abs(d) + np.abs(L).max()) + 10 * e, "coefficient %d" % i)
    g.nontrivial()


def p_inverse(g):
    o, m, r, c = draw_all(g, smooth=True, fine=True)
    invertible(g, o)
    x = pts(g, r.nin)
    y = sane(g, r, c, x)
    dm = r.diagmin(c, x) if hasattr(r, "diagmin") else r.diag(c, x).min()
    if not np.all(np.isfinite(y)) or np.abs(y).max() > 50 or not dm > 0.02:
        g.discard("flat or extreme")
    resolved(g, o, r, c, x)
    k = r.nin - r.nout
    full = g.coin() if not isinstance(m, (mt.ComposedMap,)) else False
    x1 = x[:k] if not full else np.vstack([x[:k], g.mat(r.nout, x.shape[1])])
    if full and isinstance(m, (mt.AffineMap, mt.IdentityMap)):
        x1 = x
    if x1.shape[0] == 0:
        x1 = np.zeros((0, x.shape[1])) if g.coin() else x
    z = m.Inverse(layout(g, x1) if x1.shape[0] else x1, layout(g, y))
    g.check(z.shape == (r.nout, x.shape[1]), "inverse-shape", str(z.shape))
    y2 = r.eval(c, np.vstack([x[:k], z]))
    near = np.abs(z - x[k:]) <= 1e-3 * (1 + np.abs(x[k:]))
    res = np.abs(y2 - y) <= 1e-3 * (1 + np.abs(y))
    g.ncmp += z.size
    g.check(bool(np.all(near | res)), "inverse", "x %s, Inverse(Evaluate(x)) %s, residual %s" % (x[k:].tolist(), z.tolist(), (y2 - y).tolist()))
    if r.nc:
        g.nontrivial()


OPS = ["Evaluate", "Gradient", "CoeffGrad", "LogDeterminant", "LogDeterminantInputGrad", "LogDeterminantCoeffGrad", "Inverse"]


def call(m, op, x, s, k):
    if op in ("Gradient", "CoeffGrad"):
        return getattr(m, op)(x, s)
    if op == "Inverse":
        return m.Inverse(x, s)
    return getattr(m, op)(x)


def tup(a):
    return (a.ctypes.data, tuple(a.shape), tuple(q // 8 for q in a.strides))


def tup1(a):
    return (a.ctypes.data, a.shape[0], a.strides[0] // 8)


def p_layout(g):
    """every operation: same result for every layout, dtype-converted and 1-d input, and through the pointer interface"""
    o, m, r, c = draw_all(g, smooth=True)
    x = pts(g, r.nin)
    N = x.shape[1]
    k = r.nin - r.nout
    sane(g, r, c, x)
    op = g.pick([q for q in OPS if r.nc or q not in ("CoeffGrad", "LogDeterminantCoeffGrad")])
    g.note(op)
    s = g.mat(r.nout, N)
    if op == "Inverse":
        invertible(g, o)
        s = r.eval(c, x)
        dm = r.diagmin(c, x) if hasattr(r, "diagmin") else r.diag(c, x).min()
        if not np.all(np.isfinite(s)) or np.abs(s).max() > 50 or not dm > 0.02:
            g.discard("flat or extreme")
    kind = g.below(4)
    if kind == 1:
        x, s = np.float32(x).astype(float), np.float32(s).astype(float)
    elif kind == 2:
        x, s = np.round(x), np.round(s)
        if op == "Inverse":
            g.discard("integer reference points")
    want = call(m, op, np.ascontiguousarray(x), np.ascontiguousarray(s), k)
    if not np.all(np.isfinite(want)):
        g.discard("not finite")
    tol = 1e-11 * (1 + np.abs(want))
    if kind == 1:
        g.close("float32", call(m, op, np.float32(x), np.float32(s), k), want, tol, op)
    elif kind == 2:
        g.close("int", call(m, op, x.astype(g.pick([np.int32, np.int64])), s.astype(int).tolist() if g.coin() else s, k), want, tol, op)
    elif kind == 3 and N == 1:
        g.close("1d", call(m, op, x[:, 0].copy(), s[:, 0].copy(), k), want, tol, op)
    a, b = layout(g, x), layout(g, s)
    g.close("layout", call(m, op, a, b, k), want, tol, op)
    g.check(np.array_equal(a, x) and np.array_equal(b, s), "input-changed", op)
    # pointer interface with arbitrary strides; memory around the output is left alone
    a, b = layout(g, x, True), layout(g, s, True)
    neg = g.coin()
    if op == "LogDeterminant":
        base = np.full(3 * N + 4, 4.25)
        out = base[2:2 + 2 * N:2]
        m.LogDeterminantImpl(tup(a), tup1(out))
    else:
        R = want.shape[0]
        base = np.full((2 * R + 3, 2 * N + 3), 4.25, order="F" if neg else "C")
        out = base[1:2 * R + 1:2, 2:2 * N + 2:2]
        if op in ("Gradient", "CoeffGrad", "Inverse"):
            getattr(m, op + "Impl")(tup(a), tup(b), tup(out))
        else:
            getattr(m, op + "Impl")(tup(a), tup(out))
    g.close("pointer-interface", out, want, tol, op)
    out[...] = 4.25
    g.check(bool(np.all(base == 4.25)), "pointer-neighbours", op + "Impl wrote outside its output")
    g.nontrivial()


def p_shapes(g):
    """wrong shapes and types raise, valid calls go on working"""
    o, m, r, c = draw_all(g, smooth=True)
    x = pts(g, r.nin)
    N = x.shape[1]
    sane(g, r, c, x)
    want = m.Evaluate(x)
    w = g.below(8)
    if w == 0:
        g.raises("bad-rows", lambda: m.Evaluate(g.mat(r.nin + 1, N)), "Evaluate with a row too many")
    elif w == 1:
        g.raises("bad-rows", lambda: m.LogDeterminant(np.vstack([x, x])), "LogDeterminant with doubled rows")
    elif w == 2:
        g.raises("bad-sens", lambda: m.Gradient(x, g.mat(r.nout + 1, N)), "Gradient with a sensitivity row too many")
    elif w == 3:
        g.raises("bad-sens", lambda: m.Gradient(x, g.mat(r.nout, N + 1)), "Gradient with a sensitivity column too many")
    elif w == 4 and r.nc:
        g.raises("bad-coeffs", lambda: m.SetCoeffs(np.zeros(r.nc + 1 if g.coin() else r.nc - 1)), "SetCoeffs with the wrong length")
    elif w == 5:
        g.raises("bad-type", lambda: m.Evaluate("abc"), "Evaluate of a string")
        g.raises("bad-type", lambda: m.Evaluate(np.zeros((2, 2, 2))), "Evaluate of a 3-d array")
    elif w == 6:
        g.raises("bad-coeffgrad", lambda: m.CoeffGrad(g.mat(r.nin + 1, N), g.mat(r.nout, N)), "CoeffGrad with a row too many")
    else:
        # SetCoeffs takes double vectors by reference: anything else raises and leaves the map as it was, or is converted
        a = g.pick([np.float32(c), layout(g, c), c[::-1].copy()[::-1], c.tolist()])
        try:
            m.SetCoeffs(a)
        except TypeError:
            pass
        else:
            g.close("setcoeffs-converted", m.CoeffMap(), np.asarray(a, dtype=float), 0.0)
            m.SetCoeffs(np.array(c))
    g.close("after-error", m.Evaluate(x), want, 0.0)
    if r.nc:
        g.close("coeffs-after-error", m.CoeffMap(), c, 0.0)
        g.nontrivial()


def p_coeffs(g):
    """histories of setting, wrapping and reading coefficients; views outlive the names they came from"""
    o, m, r, c = draw_all(g, smooth=True)
    if r.nc == 0:
        g.discard("no coefficients")
    x = pts(g, r.nin)
    cur, owner = np.array(c), None
    for _ in range(g.range(2, 6)):
        w = g.below(5)
        n = 0.4 * g.vec(r.nc)
        if w == 0:
            a = n.copy()
            m.SetCoeffs(a)
            a[:] = 55.0
            cur = n
            if owner is not None:
                owner[:] = 0.0 if not np.array_equal(owner, n) else n  # SetCoeffs wrote through or detached
                cur = np.array(m.CoeffMap())
                g.check(np.array_equal(cur, n) or np.array_equal(cur, owner), "coeffs-history")
        elif w == 1:
            base = np.zeros(r.nc + 2)
            owner = base[1:1 + r.nc]
            owner[:] = n
            m.WrapCoeffs(tup1(owner))
            cur = n
        elif w == 2 and owner is not None:
            owner[:] = n
            cur = n if np.array_equal(np.array(m.CoeffMap()), n) else cur
        elif w == 3:
            v = m.CoeffMap()
            if v.flags.writeable:
                v[:] = n
                cur = n
        g.close("coeffs", m.CoeffMap(), cur, 0.0)
        with np.errstate(all="ignore"):
            want = r.eval(cur, x)
        if np.all(np.isfinite(want)) and np.abs(want).max() < 1e4:
            g.close("evaluate-current", m.Evaluate(x), want, 1e-7 * (1 + np.abs(want)))
    # a view obtained from a map that is then dropped
    v = np.array(cur)
    m2 = mt.CreateTriangular(2, 2, 2, o["native"])
    c2 = g.vec(m2.numCoeffs)
    m2.SetCoeffs(c2)
    view = m2.CoeffMap()
    del m2
    gc.collect()
    junk = [np.full(len(c2), 77.0) for _ in range(20)]
    g.close("view-outlives-map", np.array(view), c2, 0.0)
    # a part of a map that is then dropped
    if isinstance(m, mt.TriangularMap) and isinstance(r, RefTri):
        i = g.below(len(r.parts))
        comp = m.GetComponent(i)
        cc = [q for _, q in r.split(cur)][i].copy()
        keep = owner
        del m
        gc.collect()
        if r.parts[i].nc and keep is None:
            want = r.parts[i].eval(cc, x[:r.parts[i].nin])
            if np.all(np.isfinite(want)) and np.abs(want).max() < 1e4:
                g.close("component-outlives-map", comp.Evaluate(x[:r.parts[i].nin]), want, 1e-7 * (1 + np.abs(want)))
    g.nontrivial()


def p_affine(g):
    """affine maps and functions from arrays of every layout that is accepted; the map keeps its own copy"""
    nout = g.range(1, 4)
    fun = g.coin()
    nin = nout + g.below(3)
    A0 = np.eye(nout, nin, nin - nout) + g.mat(nout, nin, 0.3)
    b0 = g.vec(nout)
    A, b = layout(g, A0), layout(g, b0)
    cls = mt.AffineFunction if fun else mt.AffineMap
    way = g.below(3)
    if g.chance(1, 4) and nout > 1:
        b = layout(g, b0[:, None])  # a column is an offset too
    try:
        m = cls(A, b) if way == 0 else cls(A) if way == 1 else cls(b)
    except TypeError:
        # not writable or negative strides: refused
        g.label("refused")
        g.check((not A.flags.writeable) or (not b.flags.writeable) or min(A.strides + b.strides) < 0, "refused", "writable %s %s strides %s %s" % (A.flags.writeable, b.flags.writeable, A.strides, b.strides))
        return
    if way == 2 or way == 1:
        pass
    ref = RefAff(A0 if way != 2 else None, b0 if way != 1 else None)
    for q in (A, b):
        if q.flags.writeable:
            q[...] = 1e3
    del A, b
    gc.collect()
    x = pts(g, ref.nin)
    want = ref.eval(None, x)
    g.close("affine-evaluate", m.Evaluate(layout(g, x)), want, 1e-12 * (1 + np.abs(want)))
    s = g.mat(ref.nout, x.shape[1])
    wg = s if ref.A is None else ref.A.T @ s
    g.close("affine-gradient", m.Gradient(x, s), wg, 1e-12 * (1 + np.abs(wg)))
    if not fun:
        S = np.eye(ref.nout) if ref.A is None else ref.A[:, ref.nin - ref.nout:]
        if np.linalg.cond(S) > 1e4:
            g.discard("ill-conditioned")
        g.close("affine-logdet", m.LogDeterminant(x), ref.logdet(None, x), 1e-9)
        z = m.Inverse(x[:ref.nin - ref.nout] if ref.nin > ref.nout else x, layout(g, want))
        g.close("affine-inverse", z, x[ref.nin - ref.nout:], 1e-9 * (1 + np.abs(x[ref.nin - ref.nout:])) * np.linalg.cond(S))
        g.close("affine-ldig", m.LogDeterminantInputGrad(x), np.zeros_like(x), 0.0)
    g.nontrivial()


def key(q):
    return (len(q), sum(q), max(q) if q else 0, tuple(q))


def p_multiindex(g):
    n = g.range(1, 5)
    way = g.below(3)
    if way == 0:
        a, A = [0] * n, mt.MultiIndex(n)
    elif way == 1:
        v = g.below(4)
        a, A = [v] * n, mt.MultiIndex(n, v)
    else:
        a = [g.below(4) for _ in range(n)]
        A = mt.MultiIndex(a)
    for _ in range(g.below(8)):
        i, v = g.below(n), g.below(5)
        g.check(A[i] == a[i], "get")
        a[i] = v
        A[i] = v
    g.note("%s" % a)
    g.check(A.tolist() == a, "tolist", "%s instead of %s" % (A.tolist(), a))
    g.check(len(A) == n and A.sum() == sum(a) and A.max() == max(a) and A.count_nonzero() == sum(1 for v in a if v), "summaries", "%s: len %d sum %d max %d nz %d" % (a, len(A), A.sum(), A.max(), A.count_nonzero()))
    g.check(str(A).split() == [str(v) for v in a], "str", str(A))
    b = list(a)
    for _ in range(g.below(3)):
        b[g.below(len(b))] = g.below(4)
    if g.chance(1, 5):
        b.append(0)
    if g.chance(1, 5):
        j, k = g.below(len(b)), g.below(len(b))
        b[j], b[k] = b[k], b[j]
    Bm = mt.MultiIndex(b)
    ka, kb = key(a), key(b)
    got = (A == Bm, A != Bm, A < Bm, A > Bm, A <= Bm, A >= Bm)
    want = (ka == kb, ka != kb, ka < kb, ka > kb, ka <= kb, ka >= kb)
    g.check(got == want, "order", "%s vs %s: ==,!=,<,>,<=,>= are %s, expected %s" % (a, b, got, want))
    g.raises("get-range", lambda: A[n], "index past the end")
    g.raises("set-range", lambda: A.__setitem__(n, 1), "setting past the end")
    g.nontrivial()


def draw_limiter(g, n, depth=2):
    """(native limiter, predicate, text)"""
    w = g.below(8 if depth else 5)
    if w == 0:
        k = g.below(5)
        return mt.TotalOrder(k), lambda q: sum(q) <= k, "total<=%d" % k
    if w == 1:
        lo = g.below(n)
        ln = g.range(1, n - lo)
        return mt.Dimension(lo, ln), lambda q: all(v == 0 for i, v in enumerate(q) if i < lo or i >= lo + ln), "dims[%d,%d)" % (lo, lo + ln)
    if w == 2:
        ws = [g.pick([0.55, 0.95, 0.3, 0.7, 1.0]) for _ in range(n)]
        e = g.pick([0.0713, 0.0137, 0.2113, 0.5077, 0.8311])
        return mt.Anisotropic(ws, e), lambda q: math.prod(w ** v for w, v in zip(ws, q)) > e, "aniso(%s,%g)" % (ws, e)
    if w == 3:
        k = g.below(4)
        return mt.MaxDegree(k, n), lambda q: all(v <= k for v in q), "degree<=%d" % k
    if w == 4:
        return mt.NoneLim(), lambda q: True, "none"
    a, fa, ta = draw_limiter(g, n, depth - 1)
    b, fb, tb = draw_limiter(g, n, depth - 1)
    if w == 5:
        return mt.And(a, b), lambda q: fa(q) and fb(q), "(%s and %s)" % (ta, tb)
    if w == 6:
        return mt.Or(a, b), lambda q: fa(q) or fb(q), "(%s or %s)" % (ta, tb)
    return mt.Xor(a, b), lambda q: fa(q) != fb(q), "(%s xor %s)" % (ta, tb)


def p_limiters(g):
    n = g.range(1, 4)
    lim, f, t = draw_limiter(g, n)
    g.note(t)
    for _ in range(10):
        q = [g.below(4) for _ in range(n)]
        g.check(bool(lim(mt.MultiIndex(q))) == bool(f(q)), "limiter", "%s on %s is %s" % (t, q, lim(mt.MultiIndex(q))))
    g.nontrivial()


def content(S):
    return [tuple(S.at(i).tolist()) for i in range(S.Size())]


def p_multiindexset(g):
    n = g.range(1, 3)
    order = g.range(0, 3)
    way = g.below(3)
    none = mt.NoneLim()
    if way == 0:
        S = mt.MultiIndexSet.CreateTotalOrder(n, order) if g.coin() else mt.MultiIndexSet.CreateTotalOrder(length=n, maxOrder=order, limiter=none)
        M = set(total_order(n, order))
    elif way == 1:
        S = mt.MultiIndexSet.CreateTensorProduct(n, order, none)
        M = set(itertools.product(range(order + 1), repeat=n))
    else:
        M = {tuple(g.below(4) for _ in range(n)) for _ in range(g.range(1, 6))}
        lst = sorted(M)
        if g.coin():
            lst = lst[::-1] + lst[:1]
        arr = np.array(lst)
        S = mt.MultiIndexSet(arr.astype(np.int32) if g.coin() else np.asfortranarray(arr).astype(np.int32))
        g.check(set(content(S)) == M, "from-matrix", "%s instead of %s" % (content(S), sorted(M)))
    g.note("dim %d %s" % (n, sorted(M)))

    def same(tag, A, B):
        g.check(set(content(A)) == B and A.Size() == len(B) and len(A) == n, tag, "%s instead of %s" % (sorted(content(A)), sorted(B)))
    same("create", S, M)
    C = S.DeepCopy()
    M0 = set(M)
    for _ in range(g.range(0, 4)):
        w = g.below(4)
        q = tuple(g.below(4) for _ in range(n))
        if w == 0:
            S += mt.MultiIndex(list(q))
            M.add(q)
        elif w == 1:
            S.append(mt.MultiIndex(list(q)))
            M.add(q)
        elif w == 2:
            other = {tuple(g.below(3) for _ in range(n)) for _ in range(g.range(1, 4))}
            S.union(mt.MultiIndexSet(np.array(sorted(other), dtype=np.int32)))
            M |= other
        else:
            S.AddActive(mt.MultiIndex(list(q)))
            M.add(q)
        same("edit", S, M)
    same("copy-independent", C, M0)
    for i in range(S.Size()):
        q = S.IndexToMulti(i)
        g.check(S.MultiToIndex(q) == i and q == S[i] and q == S.at(i), "index-roundtrip")
    g.raises("at-range", lambda: S.at(S.Size()), "at past the end")
    g.check(list(S.MaxOrders()) == [max(q[j] for q in M) for j in range(n)], "maxorders", "%s" % list(S.MaxOrders()))
    c = content(S)
    for comp in (True, False):
        F = S.fix(comp)
        fc = [tuple(F.IndexToMulti(i)) for i in range(F.Size())]
        g.check(fc == c and F.Length() == n and len(F) == n, "fix", "%s instead of %s" % (fc, c))
        g.check(list(F.MaxDegrees()) == [max(q[j] for q in M) for j in range(n)], "fix-maxdegrees", str(F.MaxDegrees()))
    # frontier, margin and expansion of a downward closed total order or tensor set
    D = mt.MultiIndexSet.CreateTotalOrder(n, order) if g.coin() else mt.MultiIndexSet.CreateTensorProduct(n, order)
    dc = set(content(D))

    def fwd(q):
        return [q[:j] + (q[j] + 1,) + q[j + 1:] for j in range(n)]
    marg = {p for q in dc for p in fwd(q)} - dc
    g.check({tuple(q.tolist()) for q in D.Margin()} == marg, "margin")
    red = {p for p in marg if all(p[:j] + (p[j] - 1,) + p[j + 1:] in dc for j in range(n) if p[j])}
    g.check({tuple(q.tolist()) for q in D.ReducedMargin()} == red, "reduced-margin")
    g.check({D.IndexToMulti(i).tolist().__str__() for i in D.Frontier()} == {str(list(q)) for q in dc if any(p in red for p in fwd(q))}, "frontier")
    g.check({str(D.IndexToMulti(i).tolist()) for i in D.StrictFrontier()} == {str(list(q)) for q in dc if any(p in red for p in fwd(q)) and all(p not in dc for p in fwd(q))}, "strict-frontier")
    k = g.below(D.Size())
    q = tuple(D.at(k).tolist())
    g.check(D.NumForward(k) == n and D.NumActiveForward(k) == sum(p in dc for p in fwd(q)), "forward-counts")
    g.check(D.IsExpandable(k) == any(p in red for p in fwd(q)), "expandable")
    D.Expand() if g.coin() else D.Expand(D.MultiToIndex(mt.MultiIndex(list(q))))
    new = set(content(D)) - dc
    g.check(new <= red and (new == red or new == {p for p in fwd(q) if p in red}), "expand", "%s added, reduced margin %s" % (sorted(new), sorted(red)))
    g.nontrivial()


def p_limited(g):
    n = g.range(1, 3)
    lim, f, t = draw_limiter(g, n)
    order = g.range(0, 3)
    g.note(t)
    if not f((0,) * n):
        g.discard("zero not admitted")
    tot = g.coin()
    S = (mt.MultiIndexSet.CreateTotalOrder if tot else mt.MultiIndexSet.CreateTensorProduct)(n, order, lim)
    want = {q for q in (total_order(n, order) if tot else itertools.product(range(order + 1), repeat=n)) if f(q)}
    got = content(S)
    g.check(set(got) <= want, "limited", "%s has terms outside %s" % (sorted(got), sorted(want)))
    if "xor" not in t:
        g.check(set(got) == want, "limited", "%s instead of %s" % (sorted(got), sorted(want)))
    L = S.GetLimiter()
    for _ in range(4):
        q = [g.below(4) for _ in range(n)]
        g.check(bool(L(mt.MultiIndex(q))) == bool(f(tuple(q))), "getlimiter", str(q))
    if len(got) > 1:
        g.nontrivial()


def p_fixed(g):
    """FixedMultiIndexSet: constructors hold what they were given; pickling and files round-trip"""
    n = g.range(1, 4)
    m = [tuple(g.below(4) for _ in range(n)) for _ in range(g.range(1, 6))]
    m = list(dict.fromkeys(m))
    way = g.below(3)
    dt = g.pick([np.uint32, np.uint32, np.int64])
    if way == 0:
        a = np.array(m, dtype=dt).ravel()
        F = mt.FixedMultiIndexSet(n, a)
        a[:] = 9
    elif way == 1:
        st, dims, ords = [0], [], []
        for q in m:
            for j, v in enumerate(q):
                if v:
                    dims.append(j), ords.append(v)
            st.append(len(dims))
        arrs = [np.array(q, dtype=dt) for q in (st, dims, ords)]
        F = mt.FixedMultiIndexSet(n, *arrs)
        for q in arrs:
            q[...] = 9
    else:
        order = g.range(0, 3)
        F = mt.FixedMultiIndexSet(n, order)
        m = None
        g.check(sorted(tuple(F.IndexToMulti(i)) for i in range(F.Size())) == sorted(total_order(n, order)), "total-order")
    gc.collect()
    junk = [np.full(k, 7, dtype=np.uint32) for k in (len(m or [1]) * n, n, 1, 2, 3, 4, 5, 6) for _ in range(10)]
    m = m if m is not None else [tuple(F.IndexToMulti(i)) for i in range(F.Size())]
    g.note("%s %s" % (way, m))

    def same(tag, A):
        got = [tuple(A.IndexToMulti(i)) for i in range(A.Size())]
        g.check(got == m and A.Length() == n, tag, "%s instead of %s" % (got, m))
        g.check(list(A.MaxDegrees()) == [max(q[j] for q in m) for j in range(n)], tag + "-maxdegrees", str(A.MaxDegrees()))
        for i, q in enumerate(m):
            g.check(A.MultiToIndex(list(q)) == i, tag + "-multitoindex", "%s" % (q,))
    same("holds", F)
    same("pickle", pickle.loads(pickle.dumps(F)))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "s.bin")
        F.Serialize(p)
        H = mt.FixedMultiIndexSet(1, 1)
        H.Deserialize(p)
        same("file", H)
    same("after", F)
    del F
    if len(m) > 1:
        g.nontrivial()


def val(v):
    """enumeration members read from an object refer to its field: take the value"""
    return type(v)(int(v)) if isinstance(v, (mt.BasisTypes, mt.PosFuncTypes, mt.QuadTypes)) else v


FIELDS = {"basisType": lambda g: g.pick(BASES), "basisLB": lambda g: g.normal() - 3, "basisUB": lambda g: g.normal() + 3, "basisNorm": lambda g: g.coin(),
          "posFuncType": lambda g: g.pick([mt.PosFuncTypes.SoftPlus, mt.PosFuncTypes.Exp]), "quadType": lambda g: g.pick(QUADS),
          "quadAbsTol": lambda g: g.real(0, 1e-3), "quadRelTol": lambda g: g.real(0, 1e-3), "quadMaxSub": lambda g: g.range(1, 40), "quadMinSub": lambda g: g.range(0, 10),
          "quadPts": lambda g: g.range(1, 20), "contDeriv": lambda g: g.coin(), "nugget": lambda g: g.real(0, 1)}
TFIELDS = {"opt_alg": lambda g: g.pick(["LD_LBFGS", "LD_SLSQP", "LN_NELDERMEAD"]), "opt_stopval": lambda g: g.normal(), "opt_ftol_rel": lambda g: g.real(0, 1), "opt_ftol_abs": lambda g: g.real(0, 1),
           "opt_xtol_rel": lambda g: g.real(0, 1), "opt_xtol_abs": lambda g: g.real(0, 1), "opt_maxeval": lambda g: g.range(1, 1000), "opt_maxtime": lambda g: g.real(0, 10), "verbose": lambda g: g.below(3)}
AFIELDS = {"maxPatience": lambda g: g.range(1, 20), "maxSize": lambda g: g.range(1, 20)}


def p_options(g):
    which = g.below(3)
    cls, fields = [(mt.MapOptions, FIELDS), (mt.TrainOptions, TFIELDS), (mt.ATMOptions, dict(list(FIELDS.items()) + list(TFIELDS.items()) + list(AFIELDS.items())))][which]
    O = cls()
    M = {k: val(getattr(O, k)) for k in fields}
    for _ in range(g.range(1, 10)):
        k = g.pick(sorted(fields))
        v = fields[k](g)
        setattr(O, k, v)
        M[k] = v
        for q in fields:
            g.check(getattr(O, q) == M[q], "field", "%s is %s after setting %s, expected %s" % (q, getattr(O, q), k, M[q]))
    g.note(str({k: v for k, v in M.items()})[:200])
    if which == 2:
        mi = mt.MultiIndex([g.below(4) for _ in range(g.range(1, 3))])
        O.maxDegrees = mi
        g.check(O.maxDegrees.tolist() == mi.tolist(), "maxdegrees")
    str(O), repr(O)
    if which != 1:
        P = mt.MapOptions()
        for k in FIELDS:
            setattr(P, k, M[k])
        g.check(O == P and P == O, "equal", "options with the same fields differ")
        k = g.pick(sorted(FIELDS))
        v = FIELDS[k](g)
        old = val(getattr(P, k))
        setattr(P, k, v)
        g.check((O == P) == (v == old), "equal", "== after changing %s from %s to %s" % (k, old, v))
        setattr(P, k, old)
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "o.bin")
            P.Serialize(p)
            Q = mt.MapOptions()
            R = Q.Deserialize(p)
            for k in FIELDS:
                g.check(getattr(Q, k) == getattr(P, k) and getattr(R, k) == getattr(P, k), "options-file", "%s" % k)
            g.check(Q == P, "options-file")
    g.nontrivial()


def p_pickle(g):
    o = draw_opts(g, g.coin())
    nin = g.range(1, 3)
    if g.coin():
        m, r, d = draw_component(g, o, nin)
    else:
        m, r, d = draw_map(g, o, nin, None, 0)
        if isinstance(m, mt.SummarizedMap):
            g.discard("summarized maps are not serializable")
    g.note("%s basis %d norm %d exp %d quad %d" % (d, o["basis"], o["norm"], o["exp"], o["quad"]))
    c = 0.3 * g.vec(r.nc)
    m.SetCoeffs(np.array(c))
    x = pts(g, nin)
    sane(g, r, c, x)
    want = m.Evaluate(x)
    ld = m.LogDeterminant(x)
    if not np.all(np.isfinite(want)):
        g.discard("not finite")

    def same(tag, q, cond=True):
        g.check((q.inputDim, q.outputDim, q.numCoeffs) == (m.inputDim, m.outputDim, m.numCoeffs), tag + "-dims")
        g.close(tag + "-coeffs", q.CoeffMap(), c, 0.0)
        g.close(tag + "-evaluate", q.Evaluate(x), want, 0.0)
        if cond:
            g.close(tag + "-logdet", q.LogDeterminant(x), ld, 0.0)
    q = pickle.loads(pickle.dumps(m, protocol=g.range(2, 5)))
    g.check(type(q) is type(m), "pickle-type", "%s instead of %s" % (type(q), type(m)))
    same("pickle", q)
    f = mt.ParameterizedFunctionBase.FromBytes(m.ToBytes())
    same("bytes", f)
    g.check(type(f) is type(m), "bytes-type", "FromBytes(ToBytes()) of a %s is a %s" % (type(m).__name__, type(f).__name__))
    # independent copies
    z = np.zeros(r.nc)
    q.SetCoeffs(z)
    same("original-untouched", m)
    with tempfile.TemporaryDirectory() as dd:
        p = os.path.join(dd, "m.bin")
        m.Serialize(p)
        a, b, cc = mt.DeserializeMap(p)
        g.check((a, b) == (r.nin, r.nout), "file-dims", "%s" % ((a, b),))
        g.close("file-coeffs", cc, c, 0.0)
    if r.nc > 1:
        g.nontrivial()


def p_torch(g):
    """torch modules: values, gradients, data types, layouts, interleaved calls, and the map afterwards"""
    o, m, r, c = draw_all(g, smooth=True)
    N = g.range(1, 4)
    X = pts(g, r.nin, N)
    S = g.mat(r.nout, N)
    sl = g.vec(N)
    sane(g, r, c, X, 1e3)
    sane(g, r, c + 0.05, X, 1e3)
    sane(g, r, 0.5 * c, 0.3 * X, 1e3)
    sane(g, r, 0.5 * c + 0.025, 0.3 * X, 1e3)
    y0 = m.Evaluate(X)
    l0 = m.LogDeterminant(X)
    if not np.all(np.isfinite(y0)) or np.abs(y0).max() > 1e3 or not np.all(np.isfinite(l0)) or np.abs(l0).max() > 10:
        g.discard("extreme values")
    f32x, f32c = g.chance(1, 4), g.chance(1, 3)
    store = g.coin() and r.nc > 0
    ld = g.coin()
    base = g.chance(1, 5)  # the ParameterizedFunctionBase module
    if base:
        ld = False
    made = g.below(2)
    cdt = torch.float32 if f32c else torch.double
    xdt = torch.float32 if f32x else torch.double
    g.note("x %s coeffs %s store %d logdet %d base %d" % (xdt, cdt, store, ld, base))
    cc = c + 0.05 if not store else c
    if f32c:
        cc = np.float32(cc).astype(float)
    if f32x:
        X = np.float32(X).astype(float)
    if store and made == 0 and not f32c:
        T = mt.TorchParameterizedFunctionBase(m, store_coeffs=True) if base else m.torch(True, ld)
    elif store:
        T = mt.TorchParameterizedFunctionBase(m, True, cdt) if base else mt.TorchConditionalMapBase(m, True, ld, cdt)
    elif made == 0 and not base:
        T = m.torch(store_coeffs=False, return_logdet=ld)
    else:
        T = mt.TorchParameterizedFunctionBase(m, False) if base else mt.TorchConditionalMapBase(m, store_coeffs=False, return_logdet=ld)
    # oracle from the numpy interface of the same map
    m.SetCoeffs(np.array(cc))
    wy, wl = m.Evaluate(X), m.LogDeterminant(X)
    wg, wcg = m.Gradient(X, S), m.CoeffGrad(X, S).sum(axis=1) if r.nc else None
    wgl = m.LogDeterminantInputGrad(X) * sl[None, :]
    wcl = (m.LogDeterminantCoeffGrad(X) * sl[None, :]).sum(axis=1) if r.nc else None
    m.SetCoeffs(np.array(c))
    lay = g.below(4)
    if lay == 0:
        x = torch.tensor(np.ascontiguousarray(X.T), dtype=xdt)
    elif lay == 1:
        x = torch.tensor(X, dtype=xdt).T
    elif lay == 2:
        x = torch.zeros(2 * N, 3 * r.nin, dtype=xdt)[::2, 1::3]
        x.copy_(torch.tensor(X.T, dtype=xdt))
    else:
        x = torch.zeros(N, r.nin + 2, dtype=xdt)[:, 1:-1]
        x.copy_(torch.tensor(X.T, dtype=xdt))
    reqx = not g.chance(1, 4)
    x.requires_grad_(reqx)
    coeffs = None
    if r.nc and not store:
        coeffs = torch.tensor(cc, dtype=cdt)
        if g.chance(1, 3):
            big = torch.zeros(2 * r.nc, dtype=cdt)
            big[::2] = coeffs
            coeffs = big[::2]
        coeffs.requires_grad_(True)
    elif not store:
        coeffs = torch.zeros(0, dtype=cdt, requires_grad=True)
    out = T(x) if store else T(x, coeffs)
    y, l = out if ld else (out, None)
    g.check(y.dtype == xdt and tuple(y.shape) == (N, r.nout), "torch-shape", "%s %s" % (y.dtype, tuple(y.shape)))
    eps = 1e-12 if not f32x else 3e-6
    tol = lambda w: eps * (1 + np.abs(w))
    g.close("torch-forward", y.detach().double().numpy().T, wy, tol(wy))
    if ld:
        g.check(l.dtype == xdt and tuple(l.shape) == (N,), "torch-logdet-shape")
        g.close("torch-logdet", l.detach().double().numpy(), wl, tol(wl))
    # something else happens to the map in between
    act = g.below(4)
    junk = [torch.full((max(r.nc, 1),), 55.0, dtype=torch.double) for _ in range(8)]
    if act == 1 and r.nc:
        m.SetCoeffs(np.array(m.CoeffMap()))
    elif act == 2:
        c3 = torch.tensor(cc * 0.5, dtype=torch.double) if r.nc else coeffs
        T(x.detach() * 0.3, c3)
        del c3
        junk += [torch.full((max(r.nc, 1),), 66.0, dtype=torch.double) for _ in range(8)]
    elif act == 3:
        m.Evaluate(X)
    if reqx or r.nc:
        way = g.below(3)
        Ts = torch.tensor(S.T, dtype=xdt)
        if way == 0:
            L = (y * Ts).sum()
        elif way == 1:
            # a sensitivity tensor with zero strides
            Ts = torch.full((N, r.nout), 1.5, dtype=xdt)
            m.SetCoeffs(np.array(cc)) if False else None
            L = 1.5 * y.sum()
        else:
            L = (y.T * Ts.T).sum()
        if ld:
            L = L + (l * torch.tensor(sl, dtype=xdt)).sum()
        try:
            L.backward()
        except RuntimeError as e:
            if not (reqx or (r.nc and True)):
                g.discard("nothing to differentiate")
            raise
        if way == 1:
            Sx = np.full((r.nout, N), 1.5)
            q = m
            # after backward the map has the coefficients of the call
            wg = q.Gradient(X, Sx)
            wcg = q.CoeffGrad(X, Sx).sum(axis=1) if r.nc else None
        e2 = 1e-10 if not (f32x or f32c) else 2e-5
        if reqx:
            w = wg + (wgl if ld else 0)
            g.check(x.grad is not None, "torch-grad-missing")
            g.close("torch-grad", x.grad.double().numpy().T, w, e2 * (1 + np.abs(wg) + np.abs(wgl)) * (1 + N))
        if r.nc:
            p = T.coeffs if store else coeffs
            g.check(p.grad is not None, "torch-coeff-grad-missing")
            w = wcg + (wcl if ld else 0)
            g.close("torch-coeff-grad", p.grad.double().numpy(), w, e2 * (1 + np.abs(wcg).max() + np.abs(wcl).max()) * (1 + N))
            del p
    # the map has the coefficients of the last call, whatever became of the tensors
    if r.nc:
        last = cc
        del coeffs, out, y, l, T, x
        if "L" in dir():
            del L
        gc.collect()
        junk += [torch.full((r.nc,), 99.0, dtype=torch.double) for _ in range(16)]
        junk += [np.full(r.nc, 98.0) for _ in range(16)]
        g.close("map-afterwards", np.array(m.CoeffMap()), last, 0.0, "coefficients of the map after the tensors are gone")
        g.nontrivial()


def p_torch_module(g):
    """modules: pickling, parameter updates, inverse, shape errors"""
    o, m, r, c = draw_all(g, smooth=True, fine=g.coin(), depth=0)
    N = g.range(1, 4)
    X = pts(g, r.nin, N)
    y0 = r.eval(c, X)
    dm = r.diagmin(c, X) if hasattr(r, "diagmin") else r.diag(c, X).min()
    if not np.all(np.isfinite(y0)) or np.abs(y0).max() > 50 or not dm > 0.02:
        g.discard("flat or extreme")
    f32 = g.chance(1, 4)
    fine = o["pts"] > 9
    if fine:
        resolved(g, o, r, c, X)
        resolved(g, o, r, 0.5 * c, X)
    T = mt.TorchConditionalMapBase(m, True, g.coin(), torch.float32 if f32 else torch.double)
    cur = np.float32(c).astype(float) if f32 else c
    x = torch.tensor(X.T.copy())
    val = lambda q: (q[0] if isinstance(q, tuple) else q).detach().numpy().T
    k = r.nin - r.nout
    for _ in range(g.range(1, 4)):
        w = g.below(4)
        if w == 0 and not isinstance(m, mt.SummarizedMap):
            T2 = pickle.loads(pickle.dumps(T))
            g.close("module-pickle", val(T2(x)), r.eval(cur, X), 1e-9 * (1 + np.abs(y0).max()) * 10)
            g.check(T2.return_logdet == T.return_logdet, "module-pickle-flag")
        elif w == 1:
            with torch.no_grad():
                T.coeffs.mul_(0.5)
            cur = T.coeffs.detach().double().numpy().copy()
        elif w == 2 and fine and (o["basis"] == 2 or not o["exp"]):
            ce = 0.75 * cur if g.coin() else cur
            y = r.eval(ce, X)
            rr = torch.tensor(y.T.copy())
            pre = x if (k == 0 or g.coin()) else x[:, :k]
            if ce is cur:
                z = T.inverse(pre, rr) if g.coin() else T.inverse(pre, rr, torch.tensor(ce))
            else:
                z = T.inverse(pre, rr, torch.tensor(ce))
            g.check(z.dtype == pre.dtype, "module-inverse-type")
            z = z.detach().numpy().T
            g.check(z.shape == (r.nout, N), "module-inverse-shape", str(z.shape))
            y2 = r.eval(ce, np.vstack([X[:k], z]))
            g.check(bool(np.all((np.abs(y2 - y) <= 1e-3 * (1 + np.abs(y))) | (np.abs(z - X[k:]) <= 1e-3))), "module-inverse", "%s for %s" % (z.tolist(), X[k:].tolist()))
        else:
            bad = torch.zeros(N, r.nin + 1, dtype=torch.double)
            g.raises("module-shape", lambda: T(bad), "wrong number of columns")
            g.raises("module-coeff-shape", lambda: T(x, torch.zeros(r.nc + 1, dtype=torch.double)), "wrong number of coefficients")
        if g.chance(1, 4):
            ce = 0.75 * cur
            y = r.eval(ce, X)
            g.close("module-forward-coeffs", val(T(x, torch.tensor(ce))), y, 1e-8 * (1 + np.abs(y)))
        y = r.eval(cur, X)
        g.close("module-forward", val(T(x)), y, 1e-8 * (1 + np.abs(y)))
    g.nontrivial()


def p_train(g):
    """KL objectives equal their formula; training lowers them and the options bind"""
    d = g.range(1, 2)
    N = g.range(5, 20)
    shift, sc = g.normal(), 0.5 + g.real(0, 1.5)
    X = sc * g.mat(d, N) + shift
    two = g.coin()
    Y = sc * g.mat(d, g.range(3, 10)) + shift if two else None
    nout = d if g.coin() else g.range(1, d)
    A = np.array(X, order="F")
    B = np.array(Y, order="F") if two else None
    obj = (mt.CreateGaussianKLObjective(A, B, nout) if nout < d or g.coin() else mt.CreateGaussianKLObjective(A, B)) if two else (mt.CreateGaussianKLObjective(A, nout) if nout < d or g.coin() else mt.CreateGaussianKLObjective(A))
    A[:] = 1e3
    if two:
        B[:] = -1e3
    del A, B
    gc.collect()
    o = draw_opts(g, True)
    o["exp"] = False
    o["native"].posFuncType = mt.PosFuncTypes.SoftPlus
    m = mt.CreateTriangular(d, nout, g.range(1, 2), o["native"])
    c0 = 0.2 * g.vec(m.numCoeffs)
    m.SetCoeffs(np.array(c0))

    def kl(mm, P):
        y, l = mm.Evaluate(P), mm.LogDeterminant(P)
        return float(np.mean(0.5 * (y * y).sum(axis=0) + 0.5 * nout * math.log(2 * math.pi) - l))
    w = kl(m, X)
    g.note("d %d->%d N %d test %d" % (d, nout, N, two))
    g.close("train-error", obj.TrainError(m), w, 1e-9 * (1 + abs(w)))
    if two:
        w2 = kl(m, Y)
        g.close("test-error", obj.TestError(m), w2, 1e-9 * (1 + abs(w2)))
    else:
        g.raises("test-error-without-data", lambda: obj.TestError(m), "TestError without test points")
    if g.chance(1, 2):
        to = mt.TrainOptions()
        to.opt_alg = g.pick(["LD_LBFGS", "LD_SLSQP"])
        to.opt_maxeval = g.range(5, 60)
        e = mt.TrainMap(m, obj, to)
        g.close("trainmap-value", e, kl(m, X), 1e-7 * (1 + abs(w)))
        g.check(kl(m, X) <= w + 1e-9 * (1 + abs(w)), "trainmap-improves", "%g from %g" % (kl(m, X), w))
        to2 = mt.TrainOptions()
        to2.opt_maxeval = 1
        to2.opt_alg = to.opt_alg
    else:
        ao = mt.ATMOptions()
        ao.opt_maxeval = 20
        ao.maxSize = g.range(nout, nout + 4)
        ao.maxPatience = g.range(1, 2)
        ao.basisType = o["native"].basisType
        ao.posFuncType = mt.PosFuncTypes.SoftPlus
        if two:
            msets = [mt.MultiIndexSet.CreateTotalOrder(d - nout + i + 1, 0) for i in range(nout)]
            tm = mt.TrainMapAdaptive(msets, obj, ao)
            g.check(sum(s.Size() for s in msets) == tm.numCoeffs, "adaptive-sets", "sets of %s terms, map with %d coefficients" % ([s.Size() for s in msets], tm.numCoeffs))
            g.check(tm.numCoeffs <= max(ao.maxSize, nout), "adaptive-maxsize", "%d terms with maxSize %d" % (tm.numCoeffs, ao.maxSize))
            g.check((tm.inputDim, tm.outputDim) == (d, nout), "adaptive-dims")
            # rebuilt from the returned sets and coefficients, the same map
            comps = [mt.CreateComponent(s.fix(True), ao) for s in msets]
            T = mt.TriangularMap(comps)
            T.SetCoeffs(np.array(tm.CoeffMap()))
            g.close("adaptive-map", tm.Evaluate(X), T.Evaluate(X), 1e-12 * (1 + np.abs(T.Evaluate(X))))
    g.nontrivial()


PROPS = [("reference", 200, p_reference), ("derivatives", 500, p_derivatives), ("inverse", 500, p_inverse), ("layout", 800, p_layout),
         ("shapes", 250, p_shapes), ("coeffs", 500, p_coeffs), ("affine", 400, p_affine), ("multiindex", 800, p_multiindex),
         ("limiters", 400, p_limiters), ("multiindexset", 700, p_multiindexset), ("limited", 400, p_limited), ("fixed", 700, p_fixed),
         ("options", 400, p_options), ("pickle", 400, p_pickle), ("torch", 1000, p_torch), ("torch_module", 400, p_torch_module), ("train", 200, p_train)]

if __name__ == "__main__":
    sys.exit(pbtpy.main(PROPS, sys.argv[1:]))
