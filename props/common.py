from gbsv.core import *
from gbsv.native import Vec, Out, Violation, Missing
from gbsv import oracle as O, bnd
from gbsv.oracle import F, fl, close
import numpy as np, random, itertools, math


def sorted_(k, n=None):
    n = z(k.len) if n is None else n
    if z3.is_int_value(n) and n.as_long() <= 32:
        return and_(*[k[i] <= k[i + 1] for i in range(n.as_long() - 1)])
    return forall(2, lambda a, b: implies(and_(0 <= a, a <= b, b < n), k[a] <= k[b]), lambda a, b: [z3.MultiPattern(k[a], k[b])])


class Suite:
    libs = ()
    rule = 'each case is generated inside the contract precondition; values are dyadic rationals so the oracle is exact'

    def fail(self, msg, **kw):
        raise Violation(msg, **kw)

    def ok(self, r, what=''):
        if r.rc != 0:
            raise Violation('%s threw unexpectedly: %s' % (what, r.what))
        return r

    def near(self, got, want, scale, what, rel=1e-9, ab=1e-12):
        if not close(got, want, scale, rel, ab):
            raise Violation('%s: got %r, expected %r' % (what, float(got), float(want)))


class Bounded:
    def __init__(self, name, tu, bound, fn):
        self.name, self.tu, self.bound, self.fn = name, tu, bound, fn

    def run(self, mod, out):
        self.fn(mod, out)


# ------------------------------------------------------------------ generators shared by suites
def ex_(x):
    return [ex_(y) for y in x] if isinstance(x, (list, tuple)) else F(x)


def curve_knots(rng, pmax=6, smax=8):
    p = rng.choice([1, 1, 2, 2, 3, 3, 3, 4, 5, pmax])
    p = min(p, pmax)
    k = O.knots(rng, p, rng.choice([1, 1, 2, 3, 4, 6, smax]), rng.choice(['int', 'uniform', 'unit', 'graded']))
    return p, k, len(k) - p - 1


def pick_u(rng, k, p, inside=False, ulp=True):
    d = sorted(set(k))
    i = rng.randrange(len(d) - 1)
    t = rng.random()
    if t < 0.25 and not inside:
        return rng.choice([d[0], d[-1], d[i], d[i + 1]])
    if t < 0.35 and not inside and ulp:
        return F(rng.choice([math.nextafter(float(d[i + 1]), -1e30), math.nextafter(float(d[i]), 1e30)]))
    if t < 0.6:
        return (d[i] + d[i + 1]) / 2
    return d[i] + (d[i + 1] - d[i]) * F(rng.randrange(1, 1024), 1024)


def unflat(k):
    ks, ms = [], []
    for x in k:
        if ks and ks[-1] == x:
            ms[-1] += 1
        else:
            ks.append(x)
            ms.append(1)
    return ks, ms


def surf_case(rng, pmax=4, smax=4):
    p, ku, nu = curve_knots(rng, pmax=pmax, smax=smax)
    q, kv, nv = curve_knots(rng, pmax=pmax, smax=smax)
    return p, q, ku, kv, nu, nv


def posw(rng, P):
    """random positive weights as the last coordinate, coordinates multiplied by them"""
    r = []
    for x in P:
        w = F(rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 4]))
        r.append([c * w for c in x] + [w])
    return r


def hom_surface(u, v, mu, mv, p, q, ku, kv, P):
    """table of projected derivatives and the magnitude of the terms met on the way"""
    from math import comb
    A, B = {}, {}
    ku, kv, P = ex_(ku), ex_(kv), ex_(P)
    for a in range(mu + 1):
        for b in range(mv + 1):
            A[a, b], B[a, b] = O.surface(F(u), F(v), a, b, p, q, ku, kv, P)
    S = O.rational_surface_from_hom(A, mu, mv)
    m = len(P[0]) - 1
    w0 = abs(A[0, 0][-1])
    M = {}
    for a in range(mu + 1):
        for b in range(mv + 1):
            M[a, b] = []
            for c in range(m):
                t = B[a, b][c]
                for i in range(a + 1):
                    for j in range(b + 1):
                        if (i, j) != (0, 0):
                            t += comb(a, i) * comb(b, j) * B[i, j][-1] * M[a - i, b - j][c]
                M[a, b].append(t / w0)
    return S, M


# ------------------------------------------------------------------ whole-curve / whole-surface comparison
def spans_of(k, p, lo=None, hi=None):
    n = len(k) - p - 1
    lo = k[p] if lo is None else lo
    hi = k[n] if hi is None else hi
    d = sorted(set([x for x in k if lo < x < hi] + [lo, hi]))
    return list(zip(d, d[1:]))


def samples(k, p, per=None, lo=None, hi=None):
    """interior points of every span, enough to determine a polynomial of degree p, plus the break points"""
    per = per or p + 1
    out = []
    for a, b in spans_of(k, p, lo, hi):
        out.append(a)
        for i in range(per):
            out.append(a + (b - a) * F(2 * i + 1, 2 * per))
        out.append(b)
    return out


def ev(u, p, k, P, ratl=False, d=0):
    """(value, magnitude) of a curve at u, projected when rational"""
    v, s = O.curve(F(u), d, p, k, P)
    if ratl:
        w = v[-1]
        return [x / w for x in v[:-1]], [x / abs(w) for x in s[:-1]]
    return v, s


def same_curve(S, c0, c1, what, f=lambda t: t, ratl=(False, False), per=None, rel=1e-9, ab=1e-12, lo=None, hi=None, skip=()):
    """c = (p, k, P), already exact; c1(t) must equal c0(f(t)) for t over the domain of c1 (or lo..hi)"""
    p0, k0, P0 = c0
    p1, k1, P1 = c1
    sc0 = max([max(abs(x) for x in q) for q in P0] + [F(0)])
    for t in samples(k1, p1, per or max(p0, p1) + 1, lo, hi):
        if t in skip:
            continue
        a, s0 = ev(f(t), p0, k0, P0, ratl[0])
        b, s1 = ev(t, p1, k1, P1, ratl[1])
        for c in range(min(len(a), len(b))):
            if abs(a[c] - b[c]) > F(rel) * max(s0[c], s1[c], sc0 / 1000) + F(ab):
                raise Violation('%s: at t=%r coordinate %d is %r, the original has %r' % (what, float(t), c, float(b[c]), float(a[c])))


def same_surface(S, s0, s1, what, f=lambda a, b: (a, b), ratl=(False, False), per=2, rel=1e-9, ab=1e-12, lim=None):
    """s = (p, q, ku, kv, P); s1(a,b) must equal s0(f(a,b)) over the domain of s1"""
    def val(s, u, v, r):
        x, m = O.surface(F(u), F(v), 0, 0, s[0], s[1], s[2], s[3], s[4])
        if r:
            w = x[-1]
            return [y / w for y in x[:-1]], [y / abs(w) for y in m[:-1]]
        return x, m
    A, B = samples(s1[2], s1[0], per), samples(s1[3], s1[1], per)
    for a in A:
        for b in B:
            u, v = f(a, b)
            x, m0 = val(s0, u, v, ratl[0])
            y, m1 = val(s1, a, b, ratl[1])
            for c in range(min(len(x), len(y))):
                if abs(x[c] - y[c]) > F(rel) * max(m0[c], m1[c]) + F(ab):
                    raise Violation('%s: at (%r,%r) coordinate %d is %r, the original has %r' % (what, float(a), float(b), c, float(y[c]), float(x[c])))


def close_list(S, got, want, what, rel=1e-12, ab=1e-12):
    if len(got) != len(want):
        raise Violation('%s: %d entries, expected %d' % (what, len(got), len(want)), got=[float(x) for x in got][:60])
    for i, (a, b) in enumerate(zip(got, want)):
        if not abs(F(float(a)) - F(b)) <= F(rel) * abs(F(b)) + F(ab):
            raise Violation('%s: entry %d is %r, expected %r' % (what, i, float(a), float(b)))


def exl(a):
    """numpy output -> exact lists"""
    return [[F(float(y)) for y in x] for x in a] if getattr(a, 'ndim', 1) == 2 else [F(float(x)) for x in a]


def exp_(a, dim):
    """numpy poles (dim 1 comes flat) -> exact points"""
    return [[F(float(x))] for x in a] if dim == 1 else exl(a)
