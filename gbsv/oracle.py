"""Independent exact oracles (rational arithmetic), written from the mathematical definitions."""
from fractions import Fraction as F
from math import comb


def fr(x):
    return x if isinstance(x, F) else F(x)


def span(n, p, u, k):
    """the s in [p,n-1] with k[s] <= u < k[s+1]; the last non-empty one for u >= k[n]"""
    if u >= k[n]:
        s = n - 1
        while s > p and k[s] == k[s + 1]:
            s -= 1
        return s
    s = p
    for i in range(p, n):
        if k[i] <= u and k[i] < k[i + 1]:
            s = i
    return s


def basis_all(s, p, u, k):
    """values of B_{s-p..s, p}(u) using the polynomial piece of span s (Cox-de Boor, 0/0=0)"""
    B = {s: F(1)}
    for j in range(1, p + 1):
        N = {}
        for m in range(s - j, s + 1):
            v = F(0)
            if m in B:
                d = k[m + j] - k[m]
                if d != 0:
                    v += (u - k[m]) / d * B[m]
            if m + 1 in B:
                d = k[m + j + 1] - k[m + 1]
                if d != 0:
                    v += (k[m + j + 1] - u) / d * B[m + 1]
            N[m] = v
        B = N
    return [B[m] for m in range(s - p, s + 1)]


def dbasis(m, p, d, s, u, k, memo=None):
    """d-th derivative of B_{m,p} on the piece of span s, from the derivative recurrence"""
    if memo is None:
        memo = {}
    key = (m, p, d)
    if key in memo:
        return memo[key]
    if m < s - p or m > s or d > p:
        r = F(0)
    elif d == 0:
        if p == 0:
            r = F(1)
        else:
            r = F(0)
            a = k[m + p] - k[m]
            if a != 0:
                r += (u - k[m]) / a * dbasis(m, p - 1, 0, s, u, k, memo)
            b = k[m + p + 1] - k[m + 1]
            if b != 0:
                r += (k[m + p + 1] - u) / b * dbasis(m + 1, p - 1, 0, s, u, k, memo)
    else:
        r = F(0)
        a = k[m + p] - k[m]
        if a != 0:
            r += p * dbasis(m, p - 1, d - 1, s, u, k, memo) / a
        b = k[m + p + 1] - k[m + 1]
        if b != 0:
            r -= p * dbasis(m + 1, p - 1, d - 1, s, u, k, memo) / b
    memo[key] = r
    return r


def ders_all(s, p, d, u, k):
    memo = {}
    return [dbasis(m, p, d, s, u, k, memo) for m in range(s - p, s + 1)]


def curve(u, d, p, k, poles, s=None):
    """d-th derivative of the B-spline curve; returns (value, scale) per coordinate"""
    n = len(poles)
    if s is None:
        s = span(n, p, u, k)
    B = ders_all(s, p, d, u, k)
    dim = len(poles[0])
    v = [sum(B[r] * poles[s - p + r][c] for r in range(p + 1)) for c in range(dim)]
    sc = [sum(abs(B[r] * poles[s - p + r][c]) for r in range(p + 1)) for c in range(dim)]
    return v, sc


def rational_from_hom(A):
    """A[k] = homogeneous derivatives (w last) -> derivatives of the projected curve (Leibniz)"""
    C = []
    dim = len(A[0]) - 1
    w0 = A[0][-1]
    for kk in range(len(A)):
        v = [A[kk][c] for c in range(dim)]
        for i in range(1, kk + 1):
            for c in range(dim):
                v[c] -= comb(kk, i) * A[i][-1] * C[kk - i][c]
        C.append([x / w0 for x in v])
    return C


def surface(u, v, du, dv, p, q, ku, kv, poles):
    """poles[i + nu*j]; returns value, scale"""
    nu, nv = len(ku) - p - 1, len(kv) - q - 1
    su, sv = span(nu, p, u, ku), span(nv, q, v, kv)
    Bu, Bv = ders_all(su, p, du, u, ku), ders_all(sv, q, dv, v, kv)
    dim = len(poles[0])
    val, sc = [F(0)] * dim, [F(0)] * dim
    for j in range(q + 1):
        for i in range(p + 1):
            w = Bu[i] * Bv[j]
            if w == 0:
                continue
            P = poles[su - p + i + nu * (sv - q + j)]
            for c in range(dim):
                val[c] += w * P[c]
                sc[c] += abs(w * P[c])
    return val, sc


def rational_surface_from_hom(A, nu, nv):
    """A[(k,l)] homogeneous derivative table -> projected derivatives"""
    dim = len(A[(0, 0)]) - 1
    w0 = A[(0, 0)][-1]
    S = {}
    for k in range(nu + 1):
        for l in range(nv + 1):
            v = [A[(k, l)][c] for c in range(dim)]
            for i in range(k + 1):
                for j in range(l + 1):
                    if (i, j) != (0, 0):
                        b = comb(k, i) * comb(l, j) * A[(i, j)][-1]
                        for c in range(dim):
                            v[c] -= b * S[(k - i, l - j)][c]
            S[(k, l)] = [x / w0 for x in v]
    return S


def close(got, want, scale=1.0, rel=1e-9, ab=1e-12):
    got = float(got)
    if got != got:
        return False
    return abs(got - float(want)) <= rel * max(abs(float(want)), abs(float(scale))) + ab


# ------------------------------------------------------------------ input generators
def knots(rng, p, nspans, style='int', mults=None, closed=True):
    """clamped flat knot vector with dyadic values; interior multiplicities 1..p"""
    t = F(rng.choice([-3, 0, 0, 0, 1, 2])) if style != 'unit' else F(0)
    vals = [t]
    for i in range(nspans):
        if style == 'uniform' or style == 'unit':
            st = F(1)
        elif style == 'graded':
            st = F(rng.choice([1, 2, 4, 8, 16, 32])) / 32
        else:
            st = F(rng.choice([1, 1, 2, 3, 4, 7])) / rng.choice([1, 2, 4])
        t += st
        vals.append(t)
    if style == 'unit':
        vals = [v / nspans for v in vals]
        vals = [F(float(v)) for v in vals]
    out = [vals[0]] * (p + 1)
    for i in range(1, nspans):
        m = mults[i - 1] if mults else rng.choice([1, 1, 1, 2, p, max(1, p - 1)])
        m = max(1, min(m, max(p, 1)))
        out += [vals[i]] * m
    out += [vals[-1]] * (p + 1)
    return out


def params(rng, k, p, extra=3):
    """parameters: every distinct knot, midpoints, a few random dyadics"""
    d = sorted(set(k))
    us = list(d)
    for a, b in zip(d, d[1:]):
        us.append((a + b) / 2)
    for _ in range(extra):
        i = rng.randrange(len(d) - 1)
        us.append(d[i] + (d[i + 1] - d[i]) * F(rng.randrange(1, 64), 64))
    return us


def pts(rng, n, dim, kind='int'):
    return [[F(rng.randrange(-40, 41)) / rng.choice([1, 2, 4]) for _ in range(dim)] for _ in range(n)]


def fl(x):
    if isinstance(x, (list, tuple)):
        return [fl(y) for y in x]
    return float(x)
