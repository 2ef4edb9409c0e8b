from .common import *
from .spec_basis import *
LEVEL = 'proof'
TU = 'basis.cpp'
G = {}


def setup_common(ex, st):
    i, p, kl = z3.Ints('i p klen')
    u = z3.Real('u')
    kp, k = mk_vec(ex, st, kl, 8, 'k')
    pre(ex, st, i, p, u, k)
    for a in cox_de_boor(i, u, k, True):
        st.assume(a)
    G.update(i=i, p=p, u=u, k=k)
    return i, p, u, kp


def setup_ptr(ex, st):
    i, p, u, kp = setup_common(ex, st)
    o = ex.new_sym(st, 8, p + 1, 'N')
    o.cols[0] = ('real', z3.Array('N0', z3.IntSort(), z3.RealSort()))
    G['N'] = lambda s: View(ex, s, o.id, 0, p + 1, 8)
    return [i, p, u, kp, Ptr(o.id, 0)]


def setup_vec(ex, st):
    i, p, u, kp = setup_common(ex, st)
    vp, v = mk_vec(ex, st, p + 1, 8, 'N')
    G['N'] = lambda s: vec_view(ex, s, vp, 8)
    return [i, p, u, kp, vp]


def post(ex, st, r):
    i, p = G['i'], G['p']
    N = G['N'](st)
    return [('N[r] = N_{i-p+r,p}(u)', forall(1, lambda x: implies(and_(0 <= x, x <= p), N[x] == B(i - p + x, p))))]


def lr(L, j, get):
    i, u, k = G['i'], G['u'], G['k']
    left, right = get(L, 'left'), get(L, 'right')
    return forall(1, lambda x: implies(and_(1 <= x, x <= j), and_(left[x] == u - k[i + 1 - x], right[x] == k[i + x] - u)), lambda x: [left[x], right[x]])


def lrarr(L, nm):
    return L.raw(nm)


def lrvec(L, nm):
    return L.vec(nm)


def mk(get):
    def outer(L):
        i, p, u, k = (G[x] for x in ('i', 'p', 'u', 'k'))
        j, N = L.int('j'), G['N'](L.st)
        return [('j', and_(1 <= j, j <= p + 1)), ('left/right', lr(L, z(j) - 1, get)),
                ('N', forall(1, lambda x: implies(and_(0 <= x, x < j), N[x] == B(i - (z(j) - 1) + x, z(j) - 1)), lambda x: [N[x]]))]

    def inner(L):
        i, p, u, k = (G[x] for x in ('i', 'p', 'u', 'k'))
        j, r, N = L.int('j'), L.int('r'), G['N'](L.st)
        saved = L.real('saved')
        return [('r', and_(1 <= j, j <= p, 0 <= r, r <= j)), ('left/right', lr(L, j, get)),
                ('done', forall(1, lambda x: implies(and_(0 <= x, x < r), N[x] == B(i - z(j) + x, j)), lambda x: [N[x]])),
                ('todo', forall(1, lambda x: implies(and_(r <= x, x < j), N[x] == B(i - z(j) + 1 + x, z(j) - 1)), lambda x: [N[x]])),
                ('saved', z(saved) == (u - k[i - z(j) + z(r)]) * T(i - z(j) + z(r), z(j)))]
    v1 = lambda L: G['p'] + 1 - z(L.int('j'))
    v2 = lambda L: z(L.int('j')) - z(L.int('r'))
    return outer, inner, v1, v2


o1, n1, v1, v2 = mk(lrarr)
o2, n2, w1, w2 = mk(lrvec)


def nonneg_lemma(ex):
    i, j, m = z3.Ints('i j m')
    u = z3.Real('u')
    k = z3.Array('k', z3.IntSort(), z3.RealSort())
    rng = [j >= 1, i - j <= m, m <= i]
    # instances at (m,j) of the definitions in spec_basis.cox_de_boor and of the sortedness of the knots around the span
    defT = lambda m: [implies(or_(m == i - j, m == i + 1), T(m, j) == 0), implies(and_(i - j + 1 <= m, m <= i), T(m, j) * (k[m + j] - k[m]) == B(m, j - 1))]
    srt = lambda m: [implies(m <= i, k[m] <= k[i]), implies(m + j >= i + 1, k[i + 1] <= k[m + j]), implies(m + j + 1 >= i + 1, k[i + 1] <= k[m + j + 1])]
    sp = [k[i] < k[i + 1], k[i] <= u, u <= k[i + 1]]
    yield 'T nonnegative', [j >= 1, i - j <= m, m <= i + 1] + defT(m) + srt(m) + sp + [implies(and_(i - j + 1 <= m, m <= i), B(m, j - 1) >= 0)], T(m, j) >= 0
    a, b, c, d = z3.Reals('a b c d')
    yield 'nonnegativity step', rng + srt(m) + sp + [T(m, j) == a, T(m + 1, j) == b, u - k[m] == c, k[m + j + 1] - u == d, a >= 0, b >= 0, B(m, j) == c * a + d * b], B(m, j) >= 0
    yield 'nonnegativity base', [B(i, 0) == 1], B(i, z3.IntVal(0)) >= 0


def unity_lemma(ex):
    """partial sums: S(x,j) = sum_{m=i-j..x} B(m,j); S(x,j) = S(x,j-1) + (k[x+j+1]-u) T(x+1,j); hence S(i,j) = S(i,j-1) = ... = 1"""
    i, j, x = z3.Ints('i j x')
    u = z3.Real('u')
    ka = z3.Array('k', z3.IntSort(), z3.RealSort())
    class K:
        def __getitem__(s, x): return ka[x]
    S = z3.Function('S', z3.IntSort(), z3.IntSort(), z3.RealSort())
    a, b = z3.Ints('a b')
    defS = [z3.ForAll([a, b], implies(and_(b >= 0, i - b <= a, a <= i), S(a, b) == S(a - 1, b) + B(a, b)), patterns=[S(a, b)]),
            z3.ForAll([b], implies(b >= 0, S(i - b - 1, b) == 0))]
    ctx = cox_de_boor(i, u, K()) + defS + [j >= 1]
    claim = lambda x: S(x, j) == S(x, j - 1) + (ka[x + j + 1] - u) * T(x + 1, j)
    yield 'partial sums base', ctx + [S(i - j - 1, j) == 0, S(i - j, j - 1) == 0], claim(i - j)
    yield 'partial sums step', ctx + [i - j + 1 <= x, x <= i, claim(x - 1), S(x, j) == S(x - 1, j) + B(x, j), S(x, j - 1) == S(x - 1, j - 1) + B(x, j - 1)], claim(x)
    yield 'partition of unity step', ctx + [claim(i), S(i, j - 1) == 1], S(i, j) == 1
    yield 'partition of unity base', ctx + [S(i - 1, 0) == 0, S(i, 0) == S(i - 1, 0) + B(i, 0)], S(i, 0) == 1


PROOFS = [
    Proof('basis_funcs(T*)', 'vc_basis_funcs', setup_ptr, post, tu=TU, divfn=True,
          loops={r'^void gbs::basis_funcs<double>\(.*double\*\)': {0: LoopSpec(o1, v1), 1: LoopSpec(n1, v2)}}),
    Proof('basis_funcs(vector)', 'vc_basis_funcs_v', setup_vec, post, tu=TU, divfn=True,
          loops={r'^auto gbs::basis_funcs<double>\(.*std::vector<double[^()]*>&\)': {0: LoopSpec(o2, w1), 1: LoopSpec(n2, w2)}}),
    Lemma('basis values are nonnegative', nonneg_lemma, tu=TU),
    Lemma('basis values sum to one', unity_lemma, tu=TU),
]


# ------------------------------------------------------------------ bounded: derivative tables
KV = [(1, [0, 0, 1, 2, 2]), (2, [0, 0, 0, 1, 1, 3, 3, 3]), (2, [-1, 0, 1, 2, 3, 5, 6]), (3, [0, 0, 0, 0, 1, 3, 3, 4, 4, 4, 4]), (4, [0] * 5 + [2, 2, 3] + [4] * 5), (5, [0] * 6 + [1] * 6)]


def b_ders(mod, out):
    for p, k in KV:
        k = [F(x) for x in k]
        for i in range(p, len(k) - p - 1):
            if k[i] == k[i + 1]:
                continue
            u = z3.Real('u')
            for n in range(0, p + 1):
                ex, st = bnd.start(mod)
                st.assume(and_(z(k[i]) <= u, u <= z(k[i + 1])))
                D = out_buf(ex, st, 8 * (n + 1) * (p + 1))
                for s, _ in bnd.go(ex, st, 'vc_ders', [i, p, n, u, conc_vec(ex, st, k), D]):
                    for d in range(n + 1):
                        w = O.ders_all(i, p, d, u, k)
                        for r in range(p + 1):
                            bnd.eq(out, ex, s, ex.load(s, DBL, D.at(8 * (d * (p + 1) + r))), w[r], 'p=%d k=%s span %d order %d/%d index %d' % (p, fl(k), i, d, n, r))
                bnd.safe(out, ex, 'p=%d n=%d' % (p, n))
            for d in range(0, p + 1):
                ex, st = bnd.start(mod)
                st.assume(and_(z(k[i]) <= u, u <= z(k[i + 1])))
                D = out_buf(ex, st, 8 * (p + 1))
                for s, _ in bnd.go(ex, st, 'vc_basis_ders', [i, p, d, u, conc_vec(ex, st, k), D]):
                    w = O.ders_all(i, p, d, u, k)
                    for r in range(p + 1):
                        bnd.eq(out, ex, s, ex.load(s, DBL, D.at(8 * r)), w[r], 'basis_ders p=%d span %d order %d index %d' % (p, i, d, r))
                bnd.safe(out, ex, 'basis_ders p=%d d=%d' % (p, d))


def b_rec(mod, out):
    for p, k in KV[:4]:
        k = [F(x) for x in k]
        n = len(k) - p - 1
        for i in range(p, n):
            if k[i] == k[i + 1]:
                continue
            u = z3.Real('u')
            for d in range(0, p + 2):
                w = O.ders_all(i, p, d, u, k)
                for m in range(n):
                    ex, st = bnd.start(mod)
                    st.assume(and_(z(k[i]) <= u, u < z(k[i + 1]) - z(F(1, 1000000000))))
                    for s, r in bnd.go(ex, st, 'vc_basis_function', [u, m, p, d, conc_vec(ex, st, k)]):
                        bnd.eq(out, ex, s, r, w[m - i + p] if i - p <= m <= i else F(0), 'basis_function p=%d k=%s span %d order %d index %d' % (p, fl(k), i, d, m))
                    bnd.safe(out, ex, 'basis_function p=%d d=%d' % (p, d))


BOUNDED = [Bounded('ders_basis_funs / basis_ders = derivative recurrence, every order <= degree', TU, 'degrees 1..5, 6 knot vectors (clamped, unclamped, repeated), every non-empty span; u symbolic over the span', b_ders),
           Bounded('basis_function (recursive) = Cox-de Boor and its derivatives on all of the domain', TU, 'degrees 1..3, 4 knot vectors, every index and span; u symbolic over the span', b_rec)]


class S(Suite):
    tu = TU
    rule = 'random clamped and unclamped knot vectors with repeated knots, degrees 0..25, parameters at, beside and between knots; exact rational Cox-de Boor oracle'

    def cases(self, rng, tier):
        N = {'quick': 900, 'thorough': 9000, 'search': 6000}[tier]
        for it in range(N):
            p = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 25] if it % 7 == 0 else [0, 1, 2, 2, 3, 3, 4, 5])
            ns = rng.choice([1, 1, 2, 3, 4, 6, 9])
            k = O.knots(rng, p, ns, rng.choice(['int', 'uniform', 'unit', 'graded']))
            if p > 0 and rng.random() < 0.3:
                for i in range(p):
                    k[i] -= F(p - i, 4)
                    k[-1 - i] += F(p - i, 2)
            n = len(k) - p - 1
            spans = [i for i in range(p, n) if k[i] < k[i + 1]]
            i = rng.choice(spans)
            u = rng.choice([k[i], k[i + 1], (k[i] + k[i + 1]) / 2, k[i] + (k[i + 1] - k[i]) * F(rng.randrange(1, 256), 256), F(math.nextafter(float(k[i + 1]), -1e9))])
            if p <= 25 and p <= 24:
                yield 'values', (i, p, fl(u), fl(k))
                yield 'ders', (i, p, rng.randrange(0, p + 1), fl(u), fl(k))
            if it % 90 == 0:
                hp = rng.choice([13, 16, 18, 20, 22, 24])
                hk = O.knots(rng, hp, rng.choice([1, 2, 3]), 'unit')
                hs = rng.choice([i for i in range(hp, len(hk) - hp - 1) if hk[i] < hk[i + 1]])
                yield 'ders', (hs, hp, hp, fl((hk[hs] + hk[hs + 1]) / 2), fl(hk))
            if p <= 5 and u < k[i + 1]:
                yield 'recursive', (rng.randrange(0, n), p, rng.randrange(0, p + 2), i, fl(u), fl(k))

    def run(self, lib, g, c):
        if g == 'values':
            i, p, u, k = c
            w = O.basis_all(i, p, F(u), [F(x) for x in k])
            a = self.ok(lib.call('vc_basis_funcs', [i, p, u, Vec(k), Out(p + 2)])).out[4]
            b = self.ok(lib.call('vc_basis_funcs_v', [i, p, u, Vec(k), Vec([0.0] * (p + 1))])).out[4]
            for r in range(p + 1):
                self.near(a[r], w[r], 1, 'basis value %d' % r)
                self.near(b[r], w[r], 1, 'basis value %d (vector overload)' % r)
                if a[r] < -1e-12 or b[r] < -1e-12:
                    self.fail('negative basis value %d: %r %r' % (r, a[r], b[r]))
            self.near(sum(a[:p + 1]), 1, 1, 'sum of basis values')
            if a[p + 1] == a[p + 1]:
                self.fail('write past the p+1 values')
        elif g == 'ders':
            i, p, n, u, k = c
            kk = [F(x) for x in k]
            memo = {}
            tab = [[O.dbasis(m, p, d, i, F(u), kk, memo) for m in range(i - p, i + 1)] for d in range(n + 1)]
            a = self.ok(lib.call('vc_ders', [i, p, n, u, Vec(k), Out((n + 1) * (p + 1) + 1)])).out[5]
            b = self.ok(lib.call('vc_basis_ders', [i, p, n, u, Vec(k), Out(p + 2)])).out[5]
            for d in range(n + 1):
                sc = max(abs(x) for x in tab[d])
                for r in range(p + 1):
                    self.near(a[d * (p + 1) + r], tab[d][r], sc, 'derivative %d of basis %d' % (d, r), rel=1e-7)
            sc = max(abs(x) for x in tab[n])
            for r in range(p + 1):
                self.near(b[r], tab[n][r], sc, 'single-order derivative %d of basis %d' % (n, r), rel=1e-7)
            if b[p + 1] == b[p + 1] or a[-1] == a[-1]:
                self.fail('write past the end of the table')
        else:
            m, p, d, i, u, k = c
            kk = [F(x) for x in k]
            w = O.ders_all(i, p, d, F(u), kk)
            a = self.ok(lib.call('vc_basis_function', [u, m, p, d, Vec(k)], 'd')).ret
            self.near(a, w[m - i + p] if i - p <= m <= i else 0, max([abs(x) for x in w]), 'basis function %d order %d' % (m, d), rel=1e-7)


SUITE = S()
