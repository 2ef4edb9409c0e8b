"""C09: trimming"""
from .common import *
from .callees import num, check_curve_contract
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
PROOFS = []
EPS_ = z3.Q(100, 2**52)


def insert_contract(dim):
    """insert_knots, as discharged in C06; the new poles are named Q"""
    def apply(ex, st, a):
        u, p, r, up, pp = a
        u, p, r = z(u), z(num(p)), z(num(r))
        U, P = vec_view(ex, st, up, 8), vec_view(ex, st, pp, 8 * dim)
        n = z(P.len)
        ex.oblige(st, 'pre:insert_knots: sizes', and_(p >= 1, p < 2**30, n >= p + 1, n < 2**30, r >= 0, r < 2**30, z(U.len) == n + p + 1))
        ex.oblige(st, 'pre:insert_knots: knots sorted', sorted_(U))
        ex.oblige(st, 'pre:insert_knots: u inside the domain', and_(U[p] <= u, u <= U[n]))
        t = next(ex.fresh_n)
        k, s = z3.Ints('k!%d s!%d' % (t, t))
        U0 = U.arr(0)
        st.assume(and_(0 <= k, k <= n + p, U0[k] <= u, implies(k < n + p, u < U0[k + 1]), k >= p, k - s <= n - 1))
        st.assume(and_(0 <= s, s <= k + 1, forall(1, lambda x: implies(and_(k - s < x, x <= k), U0[x] == u), lambda x: [U0[x]]), implies(k - s >= 0, U0[k - s] < u)))
        rr = z3.If(s >= p, z3.IntVal(0), z3.If(r < p - s, r, p - s))
        W = set_vec(ex, st, up, n + p + 1 + rr, 8, 'Uins')
        Q = set_vec(ex, st, pp, n + rr, 8 * dim, 'Qins')
        st.assume(forall(1, lambda i: implies(and_(0 <= i, i < n + p + 1 + rr), W[i] == z3.If(i <= k, U0[i], z3.If(i <= k + rr, u, U0[i - rr]))), lambda i: [W[i]]))
        st.assume(sorted_(W))       # the merge of a sorted list and u at its place (lemma 'insertion keeps the order')
        G['ins'] = G.get('ins', []) + [dict(k=k, s=s, rr=rr, u=u, n=n, U=W.arr(0), U0=U0, Q=[Q.arr(8 * c) for c in range(dim)])]
        return z(ex.fresh_int('ret'))
    return Contract(r'^auto gbs::insert_knots<double, %dul>\(' % dim, apply, 'insert_knots (C06)')


def order(ex):
    k, rr, N, i, j = z3.Ints('k rr N i j')
    u = z3.Real('u')
    U = z3.Array('U', z3.IntSort(), z3.RealSort())
    W = lambda x: z3.If(x <= k, U[x], z3.If(x <= k + rr, u, U[x - rr]))
    srt = lambda a, b: implies(and_(0 <= a, a <= b, b < N), U[a] <= U[b])
    yield 'insertion keeps the order', [0 <= i, i <= j, j < N + rr, rr >= 0, 0 <= k, k < N, U[k] <= u, implies(k + 1 < N, u <= U[k + 1])] + [srt(a, b) for a in (i, i - rr, k, k + 1) for b in (j, j - rr, k, k + 1)], W(i) <= W(j)


PROOFS.append(Lemma('order', order, tu=TU))


def setup(dim, n_u=1):
    def f(ex, st):
        G.clear()
        n, p = z3.Ints('n p')
        u = z3.Real('u')
        st.assume(and_(p >= 1, p < 2**29, n >= p + 1, n < 2**29))
        up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(sorted_(U))
        st.assume(and_(U[p] <= u, u <= U[n], U[p] < U[n]))
        # the domain is the whole range of the knots, and what is kept is not degenerate
        st.assume(and_(U[0] == U[p], U[n] == U[n + p], U[n] - U[p] > 2 * EPS_))
        G.update(n=n, p=p, u=u, up=up, pp=pp, U0=U.arr(0), P0=[P.arr(8 * c) for c in range(dim)], dim=dim)
        return [p, up, pp, u]
    return f


def kept(ex, st):
    return vec_view(ex, st, G['up'], 8), vec_view(ex, st, G['pp'], 8 * G['dim'])


def unchanged(U, P):
    n, p = G['n'], G['p']
    return [('nothing to trim: sizes', and_(z(U.len) == n + p + 1, z(P.len) == n)), ('nothing to trim: knots', forall(1, lambda i: implies(and_(0 <= i, i <= n + p), U[i] == G['U0'][i])))] + \
           [('nothing to trim: poles %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < n), P.at(i, 8 * c) == G['P0'][c][i]))) for c in range(G['dim'])]


def post_begin(ex, st, r):
    U, P = kept(ex, st)
    n, p, u, U0 = (G[x] for x in ('n', 'p', 'u', 'U0'))
    if not G.get('ins') or u is None or not used(st):
        return [('only at the start of the curve', u - U0[0] < EPS_)] + unchanged(U, P)
    I = G['ins'][-1]
    d = I['k'] - I['s']                 # poles and knots dropped
    tot = n + p + 1 + I['rr']
    return [('still a curve', and_(implies(u < U0[n], z(P.len) >= p + 1), U[z(U.len) - 1] == U0[n + p], U[z(U.len) - 1 - p] == U0[n])), ('knots sorted', sorted_(U)),
            ('number of knots', z(U.len) == tot - d), ('number of poles', z(P.len) == n + I['rr'] - d), ('the first knots are the new bound', forall(1, lambda i: implies(and_(0 <= i, i <= p), U[i] == u))),
            ('the remaining knots are kept', forall(1, lambda i: implies(and_(1 <= i, i < tot - d), U[i] == I['U'][i + d])))] + \
           [('the poles are those after insertion, coordinate %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < n + I['rr'] - d), P.at(i, 8 * c) == I['Q'][c][i + d]))) for c in range(G['dim'])]


def used(st):
    return any(str(G['ins'][-1]['k']) in str(x) for x in st.pc if not z3.is_quantifier(x))


def post_end(ex, st, r):
    U, P = kept(ex, st)
    n, p, u, U0 = (G[x] for x in ('n', 'p', 'u', 'U0'))
    if not G.get('ins') or not used(st):
        return [('only at the end of the curve', U0[n + p] - u < EPS_)] + unchanged(U, P)
    I = G['ins'][-1]
    m = I['k'] - I['s'] + 1             # index of the first knot equal to u: the number of poles kept
    return [('still a curve', and_(implies(u > U0[p], z(P.len) >= p + 1), U[0] == U0[0], U[p] == U0[p])), ('knots sorted', sorted_(U)),
            ('number of knots', z(U.len) == m + p + 1), ('number of poles', z(P.len) == m), ('the last knots are the new bound', forall(1, lambda i: implies(and_(m <= i, i <= m + p), U[i] == u))),
            ('the other knots are kept', forall(1, lambda i: implies(and_(0 <= i, i < m + p), U[i] == I['U'][i])))] + \
           [('the poles are those after insertion, coordinate %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < m), P.at(i, 8 * c) == I['Q'][c][i]))) for c in range(G['dim'])]


def hint(upper, v):
    return [G['ins'][-1]['k'] - G['ins'][-1]['s'] + 1] if G.get('ins') and not upper else []


for nm, e, po, d in (('head of a curve', 'vc_trimb1', post_begin, 1), ('tail of a curve', 'vc_trime1', post_end, 1)):
    PROOFS.append(Proof('trimming the ' + nm, e, setup(d), po, tu=TU, callees=[insert_contract(d)], bound_hints=hint))


# ---- both ends, by the contracts just discharged
def half_contract(dim, begin):
    def apply(ex, st, a):
        p, up, pp, u = z(num(a[0])), a[1], a[2], z(a[3])
        U, P = vec_view(ex, st, up, 8), vec_view(ex, st, pp, 8 * dim)
        n = z(P.len)
        ex.oblige(st, 'pre:trim: sizes', and_(p >= 1, p < 2**29, n >= p + 1, n < 2**29, z(U.len) == n + p + 1))
        ex.oblige(st, 'pre:trim: knots sorted', sorted_(U))
        ex.oblige(st, 'pre:trim: clamped, not degenerate, the new bound inside', and_(U[p] <= u, u <= U[n], U[0] == U[p], U[n] == U[n + p], U[n] - U[p] > 2 * EPS_))
        U0, P0 = U.arr(0), [P.arr(8 * c) for c in range(dim)]
        m = ex.fresh_int('m')
        W, Q = set_vec(ex, st, up, m + p + 1, 8, 'Utrim'), set_vec(ex, st, pp, m, 8 * dim, 'Qtrim')
        st.assume(and_(m >= 1, m < n + p + 1, sorted_(W)))
        near = u - U0[0] < EPS_ if begin else U0[n + p] - u < EPS_
        st.assume(implies(near, and_(m == n, forall(1, lambda i: implies(and_(0 <= i, i <= n + p), W[i] == U0[i]), lambda i: [W[i]]), *[forall(1, lambda i: implies(and_(0 <= i, i < n), Q.at(i, 8 * c) == P0[c][i])) for c in range(dim)])))
        if begin:
            st.assume(implies(z3.Not(near), and_(implies(u < U0[n], m >= p + 1), W[m + p] == U0[n + p], W[m] == U0[n], forall(1, lambda i: implies(and_(0 <= i, i <= p), W[i] == u)))))
        else:
            st.assume(implies(z3.Not(near), and_(implies(u > U0[p], m >= p + 1), W[0] == U0[0], W[p] == U0[p], forall(1, lambda i: implies(and_(m <= i, i <= m + p), W[i] == u)))))
        G['halves'] = G.get('halves', []) + [dict(begin=begin, u=u, m=m, U=W.arr(0), U0=U0, n0=n, P0=P0, Q=[Q.arr(8 * c) for c in range(dim)])]
        return None
    return Contract(r'^(auto|void) gbs::trim_%s<double, %dul>\(' % ('begin' if begin else 'end', dim), apply, 'trim_%s (this property)' % ('begin' if begin else 'end'))


def both_setup(dim, args):
    def f(ex, st):
        G.clear()
        n, p = z3.Ints('n p')
        a, c = z3.Reals('a c')
        st.assume(and_(p >= 1, p < 2**28, n >= p + 1, n < 2**28))
        up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(sorted_(U))
        st.assume(and_(U[0] == U[p], U[n] == U[n + p], *[and_(U[p] <= x, x <= U[n]) for x in (a, c)]))
        st.assume(or_(a - c > 4 * EPS_, c - a > 4 * EPS_))
        G.update(n=n, p=p, a=a, c=c, up=up, pp=pp, U0=U.arr(0), P0=[P.arr(8 * x) for x in range(dim)], dim=dim)
        r = [p, up, pp, a, c]
        if 'b' in args:
            G['b'] = out_buf(ex, st, 16, 'b')
            if 'f' in args:
                r.append(args['f'])
            r.append(G['b'])
        return r
    return f


def both_post(perm=True):
    def f(ex, st, r):
        U, P = kept(ex, st)
        n, p, a, c, U0 = (G[x] for x in ('n', 'p', 'a', 'c', 'U0'))
        lo, hi = z3.If(a <= c, a, c), z3.If(a <= c, c, a)
        g = []
        if 'b' in G:
            b = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(2)]
            g += [('bounds', and_(b[0] == lo, b[1] == hi))]
        if not perm:
            return g + unchanged(U, P)
        h = [x for x in G.get('halves', []) if any(str(x['m']) in str(y) for y in st.pc if not z3.is_quantifier(y))]
        if len(h) < 2:
            return g + [('both ends are trimmed', False)]
        h = h[-2:]
        b_, e_ = [x for x in h if x['begin']][:1], [x for x in h if not x['begin']][:1]
        if not b_ or not e_:
            return g + [('one end each', False)]
        b_, e_ = b_[0], e_[0]
        g += [('the head is cut at the lower bound, the tail at the upper one', and_(b_['u'] == lo, e_['u'] == hi)),
              ('still a curve', and_(z(P.len) >= p + 1, z(U.len) == z(P.len) + p + 1)), ('knots sorted', sorted_(U)),
              ('the domain is the requested one, up to the knot tolerance', and_(U[0] <= lo, lo - U[0] < EPS_, U[z(P.len) + p] >= hi, U[z(P.len) + p] - hi < EPS_, U[0] == U[p], U[z(P.len)] == U[z(P.len) + p]))]
        # nothing happens to the curve besides the two cuts
        first, last = h
        g += [('nothing but the two cuts: knots', forall(1, lambda i: implies(and_(0 <= i, i < z(U.len)), and_(U[i] == last['U'][i])))), ('the first cut is made on the curve', and_(first['n0'] == n, forall(1, lambda i: implies(and_(0 <= i, i <= n + p), first['U0'][i] == U0[i])))),
              ('the second cut is made on the result of the first', and_(last['n0'] == first['m'], forall(1, lambda i: implies(and_(0 <= i, i <= first['m'] + p), last['U0'][i] == first['U'][i]))))]
        for x in range(G['dim']):
            g += [('nothing but the two cuts: coordinate %d' % x, and_(forall(1, lambda i: implies(and_(0 <= i, i < n), first['P0'][x][i] == G['P0'][x][i])), forall(1, lambda i: implies(and_(0 <= i, i < first['m']), last['P0'][x][i] == first['Q'][x][i])),
                    forall(1, lambda i: implies(and_(0 <= i, i < z(P.len)), P.at(i, 8 * x) == last['Q'][x][i]))))]
        return g
    return f


for nm, e, d, args, perm in (('curve, dim 1', 'vc_trim1', 1, {}, True), ('curve, dim 3', 'vc_trim3', 3, {}, True), ('BSCurve', 'vc_ctrim3', 3, {'b': 1, 'f': 1}, True), ('BSCurve, bounds only', 'vc_ctrim3', 3, {'b': 1, 'f': 0}, False), ('BSCurveRational', 'vc_ctrim3r', 4, {'b': 1}, True)):
    PROOFS.append(Proof('trimming a ' + nm, e, both_setup(d, args), both_post(perm), tu=TU, callees=[check_curve_contract(), half_contract(d, True), half_contract(d, False)]))


# ---- why the part kept is unchanged: basis functions do not see the knots that are dropped
def support(ex):
    U = z3.Array('U', z3.IntSort(), z3.RealSort())
    N, M = (z3.Function(x, z3.IntSort(), z3.IntSort(), z3.RealSort()) for x in 'NM')      # (index, degree); M: over the kept knots W
    i, p, d, x, w0 = *z3.Ints('i p d'), *z3.Reals('x w0')
    u = U[d + 1]
    W = lambda j: z3.If(j == 0, u, U[j + d])

    def rec(f, k, j):
        return f(j, p) == DIV(x - k(j), k(j + p) - k(j)) * f(j, p - 1) + DIV(k(j + p + 1) - x, k(j + p + 1) - k(j + 1)) * f(j + 1, p - 1)
    K = lambda j: U[j]
    yield 'left of x: degree 0', [U[i + 1] <= x], z3.Not(and_(U[i] <= x, x < U[i + 1]))
    yield 'left of x: a function whose knots are all at or before x vanishes, degree step', [p >= 1, rec(N, K, i), N(i, p - 1) == 0, N(i + 1, p - 1) == 0], N(i, p) == 0
    yield 'right of x: degree 0', [U[i] > x], z3.Not(and_(U[i] <= x, x < U[i + 1]))
    yield 'functions over the kept knots, degree step away from the first knot', [p >= 1, i >= 1, rec(N, K, i + d), rec(M, W, i), M(i, p - 1) == N(i + d, p - 1), M(i + 1, p - 1) == N(i + d + 1, p - 1)], M(i, p) == N(i + d, p)
    # the first knot only enters with the function of lower degree over the p knots equal to u, which vanishes from u on
    yield 'functions over the kept knots, degree step at the first knot', [p >= 1, rec(N, K, d), rec(M, W, z3.IntVal(0)), N(d, p - 1) == 0, M(0, p - 1) == 0, M(1, p - 1) == N(d + 1, p - 1)], M(0, p) == N(d, p)
    yield 'functions over the kept knots, degree 0', [i >= 1], and_(W(i) <= x, x < W(i + 1)) == and_(U[i + d] <= x, x < U[i + d + 1])


PROOFS.append(Lemma('basis functions over the kept knots', support, tu=TU))


# ---- surfaces: every row of poles is trimmed as a curve
from .rows import *


def trim_pre(s, U):
    n, p = s.n, s.d
    return and_(U[0] == U[p], U[n] == U[n + p], *[and_(U[p] <= x, x <= U[n]) for x in (s.a, s.c)], or_(s.a - s.c > 4 * EPS_, s.c - s.a > 4 * EPS_))


def surface_proofs():
    for nm, e, d, rat in (('surface', 'vc_sop', 3, 'false'), ('rational surface', 'vc_sopr', 4, 'true')):
        for along in (0, 1):
            R = Rows(d, along)
            tc = R.op_contract(r'^(auto|void) gbs::trim<double, %dul>\(' % d, 'trim (this property)', lambda a: (a[0], a[1], a[2], a[3:5]), lambda s: (s.a, s.c), pre=trim_pre,
                               facts=lambda s, along=along: ends(s))       # 'the domain is the requested one' above
            ends = lambda s: and_(s.W[0] <= lo(s), lo(s) - s.W[0] < EPS_, s.W[s.M + s.d] >= hi(s), s.W[s.M + s.d] - hi(s) < EPS_)
            lo, hi = (lambda s: z3.If(s.a <= s.c, s.a, s.c)), (lambda s: z3.If(s.a <= s.c, s.c, s.a))
            bnd = (lambda s: (s.ku[0], s.ku[s.nu + s.p], (lo(s), EPS_), (hi(s), EPS_))) if along else (lambda s: ((lo(s), EPS_), (hi(s), EPS_), s.kv[0], s.kv[s.nv + s.q]))
            yield Proof('trimming a %s along %s' % (nm, 'UV'[along]), e, R.setup(args_sop(6 if along else 5), trim_pre), R.post(bnd), tu=TU, callees=[check_curve_contract(), tc, R.inverted()],
                        loops={r'gbs::BSSurfaceGeneral<double, 3ul, %s>::trimU\(double, double\)$' % rat: {0: LoopSpec(R.inv('j', 'new_poles', 'new_knotsUFlats', extra=lambda L, j, R=R, ends=ends: [('ends', implies(j > 0, ends(R)))]), lambda L, R=R: R.m - z(L.int('j')))}})


PROOFS += list(surface_proofs())
PROOFS.append(Lemma('grid index', grid_index, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random curves and surfaces, plain and rational (degree 1-6, repeated knots, domains away from 0), cut at knots, between knots and at the ends, bounds in either order; the part kept is compared with the original at degree+1 points of every span by exact rational evaluation'

    def cases(self, rng, tier):
        N = {'quick': 300, 'thorough': 4000, 'search': 2000}[tier]

        def pair(k, p):
            for _ in range(50):
                a, b = pick_u(rng, k, p, ulp=False), pick_u(rng, k, p, ulp=False)
                if abs(a - b) > (k[-1] - k[0]) / 4096:
                    break
            else:
                a, b = k[0], k[-1]
            return fl(a), fl(b)
        for it in range(N):
            p, k, n = curve_knots(rng)
            sh = F(rng.randrange(-64, 64), 4)
            k = [x + sh for x in k]
            P = O.pts(rng, n, 3)
            a, b = pair(k, p)
            yield 'curve', (p, fl(k), fl(P), fl(posw(rng, O.pts(rng, n, 3))), a, b)
            if it % 2 == 0:
                p, q, ku, kv, nu, nv = surf_case(rng, 3, 3)
                d = rng.choice([0, 1])
                a, b = pair(kv if d else ku, q if d else p)
                P = O.pts(rng, nu * nv, 3)
                r = rng.random() < 0.4
                yield 'surface', (p, q, fl(ku), fl(kv), fl(posw(rng, P) if r else P), r, d, a, b)

    def kept(self, f, p, k, D, k1, Q, a, b, ratl, dim):
        lo, hi = min(a, b), max(a, b)
        w = [lo] * (p + 1) + [x for x in k if lo < x < hi] + [hi] * (p + 1)
        close_list(self, k1, w, f + ': knots')
        if len(Q) != len(w) - p - 1:
            self.fail('%s: %d poles, expected %d' % (f, len(Q), len(w) - p - 1))
        skip = {F(x) for x in k if k.count(x) > p}
        same_curve(self, (p, ex_(k), ex_(D)), (p, exl(k1), exp_(Q, dim)), f, ratl=(ratl, ratl), skip=skip)

    def run(self, lib, g, c):
        call = lambda f, *a: self.ok(lib.call(f, list(a)), f).out
        if g == 'curve':
            p, k, P, H, a, b = c
            lo, hi = min(a, b), max(a, b)
            P1 = [x[0] for x in P]
            o = call('vc_trim1', p, Vec(k), Vec(P1), a, b)
            self.kept('trim, dim 1', p, k, [[x] for x in P1], o[1], o[2], a, b, False, 1)
            o = call('vc_trim3', p, Vec(k), Vec(P, 3), a, b)
            self.kept('trim', p, k, P, o[1], o[2], a, b, False, 3)
            for f, u, A, B in (('vc_trimb1', lo, lo, k[-1]), ('vc_trime1', hi, k[0], hi)):
                o = call(f, p, Vec(k), Vec(P1), u)
                self.kept(f, p, k, [[x] for x in P1], o[1], o[2], A, B, False, 1)
            o = call('vc_ctrim3', p, Vec(k), Vec(P, 3), a, b, 1, Out(2))
            self.kept('BSCurve::trim', p, k, P, o[1], o[2], a, b, False, 3)
            close_list(self, o[6], [lo, hi], 'bounds of the trimmed curve')
            o = call('vc_ctrim3', p, Vec(k), Vec(P, 3), a, b, 0, Out(2))
            close_list(self, o[6], [lo, hi], 'bounds of the restricted curve')
            if list(o[1]) != k or [list(x) for x in o[2]] != P:
                self.fail('restricting the bounds changed the curve')
            o = call('vc_ctrim3r', p, Vec(k), Vec(H, 4), a, b, Out(2))
            self.kept('BSCurveRational::trim', p, k, H, o[1], o[2], a, b, True, 4)
            close_list(self, o[5], [lo, hi], 'bounds of the trimmed rational curve')
        else:
            p, q, ku, kv, P, r, d, a, b = c
            lo, hi = min(a, b), max(a, b)
            nm = ('rational ' if r else '') + 'surface trimmed along ' + 'UV'[d]
            o = call('vc_sopr' if r else 'vc_sop', Vec(P, 4 if r else 3), Vec(ku), Vec(kv), p, q, 6 if d else 5, a, b, Out(4))
            cut = lambda k, p: [lo] * (p + 1) + [x for x in k if lo < x < hi] + [hi] * (p + 1)
            wu, wv = (ku, cut(kv, q)) if d else (cut(ku, p), kv)
            close_list(self, o[1], wu, nm + ': knots U')
            close_list(self, o[2], wv, nm + ': knots V')
            if (o[3], o[4]) != (p, q) or len(o[0]) != (len(wu) - p - 1) * (len(wv) - q - 1):
                self.fail(nm + ': degrees or number of poles')
            close_list(self, o[8], [wu[0], wu[-1], wv[0], wv[-1]], nm + ': bounds')
            same_surface(self, (p, q, ex_(ku), ex_(kv), ex_(P)), (p, q, exl(o[1]), exl(o[2]), exl(o[0])), nm, ratl=(r, r))


SUITE = S_()
