"""C18: joining and unifying curves"""
from .common import *
from .callees import num, check_curve_contract
LEVEL = 'proof'
TU = 'join.cpp'
G = {}
PROOFS = []


# ---- compiled code
def elev(k, t):
    ks, ms = unflat(k)
    return [x for x, m in zip(ks, ms) for _ in range(m + t)]


class S_(Suite):
    tu = TU
    rule = ('random clamped curves of degree 1-4 with simple and repeated interior knots on different domains, joined (plain with plain, rational with rational and mixed; ends meeting or not) and unified in lists of 1 to 4 '
            '(degrees, then knots): the results are compared with the originals at degree+1 points of every span')

    def curve(self, rng, sc=1):
        while True:
            p = rng.choice([1, 2, 2, 3, 3, 4])
            k = O.knots(rng, p, rng.choice([1, 2, 2, 3, 4]), rng.choice(['int', 'uniform', 'unit']))
            ks, ms = unflat(k)
            if max(ms[1:-1] + [0]) <= p:
                break
        # dyadic knots on a domain of power-of-two length: rescaling is exact
        g = sorted(rng.sample(range(1, 16), len(ks) - 2))
        v = [F(0)] + [F(x, 16) for x in g] + [F(1)]
        L, s = F(rng.choice([F(1, 2), 1, 2, 4])), F(rng.randrange(-16, 16), 4)
        k = [s + L * x for x, m in zip(v, ms) for _ in range(m)]
        n = len(k) - p - 1
        return p, k, n

    def cases(self, rng, tier):
        N = {'quick': 160, 'thorough': 2500, 'search': 1200}[tier]
        for it in range(N):
            (p, k, n), (q, h, m) = self.curve(rng), self.curve(rng)
            if rng.random() < 0.3:
                q, h, m = p, k, n
            A, B = O.pts(rng, n, 3), O.pts(rng, m, 3)
            if rng.random() < 0.6:
                B[0] = list(A[-1])
            yield 'join', (p, fl(k), fl(A), fl(posw(rng, A)), q, fl(h), fl(B), fl(posw(rng, B)))
            if it % 2 == 0:
                L = []
                for i in range(rng.choice([1, 2, 2, 3, 4])):
                    p, k, n = self.curve(rng) if not L or rng.random() < 0.8 else L[0][:2] + (len(L[0][2]),)
                    L.append((p, k, O.pts(rng, n, 3)))
                yield 'unify', ([x[0] for x in L], [fl(x[1]) for x in L], [fl(x[2]) for x in L])
            if it % 4 == 0:
                p, k, n = self.curve(rng)
                yield 'extend', (p, fl(k), fl(O.pts(rng, n, 3)), fl(O.pts(rng, 1, 3)[0]), rng.choice([0, 1]), rng.choice([0, 1]), fl(O.pts(rng, n, 2)), float(rng.randrange(-8, 8)) / 4)

    def joined(self, f, o, c1, c2, r1, r2):
        (p, k, A), (q, h, B) = c1, c2
        t = max(p, q)
        if o.ret != t:
            self.fail('%s: degree %d joining degrees %d and %d' % (f, o.ret, p, q))
        C, kc, b = o.out[6], o.out[7], o.out[8]
        k1, k2 = elev(ex_(k), t - p), elev(ex_(h), t - q)
        s = k1[-1] - k2[0]
        close_list(self, kc, [float(x) for x in k1[:-1] + [x + s for x in k2[t + 1:]]], f + ': knots')
        close_list(self, b, [float(k1[0]), float(k2[-1] + s)], f + ': bounds')
        ra = r1 or r2
        pj = lambda X, r: [x / X[-1] for x in X[:-1]] if r else list(X)
        A, B, Q = ex_(A), ex_(B), (p, ex_(k), ex_(A))
        K, P = exl(kc), exp_(C, 4 if ra else 3)
        e1, e2 = pj(A[-1], r1), pj(B[0], r2)
        mid = [(x + y) / 2 for x, y in zip(e1, e2)]
        a = k1[-1]
        got, _ = ev(a, t, K, P, ra)
        close_list(self, [float(x) for x in got], [float(x) for x in mid], f + ': the point where the curves meet')
        meet = max(abs(x - y) for x, y in zip(e1, e2)) < F(1, 10**9)
        if meet or (p == q and not ra):
            if not meet:
                A, B = A[:-1] + [mid], [mid] + B[1:]
            same_curve(self, (p, ex_(k), A), (t, K, P), f + ': first curve', ratl=(r1, ra), rel=1e-7, ab=1e-9, hi=a)
            same_curve(self, (q, ex_(h), B), (t, K, P), f + ': second curve', f=lambda x: x - s, ratl=(r2, ra), rel=1e-7, ab=1e-9, lo=a)

    def unflatten(self, o):
        P, k, np_, nk, deg = [o[i] for i in range(5)]
        L, a, b = [], 0, 0
        for i in range(len(np_)):
            L.append((int(deg[i]), exl(k[b:b + int(nk[i])]), exp_(P[a:a + int(np_[i])], 3)))
            a, b = a + int(np_[i]), b + int(nk[i])
        return L

    def run(self, lib, g, c):
        if g == 'join':
            p, k, A, HA, q, h, B, HB = c
            for f, X, r1, Y, r2 in (('vc_join3', A, 0, B, 0), ('vc_join3rr', HA, 1, HB, 1), ('vc_join3pr', A, 0, HB, 1), ('vc_join3rp', HA, 1, B, 0)):
                o = self.ok(lib.call(f, [Vec(X, 3 + r1), Vec(k), p, Vec(Y, 3 + r2), Vec(h), q, Vec([], 4 if r1 or r2 else 3), Vec([]), Out(2)], 'q'))
                self.joined(f, o, (p, k, X), (q, h, Y), bool(r1), bool(r2))
        elif g == 'unify':
            dg, ks, Ps = c
            cat = lambda L: [x for y in L for x in y]
            arg = lambda D, K, Q: [Vec(cat(Q), 3), Vec(cat(K)), Vec([len(x) for x in Q], 1, 'Q'), Vec([len(x) for x in K], 1, 'Q'), Vec(D, 1, 'Q')]
            m = max(dg)
            R = self.unflatten(self.ok(lib.call('vc_unideg3', arg(dg, ks, Ps))).out)
            self.count('unify_degree', R, dg)
            for i, (d, k, Q) in enumerate(R):
                if d != m:
                    self.fail('unify_degree: curve %d has degree %d, the highest is %d' % (i, d, m))
                close_list(self, fl(k), fl(elev(ex_(ks[i]), m - dg[i])), 'unify_degree: knots of curve %d' % i)
                same_curve(self, (dg[i], ex_(ks[i]), ex_(Ps[i])), (d, k, Q), 'unify_degree: curve %d' % i, rel=1e-7, ab=1e-9)
            self.knots('unify_knots', R, self.unflatten(self.ok(lib.call('vc_unikn3', arg([x[0] for x in R], [fl(x[1]) for x in R], [fl(x[2]) for x in R]))).out))
            self.knots('unified curves', R, self.unflatten(self.ok(lib.call('vc_unified3', arg(dg, ks, Ps))).out))
        else:
            p, k, P, pt, end, nat, P2, v = c
            o = self.ok(lib.call('vc_extp', [Vec(P, 3), Vec(k), p, pt, end, nat, Vec([], 3), Vec([])], 'q')) if p > 1 else None
            if o:
                K, Q = exl(o.out[7]), exp_(o.out[6], 3)
                e = ex_(k)
                same_curve(self, (p, e, ex_(P)), (o.ret, K, Q), 'extended curve, original part', rel=1e-6, ab=1e-7, lo=e[0], hi=e[-1])
                x, _ = ev(K[-1] if end else K[0], o.ret, K, Q, False)
                close_list(self, [float(y) for y in x], pt, 'end of the extended curve', 1e-6)
            o = self.ok(lib.call('vc_adddim', [Vec(P2, 2), Vec(k), p, v, Vec([], 3), Vec([])])).out
            if [list(x) for x in o[4]] != [list(x) + [v] for x in P2] or list(o[5]) != list(k):
                self.fail('curve with one more coordinate')

    def count(self, f, R, L):
        if len(R) != len(L):
            self.fail('%s: %d curves from %d' % (f, len(R), len(L)))

    def knots(self, f, R, U):
        self.count(f, U, R)
        p, k0, _ = R[0]
        a, b = k0[0], k0[-1]
        mult = {}
        for d, k, Q in R:
            for x, m in zip(*unflat(k)):
                y = a + (b - a) * (x - k[0]) / (k[-1] - k[0])
                mult[y] = max(mult.get(y, 0), m)
        want = [y for y in sorted(mult) for _ in range(mult[y])]
        for i, ((d, k, Q), (d1, k1, Q1)) in enumerate(zip(R, U)):
            close_list(self, fl(k1), fl(want), '%s: knots of curve %d' % (f, i))
            if d1 != d or len(Q1) != len(k1) - d - 1:
                self.fail('%s: curve %d has degree %d, %d poles, %d knots' % (f, i, d1, len(Q1), len(k1)))
            same_curve(self, (d, k, Q), (d1, k1, Q1), '%s: curve %d' % (f, i), f=lambda x: k[0] + (k[-1] - k[0]) * (x - a) / (b - a), rel=1e-7, ab=1e-9)


# ---- join: both curves brought to the highest degree (C08), the second appended to the first
def elevated(dim):
    """increase_degree by its contract: a clamped curve over the same domain, with the poles and knots C08 speaks of"""
    def apply(ex, st, a):
        kp, pp, d, t = a[0], a[1], z(num(a[2])), z(num(a[3]))
        c = st.ghost.get('elevated', 0)
        st.ghost['elevated'] = c + 1
        ex.oblige(st, 'pre:increase_degree: once per curve', c < 2)
        c = min(c, 1)
        n, p, U0, P0, M, W, Q = G['cur'][c]
        U, P = vec_view(ex, st, kp, 8), vec_view(ex, st, pp, 8 * dim)
        ex.oblige(st, 'pre:increase_degree: degree and sizes, curve %d' % (c + 1), and_(d == p, z(P.len) == n, z(U.len) == n + p + 1))
        ex.oblige(st, 'pre:increase_degree: up to the highest degree, curve %d' % (c + 1), d + t == G['pm'])
        ex.oblige(st, 'pre:increase_degree: the knots are those of curve %d' % (c + 1), forall(1, lambda i: implies(and_(0 <= i, i <= n + p), U[i] == U0[i])))
        for x in range(dim):
            ex.oblige(st, 'pre:increase_degree: the poles are those of curve %d, coordinate %d' % (c + 1, x), forall(1, lambda i: implies(and_(0 <= i, i < n), P.at(i, 8 * x) == P0[x][i])))
        w = set_vec(ex, st, kp, M + G['pm'] + 1, 8, 'W')
        q = set_vec(ex, st, pp, M, 8 * dim, 'Q')
        st.assume(forall(1, lambda i: implies(and_(0 <= i, i <= M + G['pm']), w[i] == W[i]), lambda i: [w[i]]))
        for x in range(dim):
            st.assume(forall(1, lambda i: implies(and_(0 <= i, i < M), q.at(i, 8 * x) == Q[x][i]), lambda i: [q.at(i, 8 * x)]))
        return None
    return Contract(r'^(auto|void) gbs::increase_degree<double, %dul>\(' % dim, apply, 'increase_degree (C08)')


def setup_join(d1, d2):
    dim = max(d1, d2)

    def f(ex, st):
        G.clear()
        n, p, m, q, M1, M2, pm = z3.Ints('n p m q M1 M2 pm')
        st.assume(and_(p >= 1, p < 2**28, n >= p + 1, n < 2**28, q >= 1, q < 2**28, m >= q + 1, m < 2**28, pm == z3.If(p > q, p, q), M1 >= pm + 1, M2 >= pm + 1, M1 < 2**30, M2 < 2**30))
        ap, A = mk_vec(ex, st, n, 8 * d1, 'A')
        kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
        bp, B = mk_vec(ex, st, m, 8 * d2, 'B')
        hp, h = mk_vec(ex, st, m + q + 1, 8, 'h')
        st.assume(and_(sorted_(k), sorted_(h)))
        cp, _ = mk_vec(ex, st, 0, 8 * dim, 'C')
        kc, _ = mk_vec(ex, st, 0, 8, 'kc')
        b = out_buf(ex, st, 16, 'b')
        one = z3.K(z3.IntSort(), z3.RealVal(1))
        A0 = [A.arr(8 * c) for c in range(d1)] + [one] * (dim - d1)
        B0 = [B.arr(8 * c) for c in range(d2)] + [one] * (dim - d2)
        W = [z3.Array('W%d' % i, z3.IntSort(), z3.RealSort()) for i in (1, 2)]
        Q = [[z3.Array('Q%d_%d' % (i, c), z3.IntSort(), z3.RealSort()) for c in range(dim)] for i in (1, 2)]
        x = z3.Int('x')
        for w, M, u0, u1 in ((W[0], M1, k[0], k[n + p]), (W[1], M2, h[0], h[m + q])):
            st.assume(z3.ForAll([x], and_(implies(and_(0 <= x, x <= pm), w[x] == u0), implies(and_(M <= x, x <= M + pm), w[x] == u1)), patterns=[w[x]]))
            y = z3.Int('y')
            st.assume(z3.ForAll([x, y], implies(and_(0 <= x, x <= y, y <= M + pm), w[x] <= w[y]), patterns=[z3.MultiPattern(w[x], w[y])]))
        if dim == 4:
            st.assume(and_(Q[0][3][M1 - 1] > 0, Q[1][3][0] > 0))
        G.update(n=n, p=p, m=m, q=q, pm=pm, M=(M1, M2), W=W, Q=Q, cp=cp, kc=kc, b=b, dim=dim, any=z3.Int('any_i'), ends=(k[0], k[n + p], h[0], h[m + q]),
                 cur=[(n, p, k.arr(), A0, M1, W[0], Q[0]), (m, q, h.arr(), B0, M2, W[1], Q[1])])
        return [ap, kp, p, bp, hp, q, cp, kc, b]
    return f


def post_join(ex, st, r):
    M1, M2 = G['M']
    (W1, W2), (Q1, Q2), pm, i, dim = G['W'], G['Q'], G['pm'], G['any'], G['dim']
    C, k = vec_view(ex, st, G['cp'], 8 * dim), vec_view(ex, st, G['kc'], 8)
    b = [z(ex.load(st, DBL, G['b'].at(8 * x))) for x in range(2)]
    s = W1[M1 + pm] - W2[0]
    g = [('degree', z(num(r)) == pm), ('number of poles', z(C.len) == M1 + M2 - 1), ('number of knots', z(k.len) == M1 + M2 + pm),
         ('the knots in the spans of the first curve', implies(and_(0 <= i, i < M1 + pm), k[i] == W1[i])),
         ('the knots in the spans of the second curve', implies(and_(1 <= i, i <= M2 + pm), k[M1 - 1 + i] == W2[i] + s)),
         ('the domain is that of the first then that of the second', and_(b[0] == G['ends'][0], b[1] == G['ends'][1] + G['ends'][3] - G['ends'][2]))]
    if dim == 3:
        for c in range(3):
            g += [('poles of the first curve, coordinate %d' % c, implies(and_(0 <= i, i < M1 - 1), C.at(i, 8 * c) == Q1[c][i])),
                  ('poles of the second curve, coordinate %d' % c, implies(and_(1 <= i, i < M2), C.at(M1 - 1 + i, 8 * c) == Q2[c][i])),
                  ('the middle of the ends, coordinate %d' % c, 2 * C.at(M1 - 1, 8 * c) == Q1[c][M1 - 1] + Q2[c][0])]
    else:
        w1, w2 = Q1[3][M1 - 1], Q2[3][0]
        for c in range(4):
            g += [('poles of the first curve up to a common factor, coordinate %d' % c, implies(and_(0 <= i, i < M1 - 1), C.at(i, 8 * c) * w1 == Q1[c][i])),
                  ('poles of the second curve up to a common factor, coordinate %d' % c, implies(and_(1 <= i, i < M2), C.at(M1 - 1 + i, 8 * c) * w2 == Q2[c][i]))]
        g.append(('weight of the common pole', C.at(M1 - 1, 24) == 1))
        for c in range(3):
            g.append(('the middle of the ends, coordinate %d' % c, 2 * C.at(M1 - 1, 8 * c) * w1 * w2 == Q1[c][M1 - 1] * w2 + Q2[c][0] * w1))
    return g


for nm, e, d1, d2 in (('plain curves', 'vc_join3', 3, 3), ('rational curves', 'vc_join3rr', 4, 4), ('a plain and a rational curve', 'vc_join3pr', 3, 4), ('a rational and a plain curve', 'vc_join3rp', 4, 3)):
    PROOFS.append(Proof('join, ' + nm, e, setup_join(d1, d2), post_join, tu=TU, callees=[check_curve_contract(), elevated(max(d1, d2))]))


# ---- unify_knots: one curve gets the knots of another.  The flat knots of the curve are touched by insert_knots only; here
# they are represented by the number of times each value of the other list occurs (entry j: value j of that list)
EPS_ = z3.Q(100, 2**52)
LST, PI_, IDX = z3.Function('LST', z3.IntSort(), z3.BoolSort()), z3.Function('PI', z3.IntSort(), z3.IntSort()), z3.Function('IDX', z3.RealSort(), z3.IntSort())


def setup_uk(ex, st):
    G.clear()
    n, p, no, ni = z3.Ints('n p no ni')
    ko, KO = mk_vec(ex, st, no, 16, 'ko', kinds={8: 'int'})
    ki, KI = mk_vec(ex, st, ni, 16, 'ki', kinds={8: 'int'})
    up, U = mk_vec(ex, st, ni, 8, 'cnt')
    pp, P = mk_vec(ex, st, n, 8, 'P')
    j, x, y = z3.Ints('j x y')
    st.assume(and_(p >= 1, p < 2**28, n >= p + 1, n < 2**28, no >= 1, no < 2**28, ni >= 1, ni < 2**28))
    K, M, C0, O_ = KI.arr(0), KI.arr(8), U.arr(0), KO.arr(0)
    OM = KO.arr(8)
    st.assume(z3.ForAll([x, y], implies(and_(0 <= x, x < y, y < no), O_[x] < O_[y]), patterns=[z3.MultiPattern(O_[x], O_[y])]))
    st.assume(z3.ForAll([x, y], implies(and_(0 <= x, x < y, y < ni), K[y] - K[x] >= EPS_), patterns=[z3.MultiPattern(K[x], K[y])]))
    # values of the two lists closer than the knot tolerance are the same value
    st.assume(z3.ForAll([x, j], implies(and_(0 <= x, x < no, 0 <= j, j < ni, O_[x] - K[j] < EPS_, K[j] - O_[x] < EPS_), O_[x] == K[j]), patterns=[z3.MultiPattern(O_[x], K[j])]))
    # LST(j): value j occurs in the curve, at place PI(j) of its list
    st.assume(z3.ForAll([x, j], implies(and_(0 <= x, x < no, 0 <= j, j < ni, O_[x] == K[j]), LST(j)), patterns=[z3.MultiPattern(O_[x], K[j])]))
    st.assume(z3.ForAll([j], and_(implies(and_(0 <= j, j < ni, LST(j)), and_(0 <= PI_(j), PI_(j) < no, O_[PI_(j)] == K[j])), implies(and_(0 <= j, j < ni), IDX(K[j]) == j)), patterns=[K[j]]))
    # the list of the curve is that of its knots; no interior multiplicity above the degree
    st.assume(z3.ForAll([j], implies(and_(0 <= j, j < ni), and_(C0[j] >= 0, M[j] >= 1, z3.If(LST(j), C0[j] == z3.ToReal(OM[PI_(j)]), C0[j] == 0), or_(M[j] <= p, z3.ToReal(M[j]) <= C0[j]))), patterns=[K[j]]))
    G.update(p=p, no=no, ni=ni, K=K, M=M, C0=C0, O=O_, OM=OM, ko=ko, up=up)
    return [ko, up, pp, p, ki]


def ins_contract():
    def apply(ex, st, a):
        u, d, r = z(a[0]), z(num(a[1])), z(num(a[2]))
        U = vec_view(ex, st, a[3], 8)
        j = IDX(u)
        ex.oblige(st, 'pre:insert_knots: a value of the other list', and_(0 <= j, j < G['ni'], G['K'][j] == u))
        ex.oblige(st, 'pre:insert_knots: at least once, and not beyond the degree', and_(d == G['p'], r >= 1, z3.ToReal(r) + U[j] <= z3.ToReal(G['p'])))
        W = set_vec(ex, st, a[3], G['ni'], 8, 'cnt')
        A, B = U.arr(0), W.arr(0)
        x = z3.Int('x')
        st.assume(z3.ForAll([x], B[x] == z3.If(x == j, A[x] + z3.ToReal(r), A[x]), patterns=[B[x]]))
        st.assume(B[j] == A[j] + z3.ToReal(r))
        return ex.fresh_int('ins')
    return Contract(r'^auto gbs::insert_knots<double, 1ul>\(', apply, 'insert_knots (C06)')


def state(L):
    KO, U = L.vec('km_out', 16), L.vec('k_out', 8)
    K, M, C0, no, ni = (G[x] for x in ('K', 'M', 'C0', 'no', 'ni'))
    return KO, U, K, M, C0, no, ni


def inv_uk(L):
    KO, U, K, M, C0, no, ni = state(L)
    b = ex_idx(L, '__begin0', 16)
    return facts_uk(KO, U, b)


def ex_idx(L, name, R):
    p = L.ptr(name)
    e = p.off
    return simp_(L, e, R)


def simp_(L, e, R):
    from gbsv.vals import Lin
    q = Lin.of(e).div(R).norm()
    return z(q.expr() if isinstance(q, Lin) else q)


def facts_uk(KO, U, i):
    K, M, C0, no, ni = (G[x] for x in ('K', 'M', 'C0', 'no', 'ni'))
    n1 = z(KO.len)
    k, m = (lambda x: KO.at(x, 0)), (lambda x: KO.at(x, 8))
    d = n1 - no
    return [('i', and_(0 <= i, i <= ni, d >= 0, d <= i)), ('counts', z(U.len) == ni),
            ('list sorted', forall(2, lambda a, b: implies(and_(0 <= a, a < b, b < n1), k(a) < k(b)), lambda a, b: [z3.MultiPattern(k(a), k(b))])),
            ('close values are equal', forall(2, lambda x, j: implies(and_(0 <= x, x < n1, i <= j, j < ni, k(x) - K[j] < EPS_, K[j] - k(x) < EPS_), k(x) == K[j]), lambda x, j: [z3.MultiPattern(k(x), K[j])])),
            ('values to come are listed only if they were', forall(2, lambda x, j: implies(and_(0 <= x, x < n1, i <= j, j < ni, k(x) == K[j]), LST(j)), lambda x, j: [z3.MultiPattern(k(x), K[j])])),
            ('where they are', forall(1, lambda j: implies(and_(i <= j, j < ni, LST(j)), and_(k(PI_(j) + d) == K[j], m(PI_(j) + d) == G['OM'][PI_(j)])), lambda j: [K[j]])),
            ('values done', forall(1, lambda j: implies(and_(0 <= j, j < i), U[j] == z3.If(z3.ToReal(M[j]) > C0[j], z3.ToReal(M[j]), C0[j])), lambda j: [U[j]])),
            ('values to come', forall(1, lambda j: implies(and_(i <= j, j < ni), U[j] == C0[j]), lambda j: [U[j]])),
            ('multiplicities listed are those of the curve', forall(2, lambda x, j: implies(and_(0 <= x, x < n1, 0 <= j, j < i, k(x) == K[j]), z3.ToReal(m(x)) == U[j]), lambda x, j: [z3.MultiPattern(k(x), K[j])]))]


def inv_find(L):
    """the search stops at the first entry close to the value"""
    p = L.ptr('__first')
    i, KO = simp_(L, p.off, 16), vec_view(L.ex, L.st, G['ko'], 16)
    u = L.ex.load(L.st, DBL, L.addr('__pred'))
    return [('place', and_(0 <= i, i <= z(KO.len))), ('none before', forall(1, lambda x: implies(and_(0 <= x, x < i), or_(KO.at(x, 0) - z(u) >= EPS_, z(u) - KO.at(x, 0) >= EPS_)), lambda x: [KO.at(x, 0)]))]


def inv_lb(L):
    KO = vec_view(L.ex, L.st, G['ko'], 16)
    f, l, u = simp_(L, L.ptr('__first').off, 16), z(L.int('__len')), z(L.ex.load(L.st, DBL, L.ptr('__val')))
    n = z(KO.len)
    return [('range', and_(0 <= f, 0 <= l, f + l <= n)), ('before', forall(1, lambda x: implies(and_(0 <= x, x < f), KO.at(x, 0) < u), lambda x: [KO.at(x, 0)])),
            ('after', forall(1, lambda x: implies(and_(f + l <= x, x < n), KO.at(x, 0) >= u), lambda x: [KO.at(x, 0)]))]


def post_uk(ex, st, r):
    KO, U = vec_view(ex, st, G['ko'], 16), vec_view(ex, st, G['up'], 8)
    return facts_uk(KO, U, G['ni'])[2:]


PROOFS.append(Proof('unify_knots, one curve', 'vc_unikn1', setup_uk, post_uk, tu=TU, callees=[ins_contract()],
                    loops={r'^_ZN3gbs11unify_knotsITkSt14floating_pointdLm1EEEvRSt6vectorISt4pair': {0: LoopSpec(inv_uk, lambda L: G['ni'] - ex_idx(L, '__begin0', 16))},
                           r'^_ZNKSt6ranges12__find_if_fnclITkSt14input_iterator': {0: LoopSpec(inv_find, lambda L: z(vec_view(L.ex, L.st, G['ko'], 16).len) - simp_(L, L.ptr('__first').off, 16))},
                           r'^_ZSt13__lower_boundIN9__gnu_cxx17__normal_iteratorIPSt4pair': {0: LoopSpec(inv_lb, lambda L: z(L.int('__len')))}}))

SUITE = S_()
