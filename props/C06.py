from .common import *
from .callees import num
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
I, R = z3.IntSort(), z3.RealSort()
# GB_c(a,j): control points of stage j of knot insertion (blossom values with u inserted j times), coordinate c
GB = [z3.Function('GB%d' % c, I, I, R) for c in range(3)]


def AL(U, u, p, a, j):
    return DIV(u - U[a], U[a + p - j + 1] - U[a])


def setup(dim):
    def f(ex, st):
        n, p, r, k, s = z3.Ints('n p r k s')
        u = z3.Real('u')
        up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(and_(p >= 1, p < 2**30, n >= p + 1, n < 2**30, r >= 0, r < 2**30))
        st.assume(sorted_(U))
        # u lies in the domain; k is the last knot not above u, s the number of knots equal to u (their definition)
        st.assume(and_(U[p] <= u, u <= U[n]))
        st.assume(and_(0 <= k, k <= n + p, U[k] <= u, implies(k < n + p, u < U[k + 1])))
        st.assume(and_(0 <= s, s <= k + 1, forall(1, lambda x: implies(and_(k - s < x, x <= k), U[x] == u), lambda x: [U[x]]), implies(k - s >= 0, U[k - s] < u)))
        rr = z3.If(s >= p, z3.IntVal(0), z3.If(r < p - s, r, p - s))
        st.assume(and_(k >= p, k - s <= n - 1))    # consequences, proved in the lemma 'knot position'
        G.update(n=n, p=p, r=r, k=k, s=s, u=u, up=up, pp=pp, U0=U.arr(0), P0=[P.arr(8 * c) for c in range(dim)], dim=dim, rr=rr)
        a, j = z3.Ints('a j')
        U0 = U.arr(0)
        for c in range(dim):
            st.assume(z3.ForAll([a], GB[c](a, 0) == G['P0'][c][a], patterns=[GB[c](a, 0)]))
            st.assume(z3.ForAll([a, j], implies(and_(j >= 1, j <= rr, k - p + j <= a, a <= k - s),
                      GB[c](a, j) == AL(U0, u, p, a, j) * GB[c](a, j - 1) + (1 - AL(U0, u, p, a, j)) * GB[c](a - 1, j - 1)), patterns=[GB[c](a, j)]))
        return [u, p, r, up, pp]
    return f


def post(ex, st, ret):
    n, p, k, s, u, rr, dim = (G[x] for x in ('n', 'p', 'k', 's', 'u', 'rr', 'dim'))
    U, Q = vec_view(ex, st, G['up'], 8), vec_view(ex, st, G['pp'], 8 * dim)
    U0, P0 = G['U0'], G['P0']
    g = [('number of knots', z(U.len) == n + p + 1 + rr), ('number of poles', z(Q.len) == n + rr),
         ('knots below are kept', forall(1, lambda i: implies(and_(0 <= i, i <= k), U[i] == U0[i]))),
         ('the knot appears r more times', forall(1, lambda i: implies(and_(k < i, i <= k + rr), U[i] == u))),
         ('knots above are kept', forall(1, lambda i: implies(and_(k + rr < i, i < n + p + 1 + rr), U[i] == U0[i - rr]))),
         ('returned index', implies(s < p, z(num(ret)) == k - p + rr)),
         ('returned index, full multiplicity', implies(s >= p, z(num(ret)) == k - p - z3.If(k == n + p, 1, 0)))]
    for c in range(dim):
        q = lambda i: Q.at(i, 8 * c)
        g += [('poles before the affected span %d' % c, forall(1, lambda i: implies(and_(0 <= i, i <= k - p, i < n), q(i) == P0[c][i]))),
              ('poles of the rising stages %d' % c, forall(1, lambda i: implies(and_(s < p, k - p <= i, i <= k - p + rr), q(i) == GB[c](i, i - (k - p))))),
              ('poles of the last stage %d' % c, forall(1, lambda i: implies(and_(s < p, k - p + rr <= i, i <= k - s), q(i) == GB[c](i, rr)))),
              ('poles of the falling stages %d' % c, forall(1, lambda i: implies(and_(s < p, k - s <= i, i <= k - s + rr), q(i) == GB[c](k - s, rr - (i - (k - s)))))),
              ('poles after the affected span %d' % c, forall(1, lambda i: implies(and_(i >= k - s + rr, i < n + rr), q(i) == P0[c][i - rr])))]
    return g


def vecs(L):
    d = 8 * G['dim']
    return L.vec('Q', d), L.vec('R', d)


def qfacts(L, j):
    """what stages 1..j-1 stored"""
    n, p, k, s, rr, dim = (G[x] for x in ('n', 'p', 'k', 's', 'rr', 'dim'))
    Q, Rv = vecs(L)
    f = []
    for c in range(dim):
        q = lambda i: Q.at(i, 8 * c)
        f += [('low %d' % c, forall(1, lambda i: implies(and_(0 <= i, i <= k - p), q(i) == G['P0'][c][i]), lambda i: [q(i)])),
              ('high %d' % c, forall(1, lambda i: implies(and_(i >= k - s + rr, i < n + rr), q(i) == G['P0'][c][i - rr]), lambda i: [q(i)])),
              ('rising %d' % c, forall(1, lambda i: implies(and_(k - p < i, i < k - p + j), q(i) == GB[c](i, i - (k - p))), lambda i: [q(i)])),
              ('falling %d' % c, forall(1, lambda i: implies(and_(k - s + rr - j < i, i < k - s + rr), q(i) == GB[c](k - s, k - s + rr - i)), lambda i: [q(i)]))]
    return f


def inv_j(L):
    p, k, s, rr, dim = (G[x] for x in ('p', 'k', 's', 'rr', 'dim'))
    j = z(L.int('j'))
    Q, Rv = vecs(L)
    f = [('j', and_(1 <= j, j <= rr + 1)), ('L', z(L.int('L')) == k - p + j - 1)]
    for c in range(dim):
        f.append(('temporary %d' % c, forall(1, lambda i: implies(and_(0 <= i, i <= p - s - j + 1), Rv.at(i, 8 * c) == GB[c](k - p + j - 1 + i, j - 1)), lambda i: [Rv.at(i, 8 * c)])))
    return f + qfacts(L, j)


def inv_i(L):
    p, k, s, rr, dim = (G[x] for x in ('p', 'k', 's', 'rr', 'dim'))
    j, i = z(L.int('j')), z(L.int('i'))
    Q, Rv = vecs(L)
    f = [('i', and_(1 <= j, j <= rr, 0 <= i, i <= p - s - j + 1)), ('L', z(L.int('L')) == k - p + j)]
    for c in range(dim):
        f.append(('done %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < i), Rv.at(x, 8 * c) == GB[c](k - p + j + x, j)), lambda x: [Rv.at(x, 8 * c)])))
        f.append(('todo %d' % c, forall(1, lambda x: implies(and_(i <= x, x <= p - s - j + 1), Rv.at(x, 8 * c) == GB[c](k - p + j - 1 + x, j - 1)), lambda x: [Rv.at(x, 8 * c)])))
    return f


RX = r'^auto gbs::insert_knots<double, %dul>\('
PROOFS = [Proof('insert_knots dim %d' % d, 'vc_ins%d' % d, setup(d), post, tu=TU, divfn=True, bound_hints=lambda up, v: [G['k'] + 1 if up else G['k'] - G['s'] + 1],
                loops={RX % d: {6: LoopSpec(inv_j, lambda L: G['rr'] + 1 - z(L.int('j'))), 7: LoopSpec(inv_i, lambda L: G['p'] - G['s'] - z(L.int('j')) + 1 - z(L.int('i')))}}) for d in (1, 3)]



def consequences(ex):
    """facts about k and s that follow from their definition and from u lying in the domain"""
    n, p, k, s, m = z3.Ints('n p k s m')
    u = z3.Real('u')
    U = z3.Array('U', z3.IntSort(), z3.RealSort())
    srt = lambda a, b: implies(and_(0 <= a, a <= b, b <= n + p), U[a] <= U[b])
    hyp = [p >= 1, n >= p + 1, 0 <= k, k <= n + p, U[p] <= u, u <= U[n], implies(k < n + p, u < U[k + 1])]
    yield 'the last knot not above u is at least number p', hyp + [srt(k + 1, p)], k >= p
    yield 'the last knot below u is below number n', hyp + [0 <= s, s <= k + 1, implies(k - s >= 0, U[k - s] < u), srt(n, k - s)], k - s <= n - 1


PROOFS.append(Lemma('knot position', consequences, tu=TU))

KV = [(1, [0, 0, 1, 2, 2]), (2, [0, 0, 0, 1, 1, 3, 3, 3]), (2, [-1, 0, 1, 2, 3, 5, 6]), (3, [0, 0, 0, 0, 1, 3, 3, 4, 4, 4, 4]), (3, [0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2]), (4, [0] * 5 + [2, 2, 3] + [4] * 5), (5, [0] * 6 + [1] * 6)]


def b_same(mod, out):
    """the curve is the same polynomial on every span, for all poles"""
    for p, k in KV:
        k = [F(x) for x in k]
        n = len(k) - p - 1
        P = [z3.Real('P%d' % i) for i in range(n)]
        us = sorted(set(k[p:n + 1]))
        us = us + [a + (b - a) * F(1, 3) for a, b in zip(us, us[1:])]
        for u in us:
            for r in range(0, p + 2):
                ex, st = bnd.start(mod)
                U_, P_ = conc_vec(ex, st, k), conc_vec(ex, st, P)
                for s, ret in bnd.go(ex, st, 'vc_ins1', [u, p, r, U_, P_]):
                    k1 = [x[0] for x in bnd.reals(ex, s, vec_view(ex, s, U_, 8))]
                    Q = [x[0] for x in bnd.reals(ex, s, vec_view(ex, s, P_, 8))]
                    lab = 'p=%d k=%s u=%s r=%d' % (p, fl(k), float(u), r)
                    m = k.count(u)
                    add = max(0, min(r, p - m))
                    bnd.goal(out, lab + ': knots', k1 == sorted(k + [u] * add))
                    bnd.goal(out, lab + ': number of poles', len(Q) == n + add)
                    if len(Q) != n + add or k1 != sorted(k + [u] * add):
                        continue
                    for a, b in spans_of(k1, p):
                        for i in range(p + 1):
                            t = a + (b - a) * F(2 * i + 1, 2 * p + 2)
                            w, g = lin_curve(t, p, k, P), lin_curve(t, p, k1, Q)
                            bnd.eq(out, ex, s, g, w, lab + ': point at %s' % float(t))
                bnd.safe(out, ex, 'p=%d u=%s r=%d' % (p, float(u), r))


def lin_curve(t, p, k, P):
    n = len(P)
    s = O.span(n, p, t, k)
    B = O.ders_all(s, p, 0, t, k)
    return sum((z(B[r]) * z(P[s - p + r]) for r in range(p + 1)), z3.RealVal(0))


BOUNDED = [Bounded('the inserted curve is the same function, span by span', TU, 'degrees 1..5, 7 knot vectors (clamped, unclamped, repeated up to full multiplicity), u at every knot and inside every span, 0..p+1 insertions; poles symbolic, equality of polynomials decided at degree+1 points per span', b_same)]


# ---- curve and surface objects: the operation above, on the object's knots and poles
from .rows import *


def inside(s, U):
    return and_(U[s.d] <= s.a, s.a <= U[s.n])


for nm, e, d in (('BSCurve::insertKnot', 'vc_cink3', 3), ('BSCurve::insertKnot, restricted range', 'vc_cink3b', 3), ('BSCurveRational::insertKnot', 'vc_cink3r', 4), ('BSCurveRational::insertKnot, restricted range', 'vc_cink3rb', 4)):
    R = CurveOp(d)
    PROOFS.append(Proof(nm, e, R.setup(lambda s: [s.a, s.p, s.r, s.up_, s.pp], inside, bounds='restricted' in nm), R.post(lambda s: s.ret), tu=TU,
                        callees=[check_curve_contract(), R.op_contract(RX % d, 'insert_knots (this property)', lambda a: (a[1], a[3], a[4], (a[0], a[2])), lambda s: (s.a, s.r), True, inside)]))
R = CurveOp(3)
PROOFS.append(Proof('insert_knot, once', 'vc_ink3', R.setup(lambda s: [s.a, s.p, s.up_, s.pp], inside), R.post(lambda s: s.ret), tu=TU,
                    callees=[R.op_contract(RX % 3, 'insert_knots (this property)', lambda a: (a[1], a[3], a[4], (a[0], a[2])), lambda s: (s.a, z3.IntVal(1)), True, inside)]))


def surface_proofs():
    for nm, e, d, rat in (('surface', 'vc_ins', 3, 'false'), ('rational surface', 'vc_sopr', 4, 'true')):
        for along in (0, 1):
            R = Rows(d, along)
            oc = R.op_contract(RX % d, 'insert_knots (this property)', lambda a: (a[1], a[3], a[4], (a[0], num(a[2]))), lambda s: (s.a, s.r), True, pre=inside)
            args = args_ins if d == 3 else args_sop(10 if along else 9, r=True)
            uv = 'uv'[along]
            ik = lambda L, j, R=R: [('index', implies(j > 0, z(L.int('ik')) == R.ret))]
            yield Proof('inserting a knot in a %s along %s' % (nm, 'UV'[along]), e + (uv if d == 3 else ''), R.setup(args, inside), R.post(), tu=TU, callees=[check_curve_contract(), oc, R.inverted()],
                        loops={r'gbs::BSSurfaceGeneral<double, 3ul, %s>::insertKnot%s\(double, unsigned long\)$' % (rat, uv.upper()): {0: LoopSpec(R.inv('j', 'poles_', 'knots_flats%s_' % uv.upper(), extra=ik), lambda L, R=R: R.m - z(L.int('j')))},
                               r'gbs::BSSurfaceGeneral<double, 3ul, %s>::polesV\(' % rat: {0: LoopSpec(R.inv_column, lambda L, R=R: R.nv - z(L.int('j')))}})


PROOFS += list(surface_proofs())
PROOFS.append(Lemma('grid index', grid_index, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random clamped and unclamped curves (degree 1-6, repeated knots), surfaces and rational curves; u at knots, between knots and one ulp beside them; 0..p+1 insertions; the new curve is compared with the old one at degree+1 points of every span by exact rational evaluation'

    def cases(self, rng, tier):
        N = {'quick': 420, 'thorough': 5000, 'search': 2500}[tier]
        for it in range(N):
            p, k, n = curve_knots(rng)
            if rng.random() < 0.3:
                for i in range(p):
                    k[i] -= F(p - i, 4)
                    k[-1 - i] += F(p - i, 2)
            u = pick_u(rng, k[p:n + 1], p) if k[p] < k[n] else k[p]
            r = rng.randrange(0, p + 2)
            P = fl(O.pts(rng, n, 3))
            yield 'insert', (fl(u), p, r, fl(k), P)
            p, k, n = curve_knots(rng)
            us = sorted({fl(pick_u(rng, k, p, ulp=False)) for _ in range(rng.choice([1, 2, 3, 5]))})
            if rng.random() < 0.4:
                us += [rng.choice(us) for _ in range(rng.choice([1, 2]))]
            rng.shuffle(us)
            yield 'object', (us, [rng.randrange(1, p + 1) for _ in us], p, fl(k), fl(O.pts(rng, n, 3)), fl(posw(rng, O.pts(rng, n, 3))))
            if it % 3 == 0:
                p, q, ku, kv, nu, nv = surf_case(rng, 3, 3)
                d = rng.choice([0, 1])
                u = pick_u(rng, kv if d else ku, q if d else p)
                yield 'surface', (fl(O.pts(rng, nu * nv, 3)), fl(ku), fl(kv), p, q, d, fl(u), rng.randrange(0, (q if d else p) + 2))

    def check_result(self, u, p, r, k, P, k1, Q, ret, what, ratl=False):
        m = k.count(u)
        add = max(0, min(r, p - m))
        close_list(self, k1, sorted(k + [u] * add), what + ': knots')
        if len(Q) != len(P) + add:
            self.fail('%s: %d poles, expected %d' % (what, len(Q), len(P) + add))
        c0, c1 = (p, ex_(k), ex_(P)), (p, exl(k1), exl(Q))
        same_curve(self, c0, c1, what, ratl=(ratl, ratl))
        if m + add >= p and ret is not None:
            if not 0 <= ret < len(Q):
                self.fail('%s: returned index %d outside the %d poles' % (what, ret, len(Q)))
            want, sc = ev(F(u), p, c0[1], c0[2])
            for c in range(len(want)):
                self.near(Q[ret][c], want[c], max(sc), what + ': pole at the returned index')

    def run(self, lib, g, c):
        if g == 'insert':
            u, p, r, k, P = c
            o = self.ok(lib.call('vc_ins3', [u, p, r, Vec(k), Vec(P, 3)], 'q'))
            self.check_result(u, p, r, k, P, o.out[3], o.out[4], o.ret, 'insert %d times' % r)
            o1 = self.ok(lib.call('vc_ins1', [u, p, r, Vec(k), Vec([x[0] for x in P])], 'q'))
            if list(o1.out[4]) != [x[0] for x in o.out[4]]:
                self.fail('dimension 1 and dimension 3 disagree')
            o = self.ok(lib.call('vc_ink3', [u, p, Vec(k), Vec(P, 3)], 'q'))
            self.check_result(u, p, 1, k, P, o.out[2], o.out[3], o.ret, 'insert once')
        elif g == 'object':
            us, ms, p, k, P, H = c
            o = self.ok(lib.call('vc_cinks3', [Vec(us), Vec(ms, 1, 'Q'), p, Vec(k), Vec(P, 3)])).out
            want = list(k)
            for u, m in zip(us, ms):
                want += [u] * max(0, min(m - want.count(u), p - want.count(u)))
            close_list(self, o[3], sorted(want), 'knots after inserting up to the given multiplicities')
            same_curve(self, (p, ex_(k), ex_(P)), (p, exl(o[3]), exl(o[4])), 'inserting several knots')
            u, r = us[0], ms[0]
            o = self.ok(lib.call('vc_cink3r', [u, p, r, Vec(k), Vec(H, 4)], 'q'))
            self.check_result(u, p, r, k, H, o.out[3], o.out[4], o.ret, 'rational curve')
            same_curve(self, (p, ex_(k), ex_(H)), (p, exl(o.out[3]), exl(o.out[4])), 'rational curve, projected', ratl=(True, True))
            o = self.ok(lib.call('vc_cink3', [u, p, r, Vec(k), Vec(P, 3)], 'q'))
            self.check_result(u, p, r, k, P, o.out[3], o.out[4], o.ret, 'curve object')
            b = [k[0] + (k[-1] - k[0]) / 4, k[0] + (k[-1] - k[0]) / 2]
            for f, D in (('vc_cink3b', Vec(P, 3)), ('vc_cink3rb', Vec(H, 4))):
                close_list(self, self.ok(lib.call(f, [u, p, r, Vec(k), D, *b, Out(2)], 'q')).out[7], b, 'range of a curve whose range was restricted, after inserting a knot')
        elif g == 'surface':
            P, ku, kv, p, q, d, u, r = c
            o = self.ok(lib.call('vc_insv' if d else 'vc_insu', [Vec(P, 3), Vec(ku), Vec(kv), p, q, u, r], 'q')).out
            kk, deg = (kv, q) if d else (ku, p)
            add = max(0, min(r, deg - kk.count(u)))
            want = sorted(kk + [u] * add)
            close_list(self, o[2 if d else 1], want, 'surface: knots')
            close_list(self, o[1 if d else 2], ku if d else kv, 'surface: knots of the other direction')
            nu, nv = len(o[1]) - p - 1, len(o[2]) - q - 1
            if len(o[0]) != nu * nv:
                self.fail('surface: %d poles, expected %d' % (len(o[0]), nu * nv))
            same_surface(self, (p, q, ex_(ku), ex_(kv), ex_(P)), (p, q, exl(o[1]), exl(o[2]), exl(o[0])), 'surface insertion')


SUITE = S_()
