from .common import *
from .callees import *
LEVEL = 'proof'
TU = 'curve.cpp'
G = {}
SUM = [z3.Function('SUM%d' % c, z3.IntSort(), z3.RealSort()) for c in range(3)]   # SUM_c(r) = sum_{q<=r} DB(d, s-p+q) * P[s-p+q].c
SUMD = [z3.Function('SUMD%d' % c, z3.IntSort(), z3.IntSort(), z3.RealSort()) for c in range(3)]


def setup(dim, with_n=False):
    def f(ex, st):
        n, p, d, s = z3.Ints('n p d s')
        u = z3.Real('u')
        kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(and_(p >= 0, p < 2**30, n >= p + 1, n < 2**40, d >= 0))
        st.assume(sorted_(k))
        st.assume(k[n - 1] < k[n])
        st.assume(k[p] < k[p + 1])
        o = ex.new_obj(st, 8 * dim, 'out')
        G.update(n=n, p=p, d=d, u=u, k=k, P=P, s=s, kp=kp, o=Ptr(o.id, 0), dim=dim)
        r = z3.Int('r')
        for c in range(dim):
            st.assume(SUM[c](-1) == 0)
            st.assume(z3.ForAll([r], implies(r >= 0, SUM[c](r) == SUM[c](r - 1) + DB(d, s - p + r) * P.at(s - p + r, 8 * c)), patterns=[SUM[c](r)]))
        return [u, kp, pp, p, d, Ptr(o.id, 0)]
    return f


def post(ex, st, ret):
    p, d, s, o = G['p'], G['d'], G['s'], G['o']
    g = []
    for c in range(G['dim']):
        v = z(ex.load(st, DBL, o.at(8 * c)))
        g.append(('coordinate %d = sum of basis derivative times pole' % c, implies(d <= p, v == SUM[c](p))))
        g.append(('coordinate %d = 0 above the degree' % c, implies(d > p, v == 0)))
    return g


def inv(L):
    r = L.int('r')
    pt = L.raw('retval', 8) if False else L.addr('pt') if 'pt' in L.fr.vars else None
    if pt is None:
        raise Unsupported('result variable not found')
    g = [('r', and_(0 <= r, r <= G['p'] + 1))]
    for c in range(G['dim']):
        g.append(('partial sum %d' % c, z(L.ex.load(L.st, DBL, pt.at(8 * c))) == SUM[c](z(r) - 1)))
    return g


def inv_hi(L):
    ip, pt = z(L.int('ip')), L.addr('pt')
    g = [('ip', and_(G['s'] - G['p'] <= ip, ip <= G['s'] + 1))]
    for c in range(G['dim']):
        g.append(('partial sum %d' % c, z(L.ex.load(L.st, DBL, pt.at(8 * c))) == SUM[c](ip - (G['s'] - G['p']) - 1)))
    return g


V_HI = lambda L: G['s'] + 1 - z(L.int('ip'))


def span(kp, n, p, u):
    return G['s']


CALL = [find_span_contract(span)] + basis_contracts(lambda kp, d, m: DB(d, m))
RX = r'gbs::eval_value_decasteljau<double, %dul>\(double, std::vector<double'


def P_(dim):
    return Proof('eval_value_decasteljau dim %d' % dim, 'vc_ev%d' % dim, setup(dim), post, tu=TU, callees=CALL,
                 loops={RX % dim: {0: LoopSpec(inv, lambda L: G['p'] + 1 - z(L.int('r'))), 2: LoopSpec(inv_hi, V_HI)}})



# ---- all orders in one pass
def setup_d(dim):
    def f(ex, st):
        n, p, d, s = z3.Ints('n p d s')
        u = z3.Real('u')
        kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(and_(p >= 0, p < 2**30, n >= p + 1, n < 2**40, d >= 0, d < 2**40))
        st.assume(sorted_(k))
        st.assume(k[n - 1] < k[n])
        st.assume(k[p] < k[p + 1])
        o = ex.new_sym(st, 8 * dim, d + 1, 'CK')
        for c in range(dim):
            o.cols[8 * c] = ('real', z3.Array('CK0.%d' % c, z3.IntSort(), z3.RealSort()))
        G.update(n=n, p=p, d=d, u=u, k=k, P=P, s=s, kp=kp, dim=dim)
        G['CK'] = lambda s_: View(ex, s_, o.id, 0, d + 1, 8 * dim)
        r, kk = z3.Ints('r kk')
        for c in range(dim):
            st.assume(z3.ForAll([kk], SUMD[c](kk, -1) == 0))
            st.assume(z3.ForAll([kk, r], implies(r >= 0, SUMD[c](kk, r) == SUMD[c](kk, r - 1) + DB(kk, s - p + r) * P.at(s - p + r, 8 * c)), patterns=[SUMD[c](kk, r)]))
        return [u, kp, pp, p, d, Ptr(o.id, 0)]
    return f


def post_d(ex, st, ret):
    p, d = G['p'], G['d']
    CK = G['CK'](st)
    g = []
    for c in range(G['dim']):
        g.append(('every order, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= d), CK.at(x, 8 * c) == z3.If(x <= p, SUMD[c](x, p), 0)))))
    return g


def inv_zero(L):
    kk, CK = L.int('kk'), G['CK'](L.st)
    g = [('kk', and_(0 <= kk, kk <= G['d'] + 1))]
    for c in range(G['dim']):
        g.append(('cleared %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < kk), CK.at(x, 8 * c) == 0), lambda x: [CK.at(x, 8 * c)])))
    return g


def du():
    return z3.If(G['d'] <= G['p'], G['d'], G['p'])


def rows(L, kk, r=None):
    CK, p, d = G['CK'](L.st), G['p'], G['d']
    g = []
    for c in range(G['dim']):
        if r is None:
            g.append(('rows %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= d), CK.at(x, 8 * c) == z3.If(x < kk, SUMD[c](x, p), 0)), lambda x: [CK.at(x, 8 * c)])))
        else:
            g.append(('rows %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= d, x != kk), CK.at(x, 8 * c) == z3.If(x < kk, SUMD[c](x, p), 0)), lambda x: [CK.at(x, 8 * c)])))
            g.append(('partial sum %d' % c, CK.at(kk, 8 * c) == SUMD[c](kk, z(r) - 1)))
    return g


def inv_kk(L):
    kk = z(L.int('kk'))
    return [('kk', and_(0 <= kk, kk <= du() + 1))] + rows(L, kk)


def inv_r(L):
    kk, r = z(L.int('kk')), z(L.int('r'))
    return [('kk', and_(0 <= kk, kk <= du())), ('r', and_(0 <= r, r <= G['p'] + 1)), ('room', kk * (G['p'] + 1) + r <= (kk + 1) * (G['p'] + 1))] + rows(L, kk, r)


def inv_kk2(L):
    kk = z(L.int('kk'))
    return [('kk', and_(0 <= kk, kk <= du() + 1))] + rows(L, kk)


def inv_ip(L):
    kk, ip = z(L.int('kk')), z(L.int('ip'))
    return [('kk', and_(0 <= kk, kk <= du())), ('ip', and_(G['s'] - G['p'] <= ip, ip <= G['s'] + 1))] + rows(L, kk, ip - (G['s'] - G['p']))


RXD = r'^void gbs::eval_ders_decasteljau<double, %dul>\(double, std::vector<double'


def PD_(dim):
    return Proof('eval_ders_decasteljau dim %d' % dim, 'vc_eders%d' % dim, setup_d(dim), post_d, tu=TU, callees=CALL,
                 loops={RXD % dim: {0: LoopSpec(inv_zero, lambda L: G['d'] + 1 - z(L.int('kk'))), 1: LoopSpec(inv_kk, lambda L: G['p'] + 1 - z(L.int('kk'))),
                                    2: LoopSpec(inv_r, lambda L: G['p'] + 1 - z(L.int('r'))),
                                    4: LoopSpec(inv_kk2, lambda L: G['p'] + 1 - z(L.int('kk'))), 5: LoopSpec(inv_ip, V_HI)}})



# ---- the class: constructor, range check, evaluation
EPS = F(100, 2**52)


def setup_c(dim):
    f0 = setup(dim)

    def f(ex, st):
        u, kp, pp, p, d, o = f0(ex, st)
        return [pp, kp, p, u, d, o]
    return f


def post_c(ex, st, ret):
    k, n, p, u = G['k'], G['n'], G['p'], G['u']
    return post(ex, st, ret) + [('no value outside the bounds', and_(u >= k[0] - z(EPS), u <= k[n + p] + z(EPS)))]


def throws_c(ex, st):
    k, n, p, u = G['k'], G['n'], G['p'], G['u']
    return [('only outside the bounds', or_(u < k[0] - z(EPS), u > k[n + p] + z(EPS)))]


def PC_(dim):
    return Proof('BSCurve<%d>: construct and evaluate' % dim, 'vc_cv%d' % dim, setup_c(dim), post_c, tu=TU, callees=CALL + [check_curve_contract()], throws=throws_c,
                 loops={RX % dim: {0: LoopSpec(inv, lambda L: G['p'] + 1 - z(L.int('r'))), 2: LoopSpec(inv_hi, V_HI)}})



def setup_cd(dim):
    f0 = setup_d(dim)

    def f(ex, st):
        u, kp, pp, p, d, o = f0(ex, st)
        return [pp, kp, p, u, d, o]
    return f


def PCD_(dim):
    pr = PD_(dim)
    return Proof('BSCurve<%d>: construct and evaluate all orders' % dim, 'vc_cd%d' % dim, setup_cd(dim), post_d, tu=TU, callees=CALL + [check_curve_contract()], throws=throws_c, loops=pr.loops)


PROOFS = [PC_(1), PC_(3), PCD_(3), P_(1), P_(2), P_(3), PD_(1), PD_(3)]


class S(Suite):
    tu = TU
    rule = 'random degree, clamped knots with repeated interior knots, poles and parameters (knots, midpoints, ends, one ulp inside); every derivative order up to degree+2; exact rational oracle'

    def cases(self, rng, tier):
        N = {'quick': 1200, 'thorough': 15000, 'search': 8000}[tier]
        for it in range(N):
            p, k, n = curve_knots(rng)
            dim = rng.choice([1, 2, 3])
            P = O.pts(rng, n, dim)
            u = pick_u(rng, k, p)
            yield 'value', (dim, fl(P), fl(k), p, fl(u), rng.randrange(0, p + 3))
            P3 = O.pts(rng, n, 3)
            if it % 3 == 0:
                yield 'all orders', (fl(P3), fl(k), p, fl(u), rng.randrange(0, p + 3))
            if it % 5 == 0:
                yield 'ends', (fl(P3), fl(k), p, rng.randrange(0, p + 1))
                yield 'function', (fl([x[0] for x in P]), fl(k), p, fl(u), rng.randrange(0, p + 2))
                yield 'multiplicities', (fl(O.pts(rng, n, 2)), fl(k), p, fl(u), rng.randrange(0, p + 2))
                yield 'de boor', (fl(P3), fl(k), p, fl(u))
            if it % 11 == 0:
                m = rng.choice([1, 2, 7, 63, 64, 65, 257, 1500])
                us = [fl(pick_u(rng, k, p)) for _ in range(m)]
                yield 'list', (fl(P3), fl(k), p, us, rng.randrange(0, p + 1))
                yield 'arc length derivatives', (fl(P3), fl(k), p, fl(u))
        for p in (13, 17, 23, 24):
            for ns in (1, 2, 3):
                k = O.knots(rng, p, ns, 'unit')
                n = len(k) - p - 1
                for d in (0, 1, 2, 5, p):
                    yield 'value', (2, fl(O.pts(rng, n, 2)), fl(k), p, 0.5, d)
        # above the stack tables: the recursive fall-back (exponential, so Bezier pieces and parameters at their ends)
        for p in (25, 26):
            k = [F(0)] * (p + 1) + [F(1)] * p + [F(2)] * (p + 1)
            n = len(k) - p - 1
            for u in (0.0, 1.0, 2.0):
                yield 'fallback', (2, fl(O.pts(rng, n, 2)), fl(k), p, u, 0)
                yield 'fallback', (2, fl(O.pts(rng, n, 2)), fl(k), p, u, 1)
                yield 'fallback', (2, fl(O.pts(rng, n, 2)), fl(k), p, u, p + 1)

    def run(self, lib, g, c):
        if g in ('value', 'fallback'):
            dim, P, k, p, u, d = c
            w, sc = O.curve(F(u), d, p, ex_(k), ex_(P))
            a = self.ok(lib.call('vc_ev%d' % dim, [u, Vec(k), Vec(P, dim), p, d, Out(dim)])).out[5]
            b = self.ok(lib.call('vc_cv%d' % dim, [Vec(P, dim), Vec(k), p, u, d, Out(dim)])).out[5]
            for q in range(dim):
                self.near(a[q], w[q], sc[q], 'order %d coordinate %d' % (d, q), rel=1e-8)
                self.near(b[q], w[q], sc[q], 'order %d coordinate %d (curve object)' % (d, q), rel=1e-8)
            if d > p and (any(a) or any(b)):
                self.fail('derivative above the degree is not exactly zero')
        elif g == 'all orders':
            P, k, p, u, n = c
            for f, args in (('vc_eders3', [u, Vec(k), Vec(P, 3), p, n, Out(3 * (n + 1) + 1)]), ('vc_cd3', [Vec(P, 3), Vec(k), p, u, n, Out(3 * (n + 1) + 1)])):
                a = self.ok(lib.call(f, args)).out[5]
                for d in range(n + 1):
                    w, sc = O.curve(F(u), d, p, ex_(k), ex_(P))
                    for q in range(3):
                        self.near(a[3 * d + q], w[q], sc[q], '%s order %d coordinate %d' % (f, d, q), rel=1e-8)
                if a[-1] == a[-1]:
                    self.fail('write past the last order')
        elif g == 'ends':
            P, k, p, d = c
            r = self.ok(lib.call('vc_cbe3', [Vec(P, 3), Vec(k), p, d, Out(3), Out(3), Out(2)]))
            if tuple(r.out[6]) != (k[0], k[-1]):
                self.fail('bounds %s' % (tuple(r.out[6]),))
            for x, u in ((4, k[0]), (5, k[-1])):
                w, sc = O.curve(F(u), d, p, ex_(k), ex_(P))
                for q in range(3):
                    self.near(r.out[x][q], w[q], sc[q], 'end at %r order %d' % (u, d), rel=1e-8)
            if d == 0 and (list(r.out[4]) != P[0] or list(r.out[5]) != P[-1]):
                for q in range(3):
                    self.near(r.out[4][q], P[0][q], abs(P[0][q]), 'first pole')
                    self.near(r.out[5][q], P[-1][q], abs(P[-1][q]), 'last pole')
        elif g == 'function':
            P, k, p, u, d = c
            w, sc = O.curve(F(u), d, p, ex_(k), [[F(x)] for x in P])
            self.near(self.ok(lib.call('vc_cf', [Vec(P), Vec(k), p, u, d], 'd')).ret, w[0], sc[0], 'function value', rel=1e-8)
            r = self.ok(lib.call('vc_cfe', [Vec(P), Vec(k), p, Out(2)])).out[3]
            self.near(r[0], P[0], abs(P[0]), 'function begin')
            self.near(r[1], P[-1], abs(P[-1]), 'function end')
        elif g == 'multiplicities':
            P, k, p, u, d = c
            ks, ms = unflat(k)
            w, sc = O.curve(F(u), d, p, ex_(k), ex_(P))
            a = self.ok(lib.call('vc_ckm2', [Vec(P, 2), Vec(ks), Vec(ms, 1, 'Q'), p, u, d, Out(2)])).out[6]
            for q in range(2):
                self.near(a[q], w[q], sc[q], 'knots/multiplicities constructor', rel=1e-8)
        elif g == 'de boor':
            P, k, p, u = c
            w, sc = O.curve(F(u), 0, p, ex_(k), ex_(P))
            a = self.ok(lib.call('vc_deboor3', [u, Vec(k), Vec(P, 3), p, Out(3)])).out[4]
            for q in range(3):
                self.near(a[q], w[q], sc[q], 'de Boor-Cox value', rel=1e-8)
        elif g == 'list':
            P, k, p, us, d = c
            a = self.ok(lib.call('vc_cvs3', [Vec(P, 3), Vec(k), p, Vec(us), d, Vec([], 3)])).out[5]
            if len(a) != len(us):
                self.fail('%d values for %d parameters' % (len(a), len(us)))
            for i, u in enumerate(us):
                b = self.ok(lib.call('vc_cv3', [Vec(P, 3), Vec(k), p, u, d, Out(3)])).out[5]
                if list(a[i]) != list(b):
                    self.fail('value %d of the list differs from the single evaluation: %s %s' % (i, list(a[i]), list(b)))
        else:
            P, k, p, u = c
            d1, s1 = O.curve(F(u), 1, p, ex_(k), ex_(P))
            d2, s2 = O.curve(F(u), 2, p, ex_(k), ex_(P))
            N = float(sum(x * x for x in d1))
            if N < 1e-2 or N < 1e-3 * float(sum(x * x for x in s1)):
                return
            r = self.ok(lib.call('vc_arc3', [Vec(P, 3), Vec(k), p, u, Out(3), Out(3)]))
            dot = sum(x * y for x, y in zip(d1, d2))
            NN = sum(x * x for x in d1)
            sc2 = float(max(s2)) * N / N**2 * 4 + 1
            for q in range(3):
                self.near(r.out[4][q], float(d1[q]) / math.sqrt(N), 1, 'unit tangent', rel=1e-8)
                self.near(r.out[5][q], (d2[q] * NN - d1[q] * dot) / (NN * NN), sc2, 'second arc length derivative', rel=1e-7)


SUITE = S()
