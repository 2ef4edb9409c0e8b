"""C08: degree elevation"""
from .common import *
from .callees import num, check_curve_contract
from .rows import *
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
PROOFS = []
I, R = z3.IntSort(), z3.RealSort()
BIN = z3.Function('BIN', I, I, R)                                   # binomial coefficient
E = [z3.Function('E%d' % c, I, I, R) for c in range(4)]             # E_c(i,j): the terms up to j (excluded) of pole i of the elevated Bezier curve


def lo(i):
    return z3.If(i > G['t'], i - G['t'], z3.IntVal(0))


def hi(i):
    return z3.If(i < G['p'], i, G['p'])


def coef(i, j):
    p, t = G['p'], G['t']
    return DIV(BIN(p, j) * BIN(t, i - j), BIN(p + t, i))


# ---- one Bezier segment
def setup_bez(dim):
    def f(ex, st):
        G.clear()
        p, t = z3.Ints('p t')
        pp, P = mk_vec(ex, st, p + 1, 8 * dim, 'P')
        op, o = mk_vec(ex, st, 0, 8 * dim, 'o')
        st.assume(and_(p >= 1, p < 2**28, t >= 0, t < 2**28))
        P0 = [P.arr(8 * c) for c in range(dim)]
        G.update(p=p, t=t, P0=P0, op=op, dim=dim)
        i, j = z3.Ints('i j')
        st.assume(z3.ForAll([i, j], implies(and_(0 <= j, j <= i), BIN(i, j) >= 1), patterns=[BIN(i, j)]))
        for c in range(dim):
            st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i <= p + t), and_(implies(j == lo(i), E[c](i, j) == 0), implies(and_(lo(i) < j, j <= hi(i) + 1), E[c](i, j) == E[c](i, j - 1) + coef(i, j - 1) * P0[c][j - 1]))), patterns=[E[c](i, j)]))
        return [pp, p, t, op]
    return f


def binom():
    def apply(ex, st, a):
        n, k = z(num(a[0])), z(num(a[1]))
        ex.oblige(st, 'pre:binomial_law: 0 <= k <= n', and_(0 <= k, k <= n))
        return BIN(n, k)
    return Contract(r'gbs::binomial_law<double, int>', apply, 'binomial_law (C04, bounded n <= 30)')


def inv_i(L):
    i, Q = z(L.int('i')), L.vec('Pt', 8 * G['dim'])
    p, t = G['p'], G['t']
    return [('i', and_(0 <= i, i <= p + t + 1)), ('size', z(Q.len) == p + t + 1)] + \
           [('poles so far, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < i), Q.at(x, 8 * c) == E[c](x, hi(x) + 1)), lambda x: [Q.at(x, 8 * c)])) for c in range(G['dim'])]


def inv_j(L):
    i, j, Q = z(L.int('i')), z(L.int('j')), L.vec('Pt', 8 * G['dim'])
    p, t = G['p'], G['t']
    return [('j', and_(lo(i) <= j, j <= hi(i) + 1)), ('size', z(Q.len) == p + t + 1)] + \
           [('terms so far, coordinate %d' % c, Q.at(i, 8 * c) == E[c](i, j)) for c in range(G['dim'])] + \
           [('poles before, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < i), Q.at(x, 8 * c) == E[c](x, hi(x) + 1)), lambda x: [Q.at(x, 8 * c)])) for c in range(G['dim'])]


def post_bez(ex, st, ret):
    Q = vec_view(ex, st, G['op'], 8 * G['dim'])
    p, t = G['p'], G['t']
    return [('number of poles', z(Q.len) == p + t + 1)] + [('every pole is the elevation sum, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= p + t), Q.at(x, 8 * c) == E[c](x, hi(x) + 1)))) for c in range(G['dim'])]


for d in (1, 3):
    PROOFS.append(Proof('increase_bezier_degree, dim %d' % d, 'vc_bez%d' % d, setup_bez(d), post_bez, tu=TU, divfn=True, callees=[binom()],
                        loops={r'gbs::increase_bezier_degree<double, %dul>\(' % d: {0: LoopSpec(inv_i, lambda L: G['p'] + G['t'] + 1 - z(L.int('i'))), 1: LoopSpec(inv_j, lambda L: hi(z(L.int('i'))) + 1 - z(L.int('j')))}}))


# ---- objects
RX = r'^(auto|void) gbs::increase_degree<double, %dul>\('


def clamped(s, U):
    n, p = s.n, s.d
    return and_(U[0] == U[p], U[n] == U[n + p], forall(1, lambda x: implies(and_(1 <= x, x < n), U[x] < U[x + p]), lambda x: [U[x]]))


for nm, e, d in (('BSCurve::increaseDegree', 'vc_cinc3', 3), ('BSCurve::increaseDegree, restricted range', 'vc_cinc3b', 3), ('BSCurveRational::increaseDegree', 'vc_cinc3r', 4), ('BSCurveRational::increaseDegree, restricted range', 'vc_cinc3rb', 4)):
    Rw = CurveOp(d, up=z3.Int('r'))
    PROOFS.append(Proof(nm, e, Rw.setup(lambda s: [s.up_, s.pp, s.p, s.r], clamped, bounds='restricted' in nm), Rw.post(lambda s: s.p + s.r), tu=TU,
                        callees=[check_curve_contract(), Rw.op_contract(RX % d, 'increase_degree (this property)', lambda a: (a[2], a[0], a[1], (a[3],)), lambda s: (s.r,), pre=clamped)]))


def knots_of(L, Rw):
    """the knots of the object along the operation, found at the entry of the loop by their number (whatever their place among the members)"""
    this, ex, st = L.ptr('this'), L.ex, L.st
    o = st.mem[this.o]
    if Rw.__dict__.get('koff') is not None and L.entry:
        return vec_view(ex, st, this.at(Rw.koff), 8)
    for off in sorted(k for k in o.cells if k >= this.off):
        v = o.cells[off][1]
        if isinstance(v, Ptr) and v.o and st.mem[v.o].kind == 'sym' and st.mem[v.o].R == 8:
            w = vec_view(ex, st, this.at(off - this.off), 8)
            if z3.eq(z3.simplify(z(w.len)), z3.simplify(Rw.n + Rw.d + 1)):
                Rw.koff = off - this.off
                return w
    return None


def surface_proofs():
    for nm, e, d, rat in (('surface', 'vc_sop', 3, 'false'), ('rational surface', 'vc_sopr', 4, 'true')):
        for along in (0, 1):
            Rw = Rows(d, along, up=1)
            ends = lambda s: and_(s.W[0] == (s.kv if s.along else s.ku)[0], s.W[s.M + s.d + 1] == (s.kv if s.along else s.ku)[s.n + s.d])
            oc = Rw.op_contract(RX % d, 'increase_degree (this property)', lambda a: (a[2], a[0], a[1], (num(a[3]),)), lambda s: (z3.IntVal(1),), pre=clamped, facts=ends)
            bnd_ = lambda s: (s.ku[0], s.ku[s.nu + s.p], s.kv[0], s.kv[s.nv + s.q])

            def extra(L, j, R=Rw, ends=ends):
                k0 = R.kv if R.along else R.ku
                own = knots_of(L, R)
                o = L.vec('ku_old', 8)
                return [('ends', implies(j > 0, ends(R))), ('knots kept aside', and_(z(o.len) == R.n + R.d + 1, forall(1, lambda i: implies(and_(0 <= i, i <= R.n + R.d), o[i] == k0[i]), lambda i: [o[i]]))),
                        ('knots of the object before the first row', implies(j == 0, and_(z(own.len) == R.n + R.d + 1, forall(1, lambda i: implies(and_(0 <= i, i <= R.n + R.d), own[i] == k0[i]), lambda i: [own[i]])))) if own else ('knots of the object', True)]
            yield Proof('elevating a %s along %s' % (nm, 'UV'[along]), e, Rw.setup(args_sop(1 if along else 0), clamped), Rw.post(bnd_), tu=TU, callees=[check_curve_contract(), oc, Rw.inverted()],
                        loops={r'gbs::BSSurfaceGeneral<double, 3ul, %s>::increaseDegreeU\(\)$' % rat: {0: LoopSpec(Rw.inv('i', 'poles_new', 'ku_new', extra=extra), lambda L, R=Rw: R.m - z(L.int('i')))}})


PROOFS += list(surface_proofs())
PROOFS.append(Lemma('grid index', grid_index, tu=TU))


def same_polynomial(ex):
    """term by term, the elevated control points describe the same polynomial: Bernstein polynomials of degree p times those of degree t (which sum to 1)"""
    p, t, j, k = z3.Ints('p t j k')
    X, Y = z3.Function('X', I, R), z3.Function('Y', I, R)               # powers of x and of 1-x
    hy = [1 <= p, 0 <= t, 0 <= j, j <= p, 0 <= k, k <= t, X(j) * X(k) == X(j + k), Y(p - j) * Y(t - k) == Y(p + t - j - k), BIN(p + t, j + k) >= 1]
    b = BIN(p + t, j + k)
    co = DIV(BIN(p, j) * BIN(t, k), b)
    yield 'product of two Bernstein polynomials', hy + [z3.Implies(b != 0, co * b == BIN(p, j) * BIN(t, k))], (BIN(p, j) * (X(j) * Y(p - j))) * (BIN(t, k) * (X(k) * Y(t - k))) == co * (b * (X(j + k) * Y(p + t - j - k)))
    G.update(p=p, t=t)
    i = j + k
    yield 'the terms summed for pole i are those with j + k = i', [0 <= j, j <= p, 0 <= k, k <= t], and_(lo(i) <= j, j <= hi(i))
    i = z3.Int('i')
    yield 'and only those', [0 <= i, i <= p + t, 0 <= t, 1 <= p, lo(i) <= j, j <= hi(i)], and_(0 <= j, j <= p, 0 <= i - j, i - j <= t)


PROOFS.append(Lemma('the elevated segment is the same polynomial', same_polynomial, tu=TU))

# ---- whole curves: bounded
KV = [(1, [0, 0, 1, 3, 3]), (2, [0, 0, 0, 1, 3, 3, 3]), (2, [-1, -1, -1, 0, 0, 2, 2, 2]), (3, [0, 0, 0, 0, 1, 3, 3, 4, 4, 4, 4]), (3, [0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 2]), (4, [0] * 5 + [2] + [4] * 5), (3, [5] * 4 + [7] * 4), (1, [0, 0, 1, 2, 4, 5, 5])]


def lin_curve(t, p, k, P):
    s = O.span(len(P), p, t, k)
    B = O.ders_all(s, p, 0, t, k)
    return sum((z(B[r]) * z(P[s - p + r]) for r in range(p + 1)), z3.RealVal(0))


def elevated_knots(k, t):
    ks, ms = unflat(k)
    return [x for x, m in zip(ks, ms) for _ in range(m + t)]


def b_same(mod, out):
    """the elevated curve is the same polynomial on every span, for all poles"""
    for p, k in KV:
        k = [F(x) for x in k]
        n = len(k) - p - 1
        P = [z3.Real('P%d' % i) for i in range(n)]
        for t in (1, 2):
            lab = 'p=%d k=%s t=%d' % (p, fl(k), t)
            ex, st = bnd.start(mod, 200)
            U_, P_ = conc_vec(ex, st, k), conc_vec(ex, st, P)
            for s, ret in bnd.go(ex, st, 'vc_incd1', [U_, P_, p, t]):
                k1 = [x[0] for x in bnd.reals(ex, s, vec_view(ex, s, U_, 8))]
                Q = [x[0] for x in bnd.reals(ex, s, vec_view(ex, s, P_, 8))]
                w = elevated_knots(k, t)
                bnd.goal(out, lab + ': knots', k1 == w)
                bnd.goal(out, lab + ': number of poles', len(Q) == len(w) - p - t - 1)
                if k1 != w or len(Q) != len(w) - p - t - 1:
                    continue
                for a, b in spans_of(k1, p + t):
                    for i in range(p + t + 1):
                        x = a + (b - a) * F(2 * i + 1, 2 * (p + t) + 2)
                        bnd.eq(out, ex, s, lin_curve(x, p + t, k1, Q), lin_curve(x, p, k, P), lab + ': point at %s' % float(x))
            bnd.safe(out, ex, lab)


BOUNDED = [Bounded('the elevated curve is the same function, span by span', TU, 'degrees 1..4, 8 clamped knot vectors (simple and repeated interior knots, up to the degree), elevation by 1 and 2; poles symbolic, equality of polynomials decided at degree+1 points per span', b_same)]


class S_(Suite):
    tu = TU
    rule = 'random clamped curves and surfaces, plain and rational (degree 1-5, simple and repeated interior knots, domains away from 0) elevated by 1 to 3; the elevated object is compared with the original at degree+1 points of every span by exact rational evaluation, its knots with the original ones, every Bezier segment with the curve on its span'

    def knots(self, rng, pmax=4, smax=5):
        while True:
            p = rng.choice([1, 2, 2, 3, 3, pmax])
            k = O.knots(rng, p, rng.choice([1, 2, 2, 3, 4, smax]), rng.choice(['int', 'uniform', 'unit']))
            ks, ms = unflat(k)
            if max(ms[1:-1] + [0]) <= p:
                sh = F(rng.randrange(-64, 64), 8)
                return p, [x + sh for x in k], len(k) - p - 1

    def cases(self, rng, tier):
        N = {'quick': 220, 'thorough': 3000, 'search': 1500}[tier]
        for it in range(N):
            p, k, n = self.knots(rng)
            P = O.pts(rng, n, 3)
            yield 'curve', (p, rng.choice([1, 1, 2, 3]), fl(k), fl(P), fl(posw(rng, O.pts(rng, n, 3))))
            p = rng.randrange(1, 8)
            yield 'bezier', (p, rng.randrange(0, 5), fl(O.pts(rng, p + 1, 3)))
            if it % 2 == 0:
                (p, ku, nu), (q, kv, nv) = self.knots(rng, 3, 3), self.knots(rng, 3, 3)
                P = O.pts(rng, nu * nv, 3)
                r = rng.random() < 0.4
                yield 'surface', (p, q, fl(ku), fl(kv), fl(posw(rng, P) if r else P), r, rng.choice([0, 1]))

    def elevated(self, f, p, t, k, D, k1, Q, ratl, dim):
        w = elevated_knots(k, t)
        close_list(self, k1, w, f + ': knots')
        if len(Q) != len(w) - p - t - 1:
            self.fail('%s: %d poles, expected %d' % (f, len(Q), len(w) - p - t - 1))
        same_curve(self, (p, ex_(k), ex_(D)), (p + t, exl(k1), exp_(Q, dim)), f, ratl=(ratl, ratl), rel=1e-7, ab=1e-9)

    def run(self, lib, g, c):
        call = lambda f, *a: self.ok(lib.call(f, list(a)), f).out
        if g == 'curve':
            p, t, k, P, H = c
            P1 = [x[0] for x in P]
            o = call('vc_incd1', Vec(k), Vec(P1), p, t)
            self.elevated('increase_degree, dim 1', p, t, k, [[x] for x in P1], o[0], o[1], False, 1)
            o = call('vc_incd3', Vec(k), Vec(P, 3), p, t)
            self.elevated('increase_degree', p, t, k, P, o[0], o[1], False, 3)
            o = self.ok(lib.call('vc_cinc3', [Vec(k), Vec(P, 3), p, t], 'q'))
            if o.ret != p + t:
                self.fail('degree %d after elevating %d by %d' % (o.ret, p, t))
            self.elevated('BSCurve::increaseDegree', p, t, k, P, o.out[0], o.out[1], False, 3)
            o = self.ok(lib.call('vc_cinc3r', [Vec(k), Vec(H, 4), p, t], 'q'))
            if o.ret != p + t:
                self.fail('degree %d after elevating %d by %d' % (o.ret, p, t))
            self.elevated('BSCurveRational::increaseDegree', p, t, k, H, o.out[0], o.out[1], True, 4)
            b = [k[0] + (k[-1] - k[0]) / 4, k[0] + (k[-1] - k[0]) / 2]
            for f, D in (('vc_cinc3b', Vec(P, 3)), ('vc_cinc3rb', Vec(H, 4))):
                close_list(self, self.ok(lib.call(f, [Vec(k), D, p, t, *b, Out(2)], 'q')).out[6], b, 'range of an elevated curve whose range was restricted')
            o = call('vc_segs3', Vec(k), Vec(P, 3), p, Vec([], 3), Vec([]))
            ks = unflat(k)[0]
            close_list(self, o[4], [x for a, b in zip(ks, ks[1:]) for x in (a, b)], 'bounds of the Bezier segments')
            if len(o[3]) != (p + 1) * (len(ks) - 1):
                self.fail('%d Bezier points for %d segments of degree %d' % (len(o[3]), len(ks) - 1, p))
            for i, (a, b) in enumerate(zip(ks, ks[1:])):
                a, b = F(a), F(b)
                same_curve(self, (p, ex_(k), ex_(P)), (p, [a] * (p + 1) + [b] * (p + 1), exl(o[3][i * (p + 1):(i + 1) * (p + 1)])), 'Bezier segment %d' % i, rel=1e-7, ab=1e-9, skip={a, b} if p == 0 else ())
        elif g == 'bezier':
            p, t, P = c
            for d, f in ((1, 'vc_bez1'), (3, 'vc_bez3')):
                D = [x[:d] for x in P]
                o = call(f, Vec([x[0] for x in D]) if d == 1 else Vec(D, 3), p, t, Vec([], d))
                if len(o[3]) != p + t + 1:
                    self.fail('%d points after elevating a segment of degree %d by %d' % (len(o[3]), p, t))
                same_curve(self, (p, [F(0)] * (p + 1) + [F(1)] * (p + 1), ex_(D)), (p + t, [F(0)] * (p + t + 1) + [F(1)] * (p + t + 1), exp_(o[3], d)), f)
        else:
            p, q, ku, kv, P, r, d = c
            nm = ('rational ' if r else '') + 'surface elevated along ' + 'UV'[d]
            o = call('vc_sopr' if r else 'vc_sop', Vec(P, 4 if r else 3), Vec(ku), Vec(kv), p, q, d, 0.0, 0.0, Out(4))
            wu, wv = (ku, elevated_knots(kv, 1)) if d else (elevated_knots(ku, 1), kv)
            close_list(self, o[1], wu, nm + ': knots U')
            close_list(self, o[2], wv, nm + ': knots V')
            p1, q1 = p + 1 - d, q + d
            if (o[3], o[4]) != (p1, q1) or len(o[0]) != (len(wu) - p1 - 1) * (len(wv) - q1 - 1):
                self.fail(nm + ': degrees or number of poles')
            close_list(self, o[8], [wu[0], wu[-1], wv[0], wv[-1]], nm + ': bounds')
            same_surface(self, (p, q, ex_(ku), ex_(kv), ex_(P)), (p1, q1, exl(o[1]), exl(o[2]), exl(o[0])), nm, ratl=(r, r), rel=1e-7, ab=1e-9)


SUITE = S_()
