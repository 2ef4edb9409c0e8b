"""C17: curves built from simple shapes, by differentiation and by integration"""
from .common import *
from .callees import num, check_curve_contract
LEVEL = 'proof'
TU = 'build.cpp'
G = {}
PROOFS = []


# ---- compiled code
class S_(Suite):
    tu = TU
    rule = ('segments between random points, ellipses and circles with random radii and centres compared with the equation of the curve and with its vertices; random clamped curves of degree 1-5 with simple and repeated '
            'interior knots: the derivative curve against the derivative, the integral curve against its start and its derivative, at degree+1 points of every span, in exact arithmetic')

    def cases(self, rng, tier):
        N = {'quick': 150, 'thorough': 3000, 'search': 1500}[tier]
        for it in range(N):
            while True:
                p = rng.choice([1, 2, 2, 3, 3, 4, 5])
                k = O.knots(rng, p, rng.choice([1, 2, 3, 4]), rng.choice(['int', 'uniform', 'unit', 'graded']))
                if max(unflat(k)[1][1:-1] + [0]) <= p:
                    break
            n = len(k) - p - 1
            yield 'curve', (p, fl(k), fl(O.pts(rng, n, 3)), fl(O.pts(rng, 1, 3)[0]))
            d = lambda: float(F(rng.randrange(1, 400), 16))
            yield 'shape', (fl(O.pts(rng, 1, 3)[0]), fl(O.pts(rng, 1, 3)[0]), d(), d(), rng.choice([0, 1]))

    def run(self, lib, g, c):
        if g == 'curve':
            p, k, A, o = c
            ke = ex_(k)
            for dim, f in ((3, '3'), (1, '1')):
                Q = [list(x)[:dim] for x in A]
                Qe = ex_(Q)
                r = self.ok(lib.call('vc_bder' + f, [Vec(Q, dim), Vec(k), p, Vec([], dim), Vec([])], 'q'))
                K, C = exl(r.out[4]), exp_(r.out[3], dim)
                close_list(self, r.out[4], fl(ke[1:-1]), 'knots of the derivative')
                if r.ret != p - 1 or len(C) != len(Q) - 1:
                    self.fail('derivative: degree %d, %d poles' % (r.ret, len(C)))
                self.deriv((p, ke, Qe), (p - 1, K, C), 'derivative curve')
                r = self.ok(lib.call('vc_bint' + f, [Vec(Q, dim), Vec(k), p, o[:dim], Vec([], dim), Vec([])], 'q'))
                K, C = exl(r.out[5]), exp_(r.out[4], dim)
                close_list(self, r.out[5], fl([ke[0]] + ke + [ke[-1]]), 'knots of the integral')
                if r.ret != p + 1 or len(C) != len(Q) + 1:
                    self.fail('integral: degree %d, %d poles' % (r.ret, len(C)))
                close_list(self, fl(C[0]), o[:dim], 'start of the integral')
                self.deriv((p + 1, K, C), (p, ke, Qe), 'integral curve')
        else:
            a, b, r1, r2, unit = c
            for d, f in ((3, 'vc_seg3'), (2, 'vc_seg2')):
                r = self.ok(lib.call(f, [a[:d], b[:d], unit, Vec([], d), Vec([])], 'q'))
                L = math.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a[:d], b[:d])))
                if r.ret != 1 or [list(x) for x in r.out[3]] != [list(a[:d]), list(b[:d])]:
                    self.fail('segment: degree or poles')
                close_list(self, r.out[4], [0, 0] + [1.0 if unit else L] * 2, 'knots of the segment')
            for d, f, x1, x2 in ((2, 'vc_ell2', r1, r2), (3, 'vc_ell3', r1, r2), (2, 'vc_cir2', r1, r1), (3, 'vc_cir3', r1, r1)):
                r = self.ok(lib.call(f, ([r1, r2] if 'ell' in f else [r1]) + [a[:d], Vec([], d + 1), Vec([])], 'q'))
                oi = 3 if 'ell' in f else 2
                K, C, p = exl(r.out[oi + 1]), exp_(r.out[oi], d + 1), r.ret
                if p != 2 or K[0] != 0 or K[-1] != 1:
                    self.fail('%s: degree %d, domain [%r, %r]' % (f, p, float(K[0]), float(K[-1])))
                o = ex_(a[:d])
                for i, (x, y) in enumerate(((1, 0), (0, 1), (-1, 0), (0, -1), (1, 0))):
                    v, _ = ev(F(i, 4), p, K, C, True)
                    close_list(self, fl(v), fl([o[0] + x * F(x1), o[1] + y * F(x2)] + o[2:]), '%s: vertex %d' % (f, i), 1e-10, 1e-10)
                for u in samples(K, p, 4):
                    v, _ = ev(u, p, K, C, True)
                    X, Y = (v[0] - o[0]) / F(x1), (v[1] - o[1]) / F(x2)
                    if abs(X * X + Y * Y - 1) > F(1, 10**9) * (1 + (abs(o[0]) + abs(o[1])) / F(min(x1, x2))):
                        self.fail('%s: at u=%r the point is off the ellipse by %r' % (f, float(u), float(X * X + Y * Y - 1)))
                    if d == 3 and abs(v[2] - o[2]) > F(1, 10**9):
                        self.fail('%s: at u=%r the point leaves the plane' % (f, float(u)))

    def deriv(self, c0, c1, what):
        """c1 is the derivative of c0, inside every span of c1"""
        (p0, k0, P0), (p1, k1, P1) = c0, c1
        for a, b in spans_of(k1, p1):
            for i in range(p0 + 1):
                t = a + (b - a) * F(2 * i + 1, 2 * p0 + 2)
                x, s0 = ev(t, p0, k0, P0, False, 1)
                y, s1 = ev(t, p1, k1, P1)
                for j in range(len(x)):
                    if abs(x[j] - y[j]) > F(1, 10**9) * max(s0[j], s1[j]) + F(1, 10**11):
                        self.fail('%s: at %r coordinate %d is %r, the derivative is %r' % (what, float(t), j, float(y[j]), float(x[j])))


# ---- derivative and integral
def setup_c(dim, integ):
    def f(ex, st):
        G.clear()
        n, p = z3.Ints('n p')
        st.assume(and_(p >= (0 if integ else 1), p < 2**28, n >= p + 1, n < 2**28))
        ap, A = mk_vec(ex, st, n, 8 * dim, 'A')
        kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
        st.assume(sorted_(k))
        if not integ:
            st.assume(forall(1, lambda i: implies(and_(0 <= i, i < n - 1), k[i + 1] < k[i + p + 1]), lambda i: [k[i + 1]]))
        cp, _ = mk_vec(ex, st, 0, 8 * dim, 'C')
        kc, _ = mk_vec(ex, st, 0, 8, 'kc')
        G.update(n=n, p=p, A=[A.arr(8 * c) for c in range(dim)], k=k.arr(), cp=cp, kc=kc, dim=dim, any=z3.Int('any_i'))
        if not integ:
            return [ap, kp, p, cp, kc]
        o = out_buf(ex, st, 8 * dim, 'o')
        G['o'] = [z(ex.load(st, DBL, o.at(8 * c))) for c in range(dim)]
        return [ap, kp, p, o, cp, kc]
    return f


def der_at(C, i):
    k, p = G['k'], G['p']
    return [C.at(i, 8 * c) * (k[i + p + 1] - k[i + 1]) == z3.ToReal(p) * (G['A'][c][i + 1] - G['A'][c][i]) for c in range(G['dim'])]


def inv_der(L):
    C, i = L.vec('new_poles', 8 * G['dim']), z(num(L.int('i')))
    return [('i', and_(0 <= i, i <= G['n'] - 1)), ('size', z(C.len) == G['n'] - 1)] + [
        ('last pole, coordinate %d' % c, implies(i >= 1, der_at(C, i - 1)[c])) for c in range(G['dim'])] + [
        ('poles before, coordinate %d' % c, forall(1, lambda j: implies(and_(0 <= j, j < i - 1), der_at(C, j)[c]), lambda j: [C.at(j, 8 * c)])) for c in range(G['dim'])]


def post_der(ex, st, r):
    C, K, i, n, p = vec_view(ex, st, G['cp'], 8 * G['dim']), vec_view(ex, st, G['kc'], 8), G['any'], G['n'], G['p']
    return [('degree', z(num(r)) == p - 1), ('number of poles', z(C.len) == n - 1), ('number of knots', z(K.len) == n + p - 1),
            ('the knots, without the first and the last', implies(and_(0 <= i, i < n + p - 1), K[i] == G['k'][i + 1]))] + [
        ('poles: scaled differences, coordinate %d' % c, implies(and_(0 <= i, i < n - 1), der_at(C, i)[c])) for c in range(G['dim'])]


def int_at(C, j):
    k, p, A = G['k'], G['p'], G['A']
    return [z3.ToReal(p + 1) * (C.at(j, 8 * c) - C.at(j - 1, 8 * c)) == A[c][j - 1] * (k[p + j] - k[j - 1]) for c in range(G['dim'])]


def inv_int(L):
    C, i = L.vec('new_poles', 8 * G['dim']), z(num(L.int('i')))
    return [('i', and_(1 <= i, i <= G['n'] + 1)), ('size', z(C.len) == G['n'] + 1)] + [('start', and_(*[C.at(0, 8 * c) == G['o'][c] for c in range(G['dim'])]))] + [
        ('last pole, coordinate %d' % c, implies(i >= 2, int_at(C, i - 1)[c])) for c in range(G['dim'])] + [
        ('poles before, coordinate %d' % c, forall(1, lambda j: implies(and_(1 <= j, j < i - 1), int_at(C, j)[c]), lambda j: [C.at(j, 8 * c)])) for c in range(G['dim'])]


def post_int(ex, st, r):
    C, K, i, n, p = vec_view(ex, st, G['cp'], 8 * G['dim']), vec_view(ex, st, G['kc'], 8), G['any'], G['n'], G['p']
    k, m = G['k'], G['n'] + G['p'] + 1
    return [('degree', z(num(r)) == p + 1), ('number of poles', z(C.len) == n + 1), ('number of knots', z(K.len) == m + 2),
            ('the knots', implies(and_(0 <= i, i < m), K[i + 1] == k[i])), ('first knot', K[0] == k[0]), ('last knot', K[m + 1] == k[m - 1]),
            ('starts at the point', and_(*[C.at(0, 8 * c) == G['o'][c] for c in range(G['dim'])]))] + [
        ('poles: accumulated, coordinate %d' % c, implies(and_(1 <= i, i <= n), int_at(C, i)[c])) for c in range(G['dim'])]


for d in (1, 3):
    PROOFS.append(Proof('build_derivate dim %d' % d, 'vc_bder%d' % d, setup_c(d, False), post_der, tu=TU, callees=[check_curve_contract()],
                        loops={r'gbs::build_derivate<': {0: LoopSpec(inv_der, lambda L: G['n'] - z(num(L.int('i'))))}}))
    PROOFS.append(Proof('build_integrate dim %d' % d, 'vc_bint%d' % d, setup_c(d, True), post_int, tu=TU, callees=[check_curve_contract()],
                        loops={r'gbs::build_integrate<': {0: LoopSpec(inv_int, lambda L: G['n'] + 1 - z(num(L.int('i'))))}}))


def inverse(ex):
    """the poles of the derivative of the integral are those of the curve (knots of the integral: K[x] = k[x-1] inside)"""
    q = z3.Int('q')
    a, k0, k1, N0, N1, D = z3.Reals('a k0 k1 N0 N1 D')
    h = [q >= 1, k0 < k1, z3.ToReal(q) * (N1 - N0) == a * (k1 - k0), D * (k1 - k0) == z3.ToReal(q) * (N1 - N0)]
    return [('derivative of the integral', h, D == a)]


PROOFS.append(Lemma('derivative of the integral', inverse, tu=TU))


def telescoping(ex):
    """summation by parts: with b(i) = N(i,p-1)/(k(i+p)-k(i)) at a parameter, the derivative of N(i,p) is p(b(i)-b(i+1)) (C02); S(j), the sum of A(i)N'(i) for i<=j, is
    T(j) + p A(0) b(0) - p A(j) b(j+1), T(j) the sum over i<j of the poles of the derivative curve times N(i+1,p-1).  On the domain b(0) = b(n) = 0, so that S(n-1) = T(n-1)"""
    p, A0, A1, D, b0, bj, b1, b2, Nj, S, T, h = z3.Reals('p A0 A1 D b0 bj b1 b2 N1 S T h')
    Az = z3.Real('A_first')
    step = [h > 0, b1 * h == Nj, D * h == p * (A1 - A0), S == T + p * Az * b0 - p * A0 * b1]
    return [('start', [], p * Az * (b0 - b1) == 0 + p * Az * b0 - p * Az * b1),
            ('step', step, S + A1 * p * (b1 - b2) == (T + D * Nj) + p * Az * b0 - p * A1 * b2),
            ('on the domain', [S == T + p * Az * b0 - p * A0 * b1, b0 == 0, b1 == 0], S == T)]


PROOFS.append(Lemma('the derivative curve is the derivative', telescoping, tu=TU))


# ---- shapes
def setup_e(dim, circle):
    def f(ex, st):
        G.clear()
        r1, r2 = z3.Reals('r1 r2')
        o = out_buf(ex, st, 8 * dim, 'o')
        cp, _ = mk_vec(ex, st, 0, 8 * dim + 8, 'C')
        kc, _ = mk_vec(ex, st, 0, 8, 'kc')
        G.update(r1=r1, r2=r1 if circle else r2, o=[z(ex.load(st, DBL, o.at(8 * c))) for c in range(dim)], dim=dim, cp=cp, kc=kc)
        return ([r1] if circle else [r1, r2]) + [o, cp, kc]
    return f


DIR = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (1, 0)]
KN = [0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4]


def post_e(ex, st, r):
    dim = G['dim']
    C, K = vec_view(ex, st, G['cp'], 8 * dim + 8), vec_view(ex, st, G['kc'], 8)
    g = [('degree', z(num(r)) == 2), ('number of poles', z(C.len) == 9), ('number of knots', z(K.len) == 12)]
    g += [('knot %d' % i, K[i] == z3.Q(x, 4)) for i, x in enumerate(KN)]
    for i, (x, y) in enumerate(DIR):
        w = C.at(i, 8 * dim)
        g.append(('weight %d' % i, w == 1 if i % 2 == 0 else and_(w > 0, 2 * w * w == 1)))
        for c in range(dim):
            g.append(('pole %d, coordinate %d' % (i, c), C.at(i, 8 * c) == w * (G['o'][c] + ([x * G['r1'], y * G['r2']][c] if c < 2 else 0))))
    return g


for d in (2, 3):
    PROOFS.append(Proof('build_ellipse dim %d' % d, 'vc_ell%d' % d, setup_e(d, False), post_e, tu=TU, callees=[check_curve_contract()]))
    PROOFS.append(Proof('build_circle dim %d' % d, 'vc_cir%d' % d, setup_e(d, True), post_e, tu=TU, callees=[check_curve_contract()]))


def on_ellipse(ex):
    """each quarter (poles 2i, 2i+1, 2i+2; local parameter t) lies on the ellipse: the weighted offsets from the centre, in units of the radii, are A, B, and A^2+B^2 = W^2 with W > 0"""
    t, w = z3.Reals('t w')
    out = []
    for i in range(4):
        c = [(1 - t) * (1 - t), 2 * t * (1 - t) * w, t * t]
        A, B = [sum((c[j] * DIR[2 * i + j][x] for j in range(3)), z3.RealVal(0)) for x in (0, 1)]
        W = c[0] + c[1] + c[2]
        h = [0 <= t, t <= 1, w > 0, 2 * w * w == 1]
        out += [('quarter %d is on the ellipse' % i, h, A * A + B * B == W * W), ('quarter %d: weights positive' % i, h, W > 0),
                ('quarter %d turns counter-clockwise' % i, h + [t < 1], DIR[2 * i][0] * B - DIR[2 * i][1] * A >= 0)]
    return out


PROOFS.append(Lemma('the quarters of the ellipse', on_ellipse, tu=TU))


def setup_s(dim):
    def f(ex, st):
        G.clear()
        a, b = out_buf(ex, st, 8 * dim, 'a'), out_buf(ex, st, 8 * dim, 'b')
        unit = z3.Int('unit')
        st.assume(or_(unit == 0, unit == 1))
        cp, _ = mk_vec(ex, st, 0, 8 * dim, 'C')
        kc, _ = mk_vec(ex, st, 0, 8, 'kc')
        ld = lambda v: [z(ex.load(st, DBL, v.at(8 * c))) for c in range(dim)]
        G.update(a=ld(a), b=ld(b), unit=unit, cp=cp, kc=kc, dim=dim)
        return [a, b, unit, cp, kc]
    return f


def post_s(ex, st, r):
    dim, a, b, unit = G['dim'], G['a'], G['b'], G['unit']
    C, K = vec_view(ex, st, G['cp'], 8 * dim), vec_view(ex, st, G['kc'], 8)
    l2 = sum(((y - x) * (y - x) for x, y in zip(a, b)), z3.RealVal(0))
    return [('degree', z(num(r)) == 1), ('sizes', and_(z(C.len) == 2, z(K.len) == 4)), ('starts at 0', and_(K[0] == 0, K[1] == 0)), ('ends', K[2] == K[3]),
            ('unit range when asked for', implies(unit != 0, K[2] == 1)), ('arc length otherwise', implies(unit == 0, and_(K[2] >= 0, K[2] * K[2] == l2)))] + [
        ('end points, coordinate %d' % c, and_(C.at(0, 8 * c) == a[c], C.at(1, 8 * c) == b[c])) for c in range(dim)]


for d in (2, 3):
    PROOFS.append(Proof('build_segment dim %d' % d, 'vc_seg%d' % d, setup_s(d), post_s, tu=TU, callees=[check_curve_contract()]))

SUITE = S_()
