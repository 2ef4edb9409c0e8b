"""C07: knot removal (algorithm A5.8 and the single removal)"""
from .common import *
from .callees import num, check_curve_contract
from .rows import CurveOp
from .geo import fn, read
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
PROOFS = []
I, R = z3.IntSort(), z3.RealSort()
EPS_ = z3.Q(100, 2**52)
# S_c(t,i): pole i after t removals (the poles that are going to be dropped included); LE_c(t,k) and RI_c(t,k): the poles
# solved from the left and from the right in removal number t, coordinate c
SP, LE, RI = ([z3.Function('%s%d' % (x, c), I, I, R) for c in range(4)] for x in ('S', 'LE', 'RI'))


def KK(t):
    """number of poles solved from each side in removal t: while last - first > t"""
    D = G['p'] - G['s'] + t
    return z3.If(D <= 0, z3.IntVal(0), (D + 1) / 2)


def FI(t):
    return G['r'] - G['p'] - t


def LA(t):
    return G['r'] - G['s'] + t


def ALF(t, i):
    U, u, p = G['U0'], G['u'], G['p']
    return DIV(u - U[i], U[i + p + 1 + t] - U[i])


def BET(t, j):
    U, u, p = G['U0'], G['u'], G['p']
    return DIV(u - U[j - t], U[j + p + 1] - U[j - t])


def dev(t):
    """what removal t changes: (the two candidates, or the pole and its reconstruction)"""
    k = KK(t)
    i = FI(t) + k
    odd = G['p'] - G['s'] + 2 * t - 2 * k < t
    al = ALF(t, i)
    return odd, [(LE[c](t, k), RI[c](t, k)) for c in range(G['dim'])], [(SP[c](t, i), al * RI[c](t, k) + (1 - al) * LE[c](t, k)) for c in range(G['dim'])]


def setup(dim, order):
    def f(ex, st):
        G.clear()
        n, p, r, s, q = z3.Ints('n p r s q')
        u, tol, ua = z3.Reals('u tol ua')       # u: the knot; ua: the argument, within the knot tolerance of it
        up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(and_(p >= 1, p < 2**29, n >= p + 1, n < 2**29, q >= 0, q < 2**29))
        st.assume(sorted_(U))
        # u is a knot strictly inside the domain; r is its last place, s its multiplicity
        st.assume(and_(U[p] < u, u < U[n], p + 1 <= r, r <= n - 1, U[r] == u, u < U[r + 1], u <= ua, ua < U[r + 1], ua - u <= EPS_))
        st.assume(and_(1 <= s, s <= p + 1, r - s >= p, forall(1, lambda x: implies(and_(r - s < x, x <= r), U[x] == u), lambda x: [U[x]]), U[r - s] < u))
        U0, P0 = U.arr(0), [P.arr(8 * c) for c in range(dim)]
        st.assume(and_(U0[r - s] < u))
        G.update(dist=distf(dim), n=n, p=p, r=r, s=s, q=q, u=u, tol=tol, up=up, pp=pp, U0=U0, P0=P0, dim=dim, num=z3.If(q < s, q, s))
        a, t, k = z3.Ints('a t k')
        for c in range(dim):
            st.assume(z3.ForAll([a], SP[c](0, a) == P0[c][a], patterns=[SP[c](0, a)]))
            inr = and_(0 <= t, t < s)
            st.assume(z3.ForAll([t, k], implies(inr, and_(implies(k == 0, LE[c](t, k) == SP[c](t, FI(t) - 1)), implies(and_(1 <= k, k <= KK(t)),
                      LE[c](t, k) == (SP[c](t, FI(t) + k - 1) - (1 - ALF(t, FI(t) + k - 1)) * LE[c](t, k - 1)) * DIV(z3.RealVal(1), ALF(t, FI(t) + k - 1))))), patterns=[LE[c](t, k)]))
            st.assume(z3.ForAll([t, k], implies(inr, and_(implies(k == 0, RI[c](t, k) == SP[c](t, LA(t) + 1)), implies(and_(1 <= k, k <= KK(t)),
                      RI[c](t, k) == (SP[c](t, LA(t) - k + 1) - BET(t, LA(t) - k + 1) * RI[c](t, k - 1)) * DIV(z3.RealVal(1), 1 - BET(t, LA(t) - k + 1))))), patterns=[RI[c](t, k)]))
            st.assume(z3.ForAll([t, a], implies(and_(1 <= t, t <= s), SP[c](t, a) == nxt(c, t, a)), patterns=[SP[c](t, a)]))
        OKF = G['OK'] = z3.Function('OK', I, z3.BoolSort())
        st.assume(z3.ForAll([t], implies(and_(0 <= t, t < s), OKF(t) == within(t)), patterns=[OKF(t)]))
        return ARGS[order](ua, p, q, up, pp, tol)
    return f


ARGS = {'un': lambda u, p, q, up, pp, tol: [u, q, up, pp, p], 'tol': lambda u, p, q, up, pp, tol: [u, p, q, up, pp, tol], 'one': lambda u, p, q, up, pp, tol: [u, p, up, pp, tol]}


def setup_no(dim, order):
    """the argument is not an interior knot"""
    def f(ex, st):
        G.clear()
        n, p, r, q = z3.Ints('n p r q')
        u, tol = z3.Reals('u tol')
        up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(and_(p >= 1, p < 2**29, n >= p + 1, n < 2**29, q >= 0, q < 2**29))
        st.assume(sorted_(U))
        st.assume(U[p] < U[n])
        st.assume(or_(u <= U[p], u >= U[n], and_(p <= r, r < n, U[r] <= u, u < U[r + 1], or_(U[r] <= U[p], u - U[r] > EPS_))))
        st.assume(implies(and_(U[p] < u, u < U[n]), and_(p <= r, r < n)))
        G.update(n=n, p=p, r=r, up=up, pp=pp, U0=U.arr(0), P0=[P.arr(8 * c) for c in range(dim)], dim=dim)
        return ARGS[order](u, p, q, up, pp, tol)
    return f


def post_no(ex, st, ret):
    U, P = vec_view(ex, st, G['up'], 8), vec_view(ex, st, G['pp'], 8 * G['dim'])
    n, p = G['n'], G['p']
    g = [('nothing removed', z3.Not(ret) if z3.is_bool(z(ret)) else z(num(ret)) == 0)] if ret is not None else []
    g += [('number of knots', z(U.len) == n + p + 1), ('number of poles', z(P.len) == n), ('knots unchanged', forall(1, lambda x: implies(and_(0 <= x, x < n + p + 1), U[x] == G['U0'][x])))]
    return g + [('poles unchanged, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < n), P.at(x, 8 * c) == G['P0'][c][x]))) for c in range(G['dim'])]


def nxt(c, t, a):
    """pole a after removal t-1"""
    F, L, K = FI(t - 1), LA(t - 1), KK(t - 1)
    return z3.If(and_(F <= a, a < F + K), LE[c](t - 1, a - F + 1), z3.If(and_(L - K < a, a <= L), RI[c](t - 1, L - a + 1), SP[c](t - 1, a)))


def within(t):
    odd, A, B = dev(t)
    return z3.If(odd, DIST(A), DIST(B)) <= G['tol']


def DIST(prs):
    """distance of the two points: the function of their coordinates described by the contract of gbs::distance (proved below)"""
    return G['dist'](*[x for x, y in prs], *[y for x, y in prs])


def distf(d):
    return z3.Function('distance%d' % d, *([R] * (2 * d + 1)))


def distance_contract(d):
    def apply(ex, st, a):
        return distf(d)(*read(ex, st, a[0], d), *read(ex, st, a[1], d))
    return Contract(r'^double gbs::distance<double, %dul>\(' % d, apply, 'distance (this property)')


def mat(L):
    return L.vec('U', 8, True), L.vec(G['P'], 8 * G['dim'], True), L.vec('temp', 8 * G['dim'])


def inv_t(L):
    t, F, La = z(L.int('t')), z(L.int('first')), z(L.int('last'))
    U, P, T = mat(L)
    n, p = G['n'], G['p']
    g = [('t', and_(0 <= t, t <= G['num'])), ('first', F == FI(t)), ('last', La == LA(t)), ('sizes', and_(z(U.len) == n + p + 1, z(P.len) == n, z(T.len) == 2 * p + 2))]
    g += [('poles so far, coordinate %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < n), P.at(a, 8 * c) == SP[c](t, a)), lambda a: [P.at(a, 8 * c)])) for c in range(G['dim'])]
    for c in range(G['dim']):
        g.append(('poles away from the knot are kept, coordinate %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < n, or_(a < FI(t) + 1, a > La - 1)), P.at(a, 8 * c) == G['P0'][c][a]), lambda a: [P.at(a, 8 * c)])))
    if G.get('tolerant'):
        x = z3.Int('x')
        g += [('within tolerance', z3.ForAll([x], implies(and_(0 <= x, x < t), G['OK'](x)), patterns=[G['OK'](x)]))]
    return g


def cur(L):
    return z(L.int('t'))


def inv_solve(L):
    t, i, j, ii, jj, off = (z(L.int(x)) for x in ('t', 'i', 'j', 'ii', 'jj', 'off'))
    U, P, T = mat(L)
    F, La, k = FI(t), LA(t), ii - 1
    g = [('counters', and_(ii >= 1, i == F + k, j == La - k, off == F - 1, jj == La - k - off, k <= KK(t))), ('size', z(T.len) == 2 * G['p'] + 2)]
    for c in range(G['dim']):
        g += [('last one from the right %d' % c, T.at(jj + 1, 8 * c) == RI[c](t, k)), ('last one from the left %d' % c, T.at(ii - 1, 8 * c) == LE[c](t, k)),
              ('from the left %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= k), T.at(x, 8 * c) == LE[c](t, x)), lambda x: [T.at(x, 8 * c)])),
              ('from the right %d' % c, forall(1, lambda x: implies(and_(jj < x, x <= La + 1 - off), T.at(x, 8 * c) == RI[c](t, La + 1 - off - x)), lambda x: [T.at(x, 8 * c)]))]
    return g


def inv_commit(L):
    t, i, j, off = (z(L.int(x)) for x in ('t', 'i', 'j', 'off'))
    U, P, T = mat(L)
    F, La, k = FI(t), LA(t), i - FI(t)
    g = [('counters', and_(k >= 0, j == La - k, off == F - 1, k <= KK(t))), ('size', z(P.len) == G['n'])]
    for c in range(G['dim']):
        g.append(('poles %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < G['n']), P.at(a, 8 * c) == z3.If(and_(F <= a, a < F + k), LE[c](t, a - F + 1), z3.If(and_(La - k < a, a <= La), RI[c](t, La - a + 1), SP[c](t, a)))), lambda a: [P.at(a, 8 * c)])))
    return g


def fout():
    return (2 * G['r'] - G['s'] - G['p']) / 2


def inv_parity(L):
    t, i, j, k = (z(L.int(x)) for x in ('t', 'i', 'j', 'k'))
    return [('k', and_(1 <= k, k <= t)), ('first dropped pole', j == fout() - (k - 1) / 2), ('last dropped pole', i == fout() + k / 2)]


def inv_shift(L):
    t, j, k = (z(L.int(x)) for x in ('t', 'j', 'k'))
    U, P, T = mat(L)
    n, j0 = G['n'], fout() - (t - 1) / 2
    g = [('counters', and_(j0 + t <= k, k <= n, j == k - t, j0 >= 0)), ('size', z(P.len) == n)]
    for c in range(G['dim']):
        g.append(('poles %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < n), P.at(a, 8 * c) == z3.If(and_(j0 <= a, a < j), SP[c](t, a + t), SP[c](t, a))), lambda a: [P.at(a, 8 * c)])))
    return g


def inv_knots(L):
    t, k = z(L.int('t')), z(L.int('k'))
    U, P, T = mat(L)
    n, p, r = G['n'], G['p'], G['r']
    return [('k', and_(r + 1 <= k, k <= n + p + 1)), ('size', z(U.len) == n + p + 1), ('knots', forall(1, lambda x: implies(and_(0 <= x, x < n + p + 1), U[x] == z3.If(and_(r - t < x, x < k - t), G['U0'][x + t], G['U0'][x])), lambda x: [U[x]]))]


def result(ex, st, t):
    U, P = vec_view(ex, st, G['up'], 8), vec_view(ex, st, G['pp'], 8 * G['dim'])
    n, p, r = G['n'], G['p'], G['r']
    j0 = fout() - (t - 1) / 2
    g = [('number of knots', z(U.len) == n + p + 1 - t), ('number of poles', z(P.len) == n - t),
         ('the knot loses that many occurrences, the others are kept', forall(1, lambda x: implies(and_(0 <= x, x < n + p + 1 - t), U[x] == z3.If(x <= r - t, G['U0'][x], G['U0'][x + t]))))]
    for c in range(G['dim']):
        g += [('poles, coordinate %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < n - t), P.at(a, 8 * c) == z3.If(and_(t > 0, a >= j0), SP[c](t, a + t), SP[c](t, a))))),
              ('poles before the affected ones, coordinate %d' % c, forall(1, lambda a: implies(and_(0 <= a, a < r - p - t + z3.If(G['s'] <= p, z3.IntVal(1), z3.IntVal(0))), P.at(a, 8 * c) == G['P0'][c][a])))]
    return g


def post_un(ex, st, ret):
    return result(ex, st, G['num'])


def post_tol(ex, st, ret):
    t, x = z(ret), z3.Int('x')
    OKF = G['OK']
    return [('at most what is asked for', and_(0 <= t, t <= G['num'])),
            ('every removal made is within the tolerance', z3.ForAll([x], implies(and_(0 <= x, x < t), OKF(x)), patterns=[OKF(x)])),
            ('it stops only when the tolerance forbids the next one', implies(t < G['num'], z3.Not(OKF(t))))] + result(ex, st, t)


def loops(rx):
    V = lambda a, b: (lambda L: z(L.int(a)) - z(L.int(b)))
    return {rx: {0: LoopSpec(inv_t, lambda L: G['num'] - z(L.int('t'))), 1: LoopSpec(inv_solve, V('j', 'i')), 2: LoopSpec(inv_commit, V('j', 'i')),
                 3: LoopSpec(inv_knots, lambda L: G['n'] + G['p'] + 1 - z(L.int('k'))), 4: LoopSpec(inv_parity, lambda L: z(L.int('t')) - z(L.int('k'))), 5: LoopSpec(inv_shift, lambda L: G['n'] - z(L.int('k')))}}


def named(f, P, **kw):
    def g(ex, st):
        a = f(ex, st)
        G['P'] = P
        G.update(kw)
        return a
    return g


PROOFS.append(Proof('unconditional removal', 'vc_rem1', named(setup(1, 'un'), 'P'), post_un, tu=TU, divfn=True, bound_hints=lambda up, v: [G['r'] + 1 if up else G['r'] - G['s'] + 1],
                    loops=loops(r'^void gbs::remove_knot<double, 1ul>\(double, unsigned long, std::vector')))
PROOFS.append(Proof('removal within a tolerance', 'vc_remt3', named(setup(3, 'tol'), 'Pw', tolerant=True), post_tol, tu=TU, divfn=True, bound_hints=lambda up, v: [G['r'] + 1 if up else G['r'] - G['s'] + 1],
                    callees=[distance_contract(3)], loops=loops(r'^auto gbs::remove_knot<double, 3ul>\(double, unsigned long, unsigned long, std::vector')))
PROOFS.append(fn('distance', 'geom.cpp', 'vc_dist3', [('p', 'a', 3), ('p', 'b', 3)], lambda I_, O_, r: [('non-negative', z(r) >= 0), ('square', z(r) * z(r) == z3.Sum([(x - y) * (x - y) for x, y in zip(I_['a'], I_['b'])]))]))
for d in (3,):
    for o, e in (('un', 'rem'), ('tol', 'remt'), ('one', 'rems')):
        PROOFS.append(Proof('not an interior knot (%s), dim %d' % ({'un': 'unconditional', 'tol': 'within a tolerance', 'one': 'once'}[o], d), 'vc_%s%d' % (e, d), setup_no(d, o), post_no, tu=TU,
                            bound_hints=lambda up, v: [G['r'] + 1] if up else []))
# the class: removeKnot is exactly the removal within a tolerance
RXT = r'^auto gbs::remove_knot<double, %dul>\(double, unsigned long, unsigned long, std::vector'
for nm, e, d in (('BSCurve::removeKnot', 'vc_crem3', 3), ('BSCurve::removeKnot, restricted range', 'vc_crem3b', 3), ('BSCurveRational::removeKnot', 'vc_crem3r', 4), ('BSCurveRational::removeKnot, restricted range', 'vc_crem3rb', 4)):
    Rw = CurveOp(d)
    PROOFS.append(Proof(nm, e, Rw.setup(lambda s: [s.a, s.p, s.r, s.up_, s.pp, s.c], bounds='restricted' in nm), Rw.post(), tu=TU,
                        callees=[check_curve_contract(), Rw.op_contract(RXT % d, 'remove_knot (this property)', lambda a: (a[1], a[3], a[4], (a[0], a[2], a[5])), lambda s: (s.a, s.r, s.c), True)]))


def reinserted(ex):
    """what the removed poles mean: inserting the knot again (the blend of A5.1 with the knots as they were) gives back every pole of the stage before from
    both sides; the one place where the two sides meet is what `dev` measures, so a removal with no deviation is undone exactly by an insertion"""
    U = z3.Array('U', I, R)
    n, p, r, s, t, i, k = z3.Ints('n p r s t i k')
    u = z3.Real('u')
    G.clear()
    G.update(U0=U, u=u, p=p, r=r, s=s, dim=1)
    srt = forall(2, lambda a, b: implies(and_(0 <= a, a <= b, b <= n + p), U[a] <= U[b]), lambda a, b: [z3.MultiPattern(U[a], U[b])])
    hy = [p >= 1, p + 1 <= r, r < n, 1 <= s, s <= p + 1, r - s >= p, 0 <= t, t < s, srt, U[r - s] < u, u < U[r + 1]]
    D = lambda a, b: z3.Implies(b != 0, DIV(a, b) * b == a)
    one = z3.RealVal(1)
    # k-th pole from the left
    i = FI(t) + k - 1
    a = ALF(t, i)
    x, e, l = SP[0](t, i), LE[0](t, k - 1), LE[0](t, k)
    hl = hy + [1 <= k, k <= KK(t)]
    yield 'left: the blend is positive', hl + [D(u - U[i], U[i + p + 1 + t] - U[i])], a > 0
    yield 'left: inserting again gives the pole back', hl + [a > 0, l == (x - (1 - a) * e) * DIV(one, a), D(one, a)], x == a * l + (1 - a) * e
    j = LA(t) - k + 1
    b = BET(t, j)
    x, e, l = SP[0](t, j), RI[0](t, k - 1), RI[0](t, k)
    yield 'right: the blend is below 1', hl + [D(u - U[j - t], U[j + p + 1] - U[j - t])], b < 1
    yield 'right: inserting again gives the pole back', hl + [b < 1, l == (x - b * e) * DIV(one, 1 - b), D(one, 1 - b)], x == b * e + (1 - b) * l
    # between the two sides: the t poles dropped by earlier removals, and the pole measured when they do not meet
    odd = p - s + 2 * t - 2 * KK(t) < t
    yield 'no pole is missed', hy, LA(t) - KK(t) - (FI(t) + KK(t)) + 1 == t + z3.If(odd, z3.IntVal(0), z3.IntVal(1))


PROOFS.append(Lemma('inserting the knot again', reinserted, tu=TU))


def boehm(u, r, p, U, P):
    """r times one knot, exactly"""
    U, P = list(U), [list(x) for x in P]
    for _ in range(r):
        k = max(i for i in range(len(U)) if U[i] <= u)
        Q = []
        for i in range(len(P) + 1):
            if i <= k - p:
                Q.append(P[i])
            elif i > k:
                Q.append(P[i - 1])
            else:
                a = (u - U[i]) / (U[i + p] - U[i]) if U[i + p] > U[i] else F(0)
                Q.append(P[i - 1] if a == 0 else [a * x + (1 - a) * y for x, y in zip(P[i], P[i - 1])])
        P = Q
        U = U[:k + 1] + [u] + U[k + 1:]
    return U, P


def removed(u, q, p, U, P, tol=None):
    """the specification above, computed exactly: (removals made, knots, poles, deviations met)"""
    U0, P = list(U), [list(x) for x in P]
    dim, n = len(P[0]), len(P)
    r, s = max(i for i in range(len(U)) if U[i] <= u), U.count(u)
    t, devs = 0, []
    while t < min(q, s):
        Fi, La, K = r - p - t, r - s + t, max(0, -(-(p - s + t) // 2))
        L, Rr = [P[Fi - 1]], [P[La + 1]]
        al = lambda i: (u - U0[i]) / (U0[i + p + 1 + t] - U0[i])
        be = lambda j: (u - U0[j - t]) / (U0[j + p + 1] - U0[j - t])
        for k in range(1, K + 1):
            i, j = Fi + k - 1, La - k + 1
            L.append([(x - (1 - al(i)) * y) / al(i) for x, y in zip(P[i], L[-1])])
            Rr.append([(x - be(j) * y) / (1 - be(j)) for x, y in zip(P[j], Rr[-1])])
        i = Fi + K
        if p - s + 2 * t - 2 * K < t:
            d = [x - y for x, y in zip(L[K], Rr[K])]
        else:
            d = [x - (al(i) * y + (1 - al(i)) * w) for x, y, w in zip(P[i], Rr[K], L[K])]
        devs.append(math.sqrt(float(sum(x * x for x in d))))
        if tol is not None and devs[-1] > tol:
            break
        for k in range(1, K + 1):
            P[Fi + k - 1], P[La - k + 1] = L[k], Rr[k]
        t += 1
    if t:
        j0 = (2 * r - s - p) // 2 - (t - 1) // 2
        P = P[:j0] + P[j0 + t:]
        U0 = U0[:r - t + 1] + U0[r + 1:]
    return t, U0, P, devs


class S_(Suite):
    tu = TU
    rule = 'random curves (degree 1-6, repeated and graded knots, open or not) with a knot inserted exactly and removed again by every version, arbitrary poles removed with tolerances from nothing to everything and compared with the specification computed exactly, values that are no interior knots'

    def cases(self, rng, tier):
        N = {'quick': 300, 'thorough': 4000, 'search': 2500}[tier]
        for it in range(N):
            for _ in range(60):
                p = rng.choice([1, 2, 2, 3, 3, 3, 4, 5])
                k = O.knots(rng, p, rng.choice([2, 2, 3, 4, 6]), rng.choice(['int', 'uniform', 'unit']))
                n = len(k) - p - 1
                if len(set(k)) > 2:
                    break
            else:
                continue
            if rng.random() < 0.25:
                for i in range(p):
                    k[i] -= F(p - i, 4)
                    k[-1 - i] += F(p - i, 2)
            P = O.pts(rng, n, 3)
            inner = [x for x in sorted(set(k)) if k[p] < x < k[n]]
            # insert, then remove
            u = pick_u(rng, k[p:n + 1], p, inside=True)
            m = k.count(u)
            if m < p:
                r = rng.randrange(1, p - m + 1)
                yield 'back', (fl(u), p, r, fl(k), fl(P), fl(posw(rng, P)))
            if inner:
                u = rng.choice(inner)
                m = k.count(u)
                scale = 2.0 ** rng.randrange(-20, 6)
                yield 'any', (fl(u), p, rng.choice([0, 1, 1, 2, m, m + 1, p + 2]), fl(k), fl(P), rng.choice([0.0, scale, scale, 1e6]), rng.choice([0, 0, 2.0 ** -46]))
            bad = [k[p], k[n], k[p] - 1, k[n] + 1, k[0], k[-1]] + [x + (y - x) * F(1, 3) for x, y in zip(k, k[1:]) if x < y and k[p] <= x and y <= k[n]]
            yield 'no', (fl(rng.choice(bad)), p, rng.choice([1, 2, p]), fl(k), fl(P))

    def poles(self, got, want, sc, what, rel=1e-8):
        if len(got) != len(want):
            self.fail('%s: %d poles, expected %d' % (what, len(got), len(want)))
        for i, (a, b) in enumerate(zip(got, want)):
            for x, y in zip(a, b):
                if abs(float(x) - float(y)) > rel * sc:
                    self.fail('%s: pole %d is %r, expected %r' % (what, i, [float(v) for v in a], [float(v) for v in b]))

    def run(self, lib, g, c):
        if g == 'back':
            u, p, r, k, P, H = c
            K, E = ex_(k), ex_(P)
            k1, Q = boehm(F(u), r, p, K, E)
            sc = max(abs(x) for y in fl(Q) for x in y) + 1
            q = [fl(k1), fl(Q)]
            tol = 1e-7 * sc
            o = self.ok(lib.call('vc_remt3', [u, p, r, Vec(q[0]), Vec(q[1], 3), tol], 'q'))
            if o.ret != r:
                self.fail('knot inserted %d times, removed %d times only' % (r, o.ret))
            close_list(self, o.out[3], k, 'knots after insertion and removal within a tolerance')
            self.poles(o.out[4], P, sc, 'insertion then removal within a tolerance', 1e-6)
            o = self.ok(lib.call('vc_rem3', [u, r, Vec(q[0]), Vec(q[1], 3), p])).out
            close_list(self, o[2], k, 'knots after insertion and removal')
            self.poles(o[3], P, sc, 'insertion then removal', 1e-6)
            o = self.ok(lib.call('vc_rem1', [u, r, Vec(q[0]), Vec([x[0] for x in q[1]]), p])).out
            self.poles([[x] for x in o[3]], [x[:1] for x in P], sc, 'insertion then removal, dimension 1', 1e-6)
            kk, pp = q
            for i in range(r):
                o = self.ok(lib.call('vc_rems3', [u, p, Vec(kk), Vec(pp, 3), tol], 'b'))
                if not o.ret:
                    self.fail('knot inserted %d times, single removal %d refused' % (r, i + 1))
                kk, pp = [float(x) for x in o.out[2]], [[float(x) for x in y] for y in o.out[3]]
            close_list(self, kk, k, 'knots after insertion and single removals')
            self.poles(pp, P, sc, 'insertion then single removals', 1e-6)
            o = self.ok(lib.call('vc_crem3', [u, p, r, Vec(q[0]), Vec(q[1], 3), tol])).out
            close_list(self, o[3], k, 'knots after insertion and removal, curve object')
            b = [k[0] + (k[-1] - k[0]) / 4, k[0] + (k[-1] - k[0]) / 2]
            close_list(self, self.ok(lib.call('vc_crem3b', [u, p, r, Vec(q[0]), Vec(q[1], 3), tol, *b, Out(2)])).out[8], b, 'range of a curve whose range was restricted, after removing a knot')
            self.poles(o[4], P, sc, 'insertion then removal, curve object', 1e-6)
            k1, Q = boehm(F(u), r, p, K, ex_(H))
            sc = max(abs(x) for y in fl(Q) for x in y) + 1
            o = self.ok(lib.call('vc_crem3r', [u, p, r, Vec(fl(k1)), Vec(fl(Q), 4), 1e-7 * sc])).out
            close_list(self, o[3], k, 'knots after insertion and removal, rational curve')
            self.poles(o[4], H, sc, 'insertion then removal, rational curve', 1e-6)
        elif g == 'any':
            u, p, q, k, P, tol, off = c
            K, E = ex_(k), ex_(P)
            sc = max(abs(x) for y in P for x in y) + 1
            s = k.count(u)
            t, k1, Q, dv = removed(F(u), q, p, K, E)
            big = max([abs(float(x)) for y in Q for x in y] + [sc]) * 10
            o = self.ok(lib.call('vc_rem3', [u + off, q, Vec(k), Vec(P, 3), p])).out
            close_list(self, o[2], k1, 'knots after %d removals' % t)
            self.poles(o[3], Q, big, 'removal')
            t, k1, Q, dv = removed(F(u), q, p, K, E, tol)
            if any(abs(d - tol) < 1e-6 * (d + tol) + 1e-9 * big for d in dv):
                return
            for nm, a, iu, ik, ip in (('vc_remt3', [u + off, p, q, Vec(k), Vec(P, 3), tol], 0, 3, 4), ('vc_crem3', [u + off, p, q, Vec(k), Vec(P, 3), tol], 0, 3, 4)):
                o = self.ok(lib.call(nm, a, 'q' if nm == 'vc_remt3' else None))
                if nm == 'vc_remt3' and o.ret != t:
                    self.fail('removed %d times within %r, expected %d (deviations %r)' % (o.ret, tol, t, dv))
                close_list(self, o.out[ik], k1, 'knots after %d removals within %r' % (t, tol))
                self.poles(o.out[ip], Q, big, 'removal within a tolerance')
            t, k1, Q, dv = removed(F(u), 1, p, K, E, tol)
            if tol > 0:
                o = self.ok(lib.call('vc_rems3', [u + off, p, Vec(k), Vec(P, 3), tol], 'b'))
                if bool(o.ret) != (t == 1):
                    self.fail('single removal: %r, deviation %r for the tolerance %r' % (o.ret, dv, tol))
                close_list(self, o.out[2], k1, 'knots after a single removal')
                if t == 0 or (p - s) % 2 == 0:
                    self.poles(o.out[3], Q, big, 'single removal')
                else:       # the pole where the two sides meet may come from either
                    self.poles(o.out[3], Q, 1.0, 'single removal', tol * 1.001 + 1e-8 * big)
        elif g == 'no':
            u, p, q, k, P = c
            for nm, a, rt, ik, ip in (('vc_rem3', [u, q, Vec(k), Vec(P, 3), p], None, 2, 3), ('vc_remt3', [u, p, q, Vec(k), Vec(P, 3), 1e9], 'q', 3, 4), ('vc_rems3', [u, p, Vec(k), Vec(P, 3), 1e9], 'b', 2, 3), ('vc_crem3', [u, p, q, Vec(k), Vec(P, 3), 1e9], None, 3, 4)):
                o = self.ok(lib.call(nm, a, rt))
                if o.ret:
                    self.fail('%s removed %r, which is no interior knot' % (nm, u))
                close_list(self, o.out[ik], k, 'knots, nothing to remove')
                self.poles(o.out[ip], P, 1.0, 'nothing to remove', 1e-15)


SUITE = S_()
