"""C21: definitions are checked"""
from .common import *
from .callees import num
from . import C10
LEVEL = 'proof'
TU = 'valid.cpp'
G = {}
PROOFS = []
EPS_ = z3.Q(100, 2**52)
W = 2**64


def uns(x):
    return z3.If(x < 0, x + W, x)


def sizes(st, *names):
    """any 64-bit unsigned values: (machine value, mathematical value)"""
    out = []
    for nm in names:
        x = z3.Int(nm)
        st.assume(and_(-2**63 <= x, x < 2**63))
        out.append((x, uns(x)))
    return out


# ---- check_curve
def setup_check(srt):
    def f(ex, st):
        n, d = z3.Ints('n d')
        kp, k = mk_vec(ex, st, n, 8, 'k')
        st.assume(and_(n >= 0, n < 2**40))
        (np_, NP), (p, P) = sizes(st, 'np', 'p')
        if srt:
            st.assume(sorted_(k))
        else:
            st.assume(and_(1 <= d, d < n, k[d] < k[d - 1] - 2 * EPS_))
        G.update(n=n, d=d, k=k, NP=NP, P=P, srt=srt)
        return [np_, kp, p]
    return f


def setup_any(ex, st):
    n = z3.Int('n')
    kp, k = mk_vec(ex, st, n, 8, 'k')
    st.assume(and_(n >= 0, n < 2**40))
    (np_, NP), (p, P) = sizes(st, 'np', 'p')
    G.update(n=n, k=k, NP=NP, P=P, srt=None)
    return [np_, kp, p]


def truth(r):
    return z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r if z3.is_bool(r) else z(r) != 0


def post_sorted(ex, st, r):
    return [('a well-formed definition is accepted', implies(and_(G['NP'] + G['P'] + 1 == G['n'], G['NP'] >= G['P'] + 1), truth(r)))]


def post_descent(ex, st, r):
    return [('knots that go down are refused', z3.Not(truth(r)))]


def post_size(ex, st, r):
    return [('only matching sizes and enough poles are accepted', implies(truth(r), and_(G['NP'] + G['P'] + 1 == G['n'], G['NP'] >= G['P'] + 1, G['n'] >= 2)))]


def inv_unflat(L):
    k, n, i = G['k'], G['n'], z(L.int('i'))
    u, m = L.vec('knots', 8, ref=True), L.vec('mult', 8, ref=True)
    ul = z(u.len)
    dif = k[i - 1] - u[ul - 1]
    g = [('i', and_(1 <= i, i <= n)), ('sizes', and_(1 <= ul, ul <= i, z(m.len) == ul))]
    if G['srt'] is None:
        return g
    g += [('the last value is close to the last knot', and_(dif <= EPS_, dif >= -EPS_))]
    if G['srt']:
        g += [('not above it', dif >= 0), ('increasing so far', forall(1, lambda x: implies(and_(0 <= x, x + 1 < ul), u[x] <= u[x + 1]), lambda x: [u[x]]))]
    else:
        x = z3.Int('x')
        g += [('the descent shows in the values', implies(i > G['d'], z3.Exists([x], and_(1 <= x, x < ul, u[x] < u[x - 1]))))]
    return g


UF2 = r'^void gbs::unflat_knots<double, unsigned long>\('
UL = {UF2: {0: LoopSpec(inv_unflat, lambda L: G['n'] - z(L.int('i')))}}
for nm, s, po in (('well-formed definitions', setup_check(True), post_sorted), ('knots out of order', setup_check(False), post_descent), ('sizes', setup_any, post_size)):
    PROOFS.append(Proof('check_curve: ' + nm, 'vc_check', s, po, tu=TU, loops=UL))


def check_contract():
    """check_curve, as discharged above"""
    def apply(ex, st, a):
        k = vec_view(ex, st, a[1], 8)
        n, np_, p = z(k.len), uns(z(num(a[0]))), uns(z(num(a[2])))
        ex.oblige(st, 'pre:check_curve', and_(n >= 0, n < 2**40))
        b = z3.Bool('check_curve!%d' % next(ex.fresh_n))
        fit = and_(n == np_ + p + 1, np_ >= p + 1)
        st.assume(implies(and_(sorted_(k), fit), b))
        st.assume(implies(b, and_(fit, forall(1, lambda d: implies(and_(1 <= d, d < n), k[d] >= k[d - 1] - 2 * EPS_)))))
        G.setdefault('checks', []).append(dict(b=b, k=k.arr(0), n=n, np=np_, p=p))
        return b
    return Contract(r'^auto gbs::check_curve<double>\(', apply, 'check_curve (proved here)')


CC = [check_contract()]


def well(k, n, np_, p):
    return and_(forall(2, lambda a, b: implies(and_(0 <= a, a <= b, b < n), k[a] <= k[b])), n == np_ + p + 1, np_ >= p + 1)


def sound(k, n, np_, p):
    return and_(n == np_ + p + 1, np_ >= p + 1, n >= 2, forall(1, lambda d: implies(and_(1 <= d, d < n), k[d] >= k[d - 1] - 2 * EPS_)))


# ---- the constructors
def setup_crv(d):
    def f(ex, st):
        G.clear()
        n, np_ = z3.Ints('n np')
        kp, k = mk_vec(ex, st, n, 8, 'k')
        pp, P = mk_vec(ex, st, np_, 8 * d, 'P')
        st.assume(and_(n >= 0, n < 2**30, np_ >= 0, np_ < 2**30))
        ((p, PM),) = sizes(st, 'p')
        po, ko, do = (mk_vec(ex, st, z3.IntVal(0), r, x)[0] for r, x in ((8 * d, 'Po'), (8, 'ko'), (8, 'do')))
        do = mk_vec(ex, st, z3.IntVal(2), 8, 'd2', kinds={0: 'int'})[0]
        b = out_buf(ex, st, 16, 'b')
        G.update(n=n, np=np_, p=p, PM=PM, k=k.arr(0), P=[P.arr(8 * c) for c in range(d)], po=po, ko=ko, do=do, b=b, d=d)
        return [pp, kp, p, po, ko, b, do]
    return f


def same(v, a, n, what):
    return [(what + ': length', z(v.len) == n), (what + ': values', forall(1, lambda i: implies(and_(0 <= i, i < n), v[i] == a[i])))]


def same_pts(v, A, n, what):
    return [(what + ': length', z(v.len) == n)] + [('%s: coordinate %d' % (what, c), forall(1, lambda i: implies(and_(0 <= i, i < n), v.at(i, 8 * c) == A[c][i]))) for c in range(len(A))]


def post_crv(ex, st, r):
    n, np_ = G['n'], G['np']
    b = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(2)]
    return [('what is accepted is a B-spline', sound(G['k'], n, np_, G['PM']))] + same_pts(vec_view(ex, st, G['po'], 8 * G['d']), G['P'], np_, 'poles') + same(vec_view(ex, st, G['ko'], 8), G['k'], n, 'knots') + \
           [('degree', vec_view(ex, st, G['do'], 8)[0] == G['p']), ('bounds', and_(b[0] == G['k'][0], b[1] == G['k'][n - 1]))]


def throws_crv(ex, st):
    return [('only ill-formed definitions are refused', z3.Not(well(G['k'], G['n'], G['np'], G['PM'])))]


for nm, e, d in (('BSCurve', 'vc_crv', 3), ('BSCurveRational', 'vc_crvr', 4)):
    PROOFS.append(Proof('constructing a ' + nm, e, setup_crv(d), post_crv, tu=TU, callees=CC, throws=throws_crv))


# ---- surfaces
def setup_srf(d, room, w=False):
    def f(ex, st):
        G.clear()
        pd = d - 1 if w else d
        nu, nv, np_ = z3.Ints('nu nv np')
        kup, ku = mk_vec(ex, st, nu, 8, 'ku')
        kvp, kv = mk_vec(ex, st, nv, 8, 'kv')
        pp, P = mk_vec(ex, st, np_, 8 * pd, 'P')
        st.assume(and_(*[and_(x >= 0, x < 2**30) for x in (nu, nv, np_)]))
        (p, PM), (q, QM) = sizes(st, 'p', 'q')
        st.assume(and_(nu > PM, nv > QM) if room else or_(nu <= PM, nv <= QM))
        po, kuo, kvo = (mk_vec(ex, st, z3.IntVal(0), r, x)[0] for r, x in ((8 * d, 'Po'), (8, 'kuo'), (8, 'kvo')))
        do = mk_vec(ex, st, z3.IntVal(2), 8, 'd2', kinds={0: 'int'})[0]
        b = out_buf(ex, st, 32, 'b')
        G.update(nu=nu, nv=nv, np=np_, p=p, q=q, PM=PM, QM=QM, ku=ku.arr(0), kv=kv.arr(0), P=[P.arr(8 * c) for c in range(pd)], po=po, kuo=kuo, kvo=kvo, do=do, b=b, d=d, w=w)
        if w:
            nw = z3.Int('nw')
            wp, wv = mk_vec(ex, st, nw, 8, 'w')
            st.assume(and_(nw >= 0, nw < 2**30))
            G.update(nw=nw, W=wv.arr(0))
            return [pp, wp, kup, kvp, p, q, po, kuo, kvo, b, do]
        return [pp, kup, kvp, p, q, po, kuo, kvo, b, do]
    return f


def poles_post(o):
    np_, d = G['np'], G['d']
    if not G['w']:
        return same_pts(o, G['P'], np_, 'poles')
    return [('as many weights as poles', G['nw'] == np_), ('poles: length', z(o.len) == np_), ('weights', forall(1, lambda i: implies(and_(0 <= i, i < np_), o.at(i, 8 * (d - 1)) == G['W'][i])))] + \
        [('poles times weights, coordinate %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < np_), o.at(i, 8 * c) == G['P'][c][i] * G['W'][i]))) for c in range(d - 1)]


def post_srf_small(ex, st, r):
    return [('fewer knots than the degree requires: refused', False)]


def post_srf(ex, st, r):
    b = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(4)]
    nu, nv, np_, p, q = (G[x] for x in ('nu', 'nv', 'np', 'PM', 'QM'))
    mu, mv = nu - p - 1, nv - q - 1
    o = vec_view(ex, st, G['do'], 8)
    return [('accepted along U is a B-spline', sound(G['ku'], nu, mu, p)), ('accepted along V is a B-spline', sound(G['kv'], nv, mv, q)), ('as many poles as the grid', np_ == mu * mv)] + \
        poles_post(vec_view(ex, st, G['po'], 8 * G['d'])) + same(vec_view(ex, st, G['kuo'], 8), G['ku'], nu, 'U knots') + same(vec_view(ex, st, G['kvo'], 8), G['kv'], nv, 'V knots') + \
        [('degrees', and_(o[0] == G['p'], o[1] == G['q'])), ('bounds', and_(b[0] == G['ku'][0], b[1] == G['ku'][nu - 1], b[2] == G['kv'][0], b[3] == G['kv'][nv - 1]))]


def throws_srf(ex, st):
    nu, nv, np_, p, q = (G[x] for x in ('nu', 'nv', 'np', 'PM', 'QM'))
    mu, mv = nu - p - 1, nv - q - 1
    return [('only ill-formed definitions are refused', z3.Not(and_(well(G['ku'], nu, mu, p), well(G['kv'], nv, mv, q), np_ == mu * mv, *([G['nw'] == np_] if G['w'] else []))))]


for nm, e, d in (('BSSurface', 'vc_srf', 3), ('BSSurfaceRational', 'vc_srfr', 4)):
    PROOFS.append(Proof('constructing a ' + nm, e, setup_srf(d, True), post_srf, tu=TU, callees=CC, throws=throws_srf))
    PROOFS.append(Proof('constructing a %s, too few knots' % nm, e, setup_srf(d, False), post_srf_small, tu=TU, callees=CC, throws=throws_srf))
PROOFS.append(Proof('constructing a BSSurfaceRational from weights', 'vc_srfw', setup_srf(3, True, True), post_srf, tu=TU, callees=CC, throws=throws_srf))


# ---- replacing the poles of a surface
def setup_srep(ex, st):
    G.clear()
    nu, nv, p, q, m, N = z3.Ints('nu nv p q mlen N')
    st.assume(and_(*[and_(x >= 0, x < 2**29) for x in (nu, nv, p, q, m, N)]))
    st.assume(and_(nu >= p + 1, nv >= q + 1, N == nu * nv))
    kup, ku = mk_vec(ex, st, nu + p + 1, 8, 'ku')
    kvp, kv = mk_vec(ex, st, nv + q + 1, 8, 'kv')
    st.assume(and_(sorted_(ku), sorted_(kv)))
    pp, P = mk_vec(ex, st, N, 24, 'P')
    qp, Q = mk_vec(ex, st, m, 24, 'Q')
    G.update(N=N, m=m, Q=[Q.arr(8 * c) for c in range(3)], po=mk_vec(ex, st, z3.IntVal(0), 24, 'Po')[0])
    return [pp, kup, kvp, p, q, qp, G['po']]


def post_srep(ex, st, r):
    return [('only as many poles as before', G['m'] == G['N'])] + same_pts(vec_view(ex, st, G['po'], 24), G['Q'], G['m'], 'the new poles')


for nm, e in (('copyPoles', 'vc_scopy'), ('movePoles', 'vc_smove')):
    PROOFS.append(Proof(nm + ' of a surface', e, setup_srep, post_srep, tu=TU, callees=CC, throws=lambda ex, st: [('only when it does not fit', G['m'] != G['N'])]))


# ---- from knots and multiplicities, from poles and weights
def setup_mult(d, w, flat):
    def f(ex, st):
        G.clear()
        n, m, np_, nw = z3.Ints('n mlen np nw')
        pd = d - 1 if w else d
        up, u = mk_vec(ex, st, n, 8, 'u')
        pp, P = mk_vec(ex, st, np_, 8 * pd, 'P')
        st.assume(and_(*[and_(x >= 0, x < 2**30) for x in (n, m, np_, nw)]))
        ((p, PM),) = sizes(st, 'p')
        po, ko = (mk_vec(ex, st, z3.IntVal(0), r, x)[0] for r, x in ((8 * d, 'Po'), (8, 'ko')))
        do = mk_vec(ex, st, z3.IntVal(2), 8, 'd2', kinds={0: 'int'})[0]
        b = out_buf(ex, st, 16, 'b')
        G.update(n=n, m=m, np=np_, nw=nw, p=p, PM=PM, u=u, P=[P.arr(8 * c) for c in range(pd)], po=po, ko=ko, do=do, b=b, d=d, w=w, flat=flat)
        args = [pp]
        wp = None
        if w:
            wp, wv = mk_vec(ex, st, nw, 8, 'w')
            G['W'] = wv.arr(0)
        if flat:
            args += [up, wp]
        else:
            mp_, mv = mk_vec(ex, st, m, 8, 'm', kinds={0: 'int'})
            i = z3.Int('i')
            st.assume(z3.ForAll([i], implies(and_(0 <= i, i < m), and_(mv[i] >= 0, mv[i] < 2**40, C10.MU(i) == mv[i])), patterns=[mv[i]]))
            C10.prefix_sums(st, n)
            i, j = z3.Ints('i j')
            st.assume(and_(C10.S(n) < 2**40))
            args += ([wp] if w else []) + [up, mp_]
            C10.G.clear()
            C10.G.update(n=n, u=u)
        return args + [p, po, ko, b, do]
    return f


def post_mult(ex, st, r):
    n, np_, d = G['n'], G['np'], G['d']
    b = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(2)]
    k, o = vec_view(ex, st, G['ko'], 8), vec_view(ex, st, G['po'], 8 * d)
    g = [('what is accepted is a B-spline', sound(k, z(k.len), np_, G['PM'])), ('degree', vec_view(ex, st, G['do'], 8)[0] == G['p']), ('bounds', and_(b[0] == k[0], b[1] == k[z(k.len) - 1]))]
    if G['flat']:
        g += same(k, G['u'].arr(0), n, 'knots')
    else:
        g += [('as many multiplicities as knots', n == G['m']), ('number of flat knots', z(k.len) == C10.S(n)), ('each value repeated as often as its multiplicity, in order', C10.expanded(k, n))]
    return g + poles_post(o)


def throws_mult(ex, st):
    c = [x for x in G.get('checks', []) if any(str(x['b']) in str(y) for y in st.pc if not z3.is_quantifier(y))]
    why = [z3.Not(well(x['k'], x['n'], x['np'], x['p'])) for x in c[-1:]]
    why += [G['nw'] != G['np']] if G['w'] else []
    why += [G['n'] != G['m']] if not G['flat'] else []
    return [('only ill-formed definitions are refused', or_(*why))]


FL = r'gbs::flat_knots<double, unsigned long>\('
FLOOPS = {FL: {0: LoopSpec(C10.inv_flat0, lambda L: C10.G['n'] - z(L.int('i'))), 1: LoopSpec(C10.inv_flat1, lambda L: C10.MU(z(L.int('i'))) - z(L.int('j')))}}
for nm, e, d, w, flat in (('BSCurve from knots and multiplicities', 'vc_crvm', 3, False, False), ('BSCurveRational from weights, knots and multiplicities', 'vc_crvw', 3, True, False),
                          ('BSCurveRational from weights', 'vc_crvkw', 3, True, True)):
    PROOFS.append(Proof('constructing a ' + nm, e, setup_mult(d, w, flat), post_mult, tu=TU, callees=CC, throws=throws_mult, loops={} if flat else FLOOPS))


# ---- access and replacement
def setup_acc(kind):
    def f(ex, st):
        G.clear()
        n, np_, m = z3.Ints('n np mlen')
        kp, k = mk_vec(ex, st, n, 8, 'k')
        pp, P = mk_vec(ex, st, np_, 24, 'P')
        st.assume(and_(np_ >= 0, np_ < 2**30, n >= 0, n < 2**30, sorted_(k), m >= 0, m < 2**30))
        (p, PM), (i, IM) = sizes(st, 'p', 'i')
        st.assume(and_(n == np_ + PM + 1, np_ >= PM + 1))
        G.update(n=n, np=np_, i=i, IM=IM, m=m, k=k.arr(0), P=[P.arr(8 * c) for c in range(3)], kind=kind)
        if kind == 'pole':
            G['o'] = out_buf(ex, st, 24, 'o')
            return [pp, kp, p, i, G['o']]
        G['po'] = mk_vec(ex, st, z3.IntVal(0), 24, 'Po')[0]
        if kind == 'setpole':
            x = z3.Reals('x y z')
            o = out_buf(ex, st, 24, 'o')
            for c in range(3):
                ex.store(st, DBL, o.at(8 * c), x[c])
            G['x'] = x
            return [pp, kp, p, i, o, G['po']]
        G['ko'] = mk_vec(ex, st, z3.IntVal(0), 8, 'ko')[0]
        if kind == 'knots':
            qp, Q = mk_vec(ex, st, m, 8, 'Q')
            G['Q'] = Q.arr(0)
            G['b'] = out_buf(ex, st, 16, 'b')
            return [pp, kp, p, qp, G['po'], G['ko'], G['b']]
        qp, Q = mk_vec(ex, st, m, 24, 'Q')
        G['Q'] = [Q.arr(8 * c) for c in range(3)]
        return [pp, kp, p, qp, G['po'], G['ko']]
    return f


def post_acc(ex, st, r):
    kd, n, np_ = G['kind'], G['n'], G['np']
    if kd == 'pole':
        return [('the index is inside', G['IM'] < np_)] + [('the pole, coordinate %d' % c, z(ex.load(st, DBL, G['o'].at(8 * c))) == G['P'][c][G['IM']]) for c in range(3)]
    o = vec_view(ex, st, G['po'], 24)
    if kd == 'setpole':
        return [('the index is inside', G['IM'] < np_), ('length', z(o.len) == np_)] + \
               [('only that pole changes, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < np_), o.at(x, 8 * c) == z3.If(x == G['IM'], G['x'][c], G['P'][c][x])))) for c in range(3)]
    k = vec_view(ex, st, G['ko'], 8)
    if kd == 'knots':
        b = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(2)]
        return [('only as many knots as before', G['m'] == n), ('bounds', and_(b[0] == G['Q'][0], b[1] == G['Q'][n - 1]))] + same(k, G['Q'], n, 'the new knots') + same_pts(o, G['P'], np_, 'the same poles')
    return [('only as many poles as before', G['m'] == np_)] + same(k, G['k'], n, 'the same knots') + same_pts(o, G['Q'], np_, 'the new poles')


def throws_acc(ex, st):
    kd = G['kind']
    return [('only when it does not fit', G['IM'] >= G['np'] if kd in ('pole', 'setpole') else G['m'] != (G['n'] if kd == 'knots' else G['np']))]


for nm, e, kd in (('pole of a curve', 'vc_cpole', 'pole'), ('changing a pole of a curve', 'vc_cpolem', 'setpole'), ('copyPoles', 'vc_ccopy', 'poles'), ('movePoles', 'vc_cmove', 'poles'), ('copyKnots', 'vc_cknots', 'knots')):
    PROOFS.append(Proof(nm, e, setup_acc(kd), post_acc, tu=TU, callees=CC, throws=throws_acc))


class S_(Suite):
    tu = TU
    rule = 'well-formed definitions of every degree, and the same spoiled in one way: a list shortened, lengthened or emptied, two knots exchanged, a degree changed (also far beyond the number of knots, so that unsigned sums wrap around), fewer poles than the degree needs; replacement lists of the right and of wrong lengths; indices inside and outside. Objects that refuse must be left as they were'

    def cases(self, rng, tier):
        N = {'quick': 700, 'thorough': 10000, 'search': 4000}[tier]
        for it in range(N):
            p, k, n = curve_knots(rng, pmax=5)
            P = O.pts(rng, n, 3)
            k, p, n, P = self.spoil(rng, k, p, n, P)
            yield 'crv', (fl(k), p, fl(P))
            q, l, m = curve_knots(rng, pmax=3, smax=3)
            p, k, n = curve_knots(rng, pmax=3, smax=3)
            if rng.random() < 0.5:
                k, p, n, _ = self.spoil(rng, k, p, n, [])
            else:
                l, q, m, _ = self.spoil(rng, l, q, m, [])
            N_ = rng.choice([max(0, len(k) - p - 1) * max(0, len(l) - q - 1), ((len(k) - p - 1) * (len(l) - q - 1)) % W, n * m, n * m + 1])
            if N_ < 400:
                yield 'srf', (fl(k), fl(l), p, q, fl(O.pts(rng, N_, 3)))
            p, k, n = curve_knots(rng, pmax=4, smax=4)
            yield 'use', (fl(k), p, fl(O.pts(rng, n, 3)), rng.choice([0, n - 1, n, n + 3, W - 1, rng.randrange(n)]), fl(O.pts(rng, max(0, n + rng.choice([0, 0, -1, 1, -n])), 3)), rng.choice([0, 0, -1, 1, -len(k)]))

    def spoil(self, rng, k, p, n, P):
        t = rng.choice(['ok', 'ok', 'short', 'long', 'empty', 'swap', 'deg', 'huge', 'few', 'wrap', 'pole'])
        if t == 'short':
            k = k[:-1]
        elif t == 'long':
            k = k + [k[-1]]
        elif t == 'empty':
            k = []
        elif t == 'swap':
            i, j = rng.randrange(len(k)), rng.randrange(len(k))
            k = list(k)
            k[i], k[j] = k[j], k[i]
        elif t == 'deg':
            p = max(0, p + rng.choice([-1, 1, 2]))
        elif t == 'huge':
            p = W - rng.choice([1, 2, 3, len(k)])
        elif t == 'few':
            k, P = k[:p + 1 + max(1, n - rng.randrange(1, n))], P[:max(1, n - 1)]
            P = P[:max(0, len(k) - p - 1)]
        elif t == 'wrap':
            k = k[:rng.randrange(1, p + 2)]
        elif t == 'pole':
            P = P[:-1] if rng.random() < 0.5 else P + P[:1]
        return k, p, n, P

    def well(self, k, n, p):
        return len(k) == n + p + 1 and n >= p + 1 and all(x <= y for x, y in zip(k, k[1:]))

    def judge(self, r, ok, what, exc='invalid_argument'):
        if ok and r.rc != 0:
            self.fail('%s: a well-formed definition was refused: %s' % (what, r.what))
        if not ok and (r.rc != 1 or exc not in r.what):
            self.fail('%s: an ill-formed definition was not refused with %s (%s)' % (what, exc, r.what if r.rc else 'accepted'))
        return ok

    def run(self, lib, g, c):
        if g == 'crv':
            k, p, P = c
            n = len(P)
            ok = self.well(k, n, p)
            r = lib.call('vc_check', [n, Vec(k), p], 'b')
            self.ok(r, 'check_curve')
            if bool(r.ret) != ok:
                self.fail('check_curve answers %r, expected %r' % (bool(r.ret), ok))
            for f, d in (('vc_crv', 3), ('vc_crvr', 4)):
                Q = P if d == 3 else [x + [1.] for x in P]
                r = lib.call(f, [Vec(Q, d), Vec(k), p, Vec([], d), Vec([]), Out(2), Vec([0, 0], 1, 'Q')])
                if self.judge(r, ok, 'curve'):
                    self.same(r.out, Q, k, p, 3)
            if k and all(x <= y for x, y in zip(k, k[1:])):
                u, m = unflat(k)
                r = lib.call('vc_crvm', [Vec(P, 3), Vec(fl(u)), Vec(m, 1, 'Q'), p, Vec([], 3), Vec([]), Out(2), Vec([0, 0], 1, 'Q')])
                if self.judge(r, ok, 'curve from multiplicities'):
                    self.same(r.out, P, k, p, 4)
                r = lib.call('vc_crvm', [Vec(P, 3), Vec(fl(u)), Vec(m + [1], 1, 'Q'), p, Vec([], 3), Vec([]), Out(2), Vec([0, 0], 1, 'Q')])
                self.judge(r, False, 'more multiplicities than knots', 'length_error')
                for dn in (0, -1, 1):
                    w = [1. + 0.5 * i for i in range(max(0, n + dn))]
                    P2 = [x[:2] for x in P]
                    Q = [[x * w_ for x in y] + [w_] for y, w_ in zip(P2, w)]
                    for f, a, o in (('vc_crvw', [Vec(P2, 2), Vec(w), Vec(fl(u)), Vec(m, 1, 'Q'), p], 5), ('vc_crvkw', [Vec(P2, 2), Vec(k), Vec(w), p], 4)):
                        r = lib.call(f, a + [Vec([], 3), Vec([]), Out(2), Vec([0, 0], 1, 'Q')])
                        if len(w) != n:
                            self.judge(r, False, 'weights that do not match the poles', 'length_error')
                        elif self.judge(r, ok, 'curve from weights'):
                            self.same(r.out, Q, k, p, o)
        elif g == 'srf':
            k, l, p, q, P = c
            n, m = len(k) - p - 1, len(l) - q - 1
            ok = self.well(k, n, p) and self.well(l, m, q) and n * m == len(P)
            for f, d in (('vc_srf', 3), ('vc_srfr', 4)):
                Q = P if d == 3 else [x + [1.] for x in P]
                r = lib.call(f, [Vec(Q, d), Vec(k), Vec(l), p, q, Vec([], d), Vec([]), Vec([]), Out(4), Vec([0, 0], 1, 'Q')])
                if self.judge(r, ok, 'surface'):
                    o = r.out
                    close_list(self, o[6], k, 'U knots', rel=0, ab=0)
                    close_list(self, o[7], l, 'V knots', rel=0, ab=0)
                    close_list(self, [y for x in o[5] for y in x], [y for x in Q for y in x], 'poles', rel=0, ab=0)
                    close_list(self, o[8], [k[0], k[-1], l[0], l[-1]], 'bounds', rel=0, ab=0)
                    if [int(x) for x in o[9]] != [p, q]:
                        self.fail('degrees of the surface')
            w = [1. + 0.25 * i for i in range(len(P))]
            P2 = [x[:2] for x in P]
            for dn in (0, 1):
                ww = w[:len(w) - dn]
                r = lib.call('vc_srfw', [Vec(P2, 2), Vec(ww), Vec(k), Vec(l), p, q, Vec([], 3), Vec([]), Vec([]), Out(4), Vec([0, 0], 1, 'Q')])
                if len(ww) != len(P):
                    self.judge(r, False, 'surface weights that do not match the poles', 'length_error')
                else:
                    self.judge(r, ok, 'surface from weights')
        else:
            k, p, P, i, Q, dk = c
            n = len(P)
            r = lib.call('vc_cpole', [Vec(P, 3), Vec(k), p, i, Out(3)])
            if self.judge(r, i < n, 'pole %d of %d' % (i, n), 'out_of_range'):
                close_list(self, r.out[4], P[i], 'pole', rel=0, ab=0)
            for f in ('vc_ccopy', 'vc_cmove'):
                r = lib.call(f, [Vec(P, 3), Vec(k), p, Vec(Q, 3), Vec([], 3), Vec([])])
                ok = self.judge(r, len(Q) == n, f, 'length_error')
                close_list(self, [y for x in r.out[4] for y in x], [y for x in (Q if ok else P) for y in x], 'poles after replacing them', rel=0, ab=0)
                close_list(self, r.out[5], k, 'knots after replacing the poles', rel=0, ab=0)
            K = [x + 2. for x in k] + [k[-1] + 2.]
            K = K[:max(0, len(k) + dk)]
            r = lib.call('vc_cknots', [Vec(P, 3), Vec(k), p, Vec(K), Vec([], 3), Vec([]), Out(2)])
            ok = self.judge(r, len(K) == len(k), 'copyKnots', 'length_error')
            close_list(self, r.out[5], K if ok else k, 'knots after replacing them', rel=0, ab=0)
            close_list(self, r.out[6], [K[0], K[-1]] if ok else [k[0], k[-1]], 'bounds after replacing the knots', rel=0, ab=0)

    def same(self, o, P, k, p, at):
        close_list(self, [y for x in o[at] for y in x], [y for x in P for y in x], 'poles', rel=0, ab=0)
        close_list(self, o[at + 1], k, 'knots', rel=0, ab=0)
        close_list(self, o[at + 2], [k[0], k[-1]], 'bounds', rel=0, ab=0)
        if int(o[at + 3][0]) != p:
            self.fail('degree of the curve', got=int(o[at + 3][0]), expected=p)


SUITE = S_()
