from .common import *
from .callees import *
LEVEL = 'proof'
TU = 'surf.cpp'
G = {}
I, R = z3.IntSort(), z3.RealSort()
DU = z3.Function('DU', I, I, R)          # DU(d,m): d-th derivative of basis m of the first direction at u
DV = z3.Function('DV', I, I, R)
T = [z3.Function('T%d' % c, I, I, R) for c in range(3)]                    # T_c(rj,ri): partial sums, rows of the pole grid in order
TD = [z3.Function('TD%d' % c, I, I, I, I, R) for c in range(3)]            # TD_c(a,b,rj,ri): the same for the mixed derivative (a,b)


def common_setup(ex, st, dim, extra=0):
    nu, nv, p, q, du, dv, s, t = z3.Ints('nu nv p q du dv s t')
    u, v = z3.Reals('u v')
    kup, ku = mk_vec(ex, st, nu + p + 1, 8, 'ku')
    kvp, kv = mk_vec(ex, st, nv + q + 1, 8, 'kv')
    N = z3.Int('N')
    pp, P = mk_vec(ex, st, N, 8 * (dim + extra), 'P')
    st.assume(and_(p >= 0, p < 2**20, q >= 0, q < 2**20, nu >= p + 1, nv >= q + 1, nu < 2**24, nv < 2**24, du >= 0, dv >= 0, du < 2**20, dv < 2**20, N == nu * nv))
    for k, n, d in ((ku, nu, p), (kv, nv, q)):
        st.assume(sorted_(k))
        st.assume(k[n - 1] < k[n])
        st.assume(k[d] < k[d + 1])
    # products of the grid sizes, stated once for the linear index of the pole grid
    y = z3.Int('y')
    st.assume(z3.ForAll([y], implies(and_(0 <= y, y < nv), and_(nu * y >= 0, nu * y + nu <= N)), patterns=[nu * y]))
    G.update(nu=nu, nv=nv, p=p, q=q, du=du, dv=dv, s=s, t=t, u=u, v=v, ku=ku, kv=kv, kup=kup, kvp=kvp, P=P, pp=pp, dim=dim, N=N)
    return u, v, kup, kvp, pp, p, q, du, dv


def pole(c, rj, ri):
    return G['P'].at(G['s'] - G['p'] + ri + G['nu'] * (G['t'] - G['q'] + rj), 8 * c)


def spec(st, dim):
    p, q, s, t, du, dv = (G[x] for x in ('p', 'q', 's', 't', 'du', 'dv'))
    a, b = z3.Ints('rj ri')
    for c in range(dim):
        st.assume(T[c](0, -1) == 0)
        st.assume(z3.ForAll([a, b], implies(and_(b >= 0, b <= p, a >= 0, a <= q), T[c](a, b) == T[c](a, b - 1) + (DU(du, s - p + b) * DV(dv, t - q + a)) * pole(c, a, b)), patterns=[T[c](a, b)]))
        st.assume(z3.ForAll([a], implies(and_(a >= 1, a <= q), T[c](a, -1) == T[c](a - 1, p)), patterns=[T[c](a, -1)]))


def setup(dim):
    def f(ex, st):
        u, v, kup, kvp, pp, p, q, du, dv = common_setup(ex, st, dim)
        spec(st, dim)
        o = ex.new_obj(st, 8 * dim, 'out')
        G['o'] = Ptr(o.id, 0)
        return [u, v, kup, kvp, pp, p, q, du, dv, G['o']]
    return f


def ispan(kp, n, p, u):
    """which of the two spans a call is about: decided by the knot vector passed"""
    return G['s'] if kp == G['kup'] or isU(kp) else G['t']


def isU(kp):
    return kp.o in G.get('U_ids', ())


def D(kp, d, m):
    return DU(d, m) if same_vec(kp) else DV(d, m)


def same_vec(kp):
    return G['data'](kp) == G['U_data']


def spans():
    """find_span contract for both directions, chosen by the data block of the knot vector"""
    def sp(kp, n, p, u):
        return G['s'] if same_vec(kp) else G['t']
    return find_span_contract(sp)


def watch(ex, st):
    def data(kp):
        b = ex.load(G['cur'], PTR, kp)
        return ex_col(ex, G['cur'], b)
    G['data'] = data


def ex_col(ex, st, b):
    return str(ex.col(st, b.o, 0, 'real'))


def wrap(c):
    f = c.apply

    def g(ex, st, a):
        G['cur'] = st
        G['data'] = lambda kp: ex_col(ex, st, ex.load(st, PTR, kp))
        G['U_data'] = str(G['ku'].arr(0))
        return f(ex, st, a)
    return Contract(c.rx.pattern, g, c.name)


def CALL():
    return [wrap(spans())] + [wrap(c) for c in basis_contracts(D)]


def acc(L, name='pt'):
    p = L.addr(name)
    return [z(L.ex.load(L.st, DBL, p.at(8 * c))) for c in range(G['dim'])]


def idx(rj):
    return ('row %s' % rj, z3.BoolVal(True))


def inv_rj(L):
    rj = z(L.int('rj'))
    return [('rj', and_(0 <= rj, rj <= G['q'] + 1))] + [('rows so far %d' % c, x == z3.If(rj == 0, T[c](0, -1), T[c](rj - 1, G['p']))) for c, x in enumerate(acc(L))]


def inv_ri(L):
    rj, ri = z(L.int('rj')), z(L.int('ri'))
    return [('rj', and_(0 <= rj, rj <= G['q'])), ('ri', and_(0 <= ri, ri <= G['p'] + 1)), ('row', z(L.int('row')) == G['nu'] * (G['t'] - G['q'] + rj))] + \
           [('partial sum %d' % c, x == T[c](rj, ri - 1)) for c, x in enumerate(acc(L))]


def inv_jj(L):
    rj = z(L.int('jj')) - (G['t'] - G['q'])
    return [('jj', and_(0 <= rj, rj <= G['q'] + 1))] + [('rows so far %d' % c, x == z3.If(rj == 0, T[c](0, -1), T[c](rj - 1, G['p']))) for c, x in enumerate(acc(L))]


def inv_ii(L):
    rj, ri = z(L.int('jj')) - (G['t'] - G['q']), z(L.int('ii')) - (G['s'] - G['p'])
    return [('jj', and_(0 <= rj, rj <= G['q'])), ('ii', and_(0 <= ri, ri <= G['p'] + 1)), ('row', and_(G['nu'] * (G['t'] - G['q'] + rj) >= 0))] + \
           [('partial sum %d' % c, x == T[c](rj, ri - 1)) for c, x in enumerate(acc(L))]


def post(ex, st, ret):
    p, q, du, dv, o = G['p'], G['q'], G['du'], G['dv'], G['o']
    g = []
    for c in range(G['dim']):
        x = z(ex.load(st, DBL, o.at(8 * c)))
        g.append(('coordinate %d = tensor product sum' % c, implies(and_(du <= p, dv <= q), x == T[c](q, p))))
        g.append(('coordinate %d = 0 above the degree' % c, implies(or_(du > p, dv > q), x == 0)))
    return g


RX = r'gbs::eval_value_decasteljau<double, %dul>\(double, double'


def P_(dim):
    return Proof('surface eval_value_decasteljau dim %d' % dim, 'vc_sv%d' % dim, setup(dim), post, tu=TU, callees=CALL(),
                 loops={RX % dim: {0: LoopSpec(inv_rj, lambda L: G['q'] + 1 - z(L.int('rj'))), 1: LoopSpec(inv_ri, lambda L: G['p'] + 1 - z(L.int('ri'))),
                                   3: LoopSpec(inv_jj, lambda L: G['t'] + 1 - z(L.int('jj'))), 4: LoopSpec(inv_ii, lambda L: G['s'] + 1 - z(L.int('ii')))}})



# ---- the class: construct and evaluate
EPS = F(100, 2**52)


def inside():
    return and_(*[and_(x >= k[0] - z(EPS), x <= k[m] + z(EPS)) for x, k, m in ((G['u'], G['ku'], G['nu'] + G['p']), (G['v'], G['kv'], G['nv'] + G['q']))])


def sv_contract(dim):
    def apply(ex, st, a):
        a = list(a)
        out = a.pop(0) if len(a) == 10 else None
        u, v, kup, kvp, pp, p, q, du, dv = a
        p, q, du, dv = (z(num(x)) for x in (p, q, du, dv))
        ku, kv, P = vec_at(ex, st, kup), vec_at(ex, st, kvp), vec_view(ex, st, pp, 8 * dim)
        nm = 'eval_value_decasteljau (surface)'
        ex.oblige(st, 'pre:%s: degrees, knots and poles agree' % nm, and_(p == G['p'], q == G['q'], z(ku.len) == G['nu'] + p + 1, z(kv.len) == G['nv'] + q + 1, z(P.len) == G['N']))
        i = z3.Int('i')
        ex.oblige(st, 'pre:%s: knots of the first direction' % nm, z3.ForAll([i], implies(and_(0 <= i, i < z(ku.len)), ku[i] == G['ku0'][i])))
        ex.oblige(st, 'pre:%s: knots of the second direction' % nm, z3.ForAll([i], implies(and_(0 <= i, i < z(kv.len)), kv[i] == G['kv0'][i])))
        for c in range(dim):
            ex.oblige(st, 'pre:%s: poles, coordinate %d' % (nm, c), z3.ForAll([i], implies(and_(0 <= i, i < G['N']), P.at(i, 8 * c) == G['P0'][c][i])))
        ex.oblige(st, 'pre:%s: parameters and orders' % nm, and_(z(u) == G['u'], z(v) == G['v'], du == G['du'], dv == G['dv']))
        r = [z3.If(and_(G['du'] <= p, G['dv'] <= q), T[c](q, p), 0) for c in range(dim)]
        if out is None:
            return r if dim == 2 else r[0]
        for c in range(dim):
            ex.store(st, DBL, out.at(8 * c), r[c])
    return Contract(RX % dim, apply, 'eval_value_decasteljau for surfaces (this property)')


def setup_c(dim):
    def f(ex, st):
        a = setup(dim)(ex, st)
        G.update(ku0=G['ku'].arr(0), kv0=G['kv'].arr(0), P0=[G['P'].arr(8 * c) for c in range(dim)])
        u, v, kup, kvp, pp, p, q, du, dv, o = a
        return [pp, kup, kvp, p, q, u, v, du, dv, o]
    return f


def PC(dim):
    return Proof('BSSurface<%d>: construct and evaluate' % dim, 'vc_bs%d' % dim, setup_c(dim), lambda ex, st, r: post(ex, st, r) + [('no value outside the bounds', inside())], tu=TU,
                 throws=lambda ex, st: [('only outside the bounds', z3.Not(inside()))], callees=[sv_contract(dim), check_curve_contract()])



# ---- all mixed orders in one pass: entry (a,b) of the table sits at a*(mv+1)+b
IDX = z3.Function('IDX', I, I, I)
ROW, COL = z3.Function('ROW', I, I), z3.Function('COL', I, I)


def setup_d(dim):
    def f(ex, st):
        u, v, kup, kvp, pp, p, q, du, dv = common_setup(ex, st, dim)
        a, b, x, y = z3.Ints('a b rj ri')
        s, t = G['s'], G['t']
        for c in range(dim):
            st.assume(z3.ForAll([a, b], TD[c](a, b, 0, -1) == 0, patterns=[TD[c](a, b, 0, -1)]))
            st.assume(z3.ForAll([a, b, x, y], implies(and_(y >= 0, y <= p, x >= 0, x <= q), TD[c](a, b, x, y) == TD[c](a, b, x, y - 1) + (DU(a, s - p + y) * DV(b, t - q + x)) * pole(c, x, y)), patterns=[TD[c](a, b, x, y)]))
            st.assume(z3.ForAll([a, b, x], implies(and_(x >= 1, x <= q), TD[c](a, b, x, -1) == TD[c](a, b, x - 1, p)), patterns=[TD[c](a, b, x, -1)]))
        # the row-major index is injective: its row and column are functions of it
        st.assume(z3.ForAll([a, b], implies(and_(0 <= a, a <= du, 0 <= b, b <= dv), and_(IDX(a, b) == a * (dv + 1) + b, ROW(IDX(a, b)) == a, COL(IDX(a, b)) == b, IDX(a, b) >= 0, IDX(a, b) < G['du'] * (dv + 1) + dv + 1)), patterns=[IDX(a, b)]))
        L_ = (du + 1) * (dv + 1)
        o = ex.new_sym(st, 8 * dim, L_, 'SKL')
        for c in range(dim):
            o.cols[8 * c] = ('real', z3.Array('SKL0.%d' % c, I, R))
        G['SKL'] = lambda s_: View(ex, s_, o.id, 0, L_, 8 * dim)
        return [u, v, kup, kvp, pp, p, q, du, dv, Ptr(o.id, 0)]
    return f


def inr(a, b):
    return and_(0 <= a, a <= G['du'], 0 <= b, b <= G['dv'])


def wanted(c, a, b):
    return z3.If(and_(a <= G['p'], b <= G['q']), TD[c](a, b, G['q'], G['p']), 0)


def post_d(ex, st, ret):
    K = G['SKL'](st)
    return [('every mixed order, coordinate %d' % c, forall(2, lambda a, b: implies(inr(a, b), K.at(IDX(a, b), 8 * c) == wanted(c, a, b)))) for c in range(G['dim'])]


def before(a, b, A_, B_):
    return or_(a < A_, and_(a == A_, b < B_))


def table(L, val, but=None):
    K = G['SKL'](L.st)
    g = []
    for c in range(G['dim']):
        g.append(('table %d' % c, forall(2, lambda a, b: implies(and_(inr(a, b), True if but is None else or_(a != but[0], b != but[1])), val(c, a, b, K.at(IDX(a, b), 8 * c))), lambda a, b: [IDX(a, b)])))
    return g


def here(a, b):
    return ('index', IDX(a, b) == IDX(a, b))


def zi_a(L):
    a = z(L.int('a'))
    return [('a', and_(0 <= a, a <= G['du'] + 1))] + table(L, lambda c, x, y, e: implies(x < a, e == 0))


def zi_b(L):
    a, b = z(L.int('a')), z(L.int('b'))
    return [('a', and_(0 <= a, a <= G['du'])), ('b', and_(0 <= b, b <= G['dv'] + 1)), ('cursor', implies(b <= G['dv'], IDX(a, b) == a * (G['dv'] + 1) + b))] + table(L, lambda c, x, y, e: implies(before(x, y, a, b), e == 0))


def dmin(n, p):
    return z3.If(n <= p, n, p)


def ok(a, b):
    return and_(a <= G['p'], b <= G['q'])


def ti_a(L):
    a = z(L.int('ku_'))
    return [('ku_', and_(0 <= a, a <= dmin(G['du'], G['p']) + 1))] + table(L, lambda c, x, y, e: e == z3.If(and_(x < a, ok(x, y)), TD[c](x, y, G['q'], G['p']), 0))


def ti_ab(L):
    a, b = z(L.int('ku_')), z(L.int('kv_'))
    return a, b, [('ku_', and_(0 <= a, a <= dmin(G['du'], G['p'])))]


def ti_b(L):
    a, b, g = ti_ab(L)
    return g + [('kv_', and_(0 <= b, b <= dmin(G['dv'], G['q']) + 1)), ('cursor', implies(b <= G['dv'], IDX(a, b) == a * (G['dv'] + 1) + b))] + table(L, lambda c, x, y, e: e == z3.If(and_(before(x, y, a, b), ok(x, y)), TD[c](x, y, G['q'], G['p']), 0))


def ti_in(L):
    a, b, g = ti_ab(L)
    return a, b, g + [('kv_', and_(0 <= b, b <= dmin(G['dv'], G['q']))), ('cursor', IDX(a, b) == a * (G['dv'] + 1) + b)] + \
        table(L, lambda c, x, y, e: e == z3.If(and_(before(x, y, a, b), ok(x, y)), TD[c](x, y, G['q'], G['p']), 0), but=(a, b))


def cur(L, a, b, rj, ri):
    K = G['SKL'](L.st)
    return [('partial sum %d' % c, K.at(IDX(a, b), 8 * c) == TD[c](a, b, rj, ri)) for c in range(G['dim'])]


def curR(L, a, b, rj):
    K = G['SKL'](L.st)
    return [('rows so far %d' % c, K.at(IDX(a, b), 8 * c) == z3.If(rj == 0, TD[c](a, b, 0, -1), TD[c](a, b, rj - 1, G['p']))) for c in range(G['dim'])]


def ti_rj(L):
    a, b, g = ti_in(L)
    rj = z(L.int('rj'))
    return g + [('rj', and_(0 <= rj, rj <= G['q'] + 1))] + curR(L, a, b, rj)


def ti_ri(L):
    a, b, g = ti_in(L)
    rj, ri = z(L.int('rj')), z(L.int('ri'))
    return g + [('rj', and_(0 <= rj, rj <= G['q'])), ('ri', and_(0 <= ri, ri <= G['p'] + 1)), ('row', z(L.int('row')) == G['nu'] * (G['t'] - G['q'] + rj)),
                ('weight of the row', z(L.real('nvw')) == DV(b, G['t'] - G['q'] + rj))] + cur(L, a, b, rj, ri - 1)


def ti_jj(L):
    a, b, g = ti_in(L)
    rj = z(L.int('jj')) - (G['t'] - G['q'])
    return g + [('jj', and_(0 <= rj, rj <= G['q'] + 1))] + curR(L, a, b, rj)


def ti_ii(L):
    a, b, g = ti_in(L)
    rj, ri = z(L.int('jj')) - (G['t'] - G['q']), z(L.int('ii')) - (G['s'] - G['p'])
    return g + [('jj', and_(0 <= rj, rj <= G['q'])), ('ii', and_(0 <= ri, ri <= G['p'] + 1)), ('row', G['nu'] * (G['t'] - G['q'] + rj) >= 0),
                ('weight of the row', z(L.real('Nvv')) == DV(b, G['t'] - G['q'] + rj))] + cur(L, a, b, rj, ri - 1)


RXS = r'^void gbs::eval_ders_decasteljau<double, %dul>\(double, double'


def vr(n, lim):
    return lambda L: lim() + 1 - z(L.int(n))


def PDS(dim):
    DU_, DV_ = (lambda: dmin(G['du'], G['p'])), (lambda: dmin(G['dv'], G['q']))
    return Proof('surface eval_ders_decasteljau dim %d' % dim, 'vc_sd%d' % dim, setup_d(dim), post_d, tu=TU, callees=CALL(),
                 loops={RXS % dim: {0: LoopSpec(zi_a, vr('a', lambda: G['du'])), 1: LoopSpec(zi_b, vr('b', lambda: G['dv'])),
                                    2: LoopSpec(ti_a, vr('ku_', DU_)), 3: LoopSpec(ti_b, vr('kv_', DV_)), 4: LoopSpec(ti_rj, vr('rj', lambda: G['q'])), 5: LoopSpec(ti_ri, vr('ri', lambda: G['p'])),
                                    7: LoopSpec(ti_a, vr('ku_', DU_)), 8: LoopSpec(ti_b, vr('kv_', DV_)), 9: LoopSpec(ti_jj, vr('jj', lambda: G['t'])), 10: LoopSpec(ti_ii, vr('ii', lambda: G['s']))}})


PROOFS = [P_(1), P_(3), PC(1), PC(3), PDS(1), PDS(3)]


class Sx(Suite):
    tu = TU
    rule = 'random tensor-product surfaces (degrees 1-4 and beyond the stack limit, repeated knots, up to 7x7 spans), parameters in the domain, all mixed orders; exact rational oracle'

    def cases(self, rng, tier):
        N = {'quick': 260, 'thorough': 4000, 'search': 2500}[tier]
        for it in range(N):
            p, q, ku, kv, nu, nv = surf_case(rng)
            u, v = fl(pick_u(rng, ku, p)), fl(pick_u(rng, kv, q))
            P = O.pts(rng, nu * nv, 3)
            du, dv = rng.randrange(0, p + 2), rng.randrange(0, q + 2)
            base = (fl(P), fl(ku), fl(kv), p, q, u, v, du, dv)
            yield 'value', base
            yield 'all orders', base
            H = posw(rng, P)
            if it % 6 == 0:
                H = [[c / h[-1] * 3 for c in h[:-1]] + [F(3)] for h in H]
            yield 'rational', (fl(H),) + base[1:]
            yield 'iso', (fl(P), fl(H)) + base[1:7]
            if it % 3 == 0:
                yield 'lists', base[:5] + (fl([[pick_u(rng, ku, p), pick_u(rng, kv, q)] for _ in range(rng.choice([0, 1, 7, 40]))]), rng.choice([0, 1]), rng.choice([0, 1]))
                yield 'object', base + (fl(H),)
                yield 'outside', (base[0], fl(H)) + base[1:7] + (rng.choice([-1.0, 2.0**-20, 1.0]),)
        for p, q in ((25, 1), (1, 25), (26, 25)):
            ku, kv = [0.] * (p + 1) + [1.] * (p + 1), [0.] * (q + 1) + [0.5] + [1.] * (q + 1)
            P = fl(O.pts(rng, (p + 1) * (q + 2), 3))
            if p + q < 30:
                yield 'value', (P, ku, kv, p, q, 0.25, 0.625, 0, 0)
        for m in (25, 26):
            ku, kv = [0.] * 3 + [1.] * 3, [0.] * 2 + [1.] * 2
            yield 'rational', (fl(posw(rng, O.pts(rng, 6, 3))), ku, kv, 2, 1, 0.25, 0.625, m, 1)
            yield 'rational', (fl(posw(rng, O.pts(rng, 6, 3))), ku, kv, 2, 1, 0.25, 0.625, 0, m)

    def run(self, lib, g, c):
        if g == 'value':
            P, ku, kv, p, q, u, v, du, dv = c
            w, sc = O.surface(F(u), F(v), du, dv, p, q, ex_(ku), ex_(kv), ex_(P))
            a = self.ok(lib.call('vc_sv3', [u, v, Vec(ku), Vec(kv), Vec(P, 3), p, q, du, dv, Out(3)])).out[9]
            b = self.ok(lib.call('vc_bs3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, u, v, du, dv, Out(3)])).out[9]
            f = self.ok(lib.call('vc_bsf', [Vec([x[1] for x in P]), Vec(ku), Vec(kv), p, q, u, v, du, dv], 'd')).ret
            for k in range(3):
                self.near(a[k], w[k], sc[k], 'derivative (%d,%d) coordinate %d' % (du, dv, k))
                self.near(b[k], w[k], sc[k], 'surface object: derivative (%d,%d) coordinate %d' % (du, dv, k))
            self.near(f, w[1], sc[1], 'function of two variables: derivative (%d,%d)' % (du, dv))
        elif g == 'all orders':
            P, ku, kv, p, q, u, v, mu, mv = c
            n = (mu + 1) * (mv + 1)
            a = self.ok(lib.call('vc_sd3', [u, v, Vec(ku), Vec(kv), Vec(P, 3), p, q, mu, mv, Out(3 * n + 1)])).out[9]
            b = self.ok(lib.call('vc_bsd3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, u, v, mu, mv, Out(3 * n + 1)])).out[9]
            for d in range(mu + 1):
                for e in range(mv + 1):
                    w, sc = O.surface(F(u), F(v), d, e, p, q, ex_(ku), ex_(kv), ex_(P))
                    for k in range(3):
                        for x in (a, b):
                            self.near(x[3 * (d * (mv + 1) + e) + k], w[k], sc[k], 'table of all orders: derivative (%d,%d) of (%d,%d) coordinate %d' % (d, e, mu, mv, k))
            if a[-1] == a[-1] or b[-1] == b[-1]:
                self.fail('write past the last entry of the table')
        elif g == 'rational':
            H, ku, kv, p, q, u, v, mu, mv = c
            S, M = hom_surface(u, v, mu, mv, p, q, ku, kv, H)
            n = (mu + 1) * (mv + 1)
            a = self.ok(lib.call('vc_srd3', [u, v, Vec(ku), Vec(kv), Vec(H, 4), p, q, mu, mv, Out(3 * n + 1)])).out[9]
            b = self.ok(lib.call('vc_rs3', [Vec(H, 4), Vec(ku), Vec(kv), p, q, u, v, mu, mv, Out(3)])).out[9]
            for d in range(mu + 1):
                for e in range(mv + 1):
                    for k in range(3):
                        self.near(a[3 * (d * (mv + 1) + e) + k], S[d, e][k], M[d, e][k], 'rational table: derivative (%d,%d) of (%d,%d) coordinate %d' % (d, e, mu, mv, k), rel=1e-8)
            for k in range(3):
                self.near(b[k], S[mu, mv][k], M[mu, mv][k], 'rational surface object: derivative (%d,%d) coordinate %d' % (mu, mv, k), rel=1e-8)
            if a[-1] == a[-1]:
                self.fail('write past the last entry of the table')
            w = [h[-1] for h in H]
            Q = [[x / h[-1] for x in h[:-1]] for h in ex_(H)]
            r = self.ok(lib.call('vc_rsw3', [Vec(fl(Q), 3), Vec(w), Vec(ku), Vec(kv), p, q, u, v, Out(3), Vec([], 3), Vec([])])).out
            for k in range(3):
                self.near(r[8][k], S[0, 0][k], M[0, 0][k], 'surface built from weights', rel=1e-8)
            for i in range(len(w)):
                self.near(r[10][i], w[i], w[i], 'weight %d' % i)
                for k in range(3):
                    self.near(r[9][i][k], Q[i][k], abs(Q[i][k]), 'projected pole %d' % i)
        elif g == 'iso':
            P, H, ku, kv, p, q, u, v = c
            for nm, K, d, fixed, ratl in (('vc_isou3', kv, q, u, 0), ('vc_isov3', ku, p, v, 0), ('vc_isour3', kv, q, u, 1), ('vc_isovr3', ku, p, v, 1)):
                r = self.ok(lib.call(nm, [Vec(H, 4) if ratl else Vec(P, 3), Vec(ku), Vec(kv), p, q, fixed, Vec([], 3 + ratl), Vec([]), 0])).out
                ck, cp = list(r[7]), [list(x) for x in r[6]]
                if ck != list(K) or len(cp) != len(K) - d - 1:
                    self.fail('%s: knots of the iso-curve differ from the surface' % nm, knots=ck)
                ts = sorted(set(K))
                for t in ts + [(a + b) / 2 for a, b in zip(ts, ts[1:])]:
                    uu, vv = (fixed, t) if K is kv else (t, fixed)
                    w, sc = O.surface(F(uu), F(vv), 0, 0, p, q, ex_(ku), ex_(kv), ex_(H if ratl else P))
                    g_, s2 = O.curve(F(t), 0, d, ex_(ck), ex_(cp))
                    if ratl:
                        w, g_ = [x / w[3] for x in w[:3]], [x / g_[3] for x in g_[:3]]
                    for k in range(3):
                        self.near(g_[k], w[k], sc[k] + s2[k], '%s: iso-curve point at (%r,%r)' % (nm, uu, vv), rel=1e-8)
        elif g == 'lists':
            P, ku, kv, p, q, uv, du, dv = c
            a = self.ok(lib.call('vc_bsvs3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, Vec(uv, 2), du, dv, Vec([], 3)])).out[8]
            b = self.ok(lib.call('vc_bsvl3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, Vec([x[0] for x in uv]), Vec([x[1] for x in uv]), du, dv, Vec([], 3)])).out[9]
            if len(a) != len(uv) or len(b) != len(uv):
                self.fail('%d values for %d parameters' % (len(a), len(uv)))
            for i, (u, v) in enumerate(uv):
                w, sc = O.surface(F(u), F(v), du, dv, p, q, ex_(ku), ex_(kv), ex_(P))
                for k in range(3):
                    self.near(a[i][k], w[k], sc[k], 'list of pairs, entry %d' % i)
                    self.near(b[i][k], w[k], sc[k], 'two lists, entry %d' % i)
        elif g == 'object':
            P, ku, kv, p, q, u, v, du, dv, H = c
            r = self.ok(lib.call('vc_bsb3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, Out(4), Out(2), Out(2)])).out
            want = [ku[0], ku[-1], kv[0], kv[-1]]
            if list(r[5]) != want or list(r[6]) != want[:2] or list(r[7]) != want[2:]:
                self.fail('bounds %r, expected %r' % (list(r[5]), want))
            s1, m1 = unflat(ku)
            s2, m2 = unflat(kv)
            a = self.ok(lib.call('vc_bsm3', [Vec(P, 3), Vec(s1), Vec(s2), Vec(m1, 1, 'Q'), Vec(m2, 1, 'Q'), p, q, u, v, Out(3)])).out[9]
            w, sc = O.surface(F(u), F(v), 0, 0, p, q, ex_(ku), ex_(kv), ex_(P))
            for k in range(3):
                self.near(a[k], w[k], sc[k], 'surface from knots and multiplicities')
            # tangents and arc-length derivatives
            A = {}
            scl = 0
            for d, e in ((1, 0), (0, 1), (2, 0), (0, 2)):
                A[d, e], s_ = O.surface(F(u), F(v), d, e, p, q, ex_(ku), ex_(kv), ex_(P))
                scl = max(scl, max(fl(s_)))
            t = self.ok(lib.call('vc_bst3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, u, v, 2.0, -3.0, Out(3), Out(3), Out(3), Out(3), Out(3)])).out
            dot = lambda x, y: sum(a_ * b_ for a_, b_ in zip(x, y))
            for k in range(3):
                self.near(t[9][k], 2 * A[1, 0][k] - 3 * A[0, 1][k], scl, 'tangent')
            for o1, o2, D1, D2 in ((10, 12, A[1, 0], A[2, 0]), (11, 13, A[0, 1], A[0, 2])):
                n2 = dot(D1, D1)
                if n2 < F(1, 16):
                    continue
                for k in range(3):
                    self.near(t[o1][k], float(D1[k]) / math.sqrt(n2), 1 + scl, 'unit tangent of the iso-curve', rel=1e-8)
                    self.near(t[o2][k], (D2[k] * n2 - D1[k] * dot(D1, D2)) / (n2 * n2), (1 + scl) * (1 + scl), 'second derivative along the arc length', rel=1e-8)
        elif g == 'outside':
            P, H, ku, kv, p, q, u, v, e = c
            for uu, vv in ((ku[0] - abs(e) if e < 0 else ku[-1] + e, v), (u, kv[0] - abs(e) if e < 0 else kv[-1] + e)):
                for nm, A, dm in (('vc_bs3', P, 3), ('vc_rs3', H, 4)):
                    r = lib.call(nm, [Vec(A, dm), Vec(ku), Vec(kv), p, q, uu, vv, 0, 0, Out(3)])
                    if r.rc == 0:
                        self.fail('%s: (%r,%r) lies outside the bounds and was evaluated' % (nm, uu, vv))
                r = lib.call('vc_bsd3', [Vec(P, 3), Vec(ku), Vec(kv), p, q, uu, vv, 0, 0, Out(4)])
                if r.rc == 0:
                    self.fail('derivatives: (%r,%r) lies outside the bounds and was evaluated' % (uu, vv))


SUITE = Sx()
