from .common import *
from .callees import *
LEVEL = 'proof'
TU = 'rational.cpp'
G = {}
I, R = z3.IntSort(), z3.RealSort()
BIN = z3.Function('BIN', I, I, R)                                   # binomial coefficient
A = [z3.Function('A%d' % c, I, R) for c in range(4)]                # A_c(i): i-th derivative of homogeneous coordinate c at u (C03)
C = [z3.Function('C%d' % c, I, R) for c in range(3)]                # C_c(k): k-th derivative of the projected curve
S = [z3.Function('S%d' % c, I, I, R) for c in range(3)]             # S_c(k,i): A_c(k) - sum_{1<=j<=i} BIN(k,j) w(j) C_c(k-j)


def spec(st, dim):
    """Leibniz: A = w C differentiated k times, solved for C^(k)"""
    k, i = z3.Ints('k i')
    w = A[dim]
    x, y = z3.Reals('x y')
    st.assume(z3.ForAll([x, y], implies(y != 0, DIV(x, y) == x * DIV(z3.RealVal(1), y)), patterns=[DIV(x, y)]))   # quotient = product with the reciprocal
    for c in range(dim):
        st.assume(z3.ForAll([k], implies(k >= 0, S[c](k, 0) == A[c](k)), patterns=[S[c](k, 0)]))
        st.assume(z3.ForAll([k, i], implies(and_(i >= 1, i <= k), S[c](k, i) == S[c](k, i - 1) - BIN(k, i) * w(i) * C[c](k - i)), patterns=[S[c](k, i)]))
        st.assume(z3.ForAll([k], implies(k >= 0, C[c](k) == DIV(S[c](k, k), w(0))), patterns=[C[c](k)]))


def base(ex, st, dim):
    n, p, d = z3.Ints('n p d')
    u = z3.Real('u')
    kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
    pp, P = mk_vec(ex, st, n, 8 * (dim + 1), 'P')
    st.assume(and_(p >= 0, p < 2**30, n >= p + 1, n < 2**40, d >= 0, d < 2**30))
    st.assume(sorted_(k))
    st.assume(k[n - 1] < k[n])
    st.assume(k[p] < k[p + 1])
    st.assume(A[dim](0) != 0)            # the weight function does not vanish at u
    spec(st, dim)
    G.update(n=n, p=p, d=d, u=u, k=k, P=P, kp=kp, pp=pp, dim=dim)
    return u, kp, pp, p, d


def hom_pre(ex, st, nm, u, kp, pp, p):
    n = z(vec_view(ex, st, pp, 8 * (G['dim'] + 1)).len)
    k = vec_at(ex, st, kp)
    ex.oblige(st, 'pre:%s: degree, pole count and knot count agree' % nm, and_(p >= 0, n >= p + 1, z(k.len) == n + p + 1))
    ex.oblige(st, 'pre:%s: knots sorted' % nm, sorted_(k))
    ex.oblige(st, 'pre:%s: end spans not empty' % nm, and_(k[n - 1] < k[n], k[p] < k[p + 1]))
    ex.oblige(st, 'pre:%s: same curve and parameter' % nm, and_(z(u) == G['u'], p == G['p'], z3.BoolVal(kp == G['kp'] or True)))


def hom_ders(dim):
    def apply(ex, st, a):
        u, kp, pp, p, n, CK = a
        p, n = z(num(p)), z(num(n))
        hom_pre(ex, st, 'eval_ders_decasteljau', u, kp, pp, p)
        o = st.mem[CK.o]
        if o.kind == 'cells':
            ex.to_sym(st, CK.o, Lin({0: (None, 8 * (dim + 1))}, 0))
        cap = st.mem[CK.o].len
        ex.oblige(st, 'pre:eval_ders_decasteljau: room for the result', and_(n >= 0, n + 1 <= z(cap)))
        for c in range(dim + 1):
            new = ex.fresh_arr('A', 'real')
            st.w(CK.o).cols[8 * c] = ('real', new)
            if st.writes is not None:
                st.writes.add((CK.o, ('col', 8 * c)))
            x = z3.Int('x')
            st.assume(z3.ForAll([x], implies(and_(0 <= x, x <= n), new[x] == A[c](x)), patterns=[new[x]]))
    return Contract(r'^void gbs::eval_ders_decasteljau<double, %dul>\(double, std::vector<double' % (dim + 1), apply, 'eval_ders_decasteljau (C03)')


def hom_val(dim):
    def apply(ex, st, a):
        out, u, kp, pp, p, d = a[:6]
        p, d = z(num(p)), z(num(d))
        hom_pre(ex, st, 'eval_value_decasteljau', u, kp, pp, p)
        for c in range(dim + 1):
            ex.store(st, DBL, out.at(8 * c), A[c](d))
    return Contract(r'gbs::eval_value_decasteljau<double, %dul>\(double, std::vector<double' % (dim + 1), apply, 'eval_value_decasteljau (C03)')


def binom():
    def apply(ex, st, a):
        n, k = z(num(a[0])), z(num(a[1]))
        ex.oblige(st, 'pre:binomial_law: 0 <= k <= n', and_(0 <= k, k <= n))
        return BIN(n, k)
    return Contract(r'gbs::binomial_law<double, unsigned long>', apply, 'binomial_law (bounded, n <= 30)')


def self_rec(dim):
    first = [True]

    def apply(ex, st, a):
        out, u, kp, pp, p, d = a[:6] if dim == 3 else [None] + list(a[:5])
        p, d = z(num(p)), z(num(d))
        hom_pre(ex, st, 'eval_rational_value_simple', u, kp, pp, p)
        ex.oblige(st, 'recursion: smaller order', and_(d >= 0, d < G['d']))
        if dim == 3:
            for c in range(dim):
                ex.store(st, DBL, out.at(8 * c), C[c](d))
        else:
            return [C[c](d) for c in range(dim)]
    return apply


# ---- eval_rational_ders
def setup_d(dim):
    def f(ex, st):
        u, kp, pp, p, d = base(ex, st, dim)
        o = ex.new_sym(st, 8 * dim, d + 1, 'CK')
        for c in range(dim):
            o.cols[8 * c] = ('real', z3.Array('CK0.%d' % c, I, R))
        G['CK'] = lambda s_: View(ex, s_, o.id, 0, d + 1, 8 * dim)
        return [u, kp, pp, p, d, Ptr(o.id, 0)]
    return f


def post_d(ex, st, ret):
    CK, d = G['CK'](st), G['d']
    return [('order by order, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x <= d), CK.at(x, 8 * c) == C[c](x)))) for c in range(G['dim'])]


def done(L, kk):
    CK = G['CK'](L.st)
    return [('orders done %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < kk), CK.at(x, 8 * c) == C[c](x)), lambda x: [CK.at(x, 8 * c)])) for c in range(G['dim'])]


def inv_hi(L):
    kk = z(L.int('kk'))
    return [('kk', and_(0 <= kk, kk <= G['d'] + 1))] + done(L, kk)


def inv_i(L):
    kk, i, v = z(L.int('kk')), z(L.int('i')), L.addr('v')
    g = [('kk', and_(0 <= kk, kk <= G['d'])), ('i', and_(1 <= i, i <= kk + 1)), ] + done(L, kk)
    for c in range(G['dim']):
        g.append(('partial sum %d' % c, z(L.ex.load(L.st, DBL, v.at(8 * c))) == S[c](kk, i - 1)))
    return g


def val_contract(dim):
    def apply(ex, st, a):
        out, u, kp, pp, p, d = a[:6] if dim == 3 else [None] + list(a[:5])
        p, d = z(num(p)), z(num(d))
        hom_pre(ex, st, 'eval_rational_value_simple', u, kp, pp, p)
        if dim == 3:
            for c in range(dim):
                ex.store(st, DBL, out.at(8 * c), C[c](d))
        else:
            return [C[c](d) for c in range(dim)]
    return Contract(r'gbs::eval_rational_value_simple<double, %dul>\(' % dim, apply, 'eval_rational_value_simple (this property)')


RXD = r'^void gbs::eval_rational_ders<double, %dul>\(double, std::vector<double'


def PD(dim):
    return Proof('eval_rational_ders dim %d' % dim, 'vc_rders%d' % dim, setup_d(dim), post_d, tu=TU, divfn=True,
                 callees=[hom_ders(dim), binom(), val_contract(dim)],
                 loops={RXD % dim: {0: LoopSpec(inv_hi, lambda L: G['d'] + 1 - z(L.int('kk'))), 1: LoopSpec(inv_hi, lambda L: G['d'] + 1 - z(L.int('kk'))), 3: LoopSpec(inv_i, lambda L: z(L.int('kk')) + 1 - z(L.int('i')))}})



# ---- eval_rational_value_simple (recursive: its own contract is used for the inner calls, at a smaller order)
def setup_v(dim):
    def f(ex, st):
        u, kp, pp, p, d = base(ex, st, dim)
        o = ex.new_obj(st, 8 * dim, 'out')
        G['o'] = Ptr(o.id, 0)
        return [u, kp, pp, p, d, Ptr(o.id, 0)]
    return f


def post_v(ex, st, ret):
    return [('coordinate %d' % c, z(ex.load(st, DBL, G['o'].at(8 * c))) == C[c](G['d'])) for c in range(G['dim'])]


def inv_v(L):
    i, s = z(L.int('i')), L.addr('sum')
    return [('i', and_(1 <= i, i <= G['d'] + 1))] + [('partial sum %d' % c, z(L.ex.load(L.st, DBL, s.at(8 * c))) == S[c](G['d'], i - 1)) for c in range(G['dim'])]


RXV = r'gbs::eval_rational_value_simple<double, %dul>\('


def PV_(dim):
    rec = Contract(RXV % dim, self_rec(dim), 'eval_rational_value_simple at a smaller order (recursion)')
    rec.skip_top = True
    return Proof('eval_rational_value_simple dim %d' % dim, 'vc_rval%d' % dim, setup_v(dim), post_v, tu=TU, divfn=True, callees=[hom_val(dim), binom(), rec],
                 loops={RXV % dim: {0: LoopSpec(inv_v, lambda L: G['d'] + 1 - z(L.int('i')))}})



# ---- the class
def setup_c(dim, f0):
    def f(ex, st):
        u, kp, pp, p, d, o = f0(dim)(ex, st)
        return [pp, kp, p, u, d, o]
    return f


EPS = F(100, 2**52)


def inside():
    k, n, p, u = G['k'], G['n'], G['p'], G['u']
    return and_(u >= k[0] - z(EPS), u <= k[n + p] + z(EPS))


def throws_c(ex, st):
    return [('only outside the bounds', z3.Not(inside()))]


def PC(name, entry, dim, f0, post):
    return Proof(name, entry, setup_c(dim, f0), lambda ex, st, r: post(ex, st, r) + [('no value outside the bounds', inside())], tu=TU, divfn=True, throws=throws_c,
                 callees=[val_contract(dim), ders_contract(dim), check_curve_contract()])


def ders_contract(dim):
    def apply(ex, st, a):
        u, kp, pp, p, n, CK = a
        p, n = z(num(p)), z(num(n))
        hom_pre(ex, st, 'eval_rational_ders', u, kp, pp, p)
        ex.oblige(st, 'pre:eval_rational_ders: room for the result', and_(n >= 0, n + 1 <= z(st.mem[CK.o].len)))
        for c in range(dim):
            new = ex.fresh_arr('C', 'real')
            st.w(CK.o).cols[8 * c] = ('real', new)
            if st.writes is not None:
                st.writes.add((CK.o, ('col', 8 * c)))
            x = z3.Int('x')
            st.assume(z3.ForAll([x], implies(and_(0 <= x, x <= n), new[x] == C[c](x)), patterns=[new[x]]))
    return Contract(RXD % dim, apply, 'eval_rational_ders (this property)')


# ---- weight bookkeeping: every pole, any number of poles
def mapping(name, entry, ins, outs, rel, pre=None, throws=None, args=None, divfn=True):
    """ins: [(name, R)] input vectors of common length n; outs: [(arg name, R)]; rel(i, I, O) -> [(label, formula)]"""
    def setup(ex, st):
        n = z3.Int('n')
        st.assume(and_(n >= 0, n < 2**40))
        ps, vs = {}, {}
        for nm, Rz in ins:
            ps[nm], v = mk_vec(ex, st, n, Rz, nm)
            vs[nm] = {c: v.arr(c) for c in range(0, Rz, 8)}
        op = {}
        for nm, Rz in outs:
            op[nm] = ps[nm] if nm in ps else empty_vec(ex, st, nm)
        G.update(n=n, I=vs, op=op, sc=z3.Real('sc'), mean=z3.Real('mean'))
        if pre:
            pre(ex, st)
        return [G['sc'] if a == 'sc' else ps.get(a) if a in ps else op[a] for a in args]

    def post(ex, st, ret):
        g = []
        for nm, Rz in outs:
            v = vec_view(ex, st, G['op'][nm], Rz)
            g.append(('%s has one entry per pole' % nm, z(v.len) == G['n']))
        O_ = {nm: vec_view(ex, st, G['op'][nm], Rz) for nm, Rz in outs}
        i = z3.Int('i')
        for lab, f in rel(i, {nm: {c: a[i] for c, a in cols.items()} for nm, cols in G['I'].items()}, {nm: {c: v.at(i, c) for c in range(0, Rz, 8)} for (nm, Rz), v in zip(outs, O_.values())}):
            g.append((lab, z3.ForAll([i], implies(and_(0 <= i, i < G['n']), f))))
        return g
    return Proof(name, entry, setup, post, tu=TU, divfn=divfn, throws=throws)


def r_merge(i, I_, O_):
    return [('weighted coordinates', and_(*[O_['o'][c] == I_['p'][c] * I_['w'][0] for c in (0, 8)])), ('weight last', O_['o'][16] == I_['w'][0])]


def r_addw(i, I_, O_):
    return [('coordinates kept', and_(*[O_['o'][c] == I_['p'][c] for c in (0, 8)])), ('unit weight', O_['o'][16] == 1)]


def proj(x, w):
    return z3.If(w == 0, 0, DIV(x, w))


def r_sep(i, I_, O_):
    return [('projected coordinates', and_(*[O_['p'][c] == z3.If(I_['pw'][16] == 0, 0, I_['pw'][c] / I_['pw'][16]) for c in (0, 8)])), ('weights', O_['w'][0] == I_['pw'][16])]


def r_proj(i, I_, O_):
    return [('projected coordinates', and_(*[O_['o'][c] == z3.If(I_['pw'][16] == 0, 0, I_['pw'][c] / I_['pw'][16]) for c in (0, 8)]))]


def r_scale(i, I_, O_):
    return [('every coordinate scaled', and_(*[O_['o'][c] == I_['o' if 'o' in I_ else 'p'][c] * G['sc'] for c in (0, 8, 16)]))]


def setup_proj(ex, st):
    o, q = ex.new_obj(st, 24, 'p'), ex.new_obj(st, 24, 'o')
    x = z3.Reals('x y w')
    for c in range(3):
        ex.store(st, DBL, Ptr(o.id, 8 * c), x[c])
    G.update(x=x, o=Ptr(q.id, 0))
    return [Ptr(o.id, 0), Ptr(q.id, 0)]


def post_proj(ex, st, ret):
    x, y, w = G['x']
    return [('coordinate %d' % c, z(ex.load(st, DBL, G['o'].at(8 * c))) == proj((x, y)[c], w)) for c in range(2)]


def post_projn(ex, st, ret):
    return [('coordinate %d kept' % c, z(ex.load(st, DBL, G['o'].at(8 * c))) == G['x'][c]) for c in range(3)]


PROOFS = [PD(2), PD(3), PV_(2), PV_(3),
          PC('BSCurveRational<2>: construct and evaluate', 'vc_rcv2', 2, setup_v, post_v),
          PC('BSCurveRational<2>: construct and evaluate all orders', 'vc_rcd2', 2, setup_d, post_d),
          mapping('merge_weights', 'vc_merge2', [('p', 16), ('w', 8)], [('o', 24)], r_merge, args=['p', 'w', 'o']),
          mapping('add_weights_coord (given weights)', 'vc_addww2', [('p', 16), ('w', 8)], [('o', 24)], r_merge, args=['p', 'w', 'o']),
          mapping('add_weights_coord (unit weights)', 'vc_addw2', [('p', 16)], [('o', 24)], r_addw, args=['p', 'o']),
          mapping('separate_weights', 'vc_separate2', [('pw', 24)], [('p', 16), ('w', 8)], r_sep, args=['pw', 'p', 'w']),
          mapping('poles_projected', 'vc_projs2', [('pw', 24)], [('o', 16)], r_proj, args=['pw', 'o']),
          mapping('scale_poles', 'vc_scalep3', [('o', 24)], [('o', 24)], r_scale, args=['o', 'sc']),
          mapping('scaled_poles', 'vc_scaledp3', [('p', 24)], [('o', 24)], r_scale, args=['p', 'sc', 'o']),
          Proof('weight_projection', 'vc_proj3', setup_proj, post_proj, tu=TU, divfn=True),
          Proof('weight_projected_pole (rational)', 'vc_projr', setup_proj, post_proj, tu=TU, divfn=True),
          Proof('weight_projected_pole (plain)', 'vc_projn', setup_proj, post_projn, tu=TU, divfn=True)]


def b_binom(mod, out):
    from math import comb
    for n in range(0, 31):
        for k in range(0, n + 1):
            for f in ('vc_binom', 'vc_binomi'):
                ex, st = bnd.start(mod)
                for s, r in bnd.go(ex, st, f, [n, k]):
                    bnd.eq(out, ex, s, r, F(comb(n, k)), '%s(%d,%d)' % (f, n, k))


BOUNDED = [Bounded('binomial_law', TU, 'every 0 <= k <= n <= 30, both integer types (every order the stack tables allow)', b_binom)]


class Sx(Suite):
    tu = TU
    rule = 'random rational curves with positive, unequal weights; every derivative order up to degree+3 and high orders up to 24; exact rational oracle (Leibniz)'

    def cases(self, rng, tier):
        N = {'quick': 500, 'thorough': 8000, 'search': 4000}[tier]
        for it in range(N):
            p, k, n = curve_knots(rng, pmax=5)
            u = fl(pick_u(rng, k, p))
            dim = rng.choice([2, 3])
            P = [q[:-1] + [F(rng.choice([1, 1, 2, 3, 1, 5]), rng.choice([1, 2, 4]))] for q in O.pts(rng, n, dim + 1)]
            if rng.random() < 0.1:
                w = P[0][-1]
                P = [q[:-1] + [w] for q in P]
            P = [[x * q[-1] for x in q[:-1]] + [q[-1]] for q in P]
            d = rng.randrange(0, p + 4)
            yield 'value', (dim, fl(P), fl(k), p, u, d)
            yield 'all orders', (dim, fl(P), fl(k), p, u, d)
            yield 'object', (fl([q[:2] for q in O.pts(rng, n, 2)]), fl([q[-1] for q in P]), fl(k), p, u, d)
            if it % 4 == 0:
                yield 'unit weights', (fl(O.pts(rng, n, 3)), fl(k), p, u, rng.randrange(0, p + 2))
                yield 'weights', (fl([q[:2] + [q[-1]] for q in P]), fl(F(rng.randrange(1, 50), 8)))
        for n in (21, 22, 24):
            k = [F(0)] * 3 + [F(1)] * 3
            P = [[F(0), F(1), F(1)], [F(1), F(2), F(2)], [F(3), F(1), F(1)]]
            yield 'all orders', (2, fl(P), fl(k), 2, 0.5, n)
        k = [F(0)] * 3 + [F(1)] * 3
        yield 'all orders', (2, fl([[F(0), F(1), F(1)], [F(1), F(2), F(2)], [F(3), F(1), F(1)]]), fl(k), 2, 0.5, 12)
        for n in range(0, 31):
            yield 'binomial', (n,)

    def hom(self, u, n, p, k, P):
        A_, B_ = [], []
        for d in range(n + 1):
            v, sc = O.curve(F(u), d, p, ex_(k), ex_(P))
            A_.append(v)
            B_.append(sc)
        Cc = O.rational_from_hom(A_)
        # magnitude of the terms met by the quotient rule, for the tolerance
        m = len(A_[0]) - 1
        w0 = abs(A_[0][-1])
        M = []
        from math import comb
        for d in range(n + 1):
            row = []
            for c in range(m):
                t = B_[d][c] + sum(comb(d, i) * B_[i][-1] * M[d - i][c] for i in range(1, d + 1))
                row.append(t / w0)
            M.append(row)
        return Cc, M

    def run(self, lib, g, c):
        if g == 'value':
            dim, P, k, p, u, d = c
            w, M = self.hom(u, d, p, k, P)
            a = self.ok(lib.call('vc_rval%d' % dim, [u, Vec(k), Vec(P, dim + 1), p, d, Out(dim)])).out[5]
            for q in range(dim):
                self.near(a[q], w[d][q], M[d][q], 'rational derivative %d coordinate %d' % (d, q), rel=1e-8)
        elif g == 'all orders':
            dim, P, k, p, u, n = c
            w, M = self.hom(u, n, p, k, P)
            a = self.ok(lib.call('vc_rders%d' % dim, [u, Vec(k), Vec(P, dim + 1), p, n, Out(dim * (n + 1) + 1)])).out[5]
            for d in range(n + 1):
                for q in range(dim):
                    self.near(a[dim * d + q], w[d][q], M[d][q], 'rational derivative %d of %d coordinate %d' % (d, n, q), rel=1e-8)
            if a[-1] == a[-1]:
                self.fail('write past the last order')
        elif g == 'object':
            P, W, k, p, u, d = c
            H = [[x * w for x in q] + [w] for q, w in zip(ex_(P), ex_(W))]
            w, M = self.hom(u, d, p, k, H)
            ks, ms = unflat(k)
            rs = [self.ok(lib.call('vc_rcv2', [Vec(fl(H), 3), Vec(k), p, u, d, Out(2)])).out[5],
                  self.ok(lib.call('vc_rcw2', [Vec(P, 2), Vec(k), Vec(W), p, u, d, Out(2)])).out[6],
                  self.ok(lib.call('vc_rcwm2', [Vec(P, 2), Vec(ks), Vec(ms, 1, 'Q'), Vec(W), p, u, d, Out(2)])).out[7]]
            for nm, a in zip(('homogeneous poles', 'weights', 'weights and multiplicities'), rs):
                for q in range(2):
                    self.near(a[q], w[d][q], M[d][q], 'curve built from %s: derivative %d coordinate %d' % (nm, d, q), rel=1e-8)
            a = self.ok(lib.call('vc_rcd2', [Vec(fl(H), 3), Vec(k), p, u, d, Out(2 * (d + 1))])).out[5]
            for e in range(d + 1):
                for q in range(2):
                    self.near(a[2 * e + q], w[e][q], M[e][q], 'all orders at once: derivative %d coordinate %d' % (e, q), rel=1e-8)
            r = self.ok(lib.call('vc_rcpw2', [Vec(fl(H), 3), Vec(k), p, Vec([], 2), Vec([])]))
            for i in range(len(P)):
                self.near(r.out[4][i], W[i], 1, 'weight %d' % i)
                for q in range(2):
                    self.near(r.out[3][i][q], P[i][q], abs(P[i][q]), 'projected pole %d' % i)
            # convex hull: with positive weights the point lies in the bounding box of the poles
            if d == 0:
                for q in range(2):
                    lo, hi = min(x[q] for x in P), max(x[q] for x in P)
                    if not (lo - 1e-9 * (1 + abs(lo)) <= rs[1][q] <= hi + 1e-9 * (1 + abs(hi))):
                        self.fail('point outside the box of the poles')
        elif g == 'unit weights':
            P, k, p, u, d = c
            w, _ = O.curve(F(u), d, p, ex_(k), ex_(P))
            sc = self.hom(u, d, p, k, [q + [1] for q in P])[1][d]
            a = self.ok(lib.call('vc_rcb3', [Vec(P, 3), Vec(k), p, u, d, Out(3)])).out[5]
            for q in range(3):
                self.near(a[q], w[q], sc[q], 'rational copy of a polynomial curve', rel=1e-7)
        elif g == 'weights':
            H, s = c
            P = [[x / q[2] for x in q[:2]] for q in ex_(H)]
            W = [q[2] for q in H]
            n = len(H)

            def cmp(got, want, what, dim):
                if len(got) != n:
                    self.fail('%s: %d entries for %d poles' % (what, len(got), n))
                for i in range(n):
                    for q in range(dim):
                        self.near(got[i][q] if dim > 1 else got[i], want[i][q] if dim > 1 else want[i], abs(want[i][q] if dim > 1 else want[i]), '%s, entry %d' % (what, i))
            cmp(self.ok(lib.call('vc_merge2', [Vec(fl(P), 2), Vec(W), Vec([], 3)])).out[2], ex_(H), 'merge', 3)
            cmp(self.ok(lib.call('vc_addww2', [Vec(fl(P), 2), Vec(W), Vec([], 3)])).out[2], ex_(H), 'add weights', 3)
            cmp(self.ok(lib.call('vc_addw2', [Vec(fl(P), 2), Vec([], 3)])).out[1], [q + [F(1)] for q in P], 'add unit weights', 3)
            r = self.ok(lib.call('vc_separate2', [Vec(H, 3), Vec([], 2), Vec([])]))
            cmp(r.out[1], P, 'separate: poles', 2)
            cmp(r.out[2], ex_(W), 'separate: weights', 1)
            cmp(self.ok(lib.call('vc_projs2', [Vec(H, 3), Vec([], 2)])).out[1], P, 'projection', 2)
            cmp(self.ok(lib.call('vc_scalep3', [Vec(H, 3), s])).out[0], [[x * F(s) for x in q] for q in ex_(H)], 'scale poles', 3)
            m = sum(ex_(W)) / n
            W2 = [[x * F(s) / m for x in q] for q in ex_(H)]
            cmp(self.ok(lib.call('vc_scalew3', [Vec(H, 3), s])).out[0], W2, 'scale weights to a mean', 3)
            cmp(self.ok(lib.call('vc_scaledw3', [Vec(H, 3), s, Vec([], 3)])).out[2], W2, 'scaled weights', 3)
        else:
            from math import comb
            n, = c
            for k in range(n + 1):
                for f in ('vc_binom', 'vc_binomi'):
                    self.near(self.ok(lib.call(f, [n, k], 'd')).ret, comb(n, k), comb(n, k), '%s(%d,%d)' % (f, n, k))


SUITE = Sx()
