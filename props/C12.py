"""C12: the pole grid of a surface"""
from .grid import *
from .callees import check_curve_contract, num
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
PROOFS = [Lemma('grid index', grid_index, tu=TU)]


# ---- swapping the two directions
def setup_inv(dim):
    def f(ex, st):
        n, m, N = z3.Ints('n m N')
        st.assume(and_(n >= 1, m >= 1, n < 2**31, m < 2**31, N == n * m, N >= 1, N < 2**50, N / n == m))
        grid(st, n, m, N)
        grid(st, m, n, N)
        pp, P = mk_vec(ex, st, N, 8 * dim, 'P')
        op, _ = mk_vec(ex, st, z3.IntVal(0), 8 * dim, 'o')
        G.update(n=n, m=m, N=N, P=[P.arr(8 * c) for c in range(dim)], op=op, dim=dim, pp=pp)
        return [pp, n, op]
    return f


def swapped(o, n, m, P, lim=None):
    """o(i,j) == P(j,i)"""
    return [('pole (i,j) of the result is pole (j,i), coordinate %d' % c,
             forall(2, lambda i, j: implies(and_(0 <= i, i < n, 0 <= j, j < m, *([lim(i, j)] if lim else [])), o.at(IX(n, i, j), 8 * c) == P[c][IX(m, j, i)]), lambda i, j: [IX(n, i, j)])) for c in range(len(P))]


def post_inv(ex, st, r):
    o = vec_view(ex, st, G['op'], 8 * G['dim'])
    return [('number of poles', z(o.len) == G['N'])] + swapped(o, G['n'], G['m'], G['P'])


def inv_inv(depth):
    def f(L):
        n, m = G['n'], G['m']
        o = L.vec('poles_t', 8 * G['dim'])
        i = z(L.int('i'))
        g = [('size', z(o.len) == G['N']), ('i', and_(0 <= i, i <= n))]
        if depth == 0:
            return g + swapped(o, n, m, G['P'], lambda a, b: a < i)
        j = z(L.int('j'))
        return g + [('j', and_(0 <= j, j <= m)), ('cells', implies(j < m, and_(IX(n, i, j) == i + n * j, IX(m, j, i) == j + m * i)))] + swapped(o, n, m, G['P'], lambda a, b: or_(a < i, and_(a == i, b < j)))
    return f


for d, e in ((1, 'vc_inv1'), (3, 'vc_inv')):
    PROOFS.append(Proof('inverted_uv_poles, dim %d' % d, e, setup_inv(d), post_inv, tu=TU,
                        loops={r'gbs::inverted_uv_poles<double, %dul>' % d: {0: LoopSpec(inv_inv(0), lambda L: G['n'] - z(L.int('i'))), 1: LoopSpec(inv_inv(1), lambda L: G['m'] - z(L.int('j')))}}))


# ---- access by index
def setup_srf(dim, idx, outs):
    def f(ex, st):
        nu, nv, p, q, N = z3.Ints('nu nv p q N')
        st.assume(and_(p >= 0, q >= 0, p < 2**30, q < 2**30, nu >= p + 1, nv >= q + 1, nu < 2**31, nv < 2**31, N == nu * nv, N >= 1, N < 2**50))
        grid(st, nu, nv, N)
        row_facts(st, nu, nv, N)
        kup, ku = mk_vec(ex, st, nu + p + 1, 8, 'ku')
        kvp, kv = mk_vec(ex, st, nv + q + 1, 8, 'kv')
        st.assume(sorted_(ku))
        st.assume(sorted_(kv))
        pp, P = mk_vec(ex, st, N, 8 * dim, 'P')
        x = [z3.Int(c) for c in idx]
        st.assume(and_(*[and_(a >= 0, a < 2**62) for a in x]))
        o = out_buf(ex, st, 8 * dim, 'o') if outs == 'point' else mk_vec(ex, st, z3.IntVal(0), 8 * dim, 'o')[0]
        G.update(nu=nu, nv=nv, p=p, q=q, N=N, P=[P.arr(8 * c) for c in range(dim)], x=x, o=o, dim=dim)
        return [pp, kup, kvp, p, q] + x + [o]
    return f


def post_pole(ex, st, r):
    i, j = G['x']
    return [('the indices are inside', and_(i < G['nu'], j < G['nv']))] + \
           [('first index along U, second along V, coordinate %d' % c, z(ex.load(st, DBL, G['o'].at(8 * c))) == G['P'][c][IX(G['nu'], i, j)]) for c in range(G['dim'])]


def throws_pole(ex, st):
    i, j = G['x']
    return [('only for indices outside', or_(i >= G['nu'], j >= G['nv']))]


def post_polesU(ex, st, r):
    o = vec_view(ex, st, G['o'], 8 * G['dim'])
    j = z3.If(G['x'][0] < G['nv'], G['x'][0], G['nv'] - 1)
    return [('one pole per U index', z(o.len) == G['nu'])] + \
           [('the row of the grid, coordinate %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < G['nu']), o.at(i, 8 * c) == G['P'][c][IX(G['nu'], i, j)]))) for c in range(G['dim'])]


def column():
    return z3.If(G['x'][0] < G['nu'], G['x'][0], G['nu'] - 1)


def post_polesV(ex, st, r):
    o = vec_view(ex, st, G['o'], 8 * G['dim'])
    i = column()
    return [('one pole per V index', z(o.len) == G['nv'])] + \
           [('the column of the grid, coordinate %d' % c, forall(1, lambda j: implies(and_(0 <= j, j < G['nv']), o.at(j, 8 * c) == G['P'][c][IX(G['nu'], i, j)]))) for c in range(G['dim'])]


def inv_polesV(L):
    o = L.vec('poles_', 8 * G['dim'])
    j, i = z(L.int('j')), column()
    return [('j', and_(0 <= j, j <= G['nv'])), ('size', z(o.len) == G['nv']), ('cell', implies(j < G['nv'], IX(G['nu'], i, j) == i + G['nu'] * j))] + \
           [('column so far, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < j), o.at(x, 8 * c) == G['P'][c][IX(G['nu'], i, x)]), lambda x: [o.at(x, 8 * c)])) for c in range(G['dim'])]


CC = [check_curve_contract()]
for nm, e, d in (('surface', 'vc_pole', 3), ('rational surface', 'vc_poler', 4)):
    PROOFS.append(Proof('pole of a %s' % nm, e, setup_srf(d, 'ij', 'point'), post_pole, tu=TU, callees=CC, throws=throws_pole))


for nm, e, d in (('surface', '', 3), ('rational surface', 'r', 4)):
    PROOFS.append(Proof('polesU of a %s' % nm, 'vc_polesU' + e, setup_srf(d, 'j', 'list'), post_polesU, tu=TU, callees=CC))
    PROOFS.append(Proof('polesV of a %s' % nm, 'vc_polesV' + e, setup_srf(d, 'i', 'list'), post_polesV, tu=TU, callees=CC,
                        loops={r'gbs::BSSurfaceGeneral<double, 3ul, %s>::polesV\(' % ('true' if e else 'false'): {0: LoopSpec(inv_polesV, lambda L: G['nv'] - z(L.int('j')))}}))


class S_(Suite):
    tu = TU
    rule = 'random non-square grids (1x1 to 12x12), every index inside and some outside; lists copied, transposed (plain and by blocks of every size), flattened; the description of a surface turned back into a surface'

    def cases(self, rng, tier):
        N = {'quick': 300, 'thorough': 4000, 'search': 2000}[tier]
        for it in range(N):
            n, m = rng.choice([1, 2, 3, 4, 5, 7, 12]), rng.choice([1, 2, 3, 4, 6, 9, 12])
            P = fl(O.pts(rng, n * m, 3))
            yield 'swap', (P, n, m)
            yield 'transpose', (P, n, m, rng.choice([0, 0, 1, 2, 3, 4, 8, 20]))
            p, q, ku, kv, nu, nv = surf_case(rng, 3, 4)
            P = O.pts(rng, nu * nv, 3)
            yield 'access', (p, q, fl(ku), fl(kv), fl(P), fl(posw(rng, P)), rng.randrange(0, nu + 2), rng.randrange(0, nv + 2))
            yield 'info', (p, q, fl(ku), fl(kv), fl(P))

    def run(self, lib, g, c):
        call = lambda f, *a: self.ok(lib.call(f, list(a)), f).out
        eq = lambda a, b, w: [list(x) for x in a] == [list(x) for x in b] or self.fail(w, got=[list(map(float, x)) for x in a][:30])
        if g == 'swap':
            P, n, m = c
            W = [P[j + m * i] for j in range(m) for i in range(n)]
            eq(call('vc_inv', Vec(P, 3), n, Vec([], 3))[2], W, 'inverted_uv_poles')
            o = call('vc_inv1', Vec([x[0] for x in P]), n, Vec([]))[2]
            if [float(x) for x in o] != [x[0] for x in W]:
                self.fail('inverted_uv_poles, dim 1')
        elif g == 'transpose':
            P, n, m, bs = c
            r = self.ok(lib.call('vc_tra', [Vec(P, 3), m, bs, Vec([], 3)], 'q'))
            if r.ret != m:
                self.fail('transpose_poles: %d rows, expected %d' % (r.ret, m))
            eq(r.out[3], [P[i * m + j] for j in range(m) for i in range(n)], 'transpose_poles then flatten_poles')
        elif g == 'access':
            p, q, ku, kv, P, H, i, j = c
            nu, nv = len(ku) - p - 1, len(kv) - q - 1
            for D, d, x in ((P, 3, ''), (H, 4, 'r')):
                r = lib.call('vc_pole' + x, [Vec(D, d), Vec(ku), Vec(kv), p, q, i, j, Out(d)])
                if i < nu and j < nv:
                    eq([self.ok(r).out[7]], [D[i + nu * j]], 'pole(%d,%d)' % (i, j))
                elif r.rc == 0:
                    self.fail('pole(%d,%d) accepted on a %d x %d grid' % (i, j, nu, nv))
                J = min(j, nv - 1)
                eq(call('vc_polesU' + x, Vec(D, d), Vec(ku), Vec(kv), p, q, j, Vec([], d))[6], D[nu * J:nu * J + nu], 'polesU(%d)' % j)
                I = min(i, nu - 1)
                eq(call('vc_polesV' + x, Vec(D, d), Vec(ku), Vec(kv), p, q, i, Vec([], d))[6], D[I::nu], 'polesV(%d)' % i)
        else:
            p, q, ku, kv, P = c
            o = call('vc_info', Vec(P, 3), Vec(ku), Vec(kv), p, q, Vec([], 3), Vec([]), Vec([]), 0, 0)
            eq(o[5], P, 'poles of a surface built from a description')
            if list(o[6]) != ku or list(o[7]) != kv or (o[8], o[9]) != (p, q):
                self.fail('knots or degrees of a surface built from a description')


SUITE = S_()
