"""C11: reversing, rescaling and swapping parameters"""
from .grid import *
from .callees import check_curve_contract, num
LEVEL = 'proof'
TU = 'knots.cpp'
G = {}
PROOFS = [Lemma('grid index', grid_index, tu=TU)]
I_, R_ = z3.IntSort(), z3.RealSort()


def curve_setup(dim, extra=(), soft=False):
    def f(ex, st):
        n, p = z3.Ints('n p')
        st.assume(and_(p >= 0, p < 2**31, n >= p + 1, n < 2**40))
        kp, k = mk_vec(ex, st, n + p + 1, 8, 'k')
        pp, P = mk_vec(ex, st, n, 8 * dim, 'P')
        st.assume(sorted_(k))
        st.assume(k[0] < k[n + p])
        b = out_buf(ex, st, 16, 'b')
        a, c = z3.Reals('a c')
        G.update(n=n, p=p, k=k.arr(), P=[P.arr(8 * x) for x in range(dim)], kp=kp, pp=pp, b=b, a=a, c=c, dim=dim)
        return [p, kp, pp] + ([a, c] if extra else []) + [b]
    return f


def bound2(ex, st):
    return [ex.load(st, DBL, G['b'].at(8 * i)) for i in range(2)]


def out(ex, st):
    return vec_view(ex, st, G['kp'], 8), vec_view(ex, st, G['pp'], 8 * G['dim'])


def post_rev(soft):
    def f(ex, st, r):
        k1, P1 = out(ex, st)
        n, p, k, P = G['n'], G['p'], G['k'], G['P']
        N = n + p
        lo, hi = bound2(ex, st)
        a, c = (z3.If(G['a'] <= G['c'], G['a'], G['c']), z3.If(G['a'] <= G['c'], G['c'], G['a'])) if soft else (k[0], k[N])
        return [('number of knots', z(k1.len) == N + 1), ('number of poles', z(P1.len) == n),
                ('knots mirrored', forall(1, lambda i: implies(and_(0 <= i, i <= N), k1[i] == k[0] + k[N] - k[N - i]))),
                ('bounds mirrored', and_(lo == k[0] + k[N] - c, hi == k[0] + k[N] - a))] + \
               [('poles in opposite order, coordinate %d' % x, forall(1, lambda i: implies(and_(0 <= i, i < n), P1.at(i, 8 * x) == P[x][n - 1 - i]))) for x in range(G['dim'])]
    return f


def affine(k1, k, N, a, c):
    return forall(1, lambda i: implies(and_(0 <= i, i <= N), k1[i] * (k[N] - k[0]) == a * (k[N] - k[0]) + (c - a) * (k[i] - k[0])))


def post_chb(ex, st, r):
    k1, P1 = out(ex, st)
    n, p, k, P = G['n'], G['p'], G['k'], G['P']
    N = n + p
    lo, hi = bound2(ex, st)
    return [('number of knots', z(k1.len) == N + 1), ('number of poles', z(P1.len) == n), ('knots moved affinely', affine(k1, k, N, G['a'], G['c'])),
            ('bounds', and_(lo == G['a'], hi == G['c']))] + \
           [('poles kept, coordinate %d' % x, forall(1, lambda i: implies(and_(0 <= i, i < n), P1.at(i, 8 * x) == P[x][i]))) for x in range(G['dim'])]


CC = [check_curve_contract()]
for nm, e, d in (('curve, dim 3', 'vc_crev3', 3), ('curve, dim 1', 'vc_crev1', 1), ('copy of a curve', 'vc_crevd3', 3), ('rational curve', 'vc_crev3r', 4), ('copy of a rational curve', 'vc_crevd3r', 4)):
    PROOFS.append(Proof('reversed ' + nm, e, curve_setup(d), post_rev(False), tu=TU, callees=CC))
PROOFS.append(Proof('reversed curve with restricted bounds', 'vc_crevs3', curve_setup(3, True), post_rev(True), tu=TU, callees=CC))
for nm, e, d in (('curve', 'vc_cchb3', 3), ('curve, given as a pair', 'vc_cchb3a', 3), ('rational curve', 'vc_cchb3r', 4)):
    PROOFS.append(Proof('changed bounds of a ' + nm, e, curve_setup(d, True), post_chb, tu=TU, callees=CC))


# ---- surfaces
def srf_setup(dim, op):
    def f(ex, st):
        nu, nv, p, q, N = z3.Ints('nu nv p q N')
        st.assume(and_(p >= 0, q >= 0, p < 2**30, q < 2**30, nu >= p + 1, nv >= q + 1, nu < 2**31, nv < 2**31, N == nu * nv, N == nv * nu, N >= 1, N < 2**50))
        for n, m in ((nu, nv), (nv, nu)):
            grid(st, n, m, N)
            rows(st, n, m)
            row_facts(st, n, m, N)
        kup, ku = mk_vec(ex, st, nu + p + 1, 8, 'ku')
        kvp, kv = mk_vec(ex, st, nv + q + 1, 8, 'kv')
        for k, n in ((ku, nu + p), (kv, nv + q)):
            st.assume(sorted_(k))
            st.assume(k[0] < k[n])
        pp, P = mk_vec(ex, st, N, 8 * dim, 'P')
        a, c = z3.Reals('a c')
        dp, dq, b = [out_buf(ex, st, s, x) for x, s in (('dp', 8), ('dq', 8), ('b', 32))]
        ex.store(st, I64, dp, p)
        ex.store(st, I64, dq, q)
        G.update(nu=nu, nv=nv, p=p, q=q, N=N, ku=ku.arr(), kv=kv.arr(), P=[P.arr(8 * x) for x in range(dim)], kup=kup, kvp=kvp, pp=pp, a=a, c=c, b=b, dp=dp, dq=dq, dim=dim)
        return [pp, kup, kvp, dp, dq, op, a, c, b]
    return f


def mirrored(k1, k, N):
    return [('mirrored', forall(1, lambda i: implies(and_(0 <= i, i <= N), k1[i] == k[0] + k[N] - k[N - i])))]


def same(k1, k, N):
    return [('kept', forall(1, lambda i: implies(and_(0 <= i, i <= N), k1[i] == k[i])))]


def rescaled(k1, k, N):
    return [('moved affinely', affine(k1, k, N, G['a'], G['c']))]


def srf_post(fu, fv, pole, swap=False, bnd=None):
    def f(ex, st, r):
        nu, nv, p, q, ku, kv, P = (G[x] for x in ('nu', 'nv', 'p', 'q', 'ku', 'kv', 'P'))
        k1, k2, P1 = vec_view(ex, st, G['kup'], 8), vec_view(ex, st, G['kvp'], 8), vec_view(ex, st, G['pp'], 8 * G['dim'])
        if swap:
            nu, nv, p, q, ku, kv = nv, nu, q, p, kv, ku
        g = [('number of knots', and_(z(k1.len) == nu + p + 1, z(k2.len) == nv + q + 1)), ('number of poles', z(P1.len) == G['N']),
             ('degrees', and_(z(num(ex.load(st, I64, G['dp']))) == p, z(num(ex.load(st, I64, G['dq']))) == q))]
        g += [('knots U ' + a, b) for a, b in fu(k1, ku, nu + p)] + [('knots V ' + a, b) for a, b in fv(k2, kv, nv + q)]
        bd = [z(ex.load(st, DBL, G['b'].at(8 * i))) for i in range(4)]
        want = bnd() if bnd else (ku[0], ku[nu + p], kv[0], kv[nv + q])
        g.append(('bounds', and_(*[x == y for x, y in zip(bd, want)])))
        g += [('poles, coordinate %d' % x, forall(2, lambda i, j: implies(and_(0 <= i, i < nu, 0 <= j, j < nv), P1.at(IX(nu, i, j), 8 * x) == P[x][pole(i, j)]))) for x in range(G['dim'])]
        return g
    return f


def poles_of(ex, st, this, R):
    """the list of points owned by the object (whatever its place among the members)"""
    o = st.mem[this.o]
    for off in sorted(k for k in o.cells if k >= this.off):
        v = o.cells[off][1]
        if isinstance(v, Ptr) and v.o and st.mem[v.o].kind == 'sym' and st.mem[v.o].R == R:
            return vec_view(ex, st, this.at(off - this.off), R)
    raise Unsupported('no list of points in the object')


def inv_rev(dim):
    def f(L):
        i = z(L.int('i'))
        nu, nv = z(L.int('nu')), z(L.int('nv'))
        P1, P0 = poles_of(L.ex, L.st, L.ptr('this'), 8 * dim), poles_of(L.ex, L.entry.st if L.entry else L.st, L.ptr('this'), 8 * dim)
        P0 = [P0.arr(8 * x) for x in range(dim)]
        return [('i', and_(0 <= i, i <= nv)), ('row', implies(i < nv, and_(IX(nu, 0, i) == nu * i, nu * i >= 0, nu * i + nu <= G['N']))), ('size', z(P1.len) == G['N'])] + \
               [('rows so far reversed, the others as they were, coordinate %d' % x,
                 forall(2, lambda a, b: implies(and_(0 <= a, a < nu, 0 <= b, b < nv), P1.at(IX(nu, a, b), 8 * x) == z3.If(b < i, P0[x][IX(nu, nu - 1 - a, b)], P0[x][IX(nu, a, b)])), lambda a, b: [IX(nu, a, b)])) for x in range(dim)]
    return f


def other(n):
    return G['nv'] if z3.eq(z3.simplify(n), G['nu']) else G['nu'] if z3.eq(z3.simplify(n), G['nv']) else z3.If(n == G['nu'], G['nv'], G['nu'])


for nm, e, d in (('surface', 'vc_sop', 3), ('rational surface', 'vc_sopr', 4)):
    cl = lambda d=d: CC + [inverted_contract(d, other)]
    lp = {r'gbs::BSSurfaceGeneral<double, 3ul, %s>::reverseU\(\)$' % ('true' if d == 4 else 'false'): {0: LoopSpec(inv_rev(d), lambda L: z(L.int('nv')) - z(L.int('i')))}}
    PROOFS.append(Proof('swapped directions of a ' + nm, e, srf_setup(d, 2), srf_post(same, same, lambda i, j: IX(G['nu'], j, i), True), tu=TU, callees=cl()))
    PROOFS.append(Proof('%s reversed along U' % nm, e, srf_setup(d, 3), srf_post(mirrored, same, lambda i, j: IX(G['nu'], G['nu'] - 1 - i, j)), tu=TU, callees=cl(), loops=lp))
    PROOFS.append(Proof('%s reversed along V' % nm, e, srf_setup(d, 4), srf_post(same, mirrored, lambda i, j: IX(G['nu'], i, G['nv'] - 1 - j)), tu=TU, callees=cl(), loops=lp))
    PROOFS.append(Proof('%s with changed bounds along U' % nm, e, srf_setup(d, 7), srf_post(rescaled, same, lambda i, j: IX(G['nu'], i, j), bnd=lambda: (G['a'], G['c'], G['kv'][0], G['kv'][G['nv'] + G['q']])), tu=TU, callees=cl()))
    PROOFS.append(Proof('%s with changed bounds along V' % nm, e, srf_setup(d, 8), srf_post(same, rescaled, lambda i, j: IX(G['nu'], i, j), bnd=lambda: (G['ku'][0], G['ku'][G['nu'] + G['p']], G['a'], G['c'])), tu=TU, callees=cl()))


# ---- why the shape is the same: basis functions of mirrored or rescaled knots
def basis_lemma(ex):
    Rl = z3.RealSort()
    k = z3.Array('k', I_, R_)
    N0, N1 = (z3.Function(x, I_, I_, R_) for x in ('N', 'N1'))      # (index, degree)
    Nn, p, i, u, s, c = z3.Int('Nn'), z3.Int('p'), z3.Int('i'), *z3.Reals('u s c')
    j = Nn - p - 1 - i

    def rec(Nf, kk, x, m):
        return Nf(m, p) == DIV(x - kk(m), kk(m + p) - kk(m)) * Nf(m, p - 1) + DIV(kk(m + p + 1) - x, kk(m + p + 1) - kk(m + 1)) * Nf(m + 1, p - 1)
    K, M, A = (lambda m: k[m]), (lambda m: s - k[Nn - m]), (lambda m: c + s * k[m])
    neg = z3.ForAll([u, s], DIV(-u, -s) == DIV(u, s))
    dx = lambda a, b: implies(b != 0, DIV(a, b) * b == a)
    quo = lambda x, kk, m: [dx(x - kk(m), kk(m + p) - kk(m)), dx(kk(m + p + 1) - x, kk(m + p + 1) - kk(m + 1))] + [implies(b == 0, DIV(a, b) == 0) for a, b in ((x - kk(m), kk(m + p) - kk(m)), (kk(m + p + 1) - x, kk(m + p + 1) - kk(m + 1)))]
    yield 'mirrored basis, degree step', [p >= 1, i >= 0, j >= 0, rec(N0, K, u, j), rec(N1, M, s - u, i), N1(i, p - 1) == N0(Nn - p - i, p - 1), N1(i + 1, p - 1) == N0(j, p - 1)] + quo(u, K, j) + quo(s - u, M, i), N1(i, p) == N0(j, p)
    yield 'mirrored basis, degree 0', [u != k[Nn - i], u != k[Nn - i - 1]], and_(M(i) <= s - u, s - u < M(i + 1)) == and_(k[Nn - 1 - i] <= u, u < k[Nn - i])
    x, y = z3.Reals('x y')
    dz = [implies(b == 0, DIV(a, b) == 0) for a, b in ((x, y), (s * x, s * y))]
    yield 'quotients are unchanged by a common factor', [s > 0, dx(x, y), dx(s * x, s * y)] + dz, DIV(s * x, s * y) == DIV(x, y)
    q1, q2 = DIV(u - k[i], k[i + p] - k[i]), DIV(k[i + p + 1] - u, k[i + p + 1] - k[i + 1])
    r1, r2 = DIV(c + s * u - A(i), A(i + p) - A(i)), DIV(A(i + p + 1) - (c + s * u), A(i + p + 1) - A(i + 1))
    yield 'rescaled basis, degree step', [p >= 1, rec(N0, K, u, i), rec(N1, A, c + s * u, i), N1(i, p - 1) == N0(i, p - 1), N1(i + 1, p - 1) == N0(i + 1, p - 1), q1 == r1, q2 == r2], N1(i, p) == N0(i, p)
    yield 'rescaled basis, degree 0', [s > 0], and_(A(i) <= c + s * u, c + s * u < A(i + 1)) == and_(k[i] <= u, u < k[i + 1])
    S0, S1, t0, t1 = (z3.Function(x, I_, R_) for x in ('S0', 'S1', 't0', 't1'))
    n, m = z3.Ints('n m')
    yield 'a sum read backwards', [0 <= m, m < n, S1(m) == S0(n) - S0(n - m), S1(m + 1) == S1(m) + t1(m), S0(n - m) == S0(n - m - 1) + t0(n - m - 1), t1(m) == t0(n - 1 - m)], S1(m + 1) == S0(n) - S0(n - m - 1)


PROOFS.append(Lemma('basis functions of mirrored and rescaled knots', basis_lemma, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random curves and surfaces, plain and rational (degree 1-6, repeated knots, domains away from 0); every operation compared with the original at degree+1 points of every span by exact rational evaluation, and applied twice'

    def cases(self, rng, tier):
        N = {'quick': 260, 'thorough': 4000, 'search': 2000}[tier]
        q = lambda: F(rng.randrange(-800, 800), rng.choice([1, 4, 16]))
        for it in range(N):
            p, k, n = curve_knots(rng)
            sh = q()
            k = [x + sh for x in k]
            a = q()
            b = a + abs(q()) + F(1, 4)
            P, H = O.pts(rng, n, 3), posw(rng, O.pts(rng, n, 3))
            t = sorted(rng.sample([F(x, 16) for x in range(17)], 2))
            yield 'curve', (p, fl(k), fl(P), fl(H), fl(a), fl(b), fl(k[0] + t[0] * (k[-1] - k[0])), fl(k[0] + t[1] * (k[-1] - k[0])))
            if it % 2 == 0:
                p, q_, ku, kv, nu, nv = surf_case(rng, 3, 3)
                ku, kv = [x + sh for x in ku], [x - sh for x in kv]
                r = rng.random() < 0.5
                P = O.pts(rng, nu * nv, 3)
                yield 'surface', (p, q_, fl(ku), fl(kv), fl(posw(rng, P) if r else P), r, rng.choice([2, 3, 4, 7, 8]), fl(a), fl(b))

    def run(self, lib, g, c):
        call = lambda f, *a: self.ok(lib.call(f, list(a)), f).out
        if g == 'curve':
            p, k, P, H, a, b, t1, t2 = c
            E = ex_(k)
            mir = lambda t: E[0] + E[-1] - t
            aff = lambda t: E[0] + (t - F(a)) * (E[-1] - E[0]) / (F(b) - F(a))
            for f, D, dim in (('vc_crev3', P, 3), ('vc_crevd3', P, 3), ('vc_crev3r', H, 4), ('vc_crevd3r', H, 4), ('vc_crev1', [[x[0]] for x in P], 1)):
                o = call(f, p, Vec(k), Vec(D, dim), Out(2))
                close_list(self, o[3], [k[0], k[-1]], f + ': bounds')
                self.shape(f, p, k, D, o, dim, mir, dim == 4)
            lo, hi = min(t1, t2), max(t1, t2)
            o = call('vc_crevs3', p, Vec(k), Vec(P, 3), t2, t1, Out(2))
            close_list(self, o[5], [mir(F(hi)), mir(F(lo))], 'bounds of a restricted curve after reversal', rel=1e-10, ab=1e-10)
            for f, D, dim in (('vc_cchb3', P, 3), ('vc_cchb3a', P, 3), ('vc_cchb3r', H, 4)):
                o = call(f, p, Vec(k), Vec(D, dim), a, b, Out(2))
                close_list(self, o[5], [a, b], f + ': bounds')
                close_list(self, o[1], [F(a) + (F(b) - F(a)) * (x - E[0]) / (E[-1] - E[0]) for x in E], f + ': knots', rel=1e-10, ab=1e-10)
                if [list(x) for x in o[2]] != [list(x) for x in D]:
                    self.fail(f + ': poles changed')
            o = call('vc_chb', a, b, Vec(k))
            close_list(self, o[2], [F(a) + (F(b) - F(a)) * (x - E[0]) / (E[-1] - E[0]) for x in E], 'change_bounds', rel=1e-10, ab=1e-10)
        else:
            p, q, ku, kv, P, r, op, a, b = c
            d = 4 if r else 3
            f = 'vc_sopr' if r else 'vc_sop'
            o = call(f, Vec(P, d), Vec(ku), Vec(kv), p, q, op, a, b, Out(4))
            P1, ku1, kv1, p1, q1, bd = o[0], o[1], o[2], o[3], o[4], o[8]
            nm = {2: 'swap', 3: 'reverse U', 4: 'reverse V', 7: 'bounds U', 8: 'bounds V'}[op] + (' (rational)' if r else '')
            Eu, Ev = ex_(ku), ex_(kv)
            lin = lambda x, k: F(a) + (F(b) - F(a)) * (x - k[0]) / (k[-1] - k[0])
            bk = lambda t, k: k[0] + (t - F(a)) * (k[-1] - k[0]) / (F(b) - F(a))
            mr = lambda x, k: k[0] + k[-1] - x
            wu, wv, mp = {2: (Ev, Eu, lambda x, y: (y, x)), 3: ([mr(x, Eu) for x in Eu[::-1]], Ev, lambda x, y: (mr(x, Eu), y)), 4: (Eu, [mr(x, Ev) for x in Ev[::-1]], lambda x, y: (x, mr(y, Ev))),
                          7: ([lin(x, Eu) for x in Eu], Ev, lambda x, y: (bk(x, Eu), y)), 8: (Eu, [lin(x, Ev) for x in Ev], lambda x, y: (x, bk(y, Ev)))}[op]
            wp, wq = (q, p) if op == 2 else (p, q)
            if (p1, q1) != (wp, wq):
                self.fail('%s: degrees %d,%d' % (nm, p1, q1))
            close_list(self, ku1, wu, nm + ': knots U', rel=1e-10, ab=1e-10)
            close_list(self, kv1, wv, nm + ': knots V', rel=1e-10, ab=1e-10)
            close_list(self, bd, [wu[0], wu[-1], wv[0], wv[-1]], nm + ': bounds', rel=1e-10, ab=1e-10)
            # poles against the grid, then the shape itself inside every patch
            nu, nv = len(wu) - wp - 1, len(wv) - wq - 1
            ou = len(ku) - p - 1
            src = {2: lambda i, j: (j, i), 3: lambda i, j: (nu - 1 - i, j), 4: lambda i, j: (i, nv - 1 - j)}.get(op, lambda i, j: (i, j))
            for i in range(nu):
                for j in range(nv):
                    x, y = src(i, j)
                    if list(P1[i + nu * j]) != list(P[x + ou * y]):
                        self.fail('%s: pole (%d,%d)' % (nm, i, j))

    def shape(self, f, p, k, D, o, dim, mp, ratl):
        k1, Q = exl(o[1]), exp_(o[2], dim)
        if len(Q) != len(D) or len(k1) != len(k):
            self.fail(f + ': sizes changed')
        E = ex_(k)
        skip = set(x for x in k1 if k1.count(x) > p)       # values at jumps depend on the side
        same_curve(self, (p, E, ex_(D)), (p, [E[0] + E[-1] - x for x in E[::-1]], Q), f, f=mp, ratl=(ratl, ratl), skip=skip)
        close_list(self, k1, [E[0] + E[-1] - x for x in E[::-1]], f + ': knots', rel=1e-11, ab=1e-11)


SUITE = S_()
