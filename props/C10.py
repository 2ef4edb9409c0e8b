from .common import *
from .callees import num
LEVEL = 'proof'
TU = 'kbook.cpp'
I_, R_ = z3.IntSort(), z3.RealSort()
G = {}
EPS_ = z3.Q(100, 2**52)      # knot_eps<double>, exactly
IDX = z3.Function('IDX', I_, I_)      # number of distinct knots before the one at position i
CNT = z3.Function('CNT', I_, I_)      # how often the knot at position i has occurred up to i
S = z3.Function('S', I_, I_)          # prefix sums of the multiplicities
C = z3.Function('C', I_, I_)          # how many of the first i knots are the wanted one


def distinct(k, n):
    """sorted; neighbours either equal or further apart than the library's resolution"""
    return [forall(1, lambda x: implies(and_(1 <= x, x < n), or_(k[x] == k[x - 1], k[x] - k[x - 1] > EPS_)), lambda x: [k[x]])]


def setup_unflat(pair):
    def f(ex, st):
        n = z3.Int('n')
        kp, k = mk_vec(ex, st, n, 8, 'k')
        st.assume(and_(n >= 1, n < 2**40))
        for a in distinct(k, n):
            st.assume(a)
        i = z3.Int('i')
        st.assume(and_(IDX(0) == 0, CNT(0) == 1))
        st.assume(z3.ForAll([i], implies(and_(1 <= i, i < n), and_(IDX(i) == IDX(i - 1) + z3.If(k[i] == k[i - 1], 0, 1), CNT(i) == z3.If(k[i] == k[i - 1], CNT(i - 1) + 1, z3.IntVal(1)))), patterns=[IDX(i)]))
        up, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'u')
        G.update(n=n, k=k, kp=kp, up=up)
        if not pair:
            return [kp, up]
        mp_, m = mk_vec(ex, st, z3.Int('m0'), 8, 'm', kinds={0: 'int'})
        st.assume(z3.Int('m0') >= 0)
        G['mp'] = mp_
        return [kp, mp_, up]
    return f


def unflat_facts(u, m, i):
    """after i knots"""
    k = G['k']
    f = [('distinct knots so far', z(u.len) == IDX(i - 1) + 1), ('index nonnegative', IDX(i - 1) >= 0)]
    f.append(('every knot has its value', forall(1, lambda x: implies(and_(0 <= x, x < i), and_(u[IDX(x)] == k[x], IDX(x) >= 0, IDX(x) <= IDX(i - 1))), lambda x: [IDX(x)])))
    f.append(('every value is a knot', u[IDX(i - 1)] == k[i - 1]))
    if m is not None:
        f += [('as many multiplicities', z(m.len) == z(u.len)), ('counts are positive', and_(CNT(i - 1) >= 1, CNT(i - 1) <= i)), ('multiplicity of the run in progress', m[IDX(i - 1)] == CNT(i - 1)),
              ('multiplicities of the finished runs', forall(1, lambda x: implies(and_(0 <= x, x < i - 1, k[x] != k[x + 1]), and_(m[IDX(x)] == CNT(x), IDX(x) < IDX(i - 1))), lambda x: [IDX(x)]))]
    return f


def post_unflat(pair):
    def f(ex, st, ret):
        u = vec_view(ex, st, G['up'], 8)
        m = vec_view(ex, st, G['mp'], 8) if pair else None
        return unflat_facts(u, m, G['n'])
    return f


def inv_unflat(pair):
    def f(L):
        u = vec_view(L.ex, L.st, G['up'], 8)
        m = vec_view(L.ex, L.st, G['mp'], 8) if pair else None
        i = z(L.int('i'))
        return [('i', and_(1 <= i, i <= G['n']))] + unflat_facts(u, m, i)
    return f


# ---- flat_knots, and the builders that call it
MU = z3.Function('MU', I_, I_)        # multiplicity of knot i


def prefix_sums(st, n):
    i = z3.Int('i')
    st.assume(S(0) == 0)
    st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), and_(MU(i) >= 0, S(i + 1) == S(i) + MU(i))), patterns=[MU(i)]))
    # consequence (induction over the definition, lemma 'prefix sums')
    st.assume(z3.ForAll([i], implies(and_(0 <= i, i <= n), S(i) >= 0), patterns=[S(i)]))


def setup_flat(ex, st):
    n = z3.Int('n')
    up, u = mk_vec(ex, st, n, 8, 'u')
    mp_, m = mk_vec(ex, st, n, 8, 'm', kinds={0: 'int'})
    st.assume(and_(n >= 0, n < 2**40))
    i = z3.Int('i')
    st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), and_(m[i] >= 0, m[i] < 2**40, MU(i) == m[i])), patterns=[m[i]]))
    prefix_sums(st, n)
    op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
    G.update(n=n, u=u, op=op)
    return [up, mp_, op]


def setup_mknots(rng):
    """knots k, multiplicity p+1 at the ends and mult inside"""
    def f(ex, st):
        n, p, mu = z3.Ints('n p mult')
        st.assume(and_(n >= 2, n < 2**31, p >= 0, p < 2**31, mu >= 0, mu < 2**31))
        i = z3.Int('i')
        st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), MU(i) == z3.If(or_(i == 0, i == n - 1), p + 1, mu)), patterns=[MU(i)]))
        prefix_sums(st, n)
        # consequence (lemma 'prefix sums'): closed form
        st.assume(S(n) == 2 * (p + 1) + (n - 2) * mu)
        op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
        G.update(n=n, op=op, p=p, mu=mu)
        if not rng:
            kp, k = mk_vec(ex, st, n, 8, 'k')
            G['u'] = k
            return [kp, p, mu, op]
        a, b = z3.Reals('a b')
        G.update(u=RangeSpec(a, b, n), a=a, b=b)
        return [a, b, n, p, mu, op]
    return f


def expanded(o, upto):
    u = G['u']
    return forall(2, lambda i, x: implies(and_(0 <= i, i < upto, S(i) <= x, x < S(i) + MU(i)), o[x] == u[i]), lambda i, x: [z3.MultiPattern(MU(i), o[x])])


def post_flat(ex, st, ret):
    o = vec_view(ex, st, G['op'], 8)
    return [('number of flat knots', z(o.len) == S(G['n'])), ('each value repeated as often as its multiplicity, in order', expanded(o, G['n']))]


def post_mknots(ex, st, ret):
    o = vec_view(ex, st, G['op'], 8)
    return post_flat(ex, st, ret) + [('clamped length', z(o.len) == 2 * (G['p'] + 1) + (G['n'] - 2) * G['mu'])]


def inv_flat0(L):
    i = z(L.int('i'))
    o, m = L.vec('knots_flat', 8), L.vec('mult', 8, ref=True)
    return [('i', and_(0 <= i, i <= G['n'])), ('length', z(o.len) == S(i)), ('values', expanded(o, i)),
            ('below', forall(1, lambda x: implies(and_(0 <= x, x < i), S(x) + MU(x) <= S(i)), lambda x: [MU(x)]))]


def inv_flat1(L):
    i, j = z(L.int('i')), z(L.int('j'))
    o = L.vec('knots_flat', 8)
    return [('j', and_(0 <= j, j <= MU(i))), ('length', z(o.len) == S(i) + j), ('values', expanded(o, i)),
            ('run', forall(1, lambda x: implies(and_(S(i) <= x, x < S(i) + j), o[x] == G['u'][i]), lambda x: [o[x]]))]


# ---- averaged knots
A = z3.Function('A', I_, I_, R_)      # A(j,x): sum of the parameters j..x, each divided by the degree


def setup_simple(ex, st):
    n, p = z3.Ints('n p')
    up, u = mk_vec(ex, st, n, 8, 'u')
    st.assume(and_(n >= 2, n >= p + 1, p >= 1, n < 2**30, p < 2**30))
    j, x = z3.Ints('j x')
    st.assume(z3.ForAll([j], A(j, j - 1) == 0, patterns=[A(j, j - 1)]))
    st.assume(z3.ForAll([j, x], implies(x >= j, A(j, x) == A(j, x - 1) + DIV(u[x], z3.ToReal(p))), patterns=[A(j, x)]))
    op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
    G.update(n=n, p=p, u=u, op=op)
    return [up, p, op]


def simple_facts(o, j):
    n, p, u = G['n'], G['p'], G['u']
    return [('length', z(o.len) == n + p + 1), ('start', forall(1, lambda x: implies(and_(0 <= x, x <= p), o[x] == u[0]), lambda x: [o[x]])),
            ('end', forall(1, lambda x: implies(and_(n <= x, x <= n + p), o[x] == u[n - 1]), lambda x: [o[x]])),
            ('averages', forall(1, lambda x: implies(and_(p < x, x < p + j), o[x] == A(x - p, x - 1)), lambda x: [o[x]]))]


def post_simple(ex, st, ret):
    return simple_facts(vec_view(ex, st, G['op'], 8), G['n'] - G['p'])


def inv_simple0(L):
    j = z(L.int('j', 32))
    return [('j', and_(1 <= j, or_(j <= G['n'] - G['p'])))] + simple_facts(L.vec('k_flat', 8), j)


def inv_simple1(L):
    j, i = z(L.int('j', 32)), z(L.int('i', 32))
    o = L.vec('k_flat', 8)
    return [('i', and_(j <= i, i <= j + G['p'])), ('average so far', o[j + G['p']] == A(j, i - 1))] + simple_facts(o, j)


def setup_simple_r(ex, st):
    n, p = z3.Ints('n p')
    a, b = z3.Reals('a b')
    st.assume(and_(n >= p + 1, p >= 0, n < 2**30, p < 2**30))
    op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
    G.update(n=n, p=p, a=a, b=b, op=op)
    return [a, b, n, p, op]


def simple_r_facts(o, j):
    n, p, a, b = G['n'], G['p'], G['a'], G['b']
    return [('length', z(o.len) == n + p + 1), ('start', forall(1, lambda x: implies(and_(0 <= x, x <= p), o[x] == a), lambda x: [o[x]])),
            ('end', forall(1, lambda x: implies(and_(n <= x, x <= n + p), o[x] == b), lambda x: [o[x]])),
            ('evenly spaced', forall(1, lambda x: implies(and_(p < x, x < p + j), and_((o[x] - a) * z3.ToReal(n - p + 1) == (b - a) * z3.ToReal(x - p))), lambda x: [o[x]]))]


def post_simple_r(ex, st, ret):
    return simple_r_facts(vec_view(ex, st, G['op'], 8), G['n'] - G['p'])


def inv_simple_r(L):
    j = z(L.int('j', 32))
    return [('j', and_(1 <= j, or_(j <= G['n'] - G['p'])))] + simple_r_facts(L.vec('k_flat', 8), j)


def averages(ex):
    """averages of consecutive sorted parameters are sorted and stay between the ends"""
    j, x = z3.Ints('j x')
    p = z3.Real('p')
    u = z3.Array('u', I_, R_)
    dA = lambda j, x: A(j, x) == A(j, x - 1) + u[x] / p
    yield 'difference of neighbouring averages, base', [A(j + 1, j) == 0, A(j, j - 1) == 0], A(j + 1, j) - A(j, j - 1) >= 0
    yield 'difference of neighbouring averages, step', [p >= 1, u[x] <= u[x + 1], A(j + 1, x) - A(j, x - 1) >= 0, dA(j + 1, x + 1), dA(j, x)], A(j + 1, x + 1) - A(j, x) >= 0
    a, b, m = z3.Reals('a b m')
    yield 'averages stay between the ends', [p >= 1, m >= 0, a <= u[x], u[x] <= b, a * m / p <= A(j, x - 1), A(j, x - 1) <= b * m / p, dA(j, x)], and_(a * (m + 1) / p <= A(j, x), A(j, x) <= b * (m + 1) / p)


# ---- multiplicity
def setup_mult(ex, st):
    n, a, b = z3.Ints('n a b')
    u = z3.Real('u')
    kp, k = mk_vec(ex, st, n, 8, 'k')
    st.assume(and_(n >= 0, n < 2**40, sorted_(k)))
    st.assume(and_(0 <= a, a <= b, b <= n))
    st.assume(forall(1, lambda x: implies(and_(0 <= x, x < n), and_((k[x] < u) == (x < a), (k[x] <= u) == (x < b))), lambda x: [k[x]]))
    G.update(n=n, a=a, b=b)
    return [u, kp]


def post_mult(ex, st, ret):
    return [('number of knots equal to u', z(num(ret)) == G['b'] - G['a'])]


# ---- insertion into a sorted list
def setup_ins(tol):
    def f(ex, st):
        n, a, b = z3.Ints('n a b')
        v, t = z3.Reals('v tol')
        kp, k = mk_vec(ex, st, n, 8, 'k')
        st.assume(and_(n >= 0, n < 2**40, sorted_(k), t >= 0))
        G.update(n=n, v=v, kp=kp, K=k.arr(0), tol=t)
        return [kp, v] + ([t] if tol else [])
    return f


def ins_at(k, K, n, v, r):
    return and_(z(k.len) == n + 1, forall(1, lambda x: implies(and_(0 <= x, x < r), k[x] == K[x])), k[r] == v, forall(1, lambda x: implies(and_(r < x, x <= n), k[x] == K[x - 1])))


def post_ins(ex, st, ret):
    n, v, K = G['n'], G['v'], G['K']
    k = vec_view(ex, st, G['kp'], 8)
    r = z3.Int('r')
    below = forall(1, lambda x: implies(and_(0 <= x, x < r), K[x] < v), lambda x: [K[x]])
    above = forall(1, lambda x: implies(and_(r <= x, x < n), K[x] >= v), lambda x: [K[x]])
    hyp = and_(0 <= r, r <= n, below, above)
    return [('one more entry', z(k.len) == n + 1), ('entries below stay', implies(hyp, forall(1, lambda x: implies(and_(0 <= x, x < r), k[x] == K[x])))),
            ('the value is there', implies(hyp, k[r] == v)), ('entries above move up', implies(hyp, forall(1, lambda x: implies(and_(r < x, x <= n), k[x] == K[x - 1])))),
            ('still sorted', sorted_(k))]


def post_uni(ex, st, ret):
    n, v, K, t = G['n'], G['v'], G['K'], G['tol']
    k = vec_view(ex, st, G['kp'], 8)
    x = z3.Int('x')
    absd = lambda d: z3.If(d >= 0, d, -d)
    near = z3.Exists([x], and_(0 <= x, x < n, absd(K[x] - v) <= t))
    return [('a value already present within the tolerance is not added', implies(and_(0 <= x, x < n, absd(K[x] - v) <= t), z(k.len) == n)),
            ('a value that is not there is added', implies(z(k.len) == n, or_(z3.Exists([x], and_(0 <= x, x < n, absd(K[x] - v) <= t))))),
            ('at most one entry is added', or_(z(k.len) == n, z(k.len) == n + 1)),
            ('still sorted', sorted_(k)), ('nothing changes when it is there', implies(z(k.len) == n, forall(1, lambda y: implies(and_(0 <= y, y < n), k[y] == K[y]))))]


def setup_adim(ex, st):
    n = z3.Int('n')
    kp, k = mk_vec(ex, st, n, 8, 'k')
    st.assume(and_(n >= 1, n < 2**40))
    G.update(n=n, kp=kp, K=k.arr(0))
    return [kp]


def post_adim(ex, st, ret):
    n, K = G['n'], G['K']
    k = vec_view(ex, st, G['kp'], 8)
    d = K[n - 1] - K[0]
    wide = or_(d > EPS_, d < -EPS_)
    return [('length', z(k.len) == n), ('affine map of the whole list', implies(wide, forall(1, lambda i: implies(and_(0 <= i, i < n), k[i] * d == K[i] - K[0])))),
            ('starts at zero', implies(wide, k[0] == 0)), ('ends at one', implies(wide, k[n - 1] == 1))]


UF2 = r'^void gbs::unflat_knots<double, unsigned long>\('
UF1 = r'^void gbs::unflat_knots<double>\(.*std::vector<double[^()]*>&\)'
FL = r'gbs::flat_knots<double, unsigned long>\('
BS = r'gbs::build_simple_mult_flat_knots<double>\(std::vector'
BSR = r'gbs::build_simple_mult_flat_knots<double>\(double'
dec = lambda n: (lambda L: G[n] - z(L.int('i')))
PROOFS = [
    Proof('unflat_knots (values and multiplicities)', 'vc_unflat', setup_unflat(True), post_unflat(True), tu=TU, loops={UF2: {0: LoopSpec(inv_unflat(True), dec('n'))}}),
    Proof('unflat_knots (values)', 'vc_unflat1', setup_unflat(False), post_unflat(False), tu=TU, loops={UF1: {0: LoopSpec(inv_unflat(False), dec('n'))}}),
    Proof('flat_knots', 'vc_flat', setup_flat, post_flat, tu=TU, loops={FL: {0: LoopSpec(inv_flat0, dec('n')), 1: LoopSpec(inv_flat1, lambda L: MU(z(L.int('i'))) - z(L.int('j')))}}),
    Proof('build_mult_flat_knots(knots, degree, multiplicity)', 'vc_bmk', setup_mknots(False), post_mknots, tu=TU, loops={FL: {0: LoopSpec(inv_flat0, dec('n')), 1: LoopSpec(inv_flat1, lambda L: MU(z(L.int('i'))) - z(L.int('j')))}}),
    Proof('build_simple_mult_flat_knots(parameters)', 'vc_bsk', setup_simple, post_simple, tu=TU, divfn=True, loops={BS: {0: LoopSpec(inv_simple0, lambda L: G['n'] - G['p'] + 1 - z(L.int('j', 32))), 1: LoopSpec(inv_simple1, lambda L: z(L.int('j', 32)) + G['p'] + 1 - z(L.int('i', 32)))}}),
    Proof('build_simple_mult_flat_knots(range)', 'vc_bskr', setup_simple_r, post_simple_r, tu=TU, divfn=True, loops={BSR: {0: LoopSpec(inv_simple_r, lambda L: G['n'] - G['p'] + 1 - z(L.int('j', 32)))}}),
    Lemma('averaged knots are sorted', averages, tu=TU),
    Proof('multiplicity(u, knots)', 'vc_mult2', setup_mult, post_mult, tu=TU, bound_hints=lambda up, v: [G['b'] if up else G['a']]),
    Proof('insert_ordered', 'vc_insord', setup_ins(False), post_ins, tu=TU),
    Proof('insert_unique_ordered', 'vc_insunit', setup_ins(True), post_uni, tu=TU),
    Proof('adimension', 'vc_adim', setup_adim, post_adim, tu=TU, divfn=True),
]


def prefix(ex):
    i = z3.Int('i')
    n, p, mu = z3.Ints('n p mult')
    yield 'prefix sums base', [S(0) == 0], S(0) >= 0
    yield 'prefix sums step', [S(i) >= 0, MU(i) >= 0, S(i + 1) == S(i) + MU(i)], S(i + 1) >= 0
    yield 'closed form, first knot', [S(0) == 0, S(1) == S(0) + p + 1], S(1) == p + 1 + (1 - 1) * mu
    yield 'closed form, inner knots', [1 <= i, i < n - 1, S(i) == p + 1 + (i - 1) * mu, S(i + 1) == S(i) + mu], S(i + 1) == p + 1 + ((i + 1) - 1) * mu
    yield 'closed form, last knot', [S(n - 1) == p + 1 + ((n - 1) - 1) * mu, S(n) == S(n - 1) + p + 1], S(n) == 2 * (p + 1) + (n - 2) * mu


PROOFS.append(Lemma('prefix sums', prefix, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random value lists with random multiplicities (1..degree+1), random sorted parameter lists, insertions at, beside and between the entries; every round trip and every builder is compared with its definition'

    def cases(self, rng, tier):
        N = {'quick': 900, 'thorough': 12000, 'search': 5000}[tier]
        for it in range(N):
            n = rng.choice([1, 2, 2, 3, 4, 5, 8, 15])
            d = sorted({F(rng.randrange(-400, 400), rng.choice([1, 4, 64])) for _ in range(n)})
            if rng.random() < 0.15:
                d = sorted({x * F(1, 2**30) for x in d})
            ms = [rng.choice([1, 1, 1, 2, 3, 5, 7]) for _ in d]
            yield 'lists', (fl(d), ms, fl(rng.choice(d)), fl(F(rng.randrange(-500, 500), 3)))
            m = rng.choice([2, 3, 4, 5, 7, 12])
            p = rng.randrange(1, m)
            u = sorted(F(rng.randrange(-200, 200), rng.choice([1, 2, 8])) for _ in range(m))
            yield 'build', (fl(u), p, rng.randrange(1, p + 1), rng.randrange(0, 12))
            l = sorted(F(rng.randrange(-50, 50), 2) for _ in range(rng.choice([0, 1, 2, 3, 6])))
            t = F(rng.choice([0, 1, 3]), 8)
            v = (rng.choice(l) + rng.choice([0, t, -t, t / 2, -t / 2, t + F(1, 64), -t - F(1, 64)])) if l and rng.random() < 0.7 else F(rng.randrange(-60, 60), 2)
            yield 'insert', (fl(l), fl(v), fl(t))
            p, k, n = curve_knots(rng, pmax=5)
            ks, mk = unflat(k)
            yield 'curve', (p, fl(ks), mk, fl(O.pts(rng, n, 3)))

    def run(self, lib, g, c):
        if g == 'lists':
            d, ms, w, w2 = c
            flat = [x for x, m in zip(d, ms) for _ in range(m)]
            o = self.ok(lib.call('vc_flat', [Vec(d), Vec(ms, 1, 'Q'), Vec([])])).out[2]
            close_list(self, o, flat, 'flat_knots', rel=0, ab=0)
            r = lib.call('vc_flat', [Vec(d), Vec(ms + [1], 1, 'Q'), Vec([])])
            if r.rc != 1 or 'length_error' not in r.what:
                self.fail('flat_knots accepted lists of different lengths')
            o = self.ok(lib.call('vc_unflat', [Vec(flat), Vec([7, 7], 1, 'Q'), Vec([3.])])).out
            self.um(o[2], o[1], d, ms, 'unflat_knots')
            o = self.ok(lib.call('vc_unflat1', [Vec(flat), Vec([3.])])).out
            close_list(self, o[1], d, 'unflat_knots (values)', rel=0, ab=0)
            for f in ('vc_unflatp', 'vc_kam'):
                o = self.ok(lib.call(f, [Vec(flat), Vec([]), Vec([], 1, 'Q')])).out
                self.um(o[1], o[2], d, ms, f[3:])
            for x in (w, w2):
                want = flat.count(x)
                a = self.ok(lib.call('vc_mult1', [Vec(flat), x], 'q')).ret
                b = self.ok(lib.call('vc_mult2', [x, Vec(flat)], 'q')).ret
                if a != want or b != want:
                    self.fail('multiplicity of %r: %d and %d, expected %d' % (x, a, b, want))
            if d[-1] - d[0] > 1e-6:
                o = self.ok(lib.call('vc_adim', [Vec(flat)])).out[0]
                close_list(self, o, [(F(x) - F(d[0])) / (F(d[-1]) - F(d[0])) for x in flat], 'adimension', ab=1e-11)
        elif g == 'build':
            u, p, mu, extra = c
            n = len(u)
            o = self.ok(lib.call('vc_bsk', [Vec(u), p, Vec([])])).out[2]
            U = ex_(u)
            close_list(self, o, [U[0]] * (p + 1) + [sum(U[j:j + p]) / p for j in range(1, n - p)] + [U[-1]] * (p + 1), 'averaged knots', ab=1e-10)
            o = self.ok(lib.call('vc_bmk', [Vec(u), p, mu, Vec([])])).out[3]
            close_list(self, o, [U[0]] * (p + 1) + [x for x in U[1:-1] for _ in range(mu)] + [U[-1]] * (p + 1), 'uniform multiplicity', rel=0, ab=0)
            a, b = u[0], u[-1] + 1
            o = self.ok(lib.call('vc_bmkr', [a, b, n, p, mu, Vec([])])).out[5]
            st = (F(b) - F(a)) / (n - 1)
            close_list(self, o, [F(a)] * (p + 1) + [F(a) + st * i for i in range(1, n - 1) for _ in range(mu)] + [F(b)] * (p + 1), 'uniform multiplicity over a range', ab=1e-10)
            m = p + 1 + extra
            o = list(self.ok(lib.call('vc_bskr', [a, b, m, p, Vec([])])).out[4])
            if len(o) != m + p + 1 or o[:p + 1] != [a] * (p + 1) or o[-p - 1:] != [b] * (p + 1) or any(x >= y for x, y in zip(o[p:m], o[p + 1:m + 1])):
                self.fail('clamped range knots are not clamped with simple increasing inner knots', got=o)
        elif g == 'insert':
            l, v, t = c
            o = self.ok(lib.call('vc_insord', [Vec(l), v])).out[0]
            close_list(self, o, sorted(l + [v]), 'insert_ordered', rel=0, ab=0)
            o = self.ok(lib.call('vc_insunit', [Vec(l), v, t])).out[0]
            near = any(abs(F(x) - F(v)) <= F(t) for x in l)
            close_list(self, o, l if near else sorted(l + [v]), 'insert_unique_ordered', rel=0, ab=0)
            o = self.ok(lib.call('vc_insuni', [Vec(l), v])).out[0]
            close_list(self, o, l if v in l else sorted(l + [v]), 'insert_unique_ordered, default tolerance', rel=0, ab=0)
        elif g == 'curve':
            p, ks, mk, P = c
            flat = [x for x, m in zip(ks, mk) for _ in range(m)]
            o = self.ok(lib.call('vc_ccrv', [Vec(P, 3), Vec(ks), Vec(mk, 1, 'Q'), p, Vec([]), Vec([]), Vec([], 1, 'Q')])).out
            close_list(self, o[4], flat, 'flat knots of the curve', rel=0, ab=0)
            self.um(o[5], o[6], ks, mk, 'knots of the curve')
            o = self.ok(lib.call('vc_ccrvr', [Vec([x + [1.] for x in P], 4), Vec(ks), Vec(mk, 1, 'Q'), p, Vec([]), Vec([]), Vec([], 1, 'Q')])).out
            close_list(self, o[4], flat, 'flat knots of the rational curve', rel=0, ab=0)
            self.um(o[5], o[6], ks, mk, 'knots of the rational curve')

    def um(self, u, m, d, ms, what):
        close_list(self, u, d, what + ': values', rel=0, ab=0)
        if [int(x) for x in m] != list(ms):
            self.fail('%s: multiplicities %r, expected %r' % (what, [int(x) for x in m], list(ms)))


SUITE = S_()
