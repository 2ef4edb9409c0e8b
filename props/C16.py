from .common import *
from .callees import num
LEVEL = 'proof'
TU = 'kbook.cpp'
I_, R_ = z3.IntSort(), z3.RealSort()
G = {}


def closure_real(L, name):
    """the floating point value captured by the generator object of an algorithm"""
    p = L.addr(name)
    for off in (0, 8):
        c = L.st.mem[p.o].cells.get((p.off if isinstance(p.off, int) else 0) + off)
        if c and c[0] == DBL:
            return z(c[1])
    raise Unsupported('closure layout')


def pos(L, name, R=8):
    """element index an iterator local refers to"""
    p = L.ptr(name)
    i = Lin.of(p.off).div(R).norm()
    return (i.expr() if isinstance(i, Lin) else z(i)), p.o


# ---- make_range(v1, v2, n)
def setup_range(ex, st):
    n = z3.Int('n')
    a, b = z3.Reals('a b')
    st.assume(and_(n >= 0, n < 2**40))
    op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
    G.update(n=n, a=a, b=b, op=op)
    return [a, b, n, op]


def at(x, i):
    """the i-th of n equally spaced values"""
    return (x - G['a']) * z3.ToReal(G['n'] - 1) == (G['b'] - G['a']) * z3.ToReal(i)


def post_range(ex, st, ret):
    o = vec_view(ex, st, G['op'], 8)
    n = G['n']
    return [('at least two values', n >= 2), ('as many values as asked', z(o.len) == n), ('first value is exact', o[0] == G['a']), ('last value is exact', o[n - 1] == G['b']),
            ('equally spaced', forall(1, lambda i: implies(and_(0 <= i, i < n), at(o[i], i))))]


def inv_range(L):
    i, ob = pos(L, '__first')
    e, _ = pos(L, '__last')
    o = View(L.ex, L.st, ob, 0, L.st.mem[ob].len, 8)
    v = closure_real(L, '__gen')
    return [('position', and_(1 <= i, i <= e, e == G['n'])), ('state', at(v, i - 1)), ('first', o[0] == G['a']),
            ('values', forall(1, lambda x: implies(and_(1 <= x, x < i), at(o[x], x)), lambda x: [o[x]]))]


def thr(ex, st):
    return [('only for fewer than two values', G['n'] < 2)]


# ---- make_range on a grid
ROW, COL = z3.Function('ROW', I_, I_), z3.Function('COL', I_, I_)
IDX = z3.Function('IDX', I_, I_, I_)


def setup_grid(ex, st):
    nu, nv = z3.Ints('nu nv')
    a, b, c, d = z3.Reals('u1 u2 v1 v2')
    st.assume(and_(nu >= 0, nv >= 0, nu < 2**20, nv < 2**20))
    i, j = z3.Ints('i j')
    # the cell of an index and the index of a cell (consistent: lemma 'grid index')
    st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i < nu, 0 <= j, j < nv), and_(IDX(i, j) == j + nv * i, ROW(IDX(i, j)) == i, COL(IDX(i, j)) == j, IDX(i, j) >= 0, IDX(i, j) < nu * nv)), patterns=[IDX(i, j)]))
    st.assume(and_(nu * nv >= 0, nu * nv < 2**40))
    op, _ = mk_vec(ex, st, z3.IntVal(0), 16, 'o')
    G.update(nu=nu, nv=nv, b=(a, b, c, d), op=op)
    return [a, b, c, d, nu, nv, op]


def cell_ok(o, x):
    a, b, c, d = G['b']
    return and_((o.at(x, 0) - a) * z3.ToReal(G['nu'] - 1) == (b - a) * z3.ToReal(ROW(x)), (o.at(x, 8) - c) * z3.ToReal(G['nv'] - 1) == (d - c) * z3.ToReal(COL(x)))


def post_grid(ex, st, ret):
    o = vec_view(ex, st, G['op'], 16)
    return [('at least two values each way', and_(G['nu'] >= 2, G['nv'] >= 2)), ('number of cells', z(o.len) == G['nu'] * G['nv']),
            ('every cell holds its own pair, second direction fastest', forall(2, lambda i, j: implies(and_(0 <= i, i < G['nu'], 0 <= j, j < G['nv']), cell_ok(o, IDX(i, j)))))]


def grid_facts(L, lim):
    o = L.vec('v', 16)
    return [('size', z(o.len) == G['nu'] * G['nv']), ('cells so far', forall(1, lambda x: implies(and_(0 <= x, x < lim), cell_ok(o, x)), lambda x: [o.at(x, 0)]))]


def inv_grid0(L):
    i = z(L.int('i'))
    return [('i', and_(0 <= i, i <= G['nu']))] + grid_facts(L, G['nv'] * i)


def inv_grid1(L):
    i, j = z(L.int('i')), z(L.int('j'))
    return [('j', and_(0 <= j, j <= G['nv'])), ('cell index', implies(j < G['nv'], IDX(i, j) == G['nv'] * i + j))] + grid_facts(L, G['nv'] * i + j)


def thr2(ex, st):
    return [('only for fewer than two values', or_(G['nu'] < 2, G['nv'] < 2))]


def grid_index(ex):
    i, j, a, b, nu, nv = z3.Ints('i j a b nu nv')
    yield 'an index has one cell', [0 <= j, j < nv, 0 <= b, b < nv, j + nv * i == b + nv * a, a >= 0, i >= 0], and_(a == i, b == j)
    yield 'the index is inside', [0 <= j, j < nv, 0 <= i, i < nu], and_(j + nv * i >= 0, j + nv * i < nu * nv)


# ---- make_range in space
ROW3, COL3, LAY3 = (z3.Function(x, I_, I_) for x in ('ROW3', 'COL3', 'LAY3'))
IDX3 = z3.Function('IDX3', I_, I_, I_, I_)


def setup_grid3(ex, st):
    nu, nv, nw = z3.Ints('nu nv nw')
    b = z3.Reals('u1 u2 v1 v2 w1 w2')
    st.assume(and_(*[and_(m >= 0, m < 2**15) for m in (nu, nv, nw)]))
    i, j, k = z3.Ints('i j k')
    st.assume(z3.ForAll([i, j, k], implies(and_(0 <= i, i < nu, 0 <= j, j < nv, 0 <= k, k < nw), and_(IDX3(i, j, k) == k + nw * (j + nv * i), ROW3(IDX3(i, j, k)) == i, COL3(IDX3(i, j, k)) == j, LAY3(IDX3(i, j, k)) == k,
                                                                                                        IDX3(i, j, k) >= 0, IDX3(i, j, k) < nu * nv * nw, j + nv * i < nu * nv)), patterns=[IDX3(i, j, k)]))
    st.assume(and_(nu * nv >= 0, nu * nv < 2**30, nu * nv * nw >= 0, nu * nv * nw < 2**45))
    op, _ = mk_vec(ex, st, z3.IntVal(0), 24, 'o')
    G.update(ns=(nu, nv, nw), b=b, op=op)
    return list(b) + [nu, nv, nw, op]


def cell3(o, x):
    b = G['b']
    return and_(*[(o.at(x, 8 * (2 - c)) - b[2 * c]) * z3.ToReal(G['ns'][c] - 1) == (b[2 * c + 1] - b[2 * c]) * z3.ToReal(f(x)) for c, f in ((0, ROW3), (1, COL3), (2, LAY3))])


def post_grid3(ex, st, ret):
    o = vec_view(ex, st, G['op'], 24)
    nu, nv, nw = G['ns']
    return [('number of cells', z(o.len) == nu * nv * nw),
            ('every cell holds its own triple, last direction fastest', forall(3, lambda i, j, k: implies(and_(0 <= i, i < nu, 0 <= j, j < nv, 0 <= k, k < nw), cell3(o, IDX3(i, j, k)))))]


def inv3(depth):
    def f(L):
        nu, nv, nw = G['ns']
        o = L.vec('v', 24)
        i = z(L.int('i'))
        lim = nw * (nv * i)
        g = [('size', z(o.len) == nu * nv * nw)]
        if depth == 0:
            g.append(('i', and_(0 <= i, i <= nu)))
        if depth >= 1:
            j = z(L.int('j'))
            lim = nw * (j + nv * i)
            if depth == 1:
                g.append(('j', and_(0 <= j, j <= nv)))
        if depth == 2:
            k = z(L.int('k'))
            lim = lim + k
            g += [('k', and_(0 <= k, k <= nw)), ('cell index', implies(k < nw, IDX3(i, j, k) == lim))]
        return g + [('cells so far', forall(1, lambda x: implies(and_(0 <= x, x < lim), cell3(o, x)), lambda x: [o.at(x, 0)]))]
    return f


def thr3(ex, st):
    return [('only for fewer than two values', or_(*[m < 2 for m in G['ns']]))]


def grid_index3(ex):
    i, j, k, a, b, c, nu, nv, nw = z3.Ints('i j k a b c nu nv nw')
    x, y = z3.Ints('x y')
    yield 'an index has one layer', [0 <= k, k < nw, 0 <= c, c < nw, k + nw * x == c + nw * y, x >= 0, y >= 0], and_(k == c, x == y)
    yield 'the row index is inside', [0 <= j, j < nv, 0 <= i, i < nu], and_(j + nv * i >= 0, j + nv * i < nu * nv)
    yield 'the index is inside', [0 <= k, k < nw, 0 <= x, x < y], and_(k + nw * x >= 0, k + nw * x < y * nw)


# ---- curve_parametrization
def setup_par(mode):
    def f(ex, st):
        n = z3.Int('n')
        pp, P = mk_vec(ex, st, n, 24, 'P')
        st.assume(and_(n >= 2, n < 2**40))
        op, _ = mk_vec(ex, st, z3.IntVal(0), 8, 'o')
        G.update(n=n, op=op, P=[P.arr(8 * c) for c in range(3)], mode=mode)
        return [pp, mode, False, op]
    return f


def sq_dist(i):
    return sum((G['P'][c][i] - G['P'][c][i - 1]) * (G['P'][c][i] - G['P'][c][i - 1]) for c in range(3))


def step_ok(o, i):
    d = o[i] - o[i - 1]
    if G['mode'] == 1:
        return and_(d >= 0, d * d == sq_dist(i))
    if G['mode'] == 2:
        return and_(d >= 0, (d * d) * (d * d) == sq_dist(i))
    return o[i] * z3.ToReal(G['n'] - 1) == z3.ToReal(i)


def post_par(ex, st, ret):
    o = vec_view(ex, st, G['op'], 8)
    n = G['n']
    return [('one parameter per point', z(o.len) == n), ('starts at zero', o[0] == 0),
            ('increments', forall(1, lambda i: implies(and_(1 <= i, i < n), step_ok(o, i))))]


def inv_par(L):
    i, ob = pos(L, '__result')
    j, _ = pos(L, '__first1', 24)
    j2, _ = pos(L, '__first2', 24)
    o = View(L.ex, L.st, ob, 0, L.st.mem[ob].len, 8)
    v = closure_real(L, '__binary_op')
    return [('position', and_(1 <= i, i <= G['n'], j == i, j2 == i - 1)), ('state', v == o[i - 1]), ('first', o[0] == 0),
            ('values', forall(1, lambda x: implies(and_(1 <= x, x < i), step_ok(o, x)), lambda x: [o[x]]))]


def inv_even(L):
    i, ob = pos(L, '__first')
    e, _ = pos(L, '__last')
    o = View(L.ex, L.st, ob, 0, L.st.mem[ob].len, 8)
    v = closure_real(L, '__gen')
    return [('position', and_(1 <= i, i <= e, e == G['n'])), ('state', v * z3.ToReal(G['n'] - 1) == z3.ToReal(i - 1)), ('first', o[0] == 0),
            ('values', forall(1, lambda x: implies(and_(1 <= x, x < i), step_ok(o, x)), lambda x: [o[x]]))]


GEN = r'^void std::generate<.*make_range<double>'
PROOFS = [Proof('make_range', 'vc_range', setup_range, post_range, tu=TU, divfn=True, throws=thr, loops={GEN: {0: LoopSpec(inv_range, lambda L: G['n'] - pos(L, '__first')[0])}})]
for mode, nm in ((1, 'chord length'), (2, 'centripetal')):
    PROOFS.append(Proof('curve_parametrization, %s' % nm, 'vc_param', setup_par(mode), post_par, tu=TU,
                        loops={r'std::transform<.*curve_parametrization.*lambda\(auto:1 const&, auto:2 const&\)#%d' % mode: {0: LoopSpec(inv_par, lambda L: G['n'] - pos(L, '__result')[0])}}))
PROOFS.append(Proof('curve_parametrization, equally spaced', 'vc_param', setup_par(0), post_par, tu=TU, divfn=True,
                    loops={r'^void std::generate<.*curve_parametrization': {0: LoopSpec(inv_even, lambda L: G['n'] - pos(L, '__first')[0])}}))
PROOFS.append(Proof('make_range on a grid', 'vc_range2', setup_grid, post_grid, tu=TU, divfn=True, throws=thr2,
                    loops={r'gbs::make_range<double>\(double, double, double, double, unsigned long, unsigned long\)': {0: LoopSpec(inv_grid0, lambda L: G['nu'] - z(L.int('i'))), 1: LoopSpec(inv_grid1, lambda L: G['nv'] - z(L.int('j')))}}))
PROOFS.append(Lemma('grid index', grid_index, tu=TU))
PROOFS.append(Proof('make_range in space', 'vc_range3d', setup_grid3, post_grid3, tu=TU, divfn=True, throws=thr3,
                    loops={r'gbs::make_range<double>\(double, double, double, double, double, double, unsigned long': {d: LoopSpec(inv3(d), (lambda d: lambda L: G['ns'][d] - z(L.int('ijk'[d])))(d)) for d in range(3)}}))
PROOFS.append(Lemma('space index', grid_index3, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random ranges and grids with 2..40 values per direction, descending and degenerate ranges, random point lists in every parametrisation mode, normalised and not'

    def cases(self, rng, tier):
        N = {'quick': 900, 'thorough': 12000, 'search': 5000}[tier]
        q = lambda: F(rng.randrange(-4000, 4000), rng.choice([1, 8, 64]))
        for it in range(N):
            yield 'range', (fl(q()), fl(q()), rng.choice([0, 1, 2, 2, 3, 4, 7, 40]))
            yield 'grid', ([fl(q()) for _ in range(6)], rng.choice([1, 2, 3, 5, 9]), rng.choice([2, 3, 4, 7]), rng.choice([1, 2, 3, 4, 6]))
            yield 'ints', (rng.randrange(0, 50), rng.randrange(0, 60))
            n = rng.choice([2, 2, 3, 4, 6, 12])
            P = O.pts(rng, n, 3)
            if rng.random() < 0.3 and n > 2:
                i = rng.randrange(n - 1)
                P[i + 1] = list(P[i])
            yield 'param', (fl(P), rng.choice([0, 1, 2]), rng.random() < 0.5)

    def run(self, lib, g, c):
        if g == 'range':
            a, b, n = c
            for f, ar in (('vc_range', [a, b, n, Vec([])]), ('vc_rangeb', [Out([a, b]), n, Vec([])])):
                r = lib.call(f, ar)
                if n < 2:
                    if r.rc != 1 or 'length_error' not in r.what:
                        self.fail('a range of %d values was accepted' % n)
                    continue
                o = self.ok(r).out[len(ar) - 1]
                close_list(self, o, [F(a) + (F(b) - F(a)) * i / (n - 1) for i in range(n)], f, rel=1e-10, ab=1e-9)
                if o[0] != a or o[-1] != b:
                    self.fail('ends of the range are not exact', got=[float(x) for x in o])
        elif g == 'grid':
            b, nu, nv, nw = c
            B = ex_(b)
            lin = lambda x, y, i, n: x + (y - x) * F(i, n - 1)
            for f, ar in (('vc_range2', b[:4] + [nu, nv, Vec([], 2)]), ('vc_range2b', [Out(b[:4]), nu, nv, Vec([], 2)])):
                r = lib.call(f, ar)
                if nu < 2 or nv < 2:
                    if r.rc != 1:
                        self.fail('a grid range with one value was accepted')
                    continue
                o = exl(self.ok(r).out[len(ar) - 1])
                want = [(lin(B[0], B[1], i, nu), lin(B[2], B[3], j, nv)) for i in range(nu) for j in range(nv)]
                self.cells(o, want, f)
            for f, ar in (('vc_range3d', b + [nu, nv, nw, Vec([], 3)]), ('vc_range3', [Out(b[:4]), Out(b[4:]), nu, nv, nw, Vec([], 3)])):
                r = lib.call(f, ar)
                if min(nu, nv, nw) < 2:
                    if r.rc != 1:
                        self.fail('a space range with one value was accepted')
                    continue
                o = [x[::-1] for x in exl(self.ok(r).out[len(ar) - 1])]
                want = [(lin(B[0], B[1], i, nu), lin(B[2], B[3], j, nv), lin(B[4], B[5], k, nw)) for i in range(nu) for j in range(nv) for k in range(nw)]
                self.cells(o, want, f)
        elif g == 'ints':
            a, b = c
            r = lib.call('vc_rangei', [a, b, Vec([], 1, 'Q')])
            if b - a + 1 >= 2:
                if [int(x) for x in self.ok(r).out[2]] != list(range(a, b + 1)):
                    self.fail('integer range %d..%d wrong' % (a, b), got=[int(x) for x in r.out[2]])
            elif b - a + 1 in (0, 1) and r.rc != 1:
                self.fail('an integer range of one value was accepted')
        elif g == 'param':
            P, mode, ad = c
            o = self.ok(lib.call('vc_param', [Vec(P, 3), mode, ad, Vec([])])).out[3]
            d = [0.0]
            for a, b in zip(P, P[1:]):
                l = math.dist(a, b)
                d.append(d[-1] + (1. / (len(P) - 1) if mode == 0 else l if mode == 1 else math.sqrt(l)))
            if ad and d[-1] > 1e-9:
                d = [x / d[-1] for x in d]
            elif ad:
                return
            close_list(self, o, [F(x) for x in d], 'curve_parametrization mode %d' % mode, rel=1e-9, ab=1e-9)

    def cells(self, o, want, what):
        if len(o) != len(want):
            self.fail('%s: %d cells, expected %d' % (what, len(o), len(want)))
        for i, (x, y) in enumerate(zip(o, want)):
            for c, (s, t) in enumerate(zip(x, y)):
                if abs(s - t) > F(1e-10) * abs(t) + F(1e-9):
                    self.fail('%s: cell %d coordinate %d is %r, expected %r' % (what, i, c, float(s), float(t)))


SUITE = S_()
