"""C13: point algebra"""
from .geo import *
from gbsv import models as M

LEVEL = 'proof'
TU = 'geom.cpp'
PROOFS = []


def add(*a, **k):
    PROOFS.append(fn(a[0], TU, *a[1:], **k))


for n in (1, 2, 3, 4):
    ab = [('p', 'a', n), ('p', 'b', n), ('o', 'o', n)]
    add('sum, dim %d' % n, 'vc_add%d' % n, ab, lambda I_, O_, r: eqs('sum', O_['o'], [x + y for x, y in zip(I_['a'], I_['b'])]))
    add('difference, dim %d' % n, 'vc_sub%d' % n, ab, lambda I_, O_, r: eqs('difference', O_['o'], [x - y for x, y in zip(I_['a'], I_['b'])]))
    add('product with a scalar, dim %d' % n, 'vc_mul%d' % n, [('p', 'a', n), ('r', 's'), ('o', 'o', n)], lambda I_, O_, r: eqs('product', O_['o'], [x * I_['s'] for x in I_['a']]))
    add('scalar product, dim %d' % n, 'vc_dot%d' % n, ab[:2], lambda I_, O_, r: [('sum of the products', z(r) == dot(I_['a'], I_['b']))])
ab3 = [('p', 'a', 3), ('p', 'b', 3), ('o', 'o', 3)]
as3 = [('p', 'a', 3), ('r', 's'), ('o', 'o', 3)]
add('sum in place', 'vc_iadd3', [('io', 'a', 3), ('p', 'b', 3)], lambda I_, O_, r: eqs('sum', O_['a'], [x + y for x, y in zip(I_['a'], I_['b'])]))
add('minus a scalar', 'vc_subs3', as3, lambda I_, O_, r: eqs('difference', O_['o'], [x - I_['s'] for x in I_['a']]))
add('scalar minus', 'vc_ssub3', as3, lambda I_, O_, r: eqs('difference', O_['o'], [I_['s'] - x for x in I_['a']]))
add('scalar times', 'vc_lmul3', as3, lambda I_, O_, r: eqs('product', O_['o'], [x * I_['s'] for x in I_['a']]))
add('product with an integer', 'vc_muln3', [('p', 'a', 3), ('i', 's', -2**31, 2**31 - 1), ('o', 'o', 3)], lambda I_, O_, r: eqs('product', O_['o'], [x * z3.ToReal(I_['s']) for x in I_['a']]))
for n in (2, 3):
    add('quotient by a scalar, dim %d' % n, 'vc_div%d' % n, [('p', 'a', n), ('r', 's'), ('o', 'o', n)], lambda I_, O_, r: eqs('quotient', [I_['s'] * x for x in O_['o']], I_['a']), pre=lambda I_: [I_['s'] != 0])
    add('squared norm, dim %d' % n, 'vc_sqn%d' % n, [('p', 'a', n)], lambda I_, O_, r: [('sum of squares', z(r) == dot(I_['a'], I_['a']))])
    add('squared distance, dim %d' % n, 'vc_sqd%d' % n, [('p', 'a', n), ('p', 'b', n)], lambda I_, O_, r: [('sum of squared differences', z(r) == z3.Sum([(x - y) * (x - y) for x, y in zip(I_['a'], I_['b'])]))])
    add('distance, dim %d' % n, 'vc_dist%d' % n, [('p', 'a', n), ('p', 'b', n)], lambda I_, O_, r: [('non-negative', z(r) >= 0), ('square', z(r) * z(r) == z3.Sum([(x - y) * (x - y) for x, y in zip(I_['a'], I_['b'])]))])
    add('unit vector, dim %d' % n, 'vc_nrmd%d' % n, [('p', 'a', n), ('o', 'o', n)], lambda I_, O_, r: unit(I_['a'], O_['o']), pre=lambda I_: [dot(I_['a'], I_['a']) > 0], divfn=True)
for n in (1, 2, 3):
    add('norm, dim %d' % n, 'vc_norm%d' % n, [('p', 'a', n)], lambda I_, O_, r: [('non-negative', z(r) >= 0), ('square', z(r) * z(r) == dot(I_['a'], I_['a']))])


def unit(a, o):
    """o is the positive multiple of a with length one"""
    s = M.SQRT(dot(a, a))
    return [('coordinate %d' % c, o[c] == DIV(a[c], s)) for c in range(len(a))]


add('normalisation in place', 'vc_nrm3', [('io', 'a', 3)], lambda I_, O_, r: unit(I_['a'], O_['a']), pre=lambda I_: [dot(I_['a'], I_['a']) > 0], divfn=True)
add('adim of a vector', 'vc_adima3', [('io', 'a', 3)], lambda I_, O_, r: unit(I_['a'], O_['a']), pre=lambda I_: [dot(I_['a'], I_['a']) > 0], divfn=True)
for f in ('cross', 'hat'):
    add('vector product (%s)' % f, 'vc_%s3' % f, ab3, lambda I_, O_, r: eqs('product', O_['o'], cross(I_['a'], I_['b'])))
    add('vector product in the plane (%s)' % f, 'vc_%s2' % f, [('p', 'a', 2), ('p', 'b', 2)], lambda I_, O_, r: [('determinant', z(r) == I_['a'][0] * I_['b'][1] - I_['a'][1] * I_['b'][0])])
add('vector product on a line', 'vc_cross1', [('p', 'a', 1), ('p', 'b', 1)], lambda I_, O_, r: [('zero', z(r) == 0)])
add('angle in the plane', 'vc_angle2', [('p', 'a', 2), ('p', 'b', 2)], lambda I_, O_, r: [('oriented angle', z(r) == M.ATAN2(I_['a'][0] * I_['b'][1] - I_['a'][1] * I_['b'][0], dot(I_['a'], I_['b'])))])


def angle3(I_, O_, r):
    c = cross(I_['a'], I_['b'])
    return [('angle', z(r) == M.ATAN2(M.SQRT(dot(c, c)), dot(I_['a'], I_['b'])))]


add('angle in space', 'vc_angle3', [('p', 'a', 3), ('p', 'b', 3)], angle3)


# ---- lists
PROOFS += [
    mapping('delta of a list', TU, 'vc_delta', [('a', 8)], [('o', 8)], ['a', 'o'], lambda i, I_, O_, x: [('difference', O_('o', i)[0] == I_('a', i + 1)[0] - I_('a', i)[0])], n_out=lambda n: n - 1, nmin=1),
    mapping('delta of a list of points', TU, 'vc_deltap', [('a', 24)], [('o', 24)], ['a', 'o'], lambda i, I_, O_, x: eqs('difference', O_('o', i), [p - q for p, q in zip(I_('a', i + 1), I_('a', i))]), n_out=lambda n: n - 1, nmin=1),
    mapping('delta of two lists', TU, 'vc_delta2', [('a', 8), ('b', 8)], [('o', 8)], ['a', 'b', 'o'], lambda i, I_, O_, x: [('difference', O_('o', i)[0] == I_('b', i)[0] - I_('a', i)[0])]),
]


def pre_vdiv(ex, st, n):
    b = ex.geo[1]['b'][0]
    st.assume(forall(1, lambda i: implies(and_(0 <= i, i < n), b[i] != 0), lambda i: [b[i]]))


PROOFS.append(mapping('quotient of lists', TU, 'vc_vdiv', [('a', 24), ('b', 8)], [('o', 24)], ['a', 'b', 'o'], lambda i, I_, O_, x: [('quotient coordinate %d' % c, p * I_('b', i)[0] == q) for c, (p, q) in enumerate(zip(O_('o', i), I_('a', i)))], pre=pre_vdiv, divfn=False))


# ---- length of a polyline
LEN = z3.Function('LEN', z3.IntSort(), z3.RealSort())


def len_axiom(i):
    """definition of the partial length, instantiated at i"""
    P = G['P']
    d = [P[c][i] - P[c][i - 1] for c in sorted(P)]
    return z3.Implies(i >= 1, LEN(i) == LEN(i - 1) + M.SQRT(dot(d, d)))


def setup_len(R):
    def f(ex, st):
        n = z3.Int('n')
        st.assume(and_(n >= 1, n < 2**40, LEN(z3.IntVal(0)) == 0))
        p, v = mk_vec(ex, st, n, R, 'P')
        G.update(n=n, P={c: v.arr(c) for c in range(0, R, 8)}, R=R)
        return [p]
    return f


def inv_len(L):
    p, q = L.ptr('__first1'), L.ptr('__first2')
    i, j = [z(x.expr() if isinstance(x, Lin) else x) for x in (Lin.of(t.off).div(G['R']).norm() for t in (p, q))]
    for t in range(5):
        L.st.assume(len_axiom(i + t))
    return [('position', and_(1 <= i, i <= G['n'], j == i - 1)), ('partial length', L.real('__init') == LEN(i - 1))]


LOOPS_LEN = {r'^double std::transform_reduce<.*gbs::length<double': {k: LoopSpec(inv_len, lambda L: G['n'] - z(Lin.of(L.ptr('__first1').off).div(G['R']).norm().expr())) for k in (0, 1)}}
for R, f in ((24, 'vc_length'), (16, 'vc_length2')):
    PROOFS.append(Proof('length of a polyline, dim %d' % (R // 8), f, setup_len(R), lambda ex, st, r: [('sum of the distances', z(r) == LEN(G['n'] - 1))], tu=TU, loops=LOOPS_LEN))


# ---- laws over the contracts
def laws(ex):
    a, b, c = [[z3.Real('%s%d' % (n, i)) for i in range(3)] for n in 'abc']
    s = z3.Real('s')
    x = cross(a, b)
    yield 'vector product orthogonal to its first factor', [], dot(x, a) == 0
    yield 'vector product orthogonal to its second factor', [], dot(x, b) == 0
    yield 'vector product antisymmetric', [], and_(*[p == -q for p, q in zip(x, cross(b, a))])
    yield 'Lagrange identity', [], dot(x, x) + dot(a, b) * dot(a, b) == dot(a, a) * dot(b, b)
    yield 'distributivity', [], dot(a, [p + q for p, q in zip(b, c)]) == dot(a, b) + dot(a, c)
    n, r = z3.Reals('n r')
    u = z3.Reals('u0 u1 u2')
    yield 'a normalised vector has length one', [n > 0, n * n == dot(a, a)] + [u[i] * n == a[i] for i in range(3)], dot(u, u) * n * n == n * n
    yield 'length one', [n > 0, r * n * n == n * n], r == 1


PROOFS.append(Lemma('laws of the algebra', laws, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random vectors of dimension 1-4 with dyadic coordinates, including zero, parallel and very unequal ones'

    def cases(self, rng, tier):
        N = {'quick': 500, 'thorough': 8000, 'search': 4000}[tier]
        q = lambda: F(rng.randrange(-4000, 4000), rng.choice([1, 8, 64]))
        for it in range(N):
            v = lambda n: [fl(q()) if rng.random() > 0.1 else 0. for _ in range(n)]
            for n in (1, 2, 3, 4):
                yield 'alg', (n, v(n), v(n), fl(q()))
            yield 'lists', ([v(3) for _ in range(rng.choice([1, 2, 3, 7, 30]))],)

    def run(self, lib, g, c):
        def call(f, *a):
            return self.ok(lib.call(f, list(a)))

        def out(f, want, *a):
            n = len(want)
            r = call(f, *a, Out(n))
            close_list(self, r.out[len(a)], want, f, rel=1e-14, ab=1e-9)

        def val(f, want, *a):
            r = self.ok(lib.call(f, list(a), 'd'))
            self.near(F(r.ret), F(want), abs(F(want)) + 1, f, rel=1e-12)
        if g == 'alg':
            n, a, b, s = c
            A, B, s_ = ex_(a), ex_(b), F(s)
            D = sum(x * y for x, y in zip(A, B))
            Q = sum(x * x for x in A)
            out('vc_add%d' % n, [x + y for x, y in zip(A, B)], a, b)
            out('vc_sub%d' % n, [x - y for x, y in zip(A, B)], a, b)
            out('vc_mul%d' % n, [x * s_ for x in A], a, s)
            val('vc_dot%d' % n, D, a, b)
            if n < 4:
                val('vc_norm%d' % n, math.sqrt(Q), a)
            if n in (2, 3):
                if s:
                    out('vc_div%d' % n, [x / s_ for x in A], a, s)
                val('vc_sqn%d' % n, Q, a)
                q2 = sum((x - y)**2 for x, y in zip(A, B))
                val('vc_sqd%d' % n, q2, a, b)
                val('vc_dist%d' % n, math.sqrt(q2), a, b)
                if Q:
                    out('vc_nrmd%d' % n, [float(x) / math.sqrt(Q) for x in A], a)
            if n == 1:
                val('vc_cross1', 0, a, b)
            if n == 2:
                d = A[0] * B[1] - A[1] * B[0]
                val('vc_cross2', d, a, b)
                val('vc_hat2', d, a, b)
                (d or D > 0) and val('vc_angle2', math.atan2(d, D), a, b)
            if n == 3:
                x = [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
                out('vc_cross3', x, a, b)
                out('vc_hat3', x, a, b)
                val('vc_angle3', math.atan2(math.sqrt(sum(t * t for t in x)), D), a, b)
                out('vc_subs3', [t - s_ for t in A], a, s)
                out('vc_ssub3', [s_ - t for t in A], a, s)
                out('vc_lmul3', [t * s_ for t in A], a, s)
                out('vc_muln3', [t * int(s) for t in A], a, int(s))
                close_list(self, call('vc_iadd3', a, b).out[0], [t + y for t, y in zip(A, B)], 'vc_iadd3')
                if Q:
                    for f in ('vc_nrm3', 'vc_adima3'):
                        close_list(self, call(f, a).out[0], [float(t) / math.sqrt(Q) for t in A], f)
        elif g == 'lists':
            P, = c
            n = len(P)
            L = sum(math.dist(x, y) for x, y in zip(P, P[1:]))
            val('vc_length', L, Vec(P, 3))
            val('vc_length2', sum(math.dist(x[:2], y[:2]) for x, y in zip(P, P[1:])), Vec([x[:2] for x in P], 2))
            xs, ys = [x[0] for x in P], [x[1] for x in P]
            close_list(self, call('vc_delta', Vec(xs), Vec([])).out[1], [F(b) - F(a) for a, b in zip(xs, xs[1:])], 'delta')
            close_list(self, call('vc_delta2', Vec(xs), Vec(ys), Vec([])).out[2], [F(b) - F(a) for a, b in zip(xs, ys)], 'delta of two lists')
            o = call('vc_deltap', Vec(P, 3), Vec([], 3)).out[1]
            close_list(self, np.array(o).ravel(), [F(b) - F(a) for p, q in zip(P, P[1:]) for a, b in zip(p, q)], 'delta of points')
            w = [y if y else 1. for y in ys]
            o = call('vc_vdiv', Vec(P, 3), Vec(w), Vec([], 3)).out[2]
            close_list(self, np.array(o).ravel(), [F(a) / F(y) for p, y in zip(P, w) for a in p], 'quotient of lists')


SUITE = S_()
