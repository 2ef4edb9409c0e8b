"""C14: geometric transforms"""
from .geo import *
from .callees import check_curve_contract
from gbsv import models as M

LEVEL = 'proof'
TU = 'geom.cpp'
PROOFS = []
SIN, COS, SQRT = M.SIN, M.COS, M.SQRT


def add(*a, **k):
    PROOFS.append(fn(a[0], TU, *a[1:], **k))


def rot2(x, a, o=(0, 0)):
    c, s = COS(a), SIN(a)
    u, v = x[0] - o[0], x[1] - o[1]
    return [o[0] + u * c - v * s, o[1] + u * s + v * c]


def rot3(x, a, ax):
    """Rodrigues"""
    n = SQRT(dot(ax, ax))
    k = [DIV(t, n) for t in ax]
    c, s = COS(a), SIN(a)
    kx = cross(k, x)
    d = dot(k, x)
    return [x[i] * c + kx[i] * s + k[i] * d * (1 - c) for i in range(3)]


def nz(nm='ax'):
    return lambda I_: [dot(I_[nm], I_[nm]) > 0]


add('add_dimension', 'vc_adddim', [('p', 'a', 2), ('r', 'v'), ('o', 'o', 3)], lambda I_, O_, r: eqs('point', O_['o'], I_['a'] + [I_['v']]))
for n in (2, 3):
    add('translate, dim %d' % n, 'vc_tr%d' % n, [('io', 'a', n), ('p', 'b', n)], lambda I_, O_, r: eqs('point', O_['a'], [x + y for x, y in zip(I_['a'], I_['b'])]))
add('translated', 'vc_trd3', [('p', 'a', 3), ('p', 'b', 3), ('o', 'o', 3)], lambda I_, O_, r: eqs('point', O_['o'], [x + y for x, y in zip(I_['a'], I_['b'])]))
add('translate a weighted pole', 'vc_trw', [('io', 'a', 4), ('p', 'b', 3)], lambda I_, O_, r: eqs('pole', O_['a'], [x + y * I_['a'][3] for x, y in zip(I_['a'], I_['b'])] + [I_['a'][3]]))
add('rotate in the plane', 'vc_rot2', [('io', 'x', 2), ('r', 'a')], lambda I_, O_, r: eqs('point', O_['x'], rot2(I_['x'], I_['a'])))
add('rotated in the plane', 'vc_rotd2', [('p', 'x', 2), ('r', 'a'), ('o', 'o', 2)], lambda I_, O_, r: eqs('point', O_['o'], rot2(I_['x'], I_['a'])))
add('rotate about a centre', 'vc_rotc2', [('io', 'x', 2), ('r', 'a'), ('p', 'c', 2)], lambda I_, O_, r: eqs('point', O_['x'], rot2(I_['x'], I_['a'], I_['c'])))
add('rotated about a centre', 'vc_rotcd2', [('p', 'x', 2), ('r', 'a'), ('p', 'c', 2), ('o', 'o', 2)], lambda I_, O_, r: eqs('point', O_['o'], rot2(I_['x'], I_['a'], I_['c'])))
add('rotate about an axis', 'vc_rot3', [('io', 'x', 3), ('r', 'a'), ('p', 'ax', 3)], lambda I_, O_, r: eqs('point', O_['x'], rot3(I_['x'], I_['a'], I_['ax'])), pre=nz(), divfn=True)
add('rotated about an axis', 'vc_rotd3', [('p', 'x', 3), ('r', 'a'), ('p', 'ax', 3), ('o', 'o', 3)], lambda I_, O_, r: eqs('point', O_['o'], rot3(I_['x'], I_['a'], I_['ax'])), pre=nz(), divfn=True)


def sc(x, s, c):
    return [(p - q) * s + q for p, q in zip(x, c)]


def sc1(x, s, k, c):
    return [z3.If(k == i, (x[i] - c[i]) * s + c[i], x[i]) for i in range(len(x))]


add('scaled', 'vc_sc2', [('p', 'x', 2), ('r', 's'), ('p', 'c', 2), ('o', 'o', 2)], lambda I_, O_, r: eqs('point', O_['o'], sc(I_['x'], I_['s'], I_['c'])))
add('scale', 'vc_sc3', [('io', 'x', 3), ('r', 's'), ('p', 'c', 3)], lambda I_, O_, r: eqs('point', O_['x'], sc(I_['x'], I_['s'], I_['c'])))
for k in range(3):
    add('scale along coordinate %d' % k, 'vc_scc3', [('io', 'x', 3), ('r', 's'), ('c', 'k', k), ('p', 'c', 3)], lambda I_, O_, r: eqs('point', O_['x'], sc1(I_['x'], I_['s'], z3.IntVal(I_['k']), I_['c'])))
    add('scaled along coordinate %d' % k, 'vc_sccd3', [('p', 'x', 3), ('r', 's'), ('c', 'k', k), ('p', 'c', 3), ('o', 'o', 3)], lambda I_, O_, r: eqs('point', O_['o'], sc1(I_['x'], I_['s'], z3.IntVal(I_['k']), I_['c'])))


# ---- frames
def unitv(v):
    n = SQRT(dot(v, v))
    return [v[i] * DIV(z3.RealVal(1), n) for i in range(3)]


def frame(R):
    x, y = unitv(R[6:9]), unitv(R[3:6])
    return R[0:3], [x, cross(y, x), y]


def mat(cols):
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def p_frame(I_, O_, r):
    o, m = frame(I_['R'])
    return eqs('origin', O_['o'], o) + [('axis matrix (%d,%d)' % (i, j), O_['m'][3 * i + j] == mat(m)[i][j]) for i in range(3) for j in range(3)]


def hom(A, b):
    return [[A[i][j] for j in range(3)] + [b[i]] for i in range(3)] + [[0, 0, 0, 1]]


def p_frame4(I_, O_, r):
    o, m = frame(I_['R'])
    H = hom(mat(m), o)
    return [('matrix (%d,%d)' % (i, j), O_['m'][4 * i + j] == H[i][j]) for i in range(4) for j in range(4)]


def nzR(*ns):
    return lambda I_: [dot(I_[n][3:6], I_[n][3:6]) > 0 for n in ns] + [dot(I_[n][6:9], I_[n][6:9]) > 0 for n in ns]


add('frame axes', 'vc_frame', [('p', 'R', 9), ('o', 'o', 3), ('o', 'm', 9)], p_frame, pre=nzR('R'), divfn=True)
add('frame matrix', 'vc_frame4', [('p', 'R', 9), ('o', 'm', 16)], p_frame4, pre=nzR('R'), divfn=True)


def p_frames(I_, O_, r):
    a, A = frame(I_['R'])
    b, B = frame(I_['Q'])
    A, B = mat(A), mat(B)
    C = [[z3.Sum([B[i][k] * A[j][k] for k in range(3)]) for j in range(3)] for i in range(3)]
    t = [b[i] - z3.Sum([C[i][k] * a[k] for k in range(3)]) for i in range(3)]
    H = hom(C, t)
    return [('matrix (%d,%d)' % (i, j), O_['m'][4 * i + j] == H[i][j]) for i in range(4) for j in range(4)]


add('from frame to frame', 'vc_frames', [('p', 'R', 9), ('p', 'Q', 9), ('o', 'm', 16)], p_frames, pre=nzR('R', 'Q'), divfn=True)


def app(m, x):
    return [z3.Sum([m[4 * i + j] * x[j] for j in range(3)]) + m[4 * i + 3] for i in range(3)]


add('apply a 4x4 matrix', 'vc_mat4', [('io', 'x', 3), ('p', 'm', 16)], lambda I_, O_, r: eqs('point', O_['x'], app(I_['m'], I_['x'])))
add('apply a 4x4 matrix to a copy', 'vc_mat4d', [('p', 'x', 3), ('p', 'm', 16), ('o', 'o', 3)], lambda I_, O_, r: eqs('point', O_['o'], app(I_['m'], I_['x'])))
add('apply location and matrix', 'vc_mat3', [('io', 'x', 3), ('p', 'l', 3), ('p', 'm', 9)], lambda I_, O_, r: eqs('point', O_['x'], [z3.Sum([I_['m'][3 * i + j] * I_['x'][j] for j in range(3)]) + I_['l'][i] for i in range(3)]))

# ---- objects: every pole is transformed, weights and everything else kept
def crv(ex, st, n):
    kp, kv = mk_vec(ex, st, z3.Int('nk'), 8, 'k')
    p = z3.Int('p')
    st.assume(and_(p >= 1, p < 2**20, z3.Int('nk') == n + p + 1, n >= p + 1))
    return {'k': kp, 'p': p}


def srf(ex, st, n):
    ku, kv = mk_vec(ex, st, z3.Int('nku'), 8, 'ku')[0], mk_vec(ex, st, z3.Int('nkv'), 8, 'kv')[0]
    p, q = z3.Int('p'), z3.Int('q')
    nu, nv = z3.Int('nku') - p - 1, z3.Int('nkv') - q - 1
    st.assume(and_(p >= 1, p < 2**20, q >= 1, q < 2**20, nu >= p + 1, nv >= q + 1, nu < 2**30, nv < 2**30, nu * nv == n))
    return {'ku': ku, 'kv': kv, 'p': p, 'q': q}


def obj(name, entry, R, args, f, base=crv, ratl=False, pre=()):
    """f(x, A) -> transformed point; A = values of the extra arguments"""
    def extra(ex, st, n):
        d = base(ex, st, n)
        A = {}
        for a in args:
            if a[0] == 'r':
                d[a[1]] = A[a[1]] = z3.Real(a[1])
            elif a[0] == 'c':
                d[a[1]] = A[a[1]] = a[2]
            else:
                d[a[1]], A[a[1]] = point(ex, st, a[1], a[2])
        for g in pre:
            st.assume(g(A))
        d['_'] = A
        return d

    def rel(i, I_, O_, x):
        a, b = I_('P', i), O_('P', i)
        if not ratl:
            return eqs('pole', b, f(a, x['_']))
        w = a[-1]
        pr = [z3.If(w == 0, 0, t / w) for t in a[:-1]]
        return eqs('weighted pole', b, [t * w for t in f(pr, x['_'])]) + [('weight', b[-1] == w)]
    order = ['P'] + (['k', 'p'] if base is crv else ['ku', 'kv', 'p', 'q']) + [a[1] for a in args]
    PROOFS.append(mapping(name, TU, entry, [('P', R)], [('P', R)], order, rel, extra=extra, callees=[check_curve_contract(), rot_contract], throws=lambda ex, st: [], nmin=1))


V3, AX, O3 = ('p', 'v', 3), ('p', 'ax', 3), ('p', 'o', 3)
tr_ = lambda x, A: [a + b for a, b in zip(x, A['v'])]
sc_ = lambda x, A: sc(x, A['s'], A['o'])
ROT = [z3.Function('ROT%d' % i, *([z3.RealSort()] * 8)) for i in range(3)]      # the point-level rotation; its body is discharged in 'rotate about an axis'


def ro_(x, A):
    return [f(*x, A['a'], *A['ax']) for f in ROT]


def rot_apply(ex, st, a):
    x, t, ax = a
    X, AX_ = read(ex, st, x, 3), read(ex, st, ax, 3)
    ex.oblige(st, 'pre:rotate: axis not null', dot(AX_, AX_) > 0)
    for i in range(3):
        ex.store(st, DBL, x.at(8 * i), ROT[i](*X, z(t), *AX_))


rot_contract = Contract(r'^(?:auto|void) gbs::rotate<double>\(std::array<double, 3ul>&, double, std::array<double, 3ul> const&\)', rot_apply, 'rotate a point about an axis (C14)')
nzA = [lambda A: dot(A['ax'], A['ax']) > 0]
obj('translate a curve', 'vc_ctr3', 24, [V3], tr_)
obj('translate a rational curve', 'vc_ctr3r', 32, [V3], tr_, ratl=True)
obj('rotate a plane curve', 'vc_crot2', 16, [('r', 'a')], lambda x, A: rot2(x, A['a']))
obj('rotate a curve', 'vc_crot3', 24, [('r', 'a'), AX], ro_, pre=nzA)
obj('rotate a rational curve', 'vc_crot3r', 32, [('r', 'a'), AX], ro_, ratl=True, pre=nzA)
obj('scale a curve', 'vc_csc3', 24, [('r', 's'), O3], sc_)
obj('scale a rational curve', 'vc_csc3r', 32, [('r', 's'), O3], sc_, ratl=True)
for k in range(3):
    obj('scale a curve along coordinate %d' % k, 'vc_cscc3', 24, [('r', 's'), ('c', 'i', k), O3], lambda x, A: sc1(x, A['s'], z3.IntVal(A['i']), A['o']))
obj('scale a rational curve along a coordinate', 'vc_cscc3r', 32, [('r', 's'), ('c', 'i', 1), O3], lambda x, A: sc1(x, A['s'], z3.IntVal(A['i']), A['o']), ratl=True)
obj('scale a surface', 'vc_ssc3', 24, [('r', 's'), O3], sc_, base=srf)
obj('scale a rational surface', 'vc_ssc3r', 32, [('r', 's'), O3], sc_, base=srf, ratl=True)
obj('rotate a surface', 'vc_srot3', 24, [('r', 'a'), AX], ro_, base=srf, pre=nzA)
obj('rotate a rational surface', 'vc_srot3r', 32, [('r', 'a'), AX], ro_, base=srf, ratl=True, pre=nzA)


# ---- what the contracts amount to
def laws(ex):
    a, b, c = [[z3.Real('%s%d' % (n, i)) for i in range(3)] for n in 'abk']
    C, S_ = z3.Reals('c s')
    cs = [C * C + S_ * S_ == 1]
    r2 = lambda x: [x[0] * C - x[1] * S_, x[0] * S_ + x[1] * C]
    yield 'a plane rotation keeps scalar products', cs, dot(r2(a[:2]), r2(b[:2])) == dot(a[:2], b[:2]) * (C * C + S_ * S_)
    k = c
    un = [dot(k, k) == 1]
    d = lambda x: dot(k, x)
    r3 = lambda x: [x[i] * C + cross(k, x)[i] * S_ + k[i] * d(x) * (1 - C) for i in range(3)]
    # |r3(x)|^2 = C^2 |x|^2 + S^2 |k x x|^2 + (k.x)^2 (1-C)^2 |k|^2 + 2 C (1-C) (k.x)^2   (k x x is orthogonal to k and x)
    K = z3.Real('K')
    D = d(a)
    X = dot(cross(k, a), cross(k, a))
    yield 'vector product is orthogonal to the axis and the vector', [], and_(dot(cross(k, a), k) == 0, dot(cross(k, a), a) == 0)
    yield 'length of the vector product', [], X == dot(k, k) * dot(a, a) - D * D
    kk, aa, dd = z3.Reals('kk aa dd')
    yield 'a rotation keeps lengths', cs + [kk == 1], C * C * aa + S_ * S_ * (kk * aa - dd * dd) + dd * dd * (1 - C) * (1 - C) * kk + 2 * C * (1 - C) * dd * dd == aa
    yield 'a rotation keeps its axis', un, and_(*[k[i] * C + k[i] * dot(k, k) * (1 - C) == k[i] * (C + dot(k, k) * (1 - C)) for i in range(3)])
    # an affine map commutes with a combination whose coefficients sum to one
    n = z3.Int('n')
    N, P, SN, SP, ST = [z3.Function(x, z3.IntSort(), z3.RealSort()) for x in ('N', 'P', 'SN', 'SP', 'ST')]
    m, t = z3.Reals('m t')
    step = [SN(n + 1) == SN(n) + N(n), SP(n + 1) == SP(n) + N(n) * P(n), ST(n + 1) == ST(n) + N(n) * (m * P(n) + t)]
    yield 'affine invariance, start', [SN(0) == 0, SP(0) == 0, ST(0) == 0], ST(0) == m * SP(0) + t * SN(0)
    yield 'affine invariance, step', step + [n >= 0, ST(n) == m * SP(n) + t * SN(n)], ST(n + 1) == m * SP(n + 1) + t * SN(n + 1)


PROOFS.append(Lemma('laws of the transforms', laws, tu=TU))


class S_(Suite):
    tu = TU
    rule = 'random points, axes, frames, curves and surfaces (plain and rational, with positive weights); the transformed object is compared pole by pole and evaluated against the transformed point of the original; frames: origin and axes of the source must land on those of the target'

    def cases(self, rng, tier):
        N = {'quick': 400, 'thorough': 6000, 'search': 3000}[tier]
        q = lambda: F(rng.randrange(-400, 400), rng.choice([1, 8, 64]))
        v = lambda n: [fl(q()) if rng.random() > 0.15 else 0. for _ in range(n)]

        def nzv():
            while True:
                x = v(3)
                if any(x):
                    return x
        for it in range(N):
            yield 'points', (v(4), v(4), fl(q()), rng.uniform(-7, 7), nzv(), rng.randrange(3))
            yield 'frames', (v(3), nzv(), nzv(), v(3), nzv(), nzv(), v(3))
            p, k, n = curve_knots(rng, pmax=4)
            H = posw(rng, O.pts(rng, n, 3))
            yield 'curves', (p, fl(k), fl(O.pts(rng, n, 3)), fl(H), v(3), fl(q()), rng.uniform(-7, 7), nzv(), rng.randrange(3))
            if it % 3 == 0:
                p, q_, ku, kv, nu, nv = surf_case(rng, 3, 3)
                yield 'surfaces', (p, q_, fl(ku), fl(kv), fl(O.pts(rng, nu * nv, 3)), fl(posw(rng, O.pts(rng, nu * nv, 3))), v(3), fl(q()), rng.uniform(-7, 7), nzv())

    def same(self, got, want, what):
        sc = max([1.] + [abs(float(x)) for x in want])
        for i, (a, b) in enumerate(zip(got, want)):
            if not abs(float(a) - float(b)) <= 1e-11 * sc:
                self.fail('%s: coordinate %d is %r, expected %r' % (what, i, float(a), float(b)))

    def poles(self, got, P, f, what, ratl):
        if len(got) != len(P):
            self.fail('%s: %d poles, expected %d' % (what, len(got), len(P)))
        for i, (g, x) in enumerate(zip(got, P)):
            if ratl:
                w = x[-1]
                self.same(g, [c * w for c in f([c / w for c in x[:-1]])] + [w], '%s: pole %d' % (what, i))
            else:
                self.same(g, f(list(x)), '%s: pole %d' % (what, i))

    def run(self, lib, g, c):
        def call(f, *a):
            return self.ok(lib.call(f, list(a))).out
        if g == 'points':
            x, t, s, a, ax, k = c
            R2 = lambda y, o=(0, 0): [o[0] + (y[0] - o[0]) * math.cos(a) - (y[1] - o[1]) * math.sin(a), o[1] + (y[0] - o[0]) * math.sin(a) + (y[1] - o[1]) * math.cos(a)]
            self.same(call('vc_adddim', x[:2], s, Out(3))[2], x[:2] + [s], 'add_dimension')
            self.same(call('vc_tr2', x[:2], t[:2])[0], [p + q for p, q in zip(x[:2], t)], 'translate')
            self.same(call('vc_tr3', x[:3], t[:3])[0], [p + q for p, q in zip(x[:3], t)], 'translate')
            self.same(call('vc_trd3', x[:3], t[:3], Out(3))[2], [p + q for p, q in zip(x[:3], t)], 'translated')
            self.same(call('vc_trw', x, t[:3])[0], [p + q * x[3] for p, q in zip(x[:3], t)] + [x[3]], 'translate a weighted pole')
            self.same(call('vc_rot2', x[:2], a)[0], R2(x), 'rotate')
            self.same(call('vc_rotd2', x[:2], a, Out(2))[2], R2(x), 'rotated')
            self.same(call('vc_rotc2', x[:2], a, t[:2])[0], R2(x, t), 'rotate about a centre')
            self.same(call('vc_rotcd2', x[:2], a, t[:2], Out(2))[3], R2(x, t), 'rotated about a centre')
            self.same(call('vc_rot3', x[:3], a, ax)[0], nrot3(x[:3], a, ax), 'rotate about an axis')
            self.same(call('vc_rotd3', x[:3], a, ax, Out(3))[3], nrot3(x[:3], a, ax), 'rotated about an axis')
            self.same(call('vc_sc2', x[:2], s, t[:2], Out(2))[3], [(p - q) * s + q for p, q in zip(x[:2], t)], 'scaled')
            self.same(call('vc_sc3', x[:3], s, t[:3])[0], [(p - q) * s + q for p, q in zip(x[:3], t)], 'scale')
            w = list(x[:3])
            w[k] = (w[k] - t[k]) * s + t[k]
            self.same(call('vc_scc3', x[:3], s, k, t[:3])[0], w, 'scale along a coordinate')
            self.same(call('vc_sccd3', x[:3], s, k, t[:3], Out(3))[4], w, 'scaled along a coordinate')
        elif g == 'frames':
            o, m, s, o2, m2, s2, x = c
            # make the secondary axes orthogonal to the main ones, as a frame requires
            def ortho(a, b):
                r = sum(p * q for p, q in zip(a, b)) / sum(p * p for p in a)
                return [q - r * p for p, q in zip(a, b)]
            s, s2 = ortho(m, s), ortho(m2, s2)
            n = lambda v: math.sqrt(sum(p * p for p in v))
            if n(s) < 1e-3 * n(m) or n(s2) < 1e-3 * n(m2):
                return
            u = lambda v: [p / n(v) for p in v]
            ap = lambda M_, y: [sum(M_[4 * i + j] * y[j] for j in range(3)) + M_[4 * i + 3] for i in range(3)]
            M1 = call('vc_frame4', o + m + s, Out(16))[1]
            oo, mm = [call('vc_frame', o + m + s, Out(3), Out(9))[i] for i in (1, 2)]
            self.same(oo, o, 'frame origin')
            self.same([M1[4 * i + j] for i in range(3) for j in range(3)] + list(M1[12:]), list(mm) + [0, 0, 0, 1], 'frame matrix')
            self.same(ap(M1, [0, 0, 0]), o, 'origin of the frame')
            self.same(ap(M1, [0, 0, 1]), [p + q for p, q in zip(o, u(m))], 'main axis of the frame')
            self.same(ap(M1, [1, 0, 0]), [p + q for p, q in zip(o, u(s))], 'secondary axis of the frame')
            A = call('vc_frames', o + m + s, o2 + m2 + s2, Out(16))[2]
            self.same(ap(A, o), o2, 'image of the origin of the source frame')
            self.same(ap(A, [p + q for p, q in zip(o, u(m))]), [p + q for p, q in zip(o2, u(m2))], 'image of the main axis of the source frame')
            self.same(ap(A, [p + q for p, q in zip(o, u(s))]), [p + q for p, q in zip(o2, u(s2))], 'image of the secondary axis of the source frame')
            self.same(call('vc_mat4', x, list(A))[0], ap(A, x), 'transform')
            self.same(call('vc_mat4d', x, list(A), Out(3))[2], ap(A, x), 'transformed')
            self.same(call('vc_mat3', x, o, list(mm))[0], [sum(mm[3 * i + j] * x[j] for j in range(3)) + o[i] for i in range(3)], 'transform by location and matrix')
        elif g == 'curves':
            p, k, P, H, t, s, a, ax, i = c
            T = lambda x: [y + z_ for y, z_ in zip(x, t)]
            Sx = lambda x: [(y - z_) * s + z_ for y, z_ in zip(x, t)]
            S1 = lambda x: [((y - z_) * s + z_) if j == i else y for j, (y, z_) in enumerate(zip(x, t))]
            Ro = lambda x: nrot3(x, a, ax)
            for f, Q, ar, m, r in (('vc_ctr3', P, [t], T, 0), ('vc_ctr3r', H, [t], T, 1), ('vc_crot3', P, [a, ax], Ro, 0), ('vc_crot3r', H, [a, ax], Ro, 1), ('vc_csc3', P, [s, t], Sx, 0),
                                   ('vc_csc3r', H, [s, t], Sx, 1), ('vc_cscc3', P, [s, i, t], S1, 0), ('vc_cscc3r', H, [s, i, t], S1, 1)):
                self.poles(call(f, Vec(Q, 3 + r), Vec(k), p, *ar)[0], Q, m, f, r)
            R2 = lambda x: [x[0] * math.cos(a) - x[1] * math.sin(a), x[0] * math.sin(a) + x[1] * math.cos(a)]
            P2 = [x[:2] for x in P]
            self.poles(call('vc_crot2', Vec(P2, 2), Vec(k), p, a)[0], P2, R2, 'rotate a plane curve', 0)
            o = call('vc_ctrd3', Vec(P, 3), Vec(k), p, t, Vec([], 3), Vec([], 3))
            self.poles(o[4], P, T, 'transformed', 0)
            self.poles(o[5], P, lambda x: x, 'original of a transformed curve', 0)
        elif g == 'surfaces':
            p, q, ku, kv, P, H, t, s, a, ax = c
            Sx = lambda x: [(y - z_) * s + z_ for y, z_ in zip(x, t)]
            Ro = lambda x: nrot3(x, a, ax)
            for f, Q, ar, m, r in (('vc_ssc3', P, [s, t], Sx, 0), ('vc_ssc3r', H, [s, t], Sx, 1), ('vc_srot3', P, [a, ax], Ro, 0), ('vc_srot3r', H, [a, ax], Ro, 1)):
                self.poles(call(f, Vec(Q, 3 + r), Vec(ku), Vec(kv), p, q, *ar)[0], Q, m, f, r)


def nrot3(x, a, ax):
    n = math.sqrt(sum(t * t for t in ax))
    k = [t / n for t in ax]
    c, s = math.cos(a), math.sin(a)
    kx = [k[1] * x[2] - k[2] * x[1], k[2] * x[0] - k[0] * x[2], k[0] * x[1] - k[1] * x[0]]
    d = sum(p * q for p, q in zip(k, x))
    return [x[i] * c + kx[i] * s + k[i] * d * (1 - c) for i in range(3)]


SUITE = S_()
