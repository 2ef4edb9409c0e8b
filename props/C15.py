"""C15: curves and surfaces derived from others"""
from .geo import *
from .C14 import ROT, rot_contract, frame, mat, nrot3, rot2
from gbsv import models as M

LEVEL = 'proof'
TU = 'derived.cpp'
PROOFS = []
SQRT, COS, SIN = M.SQRT, M.COS, M.SIN
Rl, In = z3.RealSort(), z3.IntSort()
PI = F(math.pi)

# the basis curve, surface and offset function: arbitrary functions of parameter and derivative order
CV = {(d, c): z3.Function('c%d_%d' % (d, c), In, Rl, In, Rl) for d in (1, 2, 3) for c in range(d)}
SV = [z3.Function('s_%d' % c, Rl, Rl, In, In, Rl) for c in range(3)]
OF = z3.Function('off', Rl, In, Rl)
FU = z3.Function('fun', Rl, In, Rl)


def zi(x):
    x = num_(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def num_(v):
    return v.expr() if isinstance(v, Lin) else v


def any_apply(ex, st, a):
    dim, id_, u, d, o = a
    for c in range(dim):
        ex.store(st, DBL, o.at(8 * c), CV[dim, c](z3.IntVal(id_.o), z(u), zi(d)))


def anys_apply(ex, st, a):
    id_, u, v, du, dv, o = a
    for c in range(3):
        ex.store(st, DBL, o.at(8 * c), SV[c](z(u), z(v), zi(du), zi(dv)))


def off_apply(ex, st, a):
    return OF(z(a[1]), zi(a[2]))


def fun_apply(ex, st, a):
    return FU(z(a[1]), zi(a[2]))


CALL = [Contract(r'^ab_any$', any_apply, 'arbitrary basis curve'), Contract(r'^ab_anys$', anys_apply, 'arbitrary basis surface'), Contract(r'^ab_off$', off_apply, 'arbitrary offset function'),
        Contract(r'gbs::BSCfunction<double>::operator\(\)\(double, unsigned long\) const', fun_apply, 'scalar function (C03)'), rot_contract]


def dfn(name, entry, args, rel, pre=None, throws=None, divfn=True, callees=None, models=None):
    """args additionally: ('C', name, dim) coefficients of an opaque curve, ('V', name) list"""
    gs = {}

    def setup(ex, st):
        I_, ptr, a = {}, {}, []
        for k, nm, *r in args:
            if k in ('p', 'io'):
                p, xs = point(ex, st, nm, r[0])
                I_[nm], ptr[nm] = xs, (p, r[0])
            elif k == 'o':
                p = out_buf(ex, st, 8 * r[0], nm)
                ptr[nm] = (p, r[0])
            elif k == 'r':
                p = I_[nm] = z3.Real(nm)
            elif k == 'i':
                p = I_[nm] = z3.Int(nm)
                st.assume(and_(r[0] <= p, p <= r[1]))
            elif k == 'c':
                p = I_[nm] = r[0]
            elif k == 'b':
                p = I_[nm] = z3.Bool(nm)
            elif k == 'C':
                n = z3.Int('n_' + nm)
                st.assume(and_(n >= 0, n < 2**40))
                p = mk_vec(ex, st, n, 8 * r[0], nm)[0]
                dim = r[0]
                I_[nm] = (lambda dim, oid: lambda u, d: [CV[dim, c](z3.IntVal(oid), u, zi(d)) for c in range(dim)])(dim, p.o) if dim in (2, 3) else None
            a.append(p)
        ex.geo = (I_, ptr)
        if pre:
            for f in pre(I_):
                st.assume(f)
        return a

    def post(ex, st, ret):
        I_, ptr = ex.geo
        O_ = {nm: read(ex, st, p, n) for nm, (p, n) in ptr.items()}
        return list(rel(I_, O_, ret))
    PROOFS.append(Proof(name, entry, setup, post, tu=TU, divfn=divfn, throws=(lambda ex, st: throws(ex.geo[0])) if throws else None, callees=CALL if callees is None else callees, models=models))


AB = [('r', 'a'), ('r', 'b')]
UD = [('r', 'u'), ('i', 'd', 0, 2**31)]
BO = ('o', 'bo', 2)
bnd_ = lambda I_, O_: eqs('bounds', O_['bo'], [I_['a'], I_['b']])

for n in (2, 3):
    dfn('reversed curve, dim %d' % n, 'vc_rev%d' % n, [('C', 'c', n)] + AB + UD + [('o', 'o', n), BO], lambda I_, O_, r: eqs('value', O_['o'], [z3.If(I_['d'] % 2 == 0, x, -x) for x in I_['c'](I_['a'] + I_['b'] - I_['u'], I_['d'])]) + bnd_(I_, O_))

    def ext(I_, O_, r):
        c, a, b, u, d, cl = [I_[k] for k in ('c', 'a', 'b', 'u', 'd', 'cl')]
        ins, at = c(u, d), lambda e: [z3.If(d == 0, x + y * (u - e), z3.If(d == 1, y, 0)) for x, y in zip(c(e, 0), c(e, 1))]
        lo, hi, lc, hc = at(a), at(b), c(a, d), c(b, d)
        return [('inside: the curve itself, coordinate %d' % k, implies(and_(a <= u, u <= b), O_['o'][k] == ins[k])) for k in range(len(ins))] + \
               [('before: clamped or linear, coordinate %d' % k, implies(u < a, O_['o'][k] == z3.If(cl, lc[k], lo[k]))) for k in range(len(ins))] + \
               [('after: clamped or linear, coordinate %d' % k, implies(and_(u > b, u >= a), O_['o'][k] == z3.If(cl, hc[k], hi[k]))) for k in range(len(ins))]
    dfn('extended curve, dim %d' % n, 'vc_ext%d' % n, [('C', 'c', n)] + AB + [('b', 'cl')] + UD + [('o', 'o', n)], ext)
EPS = None


def trm(I_, O_, r):
    return eqs('value', O_['o'], I_['c'](I_['u'], I_['d'])) + eqs('bounds', O_['bo'], [I_['u1'], I_['u2']]) + [('not far outside', and_(I_['u'] >= I_['u1'] - F(1, 10**6), I_['u'] <= I_['u2'] + F(1, 10**6)))]


dfn('trimmed curve', 'vc_trm3', [('C', 'c', 3)] + AB + [('r', 'u1'), ('r', 'u2')] + UD + [('o', 'o', 3), BO], trm, throws=lambda I_: [('only outside the bounds', or_(I_['u'] < I_['u1'], I_['u'] > I_['u2']))])


def cos_(k):
    def f(I_, O_, r):
        c, u = I_['c'], I_['u']
        x, y = c(u, 0)
        S = lambda i, j: [s(x, y, z3.IntVal(i), z3.IntVal(j)) for s in SV]
        if k == 0:
            w = S(0, 0)
        elif k == 1:
            x1, y1 = c(u, 1)
            w = [x1 * p + y1 * q for p, q in zip(S(1, 0), S(0, 1))]
        else:
            (x1, y1), (x2, y2) = c(u, 1), c(u, 2)
            w = [x2 * p + y2 * q + x1 * x1 * pp + 2 * x1 * y1 * pq + y1 * y1 * qq for p, q, pp, pq, qq in zip(S(1, 0), S(0, 1), S(2, 0), S(1, 1), S(0, 2))]
        return eqs('chain rule', O_['o'], w) + bnd_(I_, O_)
    return f


def never(I_, O_, r):
    return [('refused', z3.BoolVal(False))]


ok = lambda I_: [('refused', z3.BoolVal(True))]
COSA = [('C', 'c', 2)] + AB + [('C', 's', 3), ('i', 'm', 1, 2**20), ('r', 'u')]
for k in range(3):
    dfn('curve on a surface, order %d' % k, 'vc_cos', COSA + [('c', 'd', k), ('o', 'o', 3), BO], cos_(k))
dfn('curve on a surface, higher orders', 'vc_cos', COSA + [('i', 'd', 3, 2**31), ('o', 'o', 3), BO], never, throws=ok)


def rep(k):
    def f(I_, O_, r):
        c, u = I_['c'], I_['u']
        f0, f1, f2 = [FU(u, z3.IntVal(i)) for i in range(3)]
        C = lambda i: c(f0, i)
        w = C(0) if k == 0 else [x * f1 for x in C(1)] if k == 1 else [x * f2 + y * f1 * f1 for x, y in zip(C(1), C(2))]
        return eqs('chain rule', O_['o'], w)
    return f


def fn_pre(I_):
    return []


def rep_proof(name, entry, args, rel, throws=None):
    """needs a valid scalar B-spline as parameter function"""
    def setup(ex, st):
        n, p = z3.Int('n'), z3.Int('p')
        st.assume(and_(p >= 1, p < 2**20, n >= p + 1, n < 2**30))
        kp, kv = mk_vec(ex, st, n + p + 1, 8, 'k')
        pp, pv = mk_vec(ex, st, n, 8, 'P')
        cp, _ = mk_vec(ex, st, z3.Int('m'), 24, 'c')
        st.assume(and_(z3.Int('m') >= 0, z3.Int('m') < 2**40))
        a, b, u = z3.Reals('a b u')
        I_ = {'a': a, 'b': b, 'u': u, 'k': kv, 'p': p, 'n': n, 'c': lambda x, d: [CV[3, c](z3.IntVal(cp.o), x, zi(d)) for c in range(3)]}
        o = out_buf(ex, st, 24, 'o')
        ex.geo = (I_, o)
        d = {'a': a, 'b': b, 'u': u, 'k': kp, 'P': pp, 'p': p, 'c': cp, 'o': o}
        return [d[x] if isinstance(x, str) and x in d else x if isinstance(x, int) else x(st) for x in args]

    def post(ex, st, r):
        I_, o = ex.geo
        return rel(I_, {'o': read(ex, st, o, 3)} if entry == 'vc_rep3' else {'o': read(ex, st, o, 2)}, r)
    from .callees import check_curve_contract
    PROOFS.append(Proof(name, entry, setup, post, tu=TU, divfn=True, callees=CALL + [check_curve_contract()], throws=throws or (lambda ex, st: [])))


for k in range(3):
    rep_proof('reparametrized curve, order %d' % k, 'vc_rep3', ['c', 'a', 'b', 'P', 'k', 'p', 'u', k, 'o'], rep(k))
rep_proof('bounds of a reparametrized curve', 'vc_repb', ['c', 'a', 'b', 'P', 'k', 'p', 'o'], lambda I_, O_, r: eqs('bounds', O_['o'], [I_['k'][0], I_['k'][I_['n'] + I_['p']]]))


# ---- offset curves
def off2(k):
    def f(I_, O_, r):
        c, u = I_['c'], I_['u']
        c1, c2, c3 = c(u, 1), c(u, 2), c(u, 3)
        o0, o1, o2 = [OF(u, z3.IntVal(i)) for i in range(3)]
        R = dot(c1, c1)
        s = SQRT(R)
        J = lambda v: [-v[1], v[0]]
        # n = J c' / s with s^2 = R;  s' = (c'.c'') / s
        if k == 0:
            return [('coordinate %d' % i, s * (O_['o'][i] - c(u, 0)[i]) == o0 * J(c1)[i]) for i in range(2)] + bnd_(I_, O_)
        h = dot(c1, c2)
        if k == 1:
            # (o Jc'/s)' = o' Jc'/s + o Jc''/s - o Jc' h / s^3
            return [('derivative coordinate %d' % i, s * R * (O_['o'][i] - c1[i]) == o1 * J(c1)[i] * R + o0 * J(c2)[i] * R - o0 * J(c1)[i] * h) for i in range(2)] + bnd_(I_, O_)
        h1 = dot(c2, c2) + dot(c1, c3)
        return [('second derivative coordinate %d' % i, s * R * R * (O_['o'][i] - c2[i]) == (o2 * J(c1)[i] + 2 * o1 * J(c2)[i] + o0 * J(c3)[i]) * R * R - (2 * o1 * J(c1)[i] * h + 2 * o0 * J(c2)[i] * h + o0 * J(c1)[i] * h1) * R + 3 * o0 * J(c1)[i] * h * h) for i in range(2)] + bnd_(I_, O_)
    return f


def regular(I_):
    c1 = I_['c'](I_['u'], 1)
    return [dot(c1, c1) > 0]


for k in range(3):
    dfn('plane offset curve, order %d' % k, 'vc_off2', [('C', 'c', 2)] + AB + [('C', 'f', 1), ('r', 'u'), ('c', 'd', k), ('o', 'o', 2), BO], off2(k), pre=regular)


def off3(k):
    def f(I_, O_, r):
        c, u, w = I_['c'], I_['u'], I_['w']
        wn = [DIV(x, SQRT(dot(w, w))) for x in w]
        c1, c2, c3 = c(u, 1), c(u, 2), c(u, 3)
        o0, o1, o2 = [OF(u, z3.IntVal(i)) for i in range(3)]
        if k == 0:
            t = [DIV(x, SQRT(dot(c1, c1))) for x in c1]
            N = cross(wn, t)
            l = SQRT(dot(N, N))
            return [('coordinate %d' % i, l * (O_['o'][i] - c(u, 0)[i]) == N[i] * o0) for i in range(3)] + bnd_(I_, O_)
        N, N1, N2 = cross(wn, c1), cross(wn, c2), cross(wn, c3)
        l = SQRT(dot(N, N))
        n = [DIV(x, l) for x in N]
        l1 = dot(n, N1)
        n1 = [DIV(x - l1 * y, l) for x, y in zip(N1, n)]
        if k == 1:
            return eqs('derivative', O_['o'], [x + y * o0 + v * o1 for x, y, v in zip(c1, n1, n)]) + bnd_(I_, O_)
        l2 = dot(n1, N1) + dot(n, N2)
        n2 = [DIV(x - l2 * y - 2 * l1 * v, l) for x, y, v in zip(N2, n, n1)]
        return eqs('second derivative', O_['o'], [x + q * o0 + 2 * o1 * v + y * o2 for x, q, v, y in zip(c2, n2, n1, n)]) + bnd_(I_, O_)
    return f


def regular3(I_):
    c1, w = I_['c'](I_['u'], 1), I_['w']
    x = cross(w, c1)
    wn = [DIV(y, SQRT(dot(w, w))) for y in w]
    t = [DIV(y, SQRT(dot(c1, c1))) for y in c1]
    N, M_ = cross(wn, c1), cross(wn, t)
    return [dot(w, w) > 0, dot(c1, c1) > 0, dot(x, x) > 0, dot(N, N) > 0, dot(M_, M_) > 0]


for k in range(3):
    dfn('offset curve in space, order %d' % k, 'vc_off3', [('C', 'c', 3)] + AB + [('C', 'f', 1), ('p', 'w', 3), ('r', 'u'), ('c', 'd', k), ('o', 'o', 3), BO], off3(k), pre=regular3)


# ---- lines and circles
def line(I_, O_, r):
    v = [y - x for x, y in zip(I_['p'], I_['q'])]
    e = [DIV(x, SQRT(dot(v, v))) for x in v]
    return eqs('value', O_['o'], [z3.If(I_['d'] == 0, x + I_['u'] * y, z3.If(I_['d'] == 1, y, 0)) for x, y in zip(I_['p'], e)])


def linea(I_, O_, r):
    v = [(x + y) - x for x, y in zip(I_['p'], I_['q'])]
    e = [DIV(x, SQRT(dot(v, v))) for x in v]
    return eqs('value', O_['o'], [z3.If(I_['d'] == 0, x + I_['u'] * y, z3.If(I_['d'] == 1, y, 0)) for x, y in zip(I_['p'], e)])


apart = lambda I_: [z3.Sum([(y - x) * (y - x) for x, y in zip(I_['p'], I_['q'])]) > 0]
for n in (2, 3):
    dfn('line through two points, dim %d' % n, 'vc_line%d' % n, [('p', 'p', n), ('p', 'q', n)] + UD + [('o', 'o', n)], line, pre=apart)
dfn('line from an axis', 'vc_linea', [('p', 'p', 3), ('p', 'q', 3)] + UD + [('o', 'o', 3)], linea, pre=lambda I_: [dot(I_['q'], I_['q']) > 0])
dfn('bounds of a line', 'vc_lineb', [('p', 'p', 3), ('p', 'q', 3), ('o', 'o', 2)], lambda I_, O_, r: [('open on both sides', and_(O_['o'][0] < -10**30, O_['o'][1] > 10**30))], pre=apart)


def ang(I_):
    return I_['u'] + z3.ToReal(I_['d']) * (PI / 2)


def cir2(I_, O_, r):
    a = ang(I_)
    return eqs('value', O_['o'], [z3.If(I_['d'] == 0, c, 0) + I_['r'] * t for c, t in zip(I_['c'], (COS(a), SIN(a)))])


dfn('circle in the plane', 'vc_cir2', [('r', 'r'), ('p', 'c', 2)] + UD + [('o', 'o', 2)], cir2, pre=lambda I_: [I_['r'] > 0])
dfn('circle in the plane after setR', 'vc_cir2r', [('r', 'r0'), ('r', 'r'), ('p', 'c', 2)] + UD + [('o', 'o', 2)], cir2, pre=lambda I_: [I_['r0'] > 0, I_['r'] > 0])


def cir3(I_, O_, r):
    n = SQRT(dot(I_['x'], I_['x']))
    x = [DIV(I_['r'], n) * y for y in I_['x']]
    v = [f(*x, ang(I_), *I_['z']) for f in ROT]
    return eqs('value', O_['o'], [z3.If(I_['d'] == 0, c, 0) + y for c, y in zip(I_['c'], v)])


dfn('circle in space', 'vc_cir3', [('r', 'r'), ('p', 'c', 3), ('p', 'z', 3), ('p', 'x', 3)] + UD + [('o', 'o', 3)], cir3, pre=lambda I_: [I_['r'] > 0, dot(I_['x'], I_['x']) > 0, dot(I_['z'], I_['z']) > 0])
dfn('start of a circle given by its axis', 'vc_cir3a', [('r', 'r'), ('p', 'c', 3), ('p', 'z', 3), ('o', 'o', 3)],
    lambda I_, O_, r: [('orthogonal to the axis', dot(O_['o'], I_['z']) == 0), ('at the radius', dot(O_['o'], O_['o']) == I_['r'] * I_['r'])], pre=lambda I_: [I_['r'] > 0, dot(I_['z'], I_['z']) > 0])


# ---- composite curves
def comp(I_, O_, r):
    a, b, u, d = I_['a'], I_['b'], I_['u'], I_['d']
    U = [a[0]]
    for i in range(3):
        U.append(U[-1] + (b[i] - a[i]))
    C = [I_['c%d' % i] for i in range(3)]
    v = [C[i](u - U[i] + a[i], d) for i in range(3)]
    g = [('bounds start', O_['bo'][0] == U[0]), ('bounds end', O_['bo'][1] == U[3])]
    for c in range(3):
        g.append(('value coordinate %d' % c, O_['o'][c] == z3.If(u < U[1], v[0][c], z3.If(u < U[2], v[1][c], v[2][c]))))
    return g


dfn('composite curve', 'vc_comp', [('C', 'c%d' % i, 3) for i in range(3)] + [('p', 'a', 3), ('p', 'b', 3)] + UD + [('o', 'o', 3), BO], comp, pre=lambda I_: [x < y for x, y in zip(I_['a'], I_['b'])])


# ---- surface of revolution
def sor(du, dv):
    def f(I_, O_, r):
        x, y = I_['c'](I_['u'], du)
        Z = [DIV(t, SQRT(dot(I_['ax'], I_['ax']))) for t in I_['ax']]
        X = [DIV(t, SQRT(dot(I_['x'], I_['x']))) for t in I_['x']]
        q = [y * s + x * t for s, t in zip(X, Z)]       # the plane of the curve: abscissa along the axis, ordinate along the secondary direction
        w = M.FMOD(I_['v'], z3.RealVal(2 * PI))
        rot = lambda p, a: [g(*p, z(a), *Z) for g in ROT]
        if dv:
            q = rot(cross(Z, q), z3.RealVal((dv - 1) * PI / 2))
        q = rot(q, w)
        return eqs('value', O_['o'], [t + (p if du == 0 and dv == 0 else 0) for t, p in zip(q, I_['p'])]) + eqs('bounds', O_['bo'], [I_['a'], I_['b'], I_['a1'], I_['a2']])
    return f


for du in range(3):
    for dv in range(3):
        dfn('surface of revolution, orders %d, %d' % (du, dv), 'vc_sor', [('C', 'c', 2)] + AB + [('p', 'p', 3), ('p', 'ax', 3), ('p', 'x', 3), ('r', 'a1'), ('r', 'a2'), ('r', 'u'), ('r', 'v'), ('c', 'du', du), ('c', 'dv', dv), ('o', 'o', 3), ('o', 'bo', 4)], sor(du, dv),
            pre=lambda I_: [dot(I_['ax'], I_['ax']) > 0, dot(I_['x'], I_['x']) > 0])


# ---- services of the base class
dfn('ends and middle of a curve', 'vc_base', [('C', 'c', 3)] + AB + [('i', 'd', 0, 2**31), ('o', 'o0', 3), ('o', 'o1', 3), ('o', 'm', 1)],
    lambda I_, O_, r: eqs('begin', O_['o0'], I_['c'](I_['a'], I_['d'])) + eqs('end', O_['o1'], I_['c'](I_['b'], I_['d'])) + [('middle', 2 * O_['m'][0] == I_['a'] + I_['b'])])


def ddm(I_, O_, r):
    c1, c2 = I_['c'](I_['u'], 1), I_['c'](I_['u'], 2)
    N, h = dot(c1, c1), dot(c1, c2)
    return [('unit tangent coordinate %d' % i, SQRT(N) * O_['o1'][i] == c1[i]) for i in range(3)] + [('curvature vector coordinate %d' % i, O_['o2'][i] * (N * N) == c2[i] * N - c1[i] * h) for i in range(3)]


dfn('derivatives along the arc length', 'vc_ddm', [('C', 'c', 3)] + AB + [('r', 'u'), ('o', 'o1', 3), ('o', 'o2', 3)], ddm, pre=regular)
dfn('normal direction in the plane', 'vc_nd2', [('C', 'c', 2)] + AB + [('r', 'u'), ('o', 'o', 2)], lambda I_, O_, r: (lambda c1: [('coordinate %d' % i, SQRT(dot(c1, c1)) * O_['o'][i] == [-c1[1], c1[0]][i]) for i in range(2)])(I_['c'](I_['u'], 1)), pre=regular)


# ---- lists and tables of derivatives
def list_proof(name, entry, outs, f, extra_args=()):
    def setup(ex, st):
        n, m = z3.Int('n'), z3.Int('m')
        st.assume(and_(n >= 0, n < 2**40, m >= 0, m < 2**40))
        cp, _ = mk_vec(ex, st, m, 24, 'c')
        up, uv = mk_vec(ex, st, n, 8, 'u')
        a, b = z3.Reals('a b')
        d = z3.Int('d')
        st.assume(and_(d >= 0, d < 2**31))
        o = [empty_vec(ex, st, 'o%d' % i) for i in range(outs)]
        C = lambda x, k: [CV[3, c](z3.IntVal(cp.o), x, zi(k)) for c in range(3)]
        i = z3.Int('i')
        if entry == 'vc_ddms':
            c1 = C(uv[i], 1)
            st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), dot(c1, c1) > 0), patterns=[uv[i]]))
        ex.geo = (C, uv.arr(), n, d, o)
        return [cp, a, b, up] + ([d] if entry == 'vc_vals' else []) + o

    def post(ex, st, r):
        C, U, n, d, o = ex.geo
        g = []
        i = z3.Int('i')
        for j, p in enumerate(o):
            w = vec_view(ex, st, p, 24)
            g.append(('list %d: one result per parameter' % j, z(w.len) == n))
            for lab, e in f(j, C, U[i], d, [w.at(i, 8 * c) for c in range(3)]):
                g.append(('list %d: %s' % (j, lab), z3.ForAll([i], implies(and_(0 <= i, i < n), e))))
        return g
    PROOFS.append(Proof(name, entry, setup, post, tu=TU, divfn=True, callees=CALL))


list_proof('values at a list of parameters', 'vc_vals', 1, lambda j, C, u, d, o: eqs('value', o, C(u, d)))


def ddms(j, C, u, d, o):
    c1, c2 = C(u, 1), C(u, 2)
    N, h = dot(c1, c1), dot(c1, c2)
    if j == 0:
        return [('unit tangent %d' % c, o[c] == c1[c] / SQRT(N)) for c in range(3)]
    return [('curvature vector %d' % c, o[c] == (c2[c] * N - c1[c] * h) / (N * N)) for c in range(3)]


list_proof('arc length derivatives at a list of parameters', 'vc_ddms', 2, ddms)


class S_(Suite):
    tu = TU
    rule = 'basis curves and surfaces are random polynomials (exact derivatives); derived objects are compared with the defining formulas evaluated in exact rationals or high accuracy, first and second derivatives also with central differences of the evaluated object; parameters at, inside and outside the bounds'

    def cases(self, rng, tier):
        N = {'quick': 250, 'thorough': 4000, 'search': 2500}[tier]
        q = lambda s=4: rng.randrange(-8 * s, 8 * s + 1) / 8.
        pol = lambda n, k: [[q() for _ in range(k)] for _ in range(n)]

        def nzv(k=3):
            while True:
                x = [q() if rng.random() > 0.2 else 0. for _ in range(k)]
                if any(x):
                    return x
        for it in range(N):
            a = q()
            b = a + rng.choice([0.5, 1., 3., 0.125])
            us = [a, b, a + (b - a) * rng.random(), a - rng.random() * 2, b + rng.random() * 2]
            yield 'simple', (pol(rng.randrange(1, 6), 3), a, b, rng.choice(us), rng.randrange(5), rng.random() < 0.5)
            yield 'chain', (pol(rng.randrange(1, 5), 2), a, b, pol(12, 3), rng.choice([3, 4]), pol(rng.randrange(1, 4), 1), us[2])
            yield 'offset', (pol(rng.randrange(2, 5), 3), a, b, [q() for _ in range(rng.randrange(1, 4))], nzv(), us[2])
            yield 'lines', (nzv(), nzv(), nzv(), abs(q()) + 0.125, rng.uniform(-9, 9), rng.randrange(5), abs(q()) + 0.25)
            aa = [q() for _ in range(3)]
            bb = [x + rng.choice([0.5, 1., 2.25]) for x in aa]
            L = sum(y - x for x, y in zip(aa, bb))
            cut = [aa[0], aa[0] + bb[0] - aa[0], aa[0] + bb[0] - aa[0] + bb[1] - aa[1], aa[0] + L]
            yield 'composite', ([pol(rng.randrange(1, 5), 3) for _ in range(3)], aa, bb, rng.choice(cut + [aa[0] + rng.random() * L] * 3 + [aa[0] - 0.5, aa[0] + L + 0.5]), rng.randrange(3))
            yield 'revolution', (pol(rng.randrange(2, 5), 2), a, b, nzv(), nzv(), nzv(), us[2], rng.uniform(-9, 9), rng.randrange(3), rng.randrange(4), q(), q())
            yield 'base', (pol(rng.randrange(2, 5), 3), a, b, [a + (b - a) * rng.random() for _ in range(rng.randrange(0, 9))], rng.randrange(4))

    def same(self, got, want, what, tol=1e-9, scale=None):
        sc = max([1.] + [abs(float(x)) for x in want]) if scale is None else scale
        for i, (x, y) in enumerate(zip(got, want)):
            if not abs(float(x) - float(y)) <= tol * sc:
                self.fail('%s: coordinate %d is %r, expected %r' % (what, i, float(x), float(y)))

    def run(self, lib, g, c):
        def call(f, *a):
            return self.ok(lib.call(f, list(a))).out

        def ev(P, u, d=0):
            n = len(P[0])
            r = [F(0)] * n
            u = F(u)
            for i in range(d, len(P)):
                f = math.perm(i, d)
                for k in range(n):
                    r[k] += f * F(P[i][k]) * u ** (i - d)
            return [float(x) for x in r]
        if g == 'simple':
            P, a, b, u, d, cl = c
            o = call('vc_rev3', Vec(P, 3), a, b, u, d, Out(3), Out(2))
            self.same(o[5], [(-1) ** d * x for x in ev(P, a + b - u, d)], 'reversed curve', scale=1e4)
            self.same(o[6], [a, b], 'bounds of a reversed curve')
            P2 = [x[:2] for x in P]
            o = call('vc_rev2', Vec(P2, 2), a, b, u, d, Out(2), Out(2))
            self.same(o[5], [(-1) ** d * x for x in ev(P2, a + b - u, d)], 'reversed curve', scale=1e4)
            r = lib.call('vc_trm3', [Vec(P, 3), a - 1, b + 1, a, b, u, d, Out(3), Out(2)])
            if r.rc:
                if a <= u <= b:
                    self.fail('trimmed curve refuses a parameter inside its bounds')
            else:
                if u < a - 1e-6 or u > b + 1e-6:
                    self.fail('trimmed curve accepts a parameter outside its bounds')
                self.same(r.out[7], ev(P, u, d), 'trimmed curve', scale=1e4)
                self.same(r.out[8], [a, b], 'bounds of a trimmed curve')
            for f, Q in (('vc_ext3', P), ('vc_ext2', P2)):
                o = call(f, Vec(Q, len(Q[0])), a, b, cl, u, d, Out(len(Q[0])))[6]
                e = a if u < a else b
                if a <= u <= b:
                    w = ev(Q, u, d)
                elif cl:
                    w = ev(Q, e, d)
                else:
                    w = [x + y * (u - e) for x, y in zip(ev(Q, e), ev(Q, e, 1))] if d == 0 else ev(Q, e, 1) if d == 1 else [0.] * len(Q[0])
                self.same(o, w, 'extended curve (%s)' % ('clamped' if cl else 'linear'), scale=1e4)
        elif g == 'chain':
            P, a, b, Sf, m, fp, u = c
            Sf = Sf[:m * (len(Sf) // m)]

            def sv(x, y, i, j):
                r = [F(0)] * 3
                for k, p in enumerate(Sf):
                    s, t = k % m, k // m
                    if s >= i and t >= j:
                        w = math.perm(s, i) * math.perm(t, j) * F(x) ** (s - i) * F(y) ** (t - j)
                        r = [z_ + w * F(v) for z_, v in zip(r, p)]
                return [float(x) for x in r]
            (x, y), (x1, y1), (x2, y2) = ev(P, u), ev(P, u, 1), ev(P, u, 2)
            W = [sv(x, y, 0, 0), [x1 * p + y1 * q for p, q in zip(sv(x, y, 1, 0), sv(x, y, 0, 1))],
                 [x2 * p + y2 * q + x1 * x1 * pp + 2 * x1 * y1 * pq + y1 * y1 * qq for p, q, pp, pq, qq in zip(sv(x, y, 1, 0), sv(x, y, 0, 1), sv(x, y, 2, 0), sv(x, y, 1, 1), sv(x, y, 0, 2))]]
            for d in range(3):
                o = call('vc_cos', Vec(P, 2), a, b, Vec(Sf, 3), m, u, d, Out(3), Out(2))
                sc = 1 + (1 + max(abs(t) for t in (x, y, x1, y1, x2, y2))) ** 8
                self.same(o[7], W[d], 'curve on a surface, derivative %d' % d, scale=sc)
                self.same(o[8], [a, b], 'bounds of a curve on a surface')
            if not lib.call('vc_cos', [Vec(P, 2), a, b, Vec(Sf, 3), m, u, 3, Out(3), Out(2)]).rc:
                self.fail('curve on a surface: order 3 is not refused')
            # a Bezier segment as parameter function
            n = len(fp)
            if n >= 2:
                p = n - 1
                k = [a] * n + [b] * n
                t = (F(u) - F(a)) / (F(b) - F(a))

                def bez(pp, d):
                    if d == 0:
                        k_ = len(pp) - 1
                        return sum(math.comb(k_, i) * t ** i * (1 - t) ** (k_ - i) * pp[i] for i in range(k_ + 1))
                    k_ = len(pp) - 1
                    return F(0) if k_ == 0 else bez([k_ * (pp[i + 1] - pp[i]) / (F(b) - F(a)) for i in range(k_)], d - 1)
                f0, f1, f2 = [float(bez([F(v[0]) for v in fp], d)) for d in range(3)]
                Q = [list(v) + [1.] for v in P]
                W = [ev(Q, f0), [v * f1 for v in ev(Q, f0, 1)], [v * f2 + w * f1 * f1 for v, w in zip(ev(Q, f0, 1), ev(Q, f0, 2))]]
                for d in range(3):
                    self.same(call('vc_rep3', Vec(Q, 3), a, b, Vec(fp, 1), Vec(k), p, u, d, Out(3))[8], W[d], 'reparametrized curve, derivative %d' % d, scale=1 + (1 + abs(f0)) ** 5 * (1 + abs(f1)) ** 2 * 100)
                self.same(call('vc_repb', Vec(Q, 3), a, b, Vec(fp, 1), Vec(k), p, Out(2))[6], [a, b], 'bounds of a reparametrized curve')
        elif g == 'offset':
            P, a, b, f, w, u = c
            off = [sum(math.perm(i, d) * f[i] * u ** (i - d) for i in range(d, len(f))) for d in range(3)]
            cr = lambda p, q: [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
            dt = lambda p, q: sum(s * t for s, t in zip(p, q))

            def normal(N, N1, N2):
                l = math.sqrt(dt(N, N))
                n = [t / l for t in N]
                l1 = dt(n, N1)
                n1 = [(s - l1 * t) / l for s, t in zip(N1, n)]
                l2 = dt(n1, N1) + dt(n, N2)
                return n, n1, [(r - l2 * s - 2 * l1 * t) / l for r, s, t in zip(N2, n, n1)]
            for dim in (2, 3):
                Q = [x[:dim] for x in P]
                D = [ev(Q, u, d) for d in range(4)]
                N = [[-x[1], x[0]] for x in D[1:]] if dim == 2 else [cr(w, x) for x in D[1:]]
                s = math.sqrt(dt(D[1], D[1]))
                if s < 1e-2 or math.sqrt(dt(N[0], N[0])) < 1e-2 * s:
                    continue
                n, n1, n2 = normal(*N)
                W = [[x + off[0] * y for x, y in zip(D[0], n)], [x + off[0] * y + off[1] * t for x, y, t in zip(D[1], n1, n)], [x + off[0] * y + 2 * off[1] * t + off[2] * v for x, y, t, v in zip(D[2], n2, n1, n)]]
                mag = 1 + max(abs(x) for v in D + N + [n1, n2] for x in v) ** 2 * (1 + max(map(abs, off))) / min(1, s) ** 4
                for d in range(3):
                    o = call('vc_off2', Vec(Q, 2), a, b, Vec(f), u, d, Out(2), Out(2)) if dim == 2 else call('vc_off3', Vec(Q, 3), a, b, Vec(f), w, u, d, Out(3), Out(2))
                    self.same(o[6 if dim == 2 else 7], W[d], 'offset curve in dimension %d, derivative %d' % (dim, d), scale=mag)
        elif g == 'lines':
            p, q, x, r, u, d, r2 = c
            v = [t - s for s, t in zip(p, q)]
            l = math.sqrt(sum(t * t for t in v))
            e = [t / l for t in v] if l else None
            if l > 1e-3:
                w = lambda P_, E: [s + u * t for s, t in zip(P_, E)] if d == 0 else E if d == 1 else [0.] * len(E)
                self.same(call('vc_line3', p, q, u, d, Out(3))[4], w(p, e), 'line')
                lq = math.sqrt(sum(t * t for t in q))
                self.same(call('vc_linea', p, q, u, d, Out(3))[4], w(p, [t / lq for t in q]), 'line from an axis')
                bo = call('vc_lineb', p, q, Out(2))[2]
                if not (bo[0] < -1e30 and bo[1] > 1e30):
                    self.fail('bounds of a line: %r' % list(bo))
            l2 = math.hypot(*v[:2])
            if l2 > 1e-3:
                e = [t / l2 for t in v[:2]]
                self.same(call('vc_line2', p[:2], q[:2], u, d, Out(2))[4], [s + u * t for s, t in zip(p, e)] if d == 0 else e if d == 1 else [0., 0.], 'line')
            al = u + d * math.pi / 2
            z0 = 1. if d == 0 else 0.
            for f, ar in (('vc_cir2', [r]), ('vc_cir2r', [r2, r])):
                k = len(ar)
                self.same(call(f, *ar, p[:2], u, d, Out(2))[k + 3], [z0 * p[0] + r * math.cos(al), z0 * p[1] + r * math.sin(al)], 'circle in the plane')
            self.same(call('vc_cirb', r, p[:2], Out(2))[2], [0, 2 * math.pi], 'bounds of a circle')
            X = call('vc_cir3a', r, p, q, Out(3))[3]
            lq = math.sqrt(sum(t * t for t in q))
            if abs(sum(s * t for s, t in zip(X, q))) > 1e-9 * lq * r or abs(math.sqrt(sum(t * t for t in X)) - r) > 1e-9 * r:
                self.fail('circle given by its axis starts at %r: not orthogonal to the axis at the radius' % list(X))
            self.same(call('vc_cir3v', r, p, q, u, d, Out(3))[5], [z0 * s + t for s, t in zip(p, nrot3(list(X), al, q))], 'circle given by its axis')
            # an axis system with x orthogonal to z
            h = sum(s * t for s, t in zip(q, x)) / lq ** 2
            xo = [s - h * t for s, t in zip(x, q)]
            lx = math.sqrt(sum(t * t for t in xo))
            if lx > 1e-3:
                self.same(call('vc_cir3', r, p, q, xo, u, d, Out(3))[6], [z0 * s + t for s, t in zip(p, nrot3([t * r / lx for t in xo], al, q))], 'circle in space')
        elif g == 'composite':
            Ps, aa, bb, u, d = c
            U = [aa[0]]
            for s, t in zip(aa, bb):
                U.append(U[-1] + (t - s))
            r = lib.call('vc_comp', [Vec(P, 3) for P in Ps] + [aa, bb, u, d, Out(3), Out(2)])
            self.ok(r)
            i = 0 if u < U[1] else 1 if u < U[2] else 2
            self.same(r.out[8], [U[0], U[3]], 'bounds of a composite curve')
            self.same(r.out[7], ev(Ps[i], u - U[i] + aa[i], d), 'composite curve, piece %d' % i, scale=1e4)
        elif g == 'revolution':
            P, a, b, o, ax, x, u, v, du, dv, a1, a2 = c
            n = math.sqrt(sum(t * t for t in ax))
            Z = [t / n for t in ax]
            h = sum(s * t for s, t in zip(Z, x))
            X = [s - h * t for s, t in zip(x, Z)]
            l = math.sqrt(sum(t * t for t in X))
            if l < 1e-3:
                return
            xs = X
            X = [t / l for t in X]
            Y = [Z[1] * X[2] - Z[2] * X[1], Z[2] * X[0] - Z[0] * X[2], Z[0] * X[1] - Z[1] * X[0]]
            p, q = ev(P, u, du)
            al = v + dv * math.pi / 2
            w = [q * (math.cos(al) * s + math.sin(al) * t) + (p * zc if dv == 0 else 0) for s, t, zc in zip(X, Y, Z)]
            if du == 0 and dv == 0:
                w = [s + t for s, t in zip(w, o)]
            r = call('vc_sor', Vec(P, 2), a, b, o, ax, xs, a1, a2, u, v, du, dv, Out(3), Out(4))
            self.same(r[12], w, 'surface of revolution, orders (%d,%d)' % (du, dv), scale=1e3)
            self.same(r[13], [a, b, a1, a2], 'bounds of a surface of revolution')
        elif g == 'base':
            P, a, b, us, d = c
            o = call('vc_base', Vec(P, 3), a, b, d, Out(3), Out(3), Out(1))
            self.same(o[4], ev(P, a, d), 'begin', scale=1e4)
            self.same(o[5], ev(P, b, d), 'end', scale=1e4)
            self.same(o[6], [(a + b) / 2], 'midPosition')
            o = call('vc_vals', Vec(P, 3), a, b, Vec(us), d, Vec([], 3))[5]
            if len(o) != len(us):
                self.fail('values: %d results for %d parameters' % (len(o), len(us)))
            for x, u in zip(o, us):
                self.same(x, ev(P, u, d), 'values', scale=1e4)
            if us:
                o = call('vc_ders', Vec(P, 3), a, b, us[0], d, Vec([], 3))[5]
                for k in range(d + 1):
                    self.same(o[k], ev(P, us[0], k), 'derivatives', scale=1e4)
            g1 = [math.sqrt(sum(t * t for t in ev(P, u, 1))) for u in us]
            if all(t > 1e-2 for t in g1):
                o = call('vc_ddms', Vec(P, 3), a, b, Vec(us), Vec([], 3), Vec([], 3))
                for j, u in enumerate(us):
                    c1, c2 = ev(P, u, 1), ev(P, u, 2)
                    N, h = sum(t * t for t in c1), sum(s * t for s, t in zip(c1, c2))
                    w1, w2 = [t / g1[j] for t in c1], [(t * N - s * h) / (N * N) for s, t in zip(c1, c2)]
                    self.same(o[4][j], w1, 'unit tangent')
                    self.same(o[5][j], w2, 'curvature vector', scale=1 + max(map(abs, c2)) / min(1, N) ** 2)
                    q = call('vc_ddm', Vec(P, 3), a, b, u, Out(3), Out(3))
                    self.same(q[4], w1, 'unit tangent')
                    self.same(q[5], w2, 'curvature vector', scale=1 + max(map(abs, c2)) / min(1, N) ** 2)


SUITE = S_()
