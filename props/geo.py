"""contracts for functions on fixed-size points and element-wise functions on lists of points"""
from .common import *

G = {}


def point(ex, st, name, n, vals=None):
    o = ex.new_obj(st, 8 * n, name)
    xs = vals or [z3.Real('%s_%d' % (name, c)) for c in range(n)]
    for c in range(n):
        ex.store(st, DBL, Ptr(o.id, 8 * c), xs[c])
    return Ptr(o.id, 0), xs


def read(ex, st, p, n):
    return [z(ex.load(st, DBL, p.at(8 * c))) for c in range(n)]


def fn(name, tu, entry, args, rel, pre=None, throws=None, divfn=False, **kw):
    """args: ('p', name, n) point in / ('io', name, n) / ('o', name, n) / ('r', name) real / ('i', name, lo, hi) integer / ('b', name)
    rel(I, O, ret) -> [(label, formula)]; I = values before, O = values after"""
    def setup(ex, st):
        I_, ptr, a = {}, {}, []
        for k, nm, *r in args:
            if k in ('p', 'io'):
                p, xs = point(ex, st, nm, r[0])
                I_[nm], ptr[nm] = xs, (p, r[0])
                a.append(p)
            elif k == 'o':
                p = out_buf(ex, st, 8 * r[0], nm)
                ptr[nm] = (p, r[0])
                a.append(p)
            elif k == 'r':
                I_[nm] = z3.Real(nm)
                a.append(I_[nm])
            elif k == 'i':
                I_[nm] = z3.Int(nm)
                st.assume(and_(r[0] <= I_[nm], I_[nm] <= r[1]))
                a.append(I_[nm])
            elif k == 'c':
                I_[nm] = r[0]
                a.append(r[0])
        ex.geo = (I_, ptr)
        if pre:
            for f in pre(I_):
                st.assume(f)
        return a

    def post(ex, st, ret):
        I_, ptr = ex.geo
        O_ = {nm: read(ex, st, p, n) for nm, (p, n) in ptr.items()}
        g = list(rel(I_, O_, ret))
        for k, nm, *r in args:
            if k == 'p':
                g.append(('%s untouched' % nm, and_(*[O_[nm][c] == I_[nm][c] for c in range(r[0])])))
        return g
    return Proof(name, entry, setup, post, tu=tu, divfn=divfn, throws=throws, **kw)


def eqs(what, got, want):
    return [('%s coordinate %d' % (what, c), g == w) for c, (g, w) in enumerate(zip(got, want))]


def dot(a, b):
    return z3.Sum([x * y for x, y in zip(a, b)])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mapping(name, tu, entry, ins, outs, args, rel, pre=None, n_out=lambda n: n, throws=None, divfn=True, callees=(), extra=None, nmin=0, **kw):
    """element-wise functions. ins: [(name, R[, shift])] input lists; outs: [(name, R)]; args: order; extra(ex, st) -> dict name -> argument"""
    def setup(ex, st):
        n = z3.Int('n')
        st.assume(and_(n >= nmin, n < 2**40))
        ps, vs = {}, {}
        for nm, Rz in ins:
            ps[nm], v = mk_vec(ex, st, n, Rz, nm)
            vs[nm] = {c: v.arr(c) for c in range(0, Rz, 8)}
        for nm, Rz in outs:
            if nm not in ps:
                ps[nm] = empty_vec(ex, st, nm)
        xt = extra(ex, st, n) if extra else {}
        ex.geo = (n, vs, ps, xt)
        if pre:
            pre(ex, st, n)
        return [ps[a] if a in ps else xt[a] if a in xt else a for a in args]

    def post(ex, st, ret):
        n, vs, ps, xt = ex.geo
        g = []
        m = n_out(n)
        V_ = {}
        for nm, Rz in outs:
            V_[nm] = vec_view(ex, st, ps[nm], Rz)
            g.append(('%s has the right length' % nm, z(V_[nm].len) == m))
        i = z3.Int('i')
        I_ = lambda nm, j: [vs[nm][c][j] for c in sorted(vs[nm])]
        O_ = lambda nm, j: [V_[nm].at(j, c) for c in range(0, dict(outs)[nm], 8)]
        for lab, f in rel(i, I_, O_, xt):
            g.append((lab, z3.ForAll([i], implies(and_(0 <= i, i < m), f))))
        return g
    return Proof(name, entry, setup, post, tu=tu, divfn=divfn, throws=throws, callees=callees, **kw)
