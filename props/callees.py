"""Contracts assumed at call sites; each is discharged for its own body in the property named."""
from .common import *
from .spec_basis import *

DB = z3.Function('DB', z3.IntSort(), z3.IntSort(), z3.RealSort())      # DB(d,m): d-th derivative of basis function m at u (on the span of u)


def vec_at(ex, st, p):
    return vec_view(ex, st, p, 8)


def num(v):
    return v.expr() if isinstance(v, Lin) else v


def find_span_contract(span, DBf=None):
    """span(ex,st,n,p,u,kview) -> ghost span term.  Discharged in C01."""
    def apply(ex, st, a):
        n, p, u, kp = a
        n, p = z(num(n)), z(num(p))
        k = vec_at(ex, st, kp)
        ex.oblige(st, 'pre:find_span: degree, pole count and knot count agree', and_(p >= 0, n >= p + 1, z(k.len) == n + p + 1))
        ex.oblige(st, 'pre:find_span: knots sorted', sorted_(k))
        ex.oblige(st, 'pre:find_span: last span of the domain not empty', k[n - 1] < k[n])
        ex.oblige(st, 'pre:find_span: first span of the domain not empty', k[p] < k[p + 1])
        s = span(kp, n, p, z(u))
        st.assume(and_(p <= s, s <= n - 1))
        st.assume(or_(and_(k[s] <= z(u), z(u) < k[s + 1]), and_(z(u) >= k[n], s == n - 1), and_(z(u) < k[p], s == p)))
        b = ex.load(st, PTR, kp)
        return b.at(Lin.of(s).scale(8).norm())
    return Contract(r'^auto gbs::find_span<double>\(', apply, 'find_span (C01)')


def _span_pre(ex, st, nm, i, p, u, k):
    ex.oblige(st, 'pre:%s: degree within the stack tables' % nm, and_(p >= 0, p <= 24))
    ex.oblige(st, 'pre:%s: span index' % nm, and_(i >= p, z(k.len) >= i + p + 1, z(k.len) >= i + 2))
    ex.oblige(st, 'pre:%s: knots sorted' % nm, sorted_(k))
    ex.oblige(st, 'pre:%s: span not empty' % nm, k[i] < k[i + 1])


def _fill(ex, st, p, n, val, nm):
    """*p[0..n) := val(index); p points into an object of doubles"""
    o = st.mem[p.o]
    if o.kind == 'cells':
        ex.to_sym(st, p.o, Lin({0: (None, 8)}, 0))
        o = st.mem[p.o]
    cap = o.len
    base = Lin.of(p.off).div(8).norm()
    base = base.expr() if isinstance(base, Lin) else base
    ex.oblige(st, 'pre:%s: room for the result' % nm, and_(z(base) >= 0, z(base) + n <= z(cap)))
    old = ex.col(st, p.o, 0, 'real')
    new = ex.fresh_arr(nm, 'real')
    st.w(p.o).cols[0] = ('real', new)
    if st.writes is not None:
        st.writes.add((p.o, ('col', 0)))
    x = z3.Int('x')
    st.assume(z3.ForAll([x], new[x] == z3.If(and_(x >= z(base), x < z(base) + n), val(x - z(base)), old[x]), patterns=[new[x]]))


def basis_contracts(D0, with_u=False):
    """D0(kptr, d, m[, u]) -> spec term for the d-th derivative of basis m (C02)"""
    def on(u):
        return (lambda kp, d, m: D0(kp, d, m, z(u))) if with_u else D0

    def funcs(ex, st, a):
        i, p, u, kp, N = a
        i, p = z(num(i)), z(num(p))
        k = vec_at(ex, st, kp)
        D = on(u)
        _span_pre(ex, st, 'basis_funcs', i, p, u, k)
        _fill(ex, st, N, p + 1, lambda r: D(kp, z3.IntVal(0), i - p + r), 'N')

    def ders1(ex, st, a):
        i, p, d, u, kp, N = a
        i, p, d = z(num(i)), z(num(p)), z(num(d))
        k = vec_at(ex, st, kp)
        D = on(u)
        _span_pre(ex, st, 'basis_ders', i, p, u, k)
        ex.oblige(st, 'pre:basis_ders: order at most the degree', and_(d >= 0, d <= p))
        _fill(ex, st, N, p + 1, lambda r: D(kp, d, i - p + r), 'Nd')

    def ders(ex, st, a):
        i, p, n, u, kp, N = a
        i, p, n = z(num(i)), z(num(p)), z(num(n))
        k = vec_at(ex, st, kp)
        D = on(u)
        _span_pre(ex, st, 'ders_basis_funs', i, p, u, k)
        ex.oblige(st, 'pre:ders_basis_funs: order at most the degree', and_(n >= 0, n <= p))
        # table of n+1 rows of p+1: entry (a,b) at a*(p+1)+b
        o = st.mem[N.o]
        if o.kind == 'cells':
            ex.to_sym(st, N.o, Lin({0: (None, 8)}, 0))
        cap = st.mem[N.o].len
        ex.oblige(st, 'pre:ders_basis_funs: room for the result', (n + 1) * (p + 1) <= z(cap))
        new = ex.fresh_arr('ders', 'real')
        st.w(N.o).cols[0] = ('real', new)
        if st.writes is not None:
            st.writes.add((N.o, ('col', 0)))
        x, y = z3.Ints('x y')
        TAB = z3.Function('TAB!%d' % next(ex.fresh_n), z3.IntSort(), z3.IntSort(), z3.RealSort())
        # stated over the basis index itself, so that the trigger holds no arithmetic
        st.assume(z3.ForAll([x, y], implies(and_(0 <= x, x <= n, i - p <= y, y <= i), new[x * (p + 1) + (y - i + p)] == D(kp, x, y)), patterns=[D(kp, x, y)]))
    def recf(ex, st, a):
        u, i, p, d, kp = a
        i, p, d = z(num(i)), z(num(p)), z(num(d))
        k = vec_at(ex, st, kp)
        D = on(u)
        ex.oblige(st, 'pre:basis_function: index inside the knots', and_(i >= 0, p >= 0, i + p + 1 < z(k.len)))
        ex.oblige(st, 'pre:basis_function: knots sorted', sorted_(k))
        return D(kp, d, i)
    return [Contract(r'^double gbs::basis_function<double>\(double, unsigned long', recf, 'basis_function, recursive (C02, bounded)'),
            Contract(r'^void gbs::basis_funcs<double>\(.*double\*\)', funcs, 'basis_funcs (C02)'),
            Contract(r'^void gbs::basis_ders<double>\(', ders1, 'basis_ders (C02; bounded for order >= 1)'),
            Contract(r'^void gbs::ders_basis_funs<double>\(', ders, 'ders_basis_funs (C02, bounded)')]


def check_curve_contract():
    """check_curve accepts sorted knots with matching sizes (validated in C21, bounded)"""
    def apply(ex, st, a):
        np_, kp, p = a
        k = vec_at(ex, st, kp)
        b = z3.Bool('check_curve!%d' % next(ex.fresh_n))
        np_, p = z(num(np_)), z(num(p))
        ok = and_(sorted_(k), z(k.len) == np_ + p + 1, np_ >= p + 1)
        st.assume(implies(ok, b))
        st.assume(implies(b, and_(z(k.len) == np_ + p + 1, np_ >= p + 1)))
        return b
    return Contract(r'^auto gbs::check_curve<double>\(', apply, 'check_curve (C21)')
