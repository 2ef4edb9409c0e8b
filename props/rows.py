"""Operations of a surface made of the same operation on every row (or column) of its pole grid.

The operation on one curve is used by its contract only: it depends on the curve's knots, poles and the
arguments.  R(j, i) names pole i of the j-th edited row; W and M the edited knots and their number of poles."""
from .grid import *
from .callees import num, check_curve_contract


class Rows:
    """along: 0 (U) or 1 (V); up: the change of degree"""

    def __init__(self, dim, along, up=0):
        self.dim, self.along, self.up = dim, along, up

    def setup(self, entry_args, pre=None):
        def f(ex, st):
            nu, nv, p, q, N, M, N2 = z3.Ints('nu nv p q N M N2')
            dim = self.dim
            st.assume(and_(p >= 1, q >= 1, p < 2**28, q < 2**28, nu >= p + 1, nv >= q + 1, nu < 2**28, nv < 2**28, N == nu * nv, N == nv * nu, N >= 1, N < 2**56))
            n, m, d = (nv, nu, q) if self.along else (nu, nv, p)        # n: along the operation, m: the other direction
            st.assume(and_(M >= 1, M < 2**30, N2 == M * m, N2 == m * M, N2 < 2**60, N2 >= 1))
            for a, b, t in ((nu, nv, N), (nv, nu, N), (M, m, N2), (m, M, N2)):
                grid(st, a, b, t)
                rows(st, a, b)
                row_facts(st, a, b, t)
            kup, ku = mk_vec(ex, st, nu + p + 1, 8, 'ku')
            kvp, kv = mk_vec(ex, st, nv + q + 1, 8, 'kv')
            for k, a in ((ku, nu + p), (kv, nv + q)):
                st.assume(sorted_(k))
                st.assume(k[0] < k[a])
            pp, P = mk_vec(ex, st, N, 8 * dim, 'P')
            self.__dict__.update(nu=nu, nv=nv, p=p, q=q, N=N, M=M, N2=N2, n=n, m=m, d=d, ku=ku.arr(), kv=kv.arr(), P=[P.arr(8 * c) for c in range(dim)], kup=kup, kvp=kvp, pp=pp,
                                 W=z3.Array('Wrow', I_, z3.RealSort()), R=[z3.Function('R%d' % c, I_, I_, z3.RealSort()) for c in range(dim)], a=z3.Real('a'), c=z3.Real('c'), row=None, ret=z3.Int('ret'), r=z3.Int('r'))
            st.assume(and_(self.r >= 0, self.r < 2**30, self.ret >= 0, self.ret < 2**60))
            if pre:
                st.assume(pre(self, self.kv if self.along else self.ku))
            return entry_args(self, ex, st)
        return f

    def cell(self, j, i):
        """index in the poles of the original surface of point i of row j"""
        return IX(self.nu, j, i) if self.along else IX(self.nu, i, j)

    def op_contract(self, rx, name, pick, want, ret=False, facts=None, pre=None):
        """pick(args) -> (degree, knots, poles, scalars); want(self) -> the expected scalars"""
        def apply(ex, st, a):
            dg, up, pp, sc = pick(a)
            U, P = vec_view(ex, st, up, 8), vec_view(ex, st, pp, 8 * self.dim)
            k0 = self.kv if self.along else self.ku
            self.row = st.ghost.get('row')
            if self.row is None:
                ex.oblige(st, 'pre:%s: called for a row' % name, False)
                return None
            j, n, d = self.row, self.n, self.d
            ex.oblige(st, 'pre:%s: degree and sizes' % name, and_(z(num(dg)) == d, z(P.len) == n, z(U.len) == n + d + 1))
            ex.oblige(st, 'pre:%s: the arguments are those given' % name, and_(*[z(x) == y for x, y in zip(sc, want(self))]))
            ex.oblige(st, 'pre:%s: the knots are those of the surface' % name, forall(1, lambda i: implies(and_(0 <= i, i <= n + d), U[i] == k0[i])))
            if pre:
                ex.oblige(st, 'pre:%s: the requirements of the operation' % name, pre(self, U))
            for c in range(self.dim):
                ex.oblige(st, 'pre:%s: the poles are those of the row, coordinate %d' % (name, c), forall(1, lambda i: implies(and_(0 <= i, i < n, IX(n, i, j) == IX(n, 0, j) + i), P.at(i, 8 * c) == self.P[c][self.cell(j, i)])))
            if facts:
                st.assume(facts(self))
            W = set_vec(ex, st, up, self.M + d + self.up + 1, 8, 'Urow')
            Q = set_vec(ex, st, pp, self.M, 8 * self.dim, 'Qrow')
            st.assume(forall(1, lambda i: implies(and_(0 <= i, i <= self.M + d + self.up), W[i] == self.W[i]), lambda i: [W[i]]))
            for c in range(self.dim):
                st.assume(forall(1, lambda i: implies(and_(0 <= i, i < self.M), Q.at(i, 8 * c) == self.R[c](j, i)), lambda i: [Q.at(i, 8 * c)]))
            return self.ret if ret else None
        return Contract(rx, apply, name)

    def inv(self, jn, pn, kn=None, first=None, extra=None):
        """loop over rows: j rows of the list pn done; the edited knots are in kn once a row is done"""
        def f(L):
            j = z(L.int(jn))
            self.row = L.st.ghost['row'] = j
            Q = L.vec(pn, 8 * self.dim)
            g = [('j', and_(0 <= j, j <= self.m)), ('row', and_(implies(j < self.m, and_(IX(self.M, 0, j) == self.M * j, IX(self.n, 0, j) == self.n * j)))), ('size', z(Q.len) == z3.If(j == self.m, self.N2, IX(self.M, 0, j)))]
            g += [('rows so far, coordinate %d' % c, forall(2, lambda a, b: implies(and_(0 <= a, a < self.M, 0 <= b, b < j), Q.at(IX(self.M, a, b), 8 * c) == self.R[c](b, a)), lambda a, b: [IX(self.M, a, b)])) for c in range(self.dim)]
            if kn:
                U = L.vec(kn, 8)
                g += [('knots', implies(j > 0, and_(z(U.len) == self.M + self.d + self.up + 1, forall(1, lambda i: implies(and_(0 <= i, i <= self.M + self.d + self.up), U[i] == self.W[i]), lambda i: [U[i]]))))]
            return g + (extra(L, j) if extra else [])
        return f

    def inv_column(self, L):
        """polesV: copying one column"""
        o = L.vec('poles_', 8 * self.dim)
        j, i = z(L.int('j')), self.row
        return [('j', and_(0 <= j, j <= self.nv)), ('size', z(o.len) == self.nv), ('cell', implies(j < self.nv, IX(self.nu, i, j) == i + self.nu * j))] + \
               [('column so far, coordinate %d' % c, forall(1, lambda x: implies(and_(0 <= x, x < j), o.at(x, 8 * c) == self.P[c][IX(self.nu, i, x)]), lambda x: [o.at(x, 8 * c)])) for c in range(self.dim)]

    def post(self, bounds=None):
        def f(ex, st, r):
            k1, k2, P1 = vec_view(ex, st, self.kup, 8), vec_view(ex, st, self.kvp, 8), vec_view(ex, st, self.pp, 8 * self.dim)
            e, o = (k2, k1) if self.along else (k1, k2)
            no, do, ko = (self.nu, self.p, self.ku) if self.along else (self.nv, self.q, self.kv)
            g = [('number of knots along the operation', z(e.len) == self.M + self.d + self.up + 1), ('knots along the operation', forall(1, lambda i: implies(and_(0 <= i, i <= self.M + self.d + self.up), e[i] == self.W[i]))),
                 ('knots of the other direction are kept', and_(z(o.len) == no + do + 1, forall(1, lambda i: implies(and_(0 <= i, i <= no + do), o[i] == ko[i])))), ('number of poles', z(P1.len) == self.N2)]
            for c in range(self.dim):
                if self.along:
                    g.append(('every column is edited by itself, coordinate %d' % c, forall(2, lambda i, j: implies(and_(0 <= i, i < self.nu, 0 <= j, j < self.M), P1.at(IX(self.nu, i, j), 8 * c) == self.R[c](i, j)))))
                else:
                    g.append(('every row is edited by itself, coordinate %d' % c, forall(2, lambda i, j: implies(and_(0 <= i, i < self.M, 0 <= j, j < self.nv), P1.at(IX(self.M, i, j), 8 * c) == self.R[c](j, i)))))
            if bounds:
                b = [z(ex.load(st, DBL, self.b.at(8 * i))) for i in range(4)]
                g += [('bounds %d' % i, x == y if not isinstance(y, tuple) else and_(x - y[0] < y[1], y[0] - x < y[1])) for i, (x, y) in enumerate(zip(b, bounds(self)))]
                p1, q1 = [z(num(ex.load(st, I64, x))) for x in (self.dp, self.dq)]
                g.append(('degrees', and_(p1 == self.p + (0 if self.along else self.up), q1 == self.q + (self.up if self.along else 0))))
            if r is not None:
                g.append(('the returned index is that of the rows', z(num(r)) == self.ret))
            return g
        return f

    def other(self, n):
        s = lambda x: z3.eq(z3.simplify(n), x)
        if s(self.m):
            return self.cur
        return z3.If(n == self.m, self.cur, self.m)

    def inverted(self):
        """inverted_uv_poles (C12), for the grid before or after the edition"""
        def apply(ex, st, a):
            sret, pp, n = a
            n = z(num(n))
            v = vec_view(ex, st, pp, 8 * self.dim)
            L = z(v.len)
            other = z3.If(n == self.m, z3.If(L == self.N, self.n, self.M), self.m)
            for sz in (self.N, self.N2):
                if z3.eq(z3.simplify(L), sz):
                    other = z3.If(n == self.m, self.n if sz is self.N else self.M, self.m)
            ex.oblige(st, 'pre:inverted_uv_poles: the grid is complete', and_(n >= 1, n < 2**31, or_(and_(n == self.m, L == self.N2), and_(n == self.m, L == self.N), and_(n == self.n, L == self.N), and_(n == self.M, L == self.N2))))
            old = [v.arr(8 * c) for c in range(self.dim)]
            w = set_vec(ex, st, sret, v.len, 8 * self.dim, 'inv')
            for a_, b_, t in ((self.m, self.n, self.N), (self.n, self.m, self.N), (self.m, self.M, self.N2), (self.M, self.m, self.N2)):
                # at most one of the four applies, unless sizes coincide (then they agree)
                for c in range(self.dim):
                    st.assume(implies(and_(n == a_, L == t), forall(2, lambda i, j: implies(and_(0 <= i, i < a_, 0 <= j, j < b_), w.at(IX(a_, i, j), 8 * c) == old[c][IX(b_, j, i)]), lambda i, j: [IX(a_, i, j)])))
        return Contract(r'gbs::inverted_uv_poles<double, %dul>\(' % self.dim, apply, 'inverted_uv_poles (C12)')


def args_sop(op, r=False):
    def f(self, ex, st):
        dp, dq, b = [out_buf(ex, st, s, x) for x, s in (('dp', 8), ('dq', 8), ('b', 32))]
        ex.store(st, I64, dp, self.p)
        ex.store(st, I64, dq, self.q)
        self.dp, self.dq, self.b = dp, dq, b
        return [self.pp, self.kup, self.kvp, dp, dq, op, self.a, z3.ToReal(self.r) if r else self.c, b]
    return f


def args_ins(self, ex, st):
    return [self.pp, self.kup, self.kvp, self.p, self.q, self.a, self.r]


class CurveOp:
    """a curve object edited by one operation on its knots and poles: the object afterwards holds the operation's result"""

    def __init__(self, dim, up=0):
        self.dim, self.up = dim, up

    def setup(self, entry_args, pre=None, bounds=False):
        """bounds: the range of the curve is first restricted to [b0,b1] (trim, not permanently)"""
        def f(ex, st):
            n, p, M = z3.Ints('n p M')
            st.assume(and_(p >= 1, p < 2**28, n >= p + 1, n < 2**28, M >= 1, M < 2**30))
            up, U = mk_vec(ex, st, n + p + 1, 8, 'U')
            pp, P = mk_vec(ex, st, n, 8 * self.dim, 'P')
            st.assume(sorted_(U))
            st.assume(U[0] < U[n + p])
            self.__dict__.update(n=n, p=p, d=p, M=M, up_=up, pp=pp, U=U.arr(), P=[P.arr(8 * c) for c in range(self.dim)], a=z3.Real('a'), c=z3.Real('c'), r=z3.Int('r'), ret=z3.Int('ret'), calls=0,
                                 W=z3.Array('W', I_, z3.RealSort()), Q=[z3.Array('Q%d' % c, I_, z3.RealSort()) for c in range(self.dim)])
            st.assume(and_(self.r >= 0, self.r < 2**30, self.ret >= 0, self.ret < 2**60))
            if pre:
                st.assume(pre(self, self.U))
            self.bp = None
            if bounds:
                self.b = z3.Reals('b0 b1')
                self.bp = out_buf(ex, st, 16, 'b')
                st.assume(self.b[0] < self.b[1])
                return entry_args(self) + [*self.b, self.bp]
            return entry_args(self)
        return f

    def op_contract(self, rx, name, pick, want, ret=False, pre=None):
        def apply(ex, st, a):
            dg, up, pp, sc = pick(a)
            U, P = vec_view(ex, st, up, 8), vec_view(ex, st, pp, 8 * self.dim)
            n, p = self.n, self.p
            ex.oblige(st, 'pre:%s: called once' % name, st.ghost.get('op') is None)
            st.ghost['op'] = True
            ex.oblige(st, 'pre:%s: degree and sizes' % name, and_(z(num(dg)) == p, z(P.len) == n, z(U.len) == n + p + 1))
            ex.oblige(st, 'pre:%s: the arguments are those given' % name, and_(*[z(num(x) if z3.is_int(z(y)) else x) == y for x, y in zip(sc, want(self))]))
            ex.oblige(st, 'pre:%s: the knots are those of the curve' % name, forall(1, lambda i: implies(and_(0 <= i, i <= n + p), U[i] == self.U[i])))
            if pre:
                ex.oblige(st, 'pre:%s: the requirements of the operation' % name, pre(self, U))
            for c in range(self.dim):
                ex.oblige(st, 'pre:%s: the poles are those of the curve, coordinate %d' % (name, c), forall(1, lambda i: implies(and_(0 <= i, i < n), P.at(i, 8 * c) == self.P[c][i])))
            W = set_vec(ex, st, up, self.M + p + self.up + 1, 8, 'Uop')
            Q = set_vec(ex, st, pp, self.M, 8 * self.dim, 'Qop')
            st.assume(forall(1, lambda i: implies(and_(0 <= i, i <= self.M + p + self.up), W[i] == self.W[i]), lambda i: [W[i]]))
            for c in range(self.dim):
                st.assume(forall(1, lambda i: implies(and_(0 <= i, i < self.M), Q.at(i, 8 * c) == self.Q[c][i]), lambda i: [Q.at(i, 8 * c)]))
            return self.ret if ret else None
        return Contract(rx, apply, name)

    def post(self, ret=None):
        def f(ex, st, r):
            U, P = vec_view(ex, st, self.up_, 8), vec_view(ex, st, self.pp, 8 * self.dim)
            g = [('the operation is carried out', st.ghost.get('op') is True), ('number of knots', z(U.len) == self.M + self.p + self.up + 1), ('number of poles', z(P.len) == self.M),
                 ('knots', forall(1, lambda i: implies(and_(0 <= i, i <= self.M + self.p + self.up), U[i] == self.W[i])))]
            g += [('poles, coordinate %d' % c, forall(1, lambda i: implies(and_(0 <= i, i < self.M), P.at(i, 8 * c) == self.Q[c][i]))) for c in range(self.dim)]
            if ret:
                g.append(('returned value', z(num(r)) == ret(self)))
            if self.bp:
                g += [('the range of the curve is kept, %s' % 'from to'.split()[i], z(ex.load(st, DBL, self.bp.at(8 * i))) == self.b[i]) for i in range(2)]
            return g
        return f
