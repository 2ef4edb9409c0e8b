"""Assumed contracts of the C++ standard library containers/algorithms used by the verified functions (unbounded mode)."""
import re
from fractions import Fraction
import z3
from .ir import Unsupported, PTR, DBL, I64
from .vals import *
from .exe import Outcome, TailCall, Throw, PathEnd, vec_view, View

NO = NotImplemented


def elem(name):
    """(record size, kinds) of the element type of the std::vector named in a demangled name"""
    m = re.search(r'std::vector<(.*)', name)
    if not m:
        return None
    s = m.group(1)
    if s.startswith('double,'):
        return 8, {0: 'real'}
    if s.startswith(('unsigned long,', 'long,')):
        return 8, {0: 'int'}
    m = re.match(r'std::array<double, (?:(\d+)ul|\((\d+)ul\)\+\((\d+)\))>,', s)
    if m:
        n = int(m.group(1)) if m.group(1) else int(m.group(2)) + int(m.group(3))
        return 8 * n, {8 * c: 'real' for c in range(n)}
    if s.startswith('std::pair<double, unsigned long>,'):
        return 16, {0: 'real', 8: 'int'}
    if s.startswith('std::pair<double, double>,'):
        return 16, {0: 'real', 8: 'real'}
    if s.startswith('std::tuple<double, double, double>,'):
        return 24, {0: 'real', 8: 'real', 16: 'real'}
    return None


def zero_of(k):
    return z3.RealVal(0) if k == 'real' else z3.IntVal(0)


def sort_of(k):
    return z3.RealSort() if k == 'real' else z3.IntSort()


def as_len(n):
    if isinstance(n, Lin):
        n = n.norm()
        if isinstance(n, Lin):
            n = n.expr()
    return n


def install(ex, st, cb, o, n):
    end = Ptr(o.id, Lin.of(n).scale(o.R).norm())
    ex.store(st, PTR, cb, Ptr(o.id, 0))
    ex.store(st, PTR, cb.at(8), end)
    ex.store(st, PTR, cb.at(16), end)


def new_vec(ex, st, cb, R, kinds, n, cols, name='vec'):
    o = ex.new_sym(st, R, n, name)
    o.cols = {c: (kinds[c], cols[c]) for c in kinds}
    install(ex, st, cb, o, n)
    return o


def obj_of(ex, st, cb):
    b = ex.load(st, PTR, cb)
    if not isinstance(b, Ptr) or b.o == 0:
        return None
    o = st.mem[b.o]
    if o.kind != 'sym':
        return None
    return o


def set_len(ex, st, cb, o, n):
    o = st.w(o.id)
    o.len = n
    end = Ptr(o.id, Lin.of(n).scale(o.R).norm())
    ex.store(st, PTR, cb.at(8), end)
    ex.store(st, PTR, cb.at(16), end)
    ex.record(st, o.id, ('len', cb.o, cb.off))


def name(ex):
    return ex.cur_callee


def m_default(ex, st, a, ins):
    e = elem(name(ex))
    if e is None:
        return NO
    R, kinds = e
    new_vec(ex, st, a[0], R, kinds, 0, {c: ex.fresh_arr('vec', k) for c, k in kinds.items()})


def nonneg(ex, st, n, what):
    if isinstance(n, int):
        return
    ex.oblige(st, 'allocation size (%s)' % what, z3.And(z(n) >= 0, z(n) < 2**59))


def m_sized(ex, st, a, ins):
    e = elem(name(ex))
    n = as_len(a[1])
    if e is None or isinstance(n, int):
        return NO
    R, kinds = e
    nonneg(ex, st, n, 'vector(n)')
    new_vec(ex, st, a[0], R, kinds, n, {c: z3.K(z3.IntSort(), zero_of(k)) for c, k in kinds.items()})


def m_filled(ex, st, a, ins):
    e = elem(name(ex))
    n = as_len(a[1])
    if e is None or isinstance(n, int):
        return NO
    R, kinds = e
    nonneg(ex, st, n, 'vector(n,v)')
    cols = {}
    for c, k in kinds.items():
        v = ex.load(st, DBL if k == 'real' else I64, a[2].at(c))
        cols[c] = z3.K(z3.IntSort(), z(v) if not (k == 'real' and isinstance(v, int)) else z(Fraction(v)))
    new_vec(ex, st, a[0], R, kinds, n, cols)


def m_assign_fill(ex, st, a, ins):
    return m_filled(ex, st, a, ins)


def copy_of(ex, st, src, kinds):
    so = obj_of(ex, st, src)
    if so is None:
        return None
    v = vec_view(ex, st, src, so.R)
    if not (isinstance(v.base, int) and v.base == 0):
        return None
    cols = {c: ex.col(st, so.id, c, k) for c, k in kinds.items()}
    return v.len, cols


def m_copy(ex, st, a, ins):
    e = elem(name(ex))
    if e is None:
        return NO
    R, kinds = e
    r = copy_of(ex, st, a[1], kinds)
    if r is None:
        return NO
    new_vec(ex, st, a[0], R, kinds, r[0], r[1])


def m_assign_copy(ex, st, a, ins):
    r = m_copy(ex, st, a, ins)
    return NO if r is NO else a[0]


def pidx(ex, st, p, o):
    i, c = ex.sym_index(o, p.off)
    if c:
        raise Unsupported('iterator alignment')
    return i


def m_range(ex, st, a, ins):
    e = elem(name(ex))
    if e is None or not isinstance(a[1], Ptr) or a[1].o == 0:
        return NO
    R, kinds = e
    so = st.mem[a[1].o]
    if so.kind != 'sym' or so.R != R or a[2].o != a[1].o:
        return NO
    i, j = z(pidx(ex, st, a[1], so)), z(pidx(ex, st, a[2], so))
    n = z3.simplify(j - i)
    ex.oblige(st, 'range construction', z3.And(i >= 0, i <= j, j <= z(so.len)))
    cols = {}
    for c, k in kinds.items():
        sa = ex.col(st, so.id, c, k)
        cols[c] = shift(ex, st, sa, k, i)
    new_vec(ex, st, a[0], R, kinds, n, cols)


def shift(ex, st, sa, k, i):
    if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
        return sa
    na = ex.fresh_arr('shift', k)
    x = z3.Int('x')
    st.assume(z3.ForAll([x], z3.Select(na, x) == z3.Select(sa, x + i), patterns=[z3.Select(na, x)]))
    return na


def m_push(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    e = elem(name(ex))
    if o is None or e is None:
        return NO
    R, kinds = e
    n = vec_view(ex, st, a[0], R).len
    vals = {c: ex.load(st, DBL if k == 'real' else I64, a[1].at(c)) for c, k in kinds.items()}
    for c, k in kinds.items():
        arr = ex.col(st, o.id, c, k)
        v = vals[c]
        v = z(Fraction(v)) if (k == 'real' and isinstance(v, int)) else z(v)
        st.w(o.id).cols[c] = (k, z3.Store(arr, z(n), v))
        ex.record(st, o.id, ('col', c))
    o = st.w(o.id)
    set_len(ex, st, a[0], o, simp(z(n) + 1))
    return Ptr(o.id, Lin.of(n).scale(R).norm())


def simp(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else e


def m_clear(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    if o is None:
        return NO
    set_len(ex, st, a[0], o, 0)


def m_pop(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    if o is None:
        return NO
    n = vec_view(ex, st, a[0], o.R).len
    ex.oblige(st, 'pop_back on non-empty', z(n) > 0)
    set_len(ex, st, a[0], o, simp(z(n) - 1))


def redefine(ex, st, o, f):
    """new contents: arr'[x] = f(arr, x) for every column"""
    for c in list(o.cols):
        k, arr = o.cols[c]
        na = ex.fresh_arr(o.name, k)
        x = z3.Int('x')
        st.assume(z3.ForAll([x], z3.Select(na, x) == f(c, arr, x), patterns=[z3.Select(na, x)]))
        st.w(o.id).cols[c] = (k, na)
        ex.record(st, o.id, ('col', c))


def m_insert(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    e = elem(name(ex))
    if o is None or e is None or not isinstance(a[2], Ptr):
        return NO
    R, kinds = e
    n = vec_view(ex, st, a[0], R).len
    j = z(pidx(ex, st, a[1], o))
    ex.oblige(st, 'insert position', z3.And(j >= 0, j <= z(n)))
    vals = {}
    for c, k in kinds.items():
        v = ex.load(st, DBL if k == 'real' else I64, a[2].at(c))
        vals[c] = z(Fraction(v)) if (k == 'real' and isinstance(v, int)) else z(v)
    for c, k in kinds.items():
        ex.col(st, o.id, c, k)
    o = st.w(o.id)
    redefine(ex, st, o, lambda c, arr, x: z3.If(x < j, z3.Select(arr, x), z3.If(x == j, vals[c], z3.Select(arr, x - 1))))
    set_len(ex, st, a[0], st.w(o.id), simp(z(n) + 1))
    return Ptr(o.id, Lin.of(j).scale(R).norm())


def m_insert_range(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    e = elem(name(ex))
    if e is None or not isinstance(a[2], Ptr) or a[2].o == 0 or not isinstance(a[3], Ptr) or a[3].o != a[2].o:
        return NO
    R, kinds = e
    so = st.mem[a[2].o]
    if so.kind != 'sym' or so.R != R or (o is not None and so.id == o.id):
        return NO
    i, k = z(pidx(ex, st, a[2], so)), z(pidx(ex, st, a[3], so))
    ex.oblige(st, 'inserted range', z3.And(i >= 0, i <= k, k <= z(so.len)))
    cnt = k - i
    src = {c: ex.col(st, so.id, c, kd) for c, kd in kinds.items()}
    if o is None:
        new_vec(ex, st, a[0], R, kinds, simp(cnt), {c: shift(ex, st, src[c], kinds[c], i) for c in kinds})
        return ex.load(st, PTR, a[0])
    n = vec_view(ex, st, a[0], R).len
    j = z(pidx(ex, st, a[1], o))
    ex.oblige(st, 'insert position', z3.And(j >= 0, j <= z(n)))
    for c, kd in kinds.items():
        ex.col(st, o.id, c, kd)
    o = st.w(o.id)
    redefine(ex, st, o, lambda c, arr, x: z3.If(x < j, z3.Select(arr, x), z3.If(x < j + cnt, z3.Select(src[c], x - j + i), z3.Select(arr, x - cnt))))
    set_len(ex, st, a[0], st.w(o.id), simp(z(n) + cnt))
    return Ptr(o.id, Lin.of(j).scale(R).norm())


def m_erase_range(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    e = elem(name(ex))
    if o is None or e is None:
        return NO
    R, kinds = e
    n = vec_view(ex, st, a[0], R).len
    i, j = z(pidx(ex, st, a[1], o)), z(pidx(ex, st, a[2], o))
    ex.oblige(st, 'erase range', z3.And(i >= 0, i <= j, j <= z(n)))
    for c, k in kinds.items():
        ex.col(st, o.id, c, k)
    o = st.w(o.id)
    redefine(ex, st, o, lambda c, arr, x: z3.If(x < i, z3.Select(arr, x), z3.Select(arr, x + (j - i))))
    set_len(ex, st, a[0], st.w(o.id), simp(z(n) - (j - i)))
    return Ptr(o.id, Lin.of(i).scale(R).norm())


def m_resize(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    e = elem(name(ex))
    if e is None:
        return NO
    m = as_len(a[1])
    R, kinds = e
    if o is None:
        b = ex.load(st, PTR, a[0])
        if isinstance(b, Ptr) and b.o == 0 and not isinstance(m, int):
            nonneg(ex, st, m, 'resize')
            new_vec(ex, st, a[0], R, kinds, m, {c: z3.K(z3.IntSort(), zero_of(k)) for c, k in kinds.items()})
            return None
        return NO
    n = vec_view(ex, st, a[0], R).len
    nonneg(ex, st, m, 'resize')
    for c, k in kinds.items():
        ex.col(st, o.id, c, k)
    o = st.w(o.id)
    redefine(ex, st, o, lambda c, arr, x: z3.If(x < z(n), z3.Select(arr, x), zero_of(kinds[c])))
    set_len(ex, st, a[0], st.w(o.id), m)


def m_nop(ex, st, a, ins):
    o = obj_of(ex, st, a[0])
    return None if o is not None else NO


def m_reserve(ex, st, a, ins):
    return None


def m_dtor(ex, st, a, ins):
    return None


def bound(upper):
    def f(ex, st, a, ins):
        b, e, vp = a[0], a[1], a[2]
        if isinstance(b, Ptr) and b.o in st.mem and isinstance(e, Ptr) and isinstance(vp, Ptr):
            pass
        else:
            return NO
        o = st.mem[b.o]
        if o.kind != 'sym' or o.R != 8 or e.o != b.o:
            return NO
        v = z(ex.load(st, DBL, vp))
        if v.sort() != z3.RealSort():
            return NO
        i, j = z(pidx(ex, st, b, o)), z(pidx(ex, st, e, o))
        arr = ex.col(st, o.id, 0, 'real')
        x, y = z3.Ints('x y')
        ex.oblige(st, 'binary search: range', z3.And(0 <= i, i <= j, j <= z(o.len)))
        ex.oblige(st, 'binary search: sorted', z3.ForAll([x, y], z3.Implies(z3.And(i <= x, x <= y, y < j), z3.Select(arr, x) <= z3.Select(arr, y)),
                                                         patterns=[z3.MultiPattern(z3.Select(arr, x), z3.Select(arr, y))]))
        r = ex.fresh_int('ub' if upper else 'lb')
        st.assume(z3.And(i <= r, r <= j))
        lo = (lambda t: t <= v) if upper else (lambda t: t < v)
        hi = (lambda t: t > v) if upper else (lambda t: t >= v)
        st.assume(z3.ForAll([x], z3.Implies(z3.And(i <= x, x < r), lo(z3.Select(arr, x))), patterns=[z3.Select(arr, x)]))
        st.assume(z3.ForAll([x], z3.Implies(z3.And(r <= x, x < j), hi(z3.Select(arr, x))), patterns=[z3.Select(arr, x)]))
        # ground instances at the boundary
        st.assume(z3.Implies(i < r, lo(z3.Select(arr, r - 1))))
        st.assume(z3.Implies(r < j, hi(z3.Select(arr, r))))
        for g in (ex.bound_hints(upper, v) if ex.bound_hints else []):
            # a closed form for the result, used only when proved here and now
            s = z3.Solver()
            s.set('timeout', 3000)
            for c in st.pc:
                s.add(c)
            s.add(r != g)
            if s.check() == z3.unsat:
                st.assume(r == g)
                r = g
                break
        return Ptr(o.id, Lin.of(r).scale(8).norm())
    return f


def m_ranges_ub(ex, st, a, ins):
    """ranges::upper_bound(range, value): args this, range&, value&, ..."""
    cb = a[1]
    o = obj_of(ex, st, cb)
    if o is None:
        return NO
    b, e = ex.load(st, PTR, cb), ex.load(st, PTR, cb.at(8))
    return bound(True)(ex, st, [b, e, a[2]], ins)


def m_is_sorted(ex, st, a, ins):
    b, e = a[0], a[1]
    o = st.mem.get(b.o) if isinstance(b, Ptr) else None
    if o is None or o.kind != 'sym' or e.o != b.o or o.R != 8:
        return NO
    i, j = z(pidx(ex, st, b, o)), z(pidx(ex, st, e, o))
    ex.oblige(st, 'is_sorted: range', z3.And(0 <= i, i <= j, j <= z(o.len)))
    arr = ex.col(st, o.id, 0, 'real')
    x, r = z3.Int('x'), z3.Bool('sorted!%d' % next(ex.fresh_n))
    w = ex.fresh_int('descent')
    st.assume(z3.Implies(r, z3.ForAll([x], z3.Implies(z3.And(i <= x, x + 1 < j), z3.Select(arr, x) <= z3.Select(arr, x + 1)))))
    st.assume(z3.Implies(z3.Not(r), z3.And(i <= w, w + 1 < j, z3.Select(arr, w + 1) < z3.Select(arr, w))))
    return r


def m_reverse(ex, st, a, ins):
    b, e = a[0], a[1]
    o = st.mem.get(b.o) if isinstance(b, Ptr) else None
    if o is None or o.kind != 'sym' or e.o != b.o:
        return NO
    i, j = z(pidx(ex, st, b, o)), z(pidx(ex, st, e, o))
    ex.oblige(st, 'reverse: range', z3.And(0 <= i, i <= j, j <= z(o.len)))
    for c in list(o.cols):
        ex.col(st, o.id, c, o.cols[c][0])
    redefine(ex, st, st.w(o.id), lambda c, arr, x: z3.If(z3.And(i <= x, x < j), z3.Select(arr, i + j - 1 - x), z3.Select(arr, x)))


def models():
    R = re.compile
    V = r'^std::vector<.*>::'
    A = r'(std::allocator<[^()]*> const&)'
    return [
        (R(V + r'vector\((' + A + r')?\)$'), m_default),
        (R(V + r'vector\(unsigned long, ' + A + r'\)$'), m_sized),
        (R(V + r'vector\(unsigned long, (?!std::allocator)[^()]*(\([^()]*\)[^()]*)* const&, ' + A + r'\)$'), m_filled),
        (R(V + r'assign\(unsigned long, [^()]*(\([^()]*\)[^()]*)* const&\)$'), m_assign_fill),
        (R(V + r'vector\(std::vector<.*> const&\)$'), m_copy),
        (R(V + r'operator=\(std::vector<.*> const&\)$'), m_assign_copy),
        (R(V + r'vector<__gnu_cxx::__normal_iterator<.*, void>\(__gnu'), m_range),
        (R(r'^(.* )?std::vector<.*>::(push_back|emplace_back<[^()]*>)\('), m_push),
        (R(V + r'clear\(\)$'), m_clear),
        (R(V + r'pop_back\(\)$'), m_pop),
        (R(V + r'insert\(__gnu_cxx::__normal_iterator<[^()]*>, [^()]*(&|&&)\)$'), m_insert),
        (R(r'^([^(]* )?std::vector<.*>::insert<__gnu_cxx::__normal_iterator<[^()]*>, void>\('), m_insert_range),
        (R(V + r'erase\(__gnu_cxx::__normal_iterator<.*>, __gnu_cxx::__normal_iterator<.*>\)$'), m_erase_range),
        (R(V + r'resize\(unsigned long\)$'), m_resize),
        (R(V + r'shrink_to_fit\(\)$'), m_nop),
        (R(V + r'reserve\(unsigned long\)$'), m_reserve),
        (R(V + r'~vector\(\)$'), m_dtor),
        (R(r'^[^(]* std::upper_bound<__gnu_cxx::__normal_iterator<double( const)?\*[^()]*>, double>\('), bound(True)),
        (R(r'^[^(]* std::lower_bound<__gnu_cxx::__normal_iterator<double( const)?\*[^()]*>, double>\('), bound(False)),
        (R(r'^_ZNKSt6ranges16__upper_bound_fnclITkNS_13forward_range'), m_ranges_ub),
        (R(r'^void std::reverse<'), m_reverse),
        (R(r'^bool std::is_sorted<__gnu_cxx::__normal_iterator<double( const)?\*[^()]*>( |>)*\('), m_is_sorted),
    ]
