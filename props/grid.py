"""Two-dimensional indices into flat lists: x = i + n*j, first index fastest"""
from .common import *
I_ = z3.IntSort()
IX = z3.Function('IX', I_, I_, I_, I_)        # IX(n, i, j) = i + n*j
FST = z3.Function('FST', I_, I_, I_)          # FST(n, IX(n,i,j)) = i
SND = z3.Function('SND', I_, I_, I_)          # SND(n, IX(n,i,j)) = j


def grid(st, n, m, total=None):
    """facts about an n x m grid stored first index fastest (consistent and complete: lemma 'grid index')"""
    total = n * m if total is None else total
    i, j = z3.Ints('gi gj')
    st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i < n, 0 <= j, j < m), and_(IX(n, i, j) == i + n * j, FST(n, IX(n, i, j)) == i, SND(n, IX(n, i, j)) == j, 0 <= IX(n, i, j), IX(n, i, j) < total)), patterns=[IX(n, i, j)]))
    x = z3.Int('gx')
    st.assume(z3.ForAll([x], implies(and_(0 <= x, x < total), and_(0 <= FST(n, x), FST(n, x) < n, 0 <= SND(n, x), SND(n, x) < m, IX(n, FST(n, x), SND(n, x)) == x)), patterns=[FST(n, x)]))


def rows(st, n, m):
    """row j starts at IX(n,0,j) (lemma 'grid index')"""
    i, a, b = z3.Ints('gi ga gb')
    st.assume(z3.ForAll([i, a], implies(and_(0 <= i, i < n, 0 <= a, a < m), IX(n, i, a) == IX(n, 0, a) + i), patterns=[IX(n, i, a)]))
    st.assume(z3.ForAll([a, b], implies(and_(0 <= a, a < b, b < m), IX(n, 0, a) + n <= IX(n, 0, b)), patterns=[z3.MultiPattern(IX(n, 0, a), IX(n, 0, b))]))


def inverted_contract(dim, other):
    """inverted_uv_poles (C12).  other(n) -> the size of the other direction"""
    def apply(ex, st, a):
        sret, pp, n = a
        from .callees import num
        n = z(num(n))
        m = other(n)
        v = vec_view(ex, st, pp, 8 * dim)
        ex.oblige(st, 'pre:inverted_uv_poles: the grid is complete', and_(n >= 1, m >= 1, n < 2**31, m < 2**31, n * m == z(v.len)))
        old = [v.arr(8 * c) for c in range(dim)]
        w = set_vec(ex, st, sret, v.len, 8 * dim, 'inv')
        for c in range(dim):
            st.assume(forall(2, lambda i, j: implies(and_(0 <= i, i < n, 0 <= j, j < m), w.at(IX(n, i, j), 8 * c) == old[c][IX(m, j, i)]), lambda i, j: [IX(n, i, j)]))
    return Contract(r'gbs::inverted_uv_poles<double, %dul>\(' % dim, apply, 'inverted_uv_poles (C12)')


def row_facts(st, n, m, total):
    """n*j for a row j"""
    j = z3.Int('gj')
    for t in (n * j, j * n):
        st.assume(z3.ForAll([j], implies(and_(0 <= j, j < m), and_(t >= 0, t + n <= total)), patterns=[t]))


def grid_index(ex):
    i, j, a, b, n, m, x = z3.Ints('i j a b n m x')
    yield 'an index has one cell', [0 <= i, i < n, 0 <= a, a < n, i + n * j == a + n * b, j >= 0, b >= 0], and_(a == i, b == j)
    yield 'the index is inside', [0 <= i, i < n, 0 <= j, j < m], and_(i + n * j >= 0, i + n * j < n * m)
    yield 'rows do not overlap', [0 <= a, a < b, b < m, n >= 0], 0 + n * a + n <= 0 + n * b
    q, r = z3.Ints('q r')
    yield 'every index is a cell', [x >= 0, x < n * m, n > 0, x == q * n + r, 0 <= r, r < n], and_(0 <= q, q < m, r + n * q == x)
    yield 'a row is inside', [0 <= j, j < m, n >= 0], and_(n * j >= 0, n * j + n <= n * m)
    yield 'quotient of the sizes', [n > 0, m >= 0, x == n * m], x / n == m
