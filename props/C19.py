"""C19: interpolation: the banded factorisation, the solve, the collocation rows"""
import re
from .common import *
from .callees import num
LEVEL = 'proof'
TU = 'interp.cpp'
I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
G = {}
PROOFS = []
BX = z3.Function('BX', I_, I_, I_)             # where entry (i,j) of the band is stored
FI, FJ = z3.Function('FI', I_, I_), z3.Function('FJ', I_, I_)
A = z3.Function('A', I_, I_, I_, R_)           # A(k,i,j): the matrix after k elimination steps
NXT = z3.Function('NXT', I_, I_, I_, R_)       # NXT(k,i,j) = A(k+1,i,j), i, j > k
LM = z3.Function('LM', I_, I_, R_)             # LM(k,i): multiplier of row i in step k


def band(st, n, kl, ku, W):
    """facts about the storage of a band (lemma 'band storage')"""
    i, j = z3.Ints('bi bj')
    st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i < n, 0 <= j, j < n, j - i <= ku, i - j <= kl), and_(BX(i, j) == i * W + (j - i + kl), FI(BX(i, j)) == i, FJ(BX(i, j)) == j, 0 <= BX(i, j), BX(i, j) < n * W)), patterns=[BX(i, j)]))


def storage(ex):
    i, j, a, b, n, kl, ku, W = z3.Ints('i j a b n kl ku W')
    inb = lambda i, j: [0 <= i, i < n, j - i <= ku, i - j <= kl, W == kl + ku + 1, kl >= 0, ku >= 0]
    yield 'an entry is stored in its row', inb(i, j), and_(i * W <= i * W + (j - i + kl), i * W + (j - i + kl) < i * W + W)
    yield 'rows do not overlap', [0 <= a, a < b, W > 0], a * W + W <= b * W
    yield 'the storage is large enough', inb(i, j) + [i * W + W <= n * W, i * W >= 0], and_(i * W + (j - i + kl) >= 0, i * W + (j - i + kl) < n * W)
    yield 'a row is inside', [0 <= i, i < n, W > 0], and_(i * W >= 0, i * W + W <= n * W)
    yield 'two columns of a row are stored apart', inb(i, j) + inb(i, b) + [i * W + (j - i + kl) == i * W + (b - i + kl)], j == b


PROOFS.append(Lemma('band storage', storage, tu=TU))


def obj(ex, st, extra=()):
    n, kl, ku, W = z3.Ints('n kl ku W')
    st.assume(and_(n >= 0, n < 2**30, kl >= 0, ku >= 0, kl < 2**29, ku < 2**29, W == kl + ku + 1))
    mv, M = mk_vec(ex, st, n * W, 8, 'M')
    b = ex.new_obj(st, 48, 'band')
    b.cells[0] = (('i', 64), n)
    for o, v in ((8, kl), (12, ku), (16, W)):
        b.cells[o] = (('i', 32), v)
    for o in (0, 8, 16):
        b.cells[24 + o] = st.mem[mv.o].cells[o]
    band(st, n, kl, ku, W)
    G.clear()
    G.update(n=n, kl=kl, ku=ku, W=W, M0=M.arr(0), b=Ptr(b.id, 0), end=n * W)
    return Ptr(b.id, 0)


def mat(ex, st):
    return vec_view(ex, st, G['b'].at(24), 8)


def inb(i, j):
    n = G['n']
    return and_(0 <= i, i < n, 0 <= j, j < n, j - i <= G['ku'], i - j <= G['kl'])


def elimination(st):
    """definition of the steps, and that they stay inside the band (lemma 'no fill outside the band')"""
    n, kl, ku = G['n'], G['kl'], G['ku']
    k, i, j = z3.Ints('ek ei ej')
    st.assume(z3.ForAll([i, j], implies(inb(i, j), A(0, i, j) == G['M0'][BX(i, j)]), patterns=[A(0, i, j)]))
    st.assume(z3.ForAll([i, j], implies(inb(i, j), A(0, i, j) == G['M0'][BX(i, j)]), patterns=[BX(i, j)]))
    st.assume(z3.ForAll([k, i], implies(and_(0 <= k, k < i, i < n), LM(k, i) == DIV(A(k, i, k), A(k, k, k))), patterns=[LM(k, i)]))
    st.assume(z3.ForAll([k, i, j], implies(and_(0 <= k, k < i, k < j, i < n, j < n), and_(NXT(k, i, j) == A(k, i, j) - LM(k, i) * A(k, k, j), A(k + 1, i, j) == NXT(k, i, j))), patterns=[NXT(k, i, j)]))
    st.assume(z3.ForAll([k, i, j], implies(and_(0 <= k, k <= i, k <= j, i < n, j < n, or_(j - i > ku, i - j > kl)), A(k, i, j) == 0), patterns=[A(k, i, j)]))
    st.assume(z3.ForAll([k, i], implies(and_(0 <= k, k < i, i < n, i - k > kl, A(k, k, k) != 0), LM(k, i) == 0), patterns=[LM(k, i)]))


def fill(ex):
    k, i, j, n, kl, ku = z3.Ints('k i j n kl ku')
    hyp = [0 <= k, k < i, k < j, kl >= 0, ku >= 0]
    yield 'step', hyp + [or_(j - i > ku, i - j > kl), A(k, i, j) == 0, implies(or_(j - k > ku), A(k, k, j) == 0), implies(i - k > kl, LM(k, i) == 0), A(k + 1, i, j) == A(k, i, j) - LM(k, i) * A(k, k, j)], A(k + 1, i, j) == 0
    q, a = z3.Reals('q a')
    yield 'a zero entry needs no elimination', [a != 0, q * a == 0], q == 0


PROOFS.append(Lemma('no fill outside the band', fill, tu=TU))


def setup_fact(ex, st):
    b = obj(ex, st)
    s = z3.Real('scale')
    st.assume(s >= 0)
    elimination(st)
    return [b, s]


def done(M, k):
    """the first k rows and columns are final"""
    return [('upper rows', forall(2, lambda t, j: implies(and_(0 <= t, t < k, t <= j, inb(t, j)), M[BX(t, j)] == A(t, t, j)), lambda t, j: [BX(t, j)])),
            ('multipliers', forall(2, lambda t, i: implies(and_(0 <= t, t < k, t < i, inb(i, t)), M[BX(i, t)] == LM(t, i)), lambda t, i: [BX(i, t)])),
            ('pivots', forall(1, lambda t: implies(and_(0 <= t, t < k), A(t, t, t) != 0), lambda t: [A(t, t, t)]))]


def active(M, k, i0):
    return ('rows still to treat', forall(2, lambda i, j: implies(and_(i0 <= i, k <= j, inb(i, j)), M[BX(i, j)] == A(k, i, j)), lambda i, j: [BX(i, j)]))


def cell(i, j):
    return BX(i, j) == i * G['W'] + (j - i + G['kl'])


def inv_k(L):
    k, M = z(L.int('k')), mat(L.ex, L.st)
    return [('k', and_(0 <= k, k <= G['n'])), ('size', z(M.len) == G['end']), ('the pivot', implies(k < G['n'], cell(k, k)))] + done(M, k) + [active(M, k, k)]


def treated(M, k, i):
    return [('multipliers of this step', forall(1, lambda r: implies(and_(k < r, r < i, inb(r, k)), M[BX(r, k)] == LM(k, r)), lambda r: [BX(r, k)])),
            ('rows treated', forall(2, lambda r, j: implies(and_(k < r, r < i, k < j, inb(r, j)), M[BX(r, j)] == NXT(k, r, j)), lambda r, j: [BX(r, j)]))]


def pivot_row(M, k):
    return ('pivot row', forall(1, lambda j: implies(inb(k, j), implies(k <= j, M[BX(k, j)] == A(k, k, j))), lambda j: [BX(k, j)]))


def inv_i(L):
    k, i, M = z(L.int('k')), z(L.int('i')), mat(L.ex, L.st)
    imax = z(L.int('imax'))
    lim = z3.If(k + G['kl'] < G['n'] - 1, k + G['kl'], G['n'] - 1)
    return [('k', and_(0 <= k, k < G['n'], imax == lim)), ('i', and_(k + 1 <= i, i <= imax + 1)), ('size', z(M.len) == G['end']), ('pivot is not zero', and_(z(L.real('akk')) == A(k, k, k), A(k, k, k) != 0, M[BX(k, k)] == A(k, k, k))), ('the entry to eliminate', implies(i <= imax, cell(i, k)))] + \
        done(M, k) + [pivot_row(M, k)] + treated(M, k, i) + [active(M, k, i)]


def inv_j(L):
    k, i, j, M = z(L.int('k')), z(L.int('i')), z(L.int('j')), mat(L.ex, L.st)
    jmax = z(L.int('jmax'))
    lim = z3.If(k + G['ku'] < G['n'] - 1, k + G['ku'], G['n'] - 1)
    return [('k', and_(0 <= k, k < i, i < G['n'], i - k <= G['kl'], jmax == lim)), ('j', and_(k + 1 <= j, j <= jmax + 1)), ('size', z(M.len) == G['end']), ('pivot is not zero', and_(A(k, k, k) != 0, M[BX(k, k)] == A(k, k, k))), ('multiplier', and_(z(L.real('lik')) == LM(k, i), M[BX(i, k)] == LM(k, i))),
            ('cells', implies(j <= jmax, and_(cell(i, j), cell(k, j))))] + \
        done(M, k) + [pivot_row(M, k)] + treated(M, k, i) + [active(M, k, i + 1),
        ('this row, treated', forall(1, lambda c: implies(and_(k < c, c < j, inb(i, c)), M[BX(i, c)] == NXT(k, i, c)), lambda c: [BX(i, c)])),
        ('this row, still to treat', forall(1, lambda c: implies(and_(j <= c, inb(i, c)), M[BX(i, c)] == A(k, i, c)), lambda c: [BX(i, c)]))]


def post_fact(ex, st, r):
    r = z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r if z3.is_bool(r) else z(r) != 0
    M = mat(ex, st)
    return [('size', z(M.len) == G['end'])] + [(nm, implies(r, g)) for nm, g in done(M, G['n'])]


FA = r'gbs::band_lu<double>::factorize_inplace\('
PROOFS.append(Proof('band LU factorisation', 'vc_fact', setup_fact, post_fact, tu=TU, divfn=True,
                    loops={FA: {0: LoopSpec(inv_k, lambda L: G['n'] - z(L.int('k'))), 1: LoopSpec(inv_i, lambda L: G['n'] - z(L.int('i'))), 2: LoopSpec(inv_j, lambda L: G['n'] - z(L.int('j')))}}))


# ---- the triangular solves
FS = z3.Function('FS', I_, I_, R_)             # b_i minus the first columns of L times y
BS = z3.Function('BS', I_, I_, R_)             # y_i minus columns i+1.. of U times x
Y, X = z3.Function('Y', I_, R_), z3.Function('X', I_, R_)


def setup_solve(ex, st):
    b = obj(ex, st)
    n, M, kl, ku = G['n'], G['M0'], G['kl'], G['ku']
    rp, r = mk_vec(ex, st, n, 8, 'b')
    xp, x = mk_vec(ex, st, n, 8, 'x')
    i, j = z3.Ints('si sj')
    lo = lambda i: z3.If(i - kl > 0, i - kl, 0)
    hi = lambda i: z3.If(i + ku < n - 1, i + ku, n - 1)
    G.update(x=xp, rr=rp, r=r.arr(0), lo=lo, hi=hi)
    st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), and_(FS(i, lo(i)) == r[i], Y(i) == FS(i, i))), patterns=[Y(i)]))
    st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i < n, lo(i) <= j, j < i), FS(i, j + 1) == FS(i, j) - M[BX(i, j)] * Y(j)), patterns=[FS(i, j)]))
    st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n), and_(BS(i, i + 1) == Y(i), X(i) == DIV(BS(i, hi(i) + 1), M[BX(i, i)]), M[BX(i, i)] != 0)), patterns=[X(i)]))
    st.assume(z3.ForAll([i, j], implies(and_(0 <= i, i < n, i < j, j <= hi(i)), BS(i, j + 1) == BS(i, j) - M[BX(i, j)] * X(j)), patterns=[BS(i, j)]))
    return [b, rp, xp]


def frame(L):
    M = mat(L.ex, L.st)
    return [('the matrix is left alone', and_(z(M.len) == G['end'], forall(1, lambda x: implies(and_(0 <= x, x < G['end']), M[x] == G['M0'][x]), lambda x: [M[x]])))]


def vecs(L):
    return vec_view(L.ex, L.st, G['x'], 8), vec_view(L.ex, L.st, G['rr'], 8)


def fwd(L, inner):
    x, r = vecs(L)
    i, n = z(L.int('i')), G['n']
    g = [('i', and_(0 <= i, i <= n)), ('y so far', forall(1, lambda t: implies(and_(0 <= t, t < i), x[t] == Y(t)), lambda t: [x[t]]))]
    if inner:
        k = z(L.int('k'))
        g += [('k', and_(i < n, G['lo'](i) <= k, k <= i)), ('sum', z(L.real('s')) == FS(i, k)), ('cell', implies(k < i, cell(i, k))), ('row', Y(i) == FS(i, i))]
    else:
        g += [('row', implies(i < n, and_(Y(i) == FS(i, i), FS(i, G['lo'](i)) == G['r'][i])))]
    return g


def back(L, inner):
    x, r = vecs(L)
    i, n = z(L.int('i')), G['n']
    g = [('i', and_(-1 <= i, i < n)), ('x so far', forall(1, lambda t: implies(and_(i < t, t < n), x[t] == X(t)), lambda t: [x[t]])), ('y', forall(1, lambda t: implies(and_(0 <= t, t <= i), x[t] == Y(t)), lambda t: [x[t]])),
         ('row', implies(i >= 0, and_(BS(i, i + 1) == Y(i), X(i) == DIV(BS(i, G['hi'](i) + 1), G['M0'][BX(i, i)]), G['M0'][BX(i, i)] != 0, cell(i, i))))]
    if inner:
        j = z(L.int('j'))
        g += [('j', and_(i >= 0, i < j, j <= G['hi'](i) + 1)), ('sum', z(L.real('s')) == BS(i, j)), ('cell', implies(j <= G['hi'](i), cell(i, j)))]
    return g


def post_solve(ex, st, r):
    x = vec_view(ex, st, G['x'], 8)
    return [('the solution', forall(1, lambda t: implies(and_(0 <= t, t < G['n']), x[t] == X(t))))]


SO = r'gbs::band_lu<double>::solve\('
PROOFS.append(Proof('triangular solves', 'vc_solve', setup_solve, post_solve, tu=TU, divfn=True,
                    loops={SO: {0: LoopSpec(lambda L: fwd(L, False), lambda L: G['n'] - z(L.int('i'))), 1: LoopSpec(lambda L: fwd(L, True), lambda L: z(L.int('i')) - z(L.int('k'))),
                                2: LoopSpec(lambda L: back(L, False), lambda L: z(L.int('i')) + 1), 3: LoopSpec(lambda L: back(L, True), lambda L: G['n'] + 1 - z(L.int('j')))}}))


# ---- together: the system is solved
T = z3.Function('T', I_, I_, I_, R_)           # T(k,i,j): sum over k <= c < j of A(k,i,c) X(c)
RR = z3.Function('R', I_, I_, R_)              # whole row, T(k,i,n)


def solved(ex):
    k, i, j, n, ku, kl = z3.Ints('k i j n ku kl')
    hyp = [0 <= k, k < i]
    dT = lambda k, i, j: T(k, i, j + 1) == T(k, i, j) + A(k, i, j) * X(j)
    rel = lambda j: T(k + 1, i, j) == T(k, i, j) - A(k, i, k) * X(k) - LM(k, i) * (T(k, k, j) - A(k, k, k) * X(k))
    yield 'a step takes a multiple of the pivot row, start', hyp + [T(k, i, k) == 0, T(k, k, k) == 0, T(k + 1, i, k + 1) == 0, dT(k, i, k), dT(k, k, k)], rel(k + 1)
    yield 'a step takes a multiple of the pivot row, next column', hyp + [j > k, rel(j), dT(k, i, j), dT(k, k, j), dT(k + 1, i, j), A(k + 1, i, j) == A(k, i, j) - LM(k, i) * A(k, k, j)], rel(j + 1)
    yield 'rows after a step', hyp + [rel(n), LM(k, i) * A(k, k, k) == A(k, i, k)], T(k + 1, i, n) == T(k, i, n) - LM(k, i) * T(k, k, n)
    u = lambda j: T(i, i, j) == A(i, i, i) * X(i) + Y(i) - BS(i, j)
    yield 'back substitution, start', [T(i, i, i) == 0, dT(i, i, i), BS(i, i + 1) == Y(i)], u(i + 1)
    yield 'back substitution, inside the band', [j > i, u(j), dT(i, i, j), BS(i, j + 1) == BS(i, j) - A(i, i, j) * X(j)], u(j + 1)
    yield 'back substitution, the unknown', [u(j), X(i) * A(i, i, i) == BS(i, j)], T(i, i, j) == Y(i)
    yield 'back substitution, outside the band', [T(i, i, j) == Y(i), dT(i, i, j), A(i, i, j) == 0], T(i, i, j + 1) == Y(i)
    b = z3.Real('b')
    yield 'forward substitution, outside the band', [T(k, i, n) == T(0, i, n), T(k + 1, i, n) == T(k, i, n) - LM(k, i) * T(k, k, n), LM(k, i) == 0], T(k + 1, i, n) == T(0, i, n)
    yield 'forward substitution, start', [T(k, i, n) == T(0, i, n), FS(i, k) == b], T(0, i, n) - T(k, i, n) == b - FS(i, k)
    yield 'forward substitution, step', [T(0, i, n) - T(k, i, n) == b - FS(i, k), T(k + 1, i, n) == T(k, i, n) - LM(k, i) * T(k, k, n), T(k, k, n) == Y(k), FS(i, k + 1) == FS(i, k) - LM(k, i) * Y(k)], T(0, i, n) - T(k + 1, i, n) == b - FS(i, k + 1)
    yield 'the matrix times the solution is the right-hand side', [T(0, i, n) - T(i, i, n) == b - FS(i, i), T(i, i, n) == Y(i), Y(i) == FS(i, i)], T(0, i, n) == b


PROOFS.append(Lemma('the system is solved', solved, tu=TU))


# ---- assembling: every entry of the band is the collocation value of its row and column
DU = z3.Function('DU', R_, I_, I_, R_)         # DU(u,d,m): d-th derivative of basis function m at u
SPU = z3.Function('SPU', R_, I_)               # span of u
from .callees import find_span_contract, basis_contracts
MAXN = 2**26
KL, KU = z3.Ints('KL KU')


def at_call(ex, st, a):
    """factorize_inplace, as called: the band holds the collocation matrix"""
    bp, scale = a
    b = st.mem[bp.o].cells
    kl, ku, W, n = (z(num(ex.load(st, ('i', w), bp.at(o)))) for o, w in ((8, 32), (12, 32), (16, 32), (0, 64)))
    M = vec_view(ex, st, bp.at(24), 8)
    q, j = z3.Ints('q j')
    ex.oblige(st, 'pre:factorize: order of the system', and_(n == G['n'], W == kl + ku + 1, kl >= 0, ku >= 0, z(M.len) == n * W))
    ex.oblige(st, 'pre:factorize: the whole support of a row is in the band', forall(2, lambda q, j: implies(and_(0 <= q, q < G['n'], support(q, j)), and_(j - q <= ku, q - j <= kl)), lambda q, j: [DU(G['U'](q), G['D'](q), j)]))
    ex.oblige(st, 'pre:factorize: entries', forall(2, lambda q, j: implies(and_(0 <= q, q < n, 0 <= j, j < n, j - q <= ku, q - j <= kl), M[BX(q, j)] == entry(q, j)), lambda q, j: [BX(q, j)]))
    ex.oblige(st, 'pre:factorize: scale', z(scale) >= 0)
    r = z3.Bool('factorized!%d' % next(ex.fresh_n))
    G['ret'] = r
    return r


def support(q, j):
    s = SPU(G['U'](q))
    return and_(s - G['p'] <= j, j <= s)


def entry(q, j):
    return z3.If(support(q, j), DU(G['U'](q), G['D'](q), j), 0)


CALLEES = [find_span_contract(lambda kp, n, p, u: SPU(u))] + basis_contracts(lambda kp, d, m, u: DU(u, d, m), with_u=True) + \
    [Contract(r'gbs::band_lu<double>::factorize_inplace\(', at_call, 'factorize_inplace (this property)')]


def setup_rows(ex, st, nc, n_u):
    """knots, parameters and the (still empty) band object"""
    p, n = z3.Ints('p n')
    st.assume(and_(p >= 1, p <= 24, n >= p + 1, n < MAXN, n == n_u * nc))
    kv, k = mk_vec(ex, st, n + p + 1, 8, 'k')
    uv, u = mk_vec(ex, st, n_u, 8, 'u')
    st.assume(sorted_(k))
    st.assume(and_(k[p] < k[p + 1], k[n - 1] < k[n]))
    b = ex.new_obj(st, 48, 'band')
    for o, w in ((0, 64), (8, 32), (12, 32), (16, 32)):
        b.cells[o] = (('i', w), 0)
    from gbsv.vals import NULL
    for o in (24, 32, 40):
        b.cells[o] = (PTR, NULL)
    G.clear()
    G.update(n=n, p=p, k=k, u=u, U0=u.arr(0), b=Ptr(b.id, 0), nu=n_u)
    return Ptr(b.id, 0), kv, uv


def setup_asm(nc):
    def go(ex, st):
        n_u = z3.Int('np')
        st.assume(n_u >= 1)
        b, kv, uv = setup_rows(ex, st, nc, n_u)
        st.assume(z3.IntVal(nc - 1) <= G['p'])
        G.update(nc=nc, U=lambda q: G['U0'][q / nc] if nc > 1 else G['U0'][q], D=lambda q: q % nc if nc > 1 else z3.IntVal(0))
        return [b, kv, uv, Lin.of(G['p']), nc, Lin.of(G['n'])]
    return go


def inv_spans(row_lo, row_hi):
    """first pass: span, first index and support of each parameter; the band is wide enough for the rows seen"""
    def inv(L):
        i, kl, ku = z(L.int('i')), z(L.int('kl_')), z(L.int('ku_'))
        S, I, R = (L.vec(nm) for nm in ('spans', 'imins', 'rmaxs'))
        p, n = G['p'], G['n']
        s = lambda t: SPU(G['U0'][t])
        return [('i', and_(0 <= i, i <= G['nu'])), ('widths', and_(0 <= kl, kl < n, 0 <= ku, ku < n)),
                ('spans', forall(1, lambda t: implies(and_(0 <= t, t < i), and_(S[t] == s(t), I[t] == s(t) - p, R[t] == p, p <= s(t), s(t) < n, G['k'][s(t)] < G['k'][s(t) + 1])), lambda t: [S[t]])),
                ('band', forall(1, lambda t: implies(and_(0 <= t, t < i), and_(row_hi(t) - (s(t) - p) <= kl, s(t) - row_lo(t) <= ku)), lambda t: [SPU(G['U0'][t])]))]
    return inv


def bview(L):
    b = G['b']
    ld = lambda o, w: z(num(L.ex.load(L.st, ('i', w), b.at(o))))
    return vec_view(L.ex, L.st, b.at(24), 8), ld(8, 32), ld(12, 32), ld(16, 32)


def filled(L, row, extra):
    """rows before `row` are complete, the others zero, except what extra(q,j) says of row `row`"""
    M, kl, ku, W = bview(L)
    n = G['n']
    return [('size', z(M.len) == n * W), ('scale', z(L.real('scale')) >= 0),
            ('entries', forall(2, lambda q, j: implies(and_(0 <= q, q < n, 0 <= j, j < n, j - q <= ku, q - j <= kl), M[BX(q, j)] == z3.If(or_(q < row, and_(q == row, extra(j))), entry(q, j), 0)), lambda q, j: [BX(q, j)]))]


def on_assign(ex, st, a, ins):
    """M.assign(n*W, 0) by the library model; the width of the band is known here, so that is where BX is defined"""
    from gbsv.stdvec import m_filled
    b = G['b']
    kl, ku, W = (z(num(ex.load(st, ('i', 32), b.at(o)))) for o in (8, 12, 16))
    n = G['n']
    ex.oblige(st, 'width', and_(W == kl + ku + 1, kl >= 0, ku >= 0, kl < n, ku < n))
    ex.oblige(st, 'storage', and_(n * W >= 0, n * W < 2 * n * n))
    m_filled(ex, st, a, None)
    # KL, KU: the widths found in the first pass (nothing was said about them, nor about BX, before this point)
    st.assume(and_(KL == kl, KU == ku))
    band(st, n, kl, ku, W)


def models():
    from gbsv import models as m
    return [(re.compile(r'^std::vector<double, std::allocator<double> ?>::assign\(unsigned long, '), on_assign)] + m.unbounded()


def spans_done(L):
    S, I, R = (L.vec(nm) for nm in ('spans', 'imins', 'rmaxs'))
    p, n = G['p'], G['n']
    s = lambda t: SPU(G['U0'][t])
    return [('spans', forall(1, lambda t: implies(and_(0 <= t, t < G['nu']), and_(S[t] == s(t), I[t] == s(t) - p, R[t] == p, p <= s(t), s(t) < n, G['k'][s(t)] < G['k'][s(t) + 1])), lambda t: [S[t], SPU(G['U0'][t])]))]


def width(L, row_lo, row_hi):
    M, kl, ku, W = bview(L)
    s = lambda t: SPU(G['U0'][t])
    return [('width', and_(kl == KL, ku == KU, W == kl + ku + 1, kl >= 0, ku >= 0, kl < G['n'], ku < G['n'])),
            ('band', forall(1, lambda t: implies(and_(0 <= t, t < G['nu']), and_(row_hi(t) - (s(t) - G['p']) <= kl, s(t) - row_lo(t) <= ku)), lambda t: [SPU(G['U0'][t])]))]


def asm_loops(nc):
    lo, hi = lambda t: nc * t, lambda t: nc * t + nc - 1

    def common(L):
        return spans_done(L) + width(L, lo, hi)

    def li(L):
        i = z(L.int('i'))
        return [('i', and_(0 <= i, i <= G['nu']))] + common(L) + filled(L, nc * i, lambda j: z3.BoolVal(False))

    def ders(L):
        T, i = L.raw('ders'), z(L.int('i'))
        p = G['p']
        s = SPU(G['U0'][i])
        return [('values', and_(*[forall(1, lambda j: implies(and_(s - p <= j, j <= s), T[d * (p + 1) + (j - s + p)] == DU(G['U0'][i], d, j)), lambda j: [DU(G['U0'][i], d, j)]) for d in range(nc)]))]

    def ld(L):
        i, d = z(L.int('i')), z(L.int('d'))
        return [('i', and_(0 <= i, i < G['nu'])), ('d', and_(0 <= d, d <= nc))] + common(L) + ders(L) + filled(L, nc * i + d, lambda j: z3.BoolVal(False))

    def lr(L):
        i, d, r = z(L.int('i')), z(L.int('d')), z(L.int('r'))
        p = G['p']
        s = SPU(G['U0'][i])
        M, kl, ku, W = bview(L)
        row = nc * i + d
        c = s - p + r
        return [('i', and_(0 <= i, i < G['nu'])), ('d', and_(0 <= d, d < nc)), ('r', and_(0 <= r, r <= p + 1))] + common(L) + ders(L) + \
            [('span', and_(p <= s, s < G['n'])), ('column', implies(r <= p, and_(0 <= c, c < G['n'], 0 <= row, row < G['n']))), ('cell', implies(r <= p, and_(c - row <= ku, row - c <= kl, BX(row, c) == row * W + (c - row + kl)))), ('row', and_(G['U'](row) == G['U0'][i], G['D'](row) == d))] + \
            filled(L, row, lambda j: and_(s - p <= j, j < c))
    AS = r'gbs::band_lu<double>::assemble_and_factorize\('
    nu = lambda L, v, top: z(top) - z(L.int(v))
    return {AS: {0: LoopSpec(inv_spans(lo, hi), lambda L: nu(L, 'i', G['nu'])), 1: LoopSpec(li, lambda L: nu(L, 'i', G['nu'])), 2: LoopSpec(ld, lambda L: nu(L, 'd', nc)), 3: LoopSpec(lr, lambda L: nu(L, 'r', G['p'] + 1))}}


def post_asm(ex, st, r):
    r = z3.BoolVal(bool(r)) if isinstance(r, (bool, int)) else r if z3.is_bool(r) else z(r) != 0
    return [('true only when the factorisation succeeded', implies(r, G['ret']) if 'ret' in G else z3.Not(r))]


for nc in (1, 2, 3):
    PROOFS.append(Proof('collocation matrix, %d constraint%s per point' % (nc, 's' * (nc > 1)), 'vc_asm', setup_asm(nc), post_asm, tu=TU, loops=asm_loops(nc), callees=CALLEES, models=models()))


# ---- the same, constraints in any number and order per parameter
def setup_asmc(ex, st):
    n = z3.Int('np')
    st.assume(n >= 1)
    b, kv, uv = setup_rows(ex, st, 1, n)
    dv, d = mk_vec(ex, st, n, 8, 'd', kinds={0: 'int'})
    st.assume(forall(1, lambda t: implies(and_(0 <= t, t < n), and_(d[t] >= 0, d[t] < 2**31)), lambda t: [d[t]]))
    G.update(D0=d.arr(0))
    G.update(U=lambda q: G['U0'][q], D=lambda q: G['D0'][q])
    return [b, uv, dv, kv, Lin.of(G['p'])]


def asmc_loops():
    row = lambda t: t

    def orders(top):
        return [('orders', forall(1, lambda t: implies(and_(0 <= t, t < top), G['D0'][t] <= G['p']), lambda t: [G['D0'][t]]))]

    def common(L):
        return spans_done(L) + width(L, row, row) + orders(G['n'])

    def l0(L):
        return inv_spans(row, row)(L) + orders(z(L.int('i')))

    def li(L):
        i = z(L.int('i'))
        return [('i', and_(0 <= i, i <= G['nu']))] + common(L) + filled(L, i, lambda j: z3.BoolVal(False))

    def lr(L):
        i, r, p = z(L.int('i')), z(L.int('r')), G['p']
        s = SPU(G['U0'][i])
        N = L.raw('Nd')
        M, kl, ku, W = bview(L)
        c = s - p + r
        return [('i', and_(0 <= i, i < G['nu'])), ('r', and_(0 <= r, r <= p + 1))] + common(L) + \
            [('values', forall(1, lambda x: implies(and_(0 <= x, x <= p), N[x] == DU(G['U0'][i], G['D0'][i], s - p + x)), lambda x: [N[x]])),
             ('span', and_(p <= s, s < G['n'])), ('column', implies(r <= p, and_(0 <= c, c < G['n']))), ('cell', implies(r <= p, and_(c - i <= ku, i - c <= kl, BX(i, c) == i * W + (c - i + kl))))] + \
            filled(L, i, lambda j: and_(s - p <= j, j < c))
    AS = r'gbs::band_lu<double>::assemble_and_factorize_constraints\('
    nu = lambda L, v, top: z(top) - z(L.int(v))
    return {AS: {0: LoopSpec(l0, lambda L: nu(L, 'i', G['nu'])), 1: LoopSpec(li, lambda L: nu(L, 'i', G['nu'])), 2: LoopSpec(lr, lambda L: nu(L, 'r', G['p'] + 1))}}


PROOFS.append(Proof('collocation matrix, constraints at any parameter', 'vc_asmc', setup_asmc, post_asm, tu=TU, loops=asmc_loops(), callees=CALLEES, models=models()))


# ---- tangents of neighbouring points
H = z3.Function('H', I_, R_)                   # u_{i+1} - u_i
QD = [z3.Function('QD%d' % c, I_, R_) for c in (0, 1)]
SL = [z3.Function('SL%d' % c, I_, R_) for c in (0, 1)]     # QD/H


def small(name, entry, ins, post, nz=False):
    """a list helper: ins are the element sizes of the inputs, the result is the last argument"""
    def setup(ex, st):
        n = z3.Int('n')
        st.assume(and_(n >= 2, n < MAXN))
        a = [mk_vec(ex, st, n, R, 'x%d' % j) for j, R in enumerate(ins)]
        if nz:
            st.assume(forall(1, lambda i: implies(and_(0 <= i, i < n), a[1][1].arr(0)[i] != 0), lambda i: [a[1][1].arr(0)[i]]))
        r = mk_vec(ex, st, z3.Int('d0'), ins[0], 'r')[0]
        st.assume(and_(z3.Int('d0') >= 0, z3.Int('d0') < MAXN))
        G.clear()
        G.update(n=n, x=[[v.arr(8 * c) for c in range(R // 8)] for (_, v), R in zip(a, ins)], r=r)
        return [x[0] for x in a] + [r]

    def check(ex, st, r):
        v = vec_view(ex, st, G['r'], ins[0])
        cut, f = post
        m = G['n'] - cut
        i = z3.Int('any_i')
        return [('length', z(v.len) == m)] + [('entry, coordinate %d' % c, implies(and_(0 <= i, i < m), z3.Select(v.arr(8 * c), i) == f(G['x'], c, i))) for c in range(ins[0] // 8)]
    PROOFS.append(Proof(name, entry, setup, check, tu=TU))


small('differences of a list of values', 'vc_delta', [8], (1, lambda x, c, i: x[0][c][i + 1] - x[0][c][i]))
small('differences of a list of points', 'vc_delta2', [16], (1, lambda x, c, i: x[0][c][i + 1] - x[0][c][i]))
small('points divided by values', 'vc_vdiv', [16, 8], (0, lambda x, c, i: x[0][c][i] * (1 / x[1][0][i])), True)


def gives(R, fns, need):
    """callee that returns a new list whose entries are fns (proved above)"""
    def apply(ex, st, a):
        from gbsv.stdvec import new_vec
        need(ex, st, a)
        n = G['n']
        cols = {}
        for c, f in enumerate(fns):
            cols[8 * c] = ex.fresh_arr('list', 'real')
            i = z3.Int('li')
            st.assume(z3.ForAll([i], implies(and_(0 <= i, i < n - 1), z3.Select(cols[8 * c], i) == f(i)), patterns=[z3.Select(cols[8 * c], i)]))
        new_vec(ex, st, a[0], R, {c: 'real' for c in cols}, n - 1, cols)
    return apply


def is_u(ex, st, a):
    v = vec_view(ex, st, a[1], 8)
    ex.oblige(st, 'pre:delta: the parameters', and_(z(v.len) == G['n'], G['n'] >= 2, v.arr(0) == G['U0']))


def is_q(ex, st, a):
    v = vec_view(ex, st, a[1], 16)
    ex.oblige(st, 'pre:delta: the points', and_(z(v.len) == G['n'], v.arr(0) == G['Q0'][0], v.arr(8) == G['Q0'][1]))


def is_qh(ex, st, a):
    q, h = vec_view(ex, st, a[1], 16), vec_view(ex, st, a[2], 8)
    i = z3.Int('any_q')
    ok = and_(0 <= i, i < G['n'] - 1)
    ex.oblige(st, 'pre:operator/: lengths', and_(z(q.len) == G['n'] - 1, z(h.len) == G['n'] - 1))
    ex.oblige(st, 'pre:operator/: chords by parameter steps', implies(ok, and_(z3.Select(q.arr(0), i) == QD[0](i), z3.Select(q.arr(8), i) == QD[1](i), z3.Select(h.arr(0), i) == H(i), H(i) != 0)))


TGCALL = [Contract(r'gbs::delta<double>\(', gives(8, [H], is_u), 'delta of values (this property)'),
          Contract(r'gbs::delta<std::array<double, 2ul> >\(', gives(16, QD, is_q), 'delta of points (this property)'),
          Contract(r'gbs::operator/<double, 2ul>\(std::vector', gives(16, SL, is_qh), 'points divided by values (this property)')]


def slope(c, i):
    return SL[c](i)


def setup_tg(ex, st):
    n = z3.Int('n')
    st.assume(and_(n >= 3, n < MAXN))
    qv, Q = mk_vec(ex, st, n, 16, 'Q')
    uv, u = mk_vec(ex, st, n, 8, 'u')
    dv, D = mk_vec(ex, st, z3.Int('d0'), 16, 'D0')
    st.assume(and_(z3.Int('d0') >= 0, z3.Int('d0') < MAXN))
    G.clear()
    G.update(n=n, Q0=[Q.arr(0), Q.arr(8)], U0=u.arr(0), D=dv)
    st.assume(forall(1, lambda i: implies(and_(0 <= i, i + 1 < n), H(i) > 0), lambda i: [H(i)]))
    return [qv, uv, dv]


def bessel(c, i):
    a = H(i - 1) / (H(i) + H(i - 1))
    return (1 - a) * slope(c, i - 1) + a * slope(c, i)


def post_tg(ex, st, r):
    D, n = vec_view(ex, st, G['D'], 16), G['n']
    g = [('one tangent per point', z(D.len) == n)]
    at = lambda c, i: z3.Select(D.arr(8 * c), i)
    i = z3.Int('any_i')          # arbitrary
    for c in (0, 1):
        g += [('inside, coordinate %d' % c, implies(and_(1 <= i, i <= n - 2), at(c, i) == bessel(c, i))),
              ('first, coordinate %d' % c, at(c, 0) == 2 * slope(c, 0) - bessel(c, z3.IntVal(1))),
              ('last, coordinate %d' % c, at(c, n - 1) == 2 * slope(c, n - 2) - bessel(c, n - 2))]
    return g


PROOFS.append(Proof('tangents from three points', 'vc_tgv', setup_tg, post_tg, tu=TU, callees=TGCALL))


def parabola(ex):
    a, b, c, u0, u1, u2 = z3.Reals('a b c u0 u1 u2')
    f = lambda t: a + b * t + c * t * t
    df = lambda t: b + 2 * c * t
    s0, s1, al = z3.Reals('s0 s1 al')
    h = [u0 < u1, u1 < u2]
    hs = h + [s0 == b + c * (u0 + u1), s1 == b + c * (u1 + u2), al * (u2 - u0) == u1 - u0]
    yield 'slope of a parabola', h + [s0 * (u1 - u0) == f(u1) - f(u0)], s0 == b + c * (u0 + u1)
    yield 'exact inside', hs, (1 - al) * s0 + al * s1 == df(u1)
    yield 'exact at the first point', hs, 2 * s0 - df(u1) == df(u0)
    yield 'exact at the last point', hs, 2 * s1 - df(u1) == df(u2)


PROOFS.append(Lemma('tangents of a parabola are exact', parabola, tu=TU))


# ---- parametrization
def setup_par(mode):
    def go(ex, st):
        n = z3.Int('n')
        st.assume(and_(n >= 2, n < MAXN))
        qv, Q = mk_vec(ex, st, n, 16, 'Q')
        uv, u = mk_vec(ex, st, z3.Int('d0'), 8, 'u')
        st.assume(and_(z3.Int('d0') >= 0, z3.Int('d0') < MAXN))
        G.clear()
        G.update(n=n, Q=[Q.arr(0), Q.arr(8)], u=uv, mode=mode)
        return [qv, mode, uv]
    return go


def length(i):
    from gbsv import models as M
    d = [q[i + 1] - q[i] for q in G['Q']]
    s = M.SQRT(d[0] * d[0] + d[1] * d[1])
    return M.SQRT(s) if G['mode'] == 2 else s


def post_par(ex, st, r):
    u, n = vec_view(ex, st, G['u'], 8), G['n']
    step = (lambda i: length(i)) if G['mode'] else (lambda i: 1 / z3.ToReal(n - 1))
    return [('one parameter per point', z(u.len) == n), ('starts at 0', u[0] == 0), ('steps', forall(1, lambda i: implies(and_(0 <= i, i + 1 < n), u[i + 1] - u[i] == step(i))))]


def inv_chord(L):
    """inside std::transform: the running sum is the last parameter written"""
    u = L.ptr('__result')
    n = G['n']
    i = z(num(Lin.of(u.off).div(8).norm()))
    q1, q2 = (z(num(Lin.of(L.ptr(v).off).div(16).norm())) for v in ('__first1', '__first2'))
    A = z3.Select
    arr = L.ex.col(L.st, u.o, 0, 'real')
    k = L.st.mem[L.addr('__binary_op').o]
    run = L.ex.load(L.st, DBL, L.addr('__binary_op').at(8 if k.size == 16 else 0))
    return [('cursor', and_(1 <= i, i <= n, q1 == i, q2 == i - 1)), ('first', A(arr, z3.IntVal(0)) == 0), ('sum', z(run) == A(arr, i - 1)),
            ('steps', forall(1, lambda t: implies(and_(0 <= t, t + 1 < i), A(arr, t + 1) - A(arr, t) == length(t)), lambda t: [A(arr, t)]))]


def inv_gen(L):
    u = L.ptr('__first')
    n = G['n']
    i = z(num(Lin.of(u.off).div(8).norm()))
    arr = L.ex.col(L.st, u.o, 0, 'real')
    A = z3.Select
    run = L.ex.load(L.st, DBL, L.addr('__gen').at(8))
    step = 1 / z3.ToReal(n - 1)
    return [('cursor', and_(1 <= i, i <= n)), ('first', A(arr, z3.IntVal(0)) == 0), ('sum', z(run) == A(arr, i - 1)),
            ('steps', forall(1, lambda t: implies(and_(0 <= t, t + 1 < i), A(arr, t + 1) - A(arr, t) == step), lambda t: [A(arr, t)]))]


def end_cursor(L, nm):
    return G['n'] - z(num(Lin.of(L.ptr(nm).off).div(8).norm()))


PLOOPS = {r'std::transform<.*gbs::curve_parametrization<': {0: LoopSpec(inv_chord, lambda L: end_cursor(L, '__result'))}, r'std::generate<.*gbs::curve_parametrization<': {0: LoopSpec(inv_gen, lambda L: end_cursor(L, '__first'))}}
for nm, mode in (('equal steps', 0), ('chord lengths', 1), ('square roots of chord lengths', 2)):
    PROOFS.append(Proof('parametrization by ' + nm, 'vc_par', setup_par(mode), post_par, tu=TU, loops=PLOOPS))

# ---------------------------------------------------------------- the whole interpolation, natively
def sq(x):
    return math.sqrt(float(x))


class S_(Suite):
    tu = 'interpn.cpp'
    rule = 'random points, derivatives and parameters (degree 1-6, up to 40 points, batches, constraints in shuffled order, end constraints, grids): the resulting curve or surface is evaluated exactly at every constraint'

    def cases(self, rng, tier):
        N = {'quick': 130, 'thorough': 2500, 'search': 1000}[tier]
        par = lambda n: [x * F(1, 8) for x in sorted(rng.sample(range(-40, 8 * n + 40), n))]
        for it in range(N):
            p = rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])
            n = p + 1 + rng.choice([0, 1, 2, 3, 6, 12, 33 if it % 5 == 0 else 4])
            Q = self.far(rng, n, 3)
            yield 'points', (fl(Q), fl(O.pts(rng, n, 3)), fl(par(n)), p, rng.randrange(3), rng.random() < 0.5, rng.choice([2, 3, 9, 70]))
            n = rng.choice([2, 3, 4, 5, 9, 20])
            yield 'hermite', (fl(O.pts(rng, n, 6)), fl(O.pts(rng, n, 6)), fl(par(n)), fl([a + b for a, b in zip(self.far(rng, n, 2), O.pts(rng, n, 2))]), rng.randrange(3))
            n = rng.choice([3, 4, 5, 8, 15])
            yield 'tangents', (fl(O.pts(rng, n, 2)), fl(par(n)), fl(O.pts(rng, 3, 2)))
            p = rng.choice([1, 2, 3, 3, 4, 5])
            d = par(rng.choice([2, 3, 4, 6, 14, 20]))
            c = [(t, o) for t in d for o in range(rng.randrange(1, max(2, p)))]
            while len(c) < p + 1:
                c.append((c[-1][0] + 1, 0))
            sh = list(c)
            rng.shuffle(sh)
            yield 'constraints', (p, [(fl(a), b) for a, b in (c if it % 3 == 0 else sh)], fl(O.pts(rng, len(c), 2)))
            inner = [x for x in c if x != (d[0], 0) and x != (c[-1][0], 0)]
            rng.shuffle(inner)
            yield 'ends', (p, fl(d[0]), fl(c[-1][0]), [(fl(a), b) for a, b in inner], fl(O.pts(rng, len(inner) + 2, 2)))
            if it % 2 == 0:
                p, q = rng.choice([1, 2, 3, 3]), rng.choice([1, 2, 3, 3])
                nu, nv = p + 1 + rng.randrange(4), q + 1 + rng.randrange(4)
                Q = [[F(i) * 3 + x[0] / 40, F(j) * 2 + x[1] / 40, x[2]] for (i, j), x in zip([(i, j) for j in range(nv) for i in range(nu)], O.pts(rng, nu * nv, 3))]
                yield 'grid', (p, q, nu, nv, fl(Q), fl(par(nu)), fl(par(nv)), rng.randrange(3), rng.random() < 0.5)

    def far(self, rng, n, dim):
        """points of which neighbours differ"""
        P = O.pts(rng, n, dim)
        for a, b in zip(P, P[1:]):
            if a == b:
                b[0] += F(1, 2)
        return P

    def meets(self, crv, u, d, want, what, rel=1e-8):
        p, k, P = crv
        u = min(max(F(u), k[p]), k[-p - 1])
        v, s = O.curve(u, d, p, k, P)
        for c in range(len(want)):
            if not abs(v[c] - F(want[c])) <= F(rel) * max(s[c], abs(F(want[c]))) + F(1e-10):
                self.fail('%s: at u=%r derivative %d, coordinate %d is %r, the constraint says %r' % (what, float(u), d, c, float(v[c]), float(want[c])))

    def shape(self, P, k, p, n, what):
        if len(P) != n or len(k) != n + p + 1:
            self.fail('%s: %d poles and %d knots for %d constraints, degree %d' % (what, len(P), len(k), n, p))

    def simple(self, u, p):
        U = ex_(u)
        n = len(u)
        return [U[0]] * (p + 1) + [sum(U[j:j + p]) / p for j in range(1, n - p)] + [U[-1]] * (p + 1)

    def param(self, Q, m, adim):
        n = len(Q)
        if m == 0:
            k = [i / (n - 1) for i in range(n)]
        else:
            k = [0.]
            for a, b in zip(Q, Q[1:]):
                l = math.sqrt(sum((F(x) - F(y)) ** 2 for x, y in zip(a, b)))
                k.append(k[-1] + (l if m == 1 else math.sqrt(l)))
        return [x / k[-1] for x in k] if adim else k

    def run(self, lib, g, c):
        if g == 'points':
            Q, R, u, p, m, adim, nb = c
            n = len(Q)
            o = self.ok(lib.call('vc_npar', [Vec(Q, 3), m, adim, Vec([])])).out[3]
            close_list(self, o, ex_(self.param(Q, m, adim)), 'parametrization', rel=1e-11)
            uu = self.param(Q, m, True)
            for nm, args in (('vc_ncn', [Vec(Q, 3), p, m]), ('vc_ncnb', [Vec(Q, 3), Vec(R, 3), nb, p, m])):
                if nm == 'vc_ncnb' and any(a == b for a, b in zip(R, R[1:])):
                    continue
                r = self.ok(lib.call(nm, args + [Vec([], 3), Vec([])]), nm).out
                P, k = exl(r[len(args)]), exl(r[len(args) + 1])
                self.shape(P, k, p, n, nm)
                for t, q in zip(uu, Q):
                    self.meets((p, k, P), t, 0, q, 'interpolation of points', 1e-7)
            r = self.ok(lib.call('vc_ncnu', [Vec(Q, 3), Vec(u), p, Vec([], 3), Vec([])])).out
            P, k = exl(r[3]), exl(r[4])
            self.shape(P, k, p, n, 'interpolation at given parameters')
            for t, q in zip(u, Q):
                self.meets((p, k, P), t, 0, q, 'interpolation at given parameters')
            r = self.ok(lib.call('vc_nfn', [Vec([q[0] for q in Q]), Vec(u), p, Vec([]), Vec([])])).out
            P, k = exp_(r[3], 1), exl(r[4])
            for t, q in zip(u, Q):
                self.meets((p, k, P), t, 0, q[:1], 'interpolation of values')
            if n > 1:
                r = lib.call('vc_ncn', [Vec(Q, 3), n, m, Vec([], 3), Vec([])])
                if r.rc != 1:
                    self.fail('interpolation with a degree as large as the number of points was not refused')
        elif g == 'hermite':
            Q, R, u, S, m = c
            n = len(u)
            Q4, R4 = [q[:4] for q in Q], [q[:4] for q in R]
            for add in (False, True):
                if add and n < 3:
                    continue
                r = self.ok(lib.call('vc_nc2', [Vec(Q4, 4), Vec(u), add, Vec([], 2), Vec([])])).out
                p = 5 if add else 3
                P, k = exl(r[3]), exl(r[4])
                self.shape(P, k, p, n * (3 if add else 2), 'Hermite interpolation')
                for t, q in zip(u, Q):
                    self.meets((p, k, P), t, 0, q[:2], 'Hermite interpolation')
                    self.meets((p, k, P), t, 1, q[2:4], 'Hermite interpolation')
                if add:
                    D = self.bessel([q[2:4] for q in Q], u)
                    D[0] = D[-1] = [F(0)] * 2
                    for t, d in zip(u, D):
                        self.meets((p, k, P), t, 2, d, 'Hermite interpolation with computed second derivatives')
            r = self.ok(lib.call('vc_nc3', [Vec(Q, 6), Vec(u), Vec([], 2), Vec([])])).out
            P, k = exl(r[2]), exl(r[3])
            self.shape(P, k, 5, n * 3, 'Hermite interpolation, second order')
            for t, q in zip(u, Q):
                for d in range(3):
                    self.meets((5, k, P), t, d, q[2 * d:2 * d + 2], 'Hermite interpolation, second order')
            if all(a != b for a, b in zip(S, S[1:])):
                T = [list(s) + list(q[2:4]) for s, q in zip(S, Q)]
                T4 = [t[:2] + t[-2:] for t in T]
                if all(a[:2] != b[:2] for a, b in zip(T4, T4[1:])):
                    r = self.ok(lib.call('vc_nc2m', [Vec(T4, 4), m, Vec([], 2), Vec([])])).out
                    P, k = exl(r[2]), exl(r[3])
                    for t, q in zip(self.param([x[:2] for x in T4], m, False), T4):
                        self.meets((3, k, P), t, 0, q[:2], 'Hermite interpolation, computed parameters', 1e-7)
                        self.meets((3, k, P), t, 1, q[2:], 'Hermite interpolation, computed parameters', 1e-7)
            k = [F(u[0])] * 4 + [F(x) for x in u[1:-1] for _ in range(2)] + [F(u[-1])] * 4
            P = exl(self.ok(lib.call('vc_ncol', [Vec(Q4, 4), Vec(R4, 4), Vec(fl(k)), Vec(u), 3, Vec([], 2)])).out[5])
            if len(P) != 6 * n:
                self.fail('batched poles: %d poles for three columns of %d' % (len(P), 2 * n))
            for b, src in enumerate((Q4, R4, Q4)):
                for t, q in zip(u, src):
                    self.meets((3, k, P[b * 2 * n:(b + 1) * 2 * n]), t, 0, q[:2], 'column %d of a batch' % b)
                    self.meets((3, k, P[b * 2 * n:(b + 1) * 2 * n]), t, 1, q[2:4], 'column %d of a batch' % b)
        elif g == 'tangents':
            Q, u, par = c
            D = self.bessel(Q, u)
            self.pts(self.ok(lib.call('vc_ntgv', [Vec(Q, 2), Vec(u), Vec([], 2)])).out[2], D, 'Bessel tangents')
            A = ex_(par)
            f = lambda t: [float(A[0][i] + A[1][i] * t / 8 + A[2][i] * t * t / 64) for i in (0, 1)]
            df = lambda t: [A[1][i] / 8 + 2 * A[2][i] * t / 64 for i in (0, 1)]
            self.pts(self.ok(lib.call('vc_ntgv', [Vec([f(F(t)) for t in u], 2), Vec(u), Vec([], 2)])).out[2], [df(F(t)) for t in u], 'Bessel tangents of a parabola', 1e-7)
            D = self.bessel(Q, u, False)
            nrm = [sum(x * x for x in d) for d in D]
            if all(nrm):
                self.pts(self.ok(lib.call('vc_ntgd', [Vec(Q, 2), Vec(u), Vec([], 2)])).out[2], [[F(float(x) / math.sqrt(l)) for x in d] for d, l in zip(D, nrm)], 'Bessel directions', 1e-9)
            r = lib.call('vc_ntgd', [Vec(Q[:2], 2), Vec(u[:2]), Vec([], 2)])
            if r.rc != 1:
                self.fail('directions of two points were not refused')
        elif g == 'constraints':
            p, cs, V = c
            tau = sorted(t for t, o in cs)
            k = self.simple(tau, p)
            kf = fl(k)
            P = exl(self.ok(lib.call('vc_ngen', [Vec([t for t, o in cs]), Vec([o for t, o in cs], 1, 'Q'), Vec(V, 2), Vec(kf), p, Vec([], 2)])).out[5])
            for (t, o), v in zip(cs, V):
                self.meets((p, exl(np.array(kf)), P), t, o, v, 'constraints in any order', 1e-7)
        elif g == 'ends':
            p, a, b, cs, V = c
            if len(cs) + 2 < p + 1:
                r = lib.call('vc_nbnd', [a, Vec(V[:2], 2), b, Vec([t for t, o in cs]), Vec([o for t, o in cs], 1, 'Q'), Vec(V[2:], 2), p, Vec([], 2), Vec([])])
                if r.rc != 1:
                    self.fail('too few constraints for the degree were not refused')
                return
            r = self.ok(lib.call('vc_nbnd', [a, Vec(V[:2], 2), b, Vec([t for t, o in cs]), Vec([o for t, o in cs], 1, 'Q'), Vec(V[2:], 2), p, Vec([], 2), Vec([])])).out
            P, k = exl(r[7]), exl(r[8])
            self.shape(P, k, p, len(cs) + 2, 'interpolation between two ends')
            for (t, o), v in zip([(a, 0), (b, 0)] + list(cs), V):
                self.meets((p, k, P), t, o, v, 'interpolation between two ends', 1e-7)
        elif g == 'grid':
            p, q, nu, nv, Q, u, v, m, rev = c
            ku, kv = fl(self.simple(u, p)), fl(self.simple(v, q))
            o = self.ok(lib.call('vc_nsbp', [Vec(Q, 3), Vec(ku), Vec(kv), Vec(u), Vec(v), p, q, Vec([], 3)])).out[7]
            at = [(i, j) for j in range(nv) for i in range(nu)]
            self.onsurf((p, q, exl(np.array(ku)), exl(np.array(kv)), exl(o)), [(u[i], v[j], x) for (i, j), x in zip(at, Q)], 'grid of points')
            cs = [(u[i], v[j], x) for (i, j), x in zip(at, Q)]
            if rev:
                cs = cs[::-1]
            z0 = [0] * len(cs)
            o = self.ok(lib.call('vc_nscs', [Vec([x[2] for x in cs], 3), Vec([x[0] for x in cs]), Vec([x[1] for x in cs]), Vec(z0, 1, 'Q'), Vec(z0, 1, 'Q'), Vec(ku), Vec(kv), p, q, Vec([], 3)])).out[9]
            self.onsurf((p, q, exl(np.array(ku)), exl(np.array(kv)), exl(o)), cs, 'surface constraints')
            avg = lambda L: [sum(x[i] for x in L) / len(L) for i in range(len(L[0]))]
            uu = avg([self.param([Q[i + nu * j] for i in range(nu)], m, True) for j in range(nv)])
            vv = avg([self.param([Q[i + nu * j] for j in range(nv)], m, True) for i in range(nu)])
            r = self.ok(lib.call('vc_nsrf', [Vec(Q, 3), nv, p, q, m, Vec([], 3), Vec([]), Vec([])])).out
            self.onsurf((p, q, exl(r[6]), exl(r[7]), exl(r[5])), [(uu[i], vv[j], x) for (i, j), x in zip(at, Q)], 'surface through points')

    def onsurf(self, s, cs, what):
        p, q, ku, kv, P = s
        for u, v, x in cs:
            u, v = min(max(F(u), ku[0]), ku[-1]), min(max(F(v), kv[0]), kv[-1])
            g, m = O.surface(u, v, 0, 0, p, q, ku, kv, P)
            for c in range(3):
                if not abs(g[c] - F(x[c])) <= F(1e-7) * max(m[c], abs(F(x[c]))) + F(1e-9):
                    self.fail('%s: at (%r,%r) coordinate %d is %r, the constraint says %r' % (what, float(u), float(v), c, float(g[c]), float(x[c])))

    def bessel(self, Q, u, slopes=True):
        Q, u = ex_(Q), ex_(u)
        n = len(Q)
        du = [b - a for a, b in zip(u, u[1:])]
        d = [[(b - a) / (du[i] if slopes else 1) for a, b in zip(Q[i], Q[i + 1])] for i in range(n - 1)]
        D = [None] * n
        for i in range(1, n - 1):
            al = du[i - 1] / (du[i - 1] + du[i])
            D[i] = [(1 - al) * a + al * b for a, b in zip(d[i - 1], d[i])]
        D[0] = [2 * a - b for a, b in zip(d[0], D[1])]
        D[-1] = [2 * a - b for a, b in zip(d[-1], D[-2])]
        return D

    def pts(self, got, want, what, rel=1e-10):
        if len(got) != len(want):
            self.fail('%s: %d vectors, expected %d' % (what, len(got), len(want)))
        sc = max([abs(x) for w in want for x in w] + [F(1)])
        for i, (a, b) in enumerate(zip(exl(got), want)):
            for x, y in zip(a, b):
                if abs(x - y) > F(rel) * sc:
                    self.fail('%s: entry %d is %r, expected %r' % (what, i, fl(a), fl(b)))


SUITE = S_()
