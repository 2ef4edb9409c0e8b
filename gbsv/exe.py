"""Symbolic executor / verification-condition generator over LLVM IR.

 * loops with a contract (invariant) are cut: invariant checked on entry, loop targets havocked, invariant assumed,
   one arbitrary iteration executed, invariant checked again;
 * loops without one are executed, and must be decided by concrete control (otherwise Unsupported);
 * calls to functions under contract use the contract (requires checked, ensures assumed), never the body;
   other calls are inlined from their IR;
 * every memory access through a symbolic index and every division yields an obligation.
"""
import re, itertools, time
from fractions import Fraction
from math import gcd
import z3
from .ir import Unsupported, Module, PTR, DBL, FLT, VOID, I1, I8, I32, I64
from .vals import *


class Obj:
    __slots__ = ('id', 'kind', 'size', 'name', 'cells', 'zeros', 'R', 'cols', 'len', 'ro')

    def __init__(self, id, kind, size, name):
        self.id, self.kind, self.size, self.name = id, kind, size, name
        self.cells, self.zeros = {}, []
        self.R, self.cols, self.len, self.ro = None, {}, None, False

    def copy(self):
        o = Obj(self.id, self.kind, self.size, self.name)
        o.cells, o.zeros = dict(self.cells), list(self.zeros)
        o.R, o.cols, o.len, o.ro = self.R, dict(self.cols), self.len, self.ro
        return o


class Frame:
    __slots__ = ('f', 'blk', 'ip', 'prev', 'regs', 'vars', 'call', 'cuts', 'allocas', 'hook')

    def __init__(self, f):
        self.f, self.blk, self.ip, self.prev = f, f.entry, 0, None
        self.regs, self.vars, self.call, self.cuts, self.allocas, self.hook = {}, {}, None, {}, {}, None

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.blk, n.ip, n.prev = self.f, self.blk, self.ip, self.prev
        n.regs, n.vars, n.call, n.cuts, n.allocas, n.hook = dict(self.regs), dict(self.vars), self.call, dict(self.cuts), dict(self.allocas), self.hook
        return n


class State:
    def __init__(self):
        self.mem, self.owned, self.pc, self.frames = {}, set(), [], []
        self.writes = None          # set of (obj, off) being recorded
        self.exc = None
        self.ghost = {}
        self.depth = 0

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.writes = self.writes
        s.exc, s.depth = self.exc, self.depth
        s.ghost = dict(self.ghost)
        return s

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(f)


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'where', 'status', 'info', 'time', 'backend', 'skolem')

    def __init__(self, name, hyps, goal, where):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where
        self.status, self.info, self.time, self.backend = None, '', 0, ''


class WriteSetTooSmall(Exception):
    """a cached loop write set was too small: the contract is generated again without the cache"""


class PathEnd(Exception):
    pass


DIV = z3.Function('DIV', z3.RealSort(), z3.RealSort(), z3.RealSort())


class Exec:
    def __init__(self, mod, mode='proof', max_steps=2000000, max_paths=4000, deadline=None):
        self.mod, self.mode = mod, mode
        self.obls = []
        self.contracts = []       # callee contracts in force: list of (regex, apply)
        self.models = []          # (regex, fn)
        self.loopspecs = {}       # function name -> {header index: LoopSpec}
        self._disp = {}
        self.ids = itertools.count(1)
        self.fresh_n = itertools.count(1)
        self.steps, self.max_steps, self.max_paths = 0, max_steps, max_paths
        self.deadline = deadline
        self.suppress = 0
        self.feas_cache = {}
        self.axioms = []          # global definitional axioms (quantified); used for obligations only
        self.divs = {}            # (num id, den id) -> q
        self.divax = {}           # q id -> axiom
        self.functions_seen = set()
        self.models_used = set()
        self.check_div = True
        self.solver_time = 0.0
        self.concrete_reals = False
        self.globs = {}
        self.base_objs = {}
        self.unroll_limit = 400
        self.branch_hint = None
        self.n_feas = 0
        self.throws = []
        self.inline_div = False
        self.div_fn = False       # also name quotients by the (uninterpreted) function DIV, for congruence with the specification
        self.read_log = None
        self.automaps = 0
        self.nocheck, self.dirty, self.wcache, self.use_cache = 0, 0, {}, True
        self.bound_hints = None

    # ------------------------------------------------------------ basics
    def fresh_int(self, name, st=None, bits=64):
        v = z3.Int('%s!%d' % (name, next(self.fresh_n)))
        if st is not None:
            st.pc.append(z3.And(v >= -(1 << (bits - 1)), v < (1 << (bits - 1))))
        return v

    def fresh_real(self, name):
        return z3.Real('%s!%d' % (name, next(self.fresh_n)))

    def fresh_arr(self, name, kind='real'):
        return z3.Array('%s!%d' % (name, next(self.fresh_n)), z3.IntSort(), z3.RealSort() if kind == 'real' else z3.IntSort())

    def new_obj(self, st, size, name, kind='cells'):
        o = Obj(next(self.ids), kind, size, name)
        st.mem[o.id] = o
        st.owned.add(o.id)
        return o

    def new_sym(self, st, R, length, name, cols=None):
        o = self.new_obj(st, None, name, 'sym')
        o.R, o.len = R, length
        o.cols = dict(cols or {})
        return o

    def where(self, st):
        fr = st.frames[-1] if st.frames else None
        if fr is None:
            return 'contract'
        ln = 0
        ins = fr.f.blocks[fr.blk]
        if fr.ip < len(ins) and ins[fr.ip].dbg is not None:
            ln = self.mod.line(ins[fr.ip].dbg)
        return '%s:%d' % (fr.f.demangled.split('(')[0], ln)

    def oblige(self, st, name, goal, where=None):
        """record an obligation and assume it afterwards"""
        if isinstance(goal, bool):
            if goal:
                return
            goal = z3.BoolVal(False)
        if self.suppress == 0:
            w = where or self.where(st)
            for g in split_goal(goal):
                self.obls.append(Obligation(name, list(st.pc), g, w))
        st.pc.append(goal)

    # quick solver on the quantifier-free part of the path condition
    def check(self, st, extra=(), timeout=800):
        t0 = time.time()
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
        s.set('timeout', timeout * 6)
        s.set('rlimit', timeout * 2500)      # a work limit, so that the outcome does not depend on the load of the machine
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        for f in extra:
            s.add(f)
        for ax in self.div_axioms(list(st.pc) + list(extra)):
            s.add(ax)
        r = s.check()
        self.n_feas += 1
        self.solver_time += time.time() - t0
        return r

    def known(self, st, cond):
        """is cond entailed by the path condition (cheap check)?"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st, [z3.Not(c)]) == z3.unsat

    def div_axioms(self, fs):
        if not self.divax:
            return []
        out, seen, todo = [], set(), list(fs)
        vis = set()
        while todo:
            f = todo.pop()
            for q in real_consts(f, vis):
                if q in self.divax and q not in seen:
                    seen.add(q)
                    out.append(self.divax[q])
                    todo.append(self.divax[q])
        return out

    def rdiv(self, a, b):
        """a/b as a definitional constant q with b!=0 -> q*b==a"""
        if not is_sym(a) and not is_sym(b):
            return a / b
        if not is_sym(b):
            return mulr(a, 1 / b)
        a, b = z(a), z(b)
        if self.inline_div:
            return a / b
        k = (a.get_id(), b.get_id())
        if k not in self.divs:
            q = z3.Real('q!%d' % next(self.fresh_n))
            self.divs[k] = (q, a, b)
            ax = z3.Implies(b != 0, q * b == a)
            self.divax[q.get_id()] = z3.And(ax, q == DIV(a, b)) if self.div_fn else ax
        return self.divs[k][0]

    # ------------------------------------------------------------ memory
    def kind_of(self, ty):
        return 'real' if ty in (DBL, FLT) else 'int'

    def to_sym(self, st, oid, lin):
        o = st.w(oid)
        g = 0
        for _, c in lin.t.values():
            g = gcd(g, abs(c))
        if o.size is None or g == 0 or o.size % g:
            raise Unsupported('symbolic access to %s' % o.name)
        o.kind, o.R, o.len = 'sym', g, o.size // g
        cols = {}
        for off, (ty, v) in o.cells.items():
            if isinstance(v, (Ptr, FnPtr, Undef)):
                raise Unsupported('pointer in symbolically indexed object')
            c = off % g
            k = self.kind_of(ty)
            if c not in cols:
                cols[c] = [k, self.fresh_arr(o.name, k)]
                for lo, hi in o.zeros:
                    for x in range(lo, hi, 1):
                        if x % g == c and x not in o.cells:
                            cols[c][1] = z3.Store(cols[c][1], x // g, z(Fraction(0)) if k == 'real' else z(0))
            cols[c][1] = z3.Store(cols[c][1], off // g, z(v))
        o.cells = {}
        if o.zeros and not cols:
            cols = {}
            for lo, hi in o.zeros:
                if lo == 0 and hi == o.size:
                    for c in range(0, g, 8):
                        cols[c] = ['real', z3.K(z3.IntSort(), z3.RealVal(0))]
        o.zeros = []
        o.cols = {c: tuple(v) for c, v in cols.items()}
        return o

    def sym_index(self, o, off):
        lin = Lin.of(off)
        if not lin.divisible(o.R):
            raise Unsupported('index not a multiple of the record size in ' + o.name)
        col = lin.c % o.R
        idx = Lin(lin.t, lin.c - col).div(o.R).norm()
        return (idx.expr() if isinstance(idx, Lin) else idx), col

    def col(self, st, oid, col, kind):
        o = st.mem[oid]
        if col not in o.cols:
            o = st.w(oid)
            o.cols[col] = (kind, self.fresh_arr('%s.%d' % (o.name, col), kind))
        return o.cols[col][1]

    def load(self, st, ty, p):
        k = ty[0]
        if k in ('n', 's', 'a', 'v'):
            return [self.load(st, t, p.at(o)) for o, t in self.mod.flat(ty)]
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if p.o == 0:
            self.oblige(st, 'null-dereference', False)
            raise PathEnd()
        o = st.mem[p.o]
        if o.kind == 'cells' and not isinstance(p.off, int):
            o = self.to_sym(st, p.o, p.off)
        if o.kind == 'sym':
            i, c = self.sym_index(o, p.off)
            self.bounds(st, o, i, 'read')
            if self.read_log is not None:
                self.read_log.append((p.o, c, z(i), list(st.pc)))
            v = z3.simplify(z3.Select(self.col(st, p.o, c, self.kind_of(ty)), z(i)), expand_select_store=False) if False else z3.Select(self.col(st, p.o, c, self.kind_of(ty)), z(i))
            if ty == I1 or ty == I8:
                return v
            return v
        if o.size is not None and not (0 <= p.off and p.off + self.mod.size(ty) <= o.size):
            self.oblige(st, 'bounds:read %s' % o.name, False)
            raise PathEnd()
        if p.off in o.cells:
            t0, v = o.cells[p.off]
            if v is UNDEF:
                v = self.fresh_of(ty, 'undef')
                st.w(p.o).cells[p.off] = (ty, v)
            if ty in (DBL, FLT) and isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return Fraction(0)
                if not is_sym(v):
                    import struct
                    return Fraction(struct.unpack('<d', struct.pack('<q', v))[0])
            if ty == I8 and isinstance(v, bool):
                return int(v)
            return v
        for lo, hi in o.zeros:
            if lo <= p.off < hi:
                return self.zero(ty)
        # partial access into a wider concrete integer cell
        for off, (t0, v) in o.cells.items():
            sz = self.mod.size(t0)
            if off < p.off < off + sz and isinstance(v, int):
                return (v >> (8 * (p.off - off))) & ((1 << (8 * self.mod.size(ty))) - 1)
        v = self.fresh_of(ty, 'uninit_' + o.name)
        st.w(p.o).cells[p.off] = (ty, v)
        return v

    def fresh_of(self, ty, name):
        if ty in (DBL, FLT):
            return self.fresh_real(name)
        if ty == PTR:
            return UNDEF
        if ty == I1:
            return z3.Bool('%s!%d' % (name, next(self.fresh_n)))
        return self.fresh_int(name)

    def zero(self, ty):
        k = ty[0]
        if k in ('d', 'f', 'x80'):
            return Fraction(0)
        if k == 'p':
            return NULL
        if k == 'i':
            return False if ty[1] == 1 else 0
        return [self.zero(t) for _, t in self.mod.flat(ty)]

    def bounds(self, st, o, i, what):
        if o.len is None:
            return
        if isinstance(i, int) and isinstance(o.len, int):
            self.oblige(st, 'bounds:%s %s' % (what, o.name), 0 <= i < o.len)
            return
        self.oblige(st, 'bounds:%s %s' % (what, o.name), z3.And(z(0) <= z(i), z(i) < z(o.len)))

    def record(self, st, oid, key):
        if st.writes is not None:
            st.writes.add((oid, key))
        if self.nocheck:
            return
        for i, fr in enumerate(st.frames):
            for h, c in fr.cuts.items():
                if c.__class__ is tuple and c[0] == 'cut' and oid <= c[3] and (oid, key) not in c[2]:
                    # a write the loop contract was not havocked for
                    if self.suppress:
                        self.wcache.setdefault(c[4], set()).add((oid, key))
                        self.dirty += 1
                    else:
                        raise WriteSetTooSmall()

    def store(self, st, ty, p, v):
        k = ty[0]
        if k in ('n', 's', 'a', 'v'):
            for (o, t), x in zip(self.mod.flat(ty), v):
                self.store(st, t, p.at(o), x)
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if p.o == 0:
            self.oblige(st, 'null-dereference', False)
            raise PathEnd()
        o = st.mem[p.o]
        if o.kind == 'cells' and not isinstance(p.off, int):
            o = self.to_sym(st, p.o, p.off)
        if o.kind == 'sym':
            i, c = self.sym_index(o, p.off)
            self.bounds(st, o, i, 'write')
            a = self.col(st, p.o, c, self.kind_of(ty))
            o = st.w(p.o)
            if isinstance(v, (Ptr, FnPtr, Undef)):
                raise Unsupported('pointer stored in symbolic array')
            if ty in (DBL, FLT) and isinstance(v, int):
                v = Fraction(v)
            o.cols[c] = (self.kind_of(ty), z3.Store(a, z(i), z(v)))
            self.record(st, p.o, ('col', c))
            return
        if o.size is not None and not (0 <= p.off and p.off + self.mod.size(ty) <= o.size):
            self.oblige(st, 'bounds:write %s' % o.name, False)
            raise PathEnd()
        o = st.w(p.o)
        sz = self.mod.size(ty)
        if p.off not in o.cells or self.mod.size(o.cells[p.off][0]) != sz:
            for off in [x for x in o.cells if p.off - 8 < x < p.off + sz and x != p.off]:
                s2 = self.mod.size(o.cells[off][0])
                if off + s2 > p.off and off < p.off + sz:
                    t0, v0 = o.cells.pop(off)
                    if off < p.off and isinstance(v0, int):   # split wider int
                        for b in range(s2):
                            o.cells[off + b] = (I8, (v0 >> (8 * b)) & 255)
        o.cells[p.off] = (ty, v)
        self.record(st, p.o, p.off)

    def memcpy(self, st, d, s, n):
        if isinstance(n, Lin):
            n = n.norm()
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            n2 = z3.simplify(z(n))
            if z3.is_int_value(n2):
                n = n2.as_long()
                if n == 0:
                    return
            else:
                return self.memcpy_sym(st, d, s, n)
        so, do = st.mem[s.o], st.mem[d.o]
        if so.kind == 'cells' and isinstance(s.off, int):
            if so.size is not None and not (0 <= s.off and s.off + n <= so.size):
                self.oblige(st, 'bounds:read %s' % so.name, False)
                raise PathEnd()
            items = sorted((o, c) for o, c in so.cells.items() if s.off <= o < s.off + n)
            if do.kind == 'cells' and isinstance(d.off, int):
                if do.size is not None and not (0 <= d.off and d.off + n <= do.size):
                    self.oblige(st, 'bounds:write %s' % do.name, False)
                    raise PathEnd()
                do = st.w(d.o)
                for o in [o for o in do.cells if d.off <= o < d.off + n]:
                    del do.cells[o]
                zs = [(max(lo, s.off) - s.off + d.off, min(hi, s.off + n) - s.off + d.off) for lo, hi in so.zeros if lo < s.off + n and hi > s.off]
                do.zeros = cut_zeros(do.zeros, d.off, d.off + n) + zs
                for o, (t, v) in items:
                    do.cells[o - s.off + d.off] = (t, v)
                    self.record(st, d.o, o - s.off + d.off)
                return
            done = set()
            for o, (t, v) in items:
                self.store(st, t, d.at(o - s.off), v)
                done.add(o)
            for lo, hi in so.zeros:
                for x in range(max(lo, s.off), min(hi, s.off + n), 8):
                    if x not in done:
                        self.store(st, DBL, d.at(x - s.off), Fraction(0))
            return
        # source symbolic: copy every column of the record(s)
        if so.kind == 'cells':
            so = self.to_sym(st, s.o, s.off)
        R = so.R
        i0, c0 = self.sym_index(so, s.off)
        kinds = {c: k for c, (k, _) in so.cols.items()}
        for b in range(0, n, 8):
            c = (c0 + b) % R
            k = kinds.get(c, 'real')
            ty = DBL if k == 'real' else I64
            v = self.load(st, ty, s.at(b))
            self.store(st, ty, d.at(b), v)

    def memcpy_sym(self, st, d, s, n):
        so, do = st.mem[s.o], st.mem[d.o]
        if so.kind != 'sym' or do.kind != 'sym' or so.R != do.R:
            raise Unsupported('symbolic memcpy between %s and %s' % (so.name, do.name))
        ln = Lin.of(n)
        if not ln.divisible(so.R) or ln.c % so.R:
            raise Unsupported('symbolic memcpy size')
        cnt = z(ln.div(so.R).norm())
        i, ci = self.sym_index(so, s.off)
        j, cj = self.sym_index(do, d.off)
        if ci or cj:
            raise Unsupported('symbolic memcpy alignment')
        self.copy_range(st, d.o, j, s.o, i, cnt)

    def copy_range(self, st, doid, j, soid, i, cnt):
        """dst[j..j+cnt) := src[i..i+cnt), all columns"""
        so, do = st.mem[soid], st.mem[doid]
        i, j, cnt = z(i), z(j), z(cnt)
        self.oblige(st, 'bounds:copy', z3.Implies(cnt > 0, z3.And(i >= 0, i + cnt <= z(so.len), j >= 0, j + cnt <= z(do.len))))
        for c in sorted(set(so.cols) | set(do.cols)):
            k = (so.cols.get(c) or do.cols.get(c))[0]
            sa = self.col(st, soid, c, k)
            da = self.col(st, doid, c, k)
            na = self.fresh_arr(do.name, k)
            x = z3.Int('x')
            st.w(doid).cols[c] = (k, na)
            st.assume(z3.ForAll([x], z3.Select(na, x) == z3.If(z3.And(j <= x, x < j + cnt), z3.Select(sa, x - j + i), z3.Select(da, x)), patterns=[z3.Select(na, x)]))
            self.record(st, doid, ('col', c))

    def memset(self, st, d, val, n):
        if isinstance(n, Lin):
            n = n.norm()
        o = st.mem[d.o]
        if is_sym(val):
            raise Unsupported('memset symbolic value')
        if isinstance(n, int) and isinstance(d.off, int) and o.kind == 'cells':
            if n == 0:
                return
            if o.size is not None and not (0 <= d.off and d.off + n <= o.size):
                self.oblige(st, 'bounds:memset', False)
                raise PathEnd()
            o = st.w(d.o)
            for x in [x for x in o.cells if d.off <= x < d.off + n]:
                del o.cells[x]
                self.record(st, d.o, x)
            if val == 0:
                o.zeros = cut_zeros(o.zeros, d.off, d.off + n) + [(d.off, d.off + n)]
            else:
                o.zeros = cut_zeros(o.zeros, d.off, d.off + n)
                for x in range(n):
                    o.cells[d.off + x] = (I8, val)
            self.record(st, d.o, d.off)
            return
        raise Unsupported('symbolic memset')

    # ------------------------------------------------------------ globals
    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        if name in self.globs:
            oid = self.globs[name]
            if oid not in st.mem:
                st.mem[oid] = self.base_objs[oid]
            return Ptr(oid, 0)
        txt = self.mod.globals[name]
        from .ir import P, tokenize
        j = txt.find(', !')
        txt2 = txt if j < 0 else txt[:j]
        if 'alias' in txt2.split('@')[0]:
            m = re.search(r'@(\S+)$', txt2)
            return self.glob(st, m.group(1).strip('"'))
        p = P(tokenize(txt2), self.mod)
        while p.peek() not in ('constant', 'global'):
            p.next()
        isconst = p.next() == 'constant'
        ext = ' external ' in ' ' + txt2
        t = p.type()
        oid = next(self.ids)
        try:
            sz = self.mod.size(t)
        except Unsupported:
            sz = None
        o = Obj(oid, 'cells', sz, name)
        self.globs[name] = oid
        self.base_objs[oid] = o
        st.mem[oid] = o
        if not ext and p.i < len(p.t):
            self.init_global(st, o, 0, t, p.value(t))
        return Ptr(oid, 0)

    def init_global(self, st, o, off, t, v):
        k = v[0]
        if k == 'zero' or k == 'null' and t[0] != 'p':
            o.zeros.append((off, off + self.mod.size(t)))
        elif k == 'agg':
            for i, (t2, x) in enumerate(v[1]):
                fo, ft = self.mod.field(t, i)
                self.init_global(st, o, off + fo, ft, x)
        elif k == 'str':
            i, n, s = 0, 0, v[1][2:-1]
            while i < len(s):
                if s[i] == '\\':
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                o.cells[off + n] = (I8, b)
                n += 1
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (t, self.val(st, None, t, v))

    # ------------------------------------------------------------ values
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'loc':
            return fr.regs[v[1]]
        if k == 'c':
            x = v[1]
            if isinstance(x, tuple):
                return self.fresh_real('special')
            return x
        if k == 'glob':
            return self.glob(st, v[1][1:].strip('"'))
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'cegep':
            base = self.val(st, fr, PTR, v[2][0][1])
            return self.gep(st, fr, v[1], base, v[2][1:])
        if k == 'agg':
            r = []
            for t, x in v[1]:
                y = self.val(st, fr, t, x)
                r += y if isinstance(y, list) else [y]
            return r
        if k == 'cebin':
            a, b = self.val(st, fr, I64, v[2]), self.val(st, fr, I64, v[3])
            return self.binop(st, I64, v[1], a, b, set())
        raise Unsupported('val %r' % (v,))

    def undef(self, ty):
        if ty[0] in ('n', 's', 'a', 'v'):
            return [UNDEF for _ in self.mod.flat(ty)]
        return UNDEF

    def gep(self, st, fr, bt, base, ops):
        off = 0
        sym = None
        t = bt
        for n, (it, iv) in enumerate(ops):
            i = self.val(st, fr, it, iv)
            if n == 0:
                sz = self.mod.size(t)
            else:
                if t[0] == 'n':
                    t = self.mod.struct(t[1])
                if t[0] == 's':
                    fo, t = self.mod.field(t, i)
                    off += fo
                    continue
                t = t[2]
                sz = self.mod.size(t)
            if isinstance(i, int):
                off += i * sz
            elif isinstance(i, bool):
                off += int(i) * sz
            else:
                l = Lin.of(i if not isinstance(i, Undef) else z3.Int('undefidx')).scale(sz)
                sym = l if sym is None else sym.add(l)
        if not isinstance(base, Ptr):
            if isinstance(base, FnPtr) and off == 0:
                return base
            raise Unsupported('gep on %r' % (base,))
        if base.o == 0 and sym is None and off == 0:
            return base
        r = base.at(off) if off else base
        return r.at(sym) if sym is not None else r

    def wrap(self, st, v, bits, nsw, what):
        """bring a mathematical result into the machine range (signed canonical form)"""
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            if nsw:
                self.oblige(st, 'signed-overflow %s' % what, False)
                raise PathEnd()
            return (v - lo) % (1 << bits) + lo
        e = z3.simplify(z(v))
        if z3.is_int_value(e):
            return self.wrap(st, e.as_long(), bits, nsw, what)
        rng = z3.And(e >= lo, e <= hi)
        if nsw:
            self.oblige(st, 'signed-overflow %s' % what, rng)
            return e
        if self.known(st, rng):
            return e
        return (e - lo) % (1 << bits) + lo

    def uns(self, st, v, bits):
        """unsigned reading of a signed-canonical value"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v % (1 << bits)
        e = z(v)
        if self.known(st, e >= 0):
            return e
        return z3.If(e < 0, e + (1 << bits), e)

    def to_int(self, v):
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, bool):
            return int(v)
        return v

    def binop(self, st, ty, op, a, b, fl):
        if ty[0] in ('v',):
            return [self.binop(st, ty[2], op, x, y, fl) for x, y in zip(a, b)]
        if a is UNDEF:
            a = self.fresh_of(ty, 'undef')
        if b is UNDEF:
            b = self.fresh_of(ty, 'undef')
        if ty in (DBL, FLT):
            if isinstance(a, int):
                a = Fraction(a)
            if isinstance(b, int):
                b = Fraction(b)
            if op == 'fadd':
                return addr(a, b)
            if op == 'fsub':
                return addr(a, negr(b))
            if op == 'fmul':
                return mulr(a, b)
            if op == 'fdiv':
                if is_sym(b):
                    b2 = z3.simplify(b, som=True)
                    if z3.is_rational_value(b2):
                        b = Fraction(b2.numerator_as_long(), b2.denominator_as_long())
                if not is_sym(b):
                    if b == 0:
                        if self.check_div:
                            self.oblige(st, 'division-by-zero', False)
                            raise PathEnd()
                        return self.fresh_real('div0')
                    return mulr(a, 1 / b)
                if self.check_div:
                    self.oblige(st, 'division-by-zero', z(b) != 0)
                return self.rdiv(a, b)
            raise Unsupported(op)
        bits = ty[1]
        if bits == 1:
            a, b = (z(x) if is_sym(x) else bool(x) for x in (a, b))
            if op == 'xor':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                return z3.Xor(z(a), z(b))
            if op == 'and':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a and b
                return z3.And(z(a), z(b))
            if op == 'or':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a or b
                return z3.Or(z(a), z(b))
            raise Unsupported('i1 ' + op)
        # pointer arithmetic in integers
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                if a.p.o == b.p.o:
                    return Lin.of(a.p.off).add(b.p.off, -1).norm()
                self.oblige(st, 'pointer-difference across objects', False)
                raise PathEnd()
            if op in ('and', 'urem', 'srem') and isinstance(a, PInt) and isinstance(b, int):
                return 0
            if isinstance(a, PInt) and op in ('add', 'sub') and not isinstance(b, PInt):
                return PInt(a.p.at(b if op == 'add' else Lin.of(b).scale(-1).norm()))
            raise Unsupported('integer op %s on pointer' % op)
        a, b = self.to_int(a), self.to_int(b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            la = Lin.of(a)
            if op in ('sdiv', 'udiv', 'ashr') and isinstance(b, int):
                n = b if op != 'ashr' else 1 << b
                if la.divisible(n) and la.c % n == 0:
                    r = la.div(n).norm()
                    return r.expr() if isinstance(r, Lin) else r
            if op in ('add', 'sub'):
                r = la.add(b, 1 if op == 'add' else -1).norm()
                return r
            if op == 'mul' and isinstance(b, int):
                return la.scale(b).norm()
            a = a.expr() if isinstance(a, Lin) else a
            b = b.expr() if isinstance(b, Lin) else b
        conc = isinstance(a, int) and isinstance(b, int)
        nsw = 'nsw' in fl
        if op == 'add':
            return self.wrap(st, a + b, bits, nsw, '+')
        if op == 'sub':
            return self.wrap(st, a - b, bits, nsw, '-')
        if op == 'mul':
            if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                return 0
            return self.wrap(st, a * b, bits, nsw, '*')
        if op in ('sdiv', 'srem'):
            if conc:
                if b == 0:
                    self.oblige(st, 'integer-division-by-zero', False)
                    raise PathEnd()
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'sdiv' else a - q * b
            self.oblige(st, 'integer-division-by-zero', z(b) != 0)
            a, b = z(a), z(b)
            if self.known(st, z3.And(a >= 0, b > 0)):
                return a / b if op == 'sdiv' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == 'sdiv' else a - q * b
        if op in ('udiv', 'urem'):
            ua, ub = self.uns(st, a, bits), self.uns(st, b, bits)
            if conc:
                if ub == 0:
                    self.oblige(st, 'integer-division-by-zero', False)
                    raise PathEnd()
                return self.wrap(st, ua // ub if op == 'udiv' else ua % ub, bits, False, op)
            self.oblige(st, 'integer-division-by-zero', z(ub) != 0)
            return z(ua) / z(ub) if op == 'udiv' else z(ua) % z(ub)
        if conc:
            m = (1 << bits) - 1
            ua, ub = a & m, b & m
            if op == 'and':
                r = ua & ub
            elif op == 'or':
                r = ua | ub
            elif op == 'xor':
                r = ua ^ ub
            elif op == 'shl':
                r = ua << ub
            elif op == 'lshr':
                r = ua >> ub
            elif op == 'ashr':
                r = a >> ub
            else:
                raise Unsupported(op)
            return self.wrap(st, r, bits, False, op)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, a * (1 << b), bits, nsw, '<<')
        if op == 'ashr' and isinstance(b, int):
            return z(a) / (1 << b)
        if op == 'lshr' and isinstance(b, int):
            return z(self.uns(st, a, bits)) / (1 << b)
        if op == 'and' and isinstance(b, int) and b == 1:
            return z(a) % 2
        if op == 'xor' and isinstance(b, int) and b == -1:
            return -1 - a
        raise Unsupported('symbolic ' + op)

    def icmp(self, st, ty, pr, a, b):
        if ty == PTR or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pr, a, b)
        if isinstance(a, PInt) and isinstance(b, PInt):
            return self.ptrcmp(st, pr, a.p, b.p)
        if a is UNDEF:
            a = self.fresh_of(ty, 'undef')
        if b is UNDEF:
            b = self.fresh_of(ty, 'undef')
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, (bool, int)) or isinstance(b, bool) and isinstance(a, (bool, int)):
                a, b = int(a), int(b)
            else:
                a, b = self.to_int(a), self.to_int(b)
        if isinstance(a, Lin):
            a = a.expr()
        if isinstance(b, Lin):
            b = b.expr()
        bits = ty[1]
        if pr[0] == 'u':
            a, b = self.uns(st, a, bits), self.uns(st, b, bits)
        o = pr[-2:] if pr not in ('eq', 'ne') else pr
        return cmp_(o, a, b)

    def ptrcmp(self, st, pr, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return same if pr == 'eq' else not same
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison with undefined pointer')
        if isinstance(a, int):
            a = NULL
        if isinstance(b, int):
            b = NULL
        if a.o == b.o:
            if isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
            else:
                d = Lin.of(a.off).add(b.off, -1)
                g = 0
                for _, c in d.t.values():
                    g = gcd(g, abs(c))
                if g > 1 and d.c % g == 0:
                    d = d.div(g)
                x, y = d.norm(), 0
                x = x.expr() if isinstance(x, Lin) else x
            o = pr[-2:] if pr not in ('eq', 'ne') else pr
            return cmp_(o, x, y)
        if pr == 'eq':
            return False
        if pr == 'ne':
            return True
        # relational compare of different objects: only meaningful for null
        if a.o == 0:
            return pr[-2:] in ('lt', 'le')
        if b.o == 0:
            return pr[-2:] in ('gt', 'ge')
        o = pr[-2:]
        return {'lt': a.o < b.o, 'le': a.o < b.o, 'gt': a.o > b.o, 'ge': a.o > b.o}[o]

    def fcmp(self, pr, a, b):
        if a is UNDEF:
            a = self.fresh_real('undef')
        if b is UNDEF:
            b = self.fresh_real('undef')
        if isinstance(a, int):
            a = Fraction(a)
        if isinstance(b, int):
            b = Fraction(b)
        if pr == 'true':
            return True
        if pr in ('false', 'uno'):
            return False
        if pr == 'ord':
            return True
        return cmp_(pr[1:], a, b)

    def cast(self, st, op, t, t2, v):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'freeze', 'fpext', 'addrspacecast'):
            return v
        if op == 'fptrunc':
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0:
                return 0 if isinstance(v.off, int) and v.off == 0 else v.off
            if isinstance(v, FnPtr):
                return v
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported('inttoptr')
        if op == 'sext':
            if t == I1:
                return -int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'zext':
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.uns(st, v, t[1])
        if op == 'trunc':
            if isinstance(v, PInt):
                raise Unsupported('trunc pointer')
            if isinstance(v, Lin):
                v = v.expr()
            v = self.to_int(v)
            if t2 == I1:
                if isinstance(v, int):
                    return bool(v & 1)
                e = z3.simplify(v)
                if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)):
                    return e.arg(0) if e.arg(1).as_long() == 1 else z3.Not(e.arg(0))
                return e % 2 == 1
            return self.wrap(st, v, t2[1], False, 'trunc')
        if op in ('sitofp', 'uitofp'):
            if op == 'uitofp':
                v = self.uns(st, v, t[1])
            v = self.to_int(v)
            if isinstance(v, Lin):
                v = v.expr()
            return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Fraction):
                return int(v)
            if isinstance(v, int):
                return v
            r = z3.ToInt(v)
            return z3.If(z3.Or(v >= 0, z3.ToReal(r) == v), r, r + 1)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ running
    def call_top(self, st, fname, args):
        """explore all paths of function fname; yields (state, ('ret',v)|('throw',..))"""
        f = self.mod.funcs[fname].parse()
        fr = Frame(f)
        for (nm, t, at), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        self.functions_seen.add(f.demangled)
        return self.explore(st, len(st.frames) - 1)

    def explore(self, st, base, stop=None):
        """run until the frame at depth base returns"""
        work = [st]
        done = []
        npaths = 0
        while work:
            s = work.pop()
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported('too many paths')
            try:
                r = self.run(s, base, work, stop)
            except PathEnd:
                continue
            if r is not None:
                done.append((s, r))
        return done

    def jump(self, st, fr, to):
        """transfer control, handling loop contracts; returns False if the path ends here"""
        fr.prev, fr.blk, fr.ip = fr.blk, to, 0
        f = fr.f
        if to in f.loops:
            specs = self.loopspecs.get(f.name)
            idx = f.loop_headers.index(to)
            spec = specs.get(idx) if specs else None
            if spec is not None:
                inside = fr.prev in f.loops[to]
                if inside and to in fr.cuts:
                    self.loop_back(st, fr, to, spec)
                    raise PathEnd()
                self.loop_enter(st, fr, to, spec)
            elif fr.prev in f.loops[to] and to in fr.cuts and fr.cuts[to][0] == 'collect':
                fr.cuts[to][1].append(st)
                raise PathEnd()
            else:
                k = ('unroll', to)
                if fr.prev in f.loops[to]:
                    fr.cuts[k] = fr.cuts.get(k, 0) + 1
                    if fr.cuts[k] > self.unroll_limit:
                        raise Unsupported('loop without invariant in %s (%s) exceeds the unrolling limit' % (f.demangled[:80], to))
                else:
                    fr.cuts[k] = 0
                    if self.mode == 'proof':
                        fr.cuts[('snap', to)] = st.fork()
        # leaving loops: forget cuts for loops we are no longer in
        for h in [h for h in fr.cuts if not isinstance(h, tuple) and to not in f.loops[h]]:
            if fr.cuts[h][0] in ('discover', 'collect'):
                raise PathEnd()
            del fr.cuts[h]
        return True

    def phis(self, st, fr):
        ins = fr.f.blocks[fr.blk]
        vals = []
        i = 0
        while ins[i].op == 'phi':
            for v, b in ins[i].a:
                if b == fr.prev:
                    vals.append((ins[i].dst, self.val(st, fr, ins[i].ty, v)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.ip = i

    def goto(self, st, fr, to):
        self.jump(st, fr, to)
        if fr.f.blocks[fr.blk][0].op == 'phi':
            self.phis(st, fr)

    def branch(self, st, cond):
        """returns list of (state, bool) for the feasible sides"""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        rt = self.check(st, [c])
        if rt == z3.unsat:
            st.assume(z3.Not(c))
            return [(st, False)]
        rf = self.check(st, [z3.Not(c)])
        if rf == z3.unsat:
            st.assume(c)
            return [(st, True)]
        s2 = st.fork()
        st.assume(c)
        s2.assume(z3.Not(c))
        return [(st, True), (s2, False)]

    def run(self, st, base, work, stop=None):
        mod = self.mod
        first = True
        while True:
            if stop == 'one' and not first:
                return None
            first = False
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.ip]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            op = ins.op
            if op == 'load':
                fr.regs[ins.dst] = self.load(st, ins.ty, self.val(st, fr, PTR, ins.a))
            elif op == 'store':
                v, p = ins.a
                self.store(st, ins.ty, self.val(st, fr, PTR, p), self.val(st, fr, ins.ty, v))
            elif op == 'alloca':
                n = self.val(st, fr, I64, ins.a)
                if not isinstance(n, int):
                    raise Unsupported('vla')
                o = self.new_obj(st, mod.size(ins.ty) * n, ins.dst[1:])
                fr.regs[ins.dst] = Ptr(o.id, 0)
            elif op == 'gep':
                fr.regs[ins.dst] = self.gep(st, fr, ins.ty, self.val(st, fr, PTR, ins.a[0][1]), ins.a[1:])
            elif op == 'bin':
                o, a, b, fl = ins.a
                fr.regs[ins.dst] = self.binop(st, ins.ty, o, self.val(st, fr, ins.ty, a), self.val(st, fr, ins.ty, b), fl)
            elif op == 'icmp':
                pr, a, b = ins.a
                fr.regs[ins.dst] = self.icmp(st, ins.ty, pr, self.val(st, fr, ins.ty, a), self.val(st, fr, ins.ty, b))
            elif op == 'fcmp':
                pr, a, b = ins.a
                fr.regs[ins.dst] = self.fcmp(pr, self.val(st, fr, ins.ty, a), self.val(st, fr, ins.ty, b))
            elif op == 'fneg':
                fr.regs[ins.dst] = negr(self.val(st, fr, ins.ty, ins.a))
            elif op == 'cast':
                o, t, v = ins.a
                fr.regs[ins.dst] = self.cast(st, o, t, ins.ty, self.val(st, fr, t, v))
            elif op == 'select':
                c = self.val(st, fr, I1, ins.a[0])
                a, b = self.val(st, fr, ins.ty, ins.a[1]), self.val(st, fr, ins.ty, ins.a[2])
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if isinstance(c, bool):
                    fr.regs[ins.dst] = a if c else b
                elif isinstance(a, (Ptr, FnPtr, list)) or a is UNDEF:
                    for s, side in self.branch(st, c):
                        s.frames[-1].regs[ins.dst] = a if side else b
                        s.frames[-1].ip += 1
                        if s is not st:
                            work.append(s)
                    continue
                else:
                    if isinstance(a, Lin):
                        a = a.expr()
                    if isinstance(b, Lin):
                        b = b.expr()
                    fr.regs[ins.dst] = z3.If(c, z(a), z(b))
            elif op == 'dbgdecl':
                nm = mod.varname(ins.a[1])
                r = ins.a[0].rstrip(',')
                if nm and r in fr.regs and not (nm in fr.vars and (nm == 'this' or re.search(r'\.i\d*$', r))):      # an inlined function keeps its own locals
                    fr.vars[nm] = fr.regs[r]
            elif op == 'nop':
                pass
            elif op == 'br':
                c, a, b = ins.a
                if c is None:
                    self.goto(st, fr, a)
                    continue
                cv = self.val(st, fr, I1, c)
                if cv is UNDEF:
                    raise Unsupported('branch on undef')
                if isinstance(cv, int) and not isinstance(cv, bool):
                    cv = bool(cv)
                if not isinstance(cv, bool) and self.mode == 'proof':
                    r = self.exit_branch(st, fr, cv, a, b)
                    if r == 'handled':
                        continue
                outs = self.branch(st, cv)
                if len(outs) == 2:
                    s2, side2 = outs[1]
                    f2 = s2.frames[-1]
                    try:
                        self.goto(s2, f2, a if side2 else b)
                        work.append(s2)
                    except PathEnd:
                        pass
                self.goto(st, st.frames[-1], a if outs[0][1] else b)
                continue
            elif op == 'switch':
                v, d, cs = ins.a
                x = self.val(st, fr, ins.ty, v)
                if isinstance(x, int):
                    for c, l in cs:
                        if c == x:
                            self.goto(st, fr, l)
                            break
                    else:
                        self.goto(st, fr, d)
                    continue
                for c, l in cs:
                    s2 = st.fork()
                    s2.assume(x == c)
                    if self.check(s2) != z3.unsat:
                        try:
                            self.goto(s2, s2.frames[-1], l)
                            work.append(s2)
                        except PathEnd:
                            pass
                    st.assume(x != c)
                if self.check(st) == z3.unsat:
                    raise PathEnd()
                self.goto(st, fr, d)
                continue
            elif op == 'ret':
                v = None if ins.a is None else self.val(st, fr, ins.ty, ins.a)
                st.frames.pop()
                if len(st.frames) == base:
                    return ('ret', v)
                self.finish_call(st, v)
                continue
            elif op == 'call':
                if self.do_call(st, fr, ins, work):
                    continue
                continue
            elif op == 'extractvalue':
                v, ix = ins.a
                agg = self.val(st, fr, ins.ty, v)
                fr.regs[ins.dst] = self.extract(ins.ty, agg, ix)
            elif op == 'insertvalue':
                v, t2, e, ix = ins.a
                agg = list(self.val(st, fr, ins.ty, v))
                x = self.val(st, fr, t2, e)
                lo, n = self.agg_slot(ins.ty, ix)
                agg[lo:lo + n] = x if isinstance(x, list) else [x]
                fr.regs[ins.dst] = agg
            elif op == 'unreachable':
                raise PathEnd()
            elif op == 'landingpad':
                fr.regs[ins.dst] = [st.exc if st.exc is not None else NULL, 1]
            elif op == 'resume':
                r = self.unwind(st, base)
                if r is not None:
                    return r
                continue
            elif op == 'atomicrmw':
                sub, p, v = ins.a
                pp = self.val(st, fr, PTR, p)
                old = self.load(st, ins.ty, pp)
                x = self.val(st, fr, ins.ty, v)
                new = {'add': lambda: self.binop(st, ins.ty, 'add', old, x, set()), 'sub': lambda: self.binop(st, ins.ty, 'sub', old, x, set()), 'xchg': lambda: x}[sub]()
                self.store(st, ins.ty, pp, new)
                fr.regs[ins.dst] = old
            else:
                raise Unsupported('op ' + op)
            fr.ip += 1

    def agg_slot(self, ty, ix):
        """flattened position of an aggregate element"""
        pos, t = 0, ty
        for i in ix:
            if t[0] == 'n':
                t = self.mod.struct(t[1])
            if t[0] == 's':
                for x in t[1][:i]:
                    pos += len(self.mod.flat(x))
                t = t[1][i]
            else:
                pos += i * len(self.mod.flat(t[2]))
                t = t[2]
        return pos, len(self.mod.flat(t))

    def extract(self, ty, agg, ix):
        lo, n = self.agg_slot(ty, ix)
        return agg[lo] if n == 1 else agg[lo:lo + n]

    def finish_call(self, st, v):
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk][fr.ip]
        if fr.hook:
            h, fr.hook = fr.hook, None
            v = h(st, v)
        if ins.dst is not None:
            fr.regs[ins.dst] = v
        if ins.a[2]:
            self.goto(st, fr, ins.a[2])
        else:
            fr.ip += 1

    def throw(self, st, base_exc):
        st.exc = base_exc
        raise Throw()

    def unwind(self, st, base):
        """propagate an exception from the current frame"""
        while True:
            st.frames.pop()
            if len(st.frames) <= base:
                return ('throw', st.exc)
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.ip]
            if ins.a[3]:
                lp = fr.f.blocks[ins.a[3]]
                k = [x for x in lp if x.op == 'landingpad']
                if k and k[0].a == 'catch':
                    self.goto(st, fr, ins.a[3])
                    return None
            fr.hook = None

    def resolve(self, name):
        """('model',fn,label) | ('contract',c) | ('body',Function) | None"""
        if name in self._disp:
            return self._disp[name]
        dem = self.mod.demangled.get(name, name)
        r = None
        for rx, fn in self.models:
            if rx.search(dem):
                r = ('model', fn, rx.pattern)
                break
        if r is None:
            for c in self.contracts:
                if c.rx.search(dem):
                    r = ('contract', c)
                    break
        if r is None and name in self.mod.funcs:
            r = ('body', self.mod.funcs[name])
        self._disp[name] = r
        return r

    def do_call(self, st, fr, ins, work):
        callee, args, norm, unw = ins.a
        cv = self.val(st, fr, PTR, callee)
        if isinstance(cv, FnPtr):
            name = cv.name
        else:
            raise Unsupported('indirect call through %r' % (cv,))
        vals = [None if t == ('meta',) else self.val(st, fr, t, v) for t, v, at in args]
        return self.invoke(st, fr, ins, name, vals, args, work)

    def invoke(self, st, fr, ins, name, vals, args, work):
        d = self.resolve(name)
        if d is None:
            raise Unsupported('external function %s' % self.mod.demangled.get(name, name))
        if d[0] == 'contract' and getattr(d[1], 'skip_top', False) and not any(x.f.name == name for x in st.frames) and name in self.mod.funcs:
            return self.enter(st, self.mod.funcs[name], vals)        # the function under proof; its recursive calls use the contract
        if d[0] in ('model', 'contract'):
            try:
                if d[0] == 'model':
                    self.cur_callee = self.mod.demangled.get(name, name)
                    r = d[1](self, st, vals, ins)
                    if r is not NotImplemented:
                        self.models_used.add(d[2])
                    else:
                        fn = self.mod.funcs.get(name)
                        if fn is None:
                            raise Unsupported('model of %s does not apply' % self.cur_callee[:120])
                        return self.enter(st, fn, vals)
                else:
                    r = d[1].apply(self, st, vals)
            except Throw:
                st.frames.append(Frame(fr.f))   # dummy frame popped by unwind
                x = self.unwind(st, self.base_depth(st))
                if x is not None:
                    if self.suppress == 0:
                        self.throws.append((st, x))
                    raise PathEnd()
                return True
            if isinstance(r, TailCall):
                return self.invoke(st, fr, ins, r.name, r.args, None, work)
            if isinstance(r, list) and r and isinstance(r[0], Outcome):
                first = True
                outs = r
                for oc in outs[1:]:
                    self.finish_outcome(oc, work)
                self.finish_call(outs[0].st, outs[0].v)
                if outs[0].st is not st:
                    raise Unsupported('first outcome must be the current state')
                return True
            self.finish_call(st, r)
            return True
        return self.enter(st, d[1], vals)

    def enter(self, st, fn, vals):
        f = fn.parse()
        self.functions_seen.add(f.demangled)
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        nf = Frame(f)
        for i, ((nm, t, at), a) in enumerate(zip(f.params, vals)):
            if 'byval' in at:
                o = self.new_obj(st, self.mod.size(at['byval']), 'byval')
                self.memcpy(st, Ptr(o.id, 0), a, self.mod.size(at['byval']))
                a = Ptr(o.id, 0)
            nf.regs[nm] = a
        st.frames.append(nf)
        return True

    def finish_outcome(self, oc, work):
        try:
            self.finish_call(oc.st, oc.v)
            work.append(oc.st)
        except PathEnd:
            pass

    def base_depth(self, st):
        return 0

    # ------------------------------------------------------------ loops without a contract: map summaries
    def exit_branch(self, st, fr, cv, a, b):
        """symbolic branch that leaves a loop which has no contract: summarise the loop as a parallel map"""
        f = fr.f
        c = z3.simplify(cv)
        if z3.is_true(c) or z3.is_false(c):
            return None
        hs = [h for h in f.loops if fr.blk in f.loops[h] and ((a in f.loops[h]) != (b in f.loops[h]))]
        for h in hs:
            cut = fr.cuts.get(h)
            if cut is not None and cut[0] == 'collect':
                # running the generic iteration: record the condition, follow the continuing side
                stay = c if a in f.loops[h] else z3.Not(c)
                rec = cut[2]
                if rec.get('blk') not in (None, fr.blk):
                    raise Unsupported('several exits in a loop without contract')
                rec['blk'] = fr.blk
                rec['cond'] = stay
                rec['exit'] = b if a in f.loops[h] else a
                st.assume(stay)
                self.goto(st, fr, a if a in f.loops[h] else b)
                return 'handled'
            if cut is None and fr.cuts.get(('unroll', h)) == 0 and ('snap', h) in fr.cuts:
                if self.check(st, [c]) == z3.unsat or self.check(st, [z3.Not(c)]) == z3.unsat:
                    if not self.known_exit_only(st, fr, h, c, a):
                        pass
                self.automap(st, fr, h)
                return 'handled'
        return None

    def known_exit_only(self, *a):
        return False

    def iteration(self, s, depth, f, h, rec):
        """run one iteration from the header in state s; returns the states reaching the back edge"""
        out = []
        fr = s.frames[-1]
        fr.cuts[h] = ('collect', out, rec)
        fr.blk, fr.ip = h, 0
        work = [s]
        n = 0
        while work:
            x = work.pop()
            n += 1
            if n > 200:
                raise Unsupported('loop body paths')
            try:
                self.run(x, depth, work)
            except PathEnd:
                pass
        return out

    def automap(self, st, fr, h):
        f = fr.f
        what = '%s (%s)' % (f.demangled[:90], h)
        depth = len(st.frames) - 1
        snap = fr.cuts[('snap', h)].fork()
        if f.blocks[h][0].op == 'phi':
            raise Unsupported('automap: phi at header of ' + what)
        # phase 1: which cells change, and by how much
        rec = {}
        self.suppress += 1
        old_inline, self.inline_div = self.inline_div, True
        self.nocheck += 1
        summary = []
        try:
            s1 = snap.fork()
            s1.writes = set()
            W = set()
            outs = self.iteration(s1, depth, f, h, rec)
            if not outs:
                raise Unsupported('automap: no iteration of ' + what)
            for o in outs:
                W |= o.writes
            W = {(o, k) for o, k in W if o in snap.mem}
            ind, temps, arrs = {}, set(), set()
            for oid, key in W:
                if isinstance(key, tuple):
                    if key[0] != 'col':
                        raise Unsupported('automap: container growth in ' + what)
                    arrs.add((oid, key[1]))
                    continue
                o0 = snap.mem[oid]
                if o0.kind == 'sym':
                    raise Unsupported('automap: whole-object write in ' + what)
                step = None
                if key in o0.cells:
                    v0 = o0.cells[key][1]
                    for o in outs:
                        d = delta(v0, o.mem[oid].cells[key][1])
                        if d is None or (step is not None and d != step):
                            step = None
                            break
                        step = d
                if step is not None and step != 0:
                    ind[(oid, key)] = step
                elif step == 0:
                    pass
                else:
                    temps.add((oid, key))
            # phase 2: generic iteration number t
            t = z3.Int('t!%d' % next(self.fresh_n))
            n_start = next(self.fresh_n)

            def generic(base_state, tt):
                s = base_state.fork()
                for (oid, key), c in ind.items():
                    ty, v0 = snap.mem[oid].cells[key]
                    s.w(oid).cells[key] = (ty, advance(v0, c, tt))
                for oid, key in temps:
                    o = s.w(oid)
                    ty = o.cells[key][0] if key in o.cells else None
                    if ty is None:
                        o.cells.pop(key, None)
                    else:
                        o.cells[key] = (ty, self.fresh_typed(s, ty, 'loopcarried'))
                return s
            s2 = generic(snap, t)
            s2.assume(t >= 0)
            rec = {}
            self.iteration(s2, depth, f, h, rec)
            if 'cond' not in rec:
                raise Unsupported('automap: no exit condition in ' + what)
            n = trip_count(rec['cond'], t)
            if n is None:
                raise Unsupported('automap: trip count of ' + what + ': ' + str(rec['cond'])[:300])
            # phase 3: for real, with obligations
            self.suppress -= 1
            try:
                if n[1] is not None:
                    self.oblige(st, 'loop-terminates', n[1])
                nt = n[0]
                N = z3.If(nt > 0, nt, z3.IntVal(0))
                s3 = generic(snap, t)
                s3.pc = list(st.pc)
                s3.assume(z3.And(t >= 0, t < nt))
                reads = []
                mark = len(s3.pc)
                rec = {}
                self.read_log = reads
                outs = self.iteration(s3, depth, f, h, rec)
            finally:
                self.suppress += 1
                self.read_log = None
            for o in outs:
                for (oid, key), c in ind.items():
                    want = advance(snap.mem[oid].cells[key][1], c, t + 1)
                    if delta(want, o.mem[oid].cells[key][1]) != 0:
                        raise Unsupported('automap: induction variable of ' + what)
            for o in outs:
                for oid, key in {(a, k) for a, k in (o.writes or set()) if False}:
                    pass
            # summarise array writes
            res = snap.fork()
            res.pc = list(st.pc)
            x = z3.Int('x')
            for oid, col in sorted(arrs):
                base = self.col(s3 if oid in s3.mem else snap, oid, col, 'real')
                A0 = snap.mem[oid].cols[col][1] if col in snap.mem[oid].cols else None
                if A0 is None:
                    raise Unsupported('automap: untyped array in ' + what)
                kind = snap.mem[oid].cols[col][0]
                widx = None
                cases = []
                for o in outs:
                    term = o.mem[oid].cols[col][1]
                    guard = [g for g in o.pc[mark:] if not has_quant(g)]
                    if term.eq(A0):
                        cases.append((guard, None))
                        continue
                    if not (z3.is_store(term) and term.arg(0).eq(A0)):
                        raise Unsupported('automap: several writes in ' + what)
                    li = Lin.of(term.arg(1))
                    if widx is None:
                        widx = li
                    elif delta_lin(widx, li) != 0:
                        raise Unsupported('automap: write index in ' + what)
                    cases.append((guard, term.arg(2)))
                if widx is None:
                    continue
                ct = widx.t.get(t.get_id(), (t, 0))[1]
                if ct not in (1, -1):
                    raise Unsupported('automap: stride of ' + what)
                w0 = Lin({k: v for k, v in widx.t.items() if k != t.get_id()}, widx.c)
                if mentions(w0.expr(), t):
                    raise Unsupported('automap: non-linear write index in ' + what)
                w0 = w0.expr()
                # reads of the same array must not see earlier writes
                for roid, rcol, ridx, rpc in reads:
                    if roid == oid and rcol == col:
                        tr = (ridx - w0) * ct          # iteration that writes what is read
                        tmp = State()
                        tmp.pc = rpc
                        self.suppress -= 1
                        try:
                            self.oblige(tmp, 'loop-independence', z3.Or(tr < 0, tr >= t), what)
                        finally:
                            self.suppress += 1
                NA = self.fresh_arr(res.mem[oid].name, kind)
                it = (x - w0) * ct
                inside = z3.And(it >= 0, it < nt)
                for guard, v in cases:
                    if v is None:
                        v = z3.Select(A0, widx.expr())
                    for tm in [v] + guard:
                        if fresh_after(tm, n_start, t):
                            raise Unsupported('automap: iteration-dependent constant in ' + what)
                    g = z3.And(*guard) if guard else z3.BoolVal(True)
                    body = z3.Implies(z3.And(inside, z3.substitute(g, (t, it))), z3.Select(NA, x) == z3.substitute(z(v), (t, it)))
                    res.pc.append(z3.ForAll([x], body, patterns=[z3.Select(NA, x)]))
                res.pc.append(z3.ForAll([x], z3.Implies(z3.Not(inside), z3.Select(NA, x) == z3.Select(A0, x)), patterns=[z3.Select(NA, x)]))
                res.w(oid).cols[col] = (kind, NA)
                summary.append((oid, ('col', col)))
            for (oid, key), c in ind.items():
                ty, v0 = snap.mem[oid].cells[key]
                res.w(oid).cells[key] = (ty, advance(v0, c, N))
                summary.append((oid, key))
            for oid, key in temps:
                o = res.w(oid)
                if key in o.cells:
                    ty = o.cells[key][0]
                    o.cells[key] = (ty, UNDEF)
                summary.append((oid, key))
        finally:
            self.inline_div = old_inline
            self.suppress -= 1
            self.nocheck -= 1
        for oid, key in summary:
            self.record(st, oid, key)
        self.automaps += 1
        # continue at the exit
        w = st.writes
        st.mem, st.owned, st.pc = res.mem, res.owned, res.pc
        st.frames = res.frames
        st.writes = w
        fr = st.frames[-1]
        fr.blk = rec['blk']
        # registers computed in the header block are recomputed by replaying it with the final induction values
        fr.blk, fr.ip = h, 0
        fr.cuts[('final', h)] = rec['exit']
        self.replay_exit(st, fr, h, rec)

    def replay_exit(self, st, fr, h, rec):
        """run the exit test once more with the final values; it must leave the loop"""
        fr.cuts.pop(('final', h), None)
        d = len(st.frames)
        work = []
        while True:
            fr = st.frames[-1]
            if len(st.frames) == d and fr.blk == rec['blk'] and fr.f.blocks[fr.blk][fr.ip].op == 'br':
                break
            self.step(st, d - 1)
        self.goto(st, fr, rec['exit'])

    def step(self, st, base):
        """execute exactly one instruction (used to replay loop headers)"""
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.blk][fr.ip]
        if ins.op == 'br' and ins.a[0] is not None:
            cv = self.val(st, fr, I1, ins.a[0])
            if not isinstance(cv, bool):
                c = z3.simplify(cv)
                if z3.is_true(c) or self.known(st, c):
                    cv = True
                elif z3.is_false(c) or self.known(st, z3.Not(c)):
                    cv = False
                else:
                    raise Unsupported('branch while replaying a loop exit')
            self.goto(st, fr, ins.a[1] if cv else ins.a[2])
            return
        self.max_one = True
        work = []
        self.run(st, base, work, 'one')
        if work:
            raise Unsupported('fork while replaying a loop exit')

    # ------------------------------------------------------------ loops under contract
    def loop_enter(self, st, fr, h, spec):
        L0 = LoopCtx(self, st.fork(), len(st.frames) - 1, None)
        entry = L0
        L = LoopCtx(self, st, len(st.frames) - 1, entry)
        w = '%s loop %d' % (fr.f.demangled.split('(')[0], fr.f.loop_headers.index(h))
        spec.inv(L)                    # (materialises arrays the contract reads)
        self.freeze(st)
        keep = len(st.pc)
        for nm, g in spec.inv(L):
            self.oblige(st, 'invariant-entry:%s' % nm, g, w)
        del st.pc[keep:]               # the entry facts follow from what is kept
        if st.writes is not None:
            outer = st.writes
        else:
            outer = None
        # discover the write set
        key = tuple((x.f.name, x.blk) for x in st.frames) + (h,)
        H = {(o, k) for o, k in self.wcache.get(key, ()) if o in st.mem} if self.use_cache else set()
        skip = self.use_cache and key in self.wcache and all(o in st.mem for o, _ in self.wcache[key])       # (every later write is checked against H)
        for it in range(0 if skip else 12):
            d0 = self.dirty
            s2 = st.fork()
            s2.writes = set()
            f2 = s2.frames[-1]
            self.havoc(s2, H)
            L2 = LoopCtx(self, s2, len(s2.frames) - 1, entry)
            for nm, g in spec.inv(L2):
                s2.assume(g)
            f2.cuts[h] = ('discover', entry)
            f2.ip = 0
            self.suppress += 1
            W = set()
            try:
                work = [s2]
                n = 0
                while work:
                    s = work.pop()
                    n += 1
                    if n > 500:
                        raise Unsupported('loop body paths')
                    wset = s.writes
                    try:
                        self.run_body(s, len(st.frames) - 1, work, fr.f, h)
                    except PathEnd:
                        pass
                    W |= wset
                    if s.writes is not None:
                        W |= s.writes
            finally:
                self.suppress -= 1
            W = {(o, k) for o, k in W if o in st.mem}
            if W <= H and self.dirty == d0:
                break
            H |= W
        else:
            if not skip:
                raise Unsupported('write set of loop does not stabilise')
        self.wcache.setdefault(key, set()).update(H)
        H = {(o, k) for o, k in self.wcache[key] if o in st.mem} if self.use_cache else H
        if outer is not None:
            outer |= H
        ptrs = self.havoc(st, H)
        L = LoopCtx(self, st, len(st.frames) - 1, entry)
        for nm, g in spec.inv(L):
            st.assume(g)
        fr.cuts[h] = ('cut', entry, frozenset(H), max(st.mem), key, ptrs)
        if spec.variant:
            st.ghost[('variant', len(st.frames), h)] = spec.variant(L)

    def freeze(self, st):
        """name updated array contents by constants, so that quantified facts about them have good triggers"""
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.kind != 'sym':
                continue
            for c, (k, a) in list(o.cols.items()):
                if z3.is_app(a) and a.num_args() > 0 and not z3.is_const_array(a):
                    n = self.fresh_arr(o.name, k)
                    st.pc.append(n == a)
                    st.w(oid).cols[c] = (k, n)

    def run_body(self, s, depth, work, f, h):
        """run s until it leaves the loop (exit) or returns to the header (PathEnd from jump)"""
        fr = s.frames[depth]
        r = self.run(s, depth, LoopWork(work), LoopStop(depth, f, h))
        return r

    def loop_back(self, st, fr, h, spec):
        cut = fr.cuts[h]
        if cut[0] == 'discover':
            return
        entry = cut[1]
        self.check_ptrs(st, cut[5])
        self.freeze(st)
        L = LoopCtx(self, st, len(st.frames) - 1, entry)
        w = '%s loop %d' % (fr.f.demangled.split('(')[0], fr.f.loop_headers.index(h))
        for nm, g in spec.inv(L):
            self.oblige(st, 'invariant-step:%s' % nm, g, w)
        if spec.variant:
            v0 = st.ghost.get(('variant', len(st.frames), h))
            v1 = spec.variant(L)
            if v0 is not None:
                self.oblige(st, 'termination', z3.And(z(v1) < z(v0), z(v0) >= 0), w)

    def owner_cells(self, st, H):
        """control blocks of containers whose storage is replaced inside the loop: (object, offset of the begin pointer)"""
        out = []
        for oid, key in H:
            if isinstance(key, tuple) or oid not in st.mem or st.mem[oid].kind != 'cells':
                continue
            c = st.mem[oid].cells
            if (oid, key + 8) not in H or (oid, key + 16) not in H or not all(k in c and c[k][0] == PTR and isinstance(c[k][1], Ptr) for k in (key, key + 8, key + 16)):
                continue
            b, e, x = (c[k][1] for k in (key, key + 8, key + 16))
            if b.o == 0 or b.o != e.o or b.o != x.o or b.off != 0 or st.mem[b.o].kind != 'sym':
                continue
            out.append((oid, key))
        return out

    def havoc(self, st, H):
        """returns what every havocked pointer may be afterwards: {(object, cell): target object} (checked at the back edge)"""
        ptrs = {}
        vecs = self.owner_cells(st, H)
        done = {(o, k + d) for o, k in vecs for d in (0, 8, 16)}
        for oid, key in vecs:
            old = st.mem[st.mem[oid].cells[key][1].o]
            n = self.fresh_int(old.name + '.len')
            st.assume(z3.And(n >= 0, n < 2**60))
            o2 = self.new_sym(st, old.R, n, old.name)
            o2.cols = {c: (k, self.fresh_arr(old.name, k)) for c, (k, _) in old.cols.items()}
            end = Ptr(o2.id, Lin.of(n).scale(old.R).norm())
            w = st.w(oid).cells
            w[key], w[key + 8], w[key + 16] = (PTR, Ptr(o2.id, 0)), (PTR, end), (PTR, end)
            ptrs[oid, key] = ('vector', old.R)
        for oid, key in sorted(H, key=lambda t: (isinstance(t[1], tuple) and t[1][0] == 'len', str(t))):
            if (oid, key) in done:
                continue
            o = st.w(oid)
            if isinstance(key, tuple) and key[0] == 'len' and len(key) == 3:
                # container length: follows the (already havocked) end pointer of its control block
                e = st.mem[key[1]].cells[key[2] + 8][1]
                if e.o != oid:
                    o.len = self.fresh_int(o.name + '.len')
                    st.assume(o.len >= 0)
                    continue
                n = Lin.of(e.off).div(o.R).norm()
                o.len = n.expr() if isinstance(n, Lin) else n
                st.assume(z(o.len) >= 0)
                st.w(key[1]).cells[key[2] + 16] = (PTR, e)
                continue
            if isinstance(key, tuple):
                if key[0] == 'col' and o.kind == 'sym':
                    k = o.cols[key[1]][0] if key[1] in o.cols else 'real'
                    o.cols[key[1]] = (k, self.fresh_arr(o.name, k))
                elif key[0] == 'len':
                    o.len = self.fresh_int(o.name + '.len')
                    st.assume(o.len >= 0)
                continue
            if o.kind == 'sym':
                for c in list(o.cols):
                    o.cols[c] = (o.cols[c][0], self.fresh_arr(o.name, o.cols[c][0]))
                continue
            if key not in o.cells:
                continue
            ty, v = o.cells[key]
            if isinstance(v, Ptr):
                if v.o == 0:
                    raise Unsupported('havoc of null pointer')
                ob = st.mem[v.o]
                if ob.kind == 'sym' or not isinstance(v.off, int) or ob.size is not None:
                    R = ob.R or 8
                    o.cells[key] = (ty, Ptr(v.o, Lin.of(self.fresh_int(o.name)).scale(R)))
                    ptrs[oid, key] = v.o
                else:
                    raise Unsupported('havoc of pointer %s' % o.name)
            elif isinstance(v, FnPtr):
                raise Unsupported('havoc fn pointer')
            else:
                o.cells[key] = (ty, self.fresh_typed(st, ty, o.name))
        return ptrs

    def check_ptrs(self, st, ptrs):
        """the pointers at the back edge are of the shape the havocked state assumed"""
        for (oid, key), want in ptrs.items():
            if oid not in st.mem:
                continue
            c = st.mem[oid].cells
            v = c[key][1] if key in c else UNDEF
            if isinstance(want, tuple):
                e, x = (c[key + d][1] if key + d in c else UNDEF for d in (8, 16))
                ok = all(isinstance(y, Ptr) for y in (v, e, x)) and v.off == 0 and v.o == e.o == x.o and (v.o == 0 or (st.mem[v.o].kind == 'sym' and st.mem[v.o].R == want[1]))
                others = [1 for o in st.mem.values() if o.kind == 'cells' for k, cell in o.cells.items() if isinstance(cell[1], Ptr) and v is not UNDEF and cell[1].o == v.o and v.o != 0 and (o.id, k) in ptrs and (o.id, k) != (oid, key)]
                if not ok or others:
                    raise Unsupported('container changed in a loop in an unexpected way')
            elif isinstance(v, Ptr) and v.o != want:
                raise Unsupported('pointer retargeted in a loop')

    def fresh_typed(self, st, ty, name):
        if ty in (DBL, FLT):
            return self.fresh_real(name)
        if ty == I1:
            return z3.Bool('%s!%d' % (name, next(self.fresh_n)))
        if ty == PTR:
            return UNDEF
        if ty == I8:
            v = self.fresh_int(name)
            st.assume(z3.And(v >= 0, v < 256))
            return v
        return self.fresh_int(name, st, ty[1])


class LoopWork(list):
    """work list proxy used during write-set discovery"""

    def __init__(self, w):
        self.wl = w

    def append(self, s):
        self.wl.append(s)


class LoopStop:
    def __init__(self, depth, f, h):
        self.depth, self.f, self.h = depth, f, h


class Throw(Exception):
    pass


class Outcome:
    def __init__(self, st, v):
        self.st, self.v = st, v


class TailCall:
    def __init__(self, name, args):
        self.name, self.args = name, args


class LoopSpec:
    def __init__(self, inv, variant=None):
        self.inv, self.variant = inv, variant


class View:
    """a vector / array seen from a contract: length and element access"""

    def __init__(self, ex, st, oid, base, length, R):
        self.ex, self.st, self.oid, self.base, self.len, self.R = ex, st, oid, base, length, R

    def arr(self, col=0, kind='real'):
        o = self.st.mem[self.oid]
        if o.kind == 'cells':
            # materialise a snapshot
            a = self.ex.fresh_arr(o.name, kind)
            for off, (ty, v) in sorted(o.cells.items()):
                if off % self.R == col and not isinstance(v, (Ptr, FnPtr, Undef)):
                    a = z3.Store(a, off // self.R, z(v if not (kind == 'real' and isinstance(v, int)) else Fraction(v)))
            for lo, hi in o.zeros:
                for x in range(lo, hi):
                    if x % self.R == col and x not in o.cells:
                        a = z3.Store(a, x // self.R, z(Fraction(0)) if kind == 'real' else z(0))
            return a
        return self.ex.col(self.st, self.oid, col, kind)

    def at(self, i, col=0, kind='real'):
        o = self.st.mem[self.oid]
        if o.kind == 'cells' and isinstance(i, int):
            off = self.base + i * self.R + col
            if off in o.cells:
                return o.cells[off][1]
            for lo, hi in o.zeros:
                if lo <= off < hi:
                    return Fraction(0) if kind == 'real' else 0
            raise KeyError(off)
        b = self.base
        if isinstance(b, Lin):
            b = b.div(self.R).norm()
            b = b.expr() if isinstance(b, Lin) else b
        else:
            b = b // self.R
        j = z(i) if (isinstance(b, int) and b == 0) else z(i) + b
        return z3.Select(self.arr(col, kind), j)

    def __getitem__(self, i):
        return self.at(i)


def vec_view(ex, st, p, R):
    """View of the std::vector whose control block is at p"""
    b = ex.load(st, PTR, p)
    e = ex.load(st, PTR, p.at(8))
    if not isinstance(b, Ptr) or b.o == 0:
        return View(ex, st, 0, 0, 0, R)
    d = Lin.of(e.off).add(b.off, -1)
    n = d.div(R).norm()
    n = n.expr() if isinstance(n, Lin) else n
    return View(ex, st, b.o, b.off, n, R)


class LoopCtx:
    def __init__(self, ex, st, depth, entry):
        self.ex, self.st, self.depth, self.entry = ex, st, depth, entry

    @property
    def fr(self):
        return self.st.frames[self.depth]

    def addr(self, name):
        if name not in self.fr.vars:
            raise Unsupported('contract refers to local %r which does not exist' % name)
        return self.fr.vars[name]

    def _ty(self, name):
        return None

    def int(self, name, bits=64):
        a = self.addr(name)
        o = self.st.mem[a.o]
        if o.kind == 'cells' and bits == 64 and o.size == 4:
            bits = 32
        v = self.ex.load(self.st, ('i', bits), a)
        if isinstance(v, Lin):
            v = v.expr()
        return v

    def real(self, name):
        return self.ex.load(self.st, DBL, self.addr(name))

    def ptr(self, name):
        return self.ex.load(self.st, PTR, self.addr(name))

    def vec(self, name, R=8, ref=False):
        p = self.addr(name)
        if ref or self.st.mem[p.o].size == 8:       # a reference, or a local living in the caller's return slot
            p = self.ex.load(self.st, PTR, p)
        return vec_view(self.ex, self.st, p, R)

    def real(self, name):
        return self.ex.load(self.st, DBL, self.addr(name))

    def raw(self, name, R=8, ref=False):
        p = self.addr(name)
        if ref:
            p = self.ex.load(self.st, PTR, p)
        o = self.st.mem[p.o]
        if o.kind == 'cells' and o.size and o.size % R == 0 and not any(isinstance(v, (Ptr, FnPtr)) for _, v in o.cells.values()):
            self.ex.to_sym(self.st, p.o, Lin({0: (None, R)}, 0))
            o = self.st.mem[p.o]
        return View(self.ex, self.st, p.o, p.off, o.len if o.kind == 'sym' else (o.size // R if o.size else None), R)


# ---------------------------------------------------------------- helpers
def delta_lin(a, b):
    d = b.add(a, -1).norm()
    return d if isinstance(d, int) else None


def delta(v0, v1):
    """constant difference v1-v0 of two integer or pointer values, or None"""
    if isinstance(v0, Ptr) and isinstance(v1, Ptr):
        if v0.o != v1.o:
            return None
        return delta_lin(Lin.of(v0.off), Lin.of(v1.off))
    if isinstance(v0, (Ptr, FnPtr, Undef, Fraction, bool)) or isinstance(v1, (Ptr, FnPtr, Undef, Fraction, bool)):
        if not is_sym(v0) and not is_sym(v1) and not isinstance(v0, (Ptr, Undef)) and type(v0) == type(v1) and v0 == v1:
            return 0
        return None
    if is_sym(v0) and v0.sort() != z3.IntSort() or is_sym(v1) and v1.sort() != z3.IntSort():
        return 0 if is_sym(v0) and is_sym(v1) and v0.eq(v1) else None
    return delta_lin(Lin.of(v0), Lin.of(v1))


def advance(v, c, t):
    if isinstance(v, Ptr):
        return v.at(Lin.of(t).scale(c).norm())
    if isinstance(v, Lin):
        return v.add(Lin.of(t).scale(c)).norm()
    return z3.simplify(z(v) + c * z(t))


def mentions(e, t):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(t):
            return True
        st.extend(x.children())
    return False


def fresh_after(e, n0, t):
    """does e mention a constant created after n0 (other than t)?"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(t):
            nm = x.decl().name()
            if '!' in nm:
                try:
                    if int(nm.rsplit('!', 1)[1]) > n0:
                        return True
                except ValueError:
                    pass
        st.extend(x.children())
    return False


def trip_count(cond, t):
    """number of iterations as an expression, given the condition (in t) to continue; (n, side condition)"""
    c = z3.simplify(cond, arith_lhs=False)
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind()
    if c.num_args() != 2 or c.arg(0).sort() != z3.IntSort():
        return None
    l, r = Lin.of(c.arg(0)), Lin.of(c.arg(1))
    d = r.add(l, -1)                  # r - l
    tid = t.get_id()
    a = d.t.get(tid, (t, 0))[1]
    rest = Lin({i: v for i, v in d.t.items() if i != tid}, d.c)
    if mentions(rest.expr(), t) or a == 0:
        return None
    rest = rest.expr()                # r - l = a*t + rest
    K = {z3.Z3_OP_LE: 'le', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_GT: 'gt', z3.Z3_OP_EQ: 'eq', z3.Z3_OP_DISTINCT: 'ne'}.get(k)
    if K is None:
        return None
    if neg:
        K = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}[K]
    if K == 'ne':
        if a == -1:
            return rest, rest >= 0
        if a == 1:
            return -rest, -rest >= 0
        return None
    # continue while  a*t + rest  (>=0 | >0 | <=0 | <0)
    if K in ('ge', 'gt'):
        a, rest = -a, -rest
        K = {'ge': 'le', 'gt': 'lt'}[K]
    if a != -1:
        return None
    # le: rest - t >= 0 ; lt: rest - t > 0
    n = rest + 1 if K == 'le' else rest
    return n, None


def addr(a, b):
    if not is_sym(a) and not is_sym(b):
        return a + b
    if not is_sym(a) and a == 0:
        return b
    if not is_sym(b) and b == 0:
        return a
    return z(a) + z(b)


def negr(a):
    if not is_sym(a):
        return -a
    return -a


def mulr(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if not is_sym(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return z(a) * z(b)


def cmp_(o, a, b):
    if not is_sym(a) and not is_sym(b):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
    a, b = z(a), z(b)
    if o == 'eq':
        return a == b
    if o == 'ne':
        return a != b
    if o == 'lt':
        return a < b
    if o == 'le':
        return a <= b
    if o == 'gt':
        return a > b
    return a >= b


def cut_zeros(zs, lo, hi):
    r = []
    for a, b in zs:
        if a < lo:
            r.append((a, min(b, lo)))
        if b > hi:
            r.append((max(a, hi), b))
    return [(a, b) for a, b in r if a < b]


_hq = {}


def has_quant(f):
    i = f.get_id()
    if i in _hq:
        return _hq[i][1]
    r = False
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _hq[i] = (f, r)      # keep f alive: z3 ids are recycled otherwise
    return r


_rc = {}


def real_consts(f, seen=None):
    """ids of the real constants occurring in f (memoised per formula)"""
    i = f.get_id()
    if i in _rc:
        return _rc[i][1]
    out, st, vis = [], [f], set()
    while st:
        x = st.pop()
        k = x.get_id()
        if k in vis:
            continue
        vis.add(k)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        ch = x.children()
        if ch:
            st.extend(ch)
        elif z3.is_app(x) and x.sort_kind() == z3.Z3_REAL_SORT and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(k)
    _rc[i] = (f, out)
    return out


def split_goal(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += split_goal(c)
        return r
    return [g]
