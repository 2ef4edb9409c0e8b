"""Glue for writing contracts: symbolic arguments, verification driver."""
import re, time
import z3
from fractions import Fraction
from .ir import Unsupported, PTR, DBL, I64
from .vals import *
from .exe import Exec, State, LoopSpec, LoopCtx, View, vec_view, Outcome, Throw, DIV, PathEnd, WriteSetTooSmall, mulr, addr

I = z3.IntVal


def forall(n, f, pats=None):
    vs = [z3.Int('i%d' % k) for k in range(n)]
    b = f(*vs)
    if pats:
        return z3.ForAll(vs, b, patterns=pats(*vs))
    return z3.ForAll(vs, b)


def implies(a, b):
    return z3.Implies(a, b)


def and_(*a):
    return z3.And(*[z(x) for x in a])


def or_(*a):
    return z3.Or(*[z(x) for x in a])


def mk_vec(ex, st, length, R=8, name='v', cols=None, kinds=None):
    """a std::vector with symbolic length and contents; returns (Ptr to control block, View)"""
    o = ex.new_sym(st, R, length, name + '.data')
    for c in range(0, R, 8):
        k = (kinds or {}).get(c, 'real')
        o.cols[c] = (k, (cols or {}).get(c, z3.Array('%s.%d' % (name, c) if R > 8 else name, z3.IntSort(), z3.RealSort() if k == 'real' else z3.IntSort())))
    cb = ex.new_obj(st, 24, name)
    end = Ptr(o.id, Lin.of(length).scale(R).norm())
    cb.cells[0] = (PTR, Ptr(o.id, 0))
    cb.cells[8] = (PTR, end)
    cb.cells[16] = (PTR, end)
    return Ptr(cb.id, 0), View(ex, st, o.id, 0, length, R)


def set_vec(ex, st, p, length, R, name, cols=None, kinds=None):
    """make the vector at p own fresh storage of the given (symbolic) length; returns View"""
    o = ex.new_sym(st, R, length, name + '.data')
    for c in range(0, R, 8):
        k = (kinds or {}).get(c, 'real')
        o.cols[c] = (k, cols[c] if cols and c in cols else ex.fresh_arr(name, k))
    end = Ptr(o.id, Lin.of(length).scale(R).norm())
    ex.store(st, PTR, p, Ptr(o.id, 0))
    ex.store(st, PTR, p.at(8), end)
    ex.store(st, PTR, p.at(16), end)
    return View(ex, st, o.id, 0, length, R)


def empty_vec(ex, st, name='v'):
    cb = ex.new_obj(st, 24, name)
    for c in (0, 8, 16):
        cb.cells[c] = (PTR, NULL)
    return Ptr(cb.id, 0)


def conc_vec(ex, st, vals, R=8, name='v'):
    """a std::vector with concrete length; vals = flat list of element values"""
    n = len(vals)
    o = ex.new_obj(st, max(8 * n, 0), name + '.data')
    for i, v in enumerate(vals):
        o.cells[8 * i] = (DBL if (isinstance(v, Fraction) or (is_sym(v) and v.sort() == z3.RealSort())) else I64, v)
    cb = ex.new_obj(st, 24, name)
    cb.cells[0] = (PTR, Ptr(o.id, 0))
    cb.cells[8] = (PTR, Ptr(o.id, 8 * n))
    cb.cells[16] = (PTR, Ptr(o.id, 8 * n))
    return Ptr(cb.id, 0)


def out_buf(ex, st, nbytes, name='out'):
    return Ptr(ex.new_obj(st, nbytes, name).id, 0)


class Contract:
    """callee contract: rx selects the function by demangled name; apply(ex, st, args) -> value"""

    def __init__(self, rx, apply, name=None):
        self.rx, self.apply, self.name = re.compile(rx), apply, name or rx


class Proof:
    """verification of one function against its contract.

    entry   : the extern "C" wrapper in the extraction unit
    setup   : (ex, st) -> args         -- symbolic inputs, preconditions assumed into st
    post    : (ex, st, ret) -> [(name, goal)]
    loops   : {demangled regex: {loop ordinal: LoopSpec}}
    callees : [Contract]
    """

    def __init__(self, name, entry, setup, post, loops=None, callees=(), axioms=None, models=None, throws=None, funcs=(), tu=None, divfn=False, bound_hints=None):
        self.tu, self.divfn, self.bound_hints = tu, divfn, bound_hints
        self.name, self.entry, self.setup, self.post = name, entry, setup, post
        self.loops, self.callees, self.axioms, self.models = loops or {}, list(callees), axioms, models
        self.throws = throws
        self.funcs = funcs

    def generate(self, mod, deadline=None):
        try:
            return self.generate_(mod, deadline, True)
        except WriteSetTooSmall:
            return self.generate_(mod, deadline, False)

    def generate_(self, mod, deadline, cache):
        from . import models
        ex = Exec(mod, 'proof', deadline=deadline)
        ex.use_cache = cache
        ex.models = models.common() + (self.models if self.models is not None else models.unbounded())
        ex.contracts = self.callees
        ex.div_fn = self.divfn
        ex.bound_hints = self.bound_hints
        for rx, sp in self.loops.items():
            fs = mod.find(rx)
            if not fs:
                raise Unsupported('no function matches %s' % rx)
            for f in fs:
                f.parse()
                if sp and max(sp) >= len(f.loop_headers):
                    raise Unsupported('loop structure of %s changed' % rx)
                ex.loopspecs[f.name] = sp
        st = State()
        args = self.setup(ex, st)
        ex.pre = st.fork()
        # vacuity: the precondition must be satisfiable (quantifier-free part + solver on the whole)
        ex.pre_pc = list(st.pc)
        res = ex.call_top(st, self.entry, args)
        npaths = 0
        ex.loop_cut_paths = 0
        ex.end_pcs = [list(s.pc) for s, r in res] + [list(s.pc) for s, r in ex.throws]
        for s, r in res:
            npaths += 1
            s.frames = []
            ex.freeze(s)
            for nm, g in self.post(ex, s, r[1]):
                ex.oblige(s, 'post:' + nm, g, 'contract ' + self.name)
        for s, r in ex.throws:
            s.frames = []
            if self.throws is None:
                ex.oblige(s, 'no-exception', z3.BoolVal(False), 'contract ' + self.name)
            else:
                for nm, g in self.throws(ex, s):
                    ex.oblige(s, 'exceptional-post:' + nm, g, 'contract ' + self.name)
        ex.npaths = npaths + len(ex.throws)
        return ex


class Lemma:
    """a lemma over the specification functions used by contracts: named (hypotheses, goal) obligations"""

    def __init__(self, name, build, tu=None):
        self.name, self.build, self.tu = name, build, tu

    def generate(self, mod, deadline=None):
        from .exe import Obligation
        ex = Exec(mod, 'proof', deadline=deadline)
        ex.pre_pc, ex.npaths, ex.loop_cut_paths, ex.end_pcs = [], 1, 0, []
        for nm, hyps, goal in self.build(ex):
            ex.obls.append(Obligation('lemma:' + nm, list(hyps), goal, 'lemma ' + self.name))
            ex.end_pcs.append(list(hyps))
        return ex
