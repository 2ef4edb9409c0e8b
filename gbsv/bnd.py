"""Bounded symbolic checks: the extracted code executed with concrete sizes, degrees and knots, and symbolic reals
(parameter, pole coordinates).  Stand-ins for functions outside the unbounded contracts; never counted as proved."""
import time
import z3
from fractions import Fraction
from .exe import Exec, State
from .vals import *
from . import models
from .core import conc_vec, out_buf, vec_view
from .ir import DBL, PTR, I64, Unsupported


def start(mod, deadline=60):
    ex = Exec(mod, 'bounded', deadline=time.time() + deadline)
    ex.models = models.common()
    return ex, State()


def go(ex, st, entry, args):
    """list of (state, return value) of the completed paths; obligations (bounds, divisions) are in ex.obls"""
    return [(s, r[1]) for s, r in ex.call_top(st, entry, args)]


def poly_zero(d):
    return z3.is_rational_value(d) and d.numerator_as_long() == 0


def same(got, want, pc=(), extra=(), timeout=4000):
    """True / False / None : equality of two reals for all values of the symbols satisfying pc"""
    if not is_sym(got) and not is_sym(want):
        return Fraction(got) == Fraction(want)
    d = z3.simplify(z(got) - z(want), som=True)
    if poly_zero(d):
        return True
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in pc:
        s.add(f)
    for f in extra:
        s.add(f)
    s.add(d != 0)
    r = s.check()
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return False
    return None


def goal(out, label, ok):
    out['goals'] += 1
    if ok is None:
        out['und'].append(label)
    elif not ok:
        out['bad'].append(label)


def eq(out, ex, s, got, want, label):
    goal(out, label, same(got, want, s.pc, ex.div_axioms(list(s.pc) + [z(got) == z(want)])))


def safe(out, ex, label):
    """the memory-safety / division obligations met during the bounded run"""
    for ob in ex.obls:
        s = z3.Solver()
        s.set('timeout', 3000)
        for f in list(ob.hyps) + [z3.Not(ob.goal)]:
            s.add(f)
        for f in ex.div_axioms(list(ob.hyps) + [ob.goal]):
            s.add(f)
        r = s.check()
        goal(out, '%s: %s at %s' % (label, ob.name, ob.where), True if r == z3.unsat else False if r == z3.sat else None)
    if ex.throws:
        out['bad'].append('%s: unexpected exception' % label)


def reals(ex, s, v, R=8):
    """flat list of the doubles of a concrete-length vector"""
    n = v.len
    return [[v.at(i, c) for c in range(0, R, 8)] for i in range(n)]
