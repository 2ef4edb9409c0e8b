"""Value domain: mathematical integers (machine ranges enforced by obligations), mathematical reals, pointers."""
from fractions import Fraction
import z3
from .ir import Unsupported


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def z(v):
    """to z3 expression"""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, Lin):
        return v.expr()
    raise Unsupported('z3 conversion of %r' % (v,))


class Lin:
    """linear form  sum coef*expr + const  (byte offsets, pointer differences)"""
    __slots__ = ('t', 'c')

    def __init__(self, t=None, c=0):
        self.t, self.c = t or {}, c

    @staticmethod
    def of(v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, int):
            return Lin({}, v)
        e = z3.simplify(v)
        if z3.is_int_value(e):
            return Lin({}, e.as_long())
        # split sums so that equal atoms cancel
        if z3.is_add(e):
            r = Lin()
            for ch in e.children():
                r = r.add(Lin.of(ch))
            return r
        if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            return Lin.of(e.arg(1)).scale(e.arg(0).as_long())
        return Lin({e.get_id(): (e, 1)}, 0)

    def add(self, o, k=1):
        o = Lin.of(o)
        t = dict(self.t)
        for i, (e, c) in o.t.items():
            n = t.get(i, (e, 0))[1] + k * c
            if n:
                t[i] = (e, n)
            else:
                t.pop(i, None)
        return Lin(t, self.c + k * o.c)

    def scale(self, k):
        if k == 0:
            return Lin()
        return Lin({i: (e, c * k) for i, (e, c) in self.t.items()}, self.c * k)

    def divisible(self, n):
        return all(c % n == 0 for _, c in self.t.values())

    def norm(self):
        return self.c if not self.t else self

    def expr(self):
        if not self.t:
            return z3.IntVal(self.c)
        s = [e if c == 1 else c * e for e, c in self.t.values()]
        r = s[0]
        for x in s[1:]:
            r = r + x
        return r + self.c if self.c else r

    def div(self, n):
        """exact division"""
        return Lin({i: (e, c // n) for i, (e, c) in self.t.items()}, self.c // n)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def at(self, d):
        if isinstance(self.off, int) and isinstance(d, int):
            return Ptr(self.o, self.off + d)
        return Ptr(self.o, Lin.of(self.off).add(d).norm())

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off if isinstance(self.off, int) else self.off.expr())


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()
NULL = Ptr(0, 0)
