"""Models of library functions (assumed contracts on dependencies)."""
import re
from fractions import Fraction
import z3
from .ir import Unsupported, PTR, DBL, I64, I8
from .vals import *
from .exe import Outcome, TailCall, Throw, PathEnd, vec_view, View, addr, mulr, negr, cmp_

SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
FMOD = z3.Function('fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())
ATAN2 = z3.Function('atan2', z3.RealSort(), z3.RealSort(), z3.RealSort())


def m_nop(ex, st, a, ins):
    return None


def m_memcpy(ex, st, a, ins):
    ex.memcpy(st, a[0], a[1], a[2])


def m_memmove_ret(ex, st, a, ins):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


def m_memset(ex, st, a, ins):
    ex.memset(st, a[0], a[1], a[2])


def m_fabs(ex, st, a, ins):
    x = a[0]
    if isinstance(x, int):
        x = Fraction(x)
    if not is_sym(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def m_fmin(ex, st, a, ins):
    x, y = a
    if not is_sym(x) and not is_sym(y):
        return min(x, y)
    return z3.If(z(x) < z(y), z(x), z(y))


def m_fmax(ex, st, a, ins):
    x, y = a
    if not is_sym(x) and not is_sym(y):
        return max(x, y)
    return z3.If(z(x) > z(y), z(x), z(y))


def m_fmuladd(ex, st, a, ins):
    return addr(mulr(a[0], a[1]), a[2])


def m_sqrt(ex, st, a, ins):
    x = a[0]
    if not is_sym(x):
        import math
        n, d = math.isqrt(x.numerator) if x >= 0 else 0, math.isqrt(x.denominator)
        if x >= 0 and n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
        x = z(x)
    if ex.check_div:
        ex.oblige(st, 'sqrt-of-negative', x >= 0)
    r = SQRT(x)
    st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def m_sincos(which):
    def f(ex, st, a, ins):
        x = z(a[0])
        if not is_sym(a[0]) and a[0] == 0:
            return Fraction(0) if which == 's' else Fraction(1)
        s, c = SIN(x), COS(x)
        st.assume(s * s + c * c == 1)
        return s if which == 's' else c
    return f


def m_atan2(ex, st, a, ins):
    return ATAN2(z(a[0]), z(a[1]))


def m_new(ex, st, a, ins):
    n = a[0]
    if isinstance(n, Lin):
        n = n.norm()
    if not isinstance(n, int):
        n2 = z3.simplify(z(n))
        if z3.is_int_value(n2):
            n = n2.as_long()
        else:
            raise Unsupported('allocation of symbolic size in ' + ' < '.join(f.f.demangled[:160] for f in st.frames[-2:-6:-1]))
    o = ex.new_obj(st, n, 'heap')
    return Ptr(o.id, 0)


def m_throw(ex, st, a, ins):
    st.exc = a[0] if a and isinstance(a[0], Ptr) else NULL
    raise Throw()


def m_abort(ex, st, a, ins):
    ex.oblige(st, 'abort reached', False)
    raise PathEnd()


def m_expect(ex, st, a, ins):
    return a[0]


def m_umul(ex, st, a, ins):
    x, y = a
    if isinstance(x, int) and isinstance(y, int):
        r = (x % (1 << 64)) * (y % (1 << 64))
        return [ex.wrap(st, r, 64, False, '*'), r >= 1 << 64]
    raise Unsupported('umul.with.overflow')


def m_mm(op, signed):
    def f(ex, st, a, ins):
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            return (min if op == 'min' else max)(x, y)
        return z3.If(z(x) < z(y), z(x) if op == 'min' else z(y), z(y) if op == 'min' else z(x))
    return f


def m_begin_catch(ex, st, a, ins):
    return a[0]


def common():
    R = re.compile
    return [
        (R(r'^llvm\.(lifetime|assume|experimental|donothing|var\.annotation|stacksave|stackrestore|prefetch)'), m_nop),
        (R(r'^llvm\.mem(cpy|move)'), m_memcpy),
        (R(r'^(memmove|memcpy|__memmove_chk|__memcpy_chk)$'), m_memmove_ret),
        (R(r'^llvm\.memset'), m_memset),
        (R(r'^(llvm\.fabs\.f64|fabs)$'), m_fabs),
        (R(r'^(fmin|llvm\.minnum\.f64)$'), m_fmin),
        (R(r'^(fmax|llvm\.maxnum\.f64)$'), m_fmax),
        (R(r'^llvm\.fmuladd'), m_fmuladd),
        (R(r'^(sqrt|llvm\.sqrt\.f64)$'), m_sqrt),
        (R(r'^(sin|llvm\.sin\.f64)$'), m_sincos('s')),
        (R(r'^(cos|llvm\.cos\.f64)$'), m_sincos('c')),
        (R(r'^atan2$'), m_atan2),
        (R(r'^fmod$'), lambda ex, st, a, ins: FMOD(z(a[0]), z(a[1]))),
        (R(r'^llvm\.umul\.with\.overflow\.i64'), m_umul),
        (R(r'^llvm\.smin'), m_mm('min', 1)), (R(r'^llvm\.smax'), m_mm('max', 1)),
        (R(r'^llvm\.expect'), m_expect),
        (R(r'^llvm\.is\.constant'), lambda ex, st, a, ins: False),
        (R(r'^llvm\.trap'), m_abort),
        (R(r'^operator new(\[\])?\(unsigned long'), m_new),
        (R(r'^__cxa_allocate_exception$'), m_new),
        (R(r'^operator delete'), m_nop),
        (R(r'^__cxa_(free_exception|end_catch|guard_release)$'), m_nop),
        (R(r'^__cxa_begin_catch$'), m_begin_catch),
        (R(r'^(__cxa_throw|__cxa_rethrow|std::__throw_\w+)'), m_throw),
        (R(r'^std::(length_error|invalid_argument|out_of_range|runtime_error|logic_error|domain_error)::'), m_nop),
        (R(r'^(gbs::OutOfBounds\w*(<.*>)?::OutOf|std::(allocator|exception)(<.*>)?::)'), m_nop),
        (R(r'^std::__cxx11::basic_string<.*>::(basic_string|~basic_string)'), m_nop),
        # messages on the error stream: no effect on the computation
        (R(r'^std::basic_ostream<.*>& std::operator<< <'), m_expect), (R(r'^std::ostream::operator<<\(|^std::basic_ostream<.*>::operator<<\('), m_expect),
        (R(r'^std::terminate|^__clang_call_terminate|^abort$|^__assert_fail'), m_abort),
    ]


def unbounded():
    from . import stdvec
    return stdvec.models()
