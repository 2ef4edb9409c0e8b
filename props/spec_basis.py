"""Specification functions for the B-spline basis on one knot span, and the contract of basis_funcs."""
from .common import *

B = z3.Function('B', z3.IntSort(), z3.IntSort(), z3.RealSort())    # B(m,j) : Cox-de Boor basis value N_{m,j}(u) on the span i
T = z3.Function('T', z3.IntSort(), z3.IntSort(), z3.RealSort())    # T(m,j) : B(m,j-1)/(k[m+j]-k[m])


def cox_de_boor(i, u, k, divfn=False):
    """definition of B and T for the span index i (k[i] < k[i+1]), parameter u, knots k"""
    m, j = z3.Ints('m j')
    return [
        B(i, z3.IntVal(0)) == 1,
        z3.ForAll([m, j], implies(and_(j >= 1, i - j <= m, m <= i), B(m, j) == (u - k[m]) * T(m, j) + (k[m + j + 1] - u) * T(m + 1, j)), patterns=[B(m, j)]),
        z3.ForAll([m, j], implies(and_(j >= 1, i - j + 1 <= m, m <= i), T(m, j) == DIV(B(m, j - 1), k[m + j] - k[m])), patterns=[T(m, j)]) if divfn else
        z3.ForAll([m, j], implies(and_(j >= 1, i - j + 1 <= m, m <= i), T(m, j) * (k[m + j] - k[m]) == B(m, j - 1)), patterns=[T(m, j)]),
        z3.ForAll([m, j], implies(and_(j >= 1, or_(m == i - j, m == i + 1)), T(m, j) == 0), patterns=[T(m, j)]),
    ]


def pre(ex, st, i, p, u, k):
    st.assume(and_(p >= 0, p <= 24, i >= p, i < 2**40))
    st.assume(z(k.len) >= i + p + 1)
    st.assume(z(k.len) < 2**41)
    st.assume(z(k.len) >= i + 2)
    st.assume(sorted_(k))
    st.assume(k[i] < k[i + 1])
