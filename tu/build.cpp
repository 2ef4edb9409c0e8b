// Wrapper unit: curves built from simple shapes, and by differentiation and integration.
#include "vc.h"
#include <gbs/bscbuild.h>
using namespace gbs;
//@ seg3
extern "C" size_t vc_seg3(const PT<3> &a, const PT<3> &b, bool unit, P3 &P, V &k) { auto c = build_segment<double,3>(a, b, unit); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ seg2
extern "C" size_t vc_seg2(const PT<2> &a, const PT<2> &b, bool unit, P2 &P, V &k) { auto c = build_segment<double,2>(a, b, unit); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ ell2
extern "C" size_t vc_ell2(double r1, double r2, const PT<2> &o, P3 &P, V &k) { auto c = build_ellipse<double,2>(r1, r2, o); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ ell3
extern "C" size_t vc_ell3(double r1, double r2, const PT<3> &o, P4 &P, V &k) { auto c = build_ellipse<double,3>(r1, r2, o); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ cir2
extern "C" size_t vc_cir2(double r, const PT<2> &o, P3 &P, V &k) { auto c = build_circle<double,2>(r, o); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ cir3
extern "C" size_t vc_cir3(double r, const PT<3> &o, P4 &P, V &k) { auto c = build_circle<double,3>(r, o); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ bder3
extern "C" size_t vc_bder3(const P3 &A, const V &ka, size_t p, P3 &C, V &kc) { BSCurve<double,3> a(A, ka, p); auto c = build_derivate(a); C = c.poles(); kc = c.knotsFlats(); return c.degree(); }
//@ bder1
extern "C" size_t vc_bder1(const P1 &A, const V &ka, size_t p, P1 &C, V &kc) { BSCurve<double,1> a(A, ka, p); auto c = build_derivate(a); C = c.poles(); kc = c.knotsFlats(); return c.degree(); }
//@ bint3
extern "C" size_t vc_bint3(const P3 &A, const V &ka, size_t p, const PT<3> &o, P3 &C, V &kc) { BSCurve<double,3> a(A, ka, p); auto c = build_integrate(a, o); C = c.poles(); kc = c.knotsFlats(); return c.degree(); }
//@ bint1
extern "C" size_t vc_bint1(const P1 &A, const V &ka, size_t p, const PT<1> &o, P1 &C, V &kc) { BSCurve<double,1> a(A, ka, p); auto c = build_integrate(a, o); C = c.poles(); kc = c.knotsFlats(); return c.degree(); }
