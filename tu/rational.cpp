#include "vc.h"
#include <gbs/bscurve.h>
using namespace gbs;
//@ rders2
extern "C" void vc_rders2(double u, const V &k, const P3 &poles, size_t p, size_t n, double *CK) { gbs::eval_rational_ders<double,2>(u, k, poles, p, n, reinterpret_cast<PT<2>*>(CK)); }
//@ rders3
extern "C" void vc_rders3(double u, const V &k, const P4 &poles, size_t p, size_t n, double *CK) { gbs::eval_rational_ders<double,3>(u, k, poles, p, n, reinterpret_cast<PT<3>*>(CK)); }
//@ rval2
extern "C" void vc_rval2(double u, const V &k, const P3 &poles, size_t p, size_t d, PT<2> &o) { o = gbs::eval_rational_value_simple<double,2>(u, k, poles, p, d); }
//@ rval3
extern "C" void vc_rval3(double u, const V &k, const P4 &poles, size_t p, size_t d, PT<3> &o) { o = gbs::eval_rational_value_simple<double,3>(u, k, poles, p, d); }
//@ rcv2
extern "C" void vc_rcv2(const P3 &poles, const V &k, size_t p, double u, size_t d, PT<2> &o) { BSCurveRational<double,2> c(poles, k, p); o = c.value(u, d); }
//@ rcd2
extern "C" void vc_rcd2(const P3 &poles, const V &k, size_t p, double u, size_t n, double *CK) { BSCurveRational<double,2> c(poles, k, p); c.derivatives(u, n, reinterpret_cast<PT<2>*>(CK)); }
//@ rcw2
extern "C" void vc_rcw2(const P2 &poles, const V &k, const V &w, size_t p, double u, size_t d, PT<2> &o) { BSCurveRational<double,2> c(poles, k, w, p); o = c.value(u, d); }
//@ rcwm2
extern "C" void vc_rcwm2(const P2 &poles, const V &k, const VU &m, const V &w, size_t p, double u, size_t d, PT<2> &o) { BSCurveRational<double,2> c(poles, k, m, w, p); o = c.value(u, d); }
//@ rcb
extern "C" void vc_rcb3(const P3 &poles, const V &k, size_t p, double u, size_t d, PT<3> &o) { BSCurve<double,3> b(poles, k, p); BSCurveRational<double,3> c(b); o = c.value(u, d); }
//@ rcpw
extern "C" void vc_rcpw2(const P3 &poles, const V &k, size_t p, P2 &pp, V &w) { BSCurveRational<double,2> c(poles, k, p); pp = c.polesProjected(); w = c.weights(); }
//@ merge
extern "C" void vc_merge2(const P2 &p, const V &w, P3 &o) { o = gbs::merge_weights<double,2>(p, w); }
//@ separate
extern "C" void vc_separate2(const P3 &pw, P2 &p, V &w) { gbs::separate_weights<double,2>(pw, p, w); }
//@ addw
extern "C" void vc_addw2(const P2 &p, P3 &o) { o = gbs::add_weights_coord(p); }
//@ addww
extern "C" void vc_addww2(const P2 &p, const V &w, P3 &o) { o = gbs::add_weights_coord(p, w); }
//@ scalep
extern "C" void vc_scalep3(P3 &p, double s) { gbs::scale_poles(p, s); }
//@ scaledp
extern "C" void vc_scaledp3(const P3 &p, double s, P3 &o) { o = gbs::scaled_poles(p, s); }
//@ scalew
extern "C" void vc_scalew3(P3 &p, double m) { gbs::scale_weights(p, m); }
//@ scaledw
extern "C" void vc_scaledw3(const P3 &p, double m, P3 &o) { o = gbs::scaled_weights(p, m); }
//@ proj
extern "C" void vc_proj3(const PT<3> &p, PT<2> &o) { o = gbs::weight_projection(p); }
//@ projr
extern "C" void vc_projr(const PT<3> &p, PT<2> &o) { o = gbs::weight_projected_pole<double,2,true>(p); }
//@ projn
extern "C" void vc_projn(const PT<3> &p, PT<3> &o) { o = gbs::weight_projected_pole<double,3,false>(p); }
//@ projs
extern "C" void vc_projs2(const P3 &p, P2 &o) { o = gbs::poles_projected<double,2>(p); }
//@ binom
extern "C" double vc_binom(size_t n, size_t k) { return gbs::binomial_law<double>(n, k); }
//@ binomi
extern "C" double vc_binomi(size_t n, size_t k) { return gbs::binomial_law<double>(int(n), int(k)); }
