#include "vc.h"
#include <gbs/bscurve.h>
using namespace gbs;
//@ ev1
extern "C" void vc_ev1(double u, const V &k, const P1 &poles, size_t p, size_t d, PT<1> &o) { o = gbs::eval_value_decasteljau(u, k, poles, p, d); }
//@ ev2
extern "C" void vc_ev2(double u, const V &k, const P2 &poles, size_t p, size_t d, PT<2> &o) { o = gbs::eval_value_decasteljau(u, k, poles, p, d); }
//@ ev3
extern "C" void vc_ev3(double u, const V &k, const P3 &poles, size_t p, size_t d, PT<3> &o) { o = gbs::eval_value_decasteljau(u, k, poles, p, d); }
//@ eders3
extern "C" void vc_eders3(double u, const V &k, const P3 &poles, size_t p, size_t n, double *CK) { gbs::eval_ders_decasteljau<double,3>(u, k, poles, p, n, reinterpret_cast<PT<3>*>(CK)); }
//@ eders1
extern "C" void vc_eders1(double u, const V &k, const P1 &poles, size_t p, size_t n, double *CK) { gbs::eval_ders_decasteljau<double,1>(u, k, poles, p, n, reinterpret_cast<PT<1>*>(CK)); }
//@ deboor3
extern "C" void vc_deboor3(double u, const V &k, const P3 &poles, size_t p, PT<3> &o) { o = gbs::eval_value_deboor_cox(u, k, poles, p); }
//@ cv1
extern "C" void vc_cv1(const P1 &poles, const V &k, size_t p, double u, size_t d, PT<1> &o) { BSCurve<double,1> c(poles, k, p); o = c.value(u, d); }
//@ cv2
extern "C" void vc_cv2(const P2 &poles, const V &k, size_t p, double u, size_t d, PT<2> &o) { BSCurve<double,2> c(poles, k, p); o = c.value(u, d); }
//@ cv3
extern "C" void vc_cv3(const P3 &poles, const V &k, size_t p, double u, size_t d, PT<3> &o) { BSCurve<double,3> c(poles, k, p); o = c(u, d); }
//@ cd3
extern "C" void vc_cd3(const P3 &poles, const V &k, size_t p, double u, size_t n, double *CK) { BSCurve<double,3> c(poles, k, p); c.derivatives(u, n, reinterpret_cast<PT<3>*>(CK)); }
//@ cbe3
extern "C" void vc_cbe3(const P3 &poles, const V &k, size_t p, size_t d, PT<3> &b, PT<3> &e, PT<2> &bd) { BSCurve<double,3> c(poles, k, p); b = c.begin(d); e = c.end(d); bd = c.bounds(); }
//@ cvs3
extern "C" void vc_cvs3(const P3 &poles, const V &k, size_t p, const V &us, size_t d, P3 &o) { BSCurve<double,3> c(poles, k, p); o = c.values(us, d); }
//@ ckm2
extern "C" void vc_ckm2(const P2 &poles, const V &k, const VU &m, size_t p, double u, size_t d, PT<2> &o) { BSCurve<double,2> c(poles, k, m, p); o = c.value(u, d); }
//@ cf
extern "C" double vc_cf(const V &poles, const V &k, size_t p, double u, size_t d) { BSCfunction<double> f(poles, k, p); return f(u, d); }
//@ cfe
extern "C" void vc_cfe(const V &poles, const V &k, size_t p, PT<2> &be) { BSCfunction<double> f(poles, k, p); be = {f.begin(), f.end()}; }
//@ arc
extern "C" void vc_arc3(const P3 &poles, const V &k, size_t p, double u, PT<3> &d1, PT<3> &d2) { BSCurve<double,3> c(poles, k, p); d1 = c.d_dm(u); d2 = c.d_dm2(u); }
