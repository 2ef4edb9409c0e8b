#include "vc.h"
#include <gbs/bssurf.h>
using namespace gbs;
//@ sv1
extern "C" void vc_sv1(double u, double v, const V &ku, const V &kv, const P1 &P, size_t p, size_t q, size_t du, size_t dv, PT<1> &o) { o = gbs::eval_value_decasteljau(u, v, ku, kv, P, p, q, du, dv); }
//@ sv3
extern "C" void vc_sv3(double u, double v, const V &ku, const V &kv, const P3 &P, size_t p, size_t q, size_t du, size_t dv, PT<3> &o) { o = gbs::eval_value_decasteljau(u, v, ku, kv, P, p, q, du, dv); }
//@ sd1
extern "C" void vc_sd1(double u, double v, const V &ku, const V &kv, const P1 &P, size_t p, size_t q, size_t nu, size_t nv, double *o) { gbs::eval_ders_decasteljau<double,1>(u, v, ku, kv, P, p, q, nu, nv, reinterpret_cast<PT<1>*>(o)); }
//@ sd3
extern "C" void vc_sd3(double u, double v, const V &ku, const V &kv, const P3 &P, size_t p, size_t q, size_t nu, size_t nv, double *o) { gbs::eval_ders_decasteljau<double,3>(u, v, ku, kv, P, p, q, nu, nv, reinterpret_cast<PT<3>*>(o)); }
//@ srd1
extern "C" void vc_srd1(double u, double v, const V &ku, const V &kv, const P2 &P, size_t p, size_t q, size_t nu, size_t nv, double *o) { gbs::eval_rational_ders<double,1>(u, v, ku, kv, P, p, q, nu, nv, reinterpret_cast<PT<1>*>(o)); }
//@ srd3
extern "C" void vc_srd3(double u, double v, const V &ku, const V &kv, const P4 &P, size_t p, size_t q, size_t nu, size_t nv, double *o) { gbs::eval_rational_ders<double,3>(u, v, ku, kv, P, p, q, nu, nv, reinterpret_cast<PT<3>*>(o)); }
//@ bs1
extern "C" void vc_bs1(const P1 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t du, size_t dv, PT<1> &o) { BSSurface<double,1> s(P, ku, kv, p, q); o = s.value(u, v, du, dv); }
//@ bs3
extern "C" void vc_bs3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t du, size_t dv, PT<3> &o) { BSSurface<double,3> s(P, ku, kv, p, q); o = s(u, v, du, dv); }
//@ bsd3
extern "C" void vc_bsd3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t nu, size_t nv, double *o) { BSSurface<double,3> s(P, ku, kv, p, q); s.derivatives(u, v, nu, nv, reinterpret_cast<PT<3>*>(o)); }
//@ bsm3
extern "C" void vc_bsm3(const P3 &P, const V &ku, const V &kv, const VU &mu, const VU &mv, size_t p, size_t q, double u, double v, PT<3> &o) { BSSurface<double,3> s(P, ku, kv, mu, mv, p, q); o = s(std::array<double,2>{u, v}); }
//@ bsb3
extern "C" void vc_bsb3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, PT<4> &b, PT<2> &bu, PT<2> &bv) { BSSurface<double,3> s(P, ku, kv, p, q); b = s.bounds(); bu = s.boundsU(); bv = s.boundsV(); }
//@ bsf
extern "C" double vc_bsf(const V &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t du, size_t dv) { BSSfunction<double> s(P, ku, kv, p, q); return s(u, v, du, dv); }
//@ bst3
extern "C" void vc_bst3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, double a, double b, PT<3> &t, PT<3> &mu, PT<3> &mv, PT<3> &mu2, PT<3> &mv2) { BSSurface<double,3> s(P, ku, kv, p, q); t = s.tangent(u, v, a, b); mu = s.d_dmu(u, v); mv = s.d_dmv(u, v); mu2 = s.d_dmu2(u, v); mv2 = s.d_dmv2(u, v); }
//@ bsvs3
extern "C" void vc_bsvs3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, const P2 &uv, size_t du, size_t dv, P3 &o) { BSSurface<double,3> s(P, ku, kv, p, q); o = s.values(uv, du, dv); }
//@ bsvl3
extern "C" void vc_bsvl3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, const V &us, const V &vs, size_t du, size_t dv, P3 &o) { BSSurface<double,3> s(P, ku, kv, p, q); o = s.values(us, vs, du, dv); }
//@ rs3
extern "C" void vc_rs3(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t du, size_t dv, PT<3> &o) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); o = s(u, v, du, dv); }
//@ rs1
extern "C" void vc_rs1(const P2 &P, const V &ku, const V &kv, size_t p, size_t q, double u, double v, size_t du, size_t dv, PT<1> &o) { BSSurfaceRational<double,1> s(P, ku, kv, p, q); o = s(u, v, du, dv); }
//@ rsw3
extern "C" void vc_rsw3(const P3 &P, const V &w, const V &ku, const V &kv, size_t p, size_t q, double u, double v, PT<3> &o, P3 &pp, V &ww) { BSSurfaceRational<double,3> s(P, w, ku, kv, p, q); o = s(u, v); pp = s.polesProjected(); ww = s.weights(); }
//@ isou
extern "C" void vc_isou3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, double u, P3 &cp, V &ck, size_t &cd) { BSSurface<double,3> s(P, ku, kv, p, q); auto c = s.isoU(u); cp = c.poles(); ck = c.knotsFlats(); cd = c.degree(); }
//@ isov
extern "C" void vc_isov3(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, double v, P3 &cp, V &ck, size_t &cd) { BSSurface<double,3> s(P, ku, kv, p, q); auto c = s.isoV(v); cp = c.poles(); ck = c.knotsFlats(); cd = c.degree(); }
//@ isour
extern "C" void vc_isour3(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, double u, P4 &cp, V &ck, size_t &cd) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); auto c = s.isoU(u); cp = c.poles(); ck = c.knotsFlats(); cd = c.degree(); }
//@ isovr
extern "C" void vc_isovr3(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, double v, P4 &cp, V &ck, size_t &cd) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); auto c = s.isoV(v); cp = c.poles(); ck = c.knotsFlats(); cd = c.degree(); }
