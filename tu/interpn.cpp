#include "vc.h"
#include <gbs/bscinterp.h>
#include <gbs/bssinterp.h>
#include <gbs/curves>
using namespace gbs;
static KnotsCalcMode mode_(size_t m) { return m == 0 ? KnotsCalcMode::EQUALLY_SPACED : m == 1 ? KnotsCalcMode::CHORD_LENGTH : KnotsCalcMode::CENTRIPETAL; }
template<size_t d, size_t nc> static auto &cst(PV<d*nc> &Q) { return reinterpret_cast<std::vector<constrType<double,d,nc>>&>(Q); }
template<size_t d> static auto cpt(const V &u, const VU &o, const PV<d> &v) { std::vector<constrPoint<double,d>> c(u.size()); for (size_t i = 0; i < u.size(); i++) c[i] = {v[i], u[i], o[i]}; return c; }
template<size_t d> static void put(const BSCurve<double,d> &c, PV<d> &P, V &k) { P = c.poles(); k = c.knotsFlats(); }
//@ par
extern "C" void vc_npar(const P3 &Q, size_t m, bool a, V &u) { u = curve_parametrization(Q, mode_(m), a); }
//@ cn
extern "C" void vc_ncn(const P3 &Q, size_t p, size_t m, P3 &P, V &k) { put(interpolate<double,3>(Q, p, mode_(m)), P, k); }
//@ cnu
extern "C" void vc_ncnu(const P3 &Q, const V &u, size_t p, P3 &P, V &k) { put(interpolate<double,3>(Q, u, p), P, k); }
//@ cnb
extern "C" void vc_ncnb(const P3 &Q, const P3 &R, size_t n, size_t p, size_t m, P3 &P, V &k) { std::vector<P3> l(n, R); l[n / 2] = Q; auto c = interpolate<double,3>(l, p, mode_(m)); put(c[n / 2], P, k); }
//@ fn
extern "C" void vc_nfn(const V &Q, const V &u, size_t p, P1 &P, V &k) { put(interpolate<double>(Q, u, p).basisCurve(), P, k); }
//@ c2
extern "C" void vc_nc2(P4 &Q, const V &u, bool a, P2 &P, V &k) { put(interpolate<double,2,2>(cst<2,2>(Q), u, a), P, k); }
//@ c3
extern "C" void vc_nc3(PV<6> &Q, const V &u, P2 &P, V &k) { put(interpolate<double,2,3>(cst<2,3>(Q), u, false), P, k); }
//@ c2m
extern "C" void vc_nc2m(P4 &Q, size_t m, P2 &P, V &k) { put(interpolate<double,2,2>(cst<2,2>(Q), mode_(m), false), P, k); }
//@ col
extern "C" void vc_ncol(P4 &Q, P4 &R, const V &k, const V &u, size_t p, P2 &P) { std::vector<std::vector<constrType<double,2,2>>> c{cst<2,2>(Q), cst<2,2>(R), cst<2,2>(Q)}; P = build_poles<double,2,2>(c, k, u, p); }
//@ gen
extern "C" void vc_ngen(const V &u, const VU &o, const P2 &v, const V &k, size_t p, P2 &P) { P = build_poles(cpt<2>(u, o, v), k, p); }
//@ bnd
extern "C" void vc_nbnd(double a, const P2 &e, double b, const V &u, const VU &o, const P2 &v, size_t p, P2 &P, V &k) { std::vector<bsc_constraint<double,2>> c; for (size_t i = 0; i < u.size(); i++) c.push_back({u[i], v[i], o[i]}); put(interpolate<double,2>(bsc_bound<double,2>{a, e[0]}, bsc_bound<double,2>{b, e[1]}, c, p), P, k); }
//@ tgv
extern "C" void vc_ntgv(const P2 &Q, const V &u, P2 &D) { D = build_3pt_tg_vec<double,2>(Q, u); }
//@ tgd
extern "C" void vc_ntgd(const P2 &Q, const V &u, P2 &D) { D = build_3pt_tg_dir<double,2>(Q, u); }
//@ srf
extern "C" void vc_nsrf(const P3 &Q, size_t nv, size_t p, size_t q, size_t m, P3 &P, V &ku, V &kv) { auto s = interpolate<double,3>(Q, nv, p, q, mode_(m)); P = s.poles(); ku = s.knotsFlatsU(); kv = s.knotsFlatsV(); }
//@ sbp
extern "C" void vc_nsbp(const P3 &Q, const V &ku, const V &kv, const V &u, const V &v, size_t p, size_t q, P3 &P) { P = build_poles<double,3>(Q, ku, kv, u, v, p, q); }
//@ scs
extern "C" void vc_nscs(const P3 &Q, const V &u, const V &v, const VU &du, const VU &dv, const V &ku, const V &kv, size_t p, size_t q, P3 &P) { std::vector<bss_constraint<double,3>> c; for (size_t i = 0; i < Q.size(); i++) c.push_back({u[i], v[i], Q[i], du[i], dv[i]}); P = build_poles<double,3>(c, ku, kv, p, q); }
