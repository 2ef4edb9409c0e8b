#include "vc.h"
#include <gbs/bscinterp.h>
using namespace gbs;
using BL = band_lu<double>;
//@ fact
extern "C" bool vc_fact(BL &b, double scale) { return b.factorize_inplace(scale); }
//@ solve
extern "C" void vc_solve(const BL &b, const V &r, V &x) { b.solve(r.data(), x.data()); }
//@ asm
extern "C" bool vc_asm(BL &b, const V &k, const V &u, size_t p, size_t nc, long n) { return b.assemble_and_factorize(k, u, p, nc, n); }
//@ asmc
extern "C" bool vc_asmc(BL &b, const V &u, const VU &d, const V &k, size_t p) { return b.assemble_and_factorize_constraints(u, d, k, p); }
//@ bbe
extern "C" void vc_bbe(size_t n, size_t p, double u, const V &k, VU &o) { auto b = gbs::basis_band_extent(n, p, u, k); o[0] = b.span; o[1] = b.i_min; o[2] = b.r_max; }
//@ tgv
extern "C" void vc_tgv(const P2 &Q, const V &u, P2 &D) { D = build_3pt_tg_vec<double,2>(Q, u); }
//@ par
extern "C" void vc_par(const P2 &Q, KnotsCalcMode m, V &u) { u = curve_parametrization(Q, m); }
//@ delta
extern "C" void vc_delta(const V &v, V &r) { r = delta(v); }
//@ delta2
extern "C" void vc_delta2(const P2 &v, P2 &r) { r = delta(v); }
//@ vdiv
extern "C" void vc_vdiv(const P2 &a, const V &b, P2 &r) { r = a / b; }
