#include "vc.h"
#include <gbs/basisfunctions.ixx>
#include <gbs/knotsfunctions.ixx>
//@ span
extern "C" size_t vc_find_span(size_t n, size_t p, double u, const V &k) { return gbs::find_span(n, p, u, k) - k.begin(); }
//@ span_range
extern "C" void vc_find_span_range(size_t n, size_t p, double u, const V &k, size_t &i1, size_t &i2) { auto r = gbs::find_span_range(n, p, u, k); i1 = r.first; i2 = r.second; }
//@ band
extern "C" void vc_band(size_t n, size_t p, double u, const V &k, size_t &s, size_t &i, size_t &r) { auto b = gbs::basis_band_extent(n, p, u, k); s = b.span; i = b.i_min; r = b.r_max; }
//@ basis_funcs
extern "C" void vc_basis_funcs(size_t i, size_t p, double u, const V &k, double *N) { gbs::basis_funcs(i, p, u, k, N); }
//@ basis_funcs_v
extern "C" void vc_basis_funcs_v(size_t i, size_t p, double u, const V &k, V &N) { gbs::basis_funcs(i, p, u, k, N); }
//@ ders
extern "C" void vc_ders(size_t i, size_t p, size_t n, double u, const V &k, double *D) { gbs::ders_basis_funs(i, p, n, u, k, D); }
//@ basis_ders
extern "C" void vc_basis_ders(size_t i, size_t p, size_t d, double u, const V &k, double *D) { gbs::basis_ders(i, p, d, u, k, D); }
//@ basis_function
extern "C" double vc_basis_function(double u, size_t i, size_t p, size_t d, const V &k) { return gbs::basis_function(u, i, p, d, k); }
