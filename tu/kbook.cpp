#include "vc.h"
#include <gbs/bscurve.h>
using namespace gbs;
//@ unflat
extern "C" void vc_unflat(const V &k, VU &m, V &u) { gbs::unflat_knots(k, m, u); }
//@ unflat1
extern "C" void vc_unflat1(const V &k, V &u) { gbs::unflat_knots(k, u); }
//@ unflatp
extern "C" void vc_unflatp(const V &k, V &u, VU &m) { auto r = gbs::unflat_knots(k); for (auto &[a, b] : r) { u.push_back(a); m.push_back(b); } }
//@ kam
extern "C" void vc_kam(const V &k, V &u, VU &m) { auto r = gbs::knots_and_mults(k); u = r.first; m = r.second; }
//@ mult1
extern "C" size_t vc_mult1(const V &k, double u) { return gbs::multiplicity(k, u); }
//@ mult2
extern "C" size_t vc_mult2(double u, const V &k) { return gbs::multiplicity(u, k); }
//@ flat
extern "C" void vc_flat(const V &u, const VU &m, V &o) { o = gbs::flat_knots(u, m); }
//@ bmk
extern "C" void vc_bmk(const V &k, size_t p, size_t m, V &o) { o = gbs::build_mult_flat_knots(k, p, m); }
//@ bmkr
extern "C" void vc_bmkr(double a, double b, size_t n, size_t p, size_t m, V &o) { o = gbs::build_mult_flat_knots(a, b, n, p, m); }
//@ bsk
extern "C" void vc_bsk(const V &u, size_t p, V &o) { o = gbs::build_simple_mult_flat_knots(u, p); }
//@ bskr
extern "C" void vc_bskr(double a, double b, size_t n, size_t p, V &o) { o = gbs::build_simple_mult_flat_knots(a, b, n, p); }
//@ adim
extern "C" void vc_adim(V &k) { gbs::adimension(k); }
//@ insord
extern "C" void vc_insord(V &k, double v) { gbs::insert_ordered(k, v); }
//@ insuni
extern "C" void vc_insuni(V &k, double v) { gbs::insert_unique_ordered(k, v); }
//@ insunit
extern "C" void vc_insunit(V &k, double v, double t) { gbs::insert_unique_ordered(k, v, t); }
//@ ccrv
extern "C" void vc_ccrv(const P3 &P, const V &u, const VU &m, size_t p, V &k, V &u2, VU &m2) { BSCurve<double,3> c(P, u, m, p); k = c.knotsFlats(); u2 = c.knots(); m2 = c.mults(); }
//@ ccrvr
extern "C" void vc_ccrvr(const P4 &P, const V &u, const VU &m, size_t p, V &k, V &u2, VU &m2) { BSCurveRational<double,3> c(P, u, m, p); k = c.knotsFlats(); u2 = c.knots(); m2 = c.mults(); }
//@ param
extern "C" void vc_param(const P3 &P, int mode, bool ad, V &o) { o = gbs::curve_parametrization(P, (KnotsCalcMode)mode, ad); }
//@ range
extern "C" void vc_range(double a, double b, size_t n, V &o) { o = gbs::make_range(a, b, n); }
//@ rangeb
extern "C" void vc_rangeb(const PT<2> &b, size_t n, V &o) { o = gbs::make_range(b, n); }
//@ range2
extern "C" void vc_range2(double a, double b, double c, double d, size_t n, size_t m, std::vector<std::pair<double,double>> &o) { o = gbs::make_range(a, b, c, d, n, m); }
//@ range2b
extern "C" void vc_range2b(const PT<4> &b, size_t n, size_t m, std::vector<std::pair<double,double>> &o) { o = gbs::make_range(b, n, m); }
//@ range3
extern "C" void vc_range3(const PT<4> &b, const PT<2> &w, size_t n, size_t m, size_t l, std::vector<std::tuple<double,double,double>> &o) { o = gbs::make_range(b, w, n, m, l); }
//@ range3d
extern "C" void vc_range3d(double a, double b, double c, double d, double e, double f, size_t n, size_t m, size_t l, std::vector<std::tuple<double,double,double>> &o) { o = gbs::make_range(a, b, c, d, e, f, n, m, l); }
//@ rangei
extern "C" void vc_rangei(size_t a, size_t b, VU &o) { o = gbs::make_range(a, b); }
