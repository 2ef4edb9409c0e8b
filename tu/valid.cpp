#include "vc.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
using namespace gbs;
//@ check
extern "C" bool vc_check(size_t np, const V &k, size_t p) { return gbs::check_curve(np, k, p); }
//@ crv
extern "C" void vc_crv(const P3 &P, const V &k, size_t p, P3 &Po, V &ko, PT<2> &b, VU &d) { BSCurve<double,3> c(P, k, p); Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); d[0] = c.degree(); }
//@ crvr
extern "C" void vc_crvr(const P4 &P, const V &k, size_t p, P4 &Po, V &ko, PT<2> &b, VU &d) { BSCurveRational<double,3> c(P, k, p); Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); d[0] = c.degree(); }
//@ crvm
extern "C" void vc_crvm(const P3 &P, const V &u, const VU &m, size_t p, P3 &Po, V &ko, PT<2> &b, VU &d) { BSCurve<double,3> c(P, u, m, p); Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); d[0] = c.degree(); }
//@ crvw
extern "C" void vc_crvw(const P2 &P, const V &w, const V &u, const VU &m, size_t p, P3 &Po, V &ko, PT<2> &b, VU &d) { BSCurveRational<double,2> c(P, w, u, m, p); Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); d[0] = c.degree(); }
//@ crvkw
extern "C" void vc_crvkw(const P2 &P, const V &k, const V &w, size_t p, P3 &Po, V &ko, PT<2> &b, VU &d) { BSCurveRational<double,2> c(P, k, w, p); Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); d[0] = c.degree(); }
//@ srf
extern "C" void vc_srf(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, P3 &Po, V &kuo, V &kvo, PT<4> &b, VU &d) { BSSurface<double,3> s(P, ku, kv, p, q); Po = s.poles(); kuo = s.knotsFlatsU(); kvo = s.knotsFlatsV(); b = s.bounds(); d[0] = s.degreeU(); d[1] = s.degreeV(); }
//@ srfr
extern "C" void vc_srfr(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, P4 &Po, V &kuo, V &kvo, PT<4> &b, VU &d) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); Po = s.poles(); kuo = s.knotsFlatsU(); kvo = s.knotsFlatsV(); b = s.bounds(); d[0] = s.degreeU(); d[1] = s.degreeV(); }
//@ srfw
extern "C" void vc_srfw(const P2 &P, const V &w, const V &ku, const V &kv, size_t p, size_t q, P3 &Po, V &kuo, V &kvo, PT<4> &b, VU &d) { BSSurfaceRational<double,2> s(P, w, ku, kv, p, q); Po = s.poles(); kuo = s.knotsFlatsU(); kvo = s.knotsFlatsV(); b = s.bounds(); d[0] = s.degreeU(); d[1] = s.degreeV(); }
//@ srfm
extern "C" void vc_srfm(const P3 &P, const V &ku, const V &kv, const VU &mu, const VU &mv, size_t p, size_t q, P3 &Po, V &kuo, V &kvo, PT<4> &b, VU &d) { BSSurface<double,3> s(P, ku, kv, mu, mv, p, q); Po = s.poles(); kuo = s.knotsFlatsU(); kvo = s.knotsFlatsV(); b = s.bounds(); d[0] = s.degreeU(); d[1] = s.degreeV(); }
//@ cpole
extern "C" void vc_cpole(const P3 &P, const V &k, size_t p, size_t i, PT<3> &o) { const BSCurve<double,3> c(P, k, p); o = c.pole(i); }
//@ cpolem
extern "C" void vc_cpolem(const P3 &P, const V &k, size_t p, size_t i, const PT<3> &o, P3 &Po) { BSCurve<double,3> c(P, k, p); c.pole(i) = o; Po = c.poles(); }
//@ ccopy
extern "C" void vc_ccopy(const P3 &P, const V &k, size_t p, const P3 &Q, P3 &Po, V &ko) { BSCurve<double,3> c(P, k, p); try { c.copyPoles(Q); } catch (...) { Po = c.poles(); ko = c.knotsFlats(); throw; } Po = c.poles(); ko = c.knotsFlats(); }
//@ cmove
extern "C" void vc_cmove(const P3 &P, const V &k, size_t p, P3 &Q, P3 &Po, V &ko) { BSCurve<double,3> c(P, k, p); try { c.movePoles(Q); } catch (...) { Po = c.poles(); ko = c.knotsFlats(); throw; } Po = c.poles(); ko = c.knotsFlats(); }
//@ cknots
extern "C" void vc_cknots(const P3 &P, const V &k, size_t p, const V &K, P3 &Po, V &ko, PT<2> &b) { BSCurve<double,3> c(P, k, p); try { c.copyKnots(K); } catch (...) { Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); throw; } Po = c.poles(); ko = c.knotsFlats(); b = c.bounds(); }
//@ scopy
extern "C" void vc_scopy(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, const P3 &Q, P3 &Po) { BSSurface<double,3> s(P, ku, kv, p, q); try { s.copyPoles(Q); } catch (...) { Po = s.poles(); throw; } Po = s.poles(); }
//@ smove
extern "C" void vc_smove(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, P3 &Q, P3 &Po) { BSSurface<double,3> s(P, ku, kv, p, q); try { s.movePoles(Q); } catch (...) { Po = s.poles(); throw; } Po = s.poles(); }
