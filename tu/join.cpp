// Wrapper unit: joining and unifying curves.
#include "vc.h"
#include <gbs/bsctools.h>
using namespace gbs;
//@ join3
extern "C" size_t vc_join3(const P3 &A, const V &ka, size_t p, const P3 &B, const V &kb, size_t q, P3 &C, V &kc, PT<2> &b) { BSCurve<double,3> a(A, ka, p), d(B, kb, q); auto c = join(a, d); C = c.poles(); kc = c.knotsFlats(); b = c.bounds(); return c.degree(); }
//@ join3rr
extern "C" size_t vc_join3rr(const P4 &A, const V &ka, size_t p, const P4 &B, const V &kb, size_t q, P4 &C, V &kc, PT<2> &b) { BSCurveRational<double,3> a(A, ka, p), d(B, kb, q); auto c = join(a, d); C = c.poles(); kc = c.knotsFlats(); b = c.bounds(); return c.degree(); }
//@ join3pr
extern "C" size_t vc_join3pr(const P3 &A, const V &ka, size_t p, const P4 &B, const V &kb, size_t q, P4 &C, V &kc, PT<2> &b) { BSCurve<double,3> a(A, ka, p); BSCurveRational<double,3> d(B, kb, q); auto c = join(a, d); C = c.poles(); kc = c.knotsFlats(); b = c.bounds(); return c.degree(); }
//@ join3rp
extern "C" size_t vc_join3rp(const P4 &A, const V &ka, size_t p, const P3 &B, const V &kb, size_t q, P4 &C, V &kc, PT<2> &b) { BSCurveRational<double,3> a(A, ka, p); BSCurve<double,3> d(B, kb, q); auto c = join(a, d); C = c.poles(); kc = c.knotsFlats(); b = c.bounds(); return c.degree(); }
// the list of curves comes as its concatenated parts: np[i] poles, nk[i] knots, degree deg[i]
template <size_t D> static std::vector<BSCurveInfo<double,D>> infos(const PV<D> &P, const V &k, const VU &np, const VU &nk, const VU &deg) {
  std::vector<BSCurveInfo<double,D>> L; size_t a = 0, b = 0;
  for (size_t i = 0; i < np.size(); i++) { L.push_back({PV<D>(P.begin() + a, P.begin() + a + np[i]), V(k.begin() + b, k.begin() + b + nk[i]), deg[i]}); a += np[i]; b += nk[i]; }
  return L;
}
template <size_t D> static void flat(const std::vector<BSCurveInfo<double,D>> &L, PV<D> &P, V &k, VU &np, VU &nk, VU &deg) {
  P.clear(); k.clear(); np.clear(); nk.clear(); deg.clear();
  for (auto &[q, w, d] : L) { P.insert(P.end(), q.begin(), q.end()); k.insert(k.end(), w.begin(), w.end()); np.push_back(q.size()); nk.push_back(w.size()); deg.push_back(d); }
}
//@ unideg3
extern "C" void vc_unideg3(P3 &P, V &k, VU &np, VU &nk, VU &deg) { auto L = infos<3>(P, k, np, nk, deg); unify_degree(L); flat<3>(L, P, k, np, nk, deg); }
//@ unikn3
extern "C" void vc_unikn3(P3 &P, V &k, VU &np, VU &nk, VU &deg) { auto L = infos<3>(P, k, np, nk, deg); unify_knots(L); flat<3>(L, P, k, np, nk, deg); }
//@ unikn1
extern "C" void vc_unikn1(std::vector<std::pair<double,size_t>> &ko, V &k, P1 &P, size_t p, const std::vector<std::pair<double,size_t>> &ki) { unify_knots(ko, k, P, p, ki); }
//@ unified3
extern "C" void vc_unified3(P3 &P, V &k, VU &np, VU &nk, VU &deg) { auto L = infos<3>(P, k, np, nk, deg); std::vector<BSCurve<double,3>> c; for (auto &[q, w, d] : L) c.push_back({q, w, d}); unify_curves_degree(c); unify_curves_knots(c); L.clear(); for (auto &x : c) L.push_back({x.poles(), x.knotsFlats(), x.degree()}); flat<3>(L, P, k, np, nk, deg); }
//@ extp
extern "C" size_t vc_extp(const P3 &A, const V &ka, size_t p, const PT<3> &pt, bool at_end, bool nat, P3 &C, V &kc) { BSCurve<double,3> a(A, ka, p); auto c = extended_to_point(a, pt, at_end, nat); C = c.poles(); kc = c.knotsFlats(); return c.degree(); }
//@ adddim
extern "C" void vc_adddim(const P2 &A, const V &ka, size_t p, double v, P3 &C, V &kc) { BSCurve<double,2> a(A, ka, p); auto c = add_dimension(a, v); C = c.poles(); kc = c.knotsFlats(); }
