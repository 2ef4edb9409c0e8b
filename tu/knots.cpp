#include "vc.h"
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
using namespace gbs;
//@ ins1
extern "C" size_t vc_ins1(double u, size_t p, size_t r, V &U, P1 &P) { return gbs::insert_knots(u, p, r, U, P); }
//@ ins2
extern "C" size_t vc_ins2(double u, size_t p, size_t r, V &U, P2 &P) { return gbs::insert_knots(u, p, r, U, P); }
//@ ins3
extern "C" size_t vc_ins3(double u, size_t p, size_t r, V &U, P3 &P) { return gbs::insert_knots(u, p, r, U, P); }
//@ ink3
extern "C" size_t vc_ink3(double u, size_t p, V &U, P3 &P) { return gbs::insert_knot(u, p, U, P); }
//@ cink3
extern "C" size_t vc_cink3(double u, size_t p, size_t r, V &U, P3 &P) { BSCurve<double,3> c(P, U, p); auto i = c.insertKnot(u, r); P = c.poles(); U = c.knotsFlats(); return i; }
//@ cink3r
extern "C" size_t vc_cink3r(double u, size_t p, size_t r, V &U, P4 &P) { BSCurveRational<double,3> c(P, U, p); auto i = c.insertKnot(u, r); P = c.poles(); U = c.knotsFlats(); return i; }
//@ cink3b
extern "C" size_t vc_cink3b(double u, size_t p, size_t r, V &U, P3 &P, double b0, double b1, PT<2> &b) { BSCurve<double,3> c(P, U, p); c.trim(b0, b1, false); auto i = c.insertKnot(u, r); P = c.poles(); U = c.knotsFlats(); b = c.bounds(); return i; }
//@ cink3rb
extern "C" size_t vc_cink3rb(double u, size_t p, size_t r, V &U, P4 &P, double b0, double b1, PT<2> &b) { BSCurveRational<double,3> c(P, U, p); c.trim(b0, b1, false); auto i = c.insertKnot(u, r); P = c.poles(); U = c.knotsFlats(); b = c.bounds(); return i; }
//@ cinks3
extern "C" void vc_cinks3(const V &us, const VU &ms, size_t p, V &U, P3 &P) { BSCurve<double,3> c(P, U, p); std::vector<std::pair<double,size_t>> km; for (size_t i = 0; i < us.size(); i++) km.push_back({us[i], ms[i]}); c.insertKnots(km); P = c.poles(); U = c.knotsFlats(); }
//@ rem3
extern "C" void vc_rem3(double u, size_t num, V &U, P3 &P, size_t p) { gbs::remove_knot(u, num, U, P, p); }
//@ remt3
extern "C" size_t vc_remt3(double u, size_t p, size_t num, V &U, P3 &P, double tol) { return gbs::remove_knot(u, p, num, U, P, tol); }
//@ remt1
extern "C" size_t vc_remt1(double u, size_t p, size_t num, V &U, P1 &P, double tol) { return gbs::remove_knot(u, p, num, U, P, tol); }
//@ rem1
extern "C" void vc_rem1(double u, size_t num, V &U, P1 &P, size_t p) { gbs::remove_knot(u, num, U, P, p); }
//@ crem3
extern "C" void vc_crem3(double u, size_t p, size_t m, V &U, P3 &P, double tol) { BSCurve<double,3> c(P, U, p); c.removeKnot(u, tol, m); P = c.poles(); U = c.knotsFlats(); }
//@ crem3r
extern "C" void vc_crem3r(double u, size_t p, size_t m, V &U, P4 &P, double tol) { BSCurveRational<double,3> c(P, U, p); c.removeKnot(u, tol, m); P = c.poles(); U = c.knotsFlats(); }
//@ crem3b
extern "C" void vc_crem3b(double u, size_t p, size_t m, V &U, P3 &P, double tol, double b0, double b1, PT<2> &b) { BSCurve<double,3> c(P, U, p); c.trim(b0, b1, false); c.removeKnot(u, tol, m); P = c.poles(); U = c.knotsFlats(); b = c.bounds(); }
//@ crem3rb
extern "C" void vc_crem3rb(double u, size_t p, size_t m, V &U, P4 &P, double tol, double b0, double b1, PT<2> &b) { BSCurveRational<double,3> c(P, U, p); c.trim(b0, b1, false); c.removeKnot(u, tol, m); P = c.poles(); U = c.knotsFlats(); b = c.bounds(); }
//@ bez1
extern "C" void vc_bez1(const P1 &P, size_t p, size_t t, P1 &o) { o = gbs::increase_bezier_degree(P, p, t); }
//@ bez3
extern "C" void vc_bez3(const P3 &P, size_t p, size_t t, P3 &o) { o = gbs::increase_bezier_degree(P, p, t); }
//@ segs3
extern "C" void vc_segs3(const V &k, const P3 &P, size_t p, P3 &o, V &b) { auto s = gbs::bezier_segments(k, P, p); for (auto &[q, ab] : s) { o.insert(o.end(), q.begin(), q.end()); b.push_back(ab.first); b.push_back(ab.second); } }
//@ incd1
extern "C" void vc_incd1(V &k, P1 &P, size_t p, size_t t) { gbs::increase_degree(k, P, p, t); }
//@ incd3
extern "C" void vc_incd3(V &k, P3 &P, size_t p, size_t t) { gbs::increase_degree(k, P, p, t); }
//@ cinc3
extern "C" size_t vc_cinc3(V &k, P3 &P, size_t p, size_t t) { BSCurve<double,3> c(P, k, p); c.increaseDegree(t); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ cinc3r
extern "C" size_t vc_cinc3r(V &k, P4 &P, size_t p, size_t t) { BSCurveRational<double,3> c(P, k, p); c.increaseDegree(t); P = c.poles(); k = c.knotsFlats(); return c.degree(); }
//@ cinc3b
extern "C" size_t vc_cinc3b(V &k, P3 &P, size_t p, size_t t, double b0, double b1, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.trim(b0, b1, false); c.increaseDegree(t); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); return c.degree(); }
//@ cinc3rb
extern "C" size_t vc_cinc3rb(V &k, P4 &P, size_t p, size_t t, double b0, double b1, PT<2> &b) { BSCurveRational<double,3> c(P, k, p); c.trim(b0, b1, false); c.increaseDegree(t); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); return c.degree(); }
//@ trim3
extern "C" void vc_trim3(size_t p, V &k, P3 &P, double u1, double u2) { gbs::trim(p, k, P, u1, u2); }
//@ trim1
extern "C" void vc_trim1(size_t p, V &k, P1 &P, double u1, double u2) { gbs::trim(p, k, P, u1, u2); }
//@ trimb1
extern "C" void vc_trimb1(size_t p, V &k, P1 &P, double u) { gbs::trim_begin(p, k, P, u); }
//@ trime1
extern "C" void vc_trime1(size_t p, V &k, P1 &P, double u) { gbs::trim_end(p, k, P, u); }
//@ ctrim3
extern "C" void vc_ctrim3(size_t p, V &k, P3 &P, double u1, double u2, bool perm, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.trim(u1, u2, perm); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ ctrim3r
extern "C" void vc_ctrim3r(size_t p, V &k, P4 &P, double u1, double u2, PT<2> &b) { BSCurveRational<double,3> c(P, k, p); c.trim(u1, u2); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ crev3
extern "C" void vc_crev3(size_t p, V &k, P3 &P, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.reverse(); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ crev1
extern "C" void vc_crev1(size_t p, V &k, P1 &P, PT<2> &b) { BSCurve<double,1> c(P, k, p); c.reverse(); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ crevd3
extern "C" void vc_crevd3(size_t p, V &k, P3 &P, PT<2> &b) { BSCurve<double,3> c(P, k, p); auto r = c.reversed(); P = r.poles(); k = r.knotsFlats(); b = r.bounds(); }
//@ cchb3
extern "C" void vc_cchb3(size_t p, V &k, P3 &P, double a, double c_, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.changeBounds(a, c_); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ cchb3a
extern "C" void vc_cchb3a(size_t p, V &k, P3 &P, double a, double c_, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.changeBounds(std::array<double,2>{a, c_}); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ chb
extern "C" void vc_chb(double a, double b, V &k) { gbs::change_bounds(a, b, k); }
//@ insu
extern "C" size_t vc_insu(P3 &P, V &ku, V &kv, size_t p, size_t q, double u, size_t m) { BSSurface<double,3> s(P, ku, kv, p, q); auto r = s.insertKnotU(u, m); P = s.poles(); ku = s.knotsFlatsU(); kv = s.knotsFlatsV(); return r; }
//@ insv
extern "C" size_t vc_insv(P3 &P, V &ku, V &kv, size_t p, size_t q, double u, size_t m) { BSSurface<double,3> s(P, ku, kv, p, q); auto r = s.insertKnotV(u, m); P = s.poles(); ku = s.knotsFlatsU(); kv = s.knotsFlatsV(); return r; }
//@ sop
// one editing operation on a surface; the edited surface and its reported bounds/degrees are returned
extern "C" void vc_sop(P3 &P, V &ku, V &kv, size_t &p, size_t &q, size_t op, double a, double b, PT<4> &bd) {
  BSSurface<double,3> s(P, ku, kv, p, q);
  switch (op) {
    case 0: s.increaseDegreeU(); break; case 1: s.increaseDegreeV(); break; case 2: s.invertUV(); break; case 3: s.reverseU(); break; case 4: s.reverseV(); break;
    case 5: s.trimU(a, b); break; case 6: s.trimV(a, b); break; case 7: s.changeUBounds(a, b); break; case 8: s.changeVBounds(a, b); break;
  }
  P = s.poles(); ku = s.knotsFlatsU(); kv = s.knotsFlatsV(); p = s.degreeU(); q = s.degreeV(); bd = s.bounds(); }
//@ sopr
extern "C" void vc_sopr(P4 &P, V &ku, V &kv, size_t &p, size_t &q, size_t op, double a, double b, PT<4> &bd) {
  BSSurfaceRational<double,3> s(P, ku, kv, p, q);
  switch (op) {
    case 0: s.increaseDegreeU(); break; case 1: s.increaseDegreeV(); break; case 2: s.invertUV(); break; case 3: s.reverseU(); break; case 4: s.reverseV(); break;
    case 5: s.trimU(a, b); break; case 6: s.trimV(a, b); break; case 7: s.changeUBounds(a, b); break; case 8: s.changeVBounds(a, b); break;
    case 9: s.insertKnotU(a, size_t(b)); break; case 10: s.insertKnotV(a, size_t(b)); break;
  }
  P = s.poles(); ku = s.knotsFlatsU(); kv = s.knotsFlatsV(); p = s.degreeU(); q = s.degreeV(); bd = s.bounds(); }
//@ polesuv
extern "C" void vc_polesU(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, size_t j, P3 &o) { BSSurface<double,3> s(P, ku, kv, p, q); o = s.polesU(j); }
//@ polesuv2
extern "C" void vc_polesV(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, size_t i, P3 &o) { BSSurface<double,3> s(P, ku, kv, p, q); o = s.polesV(i); }
//@ pole
extern "C" void vc_pole(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, size_t i, size_t j, PT<3> &o) { const BSSurface<double,3> s(P, ku, kv, p, q); o = s.pole(i, j); }
//@ info
extern "C" void vc_info(const P3 &P, const V &ku, const V &kv, size_t p, size_t q, P3 &o, V &ku2, V &kv2, size_t &p2, size_t &q2) { BSSurface<double,3> s(P, ku, kv, p, q); auto inf = s.info(); BSSurface<double,3> t(inf); o = t.poles(); ku2 = t.knotsFlatsU(); kv2 = t.knotsFlatsV(); p2 = t.degreeU(); q2 = t.degreeV(); }
//@ inv
extern "C" void vc_inv(const P3 &P, size_t n, P3 &o) { o = gbs::inverted_uv_poles(P, n); }
//@ poler
extern "C" void vc_poler(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, size_t i, size_t j, PT<4> &o) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); o = s.pole(i, j); }
//@ polesur
extern "C" void vc_polesUr(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, size_t j, P4 &o) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); o = s.polesU(j); }
//@ polesvr
extern "C" void vc_polesVr(const P4 &P, const V &ku, const V &kv, size_t p, size_t q, size_t i, P4 &o) { BSSurfaceRational<double,3> s(P, ku, kv, p, q); o = s.polesV(i); }
//@ inv1
extern "C" void vc_inv1(const P1 &P, size_t n, P1 &o) { o = gbs::inverted_uv_poles(P, n); }
//@ crev3r
extern "C" void vc_crev3r(size_t p, V &k, P4 &P, PT<2> &b) { BSCurveRational<double,3> c(P, k, p); c.reverse(); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ crevd3r
extern "C" void vc_crevd3r(size_t p, V &k, P4 &P, PT<2> &b) { BSCurveRational<double,3> c(P, k, p); auto r = c.reversed(); P = r.poles(); k = r.knotsFlats(); b = r.bounds(); }
//@ cchb3r
extern "C" void vc_cchb3r(size_t p, V &k, P4 &P, double a, double c_, PT<2> &b) { BSCurveRational<double,3> c(P, k, p); c.changeBounds(a, c_); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ crevs3
extern "C" void vc_crevs3(size_t p, V &k, P3 &P, double u1, double u2, PT<2> &b) { BSCurve<double,3> c(P, k, p); c.trim(u1, u2, false); c.reverse(); P = c.poles(); k = c.knotsFlats(); b = c.bounds(); }
//@ tra
template<size_t d> PV<d> grid_tra(const PV<d> &P, size_t m, size_t bs, size_t &rows) { std::vector<PV<d>> g; for (size_t i = 0; m && i < P.size() / m; i++) g.emplace_back(P.begin() + i * m, P.begin() + (i + 1) * m); auto t = bs ? gbs::transpose_poles(g, bs) : gbs::transpose_poles(g); rows = t.size(); return gbs::flatten_poles(t); }
extern "C" size_t vc_tra(const P3 &P, size_t m, size_t bs, P3 &o) { size_t r; o = grid_tra<3>(P, m, bs, r); return r; }
//@ rems1
extern "C" bool vc_rems1(double u, size_t p, V &U, P1 &P, double tol) { return gbs::remove_knot(u, p, U, P, tol); }
//@ rems3
extern "C" bool vc_rems3(double u, size_t p, V &U, P3 &P, double tol) { return gbs::remove_knot(u, p, U, P, tol); }
