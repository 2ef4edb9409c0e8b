#include "vc.h"
#ifndef VC_NATIVE
#define EIGEN_DONT_VECTORIZE
#endif
#include <gbs/bscurve.h>
#include <gbs/bssurf.h>
#include <gbs/transform.h>
using namespace gbs;
// ---- vector algebra
//@ add1
extern "C" void vc_add1(const PT<1> &a, const PT<1> &b, PT<1> &o) { o = a + b; }
//@ add2
extern "C" void vc_add2(const PT<2> &a, const PT<2> &b, PT<2> &o) { o = a + b; }
//@ add3
extern "C" void vc_add3(const PT<3> &a, const PT<3> &b, PT<3> &o) { o = a + b; }
//@ add4
extern "C" void vc_add4(const PT<4> &a, const PT<4> &b, PT<4> &o) { o = a + b; }
//@ iadd3
extern "C" void vc_iadd3(PT<3> &a, const PT<3> &b) { a += b; }
//@ sub1
extern "C" void vc_sub1(const PT<1> &a, const PT<1> &b, PT<1> &o) { o = a - b; }
//@ sub2
extern "C" void vc_sub2(const PT<2> &a, const PT<2> &b, PT<2> &o) { o = a - b; }
//@ sub3
extern "C" void vc_sub3(const PT<3> &a, const PT<3> &b, PT<3> &o) { o = a - b; }
//@ sub4
extern "C" void vc_sub4(const PT<4> &a, const PT<4> &b, PT<4> &o) { o = a - b; }
//@ subs3
extern "C" void vc_subs3(const PT<3> &a, double s, PT<3> &o) { o = a - s; }
//@ ssub3
extern "C" void vc_ssub3(const PT<3> &a, double s, PT<3> &o) { o = s - a; }
//@ mul1
extern "C" void vc_mul1(const PT<1> &a, double s, PT<1> &o) { o = a * s; }
//@ mul2
extern "C" void vc_mul2(const PT<2> &a, double s, PT<2> &o) { o = a * s; }
//@ mul3
extern "C" void vc_mul3(const PT<3> &a, double s, PT<3> &o) { o = a * s; }
//@ mul4
extern "C" void vc_mul4(const PT<4> &a, double s, PT<4> &o) { o = a * s; }
//@ lmul3
extern "C" void vc_lmul3(const PT<3> &a, double s, PT<3> &o) { o = s * a; }
//@ muln3
extern "C" void vc_muln3(const PT<3> &a, int s, PT<3> &o) { o = a * s; }
//@ div2
extern "C" void vc_div2(const PT<2> &a, double s, PT<2> &o) { o = a / s; }
//@ div3
extern "C" void vc_div3(const PT<3> &a, double s, PT<3> &o) { o = a / s; }
//@ dot1
extern "C" double vc_dot1(const PT<1> &a, const PT<1> &b) { return a * b; }
//@ dot2
extern "C" double vc_dot2(const PT<2> &a, const PT<2> &b) { return a * b; }
//@ dot3
extern "C" double vc_dot3(const PT<3> &a, const PT<3> &b) { return a * b; }
//@ dot4
extern "C" double vc_dot4(const PT<4> &a, const PT<4> &b) { return a * b; }
//@ cross3
extern "C" void vc_cross3(const PT<3> &a, const PT<3> &b, PT<3> &o) { o = gbs::cross(a, b); }
//@ hat3
extern "C" void vc_hat3(const PT<3> &a, const PT<3> &b, PT<3> &o) { o = a ^ b; }
//@ cross2
extern "C" double vc_cross2(const PT<2> &a, const PT<2> &b) { return gbs::cross(a, b)[0]; }
//@ hat2
extern "C" double vc_hat2(const PT<2> &a, const PT<2> &b) { return (a ^ b)[0]; }
//@ cross1
extern "C" double vc_cross1(const PT<1> &a, const PT<1> &b) { return gbs::cross(a, b)[0]; }
//@ sqn2
extern "C" double vc_sqn2(const PT<2> &a) { return gbs::sq_norm(a); }
//@ sqn3
extern "C" double vc_sqn3(const PT<3> &a) { return gbs::sq_norm(a); }
//@ norm1
extern "C" double vc_norm1(const PT<1> &a) { return gbs::norm(a); }
//@ norm2
extern "C" double vc_norm2(const PT<2> &a) { return gbs::norm(a); }
//@ norm3
extern "C" double vc_norm3(const PT<3> &a) { return gbs::norm(a); }
//@ sqd2
extern "C" double vc_sqd2(const PT<2> &a, const PT<2> &b) { return gbs::sq_distance(a, b); }
//@ sqd3
extern "C" double vc_sqd3(const PT<3> &a, const PT<3> &b) { return gbs::sq_distance(a, b); }
//@ dist2
extern "C" double vc_dist2(const PT<2> &a, const PT<2> &b) { return gbs::distance(a, b); }
//@ dist3
extern "C" double vc_dist3(const PT<3> &a, const PT<3> &b) { return gbs::distance(a, b); }
//@ nrm3
extern "C" void vc_nrm3(PT<3> &a) { gbs::normalize(a); }
//@ nrmd2
extern "C" void vc_nrmd2(const PT<2> &a, PT<2> &o) { o = gbs::normalized(a); }
//@ nrmd3
extern "C" void vc_nrmd3(const PT<3> &a, PT<3> &o) { o = gbs::normalized(a); }
//@ adim3
extern "C" void vc_adima3(PT<3> &a) { gbs::adim(a); }
//@ angle2
extern "C" double vc_angle2(const PT<2> &a, const PT<2> &b) { return gbs::angle(a, b); }
//@ angle3
extern "C" double vc_angle3(const PT<3> &a, const PT<3> &b) { return gbs::angle(a, b); }
//@ delta
extern "C" void vc_delta(const V &a, V &o) { o = gbs::delta(a); }
//@ deltap
extern "C" void vc_deltap(const P3 &a, P3 &o) { o = gbs::delta(a); }
//@ delta2
extern "C" void vc_delta2(const V &a, const V &b, V &o) { o = gbs::delta(a, b); }
//@ vdiv
extern "C" void vc_vdiv(const P3 &a, const V &b, P3 &o) { o = a / b; }
//@ length
extern "C" double vc_length(const P3 &a) { return gbs::length(a); }
//@ length2
extern "C" double vc_length2(const P2 &a) { return gbs::length(a); }
//@ adimv
extern "C" void vc_adimv(P3 &a) { gbs::adim(a); }
// ---- point transforms
//@ adddim
extern "C" void vc_adddim(const PT<2> &a, double v, PT<3> &o) { o = gbs::add_dimension<double,2>(a, v); }
//@ tr2
extern "C" void vc_tr2(PT<2> &a, const PT<2> &b) { gbs::translate<double,2>(a, b); }
//@ tr3
extern "C" void vc_tr3(PT<3> &a, const PT<3> &b) { gbs::translate<double,3>(a, b); }
//@ trd3
extern "C" void vc_trd3(const PT<3> &a, const PT<3> &b, PT<3> &o) { o = gbs::translated<double,3>(a, b); }
//@ trw
extern "C" void vc_trw(PT<4> &a, const PT<3> &b) { gbs::translate<double,3>(a, b); }
//@ rot2
extern "C" void vc_rot2(PT<2> &x, double a) { gbs::rotate(x, a); }
//@ rotd2
extern "C" void vc_rotd2(const PT<2> &x, double a, PT<2> &o) { o = gbs::rotated(x, a); }
//@ rotc2
extern "C" void vc_rotc2(PT<2> &x, double a, const PT<2> &c) { gbs::rotate<double,2>(x, a, c); }
//@ rotcd2
extern "C" void vc_rotcd2(const PT<2> &x, double a, const PT<2> &c, PT<2> &o) { o = gbs::rotated<double,2>(x, a, c); }
//@ rot3
extern "C" void vc_rot3(PT<3> &x, double a, const PT<3> &ax) { gbs::rotate(x, a, ax); }
//@ rotd3
extern "C" void vc_rotd3(const PT<3> &x, double a, const PT<3> &ax, PT<3> &o) { o = gbs::rotated(x, a, ax); }
//@ sc2
extern "C" void vc_sc2(const PT<2> &x, double s, const PT<2> &c, PT<2> &o) { o = gbs::scaled<double,2>(x, s, c); }
//@ sc3
extern "C" void vc_sc3(PT<3> &x, double s, const PT<3> &c) { gbs::scale<double,3>(x, s, c); }
//@ scc3
extern "C" void vc_scc3(PT<3> &x, double s, size_t k, const PT<3> &c) { gbs::scale<double,3>(x, s, k, c); }
//@ sccd3
extern "C" void vc_sccd3(const PT<3> &x, double s, size_t k, const PT<3> &c, PT<3> &o) { o = gbs::scaled<double,3>(x, s, k, c); }
// ---- frames
//@ frame
extern "C" void vc_frame(const PT<9> &R, PT<3> &o, PT<9> &m) { ax2<double,3> A{PT<3>{R[0],R[1],R[2]},PT<3>{R[3],R[4],R[5]},PT<3>{R[6],R[7],R[8]}}; auto [L, P] = gbs::build_trf_loc_and_matrix(A); for (int i = 0; i < 3; i++) { o[i] = L(i); for (int j = 0; j < 3; j++) m[3 * i + j] = P(i, j); } }
//@ frame4
extern "C" void vc_frame4(const PT<9> &R, PT<16> &m) { ax2<double,3> A{PT<3>{R[0],R[1],R[2]},PT<3>{R[3],R[4],R[5]},PT<3>{R[6],R[7],R[8]}}; auto M = gbs::build_trf_matrix(A); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[4 * i + j] = M(i, j); }
//@ frames
extern "C" void vc_frames(const PT<9> &R, const PT<9> &Q, PT<16> &m) { ax2<double,3> A{PT<3>{R[0],R[1],R[2]},PT<3>{R[3],R[4],R[5]},PT<3>{R[6],R[7],R[8]}}, B{PT<3>{Q[0],Q[1],Q[2]},PT<3>{Q[3],Q[4],Q[5]},PT<3>{Q[6],Q[7],Q[8]}}; auto M = gbs::build_trf_matrix(A, B); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[4 * i + j] = M(i, j); }
//@ mat4
extern "C" void vc_mat4(PT<3> &x, const PT<16> &m) { Matrix4<double> M; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) M(i, j) = m[4 * i + j]; gbs::transform<double>(x, M); }
//@ mat4d
extern "C" void vc_mat4d(const PT<3> &x, const PT<16> &m, PT<3> &o) { Matrix4<double> M; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) M(i, j) = m[4 * i + j]; o = gbs::transformed<double>(x, M); }
//@ mat3
extern "C" void vc_mat3(PT<3> &x, const PT<3> &l, const PT<9> &m) { Matrix3<double> M; Vector3<double> L; for (int i = 0; i < 3; i++) { L(i) = l[i]; for (int j = 0; j < 3; j++) M(i, j) = m[3 * i + j]; } gbs::transform<double>(x, L, M); }
// ---- objects
//@ ctr3
extern "C" void vc_ctr3(P3 &P, const V &k, size_t p, const PT<3> &v) { BSCurve<double,3> c(P, k, p); gbs::translate(c, v); P = c.poles(); }
//@ ctr3r
extern "C" void vc_ctr3r(P4 &P, const V &k, size_t p, const PT<3> &v) { BSCurveRational<double,3> c(P, k, p); gbs::translate(c, v); P = c.poles(); }
//@ crot2
extern "C" void vc_crot2(P2 &P, const V &k, size_t p, double a) { BSCurve<double,2> c(P, k, p); gbs::rotate(c, a); P = c.poles(); }
//@ crot3
extern "C" void vc_crot3(P3 &P, const V &k, size_t p, double a, const PT<3> &ax) { BSCurve<double,3> c(P, k, p); gbs::rotate(c, a, ax); P = c.poles(); }
//@ crot3r
extern "C" void vc_crot3r(P4 &P, const V &k, size_t p, double a, const PT<3> &ax) { BSCurveRational<double,3> c(P, k, p); gbs::rotate(c, a, ax); P = c.poles(); }
//@ csc3
extern "C" void vc_csc3(P3 &P, const V &k, size_t p, double s, const PT<3> &o) { BSCurve<double,3> c(P, k, p); gbs::scale(c, s, o); P = c.poles(); }
//@ csc3r
extern "C" void vc_csc3r(P4 &P, const V &k, size_t p, double s, const PT<3> &o) { BSCurveRational<double,3> c(P, k, p); gbs::scale(c, s, o); P = c.poles(); }
//@ cscc3
extern "C" void vc_cscc3(P3 &P, const V &k, size_t p, double s, size_t i, const PT<3> &o) { BSCurve<double,3> c(P, k, p); gbs::scale(c, s, i, o); P = c.poles(); }
//@ cscc3r
extern "C" void vc_cscc3r(P4 &P, const V &k, size_t p, double s, size_t i, const PT<3> &o) { BSCurveRational<double,3> c(P, k, p); gbs::scale(c, s, i, o); P = c.poles(); }
//@ ssc3
extern "C" void vc_ssc3(P3 &P, const V &ku, const V &kv, size_t p, size_t q, double s, const PT<3> &o) { BSSurface<double,3> c(P, ku, kv, p, q); gbs::scale(c, s, o); P = c.poles(); }
//@ ssc3r
extern "C" void vc_ssc3r(P4 &P, const V &ku, const V &kv, size_t p, size_t q, double s, const PT<3> &o) { BSSurfaceRational<double,3> c(P, ku, kv, p, q); gbs::scale(c, s, o); P = c.poles(); }
//@ srot3
extern "C" void vc_srot3(P3 &P, const V &ku, const V &kv, size_t p, size_t q, double a, const PT<3> &ax) { BSSurface<double,3> c(P, ku, kv, p, q); gbs::rotate(c, a, ax); P = c.poles(); }
//@ srot3r
extern "C" void vc_srot3r(P4 &P, const V &ku, const V &kv, size_t p, size_t q, double a, const PT<3> &ax) { BSSurfaceRational<double,3> c(P, ku, kv, p, q); gbs::rotate(c, a, ax); P = c.poles(); }
//@ ctrd3
extern "C" void vc_ctrd3(const P3 &P, const V &k, size_t p, const PT<3> &v, P3 &o, P3 &same) { BSCurve<double,3> c(P, k, p); auto d = gbs::transformed(c, [&v](const auto &x) { return gbs::translated<double,3>(x, v); }); o = d.poles(); same = c.poles(); }
