#include "vc.h"
#ifndef VC_NATIVE
#define EIGEN_DONT_VECTORIZE
#endif
#include <gbs/curves>
#include <gbs/surfaces>
#include <gbs/bscanalysis.h>
using namespace gbs;
// An arbitrary basis curve/surface: in the verified text an opaque (uninterpreted) function of parameter and order,
// in the native build the polynomial whose coefficients are given.
#ifndef VC_NATIVE
extern "C" void ab_any(size_t dim, const void *id, double u, size_t d, double *o);
extern "C" void ab_anys(const void *id, double u, double v, size_t du, size_t dv, double *o);
extern "C" double ab_off(const void *id, double u, size_t d);
#endif
template<size_t dim> struct Any : Curve<double, dim>
{
    const PV<dim> &c; PT<2> b;
    Any(const PV<dim> &c_, double a, double e) : c{c_}, b{a, e} {}
    auto value(double u, size_t d = 0) const -> PT<dim> override
    {
        PT<dim> r{};
#ifndef VC_NATIVE
        ab_any(dim, &c, u, d, r.data());
#else
        for (size_t i = c.size(); i-- > d;) { double f = 1; for (size_t j = 0; j < d; ++j) f *= i - j; for (size_t k = 0; k < dim; ++k) r[k] = r[k] * u + f * c[i][k]; }
#endif
        return r;
    }
    auto bounds() const -> PT<2> override { return b; }
};
struct AnyS : Surface<double, 3>
{
    const P3 &c; size_t m; PT<4> b;
    AnyS(const P3 &c_, size_t m_) : c{c_}, m{m_}, b{} {}
    auto value(double u, double v, size_t du = 0, size_t dv = 0) const -> PT<3> override
    {
        PT<3> r{};
#ifndef VC_NATIVE
        ab_anys(&c, u, v, du, dv, r.data());
#else
        for (size_t i = 0; i < c.size(); ++i) { size_t a = i % m, e = i / m; if (a < du || e < dv) continue;
            double f = 1; for (size_t j = 0; j < du; ++j) f *= a - j; for (size_t j = 0; j < dv; ++j) f *= e - j;
            f *= std::pow(u, a - du) * std::pow(v, e - dv); for (size_t k = 0; k < 3; ++k) r[k] += f * c[i][k]; }
#endif
        return r;
    }
    auto bounds() const -> PT<4> override { return b; }
};
struct Off
{
    const V *c;
    double operator()(double u, size_t d = 0) const
    {
#ifndef VC_NATIVE
        return ab_off(c, u, d);
#else
        double r = 0; for (size_t i = c->size(); i-- > d;) { double f = 1; for (size_t j = 0; j < d; ++j) f *= i - j; r = r * u + f * (*c)[i]; } return r;
#endif
    }
};
template<class B, class A> std::shared_ptr<B> ref(A &a) { return std::shared_ptr<B>(std::shared_ptr<void>{}, &a); }
template<size_t d> using C_ = Curve<double, d>;
//@ rev3
extern "C" void vc_rev3(const P3 &c, double a, double b, double u, size_t d, PT<3> &o, PT<2> &bo) { Any<3> x(c, a, b); CurveReversed<double,3> y(ref<C_<3>>(x)); o = y.value(u, d); bo = y.bounds(); }
//@ rev2
extern "C" void vc_rev2(const P2 &c, double a, double b, double u, size_t d, PT<2> &o, PT<2> &bo) { Any<2> x(c, a, b); CurveReversed<double,2> y(ref<C_<2>>(x)); o = y.value(u, d); bo = y.bounds(); }
//@ trm3
extern "C" void vc_trm3(const P3 &c, double a, double b, double u1, double u2, double u, size_t d, PT<3> &o, PT<2> &bo) { Any<3> x(c, a, b); CurveTrimmed<double,3> y(ref<C_<3>>(x), u1, u2); bo = y.bounds(); o = y.value(u, d); }
//@ ext3
extern "C" void vc_ext3(const P3 &c, double a, double b, bool cl, double u, size_t d, PT<3> &o) { Any<3> x(c, a, b); CurveExtended<double,3> y(ref<C_<3>>(x), cl); o = y.value(u, d); }
//@ ext2
extern "C" void vc_ext2(const P2 &c, double a, double b, bool cl, double u, size_t d, PT<2> &o) { Any<2> x(c, a, b); CurveExtended<double,2> y(ref<C_<2>>(x), cl); o = y.value(u, d); }
//@ extb
extern "C" void vc_extb(const P2 &c, double a, double b, PT<2> &o) { Any<2> x(c, a, b); CurveExtended<double,2> y(ref<C_<2>>(x), true); o = y.bounds(); }
//@ rep3
extern "C" void vc_rep3(const P3 &c, double a, double b, const P1 &fp, const V &fk, size_t p, double u, size_t d, PT<3> &o) { Any<3> x(c, a, b); BSCfunction<double> f(BSCurve<double,1>(fp, fk, p)); CurveReparametrized<double,3> y(ref<C_<3>>(x), f); o = y.value(u, d); }
//@ repb
extern "C" void vc_repb(const P3 &c, double a, double b, const P1 &fp, const V &fk, size_t p, PT<2> &o) { Any<3> x(c, a, b); BSCfunction<double> f(BSCurve<double,1>(fp, fk, p)); CurveReparametrized<double,3> y(ref<C_<3>>(x), f); o = y.bounds(); }
//@ cos
extern "C" void vc_cos(const P2 &c, double a, double b, const P3 &s, size_t m, double u, size_t d, PT<3> &o, PT<2> &bo) { Any<2> x(c, a, b); AnyS z(s, m); CurveOnSurface<double,3> y(ref<C_<2>>(x), ref<Surface<double,3>>(z)); bo = y.bounds(); o = y.value(u, d); }
//@ off2
extern "C" void vc_off2(const P2 &c, double a, double b, const V &f, double u, size_t d, PT<2> &o, PT<2> &bo) { Any<2> x(c, a, b); Off g{&f}; CurveOffset2D<double, Off> y(ref<C_<2>>(x), ref<Off>(g)); bo = y.bounds(); o = y.value(u, d); }
//@ off3
extern "C" void vc_off3(const P3 &c, double a, double b, const V &f, const PT<3> &w, double u, size_t d, PT<3> &o, PT<2> &bo) { Any<3> x(c, a, b); Off g{&f}; CurveOffset3D<double, Off> y(ref<C_<3>>(x), ref<Off>(g), w); bo = y.bounds(); o = y.value(u, d); }
//@ line3
extern "C" void vc_line3(const PT<3> &p, const PT<3> &q, double u, size_t d, PT<3> &o) { Line<double,3> y(p, q); o = y.value(u, d); }
//@ line2
extern "C" void vc_line2(const PT<2> &p, const PT<2> &q, double u, size_t d, PT<2> &o) { Line<double,2> y(p, q); o = y.value(u, d); }
//@ linea
extern "C" void vc_linea(const PT<3> &p, const PT<3> &q, double u, size_t d, PT<3> &o) { Line<double,3> y(ax1<double,3>{p, q}); o = y.value(u, d); }
//@ lineb
extern "C" void vc_lineb(const PT<3> &p, const PT<3> &q, PT<2> &o) { Line<double,3> y(p, q); o = y.bounds(); }
//@ cir2
extern "C" void vc_cir2(double r, const PT<2> &c, double u, size_t d, PT<2> &o) { Circle2d<double> y(r, c); o = y.value(u, d); }
//@ cir2r
extern "C" void vc_cir2r(double r0, double r, const PT<2> &c, double u, size_t d, PT<2> &o) { Circle2d<double> y(r0, c); y.setR(r); o = y.value(u, d); }
//@ cir3
extern "C" void vc_cir3(double r, const PT<3> &c, const PT<3> &z, const PT<3> &x, double u, size_t d, PT<3> &o) { Circle3d<double> y(r, ax2<double,3>{c, z, x}); o = y.value(u, d); }
//@ cir3a
extern "C" void vc_cir3a(double r, const PT<3> &c, const PT<3> &z, PT<3> &o) { Circle3d<double> y(r, ax1<double,3>{c, z}); o = y.getX(); }
//@ cir3v
extern "C" void vc_cir3v(double r, const PT<3> &c, const PT<3> &z, double u, size_t d, PT<3> &o) { Circle3d<double> y(r, ax1<double,3>{c, z}); o = y.value(u, d); }
//@ cirb
extern "C" void vc_cirb(double r, const PT<2> &c, PT<2> &o) { Circle2d<double> y(r, c); o = y.bounds(); }
//@ comp
extern "C" void vc_comp(const P3 &c0, const P3 &c1, const P3 &c2, const PT<3> &a, const PT<3> &b, double u, size_t d, PT<3> &o, PT<2> &bo) { Any<3> x(c0, a[0], b[0]), y(c1, a[1], b[1]), w(c2, a[2], b[2]); CurveComposite<double,3> z({ref<C_<3>>(x), ref<C_<3>>(y), ref<C_<3>>(w)}); bo = z.bounds(); o = z.value(u, d); }
//@ sor
extern "C" void vc_sor(const P2 &c, double a, double b, const PT<3> &p, const PT<3> &ax, const PT<3> &x, double a1, double a2, double u, double v, size_t du, size_t dv, PT<3> &o, PT<4> &bo) { Any<2> k(c, a, b); SurfaceOfRevolution<double> s(ref<C_<2>>(k), ax2<double,3>{p, ax, x}, a1, a2); bo = s.bounds(); o = s.value(u, v, du, dv); }
// ---- services of the base class
//@ base
extern "C" void vc_base(const P3 &c, double a, double b, size_t d, PT<3> &o0, PT<3> &o1, PT<1> &m) { Any<3> x(c, a, b); o0 = x.begin(d); o1 = x.end(d); m[0] = x.midPosition(); }
//@ ders
extern "C" void vc_ders(const P3 &c, double a, double b, double u, size_t n, P3 &o) { Any<3> x(c, a, b); o.resize(n + 1); x.derivatives(u, n, o.data()); }
//@ ddm
extern "C" void vc_ddm(const P3 &c, double a, double b, double u, PT<3> &o1, PT<3> &o2) { Any<3> x(c, a, b); o1 = x.d_dm(u); o2 = x.d_dm2(u); }
//@ vals
extern "C" void vc_vals(const P3 &c, double a, double b, const V &u, size_t d, P3 &o) { Any<3> x(c, a, b); o = x.values(u, d); }
//@ ddms
extern "C" void vc_ddms(const P3 &c, double a, double b, const V &u, P3 &o1, P3 &o2) { Any<3> x(c, a, b); o1 = x.d_dms(u); o2 = x.d_dm2s(u); }
//@ nd2
extern "C" void vc_nd2(const P2 &c, double a, double b, double u, PT<2> &o) { Any<2> x(c, a, b); o = gbs::normal_direction(x, u); }
//@ nd3
extern "C" void vc_nd3(const P3 &c, double a, double b, double u, PT<3> &o) { Any<3> x(c, a, b); o = gbs::normal_direction<double>(x, u); }
