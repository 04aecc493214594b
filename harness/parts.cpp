#include "vx.hpp"
#include "dev-tools.hpp"
#include "particles/point-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/tide-particles.hpp"
#include "particles/drag-particles.hpp"
using namespace vx;
namespace P = hub::particles;
template <class C> struct Extra;
template <> struct Extra<P::PointParticles<T>> {
    static constexpr int n = 0;
    template <class C> static auto &get(C &c, int) { return c.mass(); }
    template <class C> static double at(C &c, int, size_t i) { return c.mass(i); }
};
template <> struct Extra<P::SizeParticles<T>> {
    static constexpr int n = 1;
    template <class C> static auto &get(C &c, int) { return c.radius(); }
    template <class C> static double at(C &c, int, size_t i) { return c.radius(i); }
};
template <> struct Extra<P::TideParticles<T>> {
    static constexpr int n = 3;
    template <class C> static auto &get(C &c, int k) { return k == 0 ? c.radius() : k == 1 ? c.tide_apsidal_const() : c.tide_lag_time(); }
    template <class C> static double at(C &c, int k, size_t i) { return k == 0 ? c.radius(i) : k == 1 ? c.tide_apsidal_const(i) : c.tide_lag_time(i); }
};
template <> struct Extra<P::DragParticles<T>> {
    static constexpr int n = 2;
    template <class C> static auto &get(C &c, int k) { return k == 0 ? c.sub_sonic_c() : c.local_cs(); }
    template <class C> static double at(C &c, int k, size_t i) { return k == 0 ? c.sub_sonic_c(i) : c.local_cs(i); }
};
// everything observable about a container
template <class C>
void observe(C &c, double *pos, double *vel, double *mass, double *x0, double *x1, double *x2, size_t *idn, size_t *sizes, double *time) {
    using X = Extra<C>;
    store(pos, c.pos());
    store(vel, c.vel());
    store(mass, c.mass());
    sizes[0] = c.number(); sizes[1] = c.pos().size(); sizes[2] = c.vel().size(); sizes[3] = c.mass().size(); sizes[4] = c.idn().size();
    sizes[5] = sizes[6] = sizes[7] = c.number();
    if constexpr (X::n > 0) { store(x0, X::get(c, 0)); sizes[5] = X::get(c, 0).size(); }
    if constexpr (X::n > 1) { store(x1, X::get(c, 1)); sizes[6] = X::get(c, 1).size(); }
    if constexpr (X::n > 2) { store(x2, X::get(c, 2)); sizes[7] = X::get(c, 2).size(); }
    store(idn, c.idn());
    time[0] = c.time();
}
#define OUTS double *pos, double *vel, double *mass, double *x0, double *x1, double *x2, size_t *idn, size_t *sizes, double *time
#define OUTA pos, vel, mass, x0, x1, x2, idn, sizes, time
#define KIND(name, C)                                                                                              \
    VX_EXPORT void h_##name##_ctor(size_t n, double *recs, double t, OUTS) {                                       \
        Arr<typename C::Particle> in; load(in, recs, n);                                                           \
        C c(t, in);                                                                                                \
        observe(c, OUTA);                                                                                          \
    }                                                                                                              \
    VX_EXPORT void h_##name##_append(size_t n, double *recs, double t, double *one, OUTS) {                        \
        Arr<typename C::Particle> in, last; load(in, recs, n); load(last, one, 1);                                 \
        C c(t, in);                                                                                                \
        c.emplace_back(last[0]);                                                                                   \
        observe(c, OUTA);                                                                                          \
    }                                                                                                              \
    VX_EXPORT void h_##name##_resize(size_t n, double *recs, double t, size_t m, OUTS) {                           \
        Arr<typename C::Particle> in; load(in, recs, n);                                                           \
        C c(t, in);                                                                                                \
        c.resize(m);                                                                                               \
        observe(c, OUTA);                                                                                          \
    }                                                                                                              \
    VX_EXPORT void h_##name##_clear(size_t n, double *recs, double t, OUTS) {                                      \
        Arr<typename C::Particle> in; load(in, recs, n);                                                           \
        C c(t, in);                                                                                                \
        c.clear();                                                                                                 \
        observe(c, OUTA);                                                                                          \
    }                                                                                                              \
    VX_EXPORT void h_##name##_slot(size_t n, double *recs, double t, size_t k, double *out) {                      \
        Arr<typename C::Particle> in; load(in, recs, n);                                                           \
        C const c(t, in);                                                                                          \
        V3 p = c.pos(k), v = c.vel(k);                                                                             \
        out[0] = p.x; out[1] = p.y; out[2] = p.z; out[3] = v.x; out[4] = v.y; out[5] = v.z;                        \
        out[6] = c.mass(k); out[7] = static_cast<double>(c.idn(k));                                                \
        for (int q = 0; q < Extra<C>::n; ++q) out[8 + q] = Extra<C>::at(c, q, k);                                  \
    }                                                                                                              \
    VX_EXPORT size_t h_##name##_aos(size_t n, double *recs, double t, double *out) {                               \
        Arr<typename C::Particle> in; load(in, recs, n);                                                           \
        C c(t, in);                                                                                                \
        auto v = c.to_AoS();                                                                                       \
        auto *o = reinterpret_cast<typename C::Particle *>(out);                                                   \
        size_t const m = v.size();                                                                                 \
        for (size_t i = 0; i < m; ++i) o[i] = v[i];                                                                \
        return m;                                                                                                  \
    }
KIND(point, P::PointParticles<T>)
KIND(size, P::SizeParticles<T>)
KIND(tide, P::TideParticles<T>)
KIND(drag, P::DragParticles<T>)
// single-particle constructors
VX_EXPORT void h_point_one(double m, double *pv, double *out) {
    using Q = P::PointParticle<V3>;
    auto *o = reinterpret_cast<Q *>(out);
    o[0] = Q(m, V3(pv[0], pv[1], pv[2]), V3(pv[3], pv[4], pv[5]));
    o[1] = Q(m, pv[0], pv[1], pv[2], pv[3], pv[4], pv[5]);
}
VX_EXPORT void h_size_one(double m, double r, double *pv, double *out) {
    using Q = P::SizeParticle<V3>;
    auto *o = reinterpret_cast<Q *>(out);
    o[0] = Q(m, r, V3(pv[0], pv[1], pv[2]), V3(pv[3], pv[4], pv[5]));
    o[1] = Q(m, r, pv[0], pv[1], pv[2], pv[3], pv[4], pv[5]);
}
VX_EXPORT void h_tide_one(double m, double r, double k, double tau, double *pv, double *out) {
    using Q = P::TideParticle<V3>;
    auto *o = reinterpret_cast<Q *>(out);
    o[0] = Q(m, r, k, tau, V3(pv[0], pv[1], pv[2]), V3(pv[3], pv[4], pv[5]));
    o[1] = Q(m, r, k, tau, pv[0], pv[1], pv[2], pv[3], pv[4], pv[5]);
}
VX_EXPORT void h_drag_one(double m, double s, double cs, double *pv, double *out) {
    using Q = P::DragParticle<V3>;
    auto *o = reinterpret_cast<Q *>(out);
    o[0] = Q(m, s, cs, V3(pv[0], pv[1], pv[2]), V3(pv[3], pv[4], pv[5]));
    o[1] = Q(m, s, cs, pv[0], pv[1], pv[2], pv[3], pv[4], pv[5]);
}
