// two-body orbits (orbits/orbits.hpp)
#include "vx.hpp"
#include "core-computation.hpp"
#include "orbits/orbits.hpp"
using namespace vx;
namespace orb = hub::orbit;
using K = orb::KeplerOrbit<double>;
static V3 get(double const *p) { return V3(p[0], p[1], p[2]); }
static void put(double *o, V3 const &v) { o[0] = v.x, o[1] = v.y, o[2] = v.z; }
static double type_of(orb::OrbitType t) {
    switch (t) {
        case orb::OrbitType::Ellipse: return 0;
        case orb::OrbitType::Parabola: return 1;
        case orb::OrbitType::Hyperbola: return 2;
        default: return 3;
    }
}
// o: m1 m2 p e i Omega omega nu type
static void put(double *o, K const &k) {
    o[0] = k.m1, o[1] = k.m2, o[2] = k.p, o[3] = k.e, o[4] = k.i, o[5] = k.Omega, o[6] = k.omega, o[7] = k.nu;
    o[8] = type_of(k.orbit_type);
}
static K orbit(double const *o) {
    K k;
    k.m1 = o[0], k.m2 = o[1], k.p = o[2], k.e = o[3], k.i = o[4], k.Omega = o[5], k.omega = o[6], k.nu = o[7];
    return k;
}

VX_EXPORT void h_rotate(double *v, double phi, double theta, double psi) {
    V3 x = get(v);
    orb::euler_rotate(x, phi, theta, psi);
    put(v, x);
}
VX_EXPORT void h_to_coord(double *o, double *pos, double *vel) {
    V3 p, v;
#ifdef VX_TUPLE
    auto [a, b] = orb::orbit_to_coord<V3>(orbit(o));
    p = a, v = b;
#else
    orb::orbit_to_coord(orbit(o), p, v);
#endif
    put(pos, p);
    put(vel, v);
}
VX_EXPORT void h_to_orbit(double m1, double m2, double *dr, double *dv, double *o) {
#ifdef VX_TUPLE
    K k = orb::coord_to_orbit(m1, m2, get(dr), get(dv));
#else
    K k;
    orb::coord_to_orbit(m1, m2, get(dr), get(dv), k);
#endif
    put(o, k);
}
// elements -> state -> invariants
VX_EXPORT void h_round(double *o, double *out) {
    auto k = orbit(o);
    auto [p, v] = orb::orbit_to_coord<V3>(k);
    double u = k.m1 + k.m2;
    out[0] = orb::calc_semi_major_axis(u, p, v);
    out[1] = orb::calc_eccentricity(u, p, v);
    put(out + 2, orb::calc_angular_momentum(k.m1, k.m2, p, v));
    put(out + 5, orb::calc_runge_lenz_vector(u, p, v));
}
VX_EXPORT void h_elements(double m1, double m2, double *dr, double *dv, double *out) {
    double u = m1 + m2;
    V3 r = get(dr), v = get(dv);
    out[0] = orb::calc_semi_major_axis(u, r, v);
    out[1] = orb::calc_eccentricity(u, r, v);
    put(out + 2, orb::calc_runge_lenz_vector(u, r, v));
    put(out + 5, orb::calc_angular_momentum(m1, m2, r, v));
    {
        auto [a, e] = orb::calc_a_e(u, r, v);
        out[8] = a, out[9] = e;
    }
    {
        auto [a, e] = orb::calc_a_RL_vector(u, r, v);
        out[10] = a, put(out + 11, e);
    }
    {
        auto [a, e, l] = orb::calc_a_e_L(m1, m2, r, v);
        out[14] = a, put(out + 15, e), put(out + 18, l);
    }
}
VX_EXPORT double h_classify(double e) { return type_of(orb::classify_orbit(e)); }
VX_EXPORT double h_slr(double a, double e) { return orb::semi_latus_rectum(a, e); }
VX_EXPORT void h_kepler(double *in, double *o) {
    K k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]);
    put(o, k);
}
VX_EXPORT void h_elliptic(double *in, double *o) {
    orb::Elliptic k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]);
    put(o, static_cast<K const &>(k));
    o[9] = k.a;
}
// in: m1 m2 v_inf b i Omega omega r
VX_EXPORT void h_hyperbolic(double *in, bool out, double *o) {
    orb::Hyperbolic k(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7], out ? orb::Hyper::out : orb::Hyper::in);
    put(o, static_cast<K const &>(k));
    o[9] = k.b;
}
VX_EXPORT double h_period(double m1, double m2, double a) { return orb::period(m1, m2, a); }
VX_EXPORT double h_period_k(double *o) { return orb::period(orbit(o)); }

// anomalies
VX_EXPORT double h_E2T(double x, double e) { return orb::E_anomaly_to_T_anomaly(x, e); }
VX_EXPORT double h_T2E(double x, double e) { return orb::T_anomaly_to_E_anomaly(x, e); }
VX_EXPORT double h_E2M(double x, double e) { return orb::E_anomaly_to_M_anomaly(x, e); }
VX_EXPORT double h_T2M(double x, double e) { return orb::T_anomaly_to_M_anomaly(x, e); }
VX_EXPORT double h_ETE(double x, double e) { return orb::T_anomaly_to_E_anomaly(orb::E_anomaly_to_T_anomaly(x, e), e); }
VX_EXPORT double h_TET(double x, double e) { return orb::E_anomaly_to_T_anomaly(orb::T_anomaly_to_E_anomaly(x, e), e); }
VX_EXPORT double h_peri(double *o) {
    K k = orbit(o);
    k.orbit_type = orb::classify_orbit(k.e);
    return orb::time_to_periapsis(k);
}
VX_EXPORT double h_peri4(double e, double u, double a, double M) { return orb::time_to_periapsis(orb::classify_orbit(e), u, a, M); }
VX_EXPORT void h_tidal(double *in, double *o) {
    auto [a, b] = orb::tidal_factor(in[0], in[1], in[2], in[3], in[4]);
    o[0] = a, o[1] = b;
    o[2] = orb::tidal_radius(in[0], in[1], in[2], in[3]);
    o[3] = orb::tidal_radius(in[0], in[1], in[2], in[3], in[4]);
}
VX_EXPORT double h_M2E(double M, double e) { return orb::M_anomaly_to_E_anomaly(M, e); }
VX_EXPORT double h_M2T(double M, double e) { return orb::M_anomaly_to_T_anomaly(M, e); }
