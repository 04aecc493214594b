// scattering set-up (scattering/cross-section.hpp)
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "vxrand.hpp"
#include "orbits/orbits.hpp"
#include "orbits/particle-manip.hpp"
#include "particles/point-particles.hpp"
#include "particles/finite-size.hpp"
#include "scattering/cross-section.hpp"
using namespace vx;
namespace orb = hub::orbit;
namespace sc = hub::scattering;
using P = hub::particles::PointParticle<V3>;
using S = hub::particles::SizeParticle<V3>;
#ifdef VX_NATIVE
template <class E> using C = std::vector<E>;
#else
template <class E> using C = VArr<E>;
#endif
#define CL2 C<P> c, d; load(c, ptc, n); load(d, ptd, m)
static double type_of(orb::OrbitType t) { return t == orb::OrbitType::Ellipse ? 0 : t == orb::OrbitType::Parabola ? 1 : t == orb::OrbitType::Hyperbola ? 2 : 3; }
// o: m1 m2 p e i Omega omega nu type b
template <class K>
static void put(double *o, K const &k) {
    o[0] = k.m1, o[1] = k.m2, o[2] = k.p, o[3] = k.e, o[4] = k.i, o[5] = k.Omega, o[6] = k.omega, o[7] = k.nu;
    o[8] = type_of(k.orbit_type);
}
VX_EXPORT void h_scalars(double m1, double m2, double E1, double E2, double v, double rp, double me, double sg, double *o) {
    o[0] = sc::critical_vel(m1, m2, E1, E2);
    o[1] = sc::b_max(m1 + m2, v, rp);
    o[2] = sc::hard_radius(m1, m2, me, sg);
}
VX_EXPORT void h_bmax6(double m1, double m2, double R1, double R2, double v, double f, double *o) {
    o[0] = sc::b_max(m1, m2, R1, R2, v, f);
    o[1] = sc::b_max(m1 + m2, v, orb::tidal_radius(f, m1, m2, R1, R2));
    double r = orb::tidal_radius(f, m1, m2, R1, R2);
    auto [f1, f2] = orb::tidal_factor(r, m1, m2, R1, R2);
    o[2] = f1, o[3] = f2, o[4] = r;
    double r2 = orb::tidal_radius(f, m1, m2, R2);
    auto [g1, g2] = orb::tidal_factor(r2, m1, m2, R1, R2);
    o[5] = g2;
}
VX_EXPORT void h_hyper(double m1, double m2, double v, double b, double i, double Om, double om, double r, int out_, double *o) {
    orb::Hyperbolic k(m1, m2, v, b, i, Om, om, r, out_ ? orb::Hyper::out : orb::Hyper::in);
    put(o, k);
    o[9] = k.b;
}
VX_EXPORT void h_hyper_state(double m1, double m2, double v, double b, double i, double Om, double om, double r, int out_, double *o) {
    orb::Hyperbolic k(m1, m2, v, b, i, Om, om, r, out_ ? orb::Hyper::out : orb::Hyper::in);
    V3 p, q;
    orb::orbit_to_coord(static_cast<orb::KeplerOrbit<double> const &>(k), p, q);
    o[0] = dot(p, p), o[1] = dot(q, q), o[2] = dot(p, q);
    o[3] = norm2(cross(p, q));
}
VX_EXPORT void h_ellip(double m1, double m2, double a, double e, double i, double Om, double om, double nu, double *o) {
    orb::Elliptic k(m1, m2, a, e, i, Om, om, nu);
    put(o, k);
    o[9] = k.a;
}
VX_EXPORT void h_incident(double m1, double m2, double v, double bmax, double r, double u1, double u2, double *o) {
    static double u_[4];
    u_[0] = u1, u_[1] = u2, vx_draws = u_, vx_drawn = 0;
    auto k = sc::incident_orbit(m1, m2, v, bmax, r);
    put(o, k);
    o[9] = k.b;
}
VX_EXPORT void h_incident2(size_t n, double *ptc, size_t m, double *ptd, double v, double f, double u1, double u2, double *o) {
    CL2;
    static double u_[4];
    u_[0] = u1, u_[1] = u2, vx_draws = u_, vx_drawn = 0;
    auto k = sc::incident_orbit(c, d, v, f);
    put(o, k);
    o[9] = k.b;
    double M1 = orb::M_tot(c), M2 = orb::M_tot(d), R1 = orb::cluster_size(c), R2 = orb::cluster_size(d);
    vx_drawn = 0;
    auto h = sc::incident_orbit(M1, M2, v, sc::b_max(M1 + M2, v, orb::tidal_radius(0.02, M1, M2, R1, R2)),
                                orb::tidal_radius(f, M1, M2, R1, R2));
    put(o + 10, h);
    o[19] = h.b;
}
VX_EXPORT void h_clusters(size_t n, double *ptc, size_t m, double *ptd, double v, double f, double *o) {
    CL2;
    o[0] = sc::critical_vel(c, d);
    o[1] = sc::critical_vel(orb::M_tot(c), orb::M_tot(d), orb::E_inner(c), orb::E_inner(d));
    o[2] = sc::b_max(c, d, v, f);
    o[3] = sc::b_max(orb::M_tot(c), orb::M_tot(d), orb::cluster_size(c), orb::cluster_size(d), v, f);
}
