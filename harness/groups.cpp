// energies, centre-of-mass and group manipulation (core-computation.hpp, orbits/particle-manip.hpp)
#include "vx.hpp"
#include "core-computation.hpp"
#include "orbits/particle-manip.hpp"
#include "particles/point-particles.hpp"
#include "particles/finite-size.hpp"
using namespace vx;
using P = hub::particles::PointParticle<V3>;   // pos, vel, mass
using S = hub::particles::SizeParticle<V3>;    // pos, vel, mass, radius
using Pts = hub::particles::PointParticles<T>;
namespace orb = hub::orbit;
#ifdef VX_NATIVE
template <class E> using C = std::vector<E>;
#else
template <class E> using C = VArr<E>;
#endif

static void put(double *o, V3 const &v) { o[0] = v.x, o[1] = v.y, o[2] = v.z; }
template <class... A>
static void soa(Pts &p, size_t n, double *pos, double *vel, double *mass) {
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.vel(), vel, n);
    load(p.mass(), mass, n);
}

#define CL C<P> c; load(c, ptc, n)
#define CL2 C<P> c, d; load(c, ptc, n); load(d, ptd, m)

VX_EXPORT double h_ke(size_t n, double *vel, double *mass) {
    Pts p;
    p.resize(n);
    load(p.vel(), vel, n);
    load(p.mass(), mass, n);
    return hub::calc::calc_kinetic_energy(p);
}
VX_EXPORT double h_pe(size_t n, double *pos, double *mass) {
    Pts p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.mass(), mass, n);
    return hub::calc::calc_potential_energy(p);
}
struct ChainPt : public Pts {
    typename T::VectorArray cp, cv;
    typename T::IdxArray ix;
    typename T::VectorArray const &chain_pos() const { return cp; }
    typename T::VectorArray const &chain_vel() const { return cv; }
    typename T::IdxArray const &index() const { return ix; }
};
VX_EXPORT double h_pe_chain(size_t n, double *pos, double *mass, double *chpos, size_t *idx) {
    ChainPt p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.mass(), mass, n);
    load(p.cp, chpos, n);
    load(p.ix, idx, n);
    return hub::calc::calc_potential_energy(p);
}
VX_EXPORT double h_etot(size_t n, double *pos, double *vel, double *mass) {
    Pts p;
    soa(p, n, pos, vel, mass);
    return hub::calc::calc_total_energy(p);
}
VX_EXPORT void h_angmom(size_t n, double *pos, double *vel, double *mass, double *out) {
    Pts p;
    soa(p, n, pos, vel, mass);
    put(out, hub::calc::calc_total_angular_momentum(p));
}
VX_EXPORT void h_angmom_idx(size_t n, double *pos, double *vel, double *mass, size_t k, size_t *id, double *out) {
    Pts p;
    soa(p, n, pos, vel, mass);
    typename T::IdxArray ix;
    load(ix, id, k);
    put(out, hub::calc::calc_angular_momentum(p, ix));
}
VX_EXPORT void h_angmom_iso(size_t n, double *pos, double *vel, double *mass, size_t k, size_t *id, double *out) {
    Pts p;
    soa(p, n, pos, vel, mass);
    typename T::IdxArray ix;
    load(ix, id, k);
    put(out, hub::calc::calc_isolated_angular_momentum(p, ix));
}
VX_EXPORT double h_eerr(size_t n, double *pos, double *vel, double *mass, double e0) {
    Pts p;
    soa(p, n, pos, vel, mass);
    return hub::calc::calc_energy_error(p, e0);
}
VX_EXPORT void h_move_to_com(size_t n, double *mass, double *var) {
    typename T::ScalarArray m;
    typename T::VectorArray v;
    load(m, mass, n);
    load(v, var, n);
    hub::calc::move_to_com(m, v);
    store(var, v);
}
VX_EXPORT double h_fallfree(size_t n, double *mass, double *pos) {
    typename T::ScalarArray m;
    typename T::VectorArray v;
    load(m, mass, n);
    load(v, pos, n);
    return hub::calc::calc_fall_free_time(m, v);
}

// ---- orbit:: group functions
VX_EXPORT void h_com(size_t n, double *ptc, double *out) {
    CL;
    out[0] = orb::M_tot(c);
    put(out + 1, orb::COM_p(c));
    put(out + 4, orb::COM_v(c));
}
VX_EXPORT void h_com2(double *ptc, double *out) {
    P a = ((P *)ptc)[0], b = ((P *)ptc)[1];
    out[0] = orb::M_tot(a, b);
    put(out + 1, orb::COM_p(a, b));
    put(out + 4, orb::COM_v(a, b));
}
VX_EXPORT void h_com3(double *ptc, double *out) {
    P a = ((P *)ptc)[0], b = ((P *)ptc)[1], e = ((P *)ptc)[2];
    out[0] = orb::M_tot(a, b, e);
    put(out + 1, orb::COM_p(a, b, e));
    put(out + 4, orb::COM_v(a, b, e));
}
VX_EXPORT void h_move(size_t n, double *ptc, double *tp, double *tv, size_t which) {
    CL;
    V3 p(tp[0], tp[1], tp[2]), v(tv[0], tv[1], tv[2]);
    if (which == 0)
        orb::move_particles(p, v, c);
    else if (which == 1)
        orb::move_particles_pos(p, c);
    else if (which == 2)
        orb::move_particles_vel(v, c);
    else
        orb::move_to_COM_frame(c);
    store(ptc, c);
}
VX_EXPORT void h_move1(double *ptc, double *tp, double *tv, size_t which) {
    P &a = ((P *)ptc)[0];
    V3 p(tp[0], tp[1], tp[2]), v(tv[0], tv[1], tv[2]);
    if (which == 0)
        orb::move_particles(p, v, a);
    else if (which == 1)
        orb::move_particles_pos(p, a);
    else if (which == 2)
        orb::move_particles_vel(v, a);
    else
        orb::move_to_COM_frame(a);
}
VX_EXPORT void h_move3(double *ptc, double *tp, double *tv, size_t which) {
    P &a = ((P *)ptc)[0], &b = ((P *)ptc)[1], &e = ((P *)ptc)[2];
    V3 p(tp[0], tp[1], tp[2]), v(tv[0], tv[1], tv[2]);
    if (which == 0)
        orb::move_particles(p, v, a, b, e);
    else if (which == 1)
        orb::move_particles_pos(p, a, b, e);
    else if (which == 2)
        orb::move_particles_vel(v, a, b, e);
    else
        orb::move_to_COM_frame(a, b, e);
}
VX_EXPORT void h_energy_c(size_t n, double *ptc, double *out) {
    CL;
    out[0] = orb::E_k(c);
    out[1] = orb::E_p(c);
    out[2] = orb::E_tot(c);
    out[3] = orb::E_k_COM(c);
    out[4] = orb::E_inner(c);
}
VX_EXPORT void h_energy_3(double *ptc, double *out) {
    P a = ((P *)ptc)[0], b = ((P *)ptc)[1], e = ((P *)ptc)[2];
    out[0] = orb::E_k(a, b, e);
    out[1] = orb::E_p(a, b, e);
    out[2] = orb::E_tot(a, b, e);
    out[3] = orb::E_k_COM(a, b, e);
    out[4] = orb::E_inner(a, b, e);
}
VX_EXPORT void h_two_clusters(size_t n, double *ptc, size_t m, double *ptd, double R1, double R2, double *out) {
    CL2;
    out[0] = orb::M_rdc(c, d);
    out[1] = orb::E_tid(c, d, R1, R2);
    auto [f1, f2] = orb::tidal_factor(c, d, R1, R2);
    out[2] = f1, out[3] = f2;
    auto [a, e] = orb::calc_a_e(c, d);
    out[4] = a, out[5] = e;
    out[6] = orb::calc_semi_major_axis(c, d);
    out[7] = orb::calc_eccentricity(c, d);
    out[8] = orb::tidal_radius(R1, c, d, R2);
}
VX_EXPORT double h_size(size_t n, double *ptc) {
    CL;
    return orb::cluster_size(c);
}
// sizes of the clusters taken from cluster_size()
VX_EXPORT void h_two_auto(size_t n, double *ptc, size_t m, double *ptd, double f, double *out) {
    CL2;
    double R1 = orb::cluster_size(c), R2 = orb::cluster_size(d);
    auto [f1, f2] = orb::tidal_factor(c, d);
    auto [g1, g2] = orb::tidal_factor(c, d, R1, R2);
    out[0] = f1, out[1] = f2, out[2] = g1, out[3] = g2;
    out[4] = orb::E_tid(c, d), out[5] = orb::E_tid(c, d, R1, R2);
    out[6] = orb::tidal_radius(f, c, d), out[7] = orb::tidal_radius(f, c, d, R2);
}
VX_EXPORT void h_two_single(double *a, double *b, double *out) {
    S c = *(S *)a, d = *(S *)b;
    auto [f1, f2] = orb::tidal_factor(c, d);
    out[0] = f1, out[1] = f2;
    out[2] = orb::E_tid(c, d);
}
