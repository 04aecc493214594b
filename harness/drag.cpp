#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "interaction/static-gas-drag.hpp"
#include "interaction/tidal.hpp"
#include "interaction/alpha-disk.hpp"
#include "interaction/disk-capture-star.hpp"
#include "particles/drag-particles.hpp"
#include "particles/finite-size.hpp"
#include "particles/tide-particles.hpp"
using namespace vx;
using TP = hub::particles::TideParticles<T>;
using DP = hub::particles::DragParticles<T>;
using SP = hub::particles::SizeParticles<T>;

struct ChainTP : public TP {
    typename T::VectorArray cp, cv;
    typename T::IdxArray ix;
    typename T::VectorArray const &chain_pos() const { return cp; }
    typename T::VectorArray const &chain_vel() const { return cv; }
    typename T::IdxArray const &index() const { return ix; }
};
template <class P>
void base(P &p, size_t n, double *pos, double *vel, double *mass) {
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.vel(), vel, n);
    load(p.mass(), mass, n);
}
VX_EXPORT void h_tidal(size_t n, double *pos, double *vel, double *mass, double *rad, double *k, double *tau, double *acc) {
    TP p;
    base(p, n, pos, vel, mass);
    load(p.radius(), rad, n);
    load(p.tide_apsidal_const(), k, n);
    load(p.tide_lag_time(), tau, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::Tidal::add_acc_to(p, a);
    store(acc, a);
}
VX_EXPORT void h_tidal_chain(size_t n, double *pos, double *vel, double *mass, double *rad, double *k, double *tau, double *chpos,
                             double *chvel, size_t *idx, double *acc) {
    ChainTP p;
    base(p, n, pos, vel, mass);
    load(p.radius(), rad, n);
    load(p.tide_apsidal_const(), k, n);
    load(p.tide_lag_time(), tau, n);
    load(p.cp, chpos, n);
    load(p.cv, chvel, n);
    load(p.ix, idx, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::Tidal::add_acc_to(p, a);
    store(acc, a);
}
VX_EXPORT void h_gasdrag(size_t n, double *pos, double *vel, double *mass, double *c, double *cs, double *acc) {
    DP p;
    base(p, n, pos, vel, mass);
    load(p.sub_sonic_c(), c, n);
    load(p.local_cs(), cs, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::StaticGasDrag::add_acc_to(p, a);
    store(acc, a);
}
double hub::force::AlphaDisk::Q, hub::force::AlphaDisk::alpha, hub::force::AlphaDisk::lambda;
int hub::force::AlphaDisk::force;
VX_EXPORT void h_alpha(size_t n, double *pos, double *vel, double *mass, double *rad, double Q, double al, double la, size_t mode, double *acc) {
    SP p;
    base(p, n, pos, vel, mass);
    load(p.radius(), rad, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::AlphaDisk::Q = Q;
    hub::force::AlphaDisk::alpha = al;
    hub::force::AlphaDisk::lambda = la;
    hub::force::AlphaDisk::force = int(mode) - 1;
    hub::force::AlphaDisk::add_acc_to(p, a);
    store(acc, a);
}
VX_EXPORT void h_capture(size_t n, double *pos, double *vel, double *mass, double *rad, double *acc) {
    SP p;
    base(p, n, pos, vel, mass);
    load(p.radius(), rad, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::DiskCaptureStar::add_acc_to(p, a);
    store(acc, a);
}
