#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "particles/point-particles.hpp"
using namespace vx;
using Pt = hub::particles::PointParticles<T>;

// a particle system that exposes chain coordinates, as ChainSystem/ARchainSystem do
struct ChainPt : public Pt {
    typename T::VectorArray cp, cv;
    typename T::IdxArray ix;
    typename T::VectorArray const &chain_pos() const { return cp; }
    typename T::VectorArray const &chain_vel() const { return cv; }
    typename T::IdxArray const &index() const { return ix; }
};

VX_EXPORT void h_newton(size_t n, double *pos, double *mass, double *acc) {
    Pt p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.mass(), mass, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::NewtonianGrav::add_acc_to(p, a);
    store(acc, a);
}

VX_EXPORT void h_newton_chain(size_t n, double *pos, double *mass, double *chpos, size_t *idx, double *acc) {
    ChainPt p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.mass(), mass, n);
    load(p.cp, chpos, n);
    load(p.ix, idx, n);
    typename T::VectorArray a;
    load(a, acc, n);
    hub::force::NewtonianGrav::add_acc_to(p, a);
    store(acc, a);
}
