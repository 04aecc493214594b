#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "interaction/newtonian.hpp"
#include "interaction/post-newtonian.hpp"
#include "particles/point-particles.hpp"
using namespace vx;
using Pt = hub::particles::PointParticles<T>;
struct ChainPt : public Pt {
    typename T::VectorArray cp, cv;
    typename T::IdxArray ix;
    typename T::VectorArray const &chain_pos() const { return cp; }
    typename T::VectorArray const &chain_vel() const { return cv; }
    typename T::IdxArray const &index() const { return ix; }
};

template <class F>
void cart(size_t n, double *pos, double *vel, double *mass, double *acc) {
    Pt p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.vel(), vel, n);
    load(p.mass(), mass, n);
    typename T::VectorArray a;
    load(a, acc, n);
    F::add_acc_to(p, a);
    store(acc, a);
}
template <class F>
void chain(size_t n, double *pos, double *vel, double *mass, double *chpos, double *chvel, size_t *idx, double *acc) {
    ChainPt p;
    p.resize(n);
    load(p.pos(), pos, n);
    load(p.vel(), vel, n);
    load(p.mass(), mass, n);
    load(p.cp, chpos, n);
    load(p.cv, chvel, n);
    load(p.ix, idx, n);
    typename T::VectorArray a;
    load(a, acc, n);
    F::add_acc_to(p, a);
    store(acc, a);
}
#define BOTH(NAME, F)                                                                                              \
    VX_EXPORT void h_##NAME(size_t n, double *pos, double *vel, double *mass, double *acc) {                       \
        cart<F>(n, pos, vel, mass, acc);                                                                           \
    }                                                                                                              \
    VX_EXPORT void h_##NAME##_chain(size_t n, double *pos, double *vel, double *mass, double *chpos, double *chvel, \
                                    size_t *idx, double *acc) {                                                    \
        chain<F>(n, pos, vel, mass, chpos, chvel, idx, acc);                                                       \
    }
BOTH(pn1, hub::force::PN1)
BOTH(pn2, hub::force::PN2)
BOTH(pn25, hub::force::PN2p5)

// force composition: each component adds an arbitrary (uninterpreted) acceleration
template <int K, bool VD>
struct StubForce {
    constexpr static bool vel_dependent{VD};
    template <class P>
    static void add_acc_to(P const &p, typename P::VectorArray &a) {
        size_t const n = p.number();
        for (size_t i = 0; i < n; ++i) {
            a[i].x += vx_uf4(K, p.mass(i), p.pos(i).x, p.vel(i).x, p.vel(i).y);
            a[i].y += vx_uf4(K + 1, p.mass(i), p.pos(i).y, p.vel(i).y, p.vel(i).z);
            a[i].z += vx_uf4(K + 2, p.mass(i), p.pos(i).z, p.vel(i).z, p.vel(i).x);
        }
    }
};
using N0 = StubForce<10, false>;
using I1 = StubForce<20, false>;
using I2 = StubForce<30, false>;
using D1 = StubForce<40, true>;
using D2 = StubForce<50, true>;
#define COMP(NAME, ...)                                                                                                    \
    VX_EXPORT void h_##NAME(size_t n, double *pos, double *vel, double *mass, double *a0, double *a1, double *a2, double *a3, \
                            double *a4) {                                                                                  \
        using F = hub::force::Interactions<__VA_ARGS__>;                                                                   \
        Pt p;                                                                                                              \
        p.resize(n);                                                                                                       \
        load(p.pos(), pos, n);                                                                                             \
        load(p.vel(), vel, n);                                                                                             \
        load(p.mass(), mass, n);                                                                                           \
        typename T::VectorArray b0, b1, b2, b3, b4;                                                                        \
        load(b0, a0, n);                                                                                                   \
        load(b1, a1, n);                                                                                                   \
        load(b2, a2, n);                                                                                                   \
        load(b3, a3, n);                                                                                                   \
        load(b4, a4, n);                                                                                                   \
        F::eval_acc(p, b0);                                                                                                \
        F::eval_extra_acc(p, b1);                                                                                          \
        F::eval_extra_vel_dep_acc(p, b2);                                                                                  \
        F::eval_extra_vel_indep_acc(p, b3);                                                                                \
        F::eval_newtonian_acc(p, b4);                                                                                      \
        store(a0, b0);                                                                                                     \
        store(a1, b1);                                                                                                     \
        store(a2, b2);                                                                                                     \
        store(a3, b3);                                                                                                     \
        store(a4, b4);                                                                                                     \
    }
COMP(comp_n, N0)
COMP(comp_ni, N0, I1)
COMP(comp_nd, N0, D1)
COMP(comp_nidid, N0, I1, D1, I2, D2)
COMP(comp_ndi, N0, D1, I1)
