// particle systems: drift, kick, flattened state, derivative (particle-system/*.hpp)
// VX_SYS: 0 SimpleSystem, 1 ChainSystem, 2 RegularizedSystem, 3 ARchainSystem
// VX_FRC: 0 internal force, 1 + velocity independent, 2 + velocity dependent, 3 + both
// VX_REG: LogH, TTL, None
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "orbits/particle-manip.hpp"
#include "particles/point-particles.hpp"
#define private public
#include "particle-system/chain.hpp"
#include "particle-system/base-system.hpp"
#include "particle-system/chain-system.hpp"
#include "particle-system/regu-system.hpp"
#include "particle-system/archain.hpp"
#undef private
using namespace vx;
#ifndef VX_SYS
#define VX_SYS 0
#define VX_FRC 0
#endif
#ifndef VX_REG
#define VX_REG LogH
#endif
using Pts = hub::particles::PointParticles<T>;
using PP = typename Pts::Particle;
using VA = typename T::VectorArray;
using IA = typename T::IdxArray;
using SA = typename T::ScalarArray;

// opaque forces: any function of the particle's own state (contract of P01/P02 lies elsewhere)
template <int tag, bool dep>
struct Force {
    static constexpr bool vel_dependent = dep;
    template <class P>
    static void add_acc_to(P const &p, typename P::VectorArray &acc) {
        size_t const n = p.number();
        for (size_t i = 0; i < n; ++i) {
            auto const &x = p.pos(i);
            if constexpr (dep) {
                auto const &v = p.vel(i);
                acc[i].x += vx_uf6(tag, x.x, x.y, x.z, v.x, v.y, v.z);
                acc[i].y += vx_uf6(tag + 1, x.x, x.y, x.z, v.x, v.y, v.z);
                acc[i].z += vx_uf6(tag + 2, x.x, x.y, x.z, v.x, v.y, v.z);
            } else {
                acc[i].x += vx_uf3(tag, x.x, x.y, x.z);
                acc[i].y += vx_uf3(tag + 1, x.x, x.y, x.z);
                acc[i].z += vx_uf3(tag + 2, x.x, x.y, x.z);
            }
        }
    }
};
#if VX_FRC == 0
using I = hub::force::Interactions<Force<0, false>>;
#elif VX_FRC == 1
using I = hub::force::Interactions<Force<0, false>, Force<3, false>>;
#elif VX_FRC == 2
using I = hub::force::Interactions<Force<0, false>, Force<6, true>>;
#else
using I = hub::force::Interactions<Force<0, false>, Force<6, true>, Force<3, false>>;
#endif
#if VX_SYS == 0
using S = hub::system::SimpleSystem<Pts, I>;
#elif VX_SYS == 1
using S = hub::system::ChainSystem<Pts, I>;
#elif VX_SYS == 2
using S = hub::system::RegularizedSystem<Pts, I, hub::system::ReguType::VX_REG>;
#else
using S = hub::system::ARchainSystem<Pts, I, hub::system::ReguType::VX_REG>;
#endif
static constexpr bool CHAIN = VX_SYS == 1 || VX_SYS == 3, REG = VX_SYS >= 2, DEP = VX_FRC >= 2;

static size_t const *vx_order = nullptr;
#if VX_SYS == 1 || VX_SYS == 3
// the order search has its own contract (P04); here: any permutation the harness supplies
template <>
void hub::Chain::calc_chain_index<VA, IA>(VA const &pos, IA &idx) {
    for (size_t i = 0; i < pos.size(); ++i) idx[i] = vx_order[i];
}
#endif

#if VX_SYS == 3
// the potential energy of chain particles has its own contract (P03); here: any function of the state
template <>
auto hub::calc::calc_potential_energy<S>(S const &p) -> double {
    return -vx_uf4(90, p.pos(0).x, p.pos(0).y, p.pos(0).z, p.mass(0));
}
#endif

#ifdef VX_NATIVE
template <class E> using C = std::vector<E>;
template <class E> static void blank(C<E> &c, size_t n) { c.resize(n); }
#else
template <class E> using C = VArr<E>;
template <class E> static void blank(C<E> &c, size_t n) { c.n = n; }
#endif

// the state of the system <-> caller-owned arrays
//   g[0] time, g[1] omega, g[2] bindE
struct St {
    size_t n;
    double *g, *pos, *vel, *aux, *mass, *cpos, *cvel, *caux, *inc;
    size_t *idx;
};
template <class S>
static S make(St const &a, bool collect) {
    C<PP> c;
    blank(c, a.n);
    vx_order = a.idx;
    S s(a.g[0], c);
    load(s.pos(), a.pos, a.n);
    load(s.vel(), a.vel, a.n);
    load(s.mass(), a.mass, a.n);
    if constexpr (DEP) load(s.aux_vel_, a.aux, a.n);
    if constexpr (CHAIN) {
        load(s.chain_pos_, a.cpos, a.n);
        load(s.chain_vel_, a.cvel, a.n);
        load(s.index_, a.idx, a.n);
        if constexpr (DEP) load(s.chain_aux_vel_, a.caux, a.n);
    }
    if constexpr (REG) {
        s.omega() = a.g[1];
        s.bindE() = a.g[2];
    }
    load(s.increment_, a.inc, s.variable_number());
    s.collect_increment(collect);
    return s;
}
template <class S>
static void take(S &s, St const &a) {
    a.g[0] = s.time();
    store(a.pos, s.pos());
    store(a.vel, s.vel());
    store(a.mass, s.mass());
    if constexpr (DEP) store(a.aux, s.aux_vel_);
    if constexpr (CHAIN) {
        store(a.cpos, s.chain_pos_);
        store(a.cvel, s.chain_vel_);
        if constexpr (DEP) store(a.caux, s.chain_aux_vel_);
    }
    if constexpr (REG) {
        a.g[1] = s.omega();
        a.g[2] = s.bindE();
    }
    store(a.inc, s.increment_);
}
#define ARGS size_t n, double *g, double *pos, double *vel, double *aux, double *mass, double *cpos, double *cvel, double *caux, double *inc, size_t *idx
#define PACK St a{n, g, pos, vel, aux, mass, cpos, cvel, caux, inc, idx}

VX_EXPORT void h_drift(ARGS, bool collect, double h) {
    PACK; S s = make<S>(a, collect);
    s.drift(h);
    take(s, a);
}
VX_EXPORT void h_kick(ARGS, bool collect, double h) {
    PACK; S s = make<S>(a, collect);
    s.kick(h);
    take(s, a);
}
VX_EXPORT void h_pre(ARGS) {
    PACK; S s = make<S>(a, false);
    s.pre_iter_process();
    take(s, a);
}
VX_EXPORT void h_write(ARGS, double *y, size_t *len) {
    PACK; S s = make<S>(a, false);
    SA v;
    load(v, y, 0);
    s.write_to_scalar_array(v);
    store(y, v);
    len[0] = v.size(); len[1] = s.variable_number();
    len[2] = s.time_offset(); len[3] = s.pos_offset(); len[4] = s.vel_offset();
}
VX_EXPORT void h_read(ARGS, double *y) {
    PACK; S s = make<S>(a, false);
    SA v;
    load(v, y, s.variable_number());
    s.read_from_scalar_array(v);
    take(s, a);
}
VX_EXPORT void h_deriv(ARGS, double *y, size_t *len) {
    PACK; S s = make<S>(a, false);
    SA v;
    load(v, y, 0);
    s.evaluate_general_derivative(v);
    store(y, v);
    len[0] = v.size();
}
VX_EXPORT void h_clear(ARGS) {
    PACK; S s = make<S>(a, false);
    s.clear_increment();
    take(s, a);
}
template <class S>
static void round_trip(St const &a, St const &b) {
    S s = make<S>(a, false);
    SA v;
    s.write_to_scalar_array(v);
    // any other state of the same particles
    s.time() = b.g[0];
    load(s.pos(), b.pos, a.n);
    load(s.vel(), b.vel, a.n);
    if constexpr (DEP) load(s.aux_vel_, b.aux, a.n);
    if constexpr (CHAIN) {
        load(s.chain_pos_, b.cpos, a.n);
        load(s.chain_vel_, b.cvel, a.n);
        if constexpr (DEP) load(s.chain_aux_vel_, b.caux, a.n);
    }
    if constexpr (REG) {
        s.omega() = b.g[1];
        s.bindE() = b.g[2];
    }
    s.read_from_scalar_array(v);
    take(s, a);
}
VX_EXPORT void h_round(ARGS, double *g2, double *pos2, double *vel2, double *aux2, double *cpos2, double *cvel2, double *caux2) {
    PACK;
    St b{n, g2, pos2, vel2, aux2, mass, cpos2, cvel2, caux2, inc, idx};
    round_trip<S>(a, b);
}

// construction from a particle container (7 numbers each)
template <class S>
static void init(St const &a, double *src, double *sc) {
    C<PP> c;
    load(c, src, a.n);
    vx_order = a.idx;
    S s(a.g[0], c);
    sc[0] = s.step_scale();
    sc[1] = static_cast<double>(s.number());
    sc[2] = static_cast<double>(s.variable_number());
    take(s, a);
}
VX_EXPORT void h_init(ARGS, double *src, double *sc) {
    PACK; init<S>(a, src, sc);
}
#if VX_SYS >= 2
using Regu = hub::system::Regularization<T, hub::system::ReguType::VX_REG>;
// step-size transformation
VX_EXPORT void h_factor(ARGS, double h, double *out) {
    PACK; S s = make<S>(a, false);
    out[0] = s.regu_.eval_pos_phy_time(s, h);
    out[1] = s.step_scale();
    out[2] = s.regu_.eval_vel_phy_time(s, h);
    out[3] = s.step_scale();
    take(s, a);
}
#endif
#if VX_SYS == 1 || VX_SYS == 3
// a new order is found after a step
template <class S>
static void post(St const &a, size_t *order) {
    S s = make<S>(a, false);
    vx_order = order;
    s.post_iter_process();
    take(s, a);
    store(a.idx, s.index_);
}
VX_EXPORT void h_post(ARGS, size_t *order) {
    PACK; post<S>(a, order);
}
VX_EXPORT void h_post_same(ARGS) {
    PACK; post<S>(a, idx);
}
#endif
