// chain coordinates (particle-system/chain.hpp)
#include "vx.hpp"
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#define private public
#include "particle-system/chain.hpp"
#undef private
using namespace vx;
using hub::Chain;
using VA = typename T::VectorArray;
using IA = typename T::IdxArray;
using SA = typename T::ScalarArray;

VX_EXPORT void h_to_chain(size_t n, double *cart, double *chain, size_t *idx) {
    VA a, b; IA ix;
    load(a, cart, n); load(b, chain, n); load(ix, idx, n);
    Chain::calc_chain(a, b, ix);
    store(cart, a); store(chain, b); store(idx, ix);
}
VX_EXPORT void h_to_cart(size_t n, double *mass, double *chain, double *cart, size_t *idx) {
    VA a, b; IA ix; SA m;
    load(m, mass, n); load(a, cart, n); load(b, chain, n); load(ix, idx, n);
    Chain::calc_cartesian(m, b, a, ix);
    store(cart, a); store(chain, b); store(idx, ix); store(mass, m);
}
VX_EXPORT void h_round(size_t n, double *mass, double *chain, double *cart, size_t *idx) {
    VA a, b; IA ix; SA m;
    load(m, mass, n); load(a, cart, n); load(b, chain, n); load(ix, idx, n);
    Chain::calc_chain(a, b, ix);
    Chain::calc_cartesian(m, b, a, ix);
    store(cart, a); store(chain, b); store(idx, ix); store(mass, m);
}
VX_EXPORT void h_round2(size_t n, double *mass, double *chain, double *cart, size_t *idx) {
    VA a, b; IA ix; SA m;
    load(m, mass, n); load(a, cart, n); load(b, chain, n); load(ix, idx, n);
    Chain::calc_cartesian(m, b, a, ix);
    Chain::calc_chain(a, b, ix);
    store(cart, a); store(chain, b); store(idx, ix); store(mass, m);
}

VX_EXPORT void h_relink(size_t n, double *chain, double *cart, size_t *idx, size_t *nidx) {
    VA a, b; IA ix, jx;
    load(a, cart, n); load(b, chain, n); load(ix, idx, n); load(jx, nidx, n);
    Chain::update_chain(b, a, ix, jx);
    store(cart, a); store(chain, b); store(idx, ix); store(nidx, jx);
}
