#include "vx.hpp"
#include "core-computation.hpp"
#include "particles/point-particles.hpp"
using namespace vx;
namespace hc = hub::calc;
using SA = typename T::ScalarArray;
using VA = typename T::VectorArray;

#define LD(name, ptr, n) SA name; load(name, ptr, n)
#define LV(name, ptr, n) VA name; load(name, ptr, n)

VX_EXPORT void h_set_zero(size_t n, double *d, size_t m, double *v) {
    LD(D, d, n); LV(V, v, m);
    hc::set_arrays_zero(D, V);
    store(d, D); store(v, V);
}
VX_EXPORT double h_dot2(size_t n, double *a, double *b) { LD(A, a, n); LD(B, b, n); return hc::array_dot(A, B); }
VX_EXPORT double h_dot4(size_t n, double *a, double *b, double *c, double *d) {
    LD(A, a, n); LD(B, b, n); LD(C, c, n); LD(D, d, n);
    return hc::array_dot(A, B, C, D);
}
VX_EXPORT void h_add(size_t n, double *a, double *b, double *c, double *d) {
    LD(A, a, n); LD(B, b, n); LD(C, c, n); LD(D, d, n);
    hc::array_add(D, A, B, C);
    store(d, D);
}
VX_EXPORT void h_addv(size_t n, double *a, double *b, double *d) {
    LV(A, a, n); LV(B, b, n); LV(D, d, n);
    hc::array_add(D, A, B);
    store(d, D);
}
VX_EXPORT void h_mul(size_t n, double *a, double *b, double *c, double *d) {
    LD(A, a, n); LD(B, b, n); LD(C, c, n); LD(D, d, n);
    hc::array_mul(D, A, B, C);
    store(d, D);
}
VX_EXPORT void h_sub(size_t n, double *a, double *b, double *d) {
    LD(A, a, n); LD(B, b, n); LD(D, d, n);
    hc::array_sub(D, A, B);
    store(d, D);
}
VX_EXPORT void h_div(size_t n, double *a, double *b, double *d) {
    LD(A, a, n); LD(B, b, n); LD(D, d, n);
    hc::array_div(D, A, B);
    store(d, D);
}
VX_EXPORT void h_scale(size_t n, double *a, double s, double *d) {
    LV(A, a, n); LV(D, d, n);
    hc::array_scale(D, A, s);
    store(d, D);
}
VX_EXPORT void h_div_scale(size_t n, double *a, double s, double *d) {
    LV(A, a, n); LV(D, d, n);
    hc::array_div_scale(D, A, s);
    store(d, D);
}
VX_EXPORT void h_scale_add(size_t n, double *a, double *b, double s, double *d) {
    LD(A, a, n); LD(B, b, n); LD(D, d, n);
    hc::array_scale_add(D, A, B, s);
    store(d, D);
}
VX_EXPORT void h_scale_add2(size_t n, double *a, double s, double *b, double t, double *d) {
    LV(A, a, n); LV(B, b, n); LV(D, d, n);
    hc::array_scale_add(D, A, s, B, t);
    store(d, D);
}
VX_EXPORT void h_scale_sub(size_t n, double *a, double *b, double s, double *d) {
    LD(A, a, n); LD(B, b, n); LD(D, d, n);
    hc::array_scale_sub(D, A, B, s);
    store(d, D);
}
VX_EXPORT double h_sum(size_t n, double *a) { LD(A, a, n); return hc::array_sum(A); }
VX_EXPORT void h_advance(size_t n, double *d, double *a) {
    LV(D, d, n); LV(A, a, n);
    hc::array_advance(D, A);
    store(d, D);
}
VX_EXPORT void h_advance_s(size_t n, double *d, double *a, double s) {
    LV(D, d, n); LV(A, a, n);
    hc::array_advance(D, A, s);
    store(d, D);
}
VX_EXPORT void h_advance_to(size_t n, double *d, double *v, double *a, double s) {
    LV(D, d, n); LV(X, v, n); LV(A, a, n);
    hc::array_advance(D, X, A, s);
    store(d, D);
}
VX_EXPORT void h_retreat(size_t n, double *d, double *a) {
    LV(D, d, n); LV(A, a, n);
    hc::array_retreat(D, A);
    store(d, D);
}
VX_EXPORT void h_retreat_s(size_t n, double *d, double *a, double s) {
    LV(D, d, n); LV(A, a, n);
    hc::array_retreat(D, A, s);
    store(d, D);
}
VX_EXPORT void h_retreat_to(size_t n, double *d, double *v, double *a, double s) {
    LV(D, d, n); LV(X, v, n); LV(A, a, n);
    hc::array_retreat(D, X, A, s);
    store(d, D);
}
VX_EXPORT void h_coord_dot(size_t n, double *a, double *b, double *d) {
    LV(A, a, n); LV(B, b, n); LD(D, d, n);
    hc::coord_dot(D, A, B);
    store(d, D);
}
VX_EXPORT double h_contract(size_t n, double *c, double *a, double *b) {
    LD(C, c, n); LV(A, a, n); LV(B, b, n);
    return hc::coord_contract_to_scalar(C, A, B);
}
VX_EXPORT double h_contract1(size_t n, double *a, double *b) {
    LV(A, a, n); LV(B, b, n);
    return hc::coord_contract_to_scalar(A, B);
}
VX_EXPORT void h_com(size_t n, double *m, double *v, double *out) {
    LD(M, m, n); LV(A, v, n);
    auto c = hc::calc_com(M, A);
    out[0] = c.x; out[1] = c.y; out[2] = c.z;
}
VX_EXPORT double h_fall_free(size_t n, double *m, double *x) {
    LD(M, m, n); LV(A, x, n);
    return hc::calc_fall_free_time(M, A);
}
// compensated state arrays: the error terms are separate from the values
using KT = Types<hub::Kahan<double>>;
VX_EXPORT void h_load_err(size_t n, double *d, double *v, double *s, double *sv) {
    typename KT::StateScalarArray D; load(D, d, n);
    typename KT::StateVectorArray V; load(V, v, n);
    LD(S, s, n); LV(SV, sv, n);
    hc::array_load_err(D, S);
    hc::array_load_err(V, SV);
    store(d, D); store(v, V);
}
VX_EXPORT void h_save_err(size_t n, double *d, double *v, double *s, double *sv) {
    typename KT::StateScalarArray D; load(D, d, n);
    typename KT::StateVectorArray V; load(V, v, n);
    LD(S, s, n); LV(SV, sv, n);
    hc::array_save_err(S, D);
    hc::array_save_err(SV, V);
    store(s, S); store(sv, SV);
}
VX_EXPORT void h_copy_err(size_t n, double *d, double *v, double *s, double *sv) {
    typename KT::StateScalarArray D; load(D, d, n);
    typename KT::StateVectorArray V; load(V, v, n);
    typename KT::StateScalarArray S; load(S, s, n);
    typename KT::StateVectorArray SV; load(SV, sv, n);
    hc::array_copy_err(D, S);
    hc::array_copy_err(V, SV);
    store(d, D); store(v, V);
}
VX_EXPORT void h_err_zero(size_t n, double *d, double *v) {
    typename KT::StateScalarArray D; load(D, d, n);
    typename KT::StateVectorArray V; load(V, v, n);
    hc::array_set_err_zero(D);
    hc::array_set_err_zero(V);
    store(d, D); store(v, V);
}
