#include "vx.hpp"
#include "math.hpp"
using namespace vx;
static V3 ld(double const *p) { return V3(p[0], p[1], p[2]); }
static void st(double *o, V3 const &v) { o[0] = v.x; o[1] = v.y; o[2] = v.z; }

// binary vector operations: a op b -> out[0..3), compound form -> out[3..6), operands afterwards
#define BIN(name, op)                                                  \
    VX_EXPORT void h_##name(double *a, double *b, double *out) {        \
        V3 A = ld(a), B = ld(b);                                        \
        st(out, A op B);                                                \
        st(a, A); st(b, B);                                             \
        A op## = B;                                                     \
        st(out + 3, A);                                                 \
    }
VX_EXPORT void h_add(double *a, double *b, double *out) { V3 A = ld(a), B = ld(b); st(out, A + B); st(a, A); st(b, B); A += B; st(out + 3, A); st(out + 6, B); }
VX_EXPORT void h_sub(double *a, double *b, double *out) { V3 A = ld(a), B = ld(b); st(out, A - B); st(a, A); st(b, B); A -= B; st(out + 3, A); st(out + 6, B); }
VX_EXPORT void h_mul(double *a, double *b, double *out) { V3 A = ld(a), B = ld(b); st(out, A * B); st(a, A); st(b, B); A *= B; st(out + 3, A); st(out + 6, B); }
VX_EXPORT void h_div(double *a, double *b, double *out) { V3 A = ld(a), B = ld(b); st(out, A / B); st(a, A); st(b, B); A /= B; st(out + 3, A); st(out + 6, B); }
// vector and scalar: v op c, compound, c op v
VX_EXPORT void h_adds(double *a, double c, double *out) { V3 A = ld(a); st(out, A + c); st(out + 6, c + A); A += c; st(out + 3, A); }
VX_EXPORT void h_subs(double *a, double c, double *out) { V3 A = ld(a); st(out, A - c); st(out + 6, c - A); A -= c; st(out + 3, A); }
VX_EXPORT void h_muls(double *a, double c, double *out) { V3 A = ld(a); st(out, A * c); st(out + 6, c * A); A *= c; st(out + 3, A); }
VX_EXPORT void h_divs(double *a, double c, double *out) { V3 A = ld(a); st(out, A / c); st(out + 6, c / A); A /= c; st(out + 3, A); }
// self-aliasing compound assignment
VX_EXPORT void h_self(double *a, double *out) {
    V3 A = ld(a); A += A; st(out, A);
    V3 B = ld(a); B -= B; st(out + 3, B);
    V3 C = ld(a); C *= C; st(out + 6, C);
    V3 D = ld(a); D /= D; st(out + 9, D);
}
VX_EXPORT void h_misc(double *a, double c, double *out) {
    V3 A = ld(a);
    st(out, -A);
    st(out + 3, A.abs());
    st(out + 6, vec_abs(A));
    V3 B(c); st(out + 9, B);
    V3 C; C = c; st(out + 12, C);
    V3 D; st(out + 15, D);
    V3 E = A; st(out + 18, E);
    V3 F; F = A; st(out + 21, F);
    out[24] = A.norm(); out[25] = A.norm2(); out[26] = norm(A); out[27] = norm2(A);
    out[28] = A.re_norm(); out[29] = re_norm(A); out[30] = A.max_component(); out[31] = max_abs(A);
}
VX_EXPORT void h_two(double *a, double *b, double *out) {
    V3 A = ld(a), B = ld(b);
    out[0] = distance(A, B); out[1] = dot(A, B);
    st(out + 2, cross(A, B));
    st(out + 5, vec_max(A, B));
    st(out + 8, vec_min(A, B));
}
VX_EXPORT void h_laws(double *a, double *b, double *c, double s, double *out) {
    V3 A = ld(a), B = ld(b), C = ld(c);
    out[0] = dot(cross(A, B), A); out[1] = dot(cross(A, B), B);
    st(out + 2, cross(A, B) + cross(B, A));
    out[5] = dot(A, cross(B, C)); out[6] = dot(cross(A, B), C);
    st(out + 7, cross(A, cross(B, C)) - (B * dot(A, C) - C * dot(A, B)));
    out[10] = norm2(A * s); out[11] = norm(A * s); 
    out[12] = distance(A, B); out[13] = distance(B, A); out[14] = norm(A - B);
}
// math helpers
VX_EXPORT void h_math(double x, double y, double z, double *out) {
    namespace m = hub::math;
    out[0] = m::min(x, y); out[1] = m::max(x, y); out[2] = m::abs(x);
    out[3] = m::in_range(x, y, z); out[4] = m::step(x); out[5] = m::sign(x);
    out[6] = m::karmack_sqrt_inv(x);
}
VX_EXPORT int h_iseq(double x, double y) { return hub::math::iseq(x, y); }
VX_EXPORT void h_imath(size_t x, size_t y, size_t z, size_t *out) {
    namespace m = hub::math;
    out[0] = m::min(x, y); out[1] = m::max(x, y); out[2] = m::in_range(x, y, z);
}
VX_EXPORT void h_consts(double *out) {
    namespace m = hub::math;
    out[0] = m::epsilon_v<double>; out[1] = m::max_value_v<double> / 1e308; out[2] = m::big_value_v<double> / m::max_value_v<double>;
}

VX_EXPORT double h_bisect(double lo, double hi, double c) {
    return hub::math::root_bisection([c](double x) { return vx_uf1(0, x) - c; }, lo, hi);
}
