// samplers (rand-generator.hpp)
#include "vx.hpp"
#include "vxrand.hpp"
namespace rn = hub::random;
static void start(double *u) { vx_draws = u, vx_drawn = 0; }
VX_EXPORT double h_uniform(double lo, double hi, double *u) { start(u); return rn::Uniform(lo, hi); }
VX_EXPORT double h_logarithm(double lo, double hi, double *u) { start(u); return rn::Logarithm(lo, hi); }
VX_EXPORT double h_powerlaw(double p, double lo, double hi, double *u) { start(u); return rn::PowerLaw(p, lo, hi); }
VX_EXPORT double h_normal(double mean, double sigma, double *u) { start(u); return rn::Normal(mean, sigma); }
VX_EXPORT double h_maxwellian(double sigma, double *u) { start(u); return rn::Maxwellian(sigma); }
static void start(double *u, size_t n) {
    start(u);
#ifdef VX_NATIVE
    vx_draw_num = n;
#endif
}
VX_EXPORT double h_tnormal(double lo, double hi, double mean, double sigma, size_t n, double *u, size_t *k) {
    start(u, n);
    double r = rn::TruncatedNormal(lo, hi, mean, sigma);
    *k = vx_drawn;
    return r;
}
VX_EXPORT double h_tmaxwellian(double lo, double hi, double sigma, size_t n, double *u, size_t *k) {
    start(u, n);
    double r = rn::TruncatedMaxwellian(lo, hi, sigma);
    *k = vx_drawn;
    return r;
}
VX_EXPORT double h_fixed(double x) { return rn::Fixed(x); }
VX_EXPORT void h_normal2(double rmin, size_t n, double *u, double *o, size_t *k) {
    start(u, n);
    auto [a, b] = rn::Normal2(rmin);
    o[0] = a, o[1] = b;
    *k = vx_drawn;
}
// a parameter with a distribution and boundaries
VX_EXPORT double h_parameter(double lo, double hi, double a, double b, size_t n, double *u, size_t *k) {
    start(u, n);
    rn::Parameter p(rn::Uniform, a, b);
    p.set_boundary(lo, hi);
    double r = p.draw();
    *k = vx_drawn;
    return r;
}
