// contract of the standard library's random engines and distributions: every draw is an arbitrary
// number of the range of the distribution, taken from the sequence vx_draws[0], vx_draws[1], ...
//   uniform(lo, hi): lo + (hi - lo) * u     normal(mean, sigma): mean + sigma * z
#pragma once
#include <cmath>
#include <functional>
#include <random>
#include <cstdlib>
static double *vx_draws;
static size_t vx_drawn;
#ifdef VX_NATIVE
static size_t vx_draw_num = size_t(1) << 40;
inline double vx_draw() {
    if (vx_drawn >= vx_draw_num) exit(0);   // replay: the sample has no further draw
    return vx_draws[vx_drawn++];
}
#else
inline double vx_draw() { return vx_draws[vx_drawn++]; }
#endif
namespace std {
    struct vx_device {
        constexpr unsigned operator()() const { return 1; }
    };
    struct vx_engine {
        constexpr vx_engine() = default;
        constexpr explicit vx_engine(unsigned) {}
    };
    template <class R>
    struct vx_uniform {
        R lo, hi;
        vx_uniform(R a, R b) : lo(a), hi(b) {}
        template <class G>
        R operator()(G &) const { return lo + (hi - lo) * vx_draw(); }
    };
    template <class R>
    struct vx_normal {
        R mean, sigma;
        vx_normal(R a, R b) : mean(a), sigma(b) {}
        template <class G>
        R operator()(G &) const { return mean + sigma * vx_draw(); }
    };
}  // namespace std
#include "type-class.hpp"
#include "math.hpp"
#include "multi-thread/multi-thread.hpp"
#define random_device vx_device
#define mt19937 vx_engine
#define uniform_real_distribution vx_uniform
#define normal_distribution vx_normal
#include "rand-generator.hpp"
#undef random_device
#undef mt19937
#undef uniform_real_distribution
#undef normal_distribution
