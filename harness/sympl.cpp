#include "vx.hpp"
#include "math.hpp"
#include "integrator/symplectic/symplectic-integrator.hpp"
using namespace vx;
// records the sequence of drifts (even slots) and kicks (odd slots) an integrator asks for
struct RecordSys {
    using Scalar = double;
    double *log;
    size_t n{0};
    void drift(double h) { log[2 * n] = h; log[2 * n + 1] = 0; ++n; }
    void kick(double h) { log[2 * n] = 0; log[2 * n + 1] = h; ++n; }
    double step_scale() const { return 1; }
};
#define SYMPL(name, Cls)                                                           \
    VX_EXPORT size_t h_##name(double h, double *log) {                             \
        RecordSys s{log};                                                          \
        hub::integrator::Cls<T> it;                                                \
        it.integrate(s, h);                                                        \
        return s.n;                                                                \
    }                                                                              \
    VX_EXPORT void h_##name##_unit(double h, double *log, double *unit) {          \
        RecordSys s{log}, u{unit};                                                 \
        hub::integrator::Cls<T> it;                                                \
        it.integrate(s, h);                                                        \
        it.integrate(u, 1.0);                                                      \
    }                                                                              \
    VX_EXPORT size_t h_##name##_order() { return hub::integrator::Cls<T>::order; }
SYMPL(dkd, LeapFrogDKD)
SYMPL(kdk, LeapFrogKDK)
SYMPL(s2, Symplectic2nd)
SYMPL(s4, Symplectic4th)
SYMPL(s6, Symplectic6th)
SYMPL(s8, Symplectic8th)
SYMPL(s10, Symplectic10th)
