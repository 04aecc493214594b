#include "vx.hpp"
#include "math.hpp"
#include "ode-iterator/step-controller/PID-controller.hpp"
#include "ode-iterator/step-controller/const-controller.hpp"
#include "ode-iterator/error-checker/RMS.hpp"
#include "ode-iterator/error-checker/max-ratio-error.hpp"
#include "ode-iterator/error-checker/worst-offender.hpp"
using namespace vx;
using PID = hub::ode::PIDController<T>;

VX_EXPORT double h_next(size_t order, double e) { PID p; return p.next(order, e); }
VX_EXPORT double h_next1(size_t order, double e) { PID p; return p.next(order, std::make_tuple(e)); }
VX_EXPORT double h_next2(size_t order, double e, double e0) { PID p; return p.next(order, std::make_tuple(e, e0)); }
VX_EXPORT double h_nextlim1(size_t order, double e) { PID p; return p.next_with_limiter(order, std::make_tuple(e)); }
VX_EXPORT double h_nextlim2(size_t order, double e, double e0) { PID p; return p.next_with_limiter(order, std::make_tuple(e, e0)); }
VX_EXPORT void h_limiter(size_t order, double x, double *out) {
    PID p;
    out[0] = p.limiter(order, x); out[1] = p.limiter_min(order); out[2] = p.limiter_max(order);
    out[3] = p.limiter(x); out[4] = p.limiter_min(); out[5] = p.limiter_max();
}
VX_EXPORT double h_setpid(size_t order, double e, double e0, double kp, double ki, double kd, double s1, double s2) {
    PID p;
    p.set_PID_coefficients(kp, ki, kd);
    p.set_safe_guards(s1, s2);
    return p.next(order, std::make_tuple(e, e0));
}
VX_EXPORT void h_setlimiter(size_t order, double s3, double s4, double x, double *out) {
    PID p;
    p.set_limiter(s3, s4);
    out[0] = p.limiter(order, x); out[1] = p.limiter_min(order); out[2] = p.limiter_max(order);
    out[3] = p.limiter(x);
}

#define ERRS(name, Cls)                                                                                              \
    VX_EXPORT double h_##name##3(size_t n, double *y0, double *y1, double *y2, double at, double rt) {                \
        hub::ode::Cls<T> e(at, rt);                                                                                   \
        typename T::ScalarArray a, b, c; load(a, y0, n); load(b, y1, n); load(c, y2, n);                              \
        return e.error(a, b, c);                                                                                      \
    }                                                                                                                 \
    VX_EXPORT void h_##name##_set(double at, double rt, double *out) {                                                \
        hub::ode::Cls<T> e; e.set_atol(at); e.set_rtol(rt);                                                           \
        out[0] = e.atol(); out[1] = e.rtol();                                                                         \
        hub::ode::Cls<T> g(at, rt); out[2] = g.atol(); out[3] = g.rtol();                                             \
    }
#define ERRS2(name, Cls)                                                                                              \
    VX_EXPORT double h_##name##2(size_t n, double *y0, double *y1, double at, double rt) {                            \
        hub::ode::Cls<T> e(at, rt);                                                                                   \
        typename T::ScalarArray a, b; load(a, y0, n); load(b, y1, n);                                                 \
        return e.error(a, b);                                                                                         \
    }
ERRS(rms, RMS)
ERRS(ratio, MaxRatioError)
ERRS(worst, WorstOffender)
ERRS2(ratio, MaxRatioError)
ERRS2(worst, WorstOffender)
VX_EXPORT double h_ratio3v(size_t n, double *y0, double *y1, double *y2, double at, double rt) {
    hub::ode::MaxRatioError<T> e(at, rt);
    typename T::VectorArray a, b, c; load(a, y0, n); load(b, y1, n); load(c, y2, n);
    return e.error(a, b, c);
}
VX_EXPORT double h_worst2v(size_t n, double *y0, double *y1, double at, double rt) {
    hub::ode::WorstOffender<T> e(at, rt);
    typename T::VectorArray a, b; load(a, y0, n); load(b, y1, n);
    return e.error(a, b);
}
