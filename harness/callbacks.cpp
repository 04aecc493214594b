#include "vx.hpp"
#include <fstream>
#include <iomanip>
#include "interaction/interaction.hpp"
#include "core-computation.hpp"
#include "dev-tools.hpp"
#define private public
#include "args-callback/callbacks.hpp"
#undef private
using namespace vx;
namespace cb = hub::callback;

// the particle system seen by callbacks: only its time is read; `mark` tells it apart from a copy
struct Sys {
    using Scalar = double;
    double t, mark;
    double time() const { return t; }
};
// the wrapped operation: out[0] counts calls, out[1] last step size, out[2] the mark seen, out[3] the time seen
struct OpV {
    double *out;
    void operator()(Sys &p, double h) {
        out[0] += 1;
        out[1] = h;
        out[2] = p.mark;
        out[3] = p.t;
        p.mark = 2 * p.mark + 1;
    }
};
struct OpB {
    double *out;
    bool operator()(Sys &p, double h) {
        OpV{out}(p, h);
        return h > p.t;
    }
};
template <template <class, class> class S, class Op>
S<Op, double> mk(double *out, double ot, double end, double iv) {
    S<Op, double> s;
    s.opt_.out = out;
    s.opt_time_ = ot;
    s.end_time_ = end;
    s.opt_interval_ = iv;
    return s;
}
template <class S>
void dump(S const &s, Sys const &p, double *st) {
    st[0] = s.opt_time_;
    st[1] = s.end_time_;
    st[2] = s.opt_interval_;
    st[4] = p.mark;
    st[5] = p.t;
}
VX_EXPORT void h_time_v(double ot, double end, double iv, double t, double h, double mark, double *out, double *st) {
    auto s = mk<cb::TimeSlice, OpV>(out, ot, end, iv);
    Sys p{t, mark};
    s(p, h);
    dump(s, p, st);
}
VX_EXPORT int h_time_b(double ot, double end, double iv, double t, double h, double mark, double *out, double *st) {
    auto s = mk<cb::TimeSlice, OpB>(out, ot, end, iv);
    Sys p{t, mark};
    bool r = s(p, h);
    dump(s, p, st);
    return r;
}
VX_EXPORT void h_time_ctor(double start, double end, size_t num, double start2, double end2, size_t num2, double *st) {
    cb::TimeSlice<OpV, double> s(OpV{st}, start, end, num);
    Sys p{0, 0};
    dump(s, p, st);
    s.reset_slice_params(start2, end2, num2);
    dump(s, p, st + 6);
}
// a whole history of calls at times t[0..n-1]
VX_EXPORT void h_time_run(size_t n, double *t, double ot, double end, double iv, double *out, double *st) {
    auto s = mk<cb::TimeSlice, OpV>(out, ot, end, iv);
    Sys p{0, 0};
    for (size_t i = 0; i < n; ++i) {
        p.t = t[i];
        s(p, t[i]);
    }
    dump(s, p, st);
}
VX_EXPORT void h_log_v(double ot, double start, double end, double iv, double t, double h, double mark, double *out, double *st) {
    auto s = mk<cb::LogTimeSlice, OpV>(out, ot, end, iv);
    s.start_time_ = start;
    Sys p{t, mark};
    s(p, h);
    dump(s, p, st);
    st[3] = s.start_time_;
}
VX_EXPORT int h_log_b(double ot, double start, double end, double iv, double t, double h, double mark, double *out, double *st) {
    auto s = mk<cb::LogTimeSlice, OpB>(out, ot, end, iv);
    s.start_time_ = start;
    Sys p{t, mark};
    bool r = s(p, h);
    dump(s, p, st);
    st[3] = s.start_time_;
    return r;
}
VX_EXPORT void h_log_ctor(double start, double end, size_t num, double start2, double end2, size_t num2, double *st) {
    cb::LogTimeSlice<OpV, double> s(OpV{st}, start, end, num);
    Sys p{0, 0};
    dump(s, p, st);
    st[3] = s.start_time_;
    s.reset_slice_params(start2, end2, num2);
    dump(s, p, st + 6);
    st[9] = s.start_time_;
}
VX_EXPORT size_t h_step_v(size_t step, size_t iv, double t, double h, double mark, double *out, double *st) {
    cb::StepSlice<OpV> s(OpV{out}, iv);
    s.step_ = step;
    Sys p{t, mark};
    s(p, h);
    st[4] = p.mark;
    st[5] = p.t;
    return s.step_;
}
VX_EXPORT size_t h_step_b(size_t step, size_t iv, double t, double h, double mark, double *out, double *st, double *r) {
    cb::StepSlice<OpB> s(OpB{out}, iv);
    s.step_ = step;
    Sys p{t, mark};
    r[0] = s(p, h);
    st[4] = p.mark;
    st[5] = p.t;
    return s.step_;
}
VX_EXPORT void h_step_ctor(size_t iv, size_t iv2, size_t *st) {
    cb::StepSlice<OpV> s(OpV{nullptr}, iv);
    st[0] = s.step_;
    st[1] = s.step_interval_;
    s.step_ = 17;
    s.reset_slice_params(iv2);
    st[2] = s.step_;
    st[3] = s.step_interval_;
}
// a whole history: log[i] counts whether call i fired
struct OpC {
    double *c;
    void operator()(Sys &, double) { c[0] += 1; }
};
VX_EXPORT void h_step_run(size_t n, size_t iv, double *log) {
    double cell[1];
    cb::StepSlice<OpC> s(OpC{cell}, iv);
    Sys p{0, 0};
    for (size_t i = 0; i < n; ++i) {
        cell[0] = 0;
        s(p, 0.0);
        log[i] = cell[0];
    }
}
