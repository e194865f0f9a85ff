// Analogue prototypes and response measurement for designed filters. Frequencies are in cycles per sample.
#pragma once
#include "common.hpp"
#include <complex>
namespace flt {
    using vp::ld;
    using C              = std::complex<ld>;
    static const ld PI   = 3.14159265358979323846264338327950288L;

    // Response of one section at frequency f, with a bound on what rounding its six coefficients can do to it.
    struct Response {
        C h{1, 0};
        ld rel{0}; // relative error bound, in units of eps, while small
        ld abs{0}; // absolute error bound, in units of eps
    };
    template <typename B>
    Response section(const B& b, ld f) {
        const C z1 = std::polar<ld>(1, -2 * PI * f), z2 = std::polar<ld>(1, -4 * PI * f);
        const C n  = C(b.b0(), 0) + z1 * static_cast<ld>(b.b1()) + z2 * static_cast<ld>(b.b2());
        const C d  = C(b.a0(), 0) + z1 * static_cast<ld>(b.a1()) + z2 * static_cast<ld>(b.a2());
        const ld sn = std::abs(static_cast<ld>(b.b0())) + std::abs(static_cast<ld>(b.b1())) + std::abs(static_cast<ld>(b.b2()));
        const ld sd = std::abs(static_cast<ld>(b.a0())) + std::abs(static_cast<ld>(b.a1())) + std::abs(static_cast<ld>(b.a2()));
        Response r;
        r.h   = n / d;
        r.abs = (sn + std::abs(r.h) * sd) / std::abs(d);
        return r;
    }
    // bilinear transform: analogue frequency s/j of a corner normalised to one
    inline ld warp(ld f, ld fc) {
        return std::tan(PI * f) / std::tan(PI * fc);
    }
} // namespace flt
