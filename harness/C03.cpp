#ifdef VP_PYTHON // C27: the auditory spaces of the Python module
#include "pyapi.hpp"
#else
#include <edsp/algorithm/linspace.hpp>
#include <edsp/algorithm/logspace.hpp>
#include <edsp/auditory/barkspace.hpp>
#include <edsp/auditory/centspace.hpp>
#include <edsp/auditory/erbspace.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/auditory/audspace.hpp>
#endif
#include "common.hpp"
#include "ref_auditory.hpp"
using namespace vp;

namespace {
    template <typename T>
    ld point(T x1, T x2, long n, long i) {
        return n == 1 ? static_cast<ld>(x1) : static_cast<ld>(x1) + (static_cast<ld>(x2) - x1) * static_cast<ld>(i) / static_cast<ld>(n - 1);
    }

#ifndef VP_PYTHON
    template <typename T>
    void linear(Src& s, Ctx& c) {
        const T x1 = static_cast<T>(s.real(-1000, 1000) * std::pow(10.0, s.range<int>(-3, 3)));
        const T x2 = static_cast<T>(s.one_in(10) ? x1 : s.real(-1000, 1000) * std::pow(10.0, s.range<int>(-3, 3)));
        const long n = s.one_in(20) ? -s.range<long>(0, 5) : static_cast<long>(len(s, 1, 3000, 200000));
        size_label(c, static_cast<std::size_t>(std::max(0L, n)));
        c.label(x1 < x2 ? "increasing" : x1 > x2 ? "decreasing" : "degenerate");
        c.nontrivial(n > 2 && x1 != x2);
        c.describe([&](auto& o) { o << "linspace<" << tname<T>() << ">(" << x1 << ", " << x2 << ", " << n << ")"; });
        Buf<T> out(static_cast<std::size_t>(std::max(0L, n)), static_cast<T>(std::nan("")));
        if (s.flip()) {
            edsp::algorithm::linspace(out.begin(), x1, x2, n);
        } else {
            edsp::algorithm::linspace(out.begin(), x1, x2, static_cast<int>(n));
        }
        if (n == 1) {
            VP_CHECK(out[0] == x1 || out[0] == x2, "a single point must be an end point, got " << out[0]);
            return;
        }
        const ld scale = std::max(std::abs(static_cast<ld>(x1)), std::abs(static_cast<ld>(x2)));
        for (long i = 0; i < n; ++i) {
            VP_CHECK(close(out[i], point(x1, x2, n, i), scale, 4), "linspace point " << i << " of " << n << " is " << out[i] << ", expected " << point(x1, x2, n, i));
        }
        if (n > 1) {
            VP_CHECK(out[0] == x1, "the first point is " << out[0] << ", expected exactly " << x1);
            VP_CHECK(out[n - 1] == x2, "the last point is " << out[n - 1] << ", expected exactly " << x2);
        }
    }

    template <typename T>
    void logarithmic(Src& s, Ctx& c) {
        const double m = std::is_same<T, float>::value ? 12 : 100;
        const T x1     = static_cast<T>(s.real(-m, m));
        const T x2     = static_cast<T>(s.one_in(10) ? x1 : s.real(-m, m));
        const long n   = s.one_in(20) ? -s.range<long>(0, 5) : static_cast<long>(len(s, 1, 2000, 100000));
        size_label(c, static_cast<std::size_t>(std::max(0L, n)));
        c.nontrivial(n > 2 && x1 != x2);
        c.describe([&](auto& o) { o << "logspace<" << tname<T>() << ">(" << x1 << ", " << x2 << ", " << n << ")"; });
        Buf<T> out(static_cast<std::size_t>(std::max(0L, n)), static_cast<T>(std::nan("")));
        edsp::algorithm::logspace(out.begin(), x1, x2, n);
        if (n == 1) {
            VP_CHECK(close(out[0], std::pow(10.0L, static_cast<ld>(x1)), 0, 8 * (1 + std::abs(x1))) || close(out[0], std::pow(10.0L, static_cast<ld>(x2)), 0, 8 * (1 + std::abs(x2))),
                     "a single point must be an end point, got " << out[0]);
            return;
        }
        const ld scale = std::max(std::abs(static_cast<ld>(x1)), std::abs(static_cast<ld>(x2)));
        for (long i = 0; i < n; ++i) {
            const ld e = std::pow(10.0L, point(x1, x2, n, i));
            VP_CHECK(close(out[i], e, 0, 8 + 24 * scale), "logspace point " << i << " of " << n << " is " << out[i] << ", expected " << e);
        }
    }

#endif
    template <typename T>
    void auditory(Src& s, Ctx& c) {
        const int kind = s.range<int>(0, 3);
        T f1           = static_cast<T>(s.real(kind == 3 ? 20 : 0, 24000));
        T f2           = static_cast<T>(s.real(kind == 3 ? 20 : 0, 24000));
        const bool generic = s.flip();
        const long n   = static_cast<long>(len(s, 2, 1500, 30000));
        static const char* names[] = {"mel", "erb", "bark", "cent"};
        size_label(c, static_cast<std::size_t>(n));
        c.label(names[kind]);
        c.label(generic ? "audspace" : "own generator");
        c.nontrivial(f1 != f2 && n > 2);
        c.describe([&](auto& o) { o << names[kind] << "space<" << tname<T>() << ">(" << f1 << ", " << f2 << ", " << n << ")" << (generic ? " via audspace" : ""); });
        Buf<T> out(static_cast<std::size_t>(n), static_cast<T>(std::nan("")));
#ifdef VP_PYTHON
        namespace au = pyauditory;
        if (false) {
#else
        namespace au = edsp::auditory;
        if (generic) {
            const au::auditory_scale scales[] = {au::auditory_scale::mel, au::auditory_scale::erb, au::auditory_scale::bark, au::auditory_scale::cent};
            au::audspace(out.begin(), f1, f2, n, scales[kind]);
#endif
        } else if (kind == 0) {
            au::melspace(out.begin(), out.end(), f1, f2);
        } else if (kind == 1) {
            au::erbspace(out.begin(), out.end(), f1, f2);
        } else if (kind == 2) {
            au::barkspace(out.begin(), out.end(), f1, f2);
        } else {
            au::centspace(out.begin(), out.end(), f1, f2);
        }
        for (long i = 0; i < n; ++i) {
            const ld f = point(f1, f2, n, i);
            const ld e = ref::to_scale(kind, f);
            // an error of a few ulp of the largest frequency, through the slope of the scale
            const ld h   = 8 * eps<T>() * std::max(static_cast<ld>(f1), static_cast<ld>(f2)) + 1e-30L;
            const ld var = std::max(std::abs(ref::to_scale(kind, f + h) - e), std::abs(e - ref::to_scale(kind, std::max(f - h, kind == 3 ? f / 2 : f - h))));
            const ld tol = 2 * var + 16 * eps<T>() * (std::abs(e) + (kind == 3 ? 12000 : 30));
            VP_CHECK(std::isfinite(out[i]) && std::abs(static_cast<ld>(out[i]) - e) <= tol, names[kind] << "space point " << i << " of " << n << " is " << out[i] << ", expected " << e << " +- " << tol);
        }
    }
} // namespace

#ifndef VP_PYTHON
VP_FAMILY("linspace", 60000, 600000, "N evenly spaced points including both ends, any direction, N from 0 to 2e5; non-trivial: N>2 and x1 != x2") { VP_DISPATCH(linear); }
VP_FAMILY("logspace", 30000, 300000, "powers of ten of evenly spaced exponents; non-trivial: N>2 and x1 != x2") { VP_DISPATCH(logarithmic); }
#endif
VP_FAMILY("auditory_space", 40000, 400000, "mel/erb/bark/cent spaces and the generic generator against the scale formula; non-trivial: N>2 and f1 != f2") { VP_DISPATCH(auditory); }
