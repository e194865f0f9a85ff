#include "common.hpp"
#include <edsp/converter/complex2real.hpp>
#include <edsp/converter/db2mag.hpp>
#include <edsp/converter/db2pow.hpp>
#include <edsp/math/constant.hpp>
#include <edsp/converter/deg2rad.hpp>
#include <edsp/converter/mag2db.hpp>
#include <edsp/converter/peak2peak.hpp>
#include <edsp/converter/peak2rms.hpp>
#include <edsp/converter/pow2db.hpp>
#include <edsp/converter/rad2deg.hpp>
#include <edsp/converter/real2complex.hpp>
using namespace vp;
namespace cv = edsp::converter;

namespace {
    const ld PI = 3.14159265358979323846264338327950288L;

    template <typename T>
    void decibel(Src& s, Ctx& c) {
        const double range = std::is_same<T, float>::value ? 30 : 290;
        const bool power   = s.flip();
        if (s.flip()) { // to decibels and back
            T x;
            switch (s.draw(3)) {
                case 0:
                    x = static_cast<T>(std::pow(10.0, s.uniform(-range, range)));
                    break;
                case 1:
                    x = static_cast<T>(s.range<int>(1, 100000));
                    break;
                case 2:
                    x = static_cast<T>(1) + static_cast<T>(s.range<int>(-50, 50)) * std::numeric_limits<T>::epsilon();
                    break;
                default:
                    x = static_cast<T>(std::pow(10.0, s.range<int>(static_cast<int>(-range), static_cast<int>(range))));
            }
            if (!(x > 0)) {
                throw Discard{};
            }
            c.label(power ? "pow2db" : "mag2db");
            c.nontrivial(x != 1);
            c.describe([&](auto& o) { o << (power ? "pow2db<" : "mag2db<") << tname<T>() << ">(" << x << ")"; });
            const T got = power ? cv::pow2db(x) : cv::mag2db(x);
            const ld e  = (power ? 10 : 20) * std::log10(static_cast<ld>(x));
            require_close(power ? "pow2db" : "mag2db", got, e, 0, 6);
            const T back = power ? cv::db2pow(got) : cv::db2mag(got);
            require_close("db round trip", back, static_cast<ld>(x), 0, 8 + 2 * std::abs(e) * 0.24L);
            const T y = x * (1 + 64 * std::numeric_limits<T>::epsilon());
            if (std::isfinite(y)) {
                VP_CHECK((power ? cv::pow2db(y) : cv::mag2db(y)) >= got, "decibel conversion is not monotonic at " << x);
            }
        } else {
            const T db = static_cast<T>(s.real(-range, range) * (power ? 10 : 20));
            c.label(power ? "db2pow" : "db2mag");
            c.nontrivial(db != 0);
            c.describe([&](auto& o) { o << (power ? "db2pow<" : "db2mag<") << tname<T>() << ">(" << db << ")"; });
            const T got = power ? cv::db2pow(db) : cv::db2mag(db);
            const ld ex = static_cast<ld>(db) / (power ? 10 : 20);
            require_close(power ? "db2pow" : "db2mag", got, std::pow(10.0L, ex), 0, 6 + 3 * std::abs(ex));
            const T back = power ? cv::pow2db(got) : cv::mag2db(got);
            if (got > std::numeric_limits<T>::min() && std::isfinite(got)) {
                require_close("db round trip", back, static_cast<ld>(db), 10, 16 + 3 * std::abs(ex));
            }
        }
    }

    template <typename T>
    void angle(Src& s, Ctx& c) {
        const T x = static_cast<T>(s.flip() ? s.range<int>(-24, 24) * 30 : s.real(-1e4, 1e4) * std::pow(10.0, s.range<int>(-20, 20)));
        c.nontrivial(x != 0);
        c.describe([&](auto& o) { o << "deg2rad/rad2deg<" << tname<T>() << ">(" << x << ")"; });
        require_close("deg2rad", cv::deg2rad(x), static_cast<ld>(x) * PI / 180, 0, 4);
        require_close("rad2deg", cv::rad2deg(x), static_cast<ld>(x) / PI * 180, 0, 4);
        require_close("rad2deg(deg2rad)", cv::rad2deg(cv::deg2rad(x)), static_cast<ld>(x), 0, 6);
        require_close("deg2rad(rad2deg)", cv::deg2rad(cv::rad2deg(x)), static_cast<ld>(x), 0, 6);
    }

    template <typename T>
    void peaks(Src& s, Ctx& c) {
        const double amp = std::pow(10.0, s.range<int>(-5, 5));
        auto v           = signal<T>(s, len(s, 1), amp);
        switch (s.draw(3)) {
            case 0:
                for (auto& x : v) {
                    x = std::abs(x);
                }
                c.label("non-negative");
                break;
            case 1:
                for (auto& x : v) {
                    x = -std::abs(x);
                }
                c.label("non-positive");
                break;
            default:
                c.label("mixed");
        }
        ld mx = v[0], mn = v[0], ss = 0;
        for (auto x : v) {
            mx = std::max(mx, static_cast<ld>(x));
            mn = std::min(mn, static_cast<ld>(x));
            ss += static_cast<ld>(x) * x;
        }
        size_label(c, v.size());
        c.nontrivial(v.size() > 1 && mx != mn);
        c.describe([&](auto& o) { o << "peak2peak/peak2rms<" << tname<T>() << "> " << show(v); });
        Buf<T> b(v);
        require_close("peak2peak", cv::peak2peak(b.cbegin(), b.cend()), mx - mn, 0, 2);
        if (ss > 0) {
            require_close("peak2rms", cv::peak2rms(b.cbegin(), b.cend()), std::max(std::abs(mx), std::abs(mn)) / std::sqrt(ss / static_cast<ld>(v.size())), 0, 8 + static_cast<ld>(v.size()));
        }
        require_unchanged(b, v);
    }

    template <typename T>
    void complexes(Src& s, Ctx& c) {
        const auto n  = len(s, 0);
        const auto re = signal<T>(s, n), im = signal<T>(s, n);
        size_label(c, n);
        c.nontrivial(n > 1);
        c.describe([&](auto& o) { o << "real2complex/complex2real<" << tname<T>() << "> re " << show(re) << " im " << show(im); });
        Buf<T> r(re), i(im), r2(n, static_cast<T>(-77)), i2(n, static_cast<T>(-77));
        Buf<std::complex<T>> z(n, std::complex<T>(-77, -77));
        cv::real2complex(r.cbegin(), r.cend(), i.cbegin(), z.begin());
        for (std::size_t k = 0; k < n; ++k) {
            VP_CHECK(z[k].real() == re[k] && z[k].imag() == im[k], "merged element " << k << " is " << z[k] << ", expected (" << re[k] << "," << im[k] << ")");
        }
        cv::complex2real(z.cbegin(), z.cend(), r2.begin(), i2.begin());
        for (std::size_t k = 0; k < n; ++k) {
            VP_CHECK(r2[k] == re[k] && i2[k] == im[k], "split element " << k << " is (" << r2[k] << "," << i2[k] << "), expected (" << re[k] << "," << im[k] << ")");
        }
        Buf<std::complex<T>> w(n, std::complex<T>(-77, -77));
        cv::real2complex(r.cbegin(), r.cend(), w.begin());
        for (std::size_t k = 0; k < n; ++k) {
            VP_CHECK(w[k].real() == re[k] && w[k].imag() == 0, "promoted element " << k << " is " << w[k] << ", expected " << re[k]);
        }
        require_unchanged(r, re);
        require_unchanged(i, im);
    }
} // namespace

VP_FAMILY("decibel", 400000, 4000000, "dB to/from magnitude and power against log10/pow, round trips, monotonicity; non-trivial: not the neutral element") { VP_DISPATCH(decibel); }
VP_FAMILY("angle", 200000, 2000000, "degrees and radians, round trips; non-trivial: non-zero") { VP_DISPATCH(angle); }
VP_FAMILY("peaks", 80000, 800000, "peak to peak and peak to RMS of non-negative, non-positive and mixed data; non-trivial: n>1, not constant") { VP_DISPATCH(peaks); }
VP_FAMILY("complex", 60000, 600000, "merge and split of complex data in all overloads; non-trivial: n>1") { VP_DISPATCH(complexes); }
