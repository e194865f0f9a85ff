#include "common.hpp"
#include <edsp/statistics/generalized_mean.hpp>
#include <edsp/statistics/geometric_mean.hpp>
#include <edsp/statistics/harmonic_mean.hpp>
#include <edsp/statistics/kurtosis.hpp>
#include <edsp/statistics/max.hpp>
#include <edsp/statistics/mean.hpp>
#include <edsp/statistics/median.hpp>
#include <edsp/statistics/min.hpp>
#include <edsp/statistics/moment.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/statistics/norm.hpp>
#include <edsp/statistics/peak.hpp>
#include <edsp/statistics/skewness.hpp>
#include <edsp/statistics/variance.hpp>
#include "ref_stats.hpp"
using namespace vp;
namespace st = edsp::statistics;

namespace {
    template <typename T>
    std::vector<T> data(Src& s, Ctx& c, long lo = 1, int power = 2) {
        const auto n  = len(s, lo);
        auto v        = signal<T>(s, n, magnitude<T>(s, -3, 4, power));
        switch (s.draw(4)) {
            case 0: {
                const T off = static_cast<T>(s.real(-100, 100));
                for (auto& x : v) {
                    x += off;
                }
                c.label("offset");
                break;
            }
            case 1:
                std::sort(v.begin(), v.end());
                if (s.flip()) {
                    std::reverse(v.begin(), v.end());
                }
                c.label("sorted");
                break;
            case 2:
                for (auto& x : v) {
                    x = -std::abs(x);
                }
                c.label("non-positive");
                break;
            default:
                break;
        }
        size_label(c, n);
        return v;
    }
    template <typename T>
    bool varied(const std::vector<T>& v) {
        return v.size() > 1 && *std::max_element(v.begin(), v.end()) != *std::min_element(v.begin(), v.end());
    }

    template <typename T>
    void moments(Src& s, Ctx& c) {
        const auto v = data<T>(s, c, 1, 8);
        c.nontrivial(varied(v));
        c.describe([&](auto& o) { o << "moments<" << tname<T>() << "> of " << show(v); });
        Buf<T> b(v);
        const auto m = st::mean(b.cbegin(), b.cend());
        require_within("mean", m, {ref::mean(v), ref::mean_bound(v)});
        require_within("variance", st::variance(b.cbegin(), b.cend()), ref::central(v, 2));
        {
            const auto e = ref::central(v, 2);
            const T sd   = st::standard_deviation(b.cbegin(), b.cend());
            VP_CHECK(sd >= 0 && std::abs(static_cast<ld>(sd) * sd - e.value) <= e.bound + 8 * eps<T>() * e.value, "standard deviation " << sd << ", expected " << std::sqrt(e.value));
        }
        require_within("moment 1", st::moment<1>(b.cbegin(), b.cend()), ref::central(v, 1));
        require_within("moment 3", st::moment<3>(b.cbegin(), b.cend()), ref::central(v, 3));
        require_within("moment 4", st::moment<4>(b.cbegin(), b.cend()), ref::central(v, 4));
        require_within("moment 5", st::moment<5>(b.cbegin(), b.cend()), ref::central(v, 5));
        require_within("moment 6", st::moment<6>(b.cbegin(), b.cend()), ref::central(v, 6));
        const T about = static_cast<T>(s.real(-10, 10));
        require_within("moment 2 about a point", st::moment<2>(b.cbegin(), b.cend(), about), ref::moment(v, 2, about, 0));
        require_within("moment 3 about a point", st::moment<3>(b.cbegin(), b.cend(), about), ref::moment(v, 3, about, 0));
        ref::Est e;
        if (ref::standardized(v, 3, e)) {
            c.label("standardised");
            require_within("skewness", st::skewness(b.cbegin(), b.cend()), e);
            ref::standardized(v, 4, e);
            require_within("kurtosis", st::kurtosis(b.cbegin(), b.cend()), e);
        }
        require_unchanged(b, v);
    }

    template <typename T>
    void order(Src& s, Ctx& c) {
        const auto v = data<T>(s, c);
        c.nontrivial(varied(v));
        c.label(v.size() % 2 ? "odd" : "even");
        c.describe([&](auto& o) { o << "order statistics<" << tname<T>() << "> of " << show(v); });
        std::size_t imax = 0, imin = 0, iabs = 0, imabs = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
            imax  = v[i] > v[imax] ? i : imax;
            imin  = v[i] < v[imin] ? i : imin;
            iabs  = std::abs(v[i]) > std::abs(v[iabs]) ? i : iabs;
            imabs = std::abs(v[i]) < std::abs(v[imabs]) ? i : imabs;
        }
        Buf<T> b(v);
        VP_CHECK(st::max(b.cbegin(), b.cend()) == v[imax], "max is " << st::max(b.cbegin(), b.cend()) << ", expected " << v[imax]);
        VP_CHECK(st::min(b.cbegin(), b.cend()) == v[imin], "min is " << st::min(b.cbegin(), b.cend()) << ", expected " << v[imin]);
        VP_CHECK(st::maxabs(b.cbegin(), b.cend()) == std::abs(v[iabs]), "maxabs is " << st::maxabs(b.cbegin(), b.cend()) << ", expected " << std::abs(v[iabs]));
        VP_CHECK(st::minabs(b.cbegin(), b.cend()) == std::abs(v[imabs]), "minabs is " << st::minabs(b.cbegin(), b.cend()) << ", expected " << std::abs(v[imabs]));
        const auto p = st::peak(b.cbegin(), b.cend());
        VP_CHECK(p.first == static_cast<long>(imax) && p.second == v[imax], "peak is (" << p.first << ", " << p.second << "), expected (" << imax << ", " << v[imax] << ")");
        const auto q = st::peakabs(b.cbegin(), b.cend());
        VP_CHECK(q.first == static_cast<long>(iabs) && q.second == v[iabs], "peak of the magnitude is (" << q.first << ", " << q.second << "), expected (" << iabs << ", " << v[iabs] << ")");
        const ld m = ref::median(v);
        require_close("median", st::median(b.cbegin(), b.cend()), m, max_abs(v), 2);
        require_unchanged(b, v);
    }

    template <typename T>
    void means(Src& s, Ctx& c) {
        const auto n = len(s, 1);
        auto v       = positive_signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        const ld nn  = static_cast<ld>(n);
        size_label(c, n);
        c.nontrivial(varied(v));
        int beta = s.range<int>(1, 6) * (s.flip() ? 1 : -1);
        if (beta > 0 && beta % 2 == 0 && s.flip()) { // an even power accepts any sign
            for (std::size_t i = 0; i < n; i += 2) {
                v[i] = -v[i];
            }
            c.label("mixed signs");
        } else {
            ld lg = 0, lga = 0, inv = 0;
            for (auto x : v) {
                lg += std::log(static_cast<ld>(x));
                lga += std::abs(std::log(static_cast<ld>(x)));
                inv += 1 / static_cast<ld>(x);
            }
            Buf<T> b(v);
            c.describe([&](auto& o) { o << "geometric/harmonic mean<" << tname<T>() << "> of " << show(v) << "; "; });
            require_close("geometric mean", st::geometric_mean(b.cbegin(), b.cend()), std::exp(lg / nn), 0, 16 + (nn + 4) * (1 + lga / nn));
            require_close("harmonic mean", st::harmonic_mean(b.cbegin(), b.cend()), nn / inv, 0, 16 + nn);
        }
        c.label(beta > 0 ? "beta>0" : "beta<0");
        c.describe([&](auto& o) { o << "power mean " << beta << " and norm<" << tname<T>() << "> of " << show(v); });
        Buf<T> b(v);
        ld p = 0;
        for (auto x : v) {
            p += std::pow(static_cast<ld>(x), beta);
        }
        const ld e  = std::pow(p / nn, 1 / static_cast<ld>(beta));
        const T got = st::generalized_mean(b.cbegin(), b.cend(), beta);
        if (p < static_cast<ld>(std::numeric_limits<T>::max()) / 4 && p / nn > static_cast<ld>(std::numeric_limits<T>::min()) * 1e4L) {
            require_close("power mean", got, e, 0, 32 + nn + 4 * std::abs(std::log(p / nn)));
        } else {
            c.label("power out of range");
        }
        require_close("norm", st::norm(b.cbegin(), b.cend()), std::sqrt(ref::sum_sq(v)), 0, 8 + nn);
        require_unchanged(b, v);
    }

    // laws: affine maps and reordering
    template <typename T>
    void laws(Src& s, Ctx& c) {
        auto v     = data<T>(s, c, 2);
        const T k  = static_cast<T>(s.pick({2.0, -1.0, -0.5, 4.0, -8.0})); // exact scalings
        auto w     = v;
        for (auto& x : w) {
            x *= k;
        }
        Bulk r(s.draw(~0ULL));
        auto shuffled = v;
        for (std::size_t i = shuffled.size(); i > 1; --i) {
            std::swap(shuffled[i - 1], shuffled[r.next() % i]);
        }
        c.nontrivial(varied(v));
        c.describe([&](auto& o) { o << "laws<" << tname<T>() << "> scale " << k << " of " << show(v); });
        const auto m = st::mean(v.begin(), v.end());
        require_close("mean of scaled data", st::mean(w.begin(), w.end()), static_cast<ld>(m) * k, 0, 2);
        require_close("variance of scaled data", st::variance(w.begin(), w.end()), static_cast<ld>(st::variance(v.begin(), v.end())) * k * k, 0, 2);
        require_close("median of scaled data", st::median(w.begin(), w.end()), static_cast<ld>(st::median(v.begin(), v.end())) * k, max_abs(w), 2);
        require_close("norm of scaled data", st::norm(w.begin(), w.end()), static_cast<ld>(st::norm(v.begin(), v.end())) * std::abs(k), 0, 4);
        require_within("mean of reordered data", st::mean(shuffled.begin(), shuffled.end()), {static_cast<ld>(m), 2 * ref::mean_bound(v)});
        VP_CHECK(st::median(shuffled.begin(), shuffled.end()) == st::median(v.begin(), v.end()), "median depends on the order of the data");
        VP_CHECK(st::max(shuffled.begin(), shuffled.end()) == st::max(v.begin(), v.end()), "max depends on the order of the data");
    }
} // namespace

VP_FAMILY("moments", 60000, 600000, "mean, variance, deviation, moments 1 to 6, moments about a point, skewness, kurtosis with forward error bounds; non-trivial: n>1, not constant") { VP_DISPATCH(moments); }
VP_FAMILY("order", 80000, 800000, "min, max, smallest and largest magnitude, peak position, median; non-trivial: n>1, not constant") { VP_DISPATCH(order); }
VP_FAMILY("means", 60000, 600000, "geometric, harmonic, power means and the norm; non-trivial: n>1, not constant") { VP_DISPATCH(means); }
VP_FAMILY("laws", 40000, 400000, "scaling by exact factors and reordering; non-trivial: n>1, not constant") { VP_DISPATCH(laws); }
