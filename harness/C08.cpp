#ifdef VP_PYTHON // C27: the features of the Python module
#include "pyapi.hpp"
#endif
#include "common.hpp"
#include "ref_stats.hpp"
#ifndef VP_PYTHON
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/statistics/entropy.hpp>
namespace ft = edsp::feature;
#define FLUX ft::statistics::flux<edsp::math::distances::euclidean>
#else
namespace ft = pyfeature;
#define FLUX ft::statistics::flux
#endif
using namespace vp;

namespace {
    // a magnitude spectrum: non negative, optionally with zeros, flat parts or one dominant line; never all zero
    template <typename T>
    std::vector<T> spectrum(Src& s, Ctx& c, std::size_t n, bool zeros) {
        auto v = positive_signal<T>(s, n, magnitude<T>(s, -3, 4, 5));
        switch (s.draw(4)) {
            case 0:
                if (zeros) {
                    for (std::size_t i = s.draw(1); i < n; i += 1 + s.draw(3)) {
                        v[i] = 0;
                    }
                    c.label("with zeros");
                }
                break;
            case 1: {
                v[s.draw(n - 1)] *= static_cast<T>(1000);
                c.label("dominant line");
                break;
            }
            case 2: {
                const auto from = s.draw(n - 1), to = from + s.draw(n - 1 - from);
                for (auto i = from; i <= to; ++i) {
                    v[i] = v[from];
                }
                c.label("flat part");
                break;
            }
            default:
                break;
        }
        if (sum_abs(v) <= 0) {
            v[n - 1] = 1;
        }
        return v;
    }
    template <typename T>
    std::vector<T> axis(Src& s, Ctx& c, std::size_t n) {
        std::vector<T> f(n);
        if (s.flip()) { // a frequency axis
            const T fs = static_cast<T>(s.pick({8000, 22050, 44100, 48000, 2}));
            for (std::size_t i = 0; i < n; ++i) {
                f[i] = static_cast<T>(i) * fs / static_cast<T>(2 * n);
            }
            c.label("linear axis");
        } else {
            f = positive_signal<T>(s, n, std::pow(10.0, s.range<int>(0, 4)));
            if (s.flip()) {
                std::sort(f.begin(), f.end());
            }
            c.label("free axis");
        }
        return f;
    }
    template <typename T>
    bool varied(const std::vector<T>& v) {
        return v.size() > 2 && *std::max_element(v.begin(), v.end()) != *std::min_element(v.begin(), v.end());
    }

    template <typename T>
    void shape(Src& s, Ctx& c) {
        const auto n = len(s, 1);
        const auto v = spectrum<T>(s, c, n, true);
        const auto f = axis<T>(s, c, n);
        const ld nn = static_cast<ld>(n), u = eps<T>();
        size_label(c, n);
        c.nontrivial(varied(v));
        c.describe([&](auto& o) { o << "shape<" << tname<T>() << "> of magnitudes " << show(v) << " over axis " << show(f); });
        Buf<T> b(v), a(f);
        const ld total = sum_abs(v);
        // centroids
        ld wi = 0, wf = 0, mf = 0;
        for (std::size_t i = 0; i < n; ++i) {
            wi += static_cast<ld>(i) * v[i];
            wf += static_cast<ld>(f[i]) * v[i];
            mf = std::max(mf, static_cast<ld>(f[i]));
        }
        const ld ci = wi / total, cf = wf / total;
        const ld tiny = static_cast<ld>(std::numeric_limits<T>::min()) * nn * (mf + nn) / total;
        require_close("centroid", ft::statistics::centroid(b.cbegin(), b.cend()), ci, tiny / u, 2 * nn + 8);
        require_close("weighted centroid", ft::statistics::weighted_centroid(b.cbegin(), b.cend(), a.cbegin()), cf, tiny / u, 2 * nn + 8);
        require_close("spectral centroid", ft::spectral_centroid(b.cbegin(), b.cend(), a.cbegin()), cf, tiny / u, 2 * nn + 8);
        // spreads
        const auto spread = [&](bool own) {
            const ld cc = own ? cf : ci, e = (2 * nn + 8) * u * cc + tiny;
            ld q = 0, hi = 0;
            for (std::size_t i = 0; i < n; ++i) {
                const ld x = own ? static_cast<ld>(f[i]) : static_cast<ld>(i);
                const ld d = std::abs(x - cc), D = e + 2 * u * (x + cc);
                q += d * d * v[i];
                hi += (d + D) * (d + D) * v[i];
            }
            return ref::Est{q / total, (hi - q) / total + (2 * nn + 16) * u * hi / total + tiny * (mf + nn)};
        };
        const auto check_spread = [&](const char* what, T got, const ref::Est& e) {
            VP_CHECK(got >= 0 && std::abs(static_cast<ld>(got) * got - e.value) <= e.bound + 4 * u * e.value, what << " = " << got << ", expected " << std::sqrt(e.value) << " (square within " << e.bound << ")");
        };
        check_spread("spread", ft::statistics::spread(b.cbegin(), b.cend()), spread(false));
        check_spread("weighted spread", ft::statistics::weighted_spread(b.cbegin(), b.cend(), a.cbegin()), spread(true));
        check_spread("spectral spread", ft::spectral_spread(b.cbegin(), b.cend(), a.cbegin()), spread(true));
        // crest
        const ld crest = max_abs(v) / total;
        require_close("crest", ft::statistics::crest(b.cbegin(), b.cend()), crest, 0, nn + 4);
        require_close("spectral crest", ft::spectral_crest(b.cbegin(), b.cend()), crest, 0, nn + 4);
        { // and of a range with elements of both signs, which crest takes by magnitude
            std::vector<T> w(v);
            for (std::size_t i = 0; i < n; ++i) {
                if ((i * 2654435761u >> 7) & 1u) {
                    w[i] = -w[i];
                }
            }
            Buf<T> bw(w);
            require_close("crest of signed data", ft::statistics::crest(bw.cbegin(), bw.cend()), crest, 0, nn + 4);
        }
        // decrease
        if (n > 1 && total - v[0] > 0) {
            ld d = 0, da = 0, rest = 0;
            for (std::size_t i = 1; i < n; ++i) {
                d += (static_cast<ld>(v[i]) - v[0]) / static_cast<ld>(i);
                da += (static_cast<ld>(v[i]) + v[0]) / static_cast<ld>(i);
                rest += v[i];
            }
            const ref::Est e{d / rest, (2 * nn + 16) * u * da / rest + tiny};
            require_within("decrease", ft::statistics::decrease(b.cbegin(), b.cend()), e);
            require_within("spectral decrease", ft::spectral_decrease(b.cbegin(), b.cend()), e);
        }
        // slope
        if (n > 1) {
            ld sf = 0, sff = 0;
            for (auto x : f) {
                sf += x;
                sff += static_cast<ld>(x) * x;
            }
            const ld num = nn * wf - sf * total, den = nn * sff - sf * sf;
            const ld enu = (2 * nn + 16) * u * (nn * wf + sf * total), ede = (2 * nn + 16) * u * (nn * sff + sf * sf);
            if (den > 0 && ede < 0.02L * den) {
                const ref::Est e{num / den / total, 1.1L * (enu / den + std::abs(num) / den * ede / den) / total + (2 * nn + 32) * u * std::abs(num / den / total)};
                require_within("slope", ft::statistics::slope(b.cbegin(), b.cend(), a.cbegin()), e);
                require_within("spectral slope", ft::spectral_slope(b.cbegin(), b.cend(), a.cbegin()), e);
            } else {
                c.label("ill-conditioned slope");
            }
        }
        // irregularity
        if (n > 1) {
            ld d = 0, q = 0;
            for (std::size_t i = 0; i + 1 < n; ++i) {
                const ld x = static_cast<ld>(v[i + 1]) - v[i];
                d += x * x;
                q += static_cast<ld>(v[i]) * v[i];
            }
            if (q > 1e4L * nn * static_cast<ld>(std::numeric_limits<T>::min())) {
                require_close("irregularity", ft::spectral_irregularity(b.cbegin(), b.cend()), d / q, 1e-30L, 2 * nn + 16);
            }
        }
        // skewness and kurtosis of the magnitudes
        ref::Est e;
        if (ref::standardized(v, 3, e)) {
            require_within("spectral skewness", ft::spectral_skewness(b.cbegin(), b.cend()), e);
            ref::standardized(v, 4, e);
            require_within("spectral kurtosis", ft::spectral_kurtosis(b.cbegin(), b.cend()), e);
        }
        require_unchanged(b, v);
        require_unchanged(a, f);
    }

    template <typename T>
    void entropies(Src& s, Ctx& c) {
        const auto n = len(s, 2);
        auto v       = spectrum<T>(s, c, n, true);
        const ld nn = static_cast<ld>(n), u = eps<T>(), total = sum_abs(v), l = std::log2(nn);
        size_label(c, n);
        c.nontrivial(varied(v));
        c.describe([&](auto& o) { o << "entropy/flatness<" << tname<T>() << "> of " << show(v); });
        const auto entropy = [&](const auto& p) {
            ld h = 0, w = 0;
            for (auto x : p) {
                if (x > 0) {
                    h -= x * std::log2(static_cast<ld>(x));
                    w += x * (std::abs(std::log2(static_cast<ld>(x))) + 3);
                }
            }
            return ref::Est{h / l, (2 * nn + 16) * u * w / l};
        };
        std::vector<ld> exact(n);
        std::vector<T> p(n);
        for (std::size_t i = 0; i < n; ++i) {
            exact[i] = v[i] / total;
            p[i]     = static_cast<T>(exact[i]);
        }
        {
            Buf<T> b(v), d(p);
            require_within("spectral entropy", ft::spectral_entropy(b.begin(), b.end()), entropy(exact));
            require_within("entropy", ft::statistics::entropy(d.cbegin(), d.cend()), entropy(p));
            require_unchanged(d, p);
        }
        if (std::all_of(v.begin(), v.end(), [](T x) { return x > 0; })) {
            ld lg = 0, lga = 0;
            for (auto x : v) {
                lg += std::log(static_cast<ld>(x));
                lga += std::abs(std::log(static_cast<ld>(x)));
            }
            const ld e = std::exp(lg / nn) / (total / nn), m = 32 + (2 * nn + 8) * (1 + lga / nn);
            Buf<T> b(v);
            require_close("flatness", ft::statistics::flatness(b.cbegin(), b.cend()), e, 0, m);
            require_close("spectral flatness", ft::spectral_flatness(b.cbegin(), b.cend()), e, 0, m);
            require_unchanged(b, v);
        } else { // one zero makes the geometric mean zero
            Buf<T> b(v);
            const T z = ft::spectral_flatness(b.cbegin(), b.cend());
            VP_CHECK(z == 0, "spectral flatness of a spectrum with a zero is " << z);
        }
    }

    template <typename T>
    void rolloffs(Src& s, Ctx& c) {
        const auto n = len(s, 1);
        auto v       = spectrum<T>(s, c, n, true);
        size_label(c, n);
        if (s.one_in(20)) {
            std::fill(v.begin(), v.end(), T(0));
            c.label("silence");
        }
        const T p   = static_cast<T>(s.flip() ? s.uniform(0, 1) : s.pick({0.0, 0.5, 0.85, 0.95, 0.99, 1.0}));
        const ld nn = static_cast<ld>(n), u = eps<T>(), total = ref::sum_sq(v), limit = total * p;
        c.nontrivial(varied(v) && p > 0 && p < 1);
        c.describe([&](auto& o) { o << "rolloff<" << tname<T>() << ">(" << p << ") of " << show(v); });
        Buf<T> b(v);
        const T got  = ft::statistics::rolloff(b.cbegin(), b.cend(), p);
        const T got2 = ft::spectral_rolloff(b.cbegin(), b.cend(), p);
        VP_CHECK(got == got2, "spectral_rolloff = " << got2 << " but rolloff = " << got);
        const long k = std::lround(static_cast<double>(got) * static_cast<double>(n));
        VP_CHECK(k >= 0 && k < static_cast<long>(n) && std::abs(static_cast<ld>(got) - static_cast<ld>(k) / nn) <= 4 * u, "rolloff = " << got << " is not a bin of " << n);
        // k must be the first bin whose cumulated energy exceeds the limit, give or take rounding
        const ld tol = (2 * nn + 16) * u * total + nn * static_cast<ld>(std::numeric_limits<T>::min());
        ld before = 0;
        for (long i = 0; i < k; ++i) {
            before += static_cast<ld>(v[i]) * v[i];
        }
        const ld after = before + static_cast<ld>(v[k]) * v[k];
        VP_CHECK(k == 0 || before <= limit + tol, "rolloff bin " << k << ": " << before << " of " << total << " was already reached before it, limit " << limit);
        VP_CHECK(k == static_cast<long>(n) - 1 || after >= limit - tol, "rolloff bin " << k << ": only " << after << " of " << total << " reached, limit " << limit);
        if (p > 0 && total > 0) { // scale-free
            auto w = v;
            for (auto& x : w) {
                x *= 4;
            }
            VP_CHECK(ft::statistics::rolloff(w.begin(), w.end(), p) == got, "rolloff changes with the scale");
        }
#ifndef VP_PYTHON
        if (s.one_in(4)) {
            VP_CHECK(ft::spectral_rolloff(b.cbegin(), b.cend()) == ft::statistics::rolloff(b.cbegin(), b.cend(), 0.95), "the default percentage is not 95%");
        }
#endif
        require_unchanged(b, v);
    }

    template <typename T>
    void pairs(Src& s, Ctx& c) {
        const auto n = len(s, 1);
        auto v       = spectrum<T>(s, c, n, true);
        auto w       = s.one_in(5) ? v : spectrum<T>(s, c, n, true);
        const ld nn = static_cast<ld>(n), u = eps<T>(), tv = sum_abs(v), tw = sum_abs(w);
        size_label(c, n);
        c.nontrivial(varied(v) && varied(w) && v != w);
        c.describe([&](auto& o) { o << "flux/variation<" << tname<T>() << "> of " << show(v) << " and " << show(w); });
        ld q = 0, qb = 0, m = 0, mb = 0, x = 0;
        for (std::size_t i = 0; i < n; ++i) {
            const ld a = v[i] / tv, b = w[i] / tw, d = std::abs(a - b), D = (nn + 4) * u * (a + b);
            q += d * d;
            qb += (d + D) * (d + D);
            m += d;
            mb += D;
            x += static_cast<ld>(v[i]) * w[i];
        }
        Buf<T> b(v), d(w);
        const ref::Est fe{q, qb - q + (nn + 8) * u * qb + 1e-30L};
        require_within("flux", FLUX(b.cbegin(), b.cend(), d.cbegin()), fe);
        require_within("spectral flux", ft::spectral_flux(b.cbegin(), b.cend(), d.cbegin()), fe);
#ifndef VP_PYTHON
        require_within("manhattan flux", ft::statistics::flux<edsp::math::distances::manhattan>(b.cbegin(), b.cend(), d.cbegin()), {m, mb + (nn + 4) * u * m});
#endif
        const ld r = x / (std::sqrt(tv) * std::sqrt(tw));
        const ref::Est ve{1 - r, (2 * nn + 16) * u * (1 + r) + 1e-30L};
#ifndef VP_PYTHON
        require_within("variation", ft::statistics::variation(b.cbegin(), b.cend(), d.cbegin()), ve);
#endif
        require_within("spectral variation", ft::spectral_variation(b.cbegin(), b.cend(), d.cbegin()), ve);
        require_unchanged(b, v);
        require_unchanged(d, w);
    }
} // namespace

VP_FAMILY("shape", 80000, 800000, "centroid, spread, crest, decrease, slope, irregularity, skewness, kurtosis of a spectrum and its axis; non-trivial: n>2, not constant") { VP_DISPATCH(shape); }
VP_FAMILY("entropy", 60000, 600000, "entropy of a distribution, spectral entropy, flatness; non-trivial: n>2, not constant") { VP_DISPATCH(entropies); }
VP_FAMILY("rolloff", 80000, 800000, "roll-off bin of any fraction; non-trivial: 0<fraction<1, not constant") { VP_DISPATCH(rolloffs); }
VP_FAMILY("pairs", 80000, 800000, "flux and variation of two frames; non-trivial: two different non-constant frames") { VP_DISPATCH(pairs); }
