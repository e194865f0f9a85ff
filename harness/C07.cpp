#ifdef VP_PYTHON // C27: the features of the Python module
#include "pyapi.hpp"
#endif
#include "common.hpp"
#include "ref_stats.hpp"
#ifndef VP_PYTHON
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
namespace ft = edsp::feature;
#else
namespace ft = pyfeature;
#endif
using namespace vp;

namespace {
    template <typename T>
    std::vector<T> frame(Src& s, Ctx& c, long lo = 1, long hi = 3000) {
        const auto n = hi > 1000 ? len(s, lo, hi) : static_cast<std::size_t>(s.size(lo, hi));
        auto v       = signal<T>(s, n, magnitude<T>(s, -3, 4, 2));
        if (s.one_in(6)) { // exact zeros and repeated samples between the others
            for (std::size_t i = 0; i < n; i += 2 + s.draw(2)) {
                v[i] = s.flip() ? T(0) : i ? v[i - 1] : v[i];
            }
            c.label("zeros and repeats");
        }
        size_label(c, n);
        return v;
    }
    template <typename T>
    bool mixed(const std::vector<T>& v) {
        return std::any_of(v.begin(), v.end(), [](T x) { return x < 0; }) && std::any_of(v.begin(), v.end(), [](T x) { return x > 0; });
    }

    template <typename T>
    void energies(Src& s, Ctx& c) {
        const auto v = frame<T>(s, c);
        const ld n   = static_cast<ld>(v.size());
        c.nontrivial(mixed(v));
        c.describe([&](auto& o) { o << "energy features<" << tname<T>() << "> of " << show(v); });
        Buf<T> b(v);
        const ld e = ref::sum_sq(v);
        // subnormal squares lose relative accuracy
        const bool tiny = e < 1e6L * n * static_cast<ld>(std::numeric_limits<T>::min()) && e > 0;
        if (tiny) {
            c.label("underflow");
            return;
        }
        const ld m = n + 8;
        require_close("energy", ft::energy(b.cbegin(), b.cend()), e, 0, m);
        require_close("power", ft::power(b.cbegin(), b.cend()), e / n, 0, m);
        require_close("rms", ft::rms(b.cbegin(), b.cend()), std::sqrt(e / n), 0, m);
        require_close("rssq", ft::rssq(b.cbegin(), b.cend()), std::sqrt(e), 0, m);
#ifndef VP_PYTHON
        require_close("loudness", static_cast<T>(ft::loudness(b.cbegin(), b.cend())), std::pow(e, 0.67L), 0, m + (e > 0 ? std::abs(std::log(e)) : 0));
#endif
        if (e > 0) {
            const ld l = 10 * std::log10(e / n);
            require_close("leq", ft::leq(b.cbegin(), b.cend()), l, 10, m + std::abs(l));
        }
        // scaling by an exact factor
        const T k = static_cast<T>(s.pick({2.0, -4.0, -0.5}));
        auto w    = v;
        for (auto& x : w) {
            x *= k;
        }
        require_close("energy of the scaled frame", ft::energy(w.begin(), w.end()), static_cast<ld>(ft::energy(v.begin(), v.end())) * k * k, 0, 1);
        require_close("rms of the scaled frame", ft::rms(w.begin(), w.end()), static_cast<ld>(ft::rms(v.begin(), v.end())) * std::abs(k), 0, 2);
        require_unchanged(b, v);
    }

    template <typename T>
    void crossings(Src& s, Ctx& c) {
        const auto v = frame<T>(s, c, 2);
        c.nontrivial(mixed(v));
        c.describe([&](auto& o) { o << "azcr/duration<" << tname<T>() << "> of " << show(v); });
        std::size_t changes = 0;
        for (std::size_t i = 1; i < v.size(); ++i) {
            changes += (v[i] < 0) != (v[i - 1] < 0);
        }
        Buf<T> b(v);
        require_close("azcr", ft::azcr(b.cbegin(), b.cend()), static_cast<ld>(changes) / static_cast<ld>(v.size() - 1), 0, 4);
        const T fs = static_cast<T>(s.flip() ? s.pick({8000, 11025, 22050, 44100, 48000, 96000}) : s.range<int>(1, 400000));
        require_close("duration", ft::duration(b.cbegin(), b.cend(), fs), static_cast<ld>(v.size()) / fs, 0, 4);
        require_close("duration at an integer rate", static_cast<T>(ft::duration(b.cbegin(), b.cend(), static_cast<int>(fs))), static_cast<ld>(v.size()) / fs, 0, 4);
        const T th     = static_cast<T>(s.flip() ? s.uniform(0, 1) : s.pick({0.0, 1.0, 0.5, 0.25}));
        const ld limit = static_cast<ld>(th) * max_abs(v);
        std::size_t lo = 0, hi = 0; // samples certainly / possibly above the limit once it is rounded
        for (auto x : v) {
            const ld a = std::abs(static_cast<ld>(x));
            lo += a > limit * (1 + 2 * eps<T>());
            hi += a > limit * (1 - 2 * eps<T>()) && a > 0;
        }
        const ld d = static_cast<ld>(ft::effective_duration(b.cbegin(), b.cend(), fs, th)) * fs;
        VP_CHECK(d >= lo - 0.001L - 4 * eps<T>() * lo && d <= hi + 0.001L + 4 * eps<T>() * hi, "effective duration is " << d << " samples at threshold " << th << ", expected " << lo << (lo == hi ? "" : " or more"));
        require_unchanged(b, v);
    }

    template <typename T>
    void differences(Src& s, Ctx& c) {
        const auto v = frame<T>(s, c, 1, 200);
        const auto n = v.size();
        c.nontrivial(n > 2 && mixed(v));
        c.describe([&](auto& o) { o << "amdf/asdf<" << tname<T>() << "> of " << show(v); });
        Buf<T> b(v), am(n), as(n);
        ft::amdf(b.cbegin(), b.cend(), am.begin());
        ft::asdf(b.cbegin(), b.cend(), as.begin());
        const ld min = static_cast<ld>(std::numeric_limits<T>::min());
        for (std::size_t k = 0; k < n; ++k) {
            ld a = 0, q = 0;
            for (std::size_t j = 0; j + k < n; ++j) {
                const ld d = static_cast<ld>(v[j]) - v[j + k];
                a += std::abs(d);
                q += d * d;
            }
            const ld nn = static_cast<ld>(n);
            VP_CHECK(std::abs(static_cast<ld>(am.p[k]) - a / nn) <= (nn + 4) * eps<T>() * a / nn + min * nn, "amdf[" << k << "] = " << am.p[k] << ", expected " << a / nn);
            VP_CHECK(std::abs(static_cast<ld>(as.p[k]) - q / nn) <= (nn + 8) * eps<T>() * q / nn + min * nn, "asdf[" << k << "] = " << as.p[k] << ", expected " << q / nn);
        }
        require_unchanged(b, v);
    }

#ifndef VP_PYTHON
    template <typename T>
    void ratio(Src& s, Ctx& c) {
        const auto v = frame<T>(s, c, 2);
        const auto n = v.size();
        auto w       = signal<T>(s, n, std::pow(10.0, s.range<int>(-4, 1)) * (1e-3 + static_cast<double>(max_abs(v))));
        const bool noisy = s.flip();
        if (noisy) { // signal plus noise
            for (std::size_t i = 0; i < n; ++i) {
                w[i] += v[i];
            }
        }
        std::vector<T> noise(n);
        for (std::size_t i = 0; i < n; ++i) {
            noise[i] = v[i] - w[i];
        }
        const auto a = ref::central(v, 2), z = ref::central(noise, 2);
        c.describe([&](auto& o) { o << "snr<" << tname<T>() << "> of " << show(v) << " against " << show(w); });
        const ld tiny = 1e4L * static_cast<ld>(std::numeric_limits<T>::min());
        if (!(a.value > tiny && z.value > tiny && a.bound < 0.02L * a.value && z.bound < 0.02L * z.value)) {
            c.label("degenerate");
            return;
        }
        c.nontrivial(noisy);
        Buf<T> b(v), d(w);
        const ld e   = 10 * std::log10(a.value / z.value);
        const T got  = ft::snr(b.cbegin(), b.cend(), d.cbegin());
        const ld tol = 10 / std::log(10.0L) * 1.1L * (a.bound / a.value + z.bound / z.value) + 32 * eps<T>() * (std::abs(e) + 10);
        VP_CHECK(std::abs(static_cast<ld>(got) - e) <= tol, "snr = " << got << " dB, expected " << e << " +- " << tol);
        require_unchanged(b, v);
        require_unchanged(d, w);
    }

    template <typename T>
    void continuous(Src& s, Ctx& c) {
        const bool lasting = s.one_in(300); // long histories
        const auto window = static_cast<std::size_t>(s.range<int>(1, lasting ? 40 : 8));
        const auto frames = static_cast<std::size_t>(s.range<int>(1, lasting ? 2000 : 24));
        ft::continuous_leq<T> obj(window);
        std::deque<ld> last(window, 0.0L);
        c.nontrivial(frames > window && window > 1);
        ld biggest = 0;
        for (std::size_t f = 0; f < frames; ++f) {
            auto v = signal<T>(s, static_cast<std::size_t>(s.range<int>(1, 40)), magnitude<T>(s, -2, 3, 2));
            v[0] += std::abs(v[0]) < 0.01 ? T(1) : T(0);
            c.describe([&](auto& o) { o << "continuous_leq<" << tname<T>() << "> window " << window << " frame " << f << ": " << show(v); });
            const ld l = 10 * std::log10(ref::sum_sq(v) / static_cast<ld>(v.size()));
            biggest    = std::max(biggest, std::abs(l) + 10);
            last.pop_front();
            last.push_back(l);
            const ld e = std::accumulate(last.begin(), last.end(), 0.0L) / static_cast<ld>(window);
            require_close("continuous leq", obj.extract(v.begin(), v.end()), e, biggest, 60 + 8 * static_cast<ld>(f));
        }
    }
#endif
} // namespace

VP_FAMILY("energy", 100000, 1000000, "energy, power, rms, rssq, leq, loudness against long double sums, exact scaling; non-trivial: both signs present") { VP_DISPATCH(energies); }
VP_FAMILY("crossings", 100000, 1000000, "zero crossing rate, duration, effective duration; non-trivial: both signs present") { VP_DISPATCH(crossings); }
VP_FAMILY("differences", 40000, 400000, "amdf and asdf at every lag; non-trivial: n>2, both signs present") { VP_DISPATCH(differences); }
#ifndef VP_PYTHON
VP_FAMILY("snr", 60000, 600000, "signal to noise ratio of a pair of frames; non-trivial: second frame is signal plus noise") { VP_DISPATCH(ratio); }
VP_FAMILY("continuous-leq", 60000, 600000, "history of frames through the moving level; non-trivial: more frames than the window holds") { VP_DISPATCH(continuous); }
#endif
