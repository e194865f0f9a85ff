// C14: RBJ cookbook and Zoelzer second order designs, against their analogue prototypes
#include "ref_filter.hpp"
#include <edsp/filter.hpp>
using namespace vp;
namespace ef = edsp::filter;
using flt::C;

namespace {
    enum Kind { RBJ_LP, RBJ_HP, RBJ_BP, RBJ_AP, RBJ_LS, RBJ_HS, Z_LP, Z_HP, Z_BP, Z_LS, Z_HS, KINDS };
    const char* names[] = {"RBJ low-pass", "RBJ high-pass", "RBJ band-pass", "RBJ all-pass", "RBJ low shelf", "RBJ high shelf", "Zoelzer low-pass", "Zoelzer high-pass", "Zoelzer band-pass", "Zoelzer low shelf", "Zoelzer high shelf"};
    bool has_gain(int k) {
        return k == RBJ_LS || k == RBJ_HS || k == Z_LS || k == Z_HS;
    }

    template <typename T>
    ef::biquad<T> make(int k, T fc, T fs, T q, T g, bool pass_gain) {
        using D = ef::designer_type;
        using F = ef::filter_type;
#define EDSP_MAKE(d, f) return pass_gain ? ef::make_filter<T, D::d, F::f, 2>(fc, fs, q, g) : ef::make_filter<T, D::d, F::f, 2>(fc, fs, q)
        switch (k) {
            case RBJ_LP: EDSP_MAKE(RBJ, LowPass);
            case RBJ_HP: EDSP_MAKE(RBJ, HighPass);
            case RBJ_BP: EDSP_MAKE(RBJ, BandPass);
            case RBJ_AP: EDSP_MAKE(RBJ, AllPass);
            case RBJ_LS: EDSP_MAKE(RBJ, LowShelf);
            case RBJ_HS: EDSP_MAKE(RBJ, HighShelf);
            case Z_LP: EDSP_MAKE(Zolzer, LowPass);
            case Z_HP: EDSP_MAKE(Zolzer, HighPass);
            case Z_BP: EDSP_MAKE(Zolzer, BandPass);
            case Z_LS: EDSP_MAKE(Zolzer, LowShelf);
            default: EDSP_MAKE(Zolzer, HighShelf);
        }
    }

    // analogue prototypes; the frequency is scaled so that numerator and denominator stay finite at Nyquist:
    // s = j*n/d with n = sin(pi f) cos(pi fc), d = cos(pi f) sin(pi fc)
    C expected(int k, ld f, ld fc, ld q, ld g) {
        const C s(0, std::sin(flt::PI * f) * std::cos(flt::PI * fc));
        const ld d  = std::cos(flt::PI * f) * std::sin(flt::PI * fc);
        const C s2  = s * s, sd = s * d;
        const ld d2 = d * d, r2 = std::sqrt(2.0L);
        const C den = s2 + sd / q + d2;
        const ld A = std::pow(10.0L, g / 40), ra = std::sqrt(A), V = std::pow(10.0L, std::abs(g) / 20), rv = std::sqrt(2 * V);
        switch (k) {
            case RBJ_LP:
            case Z_LP: return d2 / den;
            case RBJ_HP:
            case Z_HP: return s2 / den;
            case RBJ_BP: return sd / den;
            case Z_BP: return sd / q / den;
            case RBJ_AP: return (s2 - sd / q + d2) / den;
            case RBJ_LS: return A * (s2 + ra / q * sd + A * d2) / (A * s2 + ra / q * sd + d2);
            case RBJ_HS: return A * (A * s2 + ra / q * sd + d2) / (s2 + ra / q * sd + A * d2);
            case Z_LS: {
                const C h = (s2 + rv * sd + V * d2) / (s2 + r2 * sd + d2);
                return g >= 0 ? h : C(1, 0) / h;
            }
            default: {
                const C h = (V * s2 + rv * sd + d2) / (s2 + r2 * sd + d2);
                return g >= 0 ? h : C(1, 0) / h;
            }
        }
    }

    template <typename T>
    void design(Src& s, Ctx& c) {
        const int k = static_cast<int>(s.draw(KINDS - 1));
        const T fs  = s.flip() ? T(1) : s.pick({T(8000), T(22050), T(44100), T(48000), T(96000), T(192000)});
        const ld f0 = s.one_in(3) ? s.log_uniform(1e-4, 0.499) : s.uniform(0.005, 0.495);
        const T fc  = static_cast<T>(f0 * fs);
        const ld f  = static_cast<ld>(fc) / fs;
        const T q   = static_cast<T>(s.one_in(4) ? std::sqrt(0.5) : s.log_uniform(0.05, 30));
        const T g   = static_cast<T>(s.one_in(6) ? s.pick({0.0, 6.0, -6.0, 1.0, -1.0}) : s.one_in(4) ? s.uniform(-90, 90) : s.uniform(-40, 40));
        const bool pass = has_gain(k) || s.flip();
        c.label(names[k]);
        if (has_gain(k)) {
            c.label(g > 0 ? "boost" : g < 0 ? "cut" : "0 dB");
        }
        c.describe([&](auto& o) { o << names[k] << "<" << tname<T>() << "> fc=" << fc << " fs=" << fs << " Q=" << q << " gain=" << g << " dB"; });
        const auto b = make<T>(k, fc, fs, q, g, pass);
        // error of the coefficients themselves, in eps: angle errors are amplified by tan near Nyquist, gains by the exponent
        const ld mult = 40 * (1 + 1 / std::sin(2 * flt::PI * f) * f * 4 + (has_gain(k) ? std::abs(static_cast<ld>(g)) / 4 : 0));

        // stability, wherever the poles are clear of the unit circle in this precision
        const ld K     = std::tan(flt::PI * f);
        const ld A     = std::pow(10.0L, static_cast<ld>(g) / 40);
        const ld zq    = k == Z_LS || k == Z_HS ? std::sqrt(0.5L) / std::pow(10.0L, std::abs(static_cast<ld>(g)) / 40) : k == RBJ_LS || k == RBJ_HS ? q / std::max(std::sqrt(A), 1 / std::sqrt(A)) / 2 : static_cast<ld>(q);
        const ld damp  = std::min(K, 1 / K) / std::max(zq, 1 / zq) / std::max(A, 1 / A);
        if (damp * damp > 1e3L * eps<T>()) {
            VP_CHECK(b.stability(), "the design is not stable: a=" << b.a0() << "," << b.a1() << "," << b.a2());
        }
        bool judged = false;
        ld points[] = {0, 0.5L, f, f / 2, std::min<ld>(0.5L, 2 * f), 0.25L, s.uniform(0, 0.5), s.uniform(0, 0.5), static_cast<ld>(s.log_uniform(1e-5, 0.5))};
        for (const ld x : points) {
            const auto m  = flt::section(b, x);
            const C want  = expected(k, x, f, q, g);
            // coefficients are sums of terms of order one (or A^2 for the shelves): 1-cos(w) cancels
            const ld d    = std::abs(C(b.a0(), 0) + static_cast<ld>(b.a1()) * std::polar<ld>(1, -2 * flt::PI * x) + static_cast<ld>(b.a2()) * std::polar<ld>(1, -4 * flt::PI * x));
            const ld tol  = mult * eps<T>() * (m.abs + (has_gain(k) ? 4 * std::max(A * A, 1 / A / A) : 1) * (1 + std::abs(m.h)) / d);
            const ld want_tol = tol + 1e-15L * std::abs(want);
            judged = judged || tol < 1e-2L * std::abs(want);
            if (!(tol < 0.5L * std::max<ld>(1, std::abs(want)))) {
                continue; // this precision cannot represent the response there
            }
            VP_CHECK(std::isfinite(m.h.real()) && std::abs(m.h - want) <= want_tol, "response at " << x << " fs is " << m.h << " (" << 20 * std::log10(std::abs(m.h)) << " dB), expected " << want << " (" << 20 * std::log10(std::abs(want)) << " dB) +- " << want_tol);
        }
        c.nontrivial(judged);

        // the running filter has that response
        const ld radius = std::sqrt(std::abs(static_cast<ld>(b.a2())));
        if (s.one_in(4) && std::is_same<T, double>::value && damp > 0.02L && radius < 0.98L) {
            c.label("measured");
            auto running = b;
            const std::size_t n = 2500;
            const ld x          = s.uniform(0, 0.5);
            C h(0, 0);
            for (std::size_t i = 0; i < n; ++i) {
                const auto y = running.tick(i == 0 ? T(1) : T(0));
                h += static_cast<ld>(y) * std::polar<ld>(1, -2 * flt::PI * x * static_cast<ld>(i));
            }
            const C want = expected(k, x, f, q, g);
            VP_CHECK(std::abs(h - want) <= 1e-6L * std::max<ld>(1, std::abs(want)), "measured response at " << x << " fs is " << h << ", expected " << want);
        }
    }

    template <typename T>
    void response(Src& s, Ctx& c) {
        const std::size_t nb = static_cast<std::size_t>(s.size(1, 8)), na = static_cast<std::size_t>(s.size(1, 8)), K = static_cast<std::size_t>(s.size(1, 64));
        auto b = signal<T>(s, nb, 10), a = signal<T>(s, na, 0.5);
        a[0] = static_cast<T>(s.uniform(2, 10));
        for (std::size_t i = 1; i < na; ++i) {
            a[i] = static_cast<T>(a[i] / static_cast<T>(na));
        }
        c.describe([&](auto& o) { o << "freq<" << tname<T>() << "> b=" << show(b) << " a=" << show(a) << " K=" << K; });
        c.nontrivial(nb > 1 && na > 1 && K > 1);
        Buf<T> bb(b), ba(a);
        std::vector<std::complex<T>> fill(K, std::complex<T>(-9, -9));
        Buf<std::complex<T>> out(fill);
        ef::freq(bb.cbegin(), bb.cend(), ba.cbegin(), ba.cend(), out.begin(), K);
        for (std::size_t k = 0; k < K; ++k) {
            C n(0, 0), d(0, 0);
            for (std::size_t i = 0; i < nb; ++i) {
                n += static_cast<ld>(b[i]) * std::polar<ld>(1, -flt::PI * static_cast<ld>(i * k) / static_cast<ld>(K));
            }
            for (std::size_t i = 0; i < na; ++i) {
                d += static_cast<ld>(a[i]) * std::polar<ld>(1, -flt::PI * static_cast<ld>(i * k) / static_cast<ld>(K));
            }
            const C want = n / d, got(out.p[k].real(), out.p[k].imag());
            const ld tol = 64 * eps<T>() * (sum_abs(b) + std::abs(want) * sum_abs(a)) / std::abs(d) + std::numeric_limits<T>::min();
            VP_CHECK(std::abs(got - want) <= tol, "freq[" << k << "] = " << got << ", expected " << want << " +- " << tol);
        }
        require_unchanged(bb, b);
        require_unchanged(ba, a);
    }
} // namespace

VP_FAMILY("design", 600000, 12000000, "one design of one type; response compared at 9 frequencies; non-trivial: at least one is judged to better than 1%") { VP_DISPATCH(design); }
VP_FAMILY("freq", 100000, 2000000, "response of random FIR/IIR coefficients on a grid; non-trivial: both of order >=1 and more than one point") { VP_DISPATCH(response); }
