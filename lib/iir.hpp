// C15: Butterworth and Chebyshev designs of any order against the magnitude response of their analogue prototypes.
// EDSP_FAMILY is the designer (Butterworth, ChebyshevI, ChebyshevII); one translation unit each.
#undef NDEBUG
#include "ref_filter.hpp"
#include <edsp/filter.hpp>
using namespace vp;
namespace ef = edsp::filter;

namespace {
    constexpr auto designer = ef::designer_type::EDSP_FAMILY;
    constexpr bool is_butterworth = designer == ef::designer_type::Butterworth;
    constexpr bool is_chebyshev1  = designer == ef::designer_type::ChebyshevI;
    enum Kind { LP, HP, BP, BS, LS, HS, BSH, KINDS };
    const char* names[] = {"low-pass", "high-pass", "band-pass", "band-stop", "low shelf", "high shelf", "band shelf"};

    template <typename T>
    struct Spec {
        int kind;
        std::size_t order;
        T fs, fc, bw, gain, ripple;
    };

    ld chebyshev(std::size_t n, ld x) {
        x = std::abs(x);
        return x <= 1 ? std::cos(static_cast<ld>(n) * std::acos(x)) : std::cosh(static_cast<ld>(n) * std::acosh(x));
    }

    // squared magnitude at x cycles per sample
    template <typename T>
    ld power(const Spec<T>& p, ld x) {
        x          = std::min(std::max(x, 1e-17L), 0.5L - 1e-17L);
        const ld t = std::tan(flt::PI * x), fs = p.fs, fc = static_cast<ld>(p.fc) / fs, bw = static_cast<ld>(p.bw) / fs;
        ld w;
        if (p.kind == LP || p.kind == LS || p.kind == HP || p.kind == HS) {
            w = t / std::tan(flt::PI * fc);
            w = p.kind == HP || p.kind == HS ? 1 / w : w;
        } else {
            const ld t1 = std::tan(flt::PI * (fc - bw / 2)), t2 = std::tan(flt::PI * (fc + bw / 2));
            w           = std::abs((t * t - t1 * t2) / (t * (t2 - t1)));
            w           = p.kind == BS ? 1 / std::max(w, 1e-14L) : w;
        }
        const ld n = static_cast<ld>(p.order);
        if (p.kind >= LS) {
            const ld G = std::pow(10.0L, static_cast<ld>(p.gain) / 20);
            if (is_butterworth) {
                const ld w2n = std::pow(w, 2 * n);
                return (G + w2n) / (1 / G + w2n);
            }
            if (p.gain == 0) {
                return 1;
            }
            // reciprocal of the equiripple response of the opposite gain, at gain-ripple on the corner
            const ld g  = 1 / G;
            const ld r  = std::min(static_cast<ld>(p.ripple), std::abs(static_cast<ld>(p.gain)));
            const ld gb = std::pow(10.0L, (-static_cast<ld>(p.gain) + (p.gain > 0 ? r : -r)) / 20);
            const ld e2 = (g * g - gb * gb) / (gb * gb - 1);
            const ld T2 = std::pow(chebyshev(p.order, w), 2.0L);
            return (1 + e2 * T2) / (g * g + e2 * T2);
        }
        if (is_butterworth) {
            return 1 / (1 + std::pow(w, 2 * n));
        }
        const ld e2 = std::expm1(static_cast<ld>(p.ripple) / 10 * std::log(10.0L));
        if (is_chebyshev1) {
            return 1 / (1 + e2 * std::pow(chebyshev(p.order, w), 2.0L));
        }
        return 1 / (1 + e2 / std::pow(chebyshev(p.order, 1 / w), 2.0L));
    }

    template <typename T, std::size_t M>
    struct Make {
        std::vector<ef::biquad<T>> sections;
        std::size_t capacity;
        template <typename F>
        void keep(const F& f) {
            sections.assign(f.begin(), f.end());
            capacity = f.capacity();
        }
#define EDSP_F(type, ...) keep(ef::make_filter<T, designer, ef::filter_type::type, M>(p.order, p.fs, p.fc, __VA_ARGS__))
        explicit Make(const Spec<T>& p) {
            build(p, std::integral_constant<bool, is_butterworth>{});
        }
        void build(const Spec<T>& p, std::true_type) {
            switch (p.kind) {
                case LP: keep(ef::make_filter<T, designer, ef::filter_type::LowPass, M>(p.order, p.fs, p.fc)); break;
                case HP: keep(ef::make_filter<T, designer, ef::filter_type::HighPass, M>(p.order, p.fs, p.fc)); break;
                case BP: EDSP_F(BandPass, p.bw); break;
                case BS: EDSP_F(BandStop, p.bw); break;
                case LS: EDSP_F(LowShelf, p.gain); break;
                case HS: EDSP_F(HighShelf, p.gain); break;
                default: EDSP_F(BandShelf, p.bw, p.gain); break;
            }
        }
        template <typename S>
        void build(const S& p, std::false_type) {
            switch (p.kind) {
                case LP: EDSP_F(LowPass, p.ripple); break;
                case HP: EDSP_F(HighPass, p.ripple); break;
                case BP: EDSP_F(BandPass, p.bw, p.ripple); break;
                case BS: EDSP_F(BandStop, p.bw, p.ripple); break;
                case LS: EDSP_F(LowShelf, p.gain, p.ripple); break;
                case HS: EDSP_F(HighShelf, p.gain, p.ripple); break;
                default: EDSP_F(BandShelf, p.bw, p.gain, p.ripple); break;
            }
        }
    };

    template <typename T>
    struct Measured {
        flt::C h{1, 0};
        ld tol{0};  // absolute
        ld rel{0};  // sum of the relative errors of the sections
    };
    template <typename T>
    Measured<T> measure(const std::vector<ef::biquad<T>>& sections, ld x, ld mult) {
        Measured<T> m;
        ld lo = 1, hi = 1;
        for (const auto& b : sections) {
            const auto r = flt::section(b, x);
            m.h *= r.h;
            const ld d = mult * eps<T>() * r.abs;
            lo *= std::abs(r.h);
            hi *= std::abs(r.h) + d;
            m.rel += d / std::abs(r.h);
        }
        m.tol = hi - lo;
        return m;
    }

    template <typename T, std::size_t M>
    void design(Src& s, Ctx& c) {
        Spec<T> p{};
        p.kind  = static_cast<int>(s.draw(KINDS - 1));
        p.order = s.one_in(3) ? M : static_cast<std::size_t>(s.range<long>(1, M));
        p.fs    = s.flip() ? T(1) : s.pick({T(8000), T(22050), T(44100), T(48000), T(96000), T(192000)});
        const bool band = p.kind == BP || p.kind == BS || p.kind == BSH;
        const ld f0     = s.one_in(4) ? s.log_uniform(1e-3, 0.49) : s.uniform(0.01, 0.49);
        p.fc            = static_cast<T>(f0 * p.fs);
        const ld room   = 2 * std::min<ld>(f0, 0.5L - f0);
        p.bw            = static_cast<T>(room * (s.one_in(3) ? s.log_uniform(0.01, 0.95) : s.uniform(0.1, 0.95)) * p.fs);
        p.gain          = static_cast<T>(s.one_in(8) ? s.pick({0.0, 6.0, -6.0}) : (s.flip() ? 1 : -1) * s.uniform(0.5, 30));
        p.ripple        = static_cast<T>(p.kind >= LS ? (p.gain == 0 ? 1 : std::abs(p.gain)) * s.uniform(0.05, 0.95) : is_chebyshev1 ? s.uniform(0.05, 6) : s.uniform(6, 90));
        c.label(names[p.kind]);
        c.label("order " + std::string(p.order < 3 ? std::to_string(p.order) : p.order % 2 ? "odd" : "even"));
        c.describe([&](auto& o) {
            o << names[p.kind] << "<" << tname<T>() << ", max " << M << "> order=" << p.order << " fs=" << p.fs << " f=" << p.fc;
            if (band) { o << " bw=" << p.bw; }
            if (p.kind >= LS) { o << " gain=" << p.gain; }
            if (!is_butterworth) { o << " ripple=" << p.ripple; }
        });
        const Make<T, M> made(p);
        const auto& sections = made.sections;
        const std::size_t poles = band ? 2 * p.order : p.order;
        VP_CHECK(sections.size() == (poles + 1) / 2 && sections.size() <= made.capacity, sections.size() << " sections of " << made.capacity << " for " << poles << " poles");
        const ld fc = static_cast<ld>(p.fc) / p.fs, bw = static_cast<ld>(p.bw) / p.fs, n = static_cast<ld>(p.order);

        // poles (float cannot hold the gain of many very narrow sections at once)
        if (std::is_same<T, float>::value && (band ? bw : std::min(fc, 0.5L - fc)) < (p.order > 5 ? 0.02L : 0.003L)) {
            c.label("beyond float");
            return;
        }
        const ld unsure = 60 * std::sqrt(eps<T>());
        for (const auto& b : sections) {
            VP_CHECK(std::isfinite(b.b0()) && std::isfinite(b.b1()) && std::isfinite(b.b2()) && std::isfinite(b.a1()) && std::isfinite(b.a2()), "a coefficient is not finite");
            const ld a1 = static_cast<ld>(b.a1()) / b.a0(), a2 = static_cast<ld>(b.a2()) / b.a0();
            const flt::C root = std::sqrt(flt::C(a1 * a1 / 4 - a2, 0));
            const ld radius   = std::max(std::abs(-a1 / 2 + root), std::abs(-a1 / 2 - root));
            VP_CHECK(radius < 1 + unsure && (b.stability() || radius > 1 - unsure), "unstable section: largest pole at radius " << radius << ", stability() = " << b.stability());
        }

        // magnitude response
        const ld narrow = band ? 1 + fc / bw + (0.5L - fc) / bw : 1;
        const ld mult   = 30 * n * n * narrow * (1 + 1 / std::sin(2 * flt::PI * fc)) * (1 + (p.kind >= LS ? 10 + std::abs(static_cast<ld>(p.gain)) / 4 : 0));
        const ld w_norm = p.kind == LP || p.kind == HS ? 0 : p.kind == HP || p.kind == LS ? 0.5L : p.kind == BP ? std::atan(std::sqrt(std::tan(flt::PI * (fc - bw / 2)) * std::tan(flt::PI * (fc + bw / 2)))) / flt::PI : fc < 0.25L ? 0.5L : 0;
        const auto at_norm = measure(sections, w_norm, mult);
        std::vector<ld> points{0, 0.5L, w_norm, s.uniform(0, 0.5), s.uniform(0, 0.5), static_cast<ld>(s.log_uniform(1e-4, 0.5))};
        if (band) {
            for (ld x : {fc - bw / 2, fc + bw / 2, fc, fc + bw / 4, fc - bw / 4, fc - bw, fc + bw}) {
                points.push_back(std::min(0.5L, std::max(0.0L, x)));
            }
        } else {
            for (ld x : {fc, fc / 2, fc * 0.9L, fc * 1.1L, fc * 2}) {
                points.push_back(std::min(0.5L, x));
            }
        }
        long judged = 0;
        if (at_norm.rel < 0.05L) {
            for (const ld x : points) {
                const auto m   = measure(sections, x, mult);
                const ld want  = std::sqrt(power(p, x));
                const ld tol   = m.tol + at_norm.rel * (std::abs(m.h) + m.tol) + 1e-13L;
                const ld limit = want > 0.05L ? 0.1L * want : 0.01L;
                if (!(tol < limit)) {
                    continue; // this precision cannot represent the response there
                }
                ++judged;
                VP_CHECK(std::abs(std::abs(m.h) - want) <= tol, "magnitude at " << x << " fs is " << std::abs(m.h) << " (" << 20 * std::log10(std::abs(m.h)) << " dB), expected " << want << " (" << 20 * std::log10(want) << " dB) +- " << tol);
                if (x == w_norm) { // and no phase inversion where the prototype has its reference gain
                    VP_CHECK(m.h.real() > 0 && std::abs(m.h.imag()) <= 2 * tol + 1e-12L, "response at " << x << " fs is " << m.h << ", expected a positive real number");
                }
            }
        }
        c.nontrivial(judged >= 6);
        c.label(judged >= 6 ? "judged" : judged ? "partly judged" : "not judged");
    }
    template <typename T>
    void designs(Src& s, Ctx& c) {
        switch (s.draw(3)) {
            case 0: return design<T, 5>(s, c);
            case 1: return design<T, 1>(s, c);
            case 2: return design<T, 2>(s, c);
            default: return design<T, 12>(s, c);
        }
    }
} // namespace
