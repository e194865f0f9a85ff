#include "ref_spectral.hpp"
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
using namespace vp;
namespace sp = edsp::spectral;

namespace {
    template <typename T>
    void convolution(Src& s, Ctx& c) {
        const auto n = fft_len(s, c, 1, 300);
        const auto x = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        auto y       = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        long impulse = -1;
        if (s.one_in(5)) {
            impulse = static_cast<long>(s.draw(n - 1));
            std::fill(y.begin(), y.end(), T(0));
            y[impulse] = 1;
            c.label("impulse");
        }
        const bool alias = s.one_in(5);
        c.nontrivial(n > 2 && ref::norm2(x) > 0 && ref::norm2(y) > 0);
        c.describe([&](auto& o) { o << "conv<" << tname<T>() << ">" << (alias ? " onto the first input" : "") << " of " << show(x) << " and " << show(y); });
        Buf<T> a(x), b(y), out(n);
        T* dst = alias ? a.begin() : out.begin();
        sp::conv(a.begin(), a.end(), b.begin(), dst);
        const ld tol = 3 * ref::fft_mult(2 * n) * eps<T>() * ref::norm2(x) * ref::norm2(y) + 1e-30L;
        for (std::size_t i = 0; i < n; ++i) {
            ld e = 0;
            for (std::size_t j = 0; j <= i; ++j) {
                e += static_cast<ld>(x[i - j]) * y[j];
            }
            require_near("conv", i, dst[i], e, tol);
        }
        if (impulse >= 0) { // convolving with a delayed impulse delays
            for (std::size_t i = 0; i < n; ++i) {
                require_near("conv with an impulse", i, dst[i], static_cast<long>(i) < impulse ? 0.0L : static_cast<ld>(x[i - impulse]), tol);
            }
        }
        if (!alias) {
            require_unchanged(a, x);
        }
        require_unchanged(b, y);
    }

    template <typename T>
    void correlation(Src& s, Ctx& c) {
        const auto n    = fft_len(s, c, 1, 300);
        const bool self = s.flip();
        const auto x    = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        const auto y    = self ? x : signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        const int scale = static_cast<int>(s.draw(3)); // 3: default argument
        c.label(self ? "auto" : "cross");
        c.label(scale == 0 ? "none" : scale == 1 ? "biased" : scale == 2 ? "unbiased" : "default");
        c.nontrivial(n > 2 && ref::norm2(x) > 0 && ref::norm2(y) > 0);
        c.describe([&](auto& o) { o << (self ? "auto" : "cross") << "correlation<" << tname<T>() << "> scale " << scale << " of " << show(x) << " and " << show(y); });
        const auto option = scale == 1 ? sp::CorrelationScale::Biased : scale == 2 ? sp::CorrelationScale::Unbiased : sp::CorrelationScale::None;
        Buf<T> a(x), b(y), out(n);
        if (self) {
            scale == 3 ? sp::xcorr(a.cbegin(), a.cend(), out.begin()) : sp::xcorr(a.cbegin(), a.cend(), out.begin(), option);
        } else {
            scale == 3 ? sp::xcorr(a.cbegin(), a.cend(), b.cbegin(), out.begin()) : sp::xcorr(a.cbegin(), a.cend(), b.cbegin(), out.begin(), option);
        }
        const ld tol = 3 * ref::fft_mult(2 * n) * eps<T>() * ref::norm2(x) * ref::norm2(y) + 1e-30L;
        for (std::size_t k = 0; k < n; ++k) {
            ld e = 0;
            for (std::size_t j = k; j < n; ++j) {
                e += static_cast<ld>(x[j]) * y[j - k];
            }
            const ld d = scale == 1 ? static_cast<ld>(n) : scale == 2 ? static_cast<ld>(n - k) : 1.0L;
            require_near("xcorr", k, out.p[k], e / d, tol / d);
        }
        require_unchanged(a, x);
        require_unchanged(b, y);
    }

    template <typename T>
    void analytic(Src& s, Ctx& c) {
        const auto n = fft_len(s, c, 1, 300);
        const auto x = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        c.nontrivial(n > 3 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "hilbert<" << tname<T>() << "> of " << show(x); });
        Buf<T> a(x);
        Buf<std::complex<T>> out(n);
        sp::hilbert(a.cbegin(), a.cend(), out.begin());
        const ref::Circle w(n);
        std::vector<ref::cld> f(n);
        for (std::size_t k = 0; k < n; ++k) {
            f[k] = ref::dft_bin(x, k, -1, w);
            const bool edge = k == 0 || 2 * k == n;
            f[k] *= edge ? 1.0L : 2 * k < n ? 2.0L : 0.0L;
        }
        const ld tol = 4 * ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L;
        for (std::size_t i = 0; i < n; ++i) {
            require_near("analytic signal", i, out.p[i], ref::dft_bin(f, i, 1, w) / static_cast<ld>(n), tol);
            require_near("real part of the analytic signal", i, out.p[i].real(), static_cast<ld>(x[i]), tol);
        }
        require_unchanged(a, x);
    }

    template <typename T>
    void power_spectrum(Src& s, Ctx& c) {
        const auto n = fft_len(s, c);
        const auto x = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        c.nontrivial(n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "spectrum<" << tname<T>() << "> of " << show(x); });
        Buf<T> a(x), out(n / 2 + 1);
        sp::spectrum(a.cbegin(), a.cend(), out.begin());
        const ref::Circle w(n);
        const ld d = ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L;
        for (std::size_t k = 0; k <= n / 2; ++k) {
            const ld m = std::abs(ref::dft_bin(x, k, -1, w));
            require_near("spectrum", k, out.p[k], m * m, 2 * m * d + d * d + 8 * eps<T>() * m * m);
            VP_CHECK(out.p[k] >= 0, "spectrum[" << k << "] is negative");
        }
        require_unchanged(a, x);
    }

    template <typename T>
    void cepstra(Src& s, Ctx& c) {
        const auto n = fft_len(s, c, 1, 200);
        auto x       = signal<T>(s, n, magnitude<T>(s, -3, 3, 2));
        x[s.draw(n - 1)] += static_cast<T>(2 * max_abs(x) + 1); // few bins vanish
        const ref::Circle w(2 * n);
        auto padded = x;
        padded.resize(2 * n);
        const ld d = ref::fft_mult(2 * n) * eps<T>() * ref::norm2(x);
        std::vector<ld> l(2 * n);
        ld err = 0, norm = 0;
        for (std::size_t k = 0; k < 2 * n; ++k) {
            const ld m = std::abs(ref::dft_bin(padded, std::min(k, 2 * n - k), -1, w));
            if (m < 20 * d) {
                c.label("a bin vanishes");
                return;
            }
            l[k] = std::log(m);
            err += 1.1L * d / m + 4 * eps<T>() * std::abs(l[k]);
            norm += l[k] * l[k];
        }
        const ld nn = static_cast<ld>(2 * n), tol = err / nn + ref::fft_mult(2 * n) * eps<T>() * std::sqrt(norm) / nn + 1e-30L;
        c.nontrivial(n > 2);
        c.describe([&](auto& o) { o << "cepstrum<" << tname<T>() << "> of " << show(x); });
        Buf<T> a(x), out(n);
        sp::cepstrum(a.cbegin(), a.cend(), out.begin());
        for (std::size_t i = 0; i < n; ++i) {
            require_near("cepstrum", i, out.p[i], ref::dft_bin(l, i, 1, w).real() / nn, tol);
        }
        require_unchanged(a, x);
    }
} // namespace

VP_FAMILY("convolution", 24000, 240000, "conv against the direct sum, impulses, in place; non-trivial: N>2, both non-zero") { VP_DISPATCH(convolution); }
VP_FAMILY("correlation", 24000, 240000, "auto- and cross-correlation against the direct sum in every scale; non-trivial: N>2, both non-zero") { VP_DISPATCH(correlation); }
VP_FAMILY("analytic", 16000, 160000, "analytic signal against the one-sided spectrum; non-trivial: N>3, non-zero") { VP_DISPATCH(analytic); }
VP_FAMILY("spectrum", 16000, 160000, "squared magnitude of the transform; non-trivial: N>2, non-zero") { VP_DISPATCH(power_spectrum); }
VP_FAMILY("cepstrum", 16000, 160000, "real cepstrum of the zero-padded signal where no bin vanishes; non-trivial: N>2") { VP_DISPATCH(cepstra); }
