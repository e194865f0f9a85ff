// long double reference transforms, by their defining sums
#pragma once
#include "common.hpp"
namespace ref {
    using vp::ld;
    using cld = std::complex<long double>;
    // cos and sin of 2*pi*k/m for k in [0, m)
    struct Circle {
        explicit Circle(std::size_t m) : c(m), s(m) {
            for (std::size_t k = 0; k < m; ++k) {
                const ld a = 2 * std::acos(-1.0L) * static_cast<ld>(k) / static_cast<ld>(m);
                c[k]       = std::cos(a);
                s[k]       = std::sin(a);
            }
        }
        std::vector<ld> c, s;
        std::size_t m() const {
            return c.size();
        }
    };
    // one bin of the forward (sign -1) or unscaled backward (sign +1) transform
    template <typename V>
    cld dft_bin(const V& x, std::size_t k, int sign, const Circle& w) {
        const auto n = x.size();
        ld re = 0, im = 0;
        std::size_t a = 0;
        for (std::size_t i = 0; i < n; ++i) {
            const cld v(x[i]);
            const ld c = w.c[a], s = sign * w.s[a];
            re += v.real() * c - v.imag() * s;
            im += v.real() * s + v.imag() * c;
            a += k;
            a = a >= n ? a % n : a;
        }
        return {re, im};
    }
    // DCT-II with the factor two
    template <typename V>
    ld dct_bin(const V& x, std::size_t k, const Circle& w4) { // w4 over 4N
        const auto n = x.size();
        ld a         = 0;
        for (std::size_t i = 0; i < n; ++i) {
            a += 2 * static_cast<ld>(x[i]) * w4.c[((2 * i + 1) * k) % (4 * n)];
        }
        return a;
    }
    // inverse of the above
    template <typename V>
    ld idct_bin(const V& x, std::size_t i, const Circle& w4) {
        const auto n = x.size();
        ld a         = static_cast<ld>(x[0]);
        for (std::size_t k = 1; k < n; ++k) {
            a += 2 * static_cast<ld>(x[k]) * w4.c[((2 * i + 1) * k) % (4 * n)];
        }
        return a / static_cast<ld>(2 * n);
    }
    template <typename V>
    ld norm2(const V& x) {
        ld a = 0;
        for (const auto& v : x) {
            a += std::norm(cld(v));
        }
        return std::sqrt(a);
    }
    // bound on the absolute error of one output of a fast transform of data of this norm, in units of eps*norm
    inline ld fft_mult(std::size_t n) {
        return 24 + 6 * std::log2(static_cast<ld>(n) + 1);
    }
} // namespace ref
namespace vp {
    // a transform length: every kind of factorisation, mostly short
    inline std::size_t fft_len(Src& s, Ctx& c, long lo = 1, long hi = 400) {
        long n;
        switch (s.draw(7)) {
            case 0:
                n = s.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 25, 31, 32, 97, 101, 127, 128, 211, 243, 256, 257, 307, 331, 353, 360, 397});
                break;
            case 1:
                n = s.one_in(12) ? s.range<long>(hi, 6 * hi) : s.range<long>(lo, hi);
                break;
            default:
                n = s.size(lo, hi / 3);
        }
        n = std::max(lo, n);
        c.label(n == 1 ? "N=1" : (n & (n - 1)) == 0 ? "N=2^k" : n % 2 ? "N odd" : "N even");
        return static_cast<std::size_t>(n);
    }
    template <typename T>
    std::vector<std::complex<T>> csignal(Src& s, std::size_t n, double amp) {
        const auto re = signal<T>(s, n, amp);
        const auto im = s.one_in(6) ? std::vector<T>(n) : signal<T>(s, n, amp);
        std::vector<std::complex<T>> v(n);
        for (std::size_t i = 0; i < n; ++i) {
            v[i] = {re[i], im[i]};
        }
        return v;
    }
    template <typename T>
    void require_near(const char* what, std::size_t k, std::complex<T> got, ref::cld e, ld tol) {
        VP_CHECK(std::isfinite(got.real()) && std::isfinite(got.imag()) && std::abs(ref::cld(got) - e) <= tol, what << "[" << k << "] = " << got << ", expected " << e << " +- " << tol);
    }
    template <typename T>
    void require_near(const char* what, std::size_t k, T got, ld e, ld tol) {
        VP_CHECK(std::isfinite(got) && std::abs(static_cast<ld>(got) - e) <= tol, what << "[" << k << "] = " << got << ", expected " << e << " +- " << tol);
    }
} // namespace vp
