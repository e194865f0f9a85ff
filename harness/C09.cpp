#include "ref_spectral.hpp"
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
using namespace vp;
namespace sp = edsp::spectral;

namespace {
    // a buffer whose data starts at any alignment the element allows
    template <typename E>
    struct Shifted {
        Shifted(std::size_t n, std::size_t shift) : b(n + shift), off(shift) {}
        Shifted(const std::vector<E>& v, std::size_t shift) : b(v.size() + shift), off(shift) {
            std::copy(v.begin(), v.end(), b.p + off);
        }
        E* begin() {
            return b.p + off;
        }
        E* end() {
            return b.p + b.n;
        }
        std::vector<E> copy() {
            return std::vector<E>(begin(), end());
        }
        Buf<E> b;
        std::size_t off;
    };
    // bins to compare: all of a short transform, some of a long one
    std::vector<std::size_t> bins(Src& s, std::size_t n) {
        std::vector<std::size_t> r;
        if (n <= 96) {
            r.resize(n);
            std::iota(r.begin(), r.end(), 0);
            return r;
        }
        Bulk b(s.draw(~0ULL));
        for (int i = 0; i < 24; ++i) {
            r.push_back(b.next() % n);
        }
        r.push_back(0);
        r.push_back(n / 2);
        r.push_back(n - 1);
        return r;
    }
    struct Setup {
        std::size_t n, si, so;
        double amp;
        bool in_place;
    };
    Setup setup(Src& s, Ctx& c) {
        Setup r;
        r.n        = fft_len(s, c);
        r.si       = s.draw(3) ? 0 : 1;
        r.so       = s.draw(3) ? 0 : 1;
        r.amp      = magnitude<float>(s, -4, 5, 2);
        r.in_place = s.one_in(4);
        if (r.in_place) {
            c.label("in place");
        }
        if (r.si || r.so) {
            c.label("unaligned");
        }
        return r;
    }

    template <typename T>
    void complex_dft(Src& s, Ctx& c) {
        const auto k = setup(s, c);
        const auto x = csignal<T>(s, k.n, k.amp);
        c.nontrivial(k.n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "complex DFT<" << tname<T>() << "> N=" << k.n << (k.in_place ? " in place" : "") << " offsets " << k.si << "," << k.so << " of " << show(x); });
        const ref::Circle w(k.n);
        const ld tol = ref::fft_mult(k.n) * eps<T>() * ref::norm2(x) + static_cast<ld>(k.n) * std::numeric_limits<T>::min();
        Shifted<std::complex<T>> in(x, k.si), out(k.n, k.so);
        auto* src = in.begin();
        auto* dst = k.in_place ? src : out.begin();
        sp::cdft(src, src + k.n, dst);
        const std::vector<std::complex<T>> y(dst, dst + k.n);
        for (auto i : bins(s, k.n)) {
            require_near("cdft", i, y[i], ref::dft_bin(x, i, -1, w), tol);
        }
        VP_CHECK(k.in_place || in.copy() == x, "cdft modified its input");
        { // Parseval
            const ld a = ref::norm2(x), b = ref::norm2(y) / std::sqrt(static_cast<ld>(k.n));
            VP_CHECK(std::abs(a - b) <= tol, "the energy of the transform is " << b * b << ", of the signal " << a * a);
        }
        // back
        Shifted<std::complex<T>> back(k.n, k.si);
        auto* b = k.in_place ? dst : back.begin();
        sp::cidft(dst, dst + k.n, b);
        for (std::size_t i = 0; i < k.n; ++i) {
            require_near("inverse of the forward complex DFT", i, b[i], ref::cld(x[i]), 3 * tol);
        }
        VP_CHECK(k.in_place || out.copy() == y, "cidft modified its input");
    }

    template <typename T>
    void inverse_dft(Src& s, Ctx& c) {
        const auto k = setup(s, c);
        const auto x = csignal<T>(s, k.n, k.amp);
        c.nontrivial(k.n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "inverse complex DFT<" << tname<T>() << "> N=" << k.n << (k.in_place ? " in place" : "") << " offsets " << k.si << "," << k.so << " of " << show(x); });
        const ref::Circle w(k.n);
        const ld nn = static_cast<ld>(k.n), tol = ref::fft_mult(k.n) * eps<T>() * ref::norm2(x) / nn + std::numeric_limits<T>::min() * nn;
        Shifted<std::complex<T>> in(x, k.si), out(k.n, k.so);
        auto* dst = k.in_place ? in.begin() : out.begin();
        sp::cidft(in.begin(), in.end(), dst);
        for (auto i : bins(s, k.n)) {
            require_near("cidft", i, dst[i], ref::dft_bin(x, i, +1, w) / nn, tol);
        }
        VP_CHECK(k.in_place || in.copy() == x, "cidft modified its input");
    }

    template <typename T>
    void real_dft(Src& s, Ctx& c) {
        auto k       = setup(s, c);
        const auto x = signal<T>(s, k.n, k.amp);
        const auto m = k.n / 2 + 1;
        c.nontrivial(k.n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "real DFT<" << tname<T>() << "> N=" << k.n << " offsets " << k.si << "," << k.so << " of " << show(x); });
        VP_CHECK(sp::make_fft_size(static_cast<long>(k.n)) == static_cast<long>(m), "make_fft_size(" << k.n << ") = " << sp::make_fft_size(static_cast<long>(k.n)));
        const ref::Circle w(k.n);
        const ld tol = ref::fft_mult(k.n) * eps<T>() * ref::norm2(x) + static_cast<ld>(k.n) * std::numeric_limits<T>::min();
        Shifted<T> in(x, k.si);
        Shifted<std::complex<T>> out(m, k.so);
        sp::dft(in.begin(), in.end(), out.begin());
        const auto y = out.copy();
        for (auto i : bins(s, m)) {
            require_near("dft", i, y[i], ref::dft_bin(x, i, -1, w), tol);
        }
        VP_CHECK(in.copy() == x, "dft modified its input");
        // back: the free function works for even lengths, the engine for all
        Shifted<T> back(k.n, k.si);
        if (k.n % 2 == 0) {
            VP_CHECK(sp::make_ifft_size(static_cast<long>(m)) == static_cast<long>(k.n), "make_ifft_size(" << m << ") = " << sp::make_ifft_size(static_cast<long>(m)));
            sp::idft(out.begin(), out.end(), back.begin());
        } else {
            sp::fft_engine<T> e(k.n);
            e.idft(out.begin(), back.begin());
            e.idft_scale(back.begin());
        }
        for (std::size_t i = 0; i < k.n; ++i) {
            require_near("inverse of the forward real DFT", i, back.begin()[i], static_cast<ld>(x[i]), 3 * tol);
        }
        VP_CHECK(out.copy() == y, "idft modified its input");
        if (k.n == 1) { // a single bin stands for an empty signal: nothing is written
            Buf<T> none(0);
            sp::idft(out.begin(), out.end(), none.begin());
        }
    }

    template <typename T>
    void cosine(Src& s, Ctx& c) {
        const auto k = setup(s, c);
        const auto x = signal<T>(s, k.n, k.amp);
        c.nontrivial(k.n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "DCT<" << tname<T>() << "> N=" << k.n << (k.in_place ? " in place" : "") << " offsets " << k.si << "," << k.so << " of " << show(x); });
        const ref::Circle w(4 * k.n);
        const ld nn = static_cast<ld>(k.n), tol = 2 * ref::fft_mult(k.n) * eps<T>() * ref::norm2(x) + nn * std::numeric_limits<T>::min();
        {
            Shifted<T> in(x, k.si), out(k.n, k.so), back(k.n, k.si);
            auto* dst = k.in_place ? in.begin() : out.begin();
            sp::dct(in.begin(), in.end(), dst);
            const std::vector<T> y(dst, dst + k.n);
            for (auto i : bins(s, k.n)) {
                require_near("dct", i, y[i], ref::dct_bin(x, i, w), tol);
            }
            VP_CHECK(k.in_place || in.copy() == x, "dct modified its input");
            auto* b = k.in_place ? dst : back.begin();
            sp::idct(dst, dst + k.n, b);
            for (std::size_t i = 0; i < k.n; ++i) {
                require_near("inverse of the forward DCT", i, b[i], static_cast<ld>(x[i]), 3 * tol);
            }
            VP_CHECK(k.in_place || out.copy() == y, "idct modified its input");
        }
        {
            Shifted<T> in(x, k.si), out(k.n, k.so);
            sp::idct(in.begin(), in.end(), out.begin());
            for (auto i : bins(s, k.n)) {
                require_near("idct", i, out.begin()[i], ref::idct_bin(x, i, w), tol / nn);
            }
        }
    }

    template <typename T>
    void hartley(Src& s, Ctx& c) {
        const auto k = setup(s, c);
        const auto x = signal<T>(s, k.n, k.amp);
        c.nontrivial(k.n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) { o << "Hartley transform<" << tname<T>() << "> N=" << k.n << (k.in_place ? " in place" : "") << " offsets " << k.si << "," << k.so << " of " << show(x); });
        const ref::Circle w(k.n);
        const ld nn = static_cast<ld>(k.n), tol = 2 * ref::fft_mult(k.n) * eps<T>() * ref::norm2(x) + nn * std::numeric_limits<T>::min();
        Shifted<T> in(x, k.si), out(k.n, k.so), back(k.n, k.si);
        auto* dst = k.in_place ? in.begin() : out.begin();
        sp::hartley(in.begin(), in.end(), dst);
        for (auto i : bins(s, k.n)) {
            const auto e = ref::dft_bin(x, i, +1, w); // sum x cos + i sum x sin
            require_near("hartley", i, dst[i], e.real() + e.imag(), tol);
        }
        VP_CHECK(k.in_place || in.copy() == x, "hartley modified its input");
        auto* b = k.in_place ? dst : back.begin();
        sp::hartley(dst, dst + k.n, b);
        for (std::size_t i = 0; i < k.n; ++i) {
            require_near("Hartley transform applied twice, over N", i, static_cast<T>(b[i] / static_cast<T>(nn)), static_cast<ld>(x[i]), 3 * tol);
        }
    }
} // namespace

VP_FAMILY("complex", 24000, 240000, "complex DFT against the defining sum, Parseval, and back; non-trivial: N>2, non-zero") { VP_DISPATCH(complex_dft); }
VP_FAMILY("inverse", 16000, 160000, "inverse complex DFT against the defining sum; non-trivial: N>2, non-zero") { VP_DISPATCH(inverse_dft); }
VP_FAMILY("real", 24000, 240000, "real DFT against the defining sum, and back; non-trivial: N>2, non-zero") { VP_DISPATCH(real_dft); }
VP_FAMILY("cosine", 20000, 200000, "DCT and inverse DCT against the defining sums, and back; non-trivial: N>2, non-zero") { VP_DISPATCH(cosine); }
VP_FAMILY("hartley", 20000, 200000, "Hartley transform against the defining sum, and applied twice; non-trivial: N>2, non-zero") { VP_DISPATCH(hartley); }
