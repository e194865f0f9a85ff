// C26: the C interface, in the precision of its real_t. Compiled twice: C26.cpp
// (double) and C26single.cpp (float, against the sources built with ENABLE_SINGLE).
#ifdef VP_PYTHON
#include "py.hpp"
#endif
#include "ref_spectral.hpp"
#include "ref_stats.hpp"
#include "ref_windows.hpp"
#include <cstdlib>
#include <map>

#ifdef VP_PYTHON // C27: the same functions of the Python module
#include "pyapi.hpp"
#else
namespace api {
#include <cedsp/algorithm.h>
#include <cedsp/converter.h>
#include <cedsp/core.h>
#include <cedsp/spectral.h>
#include <cedsp/statistics.h>
#include <cedsp/windowing.h>
}
#endif

namespace {
    using namespace vp;
    using T       = api::real_t;
    using complex = std::complex<T>;
    const T hole  = static_cast<T>(-777.25);

    std::string head(const char* f) {
        return std::string(f) + "<" + tname<T>() + ">";
    }
    int isize(std::size_t n) {
        return static_cast<int>(n);
    }
    std::vector<T> samples(Src& s, Ctx& c, std::size_t n) {
        size_label(c, n);
        return signal<T>(s, n, std::pow(10.0, s.range<int>(-3, 4)));
    }
    // runs an element by element operation out of place or in place and returns its output
    template <typename F>
    std::vector<T> run(Src& s, Ctx& c, const std::vector<T>& in, F f) {
        Buf<T> a(in);
        if (s.flip()) {
            c.label("in place");
            f(a.p, a.p);
            return a.vec();
        }
        Buf<T> out(in.size(), hole);
        f(a.p, out.p);
        require_unchanged(a, in);
        return out.vec();
    }
    void expect(const char* what, std::size_t i, T got, ld want, ld mult) {
        VP_CHECK(close(got, want, 0, mult), what << ": element " << i << " is " << got << ", expected " << want);
    }

    void elementwise(Src& s, Ctx& c) {
        auto in     = samples(s, c, len(s, 0));
        const int k = s.range<int>(0, 7);
        static const char* names[] = {"array_scale", "array_scale_clip", "array_ceil", "array_floor", "array_round", "array_clip", "array_trunc", "array_abs"};
        T factor = static_cast<T>(s.real(-20, 20));
        T lo = static_cast<T>(s.real(-20, 20)), hi = static_cast<T>(s.real(-20, 20));
        if (lo > hi) {
            std::swap(lo, hi);
        }
        if (k >= 2 && k != 5) { // halves and their neighbours
            for (std::size_t i = 0; i < in.size(); i += 3) {
                in[i] = static_cast<T>(static_cast<double>(s.range<int>(-9, 9)) / 2);
                if (i % 2) {
                    in[i] = std::nextafter(in[i], static_cast<T>(i % 4 == 1 ? 100 : -100));
                }
                if (i > 60) {
                    break;
                }
            }
        }
        c.label(names[k]);
        c.nontrivial(in.size() > 1);
        c.describe([&](auto& o) { o << head(names[k]) << " factor " << factor << " limits " << lo << " " << hi << " x " << show(in); });
        const int n    = isize(in.size());
        const auto out = run(s, c, in, [&](const T* x, T* y) {
            switch (k) {
                case 0: api::array_scale(x, n, y, factor); break;
                case 1: api::array_scale_clip(x, n, y, factor, lo, hi); break;
                case 2: api::array_ceil(x, n, y); break;
                case 3: api::array_floor(x, n, y); break;
                case 4: api::array_round(x, n, y); break;
                case 5: api::array_clip(x, n, y, lo, hi); break;
                case 6: api::array_trunc(x, n, y); break;
                default: api::array_abs(x, n, y); break;
            }
        });
        for (std::size_t i = 0; i < in.size(); ++i) {
            const ld x = in[i];
            ld e       = 0;
            switch (k) {
                case 0: e = x * factor; break;
                case 1: e = std::min<ld>(std::max<ld>(x * factor, lo), hi); break;
                case 2: e = std::ceil(x); break;
                case 3: e = std::floor(x); break;
                case 4: e = std::round(x); break;
                case 5: e = std::min<ld>(std::max<ld>(x, lo), hi); break;
                case 6: e = std::trunc(x); break;
                default: e = std::abs(x); break;
            }
            expect(names[k], i, out[i], e, k <= 1 ? 2 : 0);
        }
    }

    void building(Src& s, Ctx& c) {
        switch (s.draw(4)) {
            case 0: {
                c.label("array_concatenate");
                const auto a = samples(s, c, len(s, 0)), b = samples(s, c, len(s, 0));
                c.nontrivial(!a.empty() && !b.empty());
                c.describe([&](auto& o) { o << head("array_concatenate") << " " << show(a) << " + " << show(b); });
                Buf<T> x(a), y(b), out(a.size() + b.size(), hole);
                api::array_concatenate(x.p, isize(a.size()), y.p, isize(b.size()), out.p);
                for (std::size_t i = 0; i < out.n; ++i) {
                    expect("array_concatenate", i, out.p[i], i < a.size() ? a[i] : b[i - a.size()], 0);
                }
                require_unchanged(x, a);
                require_unchanged(y, b);
                break;
            }
            case 1: {
                c.label("array_padder");
                const auto a   = samples(s, c, len(s, 0));
                const auto all = a.size() + static_cast<std::size_t>(s.size(0, 2000));
                c.nontrivial(!a.empty() && all > a.size());
                c.describe([&](auto& o) { o << head("array_padder") << " " << show(a) << " to " << all; });
                Buf<T> x(a), out(all, hole);
                api::array_padder(x.p, isize(a.size()), out.p, isize(all));
                for (std::size_t i = 0; i < all; ++i) {
                    expect("array_padder", i, out.p[i], i < a.size() ? a[i] : 0, 0);
                }
                require_unchanged(x, a);
                break;
            }
            case 2: {
                const bool log = s.flip();
                c.label(log ? "array_logspace" : "array_linspace");
                const auto n = len(s, 0, 2000, 20000);
                size_label(c, n);
                const T a = static_cast<T>(log ? s.real(-6, 6) : s.real(-1000, 1000)), b = static_cast<T>(log ? s.real(-6, 6) : s.real(-1000, 1000));
                c.nontrivial(n > 2 && a != b);
                c.describe([&](auto& o) { o << head(log ? "array_logspace" : "array_linspace") << " " << n << " from " << a << " to " << b; });
                Buf<T> out(n, hole);
                log ? api::array_logspace(out.p, isize(n), a, b) : api::array_linspace(out.p, isize(n), a, b);
                for (std::size_t i = 0; i < n; ++i) {
                    const ld x   = n == 1 ? (out.p[0] == (log ? std::pow(T(10), b) : b) ? b : a) : static_cast<ld>(a) + (static_cast<ld>(b) - a) * static_cast<ld>(i) / static_cast<ld>(n - 1);
                    const ld m   = std::max(std::abs(static_cast<ld>(a)), std::abs(static_cast<ld>(b)));
                    const ld e   = log ? std::pow(10.0L, x) : x;
                    const ld tol = (log ? (16 * 2.31L * (m + 1) * e) : 16 * m) * eps<T>();
                    require_near(log ? "array_logspace" : "array_linspace", i, out.p[i], e, tol);
                }
                break;
            }
            case 3: {
                c.label("array_normalize");
                auto in = samples(s, c, len(s, 1));
                if (max_abs(in) == 0) {
                    in[s.draw(in.size() - 1)] = -3;
                }
                c.nontrivial(in.size() > 1);
                c.describe([&](auto& o) { o << head("array_normalize") << " x " << show(in); });
                const auto out = run(s, c, in, [&](const T* x, T* y) { api::array_normalize(x, isize(in.size()), y); });
                const ld peak = max_abs(in);
                for (std::size_t i = 0; i < in.size(); ++i) {
                    expect("array_normalize", i, out[i], in[i] / peak, 4);
                }
                break;
            }
            default: {
                const int w = s.range<int>(0, 10);
                const auto n = len(s, 2, 2000, 20000);
                const auto& sp = specs[w];
                c.label(std::string("window ") + sp.name);
                c.nontrivial(n > 3);
                c.describe([&](auto& o) { o << head(sp.name) << " window of " << n; });
                Buf<T> out(n, hole);
                static void (*const make[])(T*, int) = {api::bartlett, api::blackman, api::blackman_harris, api::blackman_nutall, api::boxcar, api::flattop,
                                                        api::hamming, api::hanning, api::rectangular, api::triangular, api::welch};
                make[w](out.p, isize(n));
                for (std::size_t i = 0; i < n; ++i) {
                    require_near(sp.name, i, out.p[i], sp.w(static_cast<ld>(i), static_cast<ld>(n)), 100 * eps<T>());
                }
            }
        }
    }

    void search(Src& s, Ctx& c) {
        const auto n = len(s, 0);
        std::vector<T> v(n);
        Bulk b(s.draw(~0ULL));
        const int spread = s.range<int>(1, 200);
        for (auto& x : v) {
            x = static_cast<T>(static_cast<int>(b.next() % static_cast<unsigned>(spread)) - spread / 2) / 2;
        }
        const bool sort = s.flip();
        if (sort) {
            std::sort(v.begin(), v.end());
        }
        T value = static_cast<T>(s.range<int>(-200, 200)) / 2;
        if (n && s.draw(2)) {
            value = v[s.draw(n - 1)];
        }
        long where = -1;
        for (std::size_t i = n; i-- > 0;) {
            where = v[i] == value ? static_cast<long>(i) : where;
        }
        size_label(c, n);
        c.label(where < 0 ? "absent" : "present");
        c.nontrivial(n > 1);
        c.describe([&](auto& o) { o << head("search") << " for " << value << (sort ? " in sorted " : " in ") << show(v); });
        Buf<T> x(v);
        VP_CHECK(api::linear_search(x.p, isize(n), value) == where, "linear_search gives " << api::linear_search(x.p, isize(n), value) << ", expected " << where);
        VP_CHECK(api::index_of(x.p, isize(n), value) == where, "index_of gives " << api::index_of(x.p, isize(n), value) << ", expected " << where);
        VP_CHECK((api::contains(x.p, isize(n), value) > 0) == (where >= 0), "contains gives " << api::contains(x.p, isize(n), value));
        if (sort) {
            VP_CHECK(api::binary_search(x.p, isize(n), value) == where, "binary_search gives " << api::binary_search(x.p, isize(n), value) << ", expected " << where);
        }
        auto w = v;
        if (n && s.flip()) {
            const auto i = s.one_in(3) ? n - 1 : s.draw(n - 1);
            w[i] += static_cast<T>(0.5);
        }
        Buf<T> y(w);
        VP_CHECK((api::equal(x.p, isize(n), y.p) > 0) == (v == w), "equal gives " << api::equal(x.p, isize(n), y.p) << " for arrays that are " << (v == w ? "equal" : "different"));
        require_unchanged(x, v);
    }

    void conversions(Src& s, Ctx& c) {
        switch (s.draw(3)) {
            case 0: {
                const T db  = static_cast<T>(s.real(-300, 300) / (sizeof(T) == 4 ? 2 : 1));
                const T lin = static_cast<T>(s.log_uniform(1e-15, 1e15));
                const T ang = static_cast<T>(s.real(-1e4, 1e4));
                c.label("scalars");
                c.nontrivial(true);
                c.describe([&](auto& o) { o << head("scalar conversions") << " " << db << " dB, " << lin << ", angle " << ang; });
                const ld pi = std::acos(-1.0L);
                const ld rel = 8 + std::abs(static_cast<ld>(db)) / 4;
                require_close<T>("db2mag", api::db2mag(db), std::pow(10.0L, db / 20.0L), 0, rel);
                require_close<T>("db2pow", api::db2pow(db), std::pow(10.0L, db / 10.0L), 0, 2 * rel);
                require_close<T>("mag2db", api::mag2db(lin), 20 * std::log10(static_cast<ld>(lin)), 20, 8);
                require_close<T>("pow2db", api::pow2db(lin), 10 * std::log10(static_cast<ld>(lin)), 10, 8);
                require_close<T>("deg2rad", api::deg2rad(ang), ang * pi / 180, 0, 8);
                require_close<T>("rad2deg", api::rad2deg(ang), ang * 180 / pi, 0, 8);
                break;
            }
            case 1: {
                auto in = samples(s, c, len(s, 1));
                if (s.one_in(3)) {
                    for (auto& x : in) {
                        x = s.rec.size() % 2 ? std::abs(x) : -std::abs(x);
                    }
                }
                c.label("peaks");
                c.nontrivial(in.size() > 1);
                c.describe([&](auto& o) { o << head("peak2peak/peak2rms") << " of " << show(in); });
                Buf<T> a(in);
                const auto mm = std::minmax_element(in.begin(), in.end());
                require_close<T>("peak2peak", api::peak2peak(a.p, static_cast<long>(in.size())), static_cast<ld>(*mm.second) - *mm.first, 0, 2);
                if (max_abs(in) > 0) {
                    const ld rms = std::sqrt(ref::sum_sq(in) / static_cast<ld>(in.size()));
                    require_close<T>("peak2rms", api::peak2rms(a.p, static_cast<long>(in.size())), max_abs(in) / rms, 0, 16 + static_cast<ld>(in.size()));
                }
                require_unchanged(a, in);
                break;
            }
            default: {
                const auto n = len(s, 0);
                c.label("complex");
                const auto re = samples(s, c, n), im = samples(s, c, n);
                c.nontrivial(n > 1);
                c.describe([&](auto& o) { o << head("real/complex conversions") << " of " << show(re) << " and " << show(im); });
                Buf<T> a(re), b(im);
                Buf<T> pairs(2 * n, hole), only(2 * n, hole), r(n, hole), i(n, hole);
                api::ri2complex(a.p, b.p, static_cast<long>(n), reinterpret_cast<api::complex_t*>(pairs.p));
                api::real2complex(a.p, static_cast<long>(n), reinterpret_cast<api::complex_t*>(only.p));
                const auto packed = pairs.vec();
                api::complex2real(reinterpret_cast<const api::complex_t*>(pairs.p), static_cast<long>(n), r.p, i.p);
                require_unchanged(pairs, packed);
                for (std::size_t k = 0; k < n; ++k) {
                    VP_CHECK(packed[2 * k] == re[k] && packed[2 * k + 1] == im[k], "ri2complex[" << k << "] = (" << packed[2 * k] << ", " << packed[2 * k + 1] << "), expected (" << re[k] << ", " << im[k] << ")");
                    VP_CHECK(only.p[2 * k] == re[k] && only.p[2 * k + 1] == 0, "real2complex[" << k << "] = (" << only.p[2 * k] << ", " << only.p[2 * k + 1] << "), expected (" << re[k] << ", 0)");
                    VP_CHECK(r.p[k] == re[k] && i.p[k] == im[k], "complex2real[" << k << "] = " << r.p[k] << ", " << i.p[k] << ", expected " << re[k] << ", " << im[k]);
                }
                require_unchanged(a, re);
                require_unchanged(b, im);
            }
        }
    }

    void statistics(Src& s, Ctx& c) {
        const auto n = len(s, 1);
        auto v       = samples(s, c, n);
        const bool ordered = s.flip();
        Buf<T> b(v);
        const int m = isize(n);
        c.nontrivial(n > 1);
        if (ordered) {
            c.label("order");
            c.describe([&](auto& o) { o << head("order statistics") << " of " << show(v); });
            std::size_t imax = 0, imin = 0, iabs = 0, imabs = 0;
            for (std::size_t i = 0; i < n; ++i) {
                imax  = v[i] > v[imax] ? i : imax;
                imin  = v[i] < v[imin] ? i : imin;
                iabs  = std::abs(v[i]) > std::abs(v[iabs]) ? i : iabs;
                imabs = std::abs(v[i]) < std::abs(v[imabs]) ? i : imabs;
            }
            VP_CHECK(api::max(b.p, m) == v[imax], "max is " << api::max(b.p, m) << ", expected " << v[imax]);
            VP_CHECK(api::min(b.p, m) == v[imin], "min is " << api::min(b.p, m) << ", expected " << v[imin]);
            VP_CHECK(api::max_abs(b.p, m) == std::abs(v[iabs]), "max_abs is " << api::max_abs(b.p, m) << ", expected " << std::abs(v[iabs]));
            VP_CHECK(api::min_abs(b.p, m) == std::abs(v[imabs]), "min_abs is " << api::min_abs(b.p, m) << ", expected " << std::abs(v[imabs]));
            const auto p = api::peak(b.p, m), q = api::peak_abs(b.p, m);
            VP_CHECK(p.index == isize(imax) && p.value == v[imax], "peak is (" << p.index << ", " << p.value << "), expected (" << imax << ", " << v[imax] << ")");
            VP_CHECK(q.index == isize(iabs) && q.value == v[iabs], "peak_abs is (" << q.index << ", " << q.value << "), expected (" << iabs << ", " << v[iabs] << ")");
            require_close<T>("median", api::median(b.p, m), ref::median(v), max_abs(v), 2);
        } else if (s.flip()) {
            c.label("moments");
            c.describe([&](auto& o) { o << head("moments") << " of " << show(v); });
            require_within("mean", api::mean(b.p, m), {ref::mean(v), ref::mean_bound(v)});
            require_within("variance", api::variance(b.p, m), ref::central(v, 2));
            const auto e = ref::central(v, 2);
            const T sd   = api::standard_deviation(b.p, m);
            VP_CHECK(sd >= 0 && std::abs(static_cast<ld>(sd) * sd - e.value) <= e.bound + 8 * eps<T>() * e.value, "standard deviation " << sd << ", expected " << std::sqrt(e.value));
            const int k = s.range<int>(1, 8);
            const auto mk = ref::central(v, k);
            if (std::abs(mk.value) + mk.bound < static_cast<ld>(std::numeric_limits<T>::max()) / 1e3L / static_cast<ld>(n)) {
                require_within("moment", api::moment(b.p, m, k), mk);
            }
            ref::Est z;
            if (ref::standardized(v, 3, z)) {
                require_within("skewness", api::skewness(b.p, m), z);
                ref::standardized(v, 4, z);
                require_within("kurtosis", api::kurtosis(b.p, m), z);
            }
        } else {
            c.label("means");
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = b.p[i] = std::abs(v[i]) + static_cast<T>(1e-3);
            }
            int beta = s.range<int>(1, 5) * (s.flip() ? 1 : -1);
            c.describe([&](auto& o) { o << head("means") << ", power " << beta << ", of " << show(v); });
            ld lg = 0, lga = 0, inv = 0, p = 0;
            for (auto x : v) {
                lg += std::log(static_cast<ld>(x));
                lga += std::abs(std::log(static_cast<ld>(x)));
                inv += 1 / static_cast<ld>(x);
                p += std::pow(static_cast<ld>(x), beta);
            }
            const ld nn = static_cast<ld>(n);
            require_close<T>("geometric_mean", api::geometric_mean(b.p, m), std::exp(lg / nn), 0, 16 + (nn + 4) * (1 + lga / nn));
            require_close<T>("harmonic_mean", api::harmonic_mean(b.p, m), nn / inv, 0, 16 + nn);
            require_close<T>("generalized_mean", api::generalized_mean(b.p, m, beta), std::pow(p / nn, 1 / static_cast<ld>(beta)), 0, 32 + nn + 4 * std::abs(std::log(p / nn)));
            require_close<T>("norm", api::norm(b.p, m), std::sqrt(ref::sum_sq(v)), 0, 8 + nn);
        }
        require_unchanged(b, v);
    }

    T* raw(std::vector<complex>& v) {
        return reinterpret_cast<T*>(v.data());
    }

    void transforms(Src& s, Ctx& c) {
        const auto n  = fft_len(s, c, 1, 250);
        const int m   = isize(n);
        const int k   = s.range<int>(0, 5);
        const double amp = std::pow(10.0, s.range<int>(-3, 3));
        const ref::Circle w(n);
        static const char* names[] = {"fft+ifft", "complex_fft", "complex_ifft", "dct", "idct", "hartley"};
        c.label(names[k]);
        VP_CHECK(api::get_fft_size(m) == m / 2 + 1, "get_fft_size(" << m << ") is " << api::get_fft_size(m));
        VP_CHECK(api::get_ifft_size(m) == 2 * (m - 1), "get_ifft_size(" << m << ") is " << api::get_ifft_size(m));
        if (k == 0) {
            const auto x = signal<T>(s, n, amp);
            c.nontrivial(n > 2 && ref::norm2(x) > 0);
            c.describe([&](auto& o) { o << head(names[k]) << " of " << show(x); });
            const std::size_t bins = static_cast<std::size_t>(api::get_fft_size(m));
            Buf<T> a(x), out(2 * bins, hole);
            api::fft(a.p, m, reinterpret_cast<api::complex_t*>(out.p));
            require_unchanged(a, x);
            const ld tol = ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L;
            for (std::size_t i = 0; i < bins; ++i) {
                require_near("fft", i, complex(out.p[2 * i], out.p[2 * i + 1]), ref::dft_bin(x, i, -1, w), tol);
            }
            if (n % 2 == 0) {
                const auto spectrum = out.vec();
                Buf<T> back(static_cast<std::size_t>(api::get_ifft_size(isize(bins))), hole);
                api::ifft(reinterpret_cast<const api::complex_t*>(out.p), isize(bins), back.p);
                for (std::size_t i = 0; i < n; ++i) {
                    require_near("ifft(fft)", i, back.p[i], static_cast<ld>(x[i]), 2 * tol);
                }
                require_unchanged(out, spectrum);
            }
        } else if (k <= 2) {
            auto x = csignal<T>(s, n, amp);
            c.nontrivial(n > 2 && ref::norm2(x) > 0);
            const bool alias = s.one_in(4);
            c.describe([&](auto& o) { o << head(names[k]) << (alias ? " in place" : "") << " of " << show(x); });
            Buf<T> a(std::vector<T>(raw(x), raw(x) + 2 * n)), other(2 * n, hole);
            T* dst = alias ? a.p : other.p;
            k == 1 ? api::complex_fft(reinterpret_cast<const api::complex_t*>(a.p), m, reinterpret_cast<api::complex_t*>(dst))
                   : api::complex_ifft(reinterpret_cast<const api::complex_t*>(a.p), m, reinterpret_cast<api::complex_t*>(dst));
            if (!alias) {
                require_unchanged(a, std::vector<T>(raw(x), raw(x) + 2 * n));
            }
            const ld tol = ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L, nn = k == 1 ? 1 : static_cast<ld>(n);
            for (std::size_t i = 0; i < n; ++i) {
                require_near(names[k], i, complex(dst[2 * i], dst[2 * i + 1]), ref::dft_bin(x, i, k == 1 ? -1 : 1, w) / nn, tol / nn);
            }
        } else {
            const auto x = signal<T>(s, n, amp);
            c.nontrivial(n > 2 && ref::norm2(x) > 0);
            const bool alias = s.one_in(4);
            c.describe([&](auto& o) { o << head(names[k]) << (alias ? " in place" : "") << " of " << show(x); });
            Buf<T> a(x), other(n, hole);
            T* dst = alias ? a.p : other.p;
            k == 3 ? api::dct(a.p, m, dst) : k == 4 ? api::idct(a.p, m, dst) : api::hartley(a.p, m, dst);
            if (!alias) {
                require_unchanged(a, x);
            }
            const ref::Circle w4(4 * n);
            const ld f   = k == 4 ? 1 / static_cast<ld>(n) : 1;
            const ld tol = 3 * ref::fft_mult(n) * eps<T>() * ref::norm2(x) * f + 1e-30L;
            for (std::size_t i = 0; i < n; ++i) {
                ld e;
                if (k == 3) {
                    e = ref::dct_bin(x, i, w4);
                } else if (k == 4) {
                    e = ref::idct_bin(x, i, w4);
                } else {
                    const auto d = ref::dft_bin(x, i, -1, w);
                    e            = d.real() - d.imag();
                }
                require_near(names[k], i, dst[i], e, tol);
            }
        }
    }

    void derived(Src& s, Ctx& c) {
        const auto n = fft_len(s, c, 1, 200);
        const int m  = isize(n);
        const int k  = s.range<int>(0, 4);
        static const char* names[] = {"conv", "xcorr", "hilbert", "spectrum", "cepstrum"};
        c.label(names[k]);
        const double amp = std::pow(10.0, s.range<int>(-3, 3));
        auto x           = signal<T>(s, n, amp);
        const auto y     = signal<T>(s, n, amp);
        if (k == 4) {
            x[s.draw(n - 1)] += static_cast<T>(2 * max_abs(x) + 1);
        }
        c.nontrivial(n > 2 && ref::norm2(x) > 0);
        c.describe([&](auto& o) {
            o << head(names[k]) << " of " << show(x);
            if (k < 2) {
                o << " and " << show(y);
            }
        });
        const ref::Circle w(n);
        Buf<T> a(x), b(y);
        if (k < 2) {
            Buf<T> out(n, hole);
            k == 0 ? api::conv(a.p, b.p, m, out.p) : api::xcorr(a.p, b.p, m, out.p);
            const ld tol = 3 * ref::fft_mult(2 * n) * eps<T>() * ref::norm2(x) * ref::norm2(y) + 1e-30L;
            for (std::size_t i = 0; i < n; ++i) {
                ld e = 0;
                for (std::size_t j = k == 0 ? 0 : i; j < (k == 0 ? i + 1 : n); ++j) {
                    e += k == 0 ? static_cast<ld>(x[i - j]) * y[j] : static_cast<ld>(x[j]) * y[j - i];
                }
                require_near(names[k], i, out.p[i], e, tol);
            }
        } else if (k == 2) {
            Buf<T> out(2 * n, hole);
            api::hilbert(a.p, m, reinterpret_cast<api::complex_t*>(out.p));
            std::vector<ref::cld> f(n);
            for (std::size_t i = 0; i < n; ++i) {
                f[i] = ref::dft_bin(x, i, -1, w) * (i == 0 || 2 * i == n ? 1.0L : 2 * i < n ? 2.0L : 0.0L);
            }
            const ld tol = 4 * ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L;
            for (std::size_t i = 0; i < n; ++i) {
                require_near("hilbert", i, complex(out.p[2 * i], out.p[2 * i + 1]), ref::dft_bin(f, i, 1, w) / static_cast<ld>(n), tol);
            }
        } else if (k == 3) {
            Buf<T> out(n / 2 + 1, hole);
            api::spectrum(a.p, m, out.p);
            const ld d = ref::fft_mult(n) * eps<T>() * ref::norm2(x) + 1e-30L;
            for (std::size_t i = 0; i <= n / 2; ++i) {
                const ld g = std::abs(ref::dft_bin(x, i, -1, w));
                require_near("spectrum", i, out.p[i], g * g, 2 * g * d + d * d + 8 * eps<T>() * g * g);
            }
        } else {
            const ref::Circle w2(2 * n);
            auto padded = x;
            padded.resize(2 * n);
            const ld d = ref::fft_mult(2 * n) * eps<T>() * ref::norm2(x);
            std::vector<ld> l(2 * n);
            ld err = 0, norm = 0;
            for (std::size_t i = 0; i < 2 * n; ++i) {
                const ld g = std::abs(ref::dft_bin(padded, std::min(i, 2 * n - i), -1, w2));
                if (g < 20 * d) {
                    c.label("a bin vanishes");
                    return;
                }
                l[i] = std::log(g);
                err += 1.1L * d / g + 4 * eps<T>() * std::abs(l[i]);
                norm += l[i] * l[i];
            }
            const ld nn = static_cast<ld>(2 * n), tol = err / nn + ref::fft_mult(2 * n) * eps<T>() * std::sqrt(norm) / nn + 1e-30L;
            Buf<T> out(n, hole);
            api::cepstrum(a.p, m, out.p);
            for (std::size_t i = 0; i < n; ++i) {
                require_near("cepstrum", i, out.p[i], ref::dft_bin(l, i, 1, w2).real() / nn, tol);
            }
        }
        require_unchanged(a, x);
        require_unchanged(b, y);
    }

#ifndef VP_PYTHON
    void core(Src& s, Ctx& c) {
        History history(c);
        history += head("core") + " ";
        if (s.one_in(20)) {
            c.label("information");
            c.nontrivial(true);
            const std::string v = std::to_string(api::get_major_version()) + "." + std::to_string(api::get_minor_version()) + "." + std::to_string(api::get_patch_version());
            history += "version " + v;
            VP_CHECK(v == api::get_version(), "get_version is " << api::get_version() << ", the parts give " << v);
            const std::string d = api::get_build_date(), t = api::get_build_time();
            VP_CHECK(d.size() == 11 && d[3] == ' ', "get_build_date is " << d);
            VP_CHECK(t.size() == 8 && t[2] == ':' && t[5] == ':', "get_build_time is " << t);
            VP_CHECK(std::string(api::get_fft_library()) == "fftw", "get_fft_library is " << api::get_fft_library());
            VP_CHECK(std::string(api::get_codec_library()) == "sndfile", "get_codec_library is " << api::get_codec_library());
            VP_CHECK(std::string(api::get_resample_library()) == "samplerate", "get_resample_library is " << api::get_resample_library());
            return;
        }
        c.label("environment");
        const std::vector<std::string> names = {"VP26_A", "VP26_AB", "VP26_" + std::string(static_cast<std::size_t>(s.draw(40)), 'q')};
        std::map<std::string, std::string> model;
        for (auto& n : names) {
            ::unsetenv(n.c_str());
        }
        const int ops = s.range<int>(1, 14);
        int live      = 0;
        for (int k = 0; k < ops; ++k) {
            const auto name = s.pick(names);
            switch (s.draw(4)) {
                case 0:
                case 1: {
                    std::string value;
                    const auto n = s.size(0, 200);
                    for (long i = 0; i < n; ++i) {
                        value += static_cast<char>(1 + s.draw(254));
                    }
                    history += "set(" + name + "," + std::to_string(n) + " bytes) ";
                    VP_CHECK(api::set_environment(name.c_str(), value.c_str()) == 0, "set_environment fails");
                    model[name] = value;
                    break;
                }
                case 2:
                    history += "unset(" + name + ") ";
                    ::unsetenv(name.c_str());
                    model.erase(name);
                    break;
                case 3:
                    history += "invalid ";
                    VP_CHECK(api::set_environment("", "x") != 0, "a variable without a name is set");
                    VP_CHECK(api::set_environment("VP26=", "x") != 0, "a variable with an invalid name is set");
                    break;
                default: {
                    history += "get(" + name + ") ";
                    int error         = 1234;
                    const bool ask    = s.flip();
                    const char* value = ask ? api::get_environment(name.c_str(), &error) : api::get_environment(name.c_str(), nullptr);
                    const auto it     = model.find(name);
                    VP_CHECK((value != nullptr) == (it != model.end()), "get_environment of " << name << (value ? " finds a variable that is not set" : " misses a set variable"));
                    if (value) {
                        ++live;
                        VP_CHECK(it->second == value, "get_environment of " << name << " gives another value");
                    }
                    if (ask) {
                        VP_CHECK((error == 0) == (value != nullptr), "the error of get_environment is " << error << (value ? " for a set variable" : " for a missing variable"));
                    }
                }
            }
            for (auto& n : names) {
                VP_CHECK((api::exist_environment(n.c_str()) != 0) == (model.count(n) == 1), "exist_environment(" << n << ") is wrong");
                const char* raw_value = ::getenv(n.c_str());
                VP_CHECK((raw_value != nullptr) == (model.count(n) == 1) && (!raw_value || model[n] == raw_value), "the process environment is wrong for " << n);
            }
        }
        for (auto& n : names) {
            ::unsetenv(n.c_str());
        }
        c.nontrivial(live > 0);
    }
#endif
} // namespace

#ifdef ENABLE_SINGLE
#define WHICH(name) name " single"
#else
#define WHICH(name) name
#endif
VP_FAMILY(WHICH("elementwise"), 60000, 600000, "scale, clip, round, ceil, floor, trunc, abs against the definitions, in place or not; non-trivial: n>1") { elementwise(s, c); }
VP_FAMILY(WHICH("building"), 50000, 500000, "concatenate, pad, linspace, logspace, normalise, every window; non-trivial: more than the smallest sizes") { building(s, c); }
VP_FAMILY(WHICH("search"), 50000, 500000, "linear and binary search, index_of, contains, equal; non-trivial: n>1") { search(s, c); }
VP_FAMILY(WHICH("conversions"), 60000, 600000, "decibels, angles, peaks, complex packing; non-trivial: n>1") { conversions(s, c); }
VP_FAMILY(WHICH("statistics"), 60000, 600000, "every statistic against long double references; non-trivial: n>1") { statistics(s, c); }
VP_FAMILY(WHICH("transforms"), 30000, 300000, "fft, ifft, complex fft and ifft, dct, idct, hartley against the defining sums; non-trivial: N>2, non-zero") { transforms(s, c); }
VP_FAMILY(WHICH("derived"), 16000, 160000, "conv, xcorr, hilbert, spectrum, cepstrum against the defining sums; non-trivial: N>2, non-zero") { derived(s, c); }
#ifndef VP_PYTHON
VP_FAMILY(WHICH("core"), 20000, 200000, "versions, back ends, environment histories; non-trivial: a set variable is read") { core(s, c); }
#endif
