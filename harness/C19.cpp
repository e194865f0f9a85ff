// C19: random generators against the standard distributions, noise against its bounds and spectrum
#include "common.hpp"
#include <chrono>
#include <complex>
#include <memory>
#include <edsp/random.hpp>
using namespace vp;
namespace er = edsp::random;
using D      = er::DistributionType;

// The generators are seeded from the clock. Here the clock is part of the generated case, so that every case repeats.
namespace {
    long long fake_clock = 0;
}
namespace std {
    namespace chrono {
        inline namespace _V2 {
            system_clock::time_point system_clock::now() noexcept { return time_point(duration(fake_clock)); }
        } // namespace _V2
    } // namespace chrono
} // namespace std

namespace {
    void clock_from(Src& s) { fake_clock = 1500000000000000000LL + static_cast<long long>(s.draw(1000000000) * 1000000 + s.draw(999999)); }

    // largest distance between the empirical distributions of two samples
    template <typename A, typename B>
    double distance(std::vector<A> a, std::vector<B> b) {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        std::size_t i = 0, j = 0;
        double d = 0;
        while (i < a.size() && j < b.size()) {
            const auto x = std::min<double>(static_cast<double>(a[i]), static_cast<double>(b[j]));
            while (i < a.size() && static_cast<double>(a[i]) <= x) ++i;
            while (j < b.size() && static_cast<double>(b[j]) <= x) ++j;
            d = std::max(d, std::abs(static_cast<double>(i) / a.size() - static_cast<double>(j) / b.size()));
        }
        return d;
    }
    // a distance this large happens by chance once in 2*exp(-2*4.5^2) = 5e-18 samples
    double limit(std::size_t n, std::size_t m) { return 4.5 * std::sqrt(static_cast<double>(n + m) / (static_cast<double>(n) * m)); }

    template <typename G, typename Ref, typename Support>
    void compare(Src& s, Ctx& c, const char* name, G& g, Ref ref, Support support) {
        c.label(name);
        c.nontrivial();
        const std::size_t n = static_cast<std::size_t>(s.range<int>(500, 3000)), m = 6000;
        using V = decltype(g());
        std::vector<V> a(n);
        std::generate(a.begin(), a.end(), std::ref(g));
        for (std::size_t i = 0; i < n; ++i) {
            VP_CHECK(support(a[i]), name << ": draw " << i << " is " << a[i] << ", outside the support");
        }
        std::mt19937_64 engine(s.draw(1u << 30) + 12345);
        std::vector<double> b(m);
        for (auto& x : b) x = static_cast<double>(ref(engine));
        const double d = distance(a, b);
        VP_CHECK(d <= limit(n, m), name << ": " << n << " draws are at distance " << d << " from the requested distribution, limit " << limit(n, m));
        // successive draws carry no information about each other
        std::vector<double> v(a.begin(), a.end()), sorted = v;
        std::nth_element(sorted.begin(), sorted.begin() + n / 2, sorted.end());
        const double med = sorted[n / 2];
        double above = 0, both = 0;
        for (std::size_t i = 0; i + 1 < n; ++i) {
            above += v[i] > med;
            both += v[i] > med && v[i + 1] > med;
        }
        const double p = above / (n - 1), spread = 7 * std::sqrt(p * p * (1 - p * p) * 3 * n) + 4;
        VP_CHECK(std::abs(both - p * p * (n - 1)) <= spread, name << ": successive draws depend on each other: " << both << " pairs above the median of " << n << ", expected about " << p * p * (n - 1));
    }

    template <typename T>
    void real_distribution(Src& s, Ctx& c) {
        clock_from(s);
        const auto par = [&](double lo, double hi) { return static_cast<T>(s.log_uniform(lo, hi)); };
        const T inf    = std::numeric_limits<T>::infinity();
        const auto in  = [](T lo, T hi) { return [lo, hi](T x) { return x >= lo && x <= hi; }; };
        switch (s.draw(12)) {
            case 0: {
                const T a = static_cast<T>(s.uniform(-1000, 1000)), b = a + par(1e-2, 1e3);
                er::random_generator<D::Uniform, T> g(a, b);
                c.describe([&](auto& o) { o << "uniform " << a << "," << b; });
                compare(s, c, "uniform", g, std::uniform_real_distribution<T>(a, b), in(a, b));
                break;
            }
            case 1: {
                const T l = par(1e-3, 1e3);
                er::random_generator<D::Exponential, T> g(l);
                c.describe([&](auto& o) { o << "exponential " << l; });
                compare(s, c, "exponential", g, std::exponential_distribution<T>(l), in(0, inf));
                break;
            }
            case 2: {
                const T k = par(0.2, 20), th = par(1e-2, 1e2);
                er::random_generator<D::Gamma, T> g(k, th);
                c.describe([&](auto& o) { o << "gamma " << k << "," << th; });
                compare(s, c, "gamma", g, std::gamma_distribution<T>(k, th), in(0, inf));
                break;
            }
            case 3: {
                const T k = par(0.3, 10), l = par(1e-2, 1e2);
                er::random_generator<D::Weibull, T> g(k, l);
                c.describe([&](auto& o) { o << "weibull " << k << "," << l; });
                compare(s, c, "weibull", g, std::weibull_distribution<T>(k, l), in(0, inf));
                break;
            }
            case 4: {
                const T a = static_cast<T>(s.uniform(-100, 100)), b = par(1e-2, 1e2);
                er::random_generator<D::ExtremeValue, T> g(a, b);
                c.describe([&](auto& o) { o << "extreme value " << a << "," << b; });
                compare(s, c, "extreme value", g, std::extreme_value_distribution<T>(a, b), in(-inf, inf));
                break;
            }
            case 5: {
                const T a = static_cast<T>(s.uniform(-100, 100)), b = par(1e-2, 1e2);
                er::random_generator<D::Normal, T> g(a, b);
                c.describe([&](auto& o) { o << "normal " << a << "," << b; });
                compare(s, c, "normal", g, std::normal_distribution<T>(a, b), in(-inf, inf));
                break;
            }
            case 6: {
                const T a = static_cast<T>(s.uniform(-3, 3)), b = par(1e-1, 2);
                er::random_generator<D::LogNormal, T> g(a, b);
                c.describe([&](auto& o) { o << "lognormal " << a << "," << b; });
                compare(s, c, "lognormal", g, std::lognormal_distribution<T>(a, b), in(0, inf));
                break;
            }
            case 7: {
                const T n = par(0.5, 50);
                er::random_generator<D::ChiSquared, T> g(n);
                c.describe([&](auto& o) { o << "chi squared " << n; });
                compare(s, c, "chi squared", g, std::chi_squared_distribution<T>(n), in(0, inf));
                break;
            }
            case 8: {
                const T a = static_cast<T>(s.uniform(-100, 100)), b = par(1e-2, 1e2);
                er::random_generator<D::Cauchy, T> g(a, b);
                c.describe([&](auto& o) { o << "cauchy " << a << "," << b; });
                compare(s, c, "cauchy", g, std::cauchy_distribution<T>(a, b), in(-inf, inf));
                break;
            }
            case 9: {
                const T m = par(1, 30), n = par(1, 30);
                er::random_generator<D::Fisher, T> g(m, n);
                c.describe([&](auto& o) { o << "fisher " << m << "," << n; });
                compare(s, c, "fisher", g, std::fisher_f_distribution<T>(m, n), in(0, inf));
                break;
            }
            case 10: {
                const T n = par(0.7, 30);
                er::random_generator<D::Student, T> g(n);
                c.describe([&](auto& o) { o << "student " << n; });
                compare(s, c, "student", g, std::student_t_distribution<T>(n), in(-inf, inf));
                break;
            }
            default: {
                const bool linear = s.flip();
                const auto k      = static_cast<std::size_t>(s.range<int>(1, 6));
                std::vector<T> at{static_cast<T>(s.uniform(-10, 10))}, w;
                for (std::size_t i = 0; i < k; ++i) {
                    at.push_back(at.back() + par(0.1, 5));
                    w.push_back(par(0.05, 5));
                }
                w.push_back(par(0.05, 5));
                c.describe([&](auto& o) { o << "piecewise " << show(at) << " " << show(w); });
                const auto i0 = at.begin(), i1 = at.end();
                const auto wb = w.begin();
                if (linear) {
                    er::random_generator<D::PieceWiseLinear, T> g(i0, i1, wb);
                    compare(s, c, "piecewise linear", g, std::piecewise_linear_distribution<T>(i0, i1, wb), in(at.front(), at.back()));
                } else {
                    er::random_generator<D::PieceWiseConstant, T> g(i0, i1, wb);
                    compare(s, c, "piecewise constant", g, std::piecewise_constant_distribution<T>(i0, i1, wb), in(at.front(), at.back()));
                }
            }
        }
    }

    template <typename T>
    void integer_distribution(Src& s, Ctx& c) {
        clock_from(s);
        const auto in = [](T lo, T hi) { return [lo, hi](T x) { return x >= lo && x <= hi; }; };
        const T top   = std::numeric_limits<T>::max();
        const double p = s.one_in(10) ? static_cast<double>(s.flip()) : s.uniform(0.02, 0.98);
        switch (s.draw(4)) {
            case 0: {
                er::random_generator<D::Bernoulli, T> g(p);
                c.describe([&](auto& o) { o << "bernoulli " << p; });
                compare(s, c, "bernoulli", g, std::bernoulli_distribution(p), in(0, 1));
                break;
            }
            case 1: {
                const T n = static_cast<T>(s.range<int>(1, 60));
                er::random_generator<D::Binomial, T> g(n, p);
                c.describe([&](auto& o) { o << "binomial " << n << "," << p; });
                compare(s, c, "binomial", g, std::binomial_distribution<T>(n, p), in(0, n));
                break;
            }
            case 2: {
                const double q = 0.02 + 0.95 * p;
                er::random_generator<D::Geometric, T> g(q);
                c.describe([&](auto& o) { o << "geometric " << q; });
                compare(s, c, "geometric", g, std::geometric_distribution<T>(q), in(0, top));
                break;
            }
            case 3: {
                const double m = s.log_uniform(0.05, 60);
                er::random_generator<D::Poisson, T> g(m);
                c.describe([&](auto& o) { o << "poisson " << m; });
                compare(s, c, "poisson", g, std::poisson_distribution<T>(m), in(0, top));
                break;
            }
            default: {
                std::vector<double> w(static_cast<std::size_t>(s.range<int>(1, 8)));
                for (auto& x : w) x = s.one_in(5) ? 0.0 : s.uniform(0.01, 5);
                w.push_back(1);
                const auto b = w.begin(), e = w.end();
                er::random_generator<D::Discrete, T> g(b, e);
                c.describe([&](auto& o) { o << "discrete " << show(w); });
                compare(s, c, "discrete", g, std::discrete_distribution<T>(b, e), [&](T x) { return x >= 0 && x < static_cast<T>(w.size()) && w[static_cast<std::size_t>(x)] > 0; });
            }
        }
    }
    void integers(Src& s, Ctx& c) {
        switch (s.draw(2)) {
            case 0: integer_distribution<int>(s, c); break;
            case 1: integer_distribution<long>(s, c); break;
            default: integer_distribution<short>(s, c);
        }
    }

    // an engine that returns what the case says
    struct Scripted {
        using result_type = std::uint32_t;
        static std::vector<std::uint32_t>& script() {
            static std::vector<std::uint32_t> v;
            return v;
        }
        std::size_t at{0};
        Scripted() = default;
        explicit Scripted(std::size_t) {}
        static constexpr result_type min() { return 0; }
        static constexpr result_type max() { return 0xffffffffu; }
        result_type operator()() {
            const auto& v = script();
            return v[at++ % v.size()];
        }
    };
    void write_script(Src& s, Ctx& c) {
        auto& v = Scripted::script();
        v.assign(static_cast<std::size_t>(s.range<int>(1, 40)), 0);
        const int style = s.range<int>(0, 3);
        for (auto& x : v) {
            x = style == 0 ? 0 : style == 1 ? 0xffffffffu : style == 2 ? (s.flip() ? 0 : 0xffffffffu) : static_cast<std::uint32_t>(s.draw(0xffffffffu));
        }
        c.label(style == 0 ? "engine all lowest" : style == 1 ? "engine all highest" : style == 2 ? "engine extremes" : "engine any");
    }

    template <typename T>
    void white(Src& s, Ctx& c) {
        clock_from(s);
        const T a = static_cast<T>(s.uniform(-100, 100)), b = a + static_cast<T>(s.log_uniform(1e-2, 200));
        c.describe([&](auto& o) { o << "white noise in [" << a << "," << b << "]"; });
        er::white_noise_generator<T> g(a, b);
        compare(s, c, "white noise", g, std::uniform_real_distribution<T>(a, b), [&](T x) { return x >= a && x <= b; });
        write_script(s, c);
        er::white_noise_generator<T, Scripted> h(a, b);
        for (int i = 0; i < 100; ++i) {
            const T x = h();
            VP_CHECK(x >= a && x <= b, "white noise " << x << " outside [" << a << "," << b << "] with an extreme engine");
        }
    }
    void white_int(Src& s, Ctx& c) {
        clock_from(s);
        const int a = s.range<int>(-1000, 1000), b = a + s.range<int>(0, 40);
        c.describe([&](auto& o) { o << "integer white noise in [" << a << "," << b << "]"; });
        er::white_noise_generator<int> g(a, b);
        compare(s, c, "integer white noise", g, std::uniform_int_distribution<int>(a, b), [&](int x) { return x >= a && x <= b; });
    }

    void fft(std::vector<std::complex<double>>& a) {
        const auto n = a.size();
        for (std::size_t i = 1, j = 0; i < n; ++i) {
            std::size_t bit = n >> 1;
            for (; j & bit; bit >>= 1) j ^= bit;
            j ^= bit;
            if (i < j) std::swap(a[i], a[j]);
        }
        for (std::size_t l = 2; l <= n; l <<= 1) {
            const auto w = std::polar(1.0, -2 * 3.14159265358979323846 / static_cast<double>(l));
            for (std::size_t i = 0; i < n; i += l) {
                std::complex<double> x = 1;
                for (std::size_t j = 0; j < l / 2; ++j, x *= w) {
                    const auto u = a[i + j], v = a[i + j + l / 2] * x;
                    a[i + j]         = u + v;
                    a[i + j + l / 2] = u - v;
                }
            }
        }
    }
    const int segments = 24;
    // power in the octaves [2^7,2^8) .. [2^13,2^14) of 2^15 samples, tapered against leakage, over several segments
    template <typename G>
    std::vector<double> octaves(G& g) {
        const std::size_t n = 1 << 15;
        std::vector<double> p(7, 0);
        for (int i = 0; i < 5000; ++i) g();
        for (int r = 0; r < segments; ++r) {
            std::vector<std::complex<double>> x(n);
            double mean = 0;
            for (auto& v : x) {
                v = static_cast<double>(g());
                mean += v.real() / n;
            }
            for (std::size_t i = 0; i < n; ++i) {
                x[i] = (x[i].real() - mean) * (0.5 - 0.5 * std::cos(2 * 3.14159265358979323846 * i / n));
            }
            fft(x);
            for (int o = 7; o < 14; ++o) {
                for (std::size_t k = std::size_t(1) << o; k < (std::size_t(1) << (o + 1)); ++k) p[o - 7] += std::norm(x[k]);
            }
        }
        return p;
    }
    template <typename T>
    void spectrum(Src& s, Ctx& c) {
        clock_from(s);
        const T a = static_cast<T>(s.uniform(-100, 100)), b = a + static_cast<T>(s.log_uniform(0.1, 200));
        const int kind = s.range<int>(0, 2);
        const char* names[] = {"white", "pink", "brown"};
        c.label(names[kind]);
        c.nontrivial();
        c.describe([&](auto& o) { o << names[kind] << " noise of [" << a << "," << b << "]"; });
        std::vector<double> p;
        if (kind == 0) {
            er::white_noise_generator<T> g(a, b);
            p = octaves(g);
        } else if (kind == 1) {
            er::pink_noise_generator<T> g(a, b);
            p = octaves(g);
        } else {
            er::brown_noise_generator<T> g(a, b);
            p = octaves(g);
        }
        for (std::size_t i = 0; i + 1 < p.size(); ++i) {
            const double bins = segments * (1 << (7 + i)), db = 10 * std::log10(p[i + 1] / p[i]);
            // with the taper half of the bins are independent; 7 standard deviations of the ratio
            const double slack = 10 * std::log10(1 + 7 * std::sqrt(3 / bins));
            // per octave: white +3 dB, pink 0 dB, brown -3 dB (less next to the corner and at the top of a sampled integrator)
            const double lo = kind == 0 ? 3.0 : kind == 1 ? -0.15 : -3.1, hi = kind == 0 ? 3.02 : kind == 1 ? 0.15 : (i == 0 ? -1.8 : i == 1 || i == 4 ? -2.5 : i == 5 ? -1.2 : -2.7);
            VP_CHECK(db >= lo - slack && db <= hi + slack, names[kind] << " noise: octave " << i + 1 << " has " << db << " dB more power than octave " << i << ", expected " << lo << ".." << hi << " within " << slack);
        }
    }

    // coloured noise is a fixed linear filtering of its white noise
    template <typename T>
    void coloured(Src& s, Ctx& c) {
        write_script(s, c);
        const T a = static_cast<T>(s.uniform(-10, 10)), b = a + static_cast<T>(s.log_uniform(1e-2, 20));
        const T k = static_cast<T>(1 << s.range<int>(1, 6));
        const int n = s.range<int>(10, 1500);
        c.nontrivial();
        c.describe([&](auto& o) { o << "[" << a << "," << b << "] x " << k << ", " << n << " samples"; });
        er::pink_noise_generator<T, Scripted> p1(a, b), p2(a * k, b * k);
        er::brown_noise_generator<T, Scripted> b1(a, b), b2(a * k, b * k);
        const ld m = std::max(std::abs(static_cast<ld>(a)), std::abs(static_cast<ld>(b)));
        for (int i = 0; i < n; ++i) {
            const T x = p1(), y = p2(), u = b1(), v = b2();
            // largest possible output of the filters: sum of |impulse response|
            VP_CHECK(std::isfinite(x) && std::abs(static_cast<ld>(x)) <= 12 * m, "pink noise sample " << i << " is " << x << " for white noise in [" << a << "," << b << "]");
            VP_CHECK(std::isfinite(u) && std::abs(static_cast<ld>(u)) <= 3.5L * m * (1 + 1000 * eps<T>()), "brown noise sample " << i << " is " << u << " for white noise in [" << a << "," << b << "]");
            const ld tol = (b - a < m / 100 ? 200 : 50) * eps<T>() * (i + 10) * m * k;
            VP_CHECK(std::abs(static_cast<ld>(x) * k - y) <= tol, "pink noise does not scale with its bounds: sample " << i << " " << x << " and " << y << " for bounds " << k << " times larger");
            VP_CHECK(std::abs(static_cast<ld>(u) * k - v) <= tol, "brown noise does not scale with its bounds: sample " << i << " " << u << " and " << v << " for bounds " << k << " times larger");
        }
    }

    // Perlin noise is a bounded, continuous function of the drawn coordinate that vanishes at the lattice points
    template <typename T>
    void perlin(Src& s, Ctx& c) {
        clock_from(s);
        c.nontrivial();
        {
            er::perlin_noise_generator<T> g;
            bool negative = false, positive = false;
            for (int i = 0; i < 400; ++i) {
                const T y = g();
                VP_CHECK(std::isfinite(y) && std::abs(y) <= 1 + 8 * eps<T>(), "Perlin noise sample " << y << " outside [-1, 1]");
                negative |= y < 0;
                positive |= y > 0;
            }
            VP_CHECK(negative && positive, "400 samples of Perlin noise all have one sign");
        }
        const auto at = [&](double x) { // value at coordinate x
            const double u    = x / 511 * 4294967296.0;
            const auto word   = static_cast<std::uint32_t>(std::min(u, 4294967295.0));
            const auto low    = static_cast<std::uint32_t>((u - std::floor(u)) * 4294967295.0);
            Scripted::script() = sizeof(T) == 4 ? std::vector<std::uint32_t>{word} : std::vector<std::uint32_t>{low, word};
            er::perlin_noise_generator<T, Scripted> g;
            return static_cast<double>(g());
        };
        const double x = s.flip() ? s.uniform(0.01, 509) : s.range<int>(1, 509), d = s.log_uniform(1e-4, 1);
        c.describe([&](auto& o) { o << "coordinates " << x << " and " << x + d; });
        const double noise = sizeof(T) == 4 ? 1e-3 : 1e-6; // resolution of a coordinate
        const double y0 = at(x), y1 = at(x + d), yl = at(std::floor(x));
        VP_CHECK(std::abs(y1 - y0) <= 8 * d + 8 * noise, "Perlin noise jumps from " << y0 << " to " << y1 << " between " << x << " and " << x + d);
        VP_CHECK(std::abs(yl) <= 8 * noise, "Perlin noise is " << yl << " at the lattice point " << std::floor(x));
    }

    void binary(Src& s, Ctx& c) {
        clock_from(s);
        const double p = s.one_in(6) ? static_cast<double>(s.flip()) : s.uniform(0.02, 0.98);
        c.describe([&](auto& o) { o << "binary " << p; });
        if (p == 0 || p == 1) {
            er::binary_generator<double> g(p);
            for (int i = 0; i < 500; ++i) {
                const double x = g();
                VP_CHECK(x == p, "a binary generator of probability " << p << " gave " << x);
            }
        }
        const auto in = [](auto x) { return x == 0 || x == 1; };
        switch (s.draw(2)) {
            case 0: {
                er::binary_generator<double> g(p);
                compare(s, c, "binary double", g, std::bernoulli_distribution(p), in);
                break;
            }
            case 1: {
                er::binary_generator<float, std::mt19937_64> g(static_cast<float>(p));
                compare(s, c, "binary float", g, std::bernoulli_distribution(p), in);
                break;
            }
            default: {
                er::binary_generator<int> g(p);
                compare(s, c, "binary int", g, std::bernoulli_distribution(p), in);
            }
        }
    }

    void constant(Src& s, Ctx& c) {
        const double v = s.real(-1e9, 1e9);
        const int n    = s.range<int>(1, 50);
        c.nontrivial();
        c.describe([&](auto& o) { o << "constant " << v; });
        er::constant_generator<double> g(v);
        er::constant_generator<float> f(static_cast<float>(v));
        er::constant_generator<std::string> t(std::string(static_cast<std::size_t>(n), 'x'));
        for (int i = 0; i < n; ++i) {
            const double x = g();
            const float y  = f();
            VP_CHECK(x == v && y == static_cast<float>(v), "a constant generator of " << v << " gave " << x << " and " << y);
            VP_CHECK(t() == std::string(static_cast<std::size_t>(n), 'x'), "a constant generator of a string changed it");
        }
    }
} // namespace

VP_FAMILY("real distributions", 4000, 60000, "one parameter set; non-trivial: always") { VP_DISPATCH(real_distribution); }
VP_FAMILY("integer distributions", 3000, 40000, "one parameter set; non-trivial: always") { integers(s, c); }
VP_FAMILY("white noise", 2000, 30000, "one pair of bounds; non-trivial: always") { VP_DISPATCH(white); }
VP_FAMILY("integer white noise", 1000, 10000, "one pair of bounds; non-trivial: always") { white_int(s, c); }
VP_FAMILY("noise spectrum", 120, 3000, "786432 samples of one noise; non-trivial: always") { VP_DISPATCH(spectrum); }
VP_FAMILY("coloured noise", 8000, 200000, "an engine script and bounds; non-trivial: always") { VP_DISPATCH(coloured); }
VP_FAMILY("perlin noise", 20000, 300000, "a pair of coordinates; non-trivial: always") { VP_DISPATCH(perlin); }
VP_FAMILY("binary", 2000, 30000, "one probability; non-trivial: always") { binary(s, c); }
VP_FAMILY("constant", 5000, 50000, "one value; non-trivial: always") { constant(s, c); }
