// C13: biquads and biquad cascades against the difference equation they are documented to realise
#undef NDEBUG
#include "common.hpp"
#include <edsp/filter/biquad.hpp>
#include <edsp/filter/biquad_cascade.hpp>
#include <complex>
using namespace vp;
namespace ef = edsp::filter;

namespace {
    // One section of the model: direct form I in long double with a rigorous bound on the error that an
    // implementation in T may accumulate: a rounding error made at step k reaches step n through the impulse
    // response of 1/A(z), whatever the (direct or transposed) form.
    template <typename T>
    struct Section {
        ld a[3]{1, 0, 0}, b[3]{1, 0, 0};
        bool exact{true}; // coefficients representable without rounding
        std::vector<ld> x, y, slack, tol, g;
        ld peak{0}; // largest intermediate magnitude since the last reset
        bool overflowing() const {
            return !(peak < static_cast<ld>(std::numeric_limits<T>::max()) / 1e6L);
        }
        void reset() {
            peak = 0;
            x.clear();
            y.clear();
            slack.clear();
            tol.clear();
            g.clear();
        }
        static ld at(const std::vector<ld>& v, std::size_t n, std::size_t k) {
            return k <= n && n < v.size() + k ? v[n - k] : 0;
        }
        ld impulse(std::size_t n) { // |impulse response of 1/A| (a0 divided out)
            while (g.size() <= n) {
                const auto m = g.size();
                ld v         = m == 0 ? 1 / a[0] : 0;
                v -= m >= 1 ? a[1] / a[0] * g[m - 1] : 0;
                v -= m >= 2 ? a[2] / a[0] * g[m - 2] : 0;
                g.push_back(v);
            }
            return std::abs(g[n]);
        }
        // feeds one sample (known up to err); returns the output and its tolerance
        std::pair<ld, ld> tick(ld v, ld err) {
            const auto n = x.size();
            x.push_back(v);
            slack.push_back(err);
            ld s = 0, m = 0, e = 0;
            for (std::size_t k = 0; k < 3; ++k) {
                s += b[k] * at(x, n, k);
                m += std::abs(b[k] * at(x, n, k));
                e += std::abs(b[k]) * at(slack, n, k);
            }
            for (std::size_t k = 1; k < 3; ++k) {
                s -= a[k] * at(y, n, k);
                m += std::abs(a[k] * at(y, n, k));
            }
            y.push_back(s / a[0]);
            peak = std::max({peak, m, std::abs(y.back())});
            tol.push_back(e + 12 * eps<T>() * (m + std::abs(s)) + std::numeric_limits<T>::min()); // local error in the numerator
            ld t = 0;
            for (std::size_t k = 0; k <= n; ++k) {
                t += impulse(n - k) * tol[k];
            }
            return {y[n], t};
        }
    };

    template <typename T>
    T coefficient(Src& s, bool exact) {
        if (exact) {
            return static_cast<T>(s.range<int>(-8, 8)) / 4;
        }
        return static_cast<T>(s.one_in(4) ? s.real(-100, 100) : s.uniform(-2, 2));
    }
    template <typename T>
    T leading(Src& s, bool exact) {
        if (exact) {
            return s.pick({T(1), T(-1), T(2), T(0.5), T(4), T(-2)});
        }
        return static_cast<T>((s.flip() ? 1 : -1) * s.log_uniform(0.05, 20));
    }
    // a conjugate pair, or two real roots
    template <typename T>
    std::pair<std::complex<T>, std::complex<T>> roots(Src& s, bool exact) {
        const auto value = [&] { return exact ? static_cast<T>(s.range<int>(-10, 10)) / 8 : static_cast<T>(s.uniform(-1.1, 1.1)); };
        if (s.flip()) {
            const auto r = value(), i = value();
            return {std::complex<T>(r, i), std::complex<T>(r, -i)};
        }
        const auto a = value(), b = value();
        return {std::complex<T>(a, 0), std::complex<T>(b, 0)};
    }
    template <typename T>
    void from_roots(ld* c, const std::complex<T>& p, const std::complex<T>& q) {
        const std::complex<ld> a(p.real(), p.imag()), b(q.real(), q.imag());
        c[0] = 1;
        c[1] = -(a + b).real();
        c[2] = (a * b).real();
    }

    template <typename T>
    struct Pair {
        ef::biquad<T> real;
        Section<T> model;
    };

    template <typename T>
    void check_coefficients(const ef::biquad<T>& f, const Section<T>& m, bool normalised) {
        const ld d     = normalised ? m.a[0] : 1;
        const ld got[] = {f.a0(), f.a1(), f.a2(), f.b0(), f.b1(), f.b2()};
        const ld exp[] = {m.a[0] / d, m.a[1] / d, m.a[2] / d, m.b[0] / d, m.b[1] / d, m.b[2] / d};
        const char* n[] = {"a0", "a1", "a2", "b0", "b1", "b2"};
        for (int k = 0; k < 6; ++k) {
            VP_CHECK(std::abs(got[k] - exp[k]) <= 4 * eps<T>() * std::abs(exp[k]) + std::numeric_limits<T>::min() + (m.exact ? 0 : 4 * eps<T>()), n[k] << "() = " << got[k] << ", expected " << exp[k]);
        }
    }

    template <typename T>
    Pair<T> build(Src& s, Ctx& c, bool exact) {
        Pair<T> r;
        r.model.exact = exact;
        switch (s.draw(3)) {
            case 0: {
                const T a0 = leading<T>(s, exact), a1 = coefficient<T>(s, exact), a2 = coefficient<T>(s, exact), b0 = coefficient<T>(s, exact), b1 = coefficient<T>(s, exact), b2 = coefficient<T>(s, exact);
                r.real = ef::biquad<T>(a0, a1, a2, b0, b1, b2);
                const ld a[] = {a0, a1, a2}, b[] = {b0, b1, b2};
                for (int k = 0; k < 3; ++k) { // normalised on construction
                    r.model.a[k] = a[k] / a[0];
                    r.model.b[k] = b[k] / a[0];
                }
                c.label("by coefficients");
                c.describe([&](auto& o) { o << "biquad(" << a0 << "," << a1 << "," << a2 << "," << b0 << "," << b1 << "," << b2 << ") "; });
                break;
            }
            case 1: {
                const auto p = roots<T>(s, exact), z = roots<T>(s, exact);
                r.real = ef::biquad<T>(p.first, z.first, p.second, z.second);
                from_roots(r.model.a, p.first, p.second);
                from_roots(r.model.b, z.first, z.second);
                c.label("by poles and zeros");
                c.describe([&](auto& o) { o << "biquad(poles " << p.first << p.second << " zeros " << z.first << z.second << ") "; });
                break;
            }
            case 2: {
                const T p = exact ? static_cast<T>(s.range<int>(-10, 10)) / 8 : static_cast<T>(s.uniform(-1.1, 1.1));
                const T z = exact ? static_cast<T>(s.range<int>(-10, 10)) / 8 : static_cast<T>(s.uniform(-1.1, 1.1));
                r.real = ef::biquad<T>(std::complex<T>(p, 0), std::complex<T>(z, 0));
                r.model.a[1] = -static_cast<ld>(p);
                r.model.b[1] = -static_cast<ld>(z);
                c.label("by one pole and zero");
                c.describe([&](auto& o) { o << "biquad(pole " << p << " zero " << z << ") "; });
                break;
            }
            default: c.label("default"); c.describe([&](auto& o) { o << "biquad() "; }); break;
        }
        check_coefficients(r.real, r.model, false);
        return r;
    }

    template <typename T>
    T sample(Src& s, bool exact) {
        return exact ? static_cast<T>(s.range<int>(-3, 3)) : static_cast<T>(s.real(-10, 10));
    }
    // mostly 1: a linear filter treats faint and loud signals alike
    template <typename T>
    double loudness(Src& s, bool exact) {
        const int most = std::is_same<T, float>::value ? 14 : 60;
        return exact || !s.one_in(4) ? 1 : std::pow(10.0, s.range<int>(-most, most));
    }

    template <typename T>
    void require_output(const char* what, std::size_t n, T got, const std::pair<ld, ld>& e) {
        VP_CHECK(std::isfinite(got) && std::abs(got - e.first) <= e.second, what << " output " << n << " = " << got << ", expected " << e.first << " +- " << e.second);
    }

    // feeds samples one at a time or as a range, in place or not
    // (stops comparing once an unstable filter is about to overflow; the caller then resets it)
    template <typename T, typename F, typename M, typename O>
    void feed(Src& s, Ctx& c, F& f, M&& model, O&& overflowing, bool exact, const char* what) {
        const std::size_t n = static_cast<std::size_t>(s.size(0, exact ? 6 : 40));
        std::vector<T> in(n);
        const double scale = loudness<T>(s, exact);
        for (auto& v : in) {
            v = static_cast<T>(scale * sample<T>(s, exact));
        }
        const int how = static_cast<int>(s.draw(2));
        c.describe([&](auto& o) { o << (how == 0 ? "tick" : how == 1 ? "filter" : "filter in place") << show(in, 6) << " "; });
        Buf<T> out(in);
        if (how == 0) {
            for (std::size_t i = 0; i < n; ++i) {
                out.p[i] = f.tick(in[i]);
            }
        } else if (how == 1) {
            Buf<T> src(in);
            std::fill(out.begin(), out.end(), T(0));
            f.filter(src.cbegin(), src.cend(), out.begin());
            require_unchanged(src, in);
        } else {
            f.filter(out.begin(), out.end(), out.begin());
        }
        for (std::size_t i = 0; i < n; ++i) {
            const auto e = model(in[i]);
            if (overflowing()) {
                c.label("overflow");
                return;
            }
            require_output(what, i, out.p[i], e);
        }
    }

    template <typename T>
    void biquads(Src& s, Ctx& c) {
        const bool exact = s.flip();
        c.label(exact ? "exact arithmetic" : "rounded arithmetic");
        std::vector<Pair<T>> pool{build<T>(s, c, exact)};
        const auto steps = s.size(1, 10);
        std::size_t fed = 0, others = 0;
        for (long i = 0; i < steps; ++i) {
            auto& f = pool[s.draw(pool.size() - 1)];
            if (f.model.x.size() > 150) {
                f.real.reset();
                f.model.reset();
            }
            switch (s.draw(7)) {
                case 0: {
                    f.real.reset();
                    f.model.reset();
                    ++others;
                    c.describe([&](auto& o) { o << "reset "; });
                    break;
                }
                case 1: {
                    const auto k = static_cast<int>(s.draw(5));
                    const T v    = k == 0 ? leading<T>(s, exact) : coefficient<T>(s, exact);
                    switch (k) {
                        case 0: f.real.set_a0(v); break;
                        case 1: f.real.set_a1(v); break;
                        case 2: f.real.set_a2(v); break;
                        case 3: f.real.set_b0(v); break;
                        case 4: f.real.set_b1(v); break;
                        default: f.real.set_b2(v); break;
                    }
                    (k < 3 ? f.model.a[k] : f.model.b[k - 3]) = v;
                    f.model.reset();
                    check_coefficients(f.real, f.model, false);
                    ++others;
                    c.label("setter");
                    c.describe([&](auto& o) { o << "set " << (k < 3 ? 'a' : 'b') << k % 3 << "=" << v << " "; });
                    break;
                }
                case 2: {
                    if (pool.size() < 4) {
                        auto copy = f;
                        pool.push_back(std::move(copy));
                    } else {
                        pool[s.draw(pool.size() - 1)] = Pair<T>(f);
                    }
                    ++others;
                    c.label("copy");
                    c.describe([&](auto& o) { o << "copy "; });
                    break;
                }
                default: {
                    feed<T>(s, c, f.real, [&](T v) { return f.model.tick(v, 0); }, [&] { return f.model.overflowing(); }, exact, "biquad");
                    if (f.model.overflowing()) {
                        f.real.reset();
                        f.model.reset();
                    }
                    ++fed;
                    break;
                }
            }
        }
        c.nontrivial(fed >= 2 && others >= 1);
    }

    template <typename T, std::size_t N>
    struct Chain {
        ef::biquad_cascade<T, N> real;
        std::vector<Section<T>> model;
        std::pair<ld, ld> tick(T v) {
            std::pair<ld, ld> r{v, 0};
            for (auto& m : model) {
                r = m.tick(r.first, r.second);
            }
            return r;
        }
        bool overflowing() const {
            return std::any_of(model.begin(), model.end(), [](const auto& m) { return m.overflowing(); });
        }
        void check() const {
            VP_CHECK(real.size() == model.size() && real.max_size() == N && real.capacity() == N, "cascade of " << real.size() << "/" << real.max_size() << "/" << real.capacity() << ", expected " << model.size() << "/" << N);
            VP_CHECK(static_cast<std::size_t>(std::distance(real.begin(), real.end())) == model.size() && static_cast<std::size_t>(std::distance(real.cbegin(), real.cend())) == model.size(), "iteration over the cascade does not cover its sections");
            std::size_t k = 0;
            for (const auto& b : real) {
                check_coefficients(b, model[k], false);
                check_coefficients(real[k], model[k], false);
                ++k;
            }
            auto& open = const_cast<typename std::decay<decltype(real)>::type&>(real); // the history owns a mutable cascade
            VP_CHECK(static_cast<std::size_t>(std::distance(open.begin(), open.end())) == model.size(), "iteration over the mutable cascade covers " << std::distance(open.begin(), open.end()) << " of its " << model.size() << " sections");
            k = 0;
            for (auto& b : open) {
                check_coefficients(b, model[k], false);
                check_coefficients(open[k], model[k], false);
                ++k;
            }
        }
    };

    template <typename T, std::size_t N>
    void cascade_of(Src& s, Ctx& c) {
        const bool exact = s.flip();
        std::vector<Chain<T, N>> pool(1);
        const auto steps = s.size(1, 14);
        std::size_t fed = 0, longest = 0;
        for (long i = 0; i < steps; ++i) {
            auto& f = pool[s.draw(pool.size() - 1)];
            for (auto& m : f.model) {
                if (m.x.size() > 100) {
                    f.real.reset();
                    for (auto& o : f.model) {
                        o.reset();
                    }
                    break;
                }
            }
            switch (s.draw(9)) {
                case 0:
                case 1:
                case 2: {
                    if (f.model.size() < N) {
                        auto b = build<T>(s, c, exact);
                        c.describe([&](auto& o) { o << "pushed "; });
                        if (s.flip()) { // a section that has been used already keeps its state
                            const T v = sample<T>(s, exact);
                            require_output("biquad", 0, b.real.tick(v), b.model.tick(v, 0));
                            f.real.push_back(b.real);
                        } else if (s.flip()) {
                            f.real.emplace_back(b.real.a0(), b.real.a1(), b.real.a2(), b.real.b0(), b.real.b1(), b.real.b2());
                        } else {
                            f.real.push_back(b.real);
                        }
                        f.model.push_back(b.model);
                    }
                    break;
                }
                case 3: {
                    f.real.reset();
                    for (auto& m : f.model) {
                        m.reset();
                    }
                    c.describe([&](auto& o) { o << "reset "; });
                    break;
                }
                case 4: {
                    if (s.flip()) {
                        f.real.clear();
                        f.model.clear();
                        c.label("clear");
                        c.describe([&](auto& o) { o << "clear "; });
                    } else if (!f.model.empty()) {
                        const auto k = s.draw(f.model.size() - 1);
                        const T v    = coefficient<T>(s, exact);
                        f.real[k].set_b1(v);
                        f.model[k].b[1] = v;
                        f.model[k].reset();
                        c.describe([&](auto& o) { o << "section " << k << " b1=" << v << " "; });
                    }
                    break;
                }
                case 5: {
                    if (pool.size() < 3) {
                        auto copy = f;
                        pool.push_back(std::move(copy));
                    } else {
                        pool[s.draw(pool.size() - 1)] = Chain<T, N>(f);
                    }
                    c.label("copy");
                    c.describe([&](auto& o) { o << "copy "; });
                    break;
                }
                default: {
                    longest = std::max(longest, f.model.size());
                    feed<T>(s, c, f.real, [&](T v) { return f.tick(v); }, [&] { return f.overflowing(); }, exact, "cascade");
                    if (f.overflowing()) {
                        f.real.reset();
                        for (auto& m : f.model) {
                            m.reset();
                        }
                    }
                    ++fed;
                    break;
                }
            }
            for (auto& p : pool) {
                p.check();
            }
        }
        c.label("sections fed " + std::to_string(longest));
        c.nontrivial(fed >= 2 && longest >= std::min<std::size_t>(N, 2));
    }
    template <typename T>
    void cascades(Src& s, Ctx& c) {
        switch (s.draw(3)) {
            case 0: return cascade_of<T, 2>(s, c);
            case 1: return cascade_of<T, 1>(s, c);
            case 2: return cascade_of<T, 3>(s, c);
            default: return cascade_of<T, 6>(s, c);
        }
    }

    template <typename T>
    void stability(Src& s, Ctx& c) {
        const bool exact = s.flip();
        auto p           = roots<T>(s, exact);
        if (exact && s.one_in(3)) { // on the circle
            p = s.flip() ? std::make_pair(std::complex<T>(s.flip() ? 1 : -1, 0), std::complex<T>(static_cast<T>(s.range<int>(-8, 8)) / 8, 0)) : std::make_pair(std::complex<T>(0, 1), std::complex<T>(0, -1));
        } else if (!exact && s.flip()) { // near it
            const auto r  = 1 + (s.flip() ? 1 : -1) * s.log_uniform(1e-4, 0.3);
            const auto th = s.uniform(0, 3.14159);
            if (s.flip()) {
                p.first = std::complex<T>(static_cast<T>(r * std::cos(th)), static_cast<T>(r * std::sin(th)));
                p.second = std::conj(p.first);
            } else {
                p.first = std::complex<T>(static_cast<T>(s.flip() ? r : -r), 0);
                p.second = std::complex<T>(static_cast<T>(s.uniform(-1, 1)), 0);
            }
        }
        const ld m1 = std::norm(std::complex<ld>(p.first.real(), p.first.imag())), m2 = std::norm(std::complex<ld>(p.second.real(), p.second.imag()));
        const ld worst = std::max(m1, m2);
        if (!exact && std::abs(worst - 1) < 2e-5L) {
            c.label("too close to call");
            return;
        }
        const bool expected = worst < 1;
        c.label(expected ? "stable" : worst == 1 ? "on the circle" : "unstable");
        c.nontrivial();
        const T k = leading<T>(s, true);
        ld a[3];
        from_roots(a, p.first, p.second);
        c.describe([&](auto& o) { o << "poles " << p.first << p.second << " a0=" << k << (expected ? " stable" : " unstable"); });
        // roots that are close to each other and to the circle lose half the digits in the coefficients
        if (!exact && std::is_same<T, float>::value && std::abs(p.first - p.second) < 0.05 && std::abs(worst - 1) < 1e-3L) {
            return;
        }
        const T a1 = static_cast<T>(a[1]), a2 = static_cast<T>(a[2]);
        const ef::biquad<T> by_coefficients(k, a1 * k, a2 * k, 1, 2, 3), by_roots(p.first, std::complex<T>(0, 0), p.second, std::complex<T>(0, 0));
        ef::biquad<T> by_setters;
        by_setters.set_a2(a2 * k);
        by_setters.set_a0(k);
        by_setters.set_a1(a1 * k);
        for (const auto* f : {&by_coefficients, &by_roots, static_cast<const ef::biquad<T>*>(&by_setters)}) {
            VP_CHECK(f->stability() == expected && static_cast<bool>(*f) == expected, "stability() = " << f->stability() << " for poles " << p.first << p.second << " of largest squared magnitude " << worst << " a0=" << f->a0());
        }
    }

    // thousands of samples through one to three sections whose poles are well inside the circle
    template <typename T>
    struct LongSection {
        ld a[3]{1, 0, 0}, b[3]{1, 0, 0}, x1{0}, x2{0}, y1{0}, y2{0}, gain{0}, local{0};
        std::pair<ld, ld> tick(ld v, ld err) { // err bounds the error of every sample so far
            const ld y = b[0] * v + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2;
            const ld m = std::abs(b[0] * v) + std::abs(b[1] * x1) + std::abs(b[2] * x2) + std::abs(a[1] * y1) + std::abs(a[2] * y2);
            local      = std::max(local, (std::abs(b[0]) + std::abs(b[1]) + std::abs(b[2])) * err + 12 * eps<T>() * (m + std::abs(y)) + std::numeric_limits<T>::min());
            x2 = x1, x1 = v, y2 = y1, y1 = y;
            return {y, gain * local};
        }
    };
    template <typename T>
    void long_run(Src& s, Ctx& c) {
        const auto sections = s.draw(2) + 1;
        std::vector<LongSection<T>> model(sections);
        std::vector<ef::biquad<T>> loose;
        ef::biquad_cascade<T, 3> real;
        c.describe([&](auto& o) { o << sections << " sections, poles"; });
        for (auto& m : model) {
            const double r = s.uniform(0, 0.95), th = s.uniform(0, 3.14159);
            const T a1 = static_cast<T>(-2 * r * std::cos(th)), a2 = static_cast<T>(r * r);
            const T b0 = static_cast<T>(s.uniform(-2, 2)), b1 = static_cast<T>(s.uniform(-2, 2)), b2 = static_cast<T>(s.uniform(-2, 2));
            m.a[1] = a1, m.a[2] = a2, m.b[0] = b0, m.b[1] = b1, m.b[2] = b2;
            ld g1 = 0, g2 = 0;
            for (int i = 0; i < 2000; ++i) {
                const ld g = (i == 0 ? 1 : 0) - m.a[1] * g1 - m.a[2] * g2;
                m.gain += std::abs(g);
                g2 = g1, g1 = g;
            }
            loose.emplace_back(T(1), a1, a2, b0, b1, b2);
            real.push_back(loose.back());
            c.describe([&](auto& o) { o << " " << r << "@" << th; });
        }
        const auto n     = static_cast<std::size_t>(s.range<int>(1000, s.one_in(4) ? 40000 : 6000));
        const double amp = loudness<T>(s, false);
        const auto kind  = s.draw(2);
        uint64_t h       = s.draw(1000000) * 2654435761u + 12345;
        c.describe([&](auto& o) { o << " n=" << n << " amplitude " << amp << (kind == 0 ? " noise" : kind == 1 ? " bursts" : " steps"); });
        c.label(kind == 0 ? "noise" : kind == 1 ? "bursts" : "steps");
        std::vector<T> in(n);
        for (std::size_t i = 0; i < n; ++i) {
            h             = h * 6364136223846793005u + 1442695040888963407u;
            const auto u  = static_cast<double>(h >> 11) / 9007199254740992.0 * 2 - 1;
            in[i]         = static_cast<T>(amp * (kind == 0 ? u : kind == 1 ? (i / 700 % 3 == 0 ? u : 0) : (i / 300 % 2 ? 1 : -1)));
        }
        Buf<T> out(in);
        const auto piece = static_cast<std::size_t>(s.range<int>(1, 5000));
        for (std::size_t i = 0; i < n; i += piece) {
            const auto last = std::min(n, i + piece);
            real.filter(in.cbegin() + static_cast<long>(i), in.cbegin() + static_cast<long>(last), out.begin() + i);
        }
        for (std::size_t i = 0; i < n; ++i) {
            T v = in[i];
            std::pair<ld, ld> e{in[i], 0};
            for (std::size_t k = 0; k < sections; ++k) {
                v = loose[k].tick(v);
                e = model[k].tick(e.first, e.second);
                VP_CHECK(std::isfinite(v) && std::abs(v - e.first) <= e.second, "section " << k << " on its own gives " << v << " at sample " << i << ", expected " << e.first << " +- " << e.second);
            }
            VP_CHECK(std::isfinite(out.p[i]) && std::abs(out.p[i] - e.first) <= e.second, "the cascade gives " << out.p[i] << " at sample " << i << ", expected " << e.first << " +- " << e.second);
        }
        c.nontrivial();
    }
} // namespace

VP_FAMILY("biquad", 250000, 5000000, "a history of samples, ranges, resets, setters and copies over up to 4 biquads; non-trivial: >=2 feeds and a reset, setter or copy") { VP_DISPATCH(biquads); }
VP_FAMILY("cascade", 150000, 3000000, "a history of pushes, feeds, resets, clears and copies over up to 3 cascades; non-trivial: >=2 feeds through >=2 sections (1 where the capacity is 1)") { VP_DISPATCH(cascades); }
VP_FAMILY("stability", 200000, 4000000, "a pole pair inside, on or outside the unit circle; non-trivial: not within 1e-5 of the circle unless exactly on it") { VP_DISPATCH(stability); }
VP_FAMILY("long run", 4000, 80000, "thousands of samples of any loudness through one to three well damped sections, one by one and in ranges; non-trivial: always") { VP_DISPATCH(long_run); }
