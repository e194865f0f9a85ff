// C18: oscillators against their waveform evaluated at an independently kept time
#ifdef VP_PYTHON // C27: the oscillators of the Python module
#include "pyapi.hpp"
namespace eo = pyobject;
#define FACTORY(kind, ...) type(__VA_ARGS__)
#else
#include <edsp/oscillator.hpp>
namespace eo = edsp::oscillators;
#define FACTORY(kind, ...) eo::make_oscillator<T, eo::OscillatorType::kind>(__VA_ARGS__)
#endif
#include "common.hpp"
using namespace vp;

namespace {
    const ld PI = 3.141592653589793238462643383279502884L;
    enum { SIN, SQUARE, SAW, TRI };
    const char* names[] = {"sinusoidal", "square", "sawtooth", "triangular"};

    // what an oscillator was told and where in time it is
    template <typename T>
    struct Model {
        T a, f, rate, phase{0}, shape{0};
        ld t{0}, drift{0}; // time and the largest error rounding may have put on it
        void advance() {
            t += 1 / static_cast<ld>(rate);
            drift += eps<double>() * (std::abs(t) + 1 / static_cast<ld>(rate));
        }
        void set(ld v) {
            t     = v;
            drift = 0;
        }
    };

    template <typename T>
    void judge(const char* what, int kind, const Model<T>& m, T y) {
        const ld a = std::abs(static_cast<ld>(m.a)), cycles = static_cast<ld>(m.f) * m.t;
        // uncertainty of the phase, in cycles
        const ld du = static_cast<ld>(m.f) * m.drift + 4 * eps<double>() * std::abs(cycles) + 4 * eps<double>();
        VP_CHECK(std::isfinite(y) && std::abs(static_cast<ld>(y)) <= a * (1 + 4 * eps<T>()),
                 what << " at t=" << m.t << " is " << y << ", outside [-" << a << ", " << a << "]");
        if (kind == SIN) {
            const ld e = m.a * std::sin(2 * PI * (cycles - std::floor(cycles)) + static_cast<ld>(m.phase));
            const ld tol = a * (2 * PI * du + 4 * eps<T>() + 8 * eps<double>() * std::abs(static_cast<ld>(m.phase)));
            VP_CHECK(std::abs(y - e) <= tol, what << " at t=" << static_cast<double>(m.t) << " is " << y << ", expected " << static_cast<double>(e) << " +- " << static_cast<double>(tol));
            return;
        }
        ld u          = cycles - std::floor(cycles);
        const ld w    = static_cast<ld>(m.shape);
        const auto at = [&](ld x) -> ld {
            x -= std::floor(x);
            if (kind == SQUARE) {
                return m.a * (x < w ? 1.0L : -1.0L);
            }
            if (w != 0 && x < w) {
                return m.a * (2 * x / w - 1);
            }
            return m.a * (1 - 2 * (x - w) / (1 - w));
        };
        // the waveform anywhere in [u-du, u+du]: both are piecewise monotonic, so the ends, the edges inside and both sides of them
        ld low = std::min(at(u - du), at(u + du)), high = std::max(at(u - du), at(u + du));
        low  = std::min(low, at(u));
        high = std::max(high, at(u));
        const auto inside = [&](ld edge) {
            const ld d = u - edge - std::floor(u - edge + 0.5L);
            return std::abs(d) <= du;
        };
        if (inside(w) || inside(0) || du > 0.25L) {
            if (kind == SQUARE || w == 0 || w == 1 || du > 0.25L) {
                low  = -a;
                high = a;
            } else if (inside(w) && inside(0)) {
                low  = -a;
                high = a;
            } else if (inside(w)) {
                (m.a > 0 ? high : low) = m.a;
            } else {
                (m.a > 0 ? low : high) = -m.a;
            }
        }
        const ld tol = a * 8 * eps<T>();
        VP_CHECK(y >= low - tol && y <= high + tol, what << " at t=" << static_cast<double>(m.t) << " (phase " << static_cast<double>(u) << ", shape " << static_cast<double>(w) << ") is " << y << ", expected "
                                                         << static_cast<double>(low) << ".." << static_cast<double>(high));
        if (kind == SQUARE) {
            VP_CHECK(y == m.a || y == -m.a, what << " gives " << y << ", neither " << m.a << " nor " << -m.a);
        }
    }

    template <typename T>
    T pick_rate(Src& s) {
        static const T r[] = {8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000};
        return s.one_in(3) ? static_cast<T>(s.log_uniform(10, 1e6)) : r[s.draw(8)];
    }
    template <typename T>
    T pick_frequency(Src& s, T rate) {
        switch (s.draw(4)) {
            case 0: return static_cast<T>(s.range<int>(1, 4000));
            case 1: return rate / static_cast<T>(s.range<int>(2, 200)); // a whole number of samples per period
            case 2: return static_cast<T>(s.log_uniform(1e-3, static_cast<double>(rate) / 2));
            case 3: return static_cast<T>(440);
            default: return static_cast<T>(s.uniform(0.001, 1.2)) * rate; // aliased
        }
    }
    template <typename T>
    T pick_shape(Src& s) {
        switch (s.draw(5)) {
            case 0: return 0;
            case 1: return 1;
            case 2: return static_cast<T>(0.5);
            default: return static_cast<T>(s.uniform(0, 1));
        }
    }
    template <typename T>
    T pick_amplitude(Src& s) {
        switch (s.draw(4)) {
            case 0: return 1;
            case 1: return 0;
            case 2: return static_cast<T>(-s.log_uniform(1e-3, 1e3));
            default: return static_cast<T>(s.log_uniform(1e-6, 1e6));
        }
    }

    template <typename T, int Kind>
    struct Make;
    template <typename T>
    struct Make<T, SIN> {
        using type = eo::sin_oscillator<T>;
        static type make(bool factory, T a, T r, T f, T p) { return factory ? FACTORY(Sinusoidal, a, r, f, p) : type(a, r, f, p); }
        static void shape(type&, T) {}
        static T shape(const type&, T v) { return v; }
    };
    template <typename T>
    struct Make<T, SQUARE> {
        using type = eo::square_oscillator<T>;
        static type make(bool factory, T a, T r, T f, T p) { return factory ? FACTORY(Square, a, r, f, p) : type(a, r, f, p); }
        static void shape(type& o, T v) { o.set_duty(v); }
        static T shape(const type& o, T) { return o.duty(); }
    };
    template <typename T>
    struct Make<T, SAW> {
        using type = eo::sawtooth_oscillator<T>;
        static type make(bool factory, T a, T r, T f, T p) { return factory ? FACTORY(Sawtooth, a, r, f, p) : type(a, r, f, p); }
        static void shape(type& o, T v) { o.set_width(v); }
        static T shape(const type& o, T) { return o.width(); }
    };
    template <typename T>
    struct Make<T, TRI> {
        using type = eo::triangular_oscillator<T>;
        static type make(bool factory, T a, T r, T f, T) { return factory ? FACTORY(Triangular, a, r, f) : type(a, r, f); }
        static void shape(type&, T) {}
        static T shape(const type& o, T) { return o.width(); }
    };

    template <typename T, int Kind>
    void getters(const typename Make<T, Kind>::type& o, const Model<T>& m) {
        VP_CHECK(o.amplitude() == m.a, "amplitude() = " << o.amplitude() << ", set to " << m.a);
        VP_CHECK(o.frequency() == m.f, "frequency() = " << o.frequency() << ", set to " << m.f);
        VP_CHECK(o.sample_rate() == m.rate, "sample_rate() = " << o.sample_rate() << ", set to " << m.rate);
        VP_CHECK(o.phase() == (Kind == SIN ? m.phase : o.phase()), "phase() = " << o.phase() << ", set to " << m.phase);
        const T shape = Make<T, Kind>::shape(o, m.shape);
        VP_CHECK(std::abs(shape - m.shape) <= 2 * eps<T>(), "duty() or width() = " << shape << ", set to " << m.shape);
#ifndef VP_PYTHON
        require_close<T>("sampling_period()", o.sampling_period(), 1 / static_cast<ld>(m.rate), 0, 2);
#endif
        VP_CHECK(std::abs(o.timestamp() - m.t) <= m.drift + 2 * eps<T>() * std::abs(m.t), "timestamp() = " << o.timestamp() << ", expected " << static_cast<double>(m.t));
    }

    template <typename T, int Kind>
    void history(Src& s, Ctx& c) {
        using M = Make<T, Kind>;
        c.label(names[Kind]);
        Model<T> m0;
        m0.rate  = pick_rate<T>(s);
        m0.f     = pick_frequency<T>(s, m0.rate);
        m0.a     = pick_amplitude<T>(s);
        m0.phase = Kind == SIN ? static_cast<T>(s.uniform(-20, 20)) : 0;
        m0.shape = Kind == TRI ? static_cast<T>(0.5) : pick_shape<T>(s);
        const bool factory = s.flip();
        std::vector<typename M::type> real{M::make(factory, m0.a, m0.rate, m0.f, Kind == SIN ? m0.phase : m0.shape)};
        std::vector<Model<T>> model{m0};
        c.describe([&](auto& o) { o << names[Kind] << "<" << tname<T>() << ">(" << m0.a << "," << m0.rate << "," << m0.f << "," << (Kind == SIN ? m0.phase : m0.shape) << ") "; });
        getters<T, Kind>(real[0], model[0]);
        long made = 0, changes = 0;
        const auto one = [&](std::size_t k, T y) {
            judge<T>(names[Kind], Kind, model[k], y);
            model[k].advance();
            ++made;
        };
        const auto steps = s.size(1, 12);
        for (long i = 0; i < steps; ++i) {
            const auto k = s.draw(real.size() - 1);
            auto& o      = real[k];
            auto& m      = model[k];
            switch (s.draw(12)) {
                case 0:
                    m.f = pick_frequency<T>(s, m.rate);
                    o.set_frequency(m.f);
                    ++changes;
                    c.label("set_frequency");
                    c.describe([&](auto& d) { d << "f=" << m.f << " "; });
                    break;
                case 1:
                    m.a = pick_amplitude<T>(s);
                    o.set_amplitude(m.a);
                    ++changes;
                    c.describe([&](auto& d) { d << "a=" << m.a << " "; });
                    break;
                case 2:
                    m.rate = pick_rate<T>(s);
                    o.set_sample_rate(m.rate);
                    ++changes;
                    c.label("set_sample_rate");
                    c.describe([&](auto& d) { d << "rate=" << m.rate << " "; });
                    break;
                case 3:
                    if (Kind == SIN) {
                        m.phase = static_cast<T>(s.uniform(-20, 20));
                        o.set_phase(m.phase);
                        ++changes;
                        c.describe([&](auto& d) { d << "phase=" << m.phase << " "; });
                    } else if (Kind != TRI) {
                        m.shape = pick_shape<T>(s);
                        M::shape(o, m.shape);
                        ++changes;
                        c.label("set_shape");
                        c.describe([&](auto& d) { d << "shape=" << m.shape << " "; });
                    }
                    break;
                case 4: {
                    const T t = s.flip() ? static_cast<T>(s.log_uniform(1e-6, 1e4)) : static_cast<T>(s.range<int>(0, 20));
                    o.set_timestamp(t);
                    m.set(t);
                    ++changes;
                    c.label("set_timestamp");
                    c.describe([&](auto& d) { d << "t=" << t << " "; });
                    break;
                }
                case 5:
                    o.reset();
                    m.set(0);
                    ++changes;
                    c.label("reset");
                    c.describe([&](auto& d) { d << "reset "; });
                    break;
#ifndef VP_PYTHON
                case 6:
                    if (real.size() < 3) {
                        const auto copy = real[k];
                        const auto mm   = model[k];
                        real.push_back(copy);
                        model.push_back(mm);
                        c.label("copy");
                        c.describe([&](auto& d) { d << "copy "; });
                    }
                    break;
#endif
                case 7:
                case 8: { // a block through an algorithm
                    const auto n = static_cast<std::size_t>(s.size(0, 300));
                    Buf<T> out(n, T(0));
#ifdef VP_PYTHON
                    const auto block = o.generate(static_cast<long>(n));
                    std::copy(block.begin(), block.end(), out.begin());
#else
                    std::generate(out.begin(), out.end(), std::ref(o));
#endif
                    c.describe([&](auto& d) { d << "block" << n << " "; });
                    for (std::size_t j = 0; j < n; ++j) {
                        one(k, out.p[j]);
                    }
                    break;
                }
                case 9: // a long run
                    if (s.one_in(20)) {
                        const auto n = s.range<long>(20000, 400000);
                        c.label("long run");
                        c.describe([&](auto& d) { d << "run" << n << " "; });
#ifdef VP_PYTHON
                        const auto run = o.generate(n);
#endif
                        for (long j = 0; j < n; ++j) {
#ifdef VP_PYTHON
                            const T y = run[static_cast<std::size_t>(j)];
#else
                            const T y = o();
#endif
                            if (j < 50 || j > n - 200) {
                                judge<T>(names[Kind], Kind, m, y);
                            }
                            m.advance();
                        }
                        made += n;
                    }
                    break;
                default:
                    for (auto n = s.range<int>(1, 40); n > 0; --n) {
                        one(k, o());
                    }
                    c.describe([&](auto& d) { d << "calls "; });
            }
            for (std::size_t j = 0; j < real.size(); ++j) {
                getters<T, Kind>(real[j], model[j]);
            }
        }
        if (made >= 10 && model[0].a != 0) {
            c.nontrivial();
        }
        c.label(changes == 0 ? "no setter" : changes < 3 ? "1-2 changes" : ">=3 changes");
    }
    template <typename T>
    void sin_h(Src& s, Ctx& c) { history<T, SIN>(s, c); }
    template <typename T>
    void square_h(Src& s, Ctx& c) { history<T, SQUARE>(s, c); }
    template <typename T>
    void saw_h(Src& s, Ctx& c) { history<T, SAW>(s, c); }
    template <typename T>
    void tri_h(Src& s, Ctx& c) { history<T, TRI>(s, c); }

    // one period later the same sample comes out
    template <typename T>
    void periodic(Src& s, Ctx& c) {
        const auto samples = s.range<int>(2, 64), periods = s.one_in(40) ? s.range<int>(40, 2000) : s.range<int>(1, 40);
        const T rate = static_cast<T>(1 << s.range<int>(3, 16)), f = rate / static_cast<T>(samples), a = static_cast<T>(s.log_uniform(0.1, 10));
        const T w = static_cast<T>((s.range<int>(0, samples - 1) + 0.5) / samples); // an edge half way between two samples
        eo::sin_oscillator<T> o1(a, rate, f, static_cast<T>(0.3));
        eo::square_oscillator<T> o2(a, rate, f, w);
        eo::sawtooth_oscillator<T> o3(a, rate, f, w);
        eo::triangular_oscillator<T> o4(a, rate, f);
        // start within the first sample so that no sample sits on the wrap
        const T start = static_cast<T>(0.25) / rate;
        o1.set_timestamp(start), o2.set_timestamp(start), o3.set_timestamp(start), o4.set_timestamp(start);
        std::vector<T> first[4];
        c.describe([&](auto& o) { o << "period of " << samples << " samples, " << periods << " periods, width " << w; });
        c.nontrivial();
        int high = 0;
        for (int i = 0; i < samples * periods; ++i) {
            const T y[4] = {o1(), o2(), o3(), o4()};
            for (int k = 0; k < 4; ++k) {
                if (i < samples) {
                    first[k].push_back(y[k]);
                    high += k == 1 && y[k] > 0;
                } else {
                    const ld slope = k == 0 ? 7 : k == 2 ? 2 / std::min<ld>(w, 1 - w) : k == 3 ? 4 : 0;
                    const ld tol   = a * (slope * (i * eps<double>() * 4 + (sizeof(T) == 4 ? i * 2 * eps<T>() / samples : 0)) + 8 * eps<T>());
                    VP_CHECK(std::abs(static_cast<ld>(y[k]) - first[k][i % samples]) <= tol, names[k] << " sample " << i << " is " << y[k] << ", one period earlier " << first[k][i % samples]);
                }
            }
        }
        // the duty cycle is the fraction of the period at the top
        VP_CHECK(std::abs(high - static_cast<double>(w) * samples) <= 1, "square is high for " << high << " of " << samples << " samples at duty " << w);
    }
} // namespace

VP_FAMILY("sinusoidal", 25000, 500000, "a history of samples and setters; non-trivial: at least 10 samples of non-zero amplitude") { VP_DISPATCH(sin_h); }
VP_FAMILY("square", 25000, 500000, "a history of samples and setters; non-trivial: at least 10 samples of non-zero amplitude") { VP_DISPATCH(square_h); }
VP_FAMILY("sawtooth", 25000, 500000, "a history of samples and setters; non-trivial: at least 10 samples of non-zero amplitude") { VP_DISPATCH(saw_h); }
VP_FAMILY("triangular", 20000, 300000, "a history of samples and setters; non-trivial: at least 10 samples of non-zero amplitude") { VP_DISPATCH(tri_h); }
VP_FAMILY("periodic", 10000, 200000, "several periods of a wave with a whole number of samples per period; non-trivial: always") { VP_DISPATCH(periodic); }
