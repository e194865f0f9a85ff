// C35: objects own their state: pools of objects that are created, used, copied, moved, assigned, swapped, kept in
// vectors and destroyed in any order; what an object answers depends on its own history and nothing else
#include "ref_audio.hpp"
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/filter.hpp>
#include <edsp/filter/biquad_cascade.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/oscillators/sawtooth.hpp>
#include <edsp/oscillators/sinusoidal.hpp>
#include <edsp/oscillators/square.hpp>
#include <edsp/oscillators/triangular.hpp>
#include <edsp/random/binary_generator.hpp>
#include <edsp/random/constant_generator.hpp>
#include <edsp/random/noise/brown_noise_generator.hpp>
#include <edsp/random/noise/perlin_noise_generator.hpp>
#include <edsp/random/noise/pink_noise_generator.hpp>
#include <edsp/random/noise/white_noise_generator.hpp>
#include <edsp/random/random_generator.hpp>
#include <edsp/spectral/fft_engine.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <map>
#include <memory>
using namespace vp;

namespace {
    using Args   = std::vector<double>;
    using Output = std::vector<double>;
    struct Op {
        int code = 0;
        Args args;
    };

    bool same(const Output& a, const Output& b, double tolerance) {
        if (a.size() != b.size()) {
            return false;
        }
        double scale = 1;
        for (double v : a) {
            scale = std::max(scale, std::isfinite(v) ? std::abs(v) : 0);
        }
        for (std::size_t i = 0; i < a.size(); ++i) {
            const bool equal = a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::abs(a[i] - b[i]) <= tolerance * scale;
            if (!equal) {
                return false;
            }
        }
        return true;
    }

    Args signal(Src& s, std::size_t n) {
        Args x(n);
        for (auto& v : x) {
            v = s.one_in(8) ? 0.0 : s.uniform(-1, 1);
        }
        return x;
    }
    template <typename T>
    std::vector<T> cast(const Args& a) {
        return std::vector<T>(a.begin(), a.end());
    }
    template <typename T>
    Output out(const std::vector<T>& v) {
        return Output(v.begin(), v.end());
    }

    // ---- the classes: how an object is made, what can be asked of it and what it answers ----
    // answers: the same history gives the same answers (a class without seed); else only copies share them
    struct Repeatable {
        static constexpr bool repeatable  = true;
        static constexpr double tolerance = 0;
    };
    struct Seeded : Repeatable {
        static constexpr bool repeatable = false;
    };

    template <typename T>
    struct Biquad : Repeatable {
        using type = edsp::filter::biquad<T>;
        static Args config(Src& s) { return {s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(.5, 2), s.uniform(-.9, .9), s.uniform(-.4, .4)}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(T(a[0]), T(a[1]), T(a[2]), T(a[3]), T(a[4]), T(a[5])); }
        static Op op(Src& s, const type&) {
            switch (s.draw(6)) {
                case 0: return {1, {}};
                case 1: return {2 + static_cast<int>(s.draw(2)), {s.uniform(-1, 1)}};
                default: return {0, signal(s, 1 + s.draw(6))};
            }
        }
        static Output apply(type& f, const Op& o) {
            switch (o.code) {
                case 0: {
                    auto x = cast<T>(o.args), y = x;
                    f.filter(x.begin(), x.end(), y.begin());
                    return out(y);
                }
                case 1: f.reset(); break;
                case 2: f.set_b0(T(o.args[0])); break;
                case 3: f.set_b1(T(o.args[0])); break;
                default: f.set_b2(T(o.args[0])); break;
            }
            return {double(f.a0()), double(f.a1()), double(f.a2()), double(f.b0()), double(f.b1()), double(f.b2())};
        }
    };

    template <typename T>
    struct Cascade : Repeatable {
        using type = edsp::filter::biquad_cascade<T, 4>;
        static Args config(Src& s) { return {double(s.draw(4))}; }
        static std::unique_ptr<type> make(const Args& a) {
            auto r = std::make_unique<type>();
            for (int i = 0; i < a[0]; ++i) {
                r->emplace_back(T(1), T(.5 - .2 * i), T(.1), T(1), T(.3 * i - .5), T(.1));
            }
            return r;
        }
        static Op op(Src& s, const type& f) {
            switch (s.draw(7)) {
                case 0: return {1, {}};
                case 1: return f.size() < f.capacity() ? Op{2, {s.uniform(-1, 1), s.uniform(-.9, .9)}} : Op{1, {}};
                case 2: return f.size() > 0 ? Op{3, {double(s.draw(f.size() - 1)), s.uniform(-1, 1)}} : Op{4, {}};
                case 3: return {4, {}};
                default: return {0, signal(s, 1 + s.draw(6))};
            }
        }
        static Output apply(type& f, const Op& o) {
            switch (o.code) {
                case 0: {
                    auto x = cast<T>(o.args), y = x;
                    f.filter(x.begin(), x.end(), y.begin());
                    return out(y);
                }
                case 1: f.reset(); break;
                case 2: f.push_back(edsp::filter::biquad<T>(T(o.args[0]), T(1), T(0), T(1), T(o.args[1]), T(0))); break;
                case 3: f[static_cast<std::size_t>(o.args[0])].set_b0(T(o.args[1])); break;
                default: f.clear(); break;
            }
            Output r{double(f.size()), double(f.capacity())};
            for (const auto& b : f) {
                r.push_back(double(b.b0()));
                r.push_back(double(b.a1()));
            }
            return r;
        }
    };

    // a designed filter, used through the interface of the cascade
    template <typename T>
    struct Designed : Repeatable {
        using type = decltype(edsp::filter::make_filter<T, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::LowPass, 8>(5, T(1000), T(100)));
        static Args config(Src& s) { return {double(1 + s.draw(7)), s.uniform(20, 450)}; }
        static std::unique_ptr<type> make(const Args& a) {
            return std::make_unique<type>(edsp::filter::make_filter<T, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::LowPass, 8>(static_cast<std::size_t>(a[0]), T(1000), T(a[1])));
        }
        static Op op(Src& s, const type&) { return s.one_in(6) ? Op{1, {}} : Op{0, signal(s, 1 + s.draw(6))}; }
        static Output apply(type& f, const Op& o) {
            if (o.code == 1) {
                f.reset();
                return {};
            }
            auto x = cast<T>(o.args), y = x;
            f.filter(x.begin(), x.end(), y.begin());
            return out(y);
        }
    };

    template <typename F, typename T>
    struct Moving : Repeatable {
        using type = F;
        static Args config(Src& s) { return {double(1 + s.draw(6))}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(static_cast<std::size_t>(a[0])); }
        static Op op(Src& s, const type&) {
            switch (s.draw(7)) {
                case 0: return {1, {}};
                case 1: return {2, {double(1 + s.draw(6))}};
                case 2: return {3, signal(s, 1)};
                default: return {0, signal(s, 1 + s.draw(6))};
            }
        }
        static Output apply(type& f, const Op& o) {
            switch (o.code) {
                case 0: {
                    auto x = cast<T>(o.args), y = x;
                    f.filter(x.begin(), x.end(), y.begin());
                    return out(y);
                }
                case 1: f.reset(); break;
                case 2: f.resize(static_cast<std::size_t>(o.args[0])); break;
                default: return {double(f(T(o.args[0])))};
            }
            return {double(f.size())};
        }
    };
    template <typename T>
    using Mean = Moving<edsp::filter::moving_average<T>, T>;
    template <typename T>
    using Median = Moving<edsp::filter::moving_median<T>, T>;
    template <typename T>
    using Rms = Moving<edsp::filter::moving_rms<T>, T>;

    template <typename T>
    struct Leq : Repeatable {
        using type = edsp::feature::temporal::continuous_leq<T>;
        static Args config(Src& s) { return {double(1 + s.draw(6))}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(static_cast<std::size_t>(a[0])); }
        static Op op(Src& s, const type&) {
            auto x = signal(s, 1 + s.draw(6));
            x[0]   = s.uniform(.1, 1);
            return {0, x};
        }
        static Output apply(type& f, const Op& o) {
            auto x = cast<T>(o.args);
            return {double(f.extract(x.begin(), x.end()))};
        }
    };

    template <typename O, typename T, int Params>
    struct Oscillator : Repeatable {
        using type = O;
        static Args config(Src& s) { return {s.uniform(.1, 2), s.uniform(100, 1000), s.uniform(1, 40), s.uniform(.1, .9)}; }
        static std::unique_ptr<type> make(const Args& a) {
            if constexpr (Params == 4) {
                return std::make_unique<type>(T(a[0]), T(a[1]), T(a[2]), T(a[3]));
            } else {
                return std::make_unique<type>(T(a[0]), T(a[1]), T(a[2]));
            }
        }
        static Op op(Src& s, const type&) {
            switch (s.draw(11)) {
                case 0: return {1, {}};
                case 1: return {2, {s.uniform(1, 40)}};
                case 2: return {3, {s.uniform(0, 3)}};
                case 3: return {4, {s.uniform(.1, 2)}};
                case 4: return {5, {s.uniform(100, 1000)}};
                case 5: return {6, {s.uniform(0, 10)}};
                case 6: return {7, {s.uniform(.1, .9)}};
                default: return {0, {double(1 + s.draw(12))}};
            }
        }
        template <typename U>
        static auto shape(U& w, T v, int) -> decltype(w.set_duty(v), void()) { w.set_duty(v); }
        template <typename U>
        static auto shape(U& w, T v, int) -> decltype(w.set_width(v), void()) { w.set_width(v); }
        template <typename U>
        static void shape(U&, T, long) {}
        static Output apply(type& w, const Op& o) {
            Output r;
            switch (o.code) {
                case 0:
                    for (int i = 0; i < o.args[0]; ++i) {
                        r.push_back(double(w()));
                    }
                    return r;
                case 1: w.reset(); break;
                case 2: w.set_frequency(T(o.args[0])); break;
                case 3: w.set_phase(T(o.args[0])); break;
                case 4: w.set_amplitude(T(o.args[0])); break;
                case 5: w.set_sample_rate(T(o.args[0])); break;
                case 6: w.set_timestamp(T(o.args[0])); break;
                default: shape(w, T(o.args[0]), 0); break;
            }
            return {double(w.frequency()), double(w.phase()), double(w.amplitude()), double(w.sample_rate()), double(w.sampling_period()), double(w.timestamp())};
        }
    };
    template <typename T>
    using Sine = Oscillator<edsp::oscillators::sin_oscillator<T>, T, 4>;
    template <typename T>
    using Square = Oscillator<edsp::oscillators::square_oscillator<T>, T, 4>;
    template <typename T>
    using Sawtooth = Oscillator<edsp::oscillators::sawtooth_oscillator<T>, T, 4>;
    template <typename T>
    using Triangle = Oscillator<edsp::oscillators::triangular_oscillator<T>, T, 3>;

    template <typename T>
    struct Adsr : Repeatable {
        using type = edsp::envelope::adsr<T>;
        static Args config(Src& s) { return {s.uniform(10, 100), s.uniform(.01, .2), s.uniform(.01, .2), s.uniform(.01, .2), s.uniform(.1, .9)}; }
        static std::unique_ptr<type> make(const Args& a) {
            auto e = std::make_unique<type>();
            e->set_sample_rate(T(a[0]));
            e->set_attack_time(T(a[1]));
            e->set_decay_time(T(a[2]));
            e->set_release_time(T(a[3]));
            e->set_sustain_level(T(a[4]));
            return e;
        }
        static Op op(Src& s, const type&) {
            switch (s.draw(9)) {
                case 0: return {1, {}};
                case 1: return {2, {}};
                case 2: return {3, {s.uniform(.01, .2)}};
                case 3: return {4, {s.uniform(.1, .9)}};
                case 4: return {5, {s.uniform(.01, .2)}};
                default: return {0, signal(s, 1 + s.draw(6))};
            }
        }
        static Output apply(type& e, const Op& o) {
            switch (o.code) {
                case 0: {
                    auto x = cast<T>(o.args), y = x;
                    e.apply(x.begin(), x.end(), y.begin());
                    return out(y);
                }
                case 1: e.key_on(); break;
                case 2: e.key_off(); break;
                case 3: e.set_attack_time(T(o.args[0])); break;
                case 4: e.set_sustain_level(T(o.args[0])); break;
                default: e.set_release_time(T(o.args[0])); break;
            }
            return {double(e.sample_rate()), double(e.attack_time()), double(e.decay_time()), double(e.release_time()), double(e.sustain_level())};
        }
    };
    template <typename T>
    struct Ar : Repeatable {
        using type = edsp::envelope::ar<T>;
        static Args config(Src& s) { return {s.uniform(10, 100), s.uniform(.01, .2), s.uniform(.01, .2)}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(T(a[0]), T(a[1]), T(a[2])); }
        static Op op(Src& s, const type&) {
            switch (s.draw(9)) {
                case 0: return {1, {}};
                case 1: return {2, {double(s.draw(1))}};
                case 2: return {3, {s.uniform(.01, .2)}};
                case 3: return {4, {s.uniform(.01, .2)}};
                default: return {0, signal(s, 1 + s.draw(6))};
            }
        }
        static Output apply(type& e, const Op& o) {
            switch (o.code) {
                case 0: {
                    auto x = cast<T>(o.args), y = x;
                    e.apply(x.begin(), x.end(), y.begin());
                    return out(y);
                }
                case 1: e.reset(); break;
                case 2: e.set_rectification(o.args[0] > 0); break;
                case 3: e.set_attack_time(T(o.args[0])); break;
                default: e.set_release_time(T(o.args[0])); break;
            }
            return {double(e.sample_rate()), double(e.attack_time()), double(e.release_time()), double(e.rectification())};
        }
    };

    template <typename G>
    struct Generator : Seeded {
        using type = G;
        static Args config(Src& s) { return {s.uniform(-2, -.1), s.uniform(.1, 1)}; }
        static std::unique_ptr<type> make(const Args& a) {
            if constexpr (std::is_same<G, edsp::random::perlin_noise_generator<double>>::value) {
                return std::make_unique<type>();
            } else if constexpr (std::is_constructible<G, double, double>::value) {
                return std::make_unique<type>(a[0], a[1]);
            } else {
                return std::make_unique<type>(a[1]);
            }
        }
        static Op op(Src& s, const type&) { return {0, {double(1 + s.draw(5))}}; }
        static Output apply(type& g, const Op& o) {
            Output r;
            for (int i = 0; i < o.args[0]; ++i) {
                r.push_back(double(g()));
            }
            return r;
        }
    };
    template <edsp::random::DistributionType D>
    struct Distribution : Seeded {
        using type = edsp::random::random_generator<D, double>;
        static Args config(Src& s) { return {s.uniform(-2, -.1), s.uniform(.1, 1)}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(a[0], a[1]); }
        static Op op(Src& s, const type&) { return {0, {double(1 + s.draw(5))}}; }
        static Output apply(type& g, const Op& o) {
            Output r;
            for (int i = 0; i < o.args[0]; ++i) {
                r.push_back(double(g()));
            }
            return r;
        }
    };

    inline double number(double v) { return v; }
    inline double number(const std::string& v) { return std::stod(v); }
    template <typename E>
    E element(double v) {
        if constexpr (std::is_same<E, std::string>::value) {
            return std::to_string(v) + "0000000000000000000000"; // on the heap
        } else {
            return E(v);
        }
    }
    template <typename R, typename E, bool Resizable>
    struct Ring : Repeatable {
        using type = R;
        static Args config(Src& s) { return {double(1 + s.draw(5))}; }
        static std::unique_ptr<type> make(const Args& a) {
            if constexpr (Resizable) {
                return std::make_unique<type>(static_cast<std::size_t>(a[0]));
            } else {
                return std::make_unique<type>();
            }
        }
        static Op op(Src& s, const type& r) {
            switch (s.draw(9)) {
                case 0: return {1, {}};
                case 1: return r.empty() ? Op{1, {}} : Op{2, {}};
                case 2: return r.empty() ? Op{1, {}} : Op{3, {}};
                case 3: return {4, {s.uniform(-1, 1)}};
                case 4: return r.empty() ? Op{4, {s.uniform(-1, 1)}} : Op{5, {double(s.draw(r.size() - 1)), s.uniform(-1, 1)}};
                case 5: return Resizable ? Op{6, {double(1 + s.draw(5))}} : Op{0, {s.uniform(-1, 1)}};
                default: return {0, {s.uniform(-1, 1)}};
            }
        }
        static Output apply(type& r, const Op& o) {
            switch (o.code) {
                case 0: r.push_back(element<E>(o.args[0])); break;
                case 1: r.clear(); break;
                case 2: r.pop_front(); break;
                case 3: r.pop_back(); break;
                case 4: r.emplace_front(element<E>(o.args[0])); break;
                case 5: r[static_cast<std::size_t>(o.args[0])] = element<E>(o.args[1]); break;
                default:
                    if constexpr (Resizable) {
                        r.resize(static_cast<std::size_t>(o.args[0]));
                    }
            }
            Output v{double(r.size()), double(r.capacity()), double(r.empty()), double(r.full())};
            for (const auto& e : r) {
                v.push_back(number(e));
            }
            const auto& k = r;
            for (std::size_t i = 0; i < k.size(); ++i) {
                v.push_back(number(k[i]));
            }
            return v;
        }
    };

    template <typename T>
    struct Engine : Repeatable {
        using type                        = edsp::spectral::fft_engine<T>;
        static constexpr double tolerance = std::is_same<T, float>::value ? 1e-5 : 1e-13;
        static Args config(Src& s) { return {double(1 + s.draw(15))}; }
        static std::unique_ptr<type> make(const Args& a) { return std::make_unique<type>(static_cast<std::size_t>(a[0])); }
        static Op op(Src& s, const type&) { return {static_cast<int>(s.draw(4)), signal(s, 16)}; }
        static Output apply(type& f, const Op& o) {
            // as many as the largest engine takes
            Buf<T> x(16), y(16);
            Buf<std::complex<T>> z(16);
            for (std::size_t i = 0; i < 16; ++i) {
                x.p[i] = T(o.args[i]);
                y.p[i] = T(0);
                z.p[i] = std::complex<T>(T(o.args[i]), 0);
            }
            z.p[0] = std::complex<T>(x.p[0], 0);
            switch (o.code) {
                case 0: f.dft(x.p, z.p); break;
                case 1: f.dht(x.p, y.p); break;
                case 2: f.dct(x.p, y.p); break;
                case 3: f.idct(x.p, y.p); break;
                default: f.idft(z.p, y.p); break;
            }
            Output r;
            for (std::size_t i = 0; i < 16; ++i) {
                if (o.code == 0) {
                    r.push_back(z.p[i].real());
                    r.push_back(z.p[i].imag());
                } else {
                    r.push_back(y.p[i]);
                }
            }
            return r;
        }
    };

    struct Resampler : Repeatable {
        using type = edsp::io::resampler<float>;
        static Args config(Src& s) { return {double(1 + s.draw(1)), double(s.draw(2)), s.uniform(.5, 2)}; }
        static std::unique_ptr<type> make(const Args& a) {
            using q        = edsp::io::resample_quality;
            const q all[3] = {q::linear, q::zero_order_hold, q::sinc_fastest};
            return std::make_unique<type>(static_cast<std::size_t>(a[0]), all[static_cast<int>(a[1])], static_cast<float>(a[2]));
        }
        static Op op(Src& s, const type&) { return s.one_in(8) ? Op{1, {}} : Op{0, signal(s, 2 * (1 + s.draw(9)))}; }
        static Output apply(type& r, const Op& o) {
            if (o.code == 1) {
                r.reset();
                return {};
            }
            const auto x = cast<float>(o.args);
            std::vector<float> y(8 * x.size() + 64);
            const auto used = r.process(x.begin(), x.end(), y.begin());
            Output v{double(used.first), double(used.second)};
            for (std::size_t i = 0; i < y.size() && i < 2 * used.second; ++i) {
                v.push_back(y[i]);
            }
            return v;
        }
    };

    // ---- the machine ----
    template <typename C>
    struct Slot {
        std::unique_ptr<typename C::type> object;
        bool moved_from = false;
        std::size_t root = 0; // where the history began
        Args config;
        std::vector<Op> history;
        bool usable() const { return object && !moved_from; }
        void inherit(const Slot& o) {
            root       = o.root;
            config     = o.config;
            history    = o.history;
            moved_from = false;
        }
    };

    template <typename C>
    void pool(Src& s, Ctx& c, const char* name) {
        using T                 = typename C::type;
        constexpr bool copies   = std::is_copy_constructible<T>::value;
        constexpr bool moves    = std::is_move_constructible<T>::value;
        constexpr bool assigns  = std::is_copy_assignable<T>::value;
        constexpr bool massigns = std::is_move_assignable<T>::value;
        Slot<C> slots[4];
        std::size_t roots = 0, shared = 0, used = 0;
        std::map<std::size_t, Output> streams; // of the seeded classes: what each root has given so far
        History log(c);
        c.label(name);
        c.describe([&](auto& o) { o << name << ":"; });
        auto id = [](std::size_t i) { return std::string(1, static_cast<char>('a' + i)); };
        auto use = [&](std::size_t i) {
            auto& x = slots[i];
            const Op o = C::op(s, *x.object);
            log += " " + id(i) + "." + std::to_string(o.code) + "(" + std::to_string(o.args.size()) + ")";
            const Output got = C::apply(*x.object, o);
            ++used;
            if constexpr (C::repeatable) {
                const auto twin = C::make(x.config);
                for (const auto& h : x.history) {
                    C::apply(*twin, h);
                }
                const Output expected = C::apply(*twin, o);
                VP_CHECK(same(got, expected, C::tolerance), name << ": object " << id(i) << " answers " << show(got) << " but an object of the same history answers " << show(expected) << " after" << log);
            } else {
                std::size_t position = 0;
                for (const auto& h : x.history) {
                    position += static_cast<std::size_t>(h.args[0]);
                }
                auto& stream = streams[x.root];
                for (std::size_t k = 0; k < got.size(); ++k) {
                    if (position + k < stream.size()) {
                        VP_CHECK(got[k] == stream[position + k], name << ": object " << id(i) << " gives " << got[k] << " but an object it was copied from or to gave " << stream[position + k] << " after" << log);
                    } else {
                        stream.push_back(got[k]);
                    }
                }
            }
            x.history.push_back(o);
        };
        const std::size_t steps = 4 + s.draw(26);
        for (std::size_t n = 0; n < steps; ++n) {
            const std::size_t i = s.draw(3), j = (i + 1 + s.draw(2)) % 4;
            auto &a = slots[i], &b = slots[j];
            if (!a.object) { // nothing else can be done with it
                a.config = C::config(s);
                a.object = C::make(a.config);
                a.root   = ++roots;
                a.history.clear();
                a.moved_from = false;
                log += " new " + id(i);
                continue;
            }
            switch (s.draw(14)) {
                case 0:
                    log += " delete " + id(i);
                    a.object.reset();
                    break;
                case 1:
                    if constexpr (copies) {
                        if (a.usable()) {
                            log += " " + id(j) + " = new copy of " + id(i);
                            const T& from = *a.object;
                            b.object.reset(new T(from));
                            b.inherit(a);
                            ++shared;
                        }
                    }
                    break;
                case 2:
                    if constexpr (moves) {
                        if (a.usable()) {
                            log += " " + id(j) + " = new move of " + id(i);
                            b.object.reset(new T(std::move(*a.object)));
                            b.inherit(a);
                            a.moved_from = true;
                            ++shared;
                        }
                    }
                    break;
                case 3:
                case 4:
                    if constexpr (assigns) {
                        if (a.usable() && b.object) {
                            log += " " + id(j) + " = " + id(i);
                            const T& from = *a.object;
                            T& r          = (*b.object = from);
                            VP_CHECK(&r == b.object.get(), name << ": an assignment returns something else than the object");
                            b.inherit(a);
                            ++shared;
                        }
                    }
                    break;
                case 5:
                    if constexpr (massigns) {
                        if (a.usable() && b.object) {
                            log += " " + id(j) + " = move " + id(i);
                            *b.object = std::move(*a.object);
                            b.inherit(a);
                            a.moved_from = true;
                            ++shared;
                        }
                    }
                    break;
                case 6:
                    if constexpr (assigns) {
                        if (a.usable()) {
                            log += " " + id(i) + " = " + id(i);
                            const T& from = *a.object;
                            *a.object     = from;
                            ++shared;
                        }
                    }
                    break;
                case 7:
                    if constexpr (moves && massigns) {
                        if (a.object && b.object) {
                            log += " swap " + id(i) + " " + id(j);
                            using std::swap;
                            swap(*a.object, *b.object);
                            std::swap(a.moved_from, b.moved_from);
                            std::swap(a.root, b.root);
                            std::swap(a.config, b.config);
                            std::swap(a.history, b.history);
                            ++shared;
                        }
                    }
                    break;
                case 8:
                    if constexpr (moves && massigns) { // kept in a vector that grows, and taken out again
                        if (a.usable() && b.usable()) {
                            log += " vector of " + id(i) + " " + id(j);
                            std::vector<T> v;
                            v.push_back(std::move(*a.object));
                            v.push_back(std::move(*b.object));
                            if constexpr (copies) {
                                v.push_back(T(v[0]));
                            }
                            *a.object = std::move(v[1]);
                            *b.object = std::move(v[0]);
                            std::swap(a.root, b.root);
                            std::swap(a.config, b.config);
                            std::swap(a.history, b.history);
                            ++shared;
                        }
                    }
                    break;
                default:
                    if (a.usable()) {
                        use(i);
                    }
            }
        }
        for (std::size_t i = 0; i < 4; ++i) { // every object that is left answers once more
            if (slots[i].usable()) {
                use(i);
            }
        }
        c.label(shared > 0 ? "shared" : "alone");
        c.nontrivial(shared > 0 && used > 1);
    }
    template <template <typename> class C>
    void both(Src& s, Ctx& c, const char* name) {
        if (s.flip()) {
            pool<C<double>>(s, c, name);
        } else {
            pool<C<float>>(s, c, name);
        }
    }
} // namespace

VP_FAMILY("filters", 60000, 900000, "biquads, cascades, designed and moving filters; non-trivial: an object was copied, moved, assigned or swapped and used") {
    switch (s.draw(6)) {
        case 0: return both<Biquad>(s, c, "biquad");
        case 1: return both<Cascade>(s, c, "biquad_cascade");
        case 2: return both<Designed>(s, c, "Butterworth filter");
        case 3: return both<Mean>(s, c, "moving_average");
        case 4: return both<Median>(s, c, "moving_median");
        case 5: return both<Rms>(s, c, "moving_rms");
        default: return both<Leq>(s, c, "continuous_leq");
    }
}

VP_FAMILY("sources", 60000, 900000, "oscillators, envelopes and generators; non-trivial: an object was copied, moved, assigned or swapped and used") {
    switch (s.draw(12)) {
        case 0: return both<Sine>(s, c, "sin_oscillator");
        case 1: return both<Square>(s, c, "square_oscillator");
        case 2: return both<Sawtooth>(s, c, "sawtooth_oscillator");
        case 3: return both<Triangle>(s, c, "triangular_oscillator");
        case 4: return both<Adsr>(s, c, "adsr");
        case 5: return both<Ar>(s, c, "ar");
        case 6: return pool<Generator<edsp::random::white_noise_generator<double>>>(s, c, "white_noise_generator");
        case 7: return pool<Generator<edsp::random::pink_noise_generator<double>>>(s, c, "pink_noise_generator");
        case 8: return pool<Generator<edsp::random::brown_noise_generator<double>>>(s, c, "brown_noise_generator");
        case 9: return pool<Generator<edsp::random::perlin_noise_generator<double>>>(s, c, "perlin_noise_generator");
        case 10: return pool<Generator<edsp::random::binary_generator<double>>>(s, c, "binary_generator");
        case 11: return pool<Distribution<edsp::random::DistributionType::Normal>>(s, c, "random_generator");
        default: return pool<Generator<edsp::random::constant_generator<double>>>(s, c, "constant_generator");
    }
}

VP_FAMILY("buffers", 50000, 700000, "ring buffers of numbers and of strings; non-trivial: an object was copied, moved, assigned or swapped and used") {
    switch (s.draw(3)) {
        case 0: return pool<Ring<edsp::ring_buffer<double>, double, true>>(s, c, "ring_buffer");
        case 1: return pool<Ring<edsp::ring_buffer<std::string>, std::string, true>>(s, c, "ring_buffer of strings");
        case 2: return pool<Ring<edsp::fixed_ring_buffer<double, 4>, double, false>>(s, c, "fixed_ring_buffer");
        default: return pool<Ring<edsp::fixed_ring_buffer<std::string, 3>, std::string, false>>(s, c, "fixed_ring_buffer of strings");
    }
}

VP_FAMILY("engines", 15000, 200000, "FFT engines and resamplers; non-trivial: an object was copied, moved, assigned or swapped and used") {
    if (s.flip()) {
        both<Engine>(s, c, "fft_engine");
    } else {
        pool<Resampler>(s, c, "resampler");
    }
}

VP_FAMILY("files", 12000, 150000, "encoders and decoders with files open, moved, assigned, swapped and closed in any order; non-trivial: an open one changed hands") {
    using Encoder = edsp::io::encoder<float>;
    using Decoder = edsp::io::decoder<float>;
    static_assert(std::is_move_constructible<Encoder>::value && std::is_move_assignable<Decoder>::value, "");
    struct Written {
        std::unique_ptr<audio::File> file;
        int rate, channels;
        std::vector<float> data;
    };
    std::vector<Written> written; // every file that was opened for writing
    struct W {
        std::unique_ptr<Encoder> e;
        bool moved = false;
        int file   = -1;
        int rate = 0, channels = 0;
    } w[3];
    struct R {
        std::unique_ptr<Decoder> d;
        bool moved           = false;
        bool open            = false;
        std::size_t position = 0, length = 0;
        int source = 0;
    } r[3];
    History log(c);
    std::size_t handed = 0;
    const int before = audio::open_files();
    auto content     = [](float first, std::size_t k) { return first + 0.0009765625f * static_cast<float>(k); };
    {
        // two files to read
        audio::File sources[2] = {audio::File("c35-r0.wav"), audio::File("c35-r1.wav")};
        std::size_t lengths[2];
        const int rates[2] = {8000, 44100};
        for (int k = 0; k < 2; ++k) {
            lengths[k] = (5 + s.draw(60)) * (k + 1); // samples
            std::vector<float> v(lengths[k]);
            for (std::size_t i = 0; i < v.size(); ++i) {
                v[i] = content(static_cast<float>(k) * -0.5f, i);
            }
            SF_INFO info{};
            info.channels   = k + 1;
            info.samplerate = rates[k];
            info.format     = SF_FORMAT_WAV | SF_FORMAT_FLOAT;
            SNDFILE* f      = sf_open(sources[k].name.c_str(), SFM_WRITE, &info);
            VP_CHECK(f != nullptr, "no scratch file");
            sf_write_float(f, v.data(), static_cast<sf_count_t>(v.size()));
            sf_close(f);
        }
        auto use_encoder = [&](W& x) {
            if (x.file < 0) {
                const std::string name = "c35-w" + std::to_string(written.size()) + ".wav";
                written.push_back({std::make_unique<audio::File>(name), x.rate, x.channels, {}});
                x.file = static_cast<int>(written.size()) - 1;
                log += " open " + name;
                VP_CHECK(x.e->open(written.back().file->name), "the encoder does not open a file");
                return;
            }
            if (s.one_in(5)) {
                log += " close";
                x.e->close();
                x.file = -1;
                return;
            }
            auto& data = written[static_cast<std::size_t>(x.file)].data;
            VP_CHECK(x.e->is_open() && x.e->sample_rate() == x.rate && x.e->channels() == x.channels, "an encoder of " << x.channels << " channels at " << x.rate << " Hz says " << x.e->channels() << " and " << x.e->sample_rate() << (x.e->is_open() ? "" : ", closed") << ":" << log);
            std::vector<float> v((1 + s.draw(9)) * static_cast<std::size_t>(x.channels));
            for (auto& e : v) {
                e = static_cast<float>(s.uniform(-.9, .9));
            }
            log += " write " + std::to_string(v.size());
            const auto n = x.e->write(v.begin(), v.end());
            VP_CHECK(static_cast<std::size_t>(n) == v.size(), "the encoder writes " << n << " of " << v.size() << " samples:" << log);
            data.insert(data.end(), v.begin(), v.end());
        };
        auto use_decoder = [&](R& x) {
            if (!x.open) {
                const int k = static_cast<int>(s.draw(1));
                log += " open source " + std::to_string(k);
                VP_CHECK(x.d->open(sources[k].name), "the decoder does not open a file");
                x.open     = true;
                x.position = 0;
                x.length   = lengths[k];
                x.source   = k;
                return;
            }
            if (s.one_in(6)) {
                log += " close";
                x.d->close();
                x.open = false;
                return;
            }
            VP_CHECK(x.d->is_open() && x.d->sample_rate() == rates[x.source] && x.d->channels() == x.source + 1 && static_cast<std::size_t>(x.d->samples()) == x.length, "a decoder of " << x.source + 1 << " channels at " << rates[x.source] << " Hz says " << x.d->channels() << " and " << x.d->sample_rate() << (x.d->is_open() ? "" : ", closed") << ":" << log);
            std::vector<float> v((1 + s.draw(15)) * static_cast<std::size_t>(x.source + 1), -7.f);
            log += " read " + std::to_string(v.size());
            const auto n    = static_cast<std::size_t>(x.d->read(v.begin(), v.end()));
            const auto left = std::min(v.size(), x.length - x.position);
            VP_CHECK(n == left, "the decoder reads " << n << " samples where " << left << " are left:" << log);
            for (std::size_t i = 0; i < n; ++i) {
                VP_CHECK(v[i] == content(static_cast<float>(x.source) * -0.5f, x.position + i), "the decoder reads " << v[i] << " at " << x.position + i << ", not " << content(static_cast<float>(x.source) * -0.5f, x.position + i) << ":" << log);
            }
            x.position += n;
        };
        const std::size_t steps = 6 + s.draw(30);
        for (std::size_t n = 0; n < steps; ++n) {
            const std::size_t i = s.draw(2), j = (i + 1 + s.draw(1)) % 3;
            const auto what = s.draw(11);
            if (s.flip()) {
                W &a = w[i], &b = w[j];
                log += "; encoder " + std::to_string(i);
                if (!a.e) {
                    log += " new";
                    a.rate     = static_cast<int>(s.pick({8000, 16000, 44100}));
                    a.channels = static_cast<int>(1 + s.draw(2));
                    a.e.reset(new Encoder(static_cast<std::size_t>(a.rate), static_cast<std::size_t>(a.channels)));
                    a.moved = false;
                    a.file  = -1;
                } else if (what == 0) {
                    log += " delete";
                    a.e.reset();
                } else if (what == 1 && !a.moved) {
                    log += " moved into a new " + std::to_string(j);
                    b.e.reset();
                    b.e.reset(new Encoder(std::move(*a.e)));
                    b.file = a.file, b.moved = false, a.moved = true, a.file = -1;
                    b.rate = a.rate, b.channels = a.channels;
                    handed += b.file >= 0;
                } else if (what == 2 && !a.moved && b.e) {
                    log += " assigned to " + std::to_string(j);
                    *b.e   = std::move(*a.e);
                    b.file = a.file, b.moved = false, a.moved = true, a.file = -1;
                    b.rate = a.rate, b.channels = a.channels;
                    handed += b.file >= 0;
                } else if (what == 3 && b.e) {
                    log += " swapped with " + std::to_string(j);
                    std::swap(*a.e, *b.e);
                    std::swap(a.file, b.file), std::swap(a.rate, b.rate), std::swap(a.channels, b.channels);
                    std::swap(a.moved, b.moved);
                    handed += a.file >= 0 || b.file >= 0;
                } else if (!a.moved) {
                    use_encoder(a);
                }
            } else {
                R &a = r[i], &b = r[j];
                log += "; decoder " + std::to_string(i);
                auto inherit = [&] {
                    b.open = a.open, b.position = a.position, b.length = a.length, b.source = a.source, b.moved = false;
                    a.moved = true, a.open = false;
                    handed += b.open;
                };
                if (!a.d) {
                    log += " new";
                    a.d.reset(new Decoder());
                    a.moved = a.open = false;
                } else if (what == 0) {
                    log += " delete";
                    a.d.reset();
                } else if (what == 1 && !a.moved) {
                    log += " moved into a new " + std::to_string(j);
                    b.d.reset();
                    b.d.reset(new Decoder(std::move(*a.d)));
                    inherit();
                } else if (what == 2 && !a.moved && b.d) {
                    log += " assigned to " + std::to_string(j);
                    *b.d = std::move(*a.d);
                    inherit();
                } else if (what == 3 && b.d) {
                    log += " swapped with " + std::to_string(j);
                    std::swap(*a.d, *b.d);
                    std::swap(a.open, b.open), std::swap(a.position, b.position), std::swap(a.length, b.length), std::swap(a.source, b.source), std::swap(a.moved, b.moved);
                    handed += a.open || b.open;
                } else if (!a.moved) {
                    use_decoder(a);
                }
            }
        }
        for (auto& x : w) {
            x.e.reset();
        }
        for (auto& x : r) {
            x.d.reset();
        }
        for (const auto& f : written) {
            SF_INFO info{};
            SNDFILE* in = sf_open(f.file->name.c_str(), SFM_READ, &info);
            VP_CHECK(in != nullptr, "a written file is not a file of the format:" << log);
            VP_CHECK(info.samplerate == f.rate && info.channels == f.channels, "a file has " << info.channels << " channels at " << info.samplerate << " Hz, not " << f.channels << " at " << f.rate << ":" << log);
            std::vector<float> v(f.data.size() + 12 * static_cast<std::size_t>(f.channels));
            v.resize(v.size() / static_cast<std::size_t>(f.channels) * static_cast<std::size_t>(f.channels));
            const auto n = sf_read_float(in, v.data(), static_cast<sf_count_t>(v.size()));
            sf_close(in);
            v.resize(static_cast<std::size_t>(n));
            VP_CHECK(v == f.data, "a file has " << n << " samples " << show(v) << " where " << f.data.size() << " were written " << show(f.data) << ":" << log);
        }
    }
    VP_CHECK(audio::open_files() == before, "a file is still open:" << log);
    c.nontrivial(handed > 0);
}
