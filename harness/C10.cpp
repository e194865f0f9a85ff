#include "ref_spectral.hpp"
#include <edsp/spectral/fft_engine.hpp>
#include <memory>
using namespace vp;
namespace sp = edsp::spectral;

namespace {
    enum { FWD_C, BWD_C, FWD_R, BWD_R, DHT, DCT, IDCT, KINDS };
    const char* names[] = {"dft(complex)", "idft(complex)", "dft(real)", "idft(real)", "dht", "dct", "idct"};

    struct Base {
        virtual ~Base() = default;
        virtual void step(Src& s, Ctx& c)          = 0;
        virtual std::unique_ptr<Base> clone() const = 0;
        virtual void assign_from(const Base& other) = 0;
        std::set<int> kinds;
        std::size_t n{0};
        bool dbl{false};
    };

    template <typename T>
    struct Machine : Base {
        sp::fft_engine<T> engine;
        explicit Machine(std::size_t size) : engine(size) {
            n   = size;
            dbl = std::is_same<T, double>::value;
        }
        std::unique_ptr<Base> clone() const override {
            auto r    = std::make_unique<Machine<T>>(*this);
            r->kinds.clear();
            return r;
        }
        void assign_from(const Base& other) override {
            if (other.dbl == dbl) {
                engine = static_cast<const Machine<T>&>(other).engine;
                n      = other.n;
            }
        }
        // heap buffer of n elements at a chosen alignment
        template <typename E>
        struct At {
            Buf<E> b;
            E* p;
            At(std::size_t n, std::size_t shift) : b(n + shift), p(b.p + shift) {}
        };
        void step(Src& s, Ctx& c) override {
            const int kind      = static_cast<int>(s.draw(KINDS - 1));
            const std::size_t a = s.draw(1), z = s.draw(1);
            const bool in_place = s.one_in(3) && kind != FWD_R && kind != BWD_R;
            const bool scale    = s.flip();
            const double amp    = std::pow(10.0, s.range<int>(-2, 2));
            using C             = std::complex<T>;
            const ref::Circle w(n), w4(4 * n);
            const ld nn = static_cast<ld>(n);
            kinds.insert(kind);
            const auto note = [&](const auto& x) {
                c.describe([&](auto& o) { o << names[kind] << "<" << tname<T>() << "> N=" << n << (in_place ? " in place" : "") << " offsets " << a << "," << z << (scale ? " scaled" : "") << " of " << show(x, 6) << "; "; });
            };
            const auto bound = [&](ld norm) { return 2 * ref::fft_mult(n) * eps<T>() * norm + 1e-30L; };
            if (kind == FWD_C || kind == BWD_C) {
                const auto x = csignal<T>(s, n, amp);
                note(x);
                At<C> in(n, a), out(n, z);
                std::copy(x.begin(), x.end(), in.p);
                C* dst = in_place ? in.p : out.p;
                kind == FWD_C ? engine.dft(static_cast<const C*>(in.p), dst) : engine.idft(static_cast<const C*>(in.p), dst);
                ld f = 1;
                if (scale) {
                    engine.idft_scale(dst);
                    f = nn;
                }
                for (std::size_t i = 0; i < n; ++i) {
                    require_near(names[kind], i, dst[i], ref::dft_bin(x, i, kind == FWD_C ? -1 : 1, w) / f, bound(ref::norm2(x)) / f);
                }
                VP_CHECK(in_place || std::equal(x.begin(), x.end(), in.p), names[kind] << " modified its input");
            } else if (kind == FWD_R) {
                const auto x = signal<T>(s, n, amp);
                note(x);
                At<T> in(n, a);
                At<C> out(n / 2 + 1, z);
                std::copy(x.begin(), x.end(), in.p);
                engine.dft(static_cast<const T*>(in.p), out.p);
                for (std::size_t i = 0; i <= n / 2; ++i) {
                    require_near(names[kind], i, out.p[i], ref::dft_bin(x, i, -1, w), bound(ref::norm2(x)));
                }
                VP_CHECK(std::equal(x.begin(), x.end(), in.p), names[kind] << " modified its input");
            } else if (kind == BWD_R) {
                // the half spectrum of a real signal
                auto full = csignal<T>(s, n, amp);
                full[0]   = full[0].real();
                if (n % 2 == 0) {
                    full[n / 2] = full[n / 2].real();
                }
                for (std::size_t i = n / 2 + 1; i < n; ++i) {
                    full[i] = std::conj(full[n - i]);
                }
                note(full);
                At<C> in(n / 2 + 1, a);
                At<T> out(n, z);
                const std::vector<C> x(full.begin(), full.begin() + static_cast<long>(n / 2 + 1));
                std::copy(x.begin(), x.end(), in.p);
                engine.idft(static_cast<const C*>(in.p), out.p);
                ld f = 1;
                if (scale) {
                    engine.idft_scale(out.p);
                    f = nn;
                }
                for (std::size_t i = 0; i < n; ++i) {
                    require_near(names[kind], i, out.p[i], ref::dft_bin(full, i, 1, w).real() / f, bound(ref::norm2(full)) / f);
                }
                VP_CHECK(std::equal(x.begin(), x.end(), in.p), names[kind] << " modified its input");
            } else {
                const auto x = signal<T>(s, n, amp);
                note(x);
                At<T> in(n, a), out(n, z);
                std::copy(x.begin(), x.end(), in.p);
                T* dst = in_place ? in.p : out.p;
                const T* src = in.p;
                kind == DHT ? engine.dht(src, dst) : kind == DCT ? engine.dct(src, dst) : engine.idct(src, dst);
                ld f = 1;
                if (scale) {
                    kind == DHT ? engine.idft_scale(dst) : engine.idct_scale(dst);
                    f = kind == DHT ? nn : 2 * nn;
                }
                for (std::size_t i = 0; i < n; ++i) {
                    ld e;
                    if (kind == DHT) {
                        const auto v = ref::dft_bin(x, i, 1, w);
                        e            = v.real() + v.imag();
                    } else {
                        e = kind == DCT ? ref::dct_bin(x, i, w4) : ref::idct_bin(x, i, w4) * 2 * nn;
                    }
                    require_near(names[kind], i, dst[i], e / f, 2 * bound(ref::norm2(x)) / f);
                }
                VP_CHECK(in_place || std::equal(x.begin(), x.end(), in.p), names[kind] << " modified its input");
            }
        }
    };

    std::unique_ptr<Base> make(Src& s) {
        const auto n = static_cast<std::size_t>(s.one_in(10) ? s.range<int>(21, 160) : s.flip() ? s.range<int>(1, 20) : s.pick({1, 2, 3, 4, 8, 16, 32, 5, 17, 30, 36, 45, 64, 48}));
        if (s.flip()) {
            return std::make_unique<Machine<float>>(n);
        }
        return std::make_unique<Machine<double>>(n);
    }
} // namespace

VP_FAMILY("reuse", 60000, 600000, "one engine, a history of transforms of any kind on buffers of any alignment, in place or not; non-trivial: at least two different kinds on the engine") {
    auto m          = make(s);
    const int steps = s.one_in(400) ? s.range<int>(12, 400) : s.range<int>(1, 12);
    for (int i = 0; i < steps; ++i) {
        m->step(s, c);
    }
    c.nontrivial(m->kinds.size() > 1 && m->n > 1);
    c.label(m->dbl ? "double" : "float");
}

VP_FAMILY("several", 30000, 300000, "up to five engines of different sizes and precisions created, used, copied, assigned and destroyed in any order; non-trivial: at least two engines used") {
    std::vector<std::unique_ptr<Base>> live;
    const int steps = s.range<int>(2, 24);
    int used        = 0;
    for (int i = 0; i < steps; ++i) {
        const auto op = s.draw(9);
        if (live.empty() || (op == 0 && live.size() < 5)) {
            live.push_back(make(s));
        } else if (op == 1) {
            c.describe([&](auto& o) { o << "destroy; "; });
            live.erase(live.begin() + static_cast<long>(s.draw(live.size() - 1)));
        } else if (op == 2 && live.size() < 5) {
            c.describe([&](auto& o) { o << "copy; "; });
            c.label("copied");
            auto copy = live[s.draw(live.size() - 1)]->clone();
            live.push_back(std::move(copy));
        } else if (op == 3) {
            c.describe([&](auto& o) { o << "assign; "; });
            c.label("assigned");
            auto& a = live[s.draw(live.size() - 1)];
            auto& b = live[s.draw(live.size() - 1)];
            a->assign_from(*b);
        } else {
            auto& m = live[s.draw(live.size() - 1)];
            used += m->kinds.empty();
            m->step(s, c);
        }
    }
    c.nontrivial(used > 1);
}
