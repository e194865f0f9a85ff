#include "common.hpp"
#include <edsp/algorithm/amplifier.hpp>
#include <edsp/algorithm/ceil.hpp>
#include <edsp/algorithm/clipper.hpp>
#include <edsp/algorithm/concatenate.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/fix.hpp>
#include <edsp/algorithm/floor.hpp>
#include <edsp/algorithm/normalize.hpp>
#include <edsp/algorithm/padder.hpp>
#include <edsp/algorithm/rectify.hpp>
#include <edsp/algorithm/round.hpp>
#include <edsp/algorithm/silence.hpp>
using namespace vp;

namespace {
    // samples with rounding edge cases, signed zeros, large and tiny magnitudes
    template <typename T>
    std::vector<T> samples(Src& s, std::size_t n) {
        switch (s.draw(3)) {
            case 0:
                return signal<T>(s, n, 1.0);
            case 1:
                return signal<T>(s, n, std::pow(10.0, s.range<int>(-6, 9)));
            default: {
                std::vector<T> v(n);
                Bulk b(s.draw(~0ULL));
                for (auto& x : v) {
                    const double k = static_cast<double>(static_cast<long>(b.next() % 2001) - 1000);
                    switch (b.next() % 8) {
                        case 0:
                            x = static_cast<T>(k + 0.5);
                            break;
                        case 1:
                            x = static_cast<T>(k);
                            break;
                        case 2:
                            x = std::nextafter(static_cast<T>(k + 0.5), static_cast<T>(0));
                            break;
                        case 3:
                            x = std::nextafter(static_cast<T>(k), std::numeric_limits<T>::infinity());
                            break;
                        case 4:
                            x = static_cast<T>(b.next() % 2 ? -0.0 : 0.0);
                            break;
                        case 5:
                            x = static_cast<T>(b.sym() * std::pow(10.0, 30 * b.sym()));
                            break;
                        case 6:
                            x = static_cast<T>(k * 4503599627370497.0);
                            break;
                        default:
                            x = static_cast<T>(k / 1000 * 3);
                    }
                }
                return v;
            }
        }
    }

    // run an element-wise operation out of place (exact buffers), or in place, or through vector iterators
    template <typename T, typename Op>
    std::vector<T> run(Src& s, Ctx& c, const std::vector<T>& in, Op op) {
        switch (s.draw(2)) {
            case 0: {
                Buf<T> a(in), o(in.size(), static_cast<T>(-77));
                op(a.cbegin(), a.cend(), o.begin());
                require_unchanged(a, in);
                c.label("separate");
                return o.vec();
            }
            case 1: {
                Buf<T> a(in);
                op(a.cbegin(), a.cend(), a.begin());
                c.label("in place");
                return a.vec();
            }
            default: {
                std::vector<T> a(in), o(in.size(), static_cast<T>(-77));
                op(a.begin(), a.end(), o.begin());
                require_unchanged(a, in);
                c.label("vector iterators");
                return o;
            }
        }
    }

    template <typename T, typename Ref>
    void compare(const char* what, const std::vector<T>& in, const std::vector<T>& out, Ref ref, ld ulps) {
        for (std::size_t i = 0; i < in.size(); ++i) {
            const ld e = ref(i);
            if (ulps == 0) {
                VP_CHECK(out[i] == static_cast<T>(e), what << ": element " << i << " of " << in.size() << " is " << out[i] << " for x = " << in[i] << ", expected " << e);
            } else {
                VP_CHECK(close(out[i], e, 0, ulps), what << ": element " << i << " of " << in.size() << " is " << out[i] << " for x = " << in[i] << ", expected " << e);
            }
        }
    }

    template <typename T>
    void scale(Src& s, Ctx& c) {
        const auto in  = samples<T>(s, len(s, 0));
        const T factor = static_cast<T>(s.real(-100, 100));
        const bool lim = s.flip();
        T lo = static_cast<T>(s.real(-100, 100)), hi = static_cast<T>(s.real(-100, 100));
        if (lo > hi) {
            std::swap(lo, hi);
        }
        // limits that coincide with scaled samples
        if (lim && !in.empty() && s.flip()) {
            const T v = factor * in[s.draw(in.size() - 1)];
            (v > hi ? hi : lo) = std::min(v, std::max(v, hi));
            if (lo > hi) {
                std::swap(lo, hi);
            }
        }
        size_label(c, in.size());
        c.label(lim ? "limited" : "plain");
        c.nontrivial(in.size() > 1 && factor != 0 && factor != 1);
        c.describe([&](auto& o) { o << "amplifier<" << tname<T>() << "> factor " << factor << (lim ? " limits " : " no limits ") << lo << ".." << hi << " x " << show(in); });
        const auto out = run(s, c, in, [&](auto f, auto l, auto d) {
            if (lim) {
                edsp::algorithm::amplifier(f, l, d, factor, lo, hi);
            } else {
                edsp::algorithm::amplifier(f, l, d, factor);
            }
        });
        compare("amplifier", in, out, [&](std::size_t i) -> ld {
            const T p = factor * in[i];
            if (!lim) {
                return p;
            }
            return p < lo ? lo : p > hi ? hi : p;
        }, 1);
    }

    template <typename T>
    void clip(Src& s, Ctx& c) {
        const auto in = samples<T>(s, len(s, 0));
        T lo = static_cast<T>(s.real(-5, 5)), hi = static_cast<T>(s.real(-5, 5));
        if (s.flip() && in.size()) {
            lo = in[s.draw(in.size() - 1)];
            hi = in[s.draw(in.size() - 1)];
        }
        if (lo > hi) {
            std::swap(lo, hi);
        }
        size_label(c, in.size());
        c.nontrivial(in.size() > 1 && lo < hi);
        c.describe([&](auto& o) { o << "clipper<" << tname<T>() << "> " << lo << ".." << hi << " x " << show(in); });
        const auto out = run(s, c, in, [&](auto f, auto l, auto d) { edsp::algorithm::clipper(f, l, d, lo, hi); });
        compare("clipper", in, out, [&](std::size_t i) -> ld { return in[i] < lo ? lo : in[i] > hi ? hi : in[i]; }, 0);
        // idempotent
        Buf<T> a(out), b(out.size());
        edsp::algorithm::clipper(a.cbegin(), a.cend(), b.begin(), lo, hi);
        VP_CHECK(a.vec() == b.vec(), "clipping twice differs from clipping once");
    }

    template <typename T>
    void rounding(Src& s, Ctx& c) {
        const auto in = samples<T>(s, len(s, 0));
        const int k   = s.range<int>(0, 4);
        static const char* names[] = {"ceil", "floor", "round", "fix", "rectify"};
        size_label(c, in.size());
        c.label(names[k]);
        c.nontrivial(in.size() > 1);
        c.describe([&](auto& o) { o << names[k] << "<" << tname<T>() << "> x " << show(in); });
        const auto out = run(s, c, in, [&](auto f, auto l, auto d) {
            switch (k) {
                case 0:
                    edsp::algorithm::ceil(f, l, d);
                    break;
                case 1:
                    edsp::algorithm::floor(f, l, d);
                    break;
                case 2:
                    edsp::algorithm::round(f, l, d);
                    break;
                case 3:
                    edsp::algorithm::fix(f, l, d);
                    break;
                default:
                    edsp::algorithm::rectify(f, l, d);
            }
        });
        compare(names[k], in, out, [&](std::size_t i) -> ld {
            const ld x = in[i];
            const ld w = std::floor(x);
            switch (k) {
                case 0:
                    return x == w ? x : w + 1;
                case 1:
                    return w;
                case 2: {
                    const ld m = std::floor(std::abs(x) + 0.5L);
                    return x < 0 ? -m : m;
                }
                case 3:
                    return x < 0 ? -std::floor(-x) : w;
                default:
                    return x < 0 ? -x : x;
            }
        }, 0);
        if (k == 4) {
            for (auto x : out) {
                VP_CHECK(!std::signbit(x), "rectified sample with a sign");
            }
        }
    }

    template <typename T>
    void derivative(Src& s, Ctx& c) {
        const auto in = samples<T>(s, len(s, 0));
        size_label(c, in.size());
        c.nontrivial(in.size() > 2);
        c.describe([&](auto& o) { o << "derivative<" << tname<T>() << "> x " << show(in); });
        const auto out = run(s, c, in, [&](auto f, auto l, auto d) { edsp::algorithm::derivative(f, l, d); });
        for (std::size_t i = 0; i < in.size(); ++i) {
            const T e = i ? static_cast<T>(in[i] - in[i - 1]) : in[0];
            VP_CHECK(close(out[i], static_cast<ld>(e), 0, 1), "derivative: element " << i << " is " << out[i] << ", expected " << e);
        }
    }

    template <typename T>
    void concat_pad(Src& s, Ctx& c) {
        const auto a = samples<T>(s, len(s, 0));
        const auto b = samples<T>(s, len(s, 0));
        size_label(c, a.size());
        c.nontrivial(!a.empty() && !b.empty());
        if (s.flip()) {
            c.label("concatenate");
            c.describe([&](auto& o) { o << "concatenate<" << tname<T>() << "> " << show(a) << " + " << show(b); });
            Buf<T> x(a), y(b), out(a.size() + b.size(), static_cast<T>(-77));
            edsp::algorithm::concatenate(x.cbegin(), x.cend(), y.cbegin(), y.cend(), out.begin());
            for (std::size_t i = 0; i < out.size(); ++i) {
                const T e = i < a.size() ? a[i] : b[i - a.size()];
                VP_CHECK(out[i] == e, "concatenate: element " << i << " of " << out.size() << " is " << out[i] << ", expected " << e);
            }
            require_unchanged(x, a);
            require_unchanged(y, b);
        } else {
            c.label("pad");
            const auto extra = static_cast<std::size_t>(s.size(0, 2000));
            c.describe([&](auto& o) { o << "padder<" << tname<T>() << "> " << show(a) << " to " << a.size() + extra; });
            Buf<T> x(a), out(a.size() + extra, static_cast<T>(-77));
            edsp::algorithm::padder(x.cbegin(), x.cend(), out.begin(), out.end());
            for (std::size_t i = 0; i < out.size(); ++i) {
                const T e = i < a.size() ? a[i] : 0;
                VP_CHECK(out[i] == e, "padder: element " << i << " of " << out.size() << " is " << out[i] << ", expected " << e);
            }
            require_unchanged(x, a);
        }
    }

    template <typename T>
    void normalise(Src& s, Ctx& c) {
        const bool by_rms = s.flip();
        // any magnitude, as far as its square can be told from zero and infinity where that is needed
        const double amp = by_rms ? magnitude<T>(s, -6, 6, 2) : s.one_in(6) ? std::pow(10.0, s.range<int>(-312, -300) / (std::is_same<T, float>::value ? 7.2 : 1.0)) : magnitude<T>(s, -6, 6, 1);
        auto in           = signal<T>(s, len(s, 1), amp);
        if (max_abs(in) == 0) {
            in[s.draw(in.size() - 1)] = static_cast<T>(s.flip() ? -amp : amp);
        }
        size_label(c, in.size());
        c.label(by_rms ? "rms" : "peak");
        c.nontrivial(in.size() > 1);
        c.describe([&](auto& o) { o << (by_rms ? "normalize_rms<" : "normalize<") << tname<T>() << "> x " << show(in); });
        const auto out = run(s, c, in, [&](auto f, auto l, auto d) {
            if (by_rms) {
                edsp::algorithm::normalize_rms(f, l, d);
            } else {
                edsp::algorithm::normalize(f, l, d);
            }
        });
        ld ref = max_abs(in);
        if (by_rms) {
            ld acc = 0;
            for (auto x : in) {
                acc += static_cast<ld>(x) * x;
            }
            ref = std::sqrt(acc / static_cast<ld>(in.size()));
        }
        compare(by_rms ? "normalize_rms" : "normalize", in, out, [&](std::size_t i) -> ld { return static_cast<ld>(in[i]) / ref; }, by_rms ? 8 + static_cast<ld>(in.size()) : 4);
    }

    template <typename T>
    void silence(Src& s, Ctx& c) {
        const auto in = signal<T>(s, len(s, 1), std::pow(10.0, s.range<int>(-3, 2)));
        ld acc        = 0;
        for (auto x : in) {
            acc += static_cast<ld>(x) * x;
        }
        const ld power = acc / static_cast<ld>(in.size());
        T threshold    = static_cast<T>(s.real(0, 2));
        switch (s.draw(2)) {
            case 0:
                threshold = static_cast<T>(power * 1.01L);
                break;
            case 1:
                threshold = static_cast<T>(power * 0.99L);
                break;
            default:
                break;
        }
        size_label(c, in.size());
        c.nontrivial(power > 0);
        c.describe([&](auto& o) { o << "silence<" << tname<T>() << "> threshold " << threshold << " power " << power << " x " << show(in); });
        Buf<T> a(in);
        const bool got = edsp::algorithm::silence(a.cbegin(), a.cend(), threshold);
        require_unchanged(a, in);
        const ld margin = (4 + static_cast<ld>(in.size())) * eps<T>() * power + 4 * static_cast<ld>(std::numeric_limits<T>::min());
        if (std::abs(power - threshold) > margin) {
            VP_CHECK(got == (power < threshold), "silence is " << got << " for mean square " << power << " and threshold " << threshold);
        } else if (power == 0 && threshold == 0) {
            VP_CHECK(!got, "a frame whose power equals the threshold is not below it");
        }
    }
} // namespace

VP_FAMILY("scale", 40000, 400000, "amplifier with and without limits against factor*x; non-trivial: n>1, factor not 0 or 1") { VP_DISPATCH(scale); }
VP_FAMILY("clip", 30000, 300000, "clipper against the definition, plus idempotence; non-trivial: n>1 and min<max") { VP_DISPATCH(clip); }
VP_FAMILY("rounding", 60000, 600000, "ceil/floor/round/fix/rectify with halves, neighbours of halves, signed zeros, huge values; non-trivial: n>1") { VP_DISPATCH(rounding); }
VP_FAMILY("derivative", 30000, 300000, "first difference; non-trivial: n>2") { VP_DISPATCH(derivative); }
VP_FAMILY("concat_pad", 40000, 400000, "concatenate and zero padding; non-trivial: both parts non-empty") { VP_DISPATCH(concat_pad); }
VP_FAMILY("normalise", 40000, 400000, "normalisation by peak and by RMS; non-trivial: n>1") { VP_DISPATCH(normalise); }
VP_FAMILY("silence", 30000, 300000, "silence against the mean square, thresholds just above and below it; non-trivial: power>0") { VP_DISPATCH(silence); }
