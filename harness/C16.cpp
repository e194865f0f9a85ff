// C16: moving average, RMS and median filters against the statistic of the last W samples
#include "common.hpp"
#include <memory>
#ifdef VP_PYTHON // C27: the filters of the Python module
#include "pyapi.hpp"
namespace ef = pyobject;
#else
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
namespace ef = edsp::filter;
#endif
using namespace vp;

namespace {
    enum { MEAN, RMS, MEDIAN };
    const char* names[] = {"moving_average", "moving_rms", "moving_median"};

    template <typename T>
    struct Model {
        int kind;
        std::deque<T> window;
        ld largest{0};      // largest magnitude fed since construction, reset or resize
        std::size_t fed{0};
        Model(int k, std::size_t n) : kind(k), window(n, T(0)) {}
        void reset(std::size_t n) {
            window.assign(n, T(0));
            largest = 0;
            fed     = 0;
        }
        // expected output and what rounding of a running sum may add to it
        std::pair<ld, ld> tick(T v) {
            window.pop_front();
            window.push_back(v);
            ++fed;
            largest    = std::max(largest, std::abs(static_cast<ld>(v)));
            const ld n = static_cast<ld>(window.size()), steps = static_cast<ld>(std::min<std::size_t>(fed, 1000000)) + n;
            if (kind == MEDIAN) {
                std::vector<T> s(window.begin(), window.end());
                std::sort(s.begin(), s.end());
                const auto m = s.size() / 2;
                const ld e   = s.size() % 2 ? static_cast<ld>(s[m]) : (static_cast<ld>(s[m]) + s[m - 1]) / 2;
                return {e, s.size() % 2 ? 0 : eps<T>() * (std::abs(e) + std::abs(static_cast<ld>(s[m])) + std::abs(static_cast<ld>(s[m - 1])))};
            }
            ld sum = 0;
            for (auto x : window) {
                sum += kind == MEAN ? static_cast<ld>(x) : static_cast<ld>(x) * x;
            }
            const ld big   = kind == MEAN ? largest : largest * largest;
            const ld error = 2 * eps<T>() * steps * std::min(steps, n) * big; // of the sum
            if (kind == MEAN) {
                return {sum / n, error / n + 2 * eps<T>() * std::abs(sum / n)};
            }
            const ld low = std::sqrt(std::max<ld>(0, sum - error) / n), high = std::sqrt((sum + error) / n), e = std::sqrt(sum / n);
            return {e, std::max(high - e, e - low) + 4 * eps<T>() * e};
        }
    };

    template <typename T, typename F>
    void history(Src& s, Ctx& c, int kind) {
        // integers small enough for every sum to be exact: then nothing but the final division and root may round
        const bool exact    = s.flip();
        const long biggest  = std::is_same<T, float>::value ? 40 : 100000;
        const auto length   = [&] { return static_cast<std::size_t>(s.one_in(12) ? s.range<int>(1, 400) : s.range<int>(1, 24)); };
        const auto n0       = length();
        std::vector<F> real;
        std::vector<Model<T>> model;
        real.emplace_back(n0);
        model.emplace_back(kind, n0);
        c.label(names[kind]);
        c.label(exact ? "exact" : "rounded");
        c.describe([&](auto& o) { o << names[kind] << "<" << tname<T>() << "> W=" << n0 << " "; });
        const double amp = exact ? 0 : std::pow(10.0, s.range<int>(-3, 4));
        const auto steps = s.size(1, 12);
        std::size_t fed = 0, others = 0, wrapped = 0;
        for (long i = 0; i < steps; ++i) {
            const auto k = s.draw(real.size() - 1);
            VP_CHECK(real[k].size() == model[k].window.size(), "size() = " << real[k].size() << ", expected " << model[k].window.size());
            switch (s.draw(8)) {
                case 0:
                    real[k].reset();
                    model[k].reset(model[k].window.size());
                    ++others;
                    c.label("reset");
                    c.describe([&](auto& o) { o << "reset "; });
                    break;
                case 1: {
                    const auto n = length();
                    real[k].resize(n);
                    model[k].reset(n);
                    ++others;
                    c.label("resize");
                    c.describe([&](auto& o) { o << "resize " << n << " "; });
                    break;
                }
#ifndef VP_PYTHON // its objects cannot be copied
                case 2: {
                    ++others;
                    c.label("copy");
                    if (real.size() < 3) {
                        c.describe([&](auto& o) { o << "copy "; });
                        if (s.flip()) {
                            F copy(real[k]);
                            real.push_back(std::move(copy));
                        } else { // growing the vector moves or copies the others
                            auto copy = std::make_unique<F>(real[k]);
                            real.push_back(*copy);
                        }
                        model.push_back(Model<T>(model[k]));
                    } else {
                        const auto to = s.draw(real.size() - 1);
                        c.describe([&](auto& o) { o << "assign " << k << " to " << to << " "; });
                        real[to]  = F(real[k]);
                        model[to] = Model<T>(model[k]);
                    }
                    break;
                }
#endif
                default: {
                    auto n = static_cast<std::size_t>(s.one_in(10) ? s.range<int>(50, 900) : s.size(0, 40));
                    if (n > 800 && model[k].window.size() <= 24 && s.one_in(16)) { // now and then a long run
                        n = static_cast<std::size_t>(s.range<int>(900, kind == MEDIAN ? 6000 : 40000));
                        c.label("long run");
                    }
                    std::vector<T> in(n);
                    if (n > 40) { // bulk
                        uint64_t h = s.draw(1000000) * 2654435761u + 12345;
                        for (auto& v : in) {
                            h = h * 6364136223846793005u + 1442695040888963407u;
                            v = exact ? static_cast<T>(static_cast<long>(h >> 40) % (2 * biggest + 1) - biggest) : static_cast<T>(amp * (static_cast<double>(h >> 11) / 9007199254740992.0 * 2 - 1));
                        }
                    } else {
                        for (auto& v : in) {
                            v = exact ? static_cast<T>(s.range<long>(-biggest, biggest)) : static_cast<T>(s.real(-amp, amp));
                        }
                    }
                    const auto how = s.draw(2);
                    c.describe([&](auto& o) { o << (how == 0 ? "tick" : how == 1 ? "filter" : "in place") << show(in, 6) << " "; });
                    Buf<T> out(in);
                    if (how == 0) {
                        for (std::size_t j = 0; j < n; ++j) {
                            out.p[j] = real[k](in[j]);
                        }
                    } else if (how == 1) {
                        Buf<T> src(in);
                        std::fill(out.begin(), out.end(), T(0));
                        real[k].filter(src.cbegin(), src.cend(), out.begin());
                        require_unchanged(src, in);
                    } else {
                        real[k].filter(out.begin(), out.end(), out.begin());
                    }
                    for (std::size_t j = 0; j < n; ++j) {
                        const auto e = model[k].tick(in[j]);
                        const ld tol = exact ? 4 * eps<T>() * std::abs(e.first) : e.second + std::numeric_limits<T>::min();
                        VP_CHECK(std::isfinite(out.p[j]) && std::abs(out.p[j] - e.first) <= tol, names[kind] << " of window " << model[k].window.size() << " gives " << out.p[j] << " at sample " << model[k].fed - 1 << " since the start, expected " << e.first << " +- " << tol);
                    }
                    fed += n > 0;
                    wrapped += model[k].fed > model[k].window.size();
                    break;
                }
            }
        }
        c.nontrivial(fed >= 2 && wrapped >= 1);
        c.label(wrapped ? "window wrapped" : "window not filled");
        c.label(others ? "with reset, resize or copy" : "plain");
    }
    template <typename T>
    void average(Src& s, Ctx& c) {
        history<T, ef::moving_average<T>>(s, c, MEAN);
    }
    template <typename T>
    void rms(Src& s, Ctx& c) {
        history<T, ef::moving_rms<T>>(s, c, RMS);
    }
    template <typename T>
    void median(Src& s, Ctx& c) {
        history<T, ef::moving_median<T>>(s, c, MEDIAN);
    }
} // namespace

VP_FAMILY("moving_average", 80000, 2000000, "a history of feeds, resets, resizes and copies over up to 3 filters; non-trivial: >=2 feeds, one of them past the window length") { VP_DISPATCH(average); }
VP_FAMILY("moving_rms", 80000, 2000000, "a history of feeds, resets, resizes and copies over up to 3 filters; non-trivial: >=2 feeds, one of them past the window length") { VP_DISPATCH(rms); }
VP_FAMILY("moving_median", 60000, 1200000, "a history of feeds, resets, resizes and copies over up to 3 filters; non-trivial: >=2 feeds, one of them past the window length") { VP_DISPATCH(median); }
