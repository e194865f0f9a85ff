// helpers shared by the harnesses
#pragma once
#include "vpbt.hpp"
#include <deque>
#include <list>
#include <numeric>

namespace vp {
    using ld = long double;
    template <typename T>
    constexpr const char* tname() {
        return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : "other";
    }
    template <typename T>
    constexpr ld eps() {
        return static_cast<ld>(std::numeric_limits<T>::epsilon());
    }

    // amplitude of a signal: mostly 10^lo to 10^hi, now and then as faint or as loud as a T whose power-th power is to be
    // computed can be
    template <typename T>
    double magnitude(Src& s, int lo, int hi, int power) {
        const int most = ((std::is_same<T, float>::value ? 36 : 300) - 6) / power;
        return std::pow(10.0, s.one_in(8) && -most < lo ? s.range<int>(-most, most) : s.range<int>(lo, hi));
    }

    // length of a sequence: mostly short, around powers of two, sometimes thousands, rarely > 2^16
    inline std::size_t len(Src& s, long lo, long hi = 3000, long huge = 70000) {
        if (s.one_in(150)) {
            const long n = s.range<long>(hi, std::max(hi, huge));
            if (s.draw(2) > 0) { // a block size: next to a power of two, or a multiple of 1024
                long p = 1;
                while (2 * p <= n) {
                    p *= 2;
                }
                return static_cast<std::size_t>(std::min(std::max(hi, huge), std::max(hi, (s.flip() ? p : n / 1024 * 1024) + static_cast<long>(s.draw(2)) - 1)));
            }
            return static_cast<std::size_t>(n);
        }
        return static_cast<std::size_t>(s.size(lo, hi));
    }
    // the operations of a case so far; described as they happen, so that a crash shows them
    struct History {
        Ctx& c;
        std::string text;
        explicit History(Ctx& c_) : c(c_) {}
        History& operator+=(const std::string& s) {
            text += s;
            c.describe([&](auto& o) { o << s; });
            return *this;
        }
        friend std::ostream& operator<<(std::ostream& o, const History& h) {
            return o << h.text;
        }
    };
    inline void size_label(Ctx& c, std::size_t n) {
        c.label(n == 0 ? "n=0" : n == 1 ? "n=1" : n < 10 ? "n<10" : n < 100 ? "n<100" : n < 1000 ? "n<1000" : n < 10000 ? "n<10000" : "n>=10000");
    }

#ifdef VP_PYTHON // one sample type
#define VP_DISPATCH(body) body<double>(s, c)
#else
#define VP_DISPATCH(body)                    \
    do {                                     \
        if (s.flip()) {                      \
            c.label("float");                \
            body<float>(s, c);               \
        } else {                             \
            c.label("double");               \
            body<double>(s, c);              \
        }                                    \
    } while (0)
#endif

    template <typename T>
    void require_close(const char* what, T actual, ld expected, ld scale, ld mult) {
        VP_CHECK(close(actual, expected, scale, mult),
                 what << " = " << static_cast<ld>(actual) << ", expected " << expected << " (tolerance scale " << scale << " x " << mult << " eps)");
    }

    template <typename V>
    void require_unchanged(const V& after, const std::vector<typename V::value_type>& before) {
        VP_CHECK(std::equal(before.begin(), before.end(), after.begin(), after.end(),
                            [](auto a, auto b) { return a == b || (a != a && b != b); }),
                 "a const input was modified");
    }
    template <typename T>
    void require_unchanged(const Buf<T>& after, const std::vector<T>& before) {
        for (std::size_t i = 0; i < before.size(); ++i) {
            VP_CHECK(after.p[i] == before[i], "a const input was modified at " << i);
        }
    }

    template <typename T>
    ld sum_abs(const std::vector<T>& v) {
        ld a = 0;
        for (auto x : v) {
            a += std::abs(static_cast<ld>(x));
        }
        return a;
    }
    template <typename T>
    ld max_abs(const std::vector<T>& v) {
        ld a = 0;
        for (auto x : v) {
            a = std::max(a, std::abs(static_cast<ld>(x)));
        }
        return a;
    }
} // namespace vp
