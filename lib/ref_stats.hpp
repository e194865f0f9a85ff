// long double reference of descriptive statistics, with rigorous-enough forward error bounds for an evaluation in T
#pragma once
#include "common.hpp"
namespace ref {
    using vp::ld;
    template <typename T>
    ld mean(const std::vector<T>& v) {
        ld a = 0;
        for (auto x : v) {
            a += x;
        }
        return a / static_cast<ld>(v.size());
    }
    template <typename T>
    ld mean_bound(const std::vector<T>& v) {
        return (static_cast<ld>(v.size()) + 4) * vp::eps<T>() * vp::sum_abs(v) / static_cast<ld>(v.size());
    }
    struct Est {
        ld value, bound;
    };
    template <typename T>
    Est moment(const std::vector<T>& v, int k, ld m, ld mean_err) {
        const ld n = static_cast<ld>(v.size());
        ld a = 0, hi = 0, ab = 0;
        for (auto x : v) {
            const ld d = static_cast<ld>(x) - m;
            const ld D = mean_err + 2 * vp::eps<T>() * (std::abs(d) + mean_err);
            a += std::pow(d, k);
            ab += std::pow(std::abs(d), k);
            hi += std::pow(std::abs(d) + D, k);
        }
        return {a / n, (hi - ab) / n + (n + 4 * k + 8) * vp::eps<T>() * hi / n + 8 * static_cast<ld>(std::numeric_limits<T>::min())};
    }
    template <typename T>
    Est central(const std::vector<T>& v, int k) {
        return moment(v, k, mean(v), mean_bound(v));
    }
    // m_k / m2^(k/2)
    template <typename T>
    bool standardized(const std::vector<T>& v, int k, Est& out) {
        const auto m2 = central(v, 2), mk = central(v, k);
        if (m2.value <= 0 || m2.bound > 0.02L * m2.value) {
            return false;
        }
        if (m2.value * m2.value < 1e3L * static_cast<ld>(std::numeric_limits<T>::min())) {
            return false;
        }
        const ld p = std::pow(m2.value, k / 2.0L);
        out.value  = mk.value / p;
        out.bound  = 2 * (mk.bound + (std::abs(mk.value) + mk.bound) * k * m2.bound / m2.value) / p + 16 * vp::eps<T>() * std::abs(out.value);
        return true;
    }
    template <typename T>
    ld median(std::vector<T> v) {
        std::sort(v.begin(), v.end());
        const auto n = v.size();
        return n % 2 ? static_cast<ld>(v[n / 2]) : (static_cast<ld>(v[n / 2 - 1]) + v[n / 2]) / 2;
    }
    template <typename T>
    ld sum_sq(const std::vector<T>& v) {
        ld a = 0;
        for (auto x : v) {
            a += static_cast<ld>(x) * x;
        }
        return a;
    }
} // namespace ref
namespace vp {
    template <typename T>
    void require_within(const char* what, T actual, const ref::Est& e) {
        VP_CHECK(std::isfinite(actual) && std::abs(static_cast<ld>(actual) - e.value) <= e.bound, what << " = " << static_cast<ld>(actual) << ", expected " << e.value << " +- " << e.bound);
    }
} // namespace vp
