// C34: the same elements behind forward, bidirectional, reverse, strided and contiguous iterators
#include "C34/ranges.hpp"

namespace {
    using namespace vp;

    template <typename T>
    T element(Src& s) {
        const T v = s.one_in(4) ? static_cast<T>(s.range<int>(-4, 4)) : static_cast<T>(s.uniform(-5, 5));
        return v;
    }

    template <typename T>
    void check(const char* group, Src& s, Ctx& c) {
        const auto& all = c34::ops<T>()[group];
        const auto& op  = all[static_cast<std::size_t>(s.draw(static_cast<long>(all.size()) - 1))];
        c34::Case<T> d;
        d.n            = op.least + s.size(0, s.one_in(10) ? 700 : 90);
        const auto n   = static_cast<std::size_t>(d.n);
        const bool odd = s.flip(); // the others are simple ones
        for (std::size_t i = 0; i < n; ++i) {
            d.a.push_back(element<T>(s));
            d.b.push_back(odd ? element<T>(s) : static_cast<T>(i % 7) - d.a[i]);
            d.pos.push_back(odd ? static_cast<T>(s.log_uniform(0.01, 9)) : std::abs(d.a[i]) + static_cast<T>(0.25));
            d.z.emplace_back(d.a[i], d.b[i]);
        }
        d.sorted = d.pos;
        std::sort(d.sorted.begin(), d.sorted.end());
        d.value  = s.one_in(3) ? element<T>(s) : d.a[s.draw(n - 1)];
        d.factor = element<T>(s);
        d.k      = s.range<int>(0, 60);
        c.label(op.name);
        if (op.kinds.size() < 5) {
            c.label("random access only");
        }
        c.describe([&](auto& o) { o << op.name << " of " << tname<T>() << ", k " << d.k << ", value " << d.value << ", factor " << d.factor << ", a " << show(d.a) << ", b " << show(d.b); });
        c34::V expected;
        op.kinds.front().second(d, expected);
        double most = 0;
        for (auto v : expected) {
            if (std::isfinite(v)) {
                most = std::max(most, std::abs(v));
            }
        }
        // contiguous elements may be worked on in place by code made for them, in another order
        const double allowed = most * static_cast<double>(std::numeric_limits<T>::epsilon()) * 64 * (1 + std::log2(static_cast<double>(n)));
        c.nontrivial(n > 2 && most > 0);
        for (std::size_t k = 1; k < op.kinds.size(); ++k) {
            c.describe([&](auto& o) { o << "; " << op.kinds[k].first; });
            c34::V actual;
            op.kinds[k].second(d, actual);
            VP_CHECK(actual.size() == expected.size(), "a result of " << actual.size() << " values with " << op.kinds[k].first << ", of " << expected.size() << " with arrays");
            for (std::size_t i = 0; i < actual.size(); ++i) {
                const bool same = actual[i] == expected[i] || (std::isnan(actual[i]) && std::isnan(expected[i])) || std::abs(actual[i] - expected[i]) <= allowed;
                VP_CHECK(same, "value " << i << " is " << actual[i] << " with " << op.kinds[k].first << ", " << expected[i] << " with arrays");
            }
        }
    }
    void any(const char* group, Src& s, Ctx& c) {
        if (s.flip()) {
            check<float>(group, s, c);
        } else {
            check<double>(group, s, c);
        }
    }
} // namespace

#define C34_RULE "at least three elements and a result that is not all zeros; one of the operations of the group on the same elements in arrays and in four other pairs of kinds of ranges"
VP_FAMILY("algorithms", 70000, 1500000, C34_RULE) { any("algorithms", s, c); }
VP_FAMILY("statistics", 70000, 1500000, C34_RULE) { any("statistics", s, c); }
VP_FAMILY("features", 70000, 1500000, C34_RULE) { any("features", s, c); }
VP_FAMILY("windows and filters", 60000, 1200000, C34_RULE) { any("windows and filters", s, c); }
VP_FAMILY("transforms", 50000, 900000, C34_RULE) { any("transforms", s, c); }
VP_FAMILY("files and streams", 15000, 300000, C34_RULE) { any("files and streams", s, c); }
