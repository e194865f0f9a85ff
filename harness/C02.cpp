#include "common.hpp"
#include <edsp/algorithm/binary_search.hpp>
#include <edsp/algorithm/equal.hpp>
#include <edsp/algorithm/indexof.hpp>
#include <edsp/algorithm/linear_search.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/meta/equal.hpp>
using namespace vp;

namespace {
    template <typename T>
    T element(Bulk& b, int alphabet) {
        const long k = static_cast<long>(b.next() % static_cast<uint64_t>(alphabet)) - alphabet / 2;
        return std::is_floating_point<T>::value ? static_cast<T>(static_cast<double>(k) / 4) : static_cast<T>(k);
    }
    template <typename T>
    std::vector<T> sequence(Src& s, std::size_t n) {
        std::vector<T> v(n);
        const int alphabet = s.pick({2, 5, 50, 100000});
        if (n <= 24) {
            for (auto& x : v) {
                const long k = static_cast<long>(s.draw(static_cast<uint64_t>(alphabet - 1))) - alphabet / 2;
                x = std::is_floating_point<T>::value ? static_cast<T>(static_cast<double>(k) / 4) : static_cast<T>(k);
            }
        } else {
            Bulk b(s.draw(~0ULL));
            for (auto& x : v) {
                x = element<T>(b, alphabet);
            }
        }
        return v;
    }

    template <typename T>
    void search(Src& s, Ctx& c) {
        auto v           = sequence<T>(s, len(s, 0));
        const bool sort  = s.flip();
        if (sort) {
            std::sort(v.begin(), v.end());
        }
        T value;
        switch (v.empty() ? 2 : s.draw(3)) {
            case 0:
                value = v[s.draw(v.size() - 1)];
                break;
            case 1:
                value = s.flip() ? v.back() : v.front();
                break;
            case 2:
                value = static_cast<T>(s.range<int>(-60, 60));
                break;
            default: { // next to an element
                value = v[s.draw(v.size() - 1)];
                value = std::is_floating_point<T>::value ? static_cast<T>(std::nextafter(static_cast<T>(value), static_cast<T>(1e9))) : static_cast<T>(value + 1);
            }
        }
        std::size_t where = v.size(), copies = 0;
        for (std::size_t i = v.size(); i-- > 0;) {
            if (v[i] == value) {
                where = i;
                copies++;
            }
        }
        size_label(c, v.size());
        c.label(copies == 0 ? "absent" : copies == 1 ? "once" : "several");
        c.nontrivial(v.size() > 1);
        c.describe([&](auto& o) { o << "search for " << value << (sort ? " in sorted " : " in ") << show(v); });
        Buf<T> b(v);
        const auto it = edsp::algorithm::linear_search(b.cbegin(), b.cend(), value);
        VP_CHECK(it == b.cbegin() + where, "linear_search found index " << it - b.cbegin() << " of " << v.size() << ", expected " << where);
        const auto vi = edsp::algorithm::linear_search(v.begin(), v.end(), value);
        VP_CHECK(vi == v.begin() + static_cast<long>(where), "linear_search over vector iterators found index " << vi - v.begin() << ", expected " << where);
        const long idx = edsp::algorithm::index_of(b.cbegin(), b.cend(), value);
        VP_CHECK(idx == (copies ? static_cast<long>(where) : -1), "index_of returned " << idx << ", expected " << (copies ? static_cast<long>(where) : -1));
        const bool in = edsp::meta::contains(b.cbegin(), b.cend(), value);
        VP_CHECK(in == (copies > 0), "contains is " << in << " for a value present " << copies << " times");
        if (sort) {
            const auto bi = edsp::algorithm::binary_search(b.cbegin(), b.cend(), value);
            VP_CHECK(bi == b.cbegin() + where, "binary_search found index " << bi - b.cbegin() << " of " << v.size() << ", expected " << where);
        }
        require_unchanged(b, v);
    }

    template <typename T>
    void equality(Src& s, Ctx& c) {
        const auto a = sequence<T>(s, len(s, 0));
        auto b       = a;
        const int k  = s.range<int>(0, 5);
        if (k == 1 && !b.empty()) { // one element changed
            const auto i = s.flip() ? b.size() - 1 : s.draw(b.size() - 1);
            b[i]         = static_cast<T>(b[i] + 1);
        } else if (k == 2 && !b.empty()) {
            b.pop_back();
        } else if (k == 3) {
            b.push_back(b.empty() ? T(1) : b.back());
        } else if (k == 4) {
            b = sequence<T>(s, len(s, 0));
        } else if (k == 5) { // within one of each other
            for (std::size_t i = 0; i < b.size(); i += 2) {
                b[i] = static_cast<T>(b[i] + 1);
            }
        }
        const bool same = a == b;
        const auto pred = [](T x, T y) { return x <= y && y - x <= 1; };
        bool by_pred    = a.size() == b.size();
        for (std::size_t i = 0; by_pred && i < a.size(); ++i) {
            by_pred = pred(a[i], b[i]);
        }
        size_label(c, a.size());
        c.label(same ? "equal" : a.size() == b.size() ? "same length" : "different length");
        c.nontrivial(a.size() > 1);
        c.describe([&](auto& o) { o << "equal " << show(a) << " vs " << show(b); });
        Buf<T> x(a), y(b);
        VP_CHECK(edsp::algorithm::equal(x.cbegin(), x.cend(), y.cbegin(), y.cend()) == same, "equal is " << !same << " for sequences that are " << (same ? "equal" : "different"));
        VP_CHECK(edsp::algorithm::equal(x.cbegin(), x.cend(), y.cbegin(), y.cend(), pred) == by_pred, "equal with predicate is " << !by_pred);
        if (s.flip()) {
            VP_CHECK(edsp::algorithm::equal(y.cbegin(), y.cend(), x.cbegin(), x.cend()) == same, "equal is not symmetric");
        }
    }

    template <typename T>
    void scalar_fp(Src& s, Ctx& c) {
        const T a  = static_cast<T>(s.real(-1e3, 1e3) * std::pow(10.0, s.range<int>(-12, 12)));
        const T e  = std::numeric_limits<T>::epsilon();
        T b        = a;
        switch (s.draw(4)) {
            case 0:
                break;
            case 1:
                b = a + static_cast<T>(e * s.uniform(0, 0.99)) * (s.flip() ? 1 : -1);
                break;
            case 2:
                b = a + static_cast<T>(e * s.uniform(1.01, 5)) * (s.flip() ? 1 : -1);
                break;
            case 3:
                b = a * static_cast<T>(1 + s.uniform(0.00001, 0.1)) + static_cast<T>(s.flip() ? 1e-5 : 0);
                break;
            default:
                b = static_cast<T>(s.real(-1e3, 1e3));
        }
        const T diff        = std::abs(a - b);
        const bool expected = a == b || diff < e;
        c.label(a == b ? "identical" : expected ? "closer than epsilon" : "apart");
        c.nontrivial(a != b);
        c.describe([&](auto& o) { o << "meta::equal<" << tname<T>() << ">(" << a << ", " << b << ")"; });
        VP_CHECK(edsp::meta::equal(a, b) == expected, "equal(" << a << ", " << b << ") is " << !expected);
        VP_CHECK(edsp::meta::equal(b, a) == expected, "equal(" << b << ", " << a << ") is " << !expected);
    }
    void scalar_int(Src& s, Ctx& c) {
        const long a = static_cast<long>(s.draw(~0ULL));
        const long b = s.flip() ? a : s.flip() ? a + (1L << s.draw(62)) * 0 + static_cast<long>(1ULL << s.draw(61)) % 97 : static_cast<long>(s.draw(~0ULL));
        c.nontrivial(a != b);
        c.describe([&](auto& o) { o << "meta::equal<long>(" << a << ", " << b << ")"; });
        VP_CHECK(edsp::meta::equal(a, b) == (a == b), "equal(" << a << ", " << b << ") is wrong");
        const int x = static_cast<int>(a), y = static_cast<int>(b);
        VP_CHECK(edsp::meta::equal(x, y) == (x == y), "equal(" << x << ", " << y << ") is wrong");
        const char p = static_cast<char>(a), q = static_cast<char>(b);
        VP_CHECK(edsp::meta::equal(p, q) == (p == q), "equal of chars is wrong");
    }
} // namespace

VP_FAMILY("search", 150000, 1500000, "linear_search, index_of, contains, binary_search against a scan, values present, absent, tied, next to an element; non-trivial: n>1") {
    switch (s.draw(3)) {
        case 0:
            return search<double>(s, c);
        case 1:
            return search<float>(s, c);
        case 2:
            return search<int>(s, c);
        default:
            return search<long>(s, c);
    }
}
VP_FAMILY("equality", 120000, 1200000, "range equality with and without predicate: equal, one element changed, shorter, longer, unrelated; non-trivial: n>1") {
    switch (s.draw(2)) {
        case 0:
            return equality<double>(s, c);
        case 1:
            return equality<float>(s, c);
        default:
            return equality<int>(s, c);
    }
}
VP_FAMILY("scalar_equal", 300000, 3000000, "scalar equality around the machine epsilon, and of integers; non-trivial: the values differ") {
    if (s.one_in(3)) {
        scalar_int(s, c);
    } else {
        VP_DISPATCH(scalar_fp);
    }
}
