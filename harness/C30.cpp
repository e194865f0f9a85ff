// C30: the vocabulary types (string view, optional, variant, any, expected, span) as the C++14 library uses them,
// i.e. eDSP's own implementations, side by side with the standard library's
#define nssv_CONFIG_SELECT_NONSTD_STRING_VIEW 1
#define nssv_CONFIG_SELECT_STD_STRING_VIEW 0
#define optional_CONFIG_SELECT_OPTIONAL optional_OPTIONAL_NONSTD
#define variant_CONFIG_SELECT_VARIANT variant_VARIANT_NONSTD
#define any_CONFIG_SELECT_ANY any_ANY_NONSTD
#define nsel_CONFIG_SELECT_EXPECTED nsel_EXPECTED_NONSTD
#define span_CONFIG_SELECT_STD_SPAN 0
#include "common.hpp"
#include <any>
#include <iomanip>
#include <optional>
#include <stdexcept>
#include <string_view>
#include <variant>
#include <edsp/types/any.hpp>
#include <edsp/types/expected.hpp>
#include <edsp/types/optional.hpp>
#include <edsp/types/span.hpp>
#include <edsp/types/string_view.hpp>
#include <edsp/types/variant.hpp>
using namespace vp;

static_assert(!std::is_same<edsp::string_view, std::string_view>::value && !std::is_same<edsp::optional<int>, std::optional<int>>::value
                  && !std::is_same<edsp::variant<int>, std::variant<int>>::value && !std::is_same<edsp::any, std::any>::value,
              "the standard library is compared with itself");

namespace {
    // a value that owns memory, knows how many of its kind are alive and is "" once moved from
    template <int K>
    struct Val {
        static long& alive() {
            static long n = 0;
            return n;
        }
        std::string text;
        Val() { ++alive(); }
        Val(const std::string& s) : text(s) { ++alive(); }
        Val(const std::string& a, const std::string& b) : text(a + b) { ++alive(); }
        Val(std::initializer_list<char> il, const std::string& b) : text(std::string(il) + b) { ++alive(); }
        Val(const Val& o) : text(o.text) { ++alive(); }
        Val(Val&& o) noexcept : text(std::move(o.text)) {
            o.text.clear();
            ++alive();
        }
        Val& operator=(const Val& o) {
            text = o.text;
            return *this;
        }
        Val& operator=(Val&& o) noexcept {
            if (this != &o) {
                text = std::move(o.text);
                o.text.clear();
            }
            return *this;
        }
        ~Val() { --alive(); }
        friend bool operator==(const Val& a, const Val& b) { return a.text == b.text; }
        friend bool operator!=(const Val& a, const Val& b) { return a.text != b.text; }
        friend bool operator<(const Val& a, const Val& b) { return a.text < b.text; }
        friend bool operator>(const Val& a, const Val& b) { return a.text > b.text; }
        friend bool operator<=(const Val& a, const Val& b) { return a.text <= b.text; }
        friend bool operator>=(const Val& a, const Val& b) { return a.text >= b.text; }
    };
    std::string word(Src& s) {
        const auto k = s.draw(5);
        return k == 5 ? std::string(40, static_cast<char>('a' + s.draw(2))) : std::string(k, static_cast<char>('a' + s.draw(2)));
    }
    template <typename T>
    T value(Src& s);
    template <>
    int value<int>(Src& s) { return s.range<int>(0, 3); }
    template <>
    double value<double>(Src& s) { return s.range<int>(0, 3) / 2.0; }
    template <>
    std::string value<std::string>(Src& s) { return word(s); }
    template <>
    Val<0> value<Val<0>>(Src& s) { return Val<0>(word(s)); }
    template <>
    Val<1> value<Val<1>>(Src& s) { return Val<1>(word(s)); }

    template <typename T>
    void put(std::ostream& o, const T& x) { o << x; }
    template <int K>
    void put(std::ostream& o, const Val<K>& x) { o << '"' << x.text << '"'; }

    // ---------------------------------------------------------------- string views
    template <typename C>
    std::basic_string<C> letters(Src& s, std::size_t most) {
        static const int some[] = {'a', 'b', 'c', 0, 255};
        std::basic_string<C> r(s.draw(most), C('a'));
        const auto kinds = s.draw(4);
        for (auto& x : r) x = static_cast<C>(some[s.draw(kinds)]);
        return r;
    }
    template <typename F>
    std::pair<bool, std::decay_t<std::invoke_result_t<F>>> guarded(F f) {
        try {
            return {true, f()};
        } catch (const std::out_of_range&) {
            return {false, {}};
        }
    }
    template <typename C>
    std::string shown(const std::basic_string<C>& x) {
        std::ostringstream o;
        o << '"';
        for (auto c : x) {
            const auto u = static_cast<unsigned>(static_cast<std::make_unsigned_t<C>>(c));
            u > 32 && u < 127 ? o << static_cast<char>(u) : o << "\\" << u;
        }
        o << '"';
        return o.str();
    }
    int sign(int x) { return x < 0 ? -1 : x > 0; }

    template <typename C>
    void view(Src& s, Ctx& c) {
        using R = edsp::basic_string_view<C>;
        using M = std::basic_string_view<C>;
        const auto x = letters<C>(s, 24), y = s.one_in(3) && !x.empty() ? [&] {
            const auto i = s.draw(x.size() - 1);
            return x.substr(i, s.draw(x.size() - i));
        }()
                                                                       : letters<C>(s, 6);
        Buf<C> bx(std::vector<C>(x.begin(), x.end())), by(std::vector<C>(y.begin(), y.end())); // exactly as long as they are
        const R r(bx.p, x.size()), q(by.p, y.size());
        const M m(bx.p, x.size()), w(by.p, y.size());
        const auto zx = std::basic_string<C>(x.c_str()), zy = std::basic_string<C>(y.c_str()); // up to the first nul
        const C* z = zy.c_str();
        const auto place = [&]() -> std::size_t {
            switch (s.draw(5)) {
                case 0: return 0;
                case 1: return M::npos;
                case 2: return x.size() + s.draw(2);
                default: return s.draw(x.size());
            }
        };
        const auto p = place(), n = place(), p2 = s.draw(y.size() + 1), n2 = place();
        const C ch = y.empty() ? C('b') : y[0];
        const auto k = s.draw(y.size()); // characters of y, and of z where there are as many
        const auto kz = std::min<std::size_t>(k, zy.size());
        c.describe([&](auto& o) { o << "views " << shown(x) << " and " << shown(y) << ", positions " << static_cast<long>(p) << " " << static_cast<long>(n) << " " << static_cast<long>(p2) << " " << static_cast<long>(n2) << " " << k; });
        size_label(c, x.size());
        if (x.size() > 1 && !y.empty()) c.nontrivial();
        const auto same = [&](const char* what, auto got, auto want) {
            VP_CHECK(got == want, what << " = " << static_cast<long long>(got) << ", expected " << static_cast<long long>(want));
        };
        same("size", r.size(), m.size());
        same("length", r.length(), m.length());
        same("empty", r.empty(), m.empty());
        same("npos", R::npos + 0, M::npos + 0);
        VP_CHECK(r.data() == m.data() && (x.empty() || (r.begin() == r.cbegin() && &*r.begin() == m.data())), "data() or begin() is not the first character");
        VP_CHECK(std::basic_string<C>(r.begin(), r.end()) == x && std::basic_string<C>(r.cbegin(), r.cend()) == x, "iteration does not give the text");
        VP_CHECK(std::basic_string<C>(r.rbegin(), r.rend()) == std::basic_string<C>(x.rbegin(), x.rend()) && std::basic_string<C>(r.crbegin(), r.crend()) == std::basic_string<C>(x.rbegin(), x.rend()), "iteration backwards does not give the text");
        for (std::size_t i = 0; i < x.size(); ++i) VP_CHECK(r[i] == x[i] && r.at(i) == x[i], "character " << i);
        if (!x.empty()) VP_CHECK(r.front() == x.front() && r.back() == x.back(), "front() or back()");
        same("at() past the end throws", guarded([&] { return r.at(x.size() + s.draw(1)); }).first, false);
        // comparisons
        same("compare", sign(r.compare(q)), sign(m.compare(w)));
        same("compare(s)", sign(r.compare(z)), sign(m.compare(z)));
        const auto cmp = [&](const char* what, auto f, auto g) {
            const auto a = guarded(f), b = guarded(g);
            VP_CHECK(a.first == b.first && sign(a.second) == sign(b.second), what << (a.first ? " gives " : " throws, not ") << sign(a.second) << ", expected " << (b.first ? "" : "an exception, not ") << sign(b.second));
        };
        cmp("compare(p,n,v)", [&] { return r.compare(p, n, q); }, [&] { return m.compare(p, n, w); });
        cmp("compare(p,n,v,p2,n2)", [&] { return r.compare(p, n, q, p2, n2); }, [&] { return m.compare(p, n, w, p2, n2); });
        cmp("compare(p,n,s)", [&] { return r.compare(p, n, z); }, [&] { return m.compare(p, n, z); });
        cmp("compare(p,n,s,k)", [&] { return r.compare(p, n, by.p, k); }, [&] { return m.compare(p, n, by.p, k); });
        same("==", r == q, m == w);
        same("!=", r != q, m != w);
        same("<", r < q, m < w);
        same("<=", r <= q, m <= w);
        same(">", r > q, m > w);
        same(">=", r >= q, m >= w);
        same("== itself", r == R(r), true);
        same("starts_with", r.starts_with(q), x.compare(0, y.size(), y) == 0);
        same("starts_with(s)", r.starts_with(z), x.compare(0, zy.size(), zy) == 0);
        same("starts_with(c)", r.starts_with(ch), !x.empty() && x[0] == ch);
        const auto ends = [&](const std::basic_string<C>& t) { return x.size() >= t.size() && x.compare(x.size() - t.size(), t.size(), t) == 0; };
        same("ends_with", r.ends_with(q), ends(y));
        same("ends_with(s)", r.ends_with(z), ends(zy));
        same("ends_with(c)", r.ends_with(ch), !x.empty() && x.back() == ch);
        // searches
#define VP_SEARCH(F, END)                                                                          \
    same(#F, r.F(q), m.F(w));                                                                      \
    same(#F "(p)", r.F(q, p), m.F(w, p));                                                          \
    same(#F "(c)", r.F(ch), m.F(ch));                                                              \
    same(#F "(c,p)", r.F(ch, p), m.F(ch, p));                                                      \
    same(#F "(s)", r.F(z), m.F(z));                                                                \
    same(#F "(s,p)", r.F(z, p), m.F(z, p));                                                        \
    same(#F "(s,p,k)", r.F(by.p, p, k), m.F(by.p, p, k));
        VP_SEARCH(find, 0)
        VP_SEARCH(rfind, 0)
        VP_SEARCH(find_first_of, 0)
        VP_SEARCH(find_last_of, 0)
        VP_SEARCH(find_first_not_of, 0)
        VP_SEARCH(find_last_not_of, 0)
#undef VP_SEARCH
        (void)kz;
        // parts
        {
            const auto a = guarded([&] { return std::basic_string<C>(r.substr(p, n).begin(), r.substr(p, n).end()); });
            const auto b = guarded([&] { return std::basic_string<C>(m.substr(p, n)); });
            VP_CHECK(a == b, "substr gives " << shown(a.second) << ", expected " << shown(b.second));
        }
        {
            std::vector<C> d(x.size() + 2, C('#')), e(d);
            const auto a = guarded([&] { return r.copy(d.data(), std::min(n, x.size()), p); });
            const auto b = guarded([&] { return m.copy(e.data(), std::min(n, x.size()), p); });
            VP_CHECK(a == b && d == e, "copy() of " << n << " from " << p);
        }
        {
            R a = r, b = q;
            const auto u = s.draw(x.size()), v = s.draw(x.size() - u);
            a.remove_prefix(u);
            a.remove_suffix(v);
            VP_CHECK(a.size() == x.size() - u - v && (a.empty() || a.data() == r.data() + u), "removing " << u << " and " << v << " characters");
            const R before = a;
            a.swap(b);
            VP_CHECK(a.data() == q.data() && a.size() == q.size() && b.data() == before.data() && b.size() == before.size(), "swap");
            b = r;
            VP_CHECK(b.data() == r.data() && b.size() == r.size(), "assignment");
        }
        VP_CHECK(r.to_string() == x && static_cast<std::basic_string<C>>(r) == x && nonstd::to_string(r) == x, "conversion to a string");
        VP_CHECK(nonstd::to_string_view(x) == r, "conversion from a string");
        VP_CHECK(R(zx.c_str()).size() == zx.size(), "a view of a nul terminated text");
        VP_CHECK(std::hash<R>()(r) == std::hash<R>()(nonstd::to_string_view(x)), "equal views have different hashes");
    }
    void streamed(Src& s, Ctx& c) {
        const auto x = letters<char>(s, 20);
        const auto width = s.range<int>(0, 30);
        const bool left  = s.flip();
        c.describe([&](auto& o) { o << shown(x) << " in " << width << (left ? " left" : " right"); });
        c.nontrivial(width > static_cast<int>(x.size()) && !x.empty());
        std::ostringstream a, b;
        a << (left ? std::left : std::right) << std::setfill('.') << std::setw(width) << edsp::string_view(x.data(), x.size()) << 7;
        b << (left ? std::left : std::right) << std::setfill('.') << std::setw(width) << std::string_view(x) << 7;
        VP_CHECK(a.str() == b.str(), "written as " << shown(a.str()) << ", expected " << shown(b.str()));
        using namespace nonstd::literals;
        VP_CHECK("ab\0c"_sv.size() == 4, "literal");
    }

    // ---------------------------------------------------------------- optional
    template <typename A, typename B>
    void compare_optional(const A& a, const B& b) {
        VP_CHECK(a.has_value() == b.has_value() && static_cast<bool>(a) == b.has_value(), "has_value() = " << a.has_value() << ", expected " << b.has_value());
        VP_CHECK((a == nonstd::nullopt) == !b && (nonstd::nullopt != a) == static_cast<bool>(b) && (nonstd::nullopt < a) == static_cast<bool>(b) && !(a < nonstd::nullopt) && (a <= nonstd::nullopt) == !b && (a >= nonstd::nullopt)
                     && (a > nonstd::nullopt) == static_cast<bool>(b) && (nonstd::nullopt <= a) && (nonstd::nullopt >= a) == !b && !(nonstd::nullopt > a),
                 "comparison with nothing");
        if (b) {
            VP_CHECK(*a == *b && a.value() == *b && *a.operator->() == *b, "the value is another one");
        } else {
            bool threw = false;
            try {
                (void) a.value();
            } catch (const nonstd::bad_optional_access&) {
                threw = true;
            }
            VP_CHECK(threw, "value() of nothing does not throw");
        }
    }
    template <typename T>
    void optional_of(Src& s, Ctx& c) {
        using R           = edsp::optional<T>;
        using M           = std::optional<T>;
        const auto before = Val<0>::alive();
        {
            std::vector<R> r(3);
            std::vector<M> m(3);
            const auto steps = s.size(1, 30);
            bool both        = false;
            for (long k = 0; k < steps; ++k) {
                const auto i = s.draw(2), j = s.draw(2);
                const auto v = value<T>(s);
                c.describe([&](auto& o) { o << "[" << i << j << " "; put(o, v); });
                switch (s.draw(14)) {
                    case 0: r[i] = v; m[i] = v; c.describe([](auto& o) { o << " =v] "; }); break;
                    case 1: r[i] = nonstd::nullopt; m[i] = std::nullopt; c.describe([](auto& o) { o << " =null] "; }); break;
                    case 2: r[i] = r[j]; m[i] = m[j]; c.describe([](auto& o) { o << " copy] "; }); break;
                    case 3:
                        if (i == j) break;
                        r[i] = std::move(r[j]);
                        m[i] = std::move(m[j]);
                        VP_CHECK(r[j].has_value() == m[j].has_value(), "moving from an optional changes whether it has a value");
                        r[j] = r[i], m[j] = m[i];
                        c.describe([](auto& o) { o << " move] "; });
                        break;
                    case 4: {
                        auto& back = r[i].emplace(v);
                        m[i].emplace(v);
                        VP_CHECK(&back == &*r[i], "emplace() does not return the value");
                        c.describe([](auto& o) { o << " emplace] "; });
                        break;
                    }
                    case 5: r[i].reset(); m[i].reset(); c.describe([](auto& o) { o << " reset] "; }); break;
                    case 6: {
                        using std::swap;
                        s.flip() ? r[i].swap(r[j]) : swap(r[i], r[j]);
                        m[i].swap(m[j]);
                        c.describe([](auto& o) { o << " swap] "; });
                        break;
                    }
                    case 7: {
                        R t(r[i]);
                        M u(m[i]);
                        compare_optional(t, u);
                        R a(std::move(t));
                        M b(std::move(u));
                        VP_CHECK(t.has_value() == u.has_value(), "move construction changes whether the source has a value");
                        compare_optional(a, b);
                        if (a) {
                            *a = v, *b = v;
                            compare_optional(a, b);
                        }
                        c.describe([](auto& o) { o << " construct] "; });
                        break;
                    }
                    case 8: VP_CHECK(r[i].value_or(v) == m[i].value_or(v) && R(r[i]).value_or(v) == m[i].value_or(v), "value_or()"); break;
                    case 9: {
                        R a(v), b(nonstd::nullopt), d(nonstd::in_place, v), e = nonstd::make_optional(v);
                        VP_CHECK(a && *a == v && !b && d && *d == v && e && *e == v, "constructors");
                        break;
                    }
                    case 10: r[i] = T(v); m[i] = T(v); c.describe([](auto& o) { o << " =v&&] "; }); break;
                    case 11:
                        if (r[i]) {
                            *r[i] = v;
                            *m[i] = v;
                            r[i].value() = v;
                        }
                        break;
                    case 12: {
                        const std::size_t h = s.draw(1);
                        if (r[h] && r[2]) VP_CHECK((*r[h] == *r[2]) <= (r[h] == r[2]), "equality");
                        break;
                    }
                    case 13: { // take the value out
                        if (!r[i]) break;
                        T a = *std::move(r[i]), b = *std::move(m[i]);
                        VP_CHECK(a == b && r[i] && *r[i] == *m[i], "moving the value out");
                        break;
                    }
                    default: {
                        R t;
                        t = nonstd::optional<T>(v);
                        r[i] = t;
                        m[i] = v;
                        c.describe([](auto& o) { o << " =temporary] "; });
                    }
                }
                for (int a = 0; a < 3; ++a) {
                    compare_optional(r[a], m[a]);
                    for (int b = 0; b < 3; ++b) {
                        VP_CHECK((r[a] == r[b]) == (m[a] == m[b]) && (r[a] != r[b]) == (m[a] != m[b]) && (r[a] < r[b]) == (m[a] < m[b]) && (r[a] <= r[b]) == (m[a] <= m[b]) && (r[a] > r[b]) == (m[a] > m[b]) && (r[a] >= r[b]) == (m[a] >= m[b]),
                                 "comparison of optionals " << a << " and " << b);
                        both = both || (a != b && r[a] && r[b] && *r[a] != *r[b]);
                    }
                    VP_CHECK((r[a] == v) == (m[a] == v) && (r[a] != v) == (m[a] != v) && (r[a] < v) == (m[a] < v) && (r[a] <= v) == (m[a] <= v) && (r[a] > v) == (m[a] > v) && (r[a] >= v) == (m[a] >= v), "comparison of optional " << a << " with a value");
                    VP_CHECK((v == r[a]) == (v == m[a]) && (v != r[a]) == (v != m[a]) && (v < r[a]) == (v < m[a]) && (v <= r[a]) == (v <= m[a]) && (v > r[a]) == (v > m[a]) && (v >= r[a]) == (v >= m[a]), "comparison of a value with optional " << a);
                }
            }
            if (both) c.nontrivial();
        }
        VP_CHECK(Val<0>::alive() == before, Val<0>::alive() - before << " values were not destroyed (or twice)");
    }

    // ---------------------------------------------------------------- variant of sixteen types
    template <template <typename...> class V>
    using Sixteen = V<Val<0>, int, Val<2>, Val<3>, Val<4>, Val<5>, Val<6>, Val<7>, Val<8>, Val<9>, Val<10>, Val<11>, Val<12>, Val<13>, Val<14>, double>;
    using RV = edsp::variant<Val<0>, int, Val<2>, Val<3>, Val<4>, Val<5>, Val<6>, Val<7>, Val<8>, Val<9>, Val<10>, Val<11>, Val<12>, Val<13>, Val<14>, double>;
    using MV = std::variant<Val<0>, int, Val<2>, Val<3>, Val<4>, Val<5>, Val<6>, Val<7>, Val<8>, Val<9>, Val<10>, Val<11>, Val<12>, Val<13>, Val<14>, double>;
    template <std::size_t I>
    using Alt = std::variant_alternative_t<I, MV>;
    template <typename F, std::size_t... I>
    void nth(std::size_t k, F&& f, std::index_sequence<I...>) {
        (void) ((k == I && (f(std::integral_constant<std::size_t, I>()), true)) || ...);
    }
    template <typename F>
    void nth(std::size_t k, F&& f) {
        nth(k, f, std::make_index_sequence<16>());
    }
    template <typename T>
    T any_value(Src& s) {
        if constexpr (std::is_arithmetic<T>::value) return static_cast<T>(s.range<int>(0, 3));
        else return T(word(s));
    }
    long all_alive() {
        long n = 0;
        n += Val<0>::alive() + Val<2>::alive() + Val<3>::alive() + Val<4>::alive() + Val<5>::alive() + Val<6>::alive() + Val<7>::alive() + Val<8>::alive();
        n += Val<9>::alive() + Val<10>::alive() + Val<11>::alive() + Val<12>::alive() + Val<13>::alive() + Val<14>::alive();
        return n;
    }
    struct Name {
        template <int K>
        std::string operator()(const Val<K>& v) const { return std::to_string(K) + ":" + v.text; }
        std::string operator()(int v) const { return "int:" + std::to_string(v); }
        std::string operator()(double v) const { return "double:" + std::to_string(v); }
    };
    struct Names {
        template <typename A, typename B>
        std::string operator()(const A& a, const B& b) const { return Name()(a) + "," + Name()(b); }
    };
    void compare_variant(const RV& r, const MV& m) {
        VP_CHECK(r.index() == m.index() && !r.valueless_by_exception(), "index " << r.index() << ", expected " << m.index());
        VP_CHECK(nonstd::visit(Name(), r) == std::visit(Name(), m), "visit() sees " << nonstd::visit(Name(), r) << ", expected " << std::visit(Name(), m));
        for (std::size_t k = 0; k < 16; ++k) {
            nth(k, [&](auto I) {
                using T = Alt<I()>;
                VP_CHECK(nonstd::holds_alternative<T>(r) == (m.index() == I()), "holds_alternative for type " << I());
                const T* a = nonstd::get_if<T>(&r);
                const T* b = nonstd::get_if<I()>(&r);
                VP_CHECK((a != nullptr) == (m.index() == I()) && a == b, "get_if for type " << I());
                if (k != m.index() && k != (m.index() + 1 + std::visit(Name(), m).size()) % 16) return; // one wrong type: exceptions are slow
                bool threw = false;
                try {
                    VP_CHECK(nonstd::get<I()>(r) == std::get<I()>(m) && nonstd::get<T>(r) == std::get<I()>(m) && *a == std::get<I()>(m), "value of type " << I());
                } catch (const nonstd::bad_variant_access&) {
                    threw = true;
                } catch (const std::bad_variant_access&) {
                    threw = true;
                }
                VP_CHECK(threw == (m.index() != I()), "get for type " << I() << (threw ? " throws" : " does not throw"));
            });
        }
    }
    void variants(Src& s, Ctx& c) {
        const auto before = all_alive();
        {
            RV r[2];
            MV m[2];
            std::set<std::size_t> seen;
            const auto steps = s.size(1, 24);
            for (long k = 0; k < steps; ++k) {
                const auto i = s.draw(1), j = s.draw(1);
                const auto t = s.draw(15);
                c.describe([&](auto& o) { o << "[" << i << j << " type " << t << " "; });
                switch (s.draw(9)) {
                    case 0: nth(t, [&](auto I) { const auto v = any_value<Alt<I()>>(s); r[i] = v; m[i].template emplace<I()>(v); }); c.describe([](auto& o) { o << "=v] "; }); break;
                    case 1: nth(t, [&](auto I) { const auto v = any_value<Alt<I()>>(s); auto u = v; r[i] = std::move(u); m[i].template emplace<I()>(v); }); c.describe([](auto& o) { o << "=v&&] "; }); break;
                    case 2: nth(t, [&](auto I) { const auto v = any_value<Alt<I()>>(s); r[i].template emplace<I()>(v); m[i].template emplace<I()>(v); }); c.describe([](auto& o) { o << "emplace] "; }); break;
                    case 3: nth(t, [&](auto I) { const auto v = any_value<Alt<I()>>(s); r[i].template emplace<Alt<I()>>(v); m[i].template emplace<I()>(v); }); c.describe([](auto& o) { o << "emplace<T>] "; }); break;
                    case 4: r[i] = r[j]; m[i] = m[j]; c.describe([](auto& o) { o << "copy] "; }); break;
                    case 5:
                        if (i == j) break;
                        r[i] = std::move(r[j]);
                        m[i] = std::move(m[j]);
                        VP_CHECK(r[j].index() == m[j].index(), "moving from a variant changes its index");
                        r[j] = r[i], m[j] = m[i];
                        c.describe([](auto& o) { o << "move] "; });
                        break;
                    case 6: {
                        using std::swap;
                        s.flip() ? r[i].swap(r[j]) : swap(r[i], r[j]);
                        if (i != j) std::swap(m[i], m[j]);
                        c.describe([](auto& o) { o << "swap] "; });
                        break;
                    }
                    case 7: {
                        RV a(r[i]);
                        MV b(m[i]);
                        compare_variant(a, b);
                        RV d(std::move(a));
                        compare_variant(d, b);
                        VP_CHECK(a.index() == b.index(), "moving from a variant changes its index");
                        c.describe([](auto& o) { o << "construct] "; });
                        break;
                    }
                    case 8: nth(t, [&](auto I) { const auto v = any_value<Alt<I()>>(s); RV a(v); auto u = v; RV b(std::move(u)); RV d(nonstd::in_place_index_t<I()>(), v); RV e(nonstd::in_place_type_t<Alt<I()>>(), v);
                                MV w(std::in_place_index_t<I()>(), v); compare_variant(a, w); compare_variant(b, w); compare_variant(d, w); compare_variant(e, w); r[i] = d; m[i] = w; }); c.describe([](auto& o) { o << "from value] "; }); break;
                    default: // write through a reference
                        nth(m[i].index(), [&](auto I) { const auto v = any_value<Alt<I()>>(s); nonstd::get<I()>(r[i]) = v; std::get<I()>(m[i]) = v; *nonstd::get_if<I()>(&r[i]) = v; nonstd::get<Alt<I()>>(r[i]) = v; });
                        c.describe([](auto& o) { o << "write] "; });
                }
                for (int a = 0; a < 2; ++a) {
                    seen.insert(m[a].index());
                    compare_variant(r[a], m[a]);
                    for (int b = 0; b < 2; ++b) {
                        VP_CHECK((r[a] == r[b]) == (m[a] == m[b]) && (r[a] != r[b]) == (m[a] != m[b]) && (r[a] < r[b]) == (m[a] < m[b]) && (r[a] <= r[b]) == (m[a] <= m[b]) && (r[a] > r[b]) == (m[a] > m[b]) && (r[a] >= r[b]) == (m[a] >= m[b]),
                                 "comparison of variants " << a << " and " << b);
                    }
                }
                VP_CHECK(nonstd::visit(Names(), r[0], r[1]) == std::visit(Names(), m[0], m[1]), "visit() of two sees " << nonstd::visit(Names(), r[0], r[1]) << ", expected " << std::visit(Names(), m[0], m[1]));
            }
            c.nontrivial(seen.size() >= 3);
        }
        VP_CHECK(all_alive() == before, all_alive() - before << " values were not destroyed (or twice)");
    }

    // ---------------------------------------------------------------- any
    template <typename T>
    void compare_any_as(const edsp::any& r, const std::any& m) {
        const T* a = nonstd::any_cast<T>(&r);
        const T* b = std::any_cast<T>(&m);
        VP_CHECK((a != nullptr) == (b != nullptr) && (!a || *a == *b), "any_cast to a pointer");
        if (b == nullptr && !std::is_same<T, int>::value && !std::is_same<T, Val<1>>::value) return; // exceptions are slow
        bool threw = false;
        try {
            const T v = nonstd::any_cast<T>(r);
            VP_CHECK(b && v == *b, "any_cast gives another value");
        } catch (const nonstd::bad_any_cast&) {
            threw = true;
        }
        VP_CHECK(threw == (b == nullptr), "any_cast " << (threw ? "throws" : "does not throw"));
    }
    void compare_any(const edsp::any& r, const std::any& m) {
        VP_CHECK(r.has_value() == m.has_value() && r.type() == m.type(), "has_value() or type()");
        compare_any_as<int>(r, m);
        compare_any_as<double>(r, m);
        compare_any_as<std::string>(r, m);
        compare_any_as<Val<0>>(r, m);
        compare_any_as<Val<1>>(r, m);
    }
    template <typename F>
    void some_type(Src& s, F&& f) {
        switch (s.draw(4)) {
            case 0: f(value<int>(s)); break;
            case 1: f(value<double>(s)); break;
            case 2: f(value<std::string>(s)); break;
            case 3: f(value<Val<0>>(s)); break;
            default: f(value<Val<1>>(s));
        }
    }
    void anys(Src& s, Ctx& c) {
        const auto before = Val<0>::alive() + Val<1>::alive();
        {
            edsp::any r[2];
            std::any m[2];
            const auto steps = s.size(1, 24);
            int filled       = 0;
            for (long k = 0; k < steps; ++k) {
                const auto i = s.draw(1), j = s.draw(1);
                c.describe([&](auto& o) { o << "[" << i << j; });
                switch (s.draw(8)) {
                    case 0: some_type(s, [&](const auto& v) { r[i] = v; m[i] = v; c.describe([&](auto& o) { o << " ="; put(o, v); o << "] "; }); }); ++filled; break;
                    case 1: some_type(s, [&](auto v) { m[i] = v; r[i] = std::move(v); c.describe([&](auto& o) { o << " =&&] "; }); }); ++filled; break;
                    case 2: some_type(s, [&](const auto& v) { using T = std::decay_t<decltype(v)>; r[i].template emplace<T>(v); m[i].template emplace<T>(v); c.describe([&](auto& o) { o << " emplace] "; }); }); ++filled; break;
                    case 3: r[i] = r[j]; m[i] = m[j]; c.describe([](auto& o) { o << " copy] "; }); break;
                    case 4:
                        if (i == j) break;
                        r[i] = std::move(r[j]), m[i] = std::move(m[j]);
                        r[j].reset(), m[j].reset();
                        c.describe([](auto& o) { o << " move] "; });
                        break;
                    case 5: {
                        using std::swap;
                        s.flip() ? r[i].swap(r[j]) : swap(r[i], r[j]);
                        m[i].swap(m[j]);
                        c.describe([](auto& o) { o << " swap] "; });
                        break;
                    }
                    case 6: r[i].reset(); m[i].reset(); c.describe([](auto& o) { o << " reset] "; }); break;
                    case 7: {
                        edsp::any a(r[i]), b(std::move(a));
                        compare_any(b, m[i]);
                        VP_CHECK(!a.has_value(), "an any that was moved from has a value");
                        some_type(s, [&](const auto& v) {
                            using T = std::decay_t<decltype(v)>;
                            edsp::any d(v), e(nonstd::in_place_type_t<T>(), v), f = nonstd::make_any<T>(v);
                            const std::any w(v);
                            compare_any(d, w), compare_any(e, w), compare_any(f, w);
                        });
                        c.describe([](auto& o) { o << " construct] "; });
                        break;
                    }
                    default:
                        if (auto* p = nonstd::any_cast<Val<1>>(&r[i])) {
                            const auto v = value<Val<1>>(s);
                            *p = v;
                            *std::any_cast<Val<1>>(&m[i]) = v;
                            VP_CHECK(nonstd::any_cast<const Val<1>&>(r[i]) == v && nonstd::any_cast<Val<1>>(edsp::any(r[i])) == v, "any_cast to a reference");
                            nonstd::any_cast<Val<1>&>(r[i]).text += "x";
                            std::any_cast<Val<1>&>(m[i]).text += "x";
                            c.describe([](auto& o) { o << " write] "; });
                        }
                }
                compare_any(r[0], m[0]);
                compare_any(r[1], m[1]);
            }
            c.nontrivial(filled >= 2);
        }
        VP_CHECK(Val<0>::alive() + Val<1>::alive() == before, "values were not destroyed (or twice)");
    }

    // ---------------------------------------------------------------- expected
    template <typename T, typename E>
    struct Model {
        bool good{true};
        T v{};
        E e{};
    };
    template <typename T, typename E>
    void compare_expected(const edsp::expected<T, E>& r, const Model<T, E>& m) {
        VP_CHECK(r.has_value() == m.good && static_cast<bool>(r) == m.good, "has_value() = " << r.has_value() << ", expected " << m.good);
        bool threw = false;
        try {
            VP_CHECK(r.value() == m.v && *r == m.v && *r.operator->() == m.v, "the value is another one");
        } catch (const nonstd::bad_expected_access<E>& x) {
            threw = true;
            VP_CHECK(x.error() == m.e, "the exception carries another error");
        }
        VP_CHECK(threw == !m.good, "value() " << (threw ? "throws" : "does not throw"));
        if (!m.good) VP_CHECK(r.error() == m.e && r.get_unexpected().value() == m.e, "the error is another one");
    }
    template <typename T, typename E>
    void expected_of(Src& s, Ctx& c) {
        using R           = edsp::expected<T, E>;
        const auto before = Val<0>::alive() + Val<1>::alive();
        {
            std::vector<R> r(2);
            std::vector<Model<T, E>> m(2);
            const auto steps = s.size(1, 24);
            bool good = false, bad = false;
            for (long k = 0; k < steps; ++k) {
                const auto i = s.draw(1), j = s.draw(1);
                const auto v = value<T>(s);
                const auto e = value<E>(s);
                c.describe([&](auto& o) { o << "[" << i << j << " "; put(o, v); o << " "; put(o, e); });
                switch (s.draw(9)) {
                    case 0: r[i] = v; m[i] = {true, v, {}}; c.describe([](auto& o) { o << " =v] "; }); break;
                    case 1: r[i] = edsp::make_unexpected(e); m[i] = {false, {}, e}; c.describe([](auto& o) { o << " =e] "; }); break;
                    case 2: r[i] = r[j]; m[i] = m[j]; c.describe([](auto& o) { o << " copy] "; }); break;
                    case 3:
                        if (i == j) break;
                        r[i] = std::move(r[j]);
                        m[i] = m[j];
                        VP_CHECK(r[j].has_value() == m[j].good, "moving from it changes whether it has a value");
                        r[j] = r[i];
                        c.describe([](auto& o) { o << " move] "; });
                        break;
                    case 4: r[i].emplace(v); m[i] = {true, v, {}}; c.describe([](auto& o) { o << " emplace] "; }); break;
                    case 5: {
                        using std::swap;
                        if (i == j) break;
                        s.flip() ? r[i].swap(r[j]) : swap(r[i], r[j]);
                        std::swap(m[i], m[j]);
                        c.describe([](auto& o) { o << " swap] "; });
                        break;
                    }
                    case 6: {
                        R a(r[i]);
                        compare_expected(a, m[i]);
                        R b(std::move(a));
                        compare_expected(b, m[i]);
                        R d(v), f(edsp::make_unexpected(e)), g(nonstd::in_place, v), h(nonstd::unexpect, e);
                        compare_expected(d, {true, v, {}}), compare_expected(g, {true, v, {}});
                        compare_expected(f, {false, {}, e}), compare_expected(h, {false, {}, e});
                        c.describe([](auto& o) { o << " construct] "; });
                        break;
                    }
                    case 7: VP_CHECK(r[i].value_or(v) == (m[i].good ? m[i].v : v) && R(r[i]).value_or(v) == (m[i].good ? m[i].v : v), "value_or()"); break;
                    case 8: // an assignment gives the object itself
                        (r[i] = r[j]) = v;
                        m[i] = {true, v, {}};
                        c.describe([](auto& o) { o << " (copy)=v] "; });
                        break;
                    default:
                        if (m[i].good) *r[i] = v, m[i].v = v;
                        else r[i].error() = e, m[i].e = e;
                        c.describe([](auto& o) { o << " write] "; });
                }
                for (int a = 0; a < 2; ++a) {
                    (m[a].good ? good : bad) = true;
                    compare_expected(r[a], m[a]);
                    VP_CHECK((r[a] == v) == (m[a].good && m[a].v == v) && (r[a] != v) == !(m[a].good && m[a].v == v), "comparison with a value");
                    const auto u = edsp::make_unexpected(e);
                    VP_CHECK((r[a] == u) == (!m[a].good && m[a].e == e) && (r[a] != u) == !(!m[a].good && m[a].e == e), "comparison with an error");
                    for (int b = 0; b < 2; ++b) {
                        const bool equal = m[a].good == m[b].good && (m[a].good ? m[a].v == m[b].v : m[a].e == m[b].e);
                        VP_CHECK((r[a] == r[b]) == equal && (r[a] != r[b]) == !equal, "comparison of " << a << " and " << b);
                    }
                }
            }
            c.nontrivial(good && bad);
        }
        VP_CHECK(Val<0>::alive() + Val<1>::alive() == before, "values were not destroyed (or twice)");
    }
    template <typename E>
    void expected_void(Src& s, Ctx& c) {
        using R           = edsp::expected<void, E>;
        const auto before = Val<1>::alive();
        {
            R r[2];
            bool good[2] = {true, true};
            E err[2]{};
            const auto steps = s.size(1, 20);
            bool mixed = false;
            for (long k = 0; k < steps; ++k) {
                const auto i = s.draw(1), j = s.draw(1);
                const auto e = value<E>(s);
                switch (s.draw(5)) {
                    case 0: r[i] = R(edsp::make_unexpected(e)); good[i] = false, err[i] = e; c.describe([&](auto& o) { o << "[" << i << " =e] "; }); break;
                    case 1: r[i] = R(); good[i] = true; c.describe([&](auto& o) { o << "[" << i << " =good] "; }); break;
                    case 2: r[i] = r[j]; good[i] = good[j], err[i] = err[j]; c.describe([&](auto& o) { o << "[" << i << j << " copy] "; }); break;
                    case 3:
                        if (i == j) break;
                        r[i].swap(r[j]);
                        std::swap(good[0], good[1]), std::swap(err[0], err[1]);
                        c.describe([&](auto& o) { o << "[" << i << j << " swap] "; });
                        break;
                    case 4: {
                        R a(r[i]), b(std::move(a));
                        VP_CHECK(b.has_value() == good[i] && (good[i] || b.error() == err[i]), "construction");
                        break;
                    }
                    default: if (!good[i]) r[i].error() = e, err[i] = e;
                }
                for (int a = 0; a < 2; ++a) {
                    VP_CHECK(r[a].has_value() == good[a] && static_cast<bool>(r[a]) == good[a], "has_value()");
                    bool threw = false;
                    try {
                        r[a].value();
                    } catch (const nonstd::bad_expected_access<E>& x) {
                        threw = x.error() == err[a];
                    }
                    VP_CHECK(threw == !good[a] && (good[a] || r[a].error() == err[a]), "value() or error()");
                }
                mixed = mixed || good[0] != good[1];
            }
            c.nontrivial(mixed);
        }
        VP_CHECK(Val<1>::alive() == before, "errors were not destroyed (or twice)");
    }

    // ---------------------------------------------------------------- span
    template <typename T>
    void spans(Src& s, Ctx& c) {
        using R      = edsp::span<T>;
        const auto n = len(s, 0, 40, 400);
        std::vector<T> x(n), other(s.draw(4));
        for (auto& v : x) v = static_cast<T>(s.range<int>(0, 5));
        for (auto& v : other) v = static_cast<T>(s.range<int>(0, 5));
        size_label(c, n);
        c.nontrivial(n >= 2);
        c.describe([&](auto& o) { o << "span of " << show(x); });
        Buf<T> b(x);
        R r(b.p, static_cast<std::ptrdiff_t>(n));
        std::vector<T> m = x;
        const auto check = [&](const char* what, const auto& got, std::size_t first, std::size_t count) {
            VP_CHECK(static_cast<std::size_t>(got.size()) == count && got.empty() == (count == 0) && (count == 0 || got.data() == b.p + first), what << ": " << got.size() << " elements at " << (got.data() - b.p) << ", expected " << count << " at " << first);
            VP_CHECK(static_cast<std::size_t>(got.size_bytes()) == count * sizeof(T), what << ": size_bytes() = " << got.size_bytes());
            VP_CHECK(std::equal(got.begin(), got.end(), m.begin() + static_cast<long>(first), m.begin() + static_cast<long>(first + count)), what << ": iteration");
            VP_CHECK(std::vector<T>(got.cbegin(), got.cend()) == std::vector<T>(m.begin() + static_cast<long>(first), m.begin() + static_cast<long>(first + count)), what << ": constant iteration");
            std::vector<T> back(m.begin() + static_cast<long>(first), m.begin() + static_cast<long>(first + count));
            std::reverse(back.begin(), back.end());
            VP_CHECK(std::vector<T>(got.rbegin(), got.rend()) == back && std::vector<T>(got.crbegin(), got.crend()) == back, what << ": iteration backwards");
            for (std::size_t i = 0; i < count; ++i) {
                const auto k = static_cast<std::ptrdiff_t>(i);
                VP_CHECK(got[k] == m[first + i] && got(k) == m[first + i], what << ": element " << i);
            }
        };
        check("span", r, 0, n);
        check("copy", R(r), 0, n);
        check("from iterators", R(b.p, b.p + n), 0, n);
        check("constant", edsp::span<const T>(r), 0, n);
        const auto a = s.draw(n), k = s.draw(n - a);
        const auto A = static_cast<std::ptrdiff_t>(a), K = static_cast<std::ptrdiff_t>(k);
        check("first", r.first(A), 0, a);
        check("last", r.last(A), n - a, a);
        check("subspan", r.subspan(A, K), a, k);
        check("subspan to the end", r.subspan(A), a, n - a);
        if (n >= 3) {
            check("first<2>", r.template first<2>(), 0, 2);
            check("last<2>", r.template last<2>(), n - 2, 2);
            check("subspan<1,2>", r.template subspan<1, 2>(), 1, 2);
        }
        { // writing through it
            auto part = r.subspan(A, K);
            for (std::size_t i = 0; i < k; ++i) {
                part[static_cast<std::ptrdiff_t>(i)] = static_cast<T>(7 + i % 5);
                m[a + i] = static_cast<T>(7 + i % 5);
            }
            check("written", r, 0, n);
        }
        Buf<T> ob(other);
        R o(ob.p, static_cast<std::ptrdiff_t>(other.size()));
        VP_CHECK((r == o) == (m == other) && (r != o) == (m != other) && (r < o) == (m < other) && (r <= o) == (m <= other) && (r > o) == (m > other) && (r >= o) == (m >= other), "comparison of spans");
        R p = r;
        p = o;
        VP_CHECK(p.data() == o.data() && p.size() == o.size(), "assignment of a span");
        const auto bytes = nonstd::as_bytes(r);
        VP_CHECK(static_cast<std::size_t>(bytes.size()) == n * sizeof(T) && (n == 0 || static_cast<const void*>(bytes.data()) == b.p), "as_bytes");
        std::vector<T> v(x);
        const R fromv(v);
        const edsp::span<const T> fromc(static_cast<const std::vector<T>&>(v));
        VP_CHECK(static_cast<std::size_t>(fromv.size()) == n && (n == 0 || fromv.data() == v.data()) && static_cast<std::size_t>(fromc.size()) == n && (n == 0 || fromc.data() == v.data()), "span of a vector");
    }
} // namespace

VP_FAMILY("string view", 60000, 1000000, "two texts, positions and every operation, in three character types; non-trivial: more than one character and a needle") {
    switch (s.draw(2)) {
        case 0: view<char>(s, c); break;
        case 1: view<wchar_t>(s, c); break;
        default: view<char16_t>(s, c);
    }
}
VP_FAMILY("string view output", 5000, 50000, "a text in a field; non-trivial: padded") { streamed(s, c); }
VP_FAMILY("optional", 20000, 400000, "a history on three optionals; non-trivial: two different values at a time") {
    switch (s.draw(2)) {
        case 0: optional_of<int>(s, c); break;
        case 1: optional_of<std::string>(s, c); break;
        default: optional_of<Val<0>>(s, c);
    }
}
VP_FAMILY("variant", 15000, 300000, "a history on two variants of sixteen types; non-trivial: three types or more") { variants(s, c); }
VP_FAMILY("any", 20000, 400000, "a history on two anys; non-trivial: two values stored") { anys(s, c); }
VP_FAMILY("expected", 20000, 400000, "a history on two expecteds; non-trivial: a value and an error") {
    switch (s.draw(3)) {
        case 0: expected_of<int, double>(s, c); break;
        case 1: expected_of<std::string, int>(s, c); break;
        case 2: expected_void<Val<1>>(s, c); break;
        default: expected_of<Val<0>, Val<1>>(s, c);
    }
}
VP_FAMILY("span", 20000, 400000, "a span, its parts and writes; non-trivial: two elements or more") {
    switch (s.draw(2)) {
        case 0: spans<int>(s, c); break;
        case 1: spans<double>(s, c); break;
        default: spans<char>(s, c);
    }
}
