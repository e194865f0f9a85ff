// C34: ranges of any kind. The same elements behind other iterators have to give what contiguous ones give.
#pragma once
#include "../../lib/common.hpp"
#include <complex>
#include <forward_list>
#include <functional>
#include <iterator>
#include <map>

namespace c34 {
    using vp::Src;
    using V = std::vector<double>;
    inline void put(V& v, double d) {
        v.push_back(d);
    }
    template <typename T>
    void put(V& v, const std::complex<T>& d) {
        v.push_back(d.real());
        v.push_back(d.imag());
    }
    template <typename C, typename = decltype(std::declval<const C&>().begin())>
    void put(V& v, const C& c) {
        for (const auto& e : c) {
            put(v, e);
        }
    }

    // a random access iterator over every Step-th element, as of one channel of interleaved frames
    template <typename E, int Step>
    struct Stride {
        using iterator_category = std::random_access_iterator_tag;
        using value_type        = std::remove_const_t<E>;
        using difference_type   = std::ptrdiff_t;
        using pointer           = E*;
        using reference         = E&;
        E* base{nullptr};
        difference_type at{0};
        reference operator*() const { return base[at * Step]; }
        pointer operator->() const { return base + at * Step; }
        reference operator[](difference_type i) const { return base[(at + i) * Step]; }
        Stride& operator++() { ++at; return *this; }
        Stride operator++(int) { auto o = *this; ++at; return o; }
        Stride& operator--() { --at; return *this; }
        Stride operator--(int) { auto o = *this; --at; return o; }
        Stride& operator+=(difference_type i) { at += i; return *this; }
        Stride& operator-=(difference_type i) { at -= i; return *this; }
        friend Stride operator+(Stride l, difference_type i) { return l += i; }
        friend Stride operator+(difference_type i, Stride l) { return l += i; }
        friend Stride operator-(Stride l, difference_type i) { return l -= i; }
        friend difference_type operator-(const Stride& l, const Stride& r) { return l.at - r.at; }
        friend bool operator==(const Stride& l, const Stride& r) { return l.at == r.at; }
        friend bool operator!=(const Stride& l, const Stride& r) { return l.at != r.at; }
        friend bool operator<(const Stride& l, const Stride& r) { return l.at < r.at; }
        friend bool operator>(const Stride& l, const Stride& r) { return l.at > r.at; }
        friend bool operator<=(const Stride& l, const Stride& r) { return l.at <= r.at; }
        friend bool operator>=(const Stride& l, const Stride& r) { return l.at >= r.at; }
    };

    // containers: made of elements to read, or of a number of elements to write; untouched() looks after what is between them
    struct Array {
        static constexpr const char* name = "array";
        template <typename E>
        struct of {
            vp::Buf<E> b;
            explicit of(const std::vector<E>& v) : b(v) {}
            const E* begin() const { return b.p; }
            const E* end() const { return b.p + b.size(); }
            E* begin() { return b.p; }
            E* end() { return b.p + b.size(); }
            std::size_t size() const { return b.size(); }
            bool untouched() const { return true; }
        };
    };
    template <template <typename...> class C>
    struct Std {
        template <typename E>
        struct of {
            C<E> b;
            explicit of(const std::vector<E>& v) : b(v.begin(), v.end()) {}
            auto begin() const { return b.cbegin(); }
            auto end() const { return b.cend(); }
            auto begin() { return b.begin(); }
            auto end() { return b.end(); }
            std::size_t size() const { return static_cast<std::size_t>(std::distance(b.cbegin(), b.cend())); }
            bool untouched() const { return true; }
        };
    };
    struct List : Std<std::list> {
        static constexpr const char* name = "list";
    };
    struct Forward : Std<std::forward_list> {
        static constexpr const char* name = "forward list";
    };
    struct Deque : Std<std::deque> {
        static constexpr const char* name = "deque";
    };
    struct Reverse {
        static constexpr const char* name = "reverse";
        template <typename E>
        struct of {
            vp::Buf<E> b;
            explicit of(std::vector<E> v) : b(std::vector<E>(v.rbegin(), v.rend())) {}
            auto begin() const { return std::reverse_iterator<const E*>(b.p + b.size()); }
            auto end() const { return std::reverse_iterator<const E*>(b.p); }
            auto begin() { return std::reverse_iterator<E*>(b.p + b.size()); }
            auto end() { return std::reverse_iterator<E*>(b.p); }
            std::size_t size() const { return b.size(); }
            bool untouched() const { return true; }
        };
    };
    struct Channel {
        static constexpr const char* name = "every third";
        template <typename E>
        struct of {
            static constexpr int step = 3;
            std::vector<E> b;
            explicit of(const std::vector<E>& v) : b(v.size() * step, E(7654321)) {
                for (std::size_t i = 0; i < v.size(); ++i) {
                    b[i * step] = v[i];
                }
            }
            auto begin() const { return Stride<const E, step>{b.data(), 0}; }
            auto end() const { return Stride<const E, step>{b.data(), static_cast<std::ptrdiff_t>(size())}; }
            auto begin() { return Stride<E, step>{b.data(), 0}; }
            auto end() { return Stride<E, step>{b.data(), static_cast<std::ptrdiff_t>(size())}; }
            std::size_t size() const { return b.size() / step; }
            bool untouched() const {
                for (std::size_t i = 0; i < b.size(); ++i) {
                    if (i % step && b[i] != E(7654321)) {
                        return false;
                    }
                }
                return true;
            }
        };
    };

    // elements and parameters of one case
    template <typename T>
    struct Case {
        long n;
        std::vector<T> a, b, pos, sorted;
        std::vector<std::complex<T>> z;
        T value, factor;
        int k;
    };

    // runs the operation with elements of one kind read and another written
    template <typename T>
    struct Op {
        const char* name;
        long least; // fewest elements
        std::vector<std::pair<const char*, std::function<void(const Case<T>&, V&)>>> kinds; // the first is the reference
    };
    template <typename T>
    std::map<std::string, std::vector<Op<T>>>& ops() {
        static std::map<std::string, std::vector<Op<T>>> o;
        return o;
    }
    template <typename Body, typename T>
    void add(const char* group, const char* name, long least) {
        Op<T> o{name, least, {}};
        o.kinds.emplace_back("arrays", [](const Case<T>& c, V& v) { Body::template run<Array, Array, T>(c, v); });
#ifndef VP_RANDOM_ACCESS_ONLY // else something in this unit does not take any less
        o.kinds.emplace_back("forward lists", [](const Case<T>& c, V& v) { Body::template run<Forward, Forward, T>(c, v); });
        o.kinds.emplace_back("list to array", [](const Case<T>& c, V& v) { Body::template run<List, Array, T>(c, v); });
        o.kinds.emplace_back("every third to list", [](const Case<T>& c, V& v) { Body::template run<Channel, List, T>(c, v); });
#else
        o.kinds.emplace_back("deque to array (random access only)", [](const Case<T>& c, V& v) { Body::template run<Deque, Array, T>(c, v); });
        o.kinds.emplace_back("every third to deque (random access only)", [](const Case<T>& c, V& v) { Body::template run<Channel, Deque, T>(c, v); });
#endif
        o.kinds.emplace_back("reverse to every third", [](const Case<T>& c, V& v) { Body::template run<Reverse, Channel, T>(c, v); });
        ops<T>()[group].push_back(o);
    }
    inline void intact(bool ok) {
        if (!ok) {
            VP_FAIL("wrote between the elements of the destination");
        }
    }
} // namespace c34

// In the body: x, y (any values), pos (positive), srt (ascending) and z (complex) are to be read, o(size) makes something to write.
#define C34_OP_LEAST(group, id, least, ...)                                                                            \
    namespace {                                                                                                        \
        struct VP_CAT(op_, id) {                                                                                       \
            template <typename In, typename Out, typename T>                                                           \
            static void run(const c34::Case<T>& c, c34::V& v) {                                                        \
                const typename In::template of<T> x(c.a), y(c.b), pos(c.pos), srt(c.sorted);                           \
                const typename In::template of<std::complex<T>> z(c.z);                                                \
                const long n = c.n;                                                                                    \
                const auto o  = [](long size) { return typename Out::template of<T>(std::vector<T>(static_cast<std::size_t>(size))); }; \
                const auto oc = [](long size) { return typename Out::template of<std::complex<T>>(std::vector<std::complex<T>>(static_cast<std::size_t>(size))); }; \
                const auto done = [&v](auto& d) { c34::intact(d.untouched()); c34::put(v, d); };                       \
                (void)n; (void)o; (void)oc; (void)done;                                                                \
                __VA_ARGS__                                                                                            \
            }                                                                                                          \
        };                                                                                                             \
        const bool VP_CAT(added_, id) = (c34::add<VP_CAT(op_, id), float>(group, #id, least), c34::add<VP_CAT(op_, id), double>(group, #id, least), true); \
    }
#define C34_OP(group, id, ...) C34_OP_LEAST(group, id, 2, __VA_ARGS__)
#define C34_OUT(group, id, call) C34_OP(group, id, auto d = o(n); call; done(d);)
#define C34_VAL(group, id, call) C34_OP(group, id, c34::put(v, static_cast<double>(call));)
