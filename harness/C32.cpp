// C32: the generic helpers of edsp::meta over generated containers, pointers and conditions
#include "common.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <utility>
#include <edsp/core/logger.hpp>
#include <edsp/meta/advance.hpp>
#include <edsp/meta/cast.hpp>
#include <edsp/meta/contains.hpp>
#include <edsp/meta/data.hpp>
#include <edsp/meta/empty.hpp>
#include <edsp/meta/ensure.hpp>
#include <edsp/meta/equal.hpp>
#include <edsp/meta/expects.hpp>
#include <edsp/meta/is_char.hpp>
#include <edsp/meta/is_iterator.hpp>
#include <edsp/meta/is_null.hpp>
#include <edsp/meta/is_signed.hpp>
#include <edsp/meta/is_unsigned.hpp>
#include <edsp/meta/iterator.hpp>
#include <edsp/meta/size.hpp>
#include <edsp/meta/type_traits.hpp>
#include <edsp/meta/unused.hpp>
using namespace vp;
namespace em = edsp::meta;

namespace {
    template <typename T>
    T element(Src& s) {
        if constexpr (std::is_same<T, std::string>::value) {
            return std::string(s.draw(3), static_cast<char>('a' + s.draw(1)));
        } else if constexpr (std::is_floating_point<T>::value) {
            return s.one_in(6) ? s.pick({T(0), -T(0), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()}) : static_cast<T>(s.range<int>(-4, 4)) / 2;
        } else {
            return static_cast<T>(s.range<int>(0, 5));
        }
    }

    template <typename C, typename T>
    void iteration(Src& s, C& box, const std::vector<T>& m, const T& wanted) {
        const C& fixed = box;
        VP_CHECK(em::empty(box) == m.empty() && em::empty(fixed) == m.empty(), "empty() of " << m.size() << " elements");
        const bool there = std::count(m.begin(), m.end(), wanted) > 0;
        VP_CHECK(em::contains(box.begin(), box.end(), wanted) == there, "contains() is " << !there);
        const auto a = s.draw(m.size()), b = a + s.draw(m.size() - a);
        VP_CHECK(em::contains(std::next(fixed.begin(), static_cast<long>(a)), std::next(fixed.begin(), static_cast<long>(b)), wanted)
                     == (std::count(m.begin() + static_cast<long>(a), m.begin() + static_cast<long>(b), wanted) > 0),
                 "contains() of part " << a << ".." << b);
        const auto first = box.begin();
        auto it          = em::advance(first, a);
        VP_CHECK(it == std::next(box.begin(), static_cast<long>(a)) && first == box.begin() && (a == m.size() || *it == m[a]), "advance() by " << a);
        it = em::advance(it, static_cast<int>(b - a));
        VP_CHECK(it == std::next(box.begin(), static_cast<long>(b)), "advance() by " << b - a << " more");
        using It = std::remove_cv_t<decltype(first)>;
        if constexpr (std::is_base_of<std::bidirectional_iterator_tag, typename std::iterator_traits<It>::iterator_category>::value) {
            VP_CHECK(em::advance(it, -static_cast<int>(b)) == box.begin(), "advance() back by " << b);
        }
    }
    template <typename C, typename T>
    void sized(C& box, const std::vector<T>& m) {
        const C& fixed = box;
        VP_CHECK(em::size(box) == m.size() && em::size(fixed) == m.size(), "size() is " << em::size(box) << ", expected " << m.size());
    }
    template <typename C, typename T>
    void contiguous(C& box, const std::vector<T>& m) {
        const C& fixed = box;
        auto* p        = em::data(box);
        const T* q     = em::data(fixed);
        VP_CHECK(p == q && em::data(p) == p && em::data(q) == q, "data() of a constant and of the container differ");
        for (std::size_t i = 0; i < m.size(); ++i) {
            VP_CHECK(p[i] == m[i], "data()[" << i << "]");
        }
    }
    template <typename T>
    void containers(Src& s, Ctx& c) {
        std::vector<T> m(static_cast<std::size_t>(s.size(0, 12)));
        for (auto& x : m) {
            x = element<T>(s);
        }
        const T wanted = element<T>(s);
        c.nontrivial(m.size() > 1);
        c.describe([&](auto& o) {
            o << m.size() << " elements:";
            for (const auto& x : m) o << " " << x;
            o << ", looking for " << wanted;
        });
        switch (s.draw(7)) {
            case 0: { std::vector<T> b(m); iteration(s, b, m, wanted), sized(b, m), contiguous(b, m); break; }
            case 1: { std::deque<T> b(m.begin(), m.end()); iteration(s, b, m, wanted), sized(b, m); break; }
            case 2: { std::list<T> b(m.begin(), m.end()); iteration(s, b, m, wanted), sized(b, m); break; }
            case 3: { std::forward_list<T> b(m.begin(), m.end()); iteration(s, b, m, wanted); break; }
            case 4: { std::multiset<T> b(m.begin(), m.end()); const std::vector<T> o(b.begin(), b.end()); const auto& k = b; iteration(s, k, o, wanted), sized(b, m); break; }
            case 5: {
                m.resize(5, wanted);
                T b[5];
                std::copy(m.begin(), m.end(), b);
                const T(&k)[5] = b;
                VP_CHECK(em::size(b) == 5 && em::size(k) == 5 && !em::empty(b) && !em::empty(k), "size() or empty() of an array");
                VP_CHECK(em::data(b) == &b[0] && em::data(k) == &b[0], "data() of an array");
                VP_CHECK(em::contains(b, b + 5, wanted) == (std::count(b, b + 5, wanted) > 0), "contains() of an array");
                VP_CHECK(em::advance(b, 3) == b + 3 && em::advance(b + 4, -2) == b + 2, "advance() of a pointer");
                VP_CHECK(!em::is_null(b), "is_null() of an array");
                break;
            }
            case 6: {
                m.resize(4, wanted);
                std::array<T, 4> b{{m[0], m[1], m[2], m[3]}};
                iteration(s, b, m, wanted), sized(b, m), contiguous(b, m);
                const std::array<T, 0> none{};
                VP_CHECK(em::empty(none) && em::size(none) == 0, "an array of no elements");
                break;
            }
            default: {
                const auto list = [&](std::initializer_list<T> il) {
                    VP_CHECK(em::empty(il) == (il.size() == 0) && em::size(il) == il.size() && em::data(il) == il.begin() && !em::is_null(il), "an initializer list of " << il.size());
                    VP_CHECK(em::contains(il.begin(), il.end(), wanted) == (std::count(il.begin(), il.end(), wanted) > 0), "contains() of an initializer list");
                };
                m.resize(3, wanted);
                list({}), list({m[0]}), list({m[0], m[1], m[2]});
            }
        }
    }

    template <typename T>
    void scalars(Src& s, Ctx& c) {
        const T a = static_cast<T>(s.real(-100, 100));
        T b       = s.one_in(3) ? a : static_cast<T>(s.real(-100, 100));
        if (s.flip()) { // next to it
            const int steps = s.range<int>(0, 6);
            b = a;
            for (int i = 0; i < steps; ++i) b = std::nextafter(b, static_cast<T>(s.flip() ? 1e9 : -1e9));
        } else if (s.one_in(3)) {
            b = static_cast<T>(a + (s.flip() ? 1 : -1) * std::numeric_limits<T>::epsilon() * s.uniform(0, 2));
        }
        c.describe([&](auto& o) { o << tname<T>() << " " << a << " and " << b; });
        c.nontrivial(a != b);
        const bool want = a == b || std::abs(a - b) < std::numeric_limits<T>::epsilon();
        VP_CHECK(em::equal(a, b) == want && em::equal(b, a) == want, "equal() is " << !want);
        VP_CHECK(em::sc<int>(a) == static_cast<int>(a) && em::sc<float>(a) == static_cast<float>(a), "sc()");
    }

    struct Capture {
        std::ostringstream out;
        std::streambuf* old;
        Capture() : old(std::cout.rdbuf(out.rdbuf())) {}
        ~Capture() { std::cout.rdbuf(old); }
    };
    template <typename T>
    void traits_of() {
        VP_CHECK(em::is_signed<T>::value == std::is_signed<T>::value && em::is_signed_v<T> == std::is_signed<T>::value, "is_signed of " << typeid(T).name());
        VP_CHECK(em::is_unsigned<T>::value == std::is_unsigned<T>::value && em::is_unsigned_v<T> == std::is_unsigned<T>::value, "is_unsigned of " << typeid(T).name());
        const bool character = std::is_same<T, char>::value || std::is_same<T, wchar_t>::value;
        VP_CHECK(em::is_char<T>::value == character && em::is_char_v<T> == character, "is_char of " << typeid(T).name());
    }
    template <typename T, typename Category>
    void iterator_of() {
        VP_CHECK(em::is_iterator<T>::value && em::is_iterator_v<T>, "is_iterator of " << typeid(T).name());
        VP_CHECK(em::is_input_iterator_v<T> == (std::is_same<Category, std::input_iterator_tag>::value), "is_input_iterator of " << typeid(T).name());
        VP_CHECK(em::is_output_iterator_v<T> == (std::is_same<Category, std::output_iterator_tag>::value), "is_output_iterator of " << typeid(T).name());
        VP_CHECK(em::is_forward_iterator_v<T> == (std::is_same<Category, std::forward_iterator_tag>::value), "is_forward_iterator of " << typeid(T).name());
        VP_CHECK(em::is_bidirectional_iterator_v<T> == (std::is_same<Category, std::bidirectional_iterator_tag>::value), "is_bidirectional_iterator of " << typeid(T).name());
        VP_CHECK(em::is_random_access_iterator_v<T> == (std::is_same<Category, std::random_access_iterator_tag>::value), "is_random_access_iterator of " << typeid(T).name());
        VP_CHECK((std::is_same<em::value_type_t<T>, typename std::iterator_traits<T>::value_type>::value) && (std::is_same<em::diff_type_t<T>, typename std::iterator_traits<T>::difference_type>::value), "value or difference type of " << typeid(T).name());
    }
    template <typename T>
    void not_iterator() {
        VP_CHECK(!em::is_iterator<T>::value && !em::is_iterator_v<T>, "is_iterator of " << typeid(T).name());
    }
    enum class Small : short { one };
    struct Plain {};
} // namespace

VP_FAMILY("containers", 200000, 4000000, "elements of three types in eight kinds of container; non-trivial: two elements or more") {
    switch (s.draw(2)) {
        case 0: containers<int>(s, c); break;
        case 1: containers<double>(s, c); break;
        default: containers<std::string>(s, c);
    }
}
VP_FAMILY("scalars", 200000, 4000000, "pairs of reals that are equal, neighbours or around epsilon apart; non-trivial: not identical") { VP_DISPATCH(scalars); }

VP_FAMILY("pointers", 100000, 1000000, "null, empty and filled texts and owners; non-trivial: a pointer that is not null") {
    const auto kind = s.draw(4);
    const auto text = std::string(s.draw(4), s.flip() ? '\0' : static_cast<char>('a' + s.draw(25)));
    const bool some = s.flip();
    c.describe([&](auto& o) { o << "kind " << kind << ", " << text.size() << " characters " << (text.empty() ? -1 : text[0]) << (some ? ", not null" : ", null"); });
    c.nontrivial(some);
    switch (kind) {
        case 0: {
            const char* p = some ? text.c_str() : nullptr;
            const bool want = !some || *p == 0;
            VP_CHECK(em::is_null(p) == want, "is_null() of a text is " << !want);
            break;
        }
        case 1: {
            double d         = 0;
            double* p        = some ? &d : nullptr;
            const double* q  = p;
            VP_CHECK(em::is_null(p) == !some && em::is_null(q) == !some, "is_null() of a pointer");
            break;
        }
        case 2: {
            std::unique_ptr<int> p(some ? new int(0) : nullptr);
            VP_CHECK(em::is_null(p) == !some && static_cast<bool>(p) == some, "is_null() of a unique pointer");
            break;
        }
        case 3: {
            std::shared_ptr<int> p(some ? new int(0) : nullptr);
            VP_CHECK(em::is_null(p) == !some && p.use_count() == 1, "is_null() of a shared pointer");
            break;
        }
        default: {
            void* p = some ? &c : nullptr;
            VP_CHECK(em::is_null(p) == !some, "is_null() of a pointer to void");
        }
    }
}

VP_FAMILY("contracts", 60000, 600000, "conditions, messages of any text; non-trivial: a condition that does not hold") {
    const auto level = edsp::logger::default_level();
    edsp::logger::set_default_level(edsp::logger::trace);
    std::string expected_text;
    std::string printed;
    bool broken = false;
    {
        Capture cap;
        const auto steps = s.size(1, 6);
        for (long k = 0; k < steps; ++k) {
            const bool holds = s.flip(), ensure = s.flip(), message = s.draw(3) > 0;
            std::string text(s.draw(20), 'x');
            for (auto& ch : text) ch = static_cast<char>('a' + s.draw(25));
            text = "<" + std::to_string(k) + text + ">";
            Buf<char> exact(std::vector<char>(text.begin(), text.end())); // not terminated
            c.describe([&](auto& o) { o << (ensure ? "ensure(" : "expects(") << holds << (message ? "," + text : "") << ") "; });
            const edsp::string_view v(exact.p, text.size());
            if (message) {
                ensure ? em::ensure(holds, v) : em::expects(holds, v);
            } else {
                ensure ? em::ensure(holds) : em::expects(holds);
            }
            if (message && !holds) {
                expected_text += text;
                broken = true;
            }
        }
        printed = cap.out.str();
    }
    edsp::logger::set_default_level(level);
    c.nontrivial(broken);
    std::string seen;
    bool inside = false;
    for (const char ch : printed) { // what stands between angle brackets, colours and prefixes left out
        inside = inside || ch == '<';
        if (inside) seen += ch;
        if (ch == '>') inside = false;
    }
    VP_CHECK(seen == expected_text, "the log says " << seen << ", expected " << expected_text);
    VP_CHECK(broken || printed.empty(), "something was logged though every condition holds: " << printed);
}

VP_FAMILY("traits", 20, 200, "every type in the table, enumerated in each case; non-trivial: always") {
    c.nontrivial();
    const auto which = s.draw(3);
    c.describe([&](auto& o) { o << "table " << which; });
    if (which == 0) {
        traits_of<char>(), traits_of<signed char>(), traits_of<unsigned char>(), traits_of<wchar_t>(), traits_of<char16_t>(), traits_of<short>(), traits_of<unsigned short>(), traits_of<int>(), traits_of<unsigned>();
        traits_of<long>(), traits_of<unsigned long>(), traits_of<long long>(), traits_of<unsigned long long>(), traits_of<float>(), traits_of<double>(), traits_of<long double>(), traits_of<bool>();
        traits_of<int*>(), traits_of<Small>(), traits_of<Plain>(), traits_of<std::string>(), traits_of<std::complex<double>>();
    } else if (which == 1) {
        iterator_of<int*, std::random_access_iterator_tag>(), iterator_of<const std::string*, std::random_access_iterator_tag>();
        iterator_of<std::vector<int>::iterator, std::random_access_iterator_tag>(), iterator_of<std::vector<bool>::const_iterator, std::random_access_iterator_tag>(), iterator_of<std::deque<int>::reverse_iterator, std::random_access_iterator_tag>();
        iterator_of<std::list<int>::iterator, std::bidirectional_iterator_tag>(), iterator_of<std::set<int>::const_iterator, std::bidirectional_iterator_tag>();
        iterator_of<std::forward_list<int>::iterator, std::forward_iterator_tag>();
        iterator_of<std::istream_iterator<int>, std::input_iterator_tag>(), iterator_of<std::istreambuf_iterator<char>, std::input_iterator_tag>();
        iterator_of<std::back_insert_iterator<std::vector<int>>, std::output_iterator_tag>(), iterator_of<std::ostream_iterator<int>, std::output_iterator_tag>();
    } else if (which == 2) {
        not_iterator<int>(), not_iterator<double>(), not_iterator<std::string>(), not_iterator<std::vector<int>>(), not_iterator<Plain>(), not_iterator<Small>(), not_iterator<std::shared_ptr<int>>();
    } else {
        VP_CHECK((std::is_same<em::remove_cv_t<const volatile int>, int>::value) && (std::is_same<em::remove_const_t<const int>, int>::value) && (std::is_same<em::remove_volatile_t<volatile int>, int>::value), "remove_cv_t and its parts");
        VP_CHECK((std::is_same<em::add_cv_t<int>, const volatile int>::value) && (std::is_same<em::add_const_t<int>, const int>::value) && (std::is_same<em::add_volatile_t<int>, volatile int>::value), "add_cv_t and its parts");
        VP_CHECK((std::is_same<em::remove_reference_t<int&&>, int>::value) && (std::is_same<em::add_lvalue_reference_t<int>, int&>::value) && (std::is_same<em::add_rvalue_reference_t<int>, int&&>::value), "references");
        VP_CHECK((std::is_same<em::remove_pointer_t<int*>, int>::value) && (std::is_same<em::add_pointer_t<int>, int*>::value) && (std::is_same<em::make_signed_t<unsigned>, int>::value) && (std::is_same<em::make_unsigned_t<int>, unsigned>::value), "pointers and signs");
        VP_CHECK((std::is_same<em::remove_extent_t<int[2][3]>, int[3]>::value) && (std::is_same<em::remove_all_extents_t<int[2][3]>, int>::value) && (std::is_same<em::decay_t<const int&>, int>::value), "extents and decay");
        VP_CHECK((std::is_same<em::enable_if_t<true, int>, int>::value) && (std::is_same<em::conditional_t<true, int, char>, int>::value) && (std::is_same<em::conditional_t<false, int, char>, char>::value), "conditions");
        VP_CHECK((std::is_same<em::common_type_t<int, double, char>, double>::value) && (std::is_same<em::underlying_type_t<Small>, short>::value), "common and underlying types");
    }
}
