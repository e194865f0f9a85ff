// C24: string helpers on any bytes
#include "common.hpp"
#include <forward_list>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
using namespace vp;
namespace es = edsp::string;

namespace {
    template <typename S>
    std::string shown(const S& s) {
        std::ostringstream o;
        o << '"';
        for (auto ch : s) {
            const auto u = static_cast<unsigned>(static_cast<typename std::make_unsigned<std::decay_t<decltype(ch)>>::type>(ch));
            if (u >= 32 && u < 127) o << static_cast<char>(u);
            else o << "\\x" << std::hex << u << std::dec << ";";
        }
        o << '"';
        return o.str();
    }
    bool space(unsigned u) { return u == ' ' || (u >= 9 && u <= 13); }

    template <typename C>
    C character(Src& s, C delimiter, bool ascii) {
        static const char blanks[] = " \t\n\v\f\r";
        switch (s.draw(5)) {
            case 0: return delimiter;
            case 1: return static_cast<C>(blanks[s.draw(5)]);
            case 2: return static_cast<C>(s.flip() ? s.range<int>('A', 'Z') : s.range<int>('a', 'z'));
            case 3: return static_cast<C>(s.flip() ? 0 : s.range<int>(0, 127));
            case 4: // next to the ends of the letters and of the blanks
            {
                static const int near[] = {8, 9, 13, 14, 31, 32, 33, 64, 65, 90, 91, 96, 97, 122, 123, 127};
                return static_cast<C>(near[s.draw(15)]);
            }
            default: return static_cast<C>(ascii ? s.range<int>(0, 127) : s.range<int>(0, 255));
        }
    }
    template <typename C>
    std::basic_string<C> text(Src& s, C delimiter, bool ascii = false) {
        std::basic_string<C> r(len(s, 0, 60, 3000), C(0));
        for (auto& x : r) x = character<C>(s, delimiter, ascii);
        return r;
    }

    template <typename C>
    std::vector<std::basic_string<C>> pieces(const std::basic_string<C>& x, C d) {
        std::vector<std::basic_string<C>> r;
        std::basic_string<C> cur;
        for (auto ch : x) {
            if (ch == d) {
                if (!cur.empty()) r.push_back(cur);
                cur.clear();
            } else {
                cur += ch;
            }
        }
        if (!cur.empty()) r.push_back(cur);
        return r;
    }

    template <typename C>
    void split_join(Src& s, Ctx& c) {
        const C d = s.one_in(3) ? C(' ') : s.one_in(4) ? C(0) : character<C>(s, C(','), sizeof(C) > 1);
        const auto x = text<C>(s, d);
        size_label(c, x.size());
        c.describe([&](auto& o) { o << shown(x) << " at " << shown(std::basic_string<C>(1, d)); });
        const auto expected = pieces(x, d);
        std::vector<std::basic_string<C>> got;
        if (d == C(' ') && s.flip()) {
            es::split(x, std::back_inserter(got));
        } else {
            es::split(x, std::back_inserter(got), d);
        }
        VP_CHECK(got.size() == expected.size(), "split gives " << got.size() << " pieces, expected " << expected.size());
        for (std::size_t i = 0; i < got.size(); ++i) {
            VP_CHECK(got[i] == expected[i], "piece " << i << " is " << shown(got[i]) << ", expected " << shown(expected[i]));
        }
        if (expected.size() > 1) c.nontrivial();
        // into a range that holds exactly the pieces
        std::vector<std::basic_string<C>> fixed(expected.size());
        es::split(x, fixed.begin(), d);
        VP_CHECK(fixed == expected, "split into a range of the right size gives something else");
        // joining
        std::basic_string<C> joined(s.flip() ? 5 : 0, C('#'));
        std::basic_string<C> want;
        for (std::size_t i = 0; i < expected.size(); ++i) {
            if (i) want += d;
            want += expected[i];
        }
        if (d == C(' ') && s.flip()) {
            es::join(got.begin(), got.end(), joined);
        } else if (s.flip()) {
            es::join(got.begin(), got.end(), joined, d);
        } else {
            const std::list<std::basic_string<C>> l(got.begin(), got.end());
            es::join(l.begin(), l.end(), joined, d);
        }
        VP_CHECK(joined == want, "join gives " << shown(joined) << ", expected " << shown(want));
        std::vector<std::basic_string<C>> back;
        es::split(joined, std::back_inserter(back), d);
        VP_CHECK(back == got, "splitting the joined pieces gives other pieces");
        // pieces that are empty or contain the separator are joined as they are
        std::vector<std::basic_string<C>> any(s.draw(4));
        for (auto& p : any) p = s.one_in(3) ? std::basic_string<C>() : text<C>(s, d).substr(0, 10);
        want.clear();
        for (std::size_t i = 0; i < any.size(); ++i) {
            if (i) want += d;
            want += any[i];
        }
        es::join(any.begin(), any.end(), joined, d);
        VP_CHECK(joined == want, "join of " << any.size() << " arbitrary pieces gives " << shown(joined) << ", expected " << shown(want));
    }

    template <typename S>
    S convert(const std::string& x) { return S(x.begin(), x.end()); }

    template <typename S>
    void trims(Src& s, Ctx& c, const std::string& x) {
        std::size_t a = 0, b = x.size();
        while (a < b && space(static_cast<unsigned char>(x[a]))) ++a;
        while (b > a && space(static_cast<unsigned char>(x[b - 1]))) --b;
        const auto left = convert<S>(x.substr(a)), right = convert<S>(x.substr(0, b > a ? b : 0)), both = convert<S>(x.substr(a, b - a));
        // of blanks only, everything is trimmed from the right as well
        auto l = convert<S>(x), r = convert<S>(x), t = convert<S>(x);
        es::ltrim(l);
        es::rtrim(r);
        es::trim(t);
        VP_CHECK(l == left, "ltrim gives " << shown(l) << ", expected " << shown(left));
        VP_CHECK(r == right, "rtrim gives " << shown(r) << ", expected " << shown(right));
        VP_CHECK(t == both, "trim gives " << shown(t) << ", expected " << shown(both));
        auto again = t;
        es::trim(again);
        VP_CHECK(again == t, "trim is not idempotent");
        es::rtrim(l);
        VP_CHECK(l == t, "ltrim then rtrim differ from trim");
        if (a > 0 && b < x.size() && a < b) c.nontrivial();
        c.label(a == x.size() ? "blank" : a > 0 && b < x.size() ? "both sides" : a > 0 || b < x.size() ? "one side" : "nothing to trim");
    }
    void trimming(Src& s, Ctx& c) {
        static const char blanks[] = " \t\n\v\f\r";
        std::string x;
        for (auto n = s.draw(4); n > 0; --n) x += blanks[s.draw(5)];
        const auto core = s.one_in(8) ? std::string() : text<char>(s, ' ');
        x += core;
        for (auto n = s.draw(4); n > 0; --n) x += blanks[s.draw(5)];
        c.describe([&](auto& o) { o << shown(x); });
        trims<std::string>(s, c, x);
        trims<std::vector<char>>(s, c, x);
        trims<std::list<char>>(s, c, x);
        bool ascii = true;
        for (char ch : x) ascii &= static_cast<unsigned char>(ch) < 128;
        if (ascii) trims<std::wstring>(s, c, x);
    }

    void letters(Src& s, Ctx& c) {
        const auto x = text<char>(s, 'q');
        std::string low = x, up = x;
        for (auto& ch : low) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch - 'A' + 'a');
        for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 'a' + 'A');
        size_label(c, x.size());
        c.describe([&](auto& o) { o << shown(x); });
        if (low != x && up != x) c.nontrivial();
        std::string a, b;
        es::tolower(x.begin(), x.end(), std::back_inserter(a));
        es::toupper(x.begin(), x.end(), std::back_inserter(b));
        VP_CHECK(a == low, "tolower gives " << shown(a) << ", expected " << shown(low));
        VP_CHECK(b == up, "toupper gives " << shown(b) << ", expected " << shown(up));
        // in place, idempotent, one from the other; other containers and signednesses
        auto z = x;
        es::tolower(z.begin(), z.end(), z.begin());
        VP_CHECK(z == low, "tolower in place gives " << shown(z));
        es::tolower(z.begin(), z.end(), z.begin());
        VP_CHECK(z == low, "tolower is not idempotent");
        es::toupper(z.begin(), z.end(), z.begin());
        VP_CHECK(z == up, "toupper of the lower case differs from the upper case");
        std::vector<unsigned char> u(x.begin(), x.end());
        Buf<unsigned char> out(u.size(), 0);
        es::toupper(u.begin(), u.end(), out.begin());
        const std::forward_list<char> fl(x.begin(), x.end());
        Buf<char> out2(u.size(), 0);
        es::tolower(fl.begin(), fl.end(), out2.begin());
        for (std::size_t i = 0; i < u.size(); ++i) {
            VP_CHECK(out.p[i] == static_cast<unsigned char>(up[i]) && out2.p[i] == low[i], "byte " << i << " of another container is converted differently");
        }
    }
} // namespace

VP_FAMILY("split and join", 120000, 3000000, "a string and a delimiter; non-trivial: more than one piece") { split_join<char>(s, c); }
VP_FAMILY("wide split and join", 40000, 1000000, "a wide string and a delimiter; non-trivial: more than one piece") { split_join<wchar_t>(s, c); }
VP_FAMILY("trim", 100000, 3000000, "a string; non-trivial: blanks on both sides of something") { trimming(s, c); }
VP_FAMILY("letters", 80000, 2000000, "a string; non-trivial: letters of both cases") { letters(s, c); }
