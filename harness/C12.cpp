#include "ref_windows.hpp"
// one by one and in an order that does not let one header provide what another forgot
#include <edsp/windowing/hanning.hpp>
#include <edsp/windowing/blackman_nuttall.hpp>
#include <edsp/windowing/blackman_harris.hpp>
#include <edsp/windowing.hpp>
using namespace vp;
namespace wn = edsp::windowing;

namespace {
    template <typename T, typename It>
    void generate(int k, bool make, It f, It l) {
        using W = wn::WindowType;
        if (make) {
            switch (k) {
                case 0: return wn::make_window<W::Bartlett>(f, l);
                case 1: return wn::make_window<W::Blackman>(f, l);
                case 2: return wn::make_window<W::BlackmanHarris>(f, l);
                case 3: return wn::make_window<W::BlackmanNuttall>(f, l);
                case 4: return wn::make_window<W::Boxcar>(f, l);
                case 5: return wn::make_window<W::FlatTop>(f, l);
                case 6: return wn::make_window<W::Hamming>(f, l);
                case 7: return wn::make_window<W::Hanning>(f, l);
                case 8: return wn::make_window<W::Rectangular>(f, l);
                case 9: return wn::make_window<W::Triangular>(f, l);
                default: return wn::make_window<W::Welch>(f, l);
            }
        }
        switch (k) {
            case 0: return wn::bartlett(f, l);
            case 1: return wn::blackman(f, l);
            case 2: return wn::blackman_harris(f, l);
            case 3: return wn::blackman_nutall(f, l);
            case 4: return wn::boxcar(f, l);
            case 5: return wn::flattop(f, l);
            case 6: return wn::hamming(f, l);
            case 7: return wn::hanning(f, l);
            case 8: return wn::rectangular(f, l);
            case 9: return wn::triangular(f, l);
            default: return wn::welch(f, l);
        }
    }
    template <typename T>
    void window(Src& s, Ctx& c) {
        const int k     = static_cast<int>(s.draw(10));
        const auto n    = len(s, 2, 3000, 70000);
        const bool make = s.flip();
        const auto& sp  = specs[k];
        const ld nn     = static_cast<ld>(n);
        c.label(sp.name);
        c.label(n % 2 ? "odd" : "even");
        c.nontrivial(n > 3);
        c.describe([&](auto& o) { o << sp.name << "<" << tname<T>() << "> N=" << n << (make ? " by make_window" : ""); });
        Buf<T> b(n, std::numeric_limits<T>::quiet_NaN());
        if (s.flip()) {
            generate<T>(k, make, b.begin(), b.end());
        } else { // through other iterators
            std::vector<T> v(n, std::numeric_limits<T>::quiet_NaN());
            generate<T>(k, make, v.begin(), v.end());
            std::copy(v.begin(), v.end(), b.begin());
        }
        const ld tol = 100 * eps<T>();
        for (std::size_t i = 0; i < n; ++i) {
            const ld e = sp.w(static_cast<ld>(i), nn);
            VP_CHECK(std::isfinite(b.p[i]) && std::abs(b.p[i] - e) <= tol, sp.name << "[" << i << "] = " << b.p[i] << ", expected " << e);
            VP_CHECK(std::abs(static_cast<ld>(b.p[i]) - b.p[n - 1 - i]) <= 2 * tol, sp.name << " is not symmetric at " << i << ": " << b.p[i] << " and " << b.p[n - 1 - i]);
            VP_CHECK(b.p[i] <= std::max<ld>(1, sp.centre) + tol, sp.name << "[" << i << "] = " << b.p[i] << " exceeds its maximum");
        }
        if (k != 9) {
            VP_CHECK(std::abs(b.p[0] - sp.ends) <= tol && std::abs(b.p[n - 1] - sp.ends) <= tol, sp.name << " ends at " << b.p[0] << " and " << b.p[n - 1] << ", expected " << sp.ends);
        }
        if (n % 2) {
            VP_CHECK(std::abs(b.p[n / 2] - sp.centre) <= tol, sp.name << " has " << b.p[n / 2] << " at its centre");
        }
    }
} // namespace

VP_FAMILY("window", 120000, 1200000, "one window of one length, by its own function or make_window; non-trivial: N>3") { VP_DISPATCH(window); }
