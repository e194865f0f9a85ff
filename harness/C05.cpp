#ifdef VP_PYTHON // C27: the scales of the Python module
#include "pyapi.hpp"
namespace au = pyauditory;
#else
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
namespace au = edsp::auditory;
#endif
#include "ref_auditory.hpp"
using namespace vp;

namespace {
    const char* names[] = {"mel", "erb", "bark", "cent"};
    template <typename T>
    T to(int k, T f) {
        return k == 0 ? au::hertz2mel(f) : k == 1 ? au::hertz2erb(f) : k == 2 ? au::hertz2bark(f) : au::hertz2cent(f);
    }
    template <typename T>
    T from(int k, T z) {
        return k == 0 ? au::mel2hertz(z) : k == 1 ? au::erb2hertz(z) : k == 2 ? au::bark2hertz(z) : au::cent2hertz(z);
    }
    const double CENT_MIN = 16.36; // lowest frequency of positive cent value

    // absolute error allowed for a value on scale k, in units of eps(T)
    ld scale_size(int k) {
        return k == 3 ? 16000 : 40;
    }

    template <typename T>
    T frequency(Src& s, int k) {
        const double lo = k == 3 ? CENT_MIN : 0;
        double f;
        switch (s.draw(5)) {
            case 0: { // around the branch points of the Bark correction
                const ld edge = s.flip() ? ref::bark_inv(2.0L) : ref::bark_inv(20.1L);
                f             = static_cast<double>(edge) * (1 + s.uniform(-1, 1) * std::pow(10.0, -s.range<int>(1, 14)));
                break;
            }
            case 1:
                f = s.real(lo, 24000);
                break;
            case 2:
                f = s.log_uniform(k == 3 ? CENT_MIN : 1e-6, 1e5);
                break;
            case 3:
                f = s.range<int>(k == 3 ? 17 : 0, 22050);
                break;
            case 4:
                f = std::max(lo, 440.0 * std::exp2(s.range<int>(-56, 80) / 12.0));
                break;
            default:
                f = s.uniform(lo, 1000);
        }
        return static_cast<T>(std::max(lo, f));
    }

    template <typename T>
    void forward(Src& s, Ctx& c) {
        const int k = s.range<int>(0, 3);
        const T f   = frequency<T>(s, k);
        c.label(names[k]);
        if (k == 2) {
            const ld b = ref::bark_raw(f);
            c.label(b < 2 ? "bark low branch" : b > 20.1L ? "bark high branch" : "bark middle");
        }
        c.nontrivial(f > 0);
        c.describe([&](auto& o) { o << "hertz to " << names[k] << "<" << tname<T>() << ">(" << f << ") and back"; });
        const T z   = to(k, f);
        const ld e  = ref::to_scale(k, f);
        const ld dz = 8 * eps<T>() * (std::abs(e) + (k == 3 ? scale_size(k) : k == 0 ? 0 : 1)); // offsets cancel in Bark and cents
        VP_CHECK(std::isfinite(z) && std::abs(static_cast<ld>(z) - e) <= dz + (k == 1 ? 16 * eps<T>() : 0), "hertz2" << names[k] << "(" << f << ") is " << z << ", expected " << e);
        // round trip: error of z through the slope of the inverse
        const T back   = from(k, z);
        const ld slope = std::max(std::abs(ref::from_scale(k, e + dz) - f), std::abs(ref::from_scale(k, e - dz) - f));
        const ld tol   = 4 * slope + 64 * eps<T>() * (static_cast<ld>(f) + (k == 3 ? 0 : 230) + (k == 3 ? static_cast<ld>(f) * 50 : 0));
        if (f < 90000 || k != 2) {
            VP_CHECK(std::isfinite(back) && std::abs(static_cast<ld>(back) - f) <= tol, names[k] << " round trip of " << f << " Hz gives " << back << " (tolerance " << tol << ")");
        }
        // strictly increasing for steps well above rounding
        const T g = static_cast<T>(f * (1 + s.uniform(0.001, 1.0)) + s.uniform(0.05, 5));
        VP_CHECK(to(k, g) > z, "hertz2" << names[k] << " is not increasing between " << f << " and " << g);
        VP_CHECK(from(k, to(k, g)) > back || g - f < 4 * tol, names[k] << " to hertz is not increasing between " << f << " and " << g);
    }

    template <typename T>
    void backward(Src& s, Ctx& c) {
        const int k   = s.range<int>(0, 3);
        const ld top  = ref::to_scale(k, 50000.0L);
        const double lo = k == 3 ? 1 : k == 2 ? static_cast<double>(ref::bark(0)) : 0;
        T z;
        if (k == 2 && s.flip()) {
            z = static_cast<T>((s.flip() ? 2.0 : 20.1) + s.uniform(-1, 1) * std::pow(10.0, -s.range<int>(0, 14)));
        } else if (k == 0 && s.one_in(3)) {
            z = static_cast<T>(s.log_uniform(1e-12, 10));
        } else {
            z = static_cast<T>(s.real(lo, static_cast<double>(top)));
        }
        c.label(names[k]);
        c.nontrivial(true);
        c.describe([&](auto& o) { o << names[k] << " to hertz<" << tname<T>() << ">(" << z << ") and back"; });
        const T f  = from(k, z);
        const ld e = ref::from_scale(k, z);
        const ld dz   = 4 * eps<T>() * (std::abs(static_cast<ld>(z)) + (k == 3 ? scale_size(k) : k == 0 ? 0 : 2)); // no digits are lost near 0 mel
        const ld tol  = 2 * std::max(std::abs(ref::from_scale(k, z + dz) - e), std::abs(ref::from_scale(k, z - dz) - e)) + 32 * eps<T>() * (std::abs(e) + (k == 3 || k == 0 ? 0 : 230));
        VP_CHECK(std::isfinite(f) && std::abs(static_cast<ld>(f) - e) <= tol, names[k] << "2hertz(" << z << ") is " << f << ", expected " << e);
        const T again = to(k, f);
        const ld ez   = std::max(std::abs(ref::to_scale(k, e + tol) - z), std::abs(ref::to_scale(k, std::max(e - tol, k == 3 ? e / 2 : e - tol)) - z));
        const ld tz   = 2 * ez + 8 * eps<T>() * (std::abs(static_cast<ld>(z)) + scale_size(k));
        if (k != 3 || e > CENT_MIN) {
            VP_CHECK(std::abs(static_cast<ld>(again) - z) <= tz, names[k] << " round trip of " << z << " gives " << again << " (tolerance " << tz << ")");
        }
        const T z2 = static_cast<T>(z + (static_cast<T>(top) - z) * s.uniform(0.01, 0.5) + (k == 3 ? 1 : 0.01));
        VP_CHECK(from(k, z2) > f, names[k] << "2hertz is not increasing between " << z << " and " << z2);
    }
} // namespace

VP_FAMILY("forward", 600000, 6000000, "Hz to scale against the formula, back to Hz, monotonic; dense around the Bark branch points; non-trivial: f>0") { VP_DISPATCH(forward); }
VP_FAMILY("backward", 500000, 5000000, "scale to Hz against the inverse formula, back to the scale, monotonic; non-trivial: always") { VP_DISPATCH(backward); }
