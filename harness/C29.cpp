// C29: numeric helpers, distances, constants and complex helpers
#include "common.hpp"
#include <complex>
#include <edsp/math/complex.hpp>
#include <edsp/math/constant.hpp>
#include <edsp/math/numeric.hpp>
using namespace vp;
namespace em = edsp::math;

namespace {
    using u128 = unsigned __int128;
    using i128 = __int128;
    std::string text(i128 v) {
        if (v == 0) return "0";
        std::string r;
        const bool neg = v < 0;
        for (u128 u = neg ? -static_cast<u128>(v) : static_cast<u128>(v); u; u /= 10) r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
        return neg ? "-" + r : r;
    }
    // an integer of the type: small, around a power of two, around the ends, or anything
    template <typename T>
    T integer(Src& s) {
        using L = std::numeric_limits<T>;
        const int bits = L::digits;
        i128 v = 0;
        switch (s.draw(4)) {
            case 0: v = s.range<long>(-20, 300); break;
            case 1: v = (static_cast<i128>(1) << s.range<int>(0, bits)) + s.range<int>(-2, 2); break;
            case 2: v = -((static_cast<i128>(1) << s.range<int>(0, bits)) + s.range<int>(-2, 2)); break;
            case 3: v = s.flip() ? static_cast<i128>(L::max()) - s.range<int>(0, 3) : static_cast<i128>(L::min()) + s.range<int>(0, 3); break;
            default: v = static_cast<T>(s.draw(~0ull)); break;
        }
        return static_cast<T>(std::max<i128>(L::min(), std::min<i128>(L::max(), v)));
    }
    std::uint64_t power(std::uint64_t a, std::uint64_t e, std::uint64_t m) {
        u128 r = 1, b = a % m;
        for (; e; e >>= 1) {
            if (e & 1) r = r * b % m;
            b = b * b % m;
        }
        return static_cast<std::uint64_t>(r);
    }
    bool prime(std::uint64_t n) { // Miller-Rabin, exact below 2^64 with these bases
        if (n < 2) return false;
        for (std::uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
            if (n % p == 0) return n == p;
        }
        std::uint64_t d = n - 1;
        int r = 0;
        while (d % 2 == 0) d /= 2, ++r;
        for (std::uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
            auto x = power(a, d, n);
            if (x == 1 || x == n - 1) continue;
            bool composite = true;
            for (int i = 1; i < r && composite; ++i) {
                x = static_cast<std::uint64_t>(static_cast<u128>(x) * x % n);
                composite = x != n - 1;
            }
            if (composite) return false;
        }
        return true;
    }

    template <typename T>
    void whole(Src& s, Ctx& c, const char* name) {
        c.label(name);
        const T x    = integer<T>(s);
        const i128 v = x;
        c.label(v < 0 ? "negative" : v < 2 ? "0 or 1" : v > (static_cast<i128>(1) << 40) ? "large" : "positive");
        c.describe([&](auto& o) { o << name << " " << text(v); });
        if (v != 0) c.nontrivial();
        VP_CHECK(em::is_odd(x) == (v % 2 != 0), "is_odd(" << text(v) << ") = " << em::is_odd(x));
        VP_CHECK(em::is_even(x) == (v % 2 == 0), "is_even(" << text(v) << ") = " << em::is_even(x));
        VP_CHECK(em::is_negative(x) == (v < 0), "is_negative(" << text(v) << ") is wrong");
        VP_CHECK(em::sign(x) == static_cast<T>(v < 0 ? -1 : 1), "sign(" << text(v) << ") = " << text(em::sign(x)));
        const bool p2 = v > 0 && (v & (v - 1)) == 0;
        VP_CHECK(em::is_power_two(x) == p2, "is_power_two(" << text(v) << ") = " << em::is_power_two(x));
        i128 next = v <= 0 ? 0 : 1;
        while (next < v) next *= 2;
        if (v < 0) next = 0;
        if (next <= static_cast<i128>(std::numeric_limits<T>::max())) {
            VP_CHECK(static_cast<i128>(em::next_power_two(x)) == next, "next_power_two(" << text(v) << ") = " << text(em::next_power_two(x)) << ", expected " << text(next));
        }
        if (v <= (static_cast<i128>(1) << 42) || s.one_in(2000)) {
            VP_CHECK(em::is_prime(x) == (v > 0 && prime(static_cast<std::uint64_t>(v))), "is_prime(" << text(v) << ") = " << em::is_prime(x));
        }
        const T y    = s.one_in(5) ? x : integer<T>(s);
        const i128 d = v < static_cast<i128>(y) ? static_cast<i128>(y) - v : v - static_cast<i128>(y);
        if (d <= static_cast<i128>(std::numeric_limits<T>::max())) {
            VP_CHECK(static_cast<i128>(em::distance<em::manhattan>(x, y)) == d, "manhattan distance of " << text(v) << " and " << text(y) << " = " << text(em::distance<em::manhattan>(x, y)));
            if (sizeof(T) >= 4 && d < 40000) {
                VP_CHECK(static_cast<i128>(em::distance<em::euclidean>(x, y)) == d * d, "euclidean distance of " << text(v) << " and " << text(y) << " = " << text(em::distance<em::euclidean>(x, y)));
                VP_CHECK(em::distance<em::euclidean>(x, y) == em::distance<em::euclidean>(y, x) || std::is_unsigned<T>::value, "euclidean distance is not symmetric");
            }
        }
        if (sizeof(T) >= 4 && v > -40000 && v < 40000) {
            VP_CHECK(static_cast<i128>(em::square(x)) == v * v, "square(" << text(v) << ") = " << text(em::square(x)));
        }
    }
    void wholes(Src& s, Ctx& c) {
        switch (s.draw(7)) {
            case 0: whole<int>(s, c, "int"); break;
            case 1: whole<long>(s, c, "long"); break;
            case 2: whole<unsigned>(s, c, "unsigned"); break;
            case 3: whole<unsigned long>(s, c, "unsigned long"); break;
            case 4: whole<short>(s, c, "short"); break;
            case 5: whole<unsigned short>(s, c, "unsigned short"); break;
            case 6: whole<signed char>(s, c, "signed char"); break;
            default: whole<unsigned char>(s, c, "unsigned char");
        }
    }
    // primes and near misses: products of two primes, squares, neighbours of multiples of 6
    void primes(Src& s, Ctx& c) {
        const auto p = [&] {
            auto n = static_cast<std::uint64_t>(s.range<long>(2, s.flip() ? 300 : 60000));
            while (!prime(n)) ++n;
            return n;
        };
        std::uint64_t n = 0;
        switch (s.draw(3)) {
            case 0: n = p(); break;
            case 1: {
                const auto q = p();
                n = q * q;
                break;
            }
            case 2: n = p() * p(); break;
            default: n = 6 * static_cast<std::uint64_t>(s.range<long>(0, 400000000)) + (s.flip() ? 1 : 5);
        }
        c.nontrivial();
        c.describe([&](auto& o) { o << n; });
        const bool e = prime(n);
        c.label(e ? "prime" : "composite");
        VP_CHECK(em::is_prime(n) == e, "is_prime(" << n << ") = " << em::is_prime(n));
        VP_CHECK(em::is_prime(static_cast<std::int64_t>(n)) == e, "is_prime of the signed " << n << " is wrong");
        if (n < (1ull << 31)) {
            VP_CHECK(em::is_prime(static_cast<int>(n)) == e && em::is_prime(static_cast<unsigned>(n)) == e, "is_prime of the 32-bit " << n << " is wrong");
        }
    }

    template <typename T>
    T any_real(Src& s) {
        using L = std::numeric_limits<T>;
        switch (s.draw(9)) {
            case 0: return 0;
            case 1: return -T(0);
            case 2: return L::infinity() * (s.flip() ? 1 : -1);
            case 3: return L::quiet_NaN();
            case 4: return (s.flip() ? 1 : -1) * L::denorm_min() * static_cast<T>(s.range<int>(1, 1000));
            case 5: return (s.flip() ? 1 : -1) * L::min();
            case 6: return (s.flip() ? 1 : -1) * L::max();
            default: {
                const T m = static_cast<T>(s.log_uniform(1e-20, 1e18));
                return s.flip() ? m : -m;
            }
        }
    }
    template <typename T>
    void real_numbers(Src& s, Ctx& c) {
        const T x = any_real<T>(s);
        c.describe([&](auto& o) { o << x; });
        const int k = std::fpclassify(x);
        c.label(k == FP_NAN ? "nan" : k == FP_INFINITE ? "inf" : k == FP_ZERO ? "zero" : k == FP_SUBNORMAL ? "denormal" : "normal");
        if (k != FP_ZERO) c.nontrivial();
        VP_CHECK(em::is_zero(x) == (k == FP_ZERO), "is_zero(" << x << ") is wrong");
        VP_CHECK(em::is_nan(x) == (k == FP_NAN), "is_nan(" << x << ") is wrong");
        VP_CHECK(em::is_inf(x) == (k == FP_INFINITE), "is_inf(" << x << ") is wrong");
        VP_CHECK(em::is_normal(x) == (k == FP_NORMAL), "is_normal(" << x << ") is wrong");
        VP_CHECK(em::is_denormal(x) == (k == FP_SUBNORMAL), "is_denormal(" << x << ") is wrong");
        const std::complex<T> z(x, any_real<T>(s));
        VP_CHECK(em::is_nan(z) == (std::isnan(z.real()) || std::isnan(z.imag())), "is_nan of a complex number is wrong: " << z);
        VP_CHECK(em::is_inf(z) == (std::isinf(z.real()) || std::isinf(z.imag())), "is_inf of a complex number is wrong: " << z);
        VP_CHECK(em::is_inf(em::infinity<T>()), "infinity() is not infinite");
        const auto same = [](T a, T b) { return a == b || (a != a && b != b); };
        VP_CHECK(same(em::real(z), z.real()) && same(em::imag(z), z.imag()), "real() or imag() of " << z << " is wrong");
        VP_CHECK(same(em::conj(z).real(), z.real()) && same(em::conj(z).imag(), -z.imag()), "conj of " << z << " is " << em::conj(z));
        if (k == FP_NAN || k == FP_INFINITE) return;
        VP_CHECK(em::is_negative(x) == (x < 0), "is_negative(" << x << ") is wrong");
        VP_CHECK(em::sign(x) == (x < 0 ? -1 : 1), "sign(" << x << ") = " << em::sign(x));
        const ld v = x;
        VP_CHECK(em::half(x) == static_cast<T>(v / 2), "half(" << x << ") = " << em::half(x));
        if (std::abs(v) > 1e-18L && std::abs(v) < 1e18L) {
            require_close<T>("square", em::square(x), v * v, 0, 2);
            require_close<T>("inv", em::inv(x), 1 / v, 0, 2);
            const T f = em::fract(x);
            VP_CHECK(f >= 0 && f <= 1 && std::abs(f - (v - std::floor(v))) <= eps<T>(), "fract(" << x << ") = " << f);
            T y = any_real<T>(s);
            if (!(std::abs(static_cast<ld>(y)) > 1e-18L && std::abs(static_cast<ld>(y)) < 1e18L)) y = static_cast<T>(s.log_uniform(0.01, 100));
            const ld w = y;
            require_close<T>("manhattan distance", em::distance<em::manhattan>(x, y), std::abs(v - w), 0, 2);
            VP_CHECK(em::distance<em::manhattan>(x, y) == em::distance<em::manhattan>(y, x) && em::distance<em::manhattan>(x, x) == 0, "manhattan distance is no distance at " << x << ", " << y);
            require_close<T>("euclidean distance", em::distance<em::euclidean>(x, y), (v - w) * (v - w), 0, 4);
            require_close<T>("logarithmic distance", em::distance<em::logarithmic>(x, y), std::log(std::abs(v) / std::abs(w)), 1, 4);
            const std::complex<T> q(x, y);
            require_close<T>("magnitude", em::magnitude(q), std::sqrt(v * v + w * w), 0, 4);
            require_close<T>("phase", em::phase(q), std::atan2(w, v), 0, 4);
        }
    }

    template <typename T>
    void random_numbers(Src& s, Ctx& c) {
        // every value of a small integer range must come up, and nothing else
        if (s.flip()) {
            const int a = s.range<int>(-1000000, 1000000), n = s.range<int>(1, 4), b = a + n - 1;
            c.describe([&](auto& o) { o << "rand(" << a << "," << b << ")"; });
            std::vector<int> seen(static_cast<std::size_t>(n), 0);
            for (int i = 0; i < 40 * n; ++i) {
                const int x = em::rand<int>(a, b);
                VP_CHECK(x >= a && x <= b, "rand(" << a << ", " << b << ") = " << x);
                ++seen[static_cast<std::size_t>(x - a)];
            }
            for (int i = 0; i < n; ++i) { // missed by chance at most 4 * (3/4)^160 = 4e-20
                VP_CHECK(seen[static_cast<std::size_t>(i)] > 0, "rand(" << a << ", " << b << ") never gave " << a + i << " in " << 40 * n << " draws");
            }
        } else {
            const T a = static_cast<T>(s.uniform(-1000, 1000)), b = a + static_cast<T>(s.log_uniform(0.1, 1000));
            c.describe([&](auto& o) { o << "rand(" << a << "," << b << ")"; });
            int low = 0;
            T last = a;
            bool varies = false;
            const int n = 80;
            for (int i = 0; i < n; ++i) {
                const T x = em::rand<T>(a, b);
                VP_CHECK(x >= a && x <= b, "rand(" << a << ", " << b << ") = " << x);
                low += x < (a + b) / 2;
                varies |= i > 0 && x != last;
                last = x;
            }
            VP_CHECK(varies && low > 0 && low < n, "rand(" << a << ", " << b << ") is on one side of the middle in " << n << " draws");
        }
        c.nontrivial();
    }

    template <typename T>
    void constants(Src& s, Ctx& c) {
        using K     = em::constants<T>;
        const ld pi = std::acos(-1.0L), e = std::exp(1.0L), g = 0.57721566490153286060651209008240243L, phi = (1 + std::sqrt(5.0L)) / 2;
        struct Row {
            const char* name;
            T value;
            ld expected;
        };
        const Row rows[] = {
            {"half", K::half, 0.5L}, {"third", K::third, 1 / 3.0L}, {"twothirds", K::twothirds, 2 / 3.0L}, {"two_thirds", K::two_thirds, 2 / 3.0L}, {"sixth", K::sixth, 1 / 6.0L},
            {"three_quarters", K::three_quarters, 0.75L}, {"root_two", K::root_two, std::sqrt(2.0L)}, {"root_three", K::root_three, std::sqrt(3.0L)}, {"half_root_two", K::half_root_two, std::sqrt(2.0L) / 2},
            {"ln_two", K::ln_two, std::log(2.0L)}, {"ln_ln_two", K::ln_ln_two, std::log(std::log(2.0L))}, {"root_ln_four", K::root_ln_four, std::sqrt(std::log(4.0L))}, {"one_div_root_two", K::one_div_root_two, 1 / std::sqrt(2.0L)},
            {"pi", K::pi, pi}, {"half_pi", K::half_pi, pi / 2}, {"third_pi", K::third_pi, pi / 3}, {"sixth_pi", K::sixth_pi, pi / 6}, {"two_pi", K::two_pi, 2 * pi}, {"two_thirds_pi", K::two_thirds_pi, 2 * pi / 3},
            {"three_quarters_pi", K::three_quarters_pi, 3 * pi / 4}, {"four_thirds_pi", K::four_thirds_pi, 4 * pi / 3}, {"one_div_two_pi", K::one_div_two_pi, 1 / (2 * pi)}, {"one_div_root_two_pi", K::one_div_root_two_pi, 1 / std::sqrt(2 * pi)},
            {"root_pi", K::root_pi, std::sqrt(pi)}, {"root_half_pi", K::root_half_pi, std::sqrt(pi / 2)}, {"root_two_pi", K::root_two_pi, std::sqrt(2 * pi)}, {"log_root_two_pi", K::log_root_two_pi, std::log(std::sqrt(2 * pi))},
            {"one_div_root_pi", K::one_div_root_pi, 1 / std::sqrt(pi)}, {"root_one_div_pi", K::root_one_div_pi, std::sqrt(1 / pi)}, {"pi_minus_three", K::pi_minus_three, pi - 3}, {"four_minus_pi", K::four_minus_pi, 4 - pi},
            {"pi_pow_e", K::pi_pow_e, std::pow(pi, e)}, {"pi_sqr", K::pi_sqr, pi * pi}, {"pi_sqr_div_six", K::pi_sqr_div_six, pi * pi / 6}, {"pi_cubed", K::pi_cubed, pi * pi * pi}, {"cbrt_pi", K::cbrt_pi, std::cbrt(pi)},
            {"one_div_cbrt_pi", K::one_div_cbrt_pi, 1 / std::cbrt(pi)}, {"e", K::e, e}, {"exp_minus_half", K::exp_minus_half, std::exp(-0.5L)}, {"e_pow_pi", K::e_pow_pi, std::exp(pi)}, {"root_e", K::root_e, std::sqrt(e)},
            {"log10_e", K::log10_e, std::log10(e)}, {"one_div_log10_e", K::one_div_log10_e, 1 / std::log10(e)}, {"ln_ten", K::ln_ten, std::log(10.0L)}, {"degree", K::degree, pi / 180}, {"radian", K::radian, 180 / pi},
            {"sin_one", K::sin_one, std::sin(1.0L)}, {"cos_one", K::cos_one, std::cos(1.0L)}, {"sinh_one", K::sinh_one, std::sinh(1.0L)}, {"cosh_one", K::cosh_one, std::cosh(1.0L)}, {"phi", K::phi, phi}, {"ln_phi", K::ln_phi, std::log(phi)},
            {"one_div_ln_phi", K::one_div_ln_phi, 1 / std::log(phi)}, {"euler", K::euler, g}, {"one_div_euler", K::one_div_euler, 1 / g}, {"euler_sqr", K::euler_sqr, g * g}, {"zeta_two", K::zeta_two, pi * pi / 6},
            {"zeta_three", K::zeta_three, 1.2020569031595942853997381615114499907L}, {"catalan", K::catalan, 0.9159655941772190150546035149323841107L}, {"glaisher", K::glaisher, 1.2824271291006226368753425688697917277L},
            {"khinchin", K::khinchin, 2.6854520010653064453097148354817956938L}, {"extreme_value_skewness", K::extreme_value_skewness, 12 * std::sqrt(6.0L) * 1.2020569031595942853997381615114499907L / (pi * pi * pi)},
            {"rayleigh_skewness", K::rayleigh_skewness, 2 * std::sqrt(pi) * (pi - 3) / std::pow(4 - pi, 1.5L)}, {"rayleigh_kurtosis", K::rayleigh_kurtosis, 3 - (6 * pi * pi - 24 * pi + 16) / ((4 - pi) * (4 - pi))},
            {"rayleigh_kurtosis_excess", K::rayleigh_kurtosis_excess, -(6 * pi * pi - 24 * pi + 16) / ((4 - pi) * (4 - pi))}, {"two_div_pi", K::two_div_pi, 2 / pi}, {"root_two_div_pi", K::root_two_div_pi, std::sqrt(2 / pi)}};
        const auto i = s.draw(sizeof(rows) / sizeof(rows[0]) - 1);
        c.label(rows[i].name);
        c.nontrivial();
        c.describe([&](auto& o) { o << rows[i].name; });
        VP_CHECK(std::abs(rows[i].value - rows[i].expected) <= eps<T>() * std::abs(rows[i].expected), "constant " << rows[i].name << " is " << rows[i].value << ", expected " << static_cast<double>(rows[i].expected));
    }
} // namespace

VP_FAMILY("integers", 150000, 4000000, "a pair of integers of one type; non-trivial: not zero") { wholes(s, c); }
VP_FAMILY("primes", 30000, 400000, "a prime, a square or product of primes, or a number 6k+-1; non-trivial: always") { primes(s, c); }
VP_FAMILY("reals", 100000, 2000000, "a pair of real numbers of any class; non-trivial: not zero") { VP_DISPATCH(real_numbers); }
VP_FAMILY("rand", 1000, 20000, "bounds and many draws; non-trivial: always") { VP_DISPATCH(random_numbers); }
VP_FAMILY("constants", 3000, 10000, "one constant; non-trivial: always") { VP_DISPATCH(constants); }
