// C33: calls and objects of their own in several threads at once, against the same ones one after another.
// Built with ThreadSanitizer: two accesses to one place that nothing orders end the case, whether they met this time or not.
#include "common.hpp"
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <fftw3.h>
#include <functional>
#include <list>
#include <memory>
#include <sched.h>
#include <thread>
#include <unistd.h>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/converter.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/logger.hpp>
#include <edsp/core/system.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/filter.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/math/numeric.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/random.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/statistics.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/types/fixed_ring_buffer.hpp>
#include <edsp/types/ring_buffer.hpp>
#include <edsp/windowing.hpp>
namespace capi {
    // some names of the C interface are also names of the standard C++ library
    extern "C" {
#include <cedsp/spectral.h>
#include <cedsp/statistics.h>
#include <cedsp/windowing.h>
    }
} // namespace capi
using namespace vp;
namespace ef = edsp::filter;
namespace eo = edsp::oscillators;
namespace er = edsp::random;
namespace es = edsp::string;

// FFTW: "the only thread-safe routine is fftw_execute (and its new-array variants); all other routines share data". FFTW itself
// is not instrumented, so the planner is given something of this file to touch: ThreadSanitizer then sees two calls nothing orders.
namespace {
    volatile long planner_of_fftw[2];
    thread_local unsigned pace = 0; // how long a call stays in the planner
    struct Planning {
        explicit Planning(int i) {
            planner_of_fftw[i] = planner_of_fftw[i] + 1;
            for (unsigned k = pace % 4; k; --k) {
                ::sched_yield();
            }
        }
    };
    template <typename F>
    F* next(const char* name) {
        return reinterpret_cast<F*>(::dlsym(RTLD_NEXT, name));
    }
} // namespace
extern "C" {
#define VP_PLANNER(i, result, name, parameters, arguments)          \
    result name parameters {                                        \
        static auto* const real = next<result parameters>(#name);   \
        Planning p(i);                                              \
        return real arguments;                                      \
    }
#define VP_PLANNERS(i, X, R, C)                                                                                                                                              \
    VP_PLANNER(i, X##plan, X##plan_dft_1d, (int n, C* in, C* out, int sign, unsigned flags), (n, in, out, sign, flags))                                                       \
    VP_PLANNER(i, X##plan, X##plan_dft_r2c_1d, (int n, R* in, C* out, unsigned flags), (n, in, out, flags))                                                                   \
    VP_PLANNER(i, X##plan, X##plan_dft_c2r_1d, (int n, C* in, R* out, unsigned flags), (n, in, out, flags))                                                                   \
    VP_PLANNER(i, X##plan, X##plan_r2r_1d, (int n, R* in, R* out, X##r2r_kind kind, unsigned flags), (n, in, out, kind, flags))                                               \
    VP_PLANNER(i, X##plan, X##plan_dft, (int rank, const int* n, C* in, C* out, int sign, unsigned flags), (rank, n, in, out, sign, flags))                                   \
    VP_PLANNER(i, X##plan, X##plan_dft_r2c, (int rank, const int* n, R* in, C* out, unsigned flags), (rank, n, in, out, flags))                                               \
    VP_PLANNER(i, X##plan, X##plan_dft_c2r, (int rank, const int* n, C* in, R* out, unsigned flags), (rank, n, in, out, flags))                                               \
    VP_PLANNER(i, X##plan, X##plan_r2r, (int rank, const int* n, R* in, R* out, const X##r2r_kind* kind, unsigned flags), (rank, n, in, out, kind, flags))                    \
    VP_PLANNER(i, void, X##destroy_plan, (X##plan plan), (plan))                                                                                                             \
    VP_PLANNER(i, void, X##cleanup, (void), ())
VP_PLANNERS(0, fftw_, double, fftw_complex)
VP_PLANNERS(1, fftwf_, float, fftwf_complex)
}

namespace {
    // a source of randomness that is the same for every generator made
    struct Fixed : std::minstd_rand {
        Fixed() : std::minstd_rand(12345) {}
        explicit Fixed(std::size_t) : std::minstd_rand(12345) {}
    };
    using Values = std::vector<double>;
    template <typename C, typename = decltype(std::declval<const C&>().begin())>
    void put(Values& v, const C& c) {
        for (const auto& x : c) {
            v.push_back(static_cast<double>(x));
        }
    }
    template <typename T>
    void put(Values& v, const std::vector<std::complex<T>>& c) {
        for (const auto& x : c) {
            v.push_back(x.real());
            v.push_back(x.imag());
        }
    }
    void put(Values& v, double x) { v.push_back(x); }

    template <typename T>
    struct Job {
        int op;
        std::shared_ptr<const std::vector<T>> x, y; // of the same size; other jobs may read the same
        int k;      // 1..8
        double p;   // 0..1
        unsigned pace;
        std::string file; // of its own
    };

    template <typename T, edsp::filter::designer_type D, edsp::filter::filter_type F, typename... A>
    void design(Values& v, const std::vector<T>& x, A... a) {
        auto f = ef::make_filter<T, D, F, 8>(a...);
        std::vector<T> out(x.size());
        f.filter(x.begin(), x.end(), out.begin());
        for (auto y : out) {
            v.push_back(y);
        }
    }

    template <typename T>
    struct Op {
        const char* name;
        std::function<void(const Job<T>&, const std::vector<T>&, const std::vector<T>&, Values&)> run;
    };
    template <typename T>
    const std::vector<Op<T>>& operations() {
        using V = std::vector<T>;
        using J = Job<T>;
        using X = std::vector<std::complex<T>>;
        using ft = ef::filter_type;
        using dt = ef::designer_type;
        static const std::vector<Op<T>> all = {
            {"dft", [](const J&, const V& x, const V&, Values& v) {
                 X f(x.size() / 2 + 1);
                 edsp::dft(x.begin(), x.end(), f.begin());
                 put(v, f);
                 V b(x.size());
                 edsp::idft(f.begin(), f.end(), b.begin());
                 if (x.size() % 2 == 0) put(v, b);
             }},
            {"cdft", [](const J&, const V& x, const V& y, Values& v) {
                 X a(x.size()), f(x.size()), b(x.size());
                 for (std::size_t i = 0; i < x.size(); ++i) a[i] = {x[i], y[i]};
                 edsp::cdft(a.begin(), a.end(), f.begin());
                 edsp::cidft(f.begin(), f.end(), b.begin());
                 put(v, f);
                 put(v, b);
             }},
            {"dct", [](const J&, const V& x, const V&, Values& v) {
                 V f(x.size()), b(x.size());
                 edsp::dct(x.begin(), x.end(), f.begin());
                 edsp::idct(f.begin(), f.end(), b.begin());
                 put(v, f);
                 put(v, b);
             }},
            {"hartley", [](const J&, const V& x, const V&, Values& v) {
                 V f(x.size());
                 edsp::hartley(x.begin(), x.end(), f.begin());
                 put(v, f);
             }},
            {"conv", [](const J&, const V& x, const V& y, Values& v) {
                 V f(x.size());
                 edsp::conv(x.begin(), x.end(), y.begin(), f.begin());
                 put(v, f);
             }},
            {"xcorr", [](const J& j, const V& x, const V& y, Values& v) {
                 V f(x.size()), g(x.size());
                 edsp::xcorr(x.begin(), x.end(), y.begin(), f.begin());
                 edsp::xcorr(x.begin(), x.end(), g.begin(), j.k % 2 ? edsp::CorrelationScale::Biased : edsp::CorrelationScale::None);
                 put(v, f);
                 put(v, g);
             }},
            {"hilbert", [](const J&, const V& x, const V&, Values& v) {
                 X f(x.size());
                 edsp::hilbert(x.begin(), x.end(), f.begin());
                 put(v, f);
             }},
            {"spectrum", [](const J&, const V& x, const V&, Values& v) {
                 V f(x.size() / 2 + 1);
                 edsp::spectrum(x.begin(), x.end(), f.begin());
                 put(v, f);
             }},
            {"cepstrum", [](const J&, const V& x, const V&, Values& v) {
                 V a(x);
                 for (auto& e : a) e = std::abs(e) + 1;
                 a[0] += static_cast<T>(a.size() * 8); // a spectrum without zeros
                 V f(x.size());
                 edsp::cepstrum(a.begin(), a.end(), f.begin());
                 put(v, f);
             }},
            {"engine", [](const J& j, const V& x, const V& y, Values& v) {
                 const auto n = static_cast<long>(x.size());
                 edsp::fft_engine<T> e(n);
                 for (int i = 0; i < 1 + j.k % 3; ++i) {
                     X f(x.size() / 2 + 1);
                     V h(x.size()), b(x.size());
                     e.dft((i ? y : x).data(), f.data());
                     e.dht(x.data(), h.data());
                     e.idft(f.data(), b.data());
                     put(v, f);
                     put(v, h);
                     put(v, b);
                 }
             }},
            {"windows", [](const J& j, const V& x, const V&, Values& v) {
                 V w(x.size());
                 switch (j.k) {
                     case 1: edsp::windowing::bartlett(w.begin(), w.end()); break;
                     case 2: edsp::windowing::blackman(w.begin(), w.end()); break;
                     case 3: edsp::windowing::blackman_harris(w.begin(), w.end()); break;
                     case 4: edsp::windowing::flattop(w.begin(), w.end()); break;
                     case 5: edsp::windowing::hamming(w.begin(), w.end()); break;
                     case 6: edsp::windowing::hanning(w.begin(), w.end()); break;
                     case 7: edsp::windowing::triangular(w.begin(), w.end()); break;
                     default: edsp::windowing::welch(w.begin(), w.end());
                 }
                 put(v, w);
             }},
            {"statistics", [](const J& j, const V& x, const V& y, Values& v) {
                 const auto b = x.begin(), e = x.end();
                 put(v, edsp::statistics::mean(b, e));
                 put(v, edsp::statistics::median(b, e));
                 put(v, edsp::statistics::variance(b, e));
                 put(v, edsp::statistics::skewness(b, e));
                 put(v, edsp::statistics::kurtosis(b, e));
                 put(v, edsp::statistics::max(b, e));
                 put(v, edsp::statistics::minabs(b, e));
                 put(v, edsp::statistics::norm(b, e));
                 put(v, edsp::statistics::moment<3>(b, e));
             }},
            {"temporal features", [](const J& j, const V& x, const V& y, Values& v) {
                 using namespace edsp::feature::temporal;
                 const auto b = x.begin(), e = x.end();
                 put(v, edsp::feature::temporal::energy(b, e));
                 put(v, power(b, e));
                 put(v, rms(b, e));
                 put(v, rssq(b, e));
                 put(v, leq(b, e));
                 put(v, azcr(b, e));
                 put(v, snr(b, e, y.begin()));
                 V d(x.size());
                 amdf(b, e, d.begin());
                 put(v, d);
                 asdf(b, e, d.begin());
                 put(v, d);
             }},
            {"spectral features", [](const J&, const V& x, const V& y, Values& v) {
                 using namespace edsp::feature::spectral;
                 V m(x), o(y);
                 for (auto& e : m) e = std::abs(e) + static_cast<T>(0.1);
                 for (auto& e : o) e = std::abs(e) + static_cast<T>(0.1);
                 V f(x.size());
                 for (std::size_t i = 0; i < f.size(); ++i) f[i] = static_cast<T>(i * 100);
                 const auto b = m.begin(), e = m.end();
                 put(v, spectral_centroid(b, e, f.begin()));
                 put(v, spectral_spread(b, e, f.begin()));
                 put(v, spectral_skewness(b, e));
                 put(v, spectral_kurtosis(b, e));
                 put(v, spectral_crest(b, e));
                 put(v, spectral_entropy(b, e));
                 put(v, spectral_flatness(b, e));
                 put(v, spectral_flux(b, e, o.begin()));
                 put(v, spectral_irregularity(b, e));
             }},
            {"designs", [](const J& j, const V& x, const V&, Values& v) {
                 const double fs = 48000, fc = 100 + 20000 * j.p;
                 switch (j.k) {
                     case 1: design<T, dt::Butterworth, ft::LowPass>(v, x, 6, fs, fc); break;
                     case 2: design<T, dt::Butterworth, ft::BandPass>(v, x, 3, fs, fc, fc / 4); break;
                     case 3: design<T, dt::ChebyshevI, ft::HighPass>(v, x, 5, fs, fc, 1.0); break;
                     case 4: design<T, dt::ChebyshevI, ft::LowPass>(v, x, 4, fs, fc, 0.5); break;
                     case 5: design<T, dt::ChebyshevII, ft::LowPass>(v, x, 4, fs, fc, 30.0); break;
                     case 6: design<T, dt::ChebyshevII, ft::BandStop>(v, x, 2, fs, fc, fc / 4, 30.0); break;
                     default: design<T, dt::Butterworth, ft::HighPass>(v, x, 8, fs, fc);
                 }
             }},
            {"moving filters", [](const J& j, const V& x, const V&, Values& v) {
                 V o(x.size());
                 ef::moving_average<T> a(static_cast<std::size_t>(j.k));
                 a.filter(x.begin(), x.end(), o.begin());
                 put(v, o);
                 ef::moving_rms<T> r(static_cast<std::size_t>(j.k));
                 r.filter(x.begin(), x.end(), o.begin());
                 put(v, o);
                 ef::moving_median<T> m(static_cast<std::size_t>(j.k));
                 m.filter(x.begin(), x.end(), o.begin());
                 put(v, o);
             }},
            {"oscillators", [](const J& j, const V& x, const V&, Values& v) {
                 const T f = static_cast<T>(10 + 400 * j.p), w = static_cast<T>(j.p);
                 eo::sin_oscillator<T> a(1, 1000, f, w);
                 eo::square_oscillator<T> b(1, 1000, f, w);
                 eo::sawtooth_oscillator<T> c(1, 1000, f, w);
                 eo::triangular_oscillator<T> d(1, 1000, f);
                 for (std::size_t i = 0; i < x.size(); ++i) {
                     put(v, a());
                     put(v, b());
                     put(v, c());
                     put(v, d());
                 }
             }},
            {"random", [](const J& j, const V& x, const V&, Values& v) {
                 er::random_generator<er::DistributionType::Normal, T> n(static_cast<T>(0), static_cast<T>(1 + j.p));
                 er::random_generator<er::DistributionType::Poisson, int> i(1 + j.p);
                 er::white_noise_generator<T, Fixed> w(static_cast<T>(-1), static_cast<T>(1));
                 er::pink_noise_generator<T, Fixed> p(static_cast<T>(-1), static_cast<T>(1));
                 er::brown_noise_generator<T, Fixed> b(static_cast<T>(-1), static_cast<T>(1));
                 er::perlin_noise_generator<T, Fixed> q;
                 er::binary_generator<int, Fixed> bin(j.p);
                 for (std::size_t k = 0; k < std::min<std::size_t>(x.size(), 100); ++k) {
                     put(v, std::isfinite(n()) && i() >= 0); // seeded from the clock
                     put(v, w());
                     put(v, p());
                     put(v, b());
                     put(v, q());
                     put(v, bin());
                 }
             }},
            {"algorithms", [](const J& j, const V& x, const V& y, Values& v) {
                 V o(x.size()), big(x.size() + static_cast<std::size_t>(j.k));
                 edsp::amplifier(x.begin(), x.end(), o.begin(), static_cast<T>(j.p));
                 put(v, o);
                 edsp::normalize(x.begin(), x.end(), o.begin());
                 put(v, o);
                 edsp::clipper(x.begin(), x.end(), o.begin(), static_cast<T>(-1), static_cast<T>(1));
                 put(v, o);
                 edsp::algorithm::derivative(x.begin(), x.end(), o.begin());
                 put(v, o);
                 edsp::padder(x.begin(), x.end(), big.begin(), big.end());
                 put(v, big);
                 edsp::linspace(o.begin(), static_cast<T>(0), static_cast<T>(1), o.size());
                 put(v, o);
                 put(v, edsp::index_of(x.begin(), x.end(), x[x.size() / 2]));
             }},
            {"scales", [](const J& j, const V& x, const V&, Values& v) {
                 for (std::size_t i = 0; i < x.size(); ++i) {
                     put(v, edsp::auditory::hertz2mel(static_cast<T>(std::abs(x[i]) * 100)));
                     put(v, edsp::auditory::hertz2bark(static_cast<T>(std::abs(x[i]) * 100)));
                     put(v, edsp::mag2db(static_cast<T>(std::abs(x[i]) + 1)));
                     put(v, edsp::deg2rad(x[i]));
                 }
             }},
            {"strings", [](const J& j, const V& x, const V&, Values& v) {
                 std::string t;
                 for (auto e : x) t += std::to_string(e) + (j.k % 2 ? " ," : ", ");
                 std::vector<std::string> parts;
                 es::split(t, std::back_inserter(parts), ',');
                 for (auto& p : parts) es::trim(p);
                 std::string joined, up(t);
                 es::join(parts.begin(), parts.end(), joined, ';');
                 es::toupper(up.begin(), up.end(), up.begin());
                 for (char ch : joined + up) v.push_back(ch);
             }},
            {"ring buffers", [](const J& j, const V& x, const V&, Values& v) {
                 edsp::ring_buffer<T> r(static_cast<std::size_t>(j.k));
                 edsp::fixed_ring_buffer<T, 5> f;
                 for (auto e : x) {
                     r.push_back(e);
                     f.push_back(e);
                     put(v, r);
                     put(v, f);
                 }
             }},
            {"envelopes", [](const J& j, const V& x, const V&, Values& v) {
                 V o(x.size()), u(x.size());
                 V small(x);
                 for (auto& e : small) e = std::max<T>(-1, std::min<T>(1, e));
                 edsp::quantizer::mu_law_compression(small.begin(), small.end(), o.begin(), static_cast<T>(1), 255);
                 put(v, o);
             }},
            {"resampler", [](const J& j, const V& x, const V& y, Values& v) {
                 std::vector<float> in(x.begin(), x.end()), out(x.size() * 4 + 64);
                 edsp::io::resampler<float> r(1, edsp::io::resample_quality::sinc_fastest, static_cast<float>(0.5 + j.p));
                 for (int i = 0; i < 2; ++i) {
                     auto n = r.process(in.begin(), in.end(), out.begin());
                     put(v, static_cast<double>(n.first));
                     put(v, static_cast<double>(n.second));
                     for (std::size_t k = 0; k < static_cast<std::size_t>(n.second); ++k) put(v, out[k]);
                 }
             }},
            {"audio file", [](const J& j, const V& x, const V& y, Values& v) {
                 {
                     edsp::io::encoder<T> e(static_cast<std::size_t>(8000 * j.k), 1);
                     put(v, e.open(j.file));
                     put(v, e.write(x.begin(), x.end()));
                 }
                 edsp::io::decoder<T> d;
                 put(v, d.open(j.file));
                 V o(x.size() + 4);
                 put(v, d.read(o.begin(), o.end()));
                 put(v, d.sample_rate());
                 put(v, o);
                 d.close();
                 ::unlink(j.file.c_str());
             }},
            {"environment", [](const J& j, const V& x, const V&, Values& v) {
                 const auto name = "VP_THREAD_" + j.file.substr(j.file.size() - 4);
                 put(v, edsp::system_env::exist(name));
                 put(v, static_cast<int>(edsp::system_env::set_env(name, std::to_string(j.p))));
                 const auto got = edsp::system_env::get_env(name);
                 put(v, got.has_value());
                 ::unsetenv(name.c_str());
             }},
            {"library information", [](const J& j, const V& x, const V&, Values& v) {
                 for (char ch : std::string(edsp::library_info::version())) v.push_back(ch);
             }},
            {"C interface", [](const J& j, const V& x, const V& y, Values& v) {
                 std::vector<double> a(x.begin(), x.end()), b(y.begin(), y.end()), o(x.size());
                 const int n = static_cast<int>(a.size());
                 switch (j.k) {
                     case 1: capi::conv(a.data(), b.data(), n, o.data()); break;
                     case 2: capi::xcorr(a.data(), b.data(), n, o.data()); break;
                     case 3: capi::dct(a.data(), n, o.data()); break;
                     case 4: capi::hartley(a.data(), n, o.data()); break;
                     case 5: capi::hamming(o.data(), n); break;
                     case 6: o[0] = capi::median(a.data(), n); break;
                     case 7: o[0] = capi::variance(a.data(), n); break;
                     default: capi::idct(a.data(), n, o.data());
                 }
                 put(v, o);
             }},
        };
        return all;
    }

    template <typename T>
    Values perform(const Job<T>& j) {
        Values v;
        pace = j.pace;
        operations<T>()[static_cast<std::size_t>(j.op)].run(j, *j.x, *j.y, v);
        return v;
    }

    // runs f(t) for t in 0..n-1 in threads of their own that nothing but the end orders
    template <typename F>
    void at_once(int n, F f) {
        std::atomic<int> ready{0};
        std::vector<std::thread> pool;
        for (int t = 0; t < n; ++t) {
            pool.emplace_back([&, t] {
                // relaxed: the start orders nothing between the threads
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) {
                    ::sched_yield();
                }
                f(t);
            });
        }
        for (auto& p : pool) {
            p.join();
        }
    }

    template <typename T>
    void threads(Src& s, Ctx& c) {
        const auto& ops = operations<T>();
        const int n     = s.range<int>(2, 4);
        // signals, some of which several threads read
        std::vector<std::shared_ptr<const std::vector<T>>> signals;
        const auto size = static_cast<std::size_t>(s.one_in(4) ? s.size(2, 600) : s.size(2, 40));
        for (int i = 0; i < 3; ++i) {
            std::vector<T> x(size);
            for (auto& e : x) e = static_cast<T>(s.uniform(-4, 4));
            signals.push_back(std::make_shared<const std::vector<T>>(std::move(x)));
        }
        const int around = static_cast<int>(s.draw(ops.size() - 1)); // most threads do the same
        std::vector<std::vector<Job<T>>> jobs(static_cast<std::size_t>(n));
        std::string text;
        int id = 0;
        for (auto& list : jobs) {
            const int m = s.range<int>(1, 4);
            text += "| ";
            for (int i = 0; i < m; ++i) {
                Job<T> j;
                j.op   = s.flip() ? static_cast<int>(s.draw(ops.size() - 1)) : around;
                j.x    = signals[s.draw(2)];
                j.y    = signals[s.draw(2)];
                j.k    = s.range<int>(1, 8);
                j.p    = s.uniform(0.01, 0.99);
                j.pace = static_cast<unsigned>(s.draw(3));
                char tag[16];
                std::snprintf(tag, sizeof tag, "-t%02d", id++);
                j.file = vp::scratch_dir() + "/" + std::to_string(::getpid()) + tag;
                text += std::string(ops[static_cast<std::size_t>(j.op)].name) + " ";
                list.push_back(std::move(j));
            }
        }
        c.describe([&](auto& o) { o << "threads of " << n << " on " << size << " samples " << text; });
        std::vector<std::vector<Values>> want(jobs.size()), got(jobs.size());
        for (std::size_t t = 0; t < jobs.size(); ++t) {
            got[t].resize(jobs[t].size());
            for (const auto& j : jobs[t]) {
                want[t].push_back(perform(j));
            }
        }
        at_once(n, [&](int t) {
            const auto& mine = jobs[static_cast<std::size_t>(t)];
            for (std::size_t i = 0; i < mine.size(); ++i) {
                for (unsigned k = mine[i].pace; k; --k) {
                    ::sched_yield();
                }
                got[static_cast<std::size_t>(t)][i] = perform(mine[i]);
            }
        });
        for (std::size_t t = 0; t < jobs.size(); ++t) {
            for (std::size_t i = 0; i < jobs[t].size(); ++i) {
                const auto &a = want[t][i], &b = got[t][i];
                const char* name = ops[static_cast<std::size_t>(jobs[t][i].op)].name;
                VP_CHECK(a.size() == b.size(), name << " gives " << b.size() << " values next to other threads, " << a.size() << " alone");
                double m = 0;
                for (auto x : a) {
                    m = std::max(m, std::isfinite(x) ? std::abs(x) : 0);
                }
                for (std::size_t k = 0; k < a.size(); ++k) {
                    VP_CHECK(a[k] == b[k] || (a[k] != a[k] && b[k] != b[k]) || std::abs(a[k] - b[k]) <= (sizeof(T) == 4 ? 1e-4 : 1e-10) * m,
                             name << ": value " << k << " is " << b[k] << " next to other threads, " << a[k] << " alone");
                }
            }
        }
        std::size_t same = 0, transforms = 0;
        for (auto& list : jobs) {
            for (auto& j : list) {
                same += j.op == around;
                transforms += j.op < 10;
            }
        }
        c.label(transforms > 1 ? "several transforms" : transforms ? "one transform" : "no transform");
        c.nontrivial(same > 1);
    }

    // one object that all threads only read or copy
    template <typename T>
    struct Shared {
        edsp::ring_buffer<T> ring;
        edsp::fixed_ring_buffer<T, 6> fixed;
        ef::biquad_cascade<T, 4> cascade;
        ef::moving_average<T> average;
        ef::moving_median<T> median;
        eo::sin_oscillator<T> sine;
        eo::square_oscillator<T> square;
        edsp::io::resampler<float> resampler;
        edsp::fft_engine<T> engine;
        edsp::envelope::adsr<T> adsr;
        std::vector<T> signal;
    };
    template <typename T>
    Values look(const Shared<T>& o, int what) {
        Values v;
        switch (what) {
            case 0:
                put(v, o.ring);
                put(v, o.ring.size());
                put(v, o.ring.full());
                put(v, o.ring.capacity());
                if (!o.ring.empty()) {
                    put(v, o.ring.front());
                    put(v, o.ring.back());
                    put(v, o.ring[o.ring.size() / 2]);
                    put(v, o.ring.at(0));
                }
                for (auto i = o.ring.rbegin(); i != o.ring.rend(); ++i) put(v, *i);
                break;
            case 1: {
                auto copy = o.ring;
                copy.push_back(5);
                put(v, copy);
                break;
            }
            case 2:
                put(v, o.fixed);
                put(v, o.fixed.size());
                put(v, o.fixed.full());
                if (!o.fixed.empty()) {
                    put(v, o.fixed.front());
                    put(v, o.fixed.back());
                    put(v, o.fixed[0]);
                }
                break;
            case 3: {
                auto copy = o.fixed;
                copy.push_back(5);
                put(v, copy);
                break;
            }
            case 4:
                for (const auto& b : o.cascade) {
                    for (double x : {b.a0(), b.a1(), b.a2(), b.b0(), b.b1(), b.b2()}) put(v, x);
                    put(v, b.stability());
                }
                put(v, o.cascade.size());
                put(v, o.cascade.capacity());
                break;
            case 5: {
                auto copy = o.cascade;
                std::vector<T> out(o.signal.size());
                copy.filter(o.signal.begin(), o.signal.end(), out.begin());
                put(v, out);
                break;
            }
            case 6: {
                auto copy = o.average;
                auto mid  = o.median;
                put(v, o.average.size());
                put(v, o.median.size());
                for (auto x : o.signal) {
                    put(v, copy(x));
                    put(v, mid(x));
                }
                break;
            }
            case 7: {
                auto a = o.sine;
                auto b = o.square;
                for (double x : {o.sine.amplitude(), o.sine.frequency(), o.sine.phase(), o.sine.timestamp(), o.square.duty(), a(), b()}) put(v, x);
                break;
            }
            case 8:
                put(v, static_cast<int>(o.resampler.quality()));
                put(v, o.resampler.ratio());
                put(v, o.resampler.channels());
                put(v, o.resampler.error());
                break;
            case 9: {
                auto copy = o.engine;
                std::vector<T> out(o.signal.size());
                copy.dct(o.signal.data(), out.data());
                put(v, out);
                break;
            }
            default: {
                auto copy = o.adsr;
                for (double x : {o.adsr.attack_time(), o.adsr.decay_time(), o.adsr.release_rate(), o.adsr.sustain_level(), o.adsr.sample_rate()}) put(v, x);
                put(v, copy(1));
                put(v, copy(1));
            }
        }
        return v;
    }
    template <typename T>
    void shared(Src& s, Ctx& c) {
        const int n     = s.range<int>(2, 4);
        const auto size = static_cast<std::size_t>(s.size(2, 100));
        Shared<T> o{edsp::ring_buffer<T>(static_cast<std::size_t>(s.range<int>(1, 12))), {}, ef::make_filter<T, ef::designer_type::Butterworth, ef::filter_type::LowPass, 8>(6, 48000, 100 + 1000 * s.range<int>(0, 20)),
                    ef::moving_average<T>(static_cast<std::size_t>(s.range<int>(1, 9))), ef::moving_median<T>(static_cast<std::size_t>(s.range<int>(1, 9))), eo::sin_oscillator<T>(1, 1000, 30, 0), eo::square_oscillator<T>(1, 1000, 30, static_cast<T>(0.5)),
                    edsp::io::resampler<float>(2, edsp::io::resample_quality::linear, 1.5f), edsp::fft_engine<T>(static_cast<long>(size)), {}, {}};
        for (std::size_t i = 0; i < size; ++i) {
            o.signal.push_back(static_cast<T>(s.uniform(-4, 4)));
        }
        for (int i = s.range<int>(0, 15); i > 0; --i) {
            o.ring.push_back(static_cast<T>(i));
            o.fixed.push_back(static_cast<T>(i));
            o.average(static_cast<T>(i));
            o.median(static_cast<T>(i));
            o.sine();
            o.square();
        }
        o.adsr.set_attack_rate(static_cast<T>(0.1));
        std::vector<std::vector<int>> looks(static_cast<std::size_t>(n));
        const int around = s.range<int>(0, 10);
        std::string text;
        for (auto& l : looks) {
            text += "| ";
            for (int i = s.range<int>(1, 6); i > 0; --i) {
                l.push_back(s.flip() ? s.range<int>(0, 10) : around);
                text += std::to_string(l.back()) + " ";
            }
        }
        c.describe([&](auto& out) { out << "one object of each kind, " << n << " threads looking at " << text; });
        std::vector<Values> want;
        for (int i = 0; i <= 10; ++i) {
            want.push_back(look(o, i));
        }
        std::vector<std::vector<Values>> got(looks.size());
        at_once(n, [&](int t) {
            for (int w : looks[static_cast<std::size_t>(t)]) {
                got[static_cast<std::size_t>(t)].push_back(look(o, w));
            }
        });
        for (std::size_t t = 0; t < looks.size(); ++t) {
            for (std::size_t i = 0; i < looks[t].size(); ++i) {
                const auto& a = want[static_cast<std::size_t>(looks[t][i])];
                const auto& b = got[t][i];
                VP_CHECK(a.size() == b.size(), "look " << looks[t][i] << " at an object gives " << b.size() << " values next to other threads, " << a.size() << " alone");
                for (std::size_t k = 0; k < a.size(); ++k) {
                    VP_CHECK(a[k] == b[k] || (a[k] != a[k] && b[k] != b[k]) || (looks[t][i] == 9 && std::abs(a[k] - b[k]) < 1e-2 * (sizeof(T) == 4 ? 1 : 1e-7)), "look " << looks[t][i] << " at an object: value " << k << " is " << b[k] << " next to other threads, " << a[k] << " alone");
                }
            }
        }
        c.nontrivial();
    }

    // messages of loggers in several threads come out whole and, for each thread, in order
    struct Captured { // standard output, into a file
        std::string name = vp::scratch_dir() + "/" + std::to_string(::getpid()) + "-log";
        int saved;
        Captured() {
            std::cout.flush();
            std::fflush(stdout);
            saved        = ::dup(1);
            const int fd = ::open(name.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
            ::dup2(fd, 1);
            ::close(fd);
        }
        std::string stop() {
            std::cout.flush();
            std::fflush(stdout);
            if (saved >= 0) {
                ::dup2(saved, 1);
                ::close(saved);
                saved = -1;
            }
            std::ifstream f(name);
            std::string text((std::istreambuf_iterator<char>(f)), {});
            ::unlink(name.c_str());
            return text;
        }
        ~Captured() { stop(); }
    };
    void message(char tag, const std::vector<int>& items) {
        edsp::logger l(edsp::logger::info);
        for (int i : items) {
            switch (i % 4) {
                case 0: l << std::string(static_cast<std::size_t>(i), tag); break;
                case 1: l << tag; break;
                case 2: l << i; break;
                default: l << edsp::red << std::string(1, tag) << edsp::reset;
            }
        }
        l << std::string(1, tag);
    }
    void log(Src& s, Ctx& c) {
        const int n = s.range<int>(2, 4);
        std::vector<std::vector<std::vector<int>>> messages(static_cast<std::size_t>(n));
        std::size_t total = 0;
        for (auto& list : messages) {
            for (int i = s.range<int>(1, 6); i > 0; --i) {
                std::vector<int> items;
                for (int k = s.range<int>(0, 8); k > 0; --k) {
                    items.push_back(static_cast<int>(s.size(0, 3000)));
                }
                list.push_back(items);
                ++total;
            }
        }
        c.describe([&](auto& o) { o << n << " threads with " << total << " messages of the logger"; });
        std::vector<std::vector<std::string>> want(messages.size());
        for (std::size_t t = 0; t < messages.size(); ++t) {
            for (auto& m : messages[t]) {
                Captured out;
                message(static_cast<char>('A' + t), m);
                want[t].push_back(out.stop());
            }
        }
        Captured out;
        at_once(n, [&](int t) {
            for (auto& m : messages[static_cast<std::size_t>(t)]) {
                message(static_cast<char>('A' + t), m);
            }
        });
        const auto text = out.stop();
        std::vector<std::size_t> next(messages.size(), 0);
        std::size_t at = 0, turns = 0, last = messages.size();
        while (at < text.size()) {
            std::size_t t = 0;
            while (t < want.size() && !(next[t] < want[t].size() && !want[t][next[t]].empty() && text.compare(at, want[t][next[t]].size(), want[t][next[t]]) == 0)) {
                ++t;
            }
            // no message that starts here: could two start the same way? each holds its thread's letter
            VP_CHECK(t < want.size(), "the output of " << n << " threads has at byte " << at << " what is no message that is due: " << show(text.substr(at, 60)));
            at += want[t][next[t]++].size();
            turns += t != last;
            last = t;
        }
        for (std::size_t t = 0; t < want.size(); ++t) {
            VP_CHECK(next[t] == want[t].size(), "thread " << t << " logged " << want[t].size() << " messages, " << next[t] << " came out");
        }
        c.label(turns > messages.size() ? "interleaved" : "one after another");
        c.nontrivial(total > 3);
    }
} // namespace

VP_FAMILY("threads", 25000, 600000, "2 to 4 threads with up to 4 calls each over 29 groups of operations; non-trivial: one operation is in several calls") { VP_DISPATCH(threads); }
VP_FAMILY("shared objects", 20000, 500000, "2 to 4 threads with up to 6 calls each on const objects, or copies of them; non-trivial: always") { VP_DISPATCH(shared); }
VP_FAMILY("logger", 3000, 60000, "2 to 4 threads with up to 6 messages each; non-trivial: more than 3 messages") { log(s, c); }
