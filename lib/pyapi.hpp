// C27: the functions of the Python module under the names and signatures of the C interface and of the native features,
// so that the families written for those decide the module as well
#pragma once
#include "py.hpp"

namespace api {
    using real_t = double;
    struct complex_t {
        double v[2];
    };
    struct Peak {
        int index;
        real_t value;
    };
#define PY_MAP(c_name, name) inline void c_name(const real_t* x, int n, real_t* out) { py::map("algorithm", name, x, n, out, n); }
    PY_MAP(array_ceil, "ceil")
    PY_MAP(array_floor, "floor")
    PY_MAP(array_round, "round")
    PY_MAP(array_trunc, "trunc")
    PY_MAP(array_abs, "abs")
    PY_MAP(array_normalize, "normalize")
#undef PY_MAP
    inline void array_scale(const real_t* x, int n, real_t* out, real_t f) { py::map("algorithm", "scale", x, n, out, n, f); }
    inline void array_scale_clip(const real_t* x, int n, real_t* out, real_t f, real_t lo, real_t hi) { py::map("algorithm", "scale_clip", x, n, out, n, f, lo, hi); }
    inline void array_clip(const real_t* x, int n, real_t* out, real_t lo, real_t hi) { py::map("algorithm", "clip", x, n, out, n, lo, hi); }
    inline void array_concatenate(const real_t* x, int n, const real_t* y, int m, real_t* out) {
        py::Array a(x, static_cast<std::size_t>(n)), b(y, static_cast<std::size_t>(m));
        const auto r = py::elements<real_t>("concatenate", py::call("algorithm", "concatenate", a.a, b.a), n + m, {&a, &b});
        a.check("concatenate");
        b.check("concatenate");
        std::copy(r.begin(), r.end(), out);
    }
    inline void array_padder(const real_t* x, int n, real_t* out, int size) { py::map("algorithm", "pad", x, n, out, size, size); }
    inline void generate(const char* mod, const char* name, real_t* out, int n, real_t a, real_t b) {
        const auto r = py::elements<real_t>(name, py::call(mod, name, a, b, n), n);
        std::copy(r.begin(), r.end(), out);
    }
    inline void array_linspace(real_t* out, int n, real_t a, real_t b) { generate("algorithm", "linspace", out, n, a, b); }
    inline void array_logspace(real_t* out, int n, real_t a, real_t b) { generate("algorithm", "logspace", out, n, a, b); }
#define PY_WINDOW(name)                                                                           \
    inline void name(real_t* out, int n) {                                                        \
        const auto r = py::elements<real_t>(#name, py::call("windowing", #name, n), n);           \
        std::copy(r.begin(), r.end(), out);                                                       \
    }
    PY_WINDOW(bartlett)
    PY_WINDOW(blackman)
    PY_WINDOW(blackman_harris)
    PY_WINDOW(blackman_nutall)
    PY_WINDOW(boxcar)
    PY_WINDOW(flattop)
    PY_WINDOW(hamming)
    PY_WINDOW(hanning)
    PY_WINDOW(rectangular)
    PY_WINDOW(triangular)
    PY_WINDOW(welch)
#undef PY_WINDOW
#define PY_SEARCH(name)                                                                                    \
    inline int name(const real_t* x, int n, real_t v) {                                                    \
        py::Array a(x, static_cast<std::size_t>(n));                                                       \
        const long r = py::integer(#name, py::call("algorithm", #name, a.a, v));                           \
        a.check(#name);                                                                                    \
        return static_cast<int>(r);                                                                        \
    }
    PY_SEARCH(linear_search)
    PY_SEARCH(binary_search)
    PY_SEARCH(index_of)
#undef PY_SEARCH
    inline int contains(const real_t* x, int n, real_t v) { return linear_search(x, n, v) >= 0; }
    inline int equal(const real_t* x, int n, const real_t* y) {
        py::Array a(x, static_cast<std::size_t>(n)), b(y, static_cast<std::size_t>(n));
        const bool r = py::boolean("equal", py::call("algorithm", "equal", a.a, b.a));
        a.check("equal");
        b.check("equal");
        return r;
    }
#define PY_SCALAR(mod, name) \
    inline real_t name(real_t x) { return py::number(#name, py::call(mod, #name, x)); }
    PY_SCALAR("converter", db2mag)
    PY_SCALAR("converter", db2pow)
    PY_SCALAR("converter", mag2db)
    PY_SCALAR("converter", pow2db)
    PY_SCALAR("converter", deg2rad)
    PY_SCALAR("converter", rad2deg)
    inline real_t peak2peak(const real_t* x, long n) { return py::reduce("converter", "peak2peak", x, n); }
    inline real_t peak2rms(const real_t* x, long n) { return py::reduce("converter", "peak2rms", x, n); }
    inline void ri2complex(const real_t* re, const real_t* im, long n, complex_t* out) {
        py::Array a(re, static_cast<std::size_t>(n)), b(im, static_cast<std::size_t>(n));
        const auto r = py::elements<py::complex>("ri2complex", py::call("converter", "ri2complex", a.a, b.a), n, {&a, &b});
        a.check("ri2complex");
        b.check("ri2complex");
        std::copy(r.begin(), r.end(), reinterpret_cast<py::complex*>(out));
    }
    inline void real2complex(const real_t* re, long n, complex_t* out) { py::map("converter", "real2complex", re, n, reinterpret_cast<py::complex*>(out), n); }
    inline void complex2real(const complex_t* z, long n, real_t* re, real_t* im) {
        py::Array a(reinterpret_cast<const py::complex*>(z), static_cast<std::size_t>(n));
        const auto r = py::call("converter", "complex2real", a.a);
        VP_CHECK(PyTuple_CheckExact(r.ptr()) && PyTuple_GET_SIZE(r.ptr()) == 2, "complex2real returned no pair");
        const auto x = py::elements<real_t>("complex2real", bp::object(r[0]), n, {&a}), y = py::elements<real_t>("complex2real", bp::object(r[1]), n, {&a});
        a.check("complex2real");
        std::copy(x.begin(), x.end(), re);
        std::copy(y.begin(), y.end(), im);
    }
#define PY_STATISTIC(name) \
    inline real_t name(const real_t* x, int n) { return py::reduce("statistics", #name, x, n); }
    PY_STATISTIC(kurtosis)
    PY_STATISTIC(skewness)
    PY_STATISTIC(geometric_mean)
    PY_STATISTIC(harmonic_mean)
    PY_STATISTIC(max)
    PY_STATISTIC(min)
    PY_STATISTIC(max_abs)
    PY_STATISTIC(min_abs)
    PY_STATISTIC(mean)
    PY_STATISTIC(median)
    PY_STATISTIC(variance)
    PY_STATISTIC(standard_deviation)
    PY_STATISTIC(norm)
#undef PY_STATISTIC
    inline real_t moment(const real_t* x, int n, int k) { return py::reduce("statistics", "moment", x, n, k); }
    inline real_t generalized_mean(const real_t* x, int n, int k) { return py::reduce("statistics", "generalized_mean", x, n, k); }
    inline Peak peaks(const char* name, const real_t* x, int n) {
        py::Array a(x, static_cast<std::size_t>(n));
        const auto r = py::call("statistics", name, a.a);
        a.check(name);
        VP_CHECK(PyTuple_CheckExact(r.ptr()) && PyTuple_GET_SIZE(r.ptr()) == 2, name << " returned no pair");
        return {static_cast<int>(py::integer(name, bp::object(r[0]))), py::number(name, bp::object(r[1]))};
    }
    inline Peak peak(const real_t* x, int n) { return peaks("peak", x, n); }
    inline Peak peak_abs(const real_t* x, int n) { return peaks("peak_abs", x, n); }

    inline int get_fft_size(int n) { return n / 2 + 1; }
    inline int get_ifft_size(int n) { return 2 * (n - 1); }
    inline void from_complex(const char* name, const complex_t* in, int n, py::complex* out) {
        py::Array a(reinterpret_cast<const py::complex*>(in), static_cast<std::size_t>(n));
        const auto r = py::elements<py::complex>(name, py::call("spectral", name, a.a), n, {&a});
        a.check(name);
        std::copy(r.begin(), r.end(), out);
    }
    inline void fft(const real_t* x, int n, complex_t* out) { py::map("spectral", "rfft", x, n, reinterpret_cast<py::complex*>(out), get_fft_size(n)); }
    inline void ifft(const complex_t* in, int n, real_t* out) {
        py::Array a(reinterpret_cast<const py::complex*>(in), static_cast<std::size_t>(n));
        const auto r = py::elements<real_t>("irfft", py::call("spectral", "irfft", a.a), get_ifft_size(n), {&a});
        a.check("irfft");
        std::copy(r.begin(), r.end(), out);
    }
    inline void complex_fft(const complex_t* in, int n, complex_t* out) { from_complex("fft", in, n, reinterpret_cast<py::complex*>(out)); }
    inline void complex_ifft(const complex_t* in, int n, complex_t* out) { from_complex("ifft", in, n, reinterpret_cast<py::complex*>(out)); }
#define PY_TRANSFORM(name) \
    inline void name(const real_t* x, int n, real_t* out) { py::map("spectral", #name, x, n, out, n); }
    PY_TRANSFORM(dct)
    PY_TRANSFORM(idct)
    PY_TRANSFORM(hartley)
    PY_TRANSFORM(cepstrum)
#undef PY_TRANSFORM
    inline void spectrum(const real_t* x, int n, real_t* out) { py::map("spectral", "spectrum", x, n, out, get_fft_size(n)); }
    inline void hilbert(const real_t* x, int n, complex_t* out) { py::map("spectral", "hilbert", x, n, reinterpret_cast<py::complex*>(out), n); }
    inline void pair(const char* name, const real_t* x, const real_t* y, int n, real_t* out) {
        py::Array a(x, static_cast<std::size_t>(n)), b(y, static_cast<std::size_t>(n));
        const auto r = py::elements<real_t>(name, py::call("spectral", name, a.a, b.a), n, {&a, &b});
        a.check(name);
        b.check(name);
        std::copy(r.begin(), r.end(), out);
    }
    inline void conv(const real_t* x, const real_t* y, int n, real_t* out) { pair("conv", x, y, n, out); }
    inline void xcorr(const real_t* x, const real_t* y, int n, real_t* out) { pair("xcorr", x, y, n, out); }
} // namespace api

namespace pyfeature {
#define PY_FEATURE(mod, name)                                    \
    template <typename I>                                        \
    double name(I b, I e) {                                      \
        const auto v = py::gather(b, e);                         \
        return py::reduce(mod, #name, v.data(), static_cast<long>(v.size())); \
    }
#define PY_FEATURE_ARG(mod, name)                                \
    template <typename I, typename A>                            \
    double name(I b, I e, A arg) {                               \
        const auto v = py::gather(b, e);                         \
        return py::reduce(mod, #name, v.data(), static_cast<long>(v.size()), arg); \
    }
#define PY_FEATURE_PAIR(mod, name)                               \
    template <typename I, typename J>                            \
    double name(I b, I e, J o) {                                 \
        const auto v = py::gather(b, e), w = py::gather(o, o + (e - b)); \
        return py::reduce2(mod, #name, v.data(), w.data(), static_cast<long>(v.size())); \
    }
    PY_FEATURE("temporal", energy)
    PY_FEATURE("temporal", power)
    PY_FEATURE("temporal", rms)
    PY_FEATURE("temporal", rssq)
    PY_FEATURE("temporal", leq)
    PY_FEATURE("temporal", azcr)
    PY_FEATURE_ARG("temporal", duration)
    template <typename I, typename A, typename B>
    double effective_duration(I b, I e, A rate, B threshold) {
        const auto v = py::gather(b, e);
        return py::reduce("temporal", "effective_duration", v.data(), static_cast<long>(v.size()), rate, threshold);
    }
    template <typename I>
    void amdf(I b, I e, double* out) {
        const auto v = py::gather(b, e);
        py::map("temporal", "amdf", v.data(), static_cast<long>(v.size()), out, static_cast<long>(v.size()));
    }
    template <typename I>
    void asdf(I b, I e, double* out) {
        const auto v = py::gather(b, e);
        py::map("temporal", "asdf", v.data(), static_cast<long>(v.size()), out, static_cast<long>(v.size()));
    }
    PY_FEATURE("spectral", spectral_crest)
    PY_FEATURE("spectral", spectral_decrease)
    PY_FEATURE("spectral", spectral_entropy)
    PY_FEATURE("spectral", spectral_flatness)
    PY_FEATURE("spectral", spectral_irregularity)
    PY_FEATURE("spectral", spectral_kurtosis)
    PY_FEATURE("spectral", spectral_skewness)
    PY_FEATURE_ARG("spectral", spectral_rolloff)
    PY_FEATURE_PAIR("spectral", spectral_centroid)
    PY_FEATURE_PAIR("spectral", spectral_spread)
    PY_FEATURE_PAIR("spectral", spectral_slope)
    PY_FEATURE_PAIR("spectral", spectral_flux)
    PY_FEATURE_PAIR("spectral", spectral_variation)
    namespace statistics {
        PY_FEATURE("statistics", centroid)
        PY_FEATURE("statistics", spread)
        PY_FEATURE("statistics", crest)
        PY_FEATURE("statistics", decrease)
        PY_FEATURE("statistics", entropy)
        PY_FEATURE("statistics", flatness)
        PY_FEATURE_ARG("statistics", rolloff)
        PY_FEATURE_PAIR("statistics", weighted_centroid)
        PY_FEATURE_PAIR("statistics", weighted_spread)
        PY_FEATURE_PAIR("statistics", slope)
        PY_FEATURE_PAIR("statistics", flux)
    } // namespace statistics
#undef PY_FEATURE
#undef PY_FEATURE_ARG
#undef PY_FEATURE_PAIR
} // namespace pyfeature

namespace pyauditory {
    using api::real_t;
#define PY_BOTH(name) PY_SCALAR("auditory", hertz2##name) PY_SCALAR("auditory", name##2hertz)
    PY_SCALAR("auditory", hertz2mel)
    PY_SCALAR("auditory", hertz2erb)
    PY_SCALAR("auditory", hertz2bark)
    PY_SCALAR("auditory", hertz2cent)
    PY_SCALAR("auditory", mel2hertz)
    PY_SCALAR("auditory", erb2hertz)
    PY_SCALAR("auditory", bark2hertz)
    PY_SCALAR("auditory", cent2hertz)
#undef PY_BOTH
    inline void melspace(double* b, double* e, double lo, double hi) { api::generate("auditory", "melspace", b, static_cast<int>(e - b), lo, hi); }
    inline void erbspace(double* b, double* e, double lo, double hi) { api::generate("auditory", "erbspace", b, static_cast<int>(e - b), lo, hi); }
    inline void barkspace(double* b, double* e, double lo, double hi) { api::generate("auditory", "barkspace", b, static_cast<int>(e - b), lo, hi); }
    inline void centspace(double* b, double* e, double lo, double hi) { api::generate("auditory", "centspace", b, static_cast<int>(e - b), lo, hi); }
} // namespace pyauditory

// the classes that keep state
namespace pyobject {
    struct Moving {
        bp::object o;
        std::string name;
        Moving(const char* cls, std::size_t n) : o(py::call("filter", cls, n)), name(cls) {}
        std::size_t size() { return static_cast<std::size_t>(py::integer("size", py::guarded(name + ".size", [&] { return bp::object(o.attr("size")()); }))); }
        void reset() { py::guarded(name + ".reset", [&] { return bp::object(o.attr("reset")()); }); }
        void resize(std::size_t n) { py::guarded(name + ".resize", [&] { return bp::object(o.attr("resize")(n)); }); }
        double operator()(double v) { return py::number(name, py::guarded(name, [&] { return bp::object(o(v)); })); }
        void filter(const double* b, const double* e, double* out) {
            py::Array a(b, static_cast<std::size_t>(e - b));
            const auto r = py::elements<double>(name, py::guarded(name + ".filter", [&] { return bp::object(o.attr("filter")(a.a)); }), e - b, {&a});
            a.check(name + ".filter");
            std::copy(r.begin(), r.end(), out);
        }
    };
    template <typename T>
    struct moving_average : Moving {
        explicit moving_average(std::size_t n) : Moving("MovingAverageFilter", n) {}
    };
    template <typename T>
    struct moving_rms : Moving {
        explicit moving_rms(std::size_t n) : Moving("MovingRmsFilter", n) {}
    };
    template <typename T>
    struct moving_median : Moving {
        explicit moving_median(std::size_t n) : Moving("MovingMedianFilter", n) {}
    };

    struct Oscillator {
        bp::object o;
        std::string name;
        template <typename... A>
        explicit Oscillator(const char* cls, const A&... a) : o(py::call("oscillator", cls, a...)), name(cls) {}
        double get(const char* what) const { return py::number(what, py::guarded(name + "." + what, [&] { return bp::object(o.attr(what)()); })); }
        void set(const char* what, double v) { py::guarded(name + "." + what, [&] { return bp::object(o.attr(what)(v)); }); }
        double amplitude() const { return get("amplitude"); }
        double frequency() const { return get("frequency"); }
        double sample_rate() const { return get("sample_rate"); }
        double timestamp() const { return get("timestamp"); }
        double phase() const { return get("phase"); }
        void set_amplitude(double v) { set("set_amplitude", v); }
        void set_frequency(double v) { set("set_frequency", v); }
        void set_sample_rate(double v) { set("set_sample_rate", v); }
        void set_timestamp(double v) { set("set_timestamp", v); }
        void set_phase(double v) { set("set_phase", v); }
        void reset() { py::guarded(name + ".reset", [&] { return bp::object(o.attr("reset")()); }); }
        std::vector<double> generate(long n) { return py::elements<double>(name + ".generate", py::guarded(name + ".generate", [&] { return bp::object(o.attr("generate")(n)); }), n); }
        double operator()() { return generate(1)[0]; }
    };
    template <typename T>
    struct sin_oscillator : Oscillator {
        sin_oscillator(T a, T r, T f, T p) : Oscillator("Sinusoidal", a, r, f, p) {}
    };
    template <typename T>
    struct square_oscillator : Oscillator {
        square_oscillator(T a, T r, T f, T d) : Oscillator("Square", a, r, f, d) {}
        void set_duty(T v) { set("set_duty", v); }
        double duty() const { return get("duty"); }
    };
    template <typename T>
    struct sawtooth_oscillator : Oscillator {
        sawtooth_oscillator(T a, T r, T f, T w) : Oscillator("Sawtooth", a, r, f, w) {}
        void set_width(T v) { set("set_width", v); }
        double width() const { return get("width"); }
    };
    template <typename T>
    struct triangular_oscillator : Oscillator {
        triangular_oscillator(T a, T r, T f) : Oscillator("Triangular", a, r, f) {}
        double width() const { return get("width"); }
    };
} // namespace pyobject
