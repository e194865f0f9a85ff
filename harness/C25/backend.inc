// library_info compiled under one build configuration; everything is evaluated
// at compile time, so the units do not share inline functions.
#include <edsp/core/internal/config.hpp>
#include <edsp/core/logger.hpp>
#undef USE_LIBFFTW
#undef USE_LIBPFFFT
#undef USE_LIBACCELERATE
#undef USE_LIBAUDIOFILE
#undef USE_LIBSNDFILE
#undef USE_LIBSAMPLERATE
#undef USE_LIBRESAMPLE
#if VARIANT == 0 || VARIANT == 4
#define USE_LIBFFTW
#elif VARIANT == 1 || VARIANT == 5
#define USE_LIBPFFFT
#elif VARIANT == 2 || VARIANT == 7
#define USE_LIBACCELERATE
#endif
#if VARIANT == 0 || VARIANT == 2
#define USE_LIBSNDFILE
#elif VARIANT == 1 || VARIANT == 6 || VARIANT == 7
#define USE_LIBAUDIOFILE
#endif
#if VARIANT == 0 || VARIANT == 5 || VARIANT == 6
#define USE_LIBSAMPLERATE
#elif VARIANT == 1 || VARIANT == 4
#define USE_LIBRESAMPLE
#endif
#include <edsp/core/library_info.hpp>

namespace {
    constexpr int fft(edsp::fft_lib l) {
        return l == edsp::fft_lib::fftw ? 0 : l == edsp::fft_lib::pffft ? 1 : l == edsp::fft_lib::accelerate ? 2 : 3;
    }
    constexpr int codec(edsp::codec_lib l) {
        return l == edsp::codec_lib::audiofile ? 0 : l == edsp::codec_lib::sndfile ? 1 : 2;
    }
    constexpr int resample(edsp::resample_lib l) {
        return l == edsp::resample_lib::sample_rate ? 0 : l == edsp::resample_lib::resample ? 1 : 2;
    }
    constexpr int fft_found      = fft(edsp::library_info::fft_library());
    constexpr int codec_found    = codec(edsp::library_info::codec_library());
    constexpr int resample_found = resample(edsp::library_info::resample_library());
}
#define JOIN2(a, b) a##b
#define JOIN(a, b) JOIN2(a, b)
extern const int JOIN(c25_variant_, VARIANT)[3];
const int JOIN(c25_variant_, VARIANT)[3] = {fft_found, codec_found, resample_found};
