// C34: windows, scales, filters and envelopes
#include "ranges.hpp"
#include <edsp/windowing.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/barkspace.hpp>
#include <edsp/auditory/centspace.hpp>
#include <edsp/auditory/erbspace.hpp>
#include <edsp/auditory/melspace.hpp>
#include <edsp/filter.hpp>
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>

C34_OUT("windows and filters", bartlett, edsp::windowing::bartlett(d.begin(), d.end()))
C34_OUT("windows and filters", blackman, edsp::windowing::blackman(d.begin(), d.end()))
C34_OUT("windows and filters", blackman_harris, edsp::windowing::blackman_harris(d.begin(), d.end()))
C34_OUT("windows and filters", boxcar, edsp::windowing::boxcar(d.begin(), d.end()))
C34_OUT("windows and filters", flattop, edsp::windowing::flattop(d.begin(), d.end()))
C34_OUT("windows and filters", hamming, edsp::windowing::hamming(d.begin(), d.end()))
C34_OUT("windows and filters", hanning, edsp::windowing::hanning(d.begin(), d.end()))
C34_OUT("windows and filters", rectangular, edsp::windowing::rectangular(d.begin(), d.end()))
C34_OUT("windows and filters", triangular, edsp::windowing::triangular(d.begin(), d.end()))
C34_OUT("windows and filters", welch, edsp::windowing::welch(d.begin(), d.end()))
C34_OUT("windows and filters", blackman_nutall, edsp::windowing::blackman_nutall(d.begin(), d.end()))
C34_OUT("windows and filters", barkspace, edsp::auditory::barkspace(d.begin(), d.end(), T(100), T(4000)))
C34_OUT("windows and filters", centspace, edsp::auditory::centspace(d.begin(), d.end(), T(100), T(4000)))
C34_OUT("windows and filters", erbspace, edsp::auditory::erbspace(d.begin(), d.end(), T(100), T(4000)))
C34_OUT("windows and filters", melspace, edsp::auditory::melspace(d.begin(), d.end(), T(100), T(4000)))
C34_OUT("windows and filters", audspace, edsp::auditory::audspace(d.begin(), T(100), T(4000), n, edsp::auditory::auditory_scale::mel))
C34_OUT("windows and filters", biquad, edsp::filter::biquad<T> f(1, T(-.5), T(.2), 1, T(.3), T(.1)); f.filter(x.begin(), x.end(), d.begin()))
C34_OP("windows and filters", cascade, auto d = o(n); auto f = edsp::filter::make_filter<T, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::LowPass, 8>(static_cast<std::size_t>(1 + c.k % 8), T(1000), T(100)); f.filter(x.begin(), x.end(), d.begin()); done(d);)
C34_OUT("windows and filters", moving_average, edsp::filter::moving_average<T> f(1 + c.k % 20); f.filter(x.begin(), x.end(), d.begin()))
C34_OUT("windows and filters", moving_rms, edsp::filter::moving_rms<T> f(1 + c.k % 20); f.filter(x.begin(), x.end(), d.begin()))
C34_OUT("windows and filters", moving_median, edsp::filter::moving_median<T> f(1 + c.k % 20); f.filter(x.begin(), x.end(), d.begin()))
C34_OUT("windows and filters", adsr, edsp::envelope::adsr<T> f; f.set_sample_rate(100); f.set_sustain_level(T(0.5)); f.set_attack_time(T(0.1)); f.set_decay_time(T(0.1)); f.set_release_time(T(0.3)); f.key_on(); std::transform(x.begin(), x.end(), d.begin(), std::ref(f)); f.key_off(); f.apply(x.begin(), x.end(), d.begin()))
C34_OUT("windows and filters", ar, edsp::envelope::ar<T> f(100, T(30), T(80), c.k % 2 == 0); f.apply(x.begin(), x.end(), d.begin()))
