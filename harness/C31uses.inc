// what a unit that includes one public header does with it: {header, statements}; generated once, then kept by hand
// in scope: double x[64], y[64] (read), o[256] (written)
static const std::map<std::string, const char*> uses = {
    {"edsp/algorithm/amplifier.hpp", R"u({ edsp::algorithm::amplifier(x, x + 64, o, double(0.7)); } { edsp::algorithm::amplifier(x, x + 64, o, double(2), double(-1), double(1)); })u"},
    {"edsp/algorithm/binary_search.hpp", R"u((void)edsp::algorithm::binary_search(x, x + 64, 1.0);)u"},
    {"edsp/algorithm/ceil.hpp", R"u(edsp::algorithm::ceil(x, x + 64, o);)u"},
    {"edsp/algorithm/clipper.hpp", R"u(edsp::algorithm::clipper(x, x + 64, o, double(-1), double(1));)u"},
    {"edsp/algorithm/concatenate.hpp", R"u(edsp::algorithm::concatenate(x, x + 64, y, y + 64, o);)u"},
    {"edsp/algorithm/derivative.hpp", R"u(edsp::algorithm::derivative(x, x + 64, o);)u"},
    {"edsp/algorithm/equal.hpp", R"u((void)(edsp::algorithm::equal(x, x + 64, y, y + 64));)u"},
    {"edsp/algorithm/fix.hpp", R"u(edsp::algorithm::fix(x, x + 64, o);)u"},
    {"edsp/algorithm/floor.hpp", R"u(edsp::algorithm::floor(x, x + 64, o);)u"},
    {"edsp/algorithm/indexof.hpp", R"u((void)(edsp::algorithm::index_of(x, x + 64, double(1)));)u"},
    {"edsp/algorithm/linear_search.hpp", R"u((void)edsp::algorithm::linear_search(x, x + 64, 1.0);)u"},
    {"edsp/algorithm/linspace.hpp", R"u(edsp::algorithm::linspace(o, double(-1), double(3), 64);)u"},
    {"edsp/algorithm/logspace.hpp", R"u(edsp::algorithm::logspace(o, double(0), double(2), 64);)u"},
    {"edsp/algorithm/normalize.hpp", R"u({ edsp::algorithm::normalize(x, x + 64, o); } { edsp::algorithm::normalize_rms(x, x + 64, o); })u"},
    {"edsp/algorithm/padder.hpp", R"u(edsp::algorithm::padder(x, x + 64, o, o + 64);)u"},
    {"edsp/algorithm/rectify.hpp", R"u(edsp::algorithm::rectify(x, x + 64, o);)u"},
    {"edsp/algorithm/round.hpp", R"u(edsp::algorithm::round(x, x + 64, o);)u"},
    {"edsp/algorithm/silence.hpp", R"u((void)(edsp::algorithm::silence(x, x + 64, double(2)));)u"},
    {"edsp/auditory/audspace.hpp", R"u(edsp::auditory::audspace(o, double(100), double(4000), 64, edsp::auditory::auditory_scale::mel);)u"},
    {"edsp/auditory/barkspace.hpp", R"u(edsp::auditory::barkspace(o, o + 64, double(100), double(4000));)u"},
    {"edsp/auditory/centspace.hpp", R"u(edsp::auditory::centspace(o, o + 64, double(100), double(4000));)u"},
    {"edsp/auditory/converter/bark2hertz.hpp", R"u((void)edsp::auditory::bark2hertz(1.0);)u"},
    {"edsp/auditory/converter/cent2hertz.hpp", R"u((void)edsp::auditory::cent2hertz(1.0);)u"},
    {"edsp/auditory/converter/erb2hertz.hpp", R"u((void)edsp::auditory::erb2hertz(1.0);)u"},
    {"edsp/auditory/converter/hertz2bark.hpp", R"u((void)edsp::auditory::hertz2bark(1.0);)u"},
    {"edsp/auditory/converter/hertz2cent.hpp", R"u((void)edsp::auditory::hertz2cent(1.0);)u"},
    {"edsp/auditory/converter/hertz2erb.hpp", R"u((void)edsp::auditory::hertz2erb(1.0);)u"},
    {"edsp/auditory/converter/hertz2mel.hpp", R"u((void)edsp::auditory::hertz2mel(1.0);)u"},
    {"edsp/auditory/converter/mel2hertz.hpp", R"u((void)edsp::auditory::mel2hertz(1.0);)u"},
    {"edsp/auditory/erbspace.hpp", R"u(edsp::auditory::erbspace(o, o + 64, double(100), double(4000));)u"},
    {"edsp/auditory/melspace.hpp", R"u(edsp::auditory::melspace(o, o + 64, double(100), double(4000));)u"},
    {"edsp/converter/complex2real.hpp", R"u(std::complex<double> z[64], zo[64]; double o2[64]; edsp::converter::complex2real(z, z + 64, o, o2);)u"},
    {"edsp/converter/db2mag.hpp", R"u((void)edsp::converter::db2mag(1.0);)u"},
    {"edsp/converter/db2pow.hpp", R"u((void)edsp::converter::db2pow(1.0);)u"},
    {"edsp/converter/deg2rad.hpp", R"u((void)edsp::converter::deg2rad(1.0);)u"},
    {"edsp/converter/mag2db.hpp", R"u((void)edsp::converter::mag2db(1.0);)u"},
    {"edsp/converter/peak2peak.hpp", R"u((void)(edsp::converter::peak2peak(x, x + 64));)u"},
    {"edsp/converter/peak2rms.hpp", R"u((void)(edsp::converter::peak2rms(x, x + 64));)u"},
    {"edsp/converter/pow2db.hpp", R"u((void)edsp::converter::pow2db(1.0);)u"},
    {"edsp/converter/rad2deg.hpp", R"u((void)edsp::converter::rad2deg(1.0);)u"},
    {"edsp/converter/real2complex.hpp", R"u({ std::complex<double> z[64], zo[64]; edsp::converter::real2complex(x, x + 64, zo); } { std::complex<double> z[64], zo[64]; edsp::converter::real2complex(x, x + 64, y, zo); })u"},
    {"edsp/core/library_info.hpp", R"u(eInfo() << "" << edsp::fft_lib::fftw << edsp::codec_lib::sndfile << edsp::resample_lib::sample_rate;)u"},
    {"edsp/core/logger.hpp", R"u(eInfo() << "x" << 1;)u"},
    {"edsp/core/system.hpp", R"u(eInfo() << "" << edsp::system_info::os() << edsp::system_info::processor() << edsp::system_info::compiler(); (void)edsp::system_env::exist("HOME"); (void)edsp::system_env::get_env("HOME").has_value();)u"},
    {"edsp/experimental/envelope/adsr.hpp", R"u(edsp::envelope::adsr<double> e; e.set_sample_rate(100); e.set_sustain_level(.5); e.set_attack_time(1); e.set_decay_time(1); e.set_release_time(1); e.key_on(); o[0] = e(1.0); e.apply(x, x + 64, o); e.key_off();)u"},
    {"edsp/experimental/envelope/ar.hpp", R"u(edsp::envelope::ar<double> e(100, 1, 1); e.apply(x, x + 64, o); e.set_attack_time(2); e.set_release_time(2); e.set_rectification(true);)u"},
    {"edsp/experimental/quantizer/mu_law_compressor.hpp", R"u({ edsp::quantizer::mu_law_compression(x, x + 64, o, double(4), 255); } { edsp::quantizer::inverse_mu_law_compression(x, x + 64, o, double(4), 255); })u"},
    {"edsp/feature/perceptual/loudness.hpp", R"u((void)(edsp::feature::perceptual::loudness(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_centroid.hpp", R"u((void)(edsp::feature::spectral::spectral_centroid(y, y + 64, x));)u"},
    {"edsp/feature/spectral/spectral_crest.hpp", R"u((void)(edsp::feature::spectral::spectral_crest(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_decrease.hpp", R"u((void)(edsp::feature::spectral::spectral_decrease(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_entropy.hpp", R"u((void)(edsp::feature::spectral::spectral_entropy(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_flatness.hpp", R"u((void)(edsp::feature::spectral::spectral_flatness(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_flux.hpp", R"u((void)(edsp::feature::spectral::spectral_flux(y, y + 64, x));)u"},
    {"edsp/feature/spectral/spectral_irregularity.hpp", R"u((void)(edsp::feature::spectral::spectral_irregularity(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_kurtosis.hpp", R"u((void)(edsp::feature::spectral::spectral_kurtosis(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_rolloff.hpp", R"u((void)(edsp::feature::spectral::spectral_rolloff(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_skewness.hpp", R"u((void)(edsp::feature::spectral::spectral_skewness(y, y + 64));)u"},
    {"edsp/feature/spectral/spectral_slope.hpp", R"u((void)(edsp::feature::spectral::spectral_slope(y, y + 64, x));)u"},
    {"edsp/feature/spectral/spectral_spread.hpp", R"u((void)(edsp::feature::spectral::spectral_spread(y, y + 64, x));)u"},
    {"edsp/feature/spectral/spectral_variation.hpp", R"u((void)(edsp::feature::spectral::spectral_variation(y, y + 64, x));)u"},
    {"edsp/feature/statistics/centroid.hpp", R"u({ (void)(edsp::feature::statistics::centroid(y, y + 64)); } { (void)(edsp::feature::statistics::weighted_centroid(y, y + 64, x)); })u"},
    {"edsp/feature/statistics/crest.hpp", R"u((void)(edsp::feature::statistics::crest(y, y + 64));)u"},
    {"edsp/feature/statistics/decrease.hpp", R"u((void)(edsp::feature::statistics::decrease(y, y + 64));)u"},
    {"edsp/feature/statistics/entropy.hpp", R"u((void)(edsp::feature::statistics::entropy(y, y + 64));)u"},
    {"edsp/feature/statistics/flatness.hpp", R"u((void)(edsp::feature::statistics::flatness(y, y + 64));)u"},
    {"edsp/feature/statistics/flux.hpp", R"u((void)edsp::feature::statistics::flux<edsp::math::distances::euclidean>(x, x + 64, y);)u"},
    {"edsp/feature/statistics/rolloff.hpp", R"u((void)(edsp::feature::statistics::rolloff(y, y + 64, double(0.8)));)u"},
    {"edsp/feature/statistics/slope.hpp", R"u((void)(edsp::feature::statistics::slope(y, y + 64, x));)u"},
    {"edsp/feature/statistics/spread.hpp", R"u({ (void)(edsp::feature::statistics::spread(y, y + 64)); } { (void)(edsp::feature::statistics::weighted_spread(y, y + 64, x)); })u"},
    {"edsp/feature/statistics/variation.hpp", R"u((void)(edsp::feature::statistics::variation(y, y + 64, x));)u"},
    {"edsp/feature/temporal/amdf.hpp", R"u(edsp::feature::temporal::amdf(x, x + 64, o);)u"},
    {"edsp/feature/temporal/asdf.hpp", R"u(edsp::feature::temporal::asdf(x, x + 64, o);)u"},
    {"edsp/feature/temporal/azcr.hpp", R"u((void)(edsp::feature::temporal::azcr(x, x + 64));)u"},
    {"edsp/feature/temporal/duration.hpp", R"u({ (void)(edsp::feature::temporal::duration(x, x + 64, double(100))); } { (void)(edsp::feature::temporal::effective_duration(x, x + 64, double(100), double(0.4))); })u"},
    {"edsp/feature/temporal/energy.hpp", R"u((void)(edsp::feature::temporal::energy(x, x + 64));)u"},
    {"edsp/feature/temporal/leq.hpp", R"u((void)(edsp::feature::temporal::leq(x, x + 64));)u"},
    {"edsp/feature/temporal/power.hpp", R"u((void)(edsp::feature::temporal::power(x, x + 64));)u"},
    {"edsp/feature/temporal/rms.hpp", R"u((void)(edsp::feature::temporal::rms(x, x + 64));)u"},
    {"edsp/feature/temporal/rssq.hpp", R"u((void)(edsp::feature::temporal::rssq(x, x + 64));)u"},
    {"edsp/feature/temporal/snr.hpp", R"u((void)(edsp::feature::temporal::snr(x, x + 64, y));)u"},
    {"edsp/filter.hpp", R"u(auto f = edsp::filter::make_filter<double, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::LowPass, 8>(5, 1000.0, 100.0); f.filter(x, x + 64, o); auto g = edsp::filter::make_filter<double, edsp::filter::designer_type::ChebyshevI, edsp::filter::filter_type::HighPass, 8>(5, 1000.0, 100.0, 1.0); g.reset(); auto h = edsp::filter::make_filter<double, edsp::filter::designer_type::ChebyshevII, edsp::filter::filter_type::BandPass, 8>(3, 1000.0, 100.0, 20.0, 40.0); h.reset();)u"},
    {"edsp/filter/biquad.hpp", R"u(edsp::filter::biquad<double> bq(1, double(-.5), double(.2), 1, double(.3), double(.1)); bq.filter(x, x + 64, o);)u"},
    {"edsp/filter/biquad_cascade.hpp", R"u(edsp::filter::biquad_cascade<double, 4> f; f.emplace_back(1.0, 0.0, 0.0, 1.0, 0.0, 0.0); f.filter(x, x + 64, o); o[0] = f.tick(1.0); f.reset();)u"},
    {"edsp/filter/moving_average_filter.hpp", R"u(edsp::filter::moving_average<double> f(3); f.filter(x, x + 64, o);)u"},
    {"edsp/filter/moving_median_filter.hpp", R"u(edsp::filter::moving_median<double> f(3); f.filter(x, x + 64, o);)u"},
    {"edsp/filter/moving_rms_filter.hpp", R"u(edsp::filter::moving_rms<double> f(3); f.filter(x, x + 64, o);)u"},
    {"edsp/io/decoder.hpp", R"u(edsp::io::decoder<double> e; (void)e.open("x"); (void)e.read(o, o + 64); e.close();)u"},
    {"edsp/io/encoder.hpp", R"u(edsp::io::encoder<double> e(8000, 1); (void)e.open("x"); (void)e.write(x, x + 64); e.close();)u"},
    {"edsp/io/metadata.hpp", R"u(edsp::io::metadata m("x"); (void)m.title(); (void)m.track();)u"},
    {"edsp/io/resampler.hpp", R"u(edsp::io::resampler<float> r(1, edsp::io::resample_quality::linear, 1.5f); float a[8], b[16]; (void)r.process(a, a + 8, b); r.reset();)u"},
    {"edsp/math/complex.hpp", R"u(std::complex<double> z(1, 2); (void)edsp::math::magnitude(z); (void)edsp::math::phase(z); (void)edsp::math::conj(z); (void)edsp::math::is_nan(z); (void)edsp::math::is_inf(z);)u"},
    {"edsp/math/constant.hpp", R"u(o[0] = edsp::constants<double>::pi;)u"},
    {"edsp/math/numeric.hpp", R"u((void)edsp::math::square(2.0); (void)edsp::math::sign(2.0); (void)edsp::math::is_odd(3); (void)edsp::math::inv(2.0);)u"},
    {"edsp/meta/advance.hpp", R"u((void)edsp::meta::advance(x, 2);)u"},
    {"edsp/meta/cast.hpp", R"u((void)edsp::meta::sc<int>(x[0]);)u"},
    {"edsp/meta/contains.hpp", R"u((void)edsp::meta::contains(x, x + 64, 1.0);)u"},
    {"edsp/meta/data.hpp", R"u((void)edsp::meta::data(x);)u"},
    {"edsp/meta/empty.hpp", R"u((void)edsp::meta::empty(x);)u"},
    {"edsp/meta/ensure.hpp", R"u(edsp::meta::ensure(true, "x");)u"},
    {"edsp/meta/equal.hpp", R"u((void)edsp::meta::equal(x[0], y[0]);)u"},
    {"edsp/meta/expects.hpp", R"u(edsp::meta::expects(true, "x");)u"},
    {"edsp/meta/is_char.hpp", R"u((void)edsp::meta::is_char<char>::value;)u"},
    {"edsp/meta/is_iterator.hpp", R"u((void)edsp::meta::is_iterator<double*>::value;)u"},
    {"edsp/meta/is_null.hpp", R"u(double* p = x; (void)edsp::meta::is_null(p);)u"},
    {"edsp/meta/is_signed.hpp", R"u((void)edsp::meta::is_signed<int>::value;)u"},
    {"edsp/meta/is_unsigned.hpp", R"u((void)edsp::meta::is_unsigned<int>::value;)u"},
    {"edsp/meta/iterator.hpp", R"u(edsp::meta::value_type_t<double*> d = 1; (void)d;)u"},
    {"edsp/meta/size.hpp", R"u((void)edsp::meta::size(x);)u"},
    {"edsp/meta/unused.hpp", R"u(edsp::meta::unused(x);)u"},
    {"edsp/oscillators/sawtooth.hpp", R"u(edsp::oscillators::sawtooth_oscillator<double> w(1, 100, 3, .5); o[0] = w(); w.reset();)u"},
    {"edsp/oscillators/sinusoidal.hpp", R"u(edsp::oscillators::sin_oscillator<double> w(1, 100, 3, 0); o[0] = w(); w.reset();)u"},
    {"edsp/oscillators/square.hpp", R"u(edsp::oscillators::square_oscillator<double> w(1, 100, 3, .5); o[0] = w(); w.reset();)u"},
    {"edsp/oscillators/triangular.hpp", R"u(edsp::oscillators::triangular_oscillator<double> w(1, 100, 3); o[0] = w(); w.reset();)u"},
    {"edsp/random/binary_generator.hpp", R"u(edsp::random::binary_generator<double> g(.5); o[0] = g();)u"},
    {"edsp/random/constant_generator.hpp", R"u(edsp::random::constant_generator<double> g(.5); o[0] = g();)u"},
    {"edsp/random/noise/brown_noise_generator.hpp", R"u(edsp::random::brown_noise_generator<double> g(-1, 1); o[0] = g();)u"},
    {"edsp/random/noise/perlin_noise_generator.hpp", R"u(edsp::random::perlin_noise_generator<double> g; o[0] = g();)u"},
    {"edsp/random/noise/pink_noise_generator.hpp", R"u(edsp::random::pink_noise_generator<double> g(-1, 1); o[0] = g();)u"},
    {"edsp/random/noise/white_noise_generator.hpp", R"u(edsp::random::white_noise_generator<double> g(-1, 1); o[0] = g();)u"},
    {"edsp/random/random_generator.hpp", R"u(edsp::random::random_generator<edsp::random::DistributionType::Normal, double> g(0.0, 1.0); o[0] = g(); edsp::random::random_generator<edsp::random::DistributionType::Uniform, double> u(0.0, 1.0); o[0] = u();)u"},
    {"edsp/spectral/cepstrum.hpp", R"u(edsp::spectral::cepstrum(y, y + 64, o);)u"},
    {"edsp/spectral/convolution.hpp", R"u(edsp::spectral::conv(x, x + 64, y, o);)u"},
    {"edsp/spectral/correlation.hpp", R"u({ edsp::spectral::xcorr(x, x + 64, y, o); } { edsp::spectral::xcorr(x, x + 64, o); })u"},
    {"edsp/spectral/dct.hpp", R"u({ edsp::spectral::dct(x, x + 64, o); } { edsp::spectral::idct(x, x + 64, o); })u"},
    {"edsp/spectral/dft.hpp", R"u({ std::complex<double> z[64], zo[64];  edsp::spectral::dft(x, x + 64, zo); } { std::complex<double> z[64], zo[64];  edsp::spectral::idft(z, z + 64, o); } { std::complex<double> z[64], zo[64]; edsp::spectral::cdft(z, z + 64, zo); } { std::complex<double> z[64], zo[64]; edsp::spectral::cidft(z, z + 64, zo); })u"},
    {"edsp/spectral/fft_engine.hpp", R"u(edsp::spectral::fft_engine<double> f(64); f.dct(x, o); f.idct(x, o); f.dht(x, o); auto g = f; g = f;)u"},
    {"edsp/spectral/hartley.hpp", R"u(edsp::spectral::hartley(x, x + 64, o);)u"},
    {"edsp/spectral/hilbert.hpp", R"u(std::complex<double> z[64], zo[64]; edsp::spectral::hilbert(x, x + 64, zo);)u"},
    {"edsp/spectral/spectrum.hpp", R"u(edsp::spectral::spectrum(x, x + 64, o);)u"},
    {"edsp/statistics/generalized_mean.hpp", R"u((void)(edsp::statistics::generalized_mean(y, y + 64, 3));)u"},
    {"edsp/statistics/geometric_mean.hpp", R"u((void)(edsp::statistics::geometric_mean(y, y + 64));)u"},
    {"edsp/statistics/harmonic_mean.hpp", R"u((void)(edsp::statistics::harmonic_mean(y, y + 64));)u"},
    {"edsp/statistics/kurtosis.hpp", R"u((void)(edsp::statistics::kurtosis(x, x + 64));)u"},
    {"edsp/statistics/max.hpp", R"u({ (void)(edsp::statistics::max(x, x + 64)); } { (void)(edsp::statistics::maxabs(x, x + 64)); })u"},
    {"edsp/statistics/mean.hpp", R"u((void)(edsp::statistics::mean(x, x + 64));)u"},
    {"edsp/statistics/median.hpp", R"u((void)(edsp::statistics::median(x, x + 64));)u"},
    {"edsp/statistics/min.hpp", R"u({ (void)(edsp::statistics::min(x, x + 64)); } { (void)(edsp::statistics::minabs(x, x + 64)); })u"},
    {"edsp/statistics/moment.hpp", R"u({ (void)(edsp::statistics::moment<3>(x, x + 64)); } { (void)(edsp::statistics::moment<3>(x, x + 64, double(1))); })u"},
    {"edsp/statistics/norm.hpp", R"u((void)(edsp::statistics::norm(x, x + 64));)u"},
    {"edsp/statistics/peak.hpp", R"u({ auto pk = edsp::statistics::peak(x, x + 64); (void)(pk.first); (void)(pk.second); } { auto pk = edsp::statistics::peakabs(x, x + 64); (void)(pk.first); (void)(pk.second); })u"},
    {"edsp/statistics/skewness.hpp", R"u((void)(edsp::statistics::skewness(x, x + 64));)u"},
    {"edsp/statistics/variance.hpp", R"u({ (void)(edsp::statistics::variance(x, x + 64)); } { (void)(edsp::statistics::standard_deviation(x, x + 64)); })u"},
    {"edsp/string/join.hpp", R"u(std::string d; std::string w[2]; edsp::string::join(w, w + 2, d, ',');)u"},
    {"edsp/string/split.hpp", R"u(std::string a("a b"); std::string w[2]; edsp::string::split(a, w, ' ');)u"},
    {"edsp/string/to_lower.hpp", R"u(char a[4] = "ABC", b[4]; edsp::string::tolower(a, a + 4, b);)u"},
    {"edsp/string/to_upper.hpp", R"u(char a[4] = "abc", b[4]; edsp::string::toupper(a, a + 4, b);)u"},
    {"edsp/string/trim.hpp", R"u(std::string a(" b "); edsp::string::ltrim(a); edsp::string::rtrim(a); edsp::string::trim(a);)u"},
    {"edsp/types/any.hpp", R"u(edsp::any a(1), b(a);)u"},
    {"edsp/types/expected.hpp", R"u(edsp::expected<int, double> a(1), b(a); b = a; (void)b.value();)u"},
    {"edsp/types/fixed_ring_buffer.hpp", R"u(edsp::fixed_ring_buffer<double, 4> a; a.push_back(1.0); a.pop_back(); auto b = a; a = b; (void)(a.size() + a.capacity()); for (auto e : b) { o[0] = e; })u"},
    {"edsp/types/optional.hpp", R"u(edsp::optional<int> a(1), b(a), c; c = a; (void)(a == b); (void)c.value_or(2);)u"},
    {"edsp/types/ring_buffer.hpp", R"u(edsp::ring_buffer<double> a(4); a.push_back(1.0); a.pop_back(); auto b = a; a = b; (void)(a.size() + a.capacity()); for (auto e : b) { o[0] = e; })u"},
    {"edsp/types/ring_span.hpp", R"u(edsp::ring_span<double> a(x, x + 64); a.push_back(1.0); (void)a.front();)u"},
    {"edsp/types/span.hpp", R"u(edsp::span<double> a(x, 64); (void)a.size(); (void)a[0];)u"},
    {"edsp/types/string_view.hpp", R"u(edsp::string_view a("abc"), b(a); (void)a.find(b); (void)(a == b);)u"},
    {"edsp/types/variant.hpp", R"u(edsp::variant<int, double> a(1), b(a); b = 2.0; (void)b.index();)u"},
    {"edsp/windowing.hpp", R"u(edsp::windowing::make_window<edsp::windowing::WindowType::Hamming>(o, o + 64);)u"},
    {"edsp/windowing/bartlett.hpp", R"u(edsp::windowing::bartlett(o, o + 64);)u"},
    {"edsp/windowing/blackman.hpp", R"u(edsp::windowing::blackman(o, o + 64);)u"},
    {"edsp/windowing/blackman_harris.hpp", R"u(edsp::windowing::blackman_harris(o, o + 64);)u"},
    {"edsp/windowing/blackman_nuttall.hpp", R"u(edsp::windowing::blackman_nutall(o, o + 64);)u"},
    {"edsp/windowing/boxcar.hpp", R"u(edsp::windowing::boxcar(o, o + 64);)u"},
    {"edsp/windowing/flattop.hpp", R"u(edsp::windowing::flattop(o, o + 64);)u"},
    {"edsp/windowing/hamming.hpp", R"u(edsp::windowing::hamming(o, o + 64);)u"},
    {"edsp/windowing/hanning.hpp", R"u(edsp::windowing::hanning(o, o + 64);)u"},
    {"edsp/windowing/rectangular.hpp", R"u(edsp::windowing::rectangular(o, o + 64);)u"},
    {"edsp/windowing/triangular.hpp", R"u(edsp::windowing::triangular(o, o + 64);)u"},
    {"edsp/windowing/welch.hpp", R"u(edsp::windowing::welch(o, o + 64);)u"},
};
