// C34: transforms, files and streams
#include "ranges.hpp"
#include <sndfile.h>
#include <unistd.h>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/resampler.hpp>

namespace {
    std::vector<double> c34_read(const std::string& file) {
        SF_INFO i{};
        auto* f = sf_open(file.c_str(), SFM_READ, &i);
        if (!f) {
            return {-1};
        }
        std::vector<double> d(static_cast<std::size_t>(i.frames * i.channels));
        sf_readf_double(f, d.data(), i.frames);
        sf_close(f);
        return d;
    }
    template <typename T>
    void c34_write(const std::string& file, const std::vector<T>& x, long n) {
        SF_INFO i{};
        i.channels   = 1;
        i.samplerate = 8000;
        i.format     = SF_FORMAT_WAV | SF_FORMAT_DOUBLE;
        auto* f      = sf_open(file.c_str(), SFM_WRITE, &i);
        const std::vector<double> d(x.begin(), x.end());
        sf_writef_double(f, d.data(), n);
        sf_close(f);
    }
    template <typename T, typename In, typename Out>
    struct Resample {
        static void run(const c34::Case<T>&, c34::V&) {}
    };
    template <typename In, typename Out>
    struct Resample<float, In, Out> { // only this type is resampled
        static void run(const c34::Case<float>& c, c34::V& v) {
            const float ratio = c.pos[0] > 8 ? 8.0f : c.pos[0] < 0.1f ? 0.1f : c.pos[0];
            const auto quality = static_cast<edsp::io::resample_quality>(c.k % 5);
            edsp::io::resampler<float> r(1 + c.k % 2, quality, ratio);
            for (const auto* part : {&c.a, &c.b, &c.pos}) {
                const auto frames = static_cast<long>(part->size()) / (1 + c.k % 2);
                const typename In::template of<float> x(std::vector<float>(part->begin(), part->begin() + frames * (1 + c.k % 2)));
                typename Out::template of<float> d(std::vector<float>(static_cast<std::size_t>(static_cast<double>(ratio) * static_cast<double>(frames)) * (1 + c.k % 2)));
                const auto got = r.process(x.begin(), x.end(), d.begin());
                c34::put(v, static_cast<double>(got.first));
                c34::put(v, static_cast<double>(got.second));
                c34::intact(d.untouched());
                c34::put(v, d);
            }
        }
    };
} // namespace

C34_OP("transforms", dft, auto d = oc(n / 2 + 1); edsp::spectral::dft(x.begin(), x.end(), d.begin()); done(d);)
C34_OP("transforms", idft, auto d = o(2 * (n - 1)); edsp::spectral::idft(z.begin(), z.end(), d.begin()); done(d);)
C34_OP("transforms", cdft, auto d = oc(n); edsp::spectral::cdft(z.begin(), z.end(), d.begin()); done(d);)
C34_OP("transforms", cidft, auto d = oc(n); edsp::spectral::cidft(z.begin(), z.end(), d.begin()); done(d);)
C34_OUT("transforms", dct, edsp::spectral::dct(x.begin(), x.end(), d.begin()))
C34_OUT("transforms", idct, edsp::spectral::idct(x.begin(), x.end(), d.begin()))
C34_OUT("transforms", hartley, edsp::spectral::hartley(x.begin(), x.end(), d.begin()))
C34_OP("transforms", hilbert, auto d = oc(n); edsp::spectral::hilbert(x.begin(), x.end(), d.begin()); done(d);)
C34_OUT("transforms", conv, edsp::spectral::conv(x.begin(), x.end(), y.begin(), d.begin()))
C34_OUT("transforms", xcorr, edsp::spectral::xcorr(x.begin(), x.end(), y.begin(), d.begin()))
C34_OUT("transforms", autocorr, edsp::spectral::xcorr(x.begin(), x.end(), d.begin()))
C34_OP("transforms", spectrum, auto d = o(n / 2 + 1); edsp::spectral::spectrum(x.begin(), x.end(), d.begin()); done(d);)
C34_OUT("transforms", cepstrum, edsp::spectral::cepstrum(pos.begin(), pos.end(), d.begin()))
C34_OP("files and streams", encoder, const auto file = vp::scratch_dir() + "/c34-" + std::to_string(getpid()) + ".wav"; edsp::io::encoder<T> e(8000, 1); c34::put(v, e.open(file)); c34::put(v, static_cast<double>(e.write(x.begin(), x.end()))); c34::put(v, static_cast<double>(e.write(y.begin(), y.end()))); e.close(); c34::put(v, c34_read(file));)
C34_OP("files and streams", decoder, const auto file = vp::scratch_dir() + "/c34-" + std::to_string(getpid()) + ".wav"; c34_write(file, c.pos, n); edsp::io::decoder<T> e; c34::put(v, e.open(file));
       auto d = o(n / 2); c34::put(v, static_cast<double>(e.read(d.begin(), d.end()))); done(d); auto r = o(n); c34::put(v, static_cast<double>(e.read(r.begin(), r.end()))); done(r); e.close();)
C34_OP("files and streams", resampler, Resample<T, In, Out>::run(c, v);)
