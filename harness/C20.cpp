// C20: what the encoder writes, the decoder reads back.
#include <memory>
#include "ref_audio.hpp"
#include <edsp/io/encoder.hpp>
#include <edsp/io/decoder.hpp>
using namespace vp;

namespace {
    std::vector<std::size_t> splits(Src& s, std::size_t total, std::size_t channels, bool whole) {
        std::vector<std::size_t> parts;
        std::size_t left = total;
        const auto mode  = s.draw(3);
        while (left > 0 && parts.size() < 60) {
            std::size_t k = mode == 0 ? left : mode == 1 ? static_cast<std::size_t>(s.size(0, 40)) * channels : static_cast<std::size_t>(s.size(0, 3000)) * channels;
            if (!whole && s.one_in(3)) {
                k += s.draw(channels);
            }
            k = std::min(k, left);
            parts.push_back(k);
            left -= k;
        }
        if (left > 0) {
            parts.push_back(left);
        }
        return parts;
    }

    // reading the whole content with a decoder of some buffer size, in some split, through some iterator
    template <typename T, std::size_t N>
    std::vector<T> decode(Src& s, const std::string& file, std::size_t expected, std::size_t channels, int rate) {
        edsp::io::decoder<T, N> dec;
        VP_CHECK(!dec.is_open(), "a new decoder is open");
        VP_CHECK(dec.open(file), "the decoder cannot open the file");
        VP_CHECK(dec.is_open(), "the decoder opened the file and is not open");
        VP_CHECK(dec.channels() == static_cast<long>(channels), "the decoder reports " << dec.channels() << " channels, expected " << channels);
        VP_CHECK(dec.sample_rate() == rate, "the decoder reports a rate of " << dec.sample_rate() << ", expected " << rate);
        VP_CHECK(dec.frames() == static_cast<long>(expected / channels), "the decoder reports " << dec.frames() << " frames, expected " << expected / channels);
        VP_CHECK(dec.samples() == static_cast<long>(expected), "the decoder reports " << dec.samples() << " samples, expected " << expected);
        VP_CHECK(dec.seekable(), "the decoder reports that a plain file is not seekable");
        std::vector<T> all;
        const bool whole  = s.flip();
        const auto extra  = static_cast<std::size_t>(s.size(0, 40));
        const auto parts  = splits(s, expected + extra, channels, whole);
        for (auto k : parts) {
            const auto want = std::min(k - k % channels, expected - all.size());
            if (s.flip()) {
                Buf<T> b(k, static_cast<T>(7));
                const auto n = dec.read(b.begin(), b.end());
                VP_CHECK(n == static_cast<long>(want), "read of " << k << " samples at " << all.size() << " of " << expected << " returned " << n << ", expected " << want);
                all.insert(all.end(), b.p, b.p + n);
                for (std::size_t i = want; i < k; ++i) {
                    VP_CHECK(b.p[i] == static_cast<T>(7), "read of " << k << " samples returned " << n << " and wrote at " << i);
                }
            } else {
                std::deque<T> b(k, static_cast<T>(7));
                const auto n = dec.read(b.begin(), b.end());
                VP_CHECK(n == static_cast<long>(want), "read of " << k << " samples at " << all.size() << " of " << expected << " returned " << n << ", expected " << want);
                all.insert(all.end(), b.begin(), b.begin() + n);
            }
            VP_CHECK(dec.current() == static_cast<long>(all.size() / channels), "the decoder is at frame " << dec.current() << " after reading " << all.size() << " samples");
        }
        // complete, whatever the split left over
        for (int guard = 0; guard < 4 && all.size() < expected; ++guard) {
            Buf<T> b(expected - all.size());
            const auto n = dec.read(b.begin(), b.end());
            VP_CHECK(n == static_cast<long>(b.n), "the rest of " << b.n << " samples came as " << n);
            all.insert(all.end(), b.p, b.p + n);
        }
        Buf<T> b(channels);
        VP_CHECK(dec.read(b.begin(), b.end()) == 0, "there is more than everything");
        if (s.flip()) {
            dec.close();
            VP_CHECK(!dec.is_open(), "the decoder is closed and open");
        }
        return all;
    }
    template <typename T>
    std::vector<T> decode_any(Src& s, const std::string& file, std::size_t expected, std::size_t channels, int rate) {
        switch (s.draw(3)) {
            case 0:
                return decode<T, 1024>(s, file, expected, channels, rate);
            case 1:
                return decode<T, 40>(s, file, expected, channels, rate);
            case 2:
                return decode<T, 97>(s, file, expected, channels, rate);
            default:
                return decode<T, 4096>(s, file, expected, channels, rate);
        }
    }

    // what a sample of type W should be when it is read as type R
    template <typename R, typename W>
    bool reads_as(R got, W v) {
        const bool rf = std::is_floating_point<R>::value, wf = std::is_floating_point<W>::value;
        if (rf && wf) {
            return audio::same(got, static_cast<R>(v));
        }
        const ld unit = wf ? 1 : sizeof(W) == 2 ? 32768.0L : 2147483648.0L;
        if (rf) { // PCM as fractions of full scale
            return std::abs(static_cast<ld>(got) - static_cast<ld>(v) / unit) <= 2 * static_cast<ld>(std::numeric_limits<R>::epsilon());
        }
        if (sizeof(R) == sizeof(W)) {
            return static_cast<ld>(got) == static_cast<ld>(v);
        }
        return sizeof(R) == 2 ? static_cast<long>(got) == (static_cast<long>(v) >> 16) : static_cast<long>(got) == static_cast<long>(v) * 65536;
    }
    template <typename R, typename W>
    void read_back(Src& s, const std::string& file, const std::vector<W>& written, std::size_t channels, int rate) {
        const auto got = decode_any<R>(s, file, written.size(), channels, rate);
        VP_CHECK(got.size() == written.size(), got.size() << " samples read, " << written.size() << " written");
        for (std::size_t i = 0; i < got.size(); ++i) {
            VP_CHECK(reads_as(got[i], written[i]), "sample " << i << " (frame " << i / channels << ", channel " << i % channels << ") written as " << audio::type<W>() << " " << written[i] << " is read as "
                                                             << audio::type<R>() << " " << got[i]);
        }
    }

    template <typename T>
    void round_trip(Src& s, Ctx& c) {
        const auto ch   = static_cast<std::size_t>(audio::channels(s));
        const int rate  = audio::rate(s);
        // now and then a long recording of a round number of frames, or as many writes as there are frames
        const bool round = ch <= 4 && s.one_in(120), crumbs = !round && s.one_in(40);
        const auto data  = audio::samples<T>(s, ch * static_cast<std::size_t>(round ? (1L << s.range<int>(10, ch == 1 ? 17 : 16)) * s.pick({1L, 1L, 3L}) + s.pick({0L, 0L, -1L, 1L}) : s.size(0, s.one_in(10) ? 12000 : 1500)));
        const auto kind = s.draw(3); // read as
        const bool partial = !round && !crumbs && s.one_in(4);
        size_label(c, data.size() / ch);
        c.label(ch <= 2 ? "1-2 channels" : ch <= 8 ? "3-8 channels" : ">8 channels");
        c.nontrivial(data.size() > ch);
        auto parts = splits(s, data.size(), ch, !partial);
        if (crumbs) {
            parts.assign(data.size() / ch, ch);
            c.label("frame by frame");
        } else if (round) {
            parts = s.flip() ? std::vector<std::size_t>{data.size()} : std::vector<std::size_t>{data.size() / ch / 2 * ch, data.size() - data.size() / ch / 2 * ch};
            c.label("long recording");
        }
        c.describe([&](auto& o) { o << ch << " channels at " << rate << " Hz, " << audio::type<T>() << ", written in " << parts.size() << " parts " << show(parts) << ", samples " << show(data); });
        audio::File file("rt.wav");
        std::vector<T> stored;
        {
            edsp::io::encoder<T> enc(static_cast<std::size_t>(rate), ch);
            VP_CHECK(!enc.is_open(), "a new encoder is open");
            VP_CHECK(enc.open(file.name), "the encoder cannot open a new file");
            VP_CHECK(enc.is_open(), "the encoder opened the file and is not open");
            VP_CHECK(enc.channels() == static_cast<long>(ch) && enc.sample_rate() == rate, "the encoder reports " << enc.channels() << " channels at " << enc.sample_rate());
            std::size_t at = 0;
            for (auto k : parts) {
                const std::vector<T> part(data.begin() + static_cast<long>(at), data.begin() + static_cast<long>(at + k));
                long n;
                if (s.flip()) {
                    const Buf<T> b(part);
                    n = enc.write(b.cbegin(), b.cend());
                    require_unchanged(b, part);
                } else {
                    n = enc.write(part.begin(), part.end());
                }
                VP_CHECK(n >= 0 && n <= static_cast<long>(k), "write of " << k << " samples reports " << n);
                VP_CHECK(k % ch != 0 || n == static_cast<long>(k), "write of " << k / ch << " frames of " << ch << " samples reports " << n << " samples");
                stored.insert(stored.end(), part.begin(), part.begin() + n);
                at += k;
            }
            if (s.flip()) {
                enc.close();
                VP_CHECK(!enc.is_open(), "the encoder is closed and open");
                if (s.flip()) {
                    enc.close();
                }
                if (!data.empty()) {
                    VP_CHECK(enc.write(data.begin(), data.begin() + static_cast<long>(ch)) == 0, "a closed encoder stores samples");
                }
            }
        }
        VP_CHECK(stored.size() % ch == 0, "the encoder reports " << stored.size() << " samples stored, not whole frames of " << ch);
        {
            // by libsndfile alone
            const auto f = audio::read_all<T>(file.name);
            VP_CHECK(f.open, "the file written is not an audio file");
            VP_CHECK(f.info.channels == static_cast<int>(ch) && f.info.samplerate == rate, "the file has " << f.info.channels << " channels at " << f.info.samplerate << " Hz");
            VP_CHECK(f.data.size() == stored.size(), "the file holds " << f.data.size() << " samples, the encoder reported " << stored.size());
            for (std::size_t i = 0; i < stored.size(); ++i) {
                VP_CHECK(audio::same(f.data[i], stored[i]), "sample " << i << " is stored as " << f.data[i] << ", written as " << stored[i]);
            }
        }
        const bool fp = std::is_floating_point<T>::value;
        c.label(kind == 0 ? "read as float" : kind == 1 ? "read as double" : fp ? "read as itself" : kind == 2 ? "read as int16" : "read as int32");
        if (kind == 0) {
            read_back<float>(s, file.name, stored, ch, rate);
        } else if (kind == 1) {
            read_back<double>(s, file.name, stored, ch, rate);
        } else if (fp) {
            read_back<T>(s, file.name, stored, ch, rate);
        } else if (kind == 2) {
            read_back<short>(s, file.name, stored, ch, rate);
        } else {
            read_back<int>(s, file.name, stored, ch, rate);
        }
    }

    // histories over several encoders, decoders and files
    template <typename T>
    void histories(Src& s, Ctx& c) {
        struct Stored {
            bool exists = false;
            std::size_t channels = 0;
            int rate = 0;
            std::vector<T> data;
        };
        struct Enc {
            std::unique_ptr<edsp::io::encoder<T>> e;
            std::size_t channels = 0;
            int rate = 0;
            int file = -1; // open on
        };
        struct Dec {
            std::unique_ptr<edsp::io::decoder<T>> d;
            int file = -1;
            std::size_t at = 0; // in samples
        };
        std::deque<audio::File> files;
        for (int i = 0; i < 3; ++i) {
            files.emplace_back("h" + std::to_string(i) + ".wav");
        }
        std::array<Stored, 3> stored;
        std::array<Enc, 2> enc;
        std::array<Dec, 2> dec;
        History history(c);
        history += std::string(audio::type<T>()) + ": ";
        // a file that an encoder has open is unfinished, one that a decoder has open is not written
        const auto writing = [&](int f) { return enc[0].file == f || enc[1].file == f; };
        const auto reading = [&](int f) { return dec[0].file == f || dec[1].file == f; };
        int written = 0, read = 0;
        const int ops    = s.range<int>(3, 50);
        const int before = audio::open_files();
        for (auto& e : enc) {
            e.channels = static_cast<std::size_t>(audio::channels(s));
            e.rate     = audio::rate(s);
            e.e.reset(new edsp::io::encoder<T>(static_cast<std::size_t>(e.rate), e.channels));
        }
        for (auto& d : dec) {
            d.d.reset(new edsp::io::decoder<T>());
        }
        for (int k = 0; k < ops; ++k) {
            const int i   = s.range<int>(0, 1);
            const int f   = s.range<int>(0, 2);
            auto& e       = enc[static_cast<std::size_t>(i)];
            auto& d       = dec[static_cast<std::size_t>(i)];
            const auto at = std::to_string(i);
            switch (s.one_in(6) ? s.pick({0, 6, 7, 9}) : s.pick({1, 3, 4, 5, 8, 8, 10, 10, 10})) {
                case 0: { // a new encoder in place of the old one, which is destroyed in whatever state
                    e.channels = static_cast<std::size_t>(audio::channels(s));
                    e.rate     = audio::rate(s);
                    e.e.reset();
                    e.file = -1;
                    e.e.reset(new edsp::io::encoder<T>(static_cast<std::size_t>(e.rate), e.channels));
                    history += "new enc" + at + "(" + std::to_string(e.channels) + " ch) ";
                    break;
                }
                case 1: {
                    if ((writing(f) && e.file != f) || reading(f)) {
                        break;
                    }
                    history += "enc" + at + ".open(" + std::to_string(f) + ") ";
                    VP_CHECK(e.e->open(files[static_cast<std::size_t>(f)].name), "the encoder cannot open a file to write");
                    e.file                               = f;
                    stored[static_cast<std::size_t>(f)] = Stored{true, e.channels, e.rate, {}};
                    break;
                }
                case 3:
                case 4:
                case 5: {
                    if (!e.e) {
                        break;
                    }
                    const auto data = audio::samples<T>(s, e.channels * static_cast<std::size_t>(s.size(0, 300)));
                    history += "enc" + at + ".write(" + std::to_string(data.size()) + ") ";
                    const auto n = e.e->write(data.begin(), data.end());
                    const auto want = e.file < 0 ? 0 : static_cast<long>(data.size());
                    VP_CHECK(n == want, "write of " << data.size() << " samples reports " << n << (e.file < 0 ? " without an open file" : ""));
                    if (e.file >= 0) {
                        auto& v = stored[static_cast<std::size_t>(e.file)].data;
                        v.insert(v.end(), data.begin(), data.end());
                        written += !data.empty();
                    }
                    break;
                }
                case 6: {
                    if (!e.e) {
                        break;
                    }
                    if (s.one_in(3)) {
                        history += "enc" + at + ".open(nowhere) ";
                        VP_CHECK(!e.e->open(vp::scratch_dir() + "/no/such/place/x.wav"), "the encoder opened a file in a folder that does not exist");
                    } else {
                        history += "enc" + at + ".close ";
                        e.e->close();
                    }
                    e.file = -1;
                    break;
                }
                case 7: {
                    d.d.reset();
                    d.file = -1;
                    d.d.reset(new edsp::io::decoder<T>());
                    history += "new dec" + at + " ";
                    break;
                }
                case 8: {
                    if (!d.d) {
                        break;
                    }
                    for (int j = 0; j < 2; ++j) { // finish the file first
                        if (enc[static_cast<std::size_t>(j)].file == f) {
                            history += "enc" + std::to_string(j) + ".close ";
                            enc[static_cast<std::size_t>(j)].e->close();
                            enc[static_cast<std::size_t>(j)].file = -1;
                        }
                    }
                    history += "dec" + at + ".open(" + std::to_string(f) + ") ";
                    const bool there = stored[static_cast<std::size_t>(f)].exists;
                    VP_CHECK(d.d->open(files[static_cast<std::size_t>(f)].name) == there, "the decoder " << (there ? "cannot open a file" : "opened a file that does not exist"));
                    d.file = there ? f : -1;
                    d.at   = 0;
                    break;
                }
                case 9: {
                    if (!d.d) {
                        break;
                    }
                    history += "dec" + at + ".close ";
                    d.d->close();
                    d.file = -1;
                    break;
                }
                default: {
                    if (!d.d) {
                        break;
                    }
                    const auto& st   = stored[static_cast<std::size_t>(d.file < 0 ? 0 : d.file)];
                    const auto ch    = d.file < 0 ? 1 : st.channels;
                    const auto count = static_cast<std::size_t>(s.size(0, 2000));
                    history += "dec" + at + ".read(" + std::to_string(count) + ") ";
                    Buf<T> b(count);
                    const auto n    = d.d->read(b.begin(), b.end());
                    const auto want = d.file < 0 ? 0 : std::min(count - count % ch, st.data.size() - d.at);
                    VP_CHECK(n == static_cast<long>(want), "read of " << count << " samples returned " << n << ", expected " << want);
                    for (std::size_t j = 0; j < want; ++j) {
                        VP_CHECK(audio::same(b.p[j], st.data[d.at + j]), "sample " << d.at + j << " is read as " << b.p[j] << ", was written as " << st.data[d.at + j]);
                    }
                    d.at += want;
                    read += want > 0;
                }
            }
            for (auto& x : enc) {
                if (x.e) {
                    VP_CHECK(x.e->is_open() == (x.file >= 0), "an encoder is " << (x.file >= 0 ? "not open" : "open") << " after " << history);
                    VP_CHECK(x.e->channels() == static_cast<long>(x.channels) && x.e->sample_rate() == x.rate, "an encoder reports " << x.e->channels() << " channels at " << x.e->sample_rate());
                }
            }
            for (auto& x : dec) {
                if (x.d) {
                    const auto& st = stored[static_cast<std::size_t>(std::max(0, x.file))];
                    const bool on  = x.file >= 0;
                    VP_CHECK(x.d->is_open() == on, "a decoder is " << (on ? "not open" : "open") << " after " << history);
                    VP_CHECK(x.d->channels() == (on ? static_cast<long>(st.channels) : 0), "a decoder reports " << x.d->channels() << " channels after " << history);
                    VP_CHECK(x.d->samples() == (on ? static_cast<long>(st.data.size()) : 0), "a decoder reports " << x.d->samples() << " samples after " << history);
                    VP_CHECK(x.d->frames() * x.d->channels() == x.d->samples(), "a decoder reports " << x.d->frames() << " frames");
                    VP_CHECK(x.d->sample_rate() == (on ? st.rate : 0), "a decoder reports a rate of " << x.d->sample_rate());
                }
            }
            if (s.one_in(4)) { // what is closed or destroyed is given back to the system
                const int open = (enc[0].file >= 0) + (enc[1].file >= 0) + (dec[0].file >= 0) + (dec[1].file >= 0);
                VP_CHECK(audio::open_files() - before == open, audio::open_files() - before << " files are open, by " << open << " encoders and decoders, after " << history);
            }
        }
        for (auto& x : enc) {
            x.e.reset();
            x.file = -1;
        }
        for (auto& x : dec) {
            x.d.reset();
        }
        VP_CHECK(audio::open_files() == before, audio::open_files() - before << " files stay open when all encoders and decoders are destroyed");
        // in the end every file holds what was written to it last
        for (std::size_t f = 0; f < 3; ++f) {
            const auto all = audio::read_all<T>(files[f].name);
            VP_CHECK(all.open == stored[f].exists, "file " << f << (all.open ? " exists" : " is not an audio file"));
            VP_CHECK(all.data.size() == stored[f].data.size(), "file " << f << " holds " << all.data.size() << " samples, " << stored[f].data.size() << " were written");
            for (std::size_t j = 0; j < all.data.size(); ++j) {
                VP_CHECK(audio::same(all.data[j], stored[f].data[j]), "file " << f << ", sample " << j << " is " << all.data[j] << ", written as " << stored[f].data[j]);
            }
        }
        c.label(read ? "written and read" : written ? "written only" : "nothing written");
        c.nontrivial(read > 0);
    }
} // namespace

VP_FAMILY("round trip", 80000, 1500000, "frames written in any split by the encoder, read by libsndfile and by the decoder as any type in any split; non-trivial: more than one frame") { AUDIO_DISPATCH(round_trip); }
VP_FAMILY("histories", 60000, 1200000, "open, write, close, reopen, read and destroy two encoders and two decoders over three files; non-trivial: something written is read by a decoder") { AUDIO_DISPATCH(histories); }
