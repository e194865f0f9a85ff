// C21: decoder histories of seeks and reads on any valid file, and any bytes at all as a file.
#include <memory>
#include "ref_audio.hpp"
#include <edsp/io/decoder.hpp>
using namespace vp;

namespace {
    struct Format {
        const char* name;
        int format;
        int most_channels;
    };
    const Format formats[] = {
        {"wav pcm8", SF_FORMAT_WAV | SF_FORMAT_PCM_U8, 8},    {"wav pcm16", SF_FORMAT_WAV | SF_FORMAT_PCM_16, 8},   {"wav pcm24", SF_FORMAT_WAV | SF_FORMAT_PCM_24, 8},
        {"wav pcm32", SF_FORMAT_WAV | SF_FORMAT_PCM_32, 8},   {"wav float", SF_FORMAT_WAV | SF_FORMAT_FLOAT, 8},    {"wav double", SF_FORMAT_WAV | SF_FORMAT_DOUBLE, 8},
        {"wav ulaw", SF_FORMAT_WAV | SF_FORMAT_ULAW, 8},      {"wavex pcm16", SF_FORMAT_WAVEX | SF_FORMAT_PCM_16, 8}, {"aiff pcm16", SF_FORMAT_AIFF | SF_FORMAT_PCM_16, 8},
        {"aiff pcm24", SF_FORMAT_AIFF | SF_FORMAT_PCM_24, 8}, {"au pcm16", SF_FORMAT_AU | SF_FORMAT_PCM_16, 8},    {"au float", SF_FORMAT_AU | SF_FORMAT_FLOAT, 8},
        {"w64 pcm16", SF_FORMAT_W64 | SF_FORMAT_PCM_16, 8},   {"caf pcm16", SF_FORMAT_CAF | SF_FORMAT_PCM_16, 8},  {"flac 16", SF_FORMAT_FLAC | SF_FORMAT_PCM_16, 8},
        {"voc pcm16", SF_FORMAT_VOC | SF_FORMAT_PCM_16, 2},
    };

    // a file of one of the formats; false if libsndfile does not want it
    bool make(Src& s, const std::string& file, const Format& f, long channels, std::size_t frames) {
        SF_INFO i{};
        i.channels   = static_cast<int>(channels);
        i.samplerate = audio::rate(s);
        i.format     = f.format;
        if (!sf_format_check(&i)) {
            return false;
        }
        SNDFILE* h = sf_open(file.c_str(), SFM_WRITE, &i);
        if (!h) {
            return false;
        }
        const auto data = audio::samples<short>(s, frames * static_cast<std::size_t>(channels));
        if (!data.empty()) {
            sf_write_short(h, data.data(), static_cast<sf_count_t>(data.size()));
        }
        sf_close(h);
        return true;
    }

    template <typename T>
    struct Model {
        bool open = false;
        audio::Content<T> c;
        std::size_t at = 0; // frame
        std::size_t frames() const {
            return c.info.channels ? c.data.size() / static_cast<std::size_t>(c.info.channels) : 0;
        }
    };

    template <typename T, std::size_t N>
    void history_of(Src& s, Ctx& c) {
        std::deque<audio::File> files;
        std::size_t longest = 0; // in frames
        std::array<audio::Content<T>, 3> contents; // the last one stays missing or becomes something else
        History text(c);
        text += std::string("decoder<") + audio::type<T>() + "," + std::to_string(N) + ">: ";
        for (std::size_t i = 0; i < 2; ++i) {
            files.emplace_back("s" + std::to_string(i));
            const auto& f = formats[s.draw(sizeof formats / sizeof formats[0] - 1)];
            const bool large = s.one_in(150);
            const auto ch = std::min<long>(f.most_channels, s.range<long>(1, large ? 2 : 8));
            const auto n  = static_cast<std::size_t>(large ? s.range<int>(20000, 140000) : s.size(1, 3000));
            longest       = std::max(longest, n);
            text += "file " + std::to_string(i) + ": " + f.name + ", " + std::to_string(ch) + " channels, " + std::to_string(n) + " frames; ";
            if (!make(s, files[i].name, f, ch, n)) {
                c.label("not written");
                return;
            }
            contents[i] = audio::read_all<T>(files[i].name);
            if (!contents[i].open || contents[i].info.frames != static_cast<sf_count_t>(contents[i].data.size()) / contents[i].info.channels || !contents[i].info.seekable) {
                c.label("not read by libsndfile");
                return;
            }
        }
        files.emplace_back("s2");
        audio::spill(files[2].name, s.flip() ? std::string() : std::string("this is not audio, whatever its name says"));
        Model<T> m;
        const int before = audio::open_files();
        edsp::io::decoder<T, N> dec;
        int seeks = 0, reads = 0;
        const int ops = s.range<int>(2, 40);
        for (int k = 0; k < ops; ++k) {
            switch (k == 0 ? 0 : s.draw(11)) {
                case 0: {
                    const auto which = static_cast<std::size_t>(k == 0 ? s.draw(1) : s.draw(3));
                    const bool good  = which < 2;
                    text += "open(" + std::to_string(which) + ") ";
                    const auto name = which < 3 ? files[which].name : vp::scratch_dir() + "/missing/file.wav";
                    VP_CHECK(dec.open(name) == good, (good ? "a good file is not opened" : "a file that is missing, empty or not audio is opened"));
                    m = Model<T>();
                    if (good) {
                        m.open = true;
                        m.c    = contents[which];
                    }
                    break;
                }
                case 1: {
                    if (s.draw(2)) {
                        break;
                    }
                    text += "close ";
                    dec.close();
                    m = Model<T>();
                    break;
                }
                case 2:
                case 3:
                case 4:
                case 5: {
                    const auto frames = static_cast<long>(m.frames());
                    long p            = s.range<long>(0, std::max(0L, frames - 1));
                    if (s.one_in(4)) {
                        p = s.pick({0L, frames, frames + 1, -1L, frames + 1000, -1000L});
                    }
                    text += "seek(" + std::to_string(p) + ") ";
                    const bool ok = m.open && p >= 0 && p <= frames;
                    const auto r  = dec.seek(p);
                    VP_CHECK(r == (ok ? p : -1), "seek(" << p << ") in " << frames << " frames" << (m.open ? "" : ", closed,") << " returned " << r);
                    if (ok) {
                        m.at = static_cast<std::size_t>(p);
                        ++seeks;
                    }
                    break;
                }
                default: {
                    const auto ch    = static_cast<std::size_t>(m.open ? m.c.info.channels : 1);
                    const auto count = longest > 3000 && s.one_in(3) ? ch * static_cast<std::size_t>(s.flip() ? 1L << s.range<int>(10, 17) : s.range<int>(0, 140000)) : s.one_in(3) ? static_cast<std::size_t>(s.size(0, 5000)) : ch * static_cast<std::size_t>(s.size(0, 300));
                    text += "read(" + std::to_string(count) + ") ";
                    Buf<T> b(count, static_cast<T>(11));
                    const auto n    = dec.read(b.begin(), b.end());
                    const auto want = m.open ? std::min(count - count % ch, (m.frames() - m.at) * ch) : 0;
                    VP_CHECK(n == static_cast<long>(want), "read of " << count << " samples at frame " << m.at << " of " << m.frames() << " returned " << n << ", expected " << want);
                    for (std::size_t i = 0; i < count; ++i) {
                        if (i < want) {
                            VP_CHECK(audio::same(b.p[i], m.c.data[m.at * ch + i]), "read at frame " << m.at << ": sample " << i << " is " << b.p[i] << ", expected " << m.c.data[m.at * ch + i]);
                        } else {
                            VP_CHECK(b.p[i] == static_cast<T>(11), "read wrote past the samples it returned, at " << i);
                        }
                    }
                    m.at += want / ch;
                    reads += want > 0;
                }
            }
            VP_CHECK(dec.is_open() == m.open, "the decoder is " << (m.open ? "not open" : "open"));
            VP_CHECK(dec.current() == (m.open ? static_cast<long>(m.at) : -1), "the decoder is at frame " << dec.current() << ", expected " << (m.open ? static_cast<long>(m.at) : -1));
            VP_CHECK(dec.frames() == static_cast<long>(m.frames()) && dec.samples() == static_cast<long>(m.c.data.size()), "the decoder reports " << dec.frames() << " frames, " << dec.samples() << " samples");
            VP_CHECK(dec.channels() == m.c.info.channels && dec.sample_rate() == m.c.info.samplerate, "the decoder reports " << dec.channels() << " channels at " << dec.sample_rate());
            VP_CHECK(!m.open || dec.seekable(), "the decoder reports a plain file as not seekable");
            if (s.one_in(8)) {
                VP_CHECK(audio::open_files() - before == m.open, "the decoder holds " << audio::open_files() - before << " files open");
            }
        }
        c.label(seeks ? "with seeks" : "no seek");
        c.label(longest > 3000 ? "a large file" : "small files");
        c.nontrivial(seeks > 0 && reads > 1);
    }
    template <typename T>
    void history(Src& s, Ctx& c) {
        switch (s.draw(2)) {
            case 0: return history_of<T, 1024>(s, c);
            case 1: return history_of<T, 11>(s, c);
            default: return history_of<T, 2048>(s, c);
        }
    }

    // any bytes as a file: fails cleanly, or behaves as a decoder of what libsndfile finds in it
    template <typename T>
    void broken(Src& s, Ctx& c) {
        const auto& f = formats[s.draw(sizeof formats / sizeof formats[0] - 2)];
        const auto ch = std::min<long>(f.most_channels, s.range<long>(1, 4));
        const auto n  = static_cast<std::size_t>(s.size(0, 400));
        audio::File file("b");
        if (!make(s, file.name, f, ch, n)) {
            return;
        }
        auto bytes = audio::slurp(file.name);
        std::string what;
        const int edits = s.range<int>(1, 4);
        for (int k = 0; k < edits && !bytes.empty(); ++k) {
            const auto near = std::min<std::size_t>(bytes.size() - 1, 80);
            switch (s.draw(5)) {
                case 0:
                    bytes.resize(s.flip() ? s.draw(bytes.size()) : s.draw(near));
                    what += "cut to " + std::to_string(bytes.size()) + " ";
                    break;
                case 1:
                case 2: {
                    const auto at = s.draw(s.draw(3) ? near : bytes.size() - 1);
                    bytes[at]     = static_cast<char>(s.draw(2) ? s.draw(255) : s.pick({0, 255, 127, 128, 1}));
                    what += "byte " + std::to_string(at) + " = " + std::to_string(static_cast<unsigned char>(bytes[at])) + " ";
                    break;
                }
                case 3: {
                    const auto at = s.draw(near);
                    what += "insert at " + std::to_string(at) + " ";
                    bytes.insert(at, std::string(static_cast<std::size_t>(s.size(1, 20)), static_cast<char>(s.draw(255))));
                    break;
                }
                case 4: {
                    const auto at = s.draw(near);
                    what += "remove at " + std::to_string(at) + " ";
                    bytes.erase(at, static_cast<std::size_t>(s.size(1, 20)));
                    break;
                }
                default:
                    what += "append ";
                    bytes += std::string(static_cast<std::size_t>(s.size(1, 100)), static_cast<char>(s.draw(255)));
            }
        }
        c.describe([&](auto& o) { o << "decoder<" << audio::type<T>() << "> of a " << f.name << " file (" << ch << " channels, " << n << " frames) with " << what; });
        audio::spill(file.name, bytes);
        const auto truth = audio::read_all<T>(file.name, 40000);
        const int before = audio::open_files();
        edsp::io::decoder<T> dec;
        const bool open = dec.open(file.name);
        VP_CHECK(open == truth.open && dec.is_open() == open, "the decoder " << (open ? "opens" : "does not open") << " a file libsndfile " << (truth.open ? "opens" : "does not open"));
        c.label(open ? "opens" : "refused");
        if (open) {
            const auto channels = static_cast<std::size_t>(truth.info.channels);
            VP_CHECK(dec.channels() == truth.info.channels && dec.frames() == truth.info.frames && dec.sample_rate() == truth.info.samplerate && dec.seekable() == (truth.info.seekable != 0),
                     "the decoder reports " << dec.channels() << " channels, " << dec.frames() << " frames, " << dec.sample_rate() << " Hz");
            const bool known = dec.frames() < (1L << 50); // some FLAC streams do not tell
            c.label(known ? "length known" : "length unknown");
            VP_CHECK(known ? dec.samples() == dec.frames() * dec.channels() : dec.samples() >= dec.frames(), "the decoder reports " << dec.samples() << " samples in " << dec.frames() << " frames");
            // by the same block size, all of it
            std::size_t at = 0;
            const auto whole = truth.data.size();
            for (int guard = 0; guard < 200000 && at < whole; ++guard) {
                const auto count = channels * static_cast<std::size_t>(s.size(1, 700));
                Buf<T> b(count);
                const auto got = dec.read(b.begin(), b.end());
                VP_CHECK(got >= 0 && got <= static_cast<long>(count) && got % static_cast<long>(channels) == 0, "read of " << count << " samples returned " << got);
                const auto left = whole - at;
                VP_CHECK(got == static_cast<long>(std::min(count, left)) || (whole >= 40000 && got >= static_cast<long>(std::min(count, left))), "read of " << count << " samples with " << left << " left returned " << got);
                for (std::size_t i = 0; i < static_cast<std::size_t>(got) && at + i < whole; ++i) {
                    VP_CHECK(audio::same(b.p[i], truth.data[at + i]) || b.p[i] != b.p[i], "sample " << at + i << " is " << b.p[i] << ", libsndfile reads " << truth.data[at + i]);
                }
                at += static_cast<std::size_t>(got);
            }
        } else {
            Buf<T> b(16, static_cast<T>(3));
            VP_CHECK(dec.frames() == 0 && dec.samples() == 0 && dec.channels() == 0, "a decoder without a file reports " << dec.frames() << " frames, " << dec.channels() << " channels");
            VP_CHECK(dec.read(b.begin(), b.end()) == 0 && b.p[0] == static_cast<T>(3), "a decoder without a file reads samples");
            VP_CHECK(dec.seek(0) == -1 && dec.current() == -1, "a decoder without a file has a position");
        }
        VP_CHECK(audio::open_files() - before == open, "the decoder holds " << audio::open_files() - before << " files open" << (open ? "" : ", none of which it could read"));
        // and it still opens another file
        audio::File good("g");
        if (make(s, good.name, formats[1], 2, 10)) {
            const auto all = audio::read_all<T>(good.name);
            VP_CHECK(dec.open(good.name) && dec.is_open() && dec.frames() == 10 && dec.channels() == 2, "no good file can be opened afterwards");
            Buf<T> b(20);
            VP_CHECK(dec.read(b.begin(), b.end()) == 20, "the good file is not read");
            for (std::size_t i = 0; i < 20; ++i) {
                VP_CHECK(audio::same(b.p[i], all.data[i]), "the good file is read differently at " << i);
            }
        }
        c.nontrivial(open);
    }
} // namespace

VP_FAMILY("histories", 60000, 1500000, "open, seek, read, close over two good files of any format, one that is not audio and one missing, against the whole file; non-trivial: a seek and two reads") { AUDIO_DISPATCH(history); }
VP_FAMILY("broken files", 90000, 2500000, "cut, edited and grown files: refused cleanly or read as libsndfile reads them, and the decoder opens a good file afterwards; non-trivial: the file still opens") { AUDIO_DISPATCH(broken); }
