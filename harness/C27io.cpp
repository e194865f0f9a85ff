// C27: the audio classes of the Python module, against libsndfile, libsamplerate and TagLib used directly
// (no header of the library here: the module is compiled as C++14, this file is not)
#include "py.hpp"
#include <taglib/fileref.h>
#include <samplerate.h>
#include <sndfile.h>
#include <taglib/tag.h>
#include <unistd.h>
using namespace vp;

namespace {
    std::string path(const std::string& name) {
        return scratch_dir() + "/" + std::to_string(::getpid()) + "-py-" + name;
    }
    struct File {
        std::string name;
        explicit File(const std::string& n) : name(path(n)) { ::unlink(name.c_str()); }
        ~File() { ::unlink(name.c_str()); }
        File(const File&) = delete;
    };
    std::string text(const bp::object& o) {
        return bp::extract<std::string>(bp::str(o));
    }
    template <typename... A>
    bp::object method(const bp::object& o, const char* name, const A&... args) {
        return py::guarded(name, [&] { return bp::object(o.attr(name)(args...)); });
    }
    template <typename... A>
    long number(const bp::object& o, const char* name, const A&... args) {
        return py::integer(name, method(o, name, args...));
    }
    bool truth(const bp::object& o, const char* name) {
        return py::boolean(name, method(o, name));
    }
    double rate_of(const bp::object& o) {
        return py::number("samplerate", method(o, "samplerate"));
    }
    std::vector<float> samples(Src& s, std::size_t n) {
        std::vector<float> v(n);
        Bulk b(s.draw(~0ULL));
        const bool whole = s.one_in(4); // also as integer arrays
        for (std::size_t i = 0; i < n; ++i) {
            const auto r = b.next();
            v[i]         = whole ? static_cast<float>(r % 100) : static_cast<float>(static_cast<double>(r >> 11) / 9007199254740992.0 * 2 - 1);
        }
        return v;
    }

    // what write() is given is what the file holds
    void encode(Src& s, Ctx& c) {
        const auto ch  = s.range<long>(1, 6);
        const int rate = s.pick({8000, 44100, 48000, 11025, 192000});
        File file("enc.wav");
        const bp::object enc = py::call("io", "Encoder", rate, ch);
        History history(c);
        std::vector<float> all;
        VP_CHECK(!truth(enc, "is_open"), "a new encoder is open");
        VP_CHECK(number(enc, "channels") == ch && rate_of(enc) == rate, "an encoder of " << ch << " channels at " << rate << " reports " << number(enc, "channels") << " at " << rate_of(enc));
        if (s.one_in(6)) {
            const auto v = samples(s, static_cast<std::size_t>(3 * ch));
            py::Array a(v.data(), v.size());
            history += "write closed ";
            VP_CHECK(number(enc, "write", a.a) == 0, "a closed encoder stored something");
            a.check("write");
        }
        VP_CHECK(py::boolean("open", method(enc, "open", file.name)), "the encoder does not open");
        VP_CHECK(truth(enc, "is_open"), "an opened encoder is not open");
        for (auto parts = s.range<int>(0, 6); parts > 0; --parts) {
            const auto v = samples(s, static_cast<std::size_t>(s.size(0, s.one_in(5) ? 2000 : 60) * ch));
            history += "write " + std::to_string(v.size()) + " ";
            py::Array a(v.data(), v.size());
            const auto n = number(enc, "write", a.a);
            a.check("write");
            VP_CHECK(n == static_cast<long>(v.size()), "write of " << v.size() << " samples (" << a.layout << ") returns " << n);
            all.insert(all.end(), v.begin(), v.end());
            if (s.one_in(8)) { // what does not convert without loss is refused and stores nothing
                history += "write doubles ";
                const std::vector<double> w(static_cast<std::size_t>(2 * ch), 0.1);
                py::seed() = 0;
                py::Array d(w.data(), w.size());
                const auto error = py::raised([&] { enc.attr("write")(d.a); });
                VP_CHECK(!error.empty(), "doubles are written");
            }
        }
        method(enc, "close");
        VP_CHECK(!truth(enc, "is_open"), "a closed encoder is open");
        if (s.one_in(3)) {
            method(enc, "close");
        }
        SF_INFO info{};
        SNDFILE* f = sf_open(file.name.c_str(), SFM_READ, &info);
        VP_CHECK(f, "libsndfile cannot read what was written");
        std::vector<float> got(all.size() + 100);
        const auto n = sf_read_float(f, got.data(), static_cast<sf_count_t>(got.size() - got.size() % static_cast<std::size_t>(info.channels)));
        sf_close(f);
        VP_CHECK(info.channels == ch && info.samplerate == rate, "the file has " << info.channels << " channels at " << info.samplerate);
        VP_CHECK(n == static_cast<sf_count_t>(all.size()), "the file has " << n << " samples, written " << all.size());
        for (std::size_t i = 0; i < all.size(); ++i) {
            VP_CHECK(got[i] == all[i], "sample " << i << " written as " << all[i] << " is " << got[i] << " in the file");
        }
        size_label(c, all.size());
        c.nontrivial(all.size() > static_cast<std::size_t>(ch));
    }

    // histories of open, read, seek and close
    void decode(Src& s, Ctx& c) {
        const auto ch     = s.range<long>(1, 5);
        const int rate    = s.pick({8000, 44100, 48000, 11025, 192000});
        const long frames = s.size(0, s.one_in(6) ? 3000 : 80);
        const auto data   = samples(s, static_cast<std::size_t>(frames * ch));
        File file("dec.wav");
        {
            SF_INFO info{};
            info.channels   = static_cast<int>(ch);
            info.samplerate = rate;
            info.format     = SF_FORMAT_WAV | SF_FORMAT_FLOAT;
            SNDFILE* f = sf_open(file.name.c_str(), SFM_WRITE, &info);
            VP_CHECK(f, "libsndfile cannot write " << file.name);
            sf_write_float(f, data.data(), static_cast<sf_count_t>(data.size()));
            sf_close(f);
        }
        const bp::object dec = py::call("io", "Decoder");
        History history(c);
        long at = -1, reads = 0; // frame, -1: closed
        for (auto ops = s.range<int>(2, 14); ops > 0; --ops) {
            switch (at < 0 ? s.draw(6) : 2 + s.draw(6)) {
                case 0:
                case 1:
                    history += "open ";
                    VP_CHECK(py::boolean("open", method(dec, "open", file.name)), "the decoder does not open");
                    at = 0;
                    break;
                case 8:
                    history += "close ";
                    method(dec, "close");
                    at = -1;
                    break;
                case 2: {
                    const auto to = s.range<long>(-2, frames + 2);
                    history += "seek " + std::to_string(to) + " ";
                    const auto r  = number(dec, "seek", to);
                    if (at >= 0 && to >= 0 && to <= frames) {
                        VP_CHECK(r == to, "seek(" << to << ") returns " << r);
                        at = to;
                    } else {
                        VP_CHECK(r == -1, "seek(" << to << ") of " << (at < 0 ? "a closed decoder" : "fewer frames") << " returns " << r);
                    }
                    break;
                }
                case 3:
                    if (s.one_in(4)) {
                        history += "read(-1) ";
                        VP_CHECK(!py::raised([&] { dec.attr("read")(-1); }).empty(), "read(-1) returns");
                        break;
                    } // else as below
                    [[fallthrough]];
                default: {
                    const auto k = s.size(0, s.flip() ? 40 : 4000);
                    history += "read " + std::to_string(k) + " ";
                    const auto want = at < 0 ? 0 : std::min(k / ch, frames - at) * ch;
                    const auto got  = py::elements<float>("read", method(dec, "read", k), want);
                    for (long i = 0; i < want; ++i) {
                        VP_CHECK(got[static_cast<std::size_t>(i)] == data[static_cast<std::size_t>(at * ch + i)], "element " << i << " read at frame " << at << " is " << got[static_cast<std::size_t>(i)] << ", the file has " << data[static_cast<std::size_t>(at * ch + i)]);
                    }
                    if (at >= 0) {
                        at += want / ch;
                    }
                    reads += want > 0;
                }
            }
            VP_CHECK(truth(dec, "is_open") == (at >= 0), "is_open is wrong");
            if (at >= 0) {
                VP_CHECK(number(dec, "channels") == ch && number(dec, "frames") == frames && rate_of(dec) == rate && truth(dec, "seekable"),
                         "an open decoder reports " << number(dec, "channels") << " channels, " << number(dec, "frames") << " frames at " << rate_of(dec));
            }
        }
        c.nontrivial(reads > 1);
    }

    // blocks through the resampler and through libsamplerate itself
    void resample(Src& s, Ctx& c) {
        static const char* const qualities[] = {"BestQuality", "MediumQuality", "Fastest", "ZeroOrderHold", "Linear"};
        const int q       = s.one_in(8) ? static_cast<int>(s.draw(1)) : static_cast<int>(2 + s.draw(2));
        const auto ch     = s.range<long>(1, 4);
        const float ratio = s.flip() ? s.pick({1.0f, 2.0f, 0.5f, 3.0f, 0.25f, 1.5f}) : static_cast<float>(s.log_uniform(0.1, 8));
        const bp::object quality = bp::object(py::fn("io", "ResampleQuality")).attr(qualities[q]);
        const bp::object r       = py::call("io", "Resampler", ch, quality, ratio);
        History history(c);
        history += std::string(qualities[q]) + " x" + std::to_string(ratio) + ", " + std::to_string(ch) + " channels: ";
        VP_CHECK(number(r, "error") == 0 && text(method(r, "error_string")) == "No error.", "a new resampler reports " << text(method(r, "error_string")));
        VP_CHECK(static_cast<float>(py::number("ratio", method(r, "ratio"))) == ratio, "the ratio is not " << ratio);
        VP_CHECK(bp::object(method(r, "quality") == quality), "the quality is not " << qualities[q]);
        VP_CHECK(bp::extract<bool>(method(r, "valid_ratio", ratio)) && !bp::extract<bool>(method(r, "valid_ratio", 0.0)) && !bp::extract<bool>(method(r, "valid_ratio", 300.0)), "valid_ratio is wrong");
        int error    = 0;
        SRC_STATE* m = src_new(q, static_cast<int>(ch), &error);
        std::unique_ptr<SRC_STATE, SRC_STATE* (*)(SRC_STATE*)> owner(m, src_delete);
        long made  = 0;
        for (auto ops = s.range<int>(1, 8); ops > 0; --ops) {
            if (s.one_in(6)) {
                history += "reset ";
                method(r, "reset");
                src_reset(m);
                continue;
            }
            long n = s.size(0, 300);
            if (n == 1 && q >= 3) { // libsamplerate gives a zero for it, the module the frame
                n = 2;
            }
            history += std::to_string(n) + " frames ";
            const auto v = samples(s, static_cast<std::size_t>(n * ch));
            py::Array a(v.data(), v.size());
            const auto t = method(r, "process", a.a);
            a.check("process");
            VP_CHECK(PyTuple_CheckExact(t.ptr()) && PyTuple_GET_SIZE(t.ptr()) == 2, "process returned no pair");
            const auto used = py::integer("process", bp::object(t[1]));
            std::vector<float> out(static_cast<std::size_t>(static_cast<double>(n) * ratio) * static_cast<std::size_t>(ch) + 1);
            SRC_DATA d{};
            d.data_in       = v.data();
            d.data_out      = out.data();
            d.input_frames  = n;
            d.output_frames = static_cast<long>(static_cast<double>(n) * ratio);
            d.src_ratio     = ratio;
            if (n > 0 && d.output_frames > 0) {
                src_process(m, &d);
            } else if (n > 0) {
                // no room: what is done is up to the library, later blocks are compared no more
                VP_CHECK(py::elements<float>("process", bp::object(t[0]), -1).size() <= 0 && used <= n, "of " << n << " frames, " << used << " were used");
                break;
            }
            if (n == 0) {
                VP_CHECK(used == 0, "of no frames, " << used << " were used");
            }
            const auto got = py::elements<float>("process", bp::object(t[0]), d.output_frames_gen * ch);
            VP_CHECK(used == d.input_frames_used, "of " << n << " frames, " << used << " were used, expected " << d.input_frames_used);
            for (std::size_t i = 0; i < got.size(); ++i) {
                VP_CHECK(std::abs(got[i] - out[i]) <= 1e-4f, "element " << i << " of the result is " << got[i] << ", expected " << out[i]);
            }
            made += static_cast<long>(got.size());
            VP_CHECK(number(r, "error") == 0, "process reports error " << number(r, "error"));
        }
        c.label(qualities[q]);
        c.nontrivial(made > 10);
    }

    // tags written by TagLib
    void tags(Src& s, Ctx& c) {
        File file("tag.wav");
        {
            SF_INFO info{};
            info.channels = 1, info.samplerate = 8000, info.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16;
            SNDFILE* f = sf_open(file.name.c_str(), SFM_WRITE, &info);
            short v[10] = {};
            sf_write_short(f, v, 10);
            sf_close(f);
        }
        const auto word = [&] {
            std::string t;
            for (auto n = s.size(0, 12); n > 0; --n) {
                t += s.pick({std::string("a"), std::string("Z"), std::string(" b"), std::string("\xc3\xa9"), std::string("\xe4\xb8\xad"), std::string("\xe2\x82\xac"), std::string("7")});
            }
            return t;
        };
        const char* const fields[] = {"title", "artist", "album", "genre"};
        std::string want[4];
        for (auto& w : want) {
            w = word();
        }
        const auto year = static_cast<unsigned>(s.range<long>(0, 3000)), track = static_cast<unsigned>(s.range<long>(0, 200));
        {
            TagLib::FileRef f(file.name.c_str());
            const auto set = [&](const std::string& v) { return TagLib::String(v, TagLib::String::UTF8); };
            f.tag()->setTitle(set(want[0]));
            f.tag()->setArtist(set(want[1]));
            f.tag()->setAlbum(set(want[2]));
            f.tag()->setGenre(set(want[3]));
            f.tag()->setYear(year);
            f.tag()->setTrack(track);
            f.save();
        }
        { // as TagLib itself sees it
            TagLib::FileRef f(file.name.c_str());
            want[0] = f.tag()->title().to8Bit(true);
            want[1] = f.tag()->artist().to8Bit(true);
            want[2] = f.tag()->album().to8Bit(true);
            want[3] = f.tag()->genre().to8Bit(true);
        }
        c.describe([&](auto& o) { o << "title " << want[0] << ", artist " << want[1] << ", album " << want[2] << ", genre " << want[3] << ", year " << year << ", track " << track; });
        c.nontrivial(!want[0].empty() && want[0] != want[1]);
        const bp::object m = py::call("io", "MetaDataReader", file.name);
        for (int i = 0; i < 4; ++i) {
            const auto got = py::text(fields[i], method(m, fields[i]));
            VP_CHECK(got == want[i], fields[i] << " is " << got << ", stored " << want[i]);
        }
        VP_CHECK(number(m, "year") == static_cast<long>(year), "the year is " << number(m, "year") << ", stored " << year);
        VP_CHECK(number(m, "track") == static_cast<long>(track), "the track is " << number(m, "track") << ", stored " << track);
    }

    // objects that cannot be: an exception, and an object given an impossible argument goes on as before
    void objects(Src& s, Ctx& c) {
        static const char* const filters[] = {"MovingMedianFilter", "MovingAverageFilter", "MovingRmsFilter"};
        static const char* const waves[]   = {"Sinusoidal", "Square", "Sawtooth", "Triangular"};
        const auto python = [&](const std::string& e) {
            static PyObject* names = nullptr;
            if (!names) {
                names = PyDict_New();
                PyDict_SetItemString(names, "np", py::module("numpy").ptr());
            }
            return py::guarded(e, [&] { return bp::object(bp::handle<>(PyRun_String(e.c_str(), Py_eval_input, names, names))); });
        };
        c.nontrivial();
        const auto refuse = [&](const std::string& what, const auto& call) {
            const auto e = py::raised(call);
            VP_CHECK(!e.empty(), what << " raises nothing");
            VP_CHECK(e.find("SystemError") == std::string::npos, what << " raises " << e);
        };
        const auto no_array = s.pick({std::string("np.ones((2, 2))"), std::string("np.array(1.0)"), std::string("np.ones(3) * 1j"), std::string("np.array(['a'])"), std::string("None"), std::string("'text'"), std::string("3.0")});
        if (s.flip()) {
            const std::string kind = filters[s.draw(2)];
            c.label(kind);
            const auto w = s.pick({std::string("0"), std::string("-1"), std::string("0.5"), std::string("float('nan')"), std::string("float('inf')"), std::string("-1e300"), std::string("1e300"), std::string("1e19"), std::string("None"), std::string("'3'"), std::string("1j"), std::string("np.ones(3)")});
            c.describe([&](auto& o) { o << kind << "(" << w << "), resize and filter with impossible arguments, then " << no_array; });
            refuse(kind + "(" + w + ")", [&] { py::fn("filter", kind)(python(w)); });
            refuse(kind + "()", [&] { py::fn("filter", kind)(); });
            const bp::object f = py::call("filter", kind, 3);
            const double first[] = {1, 5, 2};
            for (auto x : first) {
                method(f, "__call__", x);
            }
            const auto r = s.pick({std::string("0"), std::string("-1"), std::string("1 << 62"), std::string("1 << 70"), std::string("None"), std::string("2.5")});
            refuse(kind + ".resize(" + r + ")", [&] { f.attr("resize")(python(r)); });
            refuse(kind + ".filter(" + no_array + ")", [&] { f.attr("filter")(python(no_array)); });
            refuse(kind + "(None)", [&] { f(bp::object()); });
            VP_CHECK(number(f, "size") == 3, "the window is " << number(f, "size") << " after refused calls");
            const double y = py::number(kind, method(f, "__call__", 9.0)), e = kind == filters[0] ? 5 : kind == filters[1] ? 16.0 / 3 : std::sqrt(110.0 / 3);
            if (r[0] != '1') { // a resize without the memory for it may have lost the samples
                VP_CHECK(std::abs(y - e) < 1e-9, kind << " gives " << y << " after refused calls, expected " << e);
            }
        } else {
            const std::string kind = waves[s.draw(3)];
            c.label(kind);
            const auto n = s.pick({std::string("-1"), std::string("-9223372036854775808"), std::string("1 << 60"), std::string("1 << 70"), std::string("None"), std::string("2.5"), std::string("'3'")});
            c.describe([&](auto& o) { o << kind << ".generate(" << n << ")"; });
            const bool four    = kind == "Sinusoidal" || kind == "Square" || kind == "Sawtooth";
            const bp::object o = four ? py::call("oscillator", kind, 1.0, 8000.0, 100.0, 0.5) : py::call("oscillator", kind, 1.0, 8000.0, 100.0);
            const bp::object p = four ? py::call("oscillator", kind, 1.0, 8000.0, 100.0, 0.5) : py::call("oscillator", kind, 1.0, 8000.0, 100.0);
            const auto a = py::elements<double>("generate", method(o, "generate", 7), 7), b = py::elements<double>("generate", method(p, "generate", 7), 7);
            refuse(kind + ".generate(" + n + ")", [&] { o.attr("generate")(python(n)); });
            refuse(kind + "('1')", [&] { py::fn("oscillator", kind)(python("'1'")); });
            refuse(kind + ".set_amplitude(None)", [&] { o.attr("set_amplitude")(bp::object()); });
            VP_CHECK(py::elements<double>("generate", method(o, "generate", 0), 0).empty() && a == b, "two equal oscillators differ");
            VP_CHECK(py::elements<double>("generate", method(o, "generate", 9), 9) == py::elements<double>("generate", method(p, "generate", 9), 9), "refused calls moved the oscillator on");
        }
    }
} // namespace

VP_FAMILY("encoder", 30000, 300000, "Encoder.write of arrays of any layout, read back with libsndfile; non-trivial: more than one frame") { encode(s, c); }
VP_FAMILY("decoder", 30000, 300000, "histories of open, read, seek and close of a Decoder of a file written with libsndfile; non-trivial: more than one read of something") { decode(s, c); }
VP_FAMILY("resampler", 20000, 200000, "blocks through a Resampler and through libsamplerate; non-trivial: more than 10 samples made") { resample(s, c); }
VP_FAMILY("metadata", 10000, 100000, "tags written with TagLib; non-trivial: title and artist differ and a title") { tags(s, c); }
VP_FAMILY("objects", 40000, 400000, "impossible arguments of filters and oscillators: an exception, and the object goes on as before; non-trivial: always") { objects(s, c); }
