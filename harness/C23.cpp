// C23: metadata: fields written by libsndfile, by TagLib and byte by byte, against what the reader returns.
#include <memory>
#include "ref_audio.hpp"
#include <edsp/io/metadata.hpp>
#include <taglib/fileref.h>
#include <taglib/tag.h>
#include <taglib/tdebuglistener.h>
using namespace vp;

namespace {
    struct Silent : TagLib::DebugListener {
        void printMessage(const TagLib::String&) override {}
    };
    Silent silent;
    struct Install {
        Install() {
            TagLib::setDebugListener(&silent);
        }
    } install;

    struct Fields {
        std::string title, artist, album, genre;
        std::size_t year = 0, track = 0;
        bool operator==(const Fields& o) const {
            return title == o.title && artist == o.artist && album == o.album && genre == o.genre && year == o.year && track == o.track;
        }
    };
    std::string quote(const std::string& t) {
        std::ostringstream o;
        o << '"';
        for (unsigned char ch : t) {
            if (ch < 32 || ch > 126) {
                o << "\\x" << std::hex << std::setw(2) << std::setfill('0') << static_cast<int>(ch) << std::dec;
            } else {
                o << ch;
            }
        }
        o << '"';
        return o.str();
    }
    std::string show_fields(const Fields& f) {
        std::ostringstream o;
        o << "title " << quote(f.title) << " artist " << quote(f.artist) << " album " << quote(f.album) << " genre " << quote(f.genre) << " year " << f.year << " track " << f.track;
        return o.str();
    }
    Fields ask(const edsp::io::metadata& m) {
        Fields f;
        f.title  = m.title();
        f.artist = m.artist();
        f.album  = m.album();
        f.genre  = m.genre();
        f.year   = m.year();
        f.track  = m.track();
        return f;
    }
    // in another order
    Fields ask_backwards(const edsp::io::metadata& m) {
        Fields f;
        f.track  = m.track();
        f.genre  = m.genre();
        f.album  = m.album();
        f.year   = m.year();
        f.artist = m.artist();
        f.title  = m.title();
        return f;
    }

    void utf8(std::string& o, unsigned long p) {
        if (p < 0x80) {
            o += static_cast<char>(p);
        } else if (p < 0x800) {
            o += static_cast<char>(0xC0 | p >> 6);
            o += static_cast<char>(0x80 | (p & 63));
        } else if (p < 0x10000) {
            o += static_cast<char>(0xE0 | p >> 12);
            o += static_cast<char>(0x80 | (p >> 6 & 63));
            o += static_cast<char>(0x80 | (p & 63));
        } else {
            o += static_cast<char>(0xF0 | p >> 18);
            o += static_cast<char>(0x80 | (p >> 12 & 63));
            o += static_cast<char>(0x80 | (p >> 6 & 63));
            o += static_cast<char>(0x80 | (p & 63));
        }
    }
    // letters at both ends, anything printable in between; which: 0 ASCII, 1 Latin-1, 2 all planes
    std::string text(Src& s, int which, long most) {
        std::string t;
        const long n = s.one_in(5) ? 0 : s.size(1, most);
        for (long i = 0; i < n; ++i) {
            unsigned long p = 'a' + s.draw(25);
            if (i > 0 && i + 1 < n) {
                switch (s.draw(3)) {
                    case 0: p = 0x20 + s.draw(0x5e); break;
                    case 1: p = which >= 1 ? 0xA1 + s.draw(0x5e) : 'A' + s.draw(25); break;
                    case 2: p = which >= 2 ? s.pick({0x3b1UL, 0x416UL, 0x5d0UL, 0x4e2dUL, 0xac00UL, 0x20acUL, 0x1F600UL, 0x1D11EUL, 0x7ffUL, 0x800UL, 0xfffdUL}) + s.draw(9) : p; break;
                    default: break;
                }
            }
            utf8(t, p == 0xfffeUL || p == 0xffffUL ? 0xfffdUL : p);
        }
        return t;
    }
    Fields fields(Src& s, int which, long most) {
        Fields f;
        f.title  = text(s, which, most);
        f.artist = text(s, which, most);
        f.album  = text(s, which, most);
        f.genre  = text(s, which, most);
        if (s.one_in(6) && !f.title.empty()) {
            f.artist = f.title; // the same twice
        }
        f.year  = s.one_in(4) ? 0 : static_cast<std::size_t>(s.range<long>(1000, 9999));
        f.track = s.one_in(4) ? 0 : static_cast<std::size_t>(s.size(1, 9999));
        return f;
    }

    // a playable file by libsndfile, with its strings where wanted
    bool audio_file(Src& s, const std::string& name, int format, const Fields* f) {
        SF_INFO i{};
        i.channels   = s.range<int>(1, 2);
        i.samplerate = s.pick({8000, 44100, 48000});
        i.format     = format;
        SNDFILE* h   = sf_open(name.c_str(), SFM_WRITE, &i);
        if (!h) {
            return false;
        }
        if (f) {
            const auto put = [&](int which, const std::string& v) {
                if (!v.empty()) {
                    sf_set_string(h, which, v.c_str());
                }
            };
            put(SF_STR_TITLE, f->title);
            put(SF_STR_ARTIST, f->artist);
            put(SF_STR_ALBUM, f->album);
            put(SF_STR_GENRE, f->genre);
            put(SF_STR_DATE, f->year ? std::to_string(f->year) : "");
            put(SF_STR_TRACKNUMBER, f->track ? std::to_string(f->track) : "");
        }
        std::vector<short> data(static_cast<std::size_t>(i.channels) * 64);
        for (std::size_t k = 0; k < data.size(); ++k) {
            data[k] = static_cast<short>(300 * k);
        }
        sf_write_short(h, data.data(), static_cast<sf_count_t>(data.size()));
        sf_close(h);
        return true;
    }
    // MPEG layer III frames of silence
    std::string frames(int n) {
        std::string frame(417, '\0');
        frame[0] = static_cast<char>(0xFF);
        frame[1] = static_cast<char>(0xFB);
        frame[2] = static_cast<char>(0x90);
        std::string r;
        for (int k = 0; k < n; ++k) {
            r += frame;
        }
        return r;
    }
    std::string id3v1(const Fields& f) {
        const auto pad = [](std::string t, std::size_t n) {
            t.resize(n, '\0');
            return t;
        };
        return "TAG" + pad(f.title, 30) + pad(f.artist, 30) + pad(f.album, 30) + pad(f.year ? std::to_string(f.year) : "", 4) + pad("a comment", 28) + std::string(1, '\0') + std::string(1, static_cast<char>(f.track)) + std::string(1, static_cast<char>(f.genre == "Blues" ? 0 : f.genre == "Rock" ? 17 : f.genre == "Jazz" ? 8 : 255));
    }
    std::string id3v2(Src& s, const Fields& f) {
        const auto size = [](std::size_t n) {
            return std::string{static_cast<char>(n >> 21 & 127), static_cast<char>(n >> 14 & 127), static_cast<char>(n >> 7 & 127), static_cast<char>(n & 127)};
        };
        std::vector<std::string> all;
        const auto put = [&](const char* id, const std::string& v) {
            if (!v.empty()) {
                const std::string body = std::string(1, '\3') + v; // UTF-8
                all.push_back(id + size(body.size()) + std::string(2, '\0') + body);
            }
        };
        put("TIT2", f.title);
        put("TPE1", f.artist);
        put("TALB", f.album);
        put("TCON", f.genre);
        put("TDRC", f.year ? std::to_string(f.year) : "");
        put("TRCK", f.track ? std::to_string(f.track) + (s.flip() ? "/9999" : "") : "");
        put("TPE2", s.flip() ? "the band of the whole album" : ""); // others' fields
        put("TCOM", s.flip() ? "the composer" : "");
        put("TIT3", s.flip() ? "the subtitle" : "");
        std::string body;
        while (!all.empty()) {
            const auto k = s.draw(all.size() - 1);
            body += all[k];
            all.erase(all.begin() + static_cast<long>(k));
        }
        body += std::string(static_cast<std::size_t>(s.size(0, 100)), '\0');
        return std::string("ID3\4\0\0", 6) + size(body.size()) + body;
    }

    struct Kind {
        const char* name;
        const char* extension;
        int writer; // 0 libsndfile strings, 1 TagLib, 2 ID3v1 bytes, 3 ID3v2 bytes, 4 nothing written
        int format;
    };
    const Kind kinds[] = {
        {"flac by libsndfile", ".flac", 0, SF_FORMAT_FLAC | SF_FORMAT_PCM_16},
        {"ogg by libsndfile", ".ogg", 0, SF_FORMAT_OGG | SF_FORMAT_VORBIS},
        {"mp3 with ID3v2", ".mp3", 3, 0},
        {"mp3 with ID3v1", ".mp3", 2, 0},
        {"flac by TagLib", ".flac", 1, SF_FORMAT_FLAC | SF_FORMAT_PCM_16},
        {"ogg by TagLib", ".ogg", 1, SF_FORMAT_OGG | SF_FORMAT_VORBIS},
        {"wav by TagLib", ".wav", 1, SF_FORMAT_WAV | SF_FORMAT_PCM_16},
        {"aiff by TagLib", ".aiff", 1, SF_FORMAT_AIFF | SF_FORMAT_PCM_16},
        {"mp3 by TagLib", ".mp3", 1, 0},
        {"wav without tags", ".wav", 4, SF_FORMAT_WAV | SF_FORMAT_PCM_16},
        {"flac without tags", ".FLAC", 4, SF_FORMAT_FLAC | SF_FORMAT_PCM_16},
    };
    constexpr std::size_t KINDS = sizeof kinds / sizeof kinds[0];

    bool make(Src& s, const Kind& k, const std::string& name, Fields& f) {
        f = fields(s, k.writer == 2 ? 0 : 2, k.writer == 2 ? 30 : 200);
        if (k.writer == 2) {
            f.genre = s.pick(std::vector<std::string>{"", "Blues", "Rock", "Jazz"});
            f.track %= 256;
        }
        if (k.writer == 4) {
            f = Fields();
        }
        if (k.format == 0) {
            const auto a = frames(s.range<int>(2, 6));
            audio::spill(name, k.writer == 2 ? a + id3v1(f) : k.writer == 3 ? id3v2(s, f) + a : a);
        } else if (!audio_file(s, name, k.format, k.writer == 0 ? &f : nullptr)) {
            return false;
        }
        if (k.writer == 1) {
            TagLib::FileRef r(name.c_str());
            if (r.isNull()) {
                return false;
            }
            const auto u = [](const std::string& t) { return TagLib::String(t, TagLib::String::UTF8); };
            r.tag()->setTitle(u(f.title));
            r.tag()->setArtist(u(f.artist));
            r.tag()->setAlbum(u(f.album));
            r.tag()->setGenre(u(f.genre));
            r.tag()->setYear(static_cast<unsigned>(f.year));
            r.tag()->setTrack(static_cast<unsigned>(f.track));
            r.tag()->setComment("a comment");
            return r.save();
        }
        return true;
    }

    void compare(const Fields& got, const Fields& want, const std::string& where) {
        VP_CHECK(got.title == want.title, where << ": title " << quote(got.title) << ", expected " << quote(want.title));
        VP_CHECK(got.artist == want.artist, where << ": artist " << quote(got.artist) << ", expected " << quote(want.artist));
        VP_CHECK(got.album == want.album, where << ": album " << quote(got.album) << ", expected " << quote(want.album));
        VP_CHECK(got.genre == want.genre, where << ": genre " << quote(got.genre) << ", expected " << quote(want.genre));
        VP_CHECK(got.year == want.year, where << ": year " << got.year << ", expected " << want.year);
        VP_CHECK(got.track == want.track, where << ": track " << got.track << ", expected " << want.track);
    }

    // several readers of several files, alive together
    void readers(Src& s, Ctx& c) {
        std::deque<audio::File> files;
        std::vector<Fields> want;
        std::vector<std::string> what;
        History h(c);
        const int n = s.range<int>(1, 3);
        bool set    = false;
        for (int i = 0; i < n; ++i) {
            const auto& k = kinds[s.draw(KINDS - 1)];
            files.emplace_back("m" + std::to_string(i) + k.extension);
            Fields f;
            if (!make(s, k, files.back().name, f)) {
                c.label("not written");
                return;
            }
            c.label(k.name);
            want.push_back(f);
            what.push_back(k.name);
            h += std::string(k.name) + ": " + show_fields(f) + "; ";
            set = set || !(f == Fields());
        }
        std::vector<std::unique_ptr<edsp::io::metadata>> open;
        std::vector<std::size_t> of;
        const int ops = s.range<int>(n, 3 * n);
        for (int k = 0; k < ops; ++k) {
            const auto i = k < n ? static_cast<std::size_t>(k) : s.draw(static_cast<std::uint64_t>(n - 1));
            if (k < n || s.flip()) {
                open.emplace_back(s.flip() || open.empty() ? new edsp::io::metadata(files[i].name) : nullptr);
                if (!open.back()) { // by copy
                    const auto from = s.draw(open.size() - 2);
                    open.back().reset(new edsp::io::metadata(*open[from]));
                    of.push_back(of[from]);
                } else {
                    of.push_back(i);
                }
            } else {
                const auto gone = s.draw(open.size() - 1);
                if (open.size() > 1) {
                    open.erase(open.begin() + static_cast<long>(gone));
                    of.erase(of.begin() + static_cast<long>(gone));
                }
            }
            const auto j = s.draw(open.size() - 1);
            compare(s.flip() ? ask(*open[j]) : ask_backwards(*open[j]), want[of[j]], what[of[j]]);
        }
        for (std::size_t j = 0; j < open.size(); ++j) {
            compare(ask(*open[j]), want[of[j]], what[of[j]]);
        }
        c.nontrivial(set);
    }

    // missing, not audio, cut, edited
    void broken(Src& s, Ctx& c) {
        const auto& k = kinds[s.draw(KINDS - 1)];
        audio::File file(std::string("b") + k.extension);
        const auto mode = s.draw(5);
        Fields f;
        if (mode == 0) {
            const auto name = s.pick(std::vector<std::string>{file.name, file.name + "/below", vp::scratch_dir(), "", vp::scratch_dir() + "/no/such/dir.flac"});
            c.describe([&](auto& o) { o << "missing file or directory " << quote(name.size() > 40 ? name.substr(name.size() - 12) : name) << " " << k.extension; });
            c.label("missing");
            compare(ask(edsp::io::metadata(name)), Fields(), "a missing file");
            c.nontrivial();
            return;
        }
        if (mode == 1) {
            std::string bytes;
            if (s.flip()) {
                const long n = s.size(0, 600);
                for (long i = 0; i < n; ++i) {
                    bytes += static_cast<char>('a' + s.draw(25));
                }
            }
            audio::spill(file.name, bytes);
            c.describe([&](auto& o) { o << bytes.size() << " letters as " << k.extension; });
            c.label(bytes.empty() ? "empty" : "letters");
            compare(ask(edsp::io::metadata(file.name)), Fields(), "a file that is not audio");
            c.nontrivial();
            return;
        }
        if (!make(s, k, file.name, f)) {
            c.label("not written");
            return;
        }
        auto bytes = audio::slurp(file.name);
        std::string what;
        const int edits = s.range<int>(1, 4);
        for (int e = 0; e < edits && !bytes.empty(); ++e) {
            const auto near = std::min<std::size_t>(bytes.size() - 1, 400);
            switch (s.draw(3)) {
                case 0:
                    bytes.resize(s.flip() ? s.draw(bytes.size()) : s.draw(near));
                    what += " cut to " + std::to_string(bytes.size());
                    break;
                case 1:
                case 2: {
                    const auto at = s.draw(s.draw(3) ? near : bytes.size() - 1);
                    bytes[at]     = static_cast<char>(s.draw(2) ? s.draw(255) : s.pick({0, 255, 127, 128, 1}));
                    what += " byte " + std::to_string(at) + " = " + std::to_string(static_cast<unsigned char>(bytes[at]));
                    break;
                }
                default: {
                    const auto at = s.draw(near);
                    bytes.erase(at, static_cast<std::size_t>(s.size(1, 20)));
                    what += " removed at " + std::to_string(at);
                }
            }
        }
        c.describe([&](auto& o) { o << k.name << ", " << show_fields(f) << what; });
        audio::spill(file.name, bytes);
        // what is left of it
        Fields left;
        bool null;
        {
            TagLib::FileRef r(file.name.c_str());
            null = r.isNull();
            if (!null) {
                left.title  = r.tag()->title().to8Bit(true);
                left.artist = r.tag()->artist().to8Bit(true);
                left.album  = r.tag()->album().to8Bit(true);
                left.genre  = r.tag()->genre().to8Bit(true);
                left.year   = r.tag()->year();
                left.track  = r.tag()->track();
            }
        }
        c.label(null ? "no longer audio" : left == f ? "all kept" : "partly kept");
        const edsp::io::metadata m(file.name);
        compare(ask(m), left, null ? "a broken file" : "a damaged file");
        c.nontrivial(null || !(left == Fields()));
    }
} // namespace

VP_FAMILY("readers", 10000, 250000, "FLAC, Ogg, WAV, AIFF and MP3 files with fields of any Unicode text, written by libsndfile, by TagLib or as ID3 bytes, read by several readers alive together; non-trivial: a field is set") { readers(s, c); }
VP_FAMILY("broken files", 24000, 600000, "missing, empty, other, cut and edited files: no crash, and nothing but what TagLib still finds; non-trivial: nothing is found, or some of it") { broken(s, c); }
