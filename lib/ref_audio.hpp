// helpers of the audio file harnesses: files of known content, read and written with libsndfile directly
#pragma once
#include "common.hpp"
#include <sndfile.h>
#include <array>
#include <cstdio>
#include <edsp/core/logger.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

namespace audio {
    using vp::ld;
    // failed opens are logged; not into the report
    struct Quiet {
        Quiet() {
            edsp::logger::set_default_level(edsp::logger::off);
        }
    };
    static Quiet quiet;

    inline std::string path(const std::string& name) {
        return vp::scratch_dir() + "/" + std::to_string(::getpid()) + "-" + name;
    }
    // files this process has open
    inline int open_files() {
        int n  = 0;
        DIR* d = ::opendir("/proc/self/fd");
        while (d && ::readdir(d)) {
            ++n;
        }
        if (d) {
            ::closedir(d);
        }
        return n;
    }
    struct File { // removed at the end of the case
        std::string name;
        explicit File(const std::string& n) : name(path(n)) {
            ::unlink(name.c_str());
        }
        ~File() {
            ::unlink(name.c_str());
        }
        File(const File&) = delete;
    };
    inline sf_count_t sf_write(SNDFILE* f, const float* p, long n) { return sf_write_float(f, p, n); }
    inline sf_count_t sf_write(SNDFILE* f, const double* p, long n) { return sf_write_double(f, p, n); }
    inline sf_count_t sf_write(SNDFILE* f, const int* p, long n) { return sf_write_int(f, p, n); }
    inline sf_count_t sf_write(SNDFILE* f, const short* p, long n) { return sf_write_short(f, p, n); }
    inline sf_count_t sf_readf(SNDFILE* f, float* p, long n) { return sf_readf_float(f, p, n); }
    inline sf_count_t sf_readf(SNDFILE* f, double* p, long n) { return sf_readf_double(f, p, n); }
    inline sf_count_t sf_readf(SNDFILE* f, int* p, long n) { return sf_readf_int(f, p, n); }
    inline sf_count_t sf_readf(SNDFILE* f, short* p, long n) { return sf_readf_short(f, p, n); }

    template <typename T>
    struct Content {
        bool open = false;
        SF_INFO info{};
        std::vector<T> data;
    };
    // the whole file, by libsndfile alone
    template <typename T>
    Content<T> read_all(const std::string& file, long most = 1L << 22) {
        Content<T> c;
        SNDFILE* f = sf_open(file.c_str(), SFM_READ, &c.info);
        if (!f) {
            return c;
        }
        c.open           = true;
        const long ch    = c.info.channels;
        std::vector<T> b(static_cast<std::size_t>(512 * ch));
        while (static_cast<long>(c.data.size()) < most) {
            const auto n = sf_readf(f, b.data(), 512);
            if (n <= 0) {
                break;
            }
            c.data.insert(c.data.end(), b.begin(), b.begin() + n * ch);
        }
        sf_close(f);
        return c;
    }
    inline std::string slurp(const std::string& file) {
        std::string r;
        if (FILE* f = std::fopen(file.c_str(), "rb")) {
            char b[65536];
            std::size_t n;
            while ((n = std::fread(b, 1, sizeof b, f)) > 0) {
                r.append(b, n);
            }
            std::fclose(f);
        }
        return r;
    }
    inline void spill(const std::string& file, const std::string& bytes) {
        FILE* f = std::fopen(file.c_str(), "wb");
        if (f) {
            std::fwrite(bytes.data(), 1, bytes.size(), f);
            std::fclose(f);
        }
    }
    inline long channels(vp::Src& s) {
        return s.one_in(12) ? s.range<long>(9, 40) : s.range<long>(1, 8);
    }
    inline int rate(vp::Src& s) {
        return s.flip() ? s.pick({8000, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000}) : static_cast<int>(s.range<long>(1, 400000));
    }
    template <typename T>
    constexpr const char* type() {
        return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : sizeof(T) == 2 ? "int16" : "int32";
    }
    // n sample values of a type
    template <typename T>
    std::vector<T> samples(vp::Src& s, std::size_t n) {
        std::vector<T> v(n);
        if (std::is_floating_point<T>::value) {
            const auto x = vp::signal<double>(s, n, s.one_in(6) ? 4.0 : 1.0);
            for (std::size_t i = 0; i < n; ++i) {
                v[i] = static_cast<T>(x[i]);
            }
        } else {
            const auto kind = s.draw(2);
            vp::Bulk b(s.draw(~0ULL));
            for (std::size_t i = 0; i < n; ++i) {
                const auto r = b.next();
                v[i]         = kind == 0 ? static_cast<T>(i + 1) : kind == 1 ? static_cast<T>(r) : (r % 3 == 0 ? std::numeric_limits<T>::min() : r % 3 == 1 ? std::numeric_limits<T>::max() : static_cast<T>(r >> 20));
            }
        }
        return v;
    }
    // bit identity, for a message
    template <typename T>
    bool same(T a, T b) {
        return std::memcmp(&a, &b, sizeof a) == 0 || a == b;
    }
} // namespace audio

#define AUDIO_DISPATCH(body)           \
    do {                               \
        switch (s.draw(3)) {           \
            case 0:                    \
                c.label("float");      \
                body<float>(s, c);     \
                break;                 \
            case 1:                    \
                c.label("double");     \
                body<double>(s, c);    \
                break;                 \
            case 2:                    \
                c.label("int16");      \
                body<short>(s, c);     \
                break;                 \
            default:                   \
                c.label("int32");      \
                body<int>(s, c);       \
        }                              \
    } while (0)
