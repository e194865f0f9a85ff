// C25: environment, library information, logger.
#include <memory>
#include <iostream>
#include <edsp/core/internal/config.hpp>
// The version macros get distinct values here, so that a query answering with
// another part's number is visible whatever the library's version is.
#undef E_VERSION_MAJOR
#undef E_VERSION_MINOR
#undef E_VERSION_PATCH
#define E_VERSION_MAJOR 71
#define E_VERSION_MINOR 82
#define E_VERSION_PATCH 93
#include <edsp/core/logger.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/system.hpp>
#include "common.hpp"
#include <cctype>
#include <clocale>
#include <map>
#include <thread>

int c25_real_version(int which);
std::string c25_real_string();
int c25_backend(int variant, int kind);

namespace {

    std::string shown(const std::string& s) {
        std::string r = "\"";
        for (unsigned char ch : s) {
            if (ch < 32 || ch > 126 || ch == '"') {
                char b[8];
                std::snprintf(b, sizeof b, "\\x%02x", ch);
                r += b;
            } else {
                r += static_cast<char>(ch);
            }
            if (r.size() > 200) {
                return r + "...";
            }
        }
        return r + "\"";
    }

    // A view whose bytes are followed directly by forbidden memory.
    struct Exact {
        std::unique_ptr<char[]> mem;
        std::size_t n;
        explicit Exact(const std::string& s) : mem(new char[s.size()]), n(s.size()) {
            std::copy(s.begin(), s.end(), mem.get());
        }
        edsp::string_view view() const {
            return edsp::string_view(mem.get(), n);
        }
    };

    std::string text(vp::Src& s, std::size_t most, bool nul) {
        const auto mode = s.draw(3);
        const std::size_t n = s.size(0, most);
        std::string r;
        for (std::size_t i = 0; i < n; ++i) {
            if (i >= 300) { // long texts repeat
                r += r[i - 293];
                continue;
            }
            char ch;
            if (mode == 0) {
                ch = static_cast<char>('a' + s.draw(25));
            } else if (mode == 1) {
                ch = static_cast<char>(32 + s.draw(94));
            } else {
                ch = static_cast<char>(s.draw(255));
            }
            if (ch == '\033') {
                ch = '[';
            }
            if (ch == 0 && !nul) {
                ch = 'z';
            }
            r += ch;
        }
        return r;
    }
}

VP_FAMILY("environment_history", 40000, 600000, "at least three operations on a variable that exists") {
    // names: a few related ones (prefixes of each other) so that mix-ups show
    std::vector<std::string> names;
    const std::string base = "VP25_" + std::to_string(s.draw(999));
    names.push_back(base);
    names.push_back(base + "X");
    names.push_back(base.substr(0, base.size() - 1) + "_");
    {
        std::string wild = "VP25" + text(s, 12, false);
        for (auto& ch : wild) {
            if (ch == '=') {
                ch = '-';
            }
        }
        names.push_back(wild);
    }
    std::map<std::string, std::string> model;
    for (auto& n : names) {
        ::unsetenv(n.c_str());
    }
    const std::size_t ops = 1 + s.size(0, 24);
    vp::History history(c);
    int live = 0;
    for (std::size_t k = 0; k < ops; ++k) {
        const std::string name = s.pick(names);
        const Exact en(name);
        const auto it = model.find(name);
        if (it != model.end()) {
            ++live;
        }
        switch (s.draw(9)) {
            case 0:
            case 1:
            case 2: {
                std::string value = text(s, s.one_in(6) ? 4000 : 24, false);
                if (s.one_in(8)) {
                    value = "a=b=" + value;
                }
                const bool over = s.draw(2) != 2;
                const Exact ev(value);
                history += "set(" + shown(name) + "," + shown(value) + (over ? ") " : ",keep) ");
                const auto r = over && s.flip() ? edsp::system_env::set_env(en.view(), ev.view())
                                                : edsp::system_env::set_env(en.view(), ev.view(), over);
                VP_CHECK(r == edsp::system_env::error::no_error, "set_env reports " << static_cast<int>(r));
                if (over || it == model.end()) {
                    model[name] = value;
                }
                break;
            }
            case 3: {
                const std::string value = text(s, 12, false);
                history += "setenv(" + shown(name) + "," + shown(value) + ") ";
                ::setenv(name.c_str(), value.c_str(), 1);
                model[name] = value;
                break;
            }
            case 4: {
                history += "unsetenv(" + shown(name) + ") ";
                ::unsetenv(name.c_str());
                model.erase(name);
                break;
            }
            case 5: {
                const bool empty = s.flip();
                const std::string bad = empty ? std::string() : name + "=" + text(s, 4, false);
                history += "set(" + shown(bad) + ") ";
                const Exact eb(bad);
                const Exact ev(std::string("value"));
                const auto r = edsp::system_env::set_env(eb.view(), ev.view());
                if (empty) {
                    VP_CHECK(r == edsp::system_env::error::empty, "set_env with an empty name reports " << static_cast<int>(r));
                    const auto g = edsp::system_env::get_env(eb.view());
                    VP_CHECK(!g.has_value() && g.error() == edsp::system_env::error::empty,
                             "get_env with an empty name does not report an empty name");
                    VP_CHECK(!edsp::system_env::exist(eb.view()), "a variable without a name exists");
                } else {
                    VP_CHECK(r == edsp::system_env::error::invalid_argument,
                             "set_env with '=' in the name reports " << static_cast<int>(r));
                }
                break;
            }
            default: {
                history += "get(" + shown(name) + ") ";
                const auto g = edsp::system_env::get_env(en.view());
                const bool there = it != model.end();
                VP_CHECK(g.has_value() == there, "get_env of " << shown(name) << (there ? " misses a set variable" : " finds a variable that is not set"));
                if (there) {
                    const std::string got(g->data(), g->size());
                    VP_CHECK(got == it->second, "get_env gives " << shown(got) << ", expected " << shown(it->second));
                } else {
                    VP_CHECK(g.error() == edsp::system_env::error::not_found, "a missing variable is reported as " << static_cast<int>(g.error()));
                }
                break;
            }
        }
        // every variable, after every step, for the library and for C
        for (auto& n : names) {
            const Exact e(n);
            const auto m = model.find(n);
            VP_CHECK(edsp::system_env::exist(e.view()) == (m != model.end()), "exist(" << shown(n) << ") is wrong after " << history);
            const char* raw = ::getenv(n.c_str());
            VP_CHECK((raw != nullptr) == (m != model.end()), "the process environment is wrong for " << shown(n));
            if (raw) {
                VP_CHECK(m->second == raw, "the process environment holds " << shown(raw) << " for " << shown(n) << ", expected " << shown(m->second));
            }
        }
    }
    for (auto& n : names) {
        ::unsetenv(n.c_str());
    }
    c.label(live == 0 ? "never set" : "set at some point");
    c.nontrivial(live >= 3);
}

VP_FAMILY("environment_values", 20000, 300000, "non-empty value") {
    const std::string name = "VP25V" + std::to_string(s.draw(9));
    const std::string value = text(s, s.one_in(8) ? 60000 : 200, false);
    c.describe([&](auto& o) { o << name << "=" << shown(value) << " (" << value.size() << " bytes)"; });
    const Exact en(name), ev(value);
    ::unsetenv(name.c_str());
    VP_CHECK(!edsp::system_env::exist(en.view()), "an unset variable exists");
    VP_CHECK(edsp::system_env::set_env(en.view(), ev.view(), s.flip()) == edsp::system_env::error::no_error, "set_env fails");
    const auto g = edsp::system_env::get_env(en.view());
    VP_CHECK(g.has_value(), "the variable just set is not found");
    VP_CHECK(std::string(g->data(), g->size()) == value, "got " << shown(std::string(g->data(), g->size())));
    VP_CHECK(edsp::system_env::exist(en.view()), "the variable just set does not exist");
    // keeping leaves it alone
    VP_CHECK(edsp::system_env::set_env(en.view(), edsp::string_view("other"), false) == edsp::system_env::error::no_error, "set_env fails");
    const auto h = edsp::system_env::get_env(en.view());
    VP_CHECK(h.has_value() && std::string(h->data(), h->size()) == value, "overwrite=false changed the value");
    ::unsetenv(name.c_str());
    size_label(c, value.size());
    c.nontrivial(!value.empty());
}

VP_FAMILY("environment_threads", 200, 4000, "always") {
    // Lookups and updates by several threads, each of its own variables: no
    // thread sees anything but what it set itself.
    const int threads = 2 + static_cast<int>(s.draw(2));
    const int rounds  = 40 + static_cast<int>(s.draw(60));
    std::vector<std::string> problem(threads);
    std::vector<std::thread> pool;
    const auto tag = std::to_string(s.draw(99));
    for (int t = 0; t < threads; ++t) {
        pool.emplace_back([&, t] {
            for (int r = 0; r < rounds; ++r) {
                const std::string name  = "VP25T" + tag + "_" + std::to_string(t) + "_" + std::to_string(r % 7);
                const std::string value = std::to_string(t * 100000 + r) + std::string(static_cast<std::size_t>(r % 17), 'x');
                if (edsp::system_env::set_env(name, value) != edsp::system_env::error::no_error) {
                    problem[t] = "set_env fails";
                }
                if (!edsp::system_env::exist(name)) {
                    problem[t] = name + " is missing";
                }
                const auto g = edsp::system_env::get_env(name);
                if (!g.has_value() || std::string(g->data(), g->size()) != value) {
                    problem[t] = name + " holds another value";
                }
            }
        });
    }
    for (auto& t : pool) {
        t.join();
    }
    for (int t = 0; t < threads; ++t) {
        for (int r = 0; r < 7; ++r) {
            ::unsetenv(("VP25T" + tag + "_" + std::to_string(t) + "_" + std::to_string(r)).c_str());
        }
    }
    c.describe([&](auto& o) { o << threads << " threads, " << rounds << " rounds"; });
    for (auto& p : problem) {
        VP_CHECK(p.empty(), p);
    }
    c.nontrivial(true);
}

VP_FAMILY("library_information", 300, 1500, "always") {
    const auto which = s.draw(7);
    c.describe([&](auto& o) { o << "query " << which; });
    c.nontrivial(true);
    switch (which) {
        case 0:
            VP_CHECK(edsp::library_info::major_version() == 71, "the major version is reported as " << edsp::library_info::major_version());
            break;
        case 1:
            VP_CHECK(edsp::library_info::minor_version() == 82, "the minor version is reported as " << edsp::library_info::minor_version());
            break;
        case 2:
            VP_CHECK(edsp::library_info::patch_version() == 93, "the patch version is reported as " << edsp::library_info::patch_version());
            break;
        case 3: {
            const auto whole = std::to_string(c25_real_version(0)) + "." + std::to_string(c25_real_version(1)) + "." + std::to_string(c25_real_version(2));
            VP_CHECK(c25_real_string() == whole, "version " << c25_real_string() << ", but the parts give " << whole);
            break;
        }
        case 4: {
            // __DATE__ is "Mmm dd yyyy", __TIME__ is "hh:mm:ss"
            const std::string d = edsp::library_info::build_date(), t = edsp::library_info::build_time();
            VP_CHECK(d.size() == 11 && d[3] == ' ' && std::isalpha(static_cast<unsigned char>(d[0])), "build date " << shown(d));
            VP_CHECK(t.size() == 8 && t[2] == ':' && t[5] == ':', "build time " << shown(t));
            break;
        }
        case 5: {
            VP_CHECK(edsp::system_info::os() == edsp::systems::linux, "this is not reported as Linux");
#if defined(__clang__)
            VP_CHECK(edsp::system_info::compiler() == edsp::compilers::clang, "wrong compiler");
#else
            VP_CHECK(edsp::system_info::compiler() == edsp::compilers::gcc, "wrong compiler");
#endif
#if defined(__x86_64__)
            VP_CHECK(edsp::system_info::processor() == edsp::processors::x64, "wrong processor");
#endif
            break;
        }
        default: {
            const int v = static_cast<int>(s.draw(7)), kind = static_cast<int>(s.draw(2));
            // variant bits: which macro was defined when that unit was compiled
            static const int expected[8][3] = {
                {0, 1, 0}, // fftw, sndfile, samplerate
                {1, 0, 1}, // pffft, audiofile, resample
                {2, 1, 2}, // accelerate, sndfile, none
                {3, 2, 2}, // none
                {0, 2, 1}, // fftw, none, resample
                {1, 2, 0}, // pffft, none, samplerate
                {3, 0, 0}, // none, audiofile, samplerate
                {2, 0, 2}, // accelerate, audiofile, none
            };
            const int got = c25_backend(v, kind);
            VP_CHECK(got == expected[v][kind], "configuration " << v << ", back end " << kind << ": reported " << got << ", compiled with " << expected[v][kind]);
        }
    }
}

namespace {
    std::string without_escapes(const std::string& s) {
        std::string r;
        for (std::size_t i = 0; i < s.size();) {
            if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
                std::size_t j = i + 2;
                while (j < s.size() && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == ';')) {
                    ++j;
                }
                if (j < s.size() && s[j] == 'm') {
                    i = j + 1;
                    continue;
                }
            }
            r += s[i++];
        }
        return r;
    }

    struct Capture {
        std::ostringstream out;
        std::streambuf* old;
        Capture() : old(std::cout.rdbuf(out.rdbuf())) {}
        ~Capture() {
            std::cout.rdbuf(old);
        }
    };

    template <typename T>
    std::string plain(const T& v) {
        std::ostringstream o;
        o << v;
        return o.str();
    }

    // One item into the log; returns what it should appear as.
    std::string item(vp::Src& s, edsp::logger& log, vp::History& what) {
        switch (s.draw(15)) {
            case 0: {
                const auto v = static_cast<std::int32_t>(s.range<long>(std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max()));
                log << v;
                what += "int32 ";
                return plain(v) + " ";
            }
            case 1: {
                const auto v = static_cast<std::uint64_t>(s.draw(std::numeric_limits<std::uint64_t>::max()));
                log << v;
                what += "uint64 ";
                return plain(v) + " ";
            }
            case 2: {
                const auto v = s.range<long>(std::numeric_limits<std::int64_t>::min() / 2, std::numeric_limits<std::int64_t>::max() / 2);
                log << static_cast<std::int64_t>(v);
                what += "int64 ";
                return plain(v) + " ";
            }
            case 3: {
                const auto v = static_cast<std::uint16_t>(s.draw(65535));
                log << v;
                what += "uint16 ";
                return plain(v) + " ";
            }
            case 4: {
                const auto v = static_cast<std::int16_t>(s.range<long>(-32768, 32767));
                log << v;
                what += "int16 ";
                return plain(v) + " ";
            }
            case 5: {
                const auto v = static_cast<std::uint32_t>(s.draw(0xffffffffu));
                log << v;
                what += "uint32 ";
                return plain(v) + " ";
            }
            case 6: {
                const double v = s.real(-1e6, 1e6);
                log << v;
                what += "double ";
                return plain(v) + " ";
            }
            case 7: {
                const float v = static_cast<float>(s.real(-1e6, 1e6));
                log << v;
                what += "float ";
                return plain(v) + " ";
            }
            case 8: {
                char v = static_cast<char>(s.draw(255));
                v      = v == '\033' ? 'e' : v;
                log << v;
                what += "char ";
                return std::string(1, v) + " ";
            }
            case 9:
            case 10: {
                const auto v = text(s, s.one_in(10) ? 20000 : 40, true);
                log << v;
                what += "string" + shown(v) + " ";
                return v + " ";
            }
            case 11:
            case 12: {
                const auto v = text(s, 40, true);
                const Exact e(v);
                log << e.view();
                what += "view" + shown(v) + " ";
                return v + " ";
            }
            case 13: {
                const auto v = text(s, 40, false);
                log << v.c_str();
                what += "cstr" + shown(v) + " ";
                return v + " ";
            }
            case 14: {
                switch (s.draw(2)) {
                    case 0:
                        log << edsp::tab;
                        what += "tab ";
                        return "\t";
                    case 1:
                        log << edsp::endl;
                        what += "endl ";
                        return "\n";
                    default:
                        log.space();
                        what += "space ";
                        return " ";
                }
            }
            default: {
                what += "style ";
                switch (s.draw(10)) {
                    case 0: log << edsp::red; break;
                    case 1: log << edsp::yellow; break;
                    case 2: log << edsp::blue; break;
                    case 3: log << edsp::cyan; break;
                    case 4: log << edsp::white; break;
                    case 5: log << edsp::magenta; break;
                    case 6: log << edsp::green; break;
                    case 7: log << edsp::grey; break;
                    case 8: log << edsp::bold; break;
                    case 9: log << edsp::endc; break;
                    default: log << edsp::reset; break;
                }
                return "";
            }
        }
    }

    const edsp::logger::levels all_levels[] = {edsp::logger::trace,   edsp::logger::debug, edsp::logger::info,    edsp::logger::warning,
                                               edsp::logger::error, edsp::logger::critical, edsp::logger::off};
}

VP_FAMILY("logger_messages", 60000, 900000, "at least two messages printed and a level that filters some") {
    const auto before_level = edsp::logger::default_level();
    const auto before_name  = edsp::logger::default_name();
    std::string expected;
    vp::History history(c);
    int printed = 0, hidden = 0;
    std::string got;
    {
        Capture cap;
        edsp::logger::set_default_level(edsp::logger::trace);
        auto minimum = edsp::logger::trace;
        const std::size_t messages = 1 + s.size(0, 8);
        for (std::size_t m = 0; m < messages; ++m) {
            if (s.one_in(3)) {
                minimum = all_levels[s.draw(6)];
                edsp::logger::set_default_level(minimum);
                history += "[minimum " + std::to_string(minimum) + "] ";
                VP_CHECK(edsp::logger::default_level() == minimum, "default_level() gives " << edsp::logger::default_level());
            }
            if (s.one_in(4)) {
                const auto n = text(s, 10, true);
                edsp::logger::set_default_name(n);
                VP_CHECK(edsp::logger::default_name() == n, "default_name() gives " << shown(edsp::logger::default_name()));
            }
            auto level = all_levels[s.draw(6)];
            std::unique_ptr<edsp::logger> log;
            std::string name = edsp::logger::default_name();
            const auto ctor  = s.draw(4);
            const auto named = text(s, 10, true);
            const Exact en(named);
            if (ctor == 0) {
                log.reset(new edsp::logger(en.view(), level));
                name = named;
            } else if (ctor == 1) {
                log.reset(new edsp::logger(level));
            } else if (ctor == 2) {
                log.reset(new edsp::logger());
                level = edsp::logger::trace;
            } else {
                switch (s.draw(5)) {
                    case 0: log.reset(new eTrace()); level = edsp::logger::trace; break;
                    case 1: log.reset(new eDebug()); level = edsp::logger::debug; break;
                    case 2: log.reset(new eInfo()); level = edsp::logger::info; break;
                    case 3: log.reset(new eWarning()); level = edsp::logger::warning; break;
                    case 4: log.reset(new eError()); level = edsp::logger::error; break;
                    default: log.reset(new eCritical()); level = edsp::logger::critical; break;
                }
            }
            VP_CHECK(log->name() == name, "name() gives " << shown(log->name()) << ", expected " << shown(name));
            VP_CHECK(log->level() == level, "level() gives " << log->level() << ", expected " << level);
            history += "message(" + std::to_string(level) + "): ";
            std::string want;
            const std::size_t items = s.size(0, 8);
            for (std::size_t k = 0; k < items; ++k) {
                want += item(s, *log, history);
                const auto now = without_escapes(log->str());
                VP_CHECK(now == want, "str() holds " << shown(now) << ", expected " << shown(want));
            }
            if (s.one_in(4)) {
                level = all_levels[s.draw(6)];
                log->set_level(level);
                history += "level:=" + std::to_string(level) + " ";
                VP_CHECK(log->level() == level, "level() gives " << log->level() << " after set_level(" << level << ")");
            }
            VP_CHECK(without_escapes(cap.out.str()) == expected, "the message is printed before it is complete");
            log.reset();
            history += "| ";
            if (level >= minimum && level != edsp::logger::off) {
                expected += want;
                ++printed;
            } else {
                ++hidden;
            }
            got = without_escapes(cap.out.str());
            if (got != expected) {
                break;
            }
        }
        // every styled message ends unstyled
        got                = without_escapes(cap.out.str());
        const auto raw     = cap.out.str();
        const auto escapes = raw.rfind("\033[");
        if (got == expected && escapes != std::string::npos) {
            VP_CHECK(raw.compare(escapes, 4, "\033[00") == 0 || raw.compare(escapes, 4, "\033[0m") == 0, "the style is left on after the message: " << shown(raw.substr(escapes)));
        }
        std::cout << std::flush;
    }
    edsp::logger::set_default_level(before_level);
    edsp::logger::set_default_name(before_name);
    VP_CHECK(got == expected, "standard output holds " << shown(got) << ", expected " << shown(expected));
    c.label(hidden ? (printed ? "some filtered" : "all filtered") : "none filtered");
    c.nontrivial(printed >= 2 && hidden >= 1);
}

VP_FAMILY("logger_names_of_things", 200, 1000, "always") {
    // The values of the information enumerations are printed by their names.
    const auto which = s.draw(7);
    c.describe([&](auto& o) { o << "value " << which; });
    c.nontrivial(true);
    std::string got, want;
    {
        Capture cap;
        const auto before = edsp::logger::default_level();
        edsp::logger::set_default_level(edsp::logger::trace);
        {
            edsp::logger log(edsp::logger::info);
            switch (which) {
                case 0: log << edsp::fft_lib::fftw; want = "FFTW "; break;
                case 1: log << edsp::fft_lib::pffft; want = "PFFFT "; break;
                case 2: log << edsp::codec_lib::sndfile; want = "Lib SndFile "; break;
                case 3: log << edsp::codec_lib::audiofile; want = "Audio File Library "; break;
                case 4: log << edsp::systems::linux; want = "Linux distribution "; break;
                case 5: log << edsp::processors::x64; want = "x64 architecture "; break;
                case 6: log << edsp::compilers::gcc; want = "gcc "; break;
                default: log << edsp::fft_lib::unknown; want = "not found "; break;
            }
        }
        edsp::logger::set_default_level(before);
        got = without_escapes(cap.out.str());
    }
    VP_CHECK(got == want, "printed " << shown(got) << ", expected " << shown(want));
}
