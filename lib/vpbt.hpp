// vpbt: a small property-based testing engine.
//
// A property family is a function of a choice source. Every random decision of a case is one recorded
// integer choice, so a case is fully described by its choice list: that list is what is shrunk (by deleting,
// zeroing and minimising choices) and what a replay file holds.
// Case i of family f under seed S always draws the same choices, whatever the number of workers.
// Cases run in forked workers: a crash, sanitizer abort or hang is attributed to the case that was running.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>
#include <complex>

namespace vp {

    struct Failure {
        std::string msg;
    };
    struct Discard {};

    inline uint64_t mix64(uint64_t x) {
        x += 0x9e3779b97f4a7c15ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
    inline uint64_t hash_str(const std::string& s) {
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) {
            h = (h ^ c) * 1099511628211ULL;
        }
        return mix64(h);
    }

    constexpr std::size_t MAX_CHOICES = 1u << 16;

    struct Shared { // one per worker, in shared memory
        volatile int running;
        volatile int family;
        volatile long index;
        volatile long done;
        volatile uint32_t nchoices;
        uint64_t choices[MAX_CHOICES];
    };

    class Src {
      public:
        // generating
        Src(uint64_t seed, Shared* sh) : state_(seed), replay_(nullptr), sh_(sh) {
            if (sh_) {
                sh_->nchoices = 0;
            }
        }
        // replaying
        Src(const std::vector<uint64_t>* replay, Shared* sh) : state_(0), replay_(replay), sh_(sh) {
            if (sh_) {
                sh_->nchoices = 0;
            }
        }

        // a choice in [0, bound]
        uint64_t draw(uint64_t bound) {
            uint64_t v;
            if (rec.size() >= MAX_CHOICES) {
                throw Discard{};
            }
            if (replay_) {
                v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
                v = std::min(v, bound);
            } else {
                state_     = mix64(state_ + 0x632be59bd9b4e019ULL);
                uint64_t r = state_;
                v          = bound == ~0ULL ? r : r % (bound + 1);
            }
            pos_++;
            if (sh_ && rec.size() < MAX_CHOICES) {
                sh_->choices[rec.size()] = v;
                sh_->nchoices            = static_cast<uint32_t>(rec.size() + 1);
            }
            rec.push_back(v);
            return v;
        }

        template <typename I = long>
        I range(I lo, I hi) {
            return static_cast<I>(lo + static_cast<I>(draw(static_cast<uint64_t>(hi - lo))));
        }
        bool flip() {
            return draw(1) == 1;
        }
        // true with probability 1/n ; shrinks to false
        bool one_in(uint64_t n) {
            return draw(n - 1) == n - 1;
        }
        template <typename V>
        typename V::value_type pick(const V& v) {
            return v[draw(v.size() - 1)];
        }
        template <typename T>
        T pick(std::initializer_list<T> v) {
            return *(v.begin() + draw(v.size() - 1));
        }

        // a size in [lo, hi]: small, around powers of two, or anywhere
        long size(long lo, long hi) {
            switch (draw(5)) {
                case 0:
                case 1:
                    return range<long>(lo, std::min(hi, lo + 9));
                case 2:
                    return range<long>(lo, std::min(hi, lo + 40));
                case 3: {
                    long p = 1L << draw(40);
                    // pick a power of two within the range
                    int kmax = 0;
                    while ((1L << (kmax + 1)) <= hi) {
                        kmax++;
                    }
                    p      = 1L << (static_cast<long>(p ? __builtin_ctzl(p) : 0) % (kmax + 1));
                    long n = p + range<long>(0, 2) - 1;
                    return std::min(hi, std::max(lo, n));
                }
                default:
                    return range<long>(lo, hi);
            }
        }

        // uniform real in [lo, hi] (52 bit grid)
        double uniform(double lo, double hi) {
            const uint64_t k = draw((1ULL << 40));
            const double v   = lo + (hi - lo) * (static_cast<double>(k) / static_cast<double>(1ULL << 40));
            return std::min(hi, std::max(lo, v));
        }
        // real in [lo, hi]: interesting values, integers, decimals, uniform, log scale near zero
        double real(double lo, double hi) {
            double v = lo;
            switch (draw(7)) {
                case 0: {
                    static const double nice[] = {0, 1, -1, 0.5, -0.5, 2, -2, 0.25, 10, -10, 100, 0.1, -0.1, 3, -3};
                    v                          = nice[draw(14)];
                    break;
                }
                case 1: {
                    v = static_cast<double>(static_cast<long>(draw(64)) - 32);
                    break;
                }
                case 2: {
                    v = (static_cast<double>(draw(4000)) - 2000.) / 100.;
                    break;
                }
                case 3: {
                    v = draw(1) ? hi : lo;
                    break;
                }
                case 4: {
                    double m = std::max(std::abs(lo), std::abs(hi));
                    v        = m * std::pow(10.0, -static_cast<double>(draw(600)) / 100.0);
                    if (draw(1)) {
                        v = -v;
                    }
                    break;
                }
                default:
                    v = uniform(lo, hi);
            }
            if (!(v >= lo && v <= hi)) {
                v = uniform(lo, hi);
            }
            return v;
        }

        // log-uniform positive real
        double log_uniform(double lo, double hi) {
            return std::min(hi, std::max(lo, lo * std::pow(hi / lo, uniform(0, 1))));
        }

        std::vector<uint64_t> rec;

      private:
        uint64_t state_;
        const std::vector<uint64_t>* replay_;
        Shared* sh_;
        std::size_t pos_{0};
    };

    // deterministic stream for bulk data, seeded from one choice
    struct Bulk {
        uint64_t s;
        explicit Bulk(uint64_t seed) : s(seed) {}
        uint64_t next() {
            s = mix64(s + 0x632be59bd9b4e019ULL);
            return s;
        }
        double u01() {
            return static_cast<double>(next() >> 11) / static_cast<double>(1ULL << 53);
        }
        double sym() {
            return 2 * u01() - 1;
        }
    };

    struct Ctx {
        bool verbose{false};
        bool is_nontrivial{false};
        std::vector<std::string> labels;
        std::string description;
        std::set<std::string> known_allowed;
        std::set<std::string> known_hit;
        int desc_fd{-1};

        void label(const std::string& l) {
            labels.push_back(l);
        }
        void nontrivial(bool b = true) {
            is_nontrivial = b;
        }
        template <typename F>
        void describe(F&& f) {
            if (verbose) {
                std::ostringstream os;
                os << std::setprecision(17);
                f(os);
                description += os.str();
                if (desc_fd >= 0) { // survives a crash of the case
                    ssize_t r = ::write(desc_fd, os.str().data(), os.str().size());
                    (void) r;
                }
            }
        }
        // a deviation that equals exactly the model of a listed finding
        bool known(const std::string& key) {
            if (known_allowed.count(key)) {
                known_hit.insert(key);
                return true;
            }
            return false;
        }
    };

    struct Family {
        std::string name;
        long quick;
        long thorough;
        std::string rule;
        std::function<void(Src&, Ctx&)> body;
    };
    inline std::vector<Family>& families() {
        static std::vector<Family> f;
        return f;
    }
    struct Register {
        Register(const char* name, long q, long t, const char* rule, std::function<void(Src&, Ctx&)> f) {
            families().push_back({name, q, t, rule, std::move(f)});
        }
    };
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#ifdef VP_PYTHON // py.hpp defines VP_PRELUDE
#define VP_FAMILY(name, q, t, rule)                                                      \
    static void VP_CAT(vp_body_, __LINE__)(vp::Src & s, vp::Ctx & c);                    \
    static void VP_CAT(vp_start_, __LINE__)(vp::Src & s, vp::Ctx & c) {                  \
        VP_PRELUDE(s, c);                                                                \
        VP_CAT(vp_body_, __LINE__)(s, c);                                                \
    }                                                                                    \
    static vp::Register VP_CAT(vp_reg_, __LINE__)(name, (q) / 10, (t) / 10, rule, VP_CAT(vp_start_, __LINE__)); \
    static void VP_CAT(vp_body_, __LINE__)([[maybe_unused]] vp::Src & s, [[maybe_unused]] vp::Ctx & c)
#else
#define VP_FAMILY(name, q, t, rule)                                                      \
    static void VP_CAT(vp_body_, __LINE__)(vp::Src & s, vp::Ctx & c);                    \
    static vp::Register VP_CAT(vp_reg_, __LINE__)(name, q, t, rule, VP_CAT(vp_body_, __LINE__)); \
    static void VP_CAT(vp_body_, __LINE__)([[maybe_unused]] vp::Src & s, [[maybe_unused]] vp::Ctx & c)
#endif

#define VP_FAIL(expr)                      \
    do {                                   \
        std::ostringstream vp_os_;         \
        vp_os_ << std::setprecision(17);   \
        vp_os_ << expr;                    \
        throw vp::Failure{vp_os_.str()};   \
    } while (0)
#define VP_CHECK(cond, expr) \
    do {                     \
        if (!(cond))         \
            VP_FAIL(expr);   \
    } while (0)

    template <typename V>
    std::string show(const V& v, std::size_t limit = 24) {
        std::ostringstream os;
        os << std::setprecision(9) << "[";
        std::size_t i = 0;
        for (const auto& x : v) {
            if (i == limit) {
                os << ", ... (" << v.size() << ")";
                break;
            }
            os << (i ? ", " : "") << x;
            ++i;
        }
        os << "]";
        return os.str();
    }

    // ---------------------------------------------------------------- numeric comparison
    template <typename T>
    bool same_class(T a, long double e) {
        if (std::isnan(e)) {
            return std::isnan(a);
        }
        if (std::isinf(e)) {
            return std::isinf(a) && (std::signbit(a) == std::signbit(e));
        }
        return std::isfinite(a);
    }
    // |a - e| <= mult * eps(T) * scale  (scale: magnitude of the terms involved)
    template <typename T>
    bool close(T a, long double e, long double scale, long double mult) {
        if (!same_class(a, e)) {
            // overflow to infinity right at the edge of the type is not judged
            if (std::isfinite(e) && std::abs(e) >= 0.99L * static_cast<long double>(std::numeric_limits<T>::max())) {
                return true;
            }
            return false;
        }
        if (!std::isfinite(e)) {
            return true;
        }
        const long double tol = mult * static_cast<long double>(std::numeric_limits<T>::epsilon()) *
                                    (std::abs(scale) + std::abs(e)) +
                                4 * static_cast<long double>(std::numeric_limits<T>::min());
        return std::abs(static_cast<long double>(a) - e) <= tol;
    }

    // ---------------------------------------------------------------- signal generators
    // A signal of n values in [-amp, amp], of assorted shape. The shape is a choice, bulk shapes use one seed choice.
    template <typename T>
    std::vector<T> signal(Src& s, std::size_t n, double amp = 1.0, bool allow_zero = true) {
        std::vector<T> v(n);
        const auto kind = s.draw(9);
        if (kind <= 2 && n <= 48) { // each element its own choice(s): shrinks element by element
            for (auto& x : v) {
                if (kind == 0) {
                    x = static_cast<T>((static_cast<double>(s.draw(20)) - 10.) / 10. * amp);
                } else {
                    x = static_cast<T>(s.uniform(-amp, amp));
                }
            }
        } else {
            Bulk b(s.draw(~0ULL));
            const double f   = 0.5 * b.u01();
            const double ph  = b.u01();
            const double off = b.sym();
            const std::size_t hot = n ? b.next() % n : 0;
            for (std::size_t i = 0; i < n; ++i) {
                double x = 0;
                switch (kind) {
                    case 0:
                    case 1:
                    case 2:
                    case 3:
                        x = b.sym();
                        break;
                    case 4:
                        x = std::sin(2 * M_PI * (f * static_cast<double>(i) + ph));
                        break;
                    case 5:
                        x = i == hot ? 1 : 0;
                        break;
                    case 6: // sparse
                        x = (b.next() % 4 == 0) ? b.sym() : 0;
                        break;
                    case 7: // small integers, many ties
                        x = (static_cast<double>(b.next() % 9) - 4.0) / 4.0;
                        break;
                    case 8: // offset + small variation
                        x = 0.9 * off + 0.1 * b.sym();
                        break;
                    case 9: // wide dynamic range
                        x = b.sym() * std::pow(10.0, -4.0 * b.u01());
                        break;
                }
                v[i] = static_cast<T>(x * amp);
            }
        }
        if (!allow_zero) {
            for (auto& x : v) {
                if (x == 0) {
                    x = static_cast<T>(amp / 2);
                }
            }
        }
        return v;
    }
    template <typename T>
    std::vector<T> positive_signal(Src& s, std::size_t n, double amp = 1.0) {
        auto v = signal<T>(s, n, amp, false);
        for (auto& x : v) {
            x = std::abs(x);
        }
        return v;
    }

    // exact-size heap buffer without slack, so that ASan sees one-past accesses. Filled with a sentinel.
    template <typename T>
    struct Buf {
        T* p;
        std::size_t n;
        explicit Buf(std::size_t n_, T fill = T()) : p(static_cast<T*>(::malloc(n_ * sizeof(T) ? n_ * sizeof(T) : 1))), n(n_) {
            for (std::size_t i = 0; i < n; ++i) {
                new (p + i) T(fill);
            }
        }
        explicit Buf(const std::vector<T>& v) : p(static_cast<T*>(::malloc(v.size() * sizeof(T) ? v.size() * sizeof(T) : 1))), n(v.size()) {
            for (std::size_t i = 0; i < n; ++i) {
                new (p + i) T(v[i]);
            }
        }
        Buf(const Buf&) = delete;
        Buf& operator=(const Buf&) = delete;
        ~Buf() {
            ::free(p);
        }
        T* begin() {
            return p;
        }
        T* end() {
            return p + n;
        }
        const T* cbegin() const {
            return p;
        }
        const T* cend() const {
            return p + n;
        }
        T& operator[](std::size_t i) {
            return p[i];
        }
        std::size_t size() const {
            return n;
        }
        std::vector<T> vec() const {
            return std::vector<T>(p, p + n);
        }
    };

    inline std::string& scratch_dir() {
        static std::string d = ".";
        return d;
    }

#ifdef VPBT_MAIN
    // ---------------------------------------------------------------- runner
    namespace detail {
        inline std::string jesc(const std::string& s) {
            std::string o;
            for (unsigned char ch : s) {
                if (ch == '"' || ch == '\\') {
                    o += '\\';
                    o += static_cast<char>(ch);
                } else if (ch == '\n') {
                    o += "\\n";
                } else if (ch < 0x20 || ch >= 0x7f) {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", ch);
                    o += b;
                } else {
                    o += static_cast<char>(ch);
                }
            }
            return o;
        }

        inline void on_prof(int) {
            static const char m[] = "vpbt: case exceeded its CPU limit\n";
            ssize_t r             = ::write(2, m, sizeof m - 1);
            (void) r;
            _exit(77);
        }
        inline void arm(int seconds) {
            struct itimerval it;
            std::memset(&it, 0, sizeof it);
            it.it_value.tv_sec = seconds;
            setitimer(ITIMER_PROF, &it, nullptr);
        }

        enum Outcome { PASS, FAIL, DISCARD, CRASH, HANG };

        // run one case in this process
        inline Outcome run_case(const Family& f, Src& s, Ctx& c, std::string& msg) {
            try {
                f.body(s, c);
                return PASS;
            } catch (const Failure& e) {
                msg = e.msg;
                return FAIL;
            } catch (const Discard&) {
                return DISCARD;
            } catch (const std::exception& e) {
                msg = std::string("exception escaped: ") + e.what();
                return FAIL;
            } catch (...) {
                msg = "unknown exception escaped";
                return FAIL;
            }
        }

        inline std::string slurp(const std::string& p, std::size_t limit = 6000) {
            std::ifstream in(p);
            std::stringstream ss;
            ss << in.rdbuf();
            auto t = ss.str();
            return t.size() > limit ? t.substr(0, limit) : t;
        }

        inline std::string crash_summary(const std::string& err) {
            std::istringstream in(err);
            std::string line, first;
            while (std::getline(in, line)) {
                if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error:") != std::string::npos ||
                    line.find("WARNING: ThreadSanitizer") != std::string::npos || line.find("CPU limit") != std::string::npos || line.find("terminate called") != std::string::npos) {
                    first = line;
                    break;
                }
            }
            std::istringstream in2(err);
            std::string frame;
            while (std::getline(in2, line)) {
                if (line.find("/include/edsp/") != std::string::npos || line.find("/bindings/") != std::string::npos) {
                    if (line != first) {
                        frame = line;
                        break;
                    }
                }
            }
            return first + (frame.empty() ? "" : " | " + frame);
        }

        struct Options {
            std::string property{"?"};
            uint64_t seed{1};
            bool thorough{false};
            std::string out{"result.json"};
            std::string dir{"."};
            int jobs{8};
            double cap{100};
            double scale{1};
            int case_cpu{15};
            int attempts{1}; // to see a failure again, for harnesses of threads
            std::string replay;
            std::string only;
            std::set<std::string> known;
            bool list{false};
        };

        inline uint64_t case_seed(const Options& o, const Family& f, long i) {
            return mix64(mix64(o.seed * 0x9e3779b97f4a7c15ULL + 1) ^ hash_str(f.name) ^ mix64(static_cast<uint64_t>(i) + 77));
        }

        struct Result {
            Outcome outcome{PASS};
            std::string msg, desc;
            std::vector<uint64_t> choices;
        };

        inline Shared* alloc_shared() {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) {
                perror("mmap");
                exit(3);
            }
            return static_cast<Shared*>(p);
        }

        inline void redirect(const std::string& err) {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(e, 2);
        }

        // run one case, by choices, in a child
        inline Result isolated_once(const Options& o, const Family& f, const std::vector<uint64_t>& choices, Shared* sh, bool verbose) {
            const std::string err = o.dir + "/iso.err";
            const std::string txt = o.dir + "/iso.txt";
            ::unlink(txt.c_str());
            sh->nchoices = 0;
            pid_t pid    = fork();
            if (pid == 0) {
                redirect(err);
                ::signal(SIGPROF, on_prof);
                arm(o.case_cpu);
                Src s(&choices, sh);
                Ctx c;
                c.verbose       = verbose;
                c.known_allowed = o.known;
                c.desc_fd       = open((txt + ".desc").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                std::string msg;
                auto r = run_case(f, s, c, msg);
                std::ofstream(txt) << msg;
                _exit(r == FAIL ? 11 : r == DISCARD ? 12 : 10);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            Result res;
            res.choices.assign(sh->choices, sh->choices + sh->nchoices);
            res.msg  = slurp(txt, 20000);
            res.desc = slurp(txt + ".desc", 20000);
            if (WIFEXITED(st) && WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) <= 12) {
                res.outcome = WEXITSTATUS(st) == 10 ? PASS : WEXITSTATUS(st) == 11 ? FAIL : DISCARD;
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                res.outcome = HANG;
                res.msg     = "case did not finish within " + std::to_string(o.case_cpu) + " s of CPU time";
            } else {
                res.outcome = CRASH;
                res.msg     = "crash: " + crash_summary(slurp(err)) +
                          (WIFSIGNALED(st) ? " (signal " + std::to_string(WTERMSIG(st)) + ")" : " (exit " + std::to_string(WEXITSTATUS(st)) + ")");
            }
            return res;
        }

        inline bool bad(Outcome o) {
            return o == FAIL || o == CRASH || o == HANG;
        }

        inline Result isolated(const Options& o, const Family& f, const std::vector<uint64_t>& choices, Shared* sh, bool verbose) {
            auto r = isolated_once(o, f, choices, sh, verbose);
            for (int i = 1; i < o.attempts && !bad(r.outcome); ++i) {
                r = isolated_once(o, f, choices, sh, verbose);
            }
            return r;
        }

        inline double now() {
            struct timespec t;
            clock_gettime(CLOCK_MONOTONIC, &t);
            return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
        }

        // generic shrinker over an evaluation function that says whether a choice list still fails
        inline std::vector<uint64_t> shrink(std::vector<uint64_t> best, const std::function<bool(std::vector<uint64_t>&)>& fails, double deadline,
                                            long budget) {
            auto attempt = [&](std::vector<uint64_t> cand) {
                if (budget-- <= 0 || now() > deadline) {
                    return false;
                }
                if (fails(cand)) { // may trim cand to what was consumed
                    auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
                        return a.size() < b.size() || (a.size() == b.size() && a < b);
                    };
                    if (smaller(cand, best)) {
                        best = cand;
                        return true;
                    }
                }
                return false;
            };
            bool progress = true;
            while (progress && budget > 0 && now() < deadline) {
                progress = false;
                for (std::size_t k : {std::size_t(64), std::size_t(16), std::size_t(8), std::size_t(4), std::size_t(2), std::size_t(1)}) {
                    for (std::size_t i = best.size(); i-- > 0 && budget > 0;) {
                        if (i + k > best.size()) {
                            continue;
                        }
                        auto cand = best;
                        cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + k));
                        progress |= attempt(cand);
                        if (i >= best.size()) {
                            i = best.size();
                        }
                    }
                }
                for (std::size_t i = 0; i < best.size() && budget > 0; ++i) {
                    if (best[i] == 0) {
                        continue;
                    }
                    auto cand = best;
                    cand[i]   = 0;
                    if (attempt(cand)) {
                        progress = true;
                        continue;
                    }
                    uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // lo passes, hi fails
                    while (i < best.size() && hi - lo > 1 && budget > 0) {
                        uint64_t mid = lo + (hi - lo) / 2;
                        cand         = best;
                        cand[i]      = mid;
                        if (attempt(cand)) {
                            progress = true;
                            hi       = mid;
                        } else {
                            lo = mid;
                        }
                        if (i < best.size()) {
                            hi = std::min(hi, best[i]);
                        }
                    }
                    if (i < best.size() && best[i] > 0) {
                        cand = best;
                        cand[i]--;
                        progress |= attempt(cand);
                    }
                }
            }
            return best;
        }

        inline Options parse(int argc, char** argv) {
            Options o;
            for (int i = 1; i < argc; ++i) {
                std::string a = argv[i];
                auto val      = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
                if (a == "--property") {
                    o.property = val();
                } else if (a == "--seed") {
                    o.seed = std::stoull(val());
                } else if (a == "--tier") {
                    o.thorough = val() == "thorough";
                } else if (a == "--out") {
                    o.out = val();
                } else if (a == "--dir") {
                    o.dir = val();
                } else if (a == "--jobs") {
                    o.jobs = std::stoi(val());
                } else if (a == "--cap") {
                    o.cap = std::stod(val());
                } else if (a == "--scale") {
                    o.scale = std::stod(val());
                } else if (a == "--attempts") {
                    o.attempts = std::stoi(val());
                } else if (a == "--replay") {
                    o.replay = val();
                } else if (a == "--only") {
                    o.only = val();
                } else if (a == "--known") {
                    o.known.insert(val());
                } else if (a == "--list") {
                    o.list = true;
                }
            }
            return o;
        }

        struct Tally {
            long cases{0}, discards{0};
            std::map<std::string, long> labels;
            std::vector<std::string> samples;
        };
    } // namespace detail

    inline int run_main(int argc, char** argv) {
        using namespace detail;
        auto o  = parse(argc, argv);
        auto& F = families();
        std::sort(F.begin(), F.end(), [](const Family& a, const Family& b) { return a.name < b.name; });
        if (o.list) {
            for (auto& f : F) {
                std::cout << f.name << " " << f.quick << " " << f.thorough << "\n";
            }
            return 0;
        }
        scratch_dir() = o.dir;
        Shared* iso   = alloc_shared();

        if (!o.replay.empty()) { // file: family on the first line, choices on the second
            std::ifstream in(o.replay);
            std::string fam;
            std::getline(in, fam);
            std::vector<uint64_t> ch;
            uint64_t x;
            while (in >> x) {
                ch.push_back(x);
            }
            for (auto& f : F) {
                if (f.name == fam) {
                    auto r = isolated(o, f, ch, iso, true);
                    std::cout << (bad(r.outcome) ? "FAIL " : "PASS ") << f.name << ": " << r.msg << "\n" << r.desc << "\n";
                    return bad(r.outcome) ? 1 : 0;
                }
            }
            std::cout << "no such family: " << fam << "\n";
            return 3;
        }

        const double t0       = now();
        const double deadline = t0 + o.cap;
        struct Job {
            int family;
            long index;
        };
        // interleave families so that a time cap cuts all of them evenly
        std::vector<long> counts(F.size());
        for (std::size_t k = 0; k < F.size(); ++k) {
            long n    = o.thorough ? F[k].thorough : F[k].quick;
            counts[k] = (o.only.empty() || F[k].name.find(o.only) != std::string::npos) ? std::max(1L, static_cast<long>(static_cast<double>(n) * o.scale)) : 0;
        }
        constexpr int SLICES = 40;
        struct Slice {
            int family;
            long from, to;
        };
        std::vector<Slice> order;
        for (int sl = 0; sl < SLICES; ++sl) {
            for (std::size_t k = 0; k < F.size(); ++k) {
                long a = counts[k] * sl / SLICES, b = counts[k] * (sl + 1) / SLICES;
                if (b > a) {
                    order.push_back({static_cast<int>(k), a, b});
                }
            }
        }

        // flags shared by all workers: family has failed
        auto* stop = static_cast<volatile int*>(mmap(nullptr, sizeof(int) * (F.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<Shared*> sh(static_cast<std::size_t>(o.jobs));
        for (auto& p : sh) {
            p = alloc_shared();
        }

        // a worker runs its share of cases starting from job position `skip`
        auto worker = [&](int w, long skip, int generation) {
            const std::string base = o.dir + "/w" + std::to_string(w) + "." + std::to_string(generation);
            redirect(base + ".err");
            ::signal(SIGPROF, on_prof);
            std::vector<Tally> tally(F.size());
            std::vector<std::unordered_set<uint64_t>> seen(F.size());
            std::set<std::string> known;
            Shared* me = sh[static_cast<std::size_t>(w)];
            long pos   = 0;
            bool cut   = false;
            auto dump  = [&]() {
                std::ofstream out(base + ".tally");
                for (std::size_t k = 0; k < F.size(); ++k) {
                    out << "F " << k << " " << tally[k].cases << " " << tally[k].discards << "\n";
                    for (auto& l : tally[k].labels) {
                        out << "L " << k << " " << l.second << " " << l.first << "\n";
                    }
                    for (auto& sm : tally[k].samples) {
                        std::string one = sm;
                        std::replace(one.begin(), one.end(), '\n', ' ');
                        out << "S " << k << " 0 " << one << "\n";
                    }
                }
                for (auto& kn : known) {
                    out << "K 0 0 " << kn << "\n";
                }
                if (cut) {
                    out << "C 0 0 cut\n";
                }
                std::ofstream hs(base + ".hash", std::ios::binary);
                for (std::size_t k = 0; k < F.size(); ++k) {
                    for (auto h : seen[k]) {
                        uint64_t rec[2] = {k, h};
                        hs.write(reinterpret_cast<char*>(rec), sizeof rec);
                    }
                }
            };
            for (auto& sl : order) {
                const Family& f = F[static_cast<std::size_t>(sl.family)];
                for (long i = sl.from; i < sl.to; ++i) {
                    if (i % o.jobs != w) {
                        continue;
                    }
                    const long here = pos++;
                    if (here < skip || stop[sl.family]) {
                        continue;
                    }
                    if (now() > deadline) {
                        cut = true;
                        dump();
                        _exit(0);
                    }
                    auto& t = tally[static_cast<std::size_t>(sl.family)];
                    Src s(case_seed(o, f, i), me);
                    Ctx c;
                    c.known_allowed = o.known;
                    c.verbose       = t.samples.size() < 2;
                    me->family      = sl.family;
                    me->index       = i;
                    me->done        = here;
                    me->running     = 1;
                    arm(o.case_cpu);
                    std::string msg;
                    auto r      = run_case(f, s, c, msg);
                    me->running = 0;
                    arm(0);
                    if (r == FAIL) {
                        stop[sl.family] = 1;
                        dump();
                        _exit(11);
                    }
                    if (r == DISCARD) {
                        t.discards++;
                        continue;
                    }
                    t.cases++;
                    known.insert(c.known_hit.begin(), c.known_hit.end());
                    for (auto& l : c.labels) {
                        t.labels[l]++;
                    }
                    if (c.is_nontrivial) {
                        uint64_t h = hash_str(f.name);
                        for (auto x : s.rec) {
                            h = mix64(h ^ x);
                        }
                        seen[static_cast<std::size_t>(sl.family)].insert(h);
                        if (t.samples.size() < 2 && !c.description.empty()) {
                            t.samples.push_back(c.description.substr(0, 600));
                        }
                    }
                }
            }
            dump();
            _exit(0);
        };

        std::vector<Tally> total(F.size());
        std::vector<std::unordered_set<uint64_t>> seen(F.size());
        std::set<std::string> known;
        std::vector<Result> failures;
        std::vector<int> failure_family;
        std::vector<long> failure_index;
        bool cut = false;
        std::map<pid_t, std::pair<int, int>> live;
        for (int w = 0; w < o.jobs; ++w) {
            pid_t p = fork();
            if (p == 0) {
                worker(w, 0, 0);
            }
            live[p] = {w, 0};
        }
        auto collect = [&](int w, int gen) {
            const std::string base = o.dir + "/w" + std::to_string(w) + "." + std::to_string(gen);
            std::ifstream in(base + ".tally");
            std::string line;
            while (std::getline(in, line)) {
                std::istringstream is(line);
                std::string tag;
                std::size_t k;
                long n;
                is >> tag >> k >> n;
                std::string rest;
                if (tag == "F") {
                    long d;
                    is >> d;
                    total[k].cases += n;
                    total[k].discards += d;
                } else {
                    std::getline(is, rest);
                    if (!rest.empty()) {
                        rest = rest.substr(1);
                    }
                    if (tag == "L") {
                        total[k].labels[rest] += n;
                    } else if (tag == "S") {
                        if (total[k].samples.size() < 3) {
                            total[k].samples.push_back(rest);
                        }
                    } else if (tag == "K") {
                        known.insert(rest);
                    } else if (tag == "C") {
                        cut = true;
                    }
                }
            }
            std::ifstream hs(base + ".hash", std::ios::binary);
            uint64_t rec[2];
            while (hs.read(reinterpret_cast<char*>(rec), sizeof rec)) {
                seen[rec[0]].insert(rec[1]);
            }
            for (auto e : {".tally", ".hash"}) {
                ::unlink((base + e).c_str());
            }
        };
        long respawns = 0;
        while (!live.empty()) {
            int st  = 0;
            pid_t p = wait(&st);
            if (p < 0) {
                break;
            }
            auto it = live.find(p);
            if (it == live.end()) {
                continue;
            }
            int w = it->second.first, gen = it->second.second;
            live.erase(it);
            collect(w, gen);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                continue;
            }
            Shared* m   = sh[static_cast<std::size_t>(w)];
            auto fam    = m->family;
            bool dup    = std::find(failure_family.begin(), failure_family.end(), fam) != failure_family.end();
            stop[fam]   = 1;
            if (!dup) {
                Result r;
                r.choices.assign(m->choices, m->choices + m->nchoices);
                r.outcome = WIFEXITED(st) && WEXITSTATUS(st) == 11 ? FAIL : WIFEXITED(st) && WEXITSTATUS(st) == 77 ? HANG : CRASH;
                failures.push_back(r);
                failure_family.push_back(fam);
                failure_index.push_back(static_cast<long>(m->index));
            }
            if (respawns++ < 400) {
                long skip = m->done + 1;
                pid_t q   = fork();
                if (q == 0) {
                    worker(w, skip, gen + 1);
                }
                live[q] = {w, gen + 1};
            }
        }

        // confirm, shrink, replay
        std::ostringstream fj;
        int confirmed = 0, flaky = 0;
        for (std::size_t k = 0; k < failures.size(); ++k) {
            const Family& f = F[static_cast<std::size_t>(failure_family[k])];
            auto r          = isolated(o, f, failures[k].choices, iso, true);
            bool ok         = bad(r.outcome);
            if (ok && confirmed < 12) {
                const double limit = now() + (confirmed < 3 ? 25 : 5);
                auto outcome       = r.outcome;
                if (outcome != HANG) {
                    auto best = shrink(
                        r.choices,
                        [&](std::vector<uint64_t>& cand) {
                            auto q = isolated(o, f, cand, iso, false);
                            if (q.outcome == outcome) {
                                if (q.choices.size() < cand.size()) {
                                    cand = q.choices;
                                }
                                return true;
                            }
                            return false;
                        },
                        limit, 1500);
                    auto q = isolated(o, f, best, iso, true);
                    if (bad(q.outcome)) {
                        r         = q;
                        r.choices = best;
                    }
                }
                for (int rep = 0; rep < (outcome == HANG ? 1 : 2) && ok; ++rep) {
                    ok = bad(isolated(o, f, r.choices, iso, false).outcome);
                }
            }
            if (!ok) {
                flaky++;
                std::cerr << "note: failure of " << f.name << " case " << failure_index[k] << " did not reproduce\n";
                continue;
            }
            fj << (confirmed ? "," : "") << "{\"family\":\"" << jesc(f.name) << "\",\"index\":" << failure_index[k] << ",\"kind\":\""
               << (r.outcome == FAIL ? "check" : r.outcome == HANG ? "hang" : "crash") << "\",\"message\":\"" << jesc(r.msg) << "\",\"case\":\""
               << jesc(r.desc) << "\",\"choices\":[";
            for (std::size_t i = 0; i < r.choices.size(); ++i) {
                fj << (i ? "," : "") << r.choices[i];
            }
            fj << "]}";
            confirmed++;
        }

        std::ofstream out(o.out);
        out << "{\"families\":[";
        for (std::size_t k = 0; k < F.size(); ++k) {
            auto& t = total[k];
            out << (k ? "," : "") << "{\"name\":\"" << jesc(F[k].name) << "\",\"rule\":\"" << jesc(F[k].rule) << "\",\"cases\":" << t.cases
                << ",\"planned\":" << counts[k] << ",\"discards\":" << t.discards << ",\"nontrivial\":" << seen[k].size() << ",\"labels\":{";
            bool first = true;
            for (auto& l : t.labels) {
                out << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second;
                first = false;
            }
            out << "},\"samples\":[";
            first = true;
            for (auto& sm : t.samples) {
                out << (first ? "" : ",") << "\"" << jesc(sm) << "\"";
                first = false;
            }
            out << "]}";
        }
        out << "],\"known\":[";
        bool first = true;
        for (auto& kn : known) {
            out << (first ? "" : ",") << "\"" << jesc(kn) << "\"";
            first = false;
        }
        out << "],\"cut\":" << (cut ? "true" : "false") << ",\"flaky\":" << flaky << ",\"wall\":" << now() - t0 << ",\"failures\":[" << fj.str() << "]}\n";
        out.close();
        return confirmed ? 1 : 0;
    }
#endif // VPBT_MAIN
} // namespace vp
