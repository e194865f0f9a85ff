// C22: the resampler: counts, levels, sinusoids, channels, block histories, reset, and what it refuses.
#include <memory>
#include "ref_audio.hpp"
#include <edsp/io/resampler.hpp>
using namespace vp;
using R = edsp::io::resampler<float>;

namespace {
    using edsp::io::resample_quality;
    const char* const names[] = {"best", "medium", "fastest", "zero order hold", "linear"};
    const int reach[]         = {144, 48, 21, 2, 2}; // frames of the input, or of the output when that is slower, a converter looks ahead

    float ratio_of(Src& s, bool narrow) {
        const double most = narrow ? 12 : 256;
        switch (s.draw(5)) {
            case 0: return s.pick({1.0f, 2.0f, 0.5f, 3.0f, 0.25f, 4.0f});
            case 1: return s.pick({48000.0f / 44100.0f, 44100.0f / 48000.0f, 8000.0f / 44100.0f, 22050.0f / 16000.0f});
            case 2: return narrow ? s.pick({12.0f, 1.0f / 12, 1.001f, 0.999f}) : s.pick({256.0f, 1.0f / 256, 100.0f, 0.01f});
            case 3: return static_cast<float>(s.range<long>(1, 24)) / static_cast<float>(s.range<long>(2, 24));
            default: return static_cast<float>(s.log_uniform(1.0 / most, most));
        }
    }
    double margin(int q, double ratio) {
        return reach[q] / std::min(1.0, ratio) + 3;
    }
    // what libsamplerate has to have done of n frames with room for floor(ratio n): nothing lost, nothing made up
    void counts(int q, float ratio, long given, long before_used, long before_made, std::pair<long, long> r) {
        const auto cap  = static_cast<long>(static_cast<double>(ratio) * static_cast<double>(given));
        VP_CHECK(r.first >= 0 && r.first <= given, "of " << given << " frames, " << r.first << " were used");
        VP_CHECK(r.second >= 0 && r.second <= cap, "from " << given << " frames with ratio " << ratio << ", " << r.second << " frames were made");
        const double lag = static_cast<double>(before_used + r.first) - static_cast<double>(before_made + r.second) / ratio;
        // where the room ran out the rest is still held
        VP_CHECK((lag <= margin(q, ratio) + 1.0 / ratio || r.second == cap) && lag >= -3 - 1.0 / ratio, "with ratio " << ratio << ", " << before_used + r.first << " frames used in all gave " << before_made + r.second << " frames");
        VP_CHECK(cap == 0 || r.second == cap || (q <= 2 && r.first > 0) || r.first + 2 + 1.0 / ratio >= static_cast<double>(given), "of " << given << " frames only " << r.first << " were used, giving " << r.second << " of " << cap);
    }

    struct Wave {
        int kind = 0; // 0 constant, 1 sinusoid, 2 anything
        double amplitude = 1, w = 0, phase = 0, level = 0;
        std::vector<float> any;
        double at(double t) const {
            return kind == 0 ? level : level + amplitude * std::sin(w * t + phase);
        }
        float sample(long i) const {
            return kind == 2 ? any[static_cast<std::size_t>(i)] : static_cast<float>(at(static_cast<double>(i)));
        }
        double most() const {
            double m = std::abs(level) + (kind ? amplitude : 0);
            for (auto x : any) {
                m = std::max(m, static_cast<double>(std::abs(x)));
            }
            return m;
        }
    };
    Wave wave(Src& s, double ratio, std::size_t n) {
        Wave v;
        v.kind      = static_cast<int>(s.draw(2));
        v.amplitude = s.log_uniform(0.01, 100);
        v.level     = s.flip() ? 0 : s.uniform(-10, 10);
        v.w         = s.uniform(0.01, 0.55 * 3.14159265) * std::min(1.0, ratio);
        v.phase     = s.uniform(0, 6.28);
        if (v.kind == 2) {
            v.any   = signal<float>(s, n);
            v.level = 0;
            v.amplitude = 0;
        }
        return v;
    }
    const char* const waves[] = {"constant", "sinusoid", "any signal"};

    // frame j of the output against the signal it came from
    void judge(const Wave& v, int q, double ratio, long j, long used, long n, float y) {
        const double t    = static_cast<double>(j) / ratio;
        const double most = v.most();
        if (q <= 2) {
            const double m = margin(q, ratio);
            if (v.kind == 2 || t < m || t > static_cast<double>(used) - m) {
                VP_CHECK(std::isfinite(y), "output frame " << j << " is " << y);
                return;
            }
            const double tol = most * (q == 0 ? 2e-5 : q == 1 ? 5e-5 : 5e-4) + 1e-6;
            VP_CHECK(std::abs(y - v.at(t)) <= tol, "output frame " << j << " is " << y << ", the " << waves[v.kind] << " is " << v.at(t) << " there");
            return;
        }
        // one frame behind, the first one standing for those before it
        const auto x = [&](double at) { return v.sample(std::min(n - 1, std::max(0L, static_cast<long>(at)))); };
        const double p = t - 1;
        if (q == 4) {
            const double i = std::floor(p), f = p - i;
            const double e = x(i) + f * (static_cast<double>(x(i + 1)) - x(i));
            VP_CHECK(std::abs(y - e) <= most * 1e-5 + 1e-12, "output frame " << j << " is " << y << ", the signal interpolates to " << e << " there");
        } else {
            const bool near = std::abs(p - std::round(p)) < 1e-6;
            VP_CHECK(y == x(std::floor(p)) || (near && (y == x(std::round(p)) || y == x(std::round(p) - 1))), "output frame " << j << " is " << y << ", the signal holds " << x(std::floor(p)) << " there");
        }
    }

    void once(Src& s, Ctx& c) {
        const int q      = static_cast<int>(s.draw(4));
        const auto ch    = s.range<long>(1, 6);
        const float rat  = ratio_of(s, false);
        const long most  = static_cast<long>(std::min(6000.0, 40000.0 / rat / static_cast<double>(ch)));
        const long small = static_cast<long>(std::min(static_cast<double>(most), 3 * margin(q, rat)));
        const long n     = s.flip() ? s.size(1, std::max(1L, most)) : s.range<long>(std::max(1L, small - 10), std::max(1L, most));
        std::vector<Wave> v;
        for (long k = 0; k < ch; ++k) {
            v.push_back(wave(s, rat, static_cast<std::size_t>(n)));
        }
        c.describe([&](auto& o) {
            o << names[q] << ", ratio " << rat << ", " << n << " frames of " << ch << " channels:";
            for (auto& w : v) {
                o << " " << waves[w.kind] << " " << (w.kind < 2 ? w.level : w.any[0]);
            }
        });
        c.label(names[q]);
        const long extra = s.one_in(4) && ch > 1 ? s.range<long>(1, ch - 1) : 0; // not a whole frame
        Buf<float> in(static_cast<std::size_t>(n * ch + extra), 5e5f);
        for (long i = 0; i < n * ch; ++i) {
            in.p[i] = v[static_cast<std::size_t>(i % ch)].sample(i / ch);
        }
        const std::vector<float> copy(in.begin(), in.end());
        const auto cap = static_cast<long>(static_cast<double>(rat) * static_cast<double>(n));
        Buf<float> out(static_cast<std::size_t>(cap * ch), 7e7f);
        R r(ch, static_cast<resample_quality>(q), rat);
        VP_CHECK(r.error() == 0 && r.quality() == q && r.ratio() == rat && r.channels() == ch && R::valid_ratio(rat), "a new resampler reports error " << r.error() << ", quality " << r.quality() << ", ratio " << r.ratio() << ", channels " << r.channels());
        const std::pair<long, long> got = r.process(in.begin(), in.end(), out.begin());
        VP_CHECK(r.error() == 0, "processing reports error " << r.error());
        counts(q, rat, n, 0, 0, got);
        require_unchanged(in, copy);
        for (long i = got.second * ch; i < cap * ch; ++i) {
            VP_CHECK(out.p[i] == 7e7f, "wrote past the " << got.second << " frames it reported");
        }
        for (long j = 0; j < got.second; ++j) {
            for (long k = 0; k < ch; ++k) {
                judge(v[static_cast<std::size_t>(k)], q, rat, j, got.first, n, out.p[j * ch + k]);
            }
        }
        const double m = margin(q, rat);
        c.nontrivial(static_cast<double>(got.second) / rat > 2 * m && static_cast<double>(got.first) > 2 * m);
    }

    // every channel as if alone
    void separate(Src& s, Ctx& c) {
        const int q     = static_cast<int>(s.draw(4));
        const auto ch   = s.range<long>(2, 9);
        const float rat = ratio_of(s, true);
        const long n    = s.size(1, static_cast<long>(std::min(3000.0, 12000.0 / rat / static_cast<double>(ch))));
        std::vector<std::vector<float>> x;
        for (long k = 0; k < ch; ++k) {
            x.push_back(s.one_in(3) ? std::vector<float>(static_cast<std::size_t>(n)) : signal<float>(s, static_cast<std::size_t>(n)));
        }
        c.describe([&](auto& o) { o << names[q] << ", ratio " << rat << ", " << n << " frames of " << ch << " channels"; });
        c.label(names[q]);
        Buf<float> in(static_cast<std::size_t>(n * ch));
        for (long i = 0; i < n * ch; ++i) {
            in.p[i] = x[static_cast<std::size_t>(i % ch)][static_cast<std::size_t>(i / ch)];
        }
        const auto cap = static_cast<long>(static_cast<double>(rat) * static_cast<double>(n));
        Buf<float> out(static_cast<std::size_t>(cap * ch));
        R all(ch, static_cast<resample_quality>(q), rat);
        const auto got = all.process(in.begin(), in.end(), out.begin());
        bool heard     = false;
        for (long k = 0; k < ch; ++k) {
            Buf<float> one_in_(x[static_cast<std::size_t>(k)]);
            Buf<float> one(static_cast<std::size_t>(cap));
            R mono(1, static_cast<resample_quality>(q), rat);
            const auto g = mono.process(one_in_.begin(), one_in_.end(), one.begin());
            double most  = 0;
            for (auto v : x[static_cast<std::size_t>(k)]) {
                most = std::max(most, static_cast<double>(std::abs(v)));
            }
            // the length of one call may differ by what the buffers of the converter hold, the signal may not
            VP_CHECK(std::abs(g.second - got.second) <= static_cast<long>(margin(q, rat) * rat) + 2, "alone, channel " << k << " gives " << g.second << " frames, among " << ch << " " << got.second);
            for (long j = 0; j < std::min(g.second, got.second); ++j) {
                VP_CHECK(std::abs(one.p[j] - out.p[j * ch + k]) <= most * 2e-6, "frame " << j << " of channel " << k << " of " << ch << " is " << out.p[j * ch + k] << ", alone " << one.p[j]);
                heard = heard || one.p[j] != 0;
            }
        }
        c.nontrivial(heard);
    }

    // a stream in blocks, what is not used being given again, with resets, against the stream in one call
    void stream(Src& s, Ctx& c) {
        const int q     = static_cast<int>(s.draw(4));
        const auto ch   = s.range<long>(1, 4);
        const float rat = ratio_of(s, true);
        const long n    = s.size(1, static_cast<long>(std::min(4000.0, 16000.0 / rat / static_cast<double>(ch))));
        History text(c);
        {
            std::ostringstream o;
            o << names[q] << ", ratio " << rat << ", " << n << " frames of " << ch << " channels in blocks of";
            text += o.str();
        }
        c.label(names[q]);
        const auto x = signal<float>(s, static_cast<std::size_t>(n * ch));
        double most  = 0;
        for (auto v : x) {
            most = std::max(most, static_cast<double>(std::abs(v)));
        }
        const auto cap = static_cast<long>(static_cast<double>(rat) * static_cast<double>(n));
        std::vector<float> whole(static_cast<std::size_t>((cap + 1) * ch));
        R one(ch, static_cast<resample_quality>(q), rat);
        const auto reference = one.process(x.data(), x.data() + x.size(), whole.data());
        R r(ch, static_cast<resample_quality>(q), rat);
        int passes = 1;
        long blocks = 0;
        for (int pass = 0; pass < passes; ++pass) {
            long used = 0, made = 0, block = 0;
            const long fixed = s.flip() ? s.size(1, 400) : 0;
            const long stop  = s.one_in(3) && passes < 3 ? s.range<long>(0, n) : n;
            int stuck        = 0;
            while (used < stop && stuck < 40 && blocks < 4000) {
                block = stuck ? 2 * block + 1 : fixed ? fixed : s.size(1, 400);
                if (blocks > 300) {
                    block = n; // enough
                }
                const long give = std::min(block, n - used);
                text += " " + std::to_string(give);
                ++blocks;
                const auto room = static_cast<long>(static_cast<double>(rat) * static_cast<double>(give));
                Buf<float> in(std::vector<float>(x.begin() + used * ch, x.begin() + (used + give) * ch));
                Buf<float> out(static_cast<std::size_t>(room * ch), 7e7f);
                std::pair<long, long> got{0, 0};
                bool done = false;
                if (s.one_in(20) && room > 0 && (give > 1 || q <= 2)) { // in place: done as well, or refused and nothing done
                    text += " (in place)";
                    std::vector<float> both(in.begin(), in.end());
                    both.resize(static_cast<std::size_t>(std::max(give, room) * ch), 7e7f);
                    const auto kept = both;
                    got             = r.process(both.data(), both.data() + give * ch, both.data());
                    done            = r.error() == 0;
                    if (done) {
                        std::copy_n(both.begin(), got.second * ch, out.p);
                        VP_CHECK(std::equal(both.begin() + got.second * ch, both.end(), kept.begin() + got.second * ch), "resampling in place changed what follows the " << got.second << " frames it reported");
                    } else {
                        VP_CHECK(got.first == 0 && got.second == 0, "resampling in place reports error " << r.error() << ", " << got.first << " used, " << got.second << " made");
                        VP_CHECK(both == kept, "resampling in place was refused and changed the data");
                    }
                }
                if (!done) {
                    got = r.process(in.begin(), in.end(), out.begin());
                }
                VP_CHECK(r.error() == 0, "processing reports error " << r.error());
                counts(q, rat, give, used, made, got);
                for (long i = 0; i < room * ch; ++i) {
                    const long at = made * ch + i;
                    if (i >= got.second * ch) {
                        VP_CHECK(out.p[i] == 7e7f, "wrote past the " << got.second << " frames it reported");
                    } else if (at < reference.second * ch) {
                        const bool held = q == 3 && (std::abs(out.p[i] - whole[static_cast<std::size_t>(std::max(0L, at - ch))]) == 0 || (at + ch < reference.second * ch && out.p[i] == whole[static_cast<std::size_t>(at + ch)]));
                        VP_CHECK(held || std::abs(out.p[i] - whole[static_cast<std::size_t>(at)]) <= most * 2e-5, "sample " << at << " of the stream is " << out.p[i] << ", in one call " << whole[static_cast<std::size_t>(at)] << (pass ? " (after a reset)" : ""));
                    }
                }
                stuck = got.first == 0 && got.second == 0 ? stuck + 1 : 0;
                if (got.first == 0 && got.second == 0 && give == n - used) {
                    break;
                }
                used += got.first;
                made += got.second;
            }
            if (stop >= n && used < n) {
                VP_CHECK(static_cast<double>(n - used) <= 2 + 2 / rat, "the stream stops with " << n - used << " of " << n << " frames unused");
            }
            if (pass == 0 && s.flip()) {
                passes = 1 + s.range<int>(1, 2);
            }
            if (pass + 1 < passes) {
                text += " reset";
                VP_CHECK(r.reset() == 0 && r.error() == 0, "reset reports error " << r.error());
            }
        }
        c.label(passes > 1 ? "with reset" : "no reset");
        c.nontrivial(blocks > 2 && reference.second > 0);
    }

    void refused(Src& s, Ctx& c) {
        const bool bad_quality  = s.one_in(3);
        const bool bad_channels = s.one_in(3);
        const bool bad_ratio    = s.one_in(2);
        const int q             = bad_quality ? s.pick({5, 6, 7}) : static_cast<int>(s.draw(4));
        const long ch           = bad_channels ? -s.range<long>(0, 5) : s.range<long>(1, 6);
        float rat               = ratio_of(s, false);
        if (bad_ratio) {
            rat = s.pick({0.0f, -1.0f, 257.0f, 256.001f, 1.0f / 257, 0.0039f, 1e30f, -1e30f, std::numeric_limits<float>::infinity(), -0.5f});
        }
        c.describe([&](auto& o) { o << "quality " << q << ", " << ch << " channels, ratio " << rat; });
        const bool outside = !(rat >= 1.0 / 256 && rat <= 256);
        VP_CHECK(R::valid_ratio(rat) == !outside, "ratio " << rat << " is " << (outside ? "" : "not ") << "valid");
        R r(ch, static_cast<resample_quality>(q), rat);
        c.label(bad_quality ? "quality" : bad_channels ? "channels" : outside ? "ratio" : "valid");
        VP_CHECK((r.error() != 0) == (bad_quality || bad_channels), "a new resampler reports error " << r.error());
        if (r.error()) {
            VP_CHECK(!r.error_string().empty() && std::string(r.error_string().data()) != "No error.", "error " << r.error() << " has no text");
        }
        const long n = s.size(1, 50);
        Buf<float> in(static_cast<std::size_t>(n * std::max(1L, ch)), 0.25f);
        Buf<float> out(static_cast<std::size_t>((outside ? 1 : static_cast<double>(rat)) * static_cast<double>(n * std::max(1L, ch))), 7e7f);
        if (bad_quality || bad_channels || outside) {
            for (int k = 0; k < 2; ++k) {
                const auto got = r.process(in.begin(), in.end(), out.begin());
                VP_CHECK(got.first == 0 && got.second == 0 && r.error() != 0, "an invalid resampler reports error " << r.error() << ", used " << got.first << " frames and made " << got.second);
                for (auto v : out) {
                    VP_CHECK(v == 7e7f, "an invalid resampler wrote something");
                }
                r.reset();
            }
            c.nontrivial();
        }
        // and the next one does not care
        R good(1, edsp::io::linear, 1.0f);
        const float x[3] = {1, 2, 3};
        float y[3];
        const auto got = good.process(x, x + 3, y);
        VP_CHECK(good.error() == 0 && got.first == 3 && got.second == 3, "a valid resampler fails after an invalid one");
    }
} // namespace

VP_FAMILY("one call", 5000, 120000, "one call over constants, sinusoids (up to 55% of the band) and any signals, all qualities and ratios, exact output buffer; non-trivial: output beyond the look-ahead of the converter on both sides") { once(s, c); }
VP_FAMILY("channels", 2500, 60000, "2 to 9 interleaved channels against each one alone; non-trivial: a channel that is not silent") { separate(s, c); }
VP_FAMILY("streams", 4000, 100000, "blocks of any sizes, unused input given again, refused calls and resets in between, against one call; non-trivial: three or more blocks and output") { stream(s, c); }
VP_FAMILY("refused", 4000, 60000, "qualities, channel counts and ratios inside and outside what is supported; non-trivial: something is not supported") { refused(s, c); }
