// C28: mu-law companding and the envelope generators
#include "common.hpp"
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
using namespace vp;
namespace eq = edsp::quantizer;
namespace ee = edsp::envelope;

namespace {
    template <typename T>
    void mu_law(Src& s, Ctx& c) {
        const auto n    = len(s, 0, 400, 5000);
        const T peak    = s.flip() ? static_cast<T>(1) : static_cast<T>(s.log_uniform(1e-3, 40000));
        const long mu   = s.one_in(2) ? 255 : s.range<long>(1, s.flip() ? 10 : 100000);
        auto x          = signal<T>(s, n, 1.0);
        for (auto& v : x) v = std::max<T>(-1, std::min<T>(1, v)) * peak;
        if (n > 2) {
            x[0] = peak;
            x[1] = -peak;
            x[2] = 0;
        }
        size_label(c, n);
        if (n >= 3) c.nontrivial();
        c.describe([&](auto& o) { o << "mu=" << mu << " peak=" << peak << " " << show(x); });
        const Buf<T> in(x);
        Buf<T> y(n, T(-77)), z(n, T(-77));
        eq::mu_law_compression(in.cbegin(), in.cend(), y.begin(), peak, mu);
        require_unchanged(in, x);
        const ld p = peak, m = mu, l = std::log(1 + m);
        for (std::size_t i = 0; i < n; ++i) {
            const ld v = x[i], e = (v < 0 ? -1 : 1) * p * std::log(1 + m * std::abs(v) / p) / l;
            VP_CHECK(std::abs(y.p[i] - e) <= 8 * eps<T>() * p, "compression of " << x[i] << " (mu " << mu << ", peak " << peak << ") is " << y.p[i] << ", expected " << static_cast<double>(e));
            VP_CHECK(std::abs(static_cast<ld>(y.p[i])) <= p * (1 + 4 * eps<T>()), "compression of " << x[i] << " is " << y.p[i] << ", above the peak " << peak);
        }
        eq::inverse_mu_law_compression(y.cbegin(), y.cend(), z.begin(), peak, mu);
        for (std::size_t i = 0; i < n; ++i) {
            const ld v = y.p[i], e = (v < 0 ? -1 : 1) * p * (std::pow(1 + m, std::abs(v) / p) - 1) / m;
            const ld tol = 8 * eps<T>() * (1 + l) * (std::abs(e) + p / m);
            VP_CHECK(std::abs(z.p[i] - e) <= tol, "expansion of " << y.p[i] << " (mu " << mu << ", peak " << peak << ") is " << z.p[i] << ", expected " << static_cast<double>(e));
            VP_CHECK(std::abs(static_cast<ld>(z.p[i]) - x[i]) <= 16 * eps<T>() * (1 + l) * (std::abs(static_cast<ld>(x[i])) + p / m), "expansion gives " << z.p[i] << " back for " << x[i]);
        }
        // odd, in order, in place
        std::sort(x.begin(), x.end());
        Buf<T> a(x), b(n, T(0));
        for (std::size_t i = 0; i < n; ++i) b.p[i] = -x[i];
        eq::mu_law_compression(a.cbegin(), a.cend(), a.begin(), peak, mu);
        eq::mu_law_compression(b.cbegin(), b.cend(), b.begin(), peak, mu);
        for (std::size_t i = 0; i < n; ++i) {
            VP_CHECK(a.p[i] == -b.p[i] || x[i] == 0, "compression is not odd: " << a.p[i] << " and " << b.p[i] << " for +-" << x[i]);
            if (i > 0) {
                VP_CHECK(a.p[i] >= a.p[i - 1] - 4 * eps<T>() * p, "compression is not monotonic between " << x[i - 1] << " and " << x[i]);
            }
        }
    }

    // all quantities multiples of a power of two, so that the envelope is exact
    void adsr_exact(Src& s, Ctx& c) {
        ee::adsr<double> e;
        enum { IDLE, ATTACK, DECAY, SUSTAIN, RELEASE } state = IDLE;
        double rate = 44100, value = 0, target = 0, up = 0.001, down = 0.001, fall = 0.001, fall_time = -1, level = 0.5;
        const auto unit = [&](int lo, int hi) { return s.range<int>(lo, hi) / 1024.0; };
        const auto pow2 = [&](int lo, int hi) { return std::ldexp(1.0, s.range<int>(lo, hi)); };
        rate = pow2(8, 16);
        e.set_sample_rate(rate);
        up = unit(1, 600), down = unit(1, 600), fall = unit(1, 600), level = unit(0, 1024);
        e.set_attack_rate(up), e.set_decay_rate(down), e.set_release_rate(fall), e.set_sustain_level(level);
        c.describe([&](auto& o) { o << "rate " << rate << " up " << up << " down " << down << " fall " << fall << " level " << level << ": "; });
        const auto steps = s.size(1, 20);
        int notes = 0, releases = 0, samples = 0;
        for (long i = 0; i < steps; ++i) {
            switch (s.draw(12)) {
                case 0:
                case 1:
                    c.describe([&](auto& o) { o << "on "; });
                    if (target <= 0) target = 1;
                    state = ATTACK;
                    e.key_on();
                    ++notes;
                    break;
                case 2:
                case 3:
                    if (releases == 4) break; // each may add six bits
                    c.describe([&](auto& o) { o << "off "; });
                    target = 0;
                    state  = RELEASE;
                    if (fall_time > 0) fall = value / (fall_time * rate);
                    e.key_off();
                    ++releases;
                    break;
                case 4: {
                    const auto t = pow2(0, 6) / rate;
                    c.describe([&](auto& o) { o << "attack_time=" << t << " "; });
                    up = 1 / (t * rate);
                    e.set_attack_time(t);
                    VP_CHECK(e.attack_time() == t, "attack_time() = " << e.attack_time() << ", set to " << t);
                    break;
                }
                case 5: {
                    const auto t = pow2(0, 6) / rate;
                    if (level == 1) break;
                    c.describe([&](auto& o) { o << "decay_time=" << t << " "; });
                    down = (1 - level) / (t * rate);
                    e.set_decay_time(t);
                    VP_CHECK(std::abs(e.decay_time() - t) <= 1e-12 * t, "decay_time() = " << e.decay_time() << ", set to " << t);
                    break;
                }
                case 6: {
                    const auto t = pow2(0, 6) / rate;
                    if (state == RELEASE) break;
                    c.describe([&](auto& o) { o << "release_time=" << t << " "; });
                    fall_time = t;
                    fall      = level / (t * rate);
                    e.set_release_time(t);
                    VP_CHECK(e.release_time() == t, "release_time() = " << e.release_time() << ", set to " << t);
                    break;
                }
                case 7:
                    if (state == IDLE || state == ATTACK) {
                        level = unit(0, 1024);
                        e.set_sustain_level(level);
                        c.describe([&](auto& o) { o << "level=" << level << " "; });
                    } else if (state != RELEASE) {
                        fall = unit(1, 600), fall_time = -1;
                        e.set_release_rate(fall);
                        c.describe([&](auto& o) { o << "fall=" << fall << " "; });
                    }
                    break;
                case 8: {
                    if (s.flip()) break;
                    // the times stay the same at another rate
                    const double k = s.flip() ? 2 : 0.5;
                    rate *= k, up /= k, down /= k, fall /= k;
                    e.set_sample_rate(rate);
                    c.describe([&](auto& o) { o << "rate=" << rate << " "; });
                    break;
                }
                case 9: {
                    // the level the next (or the current) attack ends at
                    const auto x = unit(0, 1024);
                    c.describe([&](auto& o) { o << "attack_target=" << x << " "; });
                    e.set_attack_target(x);
                    VP_CHECK(x > 0 ? e.attack_target() == x : e.attack_target() > 0 && e.attack_target() <= 1e-8, "attack_target() = " << e.attack_target() << ", set to " << x);
                    target = x;
                    if (x == 0) {
                        target = 1;
                        e.set_attack_target(1);
                    }
                    break;
                }
                case 10: {
                    // a level to move to at once and to stay at
                    if (state == RELEASE) break;
                    const auto x = unit(1, 1024);
                    c.describe([&](auto& o) { o << "target=" << x << " "; });
                    e.set_target(x);
                    target = level = x;
                    if (value < x) state = ATTACK;
                    if (value > x) state = DECAY;
                    ++notes;
                    break;
                }
                default: {
                    const bool lasting = s.one_in(400);
                    const auto n = lasting ? s.range<int>(80, 20000) : s.range<int>(1, 80);
                    c.describe([&](auto& o) { o << "run" << n << " "; });
                    Buf<double> in(static_cast<std::size_t>(n), 0.0), out(static_cast<std::size_t>(n), -7.0);
                    for (int k = 0; k < n; ++k) in.p[k] = lasting ? static_cast<double>(1 + k % 4) : s.one_in(3) ? 1.0 : static_cast<double>(s.range<int>(-4, 4));
                    if (s.flip()) {
                        e.apply(in.cbegin(), in.cend(), out.begin());
                    } else {
                        for (int k = 0; k < n; ++k) out.p[k] = e(in.p[k]);
                    }
                    for (int k = 0; k < n; ++k) {
                        if (state == ATTACK) {
                            value += up;
                            if (value >= target) value = target, target = level, state = DECAY;
                        } else if (state == DECAY) {
                            value = value > level ? std::max(level, value - down) : std::min(level, value + down);
                            if (value == level) state = SUSTAIN;
                        } else if (state == RELEASE) {
                            value = std::max(0.0, value - fall);
                            if (value == 0) state = IDLE;
                        }
                        VP_CHECK(out.p[k] == value * in.p[k], "sample " << samples << " of the envelope is " << out.p[k] << " for input " << in.p[k] << ", expected " << value * in.p[k]);
                        ++samples;
                    }
                }
            }
            VP_CHECK(e.sample_rate() == rate && e.attack_rate() == up && e.decay_rate() == down && e.release_rate() == fall && e.sustain_level() == level,
                     "getters give " << e.sample_rate() << " " << e.attack_rate() << " " << e.decay_rate() << " " << e.release_rate() << " " << e.sustain_level() << ", expected " << rate << " " << up << " " << down << " " << fall << " " << level);
        }
        if (notes > 0 && samples > 10) c.nontrivial();
        c.label(releases ? "released" : "held");
    }

    // one note with times in seconds: the shape and where its corners are
    template <typename T>
    void adsr_note(Src& s, Ctx& c) {
        ee::adsr<T> e;
        const T rate = static_cast<T>(s.range<int>(8000, 96000)), ta = static_cast<T>(s.log_uniform(0.0005, 0.02)), td = static_cast<T>(s.log_uniform(0.0005, 0.02)), tr = static_cast<T>(s.log_uniform(0.0005, 0.02));
        const T level = s.one_in(8) ? static_cast<T>(s.flip()) : static_cast<T>(s.uniform(0, 1));
        e.set_sample_rate(rate);
        e.set_sustain_level(level);
        e.set_attack_time(ta);
        if (level < 1) e.set_decay_time(td);
        e.set_release_time(tr);
        const ld up = 1 / (static_cast<ld>(ta) * rate), down = (1 - static_cast<ld>(level)) / (static_cast<ld>(td) * rate);
        const long na = static_cast<long>(std::ceil(static_cast<double>(static_cast<ld>(ta) * rate))), nd = level < 1 ? static_cast<long>(std::ceil(static_cast<double>(static_cast<ld>(td) * rate))) : 1, nr = static_cast<long>(std::ceil(static_cast<double>(static_cast<ld>(tr) * rate)));
        const long gate = s.range<long>(1, na + nd + 200);
        c.describe([&](auto& o) { o << "adsr<" << tname<T>() << "> rate " << rate << " attack " << ta << " decay " << td << " release " << tr << " level " << level << " gate " << gate; });
        c.nontrivial();
        c.label(gate <= na ? "released in attack" : gate <= na + nd ? "released in decay" : "released in sustain");
        VP_CHECK(e(1) == 0, "the envelope starts above zero");
        const ld slack = up + down + 4 * eps<T>() * (na + nd);
        // samples the decay may last longer because each step is rounded
        const long late = 3 + static_cast<long>(level < 1 ? nd * eps<T>() / down : 0);
        for (int note = 0; note < 2; ++note) {
            e.key_on();
            T last = 0;
            for (long k = 1; k <= gate; ++k) {
                const T y = e(1);
                VP_CHECK(y >= 0 && y <= 1, "envelope " << y << " outside [0,1]");
                const ld ideal = k <= na ? std::min<ld>(1, k * up) : std::max<ld>(level, 1 - (k - na) * down);
                VP_CHECK(std::abs(y - ideal) <= slack, "sample " << k << " after the key is pressed is " << y << ", expected about " << static_cast<double>(ideal) << " (attack of " << na << ", decay of " << nd << " samples)");
                VP_CHECK(k < na ? y >= last : k > na + 1 ? y <= last : true, "the envelope is not monotonic at sample " << k);
                VP_CHECK(k <= na + nd + late || y == level, "the envelope is " << y << " at sample " << k << ", long after attack and decay, sustain level " << level);
                last = y;
            }
            e.key_off();
            const ld start = last, fall = start / (static_cast<ld>(tr) * rate);
            for (long k = 1; k <= nr + 20; ++k) {
                const T y = e(1);
                const ld ideal = std::max<ld>(0, start - k * fall);
                VP_CHECK(y >= 0 && std::abs(y - ideal) <= fall + 4 * eps<T>() * nr, "sample " << k << " after the key is released is " << y << ", expected about " << static_cast<double>(ideal));
                VP_CHECK(y <= last, "the envelope rises at sample " << k << " of its release");
                VP_CHECK(k <= nr + 3 || y == 0, "the envelope is " << y << " at sample " << k << " of a release of " << nr << " samples");
                last = y;
            }
        }
    }

    template <typename T>
    void follower(Src& s, Ctx& c) {
        const auto time = [&] { return s.one_in(8) ? T(0) : static_cast<T>(s.log_uniform(0.01, 3000)); };
        T rate = static_cast<T>(s.range<int>(1000, 96000)), ta = time(), tr = time();
        bool rectify = s.flip();
        ee::ar<T> e(rate, ta, tr, rectify);
        c.describe([&](auto& o) { o << "ar<" << tname<T>() << ">(" << rate << "," << ta << "," << tr << "," << rectify << ") "; });
        ld last = 0, error = 0; // of the model, and how far the float state may be from it
        int samples = 0;
        const auto steps = s.size(1, 10);
        for (long i = 0; i < steps; ++i) {
            switch (s.draw(9)) {
                case 0: rate = static_cast<T>(s.range<int>(1000, 96000)), e.set_sample_rate(rate), last = error = 0, c.describe([&](auto& o) { o << "rate=" << rate << " "; }); break;
                case 1: ta = time(), e.set_attack_time(ta), last = error = 0, c.describe([&](auto& o) { o << "attack=" << ta << " "; }); break;
                case 2: tr = time(), e.set_release_time(tr), last = error = 0, c.describe([&](auto& o) { o << "release=" << tr << " "; }); break;
                case 3: rectify = !rectify, e.set_rectification(rectify), c.describe([&](auto& o) { o << "rectify=" << rectify << " "; }); break;
                case 4: e.reset(), last = error = 0, c.describe([&](auto& o) { o << "reset "; }); break;
                default: {
                    const auto n = static_cast<std::size_t>(s.size(1, 300));
                    const auto x = signal<T>(s, n, 1.0);
                    const Buf<T> in(x);
                    Buf<T> out(n, T(-77));
                    if (s.flip()) {
                        e.apply(in.cbegin(), in.cend(), out.begin());
                    } else {
                        for (std::size_t k = 0; k < n; ++k) out.p[k] = e(x[k]);
                    }
                    c.describe([&](auto& o) { o << "run" << show(x) << " "; });
                    const ld ga = ta > 0 ? std::exp(-1000 / (static_cast<ld>(ta) * rate)) : 0, gr = tr > 0 ? std::exp(-1000 / (static_cast<ld>(tr) * rate)) : 0;
                    for (std::size_t k = 0; k < n; ++k, ++samples) {
                        const ld v = rectify ? std::abs(static_cast<ld>(x[k])) : static_cast<ld>(x[k]);
                        const ld g = last < v ? ga : gr, y = (1 - g) * v + g * last;
                        const ld scale = std::abs(v) + std::abs(last);
                        // near a tie either gain may be used
                        const ld tie = std::abs(last - v) <= error ? 2 * error + std::abs(ga - gr) * std::abs(last - v) : 0;
                        error = std::max(ga, gr) * error + 6 * eps<T>() * scale + tie + 1e-37L;
                        VP_CHECK(std::abs(out.p[k] - y) <= error, "sample " << samples << " of the follower is " << out.p[k] << ", expected " << static_cast<double>(y) << " +- " << static_cast<double>(error) << " (input " << x[k] << ", before " << static_cast<double>(last) << ")");
                        const ld lo = std::min(v, last) - error, hi = std::max(v, last) + error;
                        VP_CHECK(out.p[k] >= lo && out.p[k] <= hi, "the follower overshoots: " << out.p[k] << " between " << static_cast<double>(last) << " and " << static_cast<double>(v));
                        last = y;
                    }
                }
            }
            VP_CHECK(e.sample_rate() == rate && e.attack_time() == ta && e.release_time() == tr && e.rectification() == rectify, "a getter of the follower does not return what was set");
        }
        if (samples > 5) c.nontrivial();
        // the time constant is the attack time in milliseconds
        if (s.one_in(8)) {
            const int ms = s.range<int>(1, 40), r = 1000 * s.range<int>(4, 48);
            ee::ar<T> f(static_cast<T>(r), static_cast<T>(ms), static_cast<T>(2 * ms), true);
            T y = 0;
            for (int k = 0; k < ms * r / 1000; ++k) y = f(1);
            VP_CHECK(std::abs(y - (1 - std::exp(-1.0))) <= 1e-4, "after an attack time of " << ms << " ms the follower is at " << y << " of a unit step, expected 1-1/e");
            for (int k = 0; k < 20 * ms * r / 1000; ++k) y = f(1);
            for (int k = 0; k < 2 * ms * r / 1000; ++k) y = f(0);
            VP_CHECK(std::abs(y - std::exp(-1.0)) <= 1e-3, "after a release time of " << 2 * ms << " ms the follower is at " << y << " after a unit step, expected 1/e");
        }
    }
} // namespace

VP_FAMILY("mu law", 40000, 800000, "a sequence of samples within the peak; non-trivial: at least 3") { VP_DISPATCH(mu_law); }
VP_FAMILY("adsr history", 60000, 1000000, "a history of gates, setters and samples; non-trivial: a note and more than 10 samples") { adsr_exact(s, c); }
VP_FAMILY("adsr note", 10000, 200000, "two notes with times in seconds; non-trivial: always") { VP_DISPATCH(adsr_note); }
VP_FAMILY("follower", 40000, 800000, "a history of samples and setters; non-trivial: more than 5 samples") { VP_DISPATCH(follower); }
