// the windows by their formulae
#pragma once
#include "common.hpp"
namespace {
    using vp::ld;
    struct Spec {
        const char* name;
        ld (*w)(ld i, ld n);
        ld ends, centre; // value at the ends (negative: not constant), value at the centre of an odd window
    };
    const ld pi2 = 2 * std::acos(-1.0L);
    ld cosines(ld i, ld n, std::initializer_list<ld> a) {
        ld r = 0, sign = 1;
        int k = 0;
        for (ld x : a) {
            r += sign * x * std::cos(pi2 * k * i / (n - 1));
            sign = -sign;
            k++;
        }
        return r;
    }
    const Spec specs[] = {
        {"bartlett", [](ld i, ld n) { return 1 - std::abs(2 * i / (n - 1) - 1); }, 0, 1},
        {"blackman", [](ld i, ld n) { return cosines(i, n, {0.42L, 0.5L, 0.08L}); }, 0, 1},
        {"blackman-harris", [](ld i, ld n) { return cosines(i, n, {0.35875L, 0.48829L, 0.14128L, 0.01168L}); }, 0.00006L, 1},
        {"blackman-nuttall", [](ld i, ld n) { return cosines(i, n, {0.3635819L, 0.4891775L, 0.1365995L, 0.0106411L}); }, 0.0003628L, 1},
        {"boxcar", [](ld, ld) { return 1.0L; }, 1, 1},
        {"flattop", [](ld i, ld n) { return cosines(i, n, {0.21557895L, 0.41663158L, 0.277263158L, 0.083578947L, 0.006947368L}); }, -0.000421051L, 1.000000003L},
        {"hamming", [](ld i, ld n) { return cosines(i, n, {0.54L, 0.46L}); }, 0.08L, 1},
        {"hanning", [](ld i, ld n) { return cosines(i, n, {0.5L, 0.5L}); }, 0, 1},
        {"rectangular", [](ld, ld) { return 1.0L; }, 1, 1},
        {"triangular", [](ld i, ld n) {
             const ld l = std::fmod(n, 2) == 0 ? n : n + 1;
             return 1 - std::abs((i - (n - 1) / 2) / (l / 2));
         },
         -1, 1},
        {"welch", [](ld i, ld n) {
             const ld h = (n - 1) / 2, x = (i - h) / h;
             return 1 - x * x;
         },
         0, 1},
    };
}
