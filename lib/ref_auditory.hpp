// long double reference of the auditory scales
#pragma once
#include "common.hpp"
namespace ref {
    using vp::ld;
    inline ld mel(ld f) {
        return 1127.01048L * std::log1p(f / 700.0L);
    }
    inline ld mel_inv(ld m) {
        return 700.0L * std::expm1(m / 1127.01048L);
    }
    inline ld erb(ld f) {
        return 21.4L * std::log10(1.0L + 4.37L * f / 1000.0L);
    }
    inline ld erb_inv(ld e) {
        return (std::pow(10.0L, e / 21.4L) - 1.0L) * 1000.0L / 4.37L;
    }
    inline ld bark_raw(ld f) {
        return 26.81L * f / (1960.0L + f) - 0.53L;
    }
    inline ld bark(ld f) {
        const ld b = bark_raw(f);
        return b < 2 ? b + 0.15L * (2 - b) : b > 20.1L ? b + 0.22L * (b - 20.1L) : b;
    }
    inline ld bark_inv(ld z) {
        ld b = z;
        if (z < 2) {
            b = (z - 0.3L) / 0.85L;
        } else if (z > 20.1L) {
            b = (z + 4.422L) / 1.22L;
        }
        return 1960.0L * (b + 0.53L) / (26.28L - b);
    }
    inline ld cent(ld f) {
        return 5700.0L + 1200.0L * std::log2(f / 440.0L);
    }
    inline ld cent_inv(ld c) {
        return 440.0L * std::exp2((c - 5700.0L) / 1200.0L);
    }
    inline ld to_scale(int kind, ld f) {
        return kind == 0 ? mel(f) : kind == 1 ? erb(f) : kind == 2 ? bark(f) : cent(f);
    }
    inline ld from_scale(int kind, ld z) {
        return kind == 0 ? mel_inv(z) : kind == 1 ? erb_inv(z) : kind == 2 ? bark_inv(z) : cent_inv(z);
    }
} // namespace ref
