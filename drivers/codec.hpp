#pragma once
#include "common.hpp"
namespace hv {
    inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
    inline float from_bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
    // float patterns around every exponent / mantissa boundary
    inline uint32_t pattern() {
        if (!hint_ints.empty() && rng.chance(25)) return (uint32_t) rng.pick(hint_ints);
        if (!hint_floats.empty() && rng.chance(5)) return bits((float) rng.pick(hint_floats));
        auto r = (uint32_t) rng.next();
        uint32_t e = rng.chance(60) ? (uint32_t) rng.range(105, 145) : rng.chance(20) ? (rng.chance(50) ? 255 : 0) : r % 256;
        uint32_t m;
        switch (rng.range(0, 5)) {
            case 0: m = 0; break;
            case 1: m = 1u << rng.range(0, 22); break;
            case 2: m = (uint32_t) rng.range(0, 127) << 16 | (uint32_t) (rng.chance(30) ? rng.range(0, 3) : 0); break;
            case 3: m = (0x7fffffu << rng.range(0, 22)) & 0x7fffff; break;
            case 4: m = ((uint32_t) rng.range(0, 15) << 19) + (uint32_t) rng.range(-2, 2); break;
            default: m = r >> 9;
        }
        return ((uint32_t) rng.range(0, 1) << 31) | (e << 23) | (m & 0x7fffff);
    }
}
