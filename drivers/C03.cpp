// C03: 8 bit floats
#include "codec.hpp"
#include "types/quarter_float.hpp"
using namespace hv;
using namespace happyml;

static int some_bias() { return (int) rng.range(0, 15); }

CASE_ONCE("quarter codes") {
    for (int bias = 0; bias < 16; bias++)
        for (int c = 0; c < 256; c++) {
            input("bias", bias, "code", c);
            auto q = (quarter) c;
            int b = std::max(bias, 1), e = (c >> 3) & 15, m = c & 7;
            float g = quarterToFloat(q, bias);
            if (c == 0xff) require(std::isnan(g), "decoded", g);
            else if (c == 0x78 || c == 0xf8) require(g == (c == 0x78 ? INFINITY : -INFINITY), "decoded", g);
            else if (c == 0x80) require(g > 0 && g < ldexpf(1.125f, -b), "decoded", g);
            else require(g == (c == 0 ? 0.0f : (c & 128 ? -1.0f : 1.0f) * ldexpf(1 + m / 8.0f, e - b)), "decoded", g);
            if ((e < 15 || c == 0xff || c == 0x78 || c == 0xf8) && (b < 12 || c != 0x80))
                require(floatToQuarter(g, bias) == q, "re-encoded as", (int) floatToQuarter(g, bias));
        }
}
CASE("quarter encoding") {
    int bias = some_bias(), b = std::max(bias, 1);
    uint32_t u = pattern();
    float f = from_bits(u);
    input("bias", bias, "bits", u, "value", f);
    quarter q = floatToQuarter(f, bias);
    float g = quarterToFloat(q, bias), mag = std::fabs(f);
    if (std::isnan(f)) { require(std::isnan(g), "NaN decoded as", g); return; }
    if (std::isinf(f)) { require(f == g, "infinity decoded as", g); return; }
    if (u == 0) { require(g == 0, "zero decoded as", g); return; }
    float top = ldexpf(1.875f, 14 - b);
    if (mag >= ldexpf(1, 15 - b)) { require(g == (f < 0 ? -top : top), "decoded", g, "instead of the clamp"); return; }
    if (mag >= ldexpf(1.0625f, -b)) {
        float unit = ldexpf(1, std::ilogb(mag) - 3);
        bool last = mag >= 15 * unit;
        require((g < 0) == (f < 0) && std::ilogb(g) == std::ilogb(f), "sign or power of two lost:", g);
        require(std::fabs(g - f) <= (last ? unit : unit / 2), "error too large:", g);
        return;
    }
    require(q == 0 || q == 0x80, "below range encoded as", (int) q);
    if (f > 0 && mag < ldexpf(1, -12) && mag < ldexpf(1, -b)) require(q == 0, "negligible value encoded as", (int) q);
}
CASE("quarter order") {
    int bias = some_bias();
    uint32_t a = pattern() & 0x7fffffff, c = (rng.chance(50) ? a + (uint32_t) rng.range(-300000, 300000) : pattern()) & 0x7fffffff;
    float f = from_bits(a), g = from_bits(c);
    if (std::isnan(f) || std::isnan(g)) throw Skip();
    if (f > g) std::swap(f, g);
    input("bias", bias, f, g);
    require(quarterToFloat(floatToQuarter(f, bias), bias) <= quarterToFloat(floatToQuarter(g, bias), bias), "order lost");
}
HV_MAIN
