// C02: 16 bit floats
#include "codec.hpp"
#include "types/half_float.hpp"
using namespace hv;
using namespace happyml;

CASE("half value") {
    uint32_t b = pattern();
    float f = from_bits(b);
    input("bits", b, "value", f);
    float g = halfToFloat(floatToHalf(f));
    if (std::isnan(f)) { require(std::isnan(g), "NaN became", g); return; }
    if (std::isinf(f)) { require(g == f, "infinity became", g); return; }
    require(bits(g) == (b & 0xffff0000u), "decoded pattern", bits(g));
    require(std::fabs(g) <= std::fabs(f), "magnitude grew to", g);
}
CASE_ONCE("half codes") {
    for (uint32_t c = 0; c < 65536; c++) {
        input("code", c);
        bool nan = (c & 0x7fff) > 0x7f80;
        float g = halfToFloat((half) c);
        if (nan) { require(std::isnan(g) && std::isnan(halfToFloat(floatToHalf(g))), "NaN lost"); continue; }
        require(floatToHalf(g) == c, "re-encoded as", floatToHalf(g));
    }
}
CASE("half order") {
    uint32_t a = pattern(), b = rng.chance(50) ? a + (uint32_t) rng.range(-70000, 70000) : pattern();
    float f = from_bits(a), g = from_bits(b);
    if (std::isnan(f) || std::isnan(g)) throw Skip();
    if (f > g) std::swap(f, g);
    input(f, g);
    require(halfToFloat(floatToHalf(f)) <= halfToFloat(floatToHalf(g)), "order lost");
}
HV_MAIN
