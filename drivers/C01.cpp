// C01: portable byte order
#include "common.hpp"
#include "util/portable_bytes.hpp"
using namespace hv;

static uint64_t word() {
    if (!hint_ints.empty() && rng.chance(30)) return (uint64_t) rng.pick(hint_ints);
    uint64_t x = rng.next();
    switch (rng.range(0, 6)) {
        case 0: return x & 0xff;
        case 1: return 1ull << (x % 64);
        case 2: return x >> (x % 64);
        case 3: return ~0ull << (x % 64);
        case 4: return 0xffull << (8 * (x % 8));
        default: return x;
    }
}

template<class T>
static void check(T v) {
    input("value", (uint64_t) v, "width", sizeof(T));
    T p = portableBytes(v);
    unsigned char b[sizeof(T)];
    memcpy(b, &p, sizeof(T));
    for (size_t i = 0; i < sizeof(T); i++)
        require(b[i] == (unsigned char) (v >> (8 * (sizeof(T) - 1 - i))), "byte", i, "is", (int) b[i]);
    require(portableBytes(p) == v, "converting twice gives", (uint64_t) portableBytes(p));
}

CASE("portableBytes(16 bit)") { check<uint16_t>((uint16_t) word()); }
CASE("portableBytes(32 bit)") { check<uint32_t>((uint32_t) word()); }
CASE("portableBytes(64 bit)") { check<uint64_t>(word()); }
CASE_ONCE("portableBytes(16 bit), all values") { for (uint32_t i = 0; i < 65536; i++) check<uint16_t>((uint16_t) i); }
CASE("portableFloat") {
    auto v = (uint32_t) word();
    input("bits", v);
    float f = portableFloat(v);
    uint32_t got;
    memcpy(&got, &f, 4);
    uint32_t want = __builtin_bswap32(v);
    float w;
    memcpy(&w, &want, 4);
    require(got == want || (std::isnan(f) && std::isnan(w)), "pattern", got);
}
HV_MAIN
