// C08: materialization
#include "tensors.hpp"
#include "codec.hpp"
using namespace hv;

template<class X>
static void same_as(const X &t, const P &a, std::function<float(float)> f, const char *what) {
    require(t->rowCount() == a->r && t->columnCount() == a->c && t->channelCount() == a->k, what, "has shape", t->rowCount(), t->columnCount(), t->channelCount());
    for (size_t k = 0; k < a->k; k++) for (size_t i = 0; i < a->r; i++) for (size_t j = 0; j < a->c; j++) {
        float g = t->getValue(i, j, k), w = f(a->at(i, j, k));
        require(same(g, w), what, "element", i, j, k, "is", g, "expected", w);
    }
}
static float asis(float x) { return x; }
static float half16(float x) { return halfToFloat(floatToHalf(x)); }
static float pixel8(float x) { return ((float) (uint8_t) (std::max(0.0f, std::min(x, 1.0f)) * 255)) / 255.f; }

static P any_tensor() {
    auto a = probe(soft(1, 6), soft(1, 6), soft(1, 4), rng.chance(20));
    if (rng.chance(20)) regime(a);
    else if (rng.chance(30)) for (auto &x: a->v) x = (float) rng.unit();
    else if (rng.chance(30)) for (auto &x: a->v) x = from_bits(pattern());
    return a;
}
static vector<vector<vector<float>>> cube(const P &a) {
    vector<vector<vector<float>>> v(a->k, vector<vector<float>>(a->r, vector<float>(a->c)));
    for (size_t k = 0; k < a->k; k++) for (size_t i = 0; i < a->r; i++) for (size_t j = 0; j < a->c; j++) v[k][i][j] = a->at(i, j, k);
    return v;
}

CASE("copies of tensors") {
    auto a = any_tensor();
    int bias = (int) rng.range(1, 15);
    input(a->show(), "bias", bias);
    bool nan = false;
    for (float x: a->v) nan = nan || std::isnan(x);
    same_as(make_shared<FullTensor>(a), a, asis, "FullTensor");
    same_as(make_shared<HalfTensor>(a), a, half16, "HalfTensor");
    same_as(make_shared<QuarterTensor>(a, bias), a, [&](float x) { return quarterToFloat(floatToQuarter(x, bias), bias); }, "QuarterTensor");
    if (!nan) same_as(make_shared<PixelTensor>(a), a, pixel8, "PixelTensor");
}
CASE("copies of vectors") {
    auto a = any_tensor();
    int bias = (int) rng.range(1, 15);
    int what = (int) rng.range(0, 2);
    if (what == 0) { a->v.resize(a->c); a->r = a->k = 1; }
    else if (what == 1) { a->v.resize(a->r * a->c); a->k = 1; }
    input(a->show(), "bias", bias, "form", what);
    bool nan = false;
    for (float x: a->v) nan = nan || std::isnan(x);
    auto q8 = [&](float x) { return quarterToFloat(floatToQuarter(x, bias), bias); };
    auto v = cube(a);
    if (what == 0) {
        same_as(make_shared<FullTensor>(v[0][0]), a, asis, "FullTensor of a vector");
        same_as(make_shared<HalfTensor>(v[0][0]), a, half16, "HalfTensor of a vector");
        same_as(make_shared<QuarterTensor>(v[0][0], bias), a, q8, "QuarterTensor of a vector");
        if (!nan) same_as(make_shared<PixelTensor>(v[0][0]), a, pixel8, "PixelTensor of a vector");
    } else if (what == 1) {
        same_as(make_shared<HalfTensor>(v[0]), a, half16, "HalfTensor of a matrix");
        same_as(make_shared<QuarterTensor>(v[0], bias), a, q8, "QuarterTensor of a matrix");
    } else {
        same_as(make_shared<FullTensor>(v), a, asis, "FullTensor of a cube");
        if (!nan) same_as(make_shared<PixelTensor>(v), a, pixel8, "PixelTensor of a cube");
    }
}
CASE("pixel codec") {
    float x = rng.chance(50) ? (float) rng.unit() * 1.2f - 0.1f : from_bits(pattern());
    if (std::isnan(x)) throw Skip();
    input(x);
    float y = PixelTensor(vector<float>{x}).getValue(0, 0, 0), c = x < 0 ? 0 : x > 1 ? 1 : x;
    require(y >= 0 && y <= 1 && std::fabs(c - y) <= 1.0f / 255, "stored as", y);
}
CASE_ONCE("pixel levels") {
    for (int b = 0; b < 256; b++) {
        input(b);
        float v = (float) b / 255.0f;
        require(PixelTensor(vector<float>{v}).getValue(0, 0, 0) == v, "level changed");
    }
}
CASE("materializeTensor") {
    auto a = any_tensor();
    bool nan = false;
    float lo = INFINITY, hi = -INFINITY;
    for (float x: a->v) { nan = nan || std::isnan(x); lo = std::min(lo, x); hi = std::max(hi, x); }
    input(a->show());
    P same_shape = a;
    T lazy = make_shared<ScalarAddTensorView>(a, 0.0f), done = make_shared<FullTensor>(a), hdone = make_shared<HalfTensor>(a);
    auto plus0 = [](float x) { return x + 0.0f; };
    for (auto &m: {materializeTensor(lazy), materializeTensor(lazy, 32)}) {
        require(m->isMaterialized(), "result is not materialized");
        require(m.get() != lazy.get() && !m->contains(a), "result still depends on the operand");
        same_as(m, a, plus0, "materializeTensor");
    }
    require(materializeTensor(done) == done && materializeTensor(done, 32) == done && materializeTensor(hdone) == hdone && materializeTensor(hdone, 32) == hdone, "a materialized tensor was copied");
    same_as(materializeTensor(lazy, 16), a, [&](float x) { return half16(x + 0.0f); }, "materializeTensor to 16 bit");
    same_as(materializeTensor(done, 16), a, half16, "materializeTensor to 16 bit");
    if (nan) return;
    int want = 4;
    for (int b = 15; b >= 4; b--) {
        float top = quarterToFloat(QUARTER_MAX, b);
        if (lo > -top && hi < top) { want = b; break; }
    }
    same_as(materializeTensor(done, 8), a, [&](float x) { return quarterToFloat(floatToQuarter(x, want), want); }, "materializeTensor to 8 bit");
}
CASE("estimateBias") {
    int lo = (int) rng.range(1, 15), hi = (int) rng.range(lo, 15);
    float x = std::ldexp((float) rng.unit() + 0.5f, (int) rng.range(-3, 14)), y = rng.chance(50) ? x : std::ldexp((float) rng.unit() + 0.5f, (int) rng.range(-3, 14));
    if (rng.chance(20)) y = quarterToFloat(QUARTER_MAX, (int) rng.range(1, 15));
    if (rng.chance(20)) x = quarterToFloat(QUARTER_MAX, (int) rng.range(1, 15));
    input(lo, hi, -x, y);
    int want = lo;
    for (int b = hi; b >= lo; b--) { float top = quarterToFloat(QUARTER_MAX, b); if (-x > -top && y < top) { want = b; break; } }
    require(estimateBias(lo, hi, -x, y) == want, "bias", estimateBias(lo, hi, -x, y), "expected", want);
}
HV_MAIN
