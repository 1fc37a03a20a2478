// C07: reductions
#include "tensors.hpp"
using namespace hv;

static P t1(bool ints = false) { return probe(soft(1, 4), soft(1, 4), soft(1, 3), ints || rng.chance(40)); }

template<class F>
static void each(const P &a, F f) {
    for (size_t k = 0; k < a->k; k++) for (size_t i = 0; i < a->r; i++) for (size_t j = 0; j < a->c; j++) f(a->at(i, j, k), i, j, k);
}
static bool close(double got, double want, double scale) {
    return std::isnan(got) == std::isnan(want) && (std::isnan(got) || std::fabs(got - want) <= 1e-6 * (1 + scale) || got == want);
}

CASE("max/min/range/max_abs") {
    auto a = t1();
    if (rng.chance(8)) regime(a);
    if (rng.chance(10)) for (auto &x: a->v) x = -std::fabs(x) - 1;
    if (rng.chance(10)) for (auto &x: a->v) x = std::fabs(x) + 1;
    input(a->show());
    float hi = -INFINITY, lo = INFINITY, ab = 0;
    each(a, [&](float x, size_t, size_t, size_t) { hi = std::max(hi, x); lo = std::min(lo, x); ab = std::max(ab, std::fabs(x)); });
    require(a->max() == hi, "max is", a->max(), "expected", hi);
    require(a->min() == lo, "min is", a->min(), "expected", lo);
    auto r = a->range();
    require(r.first == lo && r.second == hi, "range is", r.first, r.second);
    require(a->max_abs() == ab, "max_abs is", a->max_abs(), "expected", ab);
}
CASE("arg extremes") {
    auto a = t1(rng.chance(60));
    if (rng.chance(30)) for (auto &x: a->v) x = (float) rng.range(0, 1);
    if (rng.chance(8)) regime(a);
    size_t k = dim(0, a->k - 1), r = dim(0, a->r - 1), c = dim(0, a->c - 1);
    size_t n = (size_t) rng.range(0, (int64_t) a->c + 1);
    input(a->show(), "row", r, "col", c, "channel", k, "n", n);
    size_t hi = 0, lo = 0, hc = 0;
    for (size_t j = 0; j < a->c; j++) {
        if (a->at(r, j, k) > a->at(r, hi, k)) hi = j;
        if (a->at(r, j, k) < a->at(r, lo, k)) lo = j;
    }
    for (size_t i = 0; i < a->r; i++) if (a->at(i, c, k) > a->at(hc, c, k)) hc = i;
    require(a->maxIndexByRow(k, r) == hi, "maxIndexByRow is", a->maxIndexByRow(k, r), "expected", hi);
    require(a->minIndex(k, r) == lo, "minIndex is", a->minIndex(k, r), "expected", lo);
    require(a->maxIndexByCol(k, c) == hc, "maxIndexByCol is", a->maxIndexByCol(k, c), "expected", hc);
    vector<size_t> eh, el;
    for (size_t j = 0; j < a->c; j++) {
        if (a->at(r, j, k) == a->at(r, hi, k)) eh.push_back(j);
        if (a->at(r, j, k) == a->at(r, lo, k)) el.push_back(j);
    }
    require(a->maxIndices(k, r) == eh, "maxIndices");
    require(a->minIndices(k, r) == el, "minIndices");
    auto top = a->topIndices(n, k, r);
    require(top.size() == std::min(n, a->c), "topIndices returned", top.size());
    std::set<size_t> used;
    for (size_t i = 0; i < top.size(); i++) {
        require(top[i].getIndex() < a->c && a->at(r, top[i].getIndex(), k) == top[i].getValue(), "topIndices entry", i, "is not an element");
        require(used.insert(top[i].getIndex()).second, "topIndices lists an index twice");
        require(i == 0 || top[i - 1].getValue() >= top[i].getValue(), "topIndices is not descending");
    }
    if (!top.empty()) for (size_t j = 0; j < a->c; j++) require(used.count(j) || a->at(r, j, k) <= top.back().getValue(), "topIndices missed index", j);
    require(maxIndex(a) == a->maxIndexByRow(0, 0), "maxIndex");
}
CASE("sums and means") {
    auto a = t1();
    if (rng.chance(20)) for (auto &x: a->v) x = std::fabs(x) + 0.01f;
    float p = fval();
    input(a->show(), "point", p);
    double n = (double) a->v.size(), s = 0, pr = 1, q = 0, vp = 0, lg = 0, sc = 0;
    bool pos = true;
    each(a, [&](float x, size_t, size_t, size_t) {
        s += x; pr *= x; q += (double) x * x; vp += ((double) x - p) * ((double) x - p); sc += std::fabs(x);
        if (x <= 0) pos = false; else lg += std::log((double) x);
    });
    double m = s / n, sd = 0;
    each(a, [&](float x, size_t, size_t, size_t) { sd += (x - m) * (x - m); });
    require(close(a->sum(), s, sc), "sum is", a->sum(), "expected", s);
    require(same(a->product(), pr, 1e-6), "product is", a->product(), "expected", pr);
    require(close(a->arithmeticMean(), m, sc), "arithmeticMean is", a->arithmeticMean(), "expected", m);
    require(close(a->standardDeviation(), std::sqrt(sd / n), sc), "standardDeviation is", a->standardDeviation(), "expected", std::sqrt(sd / n));
    require(same(a->variance_point(p), vp / n, 1e-4, 1e-6), "variance_point is", a->variance_point(p), "expected", vp / n);
    require(close(a->variance(), sd / n, q), "variance is", a->variance(), "expected", sd / n);
    require(same(a->euclidean_norm(), std::sqrt(q), 1e-5), "euclidean_norm is", a->euclidean_norm(), "expected", std::sqrt(q));
    double g = a->geometricMean();
    require(pos ? same(g, std::exp(lg / n), 1e-4) : std::isnan(g), "geometricMean is", g);
}
CASE_ONCE("zero tensor") {
    auto a = probe(2, 2, 1);
    for (auto &x: a->v) x = 0;
    input(a->show());
    require(a->euclidean_norm() == 0, "euclidean_norm is", a->euclidean_norm());
}
CASE("access") {
    auto a = t1();
    float n = 1;
    for (auto &x: a->v) x = n++;
    size_t k = dim(0, a->k - 1), r = dim(0, a->r - 1);
    input(a->show(), r, k);
    size_t o = 0;
    for (size_t ch = 0; ch < a->k; ch++) for (size_t i = 0; i < a->r; i++) for (size_t j = 0; j < a->c; j++, o++)
        require(static_cast<BaseTensor *>(a.get())->getValue(o) == a->at(i, j, ch), "offset", o);
    auto v = a->getRowValues(r, k);
    require(v.size() == a->c, "getRowValues length", v.size());
    for (size_t j = 0; j < a->c; j++) require(v[j] == a->at(r, j, k), "getRowValues column", j);
    require(scalar(a) == a->at(0, 0, 0), "scalar");
    require(a->elementsPerChannel() == a->r * a->c, "elementsPerChannel");
}
CASE("validity scan") {
    auto a = t1();
    bool bad = rng.chance(60);
    size_t k = dim(0, a->k - 1), r = dim(0, a->r - 1), c = dim(0, a->c - 1);
    if (bad) a->at(r, c, k) = rng.chance(50) ? NAN : (rng.chance(50) ? INFINITY : -INFINITY);
    input(a->show(), bad, r, c, k);
    require(a->hasNaNOrInf() == bad, "hasNaNOrInf");
    require(hasInvalidValues(a) == bad, "hasInvalidValues");
}
CASE("assertEqual") {
    auto a = t1();
    auto b = probe(a->r, a->c, a->k);
    b->v = a->v;
    bool diff = rng.chance(60);
    if (diff) {
        if (rng.chance(30)) b = probe(a->r + (rng.chance(50) ? 1 : 0), a->c + 1, a->k); else { auto &x = b->v[dim(0, b->v.size() - 1)]; x = x + 1.0f + std::fabs(x); }
    }
    input(a->show(), b->show());
    require(rejects([&]() { assertEqual(a, b); }) == diff, "assertEqual");
}
HV_MAIN
