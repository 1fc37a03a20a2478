// C10: loss functions
#include "ml.hpp"
using namespace hv;

struct Two { T t, p; P tp, pp; size_t r, c, k; };
static Two two(bool prob) {
    Two x;
    x.r = soft(1, 4), x.c = soft(1, 4), x.k = soft(1, 3);
    x.tp = probe(x.r, x.c, x.k);
    x.pp = probe(x.r, x.c, x.k);
    for (auto *p: {&x.tp, &x.pp}) for (auto &v: (*p)->v) {
        if (prob) v = (float) (0.001 + 0.998 * rng.unit());
        else if (rng.chance(60)) v = (float) rng.range(-6, 6) / 4.0f;
        else v = (float) ((rng.unit() - 0.5) * 50);
    }
    if (prob && rng.chance(60)) for (auto &v: x.tp->v) v = (float) rng.range(0, 1);
    if (!prob && rng.chance(20)) x.pp->v = x.tp->v;
    x.t = x.tp, x.p = x.pp;
    input(x.tp->show(), x.pp->show());
    return x;
}
template<class L, class E, class D>
static void check(bool prob, E err, D der, bool mean, bool square) {
    auto x = two(prob);
    L loss;
    T e = loss.compute_error(x.t, x.p);
    auto at = [&](size_t i, size_t j, size_t k) { return std::make_pair((double) x.tp->at(i, j, k), (double) x.pp->at(i, j, k)); };
    values(e, x.r, x.c, x.k, [&](size_t i, size_t j, size_t k) { auto q = at(i, j, k); return err(q.first, q.second); }, 2e-4, 1e-5);
    T d = loss.compute_loss_derivative(e, x.t, x.p);
    values(d, x.r, x.c, x.k, [&](size_t i, size_t j, size_t k) { auto q = at(i, j, k); return der(q.first, q.second); }, 2e-4, 1e-5);
    // the loss of an arbitrary error tensor
    auto g = probe(x.r, x.c, x.k, true);
    input(x.tp->show(), x.pp->show(), g->show());
    double s = 0;
    for (float v: g->v) s += square ? (double) v * v : (double) v;
    if (mean) s /= (double) g->v.size();
    T gt = g;
    require(same(loss.compute_loss(gt), s, 1e-4, 1e-4), "compute_loss is", loss.compute_loss(gt), "expected", s);
}
static double sign(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

CASE("mse") { check<MeanSquaredErrorLossFunction>(false, [](double t, double p) { return p - t; }, [](double t, double p) { return 2 * (p - t); }, true, true); }
CASE("mae") { check<MeanAbsoluteErrorLossFunction>(false, [](double t, double p) { return std::fabs(p - t); }, [](double t, double p) { return sign((float) p - (float) t); }, true, false); }
CASE("smae") {
    check<SmoothMeanAbsoluteErrorLossFunction>(false, [](double t, double p) { double d = std::fabs(p - t); return d < 1 ? 0.5 * d * d : d - 0.5; },
                                               [](double t, double p) { double d = (float) p - (float) t; return std::fabs(d) < 1 ? d : sign(d); }, true, false);
}
CASE("binary cross entropy") {
    check<BinaryCrossEntropyLossFunction>(true, [](double t, double p) { return -(t * std::log(p) + (1 - t) * std::log(1 - p)); },
                                          [](double t, double p) { return -(t / p - (1 - t) / (1 - p)); }, false, false);
}
CASE("categorical cross entropy") {
    check<CategoricalCrossEntropyLossFunction>(true, [](double t, double p) { return -t * std::log(p); }, [](double t, double p) { return p - t; }, false, false);
}
CASE("cross entropy clips") {
    auto x = two(true);
    for (auto &v: x.pp->v) v = rng.chance(50) ? 0.0f : 1.0f;
    input(x.tp->show(), x.pp->show());
    BinaryCrossEntropyLossFunction b;
    CategoricalCrossEntropyLossFunction c;
    auto cl = [](double v) { return std::max((double) 1e-8f, std::min((double) (1.0f - 1e-8f), v)); };
    values(b.compute_error(x.t, x.p), x.r, x.c, x.k, [&](size_t i, size_t j, size_t k) {
        double t = x.tp->at(i, j, k), p = x.pp->at(i, j, k); return -(t * std::log(cl(p)) + (1 - t) * std::log(cl(1 - p))); }, 1e-4, 1e-5);
    values(c.compute_error(x.t, x.p), x.r, x.c, x.k, [&](size_t i, size_t j, size_t k) {
        double t = x.tp->at(i, j, k), p = x.pp->at(i, j, k); return -t * std::log(cl(p)); }, 1e-4, 1e-5);
}
HV_MAIN
