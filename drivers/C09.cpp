// C09: activation functions
#include "ml.hpp"
using namespace hv;

static P operand() {
    auto a = probe(soft(1, 4), soft(1, 4), soft(1, 3));
    for (auto &x: a->v) {
        if (rng.chance(30)) x = (float) rng.range(-4, 4);
        else if (rng.chance(50)) x = (float) ((rng.unit() - 0.5) * 8);
        else if (rng.chance(50)) x = (float) ((rng.unit() - 0.5) * 60);
        else if (rng.chance(50)) x = (float) ((rng.unit() - 0.5) * 1e-3);
        if (std::fabs(x) > 80) x = (float) std::fmod(x, 80);
        if (rng.chance(12)) x = (float) ((rng.unit() - 0.5) * (rng.chance(50) ? 600 : 2e4));
    }
    return a;
}

template<class A, class F, class G>
static void both(F f, G df, double rel, double abs_) {
    auto a = operand();
    input(a->show());
    A act;
    T v = act.activate(a), d = act.derivative(a);
    values(v, a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return f((double) a->at(i, j, k)); }, rel, abs_);
    values(d, a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return df((double) a->at(i, j, k)); }, rel, abs_);
}
static double sg(double x) { return 1 / (1 + std::exp(-x)); }
static double ss(double x) { return 0.5 * (x / (1 + std::fabs(x)) + 1); }

CASE("relu") { both<ReLUActivationFunction>([](double x) { return x > 0 ? x : 0; }, [](double x) { return x > 0 ? 1.0 : 0.0; }, 0, 0); }
CASE("leaky relu") { both<LeakyReLUActivationFunction>([](double x) { return x >= 0 ? x : 0.01 * x; }, [](double x) { return x >= 0 ? 1.0 : 0.01; }, 1e-6, 1e-30); }
CASE("linear") { both<LinearActivationFunction>([](double x) { return x; }, [](double) { return 1.0; }, 0, 0); }
CASE("sigmoid") { both<SigmoidActivationFunction>(sg, [](double x) { return sg(x) * (1 - sg(x)); }, 1e-5, 1e-6); }
CASE("sigmoid approximation") { both<SigmoidApproximationActivationFunction>(ss, [](double x) { return ss(x) * (1 - ss(x)); }, 1e-5, 1e-6); }
CASE("tanh") { both<TanhActivationFunction>([](double x) { return std::tanh(x); }, [](double x) { return 1 - std::tanh(x) * std::tanh(x); }, 1e-5, 1e-6); }
CASE("tanh approximation") { both<TanhApproximationActivationFunction>([](double x) { return std::tanh(x); }, [](double x) { return 1 - std::tanh(x) * std::tanh(x); }, 1e-5, 2e-6); }
CASE("softmax") {
    auto a = operand();
    if (rng.chance(30)) for (auto &x: a->v) x = x * 20 + (rng.chance(50) ? 1000.0f : -1000.0f);
    input(a->show());
    SoftmaxActivationFunction act;
    double mx = -INFINITY, s = 0;
    for (float x: a->v) mx = std::max(mx, (double) x);
    for (float x: a->v) s += std::exp((double) x - mx);
    values(act.activate(a), a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return std::exp(a->at(i, j, k) - mx) / s; }, 1e-4, 1e-7);
    values(act.derivative(a), a->r, a->c, a->k, [&](size_t, size_t, size_t) { return 1.0; });
}
HV_MAIN
