// C12: layers against reference implementations, over batches, channels and filters
#include "ml.hpp"
using namespace hv;

struct Rec {
    P w, g;
    bool bias;
    int id;
};
// records what a layer asks for and answers with a tensor of its own
struct Spy : public BaseOptimizer {
    vector<Rec> seen;
    vector<P> answers;
    bool record_only = false;
    Spy() : BaseOptimizer(0.1f, 0.1f) {}
    static P copy(const T &t) {
        auto p = probe(t->rowCount(), t->columnCount(), t->channelCount());
        for (size_t k = 0; k < p->k; k++) for (size_t i = 0; i < p->r; i++) for (size_t j = 0; j < p->c; j++) p->at(i, j, k) = t->getValue(i, j, k);
        return p;
    }
    T note(int id, const T &w, const T &g, bool bias) {
        seen.push_back({copy(w), copy(g), bias, id});
        auto a = probe(w->rowCount(), w->columnCount(), w->channelCount());
        for (auto &x: a->v) x = (float) ((rng.unit() - 0.5) * 2);
        answers.push_back(a);
        return a;
    }
    T calculateWeightsChange(int id, const T &w, const T &g) override { return note(id, w, g, false); }
    T calculateBiasChange(int id, const T &w, const T &g) override { return note(id, w, g, true); }
    shared_ptr<BaseOptimizer> self;
};
static P vals(size_t r, size_t c, size_t k) {
    auto p = probe(r, c, k);
    int scale = (int) rng.range(0, 3);
    for (auto &x: p->v) x = (float) ((rng.unit() - 0.5) * (scale ? 2 : 200));
    return p;
}
static double stored(float x, int bits) {
    if (bits == 32) return x;
    if (bits == 16) return halfToFloat(floatToHalf(x));
    return x;
}
static double loose(int bits) { return bits == 32 ? 1e-6 : 2e-3; }

// forward `batch` inputs for training and one backward
static vector<P> batch_of(size_t n, size_t r, size_t c, size_t k) {
    vector<P> out;
    std::ostringstream o;
    for (size_t i = 0; i < n; i++) out.push_back(vals(r, c, k)), o << out.back()->show() << " ";
    input("batch " + o.str());
    return out;
}
static double mean(const vector<P> &xs, size_t i, size_t j, size_t k) {
    double s = 0;
    for (auto &x: xs) s += x->at(i, j, k);
    return s / (double) xs.size();
}
static double tolerance(const vector<P> &xs) {
    double m = 1;
    for (auto &x: xs) for (float v: x->v) m = std::max(m, std::fabs((double) v));
    return m * 1e-5;
}

static void fully_connected(bool l2) {
    size_t in = soft(1, 7), outs = soft(1, 7);
    int id = (int) rng.range(0, 9), bits = rng.chance(60) ? 32 : 16;
    float strength = (float) (0.01 + rng.unit());
    FullyConnectedLayer layer("l", in, outs, (uint8_t) bits, id, l2, strength);
    auto spy = make_shared<Spy>();
    P w;
    for (int round = 0; round < 3; round++) {
        size_t rows = rng.chance(70) ? 1 : soft(1, 3), n = (size_t) rng.range(1, 5);
        auto xs = batch_of(n, rows, in, 1);
        vector<T> fs;
        for (auto &x: xs) {
            if (rng.chance(30)) layer.forward({vals(rows, in, 1)}, false);
            fs.push_back(layer.forward({x}, true));
        }
        vector<P> es{vals(rows, outs, 1)};
        T ie = layer.backward(es[0]).at(0);
        vector<P> ie_weights;
        bool twice = rng.chance(30);
        vector<P> xs2;
        if (twice) {
            xs2 = batch_of(2, rows, in, 1);
            for (auto &x: xs2) layer.forward({x}, true);
            es.push_back(vals(rows, outs, 1));
            layer.backward(es[1]);
        }
        size_t before = spy->seen.size();
        layer.apply(spy);
        require(spy->seen.size() == before + 1, "apply asked for", spy->seen.size() - before, "changes instead of one");
        auto &s = spy->seen.back();
        require(!s.bias && s.id == id, "wrong registration or kind");
        if (w) values(s.w, in, outs, 1, [&](size_t i, size_t j, size_t) { return stored(w->at(i, j, 0), bits); }, loose(bits), 1e-5);
        double tol = tolerance(xs) * tolerance(es) * 1e5 * (double) (in + outs);
        for (size_t q = 0; q < n; q++)
            values(fs[q], rows, outs, 1, [&](size_t i, size_t j, size_t) {
                double t = 0;
                for (size_t k = 0; k < in; k++) t += (double) xs[q]->at(i, k, 0) * s.w->at(k, j, 0);
                return t;
            }, 1e-4, tol);
        values(ie, rows, in, 1, [&](size_t i, size_t j, size_t) {
            double t = 0;
            for (size_t k = 0; k < outs; k++) t += (double) es[0]->at(i, k, 0) * s.w->at(j, k, 0);
            return t;
        }, 1e-4, tol);
        values(s.g, in, outs, 1, [&](size_t i, size_t j, size_t) {
            double t = 0;
            for (size_t k = 0; k < rows; k++) t += mean(xs, k, i, 0) * es[0]->at(k, j, 0);
            if (twice) {
                for (size_t k = 0; k < rows; k++) t += mean(xs2, k, i, 0) * es[1]->at(k, j, 0);
                t /= 2;
            }
            return t + (l2 ? (double) strength * s.w->at(i, j, 0) : 0);
        }, 1e-4, tol * (twice ? 100 : 1));
        w = spy->answers.back();
    }
}
CASE("fully connected") { fully_connected(false); }
CASE("fully connected with L2 regularization") { fully_connected(true); }

CASE("bias") {
    size_t r = soft(1, 4), c = soft(1, 5), k = soft(1, 4);
    int id = (int) rng.range(0, 9), bits = rng.chance(60) ? 32 : 16;
    BiasLayer layer("b", {r, c, k}, {r, c, k}, (uint8_t) bits, id);
    auto spy = make_shared<Spy>();
    P w;
    for (int round = 0; round < 3; round++) {
        auto x = batch_of(1, r, c, k)[0];
        T f = layer.forward({x}, rng.chance(50));
        size_t n = (size_t) rng.range(1, 4);
        vector<P> es;
        for (size_t i = 0; i < n; i++) {
            es.push_back(vals(r, c, k));
            T e = layer.backward(es.back()).at(0);
            values(e, r, c, k, [&](size_t i, size_t j, size_t l) { return es.back()->at(i, j, l); });
        }
        size_t before = spy->seen.size();
        layer.apply(spy);
        require(spy->seen.size() == before + 1, "apply asked for", spy->seen.size() - before, "changes instead of one");
        auto &s = spy->seen.back();
        require(s.bias && s.id == id, "wrong registration or kind");
        values(s.w, r, c, k, [&](size_t i, size_t j, size_t l) { return w ? stored(w->at(i, j, l), bits) : 0.1; }, loose(bits), 1e-5);
        values(f, r, c, k, [&](size_t i, size_t j, size_t l) { return (double) x->at(i, j, l) + s.w->at(i, j, l); }, 1e-5, 1e-4);
        values(s.g, r, c, k, [&](size_t i, size_t j, size_t l) { return mean(es, i, j, l); }, 1e-5, tolerance(es));
        w = spy->answers.back();
    }
}

CASE("activation") {
    size_t r = soft(1, 4), c = soft(1, 5), k = soft(1, 4), n = (size_t) rng.range(1, 5);
    ActivationLayer layer(make_shared<LeakyReLUActivationFunction>());
    for (int round = 0; round < 2; round++) {
        auto xs = batch_of(n, r, c, k);
        for (auto &x: xs) {
            if (rng.chance(30)) layer.forward({vals(r, c, k)}, false);
            T f = layer.forward({x}, true);
            values(f, r, c, k, [&](size_t i, size_t j, size_t l) { float v = x->at(i, j, l); return v > 0 ? v : 0.01 * v; }, 1e-5);
        }
        auto e = vals(r, c, k);
        T b = layer.backward(e).at(0);
        values(b, r, c, k, [&](size_t i, size_t j, size_t l) {
            double d = 0;
            for (auto &x: xs) d += x->at(i, j, l) > 0 ? 1 : 0.01;
            return d / (double) n * e->at(i, j, l);
        }, 1e-4, 1e-5);
    }
    require(rejects([&] { layer.backward(vals(r, c, k)); }), "backward without an input was accepted");
}

CASE("flatten") {
    size_t r = soft(1, 5), c = soft(1, 5), k = soft(1, 5);
    FlattenLayer layer;
    for (int round = 0; round < 2; round++) {
        auto x = batch_of(1, r, c, k)[0];
        bool train = rng.chance(80);
        T f = layer.forward({x}, train);
        values(f, 1, r * c * k, 1, [&](size_t, size_t o, size_t) { return x->at((o / c) % r, o % c, o / (r * c)); });
        auto e = vals(1, r * c * k, 1);
        T b = layer.backward(e).at(0);
        values(b, r, c, k, [&](size_t i, size_t j, size_t l) { return e->at(0, (l * r + i) * c + j, 0); });
    }
}

CASE("dropout") {
    size_t r = soft(1, 6), c = soft(1, 8), k = soft(1, 4);
    float rate = rng.chance(15) ? (float) rng.range(0, 1) : (float) rng.unit();
    DropoutLayer layer("d", {r, c, k}, rate);
    for (int round = 0; round < 2; round++) {
        auto x = batch_of(1, r, c, k)[0];
        for (auto &v: x->v) if (v == 0) v = 1;
        input("rate " + std::to_string(rate) + " " + x->show());
        T p = layer.forward({x}, false);
        values(p, r, c, k, [&](size_t i, size_t j, size_t l) { return (double) x->at(i, j, l) * (1.0 - (double) rate); }, 1e-5, 1e-5);
        T f = layer.forward({x}, true);
        shape(f, r, c, k);
        auto e = vals(r, c, k);
        for (auto &v: e->v) if (v == 0) v = 1;
        T b = layer.backward(e).at(0);
        shape(b, r, c, k);
        for (size_t l = 0; l < k; l++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
            float got = f->getValue(i, j, l), back = b->getValue(i, j, l);
            bool kept = got != 0;
            if (kept) require(got == x->at(i, j, l), "kept element", i, j, l, "is", got);
            require(back == (kept ? e->at(i, j, l) : 0.0f), "error of", kept ? "a kept" : "a dropped", "element", i, j, l, "is", back);
            if (rate == 0) require(kept, "dropped at rate 0");
            if (rate == 1) require(!kept, "kept at rate 1");
        }
    }
}
CASE_ONCE("dropout drops the rate it was given") {
    for (float rate: {0.1f, 0.5f, 0.9f}) {
        DropoutLayer layer("d", {50, 50, 2}, rate);
        auto x = probe(50, 50, 2);
        for (auto &v: x->v) v = 1;
        input("rate " + std::to_string(rate));
        T f = layer.forward({x}, true);
        double kept = 0;
        for (size_t l = 0; l < 2; l++) for (size_t i = 0; i < 50; i++) for (size_t j = 0; j < 50; j++) kept += f->getValue(i, j, l);
        require(std::fabs(kept / 5000 - (1 - rate)) < 0.06, "keeps", kept / 5000, "of the elements at rate", rate);
    }
}

CASE("concatenate") {
    size_t r = soft(1, 4), k = soft(1, 4), n = (size_t) rng.range(2, 5), total = 0;
    vector<vector<size_t>> shapes;
    vector<T> xs;
    vector<P> ps;
    for (size_t i = 0; i < n; i++) {
        size_t c = soft(1, 5);
        shapes.push_back({r, c, k});
        ps.push_back(vals(r, c, k));
        xs.push_back(ps.back());
        total += c;
    }
    ConcatenateWideLayer layer("c", shapes);
    T f = layer.forward(xs, rng.chance(50));
    auto e = vals(r, total, k);
    auto bs = layer.backward(e);
    require(bs.size() == n, "there are", bs.size(), "errors for", n, "inputs");
    shape(f, r, total, k);
    size_t start = 0;
    for (size_t q = 0; q < n; q++) {
        for (size_t l = 0; l < k; l++) for (size_t i = 0; i < r; i++) for (size_t j = 0; j < ps[q]->c; j++)
            require(f->getValue(i, start + j, l) == ps[q]->at(i, j, l), "input", q, "element", i, j, l, "is misplaced");
        values(bs[q], r, ps[q]->c, k, [&](size_t i, size_t j, size_t l) { return e->at(i, start + j, l); });
        start += ps[q]->c;
    }
}

static void convolution(bool l2) {
    size_t K = soft(1, 3, 9), depth = soft(1, 3, 12), filters = soft(1, 3, 12), R = K + soft(0, 4, 12), C = K + soft(0, 4, 12);
    int id = (int) rng.range(0, 9), bits = rng.chance(60) ? 32 : 16;
    float strength = (float) (0.01 + rng.unit());
    Convolution2dValidFunction layer("c", {R, C, depth}, filters, K, (uint8_t) bits, id, l2, strength);
    auto spy = make_shared<Spy>();
    vector<P> w;
    size_t OR = R - K + 1, OC = C - K + 1;
    for (int round = 0; round < 2; round++) {
        size_t n = (size_t) rng.range(1, 4);
        auto xs = batch_of(n, R, C, depth);
        input("kernel " + std::to_string(K) + ", filters " + std::to_string(filters) + ", batch of " + std::to_string(n) + " first " + xs[0]->show());
        vector<P> fs;
        for (auto &x: xs) {
            if (rng.chance(20)) layer.forward({vals(R, C, depth)}, false);
            T f = layer.forward({x}, true);
            shape(f, OR, OC, filters);
            fs.push_back(Spy::copy(f));
        }
        vector<P> es{vals(OR, OC, filters)};
        T b = layer.backward(es[0]).at(0);
        shape(b, R, C, depth);
        auto ie = Spy::copy(b);
        size_t before = spy->seen.size();
        layer.apply(spy);
        require(spy->seen.size() == before + filters, "apply asked for", spy->seen.size() - before, "changes for", filters, "filters");
        vector<Rec> s(spy->seen.begin() + (long) before, spy->seen.end());
        double tol = tolerance(xs) * tolerance(es) * 1e5 * (double) (OR * OC * depth * filters);
        for (size_t q = 0; q < filters; q++) {
            require(!s[q].bias && s[q].id == id, "wrong registration or kind");
            if (!w.empty()) values(s[q].w, K, K, depth, [&](size_t i, size_t j, size_t l) { return stored(w[q]->at(i, j, l), bits); }, loose(bits), 1e-5);
            for (size_t x = 0; x < n; x++)
                for (size_t i = 0; i < OR; i++) for (size_t j = 0; j < OC; j++) {
                    double t = 0;
                    for (size_t l = 0; l < depth; l++) for (size_t a = 0; a < K; a++) for (size_t c = 0; c < K; c++) t += (double) xs[x]->at(i + a, j + c, l) * s[q].w->at(a, c, l);
                    require(same(fs[x]->at(i, j, q), t, 1e-4, tol), "output (", i, j, q, ") is", fs[x]->at(i, j, q), "expected", t);
                }
            values(s[q].g, K, K, depth, [&](size_t a, size_t c, size_t l) {
                double t = 0;
                for (size_t i = 0; i < OR; i++) for (size_t j = 0; j < OC; j++) t += mean(xs, i + a, j + c, l) * es[0]->at(i, j, q);
                return t + (l2 ? (double) strength * s[q].w->at(a, c, l) : 0);
            }, 1e-4, tol);
        }
        values(ie, R, C, depth, [&](size_t i, size_t j, size_t l) {
            double t = 0;
            for (size_t q = 0; q < filters; q++) for (size_t a = 0; a < K; a++) for (size_t c = 0; c < K; c++)
                if (i >= a && j >= c && i - a < OR && j - c < OC) t += (double) es[0]->at(i - a, j - c, q) * s[q].w->at(a, c, l);
            return t;
        }, 1e-4, tol);
        w.assign(spy->answers.end() - (long) filters, spy->answers.end());
    }
}
CASE("convolution") { convolution(false); }
CASE("convolution with L2 regularization") { convolution(true); }
HV_MAIN
