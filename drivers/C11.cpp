// C11: optimizer steps against a reference implementation over several layers and steps
#include "ml.hpp"
using namespace hv;

struct Ref { vector<double> p, m, v; size_t r, c, k; int id; bool bias; T cur; };

static Ref layer(size_t n, int id, bool bias) {
    (void) n;
    Ref x;
    x.r = soft(1, 3), x.c = soft(1, 3), x.k = soft(1, 2);
    auto t = probe(x.r, x.c, x.k);
    for (auto &q: t->v) q = (float) ((rng.unit() - 0.5) * 4);
    x.p.assign(t->v.begin(), t->v.end());
    x.m.assign(x.p.size(), 0), x.v.assign(x.p.size(), 0);
    x.id = id, x.bias = bias, x.cur = t;
    return x;
}
static P gradient(const Ref &x) {
    auto g = probe(x.r, x.c, x.k);
    for (auto &q: g->v) q = rng.chance(10) ? 0.0f : (float) ((rng.unit() - 0.5) * 2);
    return g;
}
static void agree(const T &t, const Ref &x, const char *what) {
    size_t o = 0;
    shape(t, x.r, x.c, x.k);
    for (size_t k = 0; k < x.k; k++) for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++, o++)
        require(same(t->getValue(i, j, k), x.p[o], 1e-3, 1e-4), what, "parameter (", i, j, k, ") is", t->getValue(i, j, k), "expected", x.p[o]);
}

// kind 0: mbgd, 1: sgdm, 2: adam
static void history(int kind, bool decay) {
    float lr = (float) (0.001 + rng.unit() * 0.3), blr = (float) (0.001 + rng.unit() * 0.3);
    shared_ptr<BaseOptimizer> o;
    if (kind == 0) o = make_shared<MBGDOptimizer>(lr, blr);
    else if (kind == 1) o = make_shared<SGDMOptimizer>(lr, blr, decay);
    else o = make_shared<AdamOptimizer>(lr, blr, decay);
    vector<Ref> layers;
    std::ostringstream log;
    log << "lr=" << lr << " blr=" << blr << " decay=" << decay;
    int n = (int) rng.range(1, 3);
    std::set<int> ids;
    for (int i = 0; i < n; i++) {
        bool b = rng.chance(50);
        int id = b ? o->registerForBiasChanges() : o->registerForWeightChanges();
        require(kind == 0 || ids.insert(id).second, "id", id, "handed out twice");
        if (rng.chance(40)) id = (int) rng.range(100, 101) + 10 * (int) !b;   // ids are up to the caller
        if (rng.chance(40)) { id = 200 + (i >= 2); b = i == 1; }                 // weights and bias of one layer may share one
        for (auto &l: layers) if (l.id == id && l.bias == b) id = 300 + i;
        layers.push_back(layer(0, id, b));
    }
    int steps = (int) rng.range(1, 5);
    for (int s = 0; s < steps; s++) {
        if (rng.chance(70)) { o->update_time_step(); log << " tick"; }
        for (auto &x: layers) {
            if (rng.chance(20)) continue;
            auto g = gradient(x);
            log << " step(" << (x.bias ? "bias " : "weights ") << x.id << " " << g->show() << ")";
            input(log.str());
            float before = x.bias ? o->getBiasLearningRate() : o->getLearningRate();
            float other = x.bias ? o->getLearningRate() : o->getBiasLearningRate();
            T next = x.bias ? o->calculateBiasChange(x.id, x.cur, g) : o->calculateWeightsChange(x.id, x.cur, g);
            float after = x.bias ? o->getBiasLearningRate() : o->getLearningRate();
            require((x.bias ? o->getLearningRate() : o->getBiasLearningRate()) == other, "the other learning rate changed");
            if (!decay || kind == 0) require(after == before, "learning rate changed from", before, "to", after);
            else require(after == before || (after >= 0.99e-5f && after <= 1.01e-1f), "learning rate left its limits:", after);
            double rate = kind == 2 ? after : before;
            size_t q = 0;
            for (float d: g->v) {
                if (kind == 0) x.p[q] -= rate * d;
                if (kind == 1) { x.m[q] = 0.9 * x.m[q] + rate * d; x.p[q] -= x.m[q]; }
                if (kind == 2) {
                    x.m[q] = 0.9 * x.m[q] + 0.1 * d;
                    x.v[q] = 0.999 * x.v[q] + 0.001 * d * (double) d;
                    x.p[q] -= rate * x.m[q] / (std::sqrt(x.v[q]) + 2e-8);
                }
                q++;
            }
            agree(next, x, x.bias ? "bias" : "weight");
            x.cur = materializeTensor(next);
        }
    }
}
CASE("mbgd") { history(0, false); }
CASE("sgdm") { history(1, false); }
CASE("sgdm with decay") { history(1, true); }
CASE("adam") { history(2, false); }
CASE("adam with decay") { history(2, true); }
HV_MAIN
