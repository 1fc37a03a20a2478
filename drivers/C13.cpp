// C13: saved tensors, layers and models come back as they were
#include "ml.hpp"
#include "scratch.hpp"
using namespace hv;

static P vals(size_t r, size_t c, size_t k, bool pixel) {
    auto p = probe(r, c, k);
    if (pixel) for (auto &x: p->v) x = (float) rng.unit();
    return p;
}
static P some(bool pixel) { return vals(soft(1, 6), soft(1, 6), soft(1, 4), pixel); }
static void alike(const T &got, const T &want) {
    shape(got, want->rowCount(), want->columnCount(), want->channelCount());
    for (size_t k = 0; k < want->channelCount(); k++)
        for (size_t i = 0; i < want->rowCount(); i++)
            for (size_t j = 0; j < want->columnCount(); j++) {
                float x = got->getValue(i, j, k), y = want->getValue(i, j, k);
                require(memcmp(&x, &y, 4) == 0 || (std::isnan(x) && std::isnan(y)), "element (", i, j, k, ") is", x, "expected", y);
            }
}
static void trash(const std::string &path, size_t bytes) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    std::string s(bytes, '\x5a');
    f.write(s.data(), s.size());
}

// the class as a template: how it stores a tensor, how it is loaded
template<class C>
static shared_ptr<C> store(const T &t, int) { return make_shared<C>(t); }
template<>
shared_ptr<QuarterTensor> store<QuarterTensor>(const T &t, int bias) { return make_shared<QuarterTensor>(t, bias); }
template<class C, class... A>
static shared_ptr<C> load(A &&... a) { return make_shared<C>(a...); }

template<class C>
static void from_file() {
    bool pixel = std::is_same<C, PixelTensor>::value, quarter = std::is_same<C, QuarterTensor>::value;
    int bias = (int) rng.range(0, 15);
    auto p = some(pixel);
    if (rng.chance(15) && !pixel) regime(p);
    input("bias", bias, p->show());
    auto path = scratch_file("t.tensor");
    if (rng.chance(40)) trash(path, (size_t) rng.range(1, 4000));
    else unlink(path.c_str());
    T a = rng.chance(50) ? T(p) : T(store<C>(p, bias));
    require(a->save(path), "save failed");
    require(bytes_of(path).size() == 24 + 4 * p->r * p->c * p->k, "file has", bytes_of(path).size(), "bytes");
    T want = store<C>(a, bias), got;
    if (rng.chance(50)) {
        if constexpr (std::is_same<C, QuarterTensor>::value) got = load<C>(path, bias);
        else got = load<C>(path);
    } else {
        std::ifstream in(path, std::ios::binary);
        if constexpr (std::is_same<C, QuarterTensor>::value) got = load<C>(in, bias);
        else got = load<C>(in);
    }
    (void) quarter;
    alike(got, want);
    // saving what was loaded gives a tensor that loads alike
    require(got->save(path), "save failed");
    if constexpr (std::is_same<C, QuarterTensor>::value) got = load<C>(path, bias);
    else got = load<C>(path);
    if (!std::is_same<C, QuarterTensor>::value) alike(got, want);
}
// several tensors one after the other in one stream, with and without their shape
template<class C>
static void in_stream() {
    bool pixel = std::is_same<C, PixelTensor>::value;
    int bias = (int) rng.range(0, 15);
    size_t n = (size_t) rng.range(1, 4);
    vector<P> ps;
    vector<bool> header;
    std::ostringstream d;
    auto path = scratch_file("s.tensor");
    {
        std::ofstream out(path, std::ios::binary | std::ios::trunc);
        std::string prefix((size_t) rng.range(0, 9), 'x');
        d << prefix.size() << " bytes before, ";
        out.write(prefix.data(), prefix.size());
        for (size_t i = 0; i < n; i++) {
            ps.push_back(some(pixel));
            header.push_back(std::is_same<C, HalfTensor>::value || rng.chance(50));
            d << ps[i]->show() << (header[i] ? " with shape, " : " bare, ");
        }
        input("bias", bias, d.str());
        for (size_t i = 0; i < n; i++) ps[i]->save(out, header[i]);
        out.close();
        std::ifstream in(path, std::ios::binary);
        in.seekg((std::streamoff) prefix.size());
        for (size_t i = 0; i < n; i++) {
            T got;
            if constexpr (std::is_same<C, QuarterTensor>::value) got = header[i] ? load<C>(in, bias) : load<C>(in, bias, (uint64_t) ps[i]->r, (uint64_t) ps[i]->c, (uint64_t) ps[i]->k);
            else if constexpr (std::is_same<C, HalfTensor>::value) got = load<C>(in);
            else got = header[i] ? load<C>(in) : load<C>(in, (uint64_t) ps[i]->r, (uint64_t) ps[i]->c, (uint64_t) ps[i]->k);
            alike(got, store<C>(ps[i], bias));
        }
        require(in.good() && in.peek() == EOF, "bytes left over");
    }
}
CASE("FullTensor through a file") { from_file<FullTensor>(); }
CASE("HalfTensor through a file") { from_file<HalfTensor>(); }
CASE("QuarterTensor through a file") { from_file<QuarterTensor>(); }
CASE("PixelTensor through a file") { from_file<PixelTensor>(); }
CASE("FullTensor through a stream") { in_stream<FullTensor>(); }
CASE("HalfTensor through a stream") { in_stream<HalfTensor>(); }
CASE("QuarterTensor through a stream") { in_stream<QuarterTensor>(); }
CASE("PixelTensor through a stream") { in_stream<PixelTensor>(); }
CASE("file layout") {
    auto p = some(false);
    input(p->show());
    auto path = scratch_file("l.tensor");
    require(p->save(path), "save failed");
    auto b = bytes_of(path);
    require(b.size() == 24 + 4 * p->v.size(), "size");
    auto big = [&](size_t at, int n) {
        uint64_t x = 0;
        for (int i = 0; i < n; i++) x = x << 8 | (uint8_t) b[at + i];
        return x;
    };
    auto little = [&](size_t at, int n) {
        uint64_t x = 0;
        for (int i = n - 1; i >= 0; i--) x = x << 8 | (uint8_t) b[at + i];
        return x;
    };
    bool be = big(0, 8) == p->k;
    auto num = [&](size_t at, int n) { return be ? big(at, n) : little(at, n); };
    require(num(0, 8) == p->k && num(8, 8) == p->r && num(16, 8) == p->c, "shape in the file");
    size_t at = 24;
    for (size_t k = 0; k < p->k; k++) for (size_t i = 0; i < p->r; i++) for (size_t j = 0; j < p->c; j++, at += 4) {
        uint32_t u = (uint32_t) num(at, 4);
        float x;
        memcpy(&x, &u, 4);
        require(same(x, p->at(i, j, k), 0, 0), "element", i, j, k, "in the file is", x);
    }
}

// answers every step with a tensor of its own
struct Spy : public BaseOptimizer {
    vector<P> answers;
    bool extreme = rng.chance(20);
    Spy() : BaseOptimizer(0.1f, 0.1f) {}
    T note(const T &w) {
        auto a = probe(w->rowCount(), w->columnCount(), w->channelCount());
        for (auto &x: a->v) x = (float) ((rng.unit() - 0.5) * (extreme ? 2000 : 2));
        answers.push_back(a);
        return a;
    }
    T calculateWeightsChange(int, const T &w, const T &) override { return note(w); }
    T calculateBiasChange(int, const T &w, const T &) override { return note(w); }
};
static std::string label() {
    static const vector<std::string> ls{"l", "1_full", "12_c2dv", "a b", "x_0", "3_bias"};
    return rng.pick(ls);
}
static T stored(const T &t, int bits) {
    if (bits == 32) return make_shared<FullTensor>(t);
    return make_shared<HalfTensor>(t);
}
// a layer trained by two steps, saved, loaded into a new one of the same label and into itself after a further step
template<class L>
static void layer(std::function<shared_ptr<L>()> make, size_t r, size_t c, size_t k, size_t orr, size_t oc, size_t ok, const std::string &dir) {
    auto a = make();
    auto spy = make_shared<Spy>();
    auto step = [&]() {
        a->forward({vals(r, c, k, true)}, true);
        a->backward(vals(orr, oc, ok, true));
        a->apply(spy);
    };
    auto x = vals(r, c, k, true);
    step();
    step();
    T before = make_shared<FullTensor>(a->forward({x}, false));
    a->saveKnowledge(dir);
    alike(a->forward({x}, false), before);
    auto b = make();
    b->loadKnowledge(dir);
    alike(b->forward({x}, false), before);
    step();
    a->loadKnowledge(dir);
    alike(a->forward({x}, false), before);
    (void) a->get_parameter_count();
    require(a->get_parameter_count() == b->get_parameter_count(), "parameter counts differ");
}
static std::string knowledge() {
    auto d = scratch_file("knowledge");
    std::filesystem::remove_all(d);
    std::filesystem::create_directory(d);
    return d;
}
CASE("FullyConnectedLayer knowledge") {
    size_t in = soft(1, 7, 60), out = soft(1, 7, 60);
    auto l = label();
    int bits = rng.chance(50) ? 32 : 16, id = (int) rng.range(0, 5);
    input(l, in, out, bits);
    layer<FullyConnectedLayer>([=] { return make_shared<FullyConnectedLayer>(l, in, out, (uint8_t) bits, id, false, 0.01f); }, 1, in, 1, 1, out, 1, knowledge());
}
CASE("BiasLayer knowledge") {
    size_t r = soft(1, 4, 20), c = soft(1, 7, 60), k = soft(1, 3, 20);
    auto l = label();
    int bits = rng.chance(50) ? 32 : 16, id = (int) rng.range(0, 5);
    input(l, r, c, k, bits);
    vector<size_t> s{r, c, k};
    layer<BiasLayer>([=] { return make_shared<BiasLayer>(l, s, s, (uint8_t) bits, id); }, r, c, k, r, c, k, knowledge());
}
CASE("Convolution2dValidFunction knowledge") {
    size_t kn = (size_t) rng.range(1, 3), r = kn + soft(0, 4, 12), c = kn + soft(0, 4, 12), d = (size_t) rng.range(1, 3), f = rng.chance(10) ? (size_t) rng.range(10, 13) : soft(1, 4, 12);
    auto l = label();
    int bits = rng.chance(50) ? 32 : 16, id = (int) rng.range(0, 5);
    input(l, r, c, d, "filters", f, "kernel", kn, bits);
    vector<size_t> s{r, c, d};
    layer<Convolution2dValidFunction>([=] { return make_shared<Convolution2dValidFunction>(l, s, f, kn, (uint8_t) bits, id, false, 0.01f); }, r, c, d, r - kn + 1, c - kn + 1, f, knowledge());
}
// several layers share a directory
CASE("layers do not touch each other's files") {
    auto dir = knowledge();
    size_t in = soft(1, 5, 20), out = soft(1, 5, 20);
    input(in, out);
    vector<size_t> s{1, out, 1};
    auto make_full = [&](int i) { return make_shared<FullyConnectedLayer>(asString((uint32_t) i) + "_full", in, out, (uint8_t) 32, i, false, 0.01f); };
    auto make_bias = [&](int i) { return make_shared<BiasLayer>(asString((uint32_t) i) + "_bias", s, s, (uint8_t) 32, i); };
    vector<shared_ptr<FullyConnectedLayer>> fs;
    vector<shared_ptr<BiasLayer>> bs;
    auto spy = make_shared<Spy>();
    auto x = vals(1, in, 1, true), y = vals(1, out, 1, true);
    vector<T> wf, wb;
    for (int i = 0; i < 3; i++) {
        fs.push_back(make_full(i));
        bs.push_back(make_bias(i));
        fs[i]->forward({x}, true), fs[i]->backward(y), fs[i]->apply(spy);
        bs[i]->forward({y}, true), bs[i]->backward(y), bs[i]->apply(spy);
        wf.push_back(make_shared<FullTensor>(fs[i]->forward({x}, false)));
        wb.push_back(make_shared<FullTensor>(bs[i]->forward({y}, false)));
    }
    for (int i = 0; i < 3; i++) fs[i]->saveKnowledge(dir), bs[i]->saveKnowledge(dir);
    for (int i = 0; i < 3; i++) {
        auto f = make_full(i);
        auto b = make_bias(i);
        b->loadKnowledge(dir), f->loadKnowledge(dir);
        alike(f->forward({x}, false), wf[i]);
        alike(b->forward({y}, false), wb[i]);
    }
}

// whole models
static ActivationType act() {
    static const vector<ActivationType> as{relu, leaky, sigmoid, sigmoidApprox, tanhDefault, tanhApprox, linear};
    return rng.pick(as);
}
CASE("models") {
    auto repo = scratch_file("repo");
    std::filesystem::remove_all(repo);
    static const vector<OptimizerType> os{sgd, sgdm, adam, adam_with_decaying_momentum, sgdm_with_decaying_momentum};
    static const vector<LossType> ls{mse, mae, smae};
    auto dsl = neuralNetworkBuilder(rng.pick(os), "m", repo)->setLossFunction(rng.pick(ls))->setLearningRate(0.01f)->setBiasLearningRate(0.01f);
    std::ostringstream d;
    size_t r = 1, c = (size_t) rng.range(1, 5), k = 1, out = (size_t) rng.range(1, 4);
    auto dress = [&](shared_ptr<HappymlDSL::NNVertex> v) {
        if (rng.chance(60)) v->setUseBias(true), d << " bias";
        if (rng.chance(30)) v->setUseL2Regularization(true), d << " l2";
        if (rng.chance(20)) v->setUseNormClipping(true), d << " clip";
        if (rng.chance(30)) v->setBits(16), d << " 16bit";
        if (rng.chance(50)) v->setMaterialized(rng.chance(50));
        return v;
    };
    int form = (int) rng.range(0, 3);
    shared_ptr<HappymlDSL::NNVertex> v;
    if (form == 0) {
        size_t h = (size_t) rng.range(1, 5);
        d << "full " << c << " " << h;
        v = dress(dsl->addInputLayer(c, h, LayerType::full, act()));
        if (rng.chance(50)) d << " full 3", v = dress(v->addLayer(3, LayerType::full, act()));
    } else if (form == 1) {
        size_t kn = (size_t) rng.range(1, 2), f = (size_t) rng.range(1, 3);
        r = kn + (size_t) rng.range(0, 3), c = kn + (size_t) rng.range(0, 3), k = (size_t) rng.range(1, 2);
        d << "conv " << r << "x" << c << "x" << k << " filters " << f << " kernel " << kn;
        v = dress(dsl->addInputLayer(vector<size_t>{r, c, k}, f, kn, LayerType::convolution2dValid, act()));
    } else if (form == 2) {
        d << "full " << c << " 4 dropout";
        v = dress(dsl->addInputLayer(c, 4, LayerType::full, act()));
        v = v->addDropoutLayer(0.2f);
    } else {
        d << "full " << c << " 3 + full 2 concatenated";
        v = dress(dsl->addInputLayer(c, 3, LayerType::full, act()));
        auto w = dress(v->addLayer(2, LayerType::full, act()));
        auto u = dress(v->addLayer(3, LayerType::full, act()));
        v = dsl->add_concatenated_layer({w, u});
    }
    d << " output " << out;
    input(d.str());
    v = dress(v->addOutput(out, act()));
    auto nn = dsl->build();
    nn->setSilentMode(true);
    auto data = make_shared<InMemoryTrainingDataSet>();
    for (int i = 0; i < 4; i++) data->addTrainingData(vector<T>{vals(r, c, k, true)}, vector<T>{vals(1, out, 1, true)});
    auto epochs = [&](size_t n) { nn->setExitStrategy(make_shared<DefaultExitStrategy>(n, NINETY_DAYS_MS, n, 0.0f, 0.0f, n, 1e9f)); };
    epochs((size_t) rng.range(1, 3));
    try {
        nn->train(data, 2, rng.chance(50) ? best : last);
    } catch (const std::exception &e) {
        throw Skip(); // diverged
    }
    auto x = vals(r, c, k, true);
    auto ask = [&](const shared_ptr<NeuralNetworkForTraining> &n) { return T(make_shared<FullTensor>(n->predict(x)[0])); };
    auto before = ask(nn);
    // what is already there stays as it was without overwrite; the model then goes to a new directory
    bool over = rng.chance(60);
    int there = (int) rng.range(0, 2);
    if (there == 1) nn->saveWithOverwrite();
    if (there == 2) std::filesystem::create_directories(repo + "/m"), trash(repo + "/m/model.config", 10);
    auto dirs = [&]() {
        std::set<std::string> out;
        if (std::filesystem::is_directory(repo)) for (auto &e: std::filesystem::directory_iterator(repo)) out.insert(e.path().filename().string());
        return out;
    };
    auto had = dirs();
    auto kept = had.count("m") && !over ? bytes_of(repo + "/m/model.config") : "";
    if (over) nn->saveWithOverwrite();
    else nn->saveWithoutOverwrite();
    alike(ask(nn), before);
    std::string name = "m";
    if (had.count("m") && !over) {
        require(bytes_of(repo + "/m/model.config") == kept, "the model that was there changed");
        for (auto &n: dirs()) if (!had.count(n)) name = n;
        require(name != "m", "no new directory");
    }
    auto again = loadNeuralNetworkForTraining(name, repo);
    again->setSilentMode(true);
    alike(ask(again), before);
    require(nn->get_total_parameters() == again->get_total_parameters(), "parameter counts differ");
    nn->saveKnowledge("kept", true);
    epochs(1);
    try {
        nn->train(data, 2, last);
    } catch (const std::exception &e) {
        throw Skip();
    }
    nn->loadKnowledge("kept");
    alike(ask(nn), before);
}
HV_MAIN
