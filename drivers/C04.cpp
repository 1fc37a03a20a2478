// C04: element-wise views compute their operation at every coordinate of an unchanged shape
#include "tensors.hpp"
#include "types/tensor_views/log2_tensor_view.hpp"
#include "types/tensor_views/noop_tensor_view.hpp"
using namespace hv;

static P t1() { return probe(soft(1, 4), soft(1, 4), soft(1, 3)); }
static P like(const P &a) { return probe(a->r, a->c, a->k); }

template<class F, class G>
static void un(F make, G spec, double rel = 4e-6) {
    auto a = t1();
    float s = fval(), s2 = fval();
    input(a->show(), "s=", s, "s2=", s2);
    T v = make(a, s, s2);
    values(v, a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return (double) (float) spec(a->at(i, j, k), s, s2); }, rel);
}

template<class V, class G>
static void bin(G spec) {
    auto a = t1();
    P b = like(a);
    bool mismatch = rng.chance(25);
    if (mismatch) {
        size_t r = a->r, c = a->c, k = a->k;
        switch (rng.range(0, 3)) {
            case 0: r++; break;
            case 1: c++; break;
            case 2: k++; break;
            default: std::swap(r, c); if (r == c) r++;
        }
        b = probe(r, c, k);
    }
    input(a->show(), b->show());
    if (mismatch) {
        require(rejects([&]() { make_shared<V>(a, b); }), "operands of different shapes were accepted");
        return;
    }
    T v = make_shared<V>(a, b);
    values(v, a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return (double) (float) spec(a->at(i, j, k), b->at(i, j, k)); });
}

CASE("AddTensorView") { bin<AddTensorView>([](float a, float b) { return a + b; }); }
CASE("SubtractTensorView") { bin<SubtractTensorView>([](float a, float b) { return a - b; }); }
CASE("ElementWiseMultiplyTensorView") { bin<ElementWiseMultiplyTensorView>([](float a, float b) { return a * b; }); }
CASE("ElementWiseDivideTensorView") { bin<ElementWiseDivideTensorView>([](float a, float b) { return a / (b == 0.0f ? 1e-8f : b); }); }
CASE("ScalarAddTensorView") { un([](T a, float s, float) { return make_shared<ScalarAddTensorView>(a, s); }, [](float a, float s, float) { return a + s; }); }
CASE("ScalarMultiplyTensorView") { un([](T a, float s, float) { return make_shared<ScalarMultiplyTensorView>(a, s); }, [](float a, float s, float) { return a * s; }); }
CASE("ScalarMultiplyTensorView(scalar first)") { un([](T a, float s, float) { return make_shared<ScalarMultiplyTensorView>(s, a); }, [](float a, float s, float) { return a * s; }); }
CASE("ScalarSubtractTensorView") { un([](T a, float s, float) { return make_shared<ScalarSubtractTensorView>(a, s); }, [](float a, float s, float) { return a - s; }); }
CASE("ScalarSubtractTensorView(scalar first)") { un([](T a, float s, float) { return make_shared<ScalarSubtractTensorView>(s, a); }, [](float a, float s, float) { return s - a; }); }
CASE("ScalarDivideTensorView") { un([](T a, float s, float) { return make_shared<ScalarDivideTensorView>(a, s); }, [](float a, float s, float) { return a / s; }); }
CASE("ScalarDivideTensorView(scalar first)") { un([](T a, float s, float) { return make_shared<ScalarDivideTensorView>(s, a); }, [](float a, float s, float) { return s / a; }); }
CASE("PowerTensorView") { un([](T a, float s, float) { return make_shared<PowerTensorView>(a, s); }, [](float a, float s, float) { return powf(a, s); }); }
CASE("LessThanScalarTensorView") { un([](T a, float s, float) { return make_shared<LessThanScalarTensorView>(a, s); }, [](float a, float s, float) { return a < s ? 1.0f : 0.0f; }); }
CASE("ElementWiseInverseTensorView") { un([](T a, float s, float) { return make_shared<ElementWiseInverseTensorView>(a, s); }, [](float a, float s, float) { return 1.0f / (a + s); }, 1e-4); }
CASE("ClipTensorView") {
    un([](T a, float s, float t) { return make_shared<ClipTensorView>(a, std::min(s, t), std::max(s, t)); },
       [](float a, float s, float t) { float lo = std::min(s, t), hi = std::max(s, t); return a < lo ? lo : a > hi ? hi : a; });
}
CASE("DenormalizeTensorView") { un([](T a, float s, float t) { return make_shared<DenormalizeTensorView>(a, s, t); }, [](float a, float s, float t) { return a * (t - s) + s; }, 1e-4); }
CASE("NormalizeTensorView(min,max)") { un([](T a, float s, float t) { return make_shared<NormalizeTensorView>(a, s, t); }, [](float a, float s, float t) { return (a - s) / (t - s == 0 ? 1 : t - s); }, 1e-4); }
CASE("StandardizeTensorView(mean,std)") { un([](T a, float s, float t) { return make_shared<StandardizeTensorView>(a, s, t); }, [](float a, float s, float t) { return (a - s) / t; }, 1e-4); }
CASE("UnstandardizeTensorView") { un([](T a, float s, float t) { return make_shared<UnstandardizeTensorView>(a, s, t); }, [](float a, float s, float t) { return a * t + s; }, 1e-4); }
CASE("AbsoluteTensorView") { un([](T a, float, float) { return make_shared<AbsoluteTensorView>(a); }, [](float a, float, float) { return std::fabs(a); }); }
CASE("ExponentialTensorView") { un([](T a, float, float) { return make_shared<ExponentialTensorView>(a); }, [](float a, float, float) { return expf(a); }); }
CASE("Log2TensorView") { un([](T a, float, float) { return make_shared<Log2TensorView>(a); }, [](float a, float, float) { return log2f(a); }); }
CASE("LogTensorView") {
    un([](T a, float, float) { return make_shared<LogTensorView>(a); }, [](float a, float, float) { return logf(a < 1e-8f ? 1e-8f : a > 1.0f ? 1.0f : a); });
}
CASE("SqrtTensorView") { un([](T a, float, float) { return make_shared<SqrtTensorView>(a); }, [](float a, float, float) { return sqrtf(a); }); }
CASE("RoundTensorView") { un([](T a, float, float) { return make_shared<RoundTensorView>(a); }, [](float a, float, float) { return roundf(a); }); }
CASE("TensorNoOpView") { un([](T a, float, float) { return make_shared<TensorNoOpView>(a); }, [](float a, float, float) { return a; }); }
CASE("ValueTransformTensorView") {
    un([](T a, float, float) { return make_shared<ValueTransformTensorView>(a, [](float x) { return x * 3 + 1; }); }, [](float a, float, float) { return a * 3 + 1; });
}
CASE("ValueTransformWithDoubleTensorView") {
    un([](T a, float s, float) { return make_shared<ValueTransformWithDoubleTensorView>(a, [](float x, double d) { return (float) (x * 3 + d); }, s); },
       [](float a, float s, float) { return (float) (a * 3 + (double) s); });
}
CASE("MaskedSelectTensorView") {
    auto m = t1();
    auto a = like(m), b = like(m);
    float s = rng.chance(50) ? m->v[rng.next() % m->v.size()] : fval();
    input(m->show(), a->show(), b->show(), "threshold", s);
    T v = make_shared<MaskedSelectTensorView>(m, a, b, s);
    values(v, m->r, m->c, m->k, [&](size_t i, size_t j, size_t k) { return m->at(i, j, k) > s ? a->at(i, j, k) : b->at(i, j, k); });
}
CASE("UniformTensor") {
    size_t r = soft(1, 4), c = soft(1, 4), k = soft(1, 3);
    float s = fval();
    input(r, c, k, s);
    values(make_shared<UniformTensor>(r, c, k, s), r, c, k, [&](size_t, size_t, size_t) { return s; });
}
CASE("IdentityTensor") {
    size_t r = soft(1, 4), c = soft(1, 4), k = soft(1, 3);
    input(r, c, k);
    values(make_shared<IdentityTensor>(r, c, k), r, c, k, [&](size_t i, size_t j, size_t) { return i == j ? 1.0f : 0.0f; });
}
CASE("TensorFromFunction") {
    size_t r = soft(1, 4), c = soft(1, 4), k = soft(1, 3);
    input(r, c, k);
    auto f = [](size_t i, size_t j, size_t k) { return (float) (i * 100 + j * 10 + k); };
    values(make_shared<TensorFromFunction>(f, r, c, k), r, c, k, f);
}
HV_MAIN
