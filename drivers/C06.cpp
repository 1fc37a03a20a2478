// C06: matrix products, outer/dot products, channel sums, 2d correlation and convolution. Integer-valued operands: sums are exact.
#include "tensors.hpp"
#include "types/tensor_views/dot_product_tensor_view.hpp"
#include "types/tensor_views/outer_product_tensor_view.hpp"
#include "types/tensor_views/softmax_derivative_tensor_view.hpp"
using namespace hv;

CASE("DotProductTensorView") {
    size_t n = dim(1, 6);
    auto a = probe(rng.chance(15) ? 2 : 1, n, rng.chance(10) ? 2 : 1, true), b = probe(rng.chance(15) ? 2 : 1, rng.chance(15) ? n + 1 : n, 1, true);
    input(a->show(), b->show());
    if (a->r != 1 || b->r != 1 || a->k != 1 || b->k != 1 || a->c != b->c) {
        require(rejects([&]() { make_shared<DotProductTensorView>(a, b); }), "dot product of non-vectors or different lengths was accepted");
        return;
    }
    values(make_shared<DotProductTensorView>(a, b), 1, 1, 1, [&](size_t, size_t, size_t) {
        double s = 0;
        for (size_t i = 0; i < n; i++) s += a->at(0, i, 0) * b->at(0, i, 0);
        return s;
    });
}
CASE("MatrixMultiplyTensorView") {
    size_t n = soft(1, 5), k = soft(1, 3);
    auto a = probe(soft(1, 4), n, k, true), b = probe(rng.chance(10) ? n + 1 : n, soft(1, 4), rng.chance(10) ? k + 1 : k, true);
    input(a->show(), b->show());
    if (a->c != b->r || a->k != b->k) {
        require(rejects([&]() { make_shared<MatrixMultiplyTensorView>(a, b); }), "product of incompatible shapes was accepted");
        return;
    }
    values(make_shared<MatrixMultiplyTensorView>(a, b), a->r, b->c, k, [&](size_t i, size_t j, size_t ch) {
        double s = 0;
        for (size_t x = 0; x < n; x++) s += a->at(i, x, ch) * b->at(x, j, ch);
        return s;
    });
}
CASE("OuterProductTensorView") {
    size_t k = soft(1, 3);
    auto a = probe(soft(1, 5), 1, k, true), b = probe(1, soft(1, 5), k, true);
    input(a->show(), b->show());
    values(make_shared<OuterProductTensorView>(a, b), a->r, b->c, k, [&](size_t i, size_t j, size_t ch) { return a->at(i, 0, ch) * b->at(0, j, ch); });
}
CASE("SumToChannelTensorView") {
    auto a = probe(soft(1, 4), soft(1, 4), soft(1, 4), true);
    size_t n = dim(1, 3), o = dim(0, n - 1);
    input(a->show(), "channel", o, "of", n);
    values(make_shared<SumToChannelTensorView>(a, o, n), a->r, a->c, n, [&](size_t i, size_t j, size_t ch) {
        if (ch != o) return 0.0;
        double s = 0;
        for (size_t x = 0; x < a->k; x++) s += a->at(i, j, x);
        return s;
    });
}
CASE("SumChannelsTensorView") {
    auto a = probe(soft(1, 4), soft(1, 4), soft(1, 4), true);
    input(a->show());
    values(make_shared<SumChannelsTensorView>(a), a->r, a->c, 1, [&](size_t i, size_t j, size_t) {
        double s = 0;
        for (size_t x = 0; x < a->k; x++) s += a->at(i, j, x);
        return s;
    });
}
static double corr(const P &a, const P &b, long i, long j, size_t ch, bool flip) {
    double s = 0;
    for (size_t y = 0; y < b->r; y++)
        for (size_t x = 0; x < b->c; x++) {
            long r = i + (long) y, c = j + (long) x;
            if (r < 0 || c < 0 || r >= (long) a->r || c >= (long) a->c) continue;
            s += a->at(r, c, ch) * (flip ? b->at(b->r - 1 - y, b->c - 1 - x, ch) : b->at(y, x, ch));
        }
    return s;
}
CASE("Valid2DCrossCorrelationTensorView") {
    size_t k = soft(1, 3);
    auto a = probe(soft(1, 6), soft(1, 6), k, true);
    auto b = probe(dim(1, a->r), dim(1, a->c), k, true);
    input(a->show(), b->show());
    values(make_shared<Valid2DCrossCorrelationTensorView>(a, b), a->r - b->r + 1, a->c - b->c + 1, k, [&](size_t i, size_t j, size_t ch) { return corr(a, b, i, j, ch, false); });
}
CASE("Full2DCrossCorrelationTensorView") {
    size_t k = soft(1, 3);
    auto a = probe(soft(1, 5), soft(1, 5), k, true), b = probe(soft(1, 5), soft(1, 5), k, true);
    input(a->show(), b->show());
    values(make_shared<Full2DCrossCorrelationTensorView>(a, b), a->r + b->r - 1, a->c + b->c - 1, k, [&](size_t i, size_t j, size_t ch) {
        return corr(a, b, (long) i - (long) (b->r - 1), (long) j - (long) (b->c - 1), ch, false);
    });
}
CASE("Full2DConvolveTensorView") {
    size_t k = soft(1, 3);
    auto a = probe(soft(1, 5), soft(1, 5), k, true), b = probe(soft(1, 5), soft(1, 5), k, true);
    input(a->show(), b->show());
    values(make_shared<Full2DConvolveTensorView>(a, b), a->r + b->r - 1, a->c + b->c - 1, k, [&](size_t i, size_t j, size_t ch) {
        return corr(a, b, (long) i - (long) (b->r - 1), (long) j - (long) (b->c - 1), ch, true);
    });
}
static P wellconditioned(size_t n, size_t k) {
    auto b = make_shared<Probe>(n, n, k);
    for (size_t ch = 0; ch < k; ch++)
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) b->at(i, j, ch) = (float) rng.range(-2, 2) + (i == j ? (rng.chance(50) ? 9.0f : -9.0f) : 0.0f);
    if (n > 1 && rng.chance(50)) // force a pivot exchange
        for (size_t ch = 0; ch < k; ch++) for (size_t j = 0; j < n; j++) std::swap(b->at(0, j, ch), b->at(n - 1, j, ch));
    if (n > 1 && rng.chance(40)) for (size_t ch = 0; ch < k; ch++) b->at(0, 0, ch) = 0;
    return b;
}
CASE("InverseTensorView (bounded: n<=5)") {
    size_t n = dim(1, 5), k = dim(1, 2);
    auto b = wellconditioned(n, k);
    input(b->show());
    shared_ptr<BaseTensor> v;
    try { v = make_shared<InverseTensorView>(b); } catch (const std::runtime_error &) { throw Skip(); }
    shape(v, n, n, k);
    for (size_t ch = 0; ch < k; ch++)
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) {
                double s = 0;
                for (size_t x = 0; x < n; x++) s += (double) b->at(i, x, ch) * v->getValue(x, j, ch);
                require(std::fabs(s - (i == j)) < 0.02, "matrix times its inverse at", i, j, ch, "is", s);
            }
}
CASE("MatrixDivideTensorView") {
    size_t n = dim(1, 4), k = dim(1, 2);
    auto a = probe(n, n, k, true), b = wellconditioned(n, k);
    input(a->show(), b->show());
    shared_ptr<BaseTensor> v;
    try { v = make_shared<MatrixDivideTensorView>(a, b); } catch (const std::runtime_error &) { throw Skip(); }
    shape(v, n, n, k);
    for (size_t ch = 0; ch < k; ch++)
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++) {
                double s = 0;
                for (size_t x = 0; x < n; x++) s += (double) v->getValue(i, x, ch) * b->at(x, j, ch);
                require(std::fabs(s - a->at(i, j, ch)) < 0.02, "quotient times divisor at", i, j, ch, "is", s, "not", a->at(i, j, ch));
            }
}
HV_MAIN
