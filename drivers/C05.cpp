// C05: views that rearrange indices show every element at its place
#include "tensors.hpp"
#include "types/tensor_views/concat_wide_tensor_view.h"
#include "types/tensor_views/column_flatten_tensor_view.hpp"
#include "types/tensor_views/diagonal_tensor_view.hpp"
using namespace hv;

static P t1() {
    auto p = probe(soft(1, 5), soft(1, 5), soft(1, 3));
    float n = 1;
    for (auto &x: p->v) x = n++;     // all elements distinct
    return p;
}

CASE("TransposeTensorView") {
    auto a = t1();
    input(a->show());
    values(make_shared<TransposeTensorView>(a), a->c, a->r, a->k, [&](size_t i, size_t j, size_t k) { return a->at(j, i, k); });
}
CASE("Rotate180TensorView") {
    auto a = t1();
    input(a->show());
    values(make_shared<Rotate180TensorView>(a), a->r, a->c, a->k, [&](size_t i, size_t j, size_t k) { return a->at(a->r - 1 - i, a->c - 1 - j, k); });
}
CASE("RowFlattenTensorView") {
    auto a = t1();
    input(a->show());
    auto v = make_shared<RowFlattenTensorView>(a);
    values(v, 1, a->v.size(), 1, [&](size_t, size_t j, size_t) { return a->v[j]; });
    require(rejects([&]() { v->getValue(1, 0, 0); }), "row 1 of a flattened row was accepted");
    require(rejects([&]() { v->getValue(0, 0, 1); }), "channel 1 of a flattened row was accepted");
}
CASE("ColumnFlattenTensorView") {
    auto a = t1();
    input(a->show());
    auto v = make_shared<ColumnFlattenTensorView>(a);
    values(v, a->v.size(), 1, 1, [&](size_t i, size_t, size_t) { return a->v[i]; });
    require(rejects([&]() { v->getValue(0, 1, 0); }), "column 1 of a flattened column was accepted");
    require(rejects([&]() { v->getValue(0, 0, 1); }), "channel 1 of a flattened column was accepted");
}
CASE("ReshapeTensorView") {
    auto a = t1();
    bool four = rng.chance(50);
    size_t n = a->r * a->c, total = n * a->k, k = a->k;
    if (four && rng.chance(50)) { k = dim(1, total); n = total / k; }
    size_t r = dim(1, n), c = rng.chance(70) ? n / r : dim(1, n);
    bool ok = four ? r * c * k == total : r * c == n;
    input(a->show(), "to", r, c, k, four);
    if (!ok) {
        require(rejects([&]() { if (four) make_shared<ReshapeTensorView>(a, r, c, k); else make_shared<ReshapeTensorView>(a, r, c); }),
                "reshape to another number of elements was accepted");
        return;
    }
    T v = four ? make_shared<ReshapeTensorView>(a, r, c, k) : make_shared<ReshapeTensorView>(a, r, c);
    values(v, r, c, k, [&](size_t i, size_t j, size_t ch) { return a->v[ch * r * c + i * c + j]; });
}
CASE("ChannelToTensorView") {
    auto a = t1();
    size_t o = dim(0, a->k - 1);
    input(a->show(), "channel", o);
    values(make_shared<ChannelToTensorView>(a, o), a->r, a->c, 1, [&](size_t i, size_t j, size_t) { return a->at(i, j, o); });
}
CASE("WindowTensorView") {
    auto a = t1();
    size_t s = dim(0, a->c), e = dim(0, a->c + 1);
    input(a->show(), "window", s, e);
    if (s >= e || e > a->c) {
        require(rejects([&]() { make_shared<WindowTensorView>(a, s, e); }), "impossible window was accepted");
        return;
    }
    values(make_shared<WindowTensorView>(a, s, e), a->r, e - s, a->k, [&](size_t i, size_t j, size_t k) { return a->at(i, j + s, k); });
}
CASE("ZeroPadTensorView") {
    auto a = t1();
    size_t t = dim(0, 3), b = dim(0, 3), l = dim(0, 3), r = dim(0, 3);
    input(a->show(), "pad", t, b, l, r);
    values(make_shared<ZeroPadTensorView>(a, t, b, l, r), a->r + t + b, a->c + l + r, a->k, [&](size_t i, size_t j, size_t k) {
        return i >= t && i < t + a->r && j >= l && j < l + a->c ? a->at(i - t, j - l, k) : 0.0f;
    });
}
CASE("DiagonalTensorView") {
    auto a = t1();
    input(a->show());
    size_t n = a->r * a->c;
    values(make_shared<DiagonalTensorView>(a), n, n, a->k, [&](size_t i, size_t j, size_t k) {
        return i == j && i < a->r && i < a->c ? a->at(i, i, k) : 0.0f;
    });
}
CASE("ConcatWideTensorView") {
    auto a = t1();
    bool bad = rng.chance(20);
    auto b = probe(bad ? a->r + 1 : a->r, soft(1, 4), a->k);
    input(a->show(), b->show());
    if (bad) {
        require(rejects([&]() { make_shared<ConcatWideTensorView>(a, b); }), "tensors with different row counts were concatenated");
        return;
    }
    values(make_shared<ConcatWideTensorView>(a, b), a->r, a->c + b->c, a->k, [&](size_t i, size_t j, size_t k) {
        return j < a->c ? a->at(i, j, k) : b->at(i, j - a->c, k);
    });
}
HV_MAIN
