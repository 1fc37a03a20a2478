#pragma once
#include "common.hpp"
#include "util/tensor_utils.hpp"
#include "views.hpp"

namespace hv {
    using namespace happyml;
    using std::make_shared;
    using std::shared_ptr;
    using std::vector;
    typedef shared_ptr<BaseTensor> T;

    // a tensor that checks that it is only read in bounds
    struct Probe : public BaseTensor {
        size_t r, c, k;
        vector<float> v;
        Probe(size_t r_, size_t c_, size_t k_) : r(r_), c(c_), k(k_), v(r_ * c_ * k_) {}
        size_t rowCount() override { return r; }
        size_t columnCount() override { return c; }
        size_t channelCount() override { return k; }
        float &at(size_t i, size_t j, size_t ch) { return v[(ch * r + i) * c + j]; }
        float getValue(size_t i, size_t j, size_t ch) override {
            if (i >= r || j >= c || ch >= k) {
                std::ostringstream o;
                o << "operand of shape " << r << "x" << c << "x" << k << " read at (" << i << "," << j << "," << ch << ")";
                fail(o.str());
            }
            return at(i, j, ch);
        }
        bool readRowsInParallel() override { return false; }
        bool isMaterialized() override { return true; }
        bool contains(const shared_ptr<BaseTensor> &o) override { return o.get() == this; }
        void printMaterializationPlan() override {}
        size_t count_probe() { return r * c * k; }
        std::string show() const {
            std::ostringstream o;
            o.precision(9);
            o << r << "x" << c << "x" << k << "[";
            for (size_t i = 0; i < v.size() && i < 40; i++) o << (i ? "," : "") << v[i];
            o << "]";
            return o.str();
        }
    };
    typedef shared_ptr<Probe> P;

    inline P probe(size_t r, size_t c, size_t k, bool ints = false) {
        auto p = make_shared<Probe>(r, c, k);
        for (auto &x: p->v) x = ints ? ival() : fval();
        return p;
    }

    // all elements of one extreme kind
    inline void regime(const P &p) {
        int64_t m = rng.range(0, 5);
        for (auto &x: p->v) {
            float u = (float) rng.unit();
            switch (m) {
                case 0: x = 2e38f + u * 1.3e38f; break;
                case 1: x = -2e38f - u * 1.3e38f; break;
                case 2: x = INFINITY; break;
                case 3: x = -INFINITY; break;
                case 4: x = 1e-42f * (1 + (int) (u * 9)); break;
                default: x = 1000.0f + (int) (u * 4); break;
            }
        }
    }

    inline std::string show(const T &t) {
        std::ostringstream o;
        o.precision(9);
        o << t->rowCount() << "x" << t->columnCount() << "x" << t->channelCount() << "[";
        int n = 0;
        for (size_t k = 0; k < t->channelCount(); k++)
            for (size_t i = 0; i < t->rowCount(); i++)
                for (size_t j = 0; j < t->columnCount(); j++) if (n++ < 40) o << (n > 1 ? "," : "") << t->getValue(i, j, k);
        o << "]";
        return o.str();
    }

    inline void shape(const T &v, size_t r, size_t c, size_t k) {
        require(v->rowCount() == r && v->columnCount() == c && v->channelCount() == k, "shape is", v->rowCount(), v->columnCount(), v->channelCount(),
                "expected", r, c, k);
        auto s = v->getShape();
        require(s.size() == 3 && s[0] == r && s[1] == c && s[2] == k, "getShape() disagrees");
        require(v->size() == (unsigned long) (r * c * k), "size() is", v->size());
    }

    // every element against a spec function
    template<class F>
    void values(const T &v, size_t r, size_t c, size_t k, F f, double rel = 4e-6, double abs_ = 1e-9) {
        shape(v, r, c, k);
        for (size_t ch = 0; ch < k; ch++)
            for (size_t i = 0; i < r; i++)
                for (size_t j = 0; j < c; j++) {
                    float got = v->getValue(i, j, ch);
                    double want = f(i, j, ch);
                    require(same(got, want, rel, abs_), "element (", i, j, ch, ") is", got, "expected", want);
                }
    }
}
