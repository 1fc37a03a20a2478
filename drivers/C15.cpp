// C15: numbers are normalized by their column's statistics, and restored
#include "ml.hpp"
#include "util/dataset_utils.hpp"
#include "scratch.hpp"
using namespace hv;
typedef shared_ptr<BinaryColumnMetadata> M;
using std::string;

struct Stats {
    long double n = 0, sum = 0, lo = INFINITY, hi = -INFINITY;
    vector<float> all;
    void add(const P &p) { for (float x: p->v) { all.push_back(x); n++; sum += x; lo = std::min<long double>(lo, x); hi = std::max<long double>(hi, x); } }
    long double mean() const { return sum / n; }
    long double var() const { long double m = mean(), s = 0; for (float x: all) s += (x - m) * (x - m); return s / n; }
    double spread() const { return (double) std::max(fabsl(lo), fabsl(hi)); }
};
static P numbers(size_t r, size_t c, size_t k, int kind, double base) {
    auto p = make_shared<Probe>(r, c, k);
    for (auto &x: p->v) {
        switch (kind) {
            case 0: x = ival(); break;
            case 1: x = (float) (rng.unit() * 2 - 1); break;
            case 2: x = (float) (rng.unit() * 2000 - 1000); break;
            case 3: x = (float) base; break;
            case 4: x = (float) (base + rng.range(-3, 3)); break;
            default: x = (float) (base * (rng.unit() - 0.5) * 1e6); break;
        }
    }
    return p;
}
static int kind() { return (int) rng.range(0, 5); }
static double base() { return rng.chance(50) ? (double) rng.range(-1000, 1000) : fval(); }
static double tamed(double b) { return std::isfinite(b) && std::fabs(b) < 1e6 ? b : 7.5; }

CASE("statistics over several tensors") {
    auto v = make_shared<StandardizationAndNormalizationValues>();
    Stats s;
    size_t n = soft(1, 5, 300);
    int k = kind();
    double b = tamed(base());
    input("tensors", n, "kind", k, "base", b);
    for (size_t i = 0; i < n; i++) {
        auto p = numbers(soft(1, 4, 60), soft(1, 4, 60), soft(1, 3, 10), k, b);
        s.add(p);
        T t = p;
        update_standardization_normalization_values_calculation(v, t);
        double tol = 1e-9 * (1 + s.spread());
        require(v->total_elements == (double) s.n, "count is", v->total_elements, "expected", (double) s.n);
        require(std::fabs(v->mean_result - (double) s.mean()) <= tol, "mean is", v->mean_result, "expected", (double) s.mean());
        require(v->min_value == (double) s.lo && v->max_value == (double) s.hi, "range is", v->min_value, v->max_value, "expected", (double) s.lo, (double) s.hi);
        require(std::fabs(v->standard_deviation * v->standard_deviation - (double) s.var()) <= 1e-9 * (1 + s.spread() * s.spread()), "standard deviation is", v->standard_deviation, "expected", (double) sqrtl(s.var()));
    }
}
CASE("statistics of one tensor") {
    int k = kind();
    double b = tamed(base());
    auto p = numbers(soft(1, 6, 100), soft(1, 6, 100), soft(1, 3, 10), k, b);
    input(p->show());
    Stats s;
    s.add(p);
    double sd = (double) sqrtl(s.var()), m = (double) s.mean();
    auto v = make_shared<StandardizeTensorView>(p);
    require(same(v->get_mean(), m, 1e-5, 1e-6 * (1 + s.spread())), "mean is", v->get_mean(), "expected", m);
    if (s.lo == s.hi) {
        require(std::fabs(v->get_std_dev() - 1) < 1e-6 || std::fabs(v->get_std_dev()) < 1e-6 * (1 + s.spread()), "standard deviation of a constant is", v->get_std_dev());
        if (v->get_std_dev() == 1) values(v, p->r, p->c, p->k, [&](size_t, size_t, size_t) { return 0.0; }, 0, 1e-6 * (1 + s.spread()));
    } else if (sd > 1e-4 * s.spread()) {
        require(same(v->get_std_dev(), sd, 1e-4, 1e-7), "standard deviation is", v->get_std_dev(), "expected", sd);
        values(v, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return (p->at(i, j, c) - m) / sd; }, 1e-3, 1e-3);
    }
    auto w = make_shared<NormalizeTensorView>(p);
    double range = (double) (s.hi - s.lo);
    values(w, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return range == 0 ? 0 : (p->at(i, j, c) - (double) s.lo) / range; }, 1e-4, 1e-4);
    float fm, fs, lo, hi;
    vector<T> set = {p};
    size_t more = dim(0, 3);
    for (size_t i = 0; i < more; i++) { auto q = numbers(dim(1, 4), dim(1, 4), dim(1, 2), k, b); s.add(q); set.push_back(q); }
    calcStandardizationValuesForEntireSet(set, fm, fs);
    calcNormalizationValuesForEntireSet(set, lo, hi);
    require(same(fm, (double) s.mean(), 1e-5, 1e-6 * (1 + s.spread())), "mean of the set is", fm, "expected", (double) s.mean());
    require(std::fabs((double) fs * fs - (double) s.var()) <= 1e-4 * (double) s.var() + 1e-7 * (1 + s.spread() * s.spread()), "standard deviation of the set is", fs, "expected", (double) sqrtl(s.var()));
    require(lo == (float) s.lo && hi == (float) s.hi, "range of the set is", lo, hi, "expected", (double) s.lo, (double) s.hi);
}
static M numbersOf() {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = 'N';
    m->is_standardized = rng.chance(50);
    m->is_normalized = rng.chance(60);
    m->mean = (float) rng.range(-50, 50);
    m->standard_deviation = (float) rng.range(1, 80) / 4;
    m->min_value = (float) rng.range(-60, 20);
    m->max_value = m->min_value + (float) (rng.chance(10) ? 0 : rng.range(1, 100));
    return m;
}
static double fwd(double x, const M &m) {
    if (m->is_standardized) x = (x - m->mean) / m->standard_deviation;
    double r = (double) m->max_value - m->min_value;
    if (m->is_normalized) x = (x - m->min_value) / (r == 0 ? 1 : r);
    return x;
}
static double bwd(double x, const M &m) {
    if (m->is_normalized) x = x * ((double) m->max_value - m->min_value) + m->min_value;
    if (m->is_standardized) x = x * m->standard_deviation + m->mean;
    return x;
}
CASE("forth and back") {
    auto m = numbersOf(), to = numbersOf();
    auto p = numbers(soft(1, 4, 50), soft(1, 4, 50), soft(1, 3, 10), (int) rng.range(0, 2), 0);
    input(p->show(), "std", m->is_standardized, m->mean, m->standard_deviation, "norm", m->is_normalized, m->min_value, m->max_value, "to std", to->is_standardized, to->mean, to->standard_deviation, "norm", to->is_normalized, to->min_value, to->max_value);
    T t = p;
    T n = standardize_and_normalize(t, m);
    values(n, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return fwd(p->at(i, j, c), m); }, 1e-4, 1e-3);
    T b = n;
    b = unstandardize_and_denormalize(b, m);
    if (!m->is_normalized || m->min_value != m->max_value)
        values(b, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return p->at(i, j, c); }, 1e-4, 1e-2);
    T u = p;
    u = unstandardize_and_denormalize(u, m);
    values(u, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return bwd(p->at(i, j, c), m); }, 1e-4, 1e-3);
    T o = p;
    auto x = renormalizeAndStandardize(o, m->is_normalized, m->is_standardized, m->min_value, m->max_value, m->mean, m->standard_deviation,
                                       to->is_normalized, to->is_standardized, to->min_value, to->max_value, to->mean, to->standard_deviation);
    values(x, p->r, p->c, p->k, [&](size_t i, size_t j, size_t c) { return fwd(bwd(p->at(i, j, c), m), to); }, 1e-3, 1e-1);
}
CASE("a whole dataset") {
    size_t g = dim(1, 3), e = dim(0, 3), rows = soft(1, 6, 120);
    vector<M> ms;
    vector<int> kinds;
    vector<double> bases;
    std::ostringstream o;
    for (size_t i = 0; i < g + e; i++) {
        auto m = make_shared<BinaryColumnMetadata>();
        m->purpose = "NNNITL"[rng.range(0, 5)];
        m->rows = dim(1, 3);
        m->columns = dim(1, 3);
        m->channels = dim(1, 2);
        m->is_standardized = m->is_normalized = false;
        m->mean = m->standard_deviation = m->min_value = m->max_value = 0;
        m->source_column_count = dim(0, 30);
        for (size_t l = dim(0, 3); l > 0; l--) m->ordered_labels.push_back("label" + std::to_string(rng.range(0, 99)));
        m->name = "column" + std::to_string(i);
        ms.push_back(m);
        kinds.push_back((int) rng.range(0, 4));
        bases.push_back((double) rng.range(-100, 100));
        o << m->purpose << m->rows << "x" << m->columns << "x" << m->channels << "/" << kinds.back() << " ";
    }
    vector<vector<P>> data(rows);
    vector<Stats> stats(g + e);
    for (auto &r: data)
        for (size_t i = 0; i < g + e; i++) {
            auto p = numbers(ms[i]->rows, ms[i]->columns, ms[i]->channels, kinds[i], bases[i]);
            if (ms[i]->purpose == 'I') for (auto &x: p->v) x = (float) rng.range(0, 255) / 255;
            if (ms[i]->purpose == 'L') for (auto &x: p->v) x = (float) rng.range(0, 1);
            stats[i].add(p);
            r.push_back(p);
        }
    input("given", g, "expected", e, "rows", rows, o.str());
    auto raw = scratch_file("raw.bin");
    vector<M> gm(ms.begin(), ms.begin() + g), em(ms.begin() + g, ms.end());
    {
        BinaryDatasetWriter w(raw, gm, em, 0);
        for (auto &r: data) w.writeRow(vector<T>(r.begin(), r.begin() + g), vector<T>(r.begin() + g, r.end()));
    }
    if (rows > 1 && rng.chance(20)) data[1] = data[0], stats = vector<Stats>(g + e);
    if (stats[0].all.empty()) {
        BinaryDatasetWriter w(raw, gm, em, 0);
        for (auto &r: data) { w.writeRow(vector<T>(r.begin(), r.begin() + g), vector<T>(r.begin() + g, r.end())); for (size_t i = 0; i < g + e; i++) stats[i].add(r[i]); }
    }
    normalize_and_standardize_dataset(raw, scratch());
    BinaryDatasetReader r(scratch_file("dataset.bin"));
    require(r.rowCount() == rows, "rows", r.rowCount(), "expected", rows);
    require(r.get_given_column_count() == g && r.get_expected_column_count() == e, "columns", r.get_given_column_count(), r.get_expected_column_count());
    for (size_t i = 0; i < g + e; i++) {
        auto m = i < g ? r.get_given_metadata(i) : r.get_expected_metadata(i - g);
        auto &w = ms[i];
        auto &s = stats[i];
        require(m->purpose == w->purpose && m->rows == w->rows && m->columns == w->columns && m->channels == w->channels && m->name == w->name
                && m->ordered_labels == w->ordered_labels && m->source_column_count == w->source_column_count, "details of column", i, "changed");
        double sd = (double) sqrtl(s.var());
        if (w->purpose == 'N') {
            require(m->is_normalized, "column", i, "is not normalized");
            if (std::fabs(sd - 1) > 1e-6) require(m->is_standardized == (sd > 1), "column", i, "standardized:", m->is_standardized, "with standard deviation", sd);
            require(same(m->mean, (double) s.mean(), 1e-5, 1e-5) && same(m->min_value, (double) s.lo) && same(m->max_value, (double) s.hi) && same(m->standard_deviation, sd, 1e-4, 1e-5), "column", i, "records",
                    m->mean, m->standard_deviation, m->min_value, m->max_value, "expected", (double) s.mean(), sd, (double) s.lo, (double) s.hi);
        } else require(!m->is_normalized && !m->is_standardized, "column", i, "of kind", w->purpose, "is normalized");
        for (size_t k = 0; k < rows; k++) {
            auto x = r.readRow(k);
            T t = i < g ? x.first[i] : x.second[i - g];
            auto &p = data[k][i];
            values(t, p->r, p->c, p->k, [&](size_t a, size_t b, size_t c) { return fwd(p->at(a, b, c), m); }, 1e-4, w->purpose == 'I' ? 1.001 / 255 : 1e-3);
            if (w->purpose == 'N' && s.lo < s.hi) {
                T u = unstandardize_and_denormalize(t, m);
                values(u, p->r, p->c, p->k, [&](size_t a, size_t b, size_t c) { return p->at(a, b, c); }, 1e-3, 1e-3 * (1 + s.spread()));
            }
        }
    }
}
HV_MAIN
