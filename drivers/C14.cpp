// C14: binary datasets give back the columns and rows that were written
#include "ml.hpp"
#include "scratch.hpp"
using namespace hv;
typedef shared_ptr<BinaryColumnMetadata> M;
using std::string;

static string text() {
    string s;
    size_t n = rng.chance(10) ? (size_t) rng.range(0, 300) : (size_t) rng.range(0, 12);
    for (size_t i = 0; i < n; i++) s += (char) (rng.chance(70) ? rng.range(32, 126) : rng.range(0, 255));
    return s;
}
static M column() {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = "ITNL"[rng.range(0, 3)];
    m->is_standardized = rng.chance(50);
    m->mean = fval();
    m->standard_deviation = fval();
    m->is_normalized = rng.chance(50);
    m->min_value = fval();
    m->max_value = fval();
    m->source_column_count = rng.chance(80) ? (uint64_t) rng.range(0, 20) : rng.next();
    m->rows = soft(1, 4, 300);
    m->columns = soft(1, 4, 300);
    m->channels = soft(1, 3, 20);
    size_t n = rng.chance(40) ? 0 : soft(0, 6, 300);
    for (size_t i = 0; i < n; i++) m->ordered_labels.push_back(text());
    m->name = text();
    return m;
}
static bool eqf(float a, float b) { return memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b)); }
static void details(const M &g, const M &w, const string &which) {
    require(g->purpose == w->purpose, which, "purpose is", g->purpose, "expected", w->purpose);
    require(g->is_standardized == w->is_standardized && g->is_normalized == w->is_normalized, which, "flags differ");
    require(eqf(g->mean, w->mean), which, "mean is", g->mean, "expected", w->mean);
    require(eqf(g->standard_deviation, w->standard_deviation), which, "standard deviation is", g->standard_deviation, "expected", w->standard_deviation);
    require(eqf(g->min_value, w->min_value), which, "minimum is", g->min_value, "expected", w->min_value);
    require(eqf(g->max_value, w->max_value), which, "maximum is", g->max_value, "expected", w->max_value);
    require(g->source_column_count == w->source_column_count, which, "source columns", g->source_column_count, "expected", w->source_column_count);
    require(g->rows == w->rows && g->columns == w->columns && g->channels == w->channels, which, "shape is", g->rows, g->columns, g->channels, "expected", w->rows, w->columns, w->channels);
    require(g->ordered_labels.size() == w->ordered_labels.size(), which, "has", g->ordered_labels.size(), "labels, expected", w->ordered_labels.size());
    for (size_t i = 0; i < w->ordered_labels.size(); i++)
        require(g->ordered_labels[i] == w->ordered_labels[i], which, "label", i, "is", g->ordered_labels[i], "expected", w->ordered_labels[i]);
    require(g->name == w->name, which, "name is", g->name, "expected", w->name);
}
static vector<M> columns(size_t lo, size_t hi) {
    vector<M> v;
    for (size_t n = soft(lo, hi, 20); n > 0; n--) v.push_back(column());
    return v;
}
static P cell(const M &m) {
    auto p = probe(m->rows, m->columns, m->channels);
    for (auto &x: p->v) {
        if (m->purpose == 'I') x = (float) rng.range(0, 255) / 255.0f;
        else if (m->purpose == 'L') x = (float) rng.range(0, 1);
        else if (rng.chance(30)) x = (float) (rng.unit() * 2000 - 1000);
    }
    return p;
}
typedef vector<vector<P>> Rows;
static vector<T> tensors(const vector<P> &v) { return vector<T>(v.begin(), v.end()); }
static Rows rows(const vector<M> &ms, size_t n) {
    Rows r(n);
    for (auto &x: r) for (auto &m: ms) x.push_back(cell(m));
    return r;
}
static void equal(const T &got, const P &want, const M &m, const string &which) {
    shape(got, m->rows, m->columns, m->channels);
    for (size_t k = 0; k < m->channels; k++)
        for (size_t i = 0; i < m->rows; i++)
            for (size_t j = 0; j < m->columns; j++) {
                float x = got->getValue(i, j, k), y = want->at(i, j, k);
                if (m->purpose == 'I') require(std::fabs(x - y) <= 1.0001f / 255, which, "element (", i, j, k, ") is", x, "expected", y);
                else require(x == y || eqf(x, y), which, "element (", i, j, k, ") is", x, "expected", y);
            }
}
static string show(const vector<M> &ms) {
    std::ostringstream o;
    for (auto &m: ms) o << m->purpose << m->rows << "x" << m->columns << "x" << m->channels << "/" << m->ordered_labels.size() << " ";
    return o.str();
}
struct Data {
    string path;
    vector<M> given, expected;
    Rows g, e;
    size_t n;
};
static Data dataset(size_t cache) {
    Data d;
    d.path = scratch_file("d.bin");
    d.given = columns(1, 3);
    d.expected = columns(0, 2);
    d.n = soft(0, 6, 100);
    d.g = rows(d.given, d.n);
    d.e = rows(d.expected, d.n);
    if (cache)
        for (size_t i = 0; i < d.n; i++) {
            d.g[i][0] = probe(d.given[0]->rows, d.given[0]->columns, d.given[0]->channels);
            for (auto &x: d.g[i][0]->v) x = d.given[0]->purpose == 'I' ? 1.0f : 0.0f;
            if (d.given[0]->purpose == 'I') d.g[i][0]->v[0] = (float) i / 255;
            else if (d.given[0]->purpose == 'L') { d.g[i].back()->v[0] = 0; }
            else d.g[i][0]->v[0] = (float) i + 0.5f;
        }
    input("given", show(d.given), "expected", show(d.expected), "rows", d.n, "cache", cache);
    return d;
}
static void check(Data &d, const vector<size_t> &kept) {
    BinaryDatasetReader r(d.path);
    require(r.is_open(), "not open");
    require(r.get_given_column_count() == d.given.size() && r.get_expected_column_count() == d.expected.size(), "columns", r.get_given_column_count(), r.get_expected_column_count());
    for (size_t i = 0; i < d.given.size(); i++) {
        auto s = "given column " + std::to_string(i);
        details(r.get_given_metadata(i), d.given[i], s);
        details(r.get_given_metadata()[i], d.given[i], s);
        auto x = r.getGivenTensorDims(i);
        require(x == vector<size_t>({d.given[i]->rows, d.given[i]->columns, d.given[i]->channels}), s, "dims");
        require(r.getGivenTensorPurpose(i) == d.given[i]->purpose && r.getGivenTensorOrderedLabels(i) == d.given[i]->ordered_labels && r.get_given_name(i) == d.given[i]->name && r.get_given_names()[i] == d.given[i]->name, s, "getters");
    }
    for (size_t i = 0; i < d.expected.size(); i++) {
        auto s = "expected column " + std::to_string(i);
        details(r.get_expected_metadata(i), d.expected[i], s);
        details(r.get_expected_metadata()[i], d.expected[i], s);
        auto x = r.getExpectedTensorDims(i);
        require(x == vector<size_t>({d.expected[i]->rows, d.expected[i]->columns, d.expected[i]->channels}), s, "dims");
        require(r.getExpectedTensorPurpose(i) == d.expected[i]->purpose && r.getExpectedTensorOrderedLabels(i) == d.expected[i]->ordered_labels && r.get_expected_name(i) == d.expected[i]->name && r.get_expected_names()[i] == d.expected[i]->name, s, "getters");
        require(r.is_standardized(i) == d.expected[i]->is_standardized && r.is_normalized(i) == d.expected[i]->is_normalized, s, "flags");
    }
    require(r.rowCount() == kept.size(), "rows", r.rowCount(), "expected", kept.size());
    for (size_t t = 0; t < kept.size() + 2 && !kept.empty(); t++) {
        size_t i = t < kept.size() ? t : (size_t) rng.range(0, kept.size() - 1);
        auto x = r.readRow(i);
        require(x.first.size() == d.given.size() && x.second.size() == d.expected.size(), "row", i, "has", x.first.size(), x.second.size(), "tensors");
        for (size_t j = 0; j < d.given.size(); j++) equal(x.first[j], d.g[kept[i]][j], d.given[j], "row " + std::to_string(i) + " given " + std::to_string(j));
        for (size_t j = 0; j < d.expected.size(); j++) equal(x.second[j], d.e[kept[i]][j], d.expected[j], "row " + std::to_string(i) + " expected " + std::to_string(j));
    }
    require(rejects([&] { r.readRow(kept.size()); }), "a row beyond the last was read");
    require(rejects([&] { r.getGivenTensorDims(d.given.size()); }), "a column beyond the last has dims");
    require(rejects([&] { r.get_expected_metadata(d.expected.size()); }), "a column beyond the last has details");
    r.close();
    require(!r.is_open(), "open after close");
}
CASE("write and read") {
    auto d = dataset(0);
    vector<size_t> kept;
    {
        BinaryDatasetWriter w(d.path, d.given, d.expected, 0);
        require(w.is_open(), "not open");
        for (size_t i = 0; i < d.n; i++) {
            if (rng.chance(20) && i) { d.g[i] = d.g[i - 1]; }
            require(d.expected.empty() && rng.chance(50) ? w.writeRow(tensors(d.g[i])) : w.writeRow(tensors(d.g[i]), tensors(d.e[i])), "row", i, "was not written");
            kept.push_back(i);
        }
        if (rng.chance(50)) w.close();
    }
    check(d, kept);
}
CASE("repeated rows are skipped") {
    auto d = dataset(1000);
    vector<size_t> kept;
    {
        BinaryDatasetWriter w(d.path, d.given, d.expected, 1000);
        for (size_t i = 0; i < d.n; i++) {
            if (rng.chance(40) && i) d.g[i] = d.g[(size_t) rng.range(0, i - 1)];
            bool seen = false;
            for (size_t j = 0; j < i; j++) {
                bool same = true;
                for (size_t c = 0; c < d.given.size(); c++) same = same && d.g[i][c]->v == d.g[j][c]->v;
                seen = seen || same;
            }
            bool ok = w.writeRow(tensors(d.g[i]), tensors(d.e[i]));
            // values that print alike up to 15 digits count as repeated
            bool tiny = false;
            for (auto &c: d.g[i]) for (float x: c->v) tiny = tiny || (x != 0 && std::fabs(x) < 1e-6f) || (x == 0 && std::signbit(x));
            if (tiny) throw Skip();
            require(ok == !seen, "row", i, seen ? "is repeated but was written" : "is new but was skipped");
            if (ok) kept.push_back(i);
        }
    }
    check(d, kept);
}
static double renorm(double x, const M &a, const M &b) {
    if (a->is_normalized) x = x * ((double) a->max_value - a->min_value) + a->min_value;
    if (a->is_standardized) x = x * a->standard_deviation + a->mean;
    if (b->is_standardized) x = (x - b->mean) / b->standard_deviation;
    if (b->is_normalized) x = (x - b->min_value) / ((double) b->max_value - b->min_value);
    return x;
}
static void tame(const M &m) {
    m->mean = (float) rng.range(-5, 5);
    m->standard_deviation = (float) rng.range(1, 4);
    m->min_value = (float) rng.range(-9, 0);
    m->max_value = (float) rng.range(1, 9);
    if (m->purpose == 'I' || m->purpose == 'L') m->purpose = 'N';
}
CASE("renormalized rows") {
    Data d;
    d.path = scratch_file("d.bin");
    d.given = columns(1, 3);
    d.expected = columns(1, 3);
    for (auto &m: d.given) tame(m);
    for (auto &m: d.expected) tame(m);
    d.n = dim(1, 3);
    d.g = rows(d.given, d.n);
    d.e = rows(d.expected, d.n);
    for (auto &r: d.g) for (auto &p: r) for (auto &x: p->v) x = ival();
    for (auto &r: d.e) for (auto &p: r) for (auto &x: p->v) x = ival();
    vector<M> rg, re;
    for (auto &m: d.given) { rg.push_back(column()); tame(rg.back()); }
    for (auto &m: d.expected) { re.push_back(column()); tame(re.back()); }
    bool g = rng.chance(80), e = rng.chance(80);
    input("given", show(d.given), "expected", show(d.expected), "rows", d.n, "renormalized", g, e);
    {
        BinaryDatasetWriter w(d.path, d.given, d.expected, 0);
        for (size_t i = 0; i < d.n; i++) w.writeRow(tensors(d.g[i]), tensors(d.e[i]));
    }
    BinaryDatasetReader r(d.path, g ? rg : vector<M>(), e ? re : vector<M>());
    for (size_t i = 0; i < d.n; i++) {
        auto x = r.readRow(i);
        for (size_t j = 0; j < d.given.size(); j++)
            values(x.first[j], d.given[j]->rows, d.given[j]->columns, d.given[j]->channels, [&](size_t a, size_t b, size_t c) {
                double v = d.g[i][j]->at(a, b, c);
                return g ? renorm(v, d.given[j], rg[j]) : v;
            }, 1e-4, 1e-3);
        for (size_t j = 0; j < d.expected.size(); j++)
            values(x.second[j], d.expected[j]->rows, d.expected[j]->columns, d.expected[j]->channels, [&](size_t a, size_t b, size_t c) {
                double v = d.e[i][j]->at(a, b, c);
                return e ? renorm(v, d.expected[j], re[j]) : v;
            }, 1e-4, 1e-3);
    }
    rg.push_back(column());
    require(rejects([&] { BinaryDatasetReader bad(d.path, rg, {}); }), "details of another number of given columns accepted");
    re.push_back(column());
    require(rejects([&] { BinaryDatasetReader bad(d.path, {}, re); }), "details of another number of expected columns accepted");
}
CASE("a dataset without given columns") {
    auto p = scratch_file("e.bin");
    input("no given columns");
    require(rejects([&] { BinaryDatasetWriter w(p, {}, {}, 0); }), "accepted");
    require(rejects([&] { BinaryDatasetReader r(scratch_file("missing.bin")); }), "a missing file was accepted");
}
HV_MAIN
