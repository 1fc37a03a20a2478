// Executes contracts on the real code. Inputs: solver models first (HV_HINTS), then generated ones from the seed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <limits>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include <algorithm>

namespace hv {
    struct Stop : std::exception {
    };
    struct Skip : std::exception {
    };

    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        // inclusive
        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) (next() % (uint64_t) (hi - lo + 1)); }
        bool chance(int pct) { return (int) (next() % 100) < pct; }
        double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
        template<class T>
        const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    };

    inline Rng rng(1);
    inline std::vector<int64_t> hint_ints;
    inline std::vector<double> hint_floats;
    // literals of the sources under test
    inline std::vector<int64_t> dict_ints;
    inline std::vector<double> dict_floats;
    inline std::vector<std::string> dict_strings;
    inline int big_left = 0;
    inline std::string unit_name, desc;
    inline long evaluations = 0, unit_fails = 0, fails = 0;
    inline std::unordered_set<size_t> distinct;
    inline std::vector<std::string> samples;
    inline int cur_fd = -1;
    inline std::streambuf *real_cout = nullptr;
    inline bool quiet = false;
    inline std::function<void()> at_end;

    inline void write_current() {
        if (cur_fd < 0) return;
        std::string t = unit_name + " | " + desc + "\n";
        if (t.size() > 4000) t = t.substr(0, 4000) + "\n";
        if (ftruncate(cur_fd, 0) == 0) { (void) !pwrite(cur_fd, t.data(), t.size(), 0); }
    }

    inline std::string clean(std::string s) {
        for (auto &c: s) if (c == '\n' || c == '\r' || (unsigned char) c < 32) c = '~';
        return s;
    }

    // describes the input about to be used
    template<class... A>
    void input(const A &...a) {
        std::ostringstream o;
        o.precision(9);
        ((o << a << ' '), ...);
        desc = clean(o.str());
        write_current();
    }

    inline void fail(const std::string &what) {
        fails++;
        unit_fails++;
        printf("FAIL %s | %s | input: %s\n", unit_name.c_str(), clean(what).substr(0, 500).c_str(), desc.substr(0, 1500).c_str());
        fflush(stdout);
        throw Stop();
    }

    template<class... A>
    void require(bool ok, const A &...a) {
        if (ok) return;
        std::ostringstream o;
        o.precision(9);
        ((o << a << ' '), ...);
        fail(o.str());
    }

    inline bool same(double a, double b, double rel = 4e-6, double abs_ = 1e-9) {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        if (a == b) return true;
        if (std::isinf(a) || std::isinf(b)) return false;
        return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
    }

    inline size_t dim(size_t lo, size_t hi) {
        if (!hint_ints.empty() && rng.chance(25)) {
            auto h = rng.pick(hint_ints);
            if (h >= (int64_t) lo && h <= (int64_t) hi) return (size_t) h;
        }
        return (size_t) rng.range((int64_t) lo, (int64_t) hi);
    }

    // a size with a soft upper limit: now and then one much larger, or one around a literal of the sources
    inline size_t soft(size_t lo, size_t hi, size_t cap = 2000) {
        if (big_left > 0 && rng.chance(40)) {
            big_left--;
            if (!hint_ints.empty() && rng.chance(30)) {
                auto h = rng.pick(hint_ints);
                if (h > (int64_t) hi && h <= (int64_t) cap) return (size_t) h;
            }
            if (!dict_ints.empty() && rng.chance(30)) {
                auto h = rng.pick(dict_ints) + rng.range(-1, 1);
                if (h > (int64_t) hi && h <= (int64_t) cap) return (size_t) h;
            }
            return (size_t) rng.range((int64_t) hi + 1, (int64_t) std::min<size_t>(cap, rng.chance(60) ? hi + 20 : 150));
        }
        return dim(lo, hi);
    }

    // small integers: sums and products of them are exact in any order
    inline float ival() { return (float) rng.range(-6, 6); }

    inline float fval() {
        if (!hint_floats.empty() && rng.chance(10)) return (float) rng.pick(hint_floats);
        if (rng.chance(3)) {
            if (!dict_floats.empty() && rng.chance(50)) return (float) (rng.pick(dict_floats) * (rng.chance(30) ? -1 : 1));
            if (!dict_ints.empty()) {
                auto v = rng.pick(dict_ints);
                if (v > -100000 && v < 100000) return (float) v;
            }
        }
        switch (rng.range(0, 9)) {
            case 0: return 0.0f;
            case 1: return (float) rng.range(-3, 3);
            case 2: return (float) ((rng.unit() - 0.5) * 1e-6);
            case 3: return (float) ((rng.unit() - 0.5) * 2000);
            case 4: return (float) rng.unit();
            default: return (float) ((rng.unit() - 0.5) * 8);
        }
    }

    struct Case {
        const char *name;
        std::function<void()> fn;
        int weight;
        long n = 0, bad = 0;
        bool once = false;
    };
    inline std::vector<Case> cases;
    struct Reg {
        Reg(const char *n, std::function<void()> f, int w = 1, bool once = false) { cases.push_back({n, std::move(f), w, 0, 0, once}); }
    };

#define HV_CAT2(a, b) a##b
#define HV_CAT(a, b) HV_CAT2(a, b)
#define CASE_IMPL(name, id, once) static void HV_CAT(hv_case_, id)(); static hv::Reg HV_CAT(hv_reg_, id)(name, HV_CAT(hv_case_, id), 1, once); static void HV_CAT(hv_case_, id)()
#define CASE(name) CASE_IMPL(name, __COUNTER__, false)
#define CASE_ONCE(name) CASE_IMPL(name, __COUNTER__, true)

    inline void on_alarm(int) {
        const char *m = "FAIL ";
        (void) !write(1, m, 5);
        (void) !write(1, unit_name.data(), unit_name.size());
        const char *n = " | does not terminate within the case limit | input: ";
        (void) !write(1, n, strlen(n));
        (void) !write(1, desc.data(), std::min<size_t>(desc.size(), 1500));
        (void) !write(1, "\n", 1);
        _exit(1);
    }

    inline unsigned case_limit = 25;

    // is `f()` rejected with an exception?
    template<class F>
    bool rejects(F f) {
        try { f(); } catch (const Stop &) { throw; } catch (const std::exception &) { return true; } catch (...) { return true; }
        return false;
    }

    struct NullBuf : std::streambuf {
        int overflow(int c) override { return c; }
    };
    inline NullBuf nullbuf;

    inline int main_(int argc, char **argv) {
        uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
        double budget = argc > 2 ? atof(argv[2]) : 10;
        const char *only = argc > 3 ? argv[3] : nullptr;
        rng = Rng(seed);
        if (auto p = getenv("HV_CURRENT")) cur_fd = open(p, O_CREAT | O_RDWR | O_TRUNC, 0644);
        if (auto p = getenv("HV_HINTS")) {
            std::ifstream f(p);
            std::string l;
            std::set<int64_t> is;
            std::set<double> fs;
            while (std::getline(f, l)) {
                std::istringstream ss(l);
                std::string w;
                while (ss >> w) {
                    auto e = w.find('=');
                    if (e == std::string::npos) continue;
                    std::string v = w.substr(e + 1);
                    char *end = nullptr;
                    long long i = strtoll(v.c_str(), &end, 10);
                    if (end && *end == 0 && !v.empty()) {
                        for (int d = -1; d <= 1; d++) is.insert(i + d);
                        continue;
                    }
                    double d = strtod(v.c_str(), &end);
                    if (end && *end == 0 && !v.empty()) fs.insert(d);
                }
            }
            hint_ints.assign(is.begin(), is.end());
            hint_floats.assign(fs.begin(), fs.end());
        }
        if (auto p = getenv("HV_DICT")) {
            std::ifstream f(p);
            std::string l;
            while (std::getline(f, l)) {
                if (l.size() < 2) continue;
                if (l[0] == 'i') dict_ints.push_back(strtoll(l.c_str() + 1, nullptr, 10));
                if (l[0] == 'f') dict_floats.push_back(strtod(l.c_str() + 1, nullptr));
                if (l[0] == 's') dict_strings.push_back(l.substr(1));
            }
        }
        std::cout.rdbuf(&nullbuf);
        std::cerr.rdbuf(&nullbuf);
        signal(SIGALRM, on_alarm);
        auto t0 = std::chrono::steady_clock::now();
        auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
        bool more = true;
        long round = 0;
        while (more && (el() < budget || round == 0)) {
            more = false;
            for (auto &c: cases) {
                if (only && !strstr(c.name, only)) continue;
                if (c.once && c.n) continue;
                if (c.bad >= 3) continue;
                more = true;
                if (round > 0 && el() > budget) break;
                unit_name = c.name;
                int reps = c.once || round == 0 ? 1 : 8;
                for (int i = 0; i < reps; i++) {
                    desc.clear();
                    big_left = rng.chance(5) ? 1 : 0;
                    alarm(case_limit);
                    try {
                        c.fn();
                        c.n++;
                        evaluations++;
                    } catch (const Skip &) {
                    } catch (const Stop &) {
                        c.bad++;
                        c.n++;
                        break;
                    } catch (const std::exception &e) {
                        c.bad++;
                        c.n++;
                        fails++;
                        printf("FAIL %s | unexpected exception: %s | input: %s\n", c.name, clean(e.what()).c_str(), desc.substr(0, 1500).c_str());
                        break;
                    } catch (...) {
                        c.bad++;
                        c.n++;
                        fails++;
                        printf("FAIL %s | unexpected exception | input: %s\n", c.name, desc.substr(0, 1500).c_str());
                        break;
                    }
                    alarm(0);
                    if (!desc.empty()) {
                        distinct.insert(std::hash<std::string>{}(unit_name + desc));
                        if (samples.size() < 6 && round == 0 && (samples.empty() || rng.chance(20))) samples.push_back(unit_name + ": " + desc.substr(0, 200));
                    }
                }
                alarm(0);
            }
            round++;
        }
        printf("CASES %ld %zu\n", evaluations, distinct.size());
        for (auto &c: cases) printf("UNIT %ld %s\n", c.n, c.name);
        for (auto &s: samples) printf("SAMPLE %s\n", s.c_str());
        fflush(stdout);
        if (at_end) at_end();
        _exit(fails ? 1 : 0);
    }
}
#define HV_MAIN int main(int argc, char **argv) { return hv::main_(argc, argv); }
