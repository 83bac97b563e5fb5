// Coverage-guided generation (libFuzzer) of cases for the engine: bytes are decoded into a series with options (or used as a file), the engine
// runs on them, and inputs that reach new code, or whose results differ from a plain evaluation, are handed to the property's own judge.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <string>
#include <vector>
#include <unistd.h>
#include "Correlator.h"
#include "DataStructure.h"

typedef std::vector<double> V;
typedef std::vector<V> VV;

struct In {
    const uint8_t *p; size_t n;
    uint8_t u8() { if (!n) return 0; n--; return *p++; }
    uint16_t u16() { uint16_t v = 0; if (n >= 2) { memcpy(&v, p, 2); p += 2; n -= 2; } else { n = 0; } return v; }
    int16_t i16() { return (int16_t) u16(); }
};

struct Opts { bool has[4]; double v[4]; bool steps; int w, sel; };   // min, max, resolution, alpha

struct Case { V t; VV x, e; std::vector<Opts> o; bool ill; };

static const double UNIT[] = {1, 1, 1, 0.5, 0.25, 0.0009765625, 1024, 3, 1440, 9.5367431640625e-07, 7.450580596923828e-09, 131072, 0.1, 0.02, 1, 1};
static const double START[] = {0, 0, 0, 1, -5, 100, 2454833, -1000000};
static const double SCALE[] = {1, 1, 1, 0.5, 1e-3, 1e-30, 1e6, 1e30};
static const double SHIFT[] = {0, 0, 0, 1, -3, 100, 1e4, -1e6};
static const double FRAC[] = {1, 2, 1, 4, 0.5, 3, 10, 1};
static const double ALPHA[] = {1, 0.5, 2, 0.015625, 64, 3, 1e6, 0.3};

static double noise(uint32_t i, uint32_t s) {
    uint32_t h = i * 2654435761u ^ (s + 1) * 2246822519u;
    h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16;
    return h / 2147483648.0 - 1;
}

static Case decode(const uint8_t *data, size_t size) {
    In in{data, size};
    Case c;
    c.ill = false;
    uint8_t a = in.u8();
    int n = in.u16();
    uint8_t b = in.u8();
    n = std::max(2, n > 3000 ? n % 100 : n);    // mostly short
    double unit = UNIT[b & 15], start = START[(b >> 4) & 7];
    int rows = 1 + (a & 3);
    if (rows == 4 && (b & 128) && n < 200) rows = 4 + in.u8() % 60;
    int L = 1 + in.u8() % 16;
    std::vector<int64_t> gaps(L);
    for (auto &g : gaps) { uint8_t v = in.u8(); g = v < 240 ? 1 + v % 64 : (int64_t) 1 << (v - 240 + 6); }
    int pos = in.u16() % n; uint8_t ex = in.u8();
    int64_t at = 0;
    for (int i = 0; i < n; i++) {
        c.t.push_back(unit * (start + at));
        int64_t g = gaps[i % L];
        if (ex && i == pos) g += (int64_t) 1 << (ex % 24);
        at += g;
    }
    for (int j = 0; j < rows; j++) {
        uint8_t m = in.u8();
        int P = 1 + in.u8() % 8;
        V cyc(P);
        for (auto &v : cyc) v = (int8_t) in.u8();
        double scale = SCALE[m & 7], shift = SHIFT[(m >> 3) & 7] * scale;
        bool noisy = m & 64, constant = (m & 128) && j > 0;
        int spike = in.u16() % n; double height = in.i16();
        uint8_t np = (a & 64) ? in.u8() : 0;
        V r(n), er;
        for (int i = 0; i < n; i++) {
            double v = constant ? cyc[0] : cyc[i % P] + (noisy ? noise(i, m + 31 * j) : 0) + (i == spike ? height : 0);
            r[i] = v * scale + shift;
            if (np && i % (np % 17 + 2) == np / 17 % (np % 17 + 2)) r[i] = std::numeric_limits<double>::quiet_NaN();
        }
        c.x.push_back(r);
        if (a & 32) {
            for (int i = 0; i < n; i++) er.push_back(std::abs(r[(i * 7) % n]) / 8 + (j == 0 && i == spike ? -height : 0));
            c.e.push_back(er);
        }
    }
    double span = c.t.back() - c.t[0], gap = span;
    for (int i = 0; i + 1 < n; i++) gap = std::min(gap, (c.t[i + 1] - c.t[0]) - (c.t[i] - c.t[0]));
    int uses = 1 + (a >> 7) * (1 + in.u8() % 2);
    for (int u = 0; u < uses; u++) {
        Opts o;
        uint8_t f = in.u8(), d = in.u8();
        o.w = (f >> 4) % 3; o.sel = (f >> 6) & 1; o.steps = (f >> 7) || o.w || o.sel;
        double q = gap / FRAC[d & 7];
        for (int i = 0; i < 4; i++) o.has[i] = f >> i & 1;
        o.v[0] = o.has[0] ? in.i16() * (gap / FRAC[(d >> 3) & 7]) : -span;
        o.v[1] = o.has[1] ? ((d & 128) ? span : in.i16() * q) : span;
        o.v[2] = o.has[2] ? (1 + (in.u16() % 2048)) * q : gap;
        o.v[3] = o.has[3] ? ALPHA[in.u8() & 7] * (d & 64 ? gap : span) : 0;
        double most = std::max(4.0, std::min(700.0, 5000.0 / (n * (double) rows)));
        if (!((o.v[1] - o.v[0]) / o.v[2] <= most)) { o.has[1] = true; o.v[1] = o.v[0] + std::floor(most) * o.v[2]; }
        double big = std::max(std::abs(o.v[0]), std::abs(o.v[1]));
        if (!(big + o.v[2] > big)) { o.has[2] = true; o.v[2] = big / 4; }
        c.o.push_back(o);
    }
    return c;
}

// ---- the engine, and a plain evaluation of the same definition

static void apply(Correlator &c, const Opts &o) {
    if (o.has[1]) c.setMaxLag(o.v[1]);
    if (o.has[0]) c.setMinLag(o.v[0]);
    if (o.has[2]) c.setLagResolution(o.v[2]);
    if (o.has[3]) c.setAlpha(o.v[3]);
}

static void compute(Correlator &c, const Opts &o) {
    if (!o.steps) { c.calculateStandardCorrelation(); return; }
    int i = 0;
    bool positive = c.getMinLag() > 0;
    auto one = [&](double k) {
        CorrelationIterator it(k, c.getNDatasets());
        if (o.sel) c.fastSelectionFunctionIdx(&it); else c.naturalSelectionFunctionIdx(&it);
        c.deltaT(&it);
        if (o.w == 0) c.getFractionWeights(&it); else if (o.w == 1) c.getFractionSquaredWeights(&it); else c.getGaussianWeights(&it);
        c.findCorrelation(&it);
        c.addCorrelationData(&it, i++);
    };
    for (double k = c.getMinLag(); k <= c.getMaxLag(); k += c.getLagResolution()) {
        if (k == 0) positive = true;
        if (k > 0 && !positive) { positive = true; one(0); }
        one(k);
    }
    c.cleanCorrelationData(i);
}

static bool same(const V &a, const V &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
}
static bool same(const VV &a, const VV &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
    return true;
}

static bool judged(const Case &c, const Opts &o, const V &lags, const VV &corr, double alpha) {
    size_t n = c.t.size();
    V nt(n);
    for (size_t i = 0; i < n; i++) nt[i] = c.t[i] - c.t[0];
    V want;
    bool positive = o.v[0] > 0;
    for (double k = o.v[0]; k <= o.v[1]; k += o.v[2]) {
        if (k == 0) positive = true;
        if (k > 0 && !positive) { positive = true; want.push_back(0); }
        want.push_back(k);
    }
    if (want.size() != lags.size()) return false;
    for (size_t i = 0; i < lags.size(); i++) if (std::abs(lags[i] - want[i]) > 1e-9 * (std::abs(o.v[0]) + std::abs(o.v[1]))) return false;
    if (corr.size() != c.x.size()) return false;
    VV nx;
    V norm, bad;
    for (auto &r : c.x) {
        long double s = 0, q = 0, mx = 0; size_t m = 0;
        for (double v : r) if (v == v) { s += v; m++; mx = std::max(mx, (long double) std::abs(v)); }
        long double mean = s / m;
        V y(n);
        for (size_t i = 0; i < n; i++) { y[i] = r[i] - mean; if (y[i] == y[i]) q += (long double) y[i] * y[i]; }
        nx.push_back(y);
        norm.push_back(q);
        bad.push_back(mx * mx > 1e8 * q || !(q > 1e-290));
    }
    std::vector<size_t> sel;
    V w;
    for (size_t l = 0; l < lags.size(); l++) {
        sel.clear(); w.clear();
        size_t p = 0;
        for (size_t i = 0; i < n && nt[i] + lags[l] <= nt[n - 1]; i++) {
            double s = nt[i] + lags[l];
            if (o.sel && i > 0) { p = sel.back() + 1; if (p >= n) break; }
            else while (p + 1 < n && std::abs(nt[p + 1] - s) <= std::abs(nt[p] - s)) p++;
            sel.push_back(p);
            double d = std::abs(nt[p] - s) / alpha;
            w.push_back(o.w == 0 ? 1 / (1 + d) : o.w == 1 ? 1 / (1 + d * d) : exp(-d * d / 2));
        }
        for (size_t j = 0; j < c.x.size(); j++) {
            if (corr[j].size() != lags.size()) return false;
            if (bad[j]) continue;
            long double s = 0, a = 0;
            for (size_t i = 0; i < sel.size(); i++) { long double v = (long double) w[i] * nx[j][i] * nx[j][sel[i]]; s += v; a += std::abs(v); }
            double got = corr[j][l];
            if (s != s) { if (got == got) return false; continue; }
            if (!(std::abs(got - s / norm[j]) <= 1e-7 * (double) (a / norm[j]) + 1e-9)) return false;
        }
    }
    return true;
}

static bool fine(const Case &c) {
    V t = c.t;
    VV x = c.x, e = c.e;
    DataStructure *d = c.e.empty() ? new DataStructure(&t, &x) : new DataStructure(&t, &x, &e);
    bool r = same(d->timeseries(), c.t) && same(d->data_2d(), c.x) && same(d->err_2d(), c.e);
    Correlator *k = new Correlator(d);
    for (size_t u = 0; u < c.o.size() && r; u++) {
        Opts o = c.o[u];
        if (u) { for (int i = 0; i < 3; i++) o.has[i] = true; }   // the settings stay otherwise
        apply(*k, o);
        compute(*k, o);
        V lags = k->lag_timeseries();
        VV corr = k->correlations();
        if (u) {
            Correlator f(d);
            f.setAlpha(k->getAlpha());
            apply(f, o);
            compute(f, o);
            r = same(f.lag_timeseries(), lags) && same(f.correlations(), corr);
        }
        r = r && judged(c, o, lags, corr, k->getAlpha());
    }
    r = r && same(d->timeseries(), c.t) && same(d->data_2d(), c.x);
    delete k;
    delete d;
    return r;
}

// ---- output

static void num(double v) { if (v != v) printf("NaN"); else printf("%.17g", v); }
static void arr(const V &v) { printf("["); for (size_t i = 0; i < v.size(); i++) { if (i) printf(","); num(v[i]); } printf("]"); }
static void arr2(const VV &v) { printf("["); for (size_t i = 0; i < v.size(); i++) { if (i) printf(","); arr(v[i]); } printf("]"); }

static void print(const Case &c) {
    static const char *name[] = {"min_lag", "max_lag", "lag_resolution", "alpha"}, *ws[] = {"fractional", "fractional_squared", "gaussian"};
    printf("{\"t\":"); arr(c.t); printf(",\"x\":"); arr2(c.x); printf(",\"e\":"); arr2(c.e); printf(",\"uses\":[");
    for (size_t u = 0; u < c.o.size(); u++) {
        printf(u ? ",{\"opts\":{" : "{\"opts\":{");
        bool first = true;
        for (int i = 0; i < 4; i++) if (c.o[u].has[i]) { printf(first ? "\"%s\":" : ",\"%s\":", name[i]); num(c.o[u].v[i]); first = false; }
        printf("},\"w\":\"%s\",\"sel\":\"%s\",\"steps\":%s}", ws[c.o[u].w], c.o[u].sel ? "fast" : "natural", c.o[u].steps ? "true" : "false");
    }
    printf("]}\n");
}

static std::string file_mode, cand;
static int found;

extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv) {
    if (getenv("GUIDED_FILE")) file_mode = getenv("GUIDED_FILE");
    if (getenv("GUIDED_CAND")) cand = getenv("GUIDED_CAND");
    if (getenv("GUIDED_DECODE")) {
        std::ifstream list(getenv("GUIDED_DECODE"));
        std::string path;
        while (std::getline(list, path)) {
            std::ifstream f(path, std::ios::binary);
            std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            print(decode((const uint8_t *) s.data(), s.size()));
        }
        fflush(stdout);
        _exit(0);
    }
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (!file_mode.empty()) {
        FILE *f = fopen(file_mode.c_str(), "wb");
        if (!f) return 0;
        fwrite(data, 1, size, f);
        fclose(f);
        try { DataStructure d(file_mode); } catch (std::exception &) {}
        return 0;
    }
    bool good;
    try { good = fine(decode(data, size)); } catch (std::exception &) { good = false; }
    if (!good && found < 40 && !cand.empty()) {
        char name[32];
        snprintf(name, sizeof name, "/%d-%04d", (int) getpid(), found++);
        std::ofstream(cand + name, std::ios::binary).write((const char *) data, size);
    }
    return 0;
}
