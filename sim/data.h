// Data sets, plans and the reference model. Independent of the library under test.
#pragma once
#include "rt.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

namespace lp {
using rt::u64; using rt::u32; using rt::Rng;
typedef long double ld;
using std::string; using std::vector;

enum Fam { FO = 0, FH = 1, FD = 2 };

struct Data {
    int id = 0, fam = FO, N = 1;
    int dims[3] = {1, 1, 1};     // attribute extents
    int L = 1, n = 1;            // leaves, ordered extent
    vector<int> par;             // parents (H, D)
    vector<double> v;            // flat, row-major over shape()
    int nd() const { return fam == FD ? N - 2 : N - 1; }
    int vs() const { int r = 1; for (int i = 0; i < nd(); i++) r *= dims[i]; return r; }
    int hs() const { return fam == FO ? 1 : (int)par.size(); }
    vector<int> shape() const { vector<int> s; if (fam != FO) s.push_back(L); for (int i = 0; i < nd(); i++) s.push_back(dims[i]); if (fam != FH) s.push_back(n); return s; }
    double at(const vector<double> &f, int leaf, int k, int o) const { return f[((size_t)leaf * vs() + k) * n + o]; }
    size_t cells() const { return (size_t)L * vs() * n; }
};

// ------------------------------------------------------------------ tree facts
struct Tree {
    int hs, root; vector<vector<int>> ch; vector<int> size; vector<int> post;   // post: children before parents
    vector<vector<int>> leaves;
    explicit Tree(const Data &d) {
        hs = d.hs(); root = 0; ch.resize(hs); size.assign(hs, 0); leaves.resize(hs);
        if (d.fam == FO) { size[0] = 1; leaves[0] = {0}; post = {0}; return; }
        for (int h = 0; h < hs; h++) if (d.par[h] == -1) root = h; else ch[d.par[h]].push_back(h);
        rec(root, d.L);
    }
    void rec(int h, int L) {
        if (h < L) { size[h] = 1; leaves[h] = {h}; }
        for (int c : ch[h]) { rec(c, L); size[h] += size[c]; leaves[h].insert(leaves[h].end(), leaves[c].begin(), leaves[c].end()); }
        post.push_back(h);
    }
};

// ------------------------------------------------------------------ reference quality table (definition, long double)
struct Table {
    bool vague = false;
    int hs = 1, n = 1; vector<ld> g, l, m, tg, tl; int root = 0; bool norm = false;   // m: magnitude of the terms summed; tg, tl: absolute tolerances
    size_t ix(int h, int i, int j) const { return ((size_t)h * n + i) * n + j; }
    ld rg = 1, rl = 1;           // divisors applied last
    ld vg = 0, vl = 0;           // tolerance of the sum over any tiling
    ld xl = 0;                   // bound of the loss of any tiling
};
inline ld xlog2x(ld x) { return x > 0 ? x * log2l(x) : 0; }
inline Table ref_table(const Data &d, const vector<double> &v, const Tree &t) {
    Table r; r.hs = d.hs(); r.n = d.n; r.root = t.root; size_t sz = (size_t)r.hs * r.n * r.n;
    r.g.assign(sz, 0); r.l.assign(sz, 0); r.m.assign(sz, 0);
    int vs = d.vs();
    for (int k = 0; k < vs; k++) for (int h = 0; h < r.hs; h++) {
        vector<ld> S(r.n, 0), E(r.n, 0), A(r.n, 0);
        for (int o = 0; o < r.n; o++) for (int lf : t.leaves[h]) { double x = d.at(v, lf, k, o); S[o] += x; ld e = xlog2x(x); E[o] += e; A[o] += fabsl(e); }
        for (int i = 0; i < r.n; i++) { ld s = 0, e = 0, a = 0; for (int j = i; j < r.n; j++) {
            s += S[j]; e += E[j]; a += A[j]; ld cnt = (ld)(j - i + 1) * t.size[h];
            size_t x = r.ix(h, i, j); ld gain = 0, loss = 0;
            if (cnt > 1) { gain = xlog2x(s) - e; loss = s * log2l(cnt) - gain; }
            r.g[x] += gain; r.l[x] += loss; r.m[x] += fabsl(xlog2x(s)) + a + s * log2l(cnt);
        } }
    }
    return r;
}
const ld EPS = 4e-13L;
inline void ref_tolerances(Table &r) {
    ld M = r.m[r.ix(r.root, 0, r.n - 1)]; r.tg.resize(r.m.size()); for (size_t i = 0; i < r.m.size(); i++) r.tg[i] = EPS * r.m[i];
    r.tl = r.tg; r.vg = r.vl = 2 * EPS * M; r.xl = 0; size_t x = r.ix(r.root, 0, r.n - 1); r.xl = fabsl(r.l[x]);
}
inline void ref_normalize(Table &r) {
    size_t x = r.ix(r.root, 0, r.n - 1); r.norm = true;
    auto col = [&](vector<ld> &v, vector<ld> &t, ld &div, ld &tot) {
        div = v[x] == 0 ? 1 : v[x]; if (div == 1) return;
        ld tr = t[x]; for (size_t i = 0; i < v.size(); i++) { v[i] /= div; t[i] = (t[i] + tr * fabsl(v[i])) / fabsl(div); }
        tot /= fabsl(div);
    };
    // a whole that is zero only because two logarithms cancel may as well come out as rounding noise, and then divides the column
    if (r.vague && r.l[x] == 0) { r.tl.assign(r.tl.size(), 1e3000L); r.vl = r.xl = 1e3000L; }
    col(r.g, r.tg, r.rg, r.vg); col(r.l, r.tl, r.rl, r.vl); r.xl /= fabsl(r.rl);
}
inline void ref_set(Table &r, size_t x, ld g, ld l) { r.g[x] = g; r.l[x] = l; if (x == r.ix(r.root, 0, r.n - 1)) r.vague = false; r.tg[x] = EPS * fabsl(g); r.tl[x] = EPS * fabsl(l); r.vg += r.tg[x]; r.vl += r.tl[x]; r.xl += fabsl(l); }
inline ld gtol(const Table &r, size_t x) { return r.tg[x]; }
inline ld ltol(const Table &r, size_t x) { return r.tl[x]; }

struct Pt { int h, size, s, e; ld g, l; };
struct PInfo { float p = 0; ld g = 0, l = 0; vector<Pt> parts; };
inline bool same_parts(const PInfo &a, const PInfo &b) {
    if (a.parts.size() != b.parts.size()) return false;
    for (size_t i = 0; i < a.parts.size(); i++) { auto &x = a.parts[i], &y = b.parts[i]; if (x.h != y.h || x.size != y.size || x.s != y.s || x.e != y.e) return false; }
    return true;
}
// the same parts, in whatever order they are told
inline bool alike(PInfo a, PInfo b) {
    auto less = [](const Pt &x, const Pt &y) { return x.h != y.h ? x.h < y.h : x.s != y.s ? x.s < y.s : x.e != y.e ? x.e < y.e : x.size < y.size; };
    std::sort(a.parts.begin(), a.parts.end(), less); std::sort(b.parts.begin(), b.parts.end(), less); return same_parts(a, b);
}
// a tiling the caller makes up, as the cut lists the library's partitions are built from, and the parts it means.
// bend 0: as the seed says; otherwise one choice of it is turned round. order: which way a grid is described
struct Tiling { vector<int> o; vector<bool> h; vector<vector<int>> d; PInfo want; };
struct TilingMaker {
    const Data &d; const Tree &t; Tiling r; vector<bool> keep, cut; Rng z; bool grid = true, timefirst;
    TilingMaker(const Data &d, const Tree &t, long seed, long bend, bool tf) : d(d), t(t), z((u64)seed * 2654435761u + 17), timefirst(tf) {
        double a = z.chance(0.3) ? 0.1 : z.chance(0.3) ? 0.8 : 0.45, b = z.chance(0.3) ? 0.9 : z.chance(0.4) ? 0.15 : 0.45;
        if (d.fam == FD) grid = z.chance(0.7);
        keep.resize(t.hs); cut.resize(d.n); vector<int> inner;
        for (int h = 0; h < t.hs; h++) { keep[h] = t.ch[h].empty() || z.chance(a); if (!t.ch[h].empty()) inner.push_back(h); }
        for (int i = 0; i + 1 < d.n; i++) cut[i] = z.chance(b);
        long nk = d.fam == FO ? 0 : (long)inner.size(), nc = d.fam == FH ? 0 : d.n - 1;
        if (bend > 0 && nk + nc > 0) { long x = (bend - 1) % (nk + nc); if (x < nk) keep[inner[x]] = !keep[inner[x]]; else cut[x - nk] = !cut[x - nk]; }
        if (d.fam == FO) { r.o.assign(d.n, d.n - 1); for (int i = 0; i < d.n;) { int e = i; while (e < d.n - 1 && !cut[e]) e++; r.o[i] = e; part(0, i, e); i = e + 1; } }
        else if (d.fam == FH) { r.h = keep; nodes(t.root); }
        else { r.d.assign(t.hs, vector<int>((size_t)d.n * d.n, d.n - 1)); for (auto &m : r.d) for (int i = 0; i < d.n; i++) for (int j = i; j < d.n; j++) m[(size_t)i * d.n + j] = j; cells(t.root, 0, d.n - 1); }
    }
    void part(int h, int s, int e) { Pt q; q.h = h; q.s = s; q.e = e; q.size = d.fam == FO ? e - s + 1 : t.size[h]; q.g = q.l = 0; r.want.parts.push_back(q); }
    void nodes(int h) { if (keep[h]) part(h, 0, 0); else for (int c : t.ch[h]) nodes(c); }
    void cells(int h, int i, int j) {
        int c = -2;                                                  // -2 whole, -1 the children, otherwise where time is cut
        int first = -1; for (int k = i; k < j; k++) if (cut[k]) { first = k; break; }
        if (!grid) { double u = z.unit(); if (u < 0.35 && i < j) c = i + (int)z.below(j - i); else if (u < 0.75 && !t.ch[h].empty()) c = -1; }
        else if (timefirst) { if (first >= 0) c = first; else if (!keep[h]) c = -1; }
        else { if (!keep[h]) c = -1; else if (first >= 0) c = first; }
        r.d[h][(size_t)i * d.n + j] = c == -2 ? j : c;
        if (c == -2) part(h, i, j); else if (c == -1) for (int k : t.ch[h]) cells(k, i, j); else { cells(h, i, c); cells(h, c + 1, j); }
    }
};
inline string show_parts(const Data &d, const PInfo &b) {
    std::ostringstream o; o << "{"; for (size_t i = 0; i < b.parts.size() && i < 24; i++) { auto &x = b.parts[i]; if (i) o << " "; if (d.fam != FO) o << "node" << x.h; if (d.fam != FH) o << "[" << x.s << "," << x.e << "]"; } if (b.parts.size() > 24) o << " ..."; o << "}"; return o.str();
}
template <class F> inline ld best_tiling(const Data &d, const Table &r, const Tree &t, F val) {
    int n = r.n;
    if (d.fam == FO) {                                   // one line: the best tiling of what follows an index
        vector<ld> b(n + 1, 0);
        for (int i = n - 1; i >= 0; i--) { ld m = val(0, i, n - 1); for (int c = i; c < n - 1; c++) { ld s = val(0, i, c) + b[c + 1]; if (s > m) m = s; } b[i] = m; }
        return b[0];
    }
    vector<vector<ld>> opt(r.hs);
    for (int h : t.post) {
        opt[h].assign((size_t)n * n, 0);
        for (int i = n - 1; i >= 0; i--) for (int j = i; j < n; j++) {
            ld b = val(h, i, j);
            if (!t.ch[h].empty()) { ld s = 0; for (int c : t.ch[h]) s += opt[c][(size_t)i * n + j]; if (s > b) b = s; }
            for (int c = i; c < j; c++) { ld s = opt[h][(size_t)i * n + c] + opt[h][(size_t)(c + 1) * n + j]; if (s > b) b = s; }
            opt[h][(size_t)i * n + j] = b;
        }
    }
    return opt[t.root][n - 1];
}
inline ld ref_best(const Data &d, const Table &r, const Tree &t, ld p) {
    ld w = 1 - p; return best_tiling(d, r, t, [&](int h, int i, int j) { size_t x = r.ix(h, i, j); return p * r.g[x] - w * r.l[x]; });
}
// entries a caller invented: the whole says nothing about its tilings, so the bounds on their sums are looked for
inline void ref_bounds(const Data &d, Table &r, const Tree &t) {
    r.xl = best_tiling(d, r, t, [&](int h, int i, int j) { return fabsl(r.l[r.ix(h, i, j)]); });
    r.vg = r.vl = 2 * EPS * best_tiling(d, r, t, [&](int h, int i, int j) { return r.m[r.ix(h, i, j)]; });
}
inline ld val_tol(const Table &r, ld p) {
    ld t = fabsl(p) * r.vg + fabsl(1 - p) * r.vl + (r.norm ? 0 : r.vg);
    // 1-p is evaluated in single precision by the library's interface (parameter is a float)
    // and that difference is exact between 1/2 and 2, and within half a unit in the last place elsewhere
    ld w = fabsl(1 - p), e = p >= 0.5L && p <= 2 ? 0 : p > 0 && p < 0.5L ? 3.1e-8L : 6.2e-8L * (w < 1 ? 1 : w);
    return t + e * r.xl + 1e-30L;
}
inline ld ref_value(const Table &r, const PInfo &b, ld p) { ld v = 0; for (auto &q : b.parts) { size_t x = r.ix(q.h, q.s, q.e); v += p * r.g[x] - (1 - p) * r.l[x]; } return v; }

// tiling: empty string when fine
inline string check_tiling(const Data &d, const Tree &t, const PInfo &b) {
    char m[200]; int n = d.n, L = d.L;
    vector<int> cov((size_t)L * n, 0);
    int prev = -1;
    for (auto &q : b.parts) {
        if (q.h < 0 || q.h >= t.hs || q.s < 0 || q.e >= n || q.s > q.e) { snprintf(m, sizeof m, "part (node %d, [%d,%d]) is outside the data", q.h, q.s, q.e); return m; }
        if (d.fam == FO) { if (q.s != prev + 1) { snprintf(m, sizeof m, "part [%d,%d] does not start right after index %d", q.s, q.e, prev); return m; } prev = q.e; }
        int want = d.fam == FO ? q.e - q.s + 1 : t.size[q.h];
        if (q.size != want) { snprintf(m, sizeof m, "part (node %d, [%d,%d]) reports size %d, it has %d", q.h, q.s, q.e, q.size, want); return m; }
        for (int lf : t.leaves[q.h]) for (int o = q.s; o <= q.e; o++) cov[(size_t)lf * n + o]++;
    }
    for (int lf = 0; lf < L; lf++) for (int o = 0; o < n; o++) if (cov[(size_t)lf * n + o] != 1) { snprintf(m, sizeof m, "cell (leaf %d, index %d) is covered %d times", lf, o, cov[(size_t)lf * n + o]); return m; }
    return "";
}
inline string check_qualities(const Table &r, const PInfo &b) {
    char m[300]; ld sg = 0, sl = 0, tg = 0, tl = 0;
    for (auto &q : b.parts) {
        size_t x = r.ix(q.h, q.s, q.e);
        if (!(fabsl(q.g - r.g[x]) <= gtol(r, x)) || !(fabsl(q.l - r.l[x]) <= ltol(r, x))) { snprintf(m, sizeof m, "part (node %d, [%d,%d]) reports gain %.12Lg loss %.12Lg, the data gives %.12Lg and %.12Lg", q.h, q.s, q.e, q.g, q.l, r.g[x], r.l[x]); return m; }
        sg += r.g[x]; sl += r.l[x]; tg += gtol(r, x); tl += ltol(r, x);
    }
    if (!(fabsl(b.g - sg) <= tg + 1e-15L * fabsl(sg)) || !(fabsl(b.l - sl) <= tl + 1e-15L * fabsl(sl))) { snprintf(m, sizeof m, "partition reports gain %.12Lg loss %.12Lg, its parts sum to %.12Lg and %.12Lg", b.g, b.l, sg, sl); return m; }
    return "";
}
inline string check_optimal(const Data &d, const Tree &t, const Table &r, const PInfo &b, float p, const char *what = "computed") {
    ld v = ref_value(r, b, p), o = ref_best(d, r, t, p), tol = val_tol(r, p);
    if (!(v >= o - tol)) { char m[400]; snprintf(m, sizeof m, "p=%.9g: the %s partition %s has tradeoff %.12Lg, a better one has %.12Lg", p, what, show_parts(d, b).substr(0, 150).c_str(), v, o); return m; }
    return "";
}

// ------------------------------------------------------------------ plans
struct Op { int client = 0, id = 0; string kind; vector<double> a; bool noretry = false, noread = false; };   // noread: nobody looks at the result until a later call does
struct FaultSpec { int op = 0; int kind = 1; bool rel = true; double frac = 0; u64 nth = 1, arg = 1; };
struct Plan {
    string prop; u64 seed = 0; int strategy = 0; u32 mean = 100; int depth = 3;
    u64 hseed[3] = {1, 2, 3}; int fill[3] = {0, 1, 2}, lay[3] = {0, 1, 2};
    vector<Data> data; vector<Op> ops; vector<FaultSpec> faults; vector<rt::SwitchRec> sw;
};
inline string num(double x) { char b[40]; if (x == (long long)x && fabs(x) < 1e15) snprintf(b, sizeof b, "%lld", (long long)x); else snprintf(b, sizeof b, "%a", x); return b; }
static const char *const STN[] = {"seq", "op-robin", "random", "pct", "replay"};
static const char *const FKN[] = {"none", "once", "burst", "sticky", "large", "rate"};
inline string print_plan(const Plan &p) {
    std::ostringstream o;
    o << "prop " << p.prop << "\nseed " << p.seed << "\nstrategy " << STN[p.strategy] << " " << p.mean << " " << p.depth << "\n";
    for (int i = 0; i < 3; i++) o << "world " << i + 1 << " " << p.hseed[i] << " " << p.fill[i] << " " << p.lay[i] << "\n";
    for (auto &d : p.data) {
        o << "data " << d.id << " " << "OHD"[d.fam] << " " << d.N << " dims " << d.dims[0] << " " << d.dims[1] << " " << d.dims[2] << " leaves " << d.L << " n " << d.n << " parents " << d.par.size();
        for (int x : d.par) o << " " << x;
        o << " values " << d.v.size(); for (double x : d.v) o << " " << num(x); o << "\n";
    }
    for (auto &c : p.ops) { o << "op " << c.client << " " << c.id << " " << c.kind << (c.noretry ? " noretry" : " retry") << (c.noread ? " noread" : ""); for (double x : c.a) o << " " << num(x); o << "\n"; }
    for (auto &f : p.faults) { if (f.rel) o << "fault " << f.op << " " << FKN[f.kind] << " at " << num(f.frac) << " " << f.arg << "\n"; else o << "fault " << f.op << " " << FKN[f.kind] << " nth " << f.nth << " " << f.arg << "\n"; }
    for (auto &s : p.sw) o << "switch " << s.client << " " << s.op << " " << s.step << " " << s.target << " " << s.forced << "\n";
    return o.str();
}
inline bool parse_plan(std::istream &in, Plan &p) {
    string line; auto numd = [](std::istream &s) { string w; s >> w; return strtod(w.c_str(), 0); };
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream s(line); string w; s >> w;
        if (w == "prop") s >> p.prop; else if (w == "seed") s >> p.seed;
        else if (w == "strategy") { s >> w >> p.mean >> p.depth; for (int i = 0; i < 5; i++) if (w == STN[i]) p.strategy = i; }
        else if (w == "world") { int i; s >> i; i--; if (i < 0 || i > 2) return false; s >> p.hseed[i] >> p.fill[i] >> p.lay[i]; }
        else if (w == "data") { Data d; string f, x; s >> d.id >> f >> d.N >> x >> d.dims[0] >> d.dims[1] >> d.dims[2] >> x >> d.L >> x >> d.n >> x; d.fam = f == "O" ? FO : f == "H" ? FH : FD; size_t k; s >> k; d.par.resize(k); for (auto &q : d.par) s >> q; s >> x >> k; d.v.resize(k); for (auto &q : d.v) q = numd(s); if (d.v.size() != d.cells()) return false; p.data.push_back(d); }
        else if (w == "op") { Op c; s >> c.client >> c.id >> c.kind >> w; c.noretry = w == "noretry"; while (s >> w) if (w == "noread") c.noread = true; else c.a.push_back(strtod(w.c_str(), 0)); p.ops.push_back(c); }
        else if (w == "fault") { FaultSpec f; s >> f.op >> w; for (int i = 0; i < rt::F_NKINDS; i++) if (w == FKN[i]) f.kind = i; s >> w; f.rel = w == "at"; if (f.rel) f.frac = numd(s); else s >> f.nth; s >> f.arg; p.faults.push_back(f); }
        else if (w == "switch") { rt::SwitchRec r; memset(&r, 0, sizeof r); s >> r.client >> r.op >> r.step >> r.target >> r.forced; p.sw.push_back(r); }
        else if (w == "violation" || w == "hash" || w == "detail") {}
        else return false;
    }
    return true;
}
}
