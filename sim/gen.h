// Seeded scenario generator: one integer decides data, history, faults and schedule.
#pragma once
#include "data.h"
#include <set>
namespace lp {
using namespace rt;

inline double fl(double x) { return (double)(float)x; }
struct Gen {
    Rng r; Plan p; int nextop = 1, nextslot = 0; int tier;
    Gen(const string &prop, u64 seed, int tier) : r(mix(seed, 0xC0FFEE)), tier(tier) { p.prop = prop; p.seed = seed; }
    bool is(const char *c) const { return p.prop == c; }
    // ---------------------------------------------------------------- data
    void tree(Data &d, int L) {
        d.L = L; d.par.assign(L, -1);
        if (L == 1 && r.chance(0.25)) return;                       // a single node: root and leaf at once
        vector<int> open; for (int i = 0; i < L; i++) open.push_back(i);
        int style = (int)r.below(6);
        auto add = [&](vector<int> kids) { int id = (int)d.par.size(); d.par.push_back(-1); for (int k : kids) d.par[k] = id; return id; };
        if (style == 0) { int x = add(open); open = {x}; }          // flat
        else if (style == 1) {                                       // caterpillar: very uneven depth
            for (int i = L - 1; i > 0; i--) std::swap(open[i], open[r.below(i + 1)]);
            int x = open[0]; for (int i = 1; i < L; i++) x = add({x, open[i]}); open = {x};
        } else if (style == 2) {                                     // balanced levels of equal arity
            int ar = (int)r.range(2, 4);
            while (open.size() > 1) { vector<int> nx; for (size_t i = 0; i < open.size(); i += ar) { vector<int> k(open.begin() + i, open.begin() + std::min(open.size(), i + ar)); nx.push_back(add(k)); } open = nx; }
        } else {                                                     // random agglomeration
            while (open.size() > 1) { int k = (int)std::min<size_t>(open.size(), r.range(2, style == 3 ? 2 : 4)); vector<int> kids; for (int i = 0; i < k; i++) { size_t j = r.below(open.size()); kids.push_back(open[j]); open.erase(open.begin() + j); } if (r.chance(0.5)) std::sort(kids.begin(), kids.end()); open.push_back(add(kids)); }
        }
        int top = open[0]; if (top < L && L == 1) top = add({top});
        if (r.chance(0.3)) {                                         // chains with one child
            int c = (int)r.range(1, 3);
            for (int i = 0; i < c; i++) { int at = (int)r.below(d.par.size()); int id = (int)d.par.size(); d.par.push_back(d.par[at]); d.par[at] = id; }
        }
        int hs = (int)d.par.size(); vector<int> perm(hs); for (int i = 0; i < hs; i++) perm[i] = i;
        if (r.chance(0.7)) for (int i = hs - 1; i > L; i--) std::swap(perm[i], perm[L + r.below(i - L + 1)]);
        vector<int> q(hs); for (int i = 0; i < hs; i++) q[perm[i]] = d.par[i] < 0 ? -1 : perm[d.par[i]]; d.par = q;
    }
    void values(Data &d) {
        size_t n = d.cells(); d.v.assign(n, 0); int st = (int)r.below(13); int vs = d.vs();
        double scale = 1; if (r.chance(0.14)) { static const double sc[8] = {1e9, 1e-7, 1e9, 1e-7, 1e15, 1e-30, 1e200, 1e-290}; scale = sc[r.below(8)]; }
        vector<double> as(vs, 1); if (vs > 1 && r.chance(0.25)) for (auto &x : as) x = pow(10, r.range(-3, 3));
        int period = (int)r.range(1, 4);
        double lev = r.range(1, 50);
        for (size_t i = 0; i < n; i++) {
            double x = 0; int k = (int)((i / d.n) % vs);
            switch (st) {
            case 0: x = r.unit() * 100; break;
            case 1: x = r.range(0, 5); break;
            case 2: x = r.chance(0.3) ? r.range(1, 9) : 0; break;
            case 3: x = ldexp(1, (int)r.range(-4, 8)); break;
            case 4: if ((int)r.below(period + 3) == 0) lev = r.range(0, 40); x = lev; break;
            case 5: if ((int)r.below(period + 3) == 0) lev = r.range(1, 40); x = lev * (1 + 0.02 * r.unit()); break;
            case 6: x = r.unit(); break;
            case 7: x = i % (period + 1) ? 1 : 20; break;
            case 8: x = exp(r.unit() * 14 - 4); break;
            case 9: x = 10 + r.range(0, 1); break;
            case 10: x = ((i / d.n) / vs) % 2 ? r.range(0, 3) : r.range(20, 25); break;   // leaf contrast
            case 11: x = (double)(i % d.n) * (1 + k); break;
            case 12: x = r.chance(0.5) ? 0 : 3; break;
            }
            d.v[i] = x * scale * as[k];
        }
        if (r.chance(0.07)) { int z = (int)r.below(4); if (z == 0) std::fill(d.v.begin(), d.v.end(), 0); else if (z == 1) std::fill(d.v.begin(), d.v.end(), 1); else if (z == 2) { std::fill(d.v.begin(), d.v.end(), 0); d.v[r.below(n)] = r.range(1, 9); } else std::fill(d.v.begin(), d.v.end(), 2); }
        // data below zero: nothing is claimed about its qualities, but it is kept, summed, copied and computed with like any other
        if ((is("C06") || is("C07") || is("C08") || is("C09") || is("C10") || is("C13") || is("C14")) && r.chance(0.08)) { double part = r.chance(0.3) ? 1 : r.unit(); for (auto &x : d.v) if (r.chance(part)) x = -x; }
    }
    // size: 0 tiny .. 3 large, 4 huge, 5 giant
    int data(int fam, int size) {
        Data d; d.id = (int)p.data.size(); d.fam = fam;
        d.N = (int)(is("C16") ? 3 : fam == FD ? r.range(2, 4) : r.range(1, 4));
        int nd = d.nd(); int mxa = size == 5 ? 1 : size >= 2 ? 2 : 3; for (int i = 0; i < nd; i++) d.dims[i] = (int)r.range(1, mxa);
        if (size <= 1 && nd && r.chance(0.05)) d.dims[r.below(nd)] = 5;
        if (size <= 1 && nd && r.chance(0.04)) { int cap = size ? 40 : 80; for (int i = 0; i < nd; i++) { int left = cap; for (int k = 0; k < nd; k++) if (k != i) left /= d.dims[k]; d.dims[i] = (int)r.range(1, std::max(1, std::min(left, 20))); } }   // many attributes
        if (size <= 1 && nd && (is("C04") || is("C09") || is("C14")) && r.chance(0.004)) { for (int i = 0; i < nd; i++) d.dims[i] = 1; d.dims[r.below(nd)] = (int)r.range(100, 700); if (nd > 1 && r.chance(0.5)) { for (auto &x : d.dims) if (x > 1) x = (int)r.range(20, 40); for (int i = 0; i < nd; i++) if (d.dims[i] == 1) d.dims[i] = (int)r.range(4, 20); while (d.vs() > 1500) for (int i = 0; i < nd; i++) d.dims[i] = std::max(1, d.dims[i] / 2); } }
        static const int on[6] = {5, 12, 30, 90, 420, 1150}, hl[6] = {4, 9, 20, 48, 300, 1150}, dl[6] = {3, 5, 8, 12, 20, 28}, dn[6] = {3, 5, 8, 12, 22, 30};
        int lo = size == 5 ? 3 : 1;
        if (fam == FO) d.n = (int)r.range(size == 5 ? 360 : 1, on[size]); else if (fam == FH) tree(d, (int)r.range(size == 5 ? 300 : 1, hl[size]));
        else {
            int sk = (int)r.below(6);                                // long and narrow, wide and short, or balanced
            if (sk == 0) { static const int nl[6] = {1, 2, 2, 3, 4, 4}, nn[6] = {7, 14, 26, 36, 50, 64}; d.n = (int)r.range(lo, nn[size]); tree(d, (int)r.range(1, nl[size])); }
            else if (sk == 1) { static const int wl[6] = {9, 16, 30, 60, 130, 300}, wn[6] = {1, 2, 2, 3, 4, 5}; d.n = (int)r.range(1, wn[size]); tree(d, (int)r.range(lo, wl[size])); }
            else { d.n = (int)r.range(lo, dn[size]); tree(d, (int)r.range(lo, dl[size])); }
        }
        values(d); p.data.push_back(d); return d.id;
    }
    int twin(int id) { Data d = p.data[id]; d.id = (int)p.data.size(); values(d); p.data.push_back(d); return d.id; }   // same shape, other values
    // nearly the same: a hierarchy with a few nodes hung elsewhere or numbered otherwise, or a few values exchanged
    int cousin(int id) {
        Data d = p.data[id]; d.id = (int)p.data.size(); int L = d.L, hs = (int)d.par.size(); bool shape = d.fam != FO && hs > L + 1 && r.chance(0.75);
        auto above = [&](int a, int x) { for (int guard = 0; x >= 0 && guard <= hs; x = d.par[x], guard++) if (x == a) return true; return false; };
        for (int k = (int)r.range(1, 3); shape && k > 0; k--) {
            int z = (int)r.below(3), a, b;
            if (z == 0) { bool lf = r.chance(0.6); a = (int)r.below(lf ? L : hs); b = (int)r.below(lf ? L : hs); if (!above(a, b) && !above(b, a)) std::swap(d.par[a], d.par[b]); }
            else if (z == 1) { a = (int)r.below(hs); b = (int)r.range(L, hs - 1); if (d.par[a] >= 0 && !above(a, b) && std::count(d.par.begin(), d.par.end(), d.par[a]) > 1) d.par[a] = b; }
            else { a = (int)r.range(L, hs - 1); b = (int)r.range(L, hs - 1); for (int &x : d.par) x = x == a ? b : x == b ? a : x; std::swap(d.par[a], d.par[b]); }
        }
        if (!shape || r.chance(0.2)) for (int k = (int)r.range(1, 2); k > 0; k--) { size_t a = r.below(d.v.size()), b = r.below(d.v.size()); if (r.chance(0.7)) std::swap(d.v[a], d.v[b]); else d.v[a] = d.v[b]; }
        else if (r.chance(0.4)) values(d);
        p.data.push_back(d); return d.id;
    }
    int fam() { return (int)r.below(3); }
    int pick_size() { double u = r.unit(); if (is("C12") || is("C05") || is("C11")) return u < 0.45 ? 0 : u < 0.93 ? 1 : u < 0.991 ? 2 : u < 0.999 ? 3 : 4; if (is("C06") || is("C13") || is("C08") || is("C10")) return u < 0.5 ? 0 : u < 0.95 ? 1 : u < 0.993 ? 2 : u < 0.9993 ? 3 : 4; if (is("C07")) return u < 0.55 ? 0 : u < 0.995 ? 1 : 2; return u < 0.4 ? 0 : u < 0.8 ? 1 : u < 0.965 ? 2 : u < 0.997 ? 3 : 4; }

    // ---------------------------------------------------------------- ops
    struct H { int slot, data; bool swept; };
    struct Pool { vector<H> v, q, p, b, a; };
    Pool shared, own[10];
    int nclients = 1; double pf = 0.2; double pno = 0.0; bool tset = false, mut = false, biglist = false, xl = false, big = false;
    std::map<int, vector<double>> now;     // what a values object holds in generation order (schedules may differ)
    int slot() { return nextslot < NSL ? nextslot++ : -1; }
    static const int NSL = 418;
    Op &emit(int c, const string &k, vector<double> a) {
        Op o; o.client = c; o.id = nextop++; o.kind = k; o.a = a; o.noretry = r.chance(pno);
        bool lazy = k == "newv" || k == "compq" || k == "best" || k == "agg" || k == "newp" || (k == "sweep" && (is("C06") || is("C07") || is("C08") || is("C10") || is("C13")));
        if (lazy) o.noread = r.chance(is("C07") ? (c == 0 ? 0.55 : 0.15) : is("C09") || is("C14") ? 0.3 : 0.15);
        p.ops.push_back(o);
        if (r.chance(pf)) {
            int n = r.chance(0.2) ? (int)r.range(2, 3) : 1;
            for (int i = 0; i < n; i++) {
                FaultSpec f; f.op = o.id; f.rel = true; double u = r.unit(); f.kind = u < 0.55 ? F_ONCE : u < 0.7 ? F_STICKY : u < 0.8 ? F_BURST : u < 0.9 ? F_LARGE : F_RATE;
                double w = r.unit(); f.frac = w < 0.15 ? 0 : w < 0.3 ? 0.999 : r.unit(); f.arg = f.kind == F_BURST ? r.range(2, 5) : r.next() % 100000;
                p.faults.push_back(f);
            }
        }
        return p.ops.back();
    }
    template <class T> const T &any(const vector<T> &a) { return a[r.below(a.size())]; }
    vector<H> both(int c, vector<H> Pool::*m) { vector<H> x = shared.*m; x.insert(x.end(), (own[c].*m).begin(), (own[c].*m).end()); return x; }
    float param() {
        double u = r.unit(); if (u < 0.08) return 0; if (u < 0.16) return 1; if (u < 0.3) return (float)(r.range(0, 10) / 10.0f); if (u < 0.4) return (float)(r.range(0, 64) / 64.0); if (u < 0.46) return (float)exp2(-(double)r.range(1, 30)); if (u < 0.5) return 1 - (float)exp2(-(double)r.range(1, 20)); return (float)r.unit();
    }
    double est_cost(const Data &d) {   // steps of one search, roughly
        if (d.fam == FO) return 70.0 * d.n * d.n + 500; if (d.fam == FH) { double h = d.par.size(); return 400.0 * h + 12 * h * h + 500; }
        double c = (double)d.L * d.n; return 120.0 * d.par.size() * d.n * d.n * (d.n / 3.0 + 2) + 15 * c * c * std::min(c, 40.0) + 500;
    }
    void op_newv(int c, int dt) { int s = slot(); if (s < 0) return; emit(c, "newv", {(double)s, (double)dt, (double)r.below(3)}); (c ? own[c] : shared).v.push_back({s, dt, false}); }
    void op_newq(int c, H v) { int s = slot(); if (s < 0) return; emit(c, "newq", {(double)s, (double)v.slot}); emit(c, "compq", {(double)s}); (c ? own[c] : shared).q.push_back({s, v.data, false}); }
    void op_newqx(int c, int dt) { int s = slot(); if (s < 0) return; bool any = !is("C07") && !is("C09") && !is("C14") && r.chance(is("C04") || is("C06") || is("C08") || is("C10") || is("C13") ? 0.4 : 0.3); emit(c, "newqx", {(double)s, (double)dt, any ? (double)r.range(1, 1000000) : 0}); (c ? own[c] : shared).q.push_back({s, dt, false}); }
    void op_newp(int c, H q) { int s = slot(); if (s < 0) return; emit(c, r.chance(0.5) ? "newp" : "newpt", {(double)s, (double)q.slot}); (c ? own[c] : shared).p.push_back({s, q.data, false}); }
    void op_best(int c, H q) { int s = slot(); if (s < 0) return; emit(c, "best", {(double)s, (double)q.slot, fl(is("C09") && r.chance(0.7) ? pow(r.unit(), 1.7) : big && r.chance(0.5) ? 0.6 * pow(r.unit(), 2.5) : param())}); (c ? own[c] : shared).b.push_back({s, q.data, false}); }
    void op_pick(int c, H q) { int s = slot(); if (s < 0) return; emit(c, "pick", {(double)s, (double)q.slot, (double)r.below(12)}); (c ? own[c] : shared).b.push_back({s, q.data, false}); }
    vector<long> tilings;                                            // seeds used so far: the same tiling again, elsewhere, or almost
    void op_newb(int c, H q) {
        int s = slot(); if (s < 0) return; long sd = !tilings.empty() && r.chance(0.75) ? any(tilings) : (long)r.range(1, 1000000); tilings.push_back(sd); int n = p.data[q.data].n + p.data[q.data].L;
        emit(c, "newb", {(double)s, (double)q.slot, (double)sd, r.chance(0.5) ? 0 : (double)r.range(1, 2 * n), (double)r.below(2), fl(param())}); auto &O = (c ? own[c] : shared).b; O.push_back({s, q.data, false}); H h = O.back();
        if (is("C18") && r.chance(0.5)) { vector<H> B = both(c, &Pool::b), z; for (auto &y : B) if (p.data[y.data].fam == p.data[h.data].fam && p.data[y.data].n == p.data[h.data].n && p.data[y.data].par == p.data[h.data].par && y.slot != h.slot) z.push_back(y); if (!z.empty()) emit(c, "eqb", {(double)any(z).slot, (double)h.slot}); }
    }
    void op_eqb(int c) {
        vector<H> B = both(c, &Pool::b); if (B.empty()) return; H x = any(B); vector<H> z; for (auto &y : B) if (p.data[y.data].fam == p.data[x.data].fam && p.data[y.data].n == p.data[x.data].n && p.data[y.data].par == p.data[x.data].par) z.push_back(y);
        emit(c, "eqb", {(double)x.slot, (double)any(z).slot});
    }
    void op_agg(int c, H b, H v) { int s = slot(); if (s < 0) return; emit(c, "agg", {(double)s, (double)b.slot, (double)v.slot}); (c ? own[c] : shared).a.push_back({s, v.data, false}); }
    void op_sweep(int c, H &q) {
        const Data &d = p.data[q.data]; double cost = est_cost(d); double budget = biglist ? 4e7 : tier ? 3e6 : 1.2e6;
        double mx = budget / cost; float thr; double u = r.unit();
        double cells = (double)d.L * d.n; double zero_need = cells * 45;
        if (biglist) u = 1; if (u < 0.16 && zero_need < mx * 1.5) thr = r.chance(0.5) ? 0 : -(float)r.unit();
        else if (u < 0.26 && zero_need < mx * 1.5) thr = (float)exp2(-(double)r.range(18, 60));
        else if (u < 0.32) thr = (float)(1 + 3 * r.unit());
        else { double lo = std::max(1.0 / std::max(mx, 2.0), 1e-4); thr = biglist ? (float)(0.0004 * pow(20, r.unit())) : (float)(lo * pow(0.6 / lo, r.unit())); }
        float a = 0, b = 1; bool df = r.chance(biglist ? 0.85 : 0.4);
        if (!df) { double w = r.unit(); if (w < 0.2) { a = b = param(); } else if (w < 0.85) { a = param(); b = param(); if (a > b) std::swap(a, b); } else if (w < 0.9 && !is("C01") && !is("C02") && !is("C03")) { a = (float)r.range(-3, 0) - (float)r.unit(); b = (float)r.range(1, 9) * (float)r.unit(); if (a > b) std::swap(a, b); } }
        emit(c, "sweep", {(double)q.slot, (double)thr, (double)a, (double)b, (double)df}); q.swept = true;
    }
    void op_setv(int c, H v) {
        const Data &d = p.data[v.data]; double x;
        if (d.cells() > 1 && r.chance(0.2)) {                        // exchange two cells, or move an amount from one to the other: sums stay as they were
            int a = (int)r.below(d.cells()), b = (int)r.below(d.cells()); if (a == b) b = (b + 1) % d.cells(); auto &cu = now[v.slot]; if (cu.empty()) cu = d.v;
            double m = r.chance(0.6) ? cu[a] - cu[b] : floor(cu[a] * r.unit()); double na = cu[a] - m, nb = cu[b] + m; if (na >= 0 && nb >= 0) { emit(c, "setv", {(double)v.slot, (double)a, na}); emit(c, "setv", {(double)v.slot, (double)b, nb}); cu[a] = na; cu[b] = nb; return; }
        } double u = r.unit(); if (u < 0.15) x = 0; else if (u < 0.5) x = d.v[r.below(d.v.size())]; else if (u < 0.8) x = r.range(0, 30); else x = r.unit() * 50; if ((is("C09") || is("C14")) && r.chance(0.1)) x = -x; { int ix = (int)r.below(d.cells()); auto &cu = now[v.slot]; if (cu.empty()) cu = d.v; cu[ix] = x; emit(c, "setv", {(double)v.slot, (double)ix, x}); }
    }

    // weights of a client step, per property
    struct W { double newv, newq, newqx, newp, best, sweep, agg, read, setv, comp, norm, copy, drop, query, own; };
    W weights() {
        W w = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
        if (is("C01") || is("C02") || is("C03")) { w.best = 10; w.sweep = 1.2; w.newp = 1.5; w.newqx = 0.5; w.newq = 0.7; w.newv = 0.5; w.read = 1.5; w.norm = 0.7; w.drop = 0.5; }
        else if (is("C04")) { w.newv = 1.5; w.newq = 3; w.newqx = 1.5; w.read = 3; w.setv = mut ? 3 : 0; w.comp = 4; w.norm = 4; w.copy = 1.5; w.drop = 0.5; }
        else if (is("C05")) { w.sweep = 8; w.newp = 3; w.newqx = 1; w.norm = 0.6; w.newq = 0.6; w.newv = 0.4; w.copy = 1; w.read = 1; w.best = 1; }
        else if (is("C09")) { w.newv = 1; w.newqx = 1.5; w.newp = 1.5; w.best = 6; w.agg = 9; w.read = 1.5; w.setv = mut ? 1.5 : 0; w.drop = 0.5; w.newq = 0.5; w.norm = 0.4; }
        else if (is("C10")) { w.newv = 0.8; w.newq = 1.5; w.newqx = 0.5; w.newp = 2; w.best = 4; w.sweep = 5; w.agg = 1.5; w.read = 4; w.setv = 5; w.comp = 4; w.norm = 2.5; w.copy = 2; w.drop = 1; w.query = 2; }
        else if (is("C11")) { w.sweep = 6; w.query = 8; w.newp = 2; w.newqx = 1; w.norm = 0.5; w.newq = 0.5; w.newv = 0.3; w.copy = 1.2; w.best = 0.5; }
        else if (is("C12")) { w.sweep = 9; w.newp = 3; w.newqx = 1; w.norm = 0.6; w.newq = 0.6; w.newv = 0.4; w.copy = 0.5; }
        else if (is("C18")) { w.newv = 0.5; w.newq = 0.7; w.newqx = 1; w.newp = 1.5; w.best = 8; w.sweep = 1.5; w.read = 0.5; w.norm = 0.7; w.copy = 2; w.drop = 0.5; w.setv = mut ? 0.5 : 0; w.comp = 0.5; }
        else if (is("C14")) { w.newv = 5; w.setv = 8; w.read = 8; w.copy = 2; w.newq = 2; w.newp = 0.7; w.best = 1; w.drop = 1; }
        else { w.newv = 2; w.newq = 2; w.newqx = 1; w.newp = 2; w.best = 3; w.sweep = 2.5; w.agg = 3; w.read = 3; w.setv = mut ? 2 : 0; w.comp = 2; w.norm = 1; w.copy = 1.5; w.drop = 1; w.query = 1.5; }
        // swarm: leave some kinds out entirely in some runs
        double *f = &w.newv; for (int i = 0; i < 14; i++) if (r.chance(0.12) && f[i] < 5) f[i] = 0;
        return w;
    }
    void pool_filter(int c, const string &kind, vector<H> &x) { (void)c; (void)kind; (void)x; }
    void step(int c, const W &w) {
        { double e = is("C18") ? 0.4 : is("C06") || is("C07") || is("C08") || is("C10") || is("C13") ? 0.03 : 0, b = is("C18") ? 0.2 : is("C09") ? 0.08 : e, u = r.unit();
          if (u < e) { op_eqb(c); return; } if (u < e + b) { vector<H> Q = both(c, &Pool::q); if (!Q.empty()) op_newb(c, any(Q)); return; } }
        const double *f = &w.newv; double tot = 0; for (int i = 0; i < 14; i++) tot += f[i]; double u = r.unit() * tot; int k = 0; for (; k < 13; k++) { if (u < f[k]) break; u -= f[k]; }
        vector<H> V = both(c, &Pool::v), Q = both(c, &Pool::q), P = both(c, &Pool::p), B = both(c, &Pool::b), AA = both(c, &Pool::a);
        // objects a client may change: its own, or shared ones when the scenario allows it
        vector<H> mV = mut ? V : own[c].v, mQ = mut ? Q : own[c].q;
        switch (k) {
        case 0: op_newv(c, (int)any(p.data).id); break;
        case 1: if (!V.empty()) op_newq(c, any(V)); break;
        case 2: op_newqx(c, (int)any(p.data).id); break;
        case 3: if (!Q.empty()) op_newp(c, any(Q)); break;
        case 4: if (!P.empty()) { H q = any(P); if (q.swept && r.chance(0.4)) op_pick(c, q); else op_best(c, q); } break;
        case 5: { auto &po = own[c].p; if (mut && !shared.p.empty() && (po.empty() || r.chance(0.5))) op_sweep(c, shared.p[r.below(shared.p.size())]); else if (!po.empty()) op_sweep(c, po[r.below(po.size())]); else if (!Q.empty()) { op_newp(c, any(Q)); if (!own[c].p.empty()) op_sweep(c, own[c].p.back()); } break; }
        case 6: if (!B.empty() && !V.empty()) { H b = any(B); vector<H> c2; for (auto &v : V) if (p.data[v.data].fam == p.data[b.data].fam && p.data[v.data].n == p.data[b.data].n && p.data[v.data].par == p.data[b.data].par) c2.push_back(v); if (!c2.empty()) op_agg(c, b, any(c2)); } break;
        case 7: { int z = (int)r.below(5); for (int t = 0; t < 5; t++, z = (z + 1) % 5) { if (z == 0 && !V.empty()) { emit(c, "getv", {(double)any(V).slot}); break; } if (z == 1 && !Q.empty()) { emit(c, "getq", {(double)any(Q).slot}); break; } if (z == 2 && !P.empty()) { emit(c, "read", {(double)any(P).slot}); break; } if (z == 3 && !B.empty()) { emit(c, "rdb", {(double)any(B).slot}); break; } if (z == 4 && !AA.empty()) { emit(c, "rda", {(double)any(AA).slot}); break; } } break; }
        case 8: if (!mV.empty()) { H v = any(mV); int n = (int)r.range(1, 3); for (int i = 0; i < n; i++) op_setv(c, v); } break;
        case 9: if (!mQ.empty()) emit(c, "compq", {(double)any(mQ).slot}); break;
        case 10: if (!mQ.empty()) { H q = any(mQ); if (tset && r.chance(0.4)) emit(c, "setq", {(double)q.slot, (double)r.range(1, 1000000000)}); else emit(c, "normq", {(double)q.slot}); } break;
        case 11: {
            if (mut && r.chance(0.2)) {                              // assignment to an existing object; the compiler writes it, so it is left alone by faults
                auto same = [&](vector<H> &a) { if (a.empty()) return; H x = any(a); vector<H> z; for (auto &y : a) if (p.data[y.data].fam == p.data[x.data].fam) z.push_back(y); H y = any(z); double f = pf; pf = 0; emit(c, "asg", {(double)x.slot, (double)y.slot}); pf = f; };
                int z = (int)r.below(5); same(z == 0 ? V : z == 1 ? mQ : z == 2 ? P : z == 3 ? B : AA); break;
            }
            int s = slot(); if (s < 0) break;
            if (r.chance(0.25)) { if (!B.empty() && r.chance(0.6)) { H b = any(B); emit(c, "cpb", {(double)s, (double)b.slot}); own[c].b.push_back({s, b.data, false}); } else if (!AA.empty()) { H a = any(AA); emit(c, "cpa", {(double)s, (double)a.slot}); own[c].a.push_back({s, a.data, false}); } break; }
            int z = (int)r.below(4); if (z == 0 && !V.empty()) { H v = any(V); emit(c, "cpv", {(double)s, (double)v.slot}); if (now.count(v.slot)) now[s] = now[v.slot]; own[c].v.push_back({s, v.data, false}); } else if (z == 1 && !(is("C07") ? Q : mQ).empty()) { H q = any(is("C07") ? Q : mQ); emit(c, "cpq", {(double)s, (double)q.slot}); if (mut || std::any_of(own[c].q.begin(), own[c].q.end(), [&](const H &h) { return h.slot == q.slot; })) own[c].q.push_back({s, q.data, false}); else { emit(c, "getq", {(double)s}); int s2 = slot(); if (s2 >= 0) { emit(c, "newp", {(double)s2, (double)s}); own[c].p.push_back({s2, q.data, false}); } } } else if (z == 2 && !mQ.empty()) { H q = any(mQ); emit(c, "newqt", {(double)s, (double)q.slot}); own[c].q.push_back({s, q.data, false}); } else if (!P.empty()) { H q = any(P); emit(c, "cpp", {(double)s, (double)q.slot}); own[c].p.push_back({s, q.data, q.swept}); } break; }
        case 12: { vector<H> *l[5] = {&own[c].v, &own[c].q, &own[c].p, &own[c].b, &own[c].a}; auto &x = *l[r.below(5)]; if (x.size() > 1) { size_t i = r.below(x.size()); emit(c, "drop", {(double)x[i].slot}); x.erase(x.begin() + i); } break; }
        case 13: if (!P.empty()) emit(c, "query", {(double)any(P).slot}); break;
        }
    }
    // sessions of the R front end: one caller, a few data sets, calls of all three functions
    Plan front() {
        nclients = 1; pf = r.chance(0.7) ? 0.25 : 0; pno = 0.4; p.strategy = ST_SEQ;
        int nd = (int)r.range(1, 4); for (int i = 0; i < nd; i++) { double u = r.unit(); if (i && r.chance(0.2)) twin(0); else if (i && p.data[0].cells() <= 400 && r.chance(0.2)) cousin(0); else { int f = fam(); data(f, u < 0.5 ? 0 : u < 0.92 ? 1 : u < 0.99 ? 2 : u < 0.9985 || f == FD || p.data.size() ? 3 : 4); } }
        int len = (int)r.range(1, 6); if (tier) len += (int)r.below(4);
        for (int i = 0; i < len; i++) {
            const Data &d = any(p.data); double mx = (tier ? 3e6 : 1.2e6) / est_cost(d), cells = (double)d.L * d.n; float thr; double u = r.unit();
            if (u < 0.1 && cells * 45 < mx * 1.5) thr = r.chance(0.5) ? 0 : -(float)r.unit(); else if (u < 0.2 && cells * 45 < mx * 1.5) thr = (float)exp2(-(double)r.range(12, 40)); else if (u < 0.3) thr = (float)(1 + r.unit());
            else { double lo = std::max(1.0 / std::max(mx, 2.0), 1e-4); thr = u < 0.5 && mx > 1000 ? 0.001f : (float)(lo * pow(0.6 / lo, r.unit())); }
            emit(1, "rcall", {(double)d.id, (double)thr, (double)r.below(4)});
        }
        return p;
    }
    // C19: registers of triangular tables; client 0's are read by all, everyone else's are its own
    Plan triangles() {
        nclients = r.chance(0.6) ? 1 : (int)r.range(2, r.chance(0.1) ? MAXT : 4); pf = r.chance(0.6) ? 0.2 : 0; pno = 0.5; p.data.clear();
        struct R { int slot, ty, n; }; vector<R> reg[MAXT + 1]; bool large = nclients == 1 && r.chance(0.012); int mxn = large ? 40 : r.chance(0.12) ? 33 : r.chance(0.5) ? 5 : 10; double few = r.unit();
        auto val = [&]() -> double { double u = r.unit(); return few < 0.3 ? (double)r.range(0, 2) : u < 0.1 ? 0 : u < 0.5 ? (double)r.range(-9, 99) : u < 0.8 ? r.unit() * 100 : exp2((r.unit() - 0.5) * 60); };
        auto mk = [&](int c) { int s = slot(); if (s < 0) return; int ty = (int)r.below(5), n = (int)r.range(1, mxn); if (large && r.chance(0.4)) { n = (int)r.range(120, ty < 3 ? 640 : 300); large = false; } bool given = r.chance(0.3); emit(c, "mnew", {(double)s, (double)ty, (double)n, (double)given, val()}); reg[c].push_back({s, ty, n}); };
        auto pickr = [&](int c, int ty, bool mine) -> R { vector<R> x; for (auto &e : reg[c]) if (ty < 0 || e.ty == ty) x.push_back(e); if (!mine && c) for (auto &e : reg[0]) if (ty < 0 || e.ty == ty) x.push_back(e); return x.empty() ? R{-1, 0, 0} : x[r.below(x.size())]; };
        auto cell = [&](const R &a, int &i, int &j) { double u = r.unit(); i = u < 0.15 ? 0 : u < 0.3 ? a.n - 1 : (int)r.below(a.n); j = u > 0.85 ? a.n - 1 : u > 0.7 ? i : (int)r.range(i, a.n - 1); };
        auto step = [&](int c) {
            double u = r.unit(); R a = pickr(c, -1, true); if (a.slot < 0) { mk(c); return; } int i, j, k, l; cell(a, i, j);
            if (u < 0.08) mk(c);
            else if (u < 0.5) { R b = {-1, 0, 0}; k = l = 0; if (r.chance(0.35)) { b = pickr(c, a.ty, false); cell(b, k, l); } emit(c, "mset", {(double)a.slot, (double)i, (double)j, val(), (double)b.slot, (double)k, (double)l}); }
            else if (u < 0.66) { for (int q = 0; q < 3 && a.ty < 3; q++) a = pickr(c, -1, true); if (a.ty < 3) { emit(c, "mrd", {(double)pickr(c, -1, false).slot}); return; } cell(a, i, j); emit(c, "mput", {(double)a.slot, (double)i, (double)j, val()}); }
            else if (u < 0.76) { R b = pickr(c, -1, false); int s = slot(); if (s < 0) return; emit(c, "mcp", {(double)s, (double)b.slot}); b.slot = s; reg[c].push_back(b); }
            else if (u < 0.85) { R b = pickr(c, a.ty, false); size_t f = p.faults.size(); emit(c, "masg", {(double)a.slot, (double)b.slot}); p.faults.resize(f); for (auto &e : reg[c]) if (e.slot == a.slot) e.n = b.n; }   // compiler-generated assignment promises nothing when it fails
            else if (u < 0.95 || reg[c].size() < 3) emit(c, "mrd", {(double)pickr(c, -1, false).slot});
            else { size_t x = r.below(reg[c].size()); emit(c, "drop", {(double)reg[c][x].slot}); reg[c].erase(reg[c].begin() + x); } };
        int ns = (int)r.range(1, 5); for (int i = 0; i < ns; i++) mk(0); for (int i = (int)r.below(8); i > 0; i--) step(0);
        int len = (int)r.range(4, 24) / (nclients > 3 ? 2 : 1); if (tier) len += (int)r.below(12); if (mxn == 40) len = std::min(len, 8); else if (r.chance(0.04)) len *= 3;
        for (int c = 1; c <= nclients; c++) { for (int i = (int)r.range(1, 2); i > 0; i--) mk(c); for (int i = 0; i < len; i++) step(c); }
        for (auto &e : reg[0]) emit(9, "mrd", {(double)e.slot});
        double s = r.unit(); if (nclients == 1) p.strategy = ST_SEQ; else if (s < 0.1) p.strategy = ST_OPRR; else if (s < 0.65) { p.strategy = ST_RANDOM; static const u32 ms[5] = {2, 5, 15, 50, 250}; p.mean = ms[r.below(5)]; } else { p.strategy = ST_PCT; p.depth = (int)r.range(1, 8); }
        return p;
    }
    // C15: registers of single qualities and tradeoffs; client 0's are read by all, everyone else's are its own
    Plan scalars() {
        nclients = r.chance(0.55) ? 1 : (int)r.range(2, r.chance(0.1) ? MAXT : 4); pf = r.chance(0.5) ? 0.2 : 0; pno = 0.5; p.data.clear();
        vector<std::pair<int, int>> reg[MAXT + 1];              // slot, kind
        double bias = r.unit(); double wf[6]; for (double &f : wf) f = r.chance(0.15) ? 0.2 : 1;
        auto val = [&]() -> double {
            double u = r.unit(); if (bias < 0.35) return (double)r.range(u < 0.3 ? -2 : 0, 3);
            if (u < 0.12) return 0; if (u < 0.35) return (double)r.range(-3, 5); if (u < 0.55) return r.unit() * 10; if (u < 0.65) return -r.unit() * 10; if (u < 0.75) return 0.1 * r.range(1, 30);
            return (r.chance(0.2) ? -1 : 1) * exp2((r.unit() - 0.5) * (bias > 0.85 ? 180 : 30)) * (1 + r.unit()); };
        auto par = [&]() -> double { double u = r.unit(); return u < 0.12 ? 0.0 : u < 0.24 ? 1.0 : u < 0.5 ? (double)(float)(r.range(0, 10) / 10.0f) : u < 0.92 ? (double)(float)r.unit() : (double)(float)(r.unit() * 6 - 3); };
        auto pickr = [&](int c, int kind, bool mine) -> int {
            vector<int> x; for (auto &e : reg[c]) if (kind < 0 || e.second == kind) x.push_back(e.first); if (!mine && c) for (auto &e : reg[0]) if (kind < 0 || e.second == kind) x.push_back(e.first);
            return x.empty() ? -1 : x[r.below(x.size())]; };
        std::map<int, int> kd;
        auto add = [&](int c, int s, int kind) { reg[c].push_back({s, kind}); kd[s] = kind; };
        auto mk = [&](int c) {
            int s = slot(); if (s < 0) return; int how = (int)r.below(8); how = how == 6 ? 1 : how == 7 ? 5 : how; int src = -1; if (how >= 3 && r.chance(0.6)) src = pickr(c, 0, false);
            emit(c, "xnew", {(double)s, (double)how, (double)src, how == 5 ? par() : val(), val(), val()}); add(c, s, how >= 2); };
        auto stepx = [&](int c) {
            double ws[6] = {1.3 * wf[0], 2.2 * wf[1], 3.2 * wf[2], 3.5 * wf[3], 2.2 * wf[4], 1.2 * wf[5]}, t = 0; for (double f : ws) t += f; double u = r.unit() * t; int z = 0; for (; z < 5; z++) { if (u < ws[z]) break; u -= ws[z]; }
            int a = pickr(c, -1, true), b, kind; if (a < 0) { mk(c); return; } kind = kd[a];
            switch (z) {
            case 0: mk(c); break;
            case 1: { b = pickr(c, -1, false); if (r.chance(0.5)) { int s = slot(); if (s < 0) return; emit(c, "xcp", {(double)s, (double)b}); add(c, s, kd[b]); } else { b = pickr(c, kind, false); emit(c, "xasg", {(double)a, (double)b}); } break; }
            case 2: { int how = kind ? (int)r.below(4) : (int)r.below(6), q = pickr(c, 0, false); if (kind && (how & 1) && q < 0) how = 0; emit(c, "xset", {(double)a, (double)how, kind ? par() : how >= 4 ? (r.chance(0.5) ? 1 : -1) * exp2(-(double)r.range(20, 60)) : val(), (double)q}); break; }
            case 3: { b = pickr(c, kind, false); int o = (int)r.below(4); if (r.chance(0.5)) emit(c, "xcmp", {(double)a, (double)b, (double)o}); else { int s = slot(); if (s < 0) return; int e = pickr(c, kind, false); emit(c, "xbin", {(double)s, (double)e, (double)b, (double)o}); add(c, s, kind); } break; }
            case 4: { b = pickr(c, -1, false); int e = pickr(c, kd[b], false); emit(c, "xrel", {(double)b, (double)e}); break; }
            case 5: if (r.chance(0.6) || reg[c].size() < 3) emit(c, "xrd", {(double)pickr(c, -1, false)}); else { size_t i = r.below(reg[c].size()); emit(c, "drop", {(double)reg[c][i].first}); reg[c].erase(reg[c].begin() + i); } break;
            } };
        int ns = (int)r.range(2, 7); for (int i = 0; i < ns; i++) mk(0); for (int i = (int)r.below(8); i > 0; i--) stepx(0);
        int len = (int)r.range(5, 30) / (nclients > 3 ? 2 : 1); if (tier) len += (int)r.below(12); if (r.chance(0.04)) len *= 3;
        for (int c = 1; c <= nclients; c++) { for (int i = (int)r.range(1, 3); i > 0; i--) mk(c); for (int i = 0; i < len; i++) stepx(c); }
        for (auto &e : reg[0]) emit(9, "xrd", {(double)e.first});
        double s = r.unit(); if (nclients == 1) p.strategy = ST_SEQ; else if (s < 0.1) p.strategy = ST_OPRR; else if (s < 0.65) { p.strategy = ST_RANDOM; static const u32 ms[5] = {2, 4, 9, 25, 120}; p.mean = ms[r.below(5)]; } else { p.strategy = ST_PCT; p.depth = (int)r.range(1, 8); }
        return p;
    }
    Plan make() {
        for (int i = 0; i < 3; i++) { p.hseed[i] = r.next(); p.fill[i] = (int)r.below(FILL_NMODES); p.lay[i] = (int)r.below(LAY_NMODES); }
        if (is("C08")) { p.fill[0] = (int)r.below(3) == 0 ? FILL_ZERO : FILL_RANDOM; p.fill[1] = r.chance(0.5) ? FILL_FF : FILL_RANDOM; p.fill[2] = FILL_POINTERISH; }
        if (is("C16")) { p.fill[0] = FILL_RANDOM; p.fill[1] = r.chance(0.5) ? FILL_FF : FILL_POINTERISH; return front(); }
        if (is("C15")) return scalars();
        if (is("C19")) return triangles();
        int f = is("C01") ? FO : is("C02") ? FH : is("C03") ? FD : is("C18") && r.chance(0.35) ? FD : fam();
        double u = r.unit();
        // swarm: who calls, what fails
        if (is("C07")) { nclients = (int)r.range(2, 4); pf = r.chance(0.35) ? 0.1 : 0; }
        else if (is("C08")) { nclients = 1; pf = r.chance(0.5) ? 0.12 : 0; }
        else if (is("C06")) { nclients = u < 0.8 ? 1 : 2; pf = 0.6; pno = 0; mut = nclients == 1; }
        else if (is("C13")) { nclients = u < 0.75 ? 1 : 3; pf = r.chance(0.85) ? 0.35 : 0; pno = 0.5; mut = nclients == 1; }
        else if (is("C10")) { nclients = (int)r.range(1, 3); pf = r.chance(0.4) ? 0.1 : 0; pno = 0.4; mut = true; }
        else if (is("C11")) { nclients = u < 0.6 ? 1 : 2; pf = r.chance(0.6) ? 0.2 : 0; pno = 0.6; mut = r.chance(0.5); }
        else if (is("C14")) { nclients = u < 0.5 ? 1 : 3; pf = r.chance(0.4) ? 0.15 : 0; pno = 0.3; mut = true; }
        else if (is("C18")) { nclients = u < 0.5 ? 1 : (int)r.range(2, 3); pf = r.chance(0.4) ? 0.12 : 0; pno = 0.3; mut = nclients == 1 && r.chance(0.6); }
        else { nclients = u < 0.4 ? 1 : (int)r.range(2, 3); pf = r.chance(0.4) ? 0.12 : 0; pno = 0.2; mut = (is("C04") || is("C09")) && r.chance(0.6); }
        if (nclients > 1 && !is("C06") && r.chance(is("C07") ? 0.06 : 0.015)) nclients = (int)r.range(5, MAXT);                    // a crowd
        int size = pick_size(); if (nclients > 4) size = std::min(size, 1); if (size == 4 && (is("C09") || is("C04") || (f == FD && !is("C01") && !is("C02") && !is("C03")))) size = 3;   // comparing partitions of nodes and time costs the cube of their parts
        bool giant = (is("C01") || is("C02") || is("C03") || is("C04") || is("C09") || is("C14")) && r.chance(is("C03") ? 0.001 : is("C01") || is("C02") ? 0.0008 : 0.0005); if (giant) { size = 5; pf *= 0.3; big = true; if (r.chance(0.7)) nclients = 1; }   // sizes at which narrow integers and fixed buffers give out
        bool lng = !giant && r.chance(0.012); if (lng) { size = r.chance(0.8) ? 0 : 1; pf *= 0.3; }          // now and then a long history over many small data sets
        // now and then a long list of parameters: many values of very different sizes, a fine threshold
        if (!lng && (is("C05") || is("C10") || is("C11") || is("C12")) && r.chance(0.005)) { biglist = true; if (f == FD) f = r.chance(0.5) ? FO : FH; size = f == FO ? 3 : r.chance(0.5) ? 3 : 2; nclients = 1; xl = r.chance(0.07); }
        int d0 = data(f, size); if (giant && p.data[d0].n > 600) nclients = 1;      // the race detector's shadow of a table that large is not affordable
        if (biglist) { Data &d = p.data[d0]; if (f == FO) d.n = xl ? (int)r.range(65, 85) : (int)r.range(35, 60); else if (xl) tree(d, (int)r.range(70, 110)); for (int i = 0; i < 3; i++) d.dims[i] = 1; d.v.assign(d.cells(), 0); double e = r.range(1, 8); for (auto &x : d.v) x = exp(r.unit() * e); }
        if (giant && is("C03") && r.chance(0.5)) { Data &d = p.data[d0]; for (auto &x : d.dims) x = 1; d.n = (int)r.range(130, 146); nclients = 1; pf = 0; if (r.chance(0.9)) { d.L = 1; d.par = {-1}; } else tree(d, 1); values(d); }   // one leaf, long in time
        int nd = (int)(lng ? r.range(2, 8) : biglist || giant ? 0 : r.range(0, 2));
        for (int i = 0; i < nd; i++) { if (is("C09") || r.chance(is("C18") ? 0.7 : 0.3)) twin(d0); else if (p.data[d0].cells() <= 400 && r.chance(0.35)) cousin(d0); else if (is("C01") || is("C02") || is("C03")) data(f, std::min(size, 1)); else data(r.chance(0.6) ? f : fam(), std::min(size, 1)); }
        // setup
        int ns = biglist || r.chance(nclients == 1 ? 0.8 : is("C07") ? 0.8 : 0.93);      // without: every caller builds its own objects from the first call on
        if (ns) {
            op_newv(0, d0); op_newq(0, shared.v.back());
            if (biglist || r.chance(is("C04") ? 0.4 : 0.5)) emit(0, "normq", {(double)shared.q.back().slot});
            if (!is("C14") || r.chance(0.3)) { op_newp(0, shared.q.back()); if (is("C07") || is("C09") || is("C18") || r.chance(0.3)) op_best(0, shared.p.back()); if (biglist || (is("C07") && r.chance(0.5))) { op_sweep(0, shared.p.back()); } }
            for (size_t i = 1; i < p.data.size(); i++) if (r.chance(0.5)) { op_newv(0, p.data[i].id); if (r.chance(0.7)) { op_newq(0, shared.v.back()); if (r.chance(0.4)) emit(0, "normq", {(double)shared.q.back().slot}); if (r.chance(0.6)) op_newp(0, shared.q.back()); } }
        }
        tset = (is("C01") || is("C02") || is("C03") || is("C04") || is("C05") || is("C06") || is("C08") || is("C10") || is("C11") || is("C12") || is("C13")) && r.chance(0.5);
        W w = weights();
        int len = (int)r.range(2, is("C07") ? 6 : is("C10") || is("C14") || is("C18") ? 14 : is("C06") || is("C13") || is("C08") ? 10 : 8); if (r.chance(0.1)) len *= 2; if (lng) len = (int)r.range(40, 160) / nclients; if (giant) len = p.data[d0].fam == FD && p.data[d0].n > 128 ? 1 : (int)r.range(1, 3); if (biglist) len = xl ? 1 : 3; if (tier) len += (int)r.below(4);
        if (size >= 2 && !biglist && (is("C01") || is("C02") || is("C03") || is("C09"))) { double most = (giant ? 2.5e8 : tier ? 8e7 : 4e7) / est_cost(p.data[d0]) / nclients; if (len > most) len = std::max(1, (int)most); }
        for (int c = 1; c <= nclients; c++) {
            if (!ns) { op_newv(c, d0); op_newq(c, own[c].v.back()); if (r.chance(0.4)) emit(c, "normq", {(double)own[c].q.back().slot}); if (r.chance(0.8)) op_newp(c, own[c].q.back()); }
            for (int i = 0; i < len; i++) step(c, w);
            if (is("C09") && own[c].a.empty()) { vector<H> B = both(c, &Pool::b), V = both(c, &Pool::v); for (auto &b : B) { for (auto &v : V) if (b.data == v.data) { op_agg(c, b, v); break; } if (!own[c].a.empty()) break; } }
            if (is("C11")) for (auto &x : own[c].p) emit(c, "query", {(double)x.slot});
        }
        if (is("C10") || is("C11")) for (auto &x : shared.p) emit(9, is("C11") ? "query" : "read", {(double)x.slot});
        if (is("C14")) for (auto &x : shared.v) emit(9, "getv", {(double)x.slot});
        // schedule
        double s = r.unit();
        if (nclients == 1) p.strategy = ST_SEQ;
        else if (is("C10") || is("C14")) { p.strategy = s < 0.35 ? ST_OPRR : ST_RANDOM; p.mean = (u32)(s < 0.7 ? 1000000 : r.range(50, 3000)); }
        else if (s < 0.08) p.strategy = ST_OPRR;
        else if (s < 0.62) { p.strategy = ST_RANDOM; static const u32 ms[6] = {7, 30, 120, 500, 2500, 20000}; p.mean = ms[r.below(6)]; }
        else { p.strategy = ST_PCT; p.depth = (int)r.range(1, 8); }
        return p;
    }
};
}
