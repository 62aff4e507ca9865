// Executor: runs a plan against the real library in simulated worlds and judges it.
#pragma once
#include "lib.h"
#include "scalar.h"
#include "tri.h"
#include "rfront.h"
#include <functional>
#include <new>
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

namespace lp {
using namespace rt;

typedef vector<u64> Words;
inline void w_ld(Words &w, ld x) { uint8_t b[16] = {0}; if (x != x) { w.push_back(0x7ff8dead); w.push_back(1); return; } if (x == 0) x = 0; memcpy(b, &x, 10); u64 q[2]; memcpy(q, b, 16); w.push_back(q[0]); w.push_back(q[1]); }
inline void w_d(Words &w, double x) { u64 q; if (x != x) q = 0x7ff8dead; else { if (x == 0) x = 0; memcpy(&q, &x, 8); } w.push_back(q); }
inline void w_f(Words &w, float x) { w_d(w, x); }
inline void w_i(Words &w, long x) { w.push_back((u64)x); }
inline void w_parts(Words &w, const PInfo &b, bool quals) { w_i(w, b.parts.size()); for (auto &q : b.parts) { w_i(w, q.h); w_i(w, q.size); w_i(w, q.s); w_i(w, q.e); if (quals) { w_ld(w, q.g); w_ld(w, q.l); } } }
inline void w_info(Words &w, const PInfo &b, bool quals) { w_f(w, b.p); w_ld(w, b.g); w_ld(w, b.l); w_parts(w, b, quals); }
inline void w_sweep(Words &w, const SweepInfo &s, bool quals) {
    w_i(w, s.pl.size()); for (float x : s.pl) w_f(w, x);
    w_i(w, s.parts.size()); for (auto &x : s.parts) { w_f(w, x.first); w_info(w, x.second, quals); }
    w_i(w, s.tup.size()); for (auto &x : s.tup) { w_f(w, x.p); w_i(w, x.t.h); w_i(w, x.t.size); w_i(w, x.t.s); w_i(w, x.t.e); w_ld(w, x.t.g); w_ld(w, x.t.l); }
    w_i(w, s.ql.size()); for (auto &x : s.ql) { w_f(w, x.first); w_ld(w, x.second.first); w_ld(w, x.second.second); }
}
inline void w_query(Words &w, const QueryInfo &q) { w_f(w, q.pmin); w_f(w, q.pmax); w_f(w, q.popt); w_f(w, q.auc); }
inline u64 hashw(const Words &w) { u64 h = 1469598103934665603ull; for (u64 x : w) { h ^= x; h *= 0x100000001B3ull; h ^= h >> 31; } return h; }

// ------------------------------------------------------------------ shadow objects
struct VS { VObj o; const Data *d; const Tree *t; vector<double> cur; RwLock lk; };
// A table's shadow: the values it was computed from (src); the table itself is kept alive by the library's objects only.
struct Ev { int h = -1, i = 0, j = 0; ld g = 0, l = 0; };        // a normalization (h < 0), or an entry overwritten by the caller
struct Tbl { const Data *d; const Tree *tr; vector<double> src; bool supplied = false; long scr = 0; int norms = 0; vector<Ev> ev; RwLock lk; };   // norms: how many events so far
// a table made up by the caller: same shape, other numbers
inline void scramble(Table &r, long scr) {
    if (!scr) return; Rng q((u64)scr);
    bool small = scr & 1;
    for (int h = 0; h < r.hs; h++) for (int i = 0; i < r.n; i++) for (int j = i; j < r.n; j++) { size_t x = r.ix(h, i, j); if (small) { r.g[x] = q.range(0, 3); r.l[x] = q.range(0, 3); r.m[x] = 8; } else { ld f = (ld)(q.unit() * 2 + 0.25), e = (ld)(q.unit() * 2 + 0.25); if (q.chance(0.1)) f = -f; r.g[x] *= f; r.l[x] *= e; r.m[x] *= 3; } }
}
struct QS { QObj o; const Data *d; const Tree *tr; shared_ptr<VS> v; shared_ptr<Tbl> t; };
struct PS {
    PObj o; const Data *d; const Tree *tr; shared_ptr<Tbl> t; bool swept = false, defaults = false; float thr = 0, mn = 0, mx = 1; int swnorm = 0; SweepInfo last;
};
struct BS { BObj o; const Data *d; const Tree *tr; shared_ptr<Tbl> t; int norm = 0; float p = 0; bool picked = false, seen = false, mine = false; long made = 0, bend = 0; bool tf = false; PInfo info; };
struct AS { AObj o; const Data *d; const Tree *tr; vector<double> vals; PInfo info; };
struct Slot {
    RwLock lk;
    shared_ptr<VS> v; shared_ptr<QS> q; shared_ptr<PS> p; shared_ptr<BS> b; shared_ptr<AS> a; shared_ptr<XS> x; shared_ptr<MS> m;
    bool any() const { return v || q || p || b || a || x || m; }
};
const int NSLOT = 420;

enum St { S_NONE = 0, S_OK = 1, S_FAILED = 2, S_SKIP = 3 };
struct Res { int st = S_NONE; Words w; u64 allocs = 0, steps = 0, bound = 0; size_t maxalloc = 0; bool tainted = false; };

struct World {
    const Plan &pl; int wi; bool baseline; bool faults; vector<Res> *base;
    std::map<int, Data *> dm; std::map<int, shared_ptr<Tree>> tm;
    vector<Data> datas;
    vector<Slot> slots; vector<Res> res; bool conc = false;
    World(const Plan &p, int wi, bool faults, vector<Res> *base) : pl(p), wi(wi), baseline(wi == 0), faults(faults), base(base), slots(NSLOT) {
        datas = p.data; for (auto &d : datas) { dm[d.id] = &d; tm[d.id] = std::make_shared<Tree>(d); }
        int mx = 0; for (auto &o : p.ops) mx = std::max(mx, o.id); res.resize(mx + 1);
    }
    bool is(const char *c) const { return pl.prop == c; }

    // -------------------------------------------------------------- fresh chains
    QObj fresh_q(const Tbl &t, int norms) {
        QObj q;
        if (t.supplied) { Table r = ref_table(*t.d, t.src, *t.tr); scramble(r, t.scr); TObj x = supply_table(*t.d, r); q = make_q_table(t.d->fam, x, *t.d); }
        else { VObj v = make_values(*t.d, t.src, 0); q = make_q(v); q.compute(); }
        for (int i = 0; i < norms; i++) { const Ev &e = t.ev[i]; if (e.h < 0) q.normalize(); else set_entry(t.d->fam, q.table(), e.h, e.i, e.j, e.g, e.l); }
        return q;
    }
    Table ref_of(const Tbl &t, int norms) { Table r = ref_table(*t.d, t.src, *t.tr); scramble(r, t.scr); ref_tolerances(r); if (t.scr) ref_bounds(*t.d, r, *t.tr); size_t x = r.ix(r.root, 0, r.n - 1); r.vague = !t.supplied && t.d->L * t.d->n > 1 && r.m[x] > 0; for (int i = 0; i < norms; i++) { const Ev &e = t.ev[i]; if (e.h < 0) ref_normalize(r); else ref_set(r, r.ix(e.h, e.i, e.j), e.g, e.l); } return r; }
    // domain of normalization: the whole's gain and loss are either structurally zero or well away from rounding noise
    bool normalizable(const Tbl &t) {
        Table r = ref_table(*t.d, t.src, *t.tr); scramble(r, t.scr); size_t x = r.ix(r.root, 0, r.n - 1); ld M = r.m[x];
        for (int k = t.norms - 1; k >= 0; k--) { const Ev &e = t.ev[k]; if (e.h >= 0 && r.ix(e.h, e.i, e.j) == x) return (e.g == 0 || fabsl(e.g) > 1e-2L) && (e.l == 0 || fabsl(e.l) > 1e-2L); }
        if (t.scr) return (r.g[x] == 0 || fabsl(r.g[x]) > 1e-4L * M) && (r.l[x] == 0 || fabsl(r.l[x]) > 1e-4L * M);
        bool ones = true, spike = true; int vs = t.d->vs();
        for (int k = 0; k < vs; k++) { int nz = 0, n1 = 0, tot = 0; for (int lf = 0; lf < t.d->L; lf++) for (int o = 0; o < t.d->n; o++) { double v = t.d->at(t.src, lf, k, o); tot++; if (v != 0) nz++; if (v == 1) n1++; } if (nz > 1) spike = false; if (nz != 0 && n1 != tot) ones = false; }
        if (t.d->L * t.d->n == 1) ones = spike = true;
        bool g = spike ? r.g[x] == 0 : r.g[x] > 1e-4L * M, l = ones ? r.l[x] == 0 : r.l[x] > 1e-4L * M;
        return g && l;
    }
    [[noreturn]] void bad(const Op &op, const char *cls, const string &what) {
        char b[120]; snprintf(b, sizeof b, "client %d op %d (%s)%s: ", op.client, op.id, op.kind.c_str(), baseline ? " run alone" : ""); violate(cls, b + what);
    }
    void eval(bool nontrivial = true) { sh->oracle_evals++; if (nontrivial) sh->nontrivial++; }

    // -------------------------------------------------------------- reading state (harness side, quiet)
    Words words_v(const VS &v) {
        Words w; const VObj &o = v.o; size_t nv = v.cur.size();
        for (size_t i = 0; i < nv; i++) w_d(w, o.get(i));
        return w;
    }
    void more_v(const VS &v, Words &w) {   // the accessors that copy
        if (v.d->fam == FO) { unsigned n; { Lib l; n = v.o.o->getVsize(); } for (unsigned q = 0; q < n; q++) { V1 r; { Lib l; r = (*v.o.o)[q]; } for (double x : r) w_d(w, x); } }
        else { vector<int> p, c; { Lib l; A::HValuesMetaData md = v.o.meta(); p = md.getPath(); for (auto &x : md.getChildren()) c.push_back((int)x.size()); } for (int x : p) w_i(w, x); for (int x : c) w_i(w, x); }
    }
    Words words_t(const Data *d, const QObj &q) { Words w; vector<std::pair<ld, ld>> x; bool ok = table_read(d->fam, d->hs(), d->n, q.table(), x); w_i(w, ok); for (auto &e : x) { w_ld(w, e.first); w_ld(w, e.second); } return w; }
    Words words_q(const QS &q) { if (table_null(q.d->fam, q.o.table())) return Words(1, 0); return words_t(q.d, q.o); }   // the table the object itself holds now
    bool with_queries() const { return is("C06") || is("C07") || is("C08") || is("C10"); }
    Words words_p(const PS &p) { Words w; bool same = !p.swept || p.t->norms == p.swnorm; w_sweep(w, sweep_info(p.o), same); if (with_queries()) w_query(w, query_info(p.o)); return w; }
    bool in_scope(const string &k) const {
        const string &c = pl.prop; auto any = [&](const char *l) { return (" " + string(l) + " ").find(" " + k + " ") != string::npos; };
        if (baseline && c != "C08" && c != "C12" && c != "C16") return false;      // failing alone is not what these properties compare
        if (c == "C01" || c == "C02" || c == "C03") return any("newp newpt cpp best pick rdb sweep");
        if (c == "C04") return any("newq newqx newqt cpq compq normq setq getq asg");
        if (c == "C05") return any("newp newpt cpp sweep read asg");
        if (c == "C09") return any("agg rda pick");
        if (c == "C11") return any("query sweep asg");
        if (c == "C12") return any("sweep");
        if (c == "C13") return any("drop");
        if (c == "C14") return any("newv setv getv cpv newq asg");
        if (c == "C15") return k[0] == 'x';
        if (c == "C19") return k[0] == 'm';
        if (c == "C16") return any("rcall");
        if (c == "C18") return any("eqb newb");
        return true;
    }
    static void w_cuts(Words &w, const BObj &b) {   // the raw cut lists behind the parts
        vector<long> c; { rt::Lib l;
            if (b.o) { auto x = b.o->getCuts(); for (int y : x) c.push_back(y); }
            else if (b.h) { auto x = b.h->getAggregated(); for (size_t i = 0; i < x.size(); i++) c.push_back(x[i]); }
            else if (b.d) { auto x = b.d->getCuts(); for (auto &m : x) for (int i = 0; i < m->getSize(); i++) for (int j = i; j < m->getSize(); j++) c.push_back((*m)(i, j)); } }
        w_i(w, c.size()); for (long y : c) w_i(w, y);
    }
    // what else a partition tells: the table it stands on and, for trees, their description
    void w_more_b(Words &w, const BObj &b, const Data &d, bool same) {
        if (!with_queries()) return;
        TObj t; vector<long> c; ld g = 0, l = 0;
        { rt::Lib x;
          if (b.o) t.o = b.o->getQualities(); else if (b.h) t.h = b.h->getQualities(); else t.d = b.d->getQualities();
          if (b.h || b.d) { A::HValuesMetaData m = b.h ? b.h->getMetaData() : b.d->getMetaData(); c.push_back(m.getRoot()); c.push_back(m.getHsize()); c.push_back(m.getLeaveSize()); auto y = m.getPath(); c.insert(c.end(), y.begin(), y.end()); } }
        if (same && !table_null(d.fam, t)) get_entry(d.fam, t, tm[d.id]->root, 0, d.n - 1, g, l);
        w_ld(w, g); w_ld(w, l); for (long y : c) w_i(w, y);
    }
    Words words_b(const BS &b) { Words w; w_info(w, info_of(b.o), b.t->norms == b.norm); w_cuts(w, b.o); w_more_b(w, b.o, *b.d, b.t->norms == b.norm); return w; }
    Words words_a(const AS &a) { Words w; for (auto &x : agg_info(a.o)) { w_i(w, x.pt.h); w_i(w, x.pt.size); w_i(w, x.pt.s); w_i(w, x.pt.e); for (double y : x.sum) w_d(w, y); for (double y : x.mean) w_d(w, y); } return w; }
    Words dump(const vector<int> &sl) {
        Quiet q; Words w;
        for (int s : sl) { Slot &x = slots[s]; Words y;
            if (x.v) y = words_v(*x.v); else if (x.q) y = words_q(*x.q); else if (x.p) y = words_p(*x.p); else if (x.b) y = words_b(*x.b); else if (x.a) y = words_a(*x.a);
            w_i(w, s); w.insert(w.end(), y.begin(), y.end());
        }
        return w;
    }

    // -------------------------------------------------------------- oracles
    void check_partition(const Op &op, const Tbl &t, int norms, const PInfo &b, float p, bool quals, const char *what) {
        if (b.p != p) bad(op, "PARAM", "partition reports another parameter than the one asked for");
        string e = check_tiling(*t.d, *t.tr, b); if (!e.empty()) bad(op, "TILING", string(what) + " partition: " + e);
        Table r = ref_of(t, norms);
        if (quals) { e = check_qualities(r, b); if (!e.empty()) bad(op, "QUALITY", string(what) + " partition: " + e); }
        e = check_optimal(*t.d, *t.tr, r, b, p, what); if (!e.empty()) bad(op, "NOT-OPTIMAL", e);
        eval(b.parts.size() > 1);
        if (b.parts.size() > 1 && (int)b.parts.size() < t.d->L * t.d->n) probe(0); if (b.parts.size() == 1) probe(1); if (norms) probe(2);
    }
    void check_table(const Op &op, const QS &q) {
        const Tbl &t = *q.t; vector<std::pair<ld, ld>> x; if (!table_read(t.d->fam, t.d->hs(), t.d->n, q.o.table(), x)) bad(op, "TABLE-SHAPE", "quality table has not one entry per candidate aggregate");
        Table r = ref_of(t, t.norms); size_t k = 0; char m[300];
        for (int h = 0; h < r.hs; h++) for (int i = 0; i < r.n; i++) for (int j = i; j < r.n; j++, k++) {
            size_t y = r.ix(h, i, j);
            if (!(fabsl(x[k].first - r.g[y]) <= gtol(r, y)) || !(fabsl(x[k].second - r.l[y]) <= ltol(r, y))) { snprintf(m, sizeof m, "entry (node %d, [%d,%d])%s has gain %.12Lg loss %.12Lg, the definition gives %.12Lg and %.12Lg", h, i, j, t.norms ? " after normalization" : "", x[k].first, x[k].second, r.g[y], r.l[y]); bad(op, "TABLE", m); }
        }
        eval(); if (t.norms) probe(2); if (t.norms > 1) probe(3); if (t.supplied) probe(4);
        if (t.norms && (r.rg == 1 || r.rl == 1)) probe(5);
    }
    void check_values(const Op &op, VS &v) {   // C14
        const Data &d = *v.d; const VObj &o = v.o; char m[200];
        for (size_t i = 0; i < v.cur.size(); i++) { double x = o.get(i); if (!(x == v.cur[i])) { snprintf(m, sizeof m, "element %zu reads %.17g, last written %.17g", i, x, v.cur[i]); bad(op, "VALUE", m); } }
        int vs = d.vs();
        auto geo = [&](const char *w, long got, long want) { if (got != want) { snprintf(m, sizeof m, "%s is %ld, should be %ld", w, got, want); bad(op, "EXTENT", m); } };
        rt::Lib l;
        if (d.fam == FO) {
            geo("attribute count", o.o->getVsize(), vs); geo("ordered extent", o.o->getOsize(), d.n);
            for (int k = 0; k < vs; k++) { V1 r = (*o.o)[k]; if ((int)r.size() != d.n) geo("row length", r.size(), d.n); for (int i = 0; i < d.n; i++) if (!(r[i] == v.cur[(size_t)k * d.n + i])) { snprintf(m, sizeof m, "row accessor %d gives %.17g at %d, last written %.17g", k, r[i], i, v.cur[(size_t)k * d.n + i]); bad(op, "VALUE", m); } }
            if (d.N == 3) { auto *p = static_cast<A::OValuesN3 *>(o.o.get()); geo("I", p->getI(), d.dims[0]); geo("J", p->getJ(), d.dims[1]); }
            if (d.N == 4) { auto *p = static_cast<A::OValuesN4 *>(o.o.get()); geo("I", p->getI(), d.dims[0]); geo("J", p->getJ(), d.dims[1]); geo("K", p->getK(), d.dims[2]); }
        } else if (d.fam == FH) {
            geo("attribute count", o.h->getVsize(), vs);
            { vector<A::HValuesProxy> rows; for (int lf = 0; lf < d.L; lf++) rows.push_back((*o.h)[lf]); for (int lf = d.L - 1; lf >= 0; lf--) for (int k = 0; k < vs; k++) if (!(rows[lf][k] == v.cur[(size_t)lf * vs + k])) { snprintf(m, sizeof m, "the row accessor kept for leaf %d reads %.17g at attribute %d, last written %.17g", lf, rows[lf][k], k, v.cur[(size_t)lf * vs + k]); bad(op, "VALUE", m); } }
            for (int lf = 0; lf < d.L; lf++) for (int k = 0; k < vs; k++) { double x = (*o.h)[lf][k], y = o.h->getValue(lf, k), z = v.cur[(size_t)lf * vs + k]; if (!(x == z) || !(y == z)) { snprintf(m, sizeof m, "leaf %d attribute %d reads %.17g / %.17g, last written %.17g", lf, k, x, y, z); bad(op, "VALUE", m); } }
            if (d.N == 3) { auto *p = static_cast<A::HValuesN3 *>(o.h.get()); geo("I", p->getI(), d.dims[0]); geo("J", p->getJ(), d.dims[1]); }
            if (d.N == 4) { auto *p = static_cast<A::HValuesN4 *>(o.h.get()); geo("I", p->getI(), d.dims[0]); geo("J", p->getJ(), d.dims[1]); geo("K", p->getK(), d.dims[2]); }
        } else {
            geo("attribute count", o.d->getVsize(), vs); geo("ordered extent", o.d->getOsize(), d.n);
            { vector<A::DValuesProxy> rows; for (int lf = 0; lf < d.L; lf++) rows.push_back((*o.d)[lf]); for (int lf = d.L - 1; lf >= 0; lf--) { int k = lf % vs; V1 x = rows[lf][k]; for (int i = 0; i < d.n; i++) if ((int)x.size() != d.n || !(x[i] == v.cur[((size_t)lf * vs + k) * d.n + i])) { snprintf(m, sizeof m, "the row accessor kept for leaf %d does not read what was written", lf); bad(op, "VALUE", m); } } }
            for (int lf = 0; lf < d.L; lf++) for (int k = 0; k < vs; k++) { V1 x = (*o.d)[lf][k]; if ((int)x.size() != d.n) geo("row length", x.size(), d.n); for (int i = 0; i < d.n; i++) { double z = v.cur[((size_t)lf * vs + k) * d.n + i]; if (!(x[i] == z)) { snprintf(m, sizeof m, "leaf %d attribute %d index %d reads %.17g, last written %.17g", lf, k, i, x[i], z); bad(op, "VALUE", m); } } }
            if (d.N == 4) { auto *p = static_cast<A::DValuesN4 *>(o.d.get()); geo("I", p->getI(), d.dims[0]); geo("J", p->getJ(), d.dims[1]); }
        }
        if (d.fam != FO) check_meta(op, d, *v.t, v.o.meta());
        eval();
    }
    void check_meta(const Op &op, const Data &d, const Tree &t, const A::HValuesMetaData &md) {
        char m[200]; int hs = d.hs();
        if ((int)md.getHsize() != hs || md.getLeaveSize() != d.L || md.getParents() != d.par) bad(op, "HIERARCHY", "node count, leaf count or parents differ from what was given");
        if (md.getRoot() != t.root) { snprintf(m, sizeof m, "root is %d, should be %d", md.getRoot(), t.root); bad(op, "HIERARCHY", m); }
        auto ch = md.getChildren(); auto sz = md.getSize(); auto path = md.getPath();
        if ((int)ch.size() != hs) bad(op, "HIERARCHY", "children are not listed for every node");
        for (int h = 0; h < hs; h++) {
            std::multiset<int> a(ch[h].begin(), ch[h].end()), b(t.ch[h].begin(), t.ch[h].end());
            if (a != b) { snprintf(m, sizeof m, "children of node %d are not its true children (%zu listed, %zu true)", h, a.size(), b.size()); bad(op, "HIERARCHY", m); }
            auto it = sz.find(h); if (it == sz.end() || it->second != t.size[h]) { snprintf(m, sizeof m, "node %d reports %d leaves, it has %d", h, it == sz.end() ? -1 : it->second, t.size[h]); bad(op, "HIERARCHY", m); }
        }
        vector<int> pos(hs, -1);
        if ((int)path.size() != hs) { snprintf(m, sizeof m, "node order lists %zu of %d nodes", path.size(), hs); bad(op, "HIERARCHY", m); }
        for (int i = 0; i < hs; i++) { if (path[i] < 0 || path[i] >= hs || pos[path[i]] >= 0) bad(op, "HIERARCHY", "node order is not a permutation of the nodes"); pos[path[i]] = i; }
        for (int h = 0; h < hs; h++) { if (h < d.L && pos[h] >= d.L) bad(op, "HIERARCHY", "node order does not start with the leaves"); if (d.par[h] >= 0 && pos[d.par[h]] < pos[h]) { snprintf(m, sizeof m, "node %d comes after its parent %d in the node order", h, d.par[h]); bad(op, "HIERARCHY", m); } }
    }
    void check_agg(const Op &op, const AS &a) {
        auto g = agg_info(a.o); const Data &d = *a.d; int vs = d.vs(); char m[250];
        if (g.size() != a.info.parts.size()) { snprintf(m, sizeof m, "%zu aggregates for %zu parts", g.size(), a.info.parts.size()); bad(op, "AGGREGATE", m); }
        vector<ld> tot(vs, 0), all(vs, 0), mag(vs, 0);
        for (size_t i = 0; i < g.size(); i++) {
            auto &p = a.info.parts[i]; auto &q = g[i];
            if (q.pt.h != p.h || q.pt.s != p.s || q.pt.e != p.e) { snprintf(m, sizeof m, "aggregate %zu stands for another part than part %zu", i, i); bad(op, "AGGREGATE", m); }
            if ((int)q.sum.size() != vs || (int)q.mean.size() != vs) { snprintf(m, sizeof m, "aggregate %zu has %zu sums and %zu means for %d attributes", i, q.sum.size(), q.mean.size(), vs); bad(op, "AGGREGATE", m); }
            for (int k = 0; k < vs; k++) {
                ld s = 0, ab = 0; int cnt = 0; for (int lf : a.tr->leaves[p.h]) for (int o = p.s; o <= p.e; o++) { s += d.at(a.vals, lf, k, o); ab += fabs(d.at(a.vals, lf, k, o)); cnt++; }
                ld tol = 1e-12L * ab; if (!(fabsl(q.sum[k] - s) <= tol) || !(fabsl(q.mean[k] - s / cnt) <= tol / cnt + 1e-15L * fabsl(s) / cnt)) { snprintf(m, sizeof m, "part (node %d, [%d,%d]) attribute %d: sum %.15g mean %.15g, the data gives %.15Lg and %.15Lg", p.h, p.s, p.e, k, q.sum[k], q.mean[k], s, s / cnt); bad(op, "AGGREGATE", m); }
                tot[k] += q.sum[k];
            }
        }
        for (int k = 0; k < vs; k++) { for (int lf = 0; lf < d.L; lf++) for (int o = 0; o < d.n; o++) { all[k] += d.at(a.vals, lf, k, o); mag[k] += fabs(d.at(a.vals, lf, k, o)); } if (!(fabsl(tot[k] - all[k]) <= 1e-11L * mag[k])) bad(op, "AGGREGATE", "sums over all parts do not add up to the data set"); }
        eval(g.size() > 1); if (g.size() > 1) probe(6);
    }
    void check_sweep(const Op &op, PS &p) {   // C05
        const SweepInfo &s = p.last; char m[300]; Table r = ref_of(*p.t, p.swnorm);
        if (s.pl.empty()) bad(op, "SWEEP-LIST", "a completed sweep lists no parameter");
        if (s.pl[0] != p.mn) { snprintf(m, sizeof m, "list starts at %.9g, not at the minimum %.9g", s.pl[0], p.mn); bad(op, "SWEEP-LIST", m); }
        for (size_t i = 0; i < s.pl.size(); i++) { if (i && !(s.pl[i] > s.pl[i - 1])) bad(op, "SWEEP-LIST", "listed parameters are not strictly increasing"); if (!(s.pl[i] <= p.mx)) bad(op, "SWEEP-LIST", "a listed parameter exceeds the maximum"); }
        if (s.parts.size() != s.pl.size() || s.ql.size() != s.pl.size()) { snprintf(m, sizeof m, "%zu parameters, %zu partitions, %zu qualities", s.pl.size(), s.parts.size(), s.ql.size()); bad(op, "SWEEP-LIST", m); }
        size_t ti = 0; ld tolg = 0, toll = 0;
        for (size_t i = 0; i < s.pl.size(); i++) {
            const PInfo &b = s.parts[i].second;
            if (s.parts[i].first != s.pl[i] || s.ql[i].first != s.pl[i] || b.p != s.pl[i]) bad(op, "SWEEP-LIST", "partition or quality map has other keys than the parameter list");
            tolg = toll = 0; for (auto &q : b.parts) { if (q.h < 0 || q.h >= r.hs || q.s < 0 || q.e >= r.n || q.s > q.e) bad(op, "SWEEP-LIST", "a listed part lies outside the data"); tolg += gtol(r, r.ix(q.h, q.s, q.e)); toll += ltol(r, r.ix(q.h, q.s, q.e)); }
            if (!(fabsl(s.ql[i].second.first - b.g) <= tolg) || !(fabsl(s.ql[i].second.second - b.l) <= toll)) bad(op, "SWEEP-LIST", "quality map disagrees with the listed partition");
            for (auto &q : b.parts) {
                if (ti >= s.tup.size()) bad(op, "SWEEP-TUPLES", "tuple list is shorter than the listed partitions");
                const Tup &t = s.tup[ti++]; size_t x = r.ix(q.h, q.s, q.e);
                if (t.p != s.pl[i] || t.t.h != q.h || t.t.s != q.s || t.t.e != q.e || t.t.size != (p.d->fam == FD ? q.size * (q.e - q.s + 1) : q.size) || !(fabsl(t.t.g - q.g) <= gtol(r, x)) || !(fabsl(t.t.l - q.l) <= ltol(r, x))) { snprintf(m, sizeof m, "tuple %zu (p %.9g node %d [%d,%d] size %d) does not describe part (p %.9g node %d [%d,%d] size %d)", ti - 1, t.p, t.t.h, t.t.s, t.t.e, t.t.size, s.pl[i], q.h, q.s, q.e, q.size); bad(op, "SWEEP-TUPLES", m); }
            }
            if (i && alike(b, s.parts[i - 1].second)) { snprintf(m, sizeof m, "partition listed at %.9g is the one listed at %.9g", s.pl[i], s.pl[i - 1]); bad(op, "SWEEP-LIST", m); }
            PInfo one = info_of(best_of(p.o, s.pl[i])); if (!alike(one, b)) { snprintf(m, sizeof m, "partition listed at %.9g is not the one computed for it", s.pl[i]); bad(op, "SWEEP-EXACT", m); }
            // resolution: still a best partition up to threshold before the next listed parameter
            float thr = p.thr > 0 ? p.thr : 0, hi;
            if (i + 1 < s.pl.size()) { float nx = s.pl[i + 1]; double h2 = (double)nx - thr; float f = (float)h2; while ((double)f > h2) f = nextafterf(f, -INFINITY); if (f >= nx) f = nextafterf(nx, -INFINITY); hi = f; } else hi = p.mx;
            if (hi >= s.pl[i]) {
                float qs[4] = {s.pl[i], hi, s.pl[i] + (hi - s.pl[i]) * 0.5f, s.pl[i] + (hi - s.pl[i]) * 0.8125f}; int nq = hi == s.pl[i] ? 1 : 4;
                for (int k = 0; k < nq; k++) { string e = check_optimal(*p.d, *p.tr, r, b, qs[k], "listed"); if (!e.empty()) { snprintf(m, sizeof m, "listed at %.9g (threshold %.3g): ", s.pl[i], p.thr); bad(op, "SWEEP-RESOLUTION", m + e); } }
            } else probe(8);
        }
        if (ti != s.tup.size()) bad(op, "SWEEP-TUPLES", "tuple list is longer than the listed partitions");
        eval(s.pl.size() > 1); if (s.pl.size() > 3) probe(7); if (p.mn == p.mx) probe(9); if (p.thr <= 0) probe(10);
    }
    void check_query(const Op &op, PS &p) {   // C11
        QueryInfo q = query_info(p.o); char m[300];
        if (!p.swept) {
            probe(11);
            if (q.pmin != 0 || !(q.pmax >= 0 && q.pmax <= 1) || !(q.popt >= 0 && q.popt <= 1) || q.auc != 1) { snprintf(m, sizeof m, "before any completed sweep: minimum %.9g maximum %.9g optimum %.9g area %.9g", q.pmin, q.pmax, q.popt, q.auc); bad(op, "QUERY", m); }
            eval(); return;
        }
        const SweepInfo &s = p.last; size_t n = s.pl.size(); if (!n || s.ql.size() != n) bad(op, "QUERY", "the last completed sweep left no list");
        if (q.pmin != 0) bad(op, "QUERY", "minimum parameter is not 0");
        if (q.pmax != s.pl[n - 1]) { snprintf(m, sizeof m, "maximum parameter is %.9g, last listed is %.9g", q.pmax, s.pl[n - 1]); bad(op, "QUERY", m); }
        vector<ld> sc; ld mnv = INFINITY, big = 0; for (auto &x : s.ql) { ld g = x.second.first, l = x.second.second, v = (g - 1) * (g - 1) + l * l; sc.push_back(v); if (v < mnv) mnv = v; big = fmaxl(big, fmaxl((fabsl(g) + 1) * (fabsl(g) + 1), l * l)); }
        ld eps = 1e-15L * big + 1e-17L; bool found = false, okp = false; float want = 0; bool allsame = true; std::pair<ld, ld> ref; bool first = true;
        for (size_t i = 0; i < n; i++) if (sc[i] <= mnv + eps) { if (first) { ref = s.ql[i].second; first = false; } else if (s.ql[i].second != ref) allsame = false; want = s.pl[i]; if (q.popt == s.pl[i]) okp = true; }
        for (float x : s.pl) if (x == q.popt) found = true;
        if (!found || !okp || (allsame && q.popt != want)) { snprintf(m, sizeof m, "optimum is %.9g, the listed parameter with least (gain-1)^2+loss^2 is %.9g", q.popt, want); bad(op, "QUERY", m); }
        ld auc = 1, mag = 1; for (size_t i = 0; i + 1 < n; i++) { ld t = (s.ql[i + 1].second.first - s.ql[i].second.first) * (s.ql[i + 1].second.second + s.ql[i].second.second) / 2; auc -= t; mag += fabsl(t); }
        if (mag < 3e38L && !(fabsl(q.auc - auc) <= 1.5e-7L * mag * (n + 2)))   // beyond that the float the library returns cannot hold it
            { snprintf(m, sizeof m, "area score is %.9g, the list gives %.9Lg", q.auc, auc); bad(op, "QUERY", m); }
        eval(n > 1); if (n > 2) probe(12);
    }

    void check_built(const Op &op, const BS &b) {   // C18: a partition built from cut lists is what they describe
        TilingMaker m(*b.d, *b.tr, b.made, b.bend, b.tf);
        if (b.info.p != b.p) bad(op, "PARAM", "the built partition reports another parameter than the one given");
        if (!alike(b.info, m.r.want)) bad(op, "BUILT", "the cut lists describe " + show_parts(*b.d, m.r.want) + ", the partition consists of " + show_parts(*b.d, b.info));
        Table r = ref_of(*b.t, b.norm); string e = check_qualities(r, b.info); if (!e.empty()) bad(op, "QUALITY", "built partition: " + e);
        eval(b.info.parts.size() > 1);
    }
    void check_equal(const Op &op, const BS &a, const BS &b, const Res &r) {   // C18
        PInfo x = info_of(a.o), y = info_of(b.o); bool same = alike(x, y);
        for (int k = 0; k < 2; k++) { long g = (long)r.w[k]; if (g != (same ? 1 : 2)) bad(op, "EQUALITY", string(k ? "the second and the first partition" : "the partitions") + " consist of " + (same ? "the same parts" : "different parts") + ": " + show_parts(*a.d, x) + " and " + show_parts(*b.d, y) + "; == says " + (g & 1 ? "equal" : "not equal") + ", != says " + (g & 2 ? "different" : "not different")); }
        for (size_t k = 2; k + 2 < r.w.size(); k += 3) {
            const Pt &p = x.parts[r.w[k]], &q = y.parts[r.w[k + 1]]; long g = (long)r.w[k + 2]; bool eq = p.h == q.h && p.s == q.s && p.e == q.e; char m[200];
            if (g != (eq ? 1 : 2)) { snprintf(m, sizeof m, "parts (node %d, [%d,%d]) and (node %d, [%d,%d]): == says %s, != says %s", p.h, p.s, p.e, q.h, q.s, q.e, g & 1 ? "equal" : "not equal", g & 2 ? "different" : "not different"); bad(op, "EQUALITY", m); }
        }
        eval(x.parts.size() > 1); if (same && !same_parts(x, y)) probe(14); if (same && &a != &b && a.p != b.p) probe(15); if (!same && x.parts.size() == y.parts.size()) probe(16);
    }

    // -------------------------------------------------------------- one operation
    struct Ctx { vector<int> rd, wr; vector<RwLock *> rl, wl; vector<shared_ptr<Tbl>> kt; vector<shared_ptr<VS>> kv; ~Ctx() { rt::Lib l; kt.clear(); kv.clear(); } };
    vector<FaultSpec> faults_of(int id) { vector<FaultSpec> r; if (faults) for (auto &f : pl.faults) if (f.op == id) r.push_back(f); return r; }
    int A_(const Op &o, size_t i) { return i < o.a.size() ? (int)o.a[i] : 0; }
    double D_(const Op &o, size_t i) { return i < o.a.size() ? o.a[i] : 0; }

    bool lockset(const Op &op, Ctx &c) {   // false: an input is missing, skip
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        auto rd = [&](RwLock &l) { c.rl.push_back(&l); }; auto wr = [&](RwLock &l) { c.wl.push_back(&l); };
        auto tr = [&](const shared_ptr<Tbl> &t) { if (t) { c.rl.push_back(&t->lk); c.kt.push_back(t); } }; auto vr = [&](const shared_ptr<VS> &v, bool w) { (w ? c.wl : c.rl).push_back(&v->lk); c.kv.push_back(v); };
        if (k == "rcall") { Data *d = dm.at(A_(op, 0)); Tbl t; t.d = d; t.tr = tm[d->id].get(); t.src = d->v; return normalizable(t); }
        if (k == "newv" || k == "newqx") { return !S(0).any(); }
        if (k[0] == 'x') return x_lockset(op, c);
        if (k[0] == 'm') return m_lockset(op, c);
        if (k == "cpv") { if (!S(1).v || S(0).any()) return false; vr(S(1).v, false); c.rd = {A_(op, 1)}; return true; }
        if (k == "setv") { if (!S(0).v) return false; vr(S(0).v, true); c.wr = {A_(op, 0)}; return true; }
        if (k == "getv") { if (!S(0).v) return false; vr(S(0).v, false); c.rd = {A_(op, 0)}; return true; }
        if (k == "asg") {
            Slot &x = S(0), &y = S(1);
            if (x.v && y.v && x.v->d->fam == y.v->d->fam && x.v->d->N == y.v->d->N && x.v->d->shape() == y.v->d->shape() && x.v->d->par == y.v->d->par) { vr(x.v, true); vr(y.v, false); c.wr = {A_(op, 0)}; return true; }
            if ((x.q && y.q && x.q->d->fam == y.q->d->fam && y.q->t) || (x.p && y.p && x.p->d->fam == y.p->d->fam)) { wr(x.lk); rd(y.lk); if (x.q) tr(x.q->t), tr(y.q->t); else tr(x.p->t), tr(y.p->t); c.wr = {A_(op, 0)}; return true; }
            if (x.b && y.b && x.b->mine && x.b->d->fam == y.b->d->fam) { wr(x.lk); rd(y.lk); tr(x.b->t); tr(y.b->t); c.wr = {A_(op, 0)}; return true; }
            if (x.a && y.a && x.a->d->fam == y.a->d->fam && x.a->d->N == y.a->d->N) { wr(x.lk); rd(y.lk); c.wr = {A_(op, 0)}; return true; }
            return false;
        }
        if (k == "newb") { if (!S(1).q || !S(1).q->t || S(0).any()) return false; rd(S(1).lk); tr(S(1).q->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "eqb") {
            auto &x = S(0).b, &y = S(1).b; if (!x || !y || x->d->fam != y->d->fam || x->d->n != y->d->n || x->d->par != y->d->par) return false;
            if (x->d->fam == FD && (double)x->d->L * x->d->n > 60) return false;                 // comparing two of those takes the cube of their parts
            rd(S(0).lk); rd(S(1).lk); tr(x->t); tr(y->t); c.rd = {A_(op, 0), A_(op, 1)}; return true;
        }
        if (k == "cpb") { if (!S(1).b || S(0).any()) return false; rd(S(1).lk); tr(S(1).b->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "cpa") { if (!S(1).a || S(0).any()) return false; rd(S(1).lk); c.rd = {A_(op, 1)}; return true; }
        if (k == "newq") { if (!S(1).v || S(0).any()) return false; vr(S(1).v, false); c.rd = {A_(op, 1)}; return true; }
        if (k == "newqt" || k == "cpq") { if (!S(1).q || S(0).any()) return false; if (k == "newqt" && !S(1).q->t) return false; rd(S(1).lk); tr(S(1).q->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "compq") { if (!S(0).q || (!S(0).q->v && !S(0).q->t)) return false; wr(S(0).lk); if (S(0).q->v) vr(S(0).q->v, false); tr(S(0).q->t); c.wr = {A_(op, 0)}; return true; }
        if (k == "normq") { if (!S(0).q || !S(0).q->t || !normalizable(*S(0).q->t)) return false; rd(S(0).lk); c.wl.push_back(&S(0).q->t->lk); c.kt.push_back(S(0).q->t); c.wr = {A_(op, 0)}; return true; }
        if (k == "setq") { if (!S(0).q || !S(0).q->t) return false; rd(S(0).lk); c.wl.push_back(&S(0).q->t->lk); c.kt.push_back(S(0).q->t); c.wr = {A_(op, 0)}; return true; }
        if (k == "getq") { if (!S(0).q || !S(0).q->t) return false; rd(S(0).lk); tr(S(0).q->t); c.rd = {A_(op, 0)}; return true; }
        if (k == "newp" || k == "newpt") { if (!S(1).q || !S(1).q->t || S(0).any()) return false; rd(S(1).lk); tr(S(1).q->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "cpp") { if (!S(1).p || S(0).any()) return false; rd(S(1).lk); tr(S(1).p->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "best") { if (!S(1).p || S(0).any()) return false; rd(S(1).lk); tr(S(1).p->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "pick") { if (!S(1).p || !S(1).p->swept || S(0).any()) return false; rd(S(1).lk); tr(S(1).p->t); c.rd = {A_(op, 1)}; return true; }
        if (k == "sweep") { if (!S(0).p) return false; wr(S(0).lk); tr(S(0).p->t); c.wr = {A_(op, 0)}; return true; }
        if (k == "read" || k == "query") { if (!S(0).p) return false; rd(S(0).lk); tr(S(0).p->t); c.rd = {A_(op, 0)}; return true; }
        if (k == "rdb") { if (!S(0).b) return false; rd(S(0).lk); tr(S(0).b->t); c.rd = {A_(op, 0)}; return true; }
        if (k == "agg") { if (!S(1).b || !S(2).v || S(0).any()) return false; if (S(1).b->d->fam != S(2).v->d->fam || S(1).b->d->n != S(2).v->d->n || S(1).b->d->par != S(2).v->d->par) return false; rd(S(1).lk); vr(S(2).v, false); tr(S(1).b->t); c.rd = {A_(op, 1), A_(op, 2)}; return true; }
        if (k == "rda") { if (!S(0).a) return false; rd(S(0).lk); c.rd = {A_(op, 0)}; return true; }
        if (k == "drop") { if (!S(0).any()) return false; wr(S(0).lk); if (S(0).v) vr(S(0).v, true); return true; }
        return false;
    }
    // -------------------------------------------------------------- the R front end
    typedef std::map<string, vector<double>> RMap;
    std::map<int, RMap> rres;
    static void r_flat(SEXP x, const string &at, RMap &m) {
        if (!x) return;
        if (x->type == SEXPREC::LIST) { for (size_t i = 0; i < x->l.size(); i++) r_flat(x->l[i], at + (at.empty() ? "" : "$") + (i < x->names.size() ? x->names[i] : ""), m); return; }
        vector<double> v; for (double y : x->d) v.push_back(y); for (int y : x->i) v.push_back(y); m[at] = v;
    }
    RMap r_call(const Op &op) {
        const Data &d = *dm.at(A_(op, 0)); float thr = (float)D_(op, 1); int mode = A_(op, 2);
        int n = 0; const RFront *f = r_functions ? r_functions(&n) : nullptr; const char *want = d.fam == FO ? "oaggregate" : d.fam == FH ? "haggregate" : "daggregate";
        const RFront *fn = nullptr; for (int i = 0; i < n; i++) if (!strcmp(f[i].name, want)) fn = &f[i];
        if (!fn || fn->nargs != (d.fam == FO ? 2 : 3)) bad(op, "FRONT-END", string("the front end exports no function ") + want + " with its arguments");
        vector<int> s = d.shape(); SEXP a[3], mi, th, hh = nullptr; vector<double> fl(d.cells());
        for (int i = 0; i < s[0]; i++) for (int j = 0; j < s[1]; j++) for (int k = 0; k < s[2]; k++) fl[i + (size_t)s[0] * (j + (size_t)s[1] * k)] = d.v[((size_t)i * s[1] + j) * s[2] + k];   // R keeps arrays by column
        bool ints = mode & 2; for (double x : fl) if (x != floor(x) || x > 1e9) ints = false;
        { Quiet q; Lib l;
            mi = r_new(ints ? SEXPREC::INT : SEXPREC::REAL); if (ints) mi->i.assign(fl.begin(), fl.end()); else mi->d.assign(fl.begin(), fl.end()); mi->dim.assign(s.begin(), s.end());
            th = r_new(SEXPREC::REAL); th->d.assign(1, (double)thr);
            if (d.fam != FO) { hh = r_new(mode & 1 ? SEXPREC::INT : SEXPREC::REAL); for (int x : d.par) if (mode & 1) hh->i.push_back(x + 1); else hh->d.push_back(x + 1); } }
        a[0] = mi; a[1] = d.fam == FO ? th : hh; a[2] = th; SEXP r = nullptr;
        struct Gc { ~Gc() { Quiet q; Lib l; r_collect(); } } gc;
        { Lib l; r = fn->call(a); }
        RMap m; r_flat(r, "", m);
        vector<double> now(ints ? vector<double>(mi->i.begin(), mi->i.end()) : mi->d); if (now != fl || th->d != vector<double>(1, (double)thr)) bad(op, "FRONT-END", "the call changed the caller's array");
        if (hh) { vector<double> p; for (double x : hh->d) p.push_back(x - 1); for (int x : hh->i) p.push_back(x - 1); if (p != vector<double>(d.par.begin(), d.par.end())) bad(op, "FRONT-END", "the call changed the caller's hierarchy"); }
        return m;
    }
    void check_front(const Op &op) {   // C16: what the library itself says about the same data
        const Data &d = *dm.at(A_(op, 0)); float thr = (float)D_(op, 1); RMap e; RMap &g = rres[op.id]; char m[300];
        { VObj v = make_values(d, d.v, 0); QObj q = make_q(v); q.compute(); q.normalize(); PObj p = make_p(q); p.sweep(thr, 0, 1, true); SweepInfo s = sweep_info(p); QueryInfo y = query_info(p);
            string P = "Partitions$", Q = "Qualities$";
            for (auto &t : s.tup) { e[P + "Parameter"].push_back(t.p); if (d.fam != FO) { e[P + "Node"].push_back(t.t.h + 1); e[P + "Size"].push_back(t.t.size); } if (d.fam != FH) { e[P + "Start"].push_back(t.t.s + 1); e[P + "End"].push_back(t.t.e + 1); } e[P + "Gain"].push_back((double)t.t.g); e[P + "Loss"].push_back((double)t.t.l); }
            for (auto &t : s.ql) { e[Q + "Parameter"].push_back(t.first); e[Q + "Gain"].push_back((double)t.second.first); e[Q + "Loss"].push_back((double)t.second.second); }
            e["POpt"].push_back(y.popt); e["AUC"].push_back(y.auc); eval(s.pl.size() > 1); if (s.pl.size() > 3) probe(7); }
        for (auto &x : e) {
            auto it = g.find(x.first); if (it == g.end()) bad(op, "FRONT-END", "the result has no " + x.first);
            if (it->second.size() != x.second.size()) { snprintf(m, sizeof m, "%s has %zu entries, the library gives %zu", x.first.c_str(), it->second.size(), x.second.size()); bad(op, "FRONT-END", m); }
            for (size_t i = 0; i < x.second.size(); i++) { double p = it->second[i], q = x.second[i]; if (!(p == q || (p != p && q != q))) { snprintf(m, sizeof m, "%s[%zu] is %.17g, the library gives %.17g", x.first.c_str(), i + 1, p, q); bad(op, "FRONT-END", m); } }
        }
        // and the rows by themselves: every listed parameter describes each cell once
        vector<double> &pp = g["Partitions$Parameter"]; const Tree &t = *tm[d.id]; size_t i = 0;
        while (i < pp.size()) {
            size_t j = i; PInfo b; b.p = (float)pp[i];
            for (; j < pp.size() && pp[j] == pp[i]; j++) { Pt q; q.h = d.fam == FO ? 0 : (int)g["Partitions$Node"][j] - 1; q.s = d.fam == FH ? 0 : (int)g["Partitions$Start"][j] - 1; q.e = d.fam == FH ? 0 : (int)g["Partitions$End"][j] - 1; q.size = d.fam == FO ? q.e - q.s + 1 : (int)g["Partitions$Size"][j]; if (d.fam == FD) q.size /= (q.e - q.s + 1); b.parts.push_back(q); }
            string z = check_tiling(d, t, b); if (!z.empty()) { snprintf(m, sizeof m, "rows for parameter %.9g: ", pp[i]); bad(op, "FRONT-END", m + z); }
            i = j;
        }
    }
    // -------------------------------------------------------------- triangular tables (C19)
    bool m_in(const MS &m, int i, int j) { return i >= 0 && i <= j && j < m.n; }
    bool m_lockset(const Op &op, Ctx &c) {
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        auto rd = [&](Slot &s) { c.rl.push_back(&s.lk); }; auto wr = [&](Slot &s) { c.wl.push_back(&s.lk); };
        if (k == "mnew") return !S(0).any();
        if (k == "mcp") { if (S(0).any() || !S(1).m) return false; rd(S(1)); return true; }
        if (k == "masg") { if (!S(0).m || !S(1).m || S(0).m->ty != S(1).m->ty) return false; wr(S(0)); if (&S(0) != &S(1)) rd(S(1)); return true; }
        if (k == "mset") { if (!S(0).m || !m_in(*S(0).m, A_(op, 1), A_(op, 2))) return false; wr(S(0)); if (A_(op, 4) >= 0) { Slot &s = S(4); if (!s.m || s.m->ty != S(0).m->ty || !m_in(*s.m, A_(op, 5), A_(op, 6))) return false; if (&s != &S(0)) rd(s); } return true; }
        if (k == "mput") { if (!S(0).m || S(0).m->ty < 3 || !m_in(*S(0).m, A_(op, 1), A_(op, 2)) || S(0).m->o[S(0).m->at(A_(op, 1), A_(op, 2))]->owner != op.client) return false; wr(S(0)); return true; }
        if (k == "mrd") { if (!S(0).m) return false; rd(S(0)); return true; }
        return false;
    }
    void m_body(const Op &op, Words &) {
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        if (k == "mnew") {
            auto m = std::make_shared<MS>(); m->ty = A_(op, 1); m->n = A_(op, 2); m->owner = op.client; bool given = A_(op, 3); double y = D_(op, 4); size_t sz = (size_t)m->n * m->n;
            if (m->ty < 3) m->c.assign(sz, 0); else m->o.assign(sz, nullptr);
            m_with(*m, [&](auto &t) { typedef typename std::decay<decltype(*t)>::type M; typedef typename std::decay<decltype((*t)(0u, 0u))>::type E;
                if (!given) { { Lib b; t.reset(new M((unsigned)m->n)); } if (m->ty >= 3) { for (int i = 0; i < m->n; i++) for (int j = i; j < m->n; j++) { auto o = std::make_shared<MC>(); o->owner = op.client; m->o[m->at(i, j)] = o; } m->fresh = 1; } }
                else { MV<E> x; { Lib b; x.v = m_val(y, (E *)0); t.reset(new M((unsigned)m->n, x.v)); } auto o = m_obj(x.v, y, op.client); if (m->ty < 3) std::fill(m->c.begin(), m->c.end(), m_num(x.v)); else std::fill(m->o.begin(), m->o.end(), o); } });
            S(0).m = m;
        } else if (k == "mcp") {
            MS &s = *S(1).m; auto m = std::make_shared<MS>(); m->ty = s.ty; m->n = s.n; m->owner = op.client; m->c = s.c; m->o = s.o; 
            Lib b; switch (s.ty) { case 0: m->d.reset(new A::UpperTriangularMatrix<double>(*s.d)); break; case 1: m->i.reset(new A::UpperTriangularMatrix<int>(*s.i)); break; case 2: m->x.reset(new A::UpperTriangularMatrix<lp_quality_type>(*s.x)); break; case 3: m->q.reset(new A::UpperTriangularMatrix<shared_ptr<A::Quality>>(*s.q)); break; default: m->t.reset(new A::UpperTriangularMatrix<shared_ptr<A::Tradeoff>>(*s.t)); }
            S(0).m = m;
        } else if (k == "masg") {
            MS &m = *S(0).m, &s = *S(1).m; { Lib b; switch (s.ty) { case 0: *m.d = *s.d; break; case 1: *m.i = *s.i; break; case 2: *m.x = *s.x; break; case 3: *m.q = *s.q; break; default: *m.t = *s.t; } }
            if (&m != &s) { m.n = s.n; m.c = s.c; m.o = s.o; }
        } else if (k == "mset") {
            MS &m = *S(0).m; int i = A_(op, 1), j = A_(op, 2); double y = D_(op, 3); size_t z = m.at(i, j);
            if (A_(op, 4) >= 0) {
                MS &s = *S(4).m; int a = A_(op, 5), e = A_(op, 6);
                switch (m.ty) { case 0: { Lib b; (*m.d)(i, j, (*s.d)(a, e)); } break; case 1: { Lib b; (*m.i)(i, j, (*s.i)(a, e)); } break; case 2: { Lib b; (*m.x)(i, j, (*s.x)(a, e)); } break; case 3: { Lib b; (*m.q)(i, j, (*s.q)(a, e)); } break; default: { Lib b; (*m.t)(i, j, (*s.t)(a, e)); } }
                if (m.ty < 3) m.c[z] = s.c[s.at(a, e)]; else m.o[z] = s.o[s.at(a, e)];
            } else m_with(m, [&](auto &t) { typedef typename std::decay<decltype((*t)(0u, 0u))>::type E; MV<E> x; { Lib b; x.v = m_val(y, (E *)0); (*t)((unsigned)i, (unsigned)j, x.v); } auto o = m_obj(x.v, y, op.client); if (m.ty < 3) m.c[z] = m_num(x.v); else m.o[z] = o; });
        } else if (k == "mput") {
            MS &m = *S(0).m; int i = A_(op, 1), j = A_(op, 2); double y = D_(op, 3); { m_with(m, [&](auto &t) { Lib b; m_put((*t)(i, j), y); }); } m.o[m.at(i, j)]->g = y;
        }
    }
    void m_frame(const Op &op, const MS *but) {
        Quiet qq;
        for (int s = 0; s < NSLOT; s++) if (slots[s].m && slots[s].m.get() != but && (slots[s].m->owner == op.client || slots[s].m->owner == 0 || !conc)) {
            if (slots[s].m->n > 24 && (op.id + s) % 5) continue;      // the large ones now and then
            string e = m_check(*slots[s].m); if (!e.empty()) { char b[60]; snprintf(b, sizeof b, "register %d, which the call does not change: ", s); bad(op, "TABLE-FRAME", b + e); }
        }
    }
    void m_judge(const Op &op, Res &r) {
        MS &m = *slots[A_(op, 0)].m; string e = m_check(m); if (!e.empty()) bad(op, "TABLE-CELLS", e);
        if (m.ty < 3) for (ld x : m.c) w_ld(r.w, x); else for (auto &o : m.o) if (o) { w_ld(r.w, o->g); w_ld(r.w, o->l); w_ld(r.w, o->v); }
        log_event(mix((u64)op.id, hashw(r.w))); eval(m.n > 1); m_frame(op, &m);
        if (m.ty >= 3) { std::set<const void *> d; size_t cells = 0; for (auto &o : m.o) if (o) { d.insert(o->p); cells++; } if (d.size() > 1 && d.size() < cells) probe(18); }
        if (m.n > 255) probe(19);
    }
    // -------------------------------------------------------------- single qualities and tradeoffs (C15)
    bool x_lockset(const Op &op, Ctx &c) {
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        auto rd = [&](Slot &s) { c.rl.push_back(&s.lk); }; auto wr = [&](Slot &s) { c.wl.push_back(&s.lk); };
        if (k == "xnew") { if (S(0).any()) return false; int how = A_(op, 1); if (how == 3 || how == 4 || how == 5) { if (A_(op, 2) < 0) return true; if (!S(2).x || S(2).x->tr) return false; rd(S(2)); ld t; if (how == 5 && !x_fits(x_pic(S(2).x->g, S(2).x->l, (float)D_(op, 3), &t))) return false; } return true; }
        if (k == "xcp") { if (S(0).any() || !S(1).x) return false; rd(S(1)); return true; }
        if (k == "xasg") { if (!S(0).x || !S(1).x || S(0).x->tr != S(1).x->tr) return false; wr(S(0)); rd(S(1)); return true; }
        if (k == "xset") { if (!S(0).x) return false; XS &x = *S(0).x; wr(S(0)); int how = A_(op, 1); ld t, y = D_(op, 2);
            if (x.tr) { if (how & 1) { if (!S(3).x || S(3).x->tr) return false; rd(S(3)); return x_fits(x_pic(S(3).x->g, S(3).x->l, (float)y, &t)); } return x_fits(x_pic(x.g, x.l, (float)y, &t)); }
            return how == 2 ? x_fits(x.g + y) : how == 3 ? x_fits(x.l + y) : how == 4 ? x_fits(x.g * (1 + y)) : how == 5 ? x_fits(x.l * (1 + y)) : true; }
        if (k == "xcmp") { if (!S(0).x || !S(1).x || S(0).x->tr != S(1).x->tr || !x_can(A_(op, 2), *S(0).x, *S(1).x)) return false; wr(S(0)); rd(S(1)); return true; }
        if (k == "xbin") { if (S(0).any() || !S(1).x || !S(2).x || S(1).x->tr != S(2).x->tr || !x_can(A_(op, 3), *S(1).x, *S(2).x)) return false; rd(S(1)); rd(S(2)); return true; }
        if (k == "xrel") { if (!S(0).x || !S(1).x || S(0).x->tr != S(1).x->tr) return false; rd(S(0)); rd(S(1)); return true; }
        if (k == "xrd") { if (!S(0).x) return false; rd(S(0)); return true; }
        return false;
    }
    void x_body(const Op &op, Words &w) {
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        auto fresh_x = [&]() { auto x = std::make_shared<XS>(); x->owner = op.client; return x; };
        if (k == "xnew") {
            int how = A_(op, 1); auto x = fresh_x(); float p = (float)D_(op, 3); ld y = D_(op, 3), g = D_(op, 4), l = D_(op, 5);
            shared_ptr<A::Quality> q; if (how >= 3) { if (A_(op, 2) >= 0) { q = S(2).x->q; g = S(2).x->g; l = S(2).x->l; } else { Lib b; q.reset(new A::Quality(g, l)); } }
            x->tr = how >= 2;
            { Lib b; switch (how) {
                case 0: x->q.reset(new A::Quality()); break; case 1: x->q.reset(new A::Quality(g, l)); break; case 2: x->t.reset(new A::Tradeoff()); break;
                case 3: x->t.reset(new A::Tradeoff(q)); break; case 4: x->t.reset(new A::Tradeoff((lp_quality_type)y, q)); break; default: x->t.reset(new A::Tradeoff(q, p)); } q.reset(); }
            if (how == 0 || how == 2) g = l = 0;
            x->want(g, l, how == 4 ? y : 0); if (how == 5) x->ev = x_pic(g, l, p, &x->tv);
            S(0).x = x;
        } else if (k == "xcp") {
            XS &s = *S(1).x; auto x = fresh_x(); x->tr = s.tr; { Lib b; if (s.tr) x->t.reset(new A::Tradeoff(*s.t)); else x->q.reset(new A::Quality(*s.q)); } x->want(s.g, s.l, s.v); S(0).x = x;
        } else if (k == "xasg") {
            XS &x = *S(0).x, &s = *S(1).x; ld g = s.g, l = s.l, v = s.v; { Lib b; if (s.tr) *x.t = *s.t; else *x.q = *s.q; } x.want(g, l, v);
        } else if (k == "xset") {
            XS &x = *S(0).x; int how = A_(op, 1); ld y = D_(op, 2); x.want(x.g, x.l, x.v);
            if (x.tr) {
                float p = (float)y;
                if (how & 1) { XS &s = *S(3).x; { Lib b; x.t->set(s.q, p); } x.want(s.g, s.l, 0); } else if (how & 2) { Lib b; x.t->set(x.t->getQuality(), p); } else { Lib b; x.t->computePIC(p); }
                x.ev = x_pic(x.eg, x.el, p, &x.tv);
            } else {
                if (how == 4) y = x.g * (1 + y); if (how == 5) y = x.l * (1 + y);
                { Lib b; if (how == 0 || how == 4) x.q->setGain(y); else if (how == 1 || how == 5) x.q->setLoss(y); else if (how == 2) x.q->addToGain(y); else x.q->addToLoss(y); }
                if (how == 0 || how == 4) x.want(y, x.l, 0); else if (how == 1 || how == 5) x.want(x.g, y, 0); else { x.want(how == 2 ? x.g + y : x.g, how == 3 ? x.l + y : x.l, 0); (how == 2 ? x.tg : x.tl) = x_tol(0, how == 2 ? x.g : x.l, y); }
            }
        } else if (k == "xcmp") {
            XS &x = *S(0).x, &s = *S(1).x; int o = A_(op, 2); XS c; x_expect(c, o, x, s); x.eg = c.eg; x.el = c.el; x.ev = c.ev; x.tg = c.tg; x.tl = c.tl; x.tv = c.tv; Lib b;
            if (x.tr) { A::Tradeoff &d = *x.t, &e = *s.t; if (o == 0) d += e; else if (o == 1) d -= e; else if (o == 2) d *= e; else d /= e; }
            else { A::Quality &d = *x.q, &e = *s.q; if (o == 0) d += e; else if (o == 1) d -= e; else if (o == 2) d *= e; else d /= e; }
        } else if (k == "xbin") {
            XS &a = *S(1).x, &s = *S(2).x; int o = A_(op, 3); auto x = fresh_x(); x->tr = a.tr; x_expect(*x, o, a, s);
            { Lib b;
                if (a.tr) { A::Tradeoff &d = *a.t, &e = *s.t; x->t.reset(o == 0 ? new A::Tradeoff(d + e) : o == 1 ? new A::Tradeoff(d - e) : o == 2 ? new A::Tradeoff(d * e) : new A::Tradeoff(d / e)); }
                else { A::Quality &d = *a.q, &e = *s.q; x->q.reset(o == 0 ? new A::Quality(d + e) : o == 1 ? new A::Quality(d - e) : o == 2 ? new A::Quality(d * e) : new A::Quality(d / e)); } }
            S(0).x = x;
        } else if (k == "xrel") { w_i(w, x_rel(*S(0).x, *S(1).x)); w_i(w, x_rel(*S(1).x, *S(0).x)); }
        else if (k == "xrd") { XVal v = x_read(*S(0).x); w_ld(w, v.g); w_ld(w, v.l); w_ld(w, v.v); }
    }
    // every register this caller can see, but the one the call was to change, holds what it held
    void x_frame(const Op &op, const XS *but) {
        char m[200];
        for (int s = 0; s < NSLOT; s++) if (slots[s].x && slots[s].x.get() != but && (slots[s].x->owner == op.client || slots[s].x->owner == 0 || !conc)) {
            const XS &x = *slots[s].x; XVal y = x_read(x);
            if (!(y.g == x.g && y.l == x.l && y.v == x.v)) { snprintf(m, sizeof m, "register %d, which the call does not assign to, changed from (%.17Lg,%.17Lg) value %.17Lg to (%.17Lg,%.17Lg) value %.17Lg", s, x.g, x.l, x.v, y.g, y.l, y.v); bad(op, "SCALAR-FRAME", m); }
        }
    }
    void x_judge(const Op &op, Res &r) {
        const string &k = op.kind; char m[300]; XS &x = *slots[A_(op, 0)].x;
        if (k == "xrel") { const XS &y = *slots[A_(op, 1)].x; string e = x_judge_rel(x, y, (int)r.w[0], (int)r.w[1]); if (!e.empty()) { snprintf(m, sizeof m, "%s: (%.21Lg,%.21Lg) value %.21Lg against (%.21Lg,%.21Lg) value %.21Lg", e.c_str(), x.g, x.l, x.v, y.g, y.l, y.v); bad(op, "SCALAR-ORDER", m); } eval(x.g != y.g || x.l != y.l); if (x.tr && x.v == y.v && &x != &y) probe(13); x_frame(op, nullptr); return; }
        if (k == "xrd") {
            x_frame(op, nullptr); eval();
            if (!x.tr) { std::ostringstream o, e; e << "(" << x.g << "," << x.l << ")"; { Lib b; o << *x.q; } if (o.str() != e.str()) bad(op, "SCALAR-PRINT", "a quality prints as " + o.str() + ", it is " + e.str()); }
            return;
        }
        XVal y = x_read(x);
        if (!(fabsl(y.g - x.eg) <= x.tg) || !(fabsl(y.l - x.el) <= x.tl) || !(fabsl(y.v - x.ev) <= x.tv)) { snprintf(m, sizeof m, "the result is (%.17Lg,%.17Lg) value %.17Lg, component by component it is (%.17Lg,%.17Lg) value %.17Lg", y.g, y.l, y.v, x.eg, x.el, x.ev); bad(op, "SCALAR-RESULT", m); }
        x.g = y.g; x.l = y.l; x.v = y.v; eval(k != "xnew"); w_ld(r.w, y.g); w_ld(r.w, y.l); w_ld(r.w, y.v); log_event(mix((u64)op.id, hashw(r.w)));
        x_frame(op, &x);
    }
    // the library call; commits to the slot only when it returned
    void body(const Op &op, Words &w) {
        const string &k = op.kind; auto S = [&](size_t i) -> Slot & { return slots[A_(op, i)]; };
        if (k[0] == 'x') { x_body(op, w); return; }
        if (k[0] == 'm') { m_body(op, w); return; }
        if (k == "rcall") { RMap m = r_call(op); for (auto &x : m) { for (char ch : x.first) w_i(w, ch); for (double y : x.second) w_d(w, y); } rres[op.id].swap(m); }
        else if (k == "newv") { Data *d = dm.at(A_(op, 1)); VObj o = make_values(*d, d->v, A_(op, 2)); auto v = std::make_shared<VS>(); v->o = o; v->d = d; v->t = tm[d->id].get(); v->cur = d->v; S(0).v = v; }
        else if (k == "cpv") { auto &s = *S(1).v; VObj o = copy_values(s.o); auto v = std::make_shared<VS>(); v->o = o; v->d = s.d; v->t = s.t; v->cur = s.cur; S(0).v = v; }
        else if (k == "setv") { auto &v = *S(0).v; size_t ix = (size_t)A_(op, 1) % v.cur.size(); v.o.set(ix, D_(op, 2)); v.cur[ix] = D_(op, 2); }
        else if (k == "getv") { auto &v = *S(0).v; w = words_v(v); more_v(v, w); }
        else if (k == "newq") { auto &v = S(1).v; QObj o = make_q(v->o); auto q = std::make_shared<QS>(); q->o = o; q->d = v->d; q->tr = v->t; q->v = v; S(0).q = q; }
        else if (k == "newqx") { Data *d = dm.at(A_(op, 1)); const Tree &t = *tm[d->id]; Table r = ref_table(*d, d->v, t); scramble(r, A_(op, 2)); TObj x = supply_table(*d, r); QObj o = make_q_table(d->fam, x, *d); auto q = std::make_shared<QS>(); q->o = o; q->d = d; q->tr = &t; q->t = std::make_shared<Tbl>(); q->t->d = d; q->t->tr = &t; q->t->src = d->v; q->t->supplied = true; q->t->scr = A_(op, 2); S(0).q = q; }
        else if (k == "newqt") { auto &s = *S(1).q; TObj x = s.o.table(); QObj o = make_q_table(s.d->fam, x, *s.d); auto q = std::make_shared<QS>(); q->o = o; q->d = s.d; q->tr = s.tr; q->t = s.t; S(0).q = q; }
        else if (k == "cpq") { auto &s = *S(1).q; QObj o = copy_q(s.o); auto q = std::make_shared<QS>(); q->o = o; q->d = s.d; q->tr = s.tr; q->t = s.t; q->v = s.v; S(0).q = q; }
        else if (k == "compq") { auto &q = *S(0).q; q.o.compute(); if (q.v) { auto t = std::make_shared<Tbl>(); t->d = q.d; t->tr = q.tr; t->src = q.v->cur; q.t = t; } }
        else if (k == "normq") { auto &q = *S(0).q; q.o.normalize(); q.t->ev.push_back(Ev()); q.t->norms++; }
        else if (k == "setq") {                                          // the caller overwrites an entry of the shared table
            auto &q = *S(0).q; const Data &d = *q.d; Ev e; Rng z((u64)A_(op, 1)); e.h = (int)z.below(d.hs()); e.i = (int)z.below(d.n); e.j = e.i + (int)z.below(d.n - e.i); if (z.chance(0.15)) { e.h = q.tr->root; e.i = 0; e.j = d.n - 1; }
            TObj x = q.o.table(); get_entry(d.fam, x, e.h, e.i, e.j, e.g, e.l);
            int how = (int)z.below(4); if (how == 0) { e.g = z.range(0, 4); e.l = z.range(0, 4); } else if (how == 1) e.g = e.g * 2 + 0.5L; else if (how == 2) e.l = e.l * 2 + 0.5L; else std::swap(e.g, e.l);
            set_entry(d.fam, x, e.h, e.i, e.j, e.g, e.l); q.t->ev.push_back(e); q.t->norms++;
        }
        else if (k == "getq") { auto &q = *S(0).q; TObj x = q.o.table(); vector<std::pair<ld, ld>> o; bool ok = table_read(q.d->fam, q.d->hs(), q.d->n, x, o); w_i(w, ok); for (auto &e : o) { w_ld(w, e.first); w_ld(w, e.second); } if (with_queries()) w_i(w, q.o.size()); }
        else if (k == "newp" || k == "newpt") { auto &q = *S(1).q; PObj o = k == "newp" ? make_p(q.o) : make_p_table(q.o); auto p = std::make_shared<PS>(); p->o = o; p->d = q.d; p->tr = q.tr; p->t = q.t; S(0).p = p; }
        else if (k == "cpp") { auto &s = *S(1).p; PObj o = copy_p(s.o); auto p = std::make_shared<PS>(s); p->o = o; S(0).p = p; }
        else if (k == "best") { auto &p = *S(1).p; float x = (float)D_(op, 2); BObj o = best_of(p.o, x); if (!o.ok()) bad(op, "NULL", "no partition returned"); auto b = std::make_shared<BS>(); b->o = o; b->d = p.d; b->tr = p.tr; b->t = p.t; b->norm = p.t->norms; b->p = x; if (!op.noread) { Quiet q; b->info = info_of(o); b->seen = true; } S(0).b = b; }
        else if (k == "pick") { auto &p = *S(1).p; BObj o = pick_of(p.o, (size_t)A_(op, 2)); if (!o.ok()) bad(op, "NULL", "no partition listed"); auto b = std::make_shared<BS>(); b->o = o; b->d = p.d; b->tr = p.tr; b->t = p.t; b->norm = p.swnorm; b->picked = true; b->seen = true; { Quiet q; b->info = info_of(o); } b->p = b->info.p; S(0).b = b; }
        else if (k == "sweep") { auto &p = *S(0).p; float t = (float)D_(op, 1), a = (float)D_(op, 2), b = (float)D_(op, 3); bool df = A_(op, 4); p.o.sweep(t, a, b, df); p.swept = true; p.thr = t; p.mn = df ? 0 : a; p.mx = df ? 1 : b; p.defaults = df; p.swnorm = p.t->norms; if (!op.noread) { Quiet q; p.last = sweep_info(p.o); } }
        else if (k == "read") { auto &p = *S(0).p; bool same = !p.swept || p.t->norms == p.swnorm; w_sweep(w, sweep_info(p.o), same); }
        else if (k == "query") { w_query(w, query_info(S(0).p->o)); }
        else if (k == "asg") {
            if (S(0).v) { auto &x = *S(0).v, &y = *S(1).v; if (assign_v(x.o, y.o)) x.cur = y.cur; }
            else if (S(0).q) { auto &x = *S(0).q, &y = *S(1).q; if (assign_q(x.o, y.o)) { x.d = y.d; x.tr = y.tr; x.v = y.v; x.t = y.t; } }
            else if (S(0).b) { auto &x = *S(0).b, &y = *S(1).b; if (assign_b(x.o, y.o)) { BObj o = x.o; BS z = y; x = z; x.o = o; x.mine = true; } }
            else if (S(0).a) { auto &x = *S(0).a, &y = *S(1).a; if (assign_a(x.o, y.o)) { AObj o = x.o; AS z = y; x = z; x.o = o; } }
            else { auto &x = *S(0).p, &y = *S(1).p; if (assign_p(x.o, y.o)) { PObj o = x.o; PS z = y; x = z; x.o = o; } }
        }
        else if (k == "newb") {
            auto &q = *S(1).q; float x = (float)D_(op, 5); BObj o; auto b = std::make_shared<BS>();
            { TilingMaker m(*q.d, *q.tr, (long)D_(op, 2), (long)D_(op, 3), A_(op, 4)); o = build_b(q.o, *q.d, m.r, x); }
            b->o = o; b->d = q.d; b->tr = q.tr; b->t = q.t; b->norm = q.t->norms; b->p = x; b->mine = true; b->made = (long)D_(op, 2); b->bend = (long)D_(op, 3); b->tf = A_(op, 4);
            if (!op.noread) { Quiet z; b->info = info_of(o); b->seen = true; } S(0).b = b;
        }
        else if (k == "eqb") { for (long y : compare_b(S(0).b->o, S(1).b->o)) w_i(w, y); }
        else if (k == "cpb") { auto &s = *S(1).b; BObj o = copy_b(s.o); auto b = std::make_shared<BS>(s); b->o = o; b->mine = true; S(0).b = b; }
        else if (k == "cpa") { auto &s = *S(1).a; AObj o = copy_a(s.o); auto a = std::make_shared<AS>(s); a->o = o; S(0).a = a; }
        else if (k == "rdb") { w = words_b(*S(0).b); }
        else if (k == "agg") { auto &b = *S(1).b; auto &v = *S(2).v; AObj o = make_agg(b.o, v.o); auto a = std::make_shared<AS>(); a->o = o; a->d = v.d; a->tr = v.t; a->vals = v.cur; if (b.seen) a->info = b.info; else { Quiet q; a->info = info_of(b.o); } S(0).a = a; }
        else if (k == "rda") { w = words_a(*S(0).a); }
        else if (k == "drop") { Slot &s = S(0); shared_ptr<VS> v; shared_ptr<QS> q; shared_ptr<PS> p; shared_ptr<BS> b; shared_ptr<AS> a; shared_ptr<XS> x; shared_ptr<MS> mm; x.swap(s.x); mm.swap(s.m); if (mm) { mm->drop(); mm.reset(); } v.swap(s.v); q.swap(s.q); p.swap(s.p); b.swap(s.b); a.swap(s.a); rt::Lib l; if (x) { x->q.reset(); x->t.reset(); } if (v) v->o = VObj(); v.reset(); q.reset(); p.reset(); b.reset(); a.reset(); }
    }
    // content words of what a producing op left behind (so that it can be compared)
    void produced(const Op &op, Words &w) {
        Quiet qq; const string &k = op.kind; Slot &s = slots[A_(op, 0)];
        Words y; if (k[0] == 'x') return;
        if (k == "newv" || k == "cpv" || k == "setv" || (k == "asg" && s.v)) y = words_v(*s.v);
        else if (k == "asg" && s.q) { if (s.q->t) y = words_t(s.q->d, s.q->o); }
        else if (k == "compq" || k == "normq" || k == "setq" || k == "newqx" || k == "newqt") { if (s.q->t) y = words_t(s.q->d, s.q->o); }
        else if (k == "best" || k == "pick" || k == "newb" || k == "cpb" || (k == "asg" && s.b)) y = words_b(*s.b);
        else if (k == "agg" || k == "cpa" || (k == "asg" && s.a)) y = words_a(*s.a);
        else if (k == "sweep" || k == "newp" || k == "newpt" || k == "cpp" || k == "asg") y = words_p(*s.p);
        w.insert(w.end(), y.begin(), y.end());
    }
    BObj again(const BS &s, const QObj &q) { if (s.made) { TilingMaker m(*s.d, *s.tr, s.made, s.bend, s.tf); return build_b(q, *s.d, m.r, s.p); } PObj p = make_p(q); return best_of(p, s.p); }
    Words fresh(const Op &op) {   // C10: the same question put to fresh objects
        Quiet qq; const string &k = op.kind; Slot &s = slots[A_(op, 0)]; Words w;
        auto fp = [&](PS &p) { QObj q = fresh_q(*p.t, p.swept ? p.swnorm : p.t->norms); PObj o = make_p(q); if (p.swept) o.sweep(p.thr, p.mn, p.mx, p.defaults); return o; };
        if (k == "newv" || k == "cpv" || k == "setv" || k == "getv" || (k == "asg" && s.v)) { VS v; v.o = make_values(*s.v->d, s.v->cur, 0); v.d = s.v->d; v.t = s.v->t; v.cur = s.v->cur; w = words_v(v); if (k == "getv") more_v(v, w); }
        else if (k == "compq" || k == "normq" || k == "setq" || k == "getq" || k == "newqx" || k == "newqt") { if (s.q->t) { QObj q = fresh_q(*s.q->t, s.q->t->norms); w = words_t(s.q->d, q); if (k == "getq") w_i(w, q.size()); } }
        else if (k == "asg" && s.q) { QObj q = fresh_q(*s.q->t, s.q->t->norms); w = words_t(s.q->d, q); }
        else if (k == "eqb") { BS &x = *s.b, &y = *slots[A_(op, 1)].b; auto f = [&](BS &z) { QObj q = fresh_q(*z.t, z.norm); return again(z, q); }; BObj a = f(x), b = f(y); for (long z : compare_b(a, b)) w_i(w, z); }
        else if (k == "best" || k == "rdb" || k == "pick" || k == "newb" || k == "cpb" || (k == "asg" && s.b)) { QObj q = fresh_q(*s.b->t, s.b->norm); BObj b = again(*s.b, q); w_info(w, info_of(b), s.b->t->norms == s.b->norm); w_cuts(w, b); w_more_b(w, b, *s.b->d, s.b->t->norms == s.b->norm); }
        else if (k == "sweep" || k == "newp" || k == "newpt" || k == "cpp" || k == "read" || k == "query" || k == "asg") { PObj o = fp(*s.p); bool same = !s.p->swept || s.p->t->norms == s.p->swnorm; if (k != "query") w_sweep(w, sweep_info(o), same); if (k != "read") w_query(w, query_info(o)); }
        else if (k == "agg" || k == "rda") { AS a = *s.a; VObj v = make_values(*s.a->d, s.a->vals, 0); return Words(); }
        return w;
    }
    void judge(const Op &op, Res &r) {
        const string &k = op.kind; Quiet qq; Slot &s = slots[A_(op, 0)]; const string &c = pl.prop;
        if (c == "C01" || c == "C02" || c == "C03") {
            if (k == "best" || (k == "pick" && s.b->t->norms == s.b->norm)) check_partition(op, *s.b->t, s.b->norm, s.b->info, s.b->p, true, "computed");
            else if (k == "rdb") check_partition(op, *s.b->t, s.b->norm, info_of(s.b->o), s.b->p, s.b->t->norms == s.b->norm, "computed");
            else if (k == "sweep") { size_t i = 0, n = s.p->last.parts.size(); for (auto &x : s.p->last.parts) { if (n < 12 || i % (n / 8) == 0 || i + 1 == n) check_partition(op, *s.p->t, s.p->swnorm, x.second, x.first, true, "listed"); i++; } }
        } else if (c == "C04") { if ((k == "compq" || k == "normq" || k == "setq" || k == "getq" || k == "newqt" || k == "newqx") && s.q->t) check_table(op, *s.q); }
        else if (c == "C19") { if (k[0] == 'm') m_judge(op, r); else if (k == "drop") m_frame(op, nullptr); }
        else if (c == "C15") { if (k[0] == 'x') x_judge(op, r); else if (k == "drop") x_frame(op, nullptr); }
        else if (c == "C16") { if (k == "rcall") check_front(op); }
        else if (c == "C18") { if (k == "newb") check_built(op, *s.b); else if (k == "eqb") check_equal(op, *s.b, *slots[A_(op, 1)].b, r); }
        else if (c == "C05") { if (k == "sweep") check_sweep(op, *s.p); }
        else if (c == "C09") { if (k == "agg" || k == "rda" || k == "cpa" || (k == "asg" && s.a)) check_agg(op, *s.a); }
        else if (c == "C10") { if (!(k == "asg" && s.a) && k != "drop" && k != "newq" && k != "cpq" && k != "agg" && k != "rda" && k != "cpa") { Words f = fresh(op); if (f != r.w) bad(op, "STALE", "the answer differs from that of a fresh object (" + diffw(r.w, f) + ")"); eval(f.size() > 4); } else if (k == "asg" || k == "agg" || k == "rda" || k == "cpa") check_agg(op, *s.a); }
        else if (c == "C11") { if (k == "query" || k == "sweep" || k == "newp" || k == "newpt" || k == "cpp" || (k == "asg" && s.p)) check_query(op, *s.p); }
        else if (c == "C14") { if (k == "newv" || k == "setv" || k == "getv" || k == "cpv" || (k == "asg" && s.v)) check_values(op, *s.v); else if (k == "newq" && s.q->d->fam != FO) check_meta(op, *s.q->d, *s.q->tr, s.q->o.h ? s.q->o.h->getMetaData() : s.q->o.d->getMetaData()); else if ((k == "best" || k == "pick") && s.b->d->fam != FO) check_meta(op, *s.b->d, *s.b->tr, s.b->o.h ? s.b->o.h->getMetaData() : s.b->o.d->getMetaData()); }
    }
    static string diffw(const Words &a, const Words &b) { char m[100]; if (a.size() != b.size()) { snprintf(m, sizeof m, "%zu words against %zu", a.size(), b.size()); return m; } for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { snprintf(m, sizeof m, "word %zu of %zu", i, a.size()); return m; } return "equal"; }

    // work bound of a sweep, measured with single searches on the same partitioner (C12)
    u64 sweep_bound(const Op &op, PS &p) {
        u64 s1 = 0; size_t n = p.last.pl.size();
        for (size_t i = 0; i < n; i++) if (i < 4 || i + 4 > n || i % 7 == 0) { op_begin(op.client, op.id * 16 + 15); BObj b = best_of(p.o, p.last.pl[i]); u64 c = op_steps(); op_begin(op.client, op.id * 16 + 15); { rt::Lib l; bool e; if (b.o) e = *b.o == *b.o; else if (b.h) e = *b.h == *b.h; else e = *b.d == *b.d; (void)e; } u64 z = op_steps(); op_begin(op.client, op.id * 16 + 15); { Quiet q; } if (c + z > s1) s1 = c + z; }
        double range = (double)p.mx - p.mn, depth = p.thr > 0 ? std::min(180.0, std::max(0.0, ceil(log2(std::max(range, 1e-45) / p.thr))) + 3) : 180;
        double searches = 4 + (n > 0 ? (double)(n - 1) : 0) * depth;
        return (u64)(1.2 * searches * s1) + 200000;
    }
    void exec(const Op &op) {
        Res &r = res[op.id]; Ctx c;
        op_begin(op.client, op.id * 16); set_scope(in_scope(op.kind));
        op_point();
        if (!lockset(op, c)) { r.st = S_SKIP; sh->ops_skipped++; trace("client %d op %d %s: skipped\n", op.client, op.id, op.kind.c_str()); return; }
        if (conc) {
            std::set<RwLock *> w(c.wl.begin(), c.wl.end()), a(c.rl.begin(), c.rl.end()); a.insert(w.begin(), w.end());
            vector<RwLock *> all(a.begin(), a.end()); std::sort(all.begin(), all.end(), [&](RwLock *x, RwLock *y) { return x->id < y->id; });
            for (auto *l : all) if (w.count(l)) l->wr(); else l->rd();
            // inputs may have changed while waiting (another client dropped or created a slot): look again
            Ctx c2; if (!lockset(op, c2) || c2.rl != c.rl || c2.wl != c.wl) { for (auto *l : all) if (w.count(l)) l->uwr(); else l->urd(); Ctx c3; if (!lockset(op, c3)) { r.st = S_SKIP; sh->ops_skipped++; return; } exec(op); return; }
            keep_locked(op, r, c, all, w);
        } else { vector<RwLock *> none; std::set<RwLock *> w; keep_locked(op, r, c, none, w); }
    }
    void keep_locked(const Op &op, Res &r, Ctx &c, vector<RwLock *> &all, std::set<RwLock *> &wset) {
        vector<FaultSpec> fs = faults_of(op.id); bool c06 = is("C06"); Words before;
        vector<int> touch = c.rd; touch.insert(touch.end(), c.wr.begin(), c.wr.end());
        sh->ops++; int attempt = 0; bool done = false, failed = false;
        set_budget(is("C12") && base && (*base)[op.id].bound ? (*base)[op.id].bound : 800000000ull);
        for (size_t i = 0; !done; i++) {
            Fault f; bool has = i < fs.size();
            if (!has && failed && op.noretry) break;
            if (has) {
                FaultSpec &q = fs[i]; f.kind = q.kind; f.arg = q.arg; f.nth = q.nth;
                u64 tot = base ? (*base)[op.id].allocs : 0;
                if (q.rel) {
                    if (q.kind == F_LARGE) { size_t mxa = base ? (*base)[op.id].maxalloc : 64; f.arg = (u64)(q.frac * mxa); if (f.arg < 1) f.arg = 1; f.nth = 1; }
                    else if (q.kind == F_RATE) { f.nth = 1 + (u64)(q.frac * tot); }
                    else f.nth = 1 + (u64)(q.frac * tot * 0.999999);
                }
                if (sh->nfault < MAXFAULT) { auto &x = sh->faults[sh->nfault++]; x.client = op.client; x.op = op.id; x.kind = f.kind; x.nth = f.nth; x.arg = f.arg; x.total = tot; x.fired = 0; }
                if (c06) before = dump(touch);
            }
            Words w; bool threw = false; attempt++;
            op_begin(op.client, op.id * 16 + std::min(attempt, 14));
            if (is("C08")) scribble_stack();
            if (has) arm(f);
            try { body(op, w); }
            catch (const std::bad_alloc &) { threw = true; }
            catch (const std::exception &e) { disarm(); bad(op, "EXCEPTION", string("unexpected exception: ") + e.what()); }
            catch (...) { disarm(); bad(op, "EXCEPTION", "unexpected exception"); }
            u64 fired = op_fired(), al = op_allocs(), st = op_steps(); disarm(); r.steps = st;
            if (has && sh->nfault <= MAXFAULT && sh->nfault > 0) sh->faults[sh->nfault - 1].fired = fired;
            trace("client %d op %d %s attempt %d: %s (%llu allocations, %llu steps%s)\n", op.client, op.id, op.kind.c_str(), attempt, threw ? "bad_alloc" : "returned", (unsigned long long)al, (unsigned long long)st, fired ? ", allocation failed" : "");
            if (threw) {
                failed = true; sh->ops_failed++;
                if (!fired) bad(op, "EXCEPTION", "std::bad_alloc although no allocation was refused");
                if (is("C15")) { Quiet qq; x_frame(op, nullptr); eval(); }
                if (is("C19")) { m_frame(op, nullptr); eval(); }
                if (c06) { Words after = dump(touch); if (after != before) bad(op, "NOT-ATOMIC", "a failed call changed what its objects hold (" + diffw(before, after) + ")"); eval(); }
                continue;
            }
            if (fired) probe(20);
            done = true; r.allocs = al; r.maxalloc = op_maxalloc(); sh->ops_ok++; if (failed) sh->ops_retried++;
            if (!op.noread) produced(op, w); r.w.swap(w); r.st = S_OK;
            if (is("C12") && op.kind == "sweep") {
                if (baseline) { r.bound = sweep_bound(op, *slots[A_(op, 0)].p); if (st > r.bound) { char m[160]; snprintf(m, sizeof m, "sweep took %llu steps for %zu listed parameters, bound %llu", (unsigned long long)st, slots[A_(op, 0)].p->last.pl.size(), (unsigned long long)r.bound); bad(op, "WORK", m); } if (getenv("SIM_DEBUG")) fprintf(stderr, "C12 ratio %.3f thr %g n %zu\n", (double)st / r.bound, slots[A_(op, 0)].p->thr, slots[A_(op, 0)].p->last.pl.size()); }
                eval(slots[A_(op, 0)].p->last.pl.size() > 1); if (slots[A_(op, 0)].p->thr <= 0) probe(10);
            }
        }
        if (!done) { r.st = S_FAILED; r.tainted = true; }
        log_event(mix((u64)op.id * 4 + r.st, hashw(r.w)));
        if (done && !op.noread) judge(op, r);
        if (base && !baseline && done && (is("C06") || is("C07") || is("C08") || is("C16"))) {
            Res &b = (*base)[op.id];
            if (b.st == S_OK) { if (b.w != r.w) bad(op, is("C07") ? "CONCURRENT-RESULT" : is("C06") ? "RETRY-RESULT" : "CONTENT-DEPENDENT", string(is("C07") ? "the result differs from the same calls run alone (" : is("C06") ? "the result differs from the run without failures (" : "the result changes with the contents or placement of memory (") + diffw(b.w, r.w) + ")"); eval(r.w.size() > 4); }
        }
        for (auto *l : all) if (wset.count(l)) l->uwr(); else l->urd();
        op_begin(op.client, op.id * 16 + 15);
        op_point();
    }
    void seq(const vector<const Op *> &ops) { if (ops.empty()) return; Sched s; std::function<void()> f = [&] { for (auto *o : ops) exec(*o); }; conc = false; run_threads(s, {f}, {ops[0]->client}); }
    void run(bool concurrent_clients, const std::vector<SwitchRec> *replay) {
        begin_world(pl.hseed[wi], pl.fill[wi], pl.lay[wi], wi);
        log_event(0x3031 + wi);
        std::map<int, vector<const Op *>> by; for (auto &o : pl.ops) by[o.client].push_back(&o);
        seq(by[0]);
        vector<int> cl; for (int i = 1; i <= MAXT; i++) if (!by[i].empty()) cl.push_back(i);
        if (!concurrent_clients || cl.size() < 2) { for (int x : cl) seq(by[x]); }
        else {
            Sched s; s.strategy = replay ? (int)ST_REPLAY : pl.strategy; s.seed = pl.seed; s.mean = pl.mean; s.pct_depth = pl.depth; s.replay = replay;
            if (base) { u64 t = 0; for (int x : cl) for (auto *o : by[x]) t += (*base)[o->id].steps; s.pct_len = t ? t : 20000; }
            vector<std::function<void()>> fns; conc = true;
            for (int x : cl) fns.push_back([this, x, &by] { for (auto *o : by[x]) exec(*o); });
            run_threads(s, fns, cl); conc = false;
        }
        seq(by[9]);
    }
    void drop_all() { op_begin(8, 0); set_scope(!baseline || is("C08")); Quiet q; Lib l; for (auto &x : slots) { x.v.reset(); x.q.reset(); x.p.reset(); x.b.reset(); x.a.reset(); x.x.reset(); x.m.reset(); } }
    void teardown() {
        Sched s; std::function<void()> f = [&] { drop_all(); };
        conc = false; run_threads(s, {f}, {8});
    }
    // the whole history and its end on the calling thread, which lives on
    void resident() {
        begin_world(pl.hseed[wi], pl.fill[wi], pl.lay[wi], wi); log_event(0x3131 + wi); conc = false;
        vector<int> order; for (auto &o : pl.ops) if (std::find(order.begin(), order.end(), o.client) == order.end()) order.push_back(o.client);
        std::sort(order.begin(), order.end());
        for (int c : order) for (auto &o : pl.ops) if (o.client == c) exec(o);
        drop_all();
    }
};

// the reference history in a child process: what the parent needs of it comes back through a pipe
inline bool apart(const Plan &pl) { return mix(pl.hseed[0], 0xA9A27) & 1; }
inline void put(vector<u64> &o, u64 v) { o.push_back(v); }
inline void base_apart(const Plan &pl, vector<Res> &base) {
    int fd[2]; if (pipe(fd)) _exit(70);
    fflush(stdout); pid_t k = fork(); if (k < 0) _exit(70);
    if (!k) {
        close(fd[0]); World w(pl, 0, false, nullptr); w.run(false, nullptr); w.teardown();
        vector<u64> o; put(o, w.res.size()); for (auto &r : w.res) { put(o, r.st); put(o, r.allocs); put(o, r.steps); put(o, r.bound); put(o, r.maxalloc); put(o, r.tainted); put(o, r.w.size()); for (auto x : r.w) put(o, (u64)x); }
        const char *b = (const char *)o.data(); size_t n = o.size() * 8; while (n) { ssize_t g = write(fd[1], b, n); if (g <= 0) _exit(70); b += g; n -= g; }
        fflush(stdout); _exit(0);
    }
    close(fd[1]); vector<u64> in; std::string raw; static char buf[65536]; ssize_t g; while ((g = read(fd[0], buf, sizeof buf)) > 0) raw.append(buf, g);
    close(fd[0]); int st; while (waitpid(k, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(75); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    in.resize(raw.size() / 8); memcpy(in.data(), raw.data(), in.size() * 8);
    size_t i = 0; base.resize(in[i++]); for (auto &r : base) { r.st = (int)in[i++]; r.allocs = in[i++]; r.steps = in[i++]; r.bound = in[i++]; r.maxalloc = in[i++]; r.tainted = in[i++]; r.w.resize(in[i++]); for (auto &x : r.w) x = in[i++]; }
    probe(17);
}
inline void run_plan(const Plan &pl, bool explicit_replay) {
    bool c16 = pl.prop == "C16", c08 = pl.prop == "C08", c07 = pl.prop == "C07", c13 = pl.prop == "C13" || c16, c15 = pl.prop == "C15" || pl.prop == "C19", cmp = pl.prop == "C06" || c07 || c08 || c16;
    chk_heap = c08 || c16 || c15; chk_race = c07 || c15 || pl.prop == "C18";
    double most = 0; for (auto &d : pl.data) most = std::max(most, (double)d.hs() * d.n * (d.n + 1) / 2); double tables = 2; for (auto &o : pl.ops) if (o.kind == "compq" || o.kind == "newq" || o.kind == "newqt" || o.kind == "newqx" || o.kind == "cpq" || o.kind == "best") tables++;
    large_run = most * 250 * tables > 100e6;
    bool need_base = cmp || c13 || pl.prop == "C12" || !pl.faults.empty();
    std::set<int> cl; for (auto &o : pl.ops) if (o.client >= 1 && o.client <= MAXT) cl.insert(o.client);
    vector<Res> base; u64 warm = 0;
    const std::vector<SwitchRec> *rp = explicit_replay ? &pl.sw : nullptr;
    // in half of the runs the undisturbed reference history runs in a process of its own, so that the disturbed one meets the library at first use
    if (need_base && !c13 && apart(pl)) base_apart(pl, base);
    else if (need_base) { World w(pl, 0, false, nullptr); w.run(false, nullptr); w.teardown(); base = w.res; warm = live_blocks(); }
    {
        World w(pl, 1, !pl.faults.empty(), need_base ? &base : nullptr); w.run(true, rp); w.teardown();
        if (c13) {
            sh->oracle_evals++; if (sh->ops_failed) sh->nontrivial++;
            if (live_blocks() != warm) { char m[200]; snprintf(m, sizeof m, "%lld block(s) of the calls' memory are still held after every object was destroyed (%llu calls were cut short)", (long long)(live_blocks() - warm), (unsigned long long)sh->ops_failed); violate("LEAK", m); }
        }
        if (c13) { u64 w1 = live_blocks(); World v(pl, 2, !pl.faults.empty(), &base); v.run(true, rp); v.teardown(); if (live_blocks() != w1) { char m[160]; snprintf(m, sizeof m, "repeating the history holds %lld more block(s)", (long long)(live_blocks() - w1)); violate("LEAK", m); } }
        // a caller's thread that lives on: what is kept for it while it lives must not grow with failed calls
        if (pl.prop == "C13" && cl.size() < 2 && (mix(pl.hseed[0], 0x5E51D) & 1)) {
            u64 n[2] = {0, 0}; Sched s;
            std::function<void()> f = [&] { for (int k = 0; k < 2; k++) { World v(pl, k, k && !pl.faults.empty(), k ? &base : nullptr); v.resident(); n[k] = live_blocks(); } };
            run_threads(s, {f}, {1}); sh->oracle_evals++; probe(21);
            if (n[1] > n[0]) { char m[200]; snprintf(m, sizeof m, "repeating the history on the same thread holds %lld more block(s)", (long long)(n[1] - n[0])); violate("LEAK", m); }
        }
    }
    if (c08) { World w(pl, 2, !pl.faults.empty(), &base); w.run(true, rp); w.teardown(); }
}
}
