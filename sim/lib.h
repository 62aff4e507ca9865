// Uniform handles over the real library's classes (no logic of their own).
#pragma once
#include "data.h"
#include "opartitioner.h"
#include "hpartitioner.h"
#include "dpartitioner.h"
#include "oaggregationn.h"
#include "haggregationn.h"
#include "daggregationn.h"

namespace lp {
using std::shared_ptr; using std::unique_ptr;
namespace A = lpaggreg;
typedef vector<double> V1; typedef vector<V1> V2; typedef vector<V2> V3; typedef vector<V3> V4;
#define CASES(X) X(0, 1, O) X(0, 2, O) X(0, 3, O) X(0, 4, O) X(1, 1, H) X(1, 2, H) X(1, 3, H) X(1, 4, H) X(2, 2, D) X(2, 3, D) X(2, 4, D)

inline V1 nest1(const vector<double> &f, size_t &p, const vector<int> &s, int at) { V1 r; for (int i = 0; i < s[at]; i++) r.push_back(f[p++]); return r; }
inline V2 nest2(const vector<double> &f, size_t &p, const vector<int> &s, int at) { V2 r; for (int i = 0; i < s[at]; i++) r.push_back(nest1(f, p, s, at + 1)); return r; }
inline V3 nest3(const vector<double> &f, size_t &p, const vector<int> &s, int at) { V3 r; for (int i = 0; i < s[at]; i++) r.push_back(nest2(f, p, s, at + 1)); return r; }
inline V4 nest4(const vector<double> &f, size_t &p, const vector<int> &s, int at) { V4 r; for (int i = 0; i < s[at]; i++) r.push_back(nest3(f, p, s, at + 1)); return r; }

inline void coords(const vector<int> &s, size_t ix, unsigned *c) { for (int i = (int)s.size() - 1; i >= 0; i--) { c[i] = (unsigned)(ix % s[i]); ix /= s[i]; } }

struct VObj {
    int fam = 0, N = 1; vector<int> shp;
    shared_ptr<A::OValues> o; shared_ptr<A::HValues> h; shared_ptr<A::DValues> d;
    void set(size_t ix, double x) {
        unsigned c[4] = {0, 0, 0, 0}; coords(shp, ix, c);
        rt::Lib l;
        switch (fam * 10 + N) {
        case 1: (*static_cast<A::OValuesN1 *>(o.get()))(c[0], x); break;
        case 2: (*static_cast<A::OValuesN2 *>(o.get()))(c[0], c[1], x); break;
        case 3: (*static_cast<A::OValuesN3 *>(o.get()))(c[0], c[1], c[2], x); break;
        case 4: (*static_cast<A::OValuesN4 *>(o.get()))(c[0], c[1], c[2], c[3], x); break;
        case 11: (*static_cast<A::HValuesN1 *>(h.get()))(c[0], x); break;
        case 12: (*static_cast<A::HValuesN2 *>(h.get()))(c[0], c[1], x); break;
        case 13: (*static_cast<A::HValuesN3 *>(h.get()))(c[0], c[1], c[2], x); break;
        case 14: (*static_cast<A::HValuesN4 *>(h.get()))(c[0], c[1], c[2], c[3], x); break;
        case 22: (*static_cast<A::DValuesN2 *>(d.get()))(c[0], c[1], x); break;
        case 23: (*static_cast<A::DValuesN3 *>(d.get()))(c[0], c[1], c[2], x); break;
        case 24: (*static_cast<A::DValuesN4 *>(d.get()))(c[0], c[1], c[2], c[3], x); break;
        }
    }
    double get(size_t ix) const {
        unsigned c[4] = {0, 0, 0, 0}; coords(shp, ix, c);
        rt::Lib l;
        switch (fam * 10 + N) {
        case 1: return (*static_cast<A::OValuesN1 *>(o.get()))(c[0]);
        case 2: return (*static_cast<A::OValuesN2 *>(o.get()))(c[0], c[1]);
        case 3: return (*static_cast<A::OValuesN3 *>(o.get()))(c[0], c[1], c[2]);
        case 4: return (*static_cast<A::OValuesN4 *>(o.get()))(c[0], c[1], c[2], c[3]);
        case 11: return (*static_cast<A::HValuesN1 *>(h.get()))(c[0]);
        case 12: return (*static_cast<A::HValuesN2 *>(h.get()))(c[0], c[1]);
        case 13: return (*static_cast<A::HValuesN3 *>(h.get()))(c[0], c[1], c[2]);
        case 14: return (*static_cast<A::HValuesN4 *>(h.get()))(c[0], c[1], c[2], c[3]);
        case 22: return (*static_cast<A::DValuesN2 *>(d.get()))(c[0], c[1]);
        case 23: return (*static_cast<A::DValuesN3 *>(d.get()))(c[0], c[1], c[2]);
        case 24: return (*static_cast<A::DValuesN4 *>(d.get()))(c[0], c[1], c[2], c[3]);
        }
        return 0;
    }
    A::HValuesMetaData meta() const { return fam == FH ? h->getMetaData() : d->getMetaData(); }
};
// mode 0: from nested vectors, 1: sized constructor then element by element, 2: the same, but zeros are left unwritten
inline VObj make_values(const Data &d, const vector<double> &flat, int mode) {
    VObj r; r.fam = d.fam; r.N = d.N; r.shp = d.shape();
    vector<int> s = r.shp; size_t p = 0; const int *q = d.dims;
    V1 v1; V2 v2; V3 v3; V4 v4;
    if (mode == 0) switch (d.N) { case 1: v1 = nest1(flat, p, s, 0); break; case 2: v2 = nest2(flat, p, s, 0); break; case 3: v3 = nest3(flat, p, s, 0); break; case 4: v4 = nest4(flat, p, s, 0); break; }
    {
        rt::Lib l;
        vector<int> par(d.par);
        switch (d.fam * 10 + d.N + (mode ? 100 : 0)) {
        case 1: r.o = shared_ptr<A::OValues>(new A::OValuesN1(v1)); break;
        case 2: r.o = shared_ptr<A::OValues>(new A::OValuesN2(v2)); break;
        case 3: r.o = shared_ptr<A::OValues>(new A::OValuesN3(v3)); break;
        case 4: r.o = shared_ptr<A::OValues>(new A::OValuesN4(v4)); break;
        case 11: r.h = shared_ptr<A::HValuesN1>(new A::HValuesN1(v1, par)); break;
        case 12: r.h = shared_ptr<A::HValuesN2>(new A::HValuesN2(v2, par)); break;
        case 13: r.h = shared_ptr<A::HValuesN3>(new A::HValuesN3(v3, par)); break;
        case 14: r.h = shared_ptr<A::HValuesN4>(new A::HValuesN4(v4, par)); break;
        case 22: r.d = shared_ptr<A::DValuesN2>(new A::DValuesN2(v2, par)); break;
        case 23: r.d = shared_ptr<A::DValuesN3>(new A::DValuesN3(v3, par)); break;
        case 24: r.d = shared_ptr<A::DValuesN4>(new A::DValuesN4(v4, par)); break;
        case 101: r.o = shared_ptr<A::OValuesN1>(new A::OValuesN1((unsigned)d.n)); break;
        case 102: r.o = shared_ptr<A::OValuesN2>(new A::OValuesN2(q[0], d.n)); break;
        case 103: r.o = shared_ptr<A::OValuesN3>(new A::OValuesN3(q[0], q[1], d.n)); break;
        case 104: r.o = shared_ptr<A::OValuesN4>(new A::OValuesN4(q[0], q[1], q[2], d.n)); break;
        case 111: r.h = shared_ptr<A::HValuesN1>(new A::HValuesN1((unsigned)d.L, par)); break;
        case 112: r.h = shared_ptr<A::HValuesN2>(new A::HValuesN2((unsigned)d.L, q[0], par)); break;
        case 113: r.h = shared_ptr<A::HValuesN3>(new A::HValuesN3((unsigned)d.L, q[0], q[1], par)); break;
        case 114: r.h = shared_ptr<A::HValuesN4>(new A::HValuesN4((unsigned)d.L, q[0], q[1], q[2], par)); break;
        case 122: r.d = shared_ptr<A::DValuesN2>(new A::DValuesN2((unsigned)d.L, d.n, par)); break;
        case 123: r.d = shared_ptr<A::DValuesN3>(new A::DValuesN3((unsigned)d.L, q[0], d.n, par)); break;
        case 124: r.d = shared_ptr<A::DValuesN4>(new A::DValuesN4((unsigned)d.L, q[0], q[1], d.n, par)); break;
        }
    }
    if (mode) for (size_t i = 0; i < flat.size(); i++) if (mode == 1 || flat[i] != 0) r.set(i, flat[i]);
    return r;
}
inline VObj copy_values(const VObj &s) {
    VObj r; r.fam = s.fam; r.N = s.N; r.shp = s.shp; rt::Lib l;
    switch (s.fam * 10 + s.N) {
    case 1: r.o = shared_ptr<A::OValues>(new A::OValuesN1(*static_cast<A::OValuesN1 *>(s.o.get()))); break;
    case 2: r.o = shared_ptr<A::OValues>(new A::OValuesN2(*static_cast<A::OValuesN2 *>(s.o.get()))); break;
    case 3: r.o = shared_ptr<A::OValues>(new A::OValuesN3(*static_cast<A::OValuesN3 *>(s.o.get()))); break;
    case 4: r.o = shared_ptr<A::OValues>(new A::OValuesN4(*static_cast<A::OValuesN4 *>(s.o.get()))); break;
    case 11: r.h = shared_ptr<A::HValuesN1>(new A::HValuesN1(*static_cast<A::HValuesN1 *>(s.h.get()))); break;
    case 12: r.h = shared_ptr<A::HValuesN2>(new A::HValuesN2(*static_cast<A::HValuesN2 *>(s.h.get()))); break;
    case 13: r.h = shared_ptr<A::HValuesN3>(new A::HValuesN3(*static_cast<A::HValuesN3 *>(s.h.get()))); break;
    case 14: r.h = shared_ptr<A::HValuesN4>(new A::HValuesN4(*static_cast<A::HValuesN4 *>(s.h.get()))); break;
    case 22: r.d = shared_ptr<A::DValuesN2>(new A::DValuesN2(*static_cast<A::DValuesN2 *>(s.d.get()))); break;
    case 23: r.d = shared_ptr<A::DValuesN3>(new A::DValuesN3(*static_cast<A::DValuesN3 *>(s.d.get()))); break;
    case 24: r.d = shared_ptr<A::DValuesN4>(new A::DValuesN4(*static_cast<A::DValuesN4 *>(s.d.get()))); break;
    }
    return r;
}

struct TObj { oqualities o; hqualities h; dqualities d; };
struct QObj {
    int fam = 0; shared_ptr<A::OQualities> o; shared_ptr<A::HQualities> h; shared_ptr<A::DQualities> d;
    void compute() { rt::Lib l; if (o) o->computeQualities(); else if (h) h->computeQualities(); else d->computeQualities(); }
    void normalize() { rt::Lib l; if (o) o->normalize(); else if (h) h->normalize(); else d->normalize(); }
    TObj table() const { TObj t; rt::Lib l; if (o) t.o = o->getQualities(); else if (h) t.h = h->getQualities(); else t.d = d->getQualities(); return t; }
    unsigned size() { rt::Lib l; return o ? o->size() : h ? h->size() : d->size(); }
};
inline QObj make_q(const VObj &v) {
    QObj q; q.fam = v.fam; rt::Lib l;
    if (v.fam == FO) q.o = shared_ptr<A::OQualities>(new A::OQualities(v.o)); else if (v.fam == FH) q.h = shared_ptr<A::HQualities>(new A::HQualities(v.h)); else q.d = shared_ptr<A::DQualities>(new A::DQualities(v.d));
    return q;
}
inline QObj copy_q(const QObj &s) {
    QObj q; q.fam = s.fam; rt::Lib l;
    if (s.o) q.o = shared_ptr<A::OQualities>(new A::OQualities(*s.o)); else if (s.h) q.h = shared_ptr<A::HQualities>(new A::HQualities(*s.h)); else q.d = shared_ptr<A::DQualities>(new A::DQualities(*s.d));
    return q;
}
inline QObj make_q_table(int fam, const TObj &t, const Data &d) {
    QObj q; q.fam = fam; rt::Lib l;
    if (fam == FO) q.o = shared_ptr<A::OQualities>(new A::OQualities(t.o)); else {
        A::HValuesMetaData md((unsigned)d.L, vector<int>(d.par));
        if (fam == FH) q.h = shared_ptr<A::HQualities>(new A::HQualities(t.h, md)); else q.d = shared_ptr<A::DQualities>(new A::DQualities(t.d, md));
    }
    return q;
}
// a table filled in by the caller, through the public container types
inline TObj supply_table(const Data &d, const Table &r) {
    TObj t; rt::Lib l; typedef shared_ptr<A::Quality> Q;
    if (d.fam == FO) { t.o = oqualities(new A::UpperTriangularMatrix<Q>(d.n)); for (int i = 0; i < d.n; i++) for (int j = i; j < d.n; j++) (*t.o)(i, j, Q(new A::Quality(r.g[r.ix(0, i, j)], r.l[r.ix(0, i, j)]))); }
    else if (d.fam == FH) { t.h = hqualities(new vector<Q>()); for (int h = 0; h < r.hs; h++) t.h->push_back(Q(new A::Quality(r.g[h], r.l[h]))); }
    else {
        t.d = dqualities(new vector<oqualities>());
        for (int h = 0; h < r.hs; h++) { oqualities m(new A::UpperTriangularMatrix<Q>(d.n)); for (int i = 0; i < d.n; i++) for (int j = i; j < d.n; j++) { (*m)(i, j)->setGain(r.g[r.ix(h, i, j)]); (*m)(i, j)->setLoss(r.l[r.ix(h, i, j)]); } t.d->push_back(m); }
    }
    return t;
}
inline shared_ptr<A::Quality> entry_of(int fam, const TObj &t, int h, int i, int j) { return fam == FO ? (*t.o)(i, j) : fam == FH ? (*t.h)[h] : (*(*t.d)[h])(i, j); }
inline void get_entry(int fam, const TObj &t, int h, int i, int j, ld &g, ld &l) { rt::Lib x; auto q = entry_of(fam, t, h, i, j); g = q->getGain(); l = q->getLoss(); }
inline void set_entry(int fam, const TObj &t, int h, int i, int j, ld g, ld l) { rt::Lib x; auto q = entry_of(fam, t, h, i, j); q->setGain(g); q->setLoss(l); }
inline bool table_null(int fam, const TObj &t) { return fam == FO ? !t.o : fam == FH ? !t.h : !t.d; }

struct PObj {
    int fam = 0; shared_ptr<A::OPartitioner> o; shared_ptr<A::HPartitioner> h; shared_ptr<A::DPartitioner> d;
    A::Partitioner *base() const { return o ? (A::Partitioner *)o.get() : h ? (A::Partitioner *)h.get() : (A::Partitioner *)d.get(); }
    void sweep(float t, float a, float b, bool defaults) { rt::Lib l; A::Partitioner *p = base(); if (defaults) { if (o) o->computeBestPartitions(t); else if (h) h->computeBestPartitions(t); else d->computeBestPartitions(t); } else p->computeBestPartitions(t, a, b); }
};
inline PObj make_p(const QObj &q) {
    PObj p; p.fam = q.fam; rt::Lib l;
    if (q.o) p.o = shared_ptr<A::OPartitioner>(new A::OPartitioner(*q.o)); else if (q.h) p.h = shared_ptr<A::HPartitioner>(new A::HPartitioner(*q.h)); else p.d = shared_ptr<A::DPartitioner>(new A::DPartitioner(*q.d));
    return p;
}
inline PObj make_p_table(const QObj &q) {
    PObj p; p.fam = q.fam; rt::Lib l;
    if (q.o) p.o = shared_ptr<A::OPartitioner>(new A::OPartitioner(q.o->getQualities())); else if (q.h) p.h = shared_ptr<A::HPartitioner>(new A::HPartitioner(q.h->getQualities(), q.h->getMetaData())); else p.d = shared_ptr<A::DPartitioner>(new A::DPartitioner(q.d->getQualities(), q.d->getMetaData()));
    return p;
}
inline PObj copy_p(const PObj &s) {
    PObj p; p.fam = s.fam; rt::Lib l;
    if (s.o) p.o = shared_ptr<A::OPartitioner>(new A::OPartitioner(*s.o)); else if (s.h) p.h = shared_ptr<A::HPartitioner>(new A::HPartitioner(*s.h)); else p.d = shared_ptr<A::DPartitioner>(new A::DPartitioner(*s.d));
    return p;
}
// assignment, where the classes allow it
template <class T> typename std::enable_if<std::is_copy_assignable<T>::value, bool>::type assign_one(T &a, const T &b) { a = b; return true; }
template <class T> typename std::enable_if<!std::is_copy_assignable<T>::value, bool>::type assign_one(T &, const T &) { return false; }
// the first and the last change places by plain assignments; true if they did
template <class T> bool swap_ends(vector<T> &v) { if (v.size() < 2) return false; T t(v.front()); if (!assign_one(v.front(), v.back())) return false; return assign_one(v.back(), t); }
template <class T> T &swapped(vector<T> &v, size_t i, bool sw) { return v[!sw ? i : i == 0 ? v.size() - 1 : i + 1 == v.size() ? 0 : i]; }
inline bool assign_v(VObj &x, const VObj &y) {
    rt::Lib l;
    switch (x.fam * 10 + x.N) {
#define ASG(k, N_, F) case k * 10 + N_: return assign_one(static_cast<A::F##ValuesN##N_ &>(*x.ASG_##F), static_cast<const A::F##ValuesN##N_ &>(*y.ASG_##F));
#define ASG_O o
#define ASG_H h
#define ASG_D d
    CASES(ASG)
#undef ASG
    }
    return false;
}
inline bool assign_q(QObj &x, const QObj &y) { rt::Lib l; return x.o ? assign_one(*x.o, *y.o) : x.h ? assign_one(*x.h, *y.h) : assign_one(*x.d, *y.d); }
inline bool assign_p(PObj &x, const PObj &y) { rt::Lib l; return x.o ? assign_one(*x.o, *y.o) : x.h ? assign_one(*x.h, *y.h) : assign_one(*x.d, *y.d); }
struct BObj { int fam = 0; shared_ptr<A::OPartition> o; shared_ptr<A::HPartition> h; shared_ptr<A::DPartition> d; bool ok() const { return o || h || d; } };
inline BObj best_of(const PObj &p, float x) { BObj b; b.fam = p.fam; rt::Lib l; if (p.o) b.o = p.o->computeBestPartition(x); else if (p.h) b.h = p.h->computeBestPartition(x); else b.d = p.d->computeBestPartition(x); return b; }
// one of the listed partitions of the last sweep
inline BObj pick_of(const PObj &p, size_t ix) {
    BObj b; b.fam = p.fam; rt::Lib l;
#define PICK(f) if (p.f) { auto m = p.f->getPartitions(); if (!m.empty()) { auto it = m.begin(); std::advance(it, ix % m.size()); b.f = it->second; } }
    PICK(o) PICK(h) PICK(d)
#undef PICK
    return b;
}
inline PInfo info_of(const BObj &b) {
    PInfo r;
    if (b.o) {
        vector<A::OPart> ps; shared_ptr<A::Quality> q; bool sw; { rt::Lib l; ps = b.o->getParts(); sw = swap_ends(ps); q = b.o->getQuality(); r.p = b.o->getParameter(); }
        if (q) { r.g = q->getGain(); r.l = q->getLoss(); }
        for (size_t at = 0; at < ps.size(); at++) { auto &x = swapped(ps, at, sw); Pt t; t.h = 0; t.size = x.getSize(); t.s = x.getStart(); t.e = x.getEnd(); auto z = x.getQuality(); t.g = z ? z->getGain() : NAN; t.l = z ? z->getLoss() : NAN; r.parts.push_back(t); }
    } else if (b.h) {
        vector<A::HPart> ps; shared_ptr<A::Quality> q; bool sw; { rt::Lib l; ps = b.h->getParts(); sw = swap_ends(ps); q = b.h->getQuality(); r.p = b.h->getParameter(); }
        if (q) { r.g = q->getGain(); r.l = q->getLoss(); }
        for (size_t at = 0; at < ps.size(); at++) { auto &x = swapped(ps, at, sw); Pt t; t.h = x.getH(); t.size = x.getSize(); t.s = t.e = 0; auto z = x.getQuality(); t.g = z ? z->getGain() : NAN; t.l = z ? z->getLoss() : NAN; r.parts.push_back(t); }
    } else if (b.d) {
        vector<A::DPart> ps; shared_ptr<A::Quality> q; bool sw; { rt::Lib l; ps = b.d->getParts(); sw = swap_ends(ps); q = b.d->getQuality(); r.p = b.d->getParameter(); }
        if (q) { r.g = q->getGain(); r.l = q->getLoss(); }
        for (size_t at = 0; at < ps.size(); at++) { auto &x = swapped(ps, at, sw); Pt t; t.h = x.getH(); t.size = x.getHSize(); t.s = x.getStart(); t.e = x.getEnd(); auto z = x.getQuality(); t.g = z ? z->getGain() : NAN; t.l = z ? z->getLoss() : NAN; if (x.getOSize() != t.e - t.s + 1 || x.getSize() != t.size * (t.e - t.s + 1)) t.size = -1; r.parts.push_back(t); }
    }
    return r;
}

// aggregates, flattened: per part, per attribute
struct AObj {
    int fam = 0, N = 1;
    shared_ptr<A::OAggregationN1> o1; shared_ptr<A::OAggregationN2> o2; shared_ptr<A::OAggregationN3> o3; shared_ptr<A::OAggregationN4> o4;
    shared_ptr<A::HAggregationN1> h1; shared_ptr<A::HAggregationN2> h2; shared_ptr<A::HAggregationN3> h3; shared_ptr<A::HAggregationN4> h4;
    shared_ptr<A::DAggregationN2> d2; shared_ptr<A::DAggregationN3> d3; shared_ptr<A::DAggregationN4> d4;
};
inline AObj make_agg(const BObj &b, const VObj &v) {
    AObj a; a.fam = v.fam; a.N = v.N; rt::Lib l;
#define MK(F, f, N_) a.f##N_ = shared_ptr<A::F##AggregationN##N_>(new A::F##AggregationN##N_(b.f, std::static_pointer_cast<A::F##ValuesN##N_>(v.f)))
    switch (v.fam * 10 + v.N) {
    case 1: MK(O, o, 1); break; case 2: MK(O, o, 2); break; case 3: MK(O, o, 3); break; case 4: MK(O, o, 4); break;
    case 11: MK(H, h, 1); break; case 12: MK(H, h, 2); break; case 13: MK(H, h, 3); break; case 14: MK(H, h, 4); break;
    case 22: MK(D, d, 2); break; case 23: MK(D, d, 3); break; case 24: MK(D, d, 4); break;
    }
#undef MK
    return a;
}
inline BObj copy_b(const BObj &s) { BObj b; b.fam = s.fam; rt::Lib l; if (s.o) b.o = shared_ptr<A::OPartition>(new A::OPartition(*s.o)); else if (s.h) b.h = shared_ptr<A::HPartition>(new A::HPartition(*s.h)); else b.d = shared_ptr<A::DPartition>(new A::DPartition(*s.d)); return b; }
// a partition the caller builds from cut lists over a table
inline BObj build_b(const QObj &q, const Data &d, const Tiling &c, float p) {
    BObj b; b.fam = q.fam; rt::Lib l;
    if (q.o) b.o = shared_ptr<A::OPartition>(new A::OPartition(vector<int>(c.o), q.o->getQualities(), p));
    else if (q.h) b.h = shared_ptr<A::HPartition>(new A::HPartition(vector<bool>(c.h), q.h->getQualities(), p, q.h->getMetaData()));
    else {
        vector<shared_ptr<A::UpperTriangularMatrix<int>>> m;
        for (auto &x : c.d) { shared_ptr<A::UpperTriangularMatrix<int>> y(new A::UpperTriangularMatrix<int>(d.n)); for (int i = 0; i < d.n; i++) for (int j = i; j < d.n; j++) (*y)(i, j, x[(size_t)i * d.n + j]); m.push_back(y); }
        b.d = shared_ptr<A::DPartition>(new A::DPartition(m, q.d->getQualities(), p, q.d->getMetaData()));
    }
    return b;
}
// what two partitions say about each other, and some of their parts: two bits per direction (==, !=)
template <class P> int say(P &a, P &b) { int x = a == b, y = a != b; return x + 2 * y; }
template <class P> void say_all(P &a, P &b, vector<long> &out) {
    rt::Lib l; out.push_back(say(a, b)); out.push_back(say(b, a));
    auto x = a.getParts(), y = b.getParts(); long n = (long)x.size(), m = (long)y.size(), k = 0;
    for (long i = 0; i < n && k < 12; i += 1 + n / 6, k++) { long j = i < m ? i : m - 1; if (j < 0) break; out.push_back(i); out.push_back(j); out.push_back(say(x[i], y[j])); out.push_back(i); out.push_back((i * 7 + 3) % m); out.push_back(say(x[i], y[(i * 7 + 3) % m])); }
}
inline vector<long> compare_b(const BObj &a, const BObj &b) { vector<long> r; if (a.o) say_all(*a.o, *b.o, r); else if (a.h) say_all(*a.h, *b.h, r); else say_all(*a.d, *b.d, r); return r; }
inline AObj copy_a(const AObj &s) {
    AObj a; a.fam = s.fam; a.N = s.N; rt::Lib l;
#define CP(F, f) if (s.f) a.f = shared_ptr<A::F>(new A::F(*s.f));
    CP(OAggregationN1, o1) CP(OAggregationN2, o2) CP(OAggregationN3, o3) CP(OAggregationN4, o4) CP(HAggregationN1, h1) CP(HAggregationN2, h2) CP(HAggregationN3, h3) CP(HAggregationN4, h4) CP(DAggregationN2, d2) CP(DAggregationN3, d3) CP(DAggregationN4, d4)
#undef CP
    return a;
}
inline bool assign_b(BObj &x, const BObj &y) { rt::Lib l; return x.o ? assign_one(*x.o, *y.o) : x.h ? assign_one(*x.h, *y.h) : assign_one(*x.d, *y.d); }
inline bool assign_a(AObj &x, const AObj &y) {
    rt::Lib l;
#define AS(f) if (x.f && y.f) return assign_one(*x.f, *y.f);
    AS(o1) AS(o2) AS(o3) AS(o4) AS(h1) AS(h2) AS(h3) AS(h4) AS(d2) AS(d3) AS(d4)
#undef AS
    return false;
}
inline void flat(double x, V1 &o) { o.push_back(x); }
template <class T> void flat(const vector<T> &x, V1 &o) { for (auto &y : x) flat(y, o); }
struct AgPart { Pt pt; V1 sum, mean; };
inline void ag_pt(const A::OPart &p, Pt &t) { t.h = 0; t.s = p.getStart(); t.e = p.getEnd(); t.size = t.e - t.s + 1; }
inline void ag_pt(const A::HPart &p, Pt &t) { t.h = p.getH(); t.s = t.e = 0; t.size = p.getSize(); }
inline void ag_pt(const A::DPart &p, Pt &t) { t.h = p.getH(); t.s = p.getStart(); t.e = p.getEnd(); t.size = p.getHSize(); }
template <class G> void ag_read(const G &g, vector<AgPart> &out) {
    rt::Lib l; auto as = g->getAggregates(); bool sw = swap_ends(as);
    for (size_t at = 0; at < as.size(); at++) { auto &x = swapped(as, at, sw); auto sm = x.getSum(); auto mn = x.getMean(); auto pt = x.getPart(); AgPart q; q.pt.g = q.pt.l = 0; ag_pt(pt, q.pt); flat(sm, q.sum); flat(mn, q.mean); out.push_back(q); }
}
inline vector<AgPart> agg_info(const AObj &a) {
    vector<AgPart> r;
    if (a.o1) ag_read(a.o1, r); if (a.o2) ag_read(a.o2, r); if (a.o3) ag_read(a.o3, r); if (a.o4) ag_read(a.o4, r);
    if (a.h1) ag_read(a.h1, r); if (a.h2) ag_read(a.h2, r); if (a.h3) ag_read(a.h3, r); if (a.h4) ag_read(a.h4, r);
    if (a.d2) ag_read(a.d2, r); if (a.d3) ag_read(a.d3, r); if (a.d4) ag_read(a.d4, r);
    return r;
}

// everything a partitioner lists
struct Tup { float p; Pt t; };
struct SweepInfo { vector<float> pl; vector<std::pair<float, PInfo>> parts; vector<Tup> tup; vector<std::pair<float, std::pair<ld, ld>>> ql; };
inline SweepInfo sweep_info(const PObj &p) {
    SweepInfo s; std::map<float, shared_ptr<A::Quality>> q;
    { vector<float> pl; { rt::Lib l; pl = p.base()->getPList(); q = p.base()->getQualityList(); } s.pl.assign(pl.begin(), pl.end()); }
    for (auto &x : q) s.ql.push_back({x.first, x.second ? std::pair<ld, ld>(x.second->getGain(), x.second->getLoss()) : std::pair<ld, ld>(NAN, NAN)});
    Tup u; u.t.h = u.t.size = u.t.s = u.t.e = 0;
    if (p.o) {
        std::map<float, shared_ptr<A::OPartition>> m; std::list<std::tuple<float, int, int, ld, ld>> tl; { rt::Lib l; m = p.o->getPartitions(); tl = p.o->getPartitionsTuples(); }
        for (auto &x : m) { BObj b; b.o = x.second; s.parts.push_back({x.first, info_of(b)}); }
        for (auto &x : tl) { u.p = std::get<0>(x); u.t.h = 0; u.t.s = std::get<1>(x); u.t.e = std::get<2>(x); u.t.size = u.t.e - u.t.s + 1; u.t.g = std::get<3>(x); u.t.l = std::get<4>(x); s.tup.push_back(u); }
    } else if (p.h) {
        std::map<float, shared_ptr<A::HPartition>> m; std::list<std::tuple<float, int, int, ld, ld>> tl; { rt::Lib l; m = p.h->getPartitions(); tl = p.h->getPartitionsTuples(); }
        for (auto &x : m) { BObj b; b.h = x.second; s.parts.push_back({x.first, info_of(b)}); }
        for (auto &x : tl) { u.p = std::get<0>(x); u.t.h = std::get<1>(x); u.t.size = std::get<2>(x); u.t.s = u.t.e = 0; u.t.g = std::get<3>(x); u.t.l = std::get<4>(x); s.tup.push_back(u); }
    } else {
        std::map<float, shared_ptr<A::DPartition>> m; std::list<std::tuple<float, int, int, int, int, ld, ld>> tl; { rt::Lib l; m = p.d->getPartitions(); tl = p.d->getPartitionsTuples(); }
        for (auto &x : m) { BObj b; b.d = x.second; s.parts.push_back({x.first, info_of(b)}); }
        for (auto &x : tl) { u.p = std::get<0>(x); u.t.h = std::get<1>(x); u.t.size = std::get<2>(x); u.t.s = std::get<3>(x); u.t.e = std::get<4>(x); u.t.g = std::get<5>(x); u.t.l = std::get<6>(x); s.tup.push_back(u); }
    }
    return s;
}
struct QueryInfo { float pmin, pmax, popt, auc; };
inline QueryInfo query_info(const PObj &p) { QueryInfo q; rt::Lib l; q.pmin = p.base()->getP(P_MIN); q.pmax = p.base()->getP(P_MAX); q.popt = p.base()->getP(P_OPT); q.auc = p.base()->computeAUC(); return q; }

// table contents (order: node, i, j>=i)
inline bool table_read(int fam, int hs, int n, const TObj &t, vector<std::pair<ld, ld>> &out) {
    rt::Lib l;
    if (fam == FO) { if (!t.o || t.o->getSize() != n) return false; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto q = (*t.o)(i, j); out.push_back({q->getGain(), q->getLoss()}); } return true; }
    if (fam == FH) { if (!t.h || (int)t.h->size() != hs) return false; for (int h = 0; h < hs; h++) { auto q = (*t.h)[h]; if (!q) return false; out.push_back({q->getGain(), q->getLoss()}); } return true; }
    if (!t.d || (int)t.d->size() != hs) return false;
    for (int h = 0; h < hs; h++) { auto m = (*t.d)[h]; if (!m || m->getSize() != n) return false; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { auto q = (*m)(i, j); out.push_back({q->getGain(), q->getLoss()}); } }
    return true;
}
}
