// C19: registers holding triangular tables of the five element types the library offers. A shadow keeps what every
// cell was last given; cells of the pointer types hold an object, which several cells (and tables) may share.
#pragma once
#include "lib.h"
#include "uppertriangularmatrix.h"
#include "tradeoff.h"
#include <algorithm>

namespace lp {
struct MC { const void *p = nullptr; int owner = 0; ld g = 0, l = 0, v = 0; };      // an object that cells hold
struct MS {
    int ty = 0, owner = 0, n = 0, fresh = 0;      // fresh: 1 the cells' own objects have not been seen yet, 2 one object given for all
    shared_ptr<A::UpperTriangularMatrix<double>> d; shared_ptr<A::UpperTriangularMatrix<int>> i; shared_ptr<A::UpperTriangularMatrix<lp_quality_type>> x;
    shared_ptr<A::UpperTriangularMatrix<shared_ptr<A::Quality>>> q; shared_ptr<A::UpperTriangularMatrix<shared_ptr<A::Tradeoff>>> t;
    vector<ld> c; vector<shared_ptr<MC>> o;
    size_t at(int a, int b) const { return (size_t)a * n + b; }
    void drop() { rt::Lib l; d.reset(); i.reset(); x.reset(); q.reset(); t.reset(); }
};
template <class F> inline void m_with(MS &m, F f) { switch (m.ty) { case 0: f(m.d); break; case 1: f(m.i); break; case 2: f(m.x); break; case 3: f(m.q); break; default: f(m.t); } }
inline double m_val(double y, double *) { return y; }
inline int m_val(double y, int *) { return (int)std::max(-2e9, std::min(2e9, y * 7)); }
inline ld m_val(double y, ld *) { return (ld)y / 3; }
inline shared_ptr<A::Quality> m_val(double y, shared_ptr<A::Quality> *) { return shared_ptr<A::Quality>(new A::Quality(y, y / 2 + 1)); }
inline shared_ptr<A::Tradeoff> m_val(double y, shared_ptr<A::Tradeoff> *) { shared_ptr<A::Quality> q(new A::Quality(y, y / 2 + 1)); return shared_ptr<A::Tradeoff>(new A::Tradeoff((lp_quality_type)(y + 2), q)); }
inline shared_ptr<MC> m_obj(const shared_ptr<A::Quality> &q, double y, int owner) { auto m = std::make_shared<MC>(); m->p = q.get(); m->owner = owner; m->g = y; m->l = (lp_quality_type)(y / 2 + 1); return m; }
inline shared_ptr<MC> m_obj(const shared_ptr<A::Tradeoff> &q, double y, int owner) { auto m = std::make_shared<MC>(); m->p = q.get(); m->owner = owner; m->g = y; m->l = (lp_quality_type)(y / 2 + 1); m->v = (lp_quality_type)(y + 2); return m; }
inline shared_ptr<MC> m_obj(double, double, int) { return nullptr; }
inline shared_ptr<MC> m_obj(int, double, int) { return nullptr; }
inline shared_ptr<MC> m_obj(ld, double, int) { return nullptr; }
inline ld m_num(double x) { return x; }
inline ld m_num(int x) { return x; }
inline ld m_num(ld x) { return x; }
template <class P> inline ld m_num(const shared_ptr<P> &) { return 0; }
inline const void *m_ptr(double) { return nullptr; }
inline const void *m_ptr(int) { return nullptr; }
inline const void *m_ptr(ld) { return nullptr; }
template <class P> inline const void *m_ptr(const shared_ptr<P> &p) { return p.get(); }
inline void m_put(double, double) {}
inline void m_put(int, double) {}
inline void m_put(ld, double) {}
inline void m_put(const shared_ptr<A::Quality> &p, double y) { p->setGain(y); }
inline void m_put(const shared_ptr<A::Tradeoff> &p, double y) { p->getQuality()->setGain(y); }
template <class E> struct MV { E v = E(); ~MV() { rt::Lib b; v = E(); } };      // a value on its way into a table
inline bool m_is(double, const MC *) { return true; }
inline bool m_is(int, const MC *) { return true; }
inline bool m_is(ld, const MC *) { return true; }
inline bool m_is(const shared_ptr<A::Quality> &p, const MC *m) { rt::Lib b; return p->getGain() == m->g && p->getLoss() == m->l; }
inline bool m_is(const shared_ptr<A::Tradeoff> &p, const MC *m) { rt::Lib b; shared_ptr<A::Quality> q = p->getQuality(); return q && q->getGain() == m->g && q->getLoss() == m->l && p->getValue() == m->v; }

// what is wrong with what the table shows; empty: nothing
inline string m_check(MS &m) {
    char b[300]; string bad; bool ptrs = m.ty >= 3;
    m_with(m, [&](auto &t) {
        int n, e, want = m.n * (m.n + 1) / 2; { rt::Lib l; n = t->getSize(); e = t->getElements(); }
        if (n != m.n || e != want) { snprintf(b, sizeof b, "a table of %d reports size %d and %d elements", m.n, n, e); bad = b; return; }
        vector<ld> seen, listed; vector<const void *> ps, pl;
        for (int i = 0; i < m.n; i++) for (int j = i; j < m.n; j++) {
            auto v = [&] { rt::Lib l; return (*t)(i, j); }(); size_t k = m.at(i, j);
            if (!ptrs) { ld x = m_num(v); seen.push_back(x); if (!(x == m.c[k])) { snprintf(b, sizeof b, "cell (%d,%d) of a table of %d holds %.19Lg, it was given %.19Lg", i, j, m.n, x, m.c[k]); bad = b; return; } continue; }
            const void *p = m_ptr(v); ps.push_back(p);
            if (!p) { snprintf(b, sizeof b, "cell (%d,%d) of a table of %d holds no object", i, j, m.n); bad = b; return; }
            if (m.fresh == 1) { m.o[k]->p = p; }
            if (m.o[k]->p != p) { snprintf(b, sizeof b, "cell (%d,%d) of a table of %d holds another object than it was given", i, j, m.n); bad = b; return; }
            if (!m_is(v, m.o[k].get())) { snprintf(b, sizeof b, "the object in cell (%d,%d) of a table of %d does not hold what it was given", i, j, m.n); bad = b; return; }
        }
        for (int k = 0; k < e; k++) { auto v = [&] { rt::Lib l; return (*t)[k]; }(); if (ptrs) pl.push_back(m_ptr(v)); else listed.push_back(m_num(v)); }
        std::sort(seen.begin(), seen.end()); std::sort(listed.begin(), listed.end()); std::sort(ps.begin(), ps.end()); std::sort(pl.begin(), pl.end());
        if (seen != listed || ps != pl) { snprintf(b, sizeof b, "the elements of a table of %d, one after the other, are not its cells", m.n); bad = b; return; }
        if (m.fresh == 1 && std::adjacent_find(ps.begin(), ps.end()) != ps.end()) { snprintf(b, sizeof b, "two cells of a new table of %d share an object", m.n); bad = b; return; }
    });
    if (bad.empty()) m.fresh = 0;
    return bad;
}
}
