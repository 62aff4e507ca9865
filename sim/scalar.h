// C15: registers holding single qualities and tradeoffs. Every call is judged as a step from what the
// registers were seen to hold before it to what they hold after it; nothing else may have changed.
#pragma once
#include "lib.h"
#include "tradeoff.h"
#include <sstream>

namespace lp {
struct XS {
    bool tr = false; int owner = 0; shared_ptr<A::Quality> q; shared_ptr<A::Tradeoff> t;
    ld g = 0, l = 0, v = 0;                       // as last seen
    ld eg = 0, el = 0, ev = 0, tg = 0, tl = 0, tv = 0;   // what the call that is running should leave, and how exactly
    void want(ld g_, ld l_, ld v_) { eg = g_; el = l_; ev = v_; tg = 1e-13L * fabsl(eg); tl = 1e-13L * fabsl(el); tv = 1e-13L * fabsl(ev); }
};
struct XVal { ld g, l, v; };
inline XVal x_read(const XS &x) { XVal r = {0, 0, 0}; rt::Lib b; if (x.tr) { shared_ptr<A::Quality> q = x.t->getQuality(); r.g = q->getGain(); r.l = q->getLoss(); r.v = x.t->getValue(); } else { r.g = x.q->getGain(); r.l = x.q->getLoss(); } return r; }
inline ld x_pic(ld g, ld l, float p, ld *tol) { ld q = 1 - (ld)p; *tol = 1e-13L * (fabsl(p * g) + fabsl(q * l)) + 7e-8L * std::max((ld)1, fabsl(q)) * fabsl(l); return p * g - q * l; }
inline bool x_fits(ld x) { return x == x && (x == 0 || (fabsl(x) < 1e250L && fabsl(x) > 1e-250L)); }
inline ld x_op(int o, ld a, ld b) { return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; }
inline ld x_tol(int o, ld a, ld b) { return 1e-13L * (o < 2 ? fabsl(a) + fabsl(b) : fabsl(x_op(o, a, b))); }
inline bool x_can(int o, const XS &a, const XS &b) {
    if (o == 3 && (b.g == 0 || b.l == 0 || (a.tr && b.v == 0))) return false;
    return x_fits(x_op(o, a.g, b.g)) && x_fits(x_op(o, a.l, b.l)) && (!a.tr || x_fits(x_op(o, a.v, b.v)));
}
inline void x_expect(XS &x, int o, const XS &a, const XS &b) {
    ld g = x_op(o, a.g, b.g), l = x_op(o, a.l, b.l), v = a.tr ? x_op(o, a.v, b.v) : 0, tg = x_tol(o, a.g, b.g), tl = x_tol(o, a.l, b.l), tv = a.tr ? x_tol(o, a.v, b.v) : 0;
    x.eg = g; x.el = l; x.ev = v; x.tg = tg; x.tl = tl; x.tv = tv;
}
// the relations the library offers, one bit each: == != < <= > >=
inline int x_rel(const XS &a, const XS &b) {
    rt::Lib l; int r = 0;
    if (a.tr) { A::Tradeoff &x = *a.t, &y = *b.t; r = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
    else { A::Quality &x = *a.q, &y = *b.q; r = (x == y) | (x != y) << 1; }
    return r;
}
inline string x_judge_rel(const XS &a, const XS &b, int ab, int ba) {
    auto bit = [](int r, int i) { return (r >> i) & 1; };
    if (bit(ab, 0) != bit(ba, 0)) return "equality is not symmetric";
    if (bit(ab, 0) == bit(ab, 1)) return "!= is not the opposite of ==";
    if (!a.tr) {
        ld dg = fabsl(a.g - b.g), dl = fabsl(a.l - b.l), m = std::max(std::max(fabsl(a.g), fabsl(b.g)), std::max(fabsl(a.l), fabsl(b.l)));
        if (dg == 0 && dl == 0 && !bit(ab, 0)) return "a quality differs from one with the same gain and loss";
        if ((dg > 1e-11L * m || dl > 1e-11L * m) && bit(ab, 0)) return "qualities are equal although their gains or losses differ";
        if (a.g >= 0 && b.g >= 0 && a.l >= 0 && b.l >= 0 && std::max(dg, dl) <= 1e-15L * std::max(a.g + b.g, a.l + b.l) && !bit(ab, 0)) return "qualities differ although their gains and losses differ by rounding only";
        return "";
    }
    bool gt = a.v > b.v || (a.v == b.v && (a.g > b.g || (a.g == b.g && a.l < b.l))), lt = a.v < b.v;
    if (bit(ab, 0) != (a.v == b.v)) return "tradeoffs are == exactly when their values are";
    if (bit(ab, 4) != gt) return "> does not order by value, then gain, then smaller loss";
    if (bit(ab, 3) == bit(ab, 4)) return "<= is not the opposite of >";
    if (bit(ab, 2) != lt) return "< does not order by value";
    if (bit(ab, 5) == bit(ab, 2)) return ">= is not the opposite of <";
    return "";
}
}
