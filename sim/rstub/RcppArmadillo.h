// Stand-in for Rcpp and Armadillo: the part of their interface a front end of this size uses, over simulated R objects.
#pragma once
#include "rfront.h"
#include <algorithm>
#include <cmath>
#include <exception>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#define REALSXP 14
#define INTSXP 13
#define R_NilValue ((SEXP)0)
#define NA_REAL (std::nan(""))
#define NA_INTEGER (-2147483647 - 1)
namespace Rcpp {
struct exception : std::runtime_error { explicit exception(const std::string &m) : std::runtime_error(m) {} };
struct not_compatible : exception { explicit not_compatible(const std::string &m) : exception(m) {} };
struct index_out_of_bounds : exception { explicit index_out_of_bounds(const std::string &m = "index out of bounds") : exception(m) {} };
template <class... A> inline void stop(const std::string &m, A...) { throw exception(m); }
template <class... A> inline void warning(const std::string &, A...) {}
inline void checkUserInterrupt() {}
static std::ostream &Rcout = std::cout, &Rcerr = std::cerr;
inline SEXP wrap(SEXP x) { return x; }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, SEXP>::type wrap(const T &x) { SEXP r = r_new(SEXPREC::REAL); r->d.push_back((double)x); return r; }
template <class T> inline typename std::enable_if<std::is_integral<T>::value, SEXP>::type wrap(const T &x) { SEXP r = r_new(sizeof(T) > 4 || (std::is_unsigned<T>::value && sizeof(T) == 4) ? SEXPREC::REAL : SEXPREC::INT); if (r->type == SEXPREC::REAL) r->d.push_back((double)x); else r->i.push_back((int)x); return r; }
inline SEXP wrap(const std::string &x) { SEXP r = r_new(SEXPREC::STR); r->s.push_back(x); return r; }
inline SEXP wrap(const char *x) { return wrap(std::string(x)); }
inline void wrap_each(SEXP &r, const std::string &x) { if (!r) r = r_new(SEXPREC::STR); r->s.push_back(x); }
template <class T> inline typename std::enable_if<std::is_integral<T>::value>::type wrap_each(SEXP &r, const T &x) { if (!r) r = r_new(sizeof(T) > 4 ? SEXPREC::REAL : SEXPREC::INT); if (r->type == SEXPREC::INT) r->i.push_back((int)x); else r->d.push_back((double)x); }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value>::type wrap_each(SEXP &r, const T &x) { if (!r) r = r_new(SEXPREC::REAL); r->d.push_back((double)x); }
template <class T, class = void> struct WrapNone { static SEXP get() { return r_new(SEXPREC::REAL); } };
template <class T> struct WrapNone<T, typename std::enable_if<std::is_integral<T>::value && (sizeof(T) <= 4)>::type> { static SEXP get() { return r_new(SEXPREC::INT); } };
template <> struct WrapNone<std::string> { static SEXP get() { return r_new(SEXPREC::STR); } };
template <class I> inline SEXP wrap(I a, I b) { typedef typename std::decay<decltype(*a)>::type E; SEXP r = WrapNone<E>::get(); for (; a != b; ++a) wrap_each(r, *a); return r; }
template <class T> inline SEXP wrap(const std::vector<T> &x) { return wrap(x.begin(), x.end()); }
template <class T> inline SEXP wrap(const std::list<T> &x) { return wrap(x.begin(), x.end()); }
struct AttrProxy {
    SEXP o; std::string n;
    SEXP get() const { if (!o) return 0; if (n == "dim") { if (o->dim.empty()) return 0; SEXP r = r_new(SEXPREC::INT); r->i = o->dim; return r; } if (n == "names") { SEXP r = r_new(SEXPREC::STR); r->s = o->names; return r; } return 0; }
    operator SEXP() const { return get(); }
    template <class T> AttrProxy &operator=(const T &x) { set(x); return *this; }
    template <class T> void set(const T &x) { SEXP y = wrap(x); if (!o) return; if (n == "class") { o->frame = y && y->type == SEXPREC::STR && !y->s.empty() && y->s.back() == "data.frame"; return; } if (n == "dim") { o->dim.clear(); if (y) { if (y->type == SEXPREC::INT) o->dim = y->i; else for (double v : y->d) o->dim.push_back((int)v); } } else if (n == "names" && y) o->names = y->s; }
};
inline SEXP coerce(SEXP x, int type) {
    if (x && x->type == type) return x;
    SEXP r = r_new(type); if (!x) return r;
    if (type == SEXPREC::REAL && x->type == SEXPREC::INT) { for (int v : x->i) r->d.push_back(v == NA_INTEGER ? NA_REAL : v); }
    else if (type == SEXPREC::INT && x->type == SEXPREC::REAL) { for (double v : x->d) r->i.push_back(v != v ? NA_INTEGER : (int)v); }
    else throw not_compatible("cannot convert this object");
    r->dim = x->dim; r->names = x->names; return r;
}
template <int T> struct Elem; template <> struct Elem<SEXPREC::INT> { typedef int type; static std::vector<int> &of(SEXP s) { return s->i; } }; template <> struct Elem<SEXPREC::REAL> { typedef double type; static std::vector<double> &of(SEXP s) { return s->d; } };
struct Dimension { std::vector<int> d; Dimension(size_t a) { d.push_back((int)a); } Dimension(size_t a, size_t b) { d.push_back((int)a); d.push_back((int)b); } Dimension(size_t a, size_t b, size_t c) { d.push_back((int)a); d.push_back((int)b); d.push_back((int)c); } size_t prod() const { size_t r = 1; for (int x : d) r *= x; return r; } };
struct NoInit { size_t n; };
inline NoInit no_init(size_t n) { return NoInit{n}; }
template <int T> struct Vector {
    typedef typename Elem<T>::type E; typedef E *iterator; typedef const E *const_iterator; typedef E stored_type; typedef E value_type;
    SEXP o;
    std::vector<E> &v() const { return Elem<T>::of(o); }
    Vector() : o(r_new(T)) {}
    Vector(SEXP x) : o(coerce(x, T)) {}
    Vector(const AttrProxy &p) : o(coerce(p.get(), T)) {}
    Vector(const Vector &x) : o(x.o) {}
    template <class N, class = typename std::enable_if<std::is_arithmetic<N>::value>::type> Vector(const N &n) : o(r_new(T)) { v().resize((size_t)n); }
    template <class N, class X, class = typename std::enable_if<std::is_integral<N>::value && std::is_arithmetic<X>::value>::type> Vector(const N &n, const X &x) : o(r_new(T)) { v().assign((size_t)n, (E)x); }
    Vector(const NoInit &n) : o(r_new(T)) { v().resize(n.n); }
    Vector(const Dimension &d) : o(r_new(T)) { v().resize(d.prod()); o->dim = d.d; }
    template <class I, class = typename std::enable_if<!std::is_arithmetic<I>::value>::type> Vector(I a, I b) : o(r_new(T)) { for (; a != b; ++a) v().push_back((E)*a); }
    explicit Vector(const std::vector<E> &x) : o(r_new(T)) { v() = x; }
    template <class... A> static Vector create(const A &...a) { E q[] = {(E)a...}; return Vector(q, q + sizeof...(A)); }
    bool isNULL() const { return false; } bool empty() const { return v().empty(); } E &front() const { return v().front(); } E &back() const { return v().back(); }
    template <class X> void push_front(const X &x) { SEXP n = r_new(T); Elem<T>::of(n) = v(); Elem<T>::of(n).insert(Elem<T>::of(n).begin(), (E)x); o = n; }
    Vector(std::initializer_list<E> l) : o(r_new(T)) { v().assign(l.begin(), l.end()); }
    Vector &operator=(const Vector &x) { o = x.o; return *this; }
    operator SEXP() const { return o; }
    E &operator[](long i) const { return v().data()[i]; }
    E &operator()(long i) const { if (i < 0 || (size_t)i >= v().size()) throw index_out_of_bounds(); return v()[i]; }
    E &at(long i) const { return (*this)(i); }
    long size() const { return (long)v().size(); } long length() const { return size(); }
    E *begin() const { return v().data(); } E *end() const { return v().data() + v().size(); }
    const E *cbegin() const { return begin(); } const E *cend() const { return end(); }
    template <class X> void push_back(const X &x) { SEXP n = r_new(T); Elem<T>::of(n) = v(); Elem<T>::of(n).push_back((E)x); o = n; }
    template <class X> void fill(const X &x) { for (auto &y : v()) y = (E)x; }
    AttrProxy attr(const std::string &n) const { return AttrProxy{o, n}; }
    AttrProxy names() const { return AttrProxy{o, "names"}; }
    bool hasAttribute(const std::string &n) const { return n == "dim" ? !o->dim.empty() : n == "names" ? !o->names.empty() : false; }
};
#define LPSIM_OP(OP) template <int T, class X, class = typename std::enable_if<std::is_arithmetic<X>::value>::type> inline Vector<T> operator OP(const Vector<T> &a, const X &b) { Vector<T> r(r_new(T)); for (auto y : a.v()) r.v().push_back((typename Vector<T>::E)(y OP b)); r.o->dim = a.o->dim; return r; } \
    template <int T> inline Vector<T> operator OP(const Vector<T> &a, const Vector<T> &b) { Vector<T> r(r_new(T)); for (long i = 0; i < a.size(); i++) r.v().push_back(a(i) OP b(i)); r.o->dim = a.o->dim; return r; }
LPSIM_OP(+) LPSIM_OP(-) LPSIM_OP(*) LPSIM_OP(/)
#undef LPSIM_OP
template <int T> inline typename Vector<T>::E sum(const Vector<T> &a) { return std::accumulate(a.begin(), a.end(), typename Vector<T>::E()); }
template <int T> inline typename Vector<T>::E max(const Vector<T> &a) { return *std::max_element(a.begin(), a.end()); }
template <int T> inline typename Vector<T>::E min(const Vector<T> &a) { return *std::min_element(a.begin(), a.end()); }
inline Vector<SEXPREC::INT> seq(int a, int b) { Vector<SEXPREC::INT> r; for (int i = a; i <= b; i++) r.v().push_back(i); return r; }
inline Vector<SEXPREC::INT> seq_len(int n) { return seq(1, n); }
typedef Vector<SEXPREC::REAL> NumericVector; typedef Vector<SEXPREC::REAL> DoubleVector; typedef Vector<SEXPREC::INT> IntegerVector; typedef Vector<SEXPREC::INT> LogicalVector;
template <int T> inline Vector<T> clone(const Vector<T> &x) { SEXP r = r_new(T); *r = *x.o; return Vector<T>(r); }
struct CharacterVector { SEXP o; CharacterVector() : o(r_new(SEXPREC::STR)) {} CharacterVector(SEXP x) : o(x) {} CharacterVector(std::initializer_list<std::string> l) : o(r_new(SEXPREC::STR)) { o->s.assign(l.begin(), l.end()); } template <class... A> static CharacterVector create(A... a) { CharacterVector r; std::string q[] = {std::string(a)...}; for (auto &x : q) r.o->s.push_back(x); return r; } operator SEXP() const { return o; } long size() const { return (long)o->s.size(); } std::string &operator[](long i) { return o->s[i]; } };
template <class T, class = void> struct As;
template <class T> struct As<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static T get(SEXP x) { if (!x || x->len() != 1) throw not_compatible("expecting a single value"); if (x->type == SEXPREC::REAL) return (T)x->d[0]; if (x->type == SEXPREC::INT) return (T)x->i[0]; throw not_compatible("expecting a number"); } };
template <> struct As<SEXP> { static SEXP get(SEXP x) { return x; } };
template <int R> struct As<Vector<R>> { static Vector<R> get(SEXP x) { return Vector<R>(x); } };
template <> struct As<std::string> { static std::string get(SEXP x) { if (!x || x->len() != 1 || x->type != SEXPREC::STR) throw not_compatible("expecting a string"); return x->s[0]; } };
template <class T> struct As<std::vector<T>, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static std::vector<T> get(SEXP x) { std::vector<T> r; if (x && x->type == SEXPREC::REAL) for (double v : x->d) r.push_back((T)v); else if (x && x->type == SEXPREC::INT) for (int v : x->i) r.push_back((T)v); return r; } };
template <> struct As<std::vector<std::string>> { static std::vector<std::string> get(SEXP x) { if (!x || x->type != SEXPREC::STR) throw not_compatible("expecting strings"); return x->s; } };
template <class T> inline T as(SEXP x) { return As<T>::get(x); }
template <int R> inline SEXP wrap(const Vector<R> &x) { return x.o; }
inline SEXP wrap(const CharacterVector &x) { return x.o; }
typedef CharacterVector StringVector; struct RObject { SEXP o; RObject() : o(0) {} template <class T> RObject(const T &x) : o(wrap(x)) {} operator SEXP() const { return o; } bool isNULL() const { return !o; } AttrProxy attr(const std::string &n) const { return AttrProxy{o, n}; } bool hasAttribute(const std::string &n) const { return attr(n).get() != 0; } };
inline SEXP wrap(const RObject &x) { return x.o; }
struct NamedObj { std::string name; SEXP o; };
struct Argument { std::string n; template <class T> NamedObj operator=(const T &x) const { return NamedObj{n, wrap(x)}; } };
inline Argument Named(const std::string &n) { return Argument{n}; }
template <class T> inline NamedObj Named(const std::string &n, const T &x) { return NamedObj{n, wrap(x)}; }
struct NamePlace { Argument operator[](const std::string &n) const { return Argument{n}; } };
static const NamePlace _ = NamePlace();
struct List {
    SEXP o;
    List() : o(r_new(SEXPREC::LIST)) {}
    List(SEXP x) : o(x) {}
    template <class N, class = typename std::enable_if<std::is_integral<N>::value>::type> explicit List(const N &n) : o(r_new(SEXPREC::LIST)) { o->l.resize(n); o->names.resize(n); }
    operator SEXP() const { return o; }
    void add(const NamedObj &x) { o->l.push_back(x.o); o->names.push_back(x.name); }
    template <class T> void add(const T &x) { o->l.push_back(wrap(x)); o->names.push_back(""); }
    static bool option(const NamedObj &x) { return x.name == "stringsAsFactors"; } template <class T> static bool option(const T &) { return false; }
    void put() {} template <class A, class... B> void put(const A &a, const B &...b) { if (!(o->frame && option(a))) add(a); put(b...); }
    template <class... A> static List create(const A &...a) { List r; r.put(a...); return r; }
    template <class T> void push_back(const T &x, const std::string &n = "") { o->l.push_back(wrap(x)); o->names.push_back(n); }
    struct Place { SEXP o; std::string n; long i; template <class T> Place &operator=(const T &x) { SEXP y = wrap(x); if (i < 0) { for (size_t k = 0; k < o->names.size(); k++) if (o->names[k] == n) { o->l[k] = y; return *this; } o->l.push_back(y); o->names.push_back(n); } else o->l.at(i) = y; return *this; }
        operator SEXP() const { if (i >= 0) return o->l.at(i); for (size_t k = 0; k < o->names.size(); k++) if (o->names[k] == n) return o->l[k]; return 0; } };
    Place operator[](const std::string &n) { return Place{o, n, -1}; } Place operator[](const char *n) { return Place{o, n, -1}; } Place operator[](int i) { return Place{o, "", i}; }
    AttrProxy names() const { return AttrProxy{o, "names"}; } AttrProxy attr(const std::string &n) const { return AttrProxy{o, n}; }
    long size() const { return (long)o->l.size(); }
};
inline SEXP wrap(const List &x) { return x.o; }
struct DataFrame : List {
    DataFrame() { o->frame = true; }
    DataFrame(const List &x) : List(x.o) { o->frame = true; }
    template <class... A> static DataFrame create(const A &...a) { DataFrame r; r.put(a...); size_t n = 0; for (auto *c : r.o->l) if (c && c->len() > n) n = c->len(); for (auto *c : r.o->l) if (!c || (n && (c->len() == 0 || n % c->len()))) throw exception("arguments imply differing number of rows"); return r; }
    long nrows() const { return o->l.empty() ? 0 : (long)o->l[0]->len(); } long nrow() const { return nrows(); }
};
inline SEXP wrap(const DataFrame &x) { return x.o; }
template <> struct As<List> { static List get(SEXP x) { return List(x); } };
template <int T> struct Matrix : Vector<T> {
    int r, c;
    Matrix(int r = 0, int c = 0) : Vector<T>(Dimension(r, c)), r(r), c(c) {}
    Matrix(SEXP x) : Vector<T>(x), r(0), c(0) { if (this->o->dim.size() != 2) throw not_compatible("not a matrix"); r = this->o->dim[0]; c = this->o->dim[1]; }
    typename Vector<T>::E &operator()(int i, int j) const { if (i < 0 || j < 0 || i >= r || j >= c) throw index_out_of_bounds(); return this->v()[i + (size_t)j * r]; }
    int nrow() const { return r; } int ncol() const { return c; }
};
typedef Matrix<SEXPREC::REAL> NumericMatrix; typedef Matrix<SEXPREC::INT> IntegerMatrix;
template <int R> struct As<Matrix<R>> { static Matrix<R> get(SEXP x) { return Matrix<R>(x); } };
}
namespace arma {
typedef unsigned long uword; typedef long sword;
struct mat {
    std::vector<double> own; uword n_rows, n_cols, n_elem;
    mat(uword r = 0, uword c = 0) : own(r * c), n_rows(r), n_cols(c), n_elem(r * c) {}
    mat(const double *p, uword r, uword c, bool = true, bool = false) : own(p, p + r * c), n_rows(r), n_cols(c), n_elem(r * c) {}
    double &operator()(uword i, uword j) { if (i >= n_rows || j >= n_cols) throw std::logic_error("Mat::operator(): index out of bounds"); return own[i + n_rows * j]; }
    double operator()(uword i, uword j) const { if (i >= n_rows || j >= n_cols) throw std::logic_error("Mat::operator(): index out of bounds"); return own[i + n_rows * j]; }
    double at(uword i, uword j) const { return own.data()[i + n_rows * j]; } double &at(uword i, uword j) { return own.data()[i + n_rows * j]; }
    double &operator()(uword i) { if (i >= n_elem) throw std::logic_error("Mat::operator(): index out of bounds"); return own[i]; } double operator()(uword i) const { if (i >= n_elem) throw std::logic_error("Mat::operator(): index out of bounds"); return own[i]; }
    double &operator[](uword i) { return own.data()[i]; } double operator[](uword i) const { return own.data()[i]; } uword size() const { return n_elem; }
    double *begin() { return own.data(); } double *end() { return own.data() + n_elem; } const double *begin() const { return own.data(); } const double *end() const { return own.data() + n_elem; } double *memptr() { return own.data(); } const double *memptr() const { return own.data(); }
    mat row(uword i) const { mat r(1, n_cols); for (uword j = 0; j < n_cols; j++) r(0, j) = (*this)(i, j); return r; }
    mat col(uword j) const { mat r(n_rows, 1); for (uword i = 0; i < n_rows; i++) r(i, 0) = (*this)(i, j); return r; }
};
struct vec : mat { vec(uword n = 0) : mat(n, 1) {} vec(const mat &m) : mat(m) {} }; typedef vec colvec; typedef mat rowvec;
struct cube {
    std::vector<double> own; double *m; uword n_rows, n_cols, n_slices, n_elem;
    cube(uword r, uword c, uword s) : own(r * c * s), m(own.data()), n_rows(r), n_cols(c), n_slices(s), n_elem(r * c * s) {}
    cube(double *p, uword r, uword c, uword s, bool copy = true, bool = false) : own(copy ? std::vector<double>(p, p + r * c * s) : std::vector<double>()), m(copy ? own.data() : p), n_rows(r), n_cols(c), n_slices(s), n_elem(r * c * s) {}
    cube(const cube &x) : own(x.m, x.m + x.n_elem), m(own.data()), n_rows(x.n_rows), n_cols(x.n_cols), n_slices(x.n_slices), n_elem(x.n_elem) {}
    double &operator()(uword i, uword j, uword k) { if (i >= n_rows || j >= n_cols || k >= n_slices) throw std::logic_error("Cube::operator(): index out of bounds"); return at(i, j, k); }
    double operator()(uword i, uword j, uword k) const { if (i >= n_rows || j >= n_cols || k >= n_slices) throw std::logic_error("Cube::operator(): index out of bounds"); return m[i + n_rows * (j + n_cols * k)]; }
    double &at(uword i, uword j, uword k) { return m[i + n_rows * (j + n_cols * k)]; }
    double at(uword i, uword j, uword k) const { return m[i + n_rows * (j + n_cols * k)]; }
    double &operator[](uword i) { return m[i]; } double operator[](uword i) const { return m[i]; } double &operator()(uword i) { if (i >= n_elem) throw std::logic_error("Cube::operator(): index out of bounds"); return m[i]; } double *memptr() { return m; } const double *memptr() const { return m; } uword size() const { return n_elem; } bool is_empty() const { return !n_elem; }
    double *begin() { return m; } double *end() { return m + n_elem; } const double *begin() const { return m; } const double *end() const { return m + n_elem; } double *slice_memptr(uword k) { return m + k * n_rows * n_cols; } const double *slice_memptr(uword k) const { return m + k * n_rows * n_cols; } 
    mat slice(uword k) const { if (k >= n_slices) throw std::logic_error("Cube::slice(): index out of bounds"); return mat(m + k * n_rows * n_cols, n_rows, n_cols); }
    mat row(uword i) const { if (i >= n_rows) throw std::logic_error("Cube::row(): index out of bounds"); mat r(n_cols, n_slices); for (uword j = 0; j < n_cols; j++) for (uword k = 0; k < n_slices; k++) r(j, k) = at(i, j, k); return r; }
    vec tube(uword i, uword j) const { if (i >= n_rows || j >= n_cols) throw std::logic_error("Cube::tube(): index out of bounds"); vec r(n_slices); for (uword k = 0; k < n_slices; k++) r(k) = at(i, j, k); return r; }
    template <class F> cube &for_each(F f) { for (uword i = 0; i < n_elem; i++) f(m[i]); return *this; }
};
template <class T> T conv_to_impl(const double *b, const double *e) { return T(b, e); }
template <class T> struct conv_to { template <class X> static T from(const X &x) { return conv_to_impl<T>(x.begin(), x.end()); } };
}
namespace Rcpp {
template <> struct As<arma::cube> { static arma::cube get(SEXP x) { NumericVector v(x); if (v.o->dim.size() != 3) throw not_compatible("not a cube"); return arma::cube(v.begin(), v.o->dim[0], v.o->dim[1], v.o->dim[2]); } };
template <> struct As<arma::mat> { static arma::mat get(SEXP x) { NumericVector v(x); if (v.o->dim.size() != 2) throw not_compatible("not a matrix"); return arma::mat(v.begin(), v.o->dim[0], v.o->dim[1]); } };
template <> struct As<arma::vec> { static arma::vec get(SEXP x) { NumericVector v(x); arma::vec r(v.size()); std::copy(v.begin(), v.end(), r.begin()); return r; } };
inline SEXP wrap(const arma::mat &x) { NumericVector r(x.begin(), x.end()); r.o->dim = {(int)x.n_rows, (int)x.n_cols}; return r.o; }
inline SEXP wrap(const arma::cube &x) { NumericVector r(x.begin(), x.end()); r.o->dim = {(int)x.n_rows, (int)x.n_cols, (int)x.n_slices}; return r.o; }
}
