// The boundary between the simulator and the R front end's C++ functions (R/lpaggreg.R).
#pragma once
#include <string>
#include <vector>
struct SEXPREC {                                   // an R object, as far as the front end can see one
    enum Type { NIL, INT, REAL, STR, LIST } type = NIL;
    std::vector<int> i; std::vector<double> d; std::vector<std::string> s; std::vector<SEXPREC *> l;
    std::vector<std::string> names; std::vector<int> dim; bool frame = false;
    size_t len() const { return type == INT ? i.size() : type == REAL ? d.size() : type == STR ? s.size() : type == LIST ? l.size() : 0; }
};
typedef SEXPREC *SEXP;
SEXP r_new(int type);                              // owned by the simulated collector
void r_collect();                                  // frees every object: nothing of the call is reachable any more
struct RFront { const char *name; int nargs; SEXP (*call)(SEXP *); };
extern "C" const RFront *r_functions(int *n) __attribute__((weak));
