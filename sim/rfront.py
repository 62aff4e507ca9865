#!/usr/bin/env python3
"""rfront.py REPO OUT: take the C++ part out of the R front end (what R's sourceCpp would compile) and write OUT/rfront.cpp:
that source as it stands, the objects' collector, and one entry per function marked [[Rcpp::export]]."""
import os, re, sys

repo, out = sys.argv[1:3]


def r_strings(t):
    i, n, res = 0, len(t), []
    while i < n:
        c = t[i]
        if c == "#":
            i = t.find("\n", i)
            if i < 0: break
        elif c in "rR" and (i == 0 or not (t[i-1].isalnum() or t[i-1] in "._")) and re.match(r'[rR]["\']-*[\(\[\{]', t[i:]):
            m = re.match(r'[rR](["\'])(-*)([\(\[\{])', t[i:]); q, d, o = m.groups()
            end = {"(": ")", "[": "]", "{": "}"}[o] + d + q; j = t.find(end, i + m.end())
            if j < 0: break
            res.append(t[i + m.end():j]); i = j + len(end)
        elif c in "'\"":
            s, j = [], i + 1
            while j < n and t[j] != c:
                if t[j] == "\\" and j + 1 < n:
                    e = t[j+1]; s.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e)); j += 2
                else:
                    s.append(t[j]); j += 1
            res.append("".join(s)); i = j + 1
        else:
            i += 1
    return res


def code(s):                                          # a string that holds C++, not a path, a flag or a message
    return "Rcpp::export" in s or "#include" in s or ("\n" in s and ";" in s and "{" in s)


src = ""
d = os.path.join(repo, "R")
for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    p = os.path.join(d, f)
    if f.endswith(".R"):
        src += "\n".join(s for s in r_strings(open(p, errors="replace").read()) if code(s)) + "\n"
    elif f.endswith(".cpp"):
        t = open(p, errors="replace").read()
        if "Rcpp::export" in t: src += t + "\n"


def split(a):
    r, dep, cur = [], 0, ""
    for c in a:
        if c in "<([": dep += 1
        if c in ">)]": dep -= 1
        if c == "," and dep == 0: r.append(cur); cur = ""
        else: cur += c
    return r + ([cur] if cur.strip() else [])


ent = []
for m in re.finditer(r"//\s*\[\[Rcpp::export(?:\(([^)]*)\))?\]\]", src):
    rest = re.sub(r"/\*.*?\*/", " ", re.sub(r"//[^\n]*", "", src[m.end():]), flags=re.S)
    s = re.match(r"\s*(?:(?:inline|static)\s+)*([\w:<>,\s&*]+?)[\s&*]\s*(\w+)\s*\(", rest)
    if not s: continue
    i, dep = s.end(), 1
    while i < len(rest) and dep: dep += {"(": 1, ")": -1}.get(rest[i], 0); i += 1
    types = []
    for a in split(rest[s.end():i-1]):
        a = a.split("=")[0].strip(); a = re.sub(r"(?<=[\s&*>])\w+$", "", a).strip()
        a = re.sub(r"\bconst\b", "", a).replace("&", "").strip(); types.append(a)
    alias = (m.group(1) or "").split(",")[0].split("=")[-1].strip().strip('"') or s.group(2)
    ent.append((alias, s.group(2), types, s.group(1).strip()))
if not ent:
    sys.exit("no exported function found in the R front end")
o = open(os.path.join(out, "rfront.cpp"), "w")
o.write('#line 1 "rfront-source"\n' + src + '\n#line 1 "rfront-entries"\n')
o.write('''
static std::vector<SEXP> r_objects; static std::vector<SEXP> &r_heap() { return r_objects; }
SEXP r_new(int type) { std::unique_ptr<SEXPREC> p(new SEXPREC()); p->type = (SEXPREC::Type)type; r_heap().push_back(p.get()); return p.release(); }
void r_collect() { for (SEXP s : r_heap()) delete s; std::vector<SEXP>().swap(r_heap()); }
''')
for k, (a, f, ty, ret) in enumerate(ent):
    args = ", ".join("Rcpp::as< %s >(a[%d])" % (t, i) for i, t in enumerate(ty))
    decl = "".join(" %s x%d = Rcpp::as< %s >(a[%d]);" % (t, i, t, i) for i, t in enumerate(ty))
    call = "::%s(%s)" % (f, ", ".join("x%d" % i for i in range(len(ty))))
    o.write("static SEXP r_entry_%d(SEXP *a) {%s %s }\n" % (k, decl, ("%s; return 0;" % call) if ret == "void" else "return Rcpp::wrap(%s);" % call))
o.write('extern "C" const RFront *r_functions(int *n) { static const RFront f[] = {%s}; *n = %d; return f; }\n' % (", ".join('{"%s", %d, r_entry_%d}' % (a, len(t), k) for k, (a, f, t, r) in enumerate(ent)), len(ent)))
o.close()
