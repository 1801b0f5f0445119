// T01-T04: the text of an expression denotes its value.
// argument: <lang>:<family>   lang: p python, c C, f FMU, s C#, o Fortran, m Matlab, y Matlab symbolic, d Modelica
#include "trees.h"
#include "PythonPrinter.h"
#include "CPrinter.h"
#include "FMUPrinter.h"
#include "CSharpPrinter.h"
#include "FortranPrinter.h"
#include "MatlabPrinter.h"
#include "MatlabSymPrinter.h"
#include "ModelicaPrinter.h"
#include <ctype.h>
struct Bad { std::string why; };
static double cval(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return strtod(b, NULL); } // value on this path
enum { NUM, MAT, BOOL, LIST };
struct PV { int k = NUM; Val v; sxE b = nullptr; bool lit = false; double num = 0; std::vector<PV> it; };
struct Parser {
  char L; std::string s; size_t p = 0; Den D; std::map<std::string, Shape> syms; std::vector<std::pair<double, sxE>> nums; std::vector<double> mag; bool dermode = false; sxE extra = nullptr; bool fmu = false;
  [[noreturn]] void bad(std::string const &w) { throw Bad{w + " at '" + s.substr(p < s.size() ? p : s.size(), 24) + "'"}; }
  void ws() { while (p < s.size() && (isspace((unsigned char)s[p]) || (L == 'o' && s[p] == '&'))) p++; }
  bool is(const char *t) { ws(); size_t n = strlen(t); return s.compare(p, n, t) == 0; }
  bool eat(const char *t) { if (!is(t)) return false; p += strlen(t); return true; }
  void need(const char *t) { if (!eat(t)) bad(std::string("'") + t + "' expected"); }
  bool word(const char *t) { ws(); size_t n = strlen(t); if (s.compare(p, n, t)) return false; if (p + n < s.size() && (isalnum((unsigned char)s[p + n]) || s[p + n] == '_')) return false; p += n; return true; }
  bool peekword(const char *t) { size_t q = p; bool r = word(t); p = q; return r; }
  PV num(sxE e) { PV r; r.v = D.sc(D.cst(e)); return r; }
  PV boolean(sxE b) { PV r; r.k = BOOL; r.b = b; return r; }
  PV mat(Val v) { v.nd = 2; if (L == 'm' || L == 'y') if (v.e.size() == 1) { PV r; r.v = D.sc(v.e[0]); return r; } PV r; r.k = MAT; r.v = v; return r; }
  bool cish() { return L == 'c' || L == 'f' || L == 's'; }
  PV value(PV a) { // as a number or matrix
    if (a.k == BOOL) { if (L == 'o' || L == 's' || L == 'd') bad("truth value used as a number"); return num(sx_ite(a.b, sx_num(1), sx_num(0))); }
    if (a.k == LIST) { if (L == 'd') return fromList(a); bad("list used as a value"); }
    return a;
  }
  sxE truth(PV a) { if (a.k == BOOL) return a.b; if (a.k == NUM && (L == 'p' || L == 'c' || L == 'f')) return sx_not(sx_eq(a.v.e[0].v, sx_num(0))); bad("condition is not a truth value"); }
  PV fromList(PV a) { // rows
    Val v; v.nd = 2; v.r = a.it.size(); v.c = 0; if (!v.r) bad("empty matrix");
    for (auto &row : a.it) {
      if (row.k != LIST) { PV x = value(row); if (x.k != NUM) bad("nested matrices"); if (v.c > 1) bad("ragged matrix"); v.c = 1; v.e.push_back(x.v.e[0]); continue; }
      if (v.c && v.c != (int)row.it.size()) bad("ragged matrix"); v.c = row.it.size(); for (auto &x0 : row.it) { PV x = value(x0); if (x.k != NUM) bad("nested matrices"); v.e.push_back(x.v.e[0]); } }
    if (a.it[0].k != LIST) { if (L == 'p') { v.c = v.r; v.r = 1; } else if (L == 'd') bad("a vector where a matrix is expected"); }
    return mat(v);
  }
  // ------------------------------------------------ operators
  PV add(PV a, PV b) { a = value(a); b = value(b); PV r; if (a.k == NUM && b.k == NUM) { r.v = D.addV(a.v, b.v); return r; }
    if (a.k == MAT && b.k == MAT && (a.v.r != b.v.r || a.v.c != b.v.c)) bad("sum of different shapes"); if (L == 'd' && a.k != b.k) bad("sum of a matrix and a scalar"); if (L == 's' && (a.k != b.k)) bad("sum of a matrix and a scalar"); return mat(D.addV(a.v, b.v)); }
  PV neg(PV a) { a = value(a); PV r = a; r.v = D.negV(a.v); r.num = -a.num; return r; }
  PV mul(PV a, PV b) { a = value(a); b = value(b); PV r; if (a.k == NUM && b.k == NUM) { r.v = D.mulV(a.v, b.v); return r; }
    if (a.k == MAT && b.k == MAT) { if (L == 'o') { if (a.v.r != b.v.r || a.v.c != b.v.c) bad("elementwise product of different shapes"); Val v = a.v; for (size_t i = 0; i < v.e.size(); i++) v.e[i] = D.mul(a.v.e[i], b.v.e[i]); return mat(v); }
      if (a.v.c != b.v.r) bad("product of shapes that do not fit"); }
    if (L == 'c' || L == 'f') bad("product of arrays"); return mat(D.mulV(a.v, b.v)); }
  PV div(PV a, PV b) { a = value(a); b = value(b); if (b.k != NUM || a.k != NUM) bad("quotient of matrices"); PV r; r.v = D.sc(D.div(a.v.e[0], b.v.e[0])); return r; }
  PV power(PV a, PV e) { a = value(a); e = value(e); if (!e.lit) bad("exponent is not a number");
    if (a.k == MAT) { if (cish() || L == 'o') bad("power of a matrix"); if (a.v.r != a.v.c) bad("power of a matrix that is not square"); double d = e.num; if (d != floor(d)) bad("fractional power of a matrix"); if (L == 'd' && d < 0) bad("negative power of a matrix"); return mat(D.pow_(a.v, BasicPtr(new Real(e.num)))); }
    PV r; r.v = powS(a.v, e); return r; }
  Val powS(Val b, PV e) { for (auto &n : nums) if (n.first == fabs(e.num)) { } return D.pow_(b, BasicPtr(new Real(e.num))); }
  PV solve(PV A, PV b) { A = value(A); b = value(b); if (A.k == NUM) { if (L == 'o') bad("solve() of a scalar"); if (b.k == NUM) return div(b, A); Val v = b.v; for (auto &x : v.e) x = D.div(x, A.v.e[0]); return mat(v); } if (b.k != MAT || A.v.r != A.v.c || A.v.r != b.v.r) bad("solve() of shapes that do not fit"); return mat(D.mulV(D.inv(A.v), b.v)); }
  PV tr(PV a) { if (a.k != MAT) { if (L == 'm' || L == 'y') return value(a); bad("transpose of a scalar"); } Val v = a.v; v.r = a.v.c; v.c = a.v.r; for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) v.at(i, j) = a.v.at(j, i); return mat(v); }
  PV inv(PV a) { if (a.k != MAT) { if (L == 'm' || L == 'y') return div(num(sx_num(1)), a); bad("inverse of a scalar"); } if (a.v.r != a.v.c) bad("inverse of a matrix that is not square"); return mat(D.inv(a.v)); }
  PV elem(PV a, int i, int j) { if (a.k != MAT) { if ((L == 'm' || L == 'y') && i == 0 && j == 0) return a; bad("index into a scalar"); } if (i < 0 || j < 0 || i >= a.v.r || j >= a.v.c) bad("index outside"); PV r; r.v = D.sc(a.v.at(i, j)); return r; }
  int index() { ws(); if (p >= s.size() || !isdigit((unsigned char)s[p])) bad("index expected"); int v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); return v; }
  PV skew(PV a) { if (a.k != MAT || a.v.e.size() != 3) bad("skew() of something other than a 3-vector"); Val r; r.nd = 2; r.r = r.c = 3; Sc z = D.num(0), x = a.v.e[0], y = a.v.e[1], w = a.v.e[2]; r.e = {z, D.neg(w), y, w, z, D.neg(x), D.neg(y), x, z}; return mat(r); }
  PV scalar(PV a) { if (L == 'd' && a.k == NUM) return a; if (a.k != MAT || a.v.e.size() != 1) bad("scalar() of something other than a 1x1 matrix"); PV r; r.v = D.sc(a.v.e[0]); return r; }
  PV elementwise(std::string const &f, std::vector<PV> a) {
    if (a.size() != (f == "atan2" ? 2u : 1u)) bad("wrong number of arguments of " + f);
    for (auto &x : a) { x = value(x); if (x.k == MAT && (cish())) bad("function of an array"); }
    if (f == "atan2") { if (a[0].v.e.size() != a[1].v.e.size()) bad("atan2 of different shapes"); PV r = a[0]; r.lit = false; for (size_t i = 0; i < r.v.e.size(); i++) r.v.e[i] = D.atan2_(a[0].v.e[i], a[1].v.e[i]); return r; }
    PV r = a[0]; r.lit = false; for (auto &x : r.v.e) x = f == "abs" ? D.abs_(x) : f == "sign" ? D.sign_(x) : D.fn(f.c_str(), x); return r;
  }
  std::vector<PV> args() { std::vector<PV> a; need("("); if (eat(")")) return a; for (;;) { a.push_back(expr()); if (eat(")")) return a; need(","); } }
  PV number() {
    size_t q = p; std::string t; while (p < s.size() && isdigit((unsigned char)s[p])) t += s[p++];
    if (p < s.size() && s[p] == '.' && !(p + 1 < s.size() && isalpha((unsigned char)s[p + 1]) && s[p+1] != 'd' && s[p+1] != 'e')) { t += s[p++]; while (p < s.size() && isdigit((unsigned char)s[p])) t += s[p++]; }
    bool dd = false;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E' || (L == 'o' && s[p] == 'd'))) { dd = s[p] == 'd'; t += 'e'; p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) t += s[p++]; if (p >= s.size() || !isdigit((unsigned char)s[p])) bad("malformed number"); while (p < s.size() && isdigit((unsigned char)s[p])) t += s[p++]; }
    if (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) bad("malformed number");
    double v = strtod(t.c_str(), NULL); PV r; r.lit = true; r.num = v; sxE e = nullptr;
    if (L == 'o' && !dd) { if (t.find('.') != std::string::npos || t.find('e') != std::string::npos) bad("single precision constant " + t); }
    for (auto &n : nums) if (n.first == v || fabs(n.first - v) <= 1e-14 * n.first) { e = n.second; r.num = n.first; break; }
    r.v = D.sc(D.cst(e ? e : sx_num(v))); (void)q; return r;
  }
  std::string ident() { ws(); if (p >= s.size() || !(isalpha((unsigned char)s[p]) || s[p] == '_')) bad("operand expected"); std::string t; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) t += s[p++]; return t; }
  std::string shown(std::string const &n) { if ((L == 'o' || L == 'm' || L == 'y') && !isalpha((unsigned char)n[0])) return (L == 'o' ? "F" : "M") + n; return n; }
  bool lookup(std::string const &t, PV &r) {
    for (auto &x : syms) for (int d = 0; d < 2; d++) { if (t != (d ? "der_" : "") + shown(x.first)) continue; if (d && L == 'd') continue;
      Val v = D.symbol(x.first, x.second, d || dermode ? "d_" : ""); if (v.nd == 0) { r = PV(); r.v = v; } else { r = PV(); r.k = MAT; v.nd = 2; r.v = v; } return true; }
    return false;
  }
  PV list(const char *o, const char *c) { PV r; r.k = LIST; need(o); for (;;) { if (is(o)) r.it.push_back(list(o, c)); else r.it.push_back(expr()); if (eat(c)) return r; need(","); } }
  PV arrayF() { // (/ a, b /) , flat
    PV r; r.k = LIST; need("(/"); for (;;) { r.it.push_back(expr()); if (eat("/)")) return r; need(","); } }
  PV matrixM() { // [a,b;c,d] with nested rows
    need("["); std::vector<Val> rows; std::vector<PV> cur; PV r; Val out; out.nd = 2; out.r = 0; out.c = 0;
    auto flush = [&]() { if (cur.empty()) bad("empty row"); int h = 0; for (auto &x : cur) { x = value(x); if (x.k == NUM) x.v.r = x.v.c = 1; if (h && h != x.v.r) bad("row of different heights"); h = x.v.r; }
      int w = 0; for (auto &x : cur) w += x.v.c; if (out.c && out.c != w) bad("ragged matrix"); out.c = w; for (int i = 0; i < h; i++) for (auto &x : cur) for (int j = 0; j < x.v.c; j++) out.e.push_back(x.v.at(i, j)); out.r += h; cur.clear(); };
    for (;;) { cur.push_back(expr()); if (eat(",")) continue; size_t q = p; bool nl = false; while (q < s.size() && isspace((unsigned char)s[q])) nl |= s[q++] == '\n'; if (eat(";") ) { flush(); continue; } if (eat("]")) { flush(); break; } if (nl) { flush(); continue; } bad("',' expected"); }
    return mat(out);
  }
  PV call(std::string const &f) {
    static const char *el[] = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "abs", "sign", 0};
    if (L == 'd' && f == "der") { need("("); dermode = true; PV a = expr(); dermode = false; need(")"); return a; }
    if (L == 'p' && f == "matrix") { need("("); PV a; if (is("[")) { PV l = list("[", "]"); a = fromList(l); } else { a = expr(); if (a.k != MAT) bad("matrix() of something else"); } if (eat(",")) { need("dtype"); need("="); need("float"); } need(")"); return a; }
    if (L == 'p' && f == "zeros") { need("("); need("("); int r = index(); need(","); int c = index(); need(")"); need(")"); return zeros(r, c); }
    if ((L == 'm' || L == 'y' || L == 'd') && f == "zeros") { need("("); int r = index(); need(","); int c = index(); need(")"); return zeros(r, c); }
    if (L == 'o' && f == "reshape") { need("("); PV a = arrayF(); need(","); need("(/"); int r = index(); need(","); int c = index(); need("/)"); need(")"); if ((int)a.it.size() != r * c) bad("reshape of the wrong number of elements"); Val v; v.nd = 2; v.r = r; v.c = c; v.e.resize(r * c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { PV x = value(a.it[j * r + i]); if (x.k != NUM) bad("nested matrices"); v.at(i, j) = x.v.e[0]; } return mat(v); }
    if (L == 'o' && f == "matpow") { need("("); PV a = expr(); need(","); bool n = eat("-"); int e = index(); need(")"); if (a.k != MAT) bad("matpow of a scalar"); return mat(D.pow_(a.v, BasicPtr(new Int(n ? -e : e)))); }
    if ((L == 'c' || L == 'f') && f == "pow") { auto a = args(); if (a.size() != 2) bad("pow()"); return power(a[0], a[1]); }
    if (L == 'f' && f == "r") { need("("); std::string n = ident(); need(")"); if (n.empty() || n.back() != '_') bad("value reference without '_'"); n.pop_back(); bool d = n.compare(0, 4, "der_") == 0; if (d) n = n.substr(4); PV r; bool od = dermode; dermode = od || d; bool ok = vref(n, r); dermode = od; if (!ok) bad("unknown value reference " + n); return r; }
    auto a = args(); std::string g = f;
    if (L == 's') { if (g.compare(0, 5, "Math.")) bad("unknown function " + g); g = g.substr(5); if (g == "Pow") { if (a.size() != 2) bad("Pow()"); return power(a[0], a[1]); } g[0] = tolower(g[0]); }
    if ((L == 'c' || L == 'f')) { if (g == "abs") bad("abs() is the integer function"); if (g == "sign") bad("unknown function sign"); if (g == "fabs") g = "abs"; }
    if (L == 'o' && g == "sign") { if (a.size() != 2) bad("sign()"); PV m = value(a[0]), x = value(a[1]); PV r = x; r.lit = false; for (size_t i = 0; i < x.v.e.size(); i++) { Sc ab = D.abs_(m.v.e[m.k == NUM ? 0 : i]); r.v.e[i] = D.ite(sx_lt(x.v.e[i].v, sx_num(0)), D.neg(ab), ab); } return r; }
    for (int i = 0; el[i]; i++) if (g == el[i]) return elementwise(g, a);
    if (L == 'o' && g == "matmul") { if (a.size() != 2 || a[0].k != MAT || a[1].k != MAT) bad("matmul of a scalar"); if (a[0].v.c != a[1].v.r) bad("matmul of shapes that do not fit"); return mat(D.mulV(a[0].v, a[1].v)); }
    if (g == "transpose" && (L == 'o' || L == 'm' || L == 'y' || L == 'd')) { if (a.size() != 1) bad("transpose()"); return tr(value(a[0])); }
    if (L == 'o' && g == "LEGS") { if (a.size() != 2) bad("LEGS()"); return solve(a[0], a[1]); }
    if (L == 'o' && g == "MIGS") { if (a.size() != 1) bad("MIGS()"); return inv(value(a[0])); }
    if ((L == 'o' || L == 'd') && g == "scalar") { if (a.size() != 1) bad("scalar()"); return scalar(value(a[0])); }
    if ((L == 'o' || L == 'd') && g == "skew") { if (a.size() != 1) bad("skew()"); return skew(value(a[0])); }
    if (L == 'd' && g == "vector") { if (a.size() != 1) bad("vector()"); a[0] = value(a[0]); if (a[0].k != MAT || (a[0].v.r != 1 && a[0].v.c != 1)) bad("vector() of a matrix"); return a[0]; }
    if (L == 'd' && g == "Modelica.Math.Matrices.solve2") { if (a.size() != 2) bad("solve2()"); PV A = value(a[0]), b = value(a[1]); if (A.k != MAT) bad("solve2() of a scalar"); return solve(A, b); }
    if (L == 'd' && g == "Modelica.Math.Matrices.inv") { if (a.size() != 1) bad("inv()"); return inv(value(a[0])); }
    if ((L == 'm' || L == 'y') && g == "inv") { if (a.size() != 1) bad("inv()"); return inv(value(a[0])); }
    if (L == 'p' && g == "linalg.solve") { if (a.size() != 2) bad("solve()"); PV A = value(a[0]); if (A.k != MAT) bad("linalg.solve of a scalar"); return solve(A, a[1]); }
    bad("unknown function " + f);
  }
  PV zeros(int r, int c) { Val v; v.nd = 2; v.r = r; v.c = c; v.e.assign(r * c, D.num(0)); return mat(v); }
  bool vref(std::string const &n, PV &r) {
    if (lookup(n, r)) return true;
    for (auto &x : syms) { Val v = D.symbol(x.first, x.second, dermode ? "d_" : ""); for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) { char b[80]; if (x.second.getNrDimensions() == 1) snprintf(b, 80, "%s_%d", x.first.c_str(), v.r > 1 ? i : j); else snprintf(b, 80, "%s_%d_%d", x.first.c_str(), i, j); if (n == b) { r = PV(); r.v = D.sc(v.at(i, j)); return true; } } }
    return false;
  }
  PV primary() {
    ws(); if (p >= s.size()) bad("operand expected");
    if (L == 'o' && is("(/")) bad("array constructor");
    if (L == 'o' && eat(".TRUE.")) return boolean(sx_true()); if (L == 'o' && eat(".FALSE.")) return boolean(sx_false());
    if (eat("(")) { PV r = expr(); need(")"); return post(r); }
    if (isdigit((unsigned char)s[p])) return number();
    if ((L == 'm' || L == 'y') && is("[")) return matrixM();
    if (L == 'd' && is("{")) { PV l = list("{", "}"); ws(); return is("[") ? post(value(l)) : l; }
    std::string f = ident();
    if (L == 'p' && f == "linalg") { need("."); f += "." + ident(); }
    if (L == 's' && f == "Math") { need("."); f += "." + ident(); }
    if (L == 'd' && f == "Modelica") while (eat(".")) f += "." + ident();
    if (L == 'f' && f == "comp") { need("->"); f = ident(); if (f != "time") bad("comp->" + f); PV r; if (!lookup("time", r)) bad("time"); return r; }
    if (L == 'f') { if (f == "fmiTrue") return boolean(sx_true()); if (f == "fmiFalse") return boolean(sx_false()); }
    if (L == 'p') { if (f == "True") return boolean(sx_true()); if (f == "False") return boolean(sx_false()); }
    if (L == 's' || L == 'm' || L == 'y' || L == 'd') { if (f == "true") return boolean(sx_true()); if (f == "false") return boolean(sx_false()); }
    PV r; if (lookup(f, r)) return post(r, true);
    if (is("(")) return post(call(f));
    bad("unknown name " + f);
  }
  PV post(PV a, bool sym = false) {
    for (;;) { ws(); if (p >= s.size()) return a;
      if (L == 'p' && is("[")) { eat("["); int i = index(); need(","); int j = index(); need("]"); a = elem(a, i, j); continue; }
      if (L == 'p' && is(".T")) { eat(".T"); a = tr(a); continue; }
      if (L == 'p' && is(".I")) { eat(".I"); a = inv(a); continue; }
      if (L == 's' && eat(".Transpose()")) { a = tr(a); continue; }
      if (L == 's' && eat(".Inverse()")) { a = inv(a); continue; }
      if (L == 's' && is("[")) { if (a.k != MAT || !sym) bad("index into something else"); eat("["); int i = index(); if (eat(",")) { int j = index(); need("]"); a = elem(a, i, j); } else { need("]"); a = flat(a, i); } continue; }
      if ((L == 'c' || L == 'f') && is("[")) { if (a.k != MAT || !sym) bad("index into something else"); eat("["); int i = index(); need("]"); if (is("[")) { eat("["); int j = index(); need("]"); a = elem(a, i, j); } else a = flat(a, i); continue; }
      if (L == 'd' && is("[")) { eat("["); int i = index(); need(","); int j = index(); need("]"); a = elem(a, i - 1, j - 1); continue; }
      if ((L == 'm' || L == 'y' || L == 'o') && is("(") && sym) { eat("("); int i = index(); if (eat(",")) { int j = index(); need(")"); a = elem(a, i - 1, j - 1); } else { if (L == 'o') bad("one index"); need(")"); a = flat(a, i - 1); } continue; }
      return a; }
  }
  PV flat(PV a, int i) { if (a.v.r != 1 && a.v.c != 1) bad("one index into a matrix"); if (i < 0 || i >= (int)a.v.e.size()) bad("index outside"); PV r; r.v = D.sc(a.v.e[i]); return r; }
  // unary minus position differs: python and matlab a**-b, -a**b = -(a**b); fortran and modelica only at the start of a sum
  PV pow1() { PV a = primary(); if ((L == 'p' || L == 'o') && is("**")) { eat("**"); PV e = L == 'p' ? unary() : pow1(); return power(a, e); }
    if ((L == 'm' || L == 'y' || L == 'd')) while (is("^")) { eat("^"); PV e = (L != 'd') && is("-") ? (eat("-"), neg(primary())) : primary(); a = power(a, e); if (L == 'd' && is("^")) bad("chained power"); } return a; }
  PV unary() { if (L != 'o' && L != 'd' && is("-") && !is("->")) { eat("-"); if ((L == 'c' || L == 'f' || L == 's') && p < s.size() && s[p] == '-') bad("decrement"); PV a = unary(); return neg(a); } return pow1(); }
  PV term() { PV a = unary(); for (;;) { if (is("**")) return a; if (eat("*")) a = mul(a, unary()); else if ((L != 'o' || !is("/)")) && !is("//") && eat("/")) a = div(a, unary()); else if ((L == 'm' || L == 'y') && eat("\\")) a = solve(a, unary()); else return a; } }
  PV sum() { PV a; if ((L == 'o' || L == 'd') && eat("-")) a = neg(term()); else a = term(); for (;;) { if (eat("+")) a = add(a, term()); else if (is("-") && !is("->")) { eat("-"); a = add(a, neg(term())); } else return a; } }
  PV cmp1(PV a, PV b, int k) { a = value(a); b = value(b); if (a.k != NUM || b.k != NUM) bad("comparison of matrices"); sxE x = a.v.e[0].v, y = b.v.e[0].v; return boolean(k == 0 ? sx_eq(x, y) : k == 1 ? sx_lt(y, x) : k == 2 ? sx_lt(x, y) : k == 3 ? sx_le(y, x) : sx_le(x, y)); }
  PV cmp() { PV a = sum(); int n = 0; for (;;) { int k = -1; if (eat("==")) k = 0; else if (eat(">=")) k = 3; else if (eat("<=")) k = 4; else if (eat(">")) k = 1; else if (eat("<")) k = 2; if (k < 0) return a; if (n++ && !cish()) bad("chained comparison"); a = cmp1(a, sum(), k); } }
  PV sel(PV c, PV a, PV b) { sxE t = truth(c); a = value2(a); b = value2(b); if (a.k == BOOL && b.k == BOOL) return boolean(sx_ite(t, a.b, b.b)); a = value(a); b = value(b); if (a.k != b.k || a.v.e.size() != b.v.e.size()) bad("branches of different shapes"); PV r = a; r.lit = false; for (size_t i = 0; i < r.v.e.size(); i++) r.v.e[i] = D.ite(t, a.v.e[i], b.v.e[i]); return r; }
  PV value2(PV a) { if (a.k == LIST) return value(a); return a; }
  PV expr() {
    if (L == 'd' && word("if")) { PV c = expr(); if (!word("then")) bad("then expected"); PV a = expr(); if (!word("else")) bad("else expected"); PV b = expr(); return sel(c, a, b); }
    PV a = cmp();
    if (L == 'p' && word("if")) { PV c = cmp(); if (!word("else")) bad("else expected"); PV b = expr(); return sel(c, a, b); }
    if (cish() && eat("?")) { PV x = expr(); need(":"); PV y = expr(); return sel(a, x, y); }
    return a;
  }
  PV initlist() { PV r; r.k = LIST; need("{"); for (;;) { if (is("{")) r.it.push_back(initlist()); else r.it.push_back(expr()); if (eat("}")) return r; need(","); } }
  PV whole(Val const &want) {
    PV r; bool init = cish() && is("{");
    if (init) { PV l = initlist(); Val v; v.nd = 2; v.r = want.r; v.c = want.c; bool nested = !l.it.empty() && l.it[0].k == LIST; if (nested != (want.nd == 2)) bad("initialiser of the wrong rank");
      std::vector<PV> flatv; auto put = [&](PV &row, int w) { if ((int)row.it.size() > w) bad("too many initialisers"); for (int j = 0; j < w; j++) { PV x = j < (int)row.it.size() ? value(row.it[j]) : num(sx_num(0)); if (x.k != NUM) bad("nested initialiser"); v.e.push_back(x.v.e[0]); } };
      if (nested) { if ((int)l.it.size() > want.r) bad("too many rows"); for (int i = 0; i < want.r; i++) { PV empty; if (i < (int)l.it.size() && l.it[i].k != LIST) bad("mixed initialiser"); put(i < (int)l.it.size() ? l.it[i] : empty, want.c); } } else put(l, want.r * want.c);
      r = PV(); r.k = MAT; r.v = v; }
    else r = expr();
    ws(); if (p != s.size()) bad("unexpected text");
    if (r.k == LIST) r = value(r); if (r.k == BOOL) { PV q; q.v = D.sc(D.cst(sx_ite(r.b, sx_num(1), sx_num(0)))); r = q; }
    return r;
  }
};
static void gather(BasicPtr const &e, Parser &P) {
  if (e->getType() == Type_Symbol) { P.syms.insert(std::make_pair(Util::getAsConstPtr<Symbol>(e)->getName(), e->getShape())); return; }
  if (e->getType() == Type_Int || e->getType() == Type_Real) {
    bool i = e->getType() == Type_Int; int iv = i ? Util::getAsConstPtr<Int>(e)->getValue() : 0; double v = i ? (double)iv : Util::getAsConstPtr<Real>(e)->getValue(); sxE t = i ? sx_ti(iv) : sx_td(v);
    if (v < 0) { v = -v; t = sx_neg(t); } P.nums.push_back(std::make_pair(cval(v), t)); P.mag.push_back(v); return; }
  if (e->getType() == Type_Matrix) { const Matrix *m = Util::getAsConstPtr<Matrix>(e); Shape s = e->getShape(); for (size_t i = 0; i < s.getDimension(1); i++) for (size_t j = 0; j < s.getDimension(2); j++) gather(m->get(i, j), P); return; }
  for (size_t i = 0; i < e->getArgsSize(); i++) gather(e->getArg(i), P);
}
static bool atzero = false;
// what the language is supposed to express; the rest is left out
static bool inside(char L, BasicPtr const &e, bool root, sxE &cond) {
  Basic_Type t = e->getType();
  if (L == 'y' && t == Type_Atan2) return false;                          // documented approximation
  if ((L == 'y' || (L == 'o' && !atzero)) && t == Type_Sign) { Den D; cond = sx_and(cond, sx_not(sx_eq(D.one_(e->getArg(0)), sx_num(0)))); } // documented replacement x/abs(x)
  if (L == 'c' || L == 'f' || L == 's') {
    if (root && (t == Type_Matrix || t == Type_Zero)) { if (L == 's' && t == Type_Zero && !e->is_Scalar()) return false; } // marked as to do in the C# printer
    else if (t == Type_Element) { if (e->getArg(0)->getType() != Type_Symbol) return false; return true; }
    else if (!e->is_Scalar() && !(L == 's' && e->getShape().getNrDimensions() == 2 && (t == Type_Symbol || t == Type_Add || t == Type_Mul || t == Type_Neg || t == Type_Transpose || t == Type_Inverse))) return false;
  }
  if (t == Type_Matrix) { const Matrix *m = Util::getAsConstPtr<Matrix>(e); Shape s = e->getShape(); for (size_t i = 0; i < s.getDimension(1); i++) for (size_t j = 0; j < s.getDimension(2); j++) if (!inside(L, m->get(i, j), false, cond)) return false; return true; }
  if (L == 's' && t == Type_Add) { bool sc = false, ma = false; for (size_t i = 0; i < e->getArgsSize(); i++) (e->getArg(i)->is_Scalar() ? sc : ma) = true; if (sc && ma) return false; }
  for (size_t i = 0; i < e->getArgsSize(); i++) if (!inside(L, e->getArg(i), false, cond)) return false;
  return true;
}
static BasicPtr special(int k) { // numbers that are hard to write
  static const double R[] = {0.1, -0.1, 1.0 / 3, 1e-5, -2.5e-10, 123456789.125, 6.02214076e23, -9.80665, 1e100, 2.0, -3.0, 1234567, 0.000123456789012345, 100.0};
  static const int I[] = {7, -7, 1000000, 2147483647, -2147483647, 10};
  return k < 14 ? BasicPtr(new Real(R[k])) : BasicPtr(new Int(I[k - 14]));
}
static BasicPtr more(std::string const &f) {
  BasicPtr x = G->sym("x"), y = G->sym("y");
  if (f == "num") { BasicPtr n = special(sx_choose(20)); switch (sx_choose(9)) { case 0: return n; case 1: return BasicPtr(new Add(x, n)); case 2: return BasicPtr(new Add(n, x)); case 3: return BasicPtr(new Mul(x, n)); case 4: return BasicPtr(new Neg(n)); case 5: return BasicPtr(new Pow(n, BasicPtr(new Int(2)))); case 6: return BasicPtr(new Sin(n)); case 7: return BasicPtr(new Greater(x, n)); default: { Matrix *m = new Matrix(Shape(2, 2)); BasicPtr r(m); m->set(0, 0, n); m->set(1, 0, x); m->set(0, 1, BasicPtr(new Neg(n))); return r; } } }
  if (f == "pw") { BasicPtr b; switch (sx_choose(9)) { case 0: b = x; break; case 1: b = G->rawint(); break; case 2: b = BasicPtr(new Neg(x)); break; case 3: b = BasicPtr(new Add(x, y)); break; case 4: b = BasicPtr(new Mul(x, y)); break; case 5: b = BasicPtr(new Pow(x, BasicPtr(new Int(sx_int(-2, 3, 2))))); break; case 6: b = BasicPtr(new Sin(x)); break; case 7: b = G->real(); break; default: b = BasicPtr(new Abs(x)); }
    BasicPtr e; switch (sx_choose(3)) { case 0: e = BasicPtr(new Int(sx_int(-3, 4, 2))); break; case 1: e = BasicPtr(new Real(0.5 * sx_int(-3, 5, 1))); break; default: e = BasicPtr(new Real(1.0 / 3)); } BasicPtr r(new Pow(b, e)); switch (sx_choose(4)) { case 0: return r; case 1: return BasicPtr(new Neg(r)); case 2: return BasicPtr(new Mul(r, y)); default: return BasicPtr(new Add(y, BasicPtr(new Neg(r)))); } }
  if (f == "der") { BasicPtr v = G->sym("v", Shape(2)), A = G->sym("A", Shape(2, 2)); BasicPtr d; switch (sx_choose(4)) { case 0: d = BasicPtr(new Der(x)); break; case 1: { int i = sx_choose(2); d = BasicPtr(new Der(BasicPtr(new Element(v, i, 0)))); break; } case 2: { int i = sx_choose(2), j = sx_choose(2); d = BasicPtr(new Der(BasicPtr(new Element(A, i, j)))); break; } default: d = BasicPtr(new Der(v)); return sx_choose(2) ? d : BasicPtr(new Mul(x, d)); } switch (sx_choose(4)) { case 0: return d; case 1: return BasicPtr(new Mul(d, x)); case 2: return BasicPtr(new Neg(d)); default: return BasicPtr(new Add(y, BasicPtr(new Mul(d, d)))); } }
  if (f == "names") { static const char *N[] = {"_x", "a1", "x_dot", "T", "I", "Fx", "Mx", "mass_1", "dtype", "time"}; BasicPtr a = G->sym(N[sx_choose(10)]), b = G->sym(N[sx_choose(10)]); BasicPtr v = G->sym("_v", Shape(3)); switch (sx_choose(4)) { case 0: return BasicPtr(new Add(a, b)); case 1: return BasicPtr(new Mul(a, BasicPtr(new Neg(b)))); case 2: return BasicPtr(new Mul(a, BasicPtr(new Element(v, 2, 0)))); default: return BasicPtr(new Mul(a, v)); } }
  if (f == "el") { static const char C[] = "vwrqmknc"; int k = sx_choose(8); Ops o; Shape s = o.shape(C[k]); BasicPtr a = G->sym("S", s); int i = sx_choose(s.getDimension(1)), j = sx_choose(s.getDimension(2)); BasicPtr e(new Element(a, i, j)); switch (sx_choose(4)) { case 0: return e; case 1: return BasicPtr(new Mul(e, x)); case 2: return BasicPtr(new Neg(e)); default: return BasicPtr(new Pow(e, BasicPtr(new Int(2)))); } }
  if (f == "lit") { static const char C[] = "vwrqmknc"; int k = sx_choose(8); Ops o; Shape s = o.shape(C[k]); Matrix *m = new Matrix(s); BasicPtr r(m); int n = 0; for (size_t i = 0; i < s.getDimension(1); i++) for (size_t j = 0; j < s.getDimension(2); j++, n++) { char b[8]; snprintf(b, 8, "e%d", n); m->set(i, j, n == 1 ? BasicPtr(new Neg(x)) : n == 2 ? BasicPtr(new Add(x, BasicPtr(new Neg(y)))) : n == 3 ? G->rawint() : G->sym(b)); } return r; }
  if (f == "zer") { static const char C[] = "svwrqmknc"; int k = sx_choose(9); Ops o; return BasicPtr(new Zero(o.shape(C[k]))); }
  if (f == "sg0") return BasicPtr(new Sign(x));
  if (f == "sg") { BasicPtr a = farg(0); BasicPtr r(sx_choose(2) ? (Basic *)new Sign(a) : (Basic *)new Abs(a)); switch (sx_choose(4)) { case 0: return r; case 1: return BasicPtr(new Neg(r)); case 2: return BasicPtr(new Mul(r, x)); default: return BasicPtr(new Add(y, r)); } }
  if (f == "ifs") { BasicPtr c = cond(x, sx_choose(2) ? y : G->rawint()); BasicPtr a = sx_choose(2) ? BasicPtr(new Neg(x)) : G->rawint(), b = sx_choose(2) ? BasicPtr(new Add(x, y)) : BasicPtr(new If(cond(y, x), x, y)); BasicPtr r(new If(c, a, b)); switch (sx_choose(6)) { case 0: return r; case 1: return BasicPtr(new Mul(y, r)); case 2: return BasicPtr(new Add(r, y)); case 3: return BasicPtr(new Neg(r)); case 4: return BasicPtr(new Pow(r, BasicPtr(new Int(2)))); default: return BasicPtr(new Add(y, r)); } }
  if (f == "cmpn") { BasicPtr a = cond(x, y), r = sx_choose(2) ? a : BasicPtr(new Bool(sx_choose(2))); return BasicPtr(new If(r, x, sx_choose(2) ? y : G->real())); }
  if (f == "mm") { // products the way the operators build them
    Ops O; O.g.syms = G->syms; BasicPtr v = G->sym("va", Shape(2)), w = G->sym("vb", Shape(2)), A = G->sym("Ma", Shape(2, 2)), t(new Transpose(v)); BasicPtr fs[6] = {A, v, t, x, w, G->sym("Mb", Shape(2, 2))}; int n = 3 + sx_choose(2), k[4]; BasicPtr r; for (int i = 0; i < n; i++) k[i] = sx_choose(i ? 6 : 4);
    if (sx_choose(2)) { r = fs[k[0]]; for (int i = 1; i < n; i++) r = Mul::New(r, fs[k[i]]); } else { r = fs[k[n - 1]]; for (int i = n - 2; i >= 0; i--) r = Mul::New(fs[k[i]], r); }
    return sx_choose(2) ? r->simplify() : r; }
  if (f == "add2") { BasicPtrVec l; for (int i = 0; i < 3; i++) { int k = sx_choose(6); l.push_back(k == 0 ? x : k == 1 ? BasicPtr(new Neg(x)) : k == 2 ? BasicPtr(new Neg(BasicPtr(new Add(x, y)))) : k == 3 ? BasicPtr(new Neg(G->rawint())) : k == 4 ? G->rawint() : G->real()); } return BasicPtr(new Add(l)); }
  return extra(f);
}
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope(); char L = arg[0]; std::string fam = arg + 2; BasicPtr e;
  try { e = more(fam); } catch (std::exception &ex) { sx_note("construction rejected"); return 0; }
  if (!e.get()) { sx_note("left out"); return 0; }
  bool simp = false; if (fam.size() > 2 && fam[fam.size() - 1] == '!') simp = true; (void)simp;
  atzero = fam == "sg0";
  Parser P; P.L = L; Den D; Val want;
  try { want = D.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  sxE cond = sx_true(); try { if (!inside(L, e, true, cond)) { sx_note("outside what the language is used for"); return 0; } } catch (Unsupported &u) { sx_note("no meaning assigned"); return 0; }
  gather(e, P); std::map<std::string, int> refs; int mode = L == 'f' ? sx_choose(2) : 0;
  if (mode) for (auto &x : P.syms) { if (x.second.getNumEl() == 1 && x.second.getNrDimensions() == 0) refs[x.first] = refs.size(); else { Val v = D.symbol(x.first, x.second); for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) { char b[80]; if (x.second.getNrDimensions() == 1) snprintf(b, 80, "%s_%d", x.first.c_str(), v.r > 1 ? i : j); else snprintf(b, 80, "%s_%d_%d", x.first.c_str(), i, j); refs[b] = refs.size(); } } }
  Printer *pr = 0; const char *ln = "";
  for (size_t i = 0; i < P.nums.size(); i++) { // numbers are told apart by their value on this path
    volatile int hit = 0; if (P.mag[i] == 0) hit++; if (P.mag[i] == 1) hit++;
    for (size_t j = 0; j < i; j++) if (P.mag[i] == P.mag[j]) hit++; (void)hit; }
  switch (L) { case 'p': pr = new PythonPrinter(); ln = "Python"; break; case 'c': pr = new CPrinter(); ln = "C"; break; case 'f': pr = new FMUPrinter(&refs); ln = "FMU"; break; case 's': pr = new CSharpPrinter(); ln = "C#"; break; case 'o': pr = new FortranPrinter(); ln = "Fortran"; break; case 'm': pr = new MatlabPrinter(); ln = "Matlab"; break; case 'y': pr = new MatlabSymPrinter(); ln = "Matlab symbolic"; break; case 'd': pr = new ModelicaPrinter(); ln = "Modelica"; break; default: return 1; }
  std::string text;
  std::string own = txt(e);
  try { text = pr->print(e); } catch (std::exception &ex) { sx_note("printing rejected"); delete pr; return 0; }
  int errs = pr->getErrorcount(true); delete pr;
  if (errs) { sx_note("printing reported an error"); return 0; }
  std::string one; for (char c : text) if (c != '\n') one += c;
  std::string lab = own + " in " + ln + ": " + one;
  P.s = text; PV r;
  try { r = P.whole(want); }
  catch (Bad &b) { sx_fail((lab + " is not valid: " + b.why).c_str()); return 0; }
  catch (Unsupported &u) { sx_note(("text has no meaning: " + u.why).c_str()); return 0; }
  bool sc = want.nd == 0 || ((L == 'm' || L == 'y') && want.e.size() == 1);
  if (sc != (r.k == NUM) || (!sc && (r.v.r != want.r || r.v.c != want.c))) { sx_fail((lab + " has the wrong shape").c_str()); return 0; }
  if (atzero) { lab = own + std::string(" in ") + ln + " at zero"; sx_assume(sx_eq(D.symbol("x", Shape()).e[0].v, sx_num(0))); }
  D.assumeSide(); sx_assume(cond); if (!sc) r.v.nd = want.nd;
  checkVal(want, r.v, lab); return 0;
}
