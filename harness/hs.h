// Harness library: builds expression trees under sx_choose, and gives every
// tree its mathematical meaning (a matrix of solver terms) independently of
// the library's own simplification.  The same code runs in the symbolic
// engine and in the plain replay.
#pragma once
#include "sx.h"
#include "Symbolics.h"
#include "Solve.h"
#include "Inverse.h"
#include "Outer.h"
#include "Jacobian.h"
#include "Element.h"
#include "Skew.h"
#include "Transpose.h"
#include "Scalar.h"
#include "Pow.h"
#include "If.h"
#include "Greater.h"
#include "Less.h"
#include "Equal.h"
#include "Bool.h"
#include "Sign.h"
#include "Abs.h"
#include "Der.h"
#include "Sin.h"
#include "Cos.h"
#include "Tan.h"
#include "Asin.h"
#include "Acos.h"
#include "Atan.h"
#include "Atan2.h"
#include "Eye.h"
#include "SymmetricMatrix.h"
#include "Util.h"
#include "Error.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <string.h>
#include <math.h>
namespace sxh {
using namespace Symbolics;
typedef std::vector<sxE> EV;
struct Unsupported { std::string why; };

// scalar with optional derivative (dual number)
struct Sc { sxE v, d; };
struct Val { int nd, r, c; std::vector<Sc> e; Sc &at(int i, int j) { return e[i * c + j]; } const Sc &at(int i, int j) const { return e[i * c + j]; } };

struct Den {
  bool dual = false;             // carry derivatives
  std::string wrt; int wr = 0, wc = 0; // derivative with respect to this symbol element; empty: time
  std::set<std::string> fixed;   // variables with time derivative zero
  bool defined = true;           // emit definedness side conditions
  std::function<bool(BasicPtr const &, Val &)> hook; // own meaning for some nodes
  BasicPtr sOld, sNew;           // every occurrence of sOld means sNew
  EV side;
  sxE zero() { return sx_num(0); } sxE one() { return sx_num(1); }
  Sc cst(sxE v) { return Sc{v, dual ? zero() : nullptr}; }
  Sc num(double v) { return cst(sx_num(v)); }
  Sc add(Sc a, Sc b) { return Sc{sx_add(a.v, b.v), dual ? sx_add(a.d, b.d) : nullptr}; }
  Sc sub(Sc a, Sc b) { return Sc{sx_sub(a.v, b.v), dual ? sx_sub(a.d, b.d) : nullptr}; }
  Sc neg(Sc a) { return Sc{sx_neg(a.v), dual ? sx_neg(a.d) : nullptr}; }
  Sc mul(Sc a, Sc b) { return Sc{sx_mul(a.v, b.v), dual ? sx_add(sx_mul(a.d, b.v), sx_mul(a.v, b.d)) : nullptr}; }
  void need(sxE c) { if (defined) side.push_back(c); }
  sxE ne0(sxE a) { return sx_ne0(a); }
  Sc div(Sc a, Sc b) { need(ne0(b.v)); sxE q = sx_div(a.v, b.v); return Sc{q, dual ? sx_div(sx_sub(a.d, sx_mul(q, b.d)), b.v) : nullptr}; }
  Sc ite(sxE c, Sc a, Sc b) { return Sc{sx_ite(c, a.v, b.v), dual ? sx_ite(c, a.d, b.d) : nullptr}; }
  Sc sqrt_(Sc a) { sxE r = sx_fn("sqrt", a.v); need(dual ? sx_lt(zero(), a.v) : sx_le(zero(), a.v)); return Sc{r, dual ? sx_div(a.d, sx_mul(sx_num(2), r)) : nullptr}; }
  Sc ipow(Sc b, int e) { Sc r = num(1); for (int k = 0; k < (e < 0 ? -e : e); k++) r = mul(r, b); if (e < 0) return div(num(1), r); return r; }
  Sc abs_(Sc a) { sxE n = sx_lt(a.v, zero()); if (dual) need(ne0(a.v)); return ite(n, neg(a), a); }
  Sc sign_(Sc a) { if (dual) need(ne0(a.v)); sxE s = sx_ite(sx_lt(a.v, zero()), sx_num(-1), sx_ite(sx_lt(zero(), a.v), sx_num(1), zero())); return cst(s); }
  Sc fn(const char *f, Sc a) {
    sxE v = sx_fn(f, a.v), d = nullptr; std::string s = f;
    if (s == "tan") need(ne0(sx_fn("cos", a.v)));
    if (s == "asin" || s == "acos") { if (dual) { need(sx_lt(sx_num(-1), a.v)); need(sx_lt(a.v, one())); } else { need(sx_le(sx_num(-1), a.v)); need(sx_le(a.v, one())); } }
    if (dual) {
      if (s == "sin") d = sx_mul(sx_fn("cos", a.v), a.d);
      else if (s == "cos") d = sx_neg(sx_mul(sx_fn("sin", a.v), a.d));
      else if (s == "tan") { sxE c = sx_fn("cos", a.v); d = sx_div(a.d, sx_mul(c, c)); }
      else if (s == "asin") d = sx_div(a.d, sx_fn("sqrt", sx_sub(one(), sx_mul(a.v, a.v))));
      else if (s == "acos") d = sx_neg(sx_div(a.d, sx_fn("sqrt", sx_sub(one(), sx_mul(a.v, a.v)))));
      else if (s == "atan") d = sx_div(a.d, sx_add(one(), sx_mul(a.v, a.v)));
    }
    return Sc{v, d};
  }
  Sc atan2_(Sc y, Sc x) {
    sxE r2 = sx_add(sx_mul(x.v, x.v), sx_mul(y.v, y.v)); need(ne0(r2));
    return Sc{sx_fn2("atan2", y.v, x.v), dual ? sx_div(sx_sub(sx_mul(y.d, x.v), sx_mul(y.v, x.d)), r2) : nullptr};
  }
  // ---- matrices
  Val shaped(Shape const &s) { Val v; v.nd = s.getNrDimensions(); v.r = s.getDimension(1); v.c = s.getDimension(2); v.e.assign(v.r * v.c, num(0)); return v; }
  Val sc(Sc s) { Val v; v.nd = 0; v.r = v.c = 1; v.e.push_back(s); return v; }
  Val addV(Val const &a, Val const &b) {
    if (a.nd == 0 && b.nd != 0) return addV(b, a);
    Val r = a;
    for (int i = 0; i < (int)r.e.size(); i++) r.e[i] = add(a.e[i], b.nd == 0 ? b.e[0] : b.e[i]);
    if (b.nd != 0 && (a.r != b.r || a.c != b.c)) throw Unsupported{"shape"};
    return r;
  }
  Val negV(Val a) { for (auto &x : a.e) x = neg(x); return a; }
  Val mulV(Val const &a, Val const &b) {
    if (a.nd == 0 || b.nd == 0) { Val r = a.nd == 0 ? b : a; Sc s = a.nd == 0 ? a.e[0] : b.e[0]; for (auto &x : r.e) x = a.nd == 0 ? mul(s, x) : mul(x, s); return r; }
    if (a.c != b.r) throw Unsupported{"shape"};
    Val r; r.r = a.r; r.c = b.c;
    for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { Sc s = num(0); for (int k = 0; k < a.c; k++) s = add(s, mul(a.at(i, k), b.at(k, j))); r.e.push_back(s); }
    if (a.nd == 1 && b.nd == 1) r.nd = a.r == 1 ? 0 : 2; else r.nd = std::min(a.nd, b.nd);
    return r;
  }
  Sc det(Val const &a) {
    if (a.r == 1) return a.e[0];
    if (a.r == 2) return sub(mul(a.at(0, 0), a.at(1, 1)), mul(a.at(0, 1), a.at(1, 0)));
    Sc s = num(0);
    for (int j = 0; j < a.c; j++) { Val m = minorM(a, 0, j); Sc t = mul(a.at(0, j), det(m)); s = j % 2 ? sub(s, t) : add(s, t); }
    return s;
  }
  Val minorM(Val const &a, int i0, int j0) { Val m; m.nd = 2; m.r = a.r - 1; m.c = a.c - 1; for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) if (i != i0 && j != j0) m.e.push_back(a.at(i, j)); return m; }
  Val inv(Val const &a) {
    if (a.nd == 0) return sc(div(num(1), a.e[0]));
    Sc dt = det(a); Val r = a;
    for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) { Sc m = a.r == 1 ? num(1) : det(minorM(a, j, i)); r.at(i, j) = div((i + j) % 2 ? neg(m) : m, dt); }
    return r;
  }
  Val map1(const char *f, Val a) { for (auto &x : a.e) x = fn(f, x); return a; }

  int constInt(BasicPtr const &p, int den, bool &ok) { // exponent * den as an integer, one path per value
    ok = true;
    switch (p->getType()) {
    case Type_Zero: return 0;
    case Type_Int: return den * sx_concretize(Util::getAsConstPtr<Int>(p)->getValue());
    case Type_Real: { double v = Util::getAsConstPtr<Real>(p)->getValue() * den; int k = v >= 0 ? (int)(v + 0.5) : -(int)(0.5 - v); k = sx_concretize(k); if (v - k > 1e-9 || k - v > 1e-9) ok = false; return k; }
    default: ok = false; return 0;
    }
  }
  Val pow_(Val const &b, BasicPtr const &ex) {
    bool ok; int k = constInt(ex, 4, ok);
    if (!ok) {
      if (b.nd || ex->getType() != Type_Real) throw Unsupported{"exponent"};
      sxE ev = sx_td(Util::getAsConstPtr<Real>(ex)->getValue()); need(sx_lt(zero(), b.e[0].v)); if (dual) throw Unsupported{"dual general power"};
      return sc(Sc{sx_fn2("pow", b.e[0].v, ev), nullptr});
    }
    if (b.nd == 0) {
      double cb; if (!dual && k % 4 && sx_constval(b.e[0].v, &cb)) { need(sx_le(zero(), b.e[0].v)); if (k < 0) need(ne0(b.e[0].v)); return sc(num(cb < 0 ? 0 : pow(cb, k / 4.0))); } // same rounding as the library's folding
      if (k % 4 == 0) return sc(ipow(b.e[0], k / 4));
      if (k < 0) need(sx_lt(zero(), b.e[0].v));
      Sc s = sqrt_(b.e[0]); if (k % 2 == 0) return sc(ipow(s, k / 2));
      return sc(ipow(sqrt_(s), k));
    }
    if (k % 4) throw Unsupported{"fractional power of a matrix"};
    Val r = b; for (int i = 0; i < b.r; i++) for (int j = 0; j < b.c; j++) r.at(i, j) = num(i == j);
    Val x = k < 0 ? inv(b) : b; for (int q = 0; q < (k < 0 ? -k / 4 : k / 4); q++) r = mulV(r, x);
    return r;
  }
  static void nm(char *b, const char *pre, std::string const &n, Val const &v, int i, int j) {
    if (v.nd == 0) snprintf(b, 60, "%s%s", pre, n.c_str()); else snprintf(b, 60, "%s%s_%d_%d", pre, n.c_str(), i, j);
  }
  Val symbol(std::string const &n, Shape const &s, const char *pre = "") {
    Val v = shaped(s);
    for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) {
      char b[64], b2[64]; nm(b, pre, n, v, i, j); snprintf(b2, 64, "d_%s", b);
      sxE d = nullptr;
      if (dual) { if (wrt.empty()) d = fixed.count(n) ? zero() : sx_var(b2); else d = (*pre == 0 && n == wrt && i == wr && j == wc) ? one() : zero(); }
      v.at(i, j) = Sc{sx_var(b), d};
    }
    return v;
  }
  sxE boolean(BasicPtr const &p) {
    switch (p->getType()) {
    case Type_Bool: return Util::getAsConstPtr<Bool>(p)->getValue() ? sx_true() : sx_false();
    case Type_Greater: return sx_lt(one_(p->getArg(1)), one_(p->getArg(0)));
    case Type_Less: return sx_lt(one_(p->getArg(0)), one_(p->getArg(1)));
    case Type_Equal: return sx_eq(one_(p->getArg(0)), one_(p->getArg(1)));
    default: return sx_not(sx_eq(one_(p), zero()));
    }
  }
  sxE one_(BasicPtr const &p) { Val v = den(p); if (v.e.size() != 1) throw Unsupported{"comparison of non-scalars"}; return v.e[0].v; }
  Val den(BasicPtr const &p) {
    if (p.get() == NULL) throw Unsupported{"null expression"};
    if (hook) { Val hv; if (hook(p, hv)) return hv; }
    if (sOld.get() && p->getType() == sOld->getType() && p == sOld) { BasicPtr o = sOld; sOld = BasicPtr(); Val v = den(sNew); sOld = o; return v; }
    Shape s = p->getShape();
    switch (p->getType()) {
    case Type_Bool: return sc(cst(sx_ite(boolean(p), one(), zero())));
    case Type_Greater: case Type_Less: case Type_Equal: return sc(cst(sx_ite(boolean(p), one(), zero())));
    case Type_Symbol: return symbol(Util::getAsConstPtr<Symbol>(p)->getName(), s);
    case Type_Zero: return shaped(s);
    case Type_Eye: { Val v = shaped(s); for (int i = 0; i < v.r && i < v.c; i++) v.at(i, i) = num(1); return v; }
    case Type_Int: return sc(cst(sx_ti(Util::getAsConstPtr<Int>(p)->getValue())));
    case Type_Real: return sc(cst(sx_td(Util::getAsConstPtr<Real>(p)->getValue())));
    case Type_Matrix: {
      Val v = shaped(s); const Matrix *m = Util::getAsConstPtr<Matrix>(p);
      for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) { Val e = den(m->get(i, j)); if (e.e.size() != 1) throw Unsupported{"matrix of matrices"}; v.at(i, j) = e.e[0]; }
      return v; }
    case Type_Neg: return negV(den(p->getArg(0)));
    case Type_Add: { Val r = den(p->getArg(0)); for (size_t i = 1; i < p->getArgsSize(); i++) r = addV(r, den(p->getArg(i))); return r; }
    case Type_Mul: { Val r = den(p->getArg(0)); for (size_t i = 1; i < p->getArgsSize(); i++) r = mulV(r, den(p->getArg(i))); return r; }
    case Type_Pow: return pow_(den(p->getArg(0)), p->getArg(1));
    case Type_Sin: return map1("sin", den(p->getArg(0)));
    case Type_Cos: return map1("cos", den(p->getArg(0)));
    case Type_Tan: return map1("tan", den(p->getArg(0)));
    case Type_Asin: return map1("asin", den(p->getArg(0)));
    case Type_Acos: return map1("acos", den(p->getArg(0)));
    case Type_Atan: return map1("atan", den(p->getArg(0)));
    case Type_Atan2: { Val a = den(p->getArg(0)), b = den(p->getArg(1)); if (a.e.size() != b.e.size()) throw Unsupported{"atan2 shapes"}; for (size_t i = 0; i < a.e.size(); i++) a.e[i] = atan2_(a.e[i], b.e[i]); return a; }
    case Type_Abs: { Val a = den(p->getArg(0)); for (auto &x : a.e) x = abs_(x); return a; }
    case Type_Sign: { Val a = den(p->getArg(0)); for (auto &x : a.e) x = sign_(x); return a; }
    case Type_Scalar: { Val a = den(p->getArg(0)); if (a.e.size() != 1) throw Unsupported{"scalar()"}; return sc(a.e[0]); }
    case Type_Skew: { Val a = den(p->getArg(0)); Val r; r.nd = 2; r.r = r.c = 3; Sc z = num(0), x = a.e[0], y = a.e[1], w = a.e[2]; r.e = {z, neg(w), y, w, z, neg(x), neg(y), x, z}; return r; }
    case Type_Transpose: { Val a = den(p->getArg(0)); Val r = a; r.r = a.c; r.c = a.r; for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r.at(i, j) = a.at(j, i); return r; }
    case Type_Element: { Val a = den(p->getArg(0)); int i = sx_concretize(Util::getAsConstPtr<Int>(p->getArg(1))->getValue()), j = sx_concretize(Util::getAsConstPtr<Int>(p->getArg(2))->getValue()); if (i >= a.r || j >= a.c) throw Unsupported{"element index"}; return sc(a.at(i, j)); }
    case Type_Solve: { Val A = den(p->getArg(0)), b = den(p->getArg(1)); if (A.nd == 0) { for (auto &x : b.e) x = div(x, A.e[0]); return b; } return mulV(inv(A), b); }
    case Type_Inverse: return inv(den(p->getArg(0)));
    case Type_Outer: { Val a = den(p->getArg(0)), b = den(p->getArg(1)); Val r; r.nd = 2; r.r = a.e.size(); r.c = b.e.size(); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r.e.push_back(mul(a.e[i], b.e[j])); return r; }
    case Type_If: { sxE c = boolean(p->getArg(0)); Val a = den(p->getArg(1)), b = den(p->getArg(2)); if (a.e.size() != b.e.size()) throw Unsupported{"if shapes"}; for (size_t i = 0; i < a.e.size(); i++) a.e[i] = ite(c, a.e[i], b.e[i]); return a; }
    case Type_Der: {
      BasicPtr a = p->getArg(0);
      if (sOld.get() && a == sOld) { if (dual) throw Unsupported{"second derivative"}; Den D2; D2.dual = true; Val v = D2.den(sNew); for (auto &c : D2.side) need(c); for (auto &x : v.e) { x.v = x.d; x.d = nullptr; } return v; }
      if (a->getType() == Type_Symbol) { return symbol(Util::getAsConstPtr<Symbol>(a)->getName(), s, "d_"); }
      if (a->getType() == Type_Der && a->getArg(0)->getType() == Type_Symbol) { return symbol(Util::getAsConstPtr<Symbol>(a->getArg(0))->getName(), s, "d_d_"); }
      if (dual) throw Unsupported{"second derivative"};
      Den D2; D2.dual = true; D2.sOld = sOld; D2.sNew = sNew; Val v = D2.den(a); for (auto &c : D2.side) need(c); for (auto &x : v.e) { x.v = x.d; x.d = nullptr; } return v; }
    case Type_Jacobian: {
      if (dual) throw Unsupported{"second derivative"};
      if (sOld.get()) throw Unsupported{"substitution in a Jacobian"};
      BasicPtr a = p->getArg(0), sy = p->getArg(1); Val r; std::vector<Val> cols;
      for (size_t k = 0; k < sy->getArgsSize(); k++) { BasicPtr q = sy->getArg(k); if (q->getType() != Type_Symbol || !q->is_Scalar()) throw Unsupported{"jacobian"}; Den D2; D2.dual = true; D2.wrt = Util::getAsConstPtr<Symbol>(q)->getName(); cols.push_back(D2.den(a)); for (auto &c : D2.side) need(c); }
      r.r = cols[0].e.size(); r.c = cols.size(); r.nd = 2; if (a->is_Scalar()) { r.nd = 1; std::swap(r.r, r.c); }
      if (a->is_Scalar()) { for (auto &c : cols) r.e.push_back(Sc{c.e[0].d, nullptr}); }
      else for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r.e.push_back(Sc{cols[j].e[i].d, nullptr});
      return r; }
    default: throw Unsupported{"type"};
    }
  }
  void assumeSide() { for (auto c : side) sx_assume(c); side.clear(); }
};
inline sxE eqVal(Val const &a, Val const &b) {
  if (a.r != b.r || a.c != b.c) return sx_false();
  sxE r = sx_true(); for (size_t i = 0; i < a.e.size(); i++) r = sx_and(r, sx_eq(a.e[i].v, b.e[i].v)); return r;
}
inline void checkVal(Val const &a, Val const &b, std::string const &label) {
  if (a.r != b.r || a.c != b.c) { sx_fail((label + " [shape]").c_str()); return; }
  for (size_t i = 0; i < a.e.size(); i++) sx_check(sx_eq(a.e[i].v, b.e[i].v), label.c_str());
}
inline std::string txt(BasicPtr const &p) { try { return p.get() ? p->toString() : std::string("<null>"); } catch (...) { return "<no text>"; } }

// ------------------------------------------------------------------ trees
struct Gen {
  std::map<std::string, BasicPtr> syms;
  int intLo = -3, intHi = 4, realLo = -6, realHi = 10;
  BasicPtr sym(const char *n) { auto &p = syms[n]; if (!p.get()) p = BasicPtr(new Symbol(n)); return p; }
  BasicPtr sym(const char *n, Shape const &s) { auto &p = syms[n]; if (!p.get()) p = BasicPtr(new Symbol(n, s)); return p; }
  BasicPtr integer(int d = 2) { return Int::New(sx_int(intLo, intHi, d)); }
  BasicPtr rawint(int d = 2) { return BasicPtr(new Int(sx_int(intLo, intHi, d))); }
  BasicPtr real(int d4 = 6) { return BasicPtr(new Real(sx_real(realLo, realHi, d4))); }
};
} // namespace sxh
