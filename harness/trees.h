// Families of expression trees shared by the harnesses.
#pragma once
#include "ops.h"
using namespace sxh;
static Gen *G;
// families of trees, selected by the argument string
static BasicPtr leaf(int kind) {
  switch (kind) {
  case 0: return G->sym("x");
  case 1: return G->integer();
  case 2: return G->sym("y");
  case 3: return G->real();
  case 4: return Zero::getZero();
  }
  return BasicPtr();
}
static BasicPtr expo() { // exponent: symbolic integer or half-integer
  if (sx_choose(2) == 0) return BasicPtr(new Int(sx_int(-2, 3, 2)));
  return BasicPtr(new Real(0.5 * sx_int(-3, 3, 1)));
}
// scalar tree, depth-limited; nleaf: how many leaf kinds
static BasicPtr tree(int depth, int nleaf, int ops) {
  int k = sx_choose(depth == 0 ? nleaf : nleaf + ops);
  if (k < nleaf) return leaf(k);
  k -= nleaf;
  switch (k) {
  case 0: { BasicPtr a = tree(depth - 1, nleaf, ops), b = tree(depth - 1, nleaf, ops); return BasicPtr(new Add(a, b)); }
  case 1: { BasicPtr a = tree(depth - 1, nleaf, ops), b = tree(depth - 1, nleaf, ops); return BasicPtr(new Mul(a, b)); }
  case 2: { BasicPtr a = tree(depth - 1, nleaf, ops); return BasicPtr(new Neg(a)); }
  case 3: { BasicPtr a = tree(depth - 1, nleaf, ops); return BasicPtr(new Pow(a, expo())); }
  }
  return BasicPtr();
}
// sums / products of n items, each coefficient*symbol, constant, power, ...
static BasicPtr item2(int k) {
  switch (k) {
  case 0: return G->sym("x");
  case 1: return BasicPtr(new Mul(G->rawint(), G->sym("x")));
  case 2: return G->integer();
  case 3: return BasicPtr(new Neg(G->sym("x")));
  case 4: return BasicPtr(new Pow(G->sym("x"), BasicPtr(new Int(sx_int(-2, 3, 2)))));
  case 5: return BasicPtr(new Mul(G->sym("y"), G->real()));
  case 6: return G->real();
  case 7: return BasicPtr(new Add(G->sym("x"), G->integer()));
  case 8: return BasicPtr(new Neg(BasicPtr(new Mul(G->sym("x"), G->sym("y")))));
  case 9: return BasicPtr(new Neg(BasicPtr(new Add(G->sym("x"), G->sym("y")))));
  case 10: return BasicPtr(new Pow(G->sym("x"), BasicPtr(new Real(0.5 * sx_int(-3, 3, 1)))));
  case 11: return G->sym("y");
  case 12: return Zero::getZero();
  }
  return BasicPtr();
}
static BasicPtr item(int kinds) { return item2(sx_choose(kinds)); }
static BasicPtr nary(bool add, int n, int kinds) {
  BasicPtrVec v; for (int i = 0; i < n; i++) v.push_back(item(kinds));
  if (add) return BasicPtr(new Add(v)); return BasicPtr(new Mul(v));
}
static BasicPtr cond(BasicPtr a, BasicPtr b) {
  switch (sx_choose(3)) { case 0: return BasicPtr(new Greater(a, b)); case 1: return BasicPtr(new Less(a, b)); default: return BasicPtr(new Equal(a, b)); }
}
static BasicPtr fun(int k, BasicPtr a, BasicPtr b) {
  switch (k) {
  case 0: return BasicPtr(new Sin(a)); case 1: return BasicPtr(new Cos(a)); case 2: return BasicPtr(new Tan(a));
  case 3: return BasicPtr(new Asin(a)); case 4: return BasicPtr(new Acos(a)); case 5: return BasicPtr(new Atan(a));
  case 6: return BasicPtr(new Abs(a)); case 7: return BasicPtr(new Sign(a)); case 8: return BasicPtr(new Atan2(a, b));
  case 9: return BasicPtr(new If(cond(a, b), a, G->sym("z")));
  case 10: return BasicPtr(new Scalar(a));
  case 11: return BasicPtr(new If(cond(a, G->integer()), b, a));
  }
  return BasicPtr();
}
static BasicPtr inner(int f, int outer, BasicPtr a, BasicPtr b) { // arcfunction(function) is a family of its own (arc)
  if (outer - f == 3 && f < 3) return BasicPtr(new Neg(a));
  return fun(f, a, b);
}
static BasicPtr farg(int deep, int outer = -1) {
  switch (sx_choose(deep ? 10 : 8)) {
  case 0: return G->sym("x");
  case 1: return G->integer();
  case 2: return BasicPtr(new Neg(G->sym("x")));
  case 3: return G->real();
  case 4: return BasicPtr(new Add(G->sym("x"), BasicPtr(new Neg(G->sym("y")))));
  case 5: return BasicPtr(new Mul(G->integer(), G->sym("x")));
  case 6: return Zero::getZero();
  case 7: return BasicPtr(new Add(BasicPtr(new Neg(G->sym("y"))), G->sym("x")));
  case 8: { int f = sx_choose(9); return inner(f, outer, G->sym("x"), G->sym("y")); }
  case 9: { int f = sx_choose(9); return BasicPtr(new Neg(inner(f, outer, G->sym("y"), G->sym("x")))); }
  }
  return BasicPtr();
}
// ---- matrices: n x n with n in {1?,2,3}
static BasicPtr mleaf(int n, int k) {
  Shape s(n, n);
  switch (k) {
  case 0: return G->sym(n == 2 ? "A" : "A3", s);
  case 1: { Matrix *m = new Matrix(s); m->set(0, 0, G->integer(1)); m->set(0, 1, G->sym("x")); m->set(1, 1, G->integer(1)); m->set(1, 0, G->sym("y")); return BasicPtr(m); }
  case 2: return BasicPtr(new Zero(s));
  case 3: return BasicPtr(new Eye(s));
  case 4: { Matrix *m = new Matrix(s); m->set(0, 0, G->integer(1)); m->set(1, 1, G->integer(1)); if (n > 2) m->set(2, 2, Int::getOne()); return BasicPtr(m); }
  case 5: return G->sym(n == 2 ? "B" : "B3", s);
  case 6: return Util::eye(s);
  }
  return BasicPtr();
}
static BasicPtr mtree(int depth, int n, int leaves) {
  int k = sx_choose(depth == 0 ? leaves : leaves + 8);
  if (k < leaves) return mleaf(n, k);
  k -= leaves;
  switch (k) {
  case 0: { BasicPtr a = mtree(depth - 1, n, leaves), b = mtree(depth - 1, n, leaves); return BasicPtr(new Add(a, b)); }
  case 1: { BasicPtr a = mtree(depth - 1, n, leaves), b = mtree(depth - 1, n, leaves); return BasicPtr(new Mul(a, b)); }
  case 2: return BasicPtr(new Neg(mtree(depth - 1, n, leaves)));
  case 3: return BasicPtr(new Transpose(mtree(depth - 1, n, leaves)));
  case 4: { BasicPtr a = mtree(depth - 1, n, leaves); return BasicPtr(new Mul(G->integer(), a)); }
  case 5: { BasicPtr a = mtree(depth - 1, n, leaves); return BasicPtr(new Mul(a, G->sym("x"))); }
  case 6: { BasicPtr a = mtree(depth - 1, n, leaves); return BasicPtr(new Pow(a, BasicPtr(sx_choose(2) ? new Int(-1) : new Int(sx_int(1, 2, 2))))); } // zeroth power: family mpow0
  case 7: { BasicPtr a = mtree(depth - 1, n, leaves); return BasicPtr(new Inverse(a)); }
  }
  return BasicPtr();
}
static BasicPtr vleaf(int n, int k) {
  Shape s((size_t)n);
  switch (k) {
  case 0: return G->sym(n == 2 ? "v" : "v3", s);
  case 1: { Matrix *m = new Matrix(s); m->set(0, G->integer(1)); m->set(1, G->sym("x")); if (n > 2) m->set(2, G->sym("y")); return BasicPtr(m); }
  case 2: return BasicPtr(new Zero(s));
  case 3: return G->sym(n == 2 ? "w" : "w3", s);
  case 4: { Matrix *m = new Matrix(s); m->set(0, G->integer(1)); m->set(1, G->integer(1)); if (n > 2) m->set(2, G->integer(0)); return BasicPtr(m); }
  }
  return BasicPtr();
}
static BasicPtr vtree(int depth, int n) {
  int k = sx_choose(depth == 0 ? 5 : 5 + 6);
  if (k < 5) return vleaf(n, k);
  switch (k - 5) {
  case 0: { BasicPtr a = vtree(depth - 1, n), b = vtree(depth - 1, n); return BasicPtr(new Add(a, b)); }
  case 1: return BasicPtr(new Neg(vtree(depth - 1, n)));
  case 2: { BasicPtr a = vtree(depth - 1, n); return BasicPtr(new Mul(G->integer(), a)); }
  case 3: { BasicPtr m = n == 3 && sx_choose(2) ? BasicPtr(new Skew(vtree(depth - 1, 3))) : mleaf(n, sx_choose(5)); BasicPtr a = vtree(depth - 1, n); return BasicPtr(new Mul(m, a)); }
  case 4: { BasicPtr a = vtree(depth - 1, n); return BasicPtr(new Mul(a, G->sym("x"))); }
  case 5: { BasicPtr m = mleaf(n, sx_choose(2)); BasicPtr a = vtree(depth - 1, n); return BasicPtr(new Solve(m, a)); }
  }
  return BasicPtr();
}
static BasicPtr mixed(int f) {
  switch (f) {
  case 0: { BasicPtr a = vtree(1, 2), b = vtree(1, 2); return BasicPtr(new Mul(BasicPtr(new Transpose(a)), b)); } // inner product
  case 1: { BasicPtr a = vtree(1, 2), b = vtree(1, 2); return BasicPtr(new Mul(a, BasicPtr(new Transpose(b)))); } // outer product
  case 2: { BasicPtr a = vtree(1, 2), b = vtree(1, 2); return BasicPtr(new Outer(a, b)); }
  case 3: { BasicPtr a = vtree(1, 3); int i = sx_choose(3); return BasicPtr(new Element(a, i, 0)); }
  case 4: { BasicPtr a = mtree(1, 2, 5); int i = sx_choose(2), j = sx_choose(2); return BasicPtr(new Element(a, i, j)); }
  case 5: { BasicPtr a = vtree(1, 3); BasicPtr s = BasicPtr(new Skew(a)); int i = sx_choose(4); if (i == 3) return s; int j = sx_choose(3); return BasicPtr(new Element(s, i, j)); }
  case 6: { BasicPtr a = vtree(1, 3); return BasicPtr(new Transpose(BasicPtr(new Skew(a)))); }
  case 7: { BasicPtr a = vtree(0, 2), b = vtree(0, 2); BasicPtr m = mleaf(2, sx_choose(5)); return BasicPtr(new Mul(BasicPtr(new Transpose(a)), BasicPtr(new Mul(m, b)))); }
  case 8: { BasicPtr a = vtree(0, 2); BasicPtr m = mleaf(2, sx_choose(5)); return BasicPtr(new Mul(BasicPtr(new Transpose(a)), m)); }
  case 9: { BasicPtr c = cond(G->sym("x"), G->integer()); BasicPtr a = vtree(1, 2), b = vtree(0, 2); return BasicPtr(new If(c, a, b)); }
  case 10: { BasicPtr a = mtree(1, 2, 6); return BasicPtr(new Add(a, leaf(sx_choose(4)))); }               // matrix + scalar
  case 11: { BasicPtrVec v; for (int i = 0; i < 3; i++) { int k = sx_choose(6); v.push_back(k < 4 ? mleaf(2, k) : leaf(k - 4)); } return BasicPtr(new Add(v)); }
  case 12: { BasicPtrVec v; for (int i = 0; i < 3; i++) { int k = sx_choose(9); v.push_back(k < 7 ? mleaf(2, k) : leaf(k - 7)); } return BasicPtr(new Mul(v)); }
  case 13: { int f = sx_choose(8); BasicPtr a = vleaf(2, sx_choose(5)); return fun(f, a, a); }               // elementwise functions
  case 14: { BasicPtr a = mtree(1, 2, 5), b = vtree(0, 2); return BasicPtr(new Solve(a, b)); }
  case 15: { BasicPtrVec v; for (int i = 0; i < 3; i++) { int k = sx_choose(5); v.push_back(k == 4 ? BasicPtr(new Neg(vleaf(2, 1))) : vleaf(2, k)); } return BasicPtr(new Add(v)); }
  case 16: { BasicPtr a = mtree(1, 2, 7); return BasicPtr(new Add(BasicPtr(new Neg(a)), mleaf(2, sx_choose(5)))); }
  case 17: { int f = sx_choose(6); BasicPtr a = mleaf(2, sx_choose(4)); return fun(f, a, a); }
  }
  return BasicPtr();
}
// all trees of one family; null if there is no such family
static BasicPtr build(std::string const &fam) {
  BasicPtr e; const char *arg = fam.c_str();
  if (fam == "tree1") e = tree(1, 5, 4);
  else if (fam == "tree2") e = tree(2, 3, 4);
  else if (fam == "tree2full") e = tree(2, 5, 4);
  else if (fam == "add3") e = nary(true, 3, 9);
  else if (fam == "mul3") e = nary(false, 3, 9);
  else if (fam == "add3full") e = nary(true, 3, 13);
  else if (fam == "mul3full") e = nary(false, 3, 13);
  else if (fam == "add4") e = nary(true, 4, 8);
  else if (fam == "mul4") e = nary(false, 4, 8);
  else if (fam == "fun") { int f = sx_choose(12); BasicPtr a = farg(0), b = (f == 8 || f == 9 || f == 11) ? farg(0) : a; e = fun(f, a, b); }
  else if (fam == "fun2") { int f = sx_choose(12); BasicPtr a = farg(1, f), b = (f == 8 || f == 9 || f == 11) ? farg(0) : a; e = fun(f, a, b); if (sx_choose(2)) e = BasicPtr(new Mul(e, farg(0))); }
  else if (fam == "powb") { BasicPtr b; int k = sx_choose(16);
      if (k < 12) b = item2(k); else if (k == 12) b = BasicPtr(new Add(BasicPtrVec{G->sym("x"), BasicPtr(new Neg(G->sym("x"))), BasicPtr(new Neg(G->sym("y")))}));
    else if (k == 13) b = BasicPtr(new Neg(BasicPtr(new Pow(G->sym("x"), BasicPtr(new Int(sx_int(-3, 3, 2))))))); else if (k == 14) b = BasicPtr(new Mul(BasicPtr(new Neg(G->sym("x"))), G->integer())); else b = BasicPtr(new Sin(BasicPtr(new Neg(G->sym("x")))));
      BasicPtr ex; switch (sx_choose(3)) { case 0: ex = BasicPtr(new Int(sx_int(-5, 5, 2))); break; case 1: ex = BasicPtr(new Real(0.5 * sx_int(-5, 5, 1))); break; default: ex = BasicPtr(new Real(sx_int(-4, 4, 2))); }
      e = BasicPtr(new Pow(b, ex)); if (sx_choose(2)) e = BasicPtr(new Mul(e, G->sym("x"))); }
  else if (fam == "mpowl") { BasicPtr b = mleaf(2, sx_choose(2) ? 1 : 4); int n = sx_choose(6); n = n < 3 ? n - 3 : n - 2; e = BasicPtr(sx_choose(2) ? new Pow(b, BasicPtr(new Int(n))) : new Pow(b, BasicPtr(new Real(n)))); }
  else if (fam == "arc") { int f = sx_choose(3); BasicPtr x = G->sym("x"); e = fun(f + 3, fun(f, x, x), x); }
  else if (fam == "mpow0") { Shape s(2, 2); e = BasicPtr(new Pow(mleaf(2, 0), BasicPtr(new Int(0)))); }
  else if (fam == "mpows") { BasicPtrVec v; for (int i = 0; i < 3; i++) { int k = sx_choose(5); BasicPtr A = mleaf(2, k == 3 ? 5 : 0); v.push_back(k == 0 || k == 3 ? A : k == 4 ? G->sym("x") : k == 1 ? BasicPtr(new Pow(A, BasicPtr(new Int(-1)))) : BasicPtr(new Pow(A, BasicPtr(new Int(2))))); } e = BasicPtr(new Mul(v)); }
  else if (fam == "mat1") e = mtree(1, 2, 7);
  else if (fam == "mat2") e = mtree(2, 2, 4);
  else if (fam == "mat2full") e = mtree(2, 2, 7);
  else if (fam == "mat3") e = mtree(1, 3, 7);
  else if (fam == "vec2") e = vtree(2, 2);
  else if (fam == "vec1") e = vtree(1, 2);
  else if (fam == "vec1_3") e = vtree(1, 3);
  else if (fam == "add3q") e = nary(true, 3, 6);
  else if (fam == "mul3q") e = nary(false, 3, 6);
  else if (fam == "vec3") e = vtree(2, 3);
  else if (fam == "mixed") e = mixed(sx_choose(18));
  else if (fam.compare(0, 5, "mixed") == 0) e = mixed(atoi(arg + 5));
  return e;
}
// functions and operations of differentiable operands; also the families above
static BasicPtr extra(std::string const &f) {
  Ops o; static Ops *keep; keep = new Ops(o); Ops &O = *keep; O.g.syms = G->syms;
  struct S { Ops &o; ~S() { G->syms = o.g.syms; } } sv{O};
  if (f == "f1") { int k = sx_choose(9); BasicPtr a = farg(0); return fun(k, a, k == 8 ? farg(0) : a); }
  if (f == "f2") { int k = sx_choose(9), l = sx_choose(7); if (k >= 3 && k <= 5 && l == k - 3) return BasicPtr(); BasicPtr x = G->sym("x"), y = G->sym("y"); return fun(k, fun(l, x, y), y); }
  if (f == "fm") { int k = sx_choose(7); return fun(k, sx_choose(2) ? BasicPtr(new Mul(G->sym("x"), G->sym("y"))) : BasicPtr(new Add(G->sym("x"), G->sym("y"))), G->sym("y")); }
  if (f == "if") { BasicPtr a = farg(0), b = farg(0); return BasicPtr(new If(cond(G->sym("z"), G->integer()), a, b)); }
  if (f == "vm") { BasicPtr m = O.mat('m'), v = O.mat('v'); switch (sx_choose(7)) { case 0: return BasicPtr(new Mul(m, v)); case 1: return BasicPtr(new Mul(O.mat('r'), v)); case 2: return BasicPtr(new Outer(v, O.sy('v'))); case 3: return BasicPtr(new Transpose(m)); case 4: return BasicPtr(new Solve(m, v)); case 5: return BasicPtr(new Add(m, O.sy('m'))); default: return BasicPtr(new Mul(v, BasicPtr(new Transpose(v)))); } }
  if (f == "vs") { BasicPtr m = O.sy('m'), v = O.sy('v'); switch (sx_choose(8)) { case 0: return BasicPtr(new Mul(m, v)); case 1: return BasicPtr(new Mul(O.sy('r'), v)); case 2: return BasicPtr(new Outer(v, O.sy('v', 1))); case 3: return BasicPtr(new Transpose(m)); case 4: return BasicPtr(new Solve(m, v)); case 5: return BasicPtr(new Mul(BasicPtr(new Skew(O.sy('w'))), O.sy('w', 1))); case 6: return BasicPtr(new Element(BasicPtr(new Mul(m, v)), sx_choose(2), 0)); default: return BasicPtr(new Mul(m, O.sy('m', 1))); } }
  if (f == "inv") { BasicPtr m = sx_choose(2) ? O.mat('m') : O.sy('m'); return sx_choose(2) ? BasicPtr(new Inverse(m)) : BasicPtr(new Pow(m, BasicPtr(new Int(-1)))); }
  if (f == "mp") { BasicPtr m = sx_choose(2) ? O.mat('m') : O.sy('m'); return BasicPtr(new Pow(m, BasicPtr(new Int(sx_choose(2) + 2)))); }
  if (f == "sk") { BasicPtr w = sx_choose(2) ? O.mat('w') : O.sy('w'); BasicPtr s(new Skew(w)); return sx_choose(2) ? s : BasicPtr(new Mul(s, O.sy('w', 1))); }
  if (f == "mf") return fun(sx_choose(8), O.sy('m'), BasicPtr());
  if (f == "eye") { Shape s(2, 2); switch (sx_choose(4)) { case 0: return BasicPtr(new Eye(s)); case 1: return BasicPtr(new Mul(BasicPtr(new Eye(s)), G->sym("x"))); case 2: return BasicPtr(new Zero(s)); default: return BasicPtr(new Add(BasicPtr(new Eye(s)), O.mat('m'))); } }
  if (f == "nest") { BasicPtr a = tree(1, 3, 4); int k = sx_choose(8); return k == 7 ? BasicPtr(new Pow(a, BasicPtr(new Real(0.5)))) : fun(k, a, a); }
  if (f == "vecj") { Matrix *m = new Matrix(Shape(2)); BasicPtr r(m); m->set(0, tree(1, 3, 4)); m->set(1, fun(sx_choose(3), G->sym("y"), G->sym("x"))); return r; }
  return build(f);
}
