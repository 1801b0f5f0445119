// S02: constructing an operation means the mathematical operation; S03: the
// result has the shape of the mathematical result and misuse is rejected.
// argument: <mode>:<family>  mode v (value) or s (shape)
#include "ops.h"
using namespace sxh;
static Ops *O; static Gen *G; static bool shapes;
static BasicPtr condOp(int k, BasicPtr a, BasicPtr b) { switch (k) { case 0: return Greater::New(a, b); case 1: return Less::New(a, b); default: return Equal::New(a, b); } }
struct Case { BasicPtr res; Val want; bool valid = true; bool raised = false; std::string text; };
template <class F> static void attempt(Case &c, F f) { try { c.res = f(); } catch (std::exception &e) { c.raised = true; c.text += std::string(" raises ") + e.what(); } }
static void binary(Case &c, Den &D, int op, BasicPtr a, BasicPtr b, BasicPtr (*mk)(int, BasicPtr, BasicPtr)) {
  static const char *nm[] = {" + ", " - ", " * ", " / "};
  c.text = "(" + txt(a) + ")" + nm[op] + "(" + txt(b) + ")";
  Val x = D.den(a), y = D.den(b);
  switch (op) {
  case 0: if ((c.valid = fitAdd(x, y))) c.want = D.addV(x, y); break;
  case 1: if ((c.valid = fitAdd(x, y))) c.want = D.addV(x, D.negV(y)); break;
  case 2: if ((c.valid = fitMul(x, y))) c.want = D.mulV(x, y); break;
  case 3: if ((c.valid = y.nd == 0)) { c.want = x; for (auto &e : c.want.e) e = D.div(e, y.e[0]); } else if (y.nd == 2 && y.r == y.c && fitMul(x, y)) { c.valid = true; c.want = D.mulV(x, D.inv(y)); } break;
  }
  attempt(c, [&] { return mk(op, a, b); });
}
static BasicPtr mkBasic(int op, BasicPtr a, BasicPtr b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return Util::div(a, b); } }
static double dv; static int iv;
static void numeric(Case &c, Den &D, char cls) { // overloads taking plain numbers
  BasicPtr a = O->operand(cls); int w = sx_choose(12); Val x = D.den(a); bool isd = w >= 6; int o = w % 6;
  BasicPtr nb; Val n; double d = 0; int i = 0; if (isd) { d = sx_real(-6, 10, 6); n = D.sc(D.cst(sx_td(d))); } else { i = sx_int(-3, 4, 2); n = D.sc(D.cst(sx_ti(i))); }
  c.text = "number overload " + std::to_string(o) + (isd ? " (double) of " : " (int) of ") + txt(a);
  switch (o) { case 0: c.want = D.addV(n, x); break; case 1: c.want = D.addV(x, n); break; case 2: c.want = D.addV(n, D.negV(x)); break; case 3: c.want = D.addV(x, D.negV(n)); break; case 4: c.want = D.mulV(n, x); break; case 5: c.want = D.mulV(x, n); break; }
  attempt(c, [&]() -> BasicPtr { if (isd) switch (o) { case 0: return d + a; case 1: return a + d; case 2: return d - a; case 3: return a - d; case 4: return d * a; default: return a * d; }
    switch (o) { case 0: return i + a; case 1: return a + i; case 2: return i - a; case 3: return a - i; case 4: return i * a; default: return a * i; } });
}
static void unary(Case &c, Den &D, int f, BasicPtr a) {
  static const char *nm[] = {"neg", "transpose", "sin", "cos", "tan", "asin", "acos", "atan", "abs", "sign", "sqrt", "skew", "scalar", "inverse"};
  c.text = std::string(nm[f]) + "(" + txt(a) + ")"; Val x = D.den(a); c.want = x;
  if (f >= 2 && f <= 7) c.want = D.map1(nm[f], x);
  switch (f) {
  case 0: c.want = D.negV(x); break;
  case 1: { Val r = x; r.r = x.c; r.c = x.r; for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r.at(i, j) = x.at(j, i); c.want = r; break; }
  case 8: for (auto &e : c.want.e) e = D.abs_(e); break;
  case 9: for (auto &e : c.want.e) e = D.sign_(e); break;
  case 10: if (x.nd) { c.valid = x.nd == 2 && x.r == x.c; if (!shapes) throw Unsupported{"root of a matrix"}; } else c.want = D.sc(D.sqrt_(x.e[0])); break;
  case 11: if (x.nd == 0 && Util::is_Zero(a)) x.e.assign(3, D.num(0)), x.nd = 1; // the scalar 0 stands for the zero vector here
    if (x.nd != 1 || x.e.size() != 3 || x.c != 1) c.valid = false; else { Val r; r.nd = 2; r.r = r.c = 3; Sc z = D.num(0), p = x.e[0], q = x.e[1], w = x.e[2]; r.e = {z, D.neg(w), q, w, z, D.neg(p), D.neg(q), p, z}; c.want = r; } break;
  case 12: if (x.e.size() != 1) c.valid = false; else c.want = D.sc(x.e[0]); break;
  case 13: if (x.r != x.c) c.valid = false; else c.want = D.inv(x); break;
  }
  attempt(c, [&]() -> BasicPtr { switch (f) {
    case 0: return -a; case 1: return Transpose::New(a); case 2: return Sin::New(a); case 3: return Cos::New(a); case 4: return Tan::New(a); case 5: return Asin::New(a); case 6: return Acos::New(a); case 7: return Atan::New(a); case 8: return Abs::New(a); case 9: return Sign::New(a); case 10: return Util::sqrt(a); case 11: return Skew::New(a); case 12: return Scalar::New(a); default: return Inverse::New(a); } });
}
static void power(Case &c, Den &D, BasicPtr a, BasicPtr e) {
  c.text = "pow(" + txt(a) + ", " + txt(e) + ")"; Val x = D.den(a);
  if (x.nd && (x.nd != 2 || x.r != x.c)) c.valid = false; else c.want = D.pow_(x, e);
  attempt(c, [&] { return Pow::New(a, e); });
}
static void solve(Case &c, Den &D, BasicPtr a, BasicPtr b) {
  c.text = "solve(" + txt(a) + ", " + txt(b) + ")"; Val A = D.den(a), x = D.den(b);
  if (A.nd == 0) { c.valid = x.nd == 0; if (c.valid) c.want = D.sc(D.div(x.e[0], A.e[0])); }
  else { c.valid = A.nd == 2 && A.r == A.c && x.nd >= 1 && x.c == 1 && A.r == x.r; // the library solves for one right-hand side only
    if (c.valid) c.want = D.mulV(D.inv(A), x); }
  attempt(c, [&] { return Solve::New(a, b); });
}
static void outer(Case &c, Den &D, BasicPtr a, BasicPtr b) {
  c.text = "outer(" + txt(a) + ", " + txt(b) + ")"; Val x = D.den(a), y = D.den(b);
  c.valid = x.nd == 1 && y.nd == 1 && x.c == 1 && y.c == 1 && x.r == y.r; // the library wants equal lengths
  if (c.valid) { Val r; r.nd = 2; r.r = x.e.size(); r.c = y.e.size(); for (auto &p : x.e) for (auto &q : y.e) r.e.push_back(D.mul(p, q)); c.want = r; }
  attempt(c, [&] { return Outer::New(a, b); });
}
static void atan2c(Case &c, Den &D, BasicPtr a, BasicPtr b) {
  c.text = "atan2(" + txt(a) + ", " + txt(b) + ")"; Val x = D.den(a), y = D.den(b);
  c.valid = x.nd == 0 && y.nd == 0; if (c.valid) c.want = D.sc(D.atan2_(x.e[0], y.e[0]));
  attempt(c, [&] { return Atan2::New(a, b); });
}
static void element(Case &c, Den &D, BasicPtr a) {
  Val x = D.den(a); int i = sx_choose(4), j = sx_choose(x.nd == 0 ? 2 : x.nd == 1 && x.c == 1 ? 2 : 4);
  c.text = "element(" + txt(a) + ", " + std::to_string(i) + ", " + std::to_string(j) + ")";
  c.valid = i < x.r && j < x.c; if (c.valid) c.want = D.sc(x.at(i, j));
  attempt(c, [&] { return Element::New(a, i, j); });
}
static void iff(Case &c, Den &D, int k, BasicPtr p, BasicPtr q, BasicPtr a, BasicPtr b) {
  static const char *nm[] = {" > ", " < ", " == "};
  c.text = "if(" + txt(p) + nm[k] + txt(q) + ", " + txt(a) + ", " + txt(b) + ")"; Val x = D.den(a), y = D.den(b);
  sxE pv = D.one_(p), qv = D.one_(q), cv = k == 0 ? sx_lt(qv, pv) : k == 1 ? sx_lt(pv, qv) : sx_eq(pv, qv);
  c.valid = x.nd == y.nd && x.r == y.r && x.c == y.c;
  if (c.valid) { c.want = x; for (size_t i = 0; i < x.e.size(); i++) c.want.e[i] = D.ite(cv, x.e[i], y.e[i]); }
  attempt(c, [&] { return If::New(condOp(k, p, q), a, b); });
}
static void compare(Case &c, Den &D, int k, BasicPtr p, BasicPtr q) {
  static const char *nm[] = {" > ", " < ", " == "};
  c.text = txt(p) + nm[k] + txt(q); sxE pv = D.one_(p), qv = D.one_(q), cv = k == 0 ? sx_lt(qv, pv) : k == 1 ? sx_lt(pv, qv) : sx_eq(pv, qv);
  c.want = D.sc(D.ite(cv, D.num(1), D.num(0)));
  attempt(c, [&] { return condOp(k, p, q); });
}
static BasicPtr expo() {
  switch (sx_choose(4)) { case 0: return BasicPtr(new Int(sx_int(-4, 5, 2))); case 1: return BasicPtr(new Real(0.5 * sx_int(-5, 5, 1))); case 2: return Real::New(sx_int(-4, 5, 2)); default: return Zero::getZero(); }
}

// ---- S03 with symbolic dimensions: the operands are variables whose sizes are solver variables
struct SD { int nd, r, c; Shape s; };
static SD symShape(int hi) {
  SD d; d.nd = sx_choose(4); d.r = d.c = 1;
  switch (d.nd) { case 0: break; case 1: d.r = sx_int(2, hi, 3); break; case 3: d.c = sx_int(2, hi, 3); break; default: d.r = sx_int(1, hi, 2); d.c = sx_int(1, hi, 2); }
  if (d.nd == 3) d.nd = 1;
  d.s = Shape(d.nd, d.r, d.c); return d;
}
static sxE eqI(int a, int b) { return sx_eq(sx_ti(a), sx_ti(b)); }
static void symDims(int k) {
  SD a = symShape(5), b = symShape(5); BasicPtr x(new Symbol("xa", a.s)), y(new Symbol("yb", b.s)), r;
  sxE same = sx_and(eqI(a.r, b.r), eqI(a.c, b.c)), T = sx_true(), F = sx_false(), ok = T; int i = 0, j = 0;
  sxE n = T, wr = sx_ti(a.r), wc = sx_ti(a.c); int nd = a.nd; bool nd0 = a.nd == 0, ne0 = b.nd == 0;
  const char *nm = "";
  switch (k) {
  case 0: nm = "sum"; ok = nd0 || ne0 ? T : a.nd == b.nd ? same : F; if (nd0) wr = sx_ti(b.r), wc = sx_ti(b.c), nd = b.nd; break;
  case 1: nm = "difference"; ok = nd0 || ne0 ? T : a.nd == b.nd ? same : F; if (nd0) wr = sx_ti(b.r), wc = sx_ti(b.c), nd = b.nd; break;
  case 2: nm = "product"; ok = nd0 || ne0 ? T : eqI(a.c, b.r); wr = sx_ti(nd0 ? b.r : a.r); wc = sx_ti(ne0 ? a.c : b.c); if (nd0) nd = b.nd; else if (!ne0) nd = -1; break;
  case 3: nm = "quotient"; ok = ne0 ? T : b.nd == 2 ? sx_and(eqI(b.r, b.c), nd0 ? T : eqI(a.c, b.r)) : F; if (nd0) wr = sx_ti(b.r), wc = sx_ti(b.c), nd = b.nd; else if (!ne0) nd = a.nd == 2 ? 2 : -2; break;
  case 4: nm = "power"; ok = nd0 ? T : a.nd == 2 ? eqI(a.r, a.c) : F; break;
  case 5: nm = "transpose"; wr = sx_ti(a.c); wc = sx_ti(a.r); break;
  case 6: nm = "skew"; ok = a.nd == 1 ? sx_and(eqI(a.r, 3), eqI(a.c, 1)) : F; wr = wc = sx_num(3); nd = 2; break;
  case 7: nm = "inverse"; ok = nd0 ? T : a.nd == 2 ? eqI(a.r, a.c) : F; break;
  case 8: nm = "solve"; ok = nd0 ? (ne0 ? T : F) : a.nd == 2 && b.nd >= 1 ? sx_and(eqI(a.r, a.c), sx_and(eqI(a.r, b.r), eqI(b.c, 1))) : F; wr = sx_ti(b.r); wc = sx_ti(b.c); nd = b.nd; break;
  case 9: nm = "outer"; ok = a.nd == 1 && b.nd == 1 ? sx_and(eqI(a.c, 1), same) : F; wc = sx_ti(b.r); nd = 2; break;
  case 10: nm = "atan2"; ok = nd0 && ne0 ? T : F; break;
  case 11: nm = "scalar"; ok = sx_and(eqI(a.r, 1), eqI(a.c, 1)); wr = wc = sx_num(1); nd = 0; break;
  case 12: nm = "if"; ok = a.nd == b.nd ? same : F; break;
  case 13: nm = "element"; i = sx_int(0, 6, 1); j = sx_int(0, 6, 0); ok = sx_and(sx_lt(sx_ti(i), sx_ti(a.r)), sx_lt(sx_ti(j), sx_ti(a.c))); wr = wc = sx_num(1); nd = 0; break;
  case 14: nm = "negation"; break;
  case 15: nm = "sine"; break;
  }
  if (k == 8) { if (!nd0) sx_assume(sx_le(sx_num(2), sx_ti(a.r))); if (b.nd == 2) sx_assume(sx_le(sx_num(2), sx_ti(b.r))); } // one-element matrices count as scalars here
  bool raised = false; std::string what = std::string(nm) + " of variables with symbolic sizes";
  try { switch (k) {
    case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = Util::div(x, y); break; case 4: r = Pow::New(x, BasicPtr(new Int(2))); break; case 5: r = Transpose::New(x); break; case 6: r = Skew::New(x); break; case 7: r = Inverse::New(x); break;
    case 8: r = Solve::New(x, y); break; case 9: r = Outer::New(x, y); break; case 10: r = Atan2::New(x, y); break; case 11: r = Scalar::New(x); break; case 12: r = If::New(Greater::New(G->sym("p"), G->sym("q")), x, y); break; case 13: r = Element::New(x, i, j); break; case 14: r = -x; break; default: r = Sin::New(x); } }
  catch (std::exception &e) { raised = true; }
  if (raised) { sx_check(sx_not(ok), (what + " is rejected although the shapes fit").c_str()); return; }
  sx_check(ok, (what + " is accepted although the shapes do not fit").c_str());
  Shape s = r->getShape(); sx_assume(ok);
  sx_check(sx_and(sx_eq(sx_ti(s.getDimension(1)), wr), sx_eq(sx_ti(s.getDimension(2)), wc)), (what + " reports the wrong size").c_str());
  sx_check(sx_eq(sx_ti(s.getNumEl()), sx_mul(wr, wc)), (what + " reports the wrong number of elements").c_str());
  if (nd >= 0) sx_check(eqI(s.getNrDimensions(), nd), (what + " reports the wrong number of dimensions").c_str());
}
extern "C" int sxh_main(const char *arg) {
  Ops ops; O = &ops; G = &ops.g; Util::newScope();
  shapes = arg[0] == 's'; std::string f = arg + 2;
  Den D; Case c;
  try {
    if (f.compare(0, 2, "d_") == 0) { symDims(atoi(f.c_str() + 2)); return 0; }
    if (f.size() >= 4 && f.compare(0, 2, "b_") == 0) { // b_<class><class>
      int op = f.size() > 4 ? f[4] - '0' : sx_choose(4); BasicPtr a = ops.operand(f[2]), b = ops.operand(f[3]); binary(c, D, op, a, b, mkBasic); }
    else if (f.compare(0, 2, "n_") == 0) numeric(c, D, f[2]);
    else if (f.compare(0, 2, "u_") == 0) { int k = sx_choose(14); unary(c, D, k, ops.operand(f[2])); }
    else if (f.compare(0, 2, "p_") == 0) { BasicPtr a = ops.operand(f[2]), e = f[2] == 's' ? expo() : BasicPtr(sx_choose(2) ? new Int(f[2] == 'm' && sx_choose(2) ? -2 : -1) : new Int(sx_int(1, 3, 2))); if (f[2] != 's' && sx_choose(2)) e = BasicPtr(new Real(Util::getAsConstPtr<Int>(e)->getValue())); power(c, D, a, e); }
    else if (f == "p0") power(c, D, ops.sy('m'), BasicPtr(new Int(0)));
    else if (f.compare(0, 2, "s_") == 0) { BasicPtr a = ops.operand(f[2]), b = ops.operand(f[3]); solve(c, D, a, b); }
    else if (f.compare(0, 2, "o_") == 0) { BasicPtr a = ops.operand(f[2]), b = ops.operand(f[3]); outer(c, D, a, b); }
    else if (f.compare(0, 2, "t_") == 0) { BasicPtr a = ops.operand(f[2]), b = ops.operand(f[3]); atan2c(c, D, a, b); }
    else if (f.compare(0, 2, "e_") == 0) element(c, D, ops.operand(f[2]));
    else if (f.compare(0, 2, "i_") == 0) { int k = sx_choose(3); BasicPtr p = ops.operandK('s', sx_choose(3)), q = ops.operandK('s', sx_choose(5)); ops.level = 0; BasicPtr a = ops.operand(f[2]), b = ops.operand(f[3]); iff(c, D, k, p, q, a, b); }
    else if (f == "cmp") { int k = sx_choose(3); BasicPtr p = ops.operand('s'), q = ops.operand('s'); compare(c, D, k, p, q); }
    else if (f == "bb") { // two operations in a row: flattening of nested sums and products
      BasicPtr a = ops.operandK("smvm"[sx_choose(4)], sx_choose(4)), b = ops.operandK("smvr"[sx_choose(4)], sx_choose(4)); int o1 = sx_choose(3) * 2 % 3; 
      Case c1; binary(c1, D, o1, a, b, mkBasic); if (!c1.valid || c1.raised) { sx_note("inner operation invalid"); return 0; }
      BasicPtr d = ops.operandK("smvr"[sx_choose(4)], sx_choose(4)); int o2 = sx_choose(4); Val y = D.den(d); bool left = sx_choose(2); Val p = left ? y : c1.want, q = left ? c1.want : y;
      c.text = left ? "(" + txt(d) + ") op" + std::to_string(o2) + " (" + c1.text + ")" : "(" + c1.text + ") op" + std::to_string(o2) + " (" + txt(d) + ")";
      switch (o2) { case 0: if ((c.valid = fitAdd(p, q))) c.want = D.addV(p, q); break; case 1: if ((c.valid = fitAdd(p, q))) c.want = D.addV(p, D.negV(q)); break; case 2: if ((c.valid = fitMul(p, q))) c.want = D.mulV(p, q); break;
        case 3: if ((c.valid = q.nd == 0)) { c.want = p; for (auto &e : c.want.e) e = D.div(e, q.e[0]); } else if (q.nd == 2 && q.r == q.c && fitMul(p, q)) { c.valid = true; c.want = D.mulV(p, D.inv(q)); } break; }
      attempt(c, [&] { return left ? mkBasic(o2, d, c1.res) : mkBasic(o2, c1.res, d); });
    }
    else return 1;
  } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  if (!c.valid) { // misuse
    if (!c.raised) { if (shapes) sx_fail((c.text + ": operands do not fit but an expression " + txt(c.res) + " of shape " + c.res->getShape().toString() + " results").c_str()); else sx_note("misfit accepted"); }
    else sx_check(sx_true(), (c.text + " rejected").c_str());
    return 0;
  }
  if (c.raised) { sx_fail(c.text.c_str()); return 0; }
  c.text += " -> " + txt(c.res);
  if (shapes) {
    Shape s = c.res->getShape(); bool okdim = (int)s.getDimension(1) == c.want.r && (int)s.getDimension(2) == c.want.c, oknd = (int)s.getNrDimensions() == c.want.nd, okn = (int)s.getNumEl() == c.want.r * c.want.c;
    if (!okdim) sx_fail((c.text + " has shape " + s.toString()).c_str()); else if (!oknd) sx_fail((c.text + " has " + std::to_string(s.getNrDimensions()) + " dimensions").c_str()); else if (!okn) sx_fail((c.text + " has a wrong element count").c_str()); else sx_check(sx_true(), c.text.c_str());
    bool k = c.res->is_Scalar() == (c.want.nd == 0) && c.res->is_Vector() == (c.want.nd == 1) && c.res->is_Matrix() == (c.want.nd == 2);
    if (!k) sx_fail((c.text + " is classified wrongly").c_str());
    BasicPtr r; try { r = c.res->simplify(); } catch (std::exception &e) { sx_fail((c.text + ": simplify raises").c_str()); return 0; }
    if (r->getShape() != s) sx_fail((c.text + ": simplify changes the shape from " + s.toString() + " to " + r->getShape().toString()).c_str());
    return 0;
  }
  D.assumeSide(); Den D2; Val got;
  try { got = D2.den(c.res); } catch (Unsupported &u) { sx_fail((c.text + ": result has no meaning: " + u.why).c_str()); return 0; }
  checkVal(c.want, got, c.text);
  sxE def = sx_true(); for (auto d : D2.side) def = sx_and(def, d);
  sx_check(def, (c.text + " is undefined where the operation is defined").c_str());
  return 0;
}
