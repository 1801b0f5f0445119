// S04: derivatives are the true derivatives.
// argument: <mode>:<family>  t time derivative, p partial derivative, j Jacobian,
// s shapes of derivatives (S03), k kinds of variables
#include "trees.h"
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope(); char mode = arg[0]; std::string fam = arg + 2; BasicPtr e;
  BasicPtr x = g.sym("x"), y = g.sym("y");
  if (mode == 'k') { // a parameter or a constant does not change with time, everything else does
    Symbol_Kind kinds[] = {VARIABLE, PARAMETER, CONSTANT, INPUT};
    int k = sx_choose(4), sh = sx_choose(3); BasicPtr p(new Symbol("p", sh == 0 ? Shape() : sh == 1 ? Shape(2) : Shape(2, 2), kinds[k])); bool fix = k == 1 || k == 2;
    BasicPtr b = sx_choose(2) ? p : BasicPtr(new Mul(p, x)); BasicPtr d = Der::New(b); std::string lab = "der(" + txt(b) + ") with p of kind " + std::to_string(k) + " -> " + txt(d);
    Den D; D.dual = true; if (fix) D.fixed.insert("p"); Val w = D.den(b); for (auto &q : w.e) q.v = q.d; Den D2; checkVal(w, D2.den(d), lab); return 0;
  }
  try { e = extra(fam); } catch (std::exception &ex) { sx_note("construction rejected"); return 0; }
  if (!e.get()) { sx_note("left out"); return 0; }
  std::string text = txt(e); BasicPtr d; Val want; Den D; D.dual = true;
  try {
    if (mode == 't' || mode == 's') { want = D.den(e); }
    else if (mode == 'p') { D.wrt = "x"; want = D.den(e); }
    else { Val c[2]; for (int k = 0; k < 2; k++) { Den Dk; Dk.dual = true; Dk.wrt = k ? "y" : "x"; c[k] = Dk.den(e); for (auto q : Dk.side) D.side.push_back(q); }
      if (c[0].nd == 2) { sx_note("no Jacobian of a matrix"); return 0; }
      want.nd = c[0].nd == 0 ? 1 : 2; want.r = c[0].e.size(); want.c = 2; for (int i = 0; i < want.r; i++) for (int k = 0; k < 2; k++) want.e.push_back(c[k].e[i]); }
  } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  std::string lab;
  try {
    if (mode == 't' || mode == 's') { d = Der::New(e); lab = "der(" + text + ") -> "; }
    else if (mode == 'p') { d = e->der(x); lab = "d/dx(" + text + ") -> "; }
    else { Matrix *m = new Matrix(Shape(2)); BasicPtr mp(m); m->set(0, x); m->set(1, y); d = mode == 'J' ? BasicPtr(new Jacobian(e, mp))->simplify() : Jacobian::New(e, mp); lab = "jacobian(" + text + ",[x,y]) -> "; }
  } catch (std::exception &ex) { if (mode != 't' && text.find("der(") != std::string::npos) { sx_note("not differentiable by the library"); return 0; } sx_fail((lab + text + ": differentiation raises " + ex.what()).c_str()); return 0; }
  bool mf = fam == "mf"; if (mf) lab = lab.substr(0, lab.find(" ->")) + " with an elementwise function of a matrix variable"; else lab += txt(d);
  if (mode == 's') { Shape a = e->getShape(), b = d->getShape(); if (a != b) sx_fail((lab + " has shape " + b.toString() + " instead of " + a.toString()).c_str()); else sx_check(sx_true(), lab.c_str()); return 0; }
  for (auto &q : want.e) q.v = q.d;
  D.assumeSide(); Den D2; Val got;
  try { got = D2.den(d); } catch (Unsupported &u) { sx_fail((mf ? lab : lab + ": derivative has no meaning: " + u.why).c_str()); return 0; }
  if (want.nd != got.nd) sx_fail((lab + " [shape]").c_str()); else checkVal(want, got, lab);
  sxE def = sx_true(); for (auto c : D2.side) def = sx_and(def, c);
  sx_check(def, (mf ? lab : lab + " is undefined where the derivative exists").c_str());
  return 0;
}
