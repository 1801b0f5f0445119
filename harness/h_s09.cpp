// S09: Basic::solve, "expression = 0" for an unknown.
// argument: <form>:<family>   form s: the family's expressions as they are, l: a + b*x with a, b of the family, m/v: matrix and vector unknown
#include "trees.h"
static BasicPtr term(BasicPtr x) { // something linear in x, or not
  BasicPtr y = G->sym("y"), z = G->sym("z");
  switch (sx_choose(24)) {
  case 0: return x; case 1: return BasicPtr(new Neg(x)); case 2: return BasicPtr(new Mul(G->rawint(), x)); case 3: return BasicPtr(new Mul(x, y)); case 4: return BasicPtr(new Mul(x, BasicPtr(new Pow(y, BasicPtr(new Int(-1))))));
  case 5: return BasicPtr(new Mul(BasicPtr(new Add(x, y)), z)); case 6: return BasicPtr(new Mul(z, BasicPtr(new Neg(BasicPtr(new Add(y, x)))))); case 7: return BasicPtr(new Mul(BasicPtr(new Sin(y)), x)); case 8: return BasicPtr(new If(cond(y, z), x, BasicPtr(new Mul(G->integer(), x))));
  case 9: return BasicPtr(new Add(x, BasicPtr(new Mul(y, x)))); case 10: return BasicPtr(new Mul(G->real(), x)); case 11: return BasicPtr(new Scalar(BasicPtr(new Add(x, y))));
  case 12: { Matrix *m = new Matrix(Shape(1, 1, 2)); BasicPtr r(m); m->set(0, 0, x); m->set(0, 1, y); return BasicPtr(new Mul(r, G->sym("v", Shape(2)))); }
  case 13: { Matrix *m = new Matrix(Shape(2)); BasicPtr r(m); m->set(0, x); m->set(1, BasicPtr(new Mul(x, y))); return BasicPtr(new Element(BasicPtr(new Mul(G->sym("A", Shape(2, 2)), r)), sx_choose(2), 0)); }
  // not linear, or the unknown disappears
  case 14: return BasicPtr(new Mul(x, x)); case 15: return BasicPtr(new Pow(x, BasicPtr(new Int(sx_int(-2, 3, 2))))); case 16: return BasicPtr(new Sin(x)); case 17: return BasicPtr(new Abs(x)); case 18: return BasicPtr(new Sign(x));
  case 19: return BasicPtr(new If(cond(x, y), x, y)); case 20: return BasicPtr(new If(cond(x, y), z, BasicPtr(new Add(z, G->integer())))); case 21: return BasicPtr(new Add(x, BasicPtr(new Neg(x)))); case 22: return BasicPtr(new Mul(x, BasicPtr(new Pow(x, BasicPtr(new Int(-1)))))); default: return BasicPtr(new Atan2(x, y)); }
}
static bool occurs(BasicPtr const &p, BasicPtr const &o) { if (p == o) return true; for (size_t i = 0; i < p->getArgsSize(); i++) if (occurs(p->getArg(i), o)) return true; return false; }
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope(); char mode = arg[0]; std::string fam = arg + 2; BasicPtr e, o; Ops O; O.level = 0; BasicPtr x = g.sym("x");
  try {
    if (mode == 'l') { int k = sx_choose(5); o = k < 2 ? x : k == 2 ? BasicPtr(new Der(x)) : k == 3 ? BasicPtr(new Element(g.sym("v", Shape(2)), sx_choose(2), 0)) : BasicPtr(new Element(g.sym("A", Shape(2, 2)), sx_choose(2), sx_choose(2)));
      BasicPtr t = term(o), b; switch (sx_choose(8)) { case 0: b = g.sym("y"); break; case 1: b = g.integer(); break; case 2: b = BasicPtr(new Mul(g.sym("y"), g.sym("z"))); break; case 3: b = BasicPtr(new Cos(g.sym("y"))); break; case 4: b = BasicPtr(new Element(g.sym("v", Shape(2)), 0, 0)); break; case 5: b = Zero::getZero(); break; case 6: b = BasicPtr(new Mul(g.sym("y"), o)); break; default: b = g.real(); }
      switch (sx_choose(4)) { case 0: e = t; break; case 1: e = BasicPtr(new Add(t, b)); break; case 2: e = BasicPtr(new Add(b, BasicPtr(new Neg(t)))); break; default: e = BasicPtr(new Add(BasicPtr(new Mul(b, t)), BasicPtr(new Neg(g.sym("w"))))); } }
    else if (mode == 'm') { o = g.sym("X", Shape(2, 2)); BasicPtr A = sx_choose(2) ? O.sy('m') : O.mat('m'), B = O.sy('m', 1), t; switch (sx_choose(11)) { case 0: t = o; break; case 1: t = BasicPtr(new Mul(A, o)); break; case 2: t = BasicPtr(new Mul(o, A)); break; case 3: t = BasicPtr(new Mul(x, o)); break; case 4: t = BasicPtr(new Mul(A, BasicPtr(new Mul(o, B)))); break; case 5: t = BasicPtr(new Add(o, BasicPtr(new Mul(A, o)))); break; case 6: t = BasicPtr(new Transpose(o)); break; case 7: t = BasicPtr(new Neg(o)); break; case 8: t = BasicPtr(new Inverse(o)); break; case 9: t = BasicPtr(new Mul(g.integer(), o)); break; default: t = BasicPtr(new Mul(o, o)); } e = sx_choose(2) ? BasicPtr(new Add(t, BasicPtr(new Neg(B)))) : BasicPtr(new Add(B, t)); }
    else if (mode == 'v') { char c = sx_choose(2) ? 'v' : 'w'; Shape s = O.shape(c); o = g.sym("X", s); BasicPtr A = O.sy(c == 'v' ? 'm' : 'n'), t; switch (sx_choose(6)) { case 0: t = o; break; case 1: t = BasicPtr(new Mul(A, o)); break; case 2: t = BasicPtr(new Mul(x, o)); break; case 3: t = BasicPtr(new Neg(o)); break; case 4: t = BasicPtr(new Add(o, BasicPtr(new Mul(A, o)))); break; default: t = BasicPtr(new Solve(A, o)); } e = BasicPtr(new Add(t, BasicPtr(new Neg(sx_choose(2) ? O.sy(c, 1) : O.mat(c))))); }
    else { e = extra(fam); o = sx_choose(2) ? x : g.sym("y"); }
  } catch (std::exception &ex) { sx_note("construction rejected"); return 0; }
  if (!e.get() || !occurs(e, o) || e->getShape() != o->getShape()) { sx_note("left out"); return 0; }
  std::string lab = "solving " + txt(e) + " = 0 for " + txt(o); BasicPtr r;
  Den D0; Val v0; try { v0 = D0.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  try { r = e->solve(o); } catch (std::exception &ex) { sx_note("rejected"); return 0; }
  if (!r.get()) { sx_note("rejected"); return 0; }
  lab += " gives " + txt(r);
  if (r->getShape() != o->getShape()) { sx_fail((lab + " [shape]").c_str()); return 0; }
  if (occurs(r, o)) { sx_fail((lab + ", which contains the unknown").c_str()); return 0; }
  Den D; D.sOld = o; D.sNew = r; Val v;
  try { v = D.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  D.assumeSide(); Val z = v; for (auto &q : z.e) q.v = sx_num(0);
  checkVal(z, v, lab);
  return 0;
}
