// S06: substitution; S08: using an expression does not change it.
// argument: <mode>:<family>
//  v substitute a variable, c substitute a compound subexpression, i replace a variable in place
//  u use the expression in many ways, then look at it again; m element assignment and copies
#include "trees.h"
static BasicPtr repl(Ops &O, char c) { // replacement of shape c
  if (c == 's') switch (sx_choose(9)) {
    case 0: return G->sym("z"); case 1: return G->rawint(); case 2: return G->real(); case 3: return Zero::getZero(); case 4: return BasicPtr(new Add(G->sym("x"), G->integer()));
    case 5: return BasicPtr(new Neg(G->sym("y"))); case 6: return BasicPtr(new Sin(G->sym("x"))); case 7: return BasicPtr(new Mul(G->integer(), G->sym("z"))); default: return BasicPtr(new Pow(G->sym("z"), BasicPtr(new Int(2)))); }
  switch (sx_choose(6)) { case 0: return BasicPtr(new Symbol("zz", O.shape(c))); case 1: return O.mat(c); case 2: return BasicPtr(new Zero(O.shape(c))); case 3: return BasicPtr(new Add(O.sy(c), O.mat(c))); case 4: return BasicPtr(new Neg(BasicPtr(new Symbol("zz", O.shape(c))))); default: return c == 'm' ? BasicPtr(new Eye(O.shape(c))) : BasicPtr(new Mul(G->sym("z"), O.sy(c, 1))); }
}
static BasicPtr ders(std::string const &f) { // derivatives left unevaluated
  if (f == "d1") { BasicPtr d(new Der(G->sym("x"))); switch (sx_choose(4)) { case 0: return d; case 1: return BasicPtr(new Mul(d, G->sym("x"))); case 2: return BasicPtr(new Add(G->integer(), d)); default: return BasicPtr(new Sin(d)); } }
  if (f == "un") { int k = sx_choose(7); BasicPtr v = G->sym("va", Shape(2)), w = G->sym("wa", Shape(3)), m = G->sym("Ma", Shape(2, 2)), x = G->sym("x"); switch (k) { case 0: return BasicPtr(new Sign(x)); case 1: return BasicPtr(new Inverse(m)); case 2: return BasicPtr(new Skew(w)); case 3: return BasicPtr(new Outer(v, G->sym("vb", Shape(2)))); case 4: return BasicPtr(new Scalar(x)); case 5: return BasicPtr(new Transpose(m)); default: return BasicPtr(new Element(m, sx_choose(2), sx_choose(2))); } }
  if (f == "cnd") { BasicPtr a = farg(0), b = farg(0); BasicPtr c = cond(a, b); return c; }
  return extra(f);
}
static char shc(BasicPtr const &p) { Shape s = p->getShape(); if (p->is_Scalar()) return 's'; int r = s.getDimension(1), c = s.getDimension(2); if (s.getNrDimensions() == 1) return r == 1 ? (c == 2 ? 'r' : 'q') : r == 2 ? 'v' : 'w'; return r == 2 ? (c == 2 ? 'm' : 'k') : c == 2 ? 'c' : 'n'; }
static void collect(BasicPtr const &p, std::vector<BasicPtr> &v) { // distinct subexpressions that can be named
  for (auto &q : v) if (q == p) return;
  if (p->getType() == Type_Symbol) { v.insert(v.begin(), p); return; }
  if (p->getType() == Type_Int || p->getType() == Type_Real || p->getType() == Type_Zero || p->getType() == Type_Eye || p->getType() == Type_Bool) return;
  if (!Util::is_Const(p) && p->getType() != Type_Greater && p->getType() != Type_Less && p->getType() != Type_Equal) v.push_back(p);
  for (size_t i = 0; i < p->getArgsSize(); i++) collect(p->getArg(i), v);
}
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope(); char mode = arg[0]; std::string fam = arg + 2; BasicPtr e; Ops O; O.level = 0;
  if (mode == 'm') {
    char c = "vwmnkr"[sx_choose(6)]; Shape s = O.shape(c); O.g = g; int n = s.getNumEl();
    BasicPtr m = O.mat(c); g.syms = O.g.syms; Matrix *mp = Util::getAsPtr<Matrix>(m); Matrix copy(*mp); Matrix asg(s); asg = *mp; BasicPtr tr = Transpose::New(m), el = Element::New(m, s.getDimension(1) == 1 ? 0 : 1, s.getDimension(1) == 1 ? 1 : 0), ne = Neg::New(m); BasicPtr pr = Mul::New(g.sym("x"), m), su = Add::New(m, m);
    Den D; Val v0 = D.den(m), t0 = D.den(tr), e0 = D.den(el), n0 = D.den(ne), p0 = D.den(pr), s0 = D.den(su);
    int i = sx_choose(s.getDimension(1)), j = sx_choose(s.getDimension(2)); BasicPtr w = sx_choose(2) ? g.sym("z") : g.rawint(); if (s.getDimension(2) == 1 && sx_choose(2)) mp->set(i, w); else mp->set(i, j, w);
    Val v1 = D.den(m), want = v0; want.at(i, j) = D.den(w).e[0]; std::string lab = "after " + txt(BasicPtr(new Matrix(copy))) + "[" + std::to_string(i) + "," + std::to_string(j) + "] = " + txt(w) + ": ";
    checkVal(want, v1, lab + "the matrix itself"); checkVal(v0, D.den(BasicPtr(new Matrix(copy))), lab + "a copy taken before"); checkVal(v0, D.den(BasicPtr(new Matrix(asg))), lab + "an assigned copy"); checkVal(t0, D.den(tr), lab + "its transpose built before"); checkVal(e0, D.den(el), lab + "an element read before"); checkVal(p0, D.den(pr), lab + "a multiple built before"); checkVal(s0, D.den(su), lab + "a sum built before"); (void)n; (void)n0; return 0;
  }
  try { e = ders(fam); } catch (std::exception &ex) { sx_note("construction rejected"); return 0; }
  if (!e.get()) { sx_note("left out"); return 0; }
  std::string text = txt(e); Shape sh = e->getShape(); O.g.syms = g.syms; // operands of the same names
  if (mode == 'u') {
    Val before; Den D; try { before = D.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
    D.assumeSide(); std::string what; BasicPtr x = g.sym("x"); BasicPtr other;
    try { switch (sx_choose(14)) {
      case 0: what = "der"; Der::New(e)->simplify(); break;
      case 1: what = "partial derivative"; e->der(x)->simplify(); break;
      case 2: what = "text"; txt(e); break;
      case 3: what = "subs"; e->subs(x, g.sym("z"))->simplify(); break;
      case 4: what = "simplified sum"; BasicPtr(new Add(e, e))->simplify(); break;
      case 5: what = "simplified negated product"; BasicPtr(new Mul(BasicPtr(new Neg(e)), g.sym("z")))->simplify(); break;
      case 6: what = "sum and difference"; (Add::New(e, e), Add::New(e, Neg::New(e))->simplify()); break;
      case 7: what = "comparison"; (void)(e == Neg::New(e)); Symbolics::operator<(e, x); Symbolics::operator<(x, e); break;
      case 8: what = "product with x"; Mul::New(Mul::New(x, e), x)->simplify(); break;
      case 9: what = "transpose"; Transpose::New(e)->simplify(); break;
      case 10: what = "atoms"; e->getAtoms(); e->getAtomsAmound(); break;
      case 11: what = "power"; (e->is_Scalar() ? Pow::New(e, Int::New(2)) : Mul::New(Transpose::New(e), e))->simplify(); break;
      case 12: what = "function"; Sin::New(e)->simplify(); break;
      default: what = "element"; if (e->is_Scalar()) Util::div(e, g.sym("z"))->simplify(); else Element::New(e, 0, 0)->simplify(); break;
    } } catch (std::exception &ex) { what += " (rejected)"; }
    std::string lab = "after use (" + what + ") " + text + " became " + txt(e);
    if (e->getShape() != sh) { sx_fail((lab + " [shape]").c_str()); return 0; }
    Den D2; Val after; try { after = D2.den(e); } catch (Unsupported &u) { sx_fail((lab + ": no meaning: " + u.why).c_str()); return 0; }
    checkVal(before, after, lab); return 0;
  }
  std::vector<BasicPtr> subs; collect(e, subs); std::vector<BasicPtr> cand;
  for (auto &q : subs) { bool s = q->getType() == Type_Symbol; if (s == (mode != 'c')) cand.push_back(q); }
  if (cand.empty()) { sx_note("nothing to substitute"); return 0; }
  BasicPtr o = cand[sx_choose(cand.size())]; BasicPtr r = mode == 'i' && o->is_Scalar() ? (sx_choose(3) == 0 ? g.sym("z") : sx_choose(2) ? BasicPtr(new Neg(g.sym("z"))) : g.rawint()) : repl(O, shc(o));
  if (mode == 'i' && !o->is_Scalar()) { r = BasicPtr(new Neg(BasicPtr(new Symbol("zz", o->getShape())))); }
  std::string lab = text + " with " + txt(o) + " := " + txt(r); Den D; D.sOld = o; D.sNew = r; Val want, orig; Den D0;
  try { want = D.den(e); orig = D0.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  BasicPtr res;
  if (mode == 'i') {
    BasicPtr holder(new Neg(e)); if (o == e) { sx_note("the whole expression"); return 0; }
    try { o->subs(r); res = e; if (r->getType() != Type_Int && sx_choose(2)) { res = e->simplify(); lab += " (simplified)"; } } catch (std::exception &ex) { sx_fail((lab + ": replacing in place raises an error").c_str()); return 0; }
  } else {
    try { res = e->subs(o, r); } catch (std::exception &ex) { sx_fail((lab + ": substitution raises an error").c_str()); return 0; }
  }
  lab += " -> " + txt(res);
  if (res->getShape() != sh) { sx_fail((lab + " [shape]").c_str()); return 0; }
  D.assumeSide(); Den D2; Val got;
  try { got = D2.den(res); } catch (Unsupported &u) { sx_fail((lab + ": result has no meaning: " + u.why).c_str()); return 0; }
  checkVal(want, got, lab);
  if (mode != 'i') { D0.side.clear(); Den D3; checkVal(orig, D3.den(e), text + " changed when substituting " + txt(o) + " := " + txt(r)); }
  return 0;
}
