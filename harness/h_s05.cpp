// S05: laws of equality and ordering.
// argument: <mode>:<pool>   e pairs (soundness of equality), l triples (laws)
#include "ops.h"
#include "Operators.h"
using namespace sxh;
static Ops O;
static BasicPtr n_() { return O.g.rawint(2); }
static BasicPtr r_() { return O.g.real(6); }
static BasicPtr S(const char *s) { return O.g.sym(s); }
static BasicPtr lit(int n, BasicPtr a, BasicPtr b, BasicPtr c, BasicPtr d) { Matrix *m = new Matrix(Shape(n, n)); m->set(0, 0, a); m->set(0, 1, b); m->set(1, 0, c); m->set(1, 1, d); return BasicPtr(m); }
static BasicPtr vec(BasicPtr a, BasicPtr b, bool row = false) { Matrix *m = new Matrix(row ? Shape(1, 1, 2) : Shape(2)); m->set(0, a); m->set(1, b); return BasicPtr(m); }
static BasicPtr add(BasicPtr a, BasicPtr b) { return BasicPtr(new Add(a, b)); }
static BasicPtr add(BasicPtr a, BasicPtr b, BasicPtr c) { BasicPtrVec v; v.push_back(a); v.push_back(b); v.push_back(c); return BasicPtr(new Add(v)); }
static BasicPtr mul(BasicPtr a, BasicPtr b) { return BasicPtr(new Mul(a, b)); }
static BasicPtr mul(BasicPtr a, BasicPtr b, BasicPtr c) { BasicPtrVec v; v.push_back(a); v.push_back(b); v.push_back(c); return BasicPtr(new Mul(v)); }
static BasicPtr neg(BasicPtr a) { return BasicPtr(new Neg(a)); }
static BasicPtr I(int k) { return BasicPtr(new Int(k)); }
static BasicPtr pool(std::string const &p) {
  if (p == "num") switch (sx_choose(8)) { case 0: return n_(); case 1: return r_(); case 2: return Zero::getZero(); case 3: return S("x"); case 4: return neg(n_()); case 5: return neg(S("x")); case 6: return BasicPtr(new Bool(sx_choose(2))); default: return BasicPtr(new Eye(Shape(2, 2))); }
  if (p == "shp") switch (sx_choose(14)) {
    case 0: return BasicPtr(new Zero(Shape(2, 2))); case 1: return BasicPtr(new Zero(Shape(2))); case 2: return BasicPtr(new Zero(Shape(1, 1, 2))); case 3: return Zero::getZero();
    case 4: return BasicPtr(new Eye(Shape(2, 2))); case 5: return BasicPtr(new Eye(Shape(3, 3))); case 6: return lit(2, n_(), I(0), I(0), n_()); case 7: return vec(n_(), I(0)); case 8: return vec(n_(), I(0), true);
    case 9: return BasicPtr(new Symbol("x", Shape(2))); case 10: return S("x"); case 11: return n_(); case 12: return lit(2, I(1), I(0), r_(), I(1)); default: return lit(3, n_(), I(0), I(0), I(0)); }
  if (p == "sum") switch (sx_choose(10)) {
    case 0: return add(S("x"), S("y")); case 1: return add(S("y"), S("x")); case 2: return add(S("x"), n_()); case 3: return add(n_(), S("x")); case 4: return add(S("x"), S("x"));
    case 5: return add(S("x"), S("y"), n_()); case 6: return add(n_(), S("x"), S("y")); case 7: return add(S("y"), n_(), S("y")); case 8: return add(r_(), S("x")); default: return add(S("x"), S("x"), S("y")); }
  if (p == "prd") switch (sx_choose(12)) {
    case 0: return mul(S("x"), S("y")); case 1: return mul(S("y"), S("x")); case 2: return mul(S("x"), n_()); case 3: return mul(n_(), S("x")); case 4: return mul(S("x"), S("y"), n_()); case 5: return mul(n_(), S("y"), S("x")); case 6: return mul(S("x"), S("x"), S("y"));
    case 7: return mul(O.sy('m'), O.sy('m', 1)); case 8: return mul(O.sy('m', 1), O.sy('m')); case 9: return mul(S("x"), O.sy('m')); case 10: return mul(O.sy('m'), S("y")); default: return mul(S("y"), O.sy('m'), S("x")); }
  if (p == "prm") switch (sx_choose(9)) {
    case 0: return mul(O.sy('m'), S("x")); case 1: return mul(S("x"), O.sy('m')); case 2: return mul(O.sy('m'), n_()); case 3: return mul(n_(), O.sy('m')); case 4: return mul(O.sy('m'), O.sy('m', 1), S("x")); case 5: return mul(S("x"), O.sy('m'), O.sy('m', 1));
    case 6: return mul(S("x"), S("y"), O.sy('m')); case 7: return mul(O.sy('m'), S("x"), S("y")); default: return mul(O.sy('m', 1), S("x")); }
  if (p == "fun") { BasicPtr a = sx_choose(2) ? S("x") : n_(); switch (sx_choose(9)) { case 0: return BasicPtr(new Sin(a)); case 1: return BasicPtr(new Cos(a)); case 2: return neg(a); case 3: return BasicPtr(new Abs(a)); case 4: return BasicPtr(new Sign(a)); case 5: return BasicPtr(new Pow(S("x"), n_())); case 6: return BasicPtr(new Pow(a, I(2))); case 7: return BasicPtr(new Der(S("x"))); default: return BasicPtr(new Atan2(a, S("y"))); } }
  if (p == "bin") switch (sx_choose(10)) {
    case 0: return BasicPtr(new Pow(S("x"), n_())); case 1: return BasicPtr(new Pow(S("x"), r_())); case 2: return BasicPtr(new Pow(O.sy('m'), n_())); case 3: return BasicPtr(new Greater(S("x"), n_())); case 4: return BasicPtr(new Less(S("x"), n_())); case 5: return BasicPtr(new Less(n_(), S("x")));
    case 6: return BasicPtr(new Outer(O.sy('v'), O.sy('v', 1))); case 7: return BasicPtr(new Solve(O.sy('m'), O.sy('v'))); case 8: return BasicPtr(new Atan2(S("x"), S("y"))); default: return BasicPtr(new Atan2(S("y"), S("x"))); }
  if (p == "cmp") switch (sx_choose(11)) {
    case 0: return BasicPtr(new If(BasicPtr(new Greater(S("x"), n_())), S("x"), S("y"))); case 1: return BasicPtr(new If(BasicPtr(new Greater(S("x"), n_())), S("y"), S("x"))); case 2: return BasicPtr(new If(BasicPtr(new Greater(S("x"), I(1))), O.sy('v'), O.sy('v', 1)));
    case 3: return BasicPtr(new Element(O.sy('m'), 0, sx_choose(2))); case 4: return BasicPtr(new Element(O.sy('m'), 1, 0)); case 5: return BasicPtr(new Element(O.sy('v'), sx_choose(2), 0)); case 6: return BasicPtr(new Transpose(O.sy('m')));
    case 7: return BasicPtr(new Skew(O.sy('w'))); case 8: return BasicPtr(new Inverse(O.sy('m'))); case 9: return BasicPtr(new Scalar(S("x"))); default: return O.sy('m'); }
  if (p == "nst") switch (sx_choose(9)) {
    case 0: return BasicPtr(new Sin(add(S("x"), S("y")))); case 1: return BasicPtr(new Sin(add(S("y"), S("x")))); case 2: return mul(add(S("x"), n_()), S("y")); case 3: return mul(S("y"), add(n_(), S("x"))); case 4: return neg(mul(S("x"), S("y"))); case 5: return neg(mul(S("y"), S("x")));
    case 6: return vec(add(S("x"), S("y")), n_()); case 7: return vec(add(S("y"), S("x")), r_()); default: return BasicPtr(new Pow(add(S("y"), S("x")), r_())); }
  if (p == "mix") switch (sx_choose(13)) { case 0: return n_(); case 1: return r_(); case 2: return S("x"); case 3: return Zero::getZero(); case 4: return BasicPtr(new Zero(Shape(2, 2))); case 5: return BasicPtr(new Eye(Shape(2, 2))); case 6: return lit(2, n_(), I(0), I(0), I(1)); case 7: return add(S("x"), n_()); case 8: return add(I(2), S("x")); case 9: return mul(n_(), S("x")); case 10: return BasicPtr(new Sin(S("x"))); case 11: return neg(S("x")); default: return O.sy('m'); }
  return BasicPtr();
}
template <class T> static void typed(BasicPtr const &a, BasicPtr const &b, bool &e, bool &r, bool &n, bool &nr) { const T &t = *Util::getAsConstPtr<T>(a); e = t == b; r = b == t; n = t != b; nr = b != t; }
static bool isBool(BasicPtr const &p) { return p->getType() == Type_Bool; }
static bool eq(BasicPtr const &a, BasicPtr const &b) { return a == b; }
static bool lt(BasicPtr const &a, BasicPtr const &b) { return Symbolics::operator<(a, b); }
extern "C" int sxh_main(const char *arg) {
  O.g = Gen(); O.level = 0; Util::newScope(); char mode = arg[0]; std::string fam = arg + 2, fb = fam;
  size_t q = fam.find('+'); if (q != std::string::npos) { fb = fam.substr(q + 1); fam = fam.substr(0, q); }
  BasicPtr a, b, c;
  try { a = pool(fam); b = pool(fb); if (mode == 'l') c = pool(fb); } catch (std::exception &e) { sx_note("construction rejected"); return 0; }
  std::string A = txt(a), B = txt(b);
  if (mode == 'e') {
    bool e1 = eq(a, b), e2 = eq(b, a);
    if (e1 != e2) sx_fail((A + " == " + B + " is not symmetric").c_str());
    if ((a != b) == e1) sx_fail((A + " != " + B + " is not the negation of ==").c_str());
    if (!eq(a, a)) sx_fail((A + " does not equal itself").c_str());
    bool v = !isBool(a) && !isBool(b) && *a == *b;
    if (!e1 && !v) { sx_check(sx_true(), ""); return 0; }
    std::string lab = A + (e1 ? " == " : " equals (as objects) ") + B;
    if (a->getShape() != b->getShape()) { sx_fail((lab + " though the shapes " + a->getShape().toString() + " and " + b->getShape().toString() + " differ").c_str()); return 0; }
    if (isBool(a) != isBool(b)) { sx_fail((lab + " mixes truth value and number").c_str()); return 0; }
    Den D; Val x, y;
    try { x = D.den(a); D.assumeSide(); y = D.den(b); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
    checkVal(x, y, lab + " though the values differ");
    return 0;
  }
  if (mode == 'y') { // the overloads for objects of a known class
    bool e = false, r = false, n = true, nr = true;
    switch (a->getType()) {
    case Type_Int: typed<Int>(a, b, e, r, n, nr); break;
    case Type_Real: typed<Real>(a, b, e, r, n, nr); break;
    case Type_Zero: typed<Zero>(a, b, e, r, n, nr); break;
    case Type_Eye: typed<Eye>(a, b, e, r, n, nr); break;
    case Type_Bool: typed<Bool>(a, b, e, r, n, nr); break;
    case Type_Matrix: { const Matrix &m = *Util::getAsConstPtr<Matrix>(a); e = m == b; r = b == m; n = !e; nr = !r; break; }
    default: sx_note("no overload"); return 0;
    }
    std::string lab = A + " == " + B + " (overload for the class of the first)";
    if (e != r) sx_fail((lab + " is not symmetric").c_str());
    if (n == e || nr == r) sx_fail((lab + " is not the negation of !=").c_str());
    if (e) { if (a->getShape() != b->getShape()) { sx_fail((lab + " though the shapes differ").c_str()); return 0; } Den D; checkVal(D.den(a), D.den(b), lab + " though the values differ"); }
    else sx_check(sx_true(), "");
    return 0;
  }
  std::string C = txt(c), t = " for a=" + A + ", b=" + B + ", c=" + C, t2 = " for a=" + A + ", b=" + B;
  bool ab = lt(a, b), ba = lt(b, a), bc = lt(b, c), cb = lt(c, b), ac = lt(a, c), ca = lt(c, a);
  if (lt(a, a)) sx_fail(("a<a for a=" + A).c_str());
  if (ab && ba) sx_fail(("a<b and b<a" + t2).c_str());
  if (ab && bc && !ac) sx_fail(("a<b and b<c but not a<c" + t).c_str());
  if (!ab && !ba && !bc && !cb && (ac || ca)) sx_fail(("a~b and b~c but not a~c" + t).c_str());
  bool e = eq(a, b), f = eq(b, c);
  if (e && f && !eq(a, c)) sx_fail(("a==b and b==c but not a==c" + t).c_str());
  if (e && (ab || ba)) sx_fail(("a==b but one is less than the other" + t2).c_str());
  if (!e && !ab && !ba) sx_fail(("neither equal nor ordered" + t2).c_str());
  sx_check(sx_true(), "");
  return 0;
}
