// G01-G03: equation systems, their ordering and optimisation.
// argument: <mode>:<family>
//   n: built without optimisation   s: makeScalar, built without optimisation
//   o: built with optimisation      t: built with optimisation, makeScalar, built with optimisation again (what the writers do)
//   u: makeScalar, then built with optimisation
//   a family name followed by :q takes only four combinations of names, order and requested results
//   x: ill-posed systems must be refused
#include "trees.h"
#include "Graph.h"
#include "Assignments.h"
using namespace Symbolics::Graph;
typedef std::map<std::string, Val> Env;
static const int SENS = 0x100;
struct Undef { std::string name; };
struct Sys {
  Symbolics::Graph::Graph g; std::map<std::string, SymbolPtr> sy; Env ref; std::set<std::string> base; std::vector<std::pair<BasicPtr, BasicPtr>> eqs; std::vector<std::string> req; std::vector<std::string> pars, consts; EV side; BasicPtr time;
  Sys() { base.insert("time"); time = BasicPtr(g.getSymbol("time")); }
  BasicPtr decl(std::string const &n, Shape const &s, int kind) { SymbolPtr p(new Symbol(n, s, kind)); sy[n] = p; BasicPtr r = g.addSymbol(p); if (kind == INPUT || kind == CONTROLLER) base.insert(n); if (kind == SENS) req.push_back(n); return r; }
  BasicPtr decl(std::string const &n, int kind) { return decl(n, Shape(), kind); }
  Val look(Env &env, std::string const &n, Shape const &s, bool whole, int i, int j) {
    Den D; auto k = env.find(n);
    if (k != env.end()) { if (whole) for (auto &x : k->second.e) if (!x.v) throw Undef{n}; if (!whole && !k->second.at(i, j).v) throw Undef{n}; return k->second; }
    if (!base.count(n)) throw Undef{n};
    return D.symbol(n, s);
  }
  // replaces variables by their values: every symbol becomes a fresh constant literal of terms
  Val eval(BasicPtr const &p, Env &env, EV *sd) {
    Den d; d.defined = sd != NULL;
    d.hook = [this, &env](BasicPtr const &q, Val &out) -> bool {
      if (q->getType() == Type_Symbol) { out = look(env, Util::getAsConstPtr<Symbol>(q)->getName(), q->getShape(), true, 0, 0); return true; }
      if (q->getType() == Type_Der && q->getArg(0)->getType() == Type_Symbol) { out = look(env, "der_" + Util::getAsConstPtr<Symbol>(q->getArg(0))->getName(), q->getShape(), true, 0, 0); return true; }
      if (q->getType() == Type_Element && q->getArg(0)->getType() == Type_Symbol) { int i = sx_concretize(Util::getAsConstPtr<Int>(q->getArg(1))->getValue()), j = sx_concretize(Util::getAsConstPtr<Int>(q->getArg(2))->getValue()); Val v = look(env, Util::getAsConstPtr<Symbol>(q->getArg(0))->getName(), q->getArg(0)->getShape(), false, i, j); Den D; if (i >= v.r || j >= v.c) throw Unsupported{"index"}; out = D.sc(v.at(i, j)); return true; }
      if (q->getType() == Type_Der && q->getArg(0)->getType() == Type_Element && q->getArg(0)->getArg(0)->getType() == Type_Symbol) { BasicPtr a = q->getArg(0); int i = Util::getAsConstPtr<Element>(a)->getRow(), j = Util::getAsConstPtr<Element>(a)->getCol(); Val v = look(env, "der_" + Util::getAsConstPtr<Symbol>(a->getArg(0))->getName(), a->getArg(0)->getShape(), false, i, j); Den D; out = D.sc(v.at(i, j)); return true; }
      if (q->getType() == Type_Element && q->getArg(0)->getType() == Type_Der && q->getArg(0)->getArg(0)->getType() == Type_Symbol) { BasicPtr a = q->getArg(0); int i = Util::getAsConstPtr<Element>(q)->getRow(), j = Util::getAsConstPtr<Element>(q)->getCol(); Val v = look(env, "der_" + Util::getAsConstPtr<Symbol>(a->getArg(0))->getName(), a->getShape(), false, i, j); Den D; out = D.sc(v.at(i, j)); return true; }
      return false; };
    Val v = d.den(p); if (sd) for (auto c : d.side) sd->push_back(c); return v;
  }
  static bool put(Env &env, std::string const &n, Shape const &s, Val const &v, bool whole, int i, int j) { // false: assigned before
    Den D; auto k = env.find(n);
    if (whole) { if (k != env.end()) return false; env[n] = v; return true; }
    if (k == env.end()) { Val z = D.shaped(s); for (auto &x : z.e) x.v = nullptr; k = env.insert(std::make_pair(n, z)).first; }
    if (k->second.at(i, j).v) return false; k->second.at(i, j) = v.e[0]; return true;
  }
  bool assign(Env &env, BasicPtr const &l, Val const &v, std::vector<std::string> &names) {
    switch (l->getType()) {
    case Type_Symbol: { std::string n = Util::getAsConstPtr<Symbol>(l)->getName(); names.push_back(n); return put(env, n, l->getShape(), v, true, 0, 0); }
    case Type_Der: { BasicPtr a = l->getArg(0); if (a->getType() == Type_Symbol) { std::string n = "der_" + Util::getAsConstPtr<Symbol>(a)->getName(); names.push_back(n); return put(env, n, l->getShape(), v, true, 0, 0); } if (a->getType() == Type_Element) { std::string n = "der_" + Util::getAsConstPtr<Symbol>(a->getArg(0))->getName(); names.push_back(n); return put(env, n, a->getArg(0)->getShape(), v, false, Util::getAsConstPtr<Element>(a)->getRow(), Util::getAsConstPtr<Element>(a)->getCol()); } throw Unsupported{"left side"}; }
    case Type_Element: { BasicPtr a = l->getArg(0); std::string n; if (a->getType() == Type_Symbol) n = Util::getAsConstPtr<Symbol>(a)->getName(); else if (a->getType() == Type_Der) n = "der_" + Util::getAsConstPtr<Symbol>(a->getArg(0))->getName(); else throw Unsupported{"left side"}; names.push_back(n); return put(env, n, a->getShape(), v, false, Util::getAsConstPtr<Element>(l)->getRow(), Util::getAsConstPtr<Element>(l)->getCol()); }
    case Type_Matrix: { const Matrix *m = Util::getAsConstPtr<Matrix>(l); Den D; bool ok = true; Shape s = l->getShape(); for (int i = 0; i < (int)s.getDimension(1); i++) for (int j = 0; j < (int)s.getDimension(2); j++) ok &= assign(env, m->get(i, j), D.sc(v.at(i, j)), names); return ok; }
    default: throw Unsupported{"left side"};
    }
  }
  void state(std::string const &n) { base.insert(n); req.push_back("der_" + n); }
  // equations are given in an order in which everything used is defined
  void eq(BasicPtr const &l, BasicPtr const &r) { std::vector<std::string> nn; Val v = eval(r, ref, &side); Den D; Shape ls = l->getShape(); if (!(ls.getNrDimensions() == 0) && v.nd == 0) { Val w = D.shaped(ls); for (auto &x : w.e) x = v.e[0]; v = w; } assign(ref, l, v, nn); eqs.push_back(std::make_pair(l, r)); }
};

static Sys *S; static bool quick; static int combo; // quick families: four of the 18 combinations of names, order of the equations and requested results
static const int COMBO[4][3] = {{0, 0, 2}, {1, 1, 2}, {0, 2, 0}, {1, 2, 1}};
static BasicPtr mul(BasicPtr a, BasicPtr b) { return BasicPtr(new Mul(a, b)); }
static BasicPtr add(BasicPtr a, BasicPtr b) { return BasicPtr(new Add(a, b)); }
static BasicPtr neg(BasicPtr a) { return BasicPtr(new Neg(a)); }
static BasicPtr vc(std::vector<BasicPtr> v) { Matrix *m = new Matrix(Shape(v.size())); BasicPtr r(m); for (size_t i = 0; i < v.size(); i++) m->set(i, v[i]); return r; }
static BasicPtr m22(BasicPtr a, BasicPtr b, BasicPtr c, BasicPtr d) { Matrix *m = new Matrix(Shape(2, 2)); BasicPtr r(m); m->set(0, 0, a); m->set(0, 1, b); m->set(1, 0, c); m->set(1, 1, d); return r; }
static BasicPtr el(BasicPtr v, int i, int j = 0) { return BasicPtr(new Element(v, i, j)); }
static BasicPtr pick(std::vector<BasicPtr> const &v) { return v[sx_choose(v.size())]; }
static BasicPtr rhsAl(std::vector<BasicPtr> const &av, int kinds) { // something an optimiser replaces, or not
  switch (sx_choose(kinds)) {
  case 0: return pick(av);
  case 1: return neg(pick(av));
  case 2: return mul(pick(av), av[0]);
  case 3: return G->integer();
  case 4: return mul(S->time, G->rawint());
  default: return add(pick(av), av[1]);
  }
}
static BasicPtr rhsAr(std::vector<BasicPtr> const &av, int kinds) {
  BasicPtr a = pick(av), b = av[av.size() - 1];
  switch (sx_choose(kinds)) {
  case 0: return add(a, mul(b, b));
  case 1: return mul(add(a, G->integer()), b);
  case 2: return BasicPtr(new If(cond(a, b), b, neg(a)));
  case 3: return neg(add(a, b));
  case 4: return BasicPtr(new Pow(add(a, b), BasicPtr(new Int(sx_int(-1, 2, 2)))));
  default: return mul(a, BasicPtr(new Pow(b, BasicPtr(new Int(-1)))));
  }
}
static BasicPtr trig(BasicPtr a, int kinds) {
  switch (sx_choose(kinds)) { case 0: return BasicPtr(new Sin(a)); case 1: return BasicPtr(new Cos(a)); case 2: return BasicPtr(new Tan(a)); case 3: return BasicPtr(new Atan2(a, S->sy["u"])); case 4: return BasicPtr(new Atan(a)); default: return BasicPtr(new Asin(a)); }
}
static void mkSystem(std::string const &fam) {
  Sys &s = *S; if (quick) combo = sx_choose(4); int names = quick ? COMBO[combo][0] : sx_choose(2); auto N = [&](const char *a, const char *b) { return std::string(names ? b : a); };
  BasicPtr u = s.decl(N("u", "zu"), INPUT), p = s.decl("p", PARAMETER), x = s.decl(N("x", "b0"), VARIABLE);
  s.sy["u"] = s.sy[N("u", "zu")]; std::string xn = N("x", "b0"); s.base.insert("p"); s.eqs.push_back(std::make_pair(p, G->real())); s.state(xn);
  std::vector<BasicPtr> av = {u, x, p}; BasicPtr dx(new Der(x));
  auto V = [&](const char *n, const char *n2, BasicPtr r, int kind = VARIABLE) { BasicPtr q = s.decl(N(n, n2), r->getShape(), kind); s.eq(q, r); return q; };
  if (fam[0] == 'a' && fam[1] == 'l') {
    int n = fam[2] - '0', kinds = fam[3] - '0';
    for (int k = 0; k < n; k++) { char a[3] = {(char)('a' + k), 0}, b[3] = {(char)('y' - k), 0}; av.push_back(V(a, b, rhsAl(av, kinds))); }
    if (sx_choose(2)) { V("s", "a", rhsAl(av, kinds), SENS); s.eq(dx, mul(av.back(), av[3])); }
    else { s.eq(dx, rhsAl(av, kinds)); s.base.insert("-"); av.push_back(dx); V("s", "a", add(mul(av[3], u), av.back()), SENS); }
  } else if (fam == "ar") {
    for (int k = 0; k < 2; k++) { char a[3] = {(char)('a' + k), 0}, b[3] = {(char)('y' - k), 0}; av.push_back(V(a, b, rhsAr(av, 6))); }
    s.eq(dx, rhsAr(av, 4)); V("s", "a", rhsAr(av, 2), SENS);
  } else if (fam == "sp") { // sensors and derivatives: of a state, an input, a parameter, the time, another sensor, a constant, an alias
    std::vector<BasicPtr> bv = av; bv.push_back(s.time); bv.push_back(V("a", "y", add(u, p))); bv.push_back(V("b", "c", neg(bv.back()))); bv.push_back(V("s", "a", add(bv.back(), x), SENS)); s.eq(dx, sx_choose(2) ? pick(bv) : mul(pick(bv), u)); bv.push_back(dx);
    BasicPtr r = pick(bv); if (sx_choose(2)) r = neg(r); V("t", "e", r, SENS); r = pick(bv); V("r", "f", sx_choose(2) ? r : neg(r), SENS);
  } else if (fam == "pa") { // parameters that depend on others
    BasicPtr q = s.decl(N("q", "k"), PARAMETER); s.pars.push_back(N("q", "k")); s.eq(q, sx_choose(2) ? mul(p, G->integer()) : sx_choose(2) ? p : neg(p)); BasicPtr c = s.decl("c0", CONSTANT); s.consts.push_back("c0"); s.eq(c, G->real());
    av.push_back(q); av.push_back(c); BasicPtr a = V("a", "y", pick(av)); av.push_back(a); s.eq(dx, add(pick(av), a)); V("s", "a", mul(pick(av), q), SENS);
  } else if (fam[0] == 't' && fam[1] == 'r') { // shared trigonometric terms
    int kinds = fam[2] - '0'; BasicPtr f = trig(x, kinds), a = V("a", "y", sx_choose(2) ? f : mul(f, u)); BasicPtr arg = sx_choose(2) ? x : sx_choose(2) ? a : add(x, u), h = trig(arg, kinds - (arg.get() == a.get() ? 2 : 0)), h2 = sx_choose(2) ? h : sx_choose(2) ? trig(x, kinds) : trig(h, 2);
    BasicPtr b = V("b", "c", sx_choose(2) ? mul(h, h2) : sx_choose(2) ? add(h, u) : h2); s.eq(dx, add(b, sx_choose(2) ? h2 : f)); V("s", "e", sx_choose(2) ? mul(h2, f) : h2, SENS);
  } else if (fam == "tn") { // names that clash with generated ones
    const char *nn[] = {"sinx", "sin0", "sinx0", "cosx"}; BasicPtr a = s.decl(nn[sx_choose(4)], VARIABLE); s.eq(a, add(u, p)); BasicPtr b = s.decl(sx_choose(2) ? "sin1" : "sinx0_", VARIABLE); s.eq(b, add(a, p)); BasicPtr t1 = trig(x, 2), t2 = trig(add(x, u), 2);
    s.eq(dx, add(mul(t1, a), mul(t1, b))); V("s", "e", add(mul(t1, t2), t2), SENS);
  } else if (fam == "ve") { // vectors and matrices
    BasicPtr v = V("v", "m", sx_choose(2) ? vc({u, x}) : sx_choose(2) ? vc({mul(u, p), BasicPtr(new Sin(x))}) : mul(vc({u, G->integer()}), x));
    BasicPtr A = V("A", "C", sx_choose(2) ? m22(u, G->integer(), p, x) : sx_choose(2) ? m22(add(p, u), Zero::getZero(), Zero::getZero(), p) : BasicPtr(new Mul(v, BasicPtr(new Transpose(v)))));
    BasicPtr w; switch (sx_choose(8)) { case 0: w = v; break; case 1: w = neg(v); break; case 2: w = mul(A, v); break; case 3: w = BasicPtr(new Solve(m22(add(p, u), p, p, x), v)); break; case 4: w = mul(mul(A, A), v); break; case 5: w = mul(BasicPtr(new Transpose(A)), v); break; case 6: w = add(v, mul(v, p)); break; default: w = mul(add(A, BasicPtr(new Transpose(A))), v); }
    BasicPtr ww = V("w", "a", w); BasicPtr z = sx_choose(2) ? el(ww, sx_choose(2)) : sx_choose(2) ? mul(BasicPtr(new Transpose(v)), ww) : el(A, sx_choose(2), sx_choose(2)); BasicPtr zz = V("z", "d", z); s.eq(dx, add(zz, el(ww, sx_choose(2))));
    switch (sx_choose(4)) { case 0: V("s", "e", ww, SENS); break; case 1: V("s", "e", neg(v), SENS); break; case 2: V("s", "e", mul(A, ww), SENS); break; default: V("s", "e", A, SENS); }
  } else if (fam == "v3") { // three-vectors, skew matrices
    BasicPtr v = V("v", "m", sx_choose(2) ? vc({u, x, p}) : vc({Zero::getZero(), mul(u, x), G->integer()})), k = sx_choose(2) ? V("K", "C", BasicPtr(new Skew(v))) : BasicPtr(new Skew(v)), w = V("w", "a", mul(k, vc({p, u, x})));
    s.eq(dx, el(w, sx_choose(3))); V("s", "e", sx_choose(2) ? w : sx_choose(2) ? mul(k, w) : neg(v), SENS);
  } else if (fam == "el") { // a vector given element by element
    BasicPtr v = s.decl(N("v", "m"), Shape(2), VARIABLE); BasicPtr r0 = sx_choose(2) ? mul(u, p) : sx_choose(2) ? u : G->integer(), r1; s.eq(el(v, 0), r0); r1 = sx_choose(2) ? add(el(v, 0), x) : sx_choose(2) ? el(v, 0) : neg(p); s.eq(el(v, 1), r1);
    BasicPtr A = m22(u, p, x, u); BasicPtr z; switch (sx_choose(7)) { case 0: z = el(v, 0); break; case 1: z = el(v, 1); break; case 2: z = add(el(v, 0), el(v, 1)); break; case 3: z = el(mul(A, v), sx_choose(2)); break; case 4: z = add(el(v, 0), el(neg(v), 1)); break; case 5: z = mul(BasicPtr(new Transpose(v)), v); break; default: z = add(el(v, 0), el(mul(m22(u, p, x, p), v), 1)); }
    BasicPtr zz = V("z", "d", z); s.eq(dx, sx_choose(2) ? zz : mul(zz, el(v, sx_choose(2)))); switch (sx_choose(3)) { case 0: V("s", "e", v, SENS); break; case 1: V("s", "e", mul(A, v), SENS); break; default: V("s", "e", add(zz, el(v, 1)), SENS); }
  } else if (fam == "em") { // symbol elements of a matrix, used through a symbolic matrix
    BasicPtr B = V("B", "C", m22(u, p, x, u)), v = s.decl(N("v", "m"), Shape(2), VARIABLE); s.eq(el(v, 0), mul(u, p)); s.eq(el(v, 1), sx_choose(2) ? add(el(v, 0), x) : x);
    BasicPtr z; switch (sx_choose(6)) { case 4: z = BasicPtr(new If(cond(el(v, sx_choose(2)), u), mul(BasicPtr(new Transpose(v)), v), u)); break; case 5: z = BasicPtr(new Mul(el(v, 0), BasicPtr(new Sin(mul(BasicPtr(new Transpose(v)), v))))); break; case 0: z = el(mul(B, v), sx_choose(2)); break; case 1: z = add(el(v, 0), el(mul(B, v), sx_choose(2))); break; case 2: z = add(mul(BasicPtr(new Transpose(v)), v), el(v, sx_choose(2))); break; default: z = el(add(v, mul(v, u)), sx_choose(2)); }
    BasicPtr zz = V("z", "a", z); s.eq(dx, zz); V("s", "e", sx_choose(2) ? v : zz, SENS);
  } else if (fam == "mx") { // several unknowns on the left
    BasicPtr a = s.decl(N("a", "y"), VARIABLE), b = s.decl(N("b", "c"), VARIABLE); BasicPtr r = sx_choose(2) ? vc({mul(u, p), add(x, u)}) : mul(m22(u, p, x, u), vc({x, p})); s.eq(vc({a, b}), r);
    av.push_back(a); av.push_back(b); BasicPtr c = V("d", "a", rhsAl(av, 3)); av.push_back(c); s.eq(dx, add(pick(av), c)); V("s", "e", sx_choose(2) ? add(a, b) : neg(pick(av)), SENS);
  } else if (fam == "so" || fam == "s1") { // mechanical form
    bool vecq = fam == "so"; BasicPtr q = s.decl("q", vecq ? Shape(2) : Shape(), VARIABLE), qd = s.decl("qd", vecq ? Shape(2) : Shape(), VARIABLE); s.state("q"); s.state("qd");
    BasicPtr q0 = vecq ? el(q, 0) : q, q1 = vecq ? el(q, 1) : x, d0 = vecq ? el(qd, 0) : qd, d1 = vecq ? el(qd, 1) : u, sn(new Sin(q0)), cs(new Cos(add(q0, q1)));
    BasicPtr qdd = s.decl("qdd", vecq ? Shape(2) : Shape(), VARIABLE), M = s.decl("M_", vecq ? Shape(2, 2) : Shape(), VARIABLE), h = s.decl(sx_choose(2) ? "C_" : "h_", vecq ? Shape(2) : Shape(), VARIABLE), sq = V("int_a", "a1", sx_choose(2) ? sn : mul(sn, p));
    if (vecq) { s.eq(M, m22(add(p, mul(sq, sq)), cs, cs, sx_choose(2) ? p : sq)); s.eq(h, sx_choose(2) ? vc({mul(d0, cs), mul(mul(d1, d1), sq)}) : mul(m22(cs, sq, u, p), qd)); s.eq(qdd, BasicPtr(new Solve(M, sx_choose(2) ? neg(h) : add(vc({u, sq}), neg(h))))); }
    else { s.eq(M, sx_choose(2) ? add(p, mul(sq, cs)) : sx_choose(2) ? p : sq); s.eq(h, mul(mul(d0, d0), sx_choose(2) ? cs : sq)); s.eq(qdd, sx_choose(2) ? mul(add(u, neg(h)), BasicPtr(new Pow(M, BasicPtr(new Int(-1))))) : BasicPtr(new Solve(M, neg(h)))); }
    s.eq(BasicPtr(new Der(q)), qd); s.eq(BasicPtr(new Der(qd)), sx_choose(2) ? qdd : neg(qdd)); s.eq(dx, u);
    switch (sx_choose(6)) { case 0: V("s", "e", q, SENS); break; case 1: V("s", "e", qd, SENS); break; case 2: V("s", "e", qdd, SENS); break; case 3: V("s", "e", BasicPtr(new Der(qd)), SENS); break; case 4: V("s", "e", neg(add(mul(h, sq), qdd)), SENS); break; default: V("s", "e", M, SENS); }
  } else if (fam == "un") { // other expressions are alive
    BasicPtr f(new Sin(x)), y(new Symbol("foreign")), o = mul(BasicPtr(new Sin(y)), add(BasicPtr(new Sin(y)), f)); static BasicPtr keep; keep = o; s.eq(dx, mul(f, sx_choose(2) ? f : BasicPtr(new Sin(x)))); V("s", "e", add(f, u), SENS);
  } else { sx_fail("unknown family"); }
}
static bool hasSolve(BasicPtr const &p) { if (p->getType() == Type_Solve) return true; if (p->getType() == Type_Matrix) { const Matrix *m = Util::getAsConstPtr<Matrix>(p); Shape s = p->getShape(); for (int i = 0; i < (int)s.getDimension(1); i++) for (int j = 0; j < (int)s.getDimension(2); j++) if (hasSolve(m->get(i, j))) return true; return false; } for (size_t i = 0; i < p->getArgsSize(); i++) if (hasSolve(p->getArg(i))) return true; return false; }
static int perm() { return sx_choose(3); }
// systems that have no solution order; returns true if something was refused
static bool refused(std::string const &fam, std::string &lab) {
  typedef std::pair<BasicPtr, BasicPtr> Eq; std::vector<Eq> e; Symbolics::Graph::Graph &g = S->g; bool bad = false; int scen = 0;
  auto D = [&](const char *n, Shape const &s, int kind) { lab += std::string(" ") + n + ":" + s.toString(); return g.addSymbol(SymbolPtr(new Symbol(n, s, kind))); };
  auto D0 = [&](const char *n, int kind) { return D(n, Shape(), kind); };
  auto Q = [&](BasicPtr l, BasicPtr r) { lab += " " + txt(l) + " = " + txt(r) + ";"; e.push_back(Eq(l, r)); };
  try {
    BasicPtr u = D0("u", INPUT), p = D0("p", PARAMETER), x = D0("x", VARIABLE); Q(p, BasicPtr(new Real(1.5)));
    std::vector<BasicPtr> av = {u, x, p};
    if (fam == "nam") { const char *nn[] = {"u", "p", "x", "time", "a"}; BasicPtr a = D0("a", VARIABLE); Q(a, u); Q(BasicPtr(new Der(x)), a); int kinds[] = {VARIABLE, PARAMETER, INPUT, SENS, CONSTANT}; BasicPtr b = D(nn[sx_choose(5)], sx_choose(2) ? Shape() : Shape(2), kinds[sx_choose(5)]); }
    else if (fam == "dup") { // two definitions
      BasicPtr a = D0("a", VARIABLE), b = D0("b", SENS), v = D("v", Shape(2), VARIABLE), c = D0("c", VARIABLE); Q(a, mul(u, p)); Q(b, add(a, u)); Q(BasicPtr(new Der(x)), add(a, b)); Q(c, neg(a)); BasicPtr r = rhsAl(av, 6);
      bool whole = sx_choose(2); if (whole) Q(v, vc({u, x})); else { Q(el(v, 0), u); Q(el(v, 1), a); }
      switch (sx_choose(8)) { case 0: Q(a, r); break; case 1: Q(b, r); break; case 2: Q(p, r); break; case 3: Q(BasicPtr(new Der(x)), r); break; case 4: Q(v, vc({r, u})); break; case 5: Q(el(v, sx_choose(2)), r); break; case 6: Q(vc({a, c}), vc({r, u})); break; default: { BasicPtr w = D0("w", VARIABLE); Q(vc({w, sx_choose(2) ? a : b}), vc({u, r})); } }
    } else if (fam == "und") { // undeclared, or declared and never defined
      bool decl = sx_choose(2); int sh = sx_choose(2); BasicPtr y = decl ? D("y", sh ? Shape(2) : Shape(), sx_choose(2) ? VARIABLE : PARAMETER) : sh ? BasicPtr(new Symbol("y", Shape(2))) : BasicPtr(new Symbol("y")), y0 = sh ? el(y, sx_choose(2)) : y; BasicPtr r; switch (sx_choose(7)) { case 0: r = y0; break; case 1: r = neg(y0); break; case 2: r = mul(y0, u); break; case 3: r = BasicPtr(new Sin(y0)); break; case 4: r = BasicPtr(new If(cond(u, y0), x, u)); break; case 5: r = add(y0, BasicPtr(new Pow(y0, BasicPtr(new Int(2))))); break; default: r = sh ? mul(BasicPtr(new Transpose(y)), vc({u, x})) : mul(BasicPtr(new Sin(y)), BasicPtr(new Sin(y))); }
      BasicPtr a = D0("a", VARIABLE), b = D0("b", SENS); switch (sx_choose(3)) { case 0: Q(a, r); Q(b, a); Q(BasicPtr(new Der(x)), u); break; case 1: Q(a, u); Q(b, r); Q(BasicPtr(new Der(x)), a); break; default: Q(BasicPtr(new Der(x)), r); Q(a, x); Q(b, a); }
    } else if (fam == "und2") { // a state nobody integrates, a vector of which one element is missing
      BasicPtr y = D0("y", VARIABLE), v = D("v", Shape(2), VARIABLE), b = D0("b", SENS); int k = sx_choose(3); Q(BasicPtr(new Der(x)), k == 0 ? add(y, u) : u); Q(el(v, 0), k == 1 ? mul(y, u) : u); Q(b, k == 2 ? add(el(v, 1), el(v, 0)) : el(v, 0)); if (k == 2) Q(y, u);
    } else if (fam[0] == 'c' && fam != "cv") { // cycles of 1..4
      int n = fam[1] - '0'; std::vector<BasicPtr> c; char nm[2] = "a"; int kind0 = sx_choose(2) ? VARIABLE : SENS; for (int i = 0; i < n; i++) { nm[0] = 'a' + i; c.push_back(D0(nm, i == 0 ? kind0 : VARIABLE)); }
      for (int i = 0; i < n; i++) { BasicPtr o = c[(i + 1) % n], r; switch (sx_choose(n > 3 ? 4 : 6)) { case 0: r = o; break; case 1: r = neg(o); break; case 2: r = add(o, u); break; case 3: r = BasicPtr(new Sin(o)); break; case 4: r = BasicPtr(new If(cond(o, u), x, p)); break; default: r = mul(mul(o, o), x); } Q(c[i], r); }
      BasicPtr s = D0("s", SENS); Q(s, add(c[n - 1], x)); Q(BasicPtr(new Der(x)), sx_choose(2) ? c[0] : u);
    } else if (fam == "cv") { // cycles through vectors, derivatives and several unknowns
      BasicPtr v = D("v", Shape(2), VARIABLE), a = D0("a", VARIABLE), s = D0("s", SENS); BasicPtr dx(new Der(x)); int k = sx_choose(6);
      switch (k) { case 0: Q(v, vc({a, u})); Q(a, el(v, 0)); Q(dx, a); break; case 1: Q(el(v, 0), mul(el(v, 1), u)); Q(el(v, 1), el(v, 0)); Q(a, u); Q(dx, a); break; case 2: Q(dx, add(a, u)); Q(a, mul(dx, x)); Q(v, vc({u, x})); break; case 3: { BasicPtr b = D0("b", VARIABLE); Q(vc({a, b}), mul(m22(u, p, x, u), v)); Q(v, vc({u, b})); Q(dx, b); break; } case 4: Q(v, mul(m22(u, p, x, a), vc({u, x}))); Q(a, mul(BasicPtr(new Transpose(v)), v)); Q(dx, u); break; default: Q(el(v, 0), u); Q(el(v, 1), a); Q(a, mul(BasicPtr(new Transpose(v)), v)); Q(dx, a); }
      Q(s, add(a, sx_choose(2) ? x : el(v, 1)));
    } else { sx_fail("unknown family"); return true; }
    int n = e.size(), pk = perm(), mode = sx_choose(4); lab += pk == 0 ? "" : pk == 1 ? " (given in reverse)" : " (given from the middle)"; lab += mode == 0 ? " plain" : mode == 1 ? " optimised" : mode == 2 ? " scalar" : " optimised and scalar";
    for (int i = 0; i < n; i++) { int k = pk == 0 ? i : pk == 1 ? n - 1 - i : (i + n / 2) % n; g.addExpression(e[k].first, e[k].second); }
    if (mode == 2) g.makeScalar(); g.buildGraph(mode == 1 || mode == 3); if (mode == 3) { g.makeScalar(); g.buildGraph(true); }
    AssignmentsPtr as = g.getAssignments((Category_Type)(DER_STATE | SENS)); as->getEquations();
    return false;
  } catch (std::exception &ex) { return true; }
}
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope(); char mode = arg[0]; std::string fam = arg + 2; if (fam.size() > 2 && fam.substr(fam.size() - 2) == ":q") { quick = true; fam.resize(fam.size() - 2); } Sys sys; S = &sys;
  if (mode == 'x') { std::string lab = "accepted:"; if (!refused(fam, lab)) sx_fail(lab.c_str()); return 0; }
  try { mkSystem(fam); } catch (std::exception &ex) { sx_note("construction rejected"); return 0; } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; } catch (Undef &u) { sx_fail(("harness uses undefined " + u.name).c_str()); return 0; }
  for (auto c : sys.side) sx_assume(c);
  std::string lab = std::string("mode ") + mode + ":"; for (auto &q : sys.eqs) lab += " " + txt(q.first) + " = " + txt(q.second) + ";";
  int n = sys.eqs.size(), pk = quick ? COMBO[combo][1] : perm(); Category_Type inc = 0; int wh = quick ? COMBO[combo][2] : sx_choose(3); inc = wh == 0 ? (Category_Type)DER_STATE : wh == 1 ? (Category_Type)SENS : (Category_Type)(DER_STATE | SENS); static const char *wn[] = {"derivatives", "sensors", "all"};
  AssignmentsPtr as; std::vector<Assignment> ev;
  try {
    for (int i = 0; i < n; i++) { int k = pk == 0 ? i : pk == 1 ? n - 1 - i : (i + n / 2) % n; sys.g.addExpression(sys.eqs[k].first, sys.eqs[k].second); }
    if (mode == 's' || mode == 'u') sys.g.makeScalar();
    if (mode == 'n' || mode == 's') sys.g.buildGraph(false); else sys.g.buildGraph(true);
    if (mode == 't') { sys.g.makeScalar(); sys.g.buildGraph(true); }
    as = sys.g.getAssignments(inc); ev = as->getEquations();
  } catch (InternalError &e) { sx_fail((lab + " refused: " + e.what()).c_str()); return 0; } catch (std::exception &e) { sx_fail((lab + " refused").c_str()); return 0; }
  lab += std::string(" for the ") + wn[wh] + ":"; for (auto &a : ev) for (size_t k = 0; k < a.lhs.size(); k++) lab += " " + txt(a.lhs[k]) + " := " + txt(a.rhs[k]) + ";";
  Env env; for (auto &q : sys.pars) env[q] = sys.ref[q]; for (auto &q : sys.consts) env[q] = sys.ref[q];
  for (auto &a : ev) {
    if (a.implizit) { // a scalar system keeps solutions of linear systems inside larger expressions as residuals
      bool sv = false; for (size_t k = 0; k < a.rhs.size(); k++) sv |= hasSolve(a.rhs[k]);
      if (!sv || mode == 'n' || mode == 'o') { sx_fail((lab + " [implicit]").c_str()); return 0; }
      for (auto &kv : sys.ref) { auto r = env.find(kv.first); if (r == env.end()) env[kv.first] = kv.second; else for (size_t i = 0; i < r->second.e.size(); i++) if (!r->second.e[i].v) r->second.e[i] = kv.second.e[i]; }
      try { for (size_t k = 0; k < a.rhs.size(); k++) { Val l = sys.eval(a.lhs[k], env, NULL), r = sys.eval(a.rhs[k], env, NULL); if (l.nd == 0) { Val w = r; for (auto &x : w.e) x = l.e[0]; l = w; } checkVal(l, r, lab + " [residual]"); } } catch (Undef &u) { sx_fail((lab + " [" + u.name + " is unknown]").c_str()); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); }
      return 0;
    }
    for (size_t k = 0; k < a.lhs.size(); k++) {
      std::vector<std::string> names; Val v; bool ok;
      try {
        v = sys.eval(a.rhs[k], env, NULL); Den D; Shape ls = a.lhs[k]->getShape(); if (ls.getNrDimensions() != 0 && v.nd == 0) { Val w = D.shaped(ls); for (auto &x : w.e) x.v = v.e[0].v; v = w; }
        ok = sys.assign(env, a.lhs[k], v, names);
      } catch (Undef &u) { sx_fail((lab + " [" + u.name + " is used before it is assigned]").c_str()); return 0; } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
      for (auto &nm : names) { if (sys.base.count(nm)) { sx_fail((lab + " [" + nm + " is assigned]").c_str()); return 0; } }
      if (!ok) { sx_fail((lab + " [assigned twice]").c_str()); return 0; }
    }
  }
  for (auto &kv : env) { auto r = sys.ref.find(kv.first); if (r == sys.ref.end()) continue; bool whole = true; for (auto &x : kv.second.e) if (!x.v) whole = false;
    if (whole) checkVal(r->second, kv.second, lab + " [" + kv.first + "]"); else for (size_t i = 0; i < kv.second.e.size(); i++) if (kv.second.e[i].v) sx_check(sx_eq(kv.second.e[i].v, r->second.e[i].v), (lab + " [" + kv.first + "]").c_str()); }
  for (auto &q : sys.req) { bool der = q.compare(0, 4, "der_") == 0; if (wh == 0 && !der) continue; if (wh == 1 && der) continue; auto k = env.find(q); bool miss = k == env.end(); if (!miss) for (auto &x : k->second.e) if (!x.v) miss = true; if (miss) { sx_fail((lab + " [no value for " + q + "]").c_str()); return 0; } }
  for (auto &q : sys.pars) { Env e2; try { Val v; e2 = env; e2.erase(q); BasicPtr r = sys.g.getEquation(SymbolPtr(sys.sy[q])); v = sys.eval(r, e2, NULL); checkVal(sys.ref[q], v, lab + " [value of " + q + "]"); } catch (std::exception &e) { sx_fail((lab + " [no value of " + q + "]").c_str()); } catch (Undef &u) { sx_fail((lab + " [value of " + q + " uses " + u.name + "]").c_str()); } }
  return 0;
}
