// Operands of every shape, and the mathematical meaning of every operation on
// already known operand values (independent of the library's shape rules).
#pragma once
#include "hs.h"
namespace sxh {
struct Ops {
  Gen g; int level = 1; // 0: only plain leaves
  bool posPow = true;
  Shape shape(char c) {
    switch (c) { case 's': return Shape(); case 'v': return Shape(2); case 'w': return Shape(3); case 'r': return Shape(1, 1, 2); case 'q': return Shape(1, 1, 3); case 'm': return Shape(2, 2); case 'n': return Shape(3, 3); case 'k': return Shape(2, 3); case 'c': return Shape(3, 2); case 'o': return Shape(1, 1); case 'h': return Shape(1, 2); case 'z': return Shape(2, 1); case 'u': return Shape(1); }
    return Shape();
  }
  BasicPtr sy(char c, int k = 0) { static const char *nm[] = {"a", "b"}; if (c == 's') return g.sym(k ? "y" : "x"); char b[8]; snprintf(b, 8, "%c%s", c == 'm' || c == 'n' || c == 'k' || c == 'c' ? c - 32 : c, nm[k]); return g.sym(b, shape(c)); }
  BasicPtr mat(char c) { // literal with numbers and variables
    Shape s = shape(c); Matrix *m = new Matrix(s); BasicPtr r(m); int n = s.getNumEl();
    for (int i = 0; i < n; i++) { int a = i / s.getDimension(2), b = i % s.getDimension(2); if (s.getNrDimensions() == 1) { a = s.getDimension(1) == 1 ? 0 : i; b = s.getDimension(1) == 1 ? i : 0; } BasicPtr e = i == 0 ? g.integer(1) : i == 1 ? g.sym("x") : i == 2 ? g.sym("y") : i == 3 ? g.integer(2) : i % 2 ? Int::getOne() : Int::getZero(); m->set(a, b, e); }
    return r;
  }
  int count(char c) { return c == 's' ? (level ? 11 : 4) : (level ? 9 : 4); }
  BasicPtr operand(char c) { return operandK(c, sx_choose(count(c))); }
  BasicPtr operandK(char c, int k) {
    if (c == 's') switch (k) {
      case 0: return g.sym("x"); case 1: return g.integer(); case 2: return g.real(); case 3: return Zero::getZero();
      case 4: return BasicPtr(new Neg(g.sym("x")));
      case 5: return BasicPtr(new Add(g.sym("x"), g.sym("y")));
      case 6: return BasicPtr(new Mul(g.integer(), g.sym("y")));
      case 7: return BasicPtr(new Pow(g.sym("x"), BasicPtr(new Int(sx_int(-2, 3, 2)))));
      case 8: return BasicPtr(new Pow(g.sym("y"), BasicPtr(new Real(0.5))));
      case 9: return BasicPtr(new Mul(sy('r'), sy('v')));
      case 10: return BasicPtr(new Neg(BasicPtr(new Mul(g.sym("x"), g.sym("y")))));
    }
    Shape s = shape(c); bool sq = s.getNrDimensions() == 2 && s.getDimension(1) == s.getDimension(2);
    switch (k) {
      case 0: return sy(c); case 1: return mat(c); case 2: return BasicPtr(new Zero(s));
      case 3: if (sq) return BasicPtr(new Eye(s)); return BasicPtr(new Neg(sy(c)));
      case 4: return BasicPtr(new Add(sy(c), sy(c, 1)));
      case 5: return BasicPtr(new Mul(g.integer(), sy(c)));
      case 6: return BasicPtr(new Neg(sy(c, 1)));
      case 7: { Shape t = s.transpose(); char b[8]; snprintf(b, 8, "T%c", c); return BasicPtr(new Transpose(g.sym(b, t))); }
      case 8: if (sq) { if (c == 'm') return sx_choose(2) ? BasicPtr(new Mul(sy(c), sy(c, 1))) : BasicPtr(new Inverse(sy(c))); return BasicPtr(new Mul(sy(c), sy(c, 1))); }
              if (c == 'v') return BasicPtr(new Mul(sy('m'), sy(c))); if (c == 'w') return BasicPtr(new Mul(BasicPtr(new Skew(sy('w'))), sy('w', 1))); return BasicPtr(new Mul(sy(c), g.sym("y")));
    }
    return BasicPtr();
  }
};
inline bool fitAdd(Val const &a, Val const &b) { return a.nd == 0 || b.nd == 0 || (a.nd == b.nd && a.r == b.r && a.c == b.c); }
inline bool fitMul(Val const &a, Val const &b) { return a.nd == 0 || b.nd == 0 || a.c == b.r; }
} // namespace sxh
