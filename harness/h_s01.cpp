// S01: simplifying an expression never changes its value.
#include "trees.h"
extern "C" int sxh_main(const char *arg) {
  Gen g; G = &g; Util::newScope();
  BasicPtr e; std::string fam = arg;
  Den D;
  try {
    e = build(fam); if (!e.get()) return 1;
  } catch (std::exception &x) { sx_note("construction rejected"); return 0; }
  std::string text = txt(e);
  Val before;
  try { before = D.den(e); } catch (Unsupported &u) { sx_note(("no meaning assigned: " + u.why).c_str()); return 0; }
  D.assumeSide();
  BasicPtr s;
  try { s = e->simplify(); }
  catch (std::exception &x) { sx_note("simplify raised"); sx_fail(("simplify(" + text + ") raises " + x.what()).c_str()); return 0; }
  std::string label = "simplify(" + text + ") -> " + txt(s);
  Den D2; Val after;
  try { after = D2.den(s); } catch (Unsupported &u) { sx_note(("result has no meaning: " + u.why).c_str()); sx_fail((label + ": result has no meaning: " + u.why).c_str()); return 0; }
  checkVal(before, after, label);
  sxE def = sx_true(); for (auto c : D2.side) def = sx_and(def, c);
  sx_check(def, (label + " is undefined where the original is defined").c_str());
  // idempotence: a second simplification keeps the value too
  try {
    BasicPtr s2 = s->simplify(); Den D3; Val again = D3.den(s2); checkVal(before, again, label + " -> " + txt(s2));
  } catch (std::exception &x) { sx_fail((label + ": second simplify raises").c_str()); }
  catch (Unsupported &u) { sx_fail((label + ": second result has no meaning").c_str()); }
  return 0;
}
