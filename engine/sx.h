// Interface between harnesses and the symx runtime (symbolic) or the plain
// runtime (replay of one concrete input on the uninstrumented code).
#pragma once
extern "C" {
typedef const void *sxE;
// --- inputs
int    sx_choose(int n);                     // structural choice: every value 0..n-1 is explored
int    sx_int(int lo, int hi, int dflt);     // symbolic integer
double sx_real(int lo4, int hi4, int dflt4); // symbolic real k/4, lo4<=k<=hi4
int    sx_concretize(int v);                 // one path per feasible value
// --- terms
sxE sx_num(double v);
sxE sx_td(double v);                         // term of a (possibly symbolic) double
sxE sx_ti(long v);
sxE sx_var(const char *name);                // universally quantified real
sxE sx_bvar(const char *name);               // universally quantified boolean
sxE sx_add(sxE a, sxE b); sxE sx_sub(sxE a, sxE b); sxE sx_mul(sxE a, sxE b); sxE sx_div(sxE a, sxE b);
sxE sx_neg(sxE a);
sxE sx_fn(const char *f, sxE a); sxE sx_fn2(const char *f, sxE a, sxE b);
sxE sx_ite(sxE c, sxE a, sxE b);
sxE sx_eq(sxE a, sxE b); sxE sx_lt(sxE a, sxE b); sxE sx_le(sxE a, sxE b);
sxE sx_and(sxE a, sxE b); sxE sx_or(sxE a, sxE b); sxE sx_not(sxE a);
sxE sx_ne0(sxE a);                           // a is not zero
sxE sx_true(); sxE sx_false();
int sx_constval(sxE a, double *out);         // 1 if the term is a constant
// --- obligations
void sx_assume(sxE c);
void sx_check(sxE c, const char *label);     // must hold for every value
void sx_fail(const char *label);             // reached = violation on this path
void sx_note(const char *label);             // counted in the evidence
int  sx_symbolic();                          // 1 in the symbolic runtime
// --- provided by the harness
int sxh_main(const char *arg);
}
