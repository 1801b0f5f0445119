// Plain runtime: replays one input (choices, symbolic values, variable values)
// on uninstrumented code and evaluates every obligation numerically.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include "sx.h"
struct P { double v; };
static std::vector<long> in; static size_t pos; static std::map<std::string, double> env; static int trial; static bool verbose;
static bool assumeOk = true; static int failed = 0;
static struct Sh { int failed; int assumeFail; int finished; char label[800]; } *sh;
static P *mkp(double v) { return new P{v + 0.0}; } // no negative zero
static double V(sxE e) { return ((const P *)e)->v; }
static double rnd(const std::string &n) { unsigned h = 2166136261u + 977 * trial; for (char c : n) h = (h ^ (unsigned char)c) * 16777619u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return ((h % 20011) / 20011.0) * 3.6 - 1.8; }
static double envv(const char *s) {
  auto it = env.find(s); if (it != env.end() && trial == 0) return it->second;
  double r = rnd(s);
  if (it == env.end()) return trial < 2 ? fabs(r) + 0.3 : r;
  if (trial < 4) return it->second + 0.01 * r; 
  return trial % 2 ? fabs(r) + 0.2 : r;
}
static bool eq(double a, double b) { if (isnan(a) || isnan(b)) return isnan(a) && isnan(b); if (isinf(a) || isinf(b)) return a == b; return fabs(a - b) <= 1e-7 * (1 + fabs(a) + fabs(b)); }
extern "C" {
int sx_symbolic() { return 0; }
static long nextIn(long lo, long hi, long d) { long v = pos < in.size() ? in[pos] : d; pos++; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int sx_choose(int n) { return (int)nextIn(0, n - 1, 0); }
int sx_int(int lo, int hi, int d) { return (int)nextIn(lo, hi, d); }
double sx_real(int lo, int hi, int d) { return nextIn(lo, hi, d) / 4.0; }
int sx_concretize(int v) { return v; }
sxE sx_num(double v) { return mkp(v); }
sxE sx_td(double v) { return mkp(v); }
sxE sx_ti(long v) { return mkp(v); }
sxE sx_var(const char *s) { double v = envv(s); if (verbose) printf("  %s = %.12g\n", s, v); return mkp(v); }
sxE sx_bvar(const char *s) { return mkp(envv(s) > 0); }
sxE sx_add(sxE a, sxE b) { return mkp(V(a) + V(b)); }
sxE sx_sub(sxE a, sxE b) { return mkp(V(a) - V(b)); }
sxE sx_mul(sxE a, sxE b) { return mkp(V(a) * V(b)); }
sxE sx_div(sxE a, sxE b) { return mkp(V(a) / V(b)); }
sxE sx_neg(sxE a) { return mkp(-V(a)); }
sxE sx_fn(const char *f, sxE a) {
  double x = V(a); std::string s = f;
  double r = s == "sin" ? sin(x) : s == "cos" ? cos(x) : s == "tan" ? tan(x) : s == "asin" ? asin(x) : s == "acos" ? acos(x) : s == "atan" ? atan(x) : s == "sqrt" ? sqrt(x) : s == "exp" ? exp(x) : s == "log" ? log(x) : sin(x * 1.37 + s.size());
  return mkp(r);
}
sxE sx_fn2(const char *f, sxE a, sxE b) { std::string s = f; double x = V(a), y = V(b); return mkp(s == "atan2" ? atan2(x, y) : s == "pow" ? pow(x, y) : sin(x * 1.37 + y * 0.71 + s.size())); }
sxE sx_ite(sxE c, sxE a, sxE b) { return V(c) != 0 ? a : b; }
sxE sx_eq(sxE a, sxE b) { return mkp(eq(V(a), V(b))); }
sxE sx_lt(sxE a, sxE b) { return mkp(V(a) < V(b)); }
sxE sx_le(sxE a, sxE b) { return mkp(V(a) <= V(b)); }
sxE sx_and(sxE a, sxE b) { return mkp(V(a) != 0 && V(b) != 0); }
sxE sx_or(sxE a, sxE b) { return mkp(V(a) != 0 || V(b) != 0); }
sxE sx_not(sxE a) { return mkp(V(a) == 0); }
sxE sx_true() { return mkp(1); }
sxE sx_false() { return mkp(0); }
int sx_constval(sxE a, double *o) { *o = V(a); return 1; }
sxE sx_ne0(sxE a) { double v = V(a); return mkp(v == 0 ? 0 : fabs(v) <= 1e-7 ? 0.5 : 1); } // 0.5: too close to zero to rely on either way
void sx_assume(sxE c) { if (V(c) < 0.75 || isnan(V(c))) { assumeOk = false; sh->assumeFail = 1; } }
void sx_check(sxE c, const char *l) { if (V(c) == 0 || isnan(V(c))) { if (assumeOk && !sh->failed) { sh->failed = 1; snprintf(sh->label, 800, "%s", l); } } else if (verbose) printf("  ok: %s\n", l); }
void sx_fail(const char *l) { sx_check(mkp(0), l); }
void sx_note(const char *) {}
}
int main(int argc, char **argv) {
  const char *arg = ""; const char *file = nullptr; int trials = 24; int secs = 20;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-a") arg = argv[++i]; else if (a == "-v") verbose = true; else if (a == "-n") trials = atoi(argv[++i]); else if (a == "-p") secs = atoi(argv[++i]); else file = argv[i]; }
  std::ifstream f(file); std::string line;
  while (std::getline(f, line)) { std::istringstream ss(line); std::string k; ss >> k; if (k == "in") { long v; while (ss >> v) in.push_back(v); } else if (k == "env") { std::string n; double v; ss >> n >> v; env[n] = v; } }
  sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (trial = 0; trial < trials; trial++) {
    memset(sh, 0, sizeof *sh); fflush(stdout);
    pid_t p = fork();
    if (!p) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(secs); sxh_main(arg); sh->finished = 1; fflush(stdout); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { printf("REPRODUCED trial=%d %s (signal %d)\n", trial, WTERMSIG(st) == SIGALRM ? "does not terminate" : "crash", WTERMSIG(st)); return 1; }
    if (sh->failed) { printf("REPRODUCED trial=%d %s\n", trial, sh->label); return 1; }
    if (verbose) printf("trial %d: not reproduced%s\n", trial, sh->assumeFail ? " (assumption false)" : "");
  }
  printf("NOT-REPRODUCED\n"); return 0;
}
