// symx runtime: shadow memory, expression DAG, path exploration, z3 queries.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <pthread.h>
#include <execinfo.h>
#include <sched.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <z3++.h>
#include "sx.h"
typedef __int128 i128;

// ------------------------------------------------------------------ nodes
enum Op : uint16_t { X_CQ, X_DD, X_BOOL, X_IN, X_ENV, X_BENV, X_ADD, X_SUB, X_MUL, X_DIV, X_IDIV, X_ITE, X_LT, X_LE, X_EQ, X_AND, X_OR, X_NOT, X_TOREAL, X_TRUNC, X_UF };
enum Sort_ : uint8_t { S_BOOL, S_INT, S_REAL };
typedef uint8_t Sort; struct Node { uint16_t op; uint8_t sort; uint8_t nargs; uint32_t hash; Node *a[3]; int64_t i; int64_t j; double d; double lo, hi; uint64_t inmask; };

struct Event { uint8_t kind; Node *n; int idx; int val; int cnt; };    // kind 0 branch, 1 choice, 2 pinned (not flippable)
struct Check { Node *n; int nev; int nassume; int label; };
enum { MAXIN = 96, MAXEV = 60000, MAXCHK = 4000, MAXASM = 4000, MAXSTR = 1 << 20 };
struct Input { uint8_t kind; int lo, hi; int64_t val; };                // kind 0 choice, 1 int, 2 real(k/4)
struct Rec {
  int nin; Input in[MAXIN];
  int nev; Event ev[MAXEV];
  int nchk; Check chk[MAXCHK];
  int nasm; Node *asm_[MAXASM];
  int nstr; char str[MAXSTR];
  int overflow; int finished; int conc_inexact; int loststores;
  int nnote; int note[512];
};
struct Arena { size_t used, cap; size_t nnodes; size_t tabcap; Rec rec; };
static Arena *A; static char *Abase; static Node **Atab; static const size_t TABCAP = 1 << 21;
static const size_t ARENA_BYTES = (size_t)1500 << 20;

static Rec *R; // = &A->rec
static bool exploring = false;  // true inside a child that runs the harness
static std::unordered_set<Node *> *pcset;
static std::vector<int64_t> preset;     // input values given to this path

static Node *intern(const Node &t) {
  uint64_t h = t.op * 0x9E3779B97F4A7C15ull ^ t.sort;
  for (int k = 0; k < t.nargs; k++) h = (h ^ ((uint64_t)t.a[k]->hash + 77)) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  h = (h ^ (uint64_t)t.i) * 0xBF58476D1CE4E5B9ull; h ^= h >> 31; h = (h ^ (uint64_t)t.j) * 0x94D049BB133111EBull; h ^= h >> 30;
  uint64_t db; memcpy(&db, &t.d, 8); h = (h ^ db) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  size_t p = h & (TABCAP - 1);
  while (Atab[p]) {
    Node *n = Atab[p];
    if (n->op == t.op && n->sort == t.sort && n->nargs == t.nargs && n->i == t.i && n->j == t.j && !memcmp(&n->d, &t.d, 8) && !memcmp(n->a, t.a, sizeof(Node *) * 3)) return n;
    p = (p + 1) & (TABCAP - 1);
  }
  if (A->used + sizeof(Node) > ARENA_BYTES || A->nnodes > TABCAP * 3 / 4) { R->overflow = 1; _exit(77); }
  Node *n = (Node *)(Abase + A->used); A->used += sizeof(Node); A->nnodes++;
  *n = t; n->hash = (uint32_t)h; Atab[p] = n;
  return n;
}
static bool later(Node *a, Node *b) { return a->hash != b->hash ? a->hash > b->hash : a > b; } // same order in every worker
static Node blank() { Node t; memset(&t, 0, sizeof t); t.lo = -INFINITY; t.hi = INFINITY; return t; }
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 c = a % b; a = b; b = c; } return a; }
static const i128 LIM = (i128)1 << 62;
static Node *mkQ(i128 p, i128 q, Sort s) { // p/q, q>0
  if (q < 0) { p = -p; q = -q; }
  i128 g = gcd128(p, q); if (g > 1) { p /= g; q /= g; }
  if (p > LIM || p < -LIM || q > LIM) return nullptr;
  Node t = blank(); t.op = X_CQ; t.sort = s; t.i = (int64_t)p; t.j = (int64_t)q; t.lo = t.hi = (double)p / (double)q;
  return intern(t);
}
static Node *mkI(int64_t v) { return mkQ(v, 1, S_INT); }
static Node *mkD(double v) {
  if (v == 0) return mkQ(0, 1, S_REAL);
  if (isfinite(v)) {
    int e; double m = frexp(v, &e); // v = m*2^e
    // dyadic with a small denominator
    double x = v; int k = 0; while (k < 30 && x != floor(x)) { x *= 2; k++; }
    if (x == floor(x) && fabs(x) < 9e17 && k <= 24) { Node *n = mkQ((i128)(int64_t)x, (i128)1 << k, S_REAL); if (n) return n; }
    // nearest small rational (constants such as 1.0/3 computed by the code)
    double ax = fabs(v); if (ax < 1e12 && ax > 1e-12) {
      i128 p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = ax;
      for (int it = 0; it < 24; it++) {
        double fl = floor(y); if (fl > 1e15) break; i128 ai = (i128)fl;
        i128 p2 = ai * p1 + p0, q2 = ai * q1 + q0; if (q2 > 10000 || p2 > (i128)1e15) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if (fabs((double)p1 / (double)q1 - ax) <= 4 * 2.220446e-16 * ax) { Node *n = mkQ(v < 0 ? -p1 : p1, q1, S_REAL); if (n) return n; }
        double fr = y - fl; if (fr < 1e-13) break; y = 1 / fr;
      }
    }
  }
  Node t = blank(); t.op = X_DD; t.sort = S_REAL; t.d = v; t.lo = t.hi = v; return intern(t);
}
static Node *mkB(bool b) { Node t = blank(); t.op = X_BOOL; t.sort = S_BOOL; t.i = b; return intern(t); }
static bool isC(Node *n) { return n->op == X_CQ; }
static bool isBool(Node *n, bool v) { return n->op == X_BOOL && n->i == (int)v; }
static Node *mk(Op op, Sort s, Node *a, Node *b = nullptr, Node *c = nullptr, int64_t i = 0) {
  Node t = blank(); t.op = op; t.sort = s; t.a[0] = a; t.a[1] = b; t.a[2] = c; t.nargs = c ? 3 : b ? 2 : 1; t.i = i;
  for (int k = 0; k < t.nargs; k++) t.inmask |= t.a[k]->inmask;
  return intern(t);
}
static Node *setiv(Node *n, double lo, double hi) { if (n->op != X_CQ && n->op != X_DD) { if (lo > n->lo) n->lo = lo; if (hi < n->hi) n->hi = hi; } return n; }
static Sort join(Node *a, Node *b) { return (a->sort == S_REAL || b->sort == S_REAL) ? S_REAL : S_INT; }
static Node *toReal(Node *a) {
  if (a->sort == S_REAL) return a;
  if (a->op == X_CQ) return mkQ(a->i, a->j, S_REAL);
  return setiv(mk(X_TOREAL, S_REAL, a), a->lo, a->hi);
}
static void unify(Node *&a, Node *&b) { if (a->sort != b->sort) { a = toReal(a); b = toReal(b); } }
static double xmul(double x, double y) { double r = x * y; return r != r ? 0 : r; }
static Node *nAdd(Node *a, Node *b) {
  unify(a, b);
  if (isC(a) && isC(b)) { Node *r = mkQ((i128)a->i * b->j + (i128)b->i * a->j, (i128)a->j * b->j, a->sort); if (r) return r; }
  if (isC(a) && a->i == 0) return b; if (isC(b) && b->i == 0) return a;
  if (later(a, b) && !(a->op == X_CQ)) std::swap(a, b);
  Node *n = mk(X_ADD, a->sort, a, b); return setiv(n, a->lo + b->lo, a->hi + b->hi);
}
static Node *nMul(Node *a, Node *b);
static Node *nNeg(Node *a) { return nMul(mkQ(-1, 1, a->sort), a); }
static Node *nSub(Node *a, Node *b) { unify(a, b); if (a == b) return mkQ(0, 1, a->sort); return nAdd(a, nNeg(b)); }
static Node *nMul(Node *a, Node *b) {
  unify(a, b);
  if (isC(b) && !isC(a)) std::swap(a, b);
  if (isC(a)) {
    if (isC(b)) { Node *r = mkQ((i128)a->i * b->i, (i128)a->j * b->j, a->sort); if (r) return r; }
    if (a->i == 0) return a; if (a->i == 1 && a->j == 1) return b;
    if (b->op == X_MUL && isC(b->a[0])) { Node *c = mkQ((i128)a->i * b->a[0]->i, (i128)a->j * b->a[0]->j, a->sort); if (c) return nMul(c, b->a[1]); }
  } else if (later(a, b)) std::swap(a, b);
  Node *n = mk(X_MUL, a->sort, a, b);
  double c[4] = {xmul(a->lo, b->lo), xmul(a->lo, b->hi), xmul(a->hi, b->lo), xmul(a->hi, b->hi)};
  bool inf = !isfinite(a->lo) || !isfinite(a->hi) || !isfinite(b->lo) || !isfinite(b->hi);
  if (!inf) setiv(n, *std::min_element(c, c + 4), *std::max_element(c, c + 4));
  if (a == b) setiv(n, 0, INFINITY);
  return n;
}
static Node *nDiv(Node *a, Node *b) {
  a = toReal(a); b = toReal(b);
  if (isC(b) && b->i != 0) { Node *r = mkQ(b->j, b->i, S_REAL); if (r) return nMul(r, a); }
  return mk(X_DIV, S_REAL, a, b);
}
static Node *nNot(Node *a) { if (a->op == X_BOOL) return mkB(!a->i); if (a->op == X_NOT) return a->a[0]; return mk(X_NOT, S_BOOL, a); }
static Node *nAnd(Node *a, Node *b) { if (isBool(a, 0) || isBool(b, 1)) return a; if (isBool(b, 0) || isBool(a, 1)) return b; if (a == b) return a; return mk(X_AND, S_BOOL, a, b); }
static Node *nOr(Node *a, Node *b) { return nNot(nAnd(nNot(a), nNot(b))); }
static Node *nEq(Node *a, Node *b) {
  if (a == b) return mkB(true);
  if (a->sort == S_BOOL) {
    if (a->op == X_BOOL) return a->i ? b : nNot(b); if (b->op == X_BOOL) return b->i ? a : nNot(a);
    if (later(a, b)) std::swap(a, b); return mk(X_EQ, S_BOOL, a, b);
  }
  unify(a, b);
  if (a == b) return mkB(true);
  if (isC(a) && isC(b)) return mkB(false);
  if (a->lo > b->hi || b->lo > a->hi) return mkB(false);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->op == X_TOREAL) { if (b->j != 1) return mkB(false); return nEq(a->a[0], mkI(b->i)); }
    if (a->op == X_ITE && isC(a->a[1]) && isC(a->a[2])) {
      bool t1 = a->a[1]->i == b->i && a->a[1]->j == b->j, t2 = a->a[2]->i == b->i && a->a[2]->j == b->j;
      if (t1 && t2) return mkB(true); if (t1) return a->a[0]; if (t2) return nNot(a->a[0]); return mkB(false);
    }
  } else if (later(a, b)) std::swap(a, b);
  return mk(X_EQ, S_BOOL, a, b);
}
static Node *nLt(Node *a, Node *b) {
  unify(a, b); if (a == b) return mkB(false);
  if (a->hi < b->lo) return mkB(true); if (a->lo >= b->hi) return mkB(false);
  return mk(X_LT, S_BOOL, a, b);
}
static Node *nLe(Node *a, Node *b) { return nNot(nLt(b, a)); }
static Node *nIte(Node *c, Node *a, Node *b) {
  if (c->op == X_BOOL) return c->i ? a : b;
  if (a == b) return a;
  if (a->sort == S_BOOL) return nOr(nAnd(c, a), nAnd(nNot(c), b));
  unify(a, b);
  if (c->op == X_NOT) { c = c->a[0]; std::swap(a, b); }
  Node *n = mk(X_ITE, a->sort, c, a, b); return setiv(n, std::min(a->lo, b->lo), std::max(a->hi, b->hi));
}
static Node *b2i(Node *b) { return nIte(b, mkI(1), mkI(0)); }
static bool as01(Node *n, Node *&b) { // integer that is 0 or 1 -> bool
  if (n->sort == S_BOOL) { b = n; return true; }
  if (n->sort == S_INT && n->lo >= 0 && n->hi <= 1) { b = nEq(n, mkI(1)); return true; }
  return false;
}

// ------------------------------------------------------------------ strings / records
static int addStr(const char *s) {
  size_t l = strlen(s) + 1; if (l > 3000) l = 3000;
  if (R->nstr + l > MAXSTR) { return 0; }
  int p = R->nstr; memcpy(R->str + p, s, l - 1); R->str[p + l - 1] = 0; R->nstr += l; return p;
}
static void pushEv(const Event &e) { if (R->nev >= MAXEV) { R->overflow = 1; _exit(77); } R->ev[R->nev++] = e; }
static void branchOn(Node *c, bool taken, int kind = 0) {
  Node *k = taken ? c : nNot(c);
  if (k->op == X_BOOL) { return; }
  if (!pcset->insert(k).second) return;
  pushEv(Event{(uint8_t)kind, k, 0, 0, 0});
}
static bool quarter(Node *n) { // every value is a multiple of 1/4
  switch (n->op) {
  case X_IN: return true; case X_CQ: return n->j == 1 || n->j == 2 || n->j == 4; case X_TOREAL: return true;
  case X_ADD: return quarter(n->a[0]) && quarter(n->a[1]);
  case X_MUL: return n->a[0]->op == X_CQ && ((n->a[0]->j == 1 && quarter(n->a[1])) || (n->a[0]->j <= 4 && n->a[0]->j != 3 && n->a[1]->op == X_TOREAL));
  case X_ITE: return quarter(n->a[1]) && quarter(n->a[2]);
  } return false;
}
static void concretize(Node *n, int64_t v, int w) {
  if (!n || n->op == X_CQ || n->op == X_BOOL) return;
  static bool trace = getenv("SX_TRACE") != nullptr;
  if (trace) { void *bt[6]; int k = backtrace(bt, 6); fprintf(stderr, "concretize op=%d sort=%d [%g,%g]", n->op, n->sort, n->lo, n->hi); for (int i = 1; i < k; i++) { Dl_info di; if (dladdr(bt[i], &di)) fprintf(stderr, " %s+0x%lx", strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname, (long)((char *)bt[i] - (char *)di.dli_fbase)); } fprintf(stderr, "\n"); }
  if (n->sort == S_BOOL) { branchOn(n, v != 0); return; }
  if (n->sort == S_INT && n->hi - n->lo <= 80) {
    for (int64_t x = (int64_t)n->lo; x < v; x++) branchOn(nEq(n, mkI(x)), false);
    branchOn(nEq(n, mkI(v)), true); return;
  }
  if (n->sort == S_REAL && w == 65 && quarter(n) && n->hi - n->lo <= 40) {
    double d; memcpy(&d, &v, 8); int64_t t = llround(d * 4);
    for (int64_t x = llround(n->lo * 4); x < t; x++) branchOn(nEq(n, mkQ(x, 4, S_REAL)), false);
    branchOn(nEq(n, mkQ(t, 4, S_REAL)), true); return;
  }
  if (n->sort == S_REAL && w == 65) { double d; memcpy(&d, &v, 8); Node *k = nEq(n, mkD(d)); R->conc_inexact++; branchOn(k, true, 2); return; }
  R->conc_inexact++; branchOn(nEq(n, mkI(v)), true, 2);
}

// ------------------------------------------------------------------ shadow memory
struct Cell { uint8_t off, size; Node *n; uint64_t v; };
static std::unordered_map<uint64_t, std::vector<Cell>> *cells;
static uint16_t *filt; // counts per hashed granule
static inline uint32_t fh(uint64_t g) { return (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 48); }
static inline uint64_t maskv(uint64_t v, int sz) { return sz >= 8 ? v : v & (((uint64_t)1 << (8 * sz)) - 1); }
static void eraseCells(uint64_t p, uint64_t n) {
  if (!n) return;
  for (uint64_t g = p >> 3; g <= (p + n - 1) >> 3; g++) {
    if (!filt[fh(g)]) continue;
    auto it = cells->find(g); if (it == cells->end()) continue;
    auto &v = it->second;
    for (size_t k = 0; k < v.size();) {
      uint64_t s = (g << 3) + v[k].off;
      if (s < p + n && s + v[k].size > p) { v[k] = v.back(); v.pop_back(); filt[fh(g)]--; } else k++;
    }
    if (v.empty()) cells->erase(it);
  }
}
static void setCell(uint64_t p, int sz, uint64_t v, Node *n) {
  uint64_t g = p >> 3; (*cells)[g].push_back(Cell{(uint8_t)(p & 7), (uint8_t)sz, n, maskv(v, sz)}); filt[fh(g)]++;
}
static uint64_t rd(uint64_t p, int sz) { uint64_t v = 0; memcpy(&v, (void *)p, sz); return v; }
static int64_t sext(uint64_t v, int sz) { switch (sz) { case 1: return (int8_t)v; case 2: return (int16_t)v; case 4: return (int32_t)v; } return (int64_t)v; }

extern "C" {
void *__sx_callee; void *__sx_args[32]; void *__sx_ret; void *__sx_ret_from;

Node *__sx_load(void *p_, int sz, int64_t val) {
  uint64_t p = (uint64_t)p_;
  uint64_t g = p >> 3;
  if (!filt || (!filt[fh(g)] && !filt[fh((p + sz - 1) >> 3)])) return nullptr;
  for (uint64_t gg = g; gg <= (p + sz - 1) >> 3; gg++) {
    auto it = cells->find(gg); if (it == cells->end()) continue;
    for (size_t k = 0; k < it->second.size(); k++) {
      Cell c = it->second[k]; uint64_t s = (gg << 3) + c.off;
      if (!(s < p + sz && s + c.size > p)) continue;
      if (rd(s, c.size) != c.v) { R->loststores++; eraseCells(s, c.size); return __sx_load(p_, sz, val); }
      if (s == p && c.size == sz) return c.n;
      concretize(c.n, c.n->sort == S_REAL ? (int64_t)c.v : sext(c.v, c.size), c.n->sort == S_REAL ? 65 : c.size * 8);
    }
  }
  return nullptr;
}
void __sx_store(void *p_, int sz, int64_t val, Node *n) {
  if (!exploring) return;
  uint64_t p = (uint64_t)p_;
  eraseCells(p, sz);
  if (!n || n->op == X_CQ || n->op == X_BOOL) return;
  if ((p >> 3) != ((p + sz - 1) >> 3)) { concretize(n, val, n->sort == S_REAL ? 65 : sz * 8); return; }
  if (n->sort == S_BOOL) n = b2i(n);
  setCell(p, sz, (uint64_t)val, n);
}
void __sx_memcpy(char *d, char *s, int64_t n) {
  if (!exploring || n <= 0) return;
  std::vector<std::pair<uint64_t, Cell>> mv;
  for (uint64_t g = (uint64_t)s >> 3; g <= ((uint64_t)s + n - 1) >> 3; g++) {
    if (!filt[fh(g)]) continue;
    auto it = cells->find(g); if (it == cells->end()) continue;
    for (auto &c : it->second) {
      uint64_t a = (g << 3) + c.off; if (a + c.size <= (uint64_t)s || a >= (uint64_t)s + n) continue;
      if (rd(a, c.size) != c.v) continue;
      if (a >= (uint64_t)s && a + c.size <= (uint64_t)s + n) mv.push_back({a - (uint64_t)s, c});
      else concretize(c.n, c.n->sort == S_REAL ? (int64_t)c.v : sext(c.v, c.size), c.n->sort == S_REAL ? 65 : c.size * 8);
    }
  }
  eraseCells((uint64_t)d, n);
  for (auto &m : mv) {
    uint64_t a = (uint64_t)d + m.first;
    if ((a >> 3) != ((a + m.second.size - 1) >> 3)) { concretize(m.second.n, m.second.n->sort == S_REAL ? (int64_t)m.second.v : sext(m.second.v, m.second.size), m.second.n->sort == S_REAL ? 65 : m.second.size * 8); continue; }
    setCell(a, m.second.size, m.second.v, m.second.n);
  }
}
void __sx_memset(char *d, int64_t n) { if (exploring) eraseCells((uint64_t)d, n); }
void __sx_conc_range(char *d, int64_t n) {
  if (!exploring || n <= 0) return;
  for (uint64_t g = (uint64_t)d >> 3; g <= ((uint64_t)d + n - 1) >> 3; g++) {
    if (!filt[fh(g)]) continue; auto it = cells->find(g); if (it == cells->end()) continue;
    std::vector<Cell> cs = it->second;
    for (auto &c : cs) concretize(c.n, c.n->sort == S_REAL ? (int64_t)c.v : sext(c.v, c.size), c.n->sort == S_REAL ? 65 : c.size * 8);
  }
}
void __sx_conc(Node *n, int64_t v, int w) {
  if (!n) return;
  concretize(n, v, w);
}
void __sx_branch(Node *n, int taken) {
  if (!n) return;
  Node *b; if (!as01(n, b)) b = nNot(nEq(n, mkI(0)));
  branchOn(b, taken != 0);
}
void __sx_div0(Node *n, int64_t v, int w) {
  if (!n) return;
  Node *z = nEq(n, n->sort == S_REAL ? mkD(0) : mkI(0));
  bool isz; if (w == 65) { double d; memcpy(&d, &v, 8); isz = d == 0; } else isz = v == 0;
  branchOn(z, isz);
}
static Node *lift(Node *n, int64_t v, int w) {
  if (n) return n; if (w == 1) return mkB(v & 1); return mkI(v);
}
static Node *fit(Node *r, int w, int64_t res) {
  if (!r || r->op == X_CQ || r->op == X_BOOL) return nullptr;
  if (r->sort == S_INT && w < 64) { double m = ldexp(1, w - 1); if (r->lo < -m || r->hi >= 2 * m) { concretize(r, res, w); return nullptr; } }
  return r;
}
// llvm opcodes (LLVM 18 Instruction.def): Add 13 FAdd 14 Sub 15 FSub 16 Mul 17 FMul 18 UDiv 19 SDiv 20 FDiv 21 URem 22 SRem 23 FRem 24 Shl 25 LShr 26 AShr 27 And 28 Or 29 Xor 30
Node *__sx_bin_i(int op, int w, Node *sa, int64_t a, Node *sb, int64_t b, int64_t r) {
  if (!sa && !sb) return nullptr;
  Node *x = lift(sa, a, w), *y = op == 1000 ? nullptr : lift(sb, b, w), *p, *q;
  switch (op) {
  case 1000: return fit(nIte(nLt(x, mkI(0)), nNeg(x), x), w, r);
  case 13: if (x->sort == S_BOOL) break; return fit(nAdd(x, y), w, r);
  case 15: if (x->sort == S_BOOL) break; return fit(nSub(x, y), w, r);
  case 17: if (x->sort == S_BOOL) break; return fit(nMul(x, y), w, r);
  case 19: if (x->lo < 0 || y->lo < 0) break; // fallthrough
  case 20: if (x->sort == S_BOOL) break; { Node *n = mk(X_IDIV, S_INT, x, y); double m = std::max(fabs(x->lo), fabs(x->hi)); setiv(n, -m, m); return fit(n, w, r); }
  case 22: if (x->lo < 0 || y->lo < 0) break; // fallthrough
  case 23: if (x->sort == S_BOOL) break; { Node *n = mk(X_IDIV, S_INT, x, y); double m = std::max(fabs(x->lo), fabs(x->hi)); setiv(n, -m, m); Node *rr = nSub(x, nMul(y, n)); return fit(rr, w, r); }
  case 25: if (!sb && b >= 0 && b < 31 && x->sort == S_INT) return fit(nMul(x, mkI((int64_t)1 << b)), w, r); break;
  case 28: case 29: case 30:
    if (as01(x, p) && as01(y, q)) {
      Node *o = op == 28 ? nAnd(p, q) : op == 29 ? nOr(p, q) : nNot(nEq(p, q));
      if (o->op == X_BOOL) return nullptr;
      return w == 1 ? o : b2i(o);
    }
    if (op == 28 && !sb && x->sort == S_INT && b > 0 && ((b + 1) & b) == 0 && x->lo >= 0 && x->hi <= b) return x;
    if (op == 30 && !sb && b == -1 && x->sort == S_INT) return fit(nSub(nNeg(x), mkI(1)), w, r);
    break;
  }
  if (sa) concretize(sa, a, w); if (sb) concretize(sb, b, w);
  return nullptr;
}
static Node *liftd(Node *n, double v) { return n ? n : mkD(v); }
Node *__sx_bin_d(int op, Node *sa, double a, Node *sb, double b, double r) {
  if (!sa && !sb) return nullptr;
  Node *x = liftd(sa, a), *y = liftd(sb, b), *n = nullptr;
  int64_t t;
  switch (op) {
  case 14: n = nAdd(x, y); break;
  case 16: n = nSub(x, y); break;
  case 18: n = nMul(x, y); break;
  case 21: if (b == 0) { if (sa) { memcpy(&t, &a, 8); concretize(sa, t, 65); } return nullptr; } n = nDiv(x, y); break;
  default:
    if (sa) { memcpy(&t, &a, 8); concretize(sa, t, 65); } if (sb) { memcpy(&t, &b, 8); concretize(sb, t, 65); } return nullptr;
  }
  return n->op == X_CQ ? nullptr : n;
}
static Node *uns(Node *x, int w) { if (x->lo >= 0) return x; return nIte(nLt(x, mkI(0)), nAdd(x, mkQ((i128)1 << w, 1, S_INT) ? mkQ((i128)1 << w, 1, S_INT) : mkI(INT64_MAX)), x); }
Node *__sx_icmp(int pr, int w, Node *sa, int64_t a, Node *sb, int64_t b) {
  if (!sa && !sb) return nullptr;
  Node *x = lift(sa, a, w), *y = lift(sb, b, w), *r = nullptr;
  if (x->sort != y->sort) { if (x->sort == S_BOOL) x = b2i(x); else y = b2i(y); }
  if (pr == 32) r = nEq(x, y); else if (pr == 33) r = nNot(nEq(x, y));
  else {
    if (x->sort == S_BOOL) { x = b2i(x); y = b2i(y); }
    if (pr >= 34 && pr <= 37) {
      if (w >= 62 && (x->lo < 0 || y->lo < 0)) { // compare as unsigned 64: negatives are huge
        Node *nx = nLt(x, mkI(0)), *ny = nLt(y, mkI(0)), *lt = nIte(nEq(nx, ny), nLt(x, y), ny), *eq = nEq(x, y);
        switch (pr) { case 34: r = nAnd(nNot(lt), nNot(eq)); break; case 35: r = nNot(lt); break; case 36: r = lt; break; default: r = nOr(lt, eq); }
        return r->op == X_BOOL ? nullptr : r;
      }
      x = uns(x, w); y = uns(y, w);
    }
    switch (pr) { // UGT 34 UGE 35 ULT 36 ULE 37 SGT 38 SGE 39 SLT 40 SLE 41
    case 34: case 38: r = nLt(y, x); break; case 35: case 39: r = nLe(y, x); break;
    case 36: case 40: r = nLt(x, y); break; default: r = nLe(x, y); }
  }
  return r->op == X_BOOL ? nullptr : r;
}
Node *__sx_fcmp(int pr, Node *sa, double a, Node *sb, double b) {
  if (!sa && !sb) return nullptr;
  Node *x = liftd(sa, a), *y = liftd(sb, b), *r = nullptr;
  switch (pr) { // OEQ1 OGT2 OGE3 OLT4 OLE5 ONE6 ORD7 UNO8 UEQ9 UGT10 UGE11 ULT12 ULE13 UNE14
  case 1: case 9: r = nEq(x, y); break; case 6: case 14: r = nNot(nEq(x, y)); break;
  case 2: case 10: r = nLt(y, x); break; case 3: case 11: r = nLe(y, x); break;
  case 4: case 12: r = nLt(x, y); break; case 5: case 13: r = nLe(x, y); break;
  default: return nullptr; }
  return r->op == X_BOOL ? nullptr : r;
}
// Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44 FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48 BitCast 49
Node *__sx_cast(int op, int wf, int wt, Node *s, int64_t v, int64_t r) {
  if (!s) return nullptr;
  Node *b;
  switch (op) {
  case 38:
    if (wt == 1) { if (as01(s, b)) return b->op == X_BOOL ? nullptr : b; break; }
    if (s->sort == S_BOOL) return b2i(s);
    { double m = ldexp(1, wt - 1); if (s->lo >= -m && s->hi < m) return s; } break;
  case 39: if (s->sort == S_BOOL) return b2i(s); if (s->lo >= 0) return s; branchOn(nLt(s, mkI(0)), v < 0); if (v >= 0) { return s; } break;
  case 40: if (s->sort == S_BOOL) return nIte(s, mkI(-1), mkI(0)); return s;
  case 43: if (s->sort == S_INT && s->lo < 0) break; // fallthrough
  case 44: { Node *n = toReal(s->sort == S_BOOL ? b2i(s) : s); return n->op == X_CQ ? nullptr : n; }
  case 41: case 42: { if (s->op == X_TOREAL) return s->a[0]; Node *n = mk(X_TRUNC, S_INT, s); setiv(n, s->lo < 0 ? ceil(s->lo) : 0, s->hi > 0 ? floor(s->hi) : 0); setiv(n, -INFINITY, INFINITY); return fit(n, wt, r); }
  }
  concretize(s, v, wf); return nullptr;
}
Node *__sx_select(Node *c, int cv, Node *sa, int64_t a, Node *sb, int64_t b, int w) {
  if (!c) return cv ? sa : sb;
  Node *cb; if (!as01(c, cb)) cb = nNot(nEq(c, mkI(0)));
  Node *x, *y;
  if (w == 65) { double da, db; memcpy(&da, &a, 8); memcpy(&db, &b, 8); if ((!sa && !isfinite(da)) || (!sb && !isfinite(db))) { branchOn(cb, cv); return cv ? sa : sb; } x = liftd(sa, da); y = liftd(sb, db); }
  else { x = lift(sa, a, w); y = lift(sb, b, w); }
  if (x->sort != y->sort) { if (x->sort == S_BOOL) x = b2i(x); if (y->sort == S_BOOL) y = b2i(y); }
  Node *r = nIte(cb, x, y);
  return (r->op == X_CQ || r->op == X_BOOL) ? nullptr : r;
}
static const char *mathName(int id) {
  switch (id) { case 1: return "sqrt"; case 2: return "sin"; case 3: return "cos"; case 4: return "tan"; case 5: return "asin"; case 6: return "acos"; case 7: return "atan"; case 8: return "atan2"; case 9: return "pow"; case 14: return "exp"; case 15: return "log"; }
  return nullptr;
}
static Node *fnNode(const char *f, Node *a, Node *b);
Node *__sx_math(int id, Node *sa, double a, Node *sb, double b, double r) {
  if (!sa && !sb) return nullptr;
  Node *x = liftd(sa, a), *y = liftd(sb, b); int64_t t;
  if (id == 10) return nIte(nLt(x, mkD(0)), nNeg(x), x);
  if (id == 11) { // floor: integer-valued terms stay
    if (x->op == X_TOREAL) return x; }
  if (id == 9 && sb && y->op != X_CQ) { memcpy(&t, &b, 8); concretize(sb, t, 65); y = mkD(b); if (!sa && y->op == X_CQ) return nullptr; }
  if (id == 9) return fnNode("pow", x, y)->op == X_CQ ? nullptr : fnNode("pow", x, y);
  if (id == 8) return fnNode("atan2", x, y);
  const char *nm = mathName(id);
  if (nm) { Node *n = fnNode(nm, x, nullptr); return n->op == X_CQ ? nullptr : n; }
  if (sa) { memcpy(&t, &a, 8); concretize(sa, t, 65); } if (sb) { memcpy(&t, &b, 8); concretize(sb, t, 65); }
  return nullptr;
}
} // extern C

// ------------------------------------------------------------------ uninterpreted functions & env variables: names in a shared table
enum { NAMES = 8192 };
struct Names { char s[NAMES][64]; };
static Names *NM;
static int nameId(const char *s) { // the same number in every worker
  uint32_t h = 2166136261u; for (const char *p = s; *p; p++) h = (h ^ (uint8_t)*p) * 16777619u;
  for (uint32_t k = h % NAMES, c = 0; c < 4000; k = (k + 1) % NAMES, c++) {
    if (!NM->s[k][0]) { snprintf(NM->s[k], 64, "%s", s); return k; }
    if (!strcmp(NM->s[k], s)) return k;
  }
  R->overflow = 1; _exit(77);
}
static bool isInt(Node *n, int64_t &v) { if (n->op == X_CQ && n->j == 1) { v = n->i; return true; } return false; }
static Node *npow(Node *b, int k) { Node *r = mkQ(1, 1, S_REAL); Node *x = b; while (k) { if (k & 1) r = nMul(r, x); x = nMul(x, x); k >>= 1; } return r; }
static Node *fnNode(const char *f, Node *a, Node *b) {
  a = toReal(a); if (b) b = toReal(b);
  if (!strcmp(f, "pow")) {
    // constant exponents are expanded, piecewise exponents pushed inwards
    if (b->op == X_ITE) return nIte(b->a[0], fnNode(f, a, b->a[1]), fnNode(f, a, b->a[2]));
    if (b->op == X_CQ && b->j == 1 && llabs(b->i) <= 64) {
      if (b->i >= 0) return npow(a, b->i); return nDiv(mkD(1), npow(a, -b->i));
    }
    if (b->op == X_CQ && b->j == 2 && llabs(b->i) <= 64) {
      Node *s = fnNode("sqrt", a, nullptr);
      if (b->i >= 0) return npow(s, b->i); return nDiv(mkD(1), npow(s, -b->i));
    }
  }
  if (!strcmp(f, "sqrt")) { if (isC(a) && a->i >= 0) { int64_t p = llround(sqrt((double)a->i)), q = llround(sqrt((double)a->j)); if (p * p == a->i && q * q == a->j) return mkQ(p, q, S_REAL); } }
  if (isC(a) && a->i == 0 && !b) { if (!strcmp(f, "sin") || !strcmp(f, "tan") || !strcmp(f, "asin") || !strcmp(f, "atan")) return mkD(0); if (!strcmp(f, "cos")) return mkD(1); }
  if (!b && a->op == X_MUL && isC(a->a[0]) && a->a[0]->i < 0) { // odd and even functions
    bool odd = !strcmp(f, "sin") || !strcmp(f, "asin") || !strcmp(f, "atan") || !strcmp(f, "tan"), even = !strcmp(f, "cos");
    if (odd) return nNeg(fnNode(f, nNeg(a), nullptr)); if (even) return fnNode(f, nNeg(a), nullptr);
  }
  if (!strcmp(f, "tan")) return nDiv(fnNode("sin", a, nullptr), fnNode("cos", a, nullptr));
  Node *n = mk(X_UF, S_REAL, a, b, nullptr, nameId(f));
  if (!strcmp(f, "sin") || !strcmp(f, "cos")) setiv(n, -1, 1);
  if (!strcmp(f, "sqrt")) setiv(n, 0, INFINITY);
  return n;
}

// ------------------------------------------------------------------ harness API (symbolic)
static Node *N(sxE e) { return (Node *)e; }
static Node *argShadow(int k, void *self) {
  Node *n = nullptr; if (__sx_callee == self) n = (Node *)__sx_args[k]; __sx_callee = nullptr; return n;
}
static int64_t newInput(int kind, int lo, int hi, int64_t d) {
  int k = R->nin; if (k >= MAXIN) { R->overflow = 1; _exit(77); }
  int64_t v = k < (int)preset.size() ? preset[k] : d;
  if (v < lo) v = lo; if (v > hi) v = hi;
  R->in[k] = Input{(uint8_t)kind, lo, hi, v}; R->nin++; return v;
}
static Node *inNode(int k, int kind) { Node t = blank(); t.op = X_IN; t.sort = kind == 2 ? S_REAL : S_INT; t.i = k; t.inmask = 1ull << (k & 63); double s = kind == 2 ? 0.25 : 1; t.lo = R->in[k].lo * s; t.hi = R->in[k].hi * s; t.d = t.lo; t.j = R->in[k].hi; return intern(t); }
extern "C" {
int sx_symbolic() { return 1; }
int sx_choose(int n) {
  __sx_callee = nullptr; __sx_ret_from = nullptr;
  int k = R->nin; int64_t v = newInput(0, 0, n - 1, 0);
  pushEv(Event{1, nullptr, k, (int)v, n}); return (int)v;
}
int sx_int(int lo, int hi, int d) {
  int k = R->nin; int64_t v = newInput(1, lo, hi, d); __sx_callee = nullptr;
  __sx_ret = inNode(k, 1); __sx_ret_from = (void *)sx_int; return (int)v;
}
double sx_real(int lo, int hi, int d) {
  int k = R->nin; int64_t v = newInput(2, lo, hi, d); __sx_callee = nullptr;
  __sx_ret = inNode(k, 2); __sx_ret_from = (void *)sx_real; return v / 4.0;
}
int sx_concretize(int v) { Node *n = argShadow(0, (void *)sx_concretize); if (n) concretize(n, v, 32); __sx_ret_from = nullptr; return v; }
sxE sx_num(double v) { __sx_callee = nullptr; return mkD(v); }
sxE sx_td(double v) { Node *n = argShadow(0, (void *)sx_td); return n ? toReal(n) : mkD(v); }
sxE sx_ti(long v) { Node *n = argShadow(0, (void *)sx_ti); return n ? toReal(n->sort == S_BOOL ? b2i(n) : n) : toReal(mkI(v)); }
sxE sx_var(const char *s) { Node t = blank(); t.op = X_ENV; t.sort = S_REAL; t.i = nameId(s); return intern(t); }
sxE sx_bvar(const char *s) { Node t = blank(); t.op = X_BENV; t.sort = S_BOOL; t.i = nameId(s); return intern(t); }
sxE sx_add(sxE a, sxE b) { return nAdd(N(a), N(b)); }
sxE sx_sub(sxE a, sxE b) { return nSub(N(a), N(b)); }
sxE sx_mul(sxE a, sxE b) { return nMul(N(a), N(b)); }
sxE sx_div(sxE a, sxE b) { return nDiv(N(a), N(b)); }
sxE sx_neg(sxE a) { return nNeg(N(a)); }
sxE sx_fn(const char *f, sxE a) { return fnNode(f, N(a), nullptr); }
sxE sx_fn2(const char *f, sxE a, sxE b) { return fnNode(f, N(a), N(b)); }
sxE sx_ite(sxE c, sxE a, sxE b) { return nIte(N(c), N(a), N(b)); }
sxE sx_eq(sxE a, sxE b) { return nEq(N(a), N(b)); }
sxE sx_lt(sxE a, sxE b) { return nLt(N(a), N(b)); }
sxE sx_le(sxE a, sxE b) { return nLe(N(a), N(b)); }
sxE sx_and(sxE a, sxE b) { return nAnd(N(a), N(b)); }
sxE sx_or(sxE a, sxE b) { return nOr(N(a), N(b)); }
sxE sx_not(sxE a) { return nNot(N(a)); }
sxE sx_ne0(sxE a) { return sx_not(sx_eq(a, sx_num(0))); }
sxE sx_true() { return mkB(true); }
sxE sx_false() { return mkB(false); }
int sx_constval(sxE a, double *o) { Node *n = N(a); __sx_ret_from = nullptr; if (n->op == X_CQ) { *o = (double)n->i / n->j; eraseCells((uint64_t)o, 8); return 1; } return 0; }
void sx_assume(sxE c) { if (R->nasm >= MAXASM) { R->overflow = 1; _exit(77); } if (!isBool(N(c), true)) R->asm_[R->nasm++] = N(c); }
void sx_check(sxE c, const char *l) { if (R->nchk >= MAXCHK) { R->overflow = 1; _exit(77); } R->chk[R->nchk++] = Check{N(c), R->nev, R->nasm, addStr(l)}; }
void sx_fail(const char *l) { sx_check(mkB(false), l); }
void sx_note(const char *l) { if (R->nnote < 512) R->note[R->nnote++] = addStr(l); }
}

// ------------------------------------------------------------------ exploration
enum { QCAP = 200000, MAXITEM = MAXIN };
struct Item { int n; int bound; uint64_t prefhash; int16_t v[MAXITEM]; };
struct Stats { long paths, choices, branches, flips, flip_sat, flip_unsat, flip_unknown, checks, trivial, proved, incon, cex, crashes, timeouts, diverged, overflow, inexact, lost, vac_checked, vac_bad, folded, dropped; double solver, exec; };
struct Find { int kind; char label[600]; char body[3400]; };
struct Shared {
  pthread_mutex_t mu; int busy; int stop; long nq; Stats st; int nfind; Find find[256]; int nincon; Find incon[64]; int nsamp; Find samp[64]; int nnote; struct { char s[120]; long c; } note[512];
  Item q[QCAP];
};
static Shared *S;
static int optWorkers = 8; static double optTime = 600; static long optMaxPaths = 1000000000; static int optMaxFind = 40; static unsigned optQms = 4000; static int optPathSec = 20; static const char *optArg = ""; static int optVerbose = 0; static int optPerClass = 2; static int optSamp = 24;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double tStart;

struct Z {
  z3::context c; 
  // branch-query translation (exact sorts)
  std::unordered_map<Node *, z3::expr> m;
  std::map<int, z3::expr> kvars;
  z3::expr kvar(int k) { auto it = kvars.find(k); if (it != kvars.end()) return it->second; z3::expr e = c.int_const(("k" + std::to_string(k)).c_str()); kvars.insert({k, e}); return e; }
  z3::expr q(Node *n, bool real) {
    std::string s = std::to_string(n->i);
    if (n->op == X_DD) {
      if (!isfinite(n->d)) return c.real_const("nonfinite");
      int e; double mm = frexp(n->d, &e); int64_t im = (int64_t)ldexp(mm, 53); e -= 53;
      z3::expr r = c.real_val(std::to_string(im).c_str()); z3::expr two = c.real_val(1); for (int k = 0; k < (e < 0 ? -e : e) && k < 1100; k++) two = (two * 2).simplify();
      return (e < 0 ? r / two : r * two).simplify(); }
    if (n->j != 1) s += "/" + std::to_string(n->j);
    return real ? c.real_val(s.c_str()) : c.int_val(s.c_str());
  }
  z3::expr tr(Node *n) {
    auto it = m.find(n); if (it != m.end()) return it->second;
    z3::expr r = tr_(n); m.insert({n, r}); return r;
  }
  z3::expr idiv(z3::expr a, z3::expr b) { // truncating
    return z3::ite(a >= 0, z3::ite(b > 0, a / b, -(a / (-b))), z3::ite(b > 0, -((-a) / b), (-a) / (-b)));
  }
  z3::expr tr_(Node *n) {
    switch (n->op) {
    case X_CQ: case X_DD: return q(n, n->sort == S_REAL);
    case X_BOOL: return c.bool_val(n->i != 0);
    case X_IN: return n->sort == S_REAL ? z3::to_real(kvar(n->i)) / c.real_val(4) : kvar(n->i);
    case X_ENV: return c.real_const((std::string("e_") + NM->s[n->i]).c_str());
    case X_BENV: return c.bool_const((std::string("e_") + NM->s[n->i]).c_str());
    case X_ADD: return tr(n->a[0]) + tr(n->a[1]);
    case X_SUB: return tr(n->a[0]) - tr(n->a[1]);
    case X_MUL: return tr(n->a[0]) * tr(n->a[1]);
    case X_DIV: return tr(n->a[0]) / tr(n->a[1]);
    case X_IDIV: return idiv(tr(n->a[0]), tr(n->a[1]));
    case X_ITE: return z3::ite(tr(n->a[0]), tr(n->a[1]), tr(n->a[2]));
    case X_LT: return tr(n->a[0]) < tr(n->a[1]);
    case X_LE: return tr(n->a[0]) <= tr(n->a[1]);
    case X_EQ: return tr(n->a[0]) == tr(n->a[1]);
    case X_AND: return tr(n->a[0]) && tr(n->a[1]);
    case X_OR: return tr(n->a[0]) || tr(n->a[1]);
    case X_NOT: return !tr(n->a[0]);
    case X_TOREAL: return z3::to_real(tr(n->a[0]));
    case X_TRUNC: { z3::expr x = tr(n->a[0]); return z3::ite(x >= 0, z3::expr(c, Z3_mk_real2int(c, x)), -z3::expr(c, Z3_mk_real2int(c, -x))); }
    case X_UF: {
      z3::sort rs = c.real_sort();
      if (n->nargs == 2) return c.function((std::string("f_") + NM->s[n->i]).c_str(), rs, rs, rs)(tr(n->a[0]), tr(n->a[1]));
      return c.function((std::string("f_") + NM->s[n->i]).c_str(), rs, rs)(tr(n->a[0])); }
    }
    abort();
  }
};

// rational-function translation for obligations: value = num/den, functions become variables
struct Rel {
  z3::context &c; bool strict; Z &z;
  struct ND { z3::expr n, d; };
  std::unordered_map<Node *, ND> m; std::unordered_map<Node *, z3::expr> mb;
  struct App { int f; Node *node; std::vector<ND> args; z3::expr v; };
  std::vector<App> apps; z3::expr_vector ax; std::set<int> ins; bool unsupported = false;
  Rel(Z &z, bool strict) : c(z.c), strict(strict), z(z), ax(z.c) {}
  z3::expr one() { return c.real_val(1); }
  bool isOne(const z3::expr &e) { return e.is_numeral() && e.get_decimal_string(3) == "1"; }
  z3::expr mul(const z3::expr &a, const z3::expr &b) { if (isOne(a)) return b; if (isOne(b)) return a; return a * b; }
  z3::expr eqND(const ND &x, const ND &y) { return mul(x.n, y.d) == mul(y.n, x.d); }
  z3::expr val(const ND &x) { return isOne(x.d) ? x.n : x.n / x.d; }
  z3::expr freshv(const char *p) { static long cnt = 0; return c.real_const((std::string(p) + "!" + std::to_string(cnt++)).c_str()); }
  ND num(Node *n) {
    auto it = m.find(n); if (it != m.end()) return it->second;
    ND r = num_(n); m.insert({n, r}); return r;
  }
  ND num_(Node *n) {
    switch (n->op) {
    case X_CQ: case X_DD: return {z.q(n, true), one()};
    case X_IN: ins.insert(n->i); if (strict) return {n->sort == S_REAL ? z3::to_real(z.kvar(n->i)) / c.real_val(4) : z3::to_real(z.kvar(n->i)), one()};
      { z3::expr v = c.real_const(("r" + std::to_string(n->i)).c_str()); return {n->sort == S_REAL ? v / c.real_val(4) : v, one()}; }
    case X_ENV: return {c.real_const((std::string("e_") + NM->s[n->i]).c_str()), one()};
    case X_TOREAL: return num(n->a[0]);
    case X_ADD: case X_SUB: {
      ND a = num(n->a[0]), b = num(n->a[1]);
      if (z3::eq(a.d, b.d)) return {n->op == X_ADD ? a.n + b.n : a.n - b.n, a.d};
      z3::expr x = mul(a.n, b.d), y = mul(b.n, a.d);
      return {n->op == X_ADD ? x + y : x - y, mul(a.d, b.d)}; }
    case X_MUL: { ND a = num(n->a[0]), b = num(n->a[1]); return {mul(a.n, b.n), mul(a.d, b.d)}; }
    case X_DIV: { ND a = num(n->a[0]), b = num(n->a[1]); ax.push_back(b.n != 0); return {mul(a.n, b.d), mul(a.d, b.n)}; }
    case X_ITE: { z3::expr g = boo(n->a[0]); ND a = num(n->a[1]), b = num(n->a[2]);
      if (z3::eq(a.d, b.d)) return {z3::ite(g, a.n, b.n), a.d};
      return {z3::ite(g, a.n, b.n), z3::ite(g, a.d, b.d)}; }
    case X_UF: {
      std::vector<ND> as; for (int k = 0; k < n->nargs; k++) as.push_back(num(n->a[k]));
      z3::expr v = freshv(NM->s[n->i]); App ap{(int)n->i, n, as, v};
      for (auto &o : apps) if (o.f == ap.f) { z3::expr e = c.bool_val(true); for (size_t k = 0; k < as.size(); k++) e = e && eqND(o.args[k], as[k]); ax.push_back(z3::implies(e, o.v == v)); }
      std::string f = NM->s[n->i];
      if (f == "sqrt") { ax.push_back(v >= 0); ax.push_back(mul(v * v, as[0].d) == as[0].n); }
      if (f == "sin" || f == "cos") {
        bool sn = f == "sin"; z3::expr o = freshv(sn ? "cosx" : "sinx");
        // partner: find or create a cos for this sin
        bool found = false;
        for (auto &q : apps) if (std::string(NM->s[q.f]) == (sn ? "cos" : "sin") && q.node->a[0] == n->a[0]) { ax.push_back(v * v + q.v * q.v == 1); found = true; }
        if (!found) ax.push_back(v * v + o * o == 1);
        for (auto &q : apps) if (q.f == ap.f) { z3::expr e = mul(q.args[0].n, as[0].d) == -mul(as[0].n, q.args[0].d); ax.push_back(z3::implies(e, sn ? v == -q.v : v == q.v)); }
        if (sn) ax.push_back(z3::implies(as[0].n == 0, v == 0)); else ax.push_back(z3::implies(as[0].n == 0, v == 1));
        for (auto &q : apps) { std::string g = NM->s[q.f]; // f(a) where a == arcfunction value
          if (g == "asin" || g == "acos" || g == "atan") { z3::expr e = mul(q.v, as[0].d) == as[0].n; invAx(g, f, e, q, v); } 
          if (g == "atan2") { z3::expr e = mul(q.v, as[0].d) == as[0].n; z3::expr Y = val(q.args[0]), X = val(q.args[1]); z3::expr r = freshv("hyp"); ax.push_back(r >= 0); ax.push_back(r * r == X * X + Y * Y); ax.push_back(z3::implies(e && r > 0, v * r == (sn ? Y : X))); } }
      }
      if (f == "asin" || f == "acos" || f == "atan") {
        for (auto &q : apps) { std::string g = NM->s[q.f]; if (g == "sin" || g == "cos") { z3::expr e = mul(v, q.args[0].d) == q.args[0].n; invAx(f, g, e, ap, q.v); } }
        if (f != "acos") { for (auto &q : apps) if (q.f == ap.f) { z3::expr e = mul(q.args[0].n, as[0].d) == -mul(as[0].n, q.args[0].d); ax.push_back(z3::implies(e, v == -q.v)); }
          ax.push_back(z3::implies(as[0].n == 0, v == 0)); ax.push_back(z3::implies(val(as[0]) > 0, v > 0)); ax.push_back(z3::implies(val(as[0]) < 0, v < 0)); }
        else ax.push_back(v >= 0);
      }
      apps.push_back(ap);
      return {v, one()}; }
    case X_IDIV: case X_TRUNC: if (!strict) { unsupported = true; return {freshv("u"), one()}; } return {z3::to_real(z.tr(n)), one()};
    }
    fprintf(stderr, "num_: op %d\n", n->op); abort();
  }
  void invAx(const std::string &inv, const std::string &trig, z3::expr e, App &q, z3::expr v) {
    z3::expr x = val(q.args[0]);
    if (inv == "asin") ax.push_back(z3::implies(e, trig == "sin" ? v == x : (v >= 0 && v * v == 1 - x * x)));
    if (inv == "acos") ax.push_back(z3::implies(e, trig == "cos" ? v == x : (v >= 0 && v * v == 1 - x * x)));
    if (inv == "atan") ax.push_back(z3::implies(e, trig == "cos" ? (v > 0 && v * v * (1 + x * x) == 1) : ((v > 0) == (x > 0) && (v < 0) == (x < 0) && v * v * (1 + x * x) == x * x)));
  }
  z3::expr boo(Node *n) {
    auto it = mb.find(n); if (it != mb.end()) return it->second;
    z3::expr r = boo_(n); mb.insert({n, r}); return r;
  }
  z3::expr boo_(Node *n) {
    switch (n->op) {
    case X_BOOL: return c.bool_val(n->i != 0);
    case X_BENV: return c.bool_const((std::string("e_") + NM->s[n->i]).c_str());
    case X_NOT: return !boo(n->a[0]);
    case X_AND: return boo(n->a[0]) && boo(n->a[1]);
    case X_OR: return boo(n->a[0]) || boo(n->a[1]);
    case X_EQ: if (n->a[0]->sort == S_BOOL) return boo(n->a[0]) == boo(n->a[1]); { ND a = num(n->a[0]), b = num(n->a[1]); return eqND(a, b); }
    case X_LT: case X_LE: { ND a = num(n->a[0]), b = num(n->a[1]); z3::expr x = mul(a.n, b.d), y = mul(b.n, a.d); z3::expr dd = mul(a.d, b.d);
      if (isOne(dd)) return n->op == X_LT ? x < y : x <= y;
      x = x * dd; y = y * dd; return n->op == X_LT ? x < y : x <= y; }
    }
    fprintf(stderr, "boo_: op %d\n", n->op); abort();
  }
};

static void ufMask(Node *n, std::unordered_set<Node *> &seen, bool &uf) { if (!seen.insert(n).second) return; if (n->op == X_UF) uf = true; for (int k = 0; k < n->nargs; k++) ufMask(n->a[k], seen, uf); }

static z3::check_result solveGoal(z3::context &c, const z3::expr_vector &as, unsigned ms, z3::model *mo, bool useNlsat) {
  try {
    z3::params sp(c); sp.set("som", true); 
    z3::tactic pre = z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::with(z3::tactic(c, "simplify"), sp);
    z3::tactic t = useNlsat ? (pre & z3::tactic(c, "elim-term-ite") & z3::tactic(c, "purify-arith") & z3::tactic(c, "tseitin-cnf") & z3::tactic(c, "qfnra-nlsat")) : (pre & z3::tactic(c, "smt"));
    z3::solver s = z3::try_for(t, ms).mk_solver();
    z3::params p(c); p.set("timeout", ms + 500); s.set(p);
    for (unsigned i = 0; i < as.size(); i++) s.add(as[i]);
    z3::check_result r = s.check();
    if (r == z3::sat && mo) *mo = s.get_model();
    return r;
  } catch (z3::exception &e) { if (optVerbose) fprintf(stderr, "z3: %s\n", e.msg()); return z3::unknown; }
}

static double exprToDouble(const z3::expr &v) {
  if (v.is_numeral()) { std::string s = v.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return atof(s.c_str()); }
  if (v.is_algebraic()) { z3::expr l = v.algebraic_lower(40); std::string s = l.get_decimal_string(17); if (!s.empty() && s.back() == '?') s.pop_back(); return atof(s.c_str()); }
  return 0;
}

struct Worker {
  Z z; int id;
  std::unordered_map<std::string, std::pair<int, std::vector<std::pair<int, int64_t>>>> cache;
  std::unordered_map<std::string, int> chkCache;
  int (*mainf)(const char *);
  void *harness;

  void addStat(std::function<void(Stats &)> f) { pthread_mutex_lock(&S->mu); f(S->st); pthread_mutex_unlock(&S->mu); }
  bool pop(Item &it) {
    for (;;) {
      pthread_mutex_lock(&S->mu);
      if (S->stop || now() - tStart > optTime || S->st.paths >= optMaxPaths) { S->stop = 1; pthread_mutex_unlock(&S->mu); return false; }
      if (S->nq) { it = S->q[--S->nq]; S->busy++; pthread_mutex_unlock(&S->mu); return true; }
      bool done = S->busy == 0; pthread_mutex_unlock(&S->mu);
      if (done) return false;
      usleep(500);
    }
  }
  void push(std::vector<Item> &v) {
    pthread_mutex_lock(&S->mu);
    for (auto &i : v) { if (S->nq < QCAP) S->q[S->nq++] = i; else S->st.dropped++; }
    pthread_mutex_unlock(&S->mu);
  }
  static uint32_t labelClass(const char *l) { uint32_t h = 7; bool num = false; for (; *l; l++) { bool d = (*l >= '0' && *l <= '9') || *l == '.'; if (d && num) continue; num = d; h = h * 31 + (d ? '#' : *l); } return h; }
  void finding(int kind, const char *label, const std::string &body) {
    pthread_mutex_lock(&S->mu);
    if (kind != 2) { uint32_t c = labelClass(label); int k = 0, cnt = 0; for (; k < S->nfind; k++) if (labelClass(S->find[k].label) == c) cnt++; if (cnt >= optPerClass) { pthread_mutex_unlock(&S->mu); return; } }
    if (kind == 2) { if (S->nincon < 64) { Find &f = S->incon[S->nincon++]; f.kind = kind; snprintf(f.label, 600, "%s", label); snprintf(f.body, 3400, "%s", body.c_str()); } }
    else if (S->nfind < 256) { Find &f = S->find[S->nfind++]; f.kind = kind; snprintf(f.label, 600, "%s", label); snprintf(f.body, 3400, "%s", body.c_str()); if (S->nfind >= optMaxFind) S->stop = 1; }
    pthread_mutex_unlock(&S->mu);
  }
  std::string inputsStr(const Rec *r, const std::vector<std::pair<int, int64_t>> *ov = nullptr) {
    std::string s = "in";
    std::vector<int64_t> v; for (int k = 0; k < r->nin; k++) v.push_back(r->in[k].val);
    if (ov) for (auto &p : *ov) if (p.first < (int)v.size()) v[p.first] = p.second;
    for (auto x : v) s += " " + std::to_string(x);
    return s + "\n";
  }
  uint64_t evHash(const Rec *r, int upto) { // structure of the prefix
    uint64_t h = 1469598103934665603ull;
    for (int k = 0; k < upto; k++) { const Event &e = r->ev[k]; uint64_t x = e.kind == 1 ? (uint64_t)e.idx * 131 + e.cnt : (uint64_t)(e.n->op == X_NOT ? e.n->a[0] : e.n)->hash; h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
    return h;
  }

  void resetArena() {
    memset(Atab, 0, sizeof(Node *) * TABCAP); A->used = 0; A->nnodes = 0; z.m.clear(); cache.clear(); chkCache.clear();
  }

  void runItem(const Item &it) {
    if (A->nnodes > TABCAP / 2) resetArena();
    Rec *r = R; r->nin = r->nev = r->nchk = r->nasm = 0; r->nstr = 1; r->str[0] = 0; r->overflow = r->finished = r->conc_inexact = r->loststores = r->nnote = 0;
    double t0 = now();
    preset.assign(it.v, it.v + it.n);
    pid_t pid = fork();
    if (pid == 0) {
      signal(SIGALRM, SIG_DFL); alarm(optPathSec);
      struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      if (!optVerbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
      cells = new std::unordered_map<uint64_t, std::vector<Cell>>(); pcset = new std::unordered_set<Node *>();
      filt = (uint16_t *)calloc(65536, 2); exploring = true;
      int rc = mainf(optArg);
      exploring = false; r->finished = 1 + rc;
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    double t1 = now();
    bool crashed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    bool ovf = r->overflow; bool timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    addStat([&](Stats &s) { s.paths++; s.exec += t1 - t0; s.inexact += r->conc_inexact; s.lost += r->loststores; if (crashed && !ovf && !timeout) s.crashes++; if (timeout) s.timeouts++; if (ovf) s.overflow++; });
    if (it.bound > r->nev || (it.bound > 0 && it.prefhash && evHash(r, it.bound) != it.prefhash)) { addStat([&](Stats &s) { s.diverged++; }); if (optVerbose) { fprintf(stderr, "DIVERGED nev=%d bound=%d in", r->nev, it.bound); for (int q = 0; q < r->nin; q++) fprintf(stderr, " %ld", (long)r->in[q].val); fprintf(stderr, "\n"); } if (it.bound > r->nev) return; }
    if (crashed && !ovf) {
      std::string b = inputsStr(r); char l[64]; if (timeout) snprintf(l, 64, "does not terminate within %d s", optPathSec); else snprintf(l, 64, "crash: signal %d", WIFSIGNALED(st) ? WTERMSIG(st) : -1);
      finding(1, l, b);
    }
    if (r->nnote) { pthread_mutex_lock(&S->mu); for (int k = 0; k < r->nnote; k++) { const char *s = r->str + r->note[k]; int j = 0; for (; j < S->nnote; j++) if (!strncmp(S->note[j].s, s, 119)) break; if (j == S->nnote && j < 512) { snprintf(S->note[j].s, 120, "%s", s); S->note[j].c = 0; S->nnote++; } if (j < 512) S->note[j].c++; } pthread_mutex_unlock(&S->mu); }
    expand(r, it);
    for (int k = 0; k < r->nchk; k++) obligation(r, r->chk[k]);
    // a sample of the explored paths is replayed on the plain build by the driver
    if (!crashed && r->finished && S->nsamp < optSamp) {
      std::string b = inputsStr(r); uint32_t hh = 2166136261u; for (char c : b) hh = (hh ^ (unsigned char)c) * 16777619u; hh ^= hh >> 15;
      if (S->st.paths < 4 || hh % 29 == 0) { pthread_mutex_lock(&S->mu); if (S->nsamp < optSamp) { Find &f = S->samp[S->nsamp++]; f.kind = 3; snprintf(f.label, 600, "%s", r->nchk ? r->str + r->chk[0].label : ""); snprintf(f.body, 3400, "%s", b.c_str()); } pthread_mutex_unlock(&S->mu); }
    }
  }

  // schedule the neighbours of this path
  void expand(Rec *r, const Item &it) {
    std::vector<Item> out; double t0 = now();
    // inputs defined before event k
    std::vector<int> inBefore; // not needed: values of all inputs are kept up to the flipped event
    for (int k = it.bound; k < r->nev; k++) {
      Event &e = r->ev[k];
      if (e.kind == 2) continue;
      if (e.kind == 1) {
        addStat([&](Stats &s) { s.choices++; });
        for (int v = e.cnt - 1; v >= 0; v--) if (v != e.val && e.idx >= it.n) {
          Item n; n.n = e.idx + 1; n.bound = k + 1; n.prefhash = evHash(r, k + 1);
          for (int j = 0; j < e.idx; j++) n.v[j] = (int16_t)r->in[j].val; n.v[e.idx] = (int16_t)v; out.push_back(n);
        }
        continue;
      }
      // branch flip
      std::vector<std::pair<int, int64_t>> model; int res = flipQuery(r, k, model);
      addStat([&](Stats &s) { s.branches++; s.flips++; if (res == 1) s.flip_sat++; else if (res == 0) s.flip_unsat++; else s.flip_unknown++; });
      if (res == 1) {
        // inputs created up to event k keep their order; later ones take defaults
        int lim = 0; for (int j = k; j < r->nev; j++) if (r->ev[j].kind == 1) { lim = r->ev[j].idx; break; } else lim = r->nin;
        if (lim == 0 || lim > r->nin) lim = r->nin;
        for (int j = k; j < r->nev; j++) if (r->ev[j].kind == 1) { lim = std::min(lim, r->ev[j].idx); break; }
        Item n; n.n = lim; n.bound = k + 1; n.prefhash = evHash(r, k + 1);
        for (int j = 0; j < lim; j++) n.v[j] = (int16_t)r->in[j].val;
        for (auto &p : model) if (p.first < lim) n.v[p.first] = (int16_t)p.second;
        out.push_back(n);
      }
    }
    addStat([&](Stats &s) { s.solver += now() - t0; });
    push(out);
  }

  int flipQuery(Rec *r, int k, std::vector<std::pair<int, int64_t>> &model) {
    Node *t = nNot(r->ev[k].n);
    // independence slice
    uint64_t mask = t->inmask; std::vector<Node *> sl; std::vector<char> used(k, 0); bool ch = true;
    while (ch) { ch = false; for (int j = 0; j < k; j++) if (!used[j] && r->ev[j].kind != 1 && (r->ev[j].n->inmask & mask)) { used[j] = 1; mask |= r->ev[j].n->inmask; ch = true; } }
    for (int j = 0; j < k; j++) if (used[j]) sl.push_back(r->ev[j].n);
    std::sort(sl.begin(), sl.end()); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    std::string key; key.append((char *)&t, 8); for (auto *n : sl) key.append((char *)&n, 8);
    // defaults of inputs matter for model completion only
    auto it = cache.find(key); if (it != cache.end()) { model = it->second.second; return it->second.first; }
    int res = 2;
    try {
      z3::solver s(z.c); z3::params p(z.c); p.set("timeout", optQms); s.set(p);
      for (int j = 0; j < r->nin; j++) if (r->in[j].kind && (mask >> (j & 63) & 1)) { z3::expr v = z.kvar(j); s.add(v >= r->in[j].lo && v <= r->in[j].hi); }
      for (auto *n : sl) s.add(z.tr(n)); s.add(z.tr(t));
      z3::check_result cr = s.check();
      if (cr == z3::sat) { res = 1; z3::model m = s.get_model(); for (int j = 0; j < r->nin; j++) if (r->in[j].kind && (mask >> (j & 63) & 1)) { z3::expr v = m.eval(z.kvar(j), false); int64_t x; if (v.is_numeral_i64(x)) model.push_back({j, x}); } }
      else if (cr == z3::unsat) res = 0;
    } catch (z3::exception &e) { res = 2; }
    cache[key] = {res, model}; return res;
  }

  // ---- inputs a path fixes are substituted, functions of numbers evaluated in doubles
  std::unordered_map<Node *, Node *> fmap;
  static bool isNum(Node *n, double &v) { if (n->op == X_CQ) { v = (double)n->i / (double)n->j; return true; } if (n->op == X_DD) { v = n->d; return true; } return false; }
  static Node *mkR(double v) { char b[40]; snprintf(b, 40, "%.12g", v); return mkD(atof(b)); } // constants agree to 12 digits
  Node *fold(Node *n) {
    auto it = fmap.find(n); if (it != fmap.end()) return it->second;
    Node *r = n; Node *x[3] = {0, 0, 0}; for (int k = 0; k < n->nargs; k++) x[k] = fold(n->a[k]);
    double u, v;
    switch (n->op) {
    case X_ADD: if (isNum(x[0], u) && isNum(x[1], v) && (true)) r = mkD(u + v); else r = nAdd(x[0], x[1]); break;
    case X_MUL: if (isNum(x[0], u) && isNum(x[1], v) && (true)) r = mkD(u * v); else r = nMul(x[0], x[1]); break;
    case X_DIV: if (isNum(x[0], u) && isNum(x[1], v) && v != 0 && (true)) r = mkD(u / v); else r = nDiv(x[0], x[1]); break;
    case X_ITE: r = nIte(x[0], x[1], x[2]); break;
    case X_NOT: r = nNot(x[0]); break; case X_AND: r = nAnd(x[0], x[1]); break;
    case X_LT: if (isNum(x[0], u) && isNum(x[1], v)) r = mkB(u < v); else r = nLt(x[0], x[1]); break;
    case X_EQ: if (x[0]->sort != S_BOOL && isNum(x[0], u) && isNum(x[1], v)) r = mkB(fabs(u - v) <= 1e-9 * (1 + fabs(u) + fabs(v))); else r = nEq(x[0], x[1]); break;
    case X_TOREAL: r = toReal(x[0]); break;
    case X_UF: {
      std::string f = NM->s[n->i];
      if (isNum(x[0], u) && (!x[1] || isNum(x[1], v))) {
        double w = NAN;
        if (x[1]) w = f == "atan2" ? atan2(u + 0.0, v + 0.0) : f == "pow" ? pow(u, v) : NAN;
        else w = f == "sqrt" ? sqrt(u) : f == "sin" ? sin(u) : f == "cos" ? cos(u) : f == "asin" ? asin(u) : f == "acos" ? acos(u) : f == "atan" ? atan(u) : f == "exp" ? exp(u) : f == "log" ? log(u) : NAN;
        if (isfinite(w)) { r = mkD(w); break; }
      }
      if (x[0] != n->a[0] || x[1] != n->a[1]) r = fnNode(NM->s[n->i], x[0], x[1]);
      break; }
    default: break;
    }
    return fmap[n] = r;
  }
  std::unordered_map<Node *, Node *> rmap;
  Node *rnd(Node *n) { // numbers to 12 digits
    auto it = rmap.find(n); if (it != rmap.end()) return it->second;
    Node *r = n, *x[3] = {0, 0, 0}; for (int k = 0; k < n->nargs; k++) x[k] = rnd(n->a[k]);
    switch (n->op) {
    case X_DD: r = mkR(n->d); break;
    case X_ADD: r = nAdd(x[0], x[1]); break; case X_MUL: r = nMul(x[0], x[1]); break; case X_DIV: r = nDiv(x[0], x[1]); break;
    case X_ITE: r = nIte(x[0], x[1], x[2]); break; case X_NOT: r = nNot(x[0]); break; case X_AND: r = nAnd(x[0], x[1]); break;
    case X_LT: r = nLt(x[0], x[1]); break; case X_EQ: r = nEq(x[0], x[1]); break; case X_TOREAL: r = toReal(x[0]); break;
    case X_UF: if (x[0] != n->a[0] || x[1] != n->a[1]) r = fnNode(NM->s[n->i], x[0], x[1]); break;
    default: break;
    }
    return rmap[n] = r;
  }
  Node *folded(Node *n) { return rnd(fold(n)); }
  void foldInputs(Rec *r, const std::vector<Node *> &pcs) {
    fmap.clear(); rmap.clear();
    for (auto *n : pcs) if (n->op == X_EQ) for (int k = 0; k < 2; k++) if (n->a[k]->op == X_IN && n->a[1 - k]->op == X_CQ) fmap[n->a[k]] = n->a[1 - k];
  }
  bool foldedProof(Rec *r, const Check &ch, const std::vector<Node *> &pcs) {
    foldInputs(r, pcs);
    Node *g = folded(ch.n); if (g->op == X_BOOL && g->i) return true;
    Rel q(z, false); z3::expr_vector as(z.c); as.push_back(!q.boo(g));
    for (auto *n : pcs) { Node *m = folded(n); if (m->op == X_BOOL) { if (!m->i) return true; continue; } as.push_back(q.boo(m)); }
    for (int j = 0; j < ch.nassume; j++) { Node *m = folded(r->asm_[j]); if (m->op == X_BOOL && !m->i) return true; as.push_back(q.boo(m)); }
    for (unsigned k = 0; k < q.ax.size(); k++) as.push_back(q.ax[k]);
    for (int j : q.ins) { z3::expr v = z.c.real_const(("r" + std::to_string(j)).c_str()); as.push_back(v >= r->in[j].lo && v <= r->in[j].hi); }
    return solveGoal(z.c, as, optQms, nullptr, false) == z3::unsat;
  }
  void obligation(Rec *r, const Check &ch) {
    const char *label = r->str + ch.label;
    if (ch.n->op == X_BOOL) {
      if (ch.n->i) { addStat([&](Stats &s) { s.checks++; s.trivial++; }); return; }
      // reachable failure: confirm the assumptions can hold on this path
    }
    double t0 = now();
    std::vector<Node *> pcs; for (int j = 0; j < ch.nev; j++) if (r->ev[j].kind != 1) pcs.push_back(r->ev[j].n);
    std::sort(pcs.begin(), pcs.end()); pcs.erase(std::unique(pcs.begin(), pcs.end()), pcs.end());
    std::string key; key.append((char *)&ch.n, 8); for (auto *n : pcs) key.append((char *)&n, 8); for (int j = 0; j < ch.nassume; j++) key.append((char *)&r->asm_[j], 8);
    auto ci = chkCache.find(key);
    if (ci != chkCache.end()) { int v = ci->second; addStat([&](Stats &s) { s.checks++; if (v == 0) s.proved++; else if (v == 2) s.incon++; }); return; }
    int verdict = 2; std::string body;
    for (int mode = 0; mode < 4 && verdict == 2; mode++) {
      bool strict = mode >= 2; bool nl = mode == 1 || mode == 3;
      Rel q(z, strict); z3::expr_vector as(z.c);
      z3::expr goal = !q.boo(ch.n);
      for (auto *n : pcs) as.push_back(q.boo(n));
      for (int j = 0; j < ch.nassume; j++) as.push_back(q.boo(r->asm_[j]));
      as.push_back(goal);
      if (q.unsupported && !strict) { mode = 1; continue; }
      for (unsigned k = 0; k < q.ax.size(); k++) as.push_back(q.ax[k]);
      for (int j : q.ins) { if (strict) { z3::expr v = z.kvar(j); as.push_back(v >= r->in[j].lo && v <= r->in[j].hi); } else { z3::expr v = z.c.real_const(("r" + std::to_string(j)).c_str()); as.push_back(v >= r->in[j].lo && v <= r->in[j].hi); } }
      z3::model mo(z.c);
      z3::check_result cr = solveGoal(z.c, as, mode == 0 ? optQms / 2 : optQms, &mo, nl);
      if (cr == z3::unsat) verdict = 0;
      else if (cr == z3::sat) {
        if (!strict && !q.ins.empty()) { mode = 1; // need values the inputs can take
          // the model may already be integral
          bool okm = true; std::vector<std::pair<int, int64_t>> ov;
          for (int j : q.ins) { double d = exprToDouble(mo.eval(z.c.real_const(("r" + std::to_string(j)).c_str()), true)); if (d != floor(d)) okm = false; ov.push_back({j, (int64_t)llround(d)}); }
          if (!okm) continue;
          verdict = 1; body = inputsStr(r, &ov);
        } else {
          verdict = 1; std::vector<std::pair<int, int64_t>> ov;
          if (strict) for (int j : q.ins) { int64_t x; z3::expr v = mo.eval(z.kvar(j), true); if (v.is_numeral_i64(x)) ov.push_back({j, x}); }
          body = inputsStr(r, &ov);
        }
        for (unsigned k = 0; k < mo.num_consts(); k++) { z3::func_decl d = mo.get_const_decl(k); std::string nm = d.name().str(); if (nm.compare(0, 2, "e_") == 0) { z3::expr v = mo.get_const_interp(d); char b[160]; if (d.range().is_bool()) snprintf(b, 160, "env %s %d\n", nm.c_str() + 2, (int)v.is_true()); else snprintf(b, 160, "env %s %.17g\n", nm.c_str() + 2, exprToDouble(v)); body += b; } }
      }
    }
    if (verdict != 0 && foldedProof(r, ch, pcs)) { verdict = 0; addStat([&](Stats &s) { s.folded++; }); }
    if (verdict == 1) finding(0, label, body);
    else if (verdict == 2) finding(2, label, inputsStr(r));
    chkCache[key] = verdict;
    addStat([&](Stats &s) { s.checks++; s.solver += now() - t0; if (verdict == 0) s.proved++; else if (verdict == 1) s.cex++; else s.incon++; });
    // vacuity: every 37th proved obligation must have satisfiable hypotheses
    if (verdict == 0 && (S->st.proved % 37) == 0) {
      Rel q(z, false); z3::expr_vector as(z.c); q.boo(ch.n);
      for (auto *n : pcs) as.push_back(q.boo(n)); for (int j = 0; j < ch.nassume; j++) as.push_back(q.boo(r->asm_[j])); for (unsigned k = 0; k < q.ax.size(); k++) as.push_back(q.ax[k]);
      z3::check_result cr = solveGoal(z.c, as, optQms, nullptr, false);
      addStat([&](Stats &s) { s.vac_checked++; if (cr == z3::unsat) s.vac_bad++; s.solver += 0; });
      if (cr == z3::unsat) finding(2, (std::string("VACUOUS ") + label).c_str(), inputsStr(r));
    }
  }
};

static void *shmap(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }
static std::string jesc(const char *s) { std::string o; for (; *s; s++) { unsigned char ch = *s; if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += '?'; else o += ch; } return o; }

int main(int argc, char **argv) {
  const char *so = nullptr, *out = nullptr; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-j") optWorkers = atoi(argv[++i]); else if (a == "-t") optTime = atof(argv[++i]); else if (a == "-n") optMaxPaths = atol(argv[++i]);
    else if (a == "-f") optMaxFind = atoi(argv[++i]); else if (a == "-q") optQms = atoi(argv[++i]); else if (a == "-p") optPathSec = atoi(argv[++i]);
    else if (a == "-a") optArg = argv[++i]; else if (a == "-o") out = argv[++i]; else if (a == "-v") optVerbose = 1; else if (a == "-c") optPerClass = atoi(argv[++i]); else if (a == "-s") optSamp = std::min(64, atoi(argv[++i])); else so = argv[i];
  }
  tStart = now();
  S = (Shared *)shmap(sizeof(Shared)); NM = (Names *)shmap(sizeof(Names));
  pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &at);
  S->nq = 1; memset(&S->q[0], 0, sizeof(Item));
  void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
  auto mf = (int (*)(const char *))dlsym(h, "sxh_main"); if (!mf) { fprintf(stderr, "no sxh_main\n"); return 3; }
  std::vector<pid_t> ws;
  for (int w = 0; w < optWorkers; w++) {
    pid_t p = fork();
    if (p == 0) {
      A = (Arena *)shmap(sizeof(Arena)); R = &A->rec; Abase = (char *)shmap(ARENA_BYTES); Atab = (Node **)shmap(sizeof(Node *) * TABCAP);
      // names must be stable inside one worker: private table
      NM = (Names *)shmap(sizeof(Names)); memset(NM, 0, sizeof *NM);
      Worker k; k.id = w; k.mainf = mf; k.harness = h;
      Item it; 
      while (k.pop(it)) { k.runItem(it); pthread_mutex_lock(&S->mu); S->busy--; pthread_mutex_unlock(&S->mu); }
      fflush(stdout); _exit(0);
    }
    ws.push_back(p);
  }
  int dead = 0, late = 0;
  while (!ws.empty()) { // a solver call that ignores its time limit ends with its worker
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) { if (!late && now() - tStart > optTime + 30) { late = 1; S->stop = 1; for (pid_t q : ws) kill(q, SIGKILL); } usleep(2000); continue; }
    if (p < 0) break;
    auto w = std::find(ws.begin(), ws.end(), p); if (w == ws.end()) continue;
    ws.erase(w);
    if (st != 0) { dead++; if (!late) fprintf(stderr, "worker died: status %d\n", st); S->busy = 0; S->stop = 1; }
  }
  Stats &s = S->st; FILE *f = out ? fopen(out, "w") : stdout;
  bool complete = !dead && !S->stop && S->nq == 0 && !s.dropped;
  fprintf(f, "{\"complete\": %s, \"workers_died\": %d, \"paths\": %ld, \"choices\": %ld, \"branch_queries\": %ld, \"flip_sat\": %ld, \"flip_unsat\": %ld, \"flip_unknown\": %ld, \"obligations\": %ld, \"trivial\": %ld, \"proved\": %ld, \"inconclusive\": %ld, \"counterexamples\": %ld, \"crashes\": %ld, \"path_timeouts\": %ld, \"diverged\": %ld, \"overflow\": %ld, \"pinned\": %ld, \"stale_cells\": %ld, \"vacuity_checked\": %ld, \"vacuous\": %ld, \"folded\": %ld, \"queue_left\": %ld, \"solver_s\": %.2f, \"exec_s\": %.2f, \"wall_s\": %.2f,\n",
          complete ? "true" : "false", dead, s.paths, s.choices, s.flips, s.flip_sat, s.flip_unsat, s.flip_unknown, s.checks, s.trivial, s.proved, s.incon, s.cex, s.crashes, s.timeouts, s.diverged, s.overflow, s.inexact, s.lost, s.vac_checked, s.vac_bad, s.folded, S->nq, s.solver, s.exec, now() - tStart);
  fprintf(f, " \"notes\": {"); for (int k = 0; k < S->nnote; k++) fprintf(f, "%s\"%s\": %ld", k ? ", " : "", jesc(S->note[k].s).c_str(), S->note[k].c);
  fprintf(f, "},\n \"findings\": ["); for (int k = 0; k < S->nfind; k++) fprintf(f, "%s\n  {\"kind\": %d, \"label\": \"%s\", \"body\": \"%s\"}", k ? "," : "", S->find[k].kind, jesc(S->find[k].label).c_str(), jesc(S->find[k].body).c_str());
  fprintf(f, "],\n \"inconclusives\": ["); for (int k = 0; k < S->nincon; k++) fprintf(f, "%s\n  {\"label\": \"%s\", \"body\": \"%s\"}", k ? "," : "", jesc(S->incon[k].label).c_str(), jesc(S->incon[k].body).c_str());
  fprintf(f, "],\n \"samples\": ["); for (int k = 0; k < S->nsamp; k++) fprintf(f, "%s\n  {\"label\": \"%s\", \"body\": \"%s\"}", k ? "," : "", jesc(S->samp[k].label).c_str(), jesc(S->samp[k].body).c_str());
  fprintf(f, "]}\n"); if (out) fclose(f);
  return 0;
}
